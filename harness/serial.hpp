// Saving and loading (C31): every value, alone and among many others, through text, binary and XML archives.
#include "vmon.hpp"
#include <fstream>
#include <map>
#include <sstream>
#include <tuple>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/unordered_map.hpp>
#include <boost/serialization/unordered_set.hpp>
#include <boost/serialization/variant.hpp>
#include <boost/serialization/vector.hpp>
#include <esl/quantity.hpp>
#include <esl/data/serialization.hpp>
#include <esl/agent.hpp>
#include <esl/simulation/world.hpp>
#include <esl/simulation/parameter/parameter.hpp>
#include <esl/simulation/parameter/parametrization.hpp>
#include <esl/computation/timing.hpp>
#include <esl/computation/distributed/protocol.hpp>
#include <esl/economics/asset.hpp>
#include <esl/economics/company.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/exchange_rate.hpp>
#include <esl/economics/interest_rate.hpp>
#include <esl/economics/rate.hpp>
#include <esl/economics/finance/dividend.hpp>
#include <esl/economics/finance/share_class.hpp>
#include <esl/economics/finance/shareholder.hpp>
#include <esl/economics/markets/logout_message.hpp>
#include <esl/economics/markets/order_status_request_message.hpp>
#include <esl/economics/markets/quote.hpp>
#include <esl/economics/markets/walras/quote_message.hpp>
#include <esl/geography/iso_3166_1_alpha_2.hpp>
#include <esl/interaction/transfer.hpp>
#include <esl/law/government.hpp>
#include <esl/law/jurisdiction.hpp>
#include <esl/law/legal_entity.hpp>
#include <esl/law/natural_person.hpp>
#include <esl/mathematics/interval.hpp>

using namespace esl;
using vmon::u64;
using economics::price;
using economics::iso_4217;
using economics::markets::quote;
using economics::finance::share_class;
using economics::finance::dividend_policy;
using economics::finance::dividend_announcement_message;
using economics::finance::dividend_record;
using country = geography::iso_3166_1_alpha_2;

namespace {
// ---------------------------------------------------------------- random values
using R = vmon::rng;
u64 wide(R &r) { switch(r.below(5)) { case 0: return r.below(4); case 1: return ~0ull - r.below(3); case 2: return (1ull << r.below(64)) + r.below(3) - 1; case 3: return r.below(1000000); default: return r.next(); } }
std::int64_t signed_wide(R &r) { switch(r.below(5)) { case 0: return r.in(-3, 3); case 1: return INT64_MAX - std::int64_t(r.below(3)); case 2: return INT64_MIN + std::int64_t(r.below(3)); default: return std::int64_t(wide(r)); } }
double real(R &r) { switch(r.below(5)) { case 0: return double(r.in(-3, 3)); case 1: return r.real(-1, 1); case 2: return r.real(0, 1) * std::pow(10., double(r.in(-300, 300))); case 3: return 1. / double(r.in(1, 1000)); default: return double(r.in(-1000000, 1000000)) / 3; } }

template<typename T> void make(R &, identity<T> &);
void make(R &r, bool &x) { x = r.chance(.5); }
void make(R &r, double &x) { x = real(r); }
void make(R &r, int &x) { x = int(signed_wide(r)); }
void make(R &r, std::int64_t &x) { x = signed_wide(r); }
void make(R &r, u64 &x) { x = wide(r); }
template<typename T> void make(R &r, identity<T> &x) { x.digits.clear(); size_t n = r.chance(.1) ? r.below(40) : r.below(5); while(n--) x.digits.push_back(wide(r)); }
void make(R &r, quantity &x) { x.amount = wide(r); }
void make(R &r, iso_4217 &x) { std::array<char, 3> c; for(auto &k : c) k = char('A' + r.below(26)); u64 d = 1; for(u64 n = r.below(6); n--;) d *= 10; x = iso_4217(c, d); if(r.chance(.3)) x = r.pick({economics::currencies::USD, economics::currencies::JPY, economics::currencies::KWD, economics::currencies::EUR}); }
void make(R &r, price &x) { x.value = signed_wide(r); make(r, x.valuation); }
void make(R &r, quote &x) { price p; make(r, p); x = quote(p, std::uint32_t(std::max<u64>(1, r.chance(.3) ? 1 : wide(r) & 0xffffffffull))); }
template<typename T> void make(R &r, std::vector<T> &x) { x.clear(); for(u64 n = r.below(6); n--;) { T t{}; make(r, t); x.push_back(t); } }
void make(R &r, std::string &x)
{
    static const std::string alphabet = "abc XYZ019 <>&'\",;\n\t#-_/\\\xc3\xa9";
    x.clear(); for(u64 n = r.below(3) ? r.below(20) : 0; n--;) { char k = alphabet[r.below(alphabet.size())]; if(static_cast<unsigned char>(k) >= 0x80) x += "\xc3\xa9"; else x += k; }
}
std::int64_t ratio(R &r) { std::int64_t v = signed_wide(r); return v < -INT64_MAX ? -INT64_MAX : v; }
void make(R &r, economics::rate<std::int64_t> &x) { x = economics::rate<std::int64_t>(r.in(-1000000000, 1000000000), r.chance(.3) ? 1 + INT64_MAX / 2 - std::int64_t(r.below(9)) : r.in(1, 1000000000)); }
u64 positive(R &r) { return std::max<u64>(1, wide(r)); }
void make(R &r, economics::rate<u64> &x) { x = economics::rate<u64>(wide(r), positive(r)); }
void make(R &r, economics::exchange_rate &x) { x = economics::exchange_rate(positive(r), positive(r)); }
void make(R &r, economics::interest_rate &x) { economics::rate<> q(ratio(r), std::max<std::int64_t>(1, ratio(r) & INT64_MAX)); x = economics::interest_rate(q, wide(r)); }
template<typename T, bool L, bool U> void make(R &r, mathematics::interval<T, L, U> &x) { make(r, x.lower); make(r, x.upper); }
void make(R &r, share_class &x) { x = share_class(std::uint8_t(r.below(256)), std::uint8_t(r.below(256)), float(r.real(0, 2)), r.chance(.5), r.chance(.5), r.chance(.5)); }
template<typename... T> void make(R &r, std::tuple<T...> &x) { std::apply([&](auto &... e) { (make(r, e), ...); }, x); }
void make(R &r, computation::agent_timing &x) { x.messaging = std::chrono::milliseconds(signed_wide(r)); x.acting = std::chrono::milliseconds(signed_wide(r)); }
void make(R &r, computation::distributed::activation &x) { make(r, x.location); make(r, x.activated); }
void make(R &r, computation::distributed::migration &x) { make(r, x.source); make(r, x.target); make(r, x.migrant); }
void make(R &r, computation::distributed::deactivation &x) { make(r, x.deactivated); }
void make(R &r, law::government &x) { make(r, x.title); }
template<typename T> void make(R &r, simulation::parameter::constant<T> &x) { make(r, x.choice); }
template<typename T> void make(R &r, simulation::parameter::categorical<T> &x) { make(r, x.categories); }
void head(R &r, interaction::header &h) { make(r, h.sender); make(r, h.recipient); make(r, h.sent); make(r, h.received); }
void make(R &r, interaction::header &h) { make(r, h.type); head(r, h); }
void make(R &r, economics::markets::logout_message &m) { head(r, m); }
void make(R &r, economics::markets::order_status_request_message &m) { head(r, m); }
void make(R &r, dividend_policy &p)
{
    make(r, p.announcement_date); make(r, p.ex_dividend_date); make(r, p.dividend_period); make(r, p.payable_date); make(r, p.dividend_currency);
    p.dividend_per_share.clear();
    for(u64 n = r.below(5); n--;) { share_class c; make(r, c); std::tuple<std::uint64_t, price> t; make(r, t); p.dividend_per_share.insert_or_assign(c, t); }
}
void make(R &r, dividend_announcement_message &m) { head(r, m); make(r, m.policy); }
void make(R &r, dividend_record &m) { head(r, m); m.shares_on_record.clear(); for(u64 n = r.below(5); n--;) { share_class c; make(r, c); m.shares_on_record[c] = wide(r); } }
using filter = economics::accounting::inventory_filter<law::property>;
void make(R &r, filter &f)
{
    f.items.clear();
    for(u64 n = r.below(5); n--;) { identity<law::property> i; make(r, i); f.items[std::make_shared<law::property>(i)] = quantity(wide(r)); }
}
void make(R &r, interaction::transfer &m) { head(r, m); make(r, m.transferor); make(r, m.transferee); make(r, m.transferred); }
void make(R &r, economics::markets::walras::quote_message &m)
{
    head(r, m); m.proposed.clear(); m.binding = r.chance(.5) ? economics::markets::indication::firm : economics::markets::indication::indicative;
    for(u64 n = r.below(5); n--;) { identity<law::property> i; make(r, i); quote q; make(r, q); m.proposed.emplace(std::make_shared<law::property>(i), q); }
}

// ---------------------------------------------------------------- what two equal values show
std::string show(u64 v) { return std::to_string(v); }
std::string show(std::int64_t v) { return std::to_string(v); }
std::string show(int v) { return std::to_string(v); }
std::string show(bool v) { return v ? "true" : "false"; }
std::string show(double v) { char b[64]; snprintf(b, sizeof b, "%a", v); return b; }
std::string show(const std::string &s) { return "'" + s + "'"; }
template<typename T> std::string show(const identity<T> &i) { std::string s = "("; for(auto d : i.digits) s += std::to_string(d) + "-"; return s + ")"; }
std::string show(const quantity &q) { return "q" + show(q.amount); }
std::string show(const iso_4217 &c) { return std::string(c.code.data(), 3) + "/" + std::to_string(c.denominator); }
std::string show(const price &p) { return show(p.value) + show(p.valuation); }
std::string show(const quote &q) { return std::to_string(q.lot) + "@" + std::to_string(q.type.index()) + ":" + show(std::get<price>(q.type)); }
std::string show(const country &c) { return std::string(c.code.data(), 2); }
template<typename T> std::string show(const std::vector<T> &x) { std::string s = "["; for(const T &t : x) s += show(t) + ","; return s + "]"; }
template<typename T> std::string show(const boost::rational<T> &x) { return std::to_string(x.numerator()) + "/" + std::to_string(x.denominator()); }
std::string show(const economics::interest_rate &x) { return show(static_cast<const boost::rational<std::int64_t> &>(x)) + "per" + show(x.duration); }
template<typename T, bool L, bool U> std::string show(const mathematics::interval<T, L, U> &x) { return show(x.lower) + ".." + show(x.upper); }
std::string show(const share_class &s) { return std::to_string(s.rank) + ":" + std::to_string(s.votes) + ":" + show(double(s.preference)) + show(s.dividend) + show(s.cumulative) + show(s.redeemable); }
template<typename... T> std::string show(const std::tuple<T...> &x) { std::string s = "<"; std::apply([&](const auto &... e) { ((s += show(e) + ","), ...); }, x); return s + ">"; }
std::string show(const computation::agent_timing &x) { return std::to_string(x.messaging.count()) + "," + std::to_string(x.acting.count()); }
std::string show(const computation::distributed::activation &x) { return show(x.location) + show(x.activated); }
std::string show(const computation::distributed::migration &x) { return show(x.source) + ">" + show(x.target) + show(x.migrant); }
std::string show(const computation::distributed::deactivation &x) { return show(x.deactivated); }
std::string show(const law::government &x) { return show(x.title); }
std::string show(const law::natural_person &x) { return show(x.nationality); }
std::string show(const law::jurisdiction &x) { return show(x.sovereign) + show(x.tender); }
std::string show(const law::iso_17442 &x) { return std::string(x.local.data(), 4) + std::string(x.code.data(), 12); }
template<typename T> std::string show(const simulation::parameter::constant<T> &x) { return show(x.choice); }
template<typename T> std::string show(const simulation::parameter::categorical<T> &x) { return show(x.categories); }
std::string show(const interaction::header &h) { return std::to_string(h.type) + " " + show(h.sender) + show(h.recipient) + show(h.sent) + "," + show(h.received); }
std::string show(const dividend_policy &p)
{
    std::string s = show(p.announcement_date) + "," + show(p.ex_dividend_date) + "," + show(p.dividend_period) + "," + show(p.payable_date) + show(p.dividend_currency);
    for(auto &[c, t] : p.dividend_per_share) s += "{" + show(c) + "=" + show(t) + "}";
    return s;
}
std::string show(const dividend_announcement_message &m) { return show(static_cast<const interaction::header &>(m)) + show(m.policy); }
std::string show(const dividend_record &m) { std::string s = show(static_cast<const interaction::header &>(m)); for(auto &[c, t] : m.shares_on_record) s += "{" + show(c) + "=" + show(t) + "}"; return s; }
template<typename M, typename F> std::string unordered(const M &m, F &&f) { std::vector<std::string> v; for(auto &e : m) v.push_back(f(e)); std::sort(v.begin(), v.end()); std::string s; for(auto &e : v) s += "{" + e + "}"; return s; }
std::string show(const filter &f) { return unordered(f.items, [](auto &e) { return show(e.first->identifier) + "=" + show(e.second); }); }
std::string show(const interaction::transfer &m) { return show(static_cast<const interaction::header &>(m)) + show(m.transferor) + show(m.transferee) + show(m.transferred); }
std::string show(const economics::markets::walras::quote_message &m) { return show(static_cast<const interaction::header &>(m)) + (m.binding == economics::markets::indication::firm ? "!" : "?") + unordered(m.proposed, [](auto &e) { return show(e.first->identifier) + "=" + show(e.second); }); }
std::string show(const law::property &p) { return show(p.identifier); }
std::string show(const simulation::world &p) { return show(p.identifier); }

// ---------------------------------------------------------------- archives
struct text { static constexpr const char *name = "text"; using out = boost::archive::text_oarchive; using in = boost::archive::text_iarchive; };
struct binary { static constexpr const char *name = "binary"; using out = boost::archive::binary_oarchive; using in = boost::archive::binary_iarchive; };
struct xml { static constexpr const char *name = "xml"; using out = boost::archive::xml_oarchive; using in = boost::archive::xml_iarchive; };

// saves the values one after another, and loads them over the given others
template<typename A, typename T> void through(vmon::ctx &c, const char *what, std::vector<std::unique_ptr<T>> &values, std::vector<std::unique_ptr<T>> &targets)
{
    std::string key = std::string("round-trip-") + what + "-" + A::name, bytes;
    std::vector<std::string> before; for(auto &v : values) before.push_back(show(*v));
    try {
        std::stringstream s; { typename A::out o(s); for(auto &v : values) { const T &k = *v; o << boost::serialization::make_nvp("value", k); } }
        bytes = s.str();
        for(size_t i = 0; i < values.size(); ++i) vmon::check(c, {"C31"}, show(*values[i]) == before[i], "saving-leaves-value-" + std::string(what), before[i], show(*values[i]));
        typename A::in in(s); for(auto &v : targets) in >> boost::serialization::make_nvp("value", *v);
    } catch(const std::exception &e) { vmon::fail(c, "C31", key + "-exception", std::string(e.what()) + " after " + vmon::tail(bytes, 400)); return; }
    for(size_t i = 0; i < values.size(); ++i) vmon::check(c, {"C31"}, before[i] == show(*targets[i]), key, before[i], show(*targets[i]), i, "of", values.size());
    vmon::event("round-trips", values.size());
}
template<typename T, typename F> void kinds(vmon::ctx &c, const char *what, F &&fresh)
{
    // one value, a few, or many in one archive; loaded into default values or over others
    size_t n = c.r.chance(.5) ? 1 : c.r.chance(.9) ? c.r.in(2, 6) : 60;
    bool over = c.r.chance(.5);
    std::vector<std::unique_ptr<T>> v; for(size_t i = 0; i < n; ++i) v.push_back(fresh(true));
    for(int a = 0; a < 3; ++a) {
        std::vector<std::unique_ptr<T>> t; for(size_t i = 0; i < n; ++i) t.push_back(fresh(over));
        if(a == 0) through<text>(c, what, v, t); else if(a == 1) through<binary>(c, what, v, t); else through<xml>(c, what, v, t);
    }
    for(auto &e : v) c.touch(what + show(*e));
    vmon::distinct(vmon::hash_string(what + show(*v[0])));
    c.note(std::string(what) + " x" + std::to_string(n) + (over ? " over others" : "") + ": " + show(*v[0]));
}
template<typename T> void plain(vmon::ctx &c, const char *what)
{
    kinds<T>(c, what, [&](bool random) { auto p = std::make_unique<T>(); if(random) make(c.r, *p); return p; });
}
country some_country(R &r) { return country(std::array<char, 2>{char('A' + r.below(26)), char('A' + r.below(26))}); }
template<size_t N> std::array<char, N> some_code(R &r, bool x) { static const char a[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"; std::array<char, N> k; for(auto &e : k) e = x ? a[r.below(36)] : '0'; return k; }
// values of different types one after another in one archive, saved to a file and loaded in the same order
template<typename A> void mixed(vmon::ctx &c)
{
    struct any { virtual ~any() = default; virtual void save(typename A::out &) = 0; virtual void load(typename A::in &) = 0; virtual std::string before() = 0; virtual std::string after() = 0; };
    std::vector<std::unique_ptr<any>> v;
    auto add = [&](auto tag) {
        using T = typename decltype(tag)::type;
        struct one : any { T a, b; void save(typename A::out &o) override { const T &k = a; o << boost::serialization::make_nvp("value", k); } void load(typename A::in &i) override { i >> boost::serialization::make_nvp("value", b); } std::string before() override { return show(a); } std::string after() override { return show(b); } };
        auto p = std::make_unique<one>(); make(c.r, p->a); v.push_back(std::move(p)); };
    size_t n = c.r.in(2, 40);
    for(size_t i = 0; i < n; ++i) switch(c.r.below(12)) {
        case 0: add(std::common_type<identity<agent>>()); break;
        case 1: add(std::common_type<quantity>()); break;
        case 2: add(std::common_type<price>()); break;
        case 3: add(std::common_type<quote>()); break;
        case 4: add(std::common_type<economics::exchange_rate>()); break;
        case 5: add(std::common_type<economics::interest_rate>()); break;
        case 6: add(std::common_type<std::tuple<int, price, std::string>>()); break;
        case 7: add(std::common_type<dividend_policy>()); break;
        case 8: add(std::common_type<interaction::transfer>()); break;
        case 9: add(std::common_type<share_class>()); break;
        case 10: add(std::common_type<iso_4217>()); break;
        default: add(std::common_type<interaction::header>());
    }
    std::string path = vmon::S().scratch + "/archive";
    try {
        { std::ofstream f(path, std::ios::binary); typename A::out o(f); for(auto &e : v) e->save(o); }
        { std::ifstream f(path, std::ios::binary); typename A::in i(f); for(auto &e : v) e->load(i); }
    } catch(const std::exception &e) { vmon::fail(c, "C31", std::string("mixed-archive-exception-") + A::name, e.what()); return; }
    for(size_t i = 0; i < n; ++i) vmon::check(c, {"C31"}, v[i]->before() == v[i]->after(), std::string("mixed-archive-") + A::name, i, "of", n, v[i]->before(), v[i]->after());
    std::string all; for(auto &e : v) all += e->before(); c.touch(all); vmon::event("mixed-archives"); vmon::event("round-trips", n);
    c.note(std::string(A::name) + " with " + std::to_string(n) + " values of mixed types");
}
}
