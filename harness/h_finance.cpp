// Quoting rule (C24), companies and shareholders (C25), accounting (C26).
#include "vmon.hpp"
#include <cassert>
#include <cmath>
#include <esl/computation/environment.hpp>
#include <esl/economics/accounting/cash_flow_statement.hpp>
#include <esl/economics/accounting/standard.hpp>
#include <esl/economics/company.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/finance/dividend.hpp>
#include <esl/economics/finance/bondholder.hpp>
#include <esl/economics/finance/shareholder.hpp>
#include <esl/economics/markets/walras/quote_message.hpp>
#include <esl/economics/markets/order_book/avellaneda_stoikov.hpp>
#include <esl/simulation/model.hpp>

using namespace esl;
using namespace esl::economics;
using simulation::time_point;
using simulation::time_interval;
using vmon::u64;
using vmon::i64;
typedef __float128 real;

// ------------------------------------------------------------ C24 quoting rule
namespace {
struct quoting { i64 mid; iso_4217 currency; u64 n_long, n_short; double theta, sigma, gamma, k; };
std::string show(const quoting &q)
{
    std::ostringstream o; o.precision(17);
    o << "mid " << q.mid << "/" << q.currency.denominator << " long " << q.n_long << " short " << q.n_short << " theta " << q.theta << " sigma " << q.sigma << " gamma " << q.gamma << " k " << q.k;
    return o.str();
}
std::pair<i64, i64> quotes_of(vmon::ctx &c, const quoting &q)
{
    auto [b, a] = markets::order_book::avellaneda_stoikov(price(q.mid, q.currency), q.n_long, q.n_short, q.theta, q.sigma, q.gamma, q.k);
    vmon::check(c, "C24", b.valuation == q.currency && a.valuation == q.currency, "quote-currency", show(q));
    return {b.value, a.value};
}
quoting random_quoting(vmon::rng &r)
{
    quoting q;
    q.currency = r.pick({currencies::USD, currencies::EUR, currencies::JPY, currencies::KWD, currencies::GBP});
    i64 d = i64(q.currency.denominator);
    i64 top = 1000000000ll * d;
    q.mid = r.chance(.1) ? r.in(1, 3) : r.chance(.1) ? top - i64(r.below(3)) : r.chance(.5) ? r.in(1, 100000) : 1 + i64(r.magnitude(36)) % top;
    u64 n = r.chance(.3) ? 0 : r.chance(.5) ? r.below(10) : r.below(1000000);
    u64 m = r.chance(.5) ? 0 : r.chance(.5) ? r.below(10) : r.below(1000000);
    q.n_long = n; q.n_short = m;
    if(r.chance(.3)) std::swap(q.n_long, q.n_short);
    if(r.chance(.1)) q.n_short = q.n_long;
    q.theta = r.chance(.15) ? 0. : r.chance(.15) ? 1. : r.chance(.1) ? .5 : r.real();
    q.sigma = r.chance(.2) ? 2. : r.chance(.2) ? 1e-6 : std::exp(r.real(-5, 4));
    q.gamma = r.chance(.15) ? 0. : r.chance(.3) ? .01 : std::exp(r.real(-9, 2.3));
    q.k = r.chance(.3) ? 1.5 : std::exp(r.real(-4, 5));
    if(r.chance(.1)) q.k = std::exp(r.real(5, 25));                        // hardly any spread
    else if(r.chance(.1)) q.k = std::exp(r.real(-23, -4));                 // a huge one
    if(r.chance(.1)) { q.sigma = std::exp(r.real(-12, 0)); q.gamma = std::exp(r.real(-12, 0)); }
    if(r.chance(.1)) q.n_long += r.magnitude(44); else if(r.chance(.1)) q.n_short += r.magnitude(44);
    if(r.chance(.05)) { u64 n = r.magnitude(44); q.n_long += n; q.n_short += n; }
    // within the range of prices
    while((std::fabs(double(q.n_long) - double(q.n_short)) + 1) * q.gamma * q.sigma * q.sigma > 1e15) q.sigma /= 2;
    return q;
}
// the model in extended precision: exact real-valued bid and ask in units
struct reference_quotes { real bid, ask, reservation, spread, tolerance; };
reference_quotes reference(const quoting &q)
{
    real d = q.currency.denominator, g = q.gamma, s = q.sigma, left = real(1) - q.theta;
    // log1p by long double, precise to 1e-18
    real term = q.gamma > 0 ? real(2) / g * real(log1pl((long double)q.gamma / (long double)q.k)) : real(2) / real(q.k);
    real inventory = real(q.n_long) - real(q.n_short);
    real shift = inventory * g * s * s * left;
    reference_quotes x;
    x.spread = (g * s * s * left + term) * d;
    x.reservation = real(q.mid) - shift * d;
    x.bid = x.reservation - x.spread / 2;
    x.ask = x.reservation + x.spread / 2;
    real size = (shift < 0 ? -shift : shift) * d + real(q.mid);
    x.tolerance = size * real(2e-15) + x.spread * real(1e-11) + real(1e-12);
    return x;
}
i64 floor_of(real x) { i64 i = i64(x); return real(i) > x ? i - 1 : i; }
i64 ceil_of(real x) { return -floor_of(-x); }
}

SECTION(quoting_rule, ({"C24", "C34"}), 60000, 2000000)
{
    auto q = random_quoting(c.r);
    c.note(show(q));
    auto x = reference(q);
    auto [b, a] = quotes_of(c, q);
    auto text = [&] { std::ostringstream o; o.precision(17); o << show(q) << ": bid " << b << " ask " << a << ", model " << double(x.bid) << " " << double(x.ask); return o.str(); };
    vmon::check(c, "C24", b < a, "bid-not-below-ask", text());
    i64 b0 = floor_of(x.bid - x.tolerance), b1 = floor_of(x.bid + x.tolerance);
    i64 a0 = ceil_of(x.ask - x.tolerance), a1 = ceil_of(x.ask + x.tolerance);
    bool touching = b1 >= a0;      // both could round to the same unit and be moved apart
    vmon::check(c, "C24", b >= b0 - touching && b <= b1, "bid-rounded-outwards", text());
    vmon::check(c, "C24", a >= a0 && a <= a1 + touching, "ask-rounded-outwards", text());
    vmon::event("quotes compared with the model");
    if(b0 == b1 && a0 == a1) vmon::event("quotes with a single admissible value");
    if(a - b == 1) vmon::event("quotes one unit apart");
    if(q.gamma == 0) vmon::event("risk-neutral quotes");
    c.touch(vmon::hash_combine(vmon::hash_combine(u64(b), u64(a)), u64(q.mid)));
}

// Where every step of the computation is exact, so are the quotes.
SECTION(quoting_exactly, ({"C24"}), 10000, 200000)
{
    quoting q; q.currency = c.r.chance(.5) ? currencies::JPY : currencies::USD;
    i64 d = i64(q.currency.denominator);
    q.mid = d * (c.r.chance(.3) ? c.r.in(1, 100) : c.r.in(1, 1000000000ll));
    q.n_long = c.r.below(100); q.n_short = c.r.below(100);
    q.gamma = 0; q.sigma = c.r.pick({.25, .5, 1., 2., 4.}); q.theta = c.r.pick({0., .25, .5, .75, 1.});
    int e = int(c.r.in(-20, 6)); q.k = std::ldexp(1., e);                  // half the spread is 1/k
    c.note(show(q));
    auto [b, a] = quotes_of(c, q);
    double half = std::ldexp(double(d), -e);
    i64 want = i64(std::ceil(half));
    vmon::check(c, "C24", q.mid - b == want && a - q.mid == want, "exact-quotes", show(q), ": bid ", b, " ask ", a, " expected ", q.mid - want, " ", q.mid + want);
    vmon::event("exact quotes");
    c.touch(u64(b) * 31 + u64(a));
}
REQUIRE_EVENT("C24", "exact quotes");
REQUIRE_EVENT("C24", "quotes one unit apart");

SECTION(quoting_reactions, ({"C24"}), 20000, 500000)
{
    auto q = random_quoting(c.r);
    c.note(show(q));
    auto x = reference(q);
    if(x.tolerance > real(.25)) { vmon::event("too large for a unit of precision"); q.mid = 1 + q.mid % 1000000; q.n_long %= 1000; q.n_short %= 1000; if(q.k < .01) q.k = 1.5; q.sigma = std::min(q.sigma, 50.); x = reference(q); }
    auto [b, a] = quotes_of(c, q);
    i64 slack = 1;                                   // rounding of both sides, on either side of the comparison
    {   // volatility widens
        auto w = q; w.sigma = q.sigma * (1 + c.r.real() * 3); w.n_long = w.n_short = 0; auto v = w; v.sigma = q.sigma;
        auto [b2, a2] = quotes_of(c, w); auto [b1, a1] = quotes_of(c, v);
        vmon::check(c, "C24", b2 <= b1 && a2 >= a1, "more-volatility-narrows", show(v), " -> sigma ", w.sigma, ": ", b1, "/", a1, " -> ", b2, "/", a2);
        if(b2 < b1 && a2 > a1) vmon::event("spreads widened by volatility");
    }
    {   // remaining time widens
        auto w = q; w.theta = q.theta * c.r.real(); w.n_long = w.n_short = 0; auto v = w; v.theta = q.theta;
        auto [b2, a2] = quotes_of(c, w); auto [b1, a1] = quotes_of(c, v);
        vmon::check(c, "C24", b2 <= b1 && a2 >= a1, "more-time-narrows", show(v), " -> theta ", w.theta, ": ", b1, "/", a1, " -> ", b2, "/", a2);
        if(b2 < b1 && a2 > a1) vmon::event("spreads widened by remaining time");
    }
    {   // inventory shifts: longer is lower
        auto w = q; w.n_long += 1 + c.r.below(1000);
        auto [b2, a2] = quotes_of(c, w);
        vmon::check(c, "C24", b2 <= b && a2 <= a, "longer-inventory-raises-quotes", show(q), " -> long ", w.n_long, ": ", b, "/", a, " -> ", b2, "/", a2);
        auto s = q; s.n_short += 1 + c.r.below(1000);
        auto [b3, a3] = quotes_of(c, s);
        vmon::check(c, "C24", b3 >= b && a3 >= a, "shorter-inventory-lowers-quotes", show(q), " -> short ", s.n_short, ": ", b, "/", a, " -> ", b3, "/", a3);
        if(b2 < b && b3 > b) vmon::event("quotes shifted by inventory");
    }
    {   // mirrored inventory gives mirrored quotes
        auto w = q; std::swap(w.n_long, w.n_short);
        auto [b2, a2] = quotes_of(c, w);
        vmon::check(c, "C24", std::llabs((q.mid - b) - (a2 - q.mid)) <= slack && std::llabs((a - q.mid) - (q.mid - b2)) <= slack, "not-mirrored", show(q), ": ", b, "/", a, " mirrored ", b2, "/", a2);
        vmon::event("mirrored inventories");
        // only the balance matters
        auto n = q; u64 add = c.r.below(1000); n.n_long += add; n.n_short += add;
        auto [b4, a4] = quotes_of(c, n);
        vmon::check(c, "C24", std::llabs(b4 - b) <= 1 && std::llabs(a4 - a) <= 1, "gross-inventory-matters", show(q), " plus ", add, " on both sides: ", b, "/", a, " -> ", b4, "/", a4);
    }
    c.touch(vmon::hash_combine(u64(b), u64(a)));
}
REQUIRE_EVENT("C24", "quotes with a single admissible value");
REQUIRE_EVENT("C24", "risk-neutral quotes");
REQUIRE_EVENT("C24", "spreads widened by volatility");
REQUIRE_EVENT("C24", "spreads widened by remaining time");
REQUIRE_EVENT("C24", "quotes shifted by inventory");

// ------------------------------------------------- C25 companies, shareholders
namespace {
using finance::share_class;
typedef std::map<share_class, u64> portfolio;
share_class random_class(vmon::rng &r)
{
    return share_class(std::uint8_t(r.below(3)), std::uint8_t(r.below(3)), r.chance(.7) ? 0.f : .05f, r.chance(.75), r.chance(.2), r.chance(.2));
}
typedef std::tuple<int, int, float, bool, bool, bool> class_key;        // compared without ESL's operators
class_key key_of(const share_class &s) { return {s.rank, s.votes, s.preference, s.dividend, s.cumulative, s.redeemable}; }
typedef std::map<class_key, u64> holdings;
holdings plain(const portfolio &p) { holdings h; for(auto &[s, n] : p) h[key_of(s)] += n; return h; }
std::string show(const holdings &h)
{
    std::ostringstream o;
    for(auto &[k, n] : h) o << "[rank " << std::get<0>(k) << " votes " << std::get<1>(k) << " pref " << std::get<2>(k) << (std::get<3>(k) ? " dividend" : "") << (std::get<4>(k) ? " cumulative" : "") << (std::get<5>(k) ? " redeemable" : "") << "]=" << n << " ";
    return o.str();
}
std::vector<share_class> random_classes(vmon::rng &r, size_t n)
{
    std::vector<share_class> v; std::set<class_key> seen;
    for(size_t t = 0; t < 40 && v.size() < n; ++t) { auto s = random_class(r); if(seen.insert(key_of(s)).second) v.push_back(s); }
    return v;
}
}

SECTION(share_structure, ({"C25", "C34"}), 4000, 100000)
{
    law::jurisdiction home = c.r.pick({law::jurisdiction(geography::countries::US, currencies::USD), law::jurisdiction(geography::countries::JP, currencies::JPY), law::jurisdiction(geography::countries::NL, currencies::EUR)});
    company firm(identity<company>({c.r.below(5), c.r.below(100)}), home);
    auto classes = random_classes(c.r, c.r.below(7));
    size_t holders = c.r.below(c.r.chance(.1) ? 200 : 8);
    std::set<std::vector<u64>> who; u64 total = 0; std::map<class_key, u64> outstanding;
    for(size_t h = 0; h < holders; ++h) {
        std::vector<u64> digits; for(size_t i = 0, n = 1 + c.r.below(3); i < n; ++i) digits.push_back(c.r.below(4));
        identity<finance::shareholder> id(digits);
        who.insert(digits);
        for(auto &s : classes) if(c.r.chance(.7)) {
            u64 n = c.r.chance(.2) ? 0 : c.r.chance(.5) ? c.r.below(1000) : c.r.magnitude(40);
            firm.shareholders[id][s] += n; firm.shares_outstanding[s] += n; outstanding[key_of(s)] += n; total += n;
        }
        firm.shareholders[id];
    }
    for(auto &s : classes) { firm.shares_outstanding[s]; outstanding[key_of(s)]; }
    c.note("outstanding ", show(outstanding));
    std::set<std::vector<u64>> got; for(auto &h : firm.unique_shareholders()) got.insert(std::vector<u64>(h.digits.begin(), h.digits.end()));
    vmon::check(c, "C25", got == who && firm.unique_shareholders().size() == who.size(), "unique-shareholders", got.size(), " found, ", who.size(), " registered");
    vmon::check(c, "C25", firm.total_shares() == total, "total-shares", firm.total_shares(), " expected ", total);
    vmon::check(c, "C25", plain(firm.shares_outstanding) == outstanding, "classes-confused", show(plain(firm.shares_outstanding)), " expected ", show(outstanding));
    u64 eligible = 0; for(auto &[k, n] : outstanding) if(std::get<3>(k)) eligible += n;
    for(int t = 0; t < 6; ++t) {
        i64 profit = c.r.chance(.15) ? -i64(c.r.magnitude(50)) : c.r.chance(.1) ? 0 : c.r.chance(.2) ? i64(eligible) + c.r.in(-2, 2) : c.r.chance(.2) ? i64(eligible * c.r.below(50)) + c.r.in(-1, 1) : i64(c.r.magnitude(55));
        auto d = firm.compute_dividend_per_share(price(profit, home.tender));
        c.note("profit ", profit, " eligible ", eligible, " classes paid ", d.size());
        if(profit <= 0) { vmon::check(c, "C25", d.empty(), "dividend-without-profit", profit); vmon::event("no profit, no dividend"); continue; }
        __int128 paid = 0; bool first = true; i64 common = 0; std::set<class_key> seen;
        for(auto &[s, entry] : d) {
            auto k = key_of(s); u64 n = std::get<0>(entry); auto each = std::get<1>(entry);
            vmon::check(c, "C25", std::get<3>(k), "dividend-on-ineligible-class", show({{k, n}}));
            vmon::check(c, "C25", outstanding.count(k) && outstanding[k] == n, "dividend-share-count", n, " of ", outstanding.count(k) ? outstanding[k] : 0);
            vmon::check(c, "C25", each.valuation == home.tender, "dividend-currency", each.valuation);
            vmon::check(c, "C25", each.value >= 0, "negative-dividend", each.value);
            vmon::check(c, "C25", first || each.value == common, "dividend-differs-between-classes", each.value, " and ", common);
            first = false; common = each.value; seen.insert(k);
            paid += __int128(n) * each.value;
        }
        vmon::check(c, "C25", paid <= profit, "dividends-exceed-profit", i64(paid), " of ", profit, " for ", eligible, " shares");
        if(eligible > 0) {
            vmon::check(c, "C25", __int128(profit) - paid < __int128(eligible), "profit-withheld-beyond-rounding", profit - i64(paid), " withheld of ", profit, " for ", eligible, " shares");
            if(u64(profit) >= eligible) for(auto &[k, n] : outstanding) vmon::check(c, "C25", !std::get<3>(k) || n == 0 || seen.count(k), "eligible-class-left-out", show({{k, n}}));
            vmon::event("dividends computed");
            if(paid > 0 && paid < profit) vmon::event("dividends rounded");
            // the policy's total is the sum over its classes
            if(paid < (__int128(1) << 62)) {
                finance::dividend_policy p(1, 2, {0, 1}, 3, home.tender, d);
                auto sum = p.total_dividends();
                vmon::check(c, "C25", sum.value == i64(paid) && sum.valuation == home.tender, "policy-total", sum.value, " expected ", i64(paid));
            }
        }
        vmon::distinct(vmon::hash_combine(u64(profit), eligible));
    }
    c.touch(vmon::hash_combine(total, vmon::hash_string(show(outstanding))));
}
REQUIRE_EVENT("C25", "dividends rounded");

SECTION(stock_holdings, ({"C25", "C34"}), 3000, 60000)
{
    finance::shareholder holder(identity<finance::shareholder>({1, 2}));
    auto classes = random_classes(c.r, 1 + c.r.below(5));
    std::map<std::vector<u64>, u64> want; bool unknown = false;
    for(u64 f = 0, n = c.r.below(6); f < n; ++f) {
        identity<company> firm(c.r.chance(.5) ? std::vector<u64>{f} : std::vector<u64>{7, f});
        for(auto &s : classes) if(c.r.chance(.6)) {
            std::vector<u64> stock = {c.r.below(3), c.r.below(3)};          // several classes may be one stock
            u64 amount = c.r.chance(.2) ? 0 : c.r.magnitude(40);
            bool missing = c.r.chance(.01); unknown |= missing;
            if(!missing) holder.stocks[std::make_tuple(firm, s)] = identity<law::property>(stock);
            holder.shares[firm][s] = amount;
            want[stock] += amount;
        }
    }
    if(unknown) { vmon::check(c, "C25", vmon::throws([&] { (void)holder.stock_holdings(); }), "unknown-stock-accepted", ""); vmon::event("unknown stocks refused"); c.touch(1); return; }
    std::map<std::vector<u64>, u64> got;
    for(auto &[i, q] : holder.stock_holdings()) got[std::vector<u64>(i.digits.begin(), i.digits.end())] = q.amount;
    vmon::check(c, "C25", got == want, "stock-holdings", got.size(), " stocks, expected ", want.size());
    vmon::event("stock holdings compared");
    u64 h = 0; for(auto &[k, n] : want) h = vmon::hash_combine(h, n); c.touch(h);
}
REQUIRE_EVENT("C25", "stock holdings compared");

namespace {
struct event_log {
    struct announced { std::vector<u64> firm, holder; time_point date, ex, at; };
    struct recorded { std::vector<u64> firm, holder; holdings shares; time_point at; };
    std::mutex m; std::vector<announced> announcements; std::vector<recorded> records;
};
std::vector<u64> digits(const identity<agent> &i) { return std::vector<u64>(i.digits.begin(), i.digits.end()); }
struct plan { time_point announce, ex, payable, decided; };
enum planning { when_due, ahead, late, overlapping };

struct firm_agent : company {
    event_log *log; std::vector<plan> plans; planning style; std::map<share_class, std::tuple<u64, price>> each;
    std::vector<std::pair<time_point, time_point>> acted;
    firm_agent(const identity<agent> &i, event_log *log, std::vector<plan> plans, planning style)
    : agent(i), owner<cash>(dynamic_identity_cast<company>(i)), owner<finance::stock>(dynamic_identity_cast<company>(i)),
      company(dynamic_identity_cast<company>(i), law::jurisdiction(geography::countries::US, currencies::USD)), log(log), plans(plans), style(style)
    {
        auto f = [this](std::shared_ptr<finance::dividend_record> m, time_interval step, std::seed_seq &) {
            std::lock_guard<std::mutex> g(this->log->m);
            this->log->records.push_back({digits(m->recipient), digits(m->sender), plain(m->shares_on_record), step.lower});
            return step.upper; };
        ESL_REGISTER_CALLBACK(finance::dividend_record, 0, f, "collect records");
    }
    finance::dividend_policy policy(const plan &p) { return finance::dividend_policy(p.announce, p.ex, {0, p.ex}, p.payable, currencies::USD, each); }
    std::optional<finance::dividend_policy> upcoming_dividend(time_interval t, std::seed_seq &) override
    {
        if(style == late) {                                      // decided after the date of announcement
            const plan *now = nullptr; for(auto &p : plans) if(p.decided <= t.lower) now = &p;
            if(now) return policy(*now);
            return {};
        }
        if(style == overlapping) {                               // the one to announce, or else the one paid soonest
            const plan *now = nullptr;
            for(auto &p : plans) if(p.announce == t.lower) return policy(p);
            for(auto &p : plans) if(p.announce <= t.lower && t.lower <= p.payable && (!now || p.payable < now->payable)) now = &p;
            if(now) return policy(*now);
            return {};
        }
        // the current policy is the one whose payment is still to come, or the latest
        for(auto &p : plans) if(t.lower <= p.payable || &p == &plans.back()) {
            if(style == when_due && t.lower < p.announce) continue;          // undecided until it is due
            return policy(p);
        }
        return {};
    }
    time_point act(time_interval t, std::seed_seq &s) override
    {
        auto n = company::act(t, s);
        acted.push_back({t.lower, n});
        for(auto &p : plans) for(auto x : {p.announce, p.decided, p.payable + 1}) if(x > t.lower) n = std::min(n, x);    // the next season
        return n;
    }
};
struct holder_agent : finance::shareholder {
    event_log *log; u64 fickle; std::set<std::pair<time_point, std::vector<u64>>> pending;
    struct due { std::vector<u64> firm; time_point ex; time_point learned; };
    std::vector<due> heard; vmon::rng r;
    std::map<identity<company>, portfolio> learns; time_point from = 0;      // shares entered at this time
    holder_agent(const identity<agent> &i, event_log *log, u64 seed)
    : agent(i), owner<cash>(dynamic_identity_cast<finance::shareholder>(i)), owner<finance::stock>(dynamic_identity_cast<finance::shareholder>(i)), finance::shareholder(dynamic_identity_cast<finance::shareholder>(i)), log(log), r(seed)
    {
        auto f = [this](std::shared_ptr<finance::dividend_announcement_message> m, time_interval step, std::seed_seq &) {
            std::lock_guard<std::mutex> g(this->log->m);
            this->log->announcements.push_back({digits(m->sender), digits(m->recipient), m->policy.announcement_date, m->policy.ex_dividend_date, step.lower});
            heard.push_back({digits(m->sender), m->policy.ex_dividend_date, step.lower});
            return step.upper; };
        ESL_REGISTER_CALLBACK(finance::dividend_announcement_message, 0, f, "note announcement");
    }
    time_point act(time_interval t, std::seed_seq &) override
    {
        if(t.lower >= from && !learns.empty()) { shares.insert(learns.begin(), learns.end()); learns.clear(); }
        auto next = submit_dividend_record(t);
        if(t.lower < from) next = std::min(next, from);
        for(auto &d : heard) if(d.ex > t.lower) next = std::min(next, d.ex);
        return next;
    }
};
struct finance_model : simulation::model { using model::model; };
}

SECTION(dividend_season, ({"C25", "C01"}), 250, 6000)
{
    event_log log; time_point end = 200;
    computation::environment e;
    finance_model m(e, simulation::parameter::parametrization(c.r.below(1000), 0, end, 0, c.r.chance(.3) ? 1 + c.r.below(4) : 1));
    size_t nf = 1 + c.r.below(4), nh = 1 + c.r.below(6);
    auto classes = random_classes(c.r, 1 + c.r.below(4));
    std::vector<std::shared_ptr<holder_agent>> hs; std::vector<std::shared_ptr<firm_agent>> fs;
    auto add_holders = [&] { for(size_t i = 0; i < nh; ++i) hs.push_back(m.template create<holder_agent>(m.world, &log, c.r.next())); };
    if(c.r.chance(.5)) add_holders();
    bool common_dates = c.r.chance(.5);
    for(size_t f = 0; f < nf; ++f) {
        std::vector<plan> plans; std::set<time_point> exes; time_point t = 0, decided = 0; auto style = planning(c.r.below(4));
        for(size_t k = 0, n = 1 + c.r.below(4); k < n; ++k) {
            plan p; p.announce = t + 1 + c.r.below(8); p.ex = p.announce + 3 + c.r.below(8); p.payable = c.r.chance(.2) ? p.ex : p.ex + c.r.below(8); t = p.payable; p.decided = p.announce;
            if(style == late) { p.decided = std::max(p.announce, decided + 1) + c.r.below(6); decided = p.decided; p.ex = p.decided + 3 + c.r.below(8); p.payable = p.ex + c.r.below(8); t = p.announce; }
            if(style == overlapping) { p.payable += c.r.below(20); t = p.announce; }
            if(common_dates) { p.payable += 5; p.ex = (p.ex + 4) / 5 * 5; }
            while(!exes.insert(p.ex).second) { p.ex += common_dates ? 5 : 1; p.payable += common_dates ? 5 : 1; }
            if(style != late && style != overlapping) t = p.payable;
            plans.push_back(p);
        }
        fs.push_back(m.template create<firm_agent>(m.world, &log, plans, style));
    }
    if(hs.empty()) add_holders();
    time_point first_ex = end; for(auto &f : fs) for(auto &p : f->plans) first_ex = std::min(first_ex, p.ex);
    for(auto &h : hs) if(c.r.chance(.4)) { h->from = c.r.chance(.5) ? first_ex : 1 + c.r.below(first_ex); vmon::event("holdings entered after an announcement"); }
    std::map<std::vector<u64>, std::map<std::vector<u64>, holdings>> owned;      // firm, holder
    for(auto &f : fs) for(auto &h : hs) if(c.r.chance(.7)) {
        portfolio p; for(auto &s : classes) if(c.r.chance(.7)) p[s] = 1 + c.r.below(1000);
        identity<company> fi(digits(f->identifier)); identity<finance::shareholder> hi(digits(h->identifier));
        for(auto &[s, n] : p) { f->shareholders[hi][s] += n; f->shares_outstanding[s] += n; }
        f->shareholders[hi];
        (h->from ? h->learns : h->shares)[fi] = p;
        owned[digits(f->identifier)][digits(h->identifier)] = plain(p);
        c.note("firm ", f->identifier, " holder ", h->identifier, " ", show(plain(p)));
    }
    for(auto &f : fs) for(auto &p : f->plans) c.note("firm ", f->identifier, " announces ", p.announce, " ex ", p.ex, " pays ", p.payable, " decided ", p.decided);
    for(auto &f : fs) f->each = f->compute_dividend_per_share(price(i64(c.r.magnitude(30)), currencies::USD));
    e.run(m);
    // every announcement reaches every holder once, not before its date
    u64 sig = 0;
    for(auto &f : fs) {
        auto fd = digits(f->identifier);
        for(auto &p : f->plans) for(auto &h : hs) {
            size_t n = 0; bool early = false; auto hd = digits(h->identifier);
            for(auto &a : log.announcements) if(a.firm == fd && a.holder == hd && a.date == p.announce) { ++n; early |= a.at < p.announce; vmon::check(c, "C25", a.ex == p.ex, "announcement-content", a.ex, " expected ", p.ex); }
            size_t want = owned[fd].count(hd);
            vmon::check(c, "C25", n == want, n < want ? "announcement-missing" : "announcement-repeated", "firm ", f->identifier, " holder ", h->identifier, " announcement at ", p.announce, ": ", n, " received, expected ", want);
            vmon::check(c, "C25", !early, "announced-early", "firm ", f->identifier, " date ", p.announce);
            if(want) vmon::event("announcements expected");
        }
        for(auto &[at, next] : f->acted) {
            vmon::check(c, "C25", next > at, "company-next-event-in-the-past", "firm ", f->identifier, " acted at ", at, " and asked to act next at ", next);
            for(auto &p : f->plans) vmon::check(c, "C25", !(f->style == ahead && at < p.announce && next > p.announce && (&p == &f->plans[0] || (&p)[-1].payable < at)), "announcement-date-passed", "firm ", f->identifier, " acted at ", at, ", next at ", next, ", announcement due ", p.announce);
        }
    }
    size_t foreign = 0;
    for(auto &a : log.announcements) { bool known = false; for(auto &f : fs) known |= digits(f->identifier) == a.firm && owned[a.firm].count(a.holder); foreign += !known; sig = vmon::hash_combine(sig, a.at); }
    vmon::check(c, "C25", foreign == 0, "announced-to-others", foreign);
    // every announcement is answered by one record of exactly what is held
    for(auto &f : fs) for(auto &h : hs) {
        auto fd = digits(f->identifier), hd = digits(h->identifier);
        size_t heard = 0; for(auto &a : log.announcements) heard += a.firm == fd && a.holder == hd;
        size_t answered = 0;
        for(auto &x : log.records) if(x.firm == fd && x.holder == hd) {
            ++answered; vmon::check(c, "C25", x.shares == owned[fd][hd], "record-content", show(x.shares), " expected ", show(owned[fd][hd])); sig = vmon::hash_combine(sig, x.at);
        }
        vmon::check(c, "C25", answered == heard, answered < heard ? "record-missing" : "record-repeated", "firm ", f->identifier, " holder ", h->identifier, ": ", heard, " announcements, ", answered, " records");
        vmon::event("records received", answered);
    }
    if(m.threads > 1) vmon::event("seasons run in parallel");
    c.touch(sig);
}
REQUIRE_EVENT("C25", "records received");
REQUIRE_EVENT("C25", "announcements expected");

// ------------------------------------------------------- C36 prices investors hold
namespace {
struct heard_price { i64 value; std::string code; u64 denominator; bool operator==(const heard_price &o) const { return value == o.value && code == o.code && denominator == o.denominator; } };
std::ostream &operator<<(std::ostream &o, const heard_price &p) { return o << p.value << " " << p.code << "/" << p.denominator; }
heard_price plain(const price &p) { return {p.value, std::string(p.valuation.code.begin(), p.valuation.code.end()), u64(p.valuation.denominator)}; }
typedef std::map<std::vector<u64>, heard_price> price_list;
price_list plain(const law::property_map<price> &m) { price_list r; for(auto &[k, v] : m) r[{k->identifier.digits.begin(), k->identifier.digits.end()}] = plain(v); return r; }
std::string show(const price_list &l) { std::ostringstream o; for(auto &[k, v] : l) { o << " {"; for(auto d : k) o << d << "-"; o << " " << v << "}"; } return o.str(); }

struct announcement { time_point sent, received; size_t recipient; std::vector<std::tuple<std::vector<u64>, price, std::uint32_t>> quotes; };
struct investor { std::vector<std::pair<time_point, price_list>> stock_prices, bond_prices; virtual ~investor() = default; virtual identity<agent> who() const = 0; };
struct stock_investor : finance::shareholder, investor {
    stock_investor(const identity<agent> &i) : agent(i), owner<cash>(dynamic_identity_cast<finance::shareholder>(i)), owner<finance::stock>(dynamic_identity_cast<finance::shareholder>(i)), finance::shareholder(dynamic_identity_cast<finance::shareholder>(i)) {}
    identity<agent> who() const override { return agent::identifier; }
    time_point act(time_interval t, std::seed_seq &) override { stock_prices.emplace_back(t.lower, plain(prices)); return t.lower + 1; }
};
struct bond_investor : finance::bondholder, investor {
    bond_investor(const identity<agent> &i) : agent(i), owner<cash>(dynamic_identity_cast<finance::bondholder>(i)), owner<finance::bond>(dynamic_identity_cast<finance::bondholder>(i)), finance::bondholder(dynamic_identity_cast<finance::bondholder>(i)) {}
    identity<agent> who() const override { return agent::identifier; }
    time_point act(time_interval t, std::seed_seq &) override { investor::bond_prices.emplace_back(t.lower, plain(finance::bondholder::bond_prices)); return t.lower + 1; }
};
struct mixed_investor : finance::shareholder, finance::bondholder, investor {
    mixed_investor(const identity<agent> &i) : agent(i), owner<cash>(dynamic_identity_cast<finance::shareholder>(i)), owner<finance::stock>(dynamic_identity_cast<finance::shareholder>(i)), owner<finance::bond>(dynamic_identity_cast<finance::bondholder>(i)), finance::shareholder(dynamic_identity_cast<finance::shareholder>(i)), finance::bondholder(dynamic_identity_cast<finance::bondholder>(i)) {}
    identity<agent> who() const override { return agent::identifier; }
    time_point act(time_interval t, std::seed_seq &) override { stock_prices.emplace_back(t.lower, plain(prices)); investor::bond_prices.emplace_back(t.lower, plain(finance::bondholder::bond_prices)); return t.lower + 1; }
};
struct announcer_agent : agent {
    std::vector<announcement> todo; std::vector<identity<agent>> recipients;
    announcer_agent(const identity<agent> &i) : agent(i) {}
    time_point act(time_interval t, std::seed_seq &) override
    {
        time_point next = t.upper;
        for(auto &a : todo) {
            if(a.sent == t.lower) {
                law::property_map<markets::quote> q;
                // the property is named by its identity: every announcement carries objects of its own
                for(auto &[k, v, lot] : a.quotes) q.emplace(std::make_shared<law::property>(identity<law::property>(k)), markets::quote(v, lot));
                this->create_message<markets::walras::quote_message>(recipients[a.recipient], a.received, this->identifier, recipients[a.recipient], q);
            } else if(a.sent > t.lower) next = std::min(next, a.sent);
        }
        return next;
    }
};
}

SECTION(quotes_heard, ({"C36", "C01", "C34"}), 500, 12000)
{
    computation::environment e; time_point end = c.r.in(3, c.r.chance(.1) ? 120 : 25);
    finance_model m(e, simulation::parameter::parametrization(c.r.below(1000), 0, end, 0, c.r.chance(.3) ? 1 + c.r.below(4) : 1));
    std::vector<std::shared_ptr<announcer_agent>> from; std::vector<std::shared_ptr<investor>> to; std::vector<int> kinds;
    auto announcers = [&] { for(size_t i = 0, n = 1 + c.r.below(3); i < n; ++i) from.push_back(m.template create<announcer_agent>(m.world)); };
    bool late = c.r.chance(.5); if(!late) announcers();
    for(size_t i = 0, n = 1 + c.r.below(5); i < n; ++i) {
        kinds.push_back(int(c.r.below(3)));
        if(kinds.back() == 0) to.push_back(m.template create<stock_investor>(m.world));
        else if(kinds.back() == 1) to.push_back(m.template create<bond_investor>(m.world));
        else to.push_back(m.template create<mixed_investor>(m.world));
    }
    if(late) announcers();
    // every announcer has properties of its own, so that what is latest does not depend on the order of senders
    size_t np = 1 + c.r.below(c.r.chance(.1) ? 60 : 6);
    std::vector<std::vector<u64>> properties; for(size_t i = 0; i < np; ++i) { std::vector<u64> d; for(size_t k = 0, n = 1 + c.r.below(3); k < n; ++k) d.push_back(c.r.below(4)); d.push_back(i); properties.push_back(d); }
    auto random_price = [&] { return price(c.r.chance(.1) ? 0 : c.r.chance(.1) ? -i64(c.r.magnitude(40)) : i64(c.r.magnitude(c.r.chance(.1) ? 62 : 20)), c.r.pick({currencies::USD, currencies::EUR, currencies::JPY, currencies::KWD, currencies::GBP})); };
    for(size_t f = 0; f < from.size(); ++f) {
        for(auto &i : to) from[f]->recipients.push_back(i->who());
        std::set<std::pair<size_t, time_point>> taken;
        std::map<std::vector<u64>, price> last;
        for(size_t k = 0, n = c.r.below(c.r.chance(.1) ? 150 : 25); k < n; ++k) {
            announcement a; a.sent = c.r.below(end); a.received = a.sent + 1 + (c.r.chance(.5) ? 0 : c.r.below(5)); a.recipient = c.r.below(to.size());
            if(!taken.insert({a.recipient, a.received}).second) continue;
            for(size_t p = f; p < np; p += from.size()) if(c.r.chance(.6)) {
                auto v = random_price();
                auto it = last.find(properties[p]);
                if(it != last.end() && c.r.chance(.3)) { v.value = it->second.value; vmon::event("announcements of the same number in another currency", v.valuation != it->second.valuation); }
                else if(it != last.end() && c.r.chance(.3)) v.valuation = it->second.valuation;
                last.insert_or_assign(properties[p], v);
                a.quotes.emplace_back(properties[p], v, std::uint32_t(c.r.chance(.7) ? 1 : 1 + c.r.magnitude(31)));
            }
            from[f]->todo.push_back(a);
        }
    }
    e.run(m);
    u64 sig = 0;
    for(size_t i = 0; i < to.size(); ++i) {
        auto expected_at = [&](time_point t) {
            std::vector<const announcement *> due; for(auto &f : from) for(auto &a : f->todo) if(a.recipient == i && a.received <= t) due.push_back(&a);
            std::stable_sort(due.begin(), due.end(), [](auto *a, auto *b) { return a->received < b->received; });
            price_list l; for(auto *a : due) for(auto &[k, v, lot] : a->quotes) l[k] = plain(v);
            return l; };
        auto compare = [&](const std::vector<std::pair<time_point, price_list>> &seen, const char *key) {
            vmon::check(c, "C36", seen.size() == end, "observations", key, ": investor acted ", seen.size(), " times in ", end);
            for(auto &[t, held] : seen) {
                auto want = expected_at(t);
                vmon::check(c, "C36", held == want, key, "investor ", i, " at ", t, " holds", show(held), " expected", show(want));
                for(auto &x : held) { sig = vmon::hash_combine(sig, u64(x.second.value)); vmon::event("prices held by investors"); }
            } };
        if(kinds[i] != 1) compare(to[i]->stock_prices, "stock-prices");
        if(kinds[i] != 0) compare(to[i]->bond_prices, "bond-prices");
        if(kinds[i] == 2) vmon::event("investors in stocks and bonds");
    }
    if(m.threads > 1) vmon::event("announcements heard in parallel");
    c.touch(sig);
}
REQUIRE_EVENT("C36", "prices held by investors");
REQUIRE_EVENT("C36", "investors in stocks and bonds");
REQUIRE_EVENT("C36", "announcements of the same number in another currency");

// --------------------------------------------------------------- C26 accounting
namespace {
using accounting::standard;
std::vector<iso_4217> hundredths() { return {currencies::USD, currencies::EUR, currencies::GBP, currencies::CHF, currencies::SEK, currencies::CAD}; }
}
SECTION(valuation, ({"C26", "C34"}), 12000, 300000)
{
    auto all = hundredths(); c.r.shuffle(all);
    if(c.r.chance(.2)) all.assign(1, c.r.pick({currencies::JPY, currencies::KWD, currencies::USD}));    // nothing foreign
    auto home = all[0]; standard s(home);
    auto same = [&](const price &p, i64 v, const iso_4217 &cur) { return p.value == v && p.valuation == cur; };
    auto amount = [&](int bits) { return c.r.chance(.1) ? u64(0) : c.r.chance(.4) ? 1 + c.r.below(1000) : c.r.magnitude(bits); };
    // money at home
    {
        u64 n = amount(62); auto p = s.value(money(home), quantity(n)); auto p2 = s.value(cash(home), quantity(n));
        vmon::check(c, "C26", same(p, i64(n), home) && same(p2, i64(n), home), "domestic-money", n, " valued ", p.value, " and ", p2.value);
        vmon::event("domestic money valued");
    }
    // foreign money, with and without a rate
    for(size_t k = 1; k < all.size(); ++k) {
        u64 n = amount(40);
        if(c.r.chance(.3)) {
            s.foreign_currencies.erase(all[k]);
            vmon::check(c, "C26", vmon::throws_as<std::domain_error>([&] { (void)s.value(money(all[k]), quantity(n)); }), "unknown-rate-accepted", all[k]);
            vmon::check(c, "C26", vmon::throws_as<std::domain_error>([&] { (void)s.value(cash(all[k]), quantity(n)); }), "unknown-rate-accepted", all[k]);
            vmon::event("valuations without a rate refused");
        } else {
            u64 num = 1 + c.r.below(c.r.chance(.5) ? 100 : 100000), den = 1 + c.r.below(c.r.chance(.5) ? 100 : 100000);
            s.foreign_currencies.erase(all[k]); s.foreign_currencies.emplace(all[k], exchange_rate(num, den));
            i64 want = i64(__int128(n) * num / den);
            auto p = s.value(money(all[k]), quantity(n));
            auto p2 = s.value(cash(all[k]), quantity(n));
            vmon::check(c, "C26", same(p, want, home), "foreign-money", n, " ", all[k], " at ", num, "/", den, " valued ", p.value, " ", p.valuation, ", expected ", want, " ", home);
            vmon::check(c, "C26", same(p2, want, home), "foreign-cash", n, " ", all[k], " valued ", p2.value, " ", p2.valuation, ", expected ", want);
            vmon::event("foreign money valued");
        }
    }
    // stocks and lending contracts
    std::vector<identity<law::property>> ids;
    for(u64 k = 0; k < 4; ++k) ids.push_back(identity<law::property>(c.r.chance(.5) ? std::vector<u64>{k} : std::vector<u64>{1, k}));
    struct marked { i64 value; std::uint32_t lot; iso_4217 currency; };
    std::map<std::vector<u64>, marked> marks;
    for(auto &id : ids) if(c.r.chance(.75)) {
        marked k{c.r.chance(.1) ? 0 : c.r.chance(.1) ? -i64(c.r.below(10000)) : i64(c.r.magnitude(30)), c.r.pick({1u, 2u, 10u, 100u, 10000u}), all.size() == 1 || c.r.chance(.8) ? home : all[1 + c.r.below(all.size() - 1)]};
        marks[std::vector<u64>(id.digits.begin(), id.digits.end())] = k;
        s.mark_to_market.emplace(id, markets::quote(price(k.value, k.currency), k.lot));
    }
    for(auto &id : ids) {
        auto f = marks.find(std::vector<u64>(id.digits.begin(), id.digits.end()));
        finance::stock stock(id, identity<company>({1}), share_class());
        u64 n = amount(20), size = 1 + c.r.below(1000);
        finance::securities_lending_contract lent(identity<agent>({1}), identity<agent>({2}), id, quantity(size));
        if(f == marks.end()) {
            vmon::check(c, "C26", vmon::throws_as<std::logic_error>([&] { (void)s.value(stock, quantity(n)); }), "unpriced-stock-valued", id);
            vmon::check(c, "C26", vmon::throws_as<std::logic_error>([&] { (void)s.value(lent, quantity(n)); }), "unpriced-loan-of-stock-valued", id);
            vmon::event("valuations without a price refused"); continue;
        }
        auto &k = f->second;
        auto p = s.value(stock, quantity(n));
        i64 want = i64(__int128(k.value) * n / k.lot);
        vmon::check(c, "C26", same(p, want, k.currency), "stock-value", n, " at ", k.value, " per ", k.lot, " valued ", p.value, " ", p.valuation, ", expected ", want, " ", k.currency);
        vmon::event("stocks valued");
        if(k.currency == home) {
            i64 owed = -i64(__int128(k.value) * size * n / k.lot);
            auto l = s.value(lent, quantity(n));
            vmon::check(c, "C26", same(l, owed, home), "lending-value", n, " contracts of ", size, " at ", k.value, " per ", k.lot, " valued ", l.value, ", expected ", owed);
            vmon::event("lending contracts valued");
        }
        vmon::distinct(vmon::hash_combine(vmon::hash_combine(u64(k.value), k.lot), n));
    }
    {
        finance::loan debt(identity<agent>({1}), identity<agent>({2})); u64 n = amount(50);
        auto p = s.value(debt, quantity(n));
        vmon::check(c, "C26", same(p, -i64(n * home.denominator), home), "loan-value", n, " valued ", p.value);
        vmon::event("loans valued");
    }
    c.touch(c.r.next());
}
REQUIRE_EVENT("C26", "foreign money valued");
REQUIRE_EVENT("C26", "valuations without a rate refused");
REQUIRE_EVENT("C26", "valuations without a price refused");
REQUIRE_EVENT("C26", "lending contracts valued");
REQUIRE_EVENT("C26", "loans valued");

SECTION(cash_flows, ({"C26", "C34"}), 6000, 150000)
{
    auto home = c.r.pick({currencies::USD, currencies::JPY, currencies::KWD}); standard s(home);
    accounting::cash_flow_statement f; std::vector<std::pair<time_point, i64>> entries;
    u64 span = c.r.chance(.5) ? 10 : c.r.chance(.5) ? 1000 : ~u64(0);
    auto when = [&]() -> time_point { return span == ~u64(0) ? c.r.pick({u64(0), u64(1), ~u64(0), ~u64(0) - 1, c.r.next()}) : c.r.below(span); };
    for(u64 k = 0, n = c.r.below(c.r.chance(.1) ? 300 : 20); k < n; ++k) {
        time_point t = when(); i64 v = c.r.chance(.1) ? 0 : c.r.in(-1, 1) * i64(c.r.magnitude(40));
        f.mutations.emplace(t, price(v, home)); entries.push_back({t, v});
    }
    for(int q = 0; q < 12; ++q) {
        time_point a = when(), b = when();
        if(!entries.empty() && c.r.chance(.5)) a = c.r.pick(entries).first;
        if(!entries.empty() && c.r.chance(.5)) b = c.r.pick(entries).first;
        if(b < a && c.r.chance(.9)) std::swap(a, b);
        i64 in = 0, out = 0, all = 0; size_t inside = 0;
        for(auto &[t, v] : entries) if(a <= t && t < b) { all += v; if(v > 0) in += v; else out += v; ++inside; }
        time_interval iv{a, b};
        auto h = f.history(iv, s), i = f.income(iv, s), x = f.expenses(iv, s), r = f.revenue(iv, s);
        vmon::check(c, "C26", h.value == all && h.valuation == home, "history-sum", "[", a, ", ", b, ") ", h.value, " expected ", all, " over ", inside, " of ", entries.size(), " entries");
        vmon::check(c, "C26", i.value == in && i.valuation == home, "income-sum", "[", a, ", ", b, ") ", i.value, " expected ", in);
        vmon::check(c, "C26", x.value == out && x.valuation == home, "expenses-sum", "[", a, ", ", b, ") ", x.value, " expected ", out);
        vmon::check(c, "C26", r.value == all, "revenue-sum", "[", a, ", ", b, ") ", r.value, " expected ", all);
        // a transform sees exactly the entries of the interval
        std::multiset<std::pair<time_point, i64>> seen, want; for(auto &z : entries) if(a <= z.first && z.first < b) want.insert(z);
        auto doubled = f.history(iv, [&](time_point t, const price &p) { seen.insert({t, p.value}); return price(p.value * 2, p.valuation); }, s);
        vmon::check(c, "C26", seen == want && doubled.value == 2 * all, "history-entries", seen.size(), " entries seen, expected ", want.size());
        vmon::event("intervals queried"); if(inside && inside < entries.size()) vmon::event("intervals with entries inside and outside");
        for(auto &z : entries) { if(z.first == a) vmon::event("entries at the lower bound"); if(z.first == b) vmon::event("entries at the upper bound"); }
        vmon::distinct(vmon::hash_combine(u64(all), inside));
    }
    c.touch(entries.size() + c.r.below(1000000));
}
REQUIRE_EVENT("C26", "entries at the lower bound");
REQUIRE_EVENT("C26", "entries at the upper bound");
VMON_MAIN
