// The market that moves its quotes by an impact function of the volume ordered (C35).
#include "vmon.hpp"
#include <cmath>
#include <esl/computation/environment.hpp>
#include <esl/economics/company.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/finance/stock.hpp>
#include <esl/economics/markets/impact_function/market.hpp>
#include <esl/economics/markets/impact_function/order.hpp>
#include <esl/economics/markets/impact_function/quote.hpp>
#include <esl/law/jurisdictions.hpp>
#include <esl/simulation/model.hpp>

using namespace esl;
using namespace esl::economics;
using namespace esl::economics::finance;
using namespace esl::economics::markets;
using impact = impact_function::market;
typedef impact_function::order_message volume_order;
using law::property;
using std::map;
using vmon::i64;
using vmon::u64;

namespace {
typedef identity<property> key;
typedef identity<agent> who;

struct impact_rule
{
    int kind = 0; double size = 1;
    // in units of currency per unit of goods
    double operator()(double v) const
    {
        switch(kind) {
        case 0: return 0;
        case 1: return size * v;
        case 2: return v < 0 ? -size * std::sqrt(-v) : size * std::sqrt(v);
        case 3: return v < 0 ? -size * std::log1p(-v) : size * std::log1p(v);
        case 4: return v < 0 ? -size : size;             // also when orders cancel out
        case 5: return size * std::cos(v * .01);
        case 6: return v < 0 ? 4 * size * v : size * v;  // selling has more impact
        default: return std::max(-100 * size, std::min(100 * size, v));
        }
    }
};
std::shared_ptr<stock> a_stock(u64 g)
{
    identity<company> id; id.digits = {3, g};
    company firm(id, law::jurisdictions::US);
    return std::make_shared<stock>(firm, share_class());
}
struct cents { i64 value; iso_4217 currency; std::uint32_t lot; };
std::string show(const cents &p) { std::ostringstream o; o << p.value << "/" << p.currency.denominator << "x" << p.lot; return o.str(); }
map<key, cents> read(const law::property_map<quote> &m)
{
    map<key, cents> r;
    for(auto &[g, q] : m) { auto p = std::get<price>(q.type); r.emplace(g->identifier, cents{p.value, p.valuation, q.lot}); }
    return r;
}
bool alike(const map<key, cents> &a, const map<key, cents> &b)
{
    if(a.size() != b.size()) return false;
    for(auto &[k, x] : a) { auto i = b.find(k); if(i == b.end() || i->second.value != x.value || i->second.lot != x.lot || !(i->second.currency == x.currency)) return false; }
    return true;
}
std::string show(const map<key, cents> &m) { std::string s; for(auto &[k, x] : m) s += k.representation() + ":" + show(x) + " "; return s; }

typedef map<key, i64> flow;                              // bought less sold
// the new quote in smallest units, before rounding
double moved(const cents &old, double change) { return double(old.value) + change * double(old.currency.denominator) * double(old.lot); }

struct setting
{
    law::property_map<quote> quotes;
    std::vector<std::shared_ptr<stock>> goods, others;
    std::vector<who> people;
    impact_rule rule;
};
setting random_setting(vmon::rng &r)
{
    setting s;
    size_t n = r.chance(.1) ? 10 + r.below(60) : r.below(7), p = r.chance(.1) ? 10 + r.below(150) : 1 + r.below(6);
    bool mixed = r.chance(.3);
    for(size_t g = 0; g < n; ++g) {
        s.goods.push_back(a_stock(g));
        i64 v = r.chance(.2) ? r.in(1, 20) : r.chance(.5) ? r.in(50, 5000) : r.in(1000, 1000000000000ll);
        auto c = mixed ? r.pick({currencies::USD, currencies::EUR, currencies::JPY, currencies::KWD}) : currencies::USD;
        s.quotes.emplace(s.goods.back(), quote(price(v, c), r.chance(.7) ? 1 : r.pick({2u, 10u, 100u, 1000u})));
    }
    for(size_t g = 0; g < 3; ++g) s.others.push_back(a_stock(100 + g));
    for(size_t i = 0; i < p; ++i) { who w; w.digits = {5, i + 1}; s.people.push_back(w); }
    s.rule.kind = int(r.below(8));
    s.rule.size = std::exp(r.real(-12, r.chance(.2) ? 8 : 1));
    return s;
}
std::shared_ptr<volume_order> random_order(vmon::rng &r, const setting &s, who from, who to, flow &sum)
{
    auto o = std::make_shared<volume_order>(from, to);
    double some = r.chance(.3) ? 1. : r.real();
    i64 largest = r.chance(.2) ? 3 : r.chance(.7) ? 2000 : 10000000000ll;
    for(auto &g : s.goods) if(r.chance(some)) {
        u64 v = r.chance(.1) ? 0 : u64(r.in(1, largest)); bool buy = r.chance(.5);
        // the same property may be described by another object with the same identity
        auto which = r.chance(.3) ? a_stock(g->identifier.digits[1]) : g;
        if(which->identifier != g->identifier) which = g;
        o->volumes.emplace(which, std::make_pair(v, buy ? volume_order::buy : volume_order::sell));
        sum[g->identifier] += buy ? i64(v) : -i64(v);
    }
    if(r.chance(.2)) for(auto &g : s.others) if(r.chance(.5)) { o->volumes.emplace(g, std::make_pair(u64(r.in(1, largest)), volume_order::buy)); vmon::event("orders-for-other-properties"); }
    return o;
}
std::string show(const flow &f) { std::string s; for(auto &[k, v] : f) s += k.representation() + ":" + std::to_string(v) + " "; return s; }

void check_quotes(vmon::ctx &c, const map<key, cents> &before, const map<key, cents> &after, const flow &net, const impact_rule &rule)
{
    vmon::check(c, "C35", before.size() == after.size(), "properties-changed", before.size(), after.size());
    for(auto &[k, a] : before) {
        auto i = after.find(k);
        if(!vmon::check(c, "C35", i != after.end(), "property-lost", k)) continue;
        vmon::check(c, "C35", i->second.currency == a.currency && i->second.lot == a.lot, "quote-kind", k, show(a), show(i->second));
        auto f = net.find(k);
        if(f == net.end()) { vmon::check(c, "C35", i->second.value == a.value, "unordered-moved", k, show(a), show(i->second)); vmon::event("quotes-kept"); continue; }
        double exact = moved(a, rule(double(f->second)));
        vmon::check(c, "C35", i->second.value >= 1, "price-not-positive", k, i->second.value);
        if(exact > 9e18) { vmon::event("quotes-beyond-the-largest-price"); continue; }   // no price is that high
        double want = std::max(1., exact);
        vmon::check(c, "C35", std::fabs(double(i->second.value) - want) <= .5 + 1e-6 + 1e-14 * (std::fabs(exact) + double(a.value)), "impact", k, show(a), "net volume", f->second, "expected", want, "quoted", i->second.value);
        vmon::event(i->second.value == a.value ? "quotes-ordered-unmoved" : exact < 1 ? "quotes-at-minimum" : i->second.value > a.value ? "quotes-raised" : "quotes-lowered");
    }
}
// every participant is told every quote, once
void check_announcement(vmon::ctx &c, const impact &m, u64 now)
{
    map<who, size_t> told; auto quotes = read(m.traded_properties);
    for(auto &x : m.outbox) {
        auto q = std::dynamic_pointer_cast<impact_function::quote_message>(x);
        if(!vmon::check(c, "C35", bool(q), "unexpected-message", x->type)) continue;
        ++told[q->recipient];
        vmon::check(c, "C35", q->sender == m.identifier, "quote-sender", q->sender);
        vmon::check(c, "C35", q->received == now + 1, "quote-delivery", now, q->received);
        vmon::check(c, "C35", alike(read(q->proposed), quotes), "quotes-announced", "announced", show(read(q->proposed)), "instead of", show(quotes));
    }
    for(auto &p : m.participants) vmon::check(c, "C35", told[identity<agent>(p.digits)] == 1, "participant-told", p, told[identity<agent>(p.digits)]);
    vmon::check(c, "C35", told.size() == m.participants.size(), "stranger-told", told.size(), m.participants.size());
    vmon::event("announcements", told.size());
}
}
REQUIRE_EVENT("C35", "quotes-raised");
REQUIRE_EVENT("C35", "quotes-lowered");
REQUIRE_EVENT("C35", "quotes-kept");
REQUIRE_EVENT("C35", "quotes-at-minimum");
REQUIRE_EVENT("C35", "announcements");
REQUIRE_EVENT("C35", "orders-for-other-properties");

// The multiplier found for each property ordered.
SECTION(impact_multipliers, ({"C35", "C34"}), 10000, 400000)
{
    auto s = random_setting(c.r);
    impact m(identity<impact>{9}, s.quotes);
    m.impact_function = s.rule;
    std::unordered_map<who, std::shared_ptr<volume_order>> orders; flow net;
    for(auto &p : s.people) if(c.r.chance(.8)) orders.emplace(p, random_order(c.r, s, p, m.identifier, net));
    c.note("rule ", s.rule.kind, " size ", s.rule.size, " net ", show(net));
    auto before = read(m.traded_properties);
    u64 t = c.r.below(10);
    auto x = m.clear_market(orders, {t, t + 1});
    for(auto &[k, f] : net) {
        auto i = x.find(k);
        if(!vmon::check(c, "C35", i != x.end(), "multiplier-missing", k)) continue;
        auto &a = before.at(k); double old = double(a.value) / double(a.currency.denominator) / a.lot, want = (old + s.rule(double(f))) / old;
        vmon::check(c, "C35", std::fabs(i->second - want) <= 1e-9 * (1 + std::fabs(want)), "multiplier", k, "volume", f, "found", i->second, "expected", want);
        c.touch(u64(f) * 31 + u64(a.value));
    }
    for(auto &[k, f] : x) vmon::check(c, "C35", net.count(k) || (before.count(k) && f == 1.), "multiplier-unordered", k, f);
    vmon::check(c, "C35", alike(read(m.traded_properties), before), "properties-changed-by-clearing");
    vmon::event("clearings", x.size());
}

// The market acts on the orders in its inbox.
SECTION(impact_market, ({"C35", "C34"}), 6000, 300000)
{
    auto s = random_setting(c.r);
    auto m = std::make_shared<impact>(identity<impact>{9}, s.quotes);
    m->impact_function = s.rule;
    for(auto &p : s.people) m->participants.insert(identity<law::owner<property>>(p.digits));
    c.note("goods ", s.goods.size(), " people ", s.people.size(), " rule ", s.rule.kind, " size ", s.rule.size, ": ", show(read(s.quotes)));
    auto act = [&](u64 t) { m->outbox.clear(); std::seed_seq seed{u64(c.index), t}; auto r = m->act({t, t + 1 + c.r.below(3)}, seed); m->inbox.clear(); return r; };
    u64 t = c.r.below(3);
    auto before = read(m->traded_properties);
    // it first tells its quotes, whatever it was sent
    vmon::check(c, "C35", act(t) == t, "waits-for-orders", t);
    vmon::check(c, "C35", alike(read(m->traded_properties), before), "moved-before-orders");
    check_announcement(c, *m, t);
    size_t rounds = 1 + c.r.below(5), recorded = 0; u64 h = 1;
    for(size_t i = 0; i < rounds && !c.failed; ++i) {
        t += 1 + c.r.below(3);
        if(c.r.chance(.1) && s.people.size() > 1) { m->participants.erase(identity<law::owner<property>>(s.people.back().digits)); s.people.pop_back(); }
        if(c.r.chance(.1)) { who w; w.digits = {6, u64(i)}; s.people.push_back(w); m->participants.insert(identity<law::owner<property>>(w.digits)); }
        before = read(m->traded_properties);
        flow net; size_t sent = 0; u64 stale = c.r.chance(.15) ? 1 : 0;
        double active = c.r.chance(.15) ? 0 : c.r.chance(.5) ? 1 : c.r.real();
        for(auto p : s.people) if(c.r.chance(active)) {
            auto o = random_order(c.r, s, p, m->identifier, net);
            o->sent = t - stale; o->received = t; m->inbox.insert({t, o}); ++sent;
        }
        // other messages are not orders
        if(c.r.chance(.2)) m->inbox.insert({t, std::make_shared<impact_function::quote_message>(s.people[0], m->identifier, s.quotes)});
        c.note("t=", t, stale ? " stale" : "", " orders ", sent, " net ", show(net));
        if(stale) { net.clear(); }
        bool clears = sent && !stale;
        auto next = act(t);
        if(clears) vmon::check(c, "C35", next > t, "wake-up", t, next);
        else if(stale && sent) { vmon::check(c, "C35", next == t, "stale-orders-wait", t, next); vmon::event("stale-orders"); }
        auto after = read(m->traded_properties);
        check_quotes(c, before, after, net, s.rule);
        check_announcement(c, *m, t);
        recorded += clears;
        auto &values = m->output_clearing_prices_->values;
        if(vmon::check(c, "C35", values.size() == recorded, "prices-recorded", values.size(), recorded) && clears) {
            auto &[when, p] = values.back();
            vmon::check(c, "C35", when == t && p.size() == after.size(), "prices-recorded-when", when, t, p.size());
            std::multiset<std::pair<i64, std::string>> a, b;
            for(auto &x : p) { std::ostringstream o; o << x.valuation; a.emplace(x.value, o.str()); }
            for(auto &[k, x] : after) { std::ostringstream o; o << x.currency; b.emplace(x.value, o.str()); }
            vmon::check(c, "C35", a == b, "prices-recorded-what");
        }
        for(auto &[k, x] : after) h = vmon::hash_combine(h, u64(x.value));
        vmon::event(clears ? "market-rounds-cleared" : "market-rounds-without-orders");
    }
    c.touch(h);
}

// The market within a model.
namespace {
struct trader : public agent
{
    const setting *s; vmon::rng r{1};
    map<u64, std::vector<map<key, cents>>> heard;
    map<u64, flow> *net; double active = 1;
    trader(const identity<agent> &i) : agent(i) {}
    simulation::time_point act(simulation::time_interval step, std::seed_seq &) override
    {
        bool ordered = false;
        for(auto &[k, x] : inbox) if(k <= step.lower && x->type == impact_function::quote_message::code) {
            auto q = std::dynamic_pointer_cast<impact_function::quote_message>(x);
            heard[step.lower].push_back(read(q->proposed));
            if(ordered) continue;                        // the initial quotes are sent twice
            ordered = true;
            auto o = random_order(r, *s, identifier, q->sender, (*net)[step.lower]);
            o->sent = step.lower; o->received = step.lower;
            send_message(o);
        }
        return step.upper;
    }
};
}
SECTION(impact_days, ({"C35", "C34"}), 1500, 80000)
{
    auto s = random_setting(c.r);
    computation::environment environment;
    u64 days = 2 + c.r.below(5);
    simulation::model model(environment, simulation::parameter::parametrization(0, 0, days + 1));
    auto m = model.create<impact>(model.world, s.quotes);
    m->impact_function = s.rule;
    map<u64, flow> net;
    std::vector<std::shared_ptr<trader>> traders;
    for(size_t i = 0; i < std::min<size_t>(s.people.size(), 30); ++i) {
        auto t = model.create<trader>(model.world); traders.push_back(t);
        t->s = &s; t->r = vmon::rng(c.r.next()); t->net = &net;
        m->participants.insert(identity<law::owner<property>>(t->identifier.digits));
    }
    c.note("goods ", s.goods.size(), " people ", traders.size(), " days ", days, " rule ", s.rule.kind, " size ", s.rule.size);
    std::vector<map<key, cents>> quoted{read(m->traded_properties)};
    for(u64 d = 0; d <= days && !c.failed; ++d) {
        u64 t = d; size_t rounds = 0;
        while(t < d + 1 && rounds++ < 100) t = model.step({t, d + 1});
        if(!vmon::check(c, "C35", rounds < 100, "no-progress", d, t)) return;
        auto now = read(m->traded_properties);
        check_quotes(c, quoted.back(), now, net[d], s.rule);
        if(d > 0) for(auto &t2 : traders) {
            auto &h = t2->heard[d];
            if(!vmon::check(c, "C35", !h.empty(), "not-told", d, t2->identifier)) continue;
            // announced again while the market waits for orders; the latest word is current
            for(auto &x : h) vmon::check(c, "C35", alike(x, quoted.back()) || alike(x, quoted[quoted.size() - 2]), "told-old", d, show(x), " instead of ", show(quoted.back()));
            vmon::check(c, "C35", alike(h.back(), quoted.back()), "told", d, show(h.back()), " instead of ", show(quoted.back()));
        }
        quoted.push_back(now);
        vmon::event("trading-days-of-impact-markets");
        c.touch(show(now));
    }
    vmon::check(c, "C35", m->output_clearing_prices_->values.size() == days, "clearings-recorded", days, " days, recorded ", m->output_clearing_prices_->values.size(), days);
}
VMON_MAIN
