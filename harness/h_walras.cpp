// The Walrasian market: prices that clear, and settlement in balance (C33). Automatic differentiation is provided by the
// stand-in in harness/adept.
#include "vmon.hpp"
#include <cmath>
#include <esl/computation/environment.hpp>
#include <esl/economics/company.hpp>
#include <esl/economics/finance/securities_lending_contract.hpp>
#include <esl/economics/finance/shareholder.hpp>
#include <esl/economics/markets/walras/price_setter.hpp>
#include <esl/economics/markets/walras/quote_message.hpp>
#include <esl/interaction/transfer.hpp>
#include <esl/law/jurisdictions.hpp>
#include <esl/simulation/model.hpp>

using namespace esl;
using namespace esl::economics;
using namespace esl::economics::finance;
using namespace esl::economics::markets;
using namespace esl::economics::markets::walras;
using law::property;
using std::map;
using vmon::i64;
using vmon::u64;

namespace {
typedef identity<property> key;
typedef identity<agent> who;

// Demand in money terms for every property it lists: a fixed amount, less what is held at the new price, plus terms for the
// other properties' relative prices.
struct order : differentiable_order_message
{
    map<key, double> budget, elasticity;                 // budget * x^-elasticity
    map<key, map<key, double>> cross;                    // cross[p][q] * x_q, in money terms of p
    order(who from, who to) : differentiable_order_message(from, to) {}
    double held(const key &k) const { auto i = supply.find(k); return i == supply.end() ? 0. : double(std::get<0>(i->second).amount) - double(std::get<1>(i->second).amount); }
    template<typename number> map<key, number> demand(const map<key, std::tuple<quote, number>> &quotes) const
    {
        map<key, number> result;
        for(auto &[k, b] : budget) {
            const auto &[q, x] = quotes.at(k);
            double p = double(q), e = elasticity.at(k);
            number d = e == 0 ? b + x * (-held(k) * p) : b * pow(x, -e) - x * (held(k) * p);
            auto i = cross.find(k);
            if(i != cross.end()) for(auto &[o, w] : i->second) d += std::get<1>(quotes.at(o)) * w;
            result.emplace(k, d);
        }
        return result;
    }
    map<key, variable> excess_demand(const map<key, std::tuple<quote, variable>> &quotes) const override { return demand(quotes); }
    map<key, double> excess_demand(const map<key, std::tuple<quote, double>> &quotes) const override { return inherited ? differentiable_demand_supply_function::excess_demand(quotes) : demand(quotes); }
    bool inherited = false;                              // only the differentiable function is given
};

struct economy
{
    law::property_map<quote> quotes;
    std::vector<std::shared_ptr<stock>> goods;
    std::vector<std::shared_ptr<order>> orders;
    std::vector<who> people;
    who market;
    bool whole_range = false;                            // one property: the equilibrium may lie outside the permitted range
};
economy random_economy(vmon::rng &r, size_t goods, size_t people, bool elastic, bool cross, bool shorts, bool outside = false)
{
    economy e;
    e.market = who({9});
    std::vector<std::shared_ptr<company>> firms;
    for(size_t g = 0; g < goods; ++g) {
        identity<company> id; id.digits = {3, g};
        company firm(id, law::jurisdictions::US);
        e.goods.push_back(std::make_shared<stock>(firm, share_class()));
        i64 cents = r.chance(.2) ? r.in(1, 20) : r.chance(.5) ? r.in(50, 5000) : r.in(1000, 100000000);
        e.quotes.emplace(e.goods.back(), quote(price(cents, currencies::USD), r.chance(.7) ? 1 : r.pick({2u, 10u, 100u, cents > 100000 ? 10000u : 100u})));
    }
    for(size_t p = 0; p < people; ++p) { who w; w.digits = {5, p + 1}; e.people.push_back(w); e.orders.push_back(std::make_shared<order>(w, e.market)); e.orders.back()->inherited = r.chance(.3); }
    // supplies first, then budgets such that the equilibrium lies where we want it
    map<key, double> target, total;
    double scale = std::exp(r.real(std::log(1e3), std::log(1e8)));
    for(auto &g : e.goods) {
        key k = g->identifier; double p = double(e.quotes.find(g)->second);
        double x = outside && r.chance(.5) ? std::exp(r.real(-6, 6)) : r.chance(.2) ? 1. : std::exp(r.real(goods == 1 ? -2.2 : -.9, goods == 1 ? 2.2 : .9));
        target[k] = x;
        u64 units = std::max<u64>(4 * people, u64(scale / p));
        double sum = 0; std::vector<double> w;
        for(size_t i = 0; i < people; ++i) { w.push_back(.1 + r.real()); sum += w.back(); }
        double all = 0;
        for(size_t i = 0; i < people; ++i) {
            u64 s = u64(double(units) * w[i] / sum);
            bool has = !r.chance(.1) || people == 1;
            if(i > 0 && shorts && r.chance(.3)) { u64 n = 1 + r.below(std::max<u64>(1, s / 4)); e.orders[i]->supply[k] = std::make_tuple(quantity(0), quantity(n)); all -= double(n); }
            else if(has || i == 0) { u64 n = i == 0 ? s + units / 2 + 1 : s; e.orders[i]->supply[k] = std::make_tuple(quantity(n), quantity(0)); all += double(n); }
        }
        total[k] = all * p;
    }
    for(auto &g : e.goods) {
        key k = g->identifier; double el = elastic ? r.pick({0., .25, .5, 1.}) : 0.;
        double x = target[k], need = total[k] * x;      // what the budgets must sum to at the equilibrium
        map<key, double> c;
        if(cross) for(auto &o : e.goods) if(o != g && r.chance(.7)) { double w = r.real(-.35, .35) * total[k] / double(goods); c[o->identifier] = w; need -= w * target[o->identifier]; }
        if(need <= .05 * total[k] * x) { need = total[k] * x; c.clear(); }
        need *= std::pow(x, el);
        std::vector<double> w; double sum = 0;
        for(size_t i = 0; i < people; ++i) { w.push_back(r.chance(.1) && i ? 0. : .05 + r.real()); sum += w.back(); }
        for(size_t i = 0; i < people; ++i) {
            e.orders[i]->budget[k] = need * w[i] / sum; e.orders[i]->elasticity[k] = el;
            if(i == 0) e.orders[i]->cross[k] = c;
        }
    }
    // some participants only know some of the properties
    for(size_t i = 1; i < people; ++i) if(r.chance(.15)) for(auto &g : e.goods) if(r.chance(.5) && e.orders[i]->supply.find(g->identifier) == e.orders[i]->supply.end()) {
        double b = e.orders[i]->budget[g->identifier];
        e.orders[0]->budget[g->identifier] += b; e.orders[i]->budget.erase(g->identifier);
    }
    e.whole_range = outside;
    return e;
}
std::string show(const economy &e)
{
    std::ostringstream o; o.precision(17);
    for(auto &g : e.goods) { auto &q = e.quotes.find(g)->second; o << "good " << g->identifier << " at " << std::get<price>(q.type).value << " cents per " << q.lot << "; "; }
    for(auto &x : e.orders) { o << x->sender << " ";
        for(auto &[k, b] : x->budget) { o << k << ": " << b << " x^-" << x->elasticity.at(k) << " held " << x->held(k); auto c = x->cross.find(k); if(c != x->cross.end()) for(auto &[q, w] : c->second) o << " + " << w << " x_" << q; o << "; "; } }
    return o.str();
}
map<key, double> excess(const economy &e, const map<key, double> &x)
{
    map<key, std::tuple<quote, double>> at; map<key, double> sum;
    for(auto &[g, q] : e.quotes) { at.emplace(g->identifier, std::make_tuple(q, x.at(g->identifier))); sum[g->identifier] = 0; }
    for(auto &o : e.orders) for(auto &[k, d] : o->demand(at)) sum[k] += d;
    return sum;
}
map<key, double> turnover(const economy &e)
{
    map<key, double> s;
    for(auto &o : e.orders) for(auto &[k, b] : o->budget) s[k] += std::fabs(b) + std::fabs(o->held(k)) * double(e.quotes.find(std::static_pointer_cast<property>(*std::find_if(e.goods.begin(), e.goods.end(), [&, k = k](auto &g) { return g->identifier == k; })))->second);
    return s;
}
typedef tatonnement::excess_demand_model solver_model;
}

REQUIRE_EVENT("C33", "markets-cleared");
REQUIRE_EVENT("C33", "settlements");
REQUIRE_EVENT("C33", "short-positions");

// The quotes found clear the market whenever the equilibrium lies within the permitted range.
SECTION(clearing, ({"C33", "C34"}), 3000, 300000)
{
    size_t n = c.r.chance(.4) ? 1 : 1 + c.r.below(5), people = 1 + c.r.below(6);
    auto e = random_economy(c.r, n, people, c.r.chance(.5), n > 1 && c.r.chance(.6), false);
    c.note(show(e));
    solver_model m(e.quotes);
    for(auto &o : e.orders) m.excess_demand_functions_.push_back(o);
    auto found = m.compute_clearing_quotes();
    if(!vmon::check(c, "C33", found.has_value(), "no-quotes", "")) return;
    vmon::check(c, "C33", found->size() == n, "quotes-count", found->size(), n);
    for(auto &[k, x] : *found) vmon::check(c, "C33", x >= 1. / 11 - 1e-12 && x <= 11 + 1e-12, "circuit-breaker", k, x);
    auto left = excess(e, *found), size = turnover(e);
    for(auto &[k, d] : left) vmon::check(c, "C33", std::fabs(d) <= 2e-2 + 1e-6 * size[k], "not-cleared", "property", k, "excess", d, "of", size[k], "at", found->at(k));
    vmon::event("markets-cleared");
    c.touch(u64(n * 100 + people));
}


namespace {
// what each participant gets (positive) or gives (negative), summed over the settlement messages
struct flows { map<key, double> net; size_t messages = 0; };
typedef map<who, map<key, i64>> ledger;
ledger settlement_of(vmon::ctx &c, price_setter &m)
{
    ledger l;
    for(auto &x : m.outbox) {
        auto t = std::dynamic_pointer_cast<interaction::transfer>(x);
        if(!t) continue;
        who from(t->transferor.digits), to(t->transferee.digits), market(m.identifier.digits);
        vmon::check(c, "C33", (from == market) != (to == market), "settlement-parties", from, to);
        vmon::check(c, "C33", who(t->recipient.digits) == (from == market ? to : from), "settlement-addressed", t->recipient);
        for(auto &[p, q] : t->transferred.items) {
            if(q.amount == 0) continue;
            if(from == market) l[to][p->identifier] += i64(q.amount); else l[from][p->identifier] -= i64(q.amount);
        }
        vmon::event("settlements");
    }
    return l;
}
void check_settlement(vmon::ctx &c, const economy &e, price_setter &m, const map<key, double> &x)
{
    auto l = settlement_of(c, m);
    key dollars = cash(currencies::USD).identifier;
    map<key, std::tuple<quote, double>> at;
    for(auto &[g, q] : e.quotes) at.emplace(g->identifier, std::make_tuple(q, x.at(g->identifier)));
    map<key, i64> sum; i64 cents = 0; size_t legs = 0;
    map<who, i64> owed; map<who, size_t> leg;
    std::string state;
    for(auto &o : e.orders) {
        auto demand = o->demand(at);
        auto &mine = l[o->sender];
        long double cost = 0; size_t n = 0;
        for(auto &g : e.goods) {
            key k = g->identifier, lent = finance::securities_lending_contract(m.identifier, o->sender, k, quantity(1)).identifier;
            i64 units = mine[k], shorts = mine[lent], traded = units - shorts;
            auto i = o->supply.find(k);
            i64 had = 0, borrowed = 0;
            // the order as submitted: settlement may note further positions in it, but not change these
            if(i != o->supply.end()) { had = i64(std::get<0>(i->second).amount); borrowed = i64(std::get<1>(i->second).amount); }
            vmon::check(c, "C33", had + units >= 0, "sold-more-than-held", o->sender, k, had, units);
            vmon::check(c, "C33", borrowed + shorts >= 0, "returned-more-than-borrowed", o->sender, k, borrowed, shorts);
            vmon::check(c, "C33", !(had + units > 0 && borrowed + shorts > 0), "long-and-short", o->sender, k, had, units, borrowed, shorts);
            auto d = demand.find(k);
            double wanted = d == demand.end() ? 0. : d->second / (double(std::get<0>(at.at(k))) * x.at(k));
            vmon::check(c, "C33", std::fabs(double(traded) - wanted) < 2 + 1e-6 * (std::fabs(wanted) + 1), "allocation", o->sender, k, "wanted", wanted, "traded", traded);
            vmon::check(c, "C33", d != demand.end() || traded == 0, "unasked", o->sender, k, traded);
            auto &q = m.traded_properties.find(g)->second;
            cost += (long double)(traded) * std::get<price>(q.type).value / q.lot;
            if(traded) n += 1 + (units != 0 && shorts != 0);
            sum[k] += traded;
            if(shorts) vmon::event("short-positions");
            state += std::to_string(units) + "/" + std::to_string(shorts) + " ";
        }
        i64 paid = -mine[dollars];
        vmon::check(c, "C33", std::fabs((long double)paid - cost) <= n + 1e-9L * std::fabs(cost), "cash", o->sender, "paid", paid, "cents for", double(cost), "in", n);
        cents += paid; legs += n;
        for(auto &[k, q] : mine) { bool known = k == dollars; for(auto &g : e.goods) known |= k == g->identifier || k == finance::securities_lending_contract(m.identifier, o->sender, g->identifier, quantity(1)).identifier; vmon::check(c, "C33", known || q == 0, "unknown-property", k, q); }
    }
    for(auto &[k, q] : sum) vmon::check(c, "C33", q == 0, "units-created", k, q);
    vmon::check(c, "C33", std::fabs(double(cents)) <= double(legs) , "cash-created", cents, "in", legs);
    for(auto &[w, x2] : l) { bool known = false; for(auto &p : e.people) known |= p == w; vmon::check(c, "C33", known, "stranger", w); }
    c.touch(state);
}
}

// Settlement moves units between participants, in balance, against cash at the new quotes.
SECTION(settlement, ({"C33", "C34"}), 2500, 200000)
{
    size_t n = c.r.chance(.3) ? 1 : 1 + c.r.below(5), people = 2 + c.r.below(7);
    auto e = random_economy(c.r, n, people, c.r.chance(.3), n > 1 && c.r.chance(.3), c.r.chance(.6));
    c.note(show(e));
    price_setter m(identity<price_setter>{9});
    m.traded_properties = e.quotes;
    std::unordered_map<who, std::shared_ptr<differentiable_order_message>> orders;
    for(auto &o : e.orders) orders.emplace(o->sender, std::make_shared<order>(*o));
    auto x = m.clear_market(orders, simulation::time_interval(1, 2));
    bool clears = true;
    { auto left = excess(e, x), size = turnover(e); for(auto &[k, d] : left) clears &= vmon::check(c, "C33", std::fabs(d) <= 2e-2 + 1e-6 * size[k], "not-cleared", k, d, size[k], x.at(k)); }
    for(auto &[g, q] : m.traded_properties) {
        auto before = std::get<price>(e.quotes.find(g)->second.type), after = std::get<price>(q.type);
        vmon::check(c, "C33", after.value > 0 && after.valuation == before.valuation && q.lot == e.quotes.find(g)->second.lot, "quote", after.value, q.lot);
        vmon::check(c, "C33", after.value <= before.value * 11 && after.value >= std::max<i64>(1, before.value / 11), "quote-jump", before.value, after.value);
        double exact = double(before.value) * x.at(g->identifier);
        vmon::check(c, "C33", std::fabs(double(after.value) - exact) <= 1 + 1e-9 * exact, "quote-rounding", exact, after.value);
    }
    vmon::event("markets-cleared");
    if(clears) check_settlement(c, e, m, x);
}

REQUIRE_EVENT("C33", "limited-quotes");
REQUIRE_EVENT("C33", "trading-days");

// No solver moves a quote beyond the permitted range, and those that report a solution have one.
SECTION(solvers, ({"C33", "C34"}), 2000, 300000)
{
    size_t n = c.r.chance(.4) ? 1 : 1 + c.r.below(4), people = 1 + c.r.below(5);
    bool outside = c.r.chance(.6);
    auto e = random_economy(c.r, n, people, c.r.chance(.5), n > 1 && c.r.chance(.4), c.r.chance(.3), outside);
    solver_model m(e.quotes);
    for(auto &o : e.orders) m.excess_demand_functions_.push_back(o);
    if(c.r.chance(.4)) m.circuit_breaker = {c.r.pick({.1, .5, .9, .99}), c.r.pick({1.01, 1.1, 2., 10.})};
    size_t kind = c.r.below(6);
    if(kind < 4) m.methods = {solver_model::solver(kind)};
    else if(kind == 4) c.r.shuffle(m.methods);
    c.note("methods"); for(auto x : m.methods) c.note(std::to_string(int(x)));
    c.note(std::to_string(m.circuit_breaker.first) + " to " + std::to_string(m.circuit_breaker.second) + " " + show(e));
    size_t rounds = c.r.chance(.2) ? 1 + c.r.below(200) : 16;
    auto found = c.r.chance(.5) ? m.compute_clearing_quotes() : m.compute_clearing_quotes(rounds);
    if(!found) { vmon::event("no-solution"); return; }
    vmon::check(c, "C33", found->size() == n, "quotes-count", found->size(), n);
    bool inside = true;
    for(auto &[k, x] : *found) {
        vmon::check(c, "C33", x >= m.circuit_breaker.first * (1 - 1e-12) && x <= m.circuit_breaker.second * (1 + 1e-12), "circuit-breaker", "method", kind, k, x);
        bool limit = x <= m.circuit_breaker.first * (1 + 1e-9) || x >= m.circuit_breaker.second * (1 - 1e-9);
        if(limit) { inside = false; vmon::event("limited-quotes"); }
    }
    c.touch(u64(kind * 1000 + n * 100 + people * 2 + inside));
    auto left = excess(e, *found), size = turnover(e);
    if(inside && kind < 2) for(auto &[k, d] : left) vmon::check(c, "C33", std::fabs(d) <= 2e-2 + 1e-5 * size[k], "solution", "method", kind, "property", k, "excess", d, "of", size[k], "at", found->at(k));
    // one property: a quote at the limit means the equilibrium is beyond it
    if(n == 1 && kind == solver_model::root && !inside) { double d = left.begin()->second, x = found->begin()->second; vmon::check(c, "C33", x > 1 ? d >= -2e-2 - 1e-6 * size.begin()->second : d <= 2e-2 + 1e-6 * size.begin()->second, "wrong-limit", x, d); }
}

// Whole-unit allocations: zero sum, rounding shared out.
SECTION(allocations, ({"C33", "C34"}), 8000, 2000000)
{
    size_t n = 1 + c.r.below(3), people = 1 + c.r.below(12);
    law::property_map<quote> quotes; map<key, double> volumes; map<key, map<who, std::tuple<double, quantity, quantity>>> orders;
    std::vector<key> silent;
    for(size_t g = 0; g < n; ++g) {
        identity<company> id; id.digits = {3, g}; company firm(id, law::jurisdictions::US);
        auto s = std::make_shared<stock>(firm, share_class());
        quotes.emplace(s, quote(price(c.r.in(1, 10000), currencies::USD)));
        if(c.r.chance(.1)) { silent.push_back(s->identifier); continue; }
        double size = std::exp(c.r.real(-2, 14)), sum = 0; std::vector<double> d;
        for(size_t i = 0; i < people; ++i) { double x = c.r.chance(.2) ? double(c.r.in(-5, 5)) : c.r.chance(.2) ? double(c.r.in(-5, 5)) + .5 : c.r.real(-size, size); d.push_back(x); sum += x; }
        if(people > 1) d.back() -= sum; else d.back() = 0;
        for(size_t i = 0; i < people; ++i) { who w; w.digits = {5, i}; volumes[s->identifier] += std::fabs(d[i]); orders[s->identifier].emplace(w, std::make_tuple(d[i], quantity(0), quantity(0))); }
    }
    price_setter m(identity<price_setter>{9});
    auto t = m.compute_transfers(quotes, volumes, orders);
    for(auto &k : silent) vmon::check(c, "C33", t.find(k) == t.end() || t.at(k).empty(), "silent-property", k);
    std::string state;
    for(auto &[k, o] : orders) {
        if(!vmon::check(c, "C33", t.find(k) != t.end() && t.at(k).size() == o.size(), "allocation-missing", k)) continue;
        i64 sum = 0; size_t moved = 0; i64 error = 0;
        for(auto &[w, d] : o) {
            i64 a = t.at(k).at(w); sum += a; error += i64(std::get<0>(d)); moved += a != i64(std::get<0>(d));
            vmon::check(c, "C33", std::fabs(double(a) - std::get<0>(d)) < 2, "allocation-rounding", w, std::get<0>(d), a);
            state += std::to_string(a) + " ";
        }
        vmon::check(c, "C33", sum == 0, "allocation-sum", k, sum);
        vmon::check(c, "C33", moved <= size_t(std::llabs(error)), "allocation-moved", k, moved, error);
    }
    vmon::event("allocations");
    c.touch(state);
}

// The market within a model: quotes are sent to the participants, their orders clear, and holdings are conserved.
namespace {
struct trader : public shareholder
{
    std::vector<double> share; double wealth = 0; vmon::rng r{1};
    map<key, std::tuple<quantity, quantity>> held;
    std::vector<std::pair<u64, map<key, i64>>> heard;   // time, cents
    std::vector<std::shared_ptr<order>> sent;
    size_t orders = 0;
    void take(const std::shared_ptr<stock> &s, quantity q) { owner<stock>::take(s, q); }
    void take(const std::shared_ptr<cash> &s, quantity q) { owner<cash>::take(s, q); }
    map<key, i64> holdings() const { map<key, i64> h; for(auto &[k, q] : owner<stock>::properties.items) h[k->identifier] += i64(q.amount); for(auto &[k, q] : owner<cash>::properties.items) h[k->identifier] += i64(q.amount); return h; }
    trader(const identity<shareholder> &i) : agent(i), owner<cash>(i), owner<stock>(i), shareholder(i) {}
    simulation::time_point act(simulation::time_interval step, std::seed_seq &) override
    {
        for(auto &[k, x] : inbox) if(k <= step.lower && x->type == walras::quote_message::code) {
            auto q = std::dynamic_pointer_cast<walras::quote_message>(x);
            map<key, i64> h; for(auto &[p, v] : q->proposed) h[p->identifier] = std::get<price>(v.type).value;
            heard.emplace_back(step.lower, h);
            auto o = this->template create_message<order>(q->sender, step.lower, identifier, q->sender);
            o->sent = step.lower;
            size_t a = 0;
            for(auto &[p, v] : h) { o->budget[p] = wealth * share[a++]; o->elasticity[p] = 0; }
            auto mine = holdings();
            for(auto &[p, v] : h) { held[p] = std::make_tuple(quantity(u64(mine[p])), quantity(0)); }
            o->supply = held;
            sent.push_back(o); ++orders;
        }
        return step.upper;
    }
};
}
SECTION(market_days, ({"C33", "C34"}), 250, 15000)
{
    size_t n = 1 + c.r.below(4), people = c.r.chance(.05) ? 10 + c.r.below(30) : 2 + c.r.below(5); u64 days = 2 + c.r.below(5);
    computation::environment environment;
    simulation::model model(environment, simulation::parameter::parametrization(0, 0, days + 1));
    auto market = model.create<price_setter>();
    std::vector<std::shared_ptr<stock>> goods;
    for(size_t g = 0; g < n; ++g) {
        company firm(model.create_identifier<company>(), law::jurisdictions::US);
        goods.push_back(std::make_shared<stock>(firm, share_class()));
        market->traded_properties.emplace(goods.back(), quote(price(c.r.in(50, 500), currencies::USD)));
    }
    std::vector<std::shared_ptr<trader>> traders;
    std::vector<double> total(n, 0.), w(n); for(auto &x : w) x = .2 + c.r.real();
    for(size_t i = 0; i < people; ++i) {
        auto t = model.create<trader>(); traders.push_back(t); market->participants.insert(identity<law::owner<property>>(t->identifier.digits));
        t->wealth = c.r.real(1000, 100000);
        double sum = 0; for(size_t g = 0; g < n; ++g) { t->share.push_back(w[g] * (.5 + c.r.real())); sum += t->share.back(); }
        for(auto &x : t->share) x /= sum;
        for(auto &g : goods) { u64 units = u64(c.r.in(100, 20000)); t->take(g, quantity(units)); }
        t->take(std::make_shared<cash>(currencies::USD), quantity(1000000000000ull));
    }
    c.note("goods " + std::to_string(n) + " people " + std::to_string(people) + " days " + std::to_string(days));
    auto before = market->traded_properties;
    std::vector<map<key, i64>> prices;   // after each day
    auto cents = [&] { map<key, i64> p; for(auto &[k, q] : market->traded_properties) p[k->identifier] = std::get<price>(q.type).value; return p; };
    auto first = cents();
    map<key, i64> endowed; for(auto &x : traders) for(auto &[k, q] : x->holdings()) endowed[k] += q;
    for(u64 d = 0; d < days; ++d) {
        auto old = cents();
        u64 t = d; size_t rounds = 0;
        while(t < d + 1 && rounds++ < 100) t = model.step({t, d + 1});
        if(!vmon::check(c, "C33", rounds < 100, "no-progress", d, t)) return;
        auto now = cents(); prices.push_back(now);
        for(auto &[k, p] : now) vmon::check(c, "C33", p >= std::max<i64>(1, old[k] / 11) && p <= old[k] * 11, "quote-jump", d, k, old[k], p);
        // the price equates what is demanded and held
        if(traders[0]->orders) {
            for(size_t g = 0; g < n; ++g) {
                key k = goods[g]->identifier; double money = 0, units = 0;
                for(auto &x : traders) { if(x->sent.empty()) continue; money += x->sent.back()->budget[k]; units += x->sent.back()->held(k); }
                double exact = money / units * 100;
                if(exact > double(old[k]) / 10.9 && exact < double(old[k]) * 10.9) vmon::check(c, "C33", std::fabs(double(now[k]) - exact) <= 1.01 + 1e-6 * exact, "market-price", d, k, exact, now[k]);
            }
        }
        vmon::event("trading-days");
    }
    // nothing was created or lost between the participants
    map<key, i64> after; key dollars = cash(currencies::USD).identifier;
    for(auto &x : traders) for(auto &[p, q] : x->inventory) {
        auto lent = std::dynamic_pointer_cast<finance::securities_lending_contract>(p);
        if(lent) { after[lent->security] -= i64(q.amount); vmon::event("short-positions"); } else after[p->identifier] += i64(q.amount);
    }
    for(auto &[k, q] : endowed) if(k != dollars) vmon::check(c, "C33", after[k] == q, "units-conserved", k, q, after[k]);
    vmon::check(c, "C33", std::llabs(after[dollars] - endowed[dollars]) <= i64(2 * n * people * (days + 1)), "cash-conserved", endowed[dollars], after[dollars]);
    for(auto &x : traders) {
        vmon::check(c, "C33", x->orders >= 1, "participants-quoted", x->identifier, x->orders);
        for(auto &[when, h] : x->heard) {
            // quotes announced are those that held at some point before
            bool known = h == first; for(auto &p : prices) known |= h == p;
            vmon::check(c, "C33", known, "announced", x->identifier, when);
        }
    }
    c.touch(u64(n * 100 + people * 10 + days));
}
VMON_MAIN
