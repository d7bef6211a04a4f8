// Owners, transfers and inventories (C11, C12).
#include "vmon.hpp"
#include <esl/computation/environment.hpp>
#include <esl/economics/cash.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/accounting/inventory.hpp>
#include <esl/economics/owner.hpp>
#include <esl/simulation/model.hpp>

using namespace esl;
using namespace esl::economics;
using namespace esl::economics::accounting;
using esl::interaction::transfer;
using vmon::u64;
using vmon::i64;

namespace {
struct grain : public law::property, public fungible { explicit grain(identity<law::property> i) : law::property(i) {} std::string name() const override { return "grain"; } };
struct oil : public law::property, public fungible { explicit oil(identity<law::property> i) : law::property(i) {} };
struct house : public law::property, public infungible { explicit house(identity<law::property> i) : law::property(i) {} };
// the same property under another description
struct renamed_grain : public grain { using grain::grain; std::string name() const override { return "barley " + std::to_string(reinterpret_cast<std::uintptr_t>(this) % 7); } };
struct renamed_house : public house { using house::house; std::string name() const override { return "villa"; } };
typedef law::owner<law::property> base_owner;

struct plain_owner : public virtual base_owner, public identifiable_as<plain_owner> {
    explicit plain_owner(const identity<plain_owner> &i) : agent(i), base_owner(i) {}
    simulation::time_point act(simulation::time_interval s, std::seed_seq &) override { return s.upper; }
};
struct full_owner : public virtual law::owner<grain>, public virtual law::owner<oil>, public virtual law::owner<house>, public identifiable_as<full_owner> {
    explicit full_owner(const identity<full_owner> &i) : agent(i), base_owner(i), law::owner<grain>(i), law::owner<oil>(i), law::owner<house>(i) {}
    simulation::time_point act(simulation::time_interval s, std::seed_seq &) override { return s.upper; }
};
struct cash_owner : public virtual law::owner<cash>, public virtual law::owner<money>, public virtual law::owner<house>, public identifiable_as<cash_owner> {
    explicit cash_owner(const identity<cash_owner> &i) : agent(i), base_owner(i), law::owner<cash>(i), law::owner<money>(i), law::owner<house>(i) {}
    simulation::time_point act(simulation::time_interval s, std::seed_seq &) override { return s.upper; }
};

struct trader : public virtual law::owner<grain>, public virtual law::owner<oil>, public virtual law::owner<house>, public identifiable_as<trader> {
    std::function<simulation::time_point(trader &, simulation::time_interval)> script;
    explicit trader(const identity<trader> &i) : agent(i), base_owner(i), law::owner<grain>(i), law::owner<oil>(i), law::owner<house>(i) {}
    simulation::time_point act(simulation::time_interval s, std::seed_seq &) override { return script(*this, s); }
};

struct good { std::shared_ptr<law::property> p, twin; bool unique; int kind; };
std::vector<good> make_goods(vmon::rng &r)
{
    std::vector<good> v; u64 n = 2 + r.below(9);
    for(u64 i = 0; i < n; ++i) {
        identity<law::property> id = r.chance(.3) ? identity<law::property>({i}) : r.chance(.5) ? identity<law::property>({7, i}) : identity<law::property>({i, 7, 1});
        switch(r.below(4)) {
        case 0: v.push_back({std::make_shared<grain>(id), r.chance(.5) ? std::make_shared<renamed_grain>(id) : std::make_shared<grain>(id), false, 0}); break;
        case 1: v.push_back({std::make_shared<oil>(id), std::make_shared<oil>(id), false, 1}); break;
        case 2: { auto c = r.pick<iso_4217>({currencies::USD, currencies::EUR, currencies::GBP, currencies::JPY}); bool have = false; for(auto &g : v) have |= g.kind == 3 && std::static_pointer_cast<cash>(std::dynamic_pointer_cast<cash>(g.p))->denomination == c;
                  if(!have) v.push_back({std::make_shared<cash>(c), std::make_shared<cash>(c), false, 3}); break; }
        default: v.push_back({std::make_shared<house>(id), r.chance(.5) ? std::make_shared<renamed_house>(id) : std::make_shared<house>(id), true, 2}); break;
        }
    }
    return v;
}
typedef std::map<identity<law::property>, u64> holding;
void put(holding &h, const identity<law::property> &i, u64 q) { if(q) h[i] = q; else h.erase(i); }

holding of(const law::property_map<quantity> &m) { holding h; for(auto &[k, q] : m) if(q.amount) h[k->identifier] += q.amount; return h; }
template<typename T> holding of(const inventory_by_fungibility<T, true> &f) { holding h; for(auto &[k, q] : f.items) if(q.amount) h[k->identifier] += q.amount; return h; }
template<typename T> holding of(const inventory_by_fungibility<T, false> &f) { holding h; for(auto &k : f.items) ++h[k->identifier]; return h; }
std::string show(const holding &h) { std::ostringstream s; s << "{"; for(auto &[k, q] : h) s << k << ":" << q << " "; s << "}"; return s.str(); }

u64 digest(const holding &h) { return vmon::hash_string(show(h)); }

struct party {
    std::shared_ptr<base_owner> o; int kind;    // 0 plain, 1 full, 2 cash
    holding want;
    holding filtered(const std::vector<good> &gs, std::function<bool(const good &)> f) const { holding h; for(auto &g : gs) if(f(g)) { auto i = want.find(g.p->identifier); if(i != want.end()) h.insert(*i); } return h; }
};

struct world_t {
    vmon::ctx &c; std::vector<good> goods; std::vector<party> parties;

    void observe(const char *when, bool filters = true)
    {
        for(size_t k = 0; k < parties.size(); ++k) {
            auto &p = parties[k];
            auto have = of(p.o->inventory);
            if(!vmon::check(c, "C11", have == p.want, "inventory", when, ": owner ", k, " holds ", show(have), " expected ", show(p.want))) p.want = have;
            vmon::distinct(digest(have));
            if(!filters) continue;
            auto f = [&](const char *name, const holding &h, std::function<bool(const good &)> which) {
                auto w = p.filtered(goods, which);
                vmon::check(c, "C11", h == w, std::string("filtered-collection-") + name, when, ": owner ", k, " has ", show(h), " expected ", show(w)); };
            if(auto o = std::dynamic_pointer_cast<full_owner>(p.o)) {
                f("grain", of(o->law::owner<grain>::properties), [](auto &g) { return g.kind == 0; });
                f("oil", of(o->law::owner<oil>::properties), [](auto &g) { return g.kind == 1; });
                f("house", of(o->law::owner<house>::properties), [](auto &g) { return g.kind == 2; });
            } else if(auto o = std::dynamic_pointer_cast<trader>(p.o)) {
                f("grain", of(o->law::owner<grain>::properties), [](auto &g) { return g.kind == 0; });
                f("oil", of(o->law::owner<oil>::properties), [](auto &g) { return g.kind == 1; });
                f("house", of(o->law::owner<house>::properties), [](auto &g) { return g.kind == 2; });
            } else if(auto o = std::dynamic_pointer_cast<cash_owner>(p.o)) {
                f("cash", of(o->law::owner<cash>::properties), [](auto &g) { return g.kind == 3; });
                f("money", of(o->law::owner<money>::properties), [](auto &g) { return g.kind == 3; });
                f("house", of(o->law::owner<house>::properties), [](auto &g) { return g.kind == 2; });
            }
        }
    }

    // what a harness agent receives at the start
    void grant(size_t k, const good &g, u64 q, bool twin)
    {
        auto &p = parties[k]; auto x = twin ? g.twin : g.p;
        if(q == 0) return;
        bool taken = false;
        if(auto o = std::dynamic_pointer_cast<full_owner>(p.o)) {
            if(g.kind == 0) o->law::owner<grain>::take(std::dynamic_pointer_cast<grain>(x), quantity(q)), taken = true;
            if(g.kind == 1) o->law::owner<oil>::take(std::dynamic_pointer_cast<oil>(x), quantity(q)), taken = true;
            if(g.kind == 2) o->law::owner<house>::properties.insert(std::dynamic_pointer_cast<house>(x));
        } else if(auto o = std::dynamic_pointer_cast<cash_owner>(p.o)) {
            if(g.kind == 3) { o->law::owner<cash>::take(std::dynamic_pointer_cast<cash>(x), quantity(q)), taken = true; o->law::owner<money>::properties.insert(std::dynamic_pointer_cast<money>(x), quantity(q)); }
            if(g.kind == 2) o->law::owner<house>::properties.insert(std::dynamic_pointer_cast<house>(x));
        }
        if(taken) vmon::event("properties taken");
        else { inventory_filter<law::property> f; f.insert(x, quantity(q)); f.insert_into(p.o->inventory); }
        put(p.want, x->identifier, p.want[x->identifier] + q);
        c.note("owner ", k, " is granted ", q, " of ", x->identifier);
        observe("after a grant");
    }
};

std::shared_ptr<base_owner> make_party(simulation::model &m, int kind)
{
    if(kind == 0) return m.create<plain_owner>(m.world);
    if(kind == 1) return m.create<full_owner>(m.world);
    return m.create<cash_owner>(m.world);
}

struct order { size_t from, to; std::vector<std::pair<const good *, u64>> items; bool lacking = false; };
// a transfer the reference can carry out, or (lacking) one that it cannot
order plan(vmon::rng &r, world_t &w, bool lacking)
{
    order o; o.from = r.below(w.parties.size()); o.to = r.chance(.08) ? o.from : r.below(w.parties.size());
    std::set<const good *> used; size_t n = 1 + r.below(4);
    for(size_t i = 0; i < n; ++i) {
        const good *g = &r.pick(w.goods); if(!used.insert(g).second) continue;
        auto &h = w.parties[o.from].want; auto f = h.find(g->p->identifier); u64 held = f == h.end() ? 0 : f->second;
        if(g->unique) { if(held) o.items.push_back({g, 1}); continue; }
        u64 q = r.chance(.2) ? held : r.chance(.1) ? 0 : held ? r.chance(.15) ? held - std::min(held - 1, r.below(3)) : 1 + r.below(held) : 0;
        if(q == 0 && r.chance(.7)) continue;
        o.items.push_back({g, q});
    }
    if(lacking && o.from != o.to) {
        // exceed one item
        const good *g = &r.pick(w.goods);
        auto &h = w.parties[o.from].want; auto f = h.find(g->p->identifier); u64 held = f == h.end() ? 0 : f->second;
        if(!(g->unique && held)) {
            o.items.erase(std::remove_if(o.items.begin(), o.items.end(), [&](auto &x) { return x.first == g; }), o.items.end());
            o.items.push_back({g, g->unique ? 1 : held + 1 + r.below(1000)}); o.lacking = true;
        }
    }
    return o;
}

inventory_filter<law::property> contents(vmon::rng &r, const order &o)
{
    inventory_filter<law::property> f;
    for(auto &[g, q] : o.items) { auto &x = r.chance(.5) ? g->p : g->twin;
        if(q > 1 && r.chance(.3)) { u64 a = 1 + r.below(q - 1); f.insert(g->p, quantity(a)); f.insert(g->twin, quantity(q - a)); }   // in two portions
        else f.insert(x, quantity(q)); }
    return f;
}
} // namespace

// messages handled one at a time, every holding compared after each
SECTION(transfers_stepwise, ({"C11"}), 400, 15000)
{
    computation::environment e; simulation::model m(e, simulation::parameter::parametrization(0, 0, 1000));
    world_t w{c, make_goods(c.r), {}};
    size_t n = 2 + c.r.below(5);
    for(size_t i = 0; i < n; ++i) { int k = int(c.r.below(3)); w.parties.push_back({make_party(m, k), k, {}}); }
    for(auto &g : w.goods) {
        if(g.unique) { w.grant(c.r.below(n), g, 1, c.r.chance(.5)); continue; }
        for(size_t k = 0; k < n; ++k) for(int t = 0; t < 2; ++t) if(c.r.chance(.6)) w.grant(k, g, c.r.chance(.1) ? c.r.magnitude(50) : c.r.below(200), c.r.chance(.5));
    }
    std::seed_seq seed{1}; simulation::time_point now = 1;
    size_t transfers = 5 + c.r.below(40);
    for(size_t t = 0; t < transfers && !c.failed; ++t, ++now) {
        auto o = plan(c.r, w, c.r.chance(.08)); if(o.items.empty()) continue;
        auto &from = w.parties[o.from], &to = w.parties[o.to];
        auto f = contents(c.r, o);
        std::string what; for(auto &[g, q] : o.items) { std::ostringstream s; s << " " << q << " of " << g->p->identifier; what += s.str(); }
        c.note("transfer ", o.from, " -> ", o.to, what, o.lacking ? " (not held)" : "");
        // some transfers are sent by a third party, such as a market
        bool intermediary = c.r.chance(.3); size_t broker = c.r.below(n); if(intermediary) vmon::event("transfers sent by an intermediary");
        auto deliver = [&](party &p) {
            identity<base_owner> fi = *from.o, ti = *to.o; identity<agent> sender = intermediary ? w.parties[broker].o->identifier : from.o->identifier, recipient = p.o->identifier;
            auto msg = std::make_shared<transfer>(sender, recipient, fi, ti, f);
            p.o->inbox.insert({now, msg});
            p.o->process_messages({now, now + 1}, seed);
            p.o->inbox.clear();
        };
        // a bystander that is handed the message does nothing
        if(n > 2 && c.r.chance(.2)) { size_t b = c.r.below(n); if(b != o.from && b != o.to) { deliver(w.parties[b]); w.observe("after a bystander's copy"); vmon::event("bystander copies"); } }
        if(o.from == o.to) {
            deliver(from); w.observe("after a transfer to oneself"); vmon::event("transfers to oneself"); continue;
        }
        bool receive_first = c.r.chance(.3) && !o.lacking;
        auto give = [&] { for(auto &[g, q] : o.items) put(from.want, g->p->identifier, (from.want.count(g->p->identifier) ? from.want[g->p->identifier] : 0) - q); };
        auto take = [&] { for(auto &[g, q] : o.items) { put(to.want, g->p->identifier, (to.want.count(g->p->identifier) ? to.want[g->p->identifier] : 0) + q); } };
        if(o.lacking) {
            bool threw = false;
            try { deliver(from); } catch(const insufficent_inventory &) { threw = true; } catch(const std::exception &x) { vmon::check(c, "C11", false, "wrong-error", x.what()); }
            vmon::check(c, "C11", threw, "transfer-of-property-not-held-accepted", what);
            w.observe("after a refused transfer", false);
            vmon::event("transfers refused");
            return;      // the filtered collections of the failing owner are not specified after an error
        }
        if(receive_first) { deliver(to); take(); w.observe("after receiving"); deliver(from); give(); }
        else { deliver(from); give(); w.observe("after sending"); deliver(to); take(); }
        w.observe("after a transfer"); vmon::event("transfers");
        if(o.items.size() > 1) vmon::event("transfers of several properties");
    }
    for(auto &p : w.parties) c.touch(digest(p.want));
}
REQUIRE_EVENT("C11", "transfers");
REQUIRE_EVENT("C11", "transfers to oneself");
REQUIRE_EVENT("C11", "transfers refused");
REQUIRE_EVENT("C11", "transfers of several properties");
REQUIRE_EVENT("C11", "properties taken");
REQUIRE_EVENT("C11", "transfers sent by an intermediary");

// whole models: traders send transfers to both sides while the model runs, with one or more threads
namespace {
} // namespace

SECTION(transfers_in_models, ({"C11"}), 120, 4000)
{
    computation::environment e;
    unsigned threads = 1 + unsigned(c.r.below(4));
    simulation::parameter::parametrization parameters(0, 0, 40, 0, threads);
    simulation::model m(e, parameters);
    world_t w{c, {}, {}};
    for(auto &g : make_goods(c.r)) if(g.kind != 3) w.goods.push_back(g);
    if(w.goods.empty()) return;
    size_t n = 2 + c.r.below(6);
    std::vector<std::shared_ptr<trader>> ts;
    for(size_t i = 0; i < n; ++i) { auto t = m.create<trader>(m.world); ts.push_back(t); w.parties.push_back({t, 3, {}}); }
    auto grant = [&](size_t k, const good &g, u64 q) {
        if(!q) return;
        auto &t = *ts[k];
        if(g.kind == 0) t.law::owner<grain>::take(std::dynamic_pointer_cast<grain>(g.p), quantity(q));
        if(g.kind == 1) t.law::owner<oil>::take(std::dynamic_pointer_cast<oil>(g.p), quantity(q));
        if(g.kind == 2) { t.law::owner<house>::properties.insert(std::dynamic_pointer_cast<house>(g.p)); t.inventory.insert({g.p, quantity(1)}); }
        put(w.parties[k].want, g.p->identifier, q); };
    for(auto &g : w.goods) { if(g.unique) { grant(c.r.below(n), g, 1); continue; } for(size_t k = 0; k < n; ++k) if(c.r.chance(.7)) grant(k, g, 10 + c.r.below(1000)); }
    // a schedule that never overdraws: what is sent at a time is held then in the reference
    struct planned { simulation::time_point at; size_t from, to; std::vector<std::pair<const good *, u64>> items; };
    std::vector<std::vector<planned>> plans(n);
    simulation::time_point at = 1; size_t count = 0;
    for(; at < 36; ++at) {
        // every property moves at most once per two time units, so that the order of messages at one time does not matter
        std::set<const good *> used; size_t k = c.r.below(4);
        for(size_t i = 0; i < k; ++i) {
            auto o = plan(c.r, w, false); if(o.items.empty()) continue;
            o.items.erase(std::remove_if(o.items.begin(), o.items.end(), [&](auto &x) { return used.count(x.first) > 0; }), o.items.end());
            if(o.items.empty()) continue;
            for(auto &x : o.items) used.insert(x.first);
            if(o.from != o.to) for(auto &[g, q] : o.items) {
                auto &a = w.parties[o.from].want, &b = w.parties[o.to].want; auto id = g->p->identifier;
                put(a, id, (a.count(id) ? a[id] : 0) - q); put(b, id, (b.count(id) ? b[id] : 0) + q); }
            size_t initiator = c.r.below(n);
            plans[initiator].push_back({at, o.from, o.to, o.items}); ++count;
        }
    }
    auto seed = c.r.next();
    for(size_t i = 0; i < n; ++i) {
        ts[i]->script = [&, i, next = size_t(0), r = vmon::rng(seed + i)](trader &t, simulation::time_interval s) mutable {
            while(next < plans[i].size() && plans[i][next].at <= s.lower) {
                auto &p = plans[i][next]; ++next;
                order o; o.from = p.from; o.to = p.to; o.items = p.items;
                auto f = contents(r, o);
                identity<base_owner> fi = *ts[p.from], ti = *ts[p.to];
                t.create_message<transfer>(ts[p.from]->identifier, s.lower, t.identifier, ts[p.from]->identifier, fi, ti, f);
                if(p.from != p.to) t.create_message<transfer>(ts[p.to]->identifier, s.lower, t.identifier, ts[p.to]->identifier, fi, ti, f);
            }
            return next < plans[i].size() ? std::min(s.upper, plans[i][next].at) : s.upper;
        };
    }
    c.note(n, " traders, ", count, " transfers, ", threads, " threads");
    e.run(m);
    w.observe("after the model has run");
    vmon::event("transfers in models", count);
    for(auto &p : w.parties) c.touch(digest(p.want));
}
REQUIRE_EVENT("C11", "transfers in models");

// ---- C12 ----
namespace {
template<typename T> std::shared_ptr<T> as(const std::shared_ptr<law::property> &p) { return std::dynamic_pointer_cast<T>(p); }
template<> std::shared_ptr<law::property> as<law::property>(const std::shared_ptr<law::property> &p) { return p; }

template<typename T> void fungible_history(vmon::ctx &c, size_t steps)
{
    typedef inventory_by_fungibility<T, true> inv;
    std::vector<std::shared_ptr<T>> items, twins; u64 n = 1 + c.r.below(8);
    for(u64 i = 0; i < n; ++i) {
        identity<law::property> id = c.r.chance(.5) ? identity<law::property>({i}) : identity<law::property>({3, i});
        items.push_back(std::make_shared<grain>(id)); twins.push_back(c.r.chance(.5) ? std::make_shared<renamed_grain>(id) : std::make_shared<grain>(id));
    }
    auto pick = [&](u64 k) { return c.r.chance(.5) ? items[k] : twins[k]; };
    inv a; holding want;
    law::property_map<quantity> m; holding mwant;
    if(c.r.chance(.3)) { u64 k = c.r.below(n), q = 1 + c.r.below(50); a = inv({{items[k], quantity(q)}}); want[items[k]->identifier] = q; }
    auto observe = [&](const char *what) {
        auto have = of(a), mh = of(m);
        vmon::check(c, "C12", have == want, "inventory-amounts", what, ": ", show(have), " expected ", show(want));
        vmon::check(c, "C12", mh == mwant, "map-amounts", what, ": ", show(mh), " expected ", show(mwant));
        std::set<identity<law::property>> ids; for(auto &[k, q] : a.items) vmon::check(c, "C12", ids.insert(k->identifier).second, "item-listed-twice", k->identifier);
        vmon::distinct(vmon::hash_combine(digest(have), digest(mh)));
    };
    auto amount = [&](holding &h, const identity<law::property> &i) { auto f = h.find(i); return f == h.end() ? u64(0) : f->second; };
    auto other = [&](holding &source, bool exceed, holding &o) {     // an inventory of parts of what is held
        inv b; u64 k = 1 + c.r.below(n);
        for(u64 i = 0; i < k; ++i) { u64 x = c.r.below(n); auto id = items[x]->identifier; if(o.count(id)) continue; u64 h = amount(source, id);
            u64 q = exceed && i == k - 1 ? h + 1 + c.r.below(5) : c.r.chance(.2) ? h : c.r.chance(.15) ? h - std::min(h, c.r.below(4)) : c.r.chance(.1) ? 0 : c.r.below(h + 1);
            b.insert(pick(x), quantity(q)); o[id] = q; }
        return b; };
    for(size_t s = 0; s < steps && c.failed < 3; ++s) {
        u64 k = c.r.below(n); auto p = pick(k); auto id = p->identifier; u64 held = amount(want, id);
        switch(c.r.below(8)) {
        case 0: case 1: { u64 q = c.r.chance(.1) ? c.r.magnitude(48) : c.r.below(100); c.note("insert ", q, " of ", id); a.insert(p, quantity(q)); put(want, id, held + q); observe("insert"); vmon::event("insertions"); break; }
        case 2: { u64 q = c.r.chance(.3) ? held : c.r.chance(.15) ? held - std::min(held, c.r.below(4)) : c.r.below(held + 1); c.note("erase ", q, " of ", id); 
            try { a.erase(p, quantity(q)); } catch(const std::exception &e) { vmon::check(c, "C12", false, "removal-of-held-refused", q, " of ", held, " ", e.what()); }
            put(want, id, held - q); observe("erase"); vmon::event("removals"); break; }
        case 3: { u64 q = held + 1 + c.r.below(3); c.note("erase too much: ", q, " of ", id); bool threw = false;
            try { a.erase(p, quantity(q)); } catch(const insufficent_inventory &e) { threw = true; vmon::check(c, "C12", e.before.amount == held && e.withdrawal.amount == q && e.identifier == id, "error-content", e.what()); }
            vmon::check(c, "C12", threw, "removal-beyond-holding-accepted", q, " of ", held); observe("refused erase"); vmon::event("removals refused"); break; }
        case 4: { holding o; holding any; for(u64 i = 0; i < n; ++i) any[items[i]->identifier] = c.r.chance(.1) ? c.r.magnitude(48) : 60; auto b = other(any, false, o); auto before = of(b); c.note("insert inventory ", show(o)); a.insert(b); for(auto &[i, q] : o) put(want, i, amount(want, i) + q);
            vmon::check(c, "C12", of(b) == before, "source-changed"); observe("insert inventory"); vmon::event("inventories merged"); break; }
        case 5: { holding o; bool ex = c.r.chance(.4); auto b = other(want, ex, o); bool lacking = false; for(auto &[i, q] : o) lacking |= q > amount(want, i); auto before = of(b); c.note("erase inventory ", show(o)); bool threw = false;
            try { a.erase(b); } catch(const insufficent_inventory &) { threw = true; }
            vmon::check(c, "C12", threw == lacking, lacking ? "inventory-removal-beyond-holding-accepted" : "inventory-removal-refused"); 
            if(!lacking) for(auto &[i, q] : o) put(want, i, amount(want, i) - q);
            vmon::check(c, "C12", of(b) == before, "source-changed"); observe(lacking ? "refused inventory removal" : "inventory removal"); vmon::event(lacking ? "inventory removals refused" : "inventories subtracted"); break; }
        case 6: { c.note("insert into map"); auto before = of(a); a.insert_into(m); for(auto &[i, q] : want) put(mwant, i, amount(mwant, i) + q); vmon::check(c, "C12", of(a) == before, "source-changed"); observe("insert_into"); vmon::event("inventories merged"); break; }
        default: { holding o; bool ex = c.r.chance(.4); auto b = other(mwant, ex, o); bool lacking = false; for(auto &[i, q] : o) lacking |= q > amount(mwant, i); c.note("erase from map ", show(o)); bool threw = false;
            try { b.erase_from(m); } catch(const insufficent_inventory &) { threw = true; }
            vmon::check(c, "C12", threw == lacking, lacking ? "map-removal-beyond-holding-accepted" : "map-removal-refused");
            if(!lacking) for(auto &[i, q] : o) put(mwant, i, amount(mwant, i) - q);
            observe(lacking ? "refused erase_from" : "erase_from"); vmon::event(lacking ? "inventory removals refused" : "inventories subtracted"); break; }
        }
    }
    c.touch(vmon::hash_combine(digest(want), digest(mwant)));
}

template<typename T> void infungible_history(vmon::ctx &c, size_t steps)
{
    typedef inventory_by_fungibility<T, false> inv;
    std::vector<std::shared_ptr<T>> items, twins; u64 n = 1 + c.r.below(8);
    for(u64 i = 0; i < n; ++i) { identity<law::property> id({i, 2}); items.push_back(std::make_shared<house>(id)); twins.push_back(c.r.chance(.5) ? std::make_shared<renamed_house>(id) : std::make_shared<house>(id)); }
    auto pick = [&](u64 k) { return c.r.chance(.5) ? items[k] : twins[k]; };
    inv a; holding want; law::property_map<quantity> m; holding mwant;
    if(c.r.chance(.3)) { a = inv({items[0]}); want[items[0]->identifier] = 1; }
    auto observe = [&](const char *what) {
        auto have = of(a), mh = of(m);
        vmon::check(c, "C12", have == want, "unique-items", what, ": ", show(have), " expected ", show(want));
        vmon::check(c, "C12", mh == mwant, "unique-items-in-map", what, ": ", show(mh), " expected ", show(mwant));
        vmon::distinct(vmon::hash_combine(digest(have), digest(mh))); };
    for(size_t s = 0; s < steps && c.failed < 3; ++s) {
        auto p = pick(c.r.below(n)); auto id = p->identifier;
        switch(c.r.below(6)) {
        case 0: case 1: a.insert(p); want[id] = 1; c.note("insert ", id); observe("insert"); vmon::event("insertions"); break;
        case 2: a.erase(p); want.erase(id); c.note("erase ", id); observe("erase"); vmon::event("removals"); break;
        case 3: { bool clash = false; for(auto &[i, q] : want) clash |= mwant.count(i) > 0; bool threw = false; c.note("insert into map");
            try { a.insert_into(m); } catch(const duplicate_infungible &) { threw = true; }
            vmon::check(c, "C12", threw == clash, clash ? "duplicate-accepted" : "distinct-items-refused");
            if(!clash) for(auto &[i, q] : want) mwant[i] = 1;
            observe(clash ? "refused duplicate" : "insert_into"); vmon::event(clash ? "duplicates refused" : "inventories merged"); break; }
        case 4: m.clear(); mwant.clear(); break;
        default:
            if constexpr(std::is_same<T, law::property>::value) {
                law::property_set set; holding o; for(u64 i = 0; i < n; ++i) if(c.r.chance(.4)) { set.insert(pick(i)); o[items[i]->identifier] = 1; }
                if(c.r.chance(.5)) { a.insert(set); for(auto &[i, q] : o) want[i] = 1; observe("insert set"); vmon::event("sets inserted"); }
                else { a.erase(set); for(auto &[i, q] : o) want.erase(i); observe("erase set"); vmon::event("sets erased"); }
            }
            break;
        }
    }
    c.touch(vmon::hash_combine(digest(want), digest(mwant)));
}
} // namespace

SECTION(inventory_fungible, ({"C12"}), 700, 30000) { fungible_history<grain>(c, 10 + c.r.below(80)); }
SECTION(inventory_any_property, ({"C12"}), 700, 30000) { fungible_history<law::property>(c, 10 + c.r.below(80)); }
SECTION(inventory_unique, ({"C12"}), 400, 15000) { infungible_history<house>(c, 10 + c.r.below(80)); }
SECTION(inventory_unique_any_property, ({"C12"}), 400, 15000) { infungible_history<law::property>(c, 10 + c.r.below(80)); }
REQUIRE_EVENT("C12", "insertions");
REQUIRE_EVENT("C12", "removals");
REQUIRE_EVENT("C12", "removals refused");
REQUIRE_EVENT("C12", "inventories merged");
REQUIRE_EVENT("C12", "inventories subtracted");
REQUIRE_EVENT("C12", "inventory removals refused");
REQUIRE_EVENT("C12", "duplicates refused");
REQUIRE_EVENT("C12", "sets erased");
VMON_MAIN
