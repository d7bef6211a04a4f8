// Identities (C08): creation trees, ordering, hashing, conversion and text.
#include "vmon.hpp"
#include <unordered_set>
#include <esl/agent.hpp>
#include <esl/simulation/entity.hpp>
#include <esl/simulation/identity.hpp>
#include <esl/simulation/model.hpp>
#include <esl/simulation/world.hpp>
#include <esl/computation/environment.hpp>
#include <esl/law/property.hpp>

using namespace esl;
using vmon::u64;
typedef std::vector<u64> digits;

namespace {
struct node : public entity<node> {
    explicit node(identity<node> i) : entity<node>(i) {}
    node(const node &) = default;
};
struct leaf : public node, public identifiable_as<leaf> {
    explicit leaf(identity<leaf> i) : node(i) {}
};
struct other : public entity<other> { explicit other(identity<other> i) : entity<other>(i) {} };

struct walker : public agent {
    explicit walker(identity<walker> i) : agent(i) {}
    simulation::time_point act(simulation::time_interval s, std::seed_seq &) override { return s.upper; }
};
std::string show(const digits &d) { std::string s; for(auto x : d) s += std::to_string(x) + "."; return s; }

digits generate(vmon::rng &r)
{
    digits d(r.below(r.chance(.1) ? 12 : 5));
    for(auto &x : d) x = r.chance(.7) ? r.below(3) : r.chance(.2) ? ~u64(0) - r.below(2) : r.magnitude(64);
    return d;
}
std::string expected_text(const digits &d, int width)
{
    if(d.empty()) return "";
    std::string s = "\"";
    for(size_t i = 0; i < d.size(); ++i) { std::string n = std::to_string(d[i]); if(int(n.size()) < width) n = std::string(size_t(width) - n.size(), '0') + n; s += (i ? "-" : "") + n; }
    return s + "\"";
}

template<typename A, typename B> void compare(vmon::ctx &c, const identity<A> &a, const identity<B> &b, const digits &x, const digits &y)
{
    auto w = [&] { return show(x) + " vs " + show(y); };
    vmon::check(c, "C08", (a == b) == (x == y), "equality", w());
    vmon::check(c, "C08", (a != b) == (x != y), "inequality", w());
    vmon::check(c, "C08", (a < b) == (x < y), "less", w());
    vmon::check(c, "C08", (a > b) == (x > y), "greater", w());
    vmon::check(c, "C08", (a <= b) == (x <= y), "less-or-equal", w());
    vmon::check(c, "C08", (a >= b) == (x >= y), "greater-or-equal", w());
    if(x == y) vmon::check(c, "C08", std::hash<identity<A>>()(a) == std::hash<identity<B>>()(b), "equal-identities-hash-differently", w());
}
} // namespace

SECTION(identity_order, ({"C08"}), 1500, 60000)
{
    std::vector<digits> ds; size_t n = 2 + c.r.below(10);
    for(size_t i = 0; i < n; ++i) {
        digits d = generate(c.r);
        if(!ds.empty() && c.r.chance(.5)) {           // close relatives: prefixes, extensions, last component changed
            d = c.r.pick(ds);
            switch(c.r.below(5)) {
            case 0: d.push_back(c.r.below(3)); break;
            case 1: if(!d.empty()) d.pop_back(); break;
            case 2: if(!d.empty()) d.back() += c.r.chance(.5) ? 1 : -1; break;
            case 3: if(!d.empty()) d[c.r.below(d.size())] ^= u64(1) << c.r.below(64); break;
            default: break;
            }
        }
        ds.push_back(d);
    }
    for(auto &x : ds) { c.note(show(x)); c.touch(vmon::hash_string(show(x))); }
    std::map<std::string, digits> texts;
    int width = int(c.r.below(21));
    std::map<identity<node>, int> ordered; std::unordered_map<identity<node>, int> hashed; std::map<digits, int> reference;
    for(auto &x : ds) {
        identity<node> a(x); identity<agent> b(x); identity<leaf> l(x); identity<other> o(x);
        for(auto &y : ds) {
            identity<node> a2(y); identity<leaf> l2(y); identity<other> o2(y);
            compare(c, a, a2, x, y); compare(c, b, a2, x, y); compare(c, l, a2, x, y); compare(c, a, l2, x, y); compare(c, o, l2, x, y); compare(c, l, o2, x, y);
            vmon::event("pairs compared");
        }
        // conversions and copies keep the value
        identity<node> up = l; identity<leaf> down = dynamic_identity_cast<leaf>(up); identity<other> across = reinterpret_identity_cast<other>(l);
        identity<leaf> copied(l), assigned, moved(std::move(copied)); assigned = l; identity<leaf> movedto; { identity<leaf> t(l); movedto = std::move(t); }
        vmon::check(c, "C08", up.digits == x && down.digits == x && across.digits == x && moved.digits == x && assigned.digits == x && movedto.digits == x, "conversion-changes-value", show(x));
        for(size_t i = 0; i < x.size(); ++i) vmon::check(c, "C08", l[i] == x[i], "component", show(x), " at ", i);
        leaf e(l); node e2(e.identifier); other e3((identity<other>(x))); entity<node> &ge = e2; identity<node> e4i(ge.identifier); node e4(e4i);
        identity<leaf> recovered = e;
        vmon::check(c, "C08", recovered.digits == x && e.identifier.digits == x && e4.identifier.digits == x, "entity-identifier", show(x));
        vmon::check(c, "C08", static_cast<entity<node> &>(e) == static_cast<entity<node> &>(e2) && !(static_cast<entity<node> &>(e2) != static_cast<entity<other> &>(e3)), "entity-equality", show(x));
        vmon::check(c, "C08", std::hash<entity<node>>()(e) == std::hash<identity<leaf>>()(l), "entity-hash", show(x));
        for(auto &y : ds) { other f((identity<other>(y))); node g((identity<node>(y)));
            vmon::check(c, "C08", (static_cast<entity<node> &>(e) == static_cast<entity<other> &>(f)) == (x == y) && (static_cast<entity<node> &>(e) != static_cast<entity<other> &>(f)) == (x != y) && (static_cast<entity<node> &>(e) == g) == (x == y), "entity-comparison", show(x), " vs ", show(y)); }
        std::unique_ptr<identity<node>> p(new identity<node>(x)), q(new identity<node>(x));
        vmon::check(c, "C08", ordered[a] == reference[x] && hashed[a] == reference[x], "container-lookup", show(x));
        ++ordered[a]; ++hashed[identity<node>(x)]; ++reference[x];
        // text
        std::ostringstream s; s << a;
        vmon::check(c, "C08", s.str() == expected_text(x, 0) && a.representation() == s.str(), "text", s.str(), " for ", show(x));
        vmon::check(c, "C08", a.representation(width) == expected_text(x, width), "text-with-width", a.representation(width), " for ", show(x), " width ", width);
        std::ostringstream es; es << static_cast<entity<node> &>(e);
        vmon::check(c, "C08", e.representation() == expected_text(x, 0) && es.str() == expected_text(x, 0), "entity-text", es.str());
        auto t = texts.emplace(a.representation(width), x);
        vmon::check(c, "C08", t.second || t.first->second == x, "text-does-not-distinguish", show(x), " and ", show(t.first->second));
    }
    vmon::check(c, "C08", ordered.size() == reference.size() && hashed.size() == reference.size(), "container-size");
    auto r = reference.begin(); for(auto &[i, k] : ordered) { vmon::check(c, "C08", i.digits == r->first && k == r->second, "sorted-order"); ++r; }
    // transitivity and antisymmetry are implied by agreement with the reference order
}
REQUIRE_EVENT("C08", "pairs compared");

namespace {
// a random creation history; the same seed replays it
std::vector<digits> tree(vmon::ctx &c, vmon::rng r, size_t n, bool judge)
{
    std::vector<std::unique_ptr<node>> all; std::vector<u64> born;
    std::vector<digits> created;
    digits root = generate(r); if(root.empty()) root = {r.below(4)};
    all.push_back(std::make_unique<node>(identity<node>(root))); born.push_back(0); created.push_back(root);
    std::set<digits> seen{root};
    for(size_t i = 0; i < n; ++i) {
        size_t k = r.chance(.5) ? r.below(all.size()) : r.chance(.5) ? all.size() - 1 : 0;
        node &p = *all[k]; digits id; int how = int(r.below(4));
        switch(how) {
        case 0: { auto x = p.create<node>(); id = x.digits; all.push_back(std::make_unique<node>(x)); break; }
        case 1: { auto x = p.identifier.create<node>(p); id = x.digits; all.push_back(std::make_unique<node>(x)); break; }
        case 2: { auto x = p.create<leaf>(); id = x.digits; all.push_back(std::make_unique<leaf>(x)); break; }
        default: { auto x = p.create<other>(); id = x.digits; all.push_back(std::make_unique<node>(reinterpret_identity_cast<node>(x))); break; }
        }
        created.push_back(id);
        if(judge) {
            digits prefix(id.begin(), id.end() - (id.empty() ? 0 : 1));
            vmon::check(c, "C08", id.size() == p.identifier.digits.size() + 1 && prefix == p.identifier.digits, "child-does-not-extend-parent", show(id), " created by ", show(p.identifier.digits), " way ", how);
            vmon::check(c, "C08", seen.insert(id).second, "identifier-not-unique", show(id), " way ", how);
            vmon::event("identifiers created in trees");
        }
        if(r.chance(.1) && all.size() > 3) {                   // an entity that is gone does not free its identifier
            size_t d = 1 + r.below(all.size() - 1); all.erase(all.begin() + long(d));
        }
    }
    return created;
}
} // namespace

SECTION(identity_tree, ({"C08"}), 300, 10000)
{
    size_t n = 5 + c.r.below(c.r.chance(.1) ? 2000 : 120); u64 seed = c.r.next();
    auto a = tree(c, vmon::rng(seed), n, true), b = tree(c, vmon::rng(seed), n, false);
    vmon::check(c, "C08", a == b, "not-reproducible");
    // all pairwise hashes and an unordered set hold them apart
    std::unordered_set<identity<node>> s; for(auto &d : a) s.insert(identity<node>(d));
    vmon::check(c, "C08", s.size() == a.size(), "set-size", s.size(), " of ", a.size());
    u64 h = 0; for(auto &d : a) h = vmon::hash_combine(h, vmon::hash_string(show(d)));
    c.touch(h); vmon::event("creation trees");
}
REQUIRE_EVENT("C08", "identifiers created in trees");

// a parent with more children than fit in narrower counters
SECTION(identity_many_children, ({"C08"}), 2, 6)
{
    node p(identity<node>({4, c.r.below(9)})); node q(identity<node>({5}));
    u64 n = 66000 + c.r.below(300), k = 0;
    for(; k < n && !c.failed; ++k) {
        identity<node> i = c.index % 2 ? p.create<node>() : p.identifier.create<node>(p);
        vmon::check(c, "C08", i.digits.size() == 3 && i.digits[0] == 4 && i.digits[1] == p.identifier.digits[1] && i.digits[2] == k, "child-number", "child ", k, " is ", i);
    }
    identity<node> o = q.create<node>();
    vmon::check(c, "C08", o.digits == digits({5, 0}), "siblings-share-numbering", o);
    vmon::event("children of one parent", k); c.touch(n);
}
REQUIRE_EVENT("C08", "children of one parent");

// identifiers handed out by a model and its agents, with removals between
SECTION(identity_model, ({"C08"}), 60, 1500)
{
    auto once = [&](vmon::rng r, bool judge) {
        std::vector<digits> created; std::set<digits> seen;
        computation::environment e; simulation::parameter::parametrization p(0, simulation::time_point(0), simulation::time_point(5));
        simulation::model m(e, p);
        std::vector<std::shared_ptr<walker>> live; std::vector<std::shared_ptr<law::property>> goods;
        seen.insert(m.world.identifier.digits);
        size_t n = 3 + r.below(40);
        for(size_t i = 0; i < n; ++i) {
            digits id, parent;
            switch(r.below(live.empty() ? 1 : 4)) {
            case 0: { auto a = m.create<walker>(m.world); id = a->identifier.digits; parent = m.world.identifier.digits; live.push_back(a); break; }
            case 1: { auto &o = r.pick(live); auto g = o->entity<agent>::create<law::property>(); id = g.digits; parent = o->identifier.digits; break; }
            case 2: { auto &o = r.pick(live); auto a = m.create<walker>(*o); id = a->identifier.digits; parent = o->identifier.digits; live.push_back(a); break; }
            default: { size_t k = r.below(live.size()); m.agents.deactivate(live[k]); live.erase(live.begin() + long(k)); continue; }
            }
            created.push_back(id);
            if(judge) {
                digits prefix(id.begin(), id.end() - 1);
                vmon::check(c, "C08", prefix == parent, "child-does-not-extend-parent", show(id), " of ", show(parent));
                vmon::check(c, "C08", seen.insert(id).second, "identifier-not-unique-in-model", show(id));
                vmon::event("identifiers created in models");
            }
        }
        return created;
    };
    u64 seed = c.r.next();
    auto a = once(vmon::rng(seed), true), b = once(vmon::rng(seed), false);
    vmon::check(c, "C08", a == b, "model-not-reproducible");
    u64 h = 0; for(auto &d : a) h = vmon::hash_combine(h, vmon::hash_string(show(d)));
    c.touch(h);
}
REQUIRE_EVENT("C08", "identifiers created in models");
VMON_MAIN
