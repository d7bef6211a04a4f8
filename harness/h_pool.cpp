// Block pool (C10): random histories against a map from index to value.
#include "vmon.hpp"
#include <esl/computation/block_pool.hpp>

using esl::computation::block_pool::static_block_pool;
using vmon::u64;

namespace {
// counts its instances and owns memory, so that leaks and double destruction show
struct tracked {
    static inline long alive = 0, bad = 0;
    std::unique_ptr<u64> v; const tracked *self;
    explicit tracked(u64 x = 0) : v(new u64(x)), self(this) { ++alive; }
    tracked(const tracked &o) : v(new u64(o.value())), self(this) { ++alive; }
    tracked &operator=(const tracked &o) { if(self != this) ++bad; v.reset(new u64(o.value())); return *this; }
    ~tracked() { if(self != this) ++bad; self = nullptr; --alive; }
    u64 value() const { if(self != this) ++bad; return v ? *v : ~0ull; }
};
u64 value_of(const tracked &t) { return t.value(); }
u64 value_of(const std::string &s) { return std::strtoull(s.c_str(), nullptr, 10); }
u64 value_of(u64 v) { return v; }
u64 value_of(const std::vector<u64> &v) { return v.empty() ? 0 : v[0] * (v[0] == v.back()); }
template<typename T> T make(u64 v);
template<> tracked make<tracked>(u64 v) { return tracked(v); }
template<> std::string make<std::string>(u64 v) { return std::to_string(v) + " an element with memory of its own"; }
template<> u64 make<u64>(u64 v) { return v; }
template<> std::vector<u64> make<std::vector<u64>>(u64 v) { return std::vector<u64>(40, v); }

template<typename T, typename I> void history(vmon::ctx &c, size_t capacity, size_t steps)
{
    static_block_pool<T, I> pool(capacity);
    const auto &cp = pool;
    std::map<u64, u64> live;            // index to value
    std::map<u64, const T *> where;
    std::vector<u64> gone;              // indices erased
    bool any = false; u64 last = 0, next = 1000;
    u64 phase = 0;
    auto verify = [&](u64 i, u64 v) {
        vmon::check(c, "C10", value_of(pool[i]) == v, "value-by-index", "index ", i);
        vmon::check(c, "C10", value_of(cp[i]) == v, "value-by-const-index", "index ", i);
        vmon::check(c, "C10", value_of(pool.at(i)) == v, "value-at", "index ", i);
        vmon::check(c, "C10", value_of(cp.at(i)) == v, "value-const-at", "index ", i);
        vmon::check(c, "C10", &pool[i] == where[i] && &cp[i] == where[i], "element-moved", "index ", i);
    };
    auto all = [&] {
        vmon::check(c, "C10", cp.size() == live.size(), "size", cp.size(), " vs ", live.size());
        for(auto &[i, v] : live) verify(i, v);
    };
    vmon::check(c, "C10", cp.capacity() == capacity && cp.size() == 0, "new-pool");
    for(size_t s = 0; s < steps; ++s) {
        if(s % 16 == 0) phase = c.r.below(4);
        double fill = phase == 0 ? .9 : phase == 1 ? .1 : phase == 2 ? .5 : .65;
        if(c.r.chance(fill)) {
            u64 v = next++;
            T e = make<T>(v);
            if(live.size() == capacity) {
                bool refused = false;
                try { pool.emplace(e); } catch(const std::length_error &) { refused = true; }
                vmon::check(c, "C10", refused, "placement-beyond-capacity-accepted", "capacity ", capacity);
                vmon::event("placements refused at capacity");
                if(!refused) return;
            } else {
                try {
                    auto [i, b] = pool.emplace(e);
                    u64 index = u64(i);
                    c.note("emplace ", v, " at ", index);
                    vmon::check(c, "C10", !any || index > last, "index-not-increasing", index, " after ", last);
                    vmon::check(c, "C10", !live.count(index), "index-of-live-element-reused", index);
                    vmon::check(c, "C10", b && value_of(b->data) == v, "returned-block");
                    vmon::check(c, "C10", b->index == index, "index-of-block", b->index, " vs ", index);
                    any = true; last = std::max(last, index); live[index] = v; where[index] = &b->data;
                    verify(index, v);
                } catch(const std::length_error &) {
                    vmon::check(c, "C10", false, "placement-refused-below-capacity", live.size(), " of ", capacity);
                    return;
                }
            }
        } else {
            u64 x = c.r.below(10);
            if(x < 7 && !live.empty()) {
                auto it = live.begin(); u64 how = c.r.below(3);
                if(how == 0) std::advance(it, long(c.r.below(live.size()))); else if(how == 1) it = std::prev(live.end());
                c.note("erase ", it->first);
                size_t n = pool.erase(I(it->first));
                vmon::check(c, "C10", n == 1, "live-element-not-erased", "index ", it->first, " gave ", n);
                gone.push_back(it->first); where.erase(it->first); live.erase(it);
            } else {
                // an index that names no element: erased before, or never given out
                u64 i; u64 how = c.r.below(4);
                if(how == 0 && !gone.empty()) i = c.r.pick(gone);
                else if(how == 1 && !gone.empty()) i = gone.back();
                else if(how == 2) i = last + 1 + c.r.below(3 * capacity);
                else i = c.r.below(2 * capacity + 1);
                if(live.count(i)) continue;
                c.note("erase absent ", i);
                size_t n = pool.erase(I(i));
                vmon::check(c, "C10", n == 0, "absent-element-erased", "index ", i);
                vmon::event("erasures of absent indices");
            }
        }
        vmon::check(c, "C10", cp.size() == live.size(), "size", cp.size(), " vs ", live.size());
        vmon::check(c, "C10", cp.capacity() == capacity, "capacity-changed");
        if(s % 8 == 0 || live.size() < 6) all();
        if(c.failed > 3) return;
        u64 h = 0; for(auto &[i, v] : live) h = vmon::hash_combine(h, i % capacity); vmon::distinct(h);
    }
    all();
    // fill completely: capacity is exactly what was promised
    while(live.size() < capacity) {
        try { auto [i, b] = pool.emplace(make<T>(next)); vmon::check(c, "C10", u64(i) > last || !any, "index-not-increasing", u64(i)); any = true; last = u64(i); live[i] = next++; where[i] = &b->data; }
        catch(const std::length_error &) { vmon::check(c, "C10", false, "placement-refused-below-capacity", live.size(), " of ", capacity); return; }
    }
    vmon::check(c, "C10", vmon::throws_as<std::length_error>([&] { pool.emplace(make<T>(1)); }), "placement-beyond-capacity-accepted");
    all();
    // and empty completely, in some order
    std::vector<u64> order; for(auto &[i, v] : live) order.push_back(i);
    c.r.shuffle(order);
    for(u64 i : order) { vmon::check(c, "C10", pool.erase(I(i)) == 1, "live-element-not-erased", i); live.erase(i); vmon::check(c, "C10", pool.erase(I(i)) == 0, "erased-twice", i); if(live.size() < 8) all(); }
    vmon::check(c, "C10", cp.size() == 0, "size-after-clearing", cp.size());
    auto [i, b] = pool.emplace(make<T>(5)); vmon::check(c, "C10", u64(i) > last, "index-reused-after-clearing", u64(i), " after ", last);
    vmon::event("pool histories"); c.touch(u64(steps) * 100 + capacity);
}
} // namespace

SECTION(pool_values, ({"C10"}), 400, 8000) { history<u64, std::uint64_t>(c, 1 + c.r.below(c.r.chance(.1) ? 200 : 9), 20 + c.r.below(200)); }
SECTION(pool_strings, ({"C10"}), 150, 3000) { history<std::string, std::uint64_t>(c, 1 + c.r.below(7), 20 + c.r.below(150)); }
SECTION(pool_vectors, ({"C10"}), 60, 1500) { history<std::vector<u64>, std::uint64_t>(c, 1 + c.r.below(7), 20 + c.r.below(100)); }
SECTION(pool_narrow_index, ({"C10"}), 80, 1500) { history<u64, std::uint32_t>(c, 1 + c.r.below(12), 20 + c.r.below(150)); }
// indices of a pool that lives long: they keep increasing, and old ones stay absent
SECTION(pool_long_lived, ({"C10"}), 4, 20)
{
    size_t capacity = c.index < 2 ? 1 + c.index : 1 + c.r.below(40);
    static_block_pool<u64> pool(capacity);
    std::deque<std::pair<u64, u64>> live; u64 last = 0; bool any = false; u64 value = 0;
    const u64 rounds = 2300000 + c.r.below(1000);
    std::map<u64, u64> old;   // indices given out long ago
    for(u64 k = 0; k < rounds; ++k) {
        if(live.size() == capacity || (!live.empty() && c.r.below(3) == 0)) {
            u64 i = live.front().first;
            if(pool[i] != live.front().second || pool.erase(i) != 1) { vmon::check(c, "C10", false, "long-lived-element", "index ", i, " after ", k); return; }
            live.pop_front();
        }
        auto [i, b] = pool.emplace(value);
        if((any && u64(i) <= last) || b->data != value) { vmon::check(c, "C10", false, "index-not-increasing", u64(i), " after ", last); return; }
        any = true; last = i; live.push_back({u64(i), value++});
        if(k < 64) old[i] = k;
        // an index a power of two below a live one names nothing (any more)
        if(k % 512 == 511) for(int s = 8; s < 40; ++s) for(auto &l : {live.front(), live.back()}) {
            u64 d = u64(1) << s; if(l.first < d) break;
            bool alive = false; for(auto &x : live) alive |= x.first == l.first - d;
            if(alive) continue;
            if(pool.erase(l.first - d) != 0) { vmon::check(c, "C10", false, "absent-element-erased", "index ", l.first - d, " while ", l.first, " lives"); return; }
            vmon::event("erasures of long gone indices");
        }
    }
    for(auto &[i, k] : old) if(i < live.front().first) vmon::check(c, "C10", pool.erase(i) == 0, "absent-element-erased", "first index ", i);
    for(auto &l : live) vmon::check(c, "C10", pool[l.first] == l.second, "long-lived-element", "index ", l.first);
    vmon::check(c, "C10", pool.size() == live.size(), "size");
    c.touch(capacity); vmon::event("placements in long-lived pools", rounds);
}
REQUIRE_EVENT("C10", "erasures of long gone indices");
SECTION(pool_tracked, ({"C10"}), 200, 4000)
{
    long before = tracked::alive;
    tracked::bad = 0;
    history<tracked, std::uint64_t>(c, 1 + c.r.below(6), 20 + c.r.below(150));
    vmon::check(c, "C10", tracked::alive == before, "elements-leaked-or-destroyed-twice", tracked::alive - before);
    vmon::check(c, "C10", tracked::bad == 0, "element-used-outside-its-lifetime", tracked::bad);
    vmon::event("tracked element histories");
}
REQUIRE_EVENT("C10", "placements refused at capacity");
REQUIRE_EVENT("C10", "erasures of absent indices");
VMON_MAIN
