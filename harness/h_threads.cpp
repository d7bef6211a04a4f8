// Thread pool (C06) and blocking queue (C07).
//
// Monitors record what each job or element went through using relaxed atomics
// and plain slots, so that they add no synchronisation the code under test does
// not provide itself; the recorded histories are judged afterwards.
#include "vmon.hpp"
#include <esl/computation/blocking_queue.hpp>
#include <esl/computation/thread_pool.hpp>

using esl::computation::blocking_queue;
using esl::computation::thread_pool;
using vmon::u64;

namespace {
std::atomic<u64> clock_{1};
inline u64 now() { asm volatile("" ::: "memory"); u64 t = clock_.fetch_add(1, std::memory_order_relaxed); asm volatile("" ::: "memory"); return t; }

thread_local u64 jitter_state = 0;
thread_local int jitter_level = 0;      // 0 none, 1 yields, 2 yields and spins, 3 sleeps
inline void jitter()
{
    if(!jitter_level) return;
    jitter_state = vmon::mix(jitter_state + 1);
    unsigned w = jitter_state & 31;
    if(w < 6) std::this_thread::yield();
    else if(jitter_level >= 2 && w < 12) { for(volatile unsigned i = 0; i < (jitter_state >> 8) % 400; i = i + 1) {} }
    else if(jitter_level >= 3 && w < 14) std::this_thread::sleep_for(std::chrono::microseconds(1 + (jitter_state >> 8) % 60));
}
void arm(u64 seed, int level) { jitter_state = seed; jitter_level = level; }

// an element whose copies and moves take time, widening every critical section
struct element {
    int producer = -1, sequence = -1;
    std::string text;              // heap memory, so that lifetime errors show
    element() = default;
    element(int p, int s) : producer(p), sequence(s), text("element of producer " + std::to_string(p) + " number " + std::to_string(s)) {}
    element(const element &o) : producer(o.producer), sequence(o.sequence), text((jitter(), o.text)) { jitter(); }
    element(element &&o) noexcept : producer(o.producer), sequence(o.sequence), text((jitter(), std::move(o.text))) { jitter(); o.producer = o.sequence = -2; }
    element &operator=(const element &o) { jitter(); producer = o.producer; sequence = o.sequence; text = o.text; return *this; }
    element &operator=(element &&o) noexcept { jitter(); producer = o.producer; sequence = o.sequence; text = std::move(o.text); o.producer = o.sequence = -2; return *this; }
    bool intact() const { return text == "element of producer " + std::to_string(producer) + " number " + std::to_string(sequence); }
    int id() const { return producer * 100000 + sequence; }
};

enum kind { PUSH, TRY_PUSH, POP, TRY_POP, CLOSE, SIZE, EMPTY };
const char *kind_name[] = {"push", "try_push", "pop", "try_pop", "close", "size", "empty"};
struct operation { kind k; int value = -1; bool ok = false; u64 inv = 0, res = 0; int thread = 0; bool overlapped = false; };

std::string show(const operation &o)
{
    std::ostringstream s;
    s << "[" << o.inv << "," << o.res << "] t" << o.thread << " " << kind_name[o.k] << "(" << o.value << ") -> " << (o.ok ? "true" : "false");
    return s.str();
}

// Is the history that of some sequential FIFO queue? Depth-first search over the
// minimal pending operations with memoisation of (linearised set, queue state).
struct linearizer {
    std::vector<operation> h;
    std::unordered_set<u64> seen;
    std::string empty_reason;
    bool search(u64 done, std::deque<int> &q, bool closed)
    {
        if(done == (h.size() == 64 ? ~0ull : ((1ull << h.size()) - 1))) return true;
        u64 key = vmon::hash_combine(done, closed);
        for(int v : q) key = vmon::hash_combine(key, u64(v));
        if(!seen.insert(key).second) return false;
        u64 first_res = ~0ull;
        for(size_t i = 0; i < h.size(); ++i) if(!(done >> i & 1)) first_res = std::min(first_res, h[i].res);
        for(size_t i = 0; i < h.size(); ++i) {
            if(done >> i & 1) continue;
            const operation &o = h[i];
            if(o.inv > first_res) continue;
            u64 d = done | (1ull << i);
            switch(o.k) {
            case PUSH: q.push_back(o.value); if(search(d, q, closed)) return true; q.pop_back(); break;
            case TRY_PUSH:
                if(o.ok) { q.push_back(o.value); if(search(d, q, closed)) return true; q.pop_back(); }
                else if(o.overlapped) { if(search(d, q, closed)) return true; }
                break;
            case POP: case TRY_POP:
                if(o.ok) { if(q.empty() || q.front() != o.value) break; q.pop_front(); if(search(d, q, closed)) return true; q.push_front(o.value); }
                else if(o.k == POP ? (closed && q.empty()) : (q.empty() || o.overlapped)) { if(search(d, q, closed)) return true; }
                break;
            case CLOSE: if(search(d, q, true)) return true; break;
            case SIZE: if(int(q.size()) == o.value && search(d, q, closed)) return true; break;
            case EMPTY: if(q.empty() == o.ok && search(d, q, closed)) return true; break;
            }
        }
        return false;
    }
    bool check()
    {
        for(auto &a : h) { a.overlapped = false; for(auto &b : h) if(&a != &b && a.inv < b.res && b.inv < a.res) a.overlapped = true; }
        std::deque<int> q;
        return search(0, q, false);
    }
};

template<typename F> void wait_until(F &&f, unsigned ms)
{
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
    while(!f() && std::chrono::steady_clock::now() < end) std::this_thread::sleep_for(std::chrono::microseconds(50));
}
} // namespace

// ---------------------------------------------------------------- queue: C07

SECTION(queue_sequential, ({"C07"}), 300, 6000)
{
    blocking_queue<element> q;
    const auto &cq = q;
    std::deque<int> model;
    int next = 0;
    u64 n = 5 + c.r.below(60);
    for(u64 i = 0; i < n; ++i) {
        switch(c.r.below(6)) {
        case 0: { element e(1, next); q.push(e); model.push_back(next++); vmon::check(c, "C07", e.intact(), "push-changes-argument"); break; }
        case 1: { q.push(element(1, next)); model.push_back(next++); break; }
        case 2: { element e(1, next); bool ok = c.r.chance(.5) ? q.try_push(e) : q.try_push(element(1, next));
                  vmon::check(c, "C07", ok, "try-push-refused-uncontended"); model.push_back(next++); break; }
        case 3: if(!model.empty()) { element e; bool ok = q.pop(e);
                  vmon::check(c, "C07", ok && e.sequence == model.front() && e.intact(), "pop-order", "got ", e.sequence, " expected ", model.front()); model.pop_front(); } break;
        case 4: { element e; bool ok = q.try_pop(e);
                  vmon::check(c, "C07", ok == !model.empty(), "try-pop-result", ok, " with ", model.size(), " elements");
                  if(!model.empty()) { vmon::check(c, "C07", e.sequence == model.front() && e.intact(), "try-pop-order", e.sequence, " vs ", model.front()); model.pop_front(); }
                  else vmon::check(c, "C07", e.sequence == -1, "failed-try-pop-changes-argument"); break; }
        default: break;
        }
        vmon::check(c, "C07", cq.size() == model.size(), "size", cq.size(), " vs ", model.size());
        vmon::check(c, "C07", cq.empty() == model.empty(), "empty");
        c.touch(model.size());
    }
    q.close();
    vmon::check(c, "C07", cq.size() == model.size() && cq.empty() == model.empty(), "size-after-close", cq.size(), " vs ", model.size());
    while(!model.empty()) {
        element e; bool ok = c.r.chance(.5) ? q.pop(e) : q.try_pop(e);
        if(!vmon::check(c, "C07", ok && e.sequence == model.front() && e.intact(), "drain-after-close", ok, " ", e.sequence, " vs ", model.front())) return;
        model.pop_front();
        vmon::check(c, "C07", cq.size() == model.size() && cq.empty() == model.empty(), "size-after-close", cq.size(), " vs ", model.size());
    }
    element e;
    vmon::check(c, "C07", !q.pop(e), "pop-after-drain");
    vmon::check(c, "C07", !q.try_pop(e), "try-pop-after-drain");
    vmon::check(c, "C07", q.empty() && q.size() == 0, "empty-after-drain");
    vmon::event("sequential queue histories");
}

// two queues share nothing; small and large trivially copyable elements
SECTION(queue_types, ({"C07"}), 60, 600)
{
    blocking_queue<int> a, b; blocking_queue<std::shared_ptr<int>> s; blocking_queue<std::function<int(void)>> f; blocking_queue<std::vector<int>> v;
    std::weak_ptr<int> w;
    int n = int(1 + c.r.below(20));
    for(int i = 0; i < n; ++i) {
        a.push(i); b.push(-i); auto p = std::make_shared<int>(i); if(i == 0) w = p;
        s.push(p); f.push([i, p] { return i * 2 + *p * 0; }); v.push(std::vector<int>(size_t(i), i));
    }
    vmon::check(c, "C07", w.use_count() >= 1, "element-released-early");
    for(int i = 0; i < n; ++i) {
        int x = -7, y = -7; std::shared_ptr<int> p; std::function<int(void)> g; std::vector<int> u;
        bool ok = a.pop(x) && b.try_pop(y) && s.pop(p) && f.try_pop(g) && v.pop(u);
        vmon::check(c, "C07", ok && x == i && y == -i && p && *p == i && g && g() == 2 * i && u == std::vector<int>(size_t(i), i), "typed-elements", i);
    }
    vmon::check(c, "C07", w.expired(), "removed-element-kept-alive");
    c.touch(u64(n));
}

SECTION(queue_linearizable, ({"C07"}), 500, 12000)
{
    int threads = int(2 + c.r.below(3));
    int level = int(c.r.below(4));
    bool closes = c.r.chance(.6);
    std::vector<std::vector<std::pair<kind, int>>> plan(threads);
    int produced = 0, takes = 0, tries = 0;
    for(int t = 0; t < threads; ++t) {
        int n = int(2 + c.r.below(5));
        for(int i = 0; i < n; ++i) {
            u64 x = c.r.below(10);
            kind k = x < 3 ? PUSH : x < 5 ? TRY_PUSH : x < 7 ? TRY_POP : x < 8 ? SIZE : x < 9 ? EMPTY : POP;
            if(k == POP) ++takes;
            if(k == TRY_POP) ++tries;
            plan[t].push_back({k, (k == PUSH || k == TRY_PUSH) ? produced++ : -1});
        }
    }
    blocking_queue<element> q;
    std::vector<std::vector<operation>> logs(threads + 1);
    std::atomic<int> ready{0}, done{0};
    std::atomic<bool> go{false};
    std::vector<std::thread> ts;
    u64 seed = c.r.next();
    for(int t = 0; t < threads; ++t) ts.emplace_back([&, t] {
        arm(seed + t, level);
        ++ready; while(!go) {}
        for(auto [k, v] : plan[t]) {
            operation o; o.k = k; o.value = v; o.thread = t;
            jitter();
            switch(k) {
            case PUSH: { element e(7, v); o.inv = now(); if(v % 2) q.push(e); else q.push(std::move(e)); o.ok = true; o.res = now(); break; }
            case TRY_PUSH: { element e(7, v); o.inv = now(); o.ok = (v % 2) ? q.try_push(e) : q.try_push(std::move(e)); o.res = now(); break; }
            case POP: { element e; o.inv = now(); o.ok = q.pop(e); o.res = now(); if(o.ok) o.value = e.intact() && e.producer == 7 ? e.sequence : -99; break; }
            case TRY_POP: { element e; o.inv = now(); o.ok = q.try_pop(e); o.res = now(); if(o.ok) o.value = e.intact() && e.producer == 7 ? e.sequence : -99; break; }
            case SIZE: o.inv = now(); o.value = int(q.size()); o.res = now(); break;
            case EMPTY: o.inv = now(); o.ok = q.empty(); o.res = now(); break;
            default: break;
            }
            logs[t].push_back(o);
        }
        ++done;
    });
    while(ready < threads) std::this_thread::yield();
    go = true;
    // pushing after close is not specified: close only once pushes are over, or
    // earlier when the plan has none left, to release waiting consumers
    std::thread closer([&] {
        if(closes) std::this_thread::sleep_for(std::chrono::microseconds(seed % 300));
        // feed what blocked consumers may still need, then close
        arm(seed + 77, level);
        // (a later non-waiting removal can take what was meant for a waiting one)
        for(int i = 0; i < takes + tries; ++i) {
            if(i >= takes) { for(int k = 0; k < 20 && done < threads; ++k) std::this_thread::sleep_for(std::chrono::microseconds(20)); if(done >= threads) break; }
            operation o; o.k = PUSH; o.value = produced + i; o.thread = threads; element e(7, o.value);
            o.inv = now(); q.push(std::move(e)); o.ok = true; o.res = now(); logs[threads].push_back(o);
        }
    });
    closer.join();
    for(auto &t : ts) t.join();
    // quiescent: drain through the closed queue and append to the history
    std::vector<operation> tail;
    { operation o; o.k = SIZE; o.inv = now(); o.value = int(q.size()); o.res = now(); o.thread = 98; tail.push_back(o); }
    { operation o; o.k = EMPTY; o.inv = now(); o.ok = q.empty(); o.res = now(); o.thread = 98; tail.push_back(o); }
    { operation o; o.k = CLOSE; o.inv = now(); q.close(); o.res = now(); o.thread = 98; tail.push_back(o); }
    for(int i = 0; i < 70; ++i) {
        operation o; o.k = POP; element e; o.inv = now(); o.ok = q.pop(e); o.res = now(); o.thread = 98; if(o.ok) o.value = e.intact() ? e.sequence : -99;
        tail.push_back(o); if(!o.ok) break;
    }
    linearizer l;
    for(auto &x : logs) for(auto &o : x) l.h.push_back(o);
    for(auto &o : tail) l.h.push_back(o);
    std::sort(l.h.begin(), l.h.end(), [](auto &a, auto &b) { return a.inv < b.inv; });
    u64 interleaving = 1;
    size_t contended = 0;
    for(auto &o : l.h) interleaving = vmon::hash_combine(interleaving, u64(o.thread) * 64 + o.k * 4 + o.ok * 2);
    if(l.h.size() > 63) return;
    bool ok = l.check();
    for(auto &o : l.h) contended += ((o.k == TRY_PUSH || o.k == TRY_POP) && !o.ok && o.overlapped);
    if(!ok) for(auto &o : l.h) c.note(show(o));
    vmon::check(c, "C07", ok, "not-linearizable", l.h.size(), " operations by ", threads, " threads");
    vmon::event("concurrent histories checked for linearizability");
    vmon::event("operations in linearizability histories", l.h.size());
    if(contended) vmon::event("non-waiting operations refused under contention", contended);
    c.touch(interleaving);
}
REQUIRE_EVENT("C07", "concurrent histories checked for linearizability");

// consumers that wait while others push, then close
SECTION(queue_blocking_histories, ({"C07"}), 250, 5000)
{
    int consumers = int(1 + c.r.below(3)), producers = int(1 + c.r.below(2)), each = int(1 + c.r.below(5));
    int level = int(c.r.below(4));
    blocking_queue<element> q;
    std::vector<std::vector<operation>> logs(consumers + producers + 1);
    std::vector<std::thread> cs, ps;
    u64 seed = c.r.next();
    for(int t = 0; t < consumers; ++t) cs.emplace_back([&, t] {
        arm(seed + t, level);
        for(;;) { operation o; o.k = POP; o.thread = t; element e; o.inv = now(); o.ok = q.pop(e); o.res = now(); if(o.ok) o.value = e.intact() ? e.sequence : -99;
            logs[t].push_back(o); if(!o.ok || logs[t].size() > 40) break; jitter(); }
    });
    if(c.r.chance(.5)) std::this_thread::sleep_for(std::chrono::microseconds(300));
    for(int t = 0; t < producers; ++t) ps.emplace_back([&, t] {
        arm(seed + 50 + t, level);
        for(int i = 0; i < each; ++i) {
            operation o; o.k = i % 2 ? TRY_PUSH : PUSH; o.value = t * each + i; o.thread = consumers + t; element e(7, o.value);
            o.inv = now(); if(o.k == PUSH) { q.push(e); o.ok = true; } else o.ok = q.try_push(e); o.res = now();
            logs[o.thread].push_back(o); jitter();
        }
    });
    for(auto &t : ps) t.join();
    { operation o; o.k = CLOSE; o.thread = consumers + producers; o.inv = now(); q.close(); o.res = now(); logs.back().push_back(o); }
    for(auto &t : cs) t.join();
    linearizer l;
    for(auto &x : logs) for(auto &o : x) l.h.push_back(o);
    std::sort(l.h.begin(), l.h.end(), [](auto &a, auto &b) { return a.inv < b.inv; });
    if(l.h.size() > 63) return;
    { operation o; o.k = SIZE; o.thread = 99; o.inv = now(); o.value = int(q.size()); o.res = now(); l.h.push_back(o); }
    bool ok = l.check();
    if(!ok) for(auto &o : l.h) c.note(show(o));
    vmon::check(c, "C07", ok, "not-linearizable", l.h.size(), " operations");
    u64 in = 2; for(auto &o : l.h) in = vmon::hash_combine(in, u64(o.thread) * 64 + o.k);
    c.touch(in);
    vmon::event("histories with waiting consumers and close");
}

// every waiting consumer gets an element without anybody closing the queue
SECTION(queue_wakeups, ({"C07"}), 150, 2500)
{
    int consumers = int(1 + c.r.below(6));
    int pushes = int(1 + c.r.below(u64(consumers)));
    blocking_queue<element> q;
    std::atomic<int> taken{0}, gave_up{0}, started{0};
    std::vector<std::thread> cs;
    std::vector<int> got(consumers, -1);
    for(int t = 0; t < consumers; ++t) cs.emplace_back([&, t] { ++started; element e; if(q.pop(e)) { got[t] = e.intact() ? e.sequence : -99; ++taken; } else ++gave_up; });
    while(started < consumers) std::this_thread::yield();
    if(c.r.chance(.8)) std::this_thread::sleep_for(std::chrono::microseconds(c.r.below(600)));
    u64 style = c.r.below(5);
    for(int i = 0; i < pushes; ++i) {
        element e(1, i);
        u64 s = style == 4 ? c.r.below(4) : style;
        if(s == 0) q.push(e); else if(s == 1) q.push(element(1, i));
        else if(s == 2) { while(!q.try_push(e)) std::this_thread::yield(); }
        else { while(!q.try_push(element(1, i))) std::this_thread::yield(); }
        if(c.r.chance(.2)) std::this_thread::sleep_for(std::chrono::microseconds(c.r.below(100)));
    }
    wait_until([&] { return taken >= pushes; }, 8000);
    vmon::check(c, "C07", taken == pushes, "waiting-consumer-not-woken", taken.load(), " of ", pushes, " elements taken by ", consumers, " waiting consumers");
    vmon::check(c, "C07", gave_up == 0, "consumer-gave-up-on-open-queue");
    if(consumers > pushes) vmon::event("consumers released by close", u64(consumers - pushes));
    q.close();
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(8);
    while(taken + gave_up < consumers && std::chrono::steady_clock::now() < end) std::this_thread::sleep_for(std::chrono::microseconds(50));
    bool released = taken + gave_up == consumers;
    vmon::check(c, "C07", released, "close-leaves-consumer-waiting", taken.load(), "+", gave_up.load(), " of ", consumers);
    if(!released) { for(auto &t : cs) t.detach(); vmon::write_result(true); _exit(vmon::S().failures.empty() ? 0 : 1); }
    for(auto &t : cs) t.join();
    std::multiset<int> all; for(int g : got) if(g != -1) all.insert(g);
    std::multiset<int> want; for(int i = 0; i < pushes; ++i) want.insert(i);
    vmon::check(c, "C07", all == want, "elements-not-exactly-once");
    vmon::event("waiting consumers woken by a push", u64(pushes));
    c.touch(vmon::hash_combine(u64(consumers), u64(pushes) * 8 + style));
}
REQUIRE_EVENT("C07", "waiting consumers woken by a push");

SECTION(queue_stress, ({"C07"}), 40, 600)
{
    int producers = int(1 + c.r.below(4)), consumers = int(1 + c.r.below(4)), each = int(50 + c.r.below(200));
    int level = int(c.r.below(4));
    blocking_queue<element> q;
    struct item { u64 inv, res; };
    std::vector<std::vector<item>> pushed(producers, std::vector<item>(each));
    struct take { int p, s; u64 inv, res; bool intact; };
    std::vector<std::vector<take>> taken(consumers);
    std::vector<u64> failed_pop_res(consumers, 0);
    std::atomic<u64> refused{0}, kept{0}, spoiled{0};
    u64 seed = c.r.next();
    std::vector<std::thread> ps, cs;
    for(int t = 0; t < consumers; ++t) cs.emplace_back([&, t] {
        arm(seed + t, level);
        u64 spins = 0;
        for(;;) {
            element e; take k{};
            bool waiting = (vmon::mix(seed + t * 7919 + taken[t].size()) & 3) != 0 || spins > 2000;
            k.inv = now();
            bool ok = waiting ? q.pop(e) : q.try_pop(e);
            k.res = now();
            if(!ok) { if(waiting) { failed_pop_res[t] = k.res; break; } ++spins; ++refused; std::this_thread::yield(); continue; }
            spins = 0;
            k.p = e.producer; k.s = e.sequence; k.intact = e.intact();
            taken[t].push_back(k);
        }
    });
    for(int t = 0; t < producers; ++t) ps.emplace_back([&, t] {
        arm(seed + 1000 + t, level);
        for(int i = 0; i < each; ++i) {
            element e(t, i); auto &k = pushed[t][i];
            bool waiting = (vmon::mix(seed + 31 * t + i) & 3) != 0;
            k.inv = now();
            if(waiting) { if(i & 1) q.push(e); else q.push(std::move(e)); }
            else for(;;) { element f(t, i); k.inv = now(); if((i & 4) ? q.try_push(std::move(f)) : q.try_push(e)) break; ++refused; if(i & 4) { if(f.producer == t && f.sequence == i && f.intact()) ++kept; else ++spoiled; } std::this_thread::yield(); }
            k.res = now();
        }
    });
    for(auto &t : ps) t.join();
    u64 closing = now();
    q.close();
    for(auto &t : cs) t.join();
    vmon::check(c, "C07", q.empty() && q.size() == 0, "elements-left-behind", q.size());
    // exactly once, and in order per producer at each consumer
    std::vector<std::vector<int>> count(producers, std::vector<int>(each, 0));
    struct span { u64 pi, pr, ti, tr; };
    std::vector<span> spans;
    for(int t = 0; t < consumers; ++t) {
        std::vector<int> last(producers, -1);
        for(auto &k : taken[t]) {
            if(!vmon::check(c, "C07", k.p >= 0 && k.p < producers && k.s >= 0 && k.s < each && k.intact, "invented-element", k.p, "/", k.s)) return;
            ++count[k.p][k.s];
            vmon::check(c, "C07", k.s > last[k.p], "producer-order", "consumer ", t, " got ", k.s, " after ", last[k.p], " of producer ", k.p);
            last[k.p] = k.s;
            spans.push_back({pushed[k.p][k.s].inv, pushed[k.p][k.s].res, k.inv, k.res});
        }
    }
    int lost = 0, twice = 0;
    for(auto &v : count) for(int n : v) { lost += n == 0; twice += n > 1; }
    vmon::check(c, "C07", lost == 0, "element-lost", lost, " of ", producers * each);
    vmon::check(c, "C07", twice == 0, "element-delivered-twice", twice);
    for(u64 f : failed_pop_res) vmon::check(c, "C07", f > closing, "pop-gave-up-before-close");
    // order across producers: a pushed wholly before b may not be taken wholly after b
    std::sort(spans.begin(), spans.end(), [](auto &a, auto &b) { return a.pr < b.pr; });
    std::vector<u64> prefix(spans.size());
    for(size_t i = 0; i < spans.size(); ++i) prefix[i] = std::max(i ? prefix[i - 1] : 0, spans[i].ti);
    size_t inverted = 0, related = 0;
    for(auto &b : spans) {
        size_t n = size_t(std::lower_bound(spans.begin(), spans.end(), b.pi, [](auto &a, u64 v) { return a.pr < v; }) - spans.begin());
        if(n) { ++related; inverted += prefix[n - 1] > b.tr; }
    }
    vmon::check(c, "C07", inverted == 0, "fifo-inversion", inverted, " elements overtook one pushed before them");
    u64 h = 3; for(auto &v : taken) h = vmon::hash_combine(h, v.size());
    c.touch(h);
    vmon::event("elements through stressed queues", spans.size());
    vmon::event("ordered pairs examined", related);
    vmon::event("refused non-waiting operations in stress", refused.load());
    vmon::check(c, "C07", spoiled == 0, "refused-element-lost", spoiled.load(), " elements that were not accepted were moved from");
    vmon::event("refused elements left with the caller", kept.load());
}

// an element that cannot be copied leaves the queue as it was and unlocked
SECTION(queue_throwing_element, ({"C07"}), 40, 300)
{
    struct fragile { int v = 0; fragile() = default; explicit fragile(int x) : v(x) {} fragile(const fragile &o) : v(o.v) { if(v < 0) throw std::runtime_error("copy"); }
        fragile &operator=(const fragile &o) { v = o.v; return *this; } };
    blocking_queue<fragile> q;
    int n = int(c.r.below(6));
    for(int i = 0; i < n; ++i) { fragile f(i); q.push(f); }
    fragile bad(-1);
    bool threw = vmon::throws([&] { if(c.r.chance(.5)) q.push(bad); else (void)q.try_push(bad); });
    vmon::check(c, "C07", threw && int(q.size()) == n, "failed-push-changes-queue", q.size(), " vs ", n);
    fragile good(n);
    vmon::check(c, "C07", q.try_push(good), "queue-left-locked");
    for(int i = 0; i <= n; ++i) { fragile f; vmon::check(c, "C07", q.pop(f) && f.v == i, "order-after-failed-push"); }
    c.touch(u64(n) + 5000);
}

// ---------------------------------------------------------- thread pool: C06

namespace {
struct job_record {
    std::atomic<unsigned> runs{0};
    std::thread::id thread;                // plain: published by the pool's join
    u64 seen = 0;
    u64 finished = 0;
};
struct custom_error : std::runtime_error { int code; custom_error(int c) : std::runtime_error("job error " + std::to_string(c)), code(c) {} };
u64 digest(int a, const std::string &s, const std::vector<int> &v, double d)
{
    u64 h = vmon::hash_combine(u64(a), vmon::hash_string(s)); for(int x : v) h = vmon::hash_combine(h, u64(x)); return vmon::hash_combine(h, u64(d * 1024));
}
} // namespace

SECTION(pool_jobs, ({"C06"}), 90, 1500)
{
    unsigned requested = c.r.pick({0u, 1u, 2u, 3u, 4u, 5u, 8u, 16u});
    int submitters = int(1 + c.r.below(4));
    int each = int(c.r.chance(.2) ? c.r.below(4) : 5 + c.r.below(120));
    int level = int(c.r.below(4));
    bool late = c.r.chance(.5);                          // the pool is destroyed while jobs are queued
    int total = submitters * each;
    // plan: kind 0 work, 1 task, 2 throwing task, 3 work that submits work, 4 work that submits a task, 5 void task
    std::vector<int> plan(total); for(auto &p : plan) p = int(c.r.below(6));
    c.note("threads ", requested, " submitters ", submitters, " jobs each ", each, " jitter ", level, " destroyed early ", late);
    std::vector<job_record> jobs(total), nested(total);
    std::vector<std::future<u64>> results(total);
    std::vector<std::future<void>> voids(total);
    std::vector<std::thread::id> submitter_ids(submitters);
    std::atomic<u64> finish{0};
    u64 seed = c.r.next();
    unsigned threads = 0;
    std::vector<u64> expected(total);
    for(int i = 0; i < total; ++i) expected[i] = digest(i, "job " + std::to_string(i), {i, i + 1, i + 2}, i * .5);
    {
        auto pool = std::make_unique<thread_pool>(requested);
        threads = pool->threads;
        auto body = [&](std::vector<job_record> &v, int a, const std::string &s, const std::vector<int> &x, double d) -> u64 {
            arm(seed + a, level); jitter();
            v[a].runs.fetch_add(1, std::memory_order_relaxed);
            v[a].thread = std::this_thread::get_id();
            v[a].seen = digest(a, s, x, d);
            jitter();
            v[a].finished = finish.fetch_add(1, std::memory_order_relaxed) + 1;
            return v[a].seen;
        };
        std::vector<std::thread> ts;
        for(int t = 0; t < submitters; ++t) ts.emplace_back([&, t] {
            submitter_ids[t] = std::this_thread::get_id();
            arm(seed * 31 + t, level);
            for(int k = 0; k < each; ++k) {
                int i = t * each + k;
                std::string s = "job " + std::to_string(i); std::vector<int> v{i, i + 1, i + 2};
                jitter();
                switch(plan[i]) {
                case 0: pool->enqueue_work([&, body](int a, std::string s, const std::vector<int> &x, double d) { body(jobs, a, s, x, d); }, i, s, v, i * .5); break;
                case 1: results[i] = pool->enqueue_task([&, body](int a, std::string s, const std::vector<int> &x, double d) { return body(jobs, a, s, x, d); }, i, s, v, i * .5); break;
                case 2: results[i] = pool->enqueue_task([&, body](int a, std::string s, std::vector<int> x, double d) -> u64 { body(jobs, a, s, x, d); throw custom_error(a); }, i, s, v, i * .5); break;
                case 3: { auto *p = pool.get(); pool->enqueue_work([&, body, p](int a, std::string s, std::vector<int> x, double d) { body(jobs, a, s, x, d);
                            p->enqueue_work([&, body](int a, std::string s, std::vector<int> x, double d) { body(nested, a, s, x, d); }, a, s, x, d); }, i, s, v, i * .5); break; }
                case 4: { auto *p = pool.get(); pool->enqueue_work([&, body, p](int a, std::string s, std::vector<int> x, double d) { body(jobs, a, s, x, d);
                            results[a] = p->enqueue_task([&, body](int a, std::string s, std::vector<int> x, double d) { return body(nested, a, s, x, d); }, a, s, x, d); }, i, s, v, i * .5); break; }
                default: voids[i] = pool->enqueue_task([&, body](int a, std::string s, std::vector<int> x) { body(jobs, a, s, x, a * .5); }, i, s, v); break;
                }
                // the arguments were captured: changing them later has no effect
                s = "changed"; v.assign(3, -1);
            }
        });
        for(auto &t : ts) t.join();
        if(!late) {
            // results arrive without destroying the pool
            for(int i = 0; i < total; ++i) {
                if(plan[i] == 1) { auto st = results[i].wait_for(std::chrono::seconds(15)); vmon::check(c, "C06", st == std::future_status::ready, "future-never-ready", "job ", i); }
                else if(plan[i] == 5) { auto st = voids[i].wait_for(std::chrono::seconds(15)); vmon::check(c, "C06", st == std::future_status::ready, "future-never-ready", "job ", i); }
            }
            vmon::event("pools whose results were awaited");
        } else vmon::event("pools destroyed with jobs still queued");
        pool.reset();
    }
    u64 done_at_end = finish.load();
    unsigned want = requested ? requested : std::max(1u, std::thread::hardware_concurrency());
    vmon::check(c, "C06", threads == want, "thread-count", threads, " threads for ", requested, " requested");
    std::set<std::thread::id> ids;
    u64 order = 7; u64 expected_runs = 0;
    for(int i = 0; i < total; ++i) {
        expected_runs += 1 + (plan[i] == 3 || plan[i] == 4);
        vmon::check(c, "C06", jobs[i].runs == 1, jobs[i].runs == 0 ? "job-not-run" : "job-run-twice", "job ", i, " of kind ", plan[i], " ran ", jobs[i].runs.load(), " times");
        if(jobs[i].runs) { vmon::check(c, "C06", jobs[i].seen == expected[i], "job-arguments", "job ", i); ids.insert(jobs[i].thread); order = vmon::hash_combine(order, jobs[i].finished); }
        if(plan[i] == 3 || plan[i] == 4) {
            vmon::check(c, "C06", nested[i].runs == 1, nested[i].runs == 0 ? "nested-job-not-run" : "nested-job-run-twice", "job submitted by job ", i, " ran ", nested[i].runs.load(), " times");
            if(nested[i].runs) { vmon::check(c, "C06", nested[i].seen == expected[i], "nested-job-arguments", "job ", i); ids.insert(nested[i].thread); }
        }
        auto outcome = [&]() -> int {
            try { u64 v = results[i].get(); return v == expected[i] ? 1 : 0; }
            catch(const custom_error &e) { return e.code == i ? 2 : 3; }
            catch(const std::exception &) { return 4; }
        };
        if(plan[i] == 1 || plan[i] == 4) vmon::check(c, "C06", results[i].valid() && outcome() == 1, "task-result", "job ", i);
        if(plan[i] == 2) vmon::check(c, "C06", results[i].valid() && outcome() == 2, "task-exception", "job ", i);
        if(plan[i] == 5) { bool ok = voids[i].valid(); if(ok) try { voids[i].get(); } catch(...) { ok = false; } vmon::check(c, "C06", ok, "void-task-result", "job ", i); }
    }
    vmon::check(c, "C06", done_at_end == expected_runs, "destroyed-before-jobs-finished", done_at_end, " of ", expected_runs);
    vmon::check(c, "C06", ids.size() <= want, "more-threads-than-requested", ids.size(), " > ", want);
    vmon::check(c, "C06", !ids.count(std::this_thread::get_id()), "job-run-outside-the-pool");
    for(auto &s : submitter_ids) vmon::check(c, "C06", !ids.count(s), "job-run-outside-the-pool");
    vmon::event("jobs run", expected_runs);
    vmon::event("threads that ran jobs", ids.size());
    if(requested == 0) vmon::event("pools with zero threads requested");
    c.touch(order);
}
REQUIRE_EVENT("C06", "jobs run");
REQUIRE_EVENT("C06", "pools with zero threads requested");

// a destroyed pool has run everything, however uneven the jobs are
SECTION(pool_uneven, ({"C06"}), 60, 800)
{
    unsigned requested = unsigned(1 + c.r.below(6));
    int jobs = int(c.r.below(80));
    std::vector<int> runs(jobs, 0);                     // plain: the pool's end publishes them
    u64 seed = c.r.next();
    {
        thread_pool pool(requested);
        for(int i = 0; i < jobs; ++i)
            pool.enqueue_work([&runs, i, seed] { unsigned us = unsigned(vmon::mix(seed + i) % 100 < 5 ? 1500 : vmon::mix(seed + i) % 20); if(us) std::this_thread::sleep_for(std::chrono::microseconds(us)); ++runs[i]; });
    }
    int bad = 0; for(int r : runs) bad += r != 1;
    vmon::check(c, "C06", bad == 0, "destruction-does-not-wait", bad, " of ", jobs, " jobs not run exactly once");
    vmon::event("pools destroyed with uneven jobs");
    c.touch(u64(requested) * 1000 + jobs);
}

// chains: each job submits the next; all are run even while the pool is ending
SECTION(pool_chains, ({"C06"}), 60, 800)
{
    unsigned requested = unsigned(1 + c.r.below(6));
    int chains = int(1 + c.r.below(8)), depth = int(1 + c.r.below(12));
    std::atomic<int> ran{0};
    thread_pool *target = nullptr;
    std::function<void(int)> link = [&](int d) { ran.fetch_add(1, std::memory_order_relaxed); if(d > 1) { if(d % 2) target->enqueue_work(link, d - 1); else (void)target->enqueue_task(link, d - 1); } };
    {
        thread_pool pool(requested);
        target = &pool;
        for(int i = 0; i < chains; ++i) pool.enqueue_work([&link, depth] { link(depth); });
        // all but the last links are submitted before destruction starts only if we wait
        if(c.r.chance(.5)) while(ran < chains * depth && c.r.chance(.999)) std::this_thread::yield();
        wait_until([&] { return ran >= chains * depth; }, c.r.chance(.5) ? 0 : 3000);
    }
    vmon::check(c, "C06", ran == chains * depth, "chained-job-lost", ran.load(), " of ", chains * depth);
    vmon::event("chained jobs", u64(chains) * u64(depth));
    c.touch(u64(requested) * 10000 + chains * 100 + depth);
}

// different kinds of callable and argument passing
SECTION(pool_callables, ({"C06"}), 40, 300)
{
    struct functor { int k; int operator()(int x) const { return x * k; } };
    static auto plain = +[](int a, int b) { return a - b; };
    int a = int(c.r.below(100)), target = 0;
    std::future<int> f1, f2, f3; std::future<std::string> f4; std::future<int &> f5; std::future<std::unique_ptr<int>> f6;
    static int anchor; anchor = a;
    std::vector<std::string> words{"alpha", "beta", std::to_string(a)};
    {
        thread_pool pool(unsigned(1 + c.r.below(4)));
        f1 = pool.enqueue_task(functor{3}, a);
        f2 = pool.enqueue_task(plain, a, 7);
        f3 = pool.enqueue_task([](const int &x) { return x + 1; }, a);
        f4 = pool.enqueue_task([](const std::vector<std::string> &w) { std::string r; for(auto &s : w) r += s; return r; }, words);
        f5 = pool.enqueue_task([]() -> int & { return anchor; });
        f6 = pool.enqueue_task([](int x) { return std::make_unique<int>(x); }, a);
        pool.enqueue_work([](int *t, int v) { *t = v; }, &target, a + 5);
        words.clear();
    }
    vmon::check(c, "C06", f1.get() == a * 3, "functor-result"); vmon::check(c, "C06", f2.get() == a - 7, "function-result");
    vmon::check(c, "C06", f3.get() == a + 1, "lambda-result"); vmon::check(c, "C06", f4.get() == "alphabeta" + std::to_string(a), "captured-by-value");
    vmon::check(c, "C06", &f5.get() == &anchor, "reference-result"); vmon::check(c, "C06", *f6.get() == a, "move-only-result");
    vmon::check(c, "C06", target == a + 5, "work-arguments");
    c.touch(u64(a) + 90000);
}

VMON_MAIN
