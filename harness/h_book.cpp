// Order books (C18 to C22): both implementations on generated order flow,
// judged by a reference book and by an offline checker of their report logs.
#include "vmon.hpp"
#include <esl/economics/currencies.hpp>
#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>
#include <esl/economics/markets/order_book/static_order_book.hpp>

using namespace esl;
using namespace esl::economics;
using namespace esl::economics::markets;
using namespace esl::economics::markets::order_book;
using vmon::u64;
using vmon::i64;

namespace {
struct grid {
    iso_4217 currency; std::uint32_t lot; i64 low, high;
    quote q(i64 v) const { return quote(price(v, currency), lot); }
};
i64 value_of(const quote &q) { return std::get<price>(q.type).value; }
identity<agent> owner(int k) { return identity<agent>({0, u64(k), 17}); }

struct resting { u64 id; int side; i64 limit; u64 quantity; int who; u64 seq; };
struct event_t { std::string what; int side; u64 quantity; u64 id; i64 limit; int who; };
std::string show(const event_t &e)
{
    std::ostringstream o; o << e.what << (e.side ? " sell " : " buy ") << e.quantity << " @" << e.limit << " owner " << e.who << " id ";
    if(e.id == basic_book::direct_order) o << "direct"; else o << e.id;
    return o.str();
}

// price-time priority, written down directly
struct reference {
    std::vector<resting> book;
    u64 seq = 0;
    std::optional<i64> best(int side) const
    {
        std::optional<i64> b;
        for(auto &r : book) if(r.side == side && (!b || (side == 0 ? r.limit > *b : r.limit < *b))) b = r.limit;
        return b;
    }
    // the resting orders an incoming order can trade with, best first
    std::vector<size_t> opposite(int side, i64 limit) const
    {
        std::vector<size_t> v;
        for(size_t i = 0; i < book.size(); ++i) if(book[i].side != side && (side == 0 ? book[i].limit <= limit : book[i].limit >= limit)) v.push_back(i);
        std::sort(v.begin(), v.end(), [&](size_t a, size_t b) {
            if(book[a].limit != book[b].limit) return side == 0 ? book[a].limit < book[b].limit : book[a].limit > book[b].limit;
            return book[a].seq < book[b].seq; });
        return v;
    }
    struct outcome { std::vector<std::pair<resting, u64>> trades; u64 rest = 0, cancelled = 0; };
    outcome insert(int side, i64 limit, u64 quantity, int lifetime)
    {
        outcome o; auto v = opposite(side, limit);
        u64 available = 0; for(size_t i : v) available += book[i].quantity;
        if(lifetime == 1 && available < quantity) { o.cancelled = quantity; return o; }
        u64 left = quantity;
        for(size_t i : v) { if(!left) break; u64 n = std::min(left, book[i].quantity); o.trades.push_back({book[i], n}); book[i].quantity -= n; left -= n; }
        book.erase(std::remove_if(book.begin(), book.end(), [](auto &r) { return r.quantity == 0; }), book.end());
        if(lifetime == 0) o.rest = left; else o.cancelled = left;
        return o;
    }
};

struct op { int kind; int side; i64 limit; u64 quantity; int who; int lifetime; std::uint32_t lot; u64 which; };     // 0 insert, 1 cancel live, 2 cancel dead or unknown

struct subject {
    std::unique_ptr<basic_book> book; std::string name; size_t capacity; bool fixed;
    std::vector<event_t> log;                        // every report, in order
    size_t submitted = 0;
};

int who_of(const identity<agent> &a) { for(int k = 0; k < 8; ++k) if(a == owner(k)) return k; return -1; }

std::vector<event_t> take(subject &s)
{
    std::vector<event_t> v;
    for(auto &r : s.book->reports) {
        event_t e; e.what = r.state == execution_report::match ? "match" : r.state == execution_report::placement ? "placement" : r.state == execution_report::cancel ? "cancel" : r.state == execution_report::invalid ? "invalid" : "unknown";
        e.side = r.side == limit_order::sell; e.quantity = r.quantity; e.id = r.identifier; e.limit = value_of(r.limit); e.who = who_of(r.owner);
        v.push_back(e);
    }
    s.book->reports.clear();
    return v;
}

#define K(X) (s.name + "-" + X)

struct runner {
    vmon::ctx &c; const grid &g; subject &s; reference ref;
    std::vector<u64> dead; std::set<u64> used; bool stop = false;
    std::map<u64, event_t> placed; std::map<u64, u64> executed, cancelled;
    u64 crossing = 0;

    void observe()
    {
        auto b = s.book->bid(), a = s.book->ask();
        auto rb = ref.best(0), ra = ref.best(1);
        bool ok = b.has_value() == rb.has_value() && (!b || (*b == g.q(*rb) && value_of(*b) == *rb && b->lot == g.lot));
        vmon::check(c, "C20", ok, K("best-bid"), "reported ", b ? b->representation() : "none", " expected ", rb ? g.q(*rb).representation() : "none");
        ok = a.has_value() == ra.has_value() && (!a || (*a == g.q(*ra) && value_of(*a) == *ra && a->lot == g.lot));
        vmon::check(c, "C20", ok, K("best-ask"), "reported ", a ? a->representation() : "none", " expected ", ra ? g.q(*ra).representation() : "none");
        if(a && b) vmon::check(c, "C20", *b < *a, K("crossed"), *b, " / ", *a);
        auto ids = s.book->orders();
        std::multiset<u64> listed(ids.begin(), ids.end()), expected;
        for(auto &r : ref.book) expected.insert(r.id);
        vmon::check(c, "C20", listed == expected, K("listed-orders"), listed.size(), " listed, ", expected.size(), " resting");
        stop |= c.failed > 3;
        u64 h = 5; for(auto &r : ref.book) h = vmon::hash_combine(h, vmon::hash_combine(u64(r.limit) * 2 + r.side, r.quantity)); vmon::distinct(h);
    }

    void insert(const op &o)
    {
        c.note(s.name, " insert ", o.side ? "sell " : "buy ", o.quantity, " @", o.limit, " lot ", o.lot, " by ", o.who, " lifetime ", o.lifetime);
        limit_order order(ticker(), owner(o.who), o.side ? limit_order::sell : limit_order::buy, quote(price(o.limit, g.currency), o.lot), std::uint32_t(o.quantity),
                          o.lifetime == 0 ? limit_order::lifetime_t::good_until_cancelled : o.lifetime == 1 ? limit_order::lifetime_t::fill_or_kill : limit_order::lifetime_t::immediate_or_cancel);
        bool malformed = o.quantity == 0 || (s.fixed && (o.lot != g.lot || o.limit < g.low || o.limit > g.high));
        if(malformed) {
            bool threw = false;
            try { s.book->insert(order); } catch(const std::exception &e) { threw = true; c.note("  threw ", e.what()); }
            auto ev = take(s);
            bool reported = ev.size() == 1 && ev[0].what == "invalid" && ev[0].quantity == o.quantity && ev[0].who == o.who && ev[0].side == o.side && ev[0].limit == o.limit;
            const char *kind = o.quantity == 0 ? "zero-quantity" : o.lot != g.lot ? "wrong-lot" : "out-of-range";
            vmon::check(c, {"C19", "C22"}, !threw && reported, K("malformed-order-not-reported-") + kind, threw ? "threw" : "", " reports ", ev.empty() ? "none" : show(ev[0]));
            vmon::event("malformed orders refused");
            observe();
            return;
        }
        auto before = ref;
        auto want = ref.insert(o.side, o.limit, o.quantity, o.lifetime);
        // a fixed-capacity book refuses what it has no room for
        bool full = s.fixed && want.rest && ref.book.size() >= s.capacity;
        bool threw = false;
        try { s.book->insert(order); } catch(const std::length_error &) { threw = true; } catch(const std::exception &e) {
            vmon::check(c, {"C18", "C22"}, false, K("order-refused-with-exception"), e.what(), " for limit ", o.limit, " in [", g.low, ",", g.high, "]"); stop = true; return; }
        if(full || threw) {
            vmon::check(c, {"C18", "C19"}, full && threw, K("capacity"), full ? "accepted beyond capacity" : "refused with room", " at ", ref.book.size(), " of ", s.capacity);
            if(full && threw) vmon::event("placements refused by a full book"); else { stop = true; return; }
        }
        auto ev = take(s);
        for(auto &e : ev) { s.log.push_back(e); c.note("  ", show(e)); }
        std::vector<event_t> taker, maker; event_t placement{}, cancel{}; int placements = 0, cancels = 0, other = 0;
        for(auto &e : ev) {
            if(e.what == "match") (e.id == basic_book::direct_order ? taker : maker).push_back(e);
            else if(e.what == "placement") { placement = e; ++placements; }
            else if(e.what == "cancel") { cancel = e; ++cancels; }
            else ++other;
        }
        vmon::check(c, "C19", other == 0, K("unexpected-report"));
        if(!vmon::check(c, {"C18", "C19"}, taker.size() == want.trades.size() && maker.size() == want.trades.size(), K("number-of-executions"),
                        taker.size(), " taker and ", maker.size(), " maker reports for ", want.trades.size(), " executions")) { stop = true; return; }
        u64 traded = 0;
        for(size_t i = 0; i < want.trades.size(); ++i) {
            auto &[r, n] = want.trades[i];
            bool right = maker[i].id == r.id && maker[i].quantity == n && maker[i].limit == r.limit;
            vmon::check(c, "C18", right, K("priority"), "execution ", i, ": reported ", show(maker[i]), ", expected order ", r.id, " quantity ", n, " @", r.limit);
            vmon::check(c, "C18", taker[i].limit == r.limit && taker[i].quantity == n, K("execution-price"), show(taker[i]), ", expected ", n, " @", r.limit);
            vmon::check(c, "C19", taker[i].quantity == maker[i].quantity && taker[i].limit == maker[i].limit, K("sides-disagree"), show(taker[i]), " / ", show(maker[i]));
            vmon::check(c, "C19", maker[i].who == r.who && maker[i].side == r.side && maker[i].id == r.id, K("maker-report"), show(maker[i]), " for order of ", r.who);
            vmon::check(c, "C19", taker[i].who == o.who && taker[i].side == o.side, K("taker-report"), show(taker[i]), " for order of ", o.who);
            executed[maker[i].id] += maker[i].quantity;
            traded += taker[i].quantity;
        }
        crossing += !want.trades.empty();
        if(want.trades.size() > 1) vmon::event("orders matched against several resting orders");
        if(want.cancelled) {
            vmon::check(c, {"C18", "C19"}, cancels == 1 && cancel.quantity == want.cancelled && cancel.who == o.who && cancel.side == o.side && cancel.limit == o.limit, K("immediate-remainder"), cancels, " cancellations, ", cancel.quantity, " expected ", want.cancelled);
            vmon::event("remainders of immediate orders cancelled");
        } else vmon::check(c, {"C18", "C19"}, cancels == 0, K("unexpected-cancel"));
        if(want.rest && !full) {
            bool ok = placements == 1 && placement.quantity == want.rest && placement.limit == o.limit && placement.who == o.who && placement.side == o.side;
            vmon::check(c, {"C18", "C19"}, ok, K("placement"), placements, " placements; ", show(placement), " expected ", want.rest);
            if(placements != 1) { stop = true; return; }
            vmon::check(c, "C19", placement.id != basic_book::direct_order && used.insert(placement.id).second, K("identifier-reused"), placement.id);
            placed[placement.id] = placement;
            ref.book.push_back({placement.id, o.side, o.limit, want.rest, o.who, ref.seq++});
        } else vmon::check(c, {"C18", "C19"}, placements == 0, K("unexpected-placement"));
        // conservation, from the reports alone
        u64 accounted = traded + (placements ? placement.quantity : 0) + (cancels ? cancel.quantity : 0) + (full ? want.rest : 0);
        vmon::check(c, "C19", accounted == o.quantity, K("quantity-not-conserved"), accounted, " of ", o.quantity);
        for(auto &[r, n] : want.trades) { bool live = false; for(auto &x : ref.book) live |= x.id == r.id; if(!live) dead.push_back(r.id); }
        vmon::event("orders inserted"); vmon::event("executions", want.trades.size());
        observe();
    }

    void cancel(u64 id)
    {
        auto it = std::find_if(ref.book.begin(), ref.book.end(), [&](auto &r) { return r.id == id; });
        c.note(s.name, " cancel ", id, it == ref.book.end() ? " (not resting)" : "");
        try { s.book->cancel(id); } catch(const std::exception &e) { vmon::check(c, "C21", false, K("cancel-threw"), e.what()); stop = true; return; }
        auto ev = take(s);
        for(auto &e : ev) s.log.push_back(e);
        if(it == ref.book.end()) {
            vmon::check(c, {"C21", "C19"}, ev.empty(), K("cancel-of-absent-order"), "reported ", ev.empty() ? "" : show(ev[0]));
            vmon::event("cancellations of orders that do not rest");
        } else {
            bool one = ev.size() == 1 && ev[0].what == "cancel" && ev[0].id == id;
            vmon::check(c, {"C21", "C19"}, one && ev[0].quantity == it->quantity, K("cancel-quantity"), ev.empty() ? "no report" : show(ev[0]), " expected ", it->quantity);
            vmon::check(c, {"C21", "C19"}, one && ev[0].who == it->who && ev[0].side == it->side && ev[0].limit == it->limit, K("cancel-report"), ev.empty() ? "no report" : show(ev[0]));
            cancelled[id] += it->quantity; dead.push_back(id);
            ref.book.erase(it);
            vmon::event("resting orders cancelled");
        }
        size_t before = c.failed;
        observe();
        if(c.failed != before) vmon::fail(c, "C21", K("cancel-changes-other-orders"), "after cancelling " + std::to_string(id));
    }

    void apply(const op &o)
    {
        if(o.kind == 0) return insert(o);
        if(o.kind == 1) {
            if(ref.book.empty()) return;
            // prefer the best, the worst, or a middle order
            size_t k = o.which % ref.book.size();
            if(o.which % 5 == 0) { auto b = ref.best(o.side); if(b) for(size_t i = 0; i < ref.book.size(); ++i) if(ref.book[i].side == o.side && ref.book[i].limit == *b) { k = i; break; } }
            return cancel(ref.book[k].id);
        }
        u64 id;
        switch(o.which % 5) {
        case 0: case 1: if(dead.empty()) return; id = dead[o.which / 5 % dead.size()]; break;
        case 2: if(dead.empty()) return; id = dead.back(); break;
        case 3: id = basic_book::direct_order; break;
        default: id = (used.empty() ? 0 : *used.rbegin()) + 1 + o.which / 5 % 40; break;
        }
        for(auto &r : ref.book) if(r.id == id) return;
        cancel(id);
    }

    // depth: what is left trades exactly as the reference says
    void drain(vmon::rng &r)
    {
        for(int side = 0; side < 2 && !stop; ++side) {
            for(int guard = 0; guard < 400 && !stop; ++guard) {
                u64 total = 0; for(auto &x : ref.book) if(x.side != side) total += x.quantity;
                if(!total) break;
                op o{}; o.side = side; o.limit = side == 0 ? g.high : g.low; o.quantity = std::min<u64>(0xffffffffull, 1 + r.below(total)); o.who = 5; o.lifetime = 2; o.lot = g.lot;
                insert(o);
            }
        }
        if(stop) return;
        // every placed order is accounted for by its reports
        for(auto &[id, p] : placed) vmon::check(c, "C19", executed[id] + cancelled[id] == p.quantity, K("order-not-accounted-for"), "order ", id, " placed ", p.quantity, " executed ", executed[id], " cancelled ", cancelled[id]);
        vmon::event("books drained");
    }
};

grid make_grid(vmon::rng &r)
{
    static const std::vector<iso_4217> cs{currencies::USD, currencies::EUR, iso_4217({'J', 'P', 'Y'}, 1), iso_4217({'K', 'W', 'D'}, 1000)};
    iso_4217 cur = cs[r.below(cs.size())];
    std::uint32_t lot = r.pick<std::uint32_t>({1, 1, 2, 3, 7, 10, 100, 128, 150, 1000, 10000, 999});
    i64 low = r.pick<i64>({1, 1, 5, 99, 1000, 12345, 0, -7, -200});
    i64 n = r.pick<i64>({1, 2, 3, 5, 8, 13, 30, 99});
    if(r.chance(.1)) n = 1 + i64(r.below(400));
    return grid{cur, lot, low, low + n};
}

std::vector<op> script(vmon::rng &r, const grid &g, size_t n, bool malformed)
{
    std::vector<op> v;
    i64 span = g.high - g.low, mid = g.low + i64(r.below(u64(span + 1)));
    double cancels = r.pick({0.0, .15, .3, .45}), aggressive = r.real(0, .6), immediate = r.pick({0., .1, .4});
    int sizes = int(r.below(4));
    for(size_t i = 0; i < n; ++i) {
        op o{}; o.lot = g.lot; o.which = r.next() >> 8; o.side = int(r.below(2)); o.who = int(r.below(5));
        if(r.chance(cancels)) { o.kind = r.chance(.75) ? 1 : 2; v.push_back(o); continue; }
        u64 how = r.below(10);
        if(how < 2) o.limit = o.side == 0 ? (r.chance(.5) ? g.low : g.high) : (r.chance(.5) ? g.high : g.low);
        else if(r.chance(aggressive)) o.limit = mid + (o.side == 0 ? 1 : -1) * i64(r.below(u64(span / 2 + 1)));
        else o.limit = mid + (o.side == 0 ? -1 : 1) * i64(r.below(u64(span / 2 + 1)));
        o.limit = std::clamp(o.limit, g.low, g.high);
        o.quantity = sizes == 0 ? 1 + r.below(3) : sizes == 1 ? 1 + r.below(100) : sizes == 2 ? 1 + (r.magnitude(31)) : r.pick<u64>({1, 10, 10, 20, 0xffffffffull, 0x80000000ull});
        o.lifetime = r.chance(immediate) ? int(1 + r.below(2)) : 0;
        if(malformed && r.chance(.08)) {
            switch(r.below(5)) {
            case 0: o.quantity = 0; break;
            case 1: o.limit = g.low - 1 - i64(r.below(3)); break;
            case 2: o.limit = g.high + 1 + i64(r.below(3)); break;
            case 3: o.lot = g.lot + 1; break;
            default: o.limit = g.high + 1; break;
            }
        }
        if(r.chance(.01)) mid = g.low + i64(r.below(u64(span + 1)));
        v.push_back(o);
    }
    return v;
}

void flow(vmon::ctx &c, bool fixed, size_t capacity, size_t n, const grid &g, const std::vector<op> &ops, std::vector<std::string> *normal = nullptr)
{
    subject s; s.fixed = fixed; s.capacity = capacity; s.name = fixed ? "static" : "tree";
    if(fixed) s.book = std::make_unique<static_order_book>(g.q(g.low), g.q(g.high), std::uint32_t(capacity));
    else s.book = std::make_unique<binary_tree_order_book>();
    c.note(s.name, " book, lot ", g.lot, " currency ", std::string(g.currency), "/", g.currency.denominator, " range ", g.low, "..", g.high, " capacity ", capacity);
    runner r{c, g, s, {}};
    r.observe();
    std::map<u64, int> rename;
    for(auto &o : ops) {
        // the tree-based book has no range; only the zero quantity is malformed for it
        if(!fixed && !o.kind && (o.lot != g.lot || o.limit < g.low || o.limit > g.high)) continue;
        r.apply(o);
        if(r.stop) return;
    }
    vmon::rng dr(ops.size() + u64(g.high) * 31);
    r.drain(dr);
    if(normal) for(auto &e : s.log) {
        u64 id = e.id; std::string nm = id == basic_book::direct_order ? "direct" : "#" + std::to_string(rename.emplace(id, int(rename.size())).first->second);
        event_t x = e; x.id = 0; normal->push_back(show(x) + nm);
    }
    if(r.crossing) c.touch(vmon::hash_combine(n, vmon::hash_string(c.trail)));
}
} // namespace

SECTION(book_tree, ({"C18", "C19", "C20", "C21"}), 500, 20000)
{
    grid g = make_grid(c.r); size_t n = 10 + c.r.below(120); auto ops = script(c.r, g, n, true);
    flow(c, false, 0, n, g, ops);
}
SECTION(book_static, ({"C18", "C19", "C20", "C21", "C22"}), 500, 20000)
{
    grid g = make_grid(c.r); size_t n = 10 + c.r.below(120); auto ops = script(c.r, g, n, true);
    flow(c, true, 300, n, g, ops);
}
// a pool so small that its blocks are reused all the time
SECTION(book_static_small_pool, ({"C18", "C19", "C20", "C21"}), 400, 15000)
{
    grid g = make_grid(c.r); size_t n = 20 + c.r.below(150); auto ops = script(c.r, g, n, c.r.chance(.3));
    flow(c, true, 1 + c.r.below(12), n, g, ops);
}
// both books, the same orders: the same reports up to the names of orders
SECTION(book_equivalence, ({"C18"}), 150, 5000)
{
    grid g = make_grid(c.r); size_t n = 20 + c.r.below(150); auto ops = script(c.r, g, n, false);
    // cancellations name orders by position in the reference, which is the same for both
    std::vector<std::string> a, b;
    flow(c, true, 400, n, g, ops, &a);
    flow(c, false, 0, n, g, ops, &b);
    if(c.failed) return;
    size_t k = 0; while(k < a.size() && k < b.size() && a[k] == b[k]) ++k;
    vmon::check(c, "C18", a == b, "books-differ", "first difference at report ", k, ": static ", k < a.size() ? a[k] : "(none)", " tree ", k < b.size() ? b[k] : "(none)");
    vmon::event("order flows run through both books");
}
REQUIRE_EVENT("C18", "order flows run through both books");
REQUIRE_EVENT("C19", "books drained");
REQUIRE_EVENT("C21", "cancellations of orders that do not rest");
REQUIRE_EVENT("C21", "resting orders cancelled");

// the displayed view shows the resting quantity of each level, best level nearest the middle
SECTION(book_display, ({"C20"}), 60, 1500)
{
    grid g = make_grid(c.r); if(g.low <= 0) { g.high += 1 - g.low; g.low = 1; }
    static_order_book book(g.q(g.low), g.q(g.high), 128);
    std::map<i64, u64> bids, asks;
    auto flow = script(c.r, g, 30, false);
    i64 mid = g.low + (g.high - g.low) / 2;
    for(auto &o : flow) { if(o.kind) continue; i64 l = o.limit; if(o.side == 0 ? l > mid : l <= mid) continue;
        u64 q = 1 + o.quantity % 1000;
        book.insert(limit_order(ticker(), owner(1), o.side ? limit_order::sell : limit_order::buy, g.q(l), std::uint32_t(q)));
        (o.side ? asks : bids)[l] += q; }
    u64 levels = 1 + c.r.below(6);
    std::ostringstream out; auto *old = std::cout.rdbuf(out.rdbuf());
    try { book.display(levels); } catch(...) { std::cout.rdbuf(old); throw; }
    std::cout.rdbuf(old);
    std::vector<u64> shown_bids, shown_asks, want_bids, want_asks;
    std::istringstream in(out.str()); std::string line;
    std::getline(in, line);
    while(std::getline(in, line)) {
        std::vector<std::string> f; std::string w; for(char ch : line) { if(ch == '|') { f.push_back(w); w.clear(); } else if(ch != ' ') w += ch; } f.push_back(w);
        if(f.size() < 3) continue;
        if(f[0].empty()) shown_asks.push_back(std::strtoull(f[2].c_str(), nullptr, 10)); else shown_bids.push_back(std::strtoull(f[0].c_str(), nullptr, 10));
    }
    for(auto i = bids.rbegin(); i != bids.rend() && want_bids.size() < levels; ++i) want_bids.push_back(i->second);
    for(auto i = asks.begin(); i != asks.end() && want_asks.size() < levels; ++i) want_asks.push_back(i->second);
    std::reverse(want_asks.begin(), want_asks.end());
    c.note(out.str());
    vmon::check(c, "C20", shown_bids == want_bids, "displayed-bid-depth", shown_bids.size(), " levels shown, ", want_bids.size(), " expected");
    vmon::check(c, "C20", shown_asks == want_asks, "displayed-ask-depth", shown_asks.size(), " levels shown, ", want_asks.size(), " expected");
    c.touch(vmon::hash_string(out.str()));
    vmon::event("displayed books");
}

// the grid: every quote, one level, in order, and back
SECTION(grid_mapping, ({"C22"}), 150, 3000)
{
    grid g = make_grid(c.r);
    if(c.r.chance(.15)) { i64 n = i64(1000 + c.r.below(4000)); g.high = g.low + n; if(g.lot > 1000) g.lot = 100; }
    c.note("lot ", g.lot, " denominator ", g.currency.denominator, " range ", g.low, "..", g.high);
    static_order_book book(g.q(g.low), g.q(g.high), 16);
    mathematics::interval<quote> limits(g.q(g.low), g.q(g.high));
    static_order_book::limit last = -1;
    for(i64 v = g.low; v <= g.high; ++v) {
        static_order_book::limit l = -12345;
        if(!vmon::check(c, "C22", book.default_encode(limits, g.q(v), l), "valid-quote-not-mapped", v)) return;
        vmon::check(c, "C22", l > last, "levels-not-increasing", "quote ", v, " level ", l, " after ", last);
        auto back = book.default_decode(limits, l);
        vmon::check(c, "C22", back == g.q(v) && back.lot == g.lot && std::get<price>(back.type).valuation == g.currency, "level-maps-to-other-quote", "quote ", v, " came back as ", back);
        last = l;
        if(c.failed > 3) return;
    }
    static_order_book::limit l = 0;
    vmon::check(c, "C22", !book.default_encode(limits, g.q(g.low - 1), l) && !book.default_encode(limits, g.q(g.high + 1), l), "quote-outside-range-mapped");
    c.touch(vmon::hash_combine(u64(g.high - g.low), vmon::hash_combine(g.lot, g.currency.denominator * 1000 + u64(g.low))));
    vmon::event("quotes mapped to levels and back", u64(g.high - g.low + 1));
}
REQUIRE_EVENT("C22", "quotes mapped to levels and back");

// the same through orders only: one order per quote, then matched one by one
SECTION(grid_orders, ({"C22"}), 120, 2500)
{
    grid g = make_grid(c.r);
    int side = int(c.r.below(2));
    size_t n = size_t(g.high - g.low + 1);
    static_order_book book(g.q(g.low), g.q(g.high), std::uint32_t(n + 2));
    std::vector<i64> vs; for(i64 v = g.low; v <= g.high; ++v) vs.push_back(v);
    c.r.shuffle(vs);
    for(i64 v : vs) {
        book.insert(limit_order(ticker(), owner(1), side ? limit_order::sell : limit_order::buy, g.q(v), 1));
        if(!vmon::check(c, "C22", book.reports.size() == 1 && book.reports[0].state == execution_report::placement && value_of(book.reports[0].limit) == v, "valid-quote-rejected", v)) return;
        book.reports.clear();
    }
    vmon::check(c, "C22", book.orders().size() == n, "orders-lost", book.orders().size(), " of ", n);
    for(size_t i = 0; i < n; ++i) {
        i64 want = side ? g.low + i64(i) : g.high - i64(i);
        auto best = side ? book.ask() : book.bid();
        vmon::check(c, "C22", best && value_of(*best) == want, "best-quote-of-grid", best ? best->representation() : "none", " expected ", want);
        book.insert(limit_order(ticker(), owner(2), side ? limit_order::buy : limit_order::sell, g.q(side ? g.high : g.low), 1));
        bool ok = book.reports.size() == 2;
        for(auto &r : book.reports) ok &= r.state == execution_report::match && value_of(r.limit) == want && r.limit.lot == g.lot;
        if(!vmon::check(c, "C22", ok, "executed-at-other-quote", "expected ", want, " got ", book.reports.empty() ? std::string("nothing") : book.reports[0].limit.representation())) return;
        book.reports.clear();
    }
    vmon::check(c, "C22", !book.ask() && !book.bid() && book.orders().empty(), "book-not-empty");
    c.touch(vmon::hash_combine(n, vmon::hash_combine(g.lot, u64(g.low) * 2 + side)));
    vmon::event("quotes of a grid traded one by one", n);
}

// construction with unusable limits is refused
SECTION(grid_construction, ({"C22"}), 40, 200)
{
    grid g = make_grid(c.r);
    vmon::check(c, "C22", vmon::throws([&] { static_order_book b(g.q(g.high), g.q(g.low), 8); }), "inverted-range-accepted");
    vmon::check(c, "C22", vmon::throws([&] { static_order_book b(g.q(g.low), quote(price(g.high, g.currency), g.lot + 1), 8); }), "mixed-lots-accepted");
    c.touch(vmon::hash_combine(g.lot, u64(g.high)));
}

// identities of orders stay apart over long histories in which blocks are reused
SECTION(book_long_history, ({"C18", "C19", "C20", "C21"}), 12, 300)
{
    grid g = make_grid(c.r); size_t n = 1500; auto ops = script(c.r, g, n, true);
    flow(c, c.r.chance(.7), 8 + c.r.below(60), n, g, ops);
}
VMON_MAIN
