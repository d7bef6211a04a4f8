// Exchanges and matching engines (C23): message scripts handled by the real
// exchange, judged by stand-alone books and by the messages it sends.
#include "vmon.hpp"
#include <esl/computation/environment.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/markets/centralized_exchange.hpp>
#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>
#include <esl/economics/markets/order_book/matching_engine.hpp>
#include <esl/economics/markets/order_book/static_order_book.hpp>
#include <esl/simulation/model.hpp>

using namespace esl;
using namespace esl::economics;
using namespace esl::economics::markets;
using namespace esl::economics::markets::order_book;
using simulation::time_point;
using simulation::time_interval;
using vmon::u64;
using vmon::i64;

namespace {
constexpr i64 LOW = 9000, HIGH = 11000;
struct venue { ticker t; bool fixed; std::uint32_t lot; iso_4217 currency; };
quote q(const venue &v, i64 x) { return quote(price(x, v.currency), v.lot); }
i64 value_of(const quote &x) { return std::get<price>(x.type).value; }
std::shared_ptr<basic_book> make_book(const venue &v)
{
    if(v.fixed) return std::make_shared<static_order_book>(q(v, LOW), q(v, HIGH), 512);
    return std::make_shared<binary_tree_order_book>();
}
// tickers told apart by what they consist of, not by the library's comparisons
std::string name_of(const ticker &t) { return t.base.representation() + "/" + t.quote.representation(); }
bool alike(const ticker &a, const ticker &b) { return a.base.digits == b.base.digits && a.quote.digits == b.quote.digits; }
struct by_parts { bool operator()(const ticker &a, const ticker &b) const { return std::tie(a.base.digits, a.quote.digits) < std::tie(b.base.digits, b.quote.digits); } };
template<typename V> using ticker_map = std::map<ticker, V, by_parts>;
std::vector<ticker> make_tickers(vmon::rng &r, size_t n)
{
    // tickers that share their base, their quote, or are each other's inverse
    std::vector<identity<law::property>> ps;
    for(u64 k = 0; k < (n > 8 ? 8 : 4); ++k) ps.push_back(r.chance(.5) ? identity<law::property>({k}) : identity<law::property>({3, k}));
    std::vector<ticker> all, out;
    for(size_t a = 0; a < ps.size(); ++a) for(size_t b = 0; b < ps.size(); ++b) if(a != b) all.push_back(ticker(ps[a], ps[b]));
    r.shuffle(all);
    out.push_back(all[0]);
    if(n > 1) out.push_back(ticker(all[0].quote, all[0].base));
    for(size_t i = 1; i < all.size() && out.size() < n; ++i) { bool have = false; for(auto &t : out) have |= alike(t, all[i]); if(!have) out.push_back(all[i]); }
    return out;
}
std::vector<venue> make_venues(vmon::rng &r, size_t n, bool only_tree)
{
    std::vector<venue> v;
    for(auto &t : make_tickers(r, n)) v.push_back({t, !only_tree && r.chance(.5), r.pick({1u, 10u, 100u, 10000u}), r.pick({currencies::USD, currencies::EUR})});
    return v;
}
std::string show(const execution_report &x)
{
    std::ostringstream o; o << int(x.state) << (x.side == limit_order::sell ? " sell " : " buy ") << x.quantity << " @" << value_of(x.limit) << " owner " << x.owner.representation() << " id " << x.identifier;
    return o.str();
}
std::multiset<std::string> bag(const std::vector<execution_report> &v) { std::multiset<std::string> s; for(auto &x : v) s.insert(show(x)); return s; }
std::string show(const std::multiset<std::string> &s) { std::string o; for(auto &x : s) o += "[" + x + "] "; return o.empty() ? "none" : o; }
std::string show(const std::optional<quote> &x) { if(!x) return "none"; std::ostringstream o; o << value_of(*x) << " per " << x->lot; return o.str(); }
bool same(const std::optional<quote> &a, const std::optional<quote> &b) { return a.has_value() == b.has_value() && (!a || (value_of(*a) == value_of(*b) && a->lot == b->lot && std::get<price>(a->type).valuation == std::get<price>(b->type).valuation)); }

limit_order make_order(vmon::rng &r, const venue &v, const identity<agent> &who, double bad)
{
    i64 x = r.chance(.8) ? 10000 + r.in(-8, 8) : r.in(LOW, HIGH);
    u64 n = 1 + r.below(r.chance(.7) ? 10 : 1000);
    if(r.chance(bad)) { if(r.chance(.5)) n = 0; else if(v.fixed) x = r.chance(.5) ? LOW - 1 - i64(r.below(50)) : HIGH + 1 + i64(r.below(50)); }
    auto life = r.chance(.8) ? limit_order::lifetime_t::good_until_cancelled : r.chance(.5) ? limit_order::lifetime_t::fill_or_kill : limit_order::lifetime_t::immediate_or_cancel;
    return limit_order(v.t, who, r.chance(.5) ? limit_order::buy : limit_order::sell, q(v, x), std::uint32_t(n), life);
}
std::string show(const limit_order &o)
{
    std::ostringstream s; s << o.owner.representation() << (o.side == limit_order::sell ? " sell " : " buy ") << o.quantity << " @" << value_of(o.limit) << " lifetime " << int(o.lifetime) << " in " << o.symbol;
    return s.str();
}
}

// --------------------------------------------------------- matching engine
SECTION(matching_engine, ({"C23"}), 250, 12000)
{
    auto vs = make_venues(c.r, c.r.chance(.1) ? 9 + c.r.below(40) : 1 + c.r.below(7), false);
    bool fixed = c.r.chance(.4);
    if(fixed) { auto cu = vs[0].currency; auto lot = vs[0].lot; for(auto &v : vs) { v.fixed = true; v.currency = cu; v.lot = lot; } }
    else for(auto &v : vs) v.fixed = false;
    u64 made = 0; venue proto = vs[0];
    matching_engine e = fixed ? matching_engine([&made, proto]() { ++made; return make_book(proto); }) : matching_engine();
    ticker_map<std::shared_ptr<basic_book>> shadow;
    ticker_map<std::vector<u64>> ids;
    std::vector<identity<agent>> who; for(u64 k = 0; k < 4; ++k) who.push_back(identity<agent>({0, k}));
    size_t n = 5 + c.r.below(60) + (vs.size() > 8 ? 3 * vs.size() : 0); u64 trades = 0;
    if(vs.size() > 8) vmon::event("engines with many books");
    for(size_t i = 0; i < n && !c.failed; ++i) {
        auto &v = c.r.pick(vs);
        if(c.r.chance(.75) || shadow.empty()) {
            auto o = make_order(c.r, v, c.r.pick(who), .05);
            c.note("insert ", show(o));
            if(!shadow.count(v.t)) shadow[v.t] = make_book(v);
            shadow[v.t]->insert(o); e.insert(o);
        } else {
            u64 id = 0; auto &known = ids[v.t];
            if(!known.empty() && c.r.chance(.8)) id = c.r.pick(known); else id = c.r.below(20);
            c.note("cancel ", id, " in ", v.t);
            if(shadow.count(v.t)) shadow[v.t]->cancel(id);
            e.cancel(v.t, id);
        }
        vmon::check(c, "C23", e.books.size() == shadow.size(), "engine-books", e.books.size(), " books for ", shadow.size(), " tickers with orders");
        u64 h = 1;
        for(auto &[t, b] : shadow) {
            auto it = e.books.find(t);
            if(!vmon::check(c, "C23", it != e.books.end() && it->second != nullptr, "engine-book-missing", t)) return;
            for(auto &[t2, b2] : e.books) if(!alike(t2, t)) vmon::check(c, "C23", b2 != it->second, "engine-books-shared", t, " and ", t2);
            auto got = bag(it->second->reports), want = bag(b->reports);
            vmon::check(c, "C23", got == want, "engine-reports", "book ", t, " reported ", show(got), " instead of ", show(want));
            vmon::check(c, "C23", same(it->second->bid(), b->bid()) && same(it->second->ask(), b->ask()), "engine-best-quotes", "book ", t, ": ", show(it->second->bid()), " / ", show(it->second->ask()), " expected ", show(b->bid()), " / ", show(b->ask()));
            auto a1 = it->second->orders(), a2 = b->orders();
            std::multiset<u64> l1(a1.begin(), a1.end()), l2(a2.begin(), a2.end());
            vmon::check(c, "C23", l1 == l2, "engine-orders", "book ", t, " lists ", l1.size(), " orders instead of ", l2.size());
            for(auto &x : b->reports) { if(x.state == execution_report::placement) ids[t].push_back(x.identifier); if(x.state == execution_report::match) ++trades; }
            it->second->reports.clear(); b->reports.clear();
            h = vmon::hash_combine(h, vmon::hash_string(show(b->bid()) + show(b->ask())) + l2.size());
        }
        vmon::distinct(h); vmon::event("engine operations");
    }
    if(fixed) vmon::check(c, "C23", made == shadow.size(), "engine-factory", made, " books made for ", shadow.size(), " tickers");
    vmon::event("engine executions", trades);
    if(trades && shadow.size() > 1) c.touch(vmon::hash_combine(n, trades));
}

// ------------------------------------------------ exchange, message by message
namespace {
// some participants may be further away from the exchange than others
struct fixed_latency : interaction::communication::latency_model {
    time_point d, far; explicit fixed_latency(time_point d, time_point far = 0) : d(d), far(far) {}
    time_point to(const identity<agent> &w) const { return d + (far && !w.digits.empty() ? w.digits.back() % 3 * far : 0); }
    simulation::time_duration sample(const identity<agent> &, const identity<agent> &w, std::seed_seq &) override { return to(w); }
};
struct trader : agent { explicit trader(const identity<trader> &i) : agent(i) {} };
struct want_subscription { time_point start = 0, period = 0; };
}

SECTION(exchange_messages, ({"C23"}), 300, 12000)
{
    computation::environment env;
    simulation::model m(env, simulation::parameter::parametrization(c.r.below(5), 0, 1000));
    auto vs = make_venues(c.r, c.r.chance(.1) ? 9 + c.r.below(30) : 1 + c.r.below(5), c.r.chance(.3));
    std::vector<ticker> ts; for(auto &v : vs) ts.push_back(v.t);
    ticker unknown(identity<law::property>({99}), identity<law::property>({98}));
    auto x = m.create<centralized_exchange>(m.world, ts);
    ticker_map<std::shared_ptr<basic_book>> shadow;
    ticker_map<const venue *> venue_of;
    for(auto &v : vs) { x->books.emplace(v.t, make_book(v)); shadow[v.t] = make_book(v); venue_of[v.t] = &v; }
    fixed_latency latency(0);
    if(c.r.chance(.4)) { latency = fixed_latency(c.r.below(5), c.r.chance(.5) ? 1 + c.r.below(4) : 0); x->communication_model = std::make_shared<fixed_latency>(latency); }
    typedef std::tuple<ticker, quote, identity<agent>, limit_order::side_t, decltype(limit_order::quantity), execution_report::state_t> record;
    if(c.r.chance(.5)) x->output_orders = std::make_unique<data::output<record>>("orders");
    size_t recorded = 0;
    std::vector<identity<agent>> who;
    size_t parties = c.r.chance(.1) ? 10 + c.r.below(40) : 1 + c.r.below(5);
    for(size_t k = 0; k < parties; ++k) who.push_back(m.create<trader>(m.world)->identifier);
    ticker_map<std::map<identity<agent>, want_subscription>> subs;
    ticker_map<std::map<identity<agent>, u64>> logged;
    ticker_map<std::vector<u64>> ids;
    time_point t = c.r.below(3); u64 exec_total = 0, data_total = 0;
    size_t n = 10 + c.r.below(60);
    if(c.r.chance(.4)) {
        // subscriptions with a period, as set up by a modeller
        for(auto &v : vs) for(auto &w : who) if(c.r.chance(.4)) {
            centralized_exchange::data_subscription s; s.depth = 1; s.start = c.r.below(12); s.periodicity = c.r.chance(.2) ? std::numeric_limits<time_point>::max() : c.r.below(10);
            x->market_data_subscriptions[v.t][w] = s; subs[v.t][w] = {s.start, s.periodicity};
            c.note("subscription of ", w, " to ", v.t, " from ", s.start, " period ", s.periodicity);
        }
    }
    for(size_t i = 0; i < n && !c.failed; ++i) {
        t += c.r.below(3);
        auto &v = c.r.pick(vs); auto sender = c.r.pick(who);
        int kind = int(c.r.below(20));
        std::shared_ptr<interaction::header> msg;
        std::vector<execution_report> expected; std::vector<ticker> snapshot; std::optional<limit_order> placed;
        bool expect_throw = false, changed = false; ticker symbol = v.t; std::vector<std::pair<i64, u64>> traded;
        auto digest = [&](std::shared_ptr<basic_book> b, std::optional<quote> ask, std::optional<quote> bid) {
            expected = b->reports; b->reports.clear();
            changed = !same(ask, b->ask()) || !same(bid, b->bid());
            for(auto &r : expected) {
                if(r.state == execution_report::match && r.identifier == basic_book::direct_order) traded.push_back({value_of(r.limit), r.quantity});
                if(r.state == execution_report::placement) ids[symbol].push_back(r.identifier);
            }
        };
        if(kind < 10) {
            auto mm = std::make_shared<new_order_single_message>(sender, x->identifier, t, t);
            auto owner = c.r.chance(.9) ? sender : c.r.pick(who);
            mm->order_details = make_order(c.r, v, owner, .08);
            if(c.r.chance(.03)) { mm->order_details.symbol = unknown; expect_throw = true; }
            c.note("t=", t, " order from ", sender, ": ", show(mm->order_details));
            if(!expect_throw) { auto b = shadow[v.t]; auto a0 = b->ask(), b0 = b->bid(); b->insert(mm->order_details); digest(b, a0, b0); placed = mm->order_details; }
            msg = mm; vmon::event("order messages");
        } else if(kind < 14) {
            auto mm = std::make_shared<cancel_order_message>(sender, x->identifier, t, t);
            auto &known = ids[v.t];
            mm->order = !known.empty() && c.r.chance(.85) ? known[known.size() - 1 - c.r.below(std::min<size_t>(known.size(), 4))] : c.r.below(30);
            mm->symbol = c.r.chance(.05) ? unknown : v.t;
            c.note("t=", t, " cancel from ", sender, ": ", mm->order, " in ", mm->symbol);
            if(alike(mm->symbol, v.t)) { auto b = shadow[v.t]; auto a0 = b->ask(), b0 = b->bid(); b->cancel(mm->order); digest(b, a0, b0); if(!expected.empty()) vmon::event("cancellations of resting orders"); }
            msg = mm; vmon::event("cancel messages");
        } else if(kind < 18) {
            auto mm = std::make_shared<market_data_request_message>(sender, x->identifier, t, t);
            mm->depth = std::uint8_t(1 + c.r.below(5));
            for(auto &k : ts) if(c.r.chance(.5)) mm->instruments.push_back(k);
            int what = int(c.r.below(3));
            mm->type = what == 0 ? market_data_request_message::snapshot : what == 1 ? market_data_request_message::stream : market_data_request_message::cancel;
            c.note("t=", t, what == 0 ? " snapshot" : what == 1 ? " stream" : " cancel data", " request from ", sender, " for ", mm->instruments.size(), " tickers");
            for(auto &k : mm->instruments) {
                if(what == 0) snapshot.push_back(k); else if(what == 1) subs[k][sender] = {t, 0}; else { if(subs[k].erase(sender)) vmon::event("subscriptions cancelled"); else vmon::event("cancellations without a subscription"); }
            }
            // an instrument the exchange does not have, anywhere in the list
            if(c.r.chance(.15)) mm->instruments.insert(mm->instruments.begin() + c.r.below(mm->instruments.size() + 1), unknown);
            msg = mm; vmon::event("data requests");
        } else if(kind == 18) {
            auto mm = std::make_shared<logon_message>(sender, x->identifier, t, t);
            for(auto &k : ts) { u64 s = 0; if(c.r.chance(.6)) { s = c.r.below(1000); mm->supply[k] = s; } logged[k][sender] = s; }
            c.note("t=", t, " logon of ", sender); msg = mm; vmon::event("logons");
        } else {
            for(auto &k : ts) logged[k].erase(sender);
            c.note("t=", t, " logout of ", sender); msg = std::make_shared<logout_message>(sender, x->identifier, t, t); vmon::event("logouts");
        }
        x->inbox.clear(); x->inbox.insert({t, msg}); x->outbox.clear();
        std::seed_seq seed {u64(i), c.index};
        bool threw = false; time_point ret = 0;
        try { ret = x->process_messages({t, t + 5}, seed); } catch(const esl::exception &e) { threw = true; }
        x->inbox.clear();
        vmon::check(c, "C23", threw == expect_throw, "unknown-ticker", threw ? "refused a valid message" : "accepted an order without a market");
        if(!threw) vmon::check(c, "C23", ret == t + 5, "exchange-wake-up", ret);
        // what was sent
        std::multiset<std::string> got, want;
        std::map<identity<agent>, std::vector<std::shared_ptr<market_data_message>>> data;
        for(auto &o : x->outbox) {
            vmon::check(c, "C23", o->sender == x->identifier && o->sent == t && o->received == t + latency.to(o->recipient), "message-envelope", "sender ", o->sender, " sent ", o->sent, " delivery ", o->received, " at ", t, " latency ", latency.to(o->recipient));
            if(auto e = std::dynamic_pointer_cast<execution_report_message>(o)) {
                got.insert("to " + e->recipient.representation() + ": " + show(e->report));
                vmon::check(c, "C23", alike(e->order.symbol, symbol), "report-symbol", e->order.symbol, " instead of ", symbol);
                if(placed) vmon::check(c, "C23", e->order.owner == placed->owner && e->order.quantity == placed->quantity && value_of(e->order.limit) == value_of(placed->limit) && e->order.side == placed->side, "report-order");
                ++exec_total;
            } else if(auto d = std::dynamic_pointer_cast<market_data_message>(o)) data[d->recipient].push_back(d), ++data_total;
            else vmon::check(c, "C23", false, "unexpected-message", o->type);
        }
        for(auto &r : expected) want.insert("to " + r.owner.representation() + ": " + show(r));
        vmon::check(c, "C23", got == want, "execution-reports", "sent ", show(got), " expected ", show(want));
        vmon::event("execution reports checked", want.size());
        if(x->output_orders) {
            // what happened to the sender's own orders is recorded, in order, except refusals
            auto &values = x->output_orders->values;
            std::vector<std::string> a, b;
            for(; recorded < values.size(); ++recorded) {
                auto &[when, y] = values[recorded];
                execution_report e = expected.empty() ? execution_report() : expected.front();
                e.state = std::get<5>(y); e.quantity = std::get<4>(y); e.side = std::get<3>(y); e.limit = std::get<1>(y); e.owner = std::get<2>(y); e.identifier = 0;
                vmon::check(c, "C23", when == t, "record-time", when, " at ", t);
                a.push_back(name_of(std::get<0>(y)) + show(e));
            }
            for(auto e : expected) if(e.state != execution_report::invalid && e.owner == sender) { e.identifier = 0; b.push_back(name_of(symbol) + show(e)); }
            vmon::check(c, "C23", a == b, "order-records", a.size(), " recorded of ", b.size());
            vmon::event("order records checked", b.size());
        }
        bool update = changed || !traded.empty();
        for(auto &w : who) {
            auto d = data.count(w) ? data[w] : std::vector<std::shared_ptr<market_data_message>>();
            data.erase(w);
            if(!snapshot.empty() && w == sender) {
                std::multiset<std::string> a, b; for(auto &k : d) a.insert(name_of(k->symbol)); for(auto &k : snapshot) b.insert(name_of(k));
                vmon::check(c, "C23", a == b, "snapshot", a.size(), " answers for ", b.size(), " tickers");
                for(auto &k : d) {
                    auto s = shadow.find(k->symbol); if(s == shadow.end()) continue;
                    std::optional<quote> ka, kb; if(!k->ask.empty()) ka = k->ask[0].first; if(!k->bid.empty()) kb = k->bid[0].first;
                    vmon::check(c, "C23", same(ka, s->second->ask()) && same(kb, s->second->bid()) && k->trades.empty(), "snapshot-quotes", show(kb), " / ", show(ka), " expected ", show(s->second->bid()), " / ", show(s->second->ask()));
                    vmon::event("snapshots checked");
                }
                continue;
            }
            auto sb = subs[symbol].find(w);
            bool due = update && sb != subs[symbol].end() && sb->second.start <= t && t - sb->second.start >= sb->second.period;
            if(!due) { vmon::check(c, "C23", d.empty(), "data-not-due", d.size(), " messages to ", w, sb == subs[symbol].end() ? " without a subscription" : update ? " before its time" : " without any change"); continue; }
            vmon::check(c, "C23", !d.empty(), "data-missing", "nothing sent to subscriber ", w, traded.empty() ? " after the best quotes changed" : " after a trade");
            vmon::event("updates of subscribers checked");
            std::multiset<std::pair<i64, u64>> seen;
            for(auto &k : d) {
                std::optional<quote> ka, kb; if(!k->ask.empty()) ka = k->ask[0].first; if(!k->bid.empty()) kb = k->bid[0].first;
                vmon::check(c, "C23", alike(k->symbol, symbol) && same(ka, shadow[symbol]->ask()) && same(kb, shadow[symbol]->bid()), "data-quotes", k->symbol, ": ", show(kb), " / ", show(ka), " expected ", symbol, ": ", show(shadow[symbol]->bid()), " / ", show(shadow[symbol]->ask()));
                for(auto &[l, qty] : k->trades) seen.insert({value_of(l), qty});
            }
            if(sb->second.period == 0) vmon::check(c, "C23", seen == std::multiset<std::pair<i64, u64>>(traded.begin(), traded.end()), "data-trades", seen.size(), " trades published to ", w, " of ", traded.size());
            else vmon::check(c, "C23", d.size() == 1, "data-period", d.size(), " messages within a period of ", sb->second.period);
            sb->second.start = t;
        }
        vmon::check(c, "C23", data.empty(), "data-to-stranger");
        u64 h = 3;
        for(auto &[k, b] : shadow) {
            auto it = x->books.find(k);
            if(!vmon::check(c, "C23", it != x->books.end(), "book-missing", k)) return;
            auto &y = it->second;
            vmon::check(c, "C23", same(y->bid(), b->bid()) && same(y->ask(), b->ask()), "book-quotes", k, ": ", show(y->bid()), " / ", show(y->ask()), " expected ", show(b->bid()), " / ", show(b->ask()));
            auto a1 = y->orders(), a2 = b->orders();
            vmon::check(c, "C23", std::multiset<u64>(a1.begin(), a1.end()) == std::multiset<u64>(a2.begin(), a2.end()), "book-orders", k, " lists ", a1.size(), " instead of ", a2.size());
            h = vmon::hash_combine(h, vmon::hash_string(show(b->bid()) + show(b->ask())) + a2.size());
            std::map<identity<agent>, u64> have;
            auto pos = x->positions.find(k);
            if(pos != x->positions.end()) for(auto &[w, p] : pos->second) have[w] = p.supply;
            vmon::check(c, "C23", have == logged[k], "participants", k, ": ", have.size(), " registered instead of ", logged[k].size());
        }
        vmon::distinct(h);
    }
    vmon::event("execution reports sent", exec_total); vmon::event("data messages sent", data_total);
    if(exec_total) c.touch(vmon::hash_combine(exec_total, data_total * 131 + n));
}

// ------------------------------------------------------- exchange in a model
namespace {
// records each report its book makes, when it makes it
struct recording_book : binary_tree_order_book {
    std::vector<execution_report> all;
    void insert(const limit_order &o) override { size_t n = reports.size(); binary_tree_order_book::insert(o); all.insert(all.end(), reports.begin() + n, reports.end()); }
    void cancel(order_identifier o) override { size_t n = reports.size(); binary_tree_order_book::cancel(o); all.insert(all.end(), reports.begin() + n, reports.end()); }
};
struct floor_trader : agent, identifiable_as<floor_trader> {
    identity<agent> venue_; const std::vector<venue> *vs; vmon::rng r; time_point last;
    std::vector<std::string> got; u64 foreign = 0, early = 0, data = 0, data_wrong = 0, orders = 0; std::vector<std::pair<ticker, u64>> mine; bool subscribed = false;
    ticker_map<u64> submitted, accounted;
    floor_trader(const identity<floor_trader> &i, identity<agent> x, const std::vector<venue> *vs, u64 seed, time_point last)
    : agent(i), venue_(x), vs(vs), r(seed), last(last)
    {
        ESL_REGISTER_CALLBACK(execution_report_message, 0, [this](std::shared_ptr<execution_report_message> m, time_interval s, std::seed_seq &) {
            if(!(m->report.owner == identifier)) ++foreign;
            if(m->received > s.lower || m->sent > s.lower) ++early;
            std::ostringstream o; o << m->order.symbol << " " << show(m->report); got.push_back(o.str());
            if(m->report.state == execution_report::placement) mine.push_back({m->order.symbol, m->report.identifier});
            return s.upper; }, "reports");
        ESL_REGISTER_CALLBACK(market_data_message, 0, [this](std::shared_ptr<market_data_message> m, time_interval s, std::seed_seq &) {
            ++data; bool known = false; for(auto &v : *this->vs) known |= alike(v.t, m->symbol); if(!known || !subscribed) ++data_wrong;
            return s.upper; }, "data");
    }
    time_point act(time_interval s, std::seed_seq &) override
    {
        if(s.lower >= last) return s.upper;
        if(!subscribed && r.chance(.3)) {
            subscribed = true;
            auto m = create_message<market_data_request_message>(venue_, s.lower + 1, identifier, venue_, s.lower, s.lower + 1);
            for(auto &v : *vs) m->instruments.push_back(v.t);
            m->type = market_data_request_message::stream;
        }
        for(u64 k = r.below(4); k; --k) {
            auto &v = (*vs)[r.below(vs->size())];
            if(!mine.empty() && r.chance(.25)) {
                auto [t, id] = mine[r.below(mine.size())];
                auto m = create_message<cancel_order_message>(venue_, s.lower + 1, identifier, venue_, s.lower, s.lower + 1);
                m->symbol = t; m->order = id;
            } else {
                auto m = create_message<new_order_single_message>(venue_, s.lower + 1, identifier, venue_, s.lower, s.lower + 1);
                m->order_details = make_order(r, v, identifier, .05); ++orders;
            }
        }
        return std::min<time_point>(s.lower + 1 + r.below(2), s.upper);
    }
};
}

SECTION(exchange_in_model, ({"C23", "C01"}), 60, 2500)
{
    computation::environment env;
    unsigned threads = c.r.chance(.5) ? 1 : 2 + c.r.below(3);
    time_point last = 4 + c.r.below(12), latency = c.r.chance(.5) ? 0 : c.r.below(4), far = c.r.chance(.5) ? 0 : c.r.below(3);
    simulation::model m(env, simulation::parameter::parametrization(c.index, 0, last + 10, threads));
    auto vs = make_venues(c.r, 1 + c.r.below(4), true);
    std::vector<ticker> ts; for(auto &v : vs) ts.push_back(v.t);
    auto x = m.create<centralized_exchange>(m.world, ts);
    if(latency || far) x->communication_model = std::make_shared<fixed_latency>(latency, far);
    ticker_map<std::shared_ptr<recording_book>> rec;
    for(auto &v : vs) { rec[v.t] = std::make_shared<recording_book>(); x->books.emplace(v.t, rec[v.t]); }
    std::vector<std::shared_ptr<floor_trader>> fs; size_t k = 1 + c.r.below(6);
    for(size_t i = 0; i < k; ++i) fs.push_back(m.create<floor_trader>(m.world, identity<agent>(x->identifier), (const std::vector<venue> *) &vs, u64(c.r.next()), last));
    time_point t = 0; int guard = 0;
    while(t < last + 10 && ++guard < 200) t = m.step({t, last + 10});
    std::map<std::string, std::multiset<std::string>> want; u64 total = 0, orders = 0, data = 0;
    for(auto &[tk, b] : rec) for(auto &r : b->all) { std::ostringstream o; o << tk << " " << show(r); want[r.owner.representation()].insert(o.str()); ++total; }
    for(auto &f : fs) {
        std::multiset<std::string> got(f->got.begin(), f->got.end());
        vmon::check(c, {"C23", "C01"}, got == want[f->identifier.representation()], "reports-delivered", got.size(), " reports reached ", f->identifier, ", its orders had ", want[f->identifier.representation()].size());
        vmon::check(c, "C23", f->foreign == 0, "foreign-report", f->foreign);
        vmon::check(c, {"C23", "C01"}, f->early == 0, "early-report", f->early);
        vmon::check(c, "C23", f->data_wrong == 0, "data-without-subscription", f->data_wrong);
        orders += f->orders; data += f->data;
        for(auto &g : f->got) vmon::distinct(vmon::hash_string(g));
    }
    vmon::event("reports delivered in models", total); vmon::event("orders sent in models", orders); vmon::event("data delivered in models", data);
    if(total) c.touch(vmon::hash_combine(total, orders));
}

REQUIRE_EVENT("C23", "engine executions");
REQUIRE_EVENT("C23", "engines with many books");
REQUIRE_EVENT("C23", "execution reports checked");
REQUIRE_EVENT("C23", "cancellations of resting orders");
REQUIRE_EVENT("C23", "updates of subscribers checked");
REQUIRE_EVENT("C23", "snapshots checked");
REQUIRE_EVENT("C23", "order records checked");
REQUIRE_EVENT("C23", "reports delivered in models");
VMON_MAIN
