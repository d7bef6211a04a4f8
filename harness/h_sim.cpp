// Simulation core: stepping, messages, wake-ups, reproducibility, registration.
// Decides C01, C02, C03, C04, C09 (and C05 in the thread-sanitizer build).
#include "vmon.hpp"
#include <esl/agent.hpp>
#include <esl/exception.hpp>
#include <esl/computation/environment.hpp>
#include <esl/interaction/message.hpp>
#include <esl/simulation/model.hpp>
#include <esl/data/log.hpp>

using namespace esl;
using simulation::time_point;
using simulation::time_interval;
using vmon::u64; using vmon::i64;

// ---------------------------------------------------------------- messages
template<u64 K>
struct note_message : interaction::message<note_message<K>, K> {
    typedef interaction::message<note_message<K>, K> base;
    u64 uid = 0; int ttl = 0;
    note_message(const identity<agent> &s = identity<agent>(), const identity<agent> &r = identity<agent>(),
                 time_point sent = 0, time_point received = 0, u64 uid = 0, int ttl = 0)
    : base(s, r, sent, received), uid(uid), ttl(ttl) {}
};
typedef note_message<0x51> m1;
typedef note_message<0x52> m2;
typedef note_message<0x53> m3;
typedef note_message<0x54> m4;    // nobody handles this one

template<typename M> static u64 uid_of(const std::shared_ptr<interaction::header> &h)
{ auto p = std::dynamic_pointer_cast<M>(h); return p ? p->uid : 0; }
static u64 uid_any(const std::shared_ptr<interaction::header> &h)
{
    if(auto u = uid_of<m1>(h)) return u;
    if(auto u = uid_of<m2>(h)) return u;
    if(auto u = uid_of<m3>(h)) return u;
    return uid_of<m4>(h);
}

// ------------------------------------------------------------------ scripts
struct entry {            // what an agent did or saw, recorded by the agent
    char kind;            // 'A' act, 'H' handler
    time_point t;         // step.lower
    time_point upper;
    u64 a, b;             // act: returned time / n; handler: uid / handler number
    time_point ret;
    int priority;
    u64 seed[4];
    bool operator==(const entry &o) const
    {
        return kind == o.kind && t == o.t && upper == o.upper && a == o.a && b == o.b && ret == o.ret && priority == o.priority
            && std::equal(seed, seed + 4, o.seed);
    }
};
static std::ostream &operator<<(std::ostream &o, const entry &e)
{
    return o << e.kind << " t=" << e.t << " upper=" << e.upper << " a=" << e.a << " b=" << e.b << " ret=" << e.ret << " pr=" << e.priority << " seed0=" << e.seed[0];
}
struct sent_record { u64 uid; int type; identity<agent> from, to; time_point at, received; };

struct script_config {
    u64 seed;
    size_t agents;
    time_point start, end;
    double p_message, p_past, p_far, p_same_round, p_idle, p_io;
    bool outputs;
    bool controller = false;
    u64 cap = 100;          // messages one agent sends at most
    std::vector<identity<agent>> *ids;
};
struct world_model;

static void seed_words(std::seed_seq &s, u64 *out)
{
    std::uint32_t w[8];
    s.generate(w, w + 8);
    for(int i = 0; i < 4; ++i) out[i] = (u64(w[2 * i]) << 32) | w[2 * i + 1];
}

struct scripted : agent {
    const script_config *cfg;
    u64 index;
    vmon::rng r;
    std::vector<entry> diary;
    std::vector<sent_record> sent;
    u64 counter = 0;
    time_point last_time = ~0ull;
    unsigned same = 0;
    bool dead = false;
    std::shared_ptr<data::output<u64>> out;
    struct expectation { int type; int priority; u64 number; };
    std::vector<expectation> handlers;
    world_model *home = nullptr;

    scripted(const identity<agent> &i, const script_config *cfg, u64 index)
    : agent(i), cfg(cfg), index(index), r(vmon::hash_combine(cfg->seed, index))
    {
        schedule = r.chance(0.5) ? communicator::in_order : communicator::random;
        u64 n = 0;
        auto add1 = [&](int p) { u64 k = n++; handlers.push_back({1, p, k});
            auto f = [this, k, p](std::shared_ptr<m1> m, time_interval s, std::seed_seq &q) { return handle(1, k, p, m ? m->uid : 0, m ? m->ttl : 0, s, q); };
            ESL_REGISTER_CALLBACK(m1, p, f, "first"); };
        auto add2 = [&](int p) { u64 k = n++; handlers.push_back({2, p, k});
            auto f = [this, k, p](std::shared_ptr<m2> m, time_interval s, std::seed_seq &q) { return handle(2, k, p, m ? m->uid : 0, m ? m->ttl : 0, s, q); };
            ESL_REGISTER_CALLBACK(m2, p, f, "second"); };
        auto add3 = [&](int p) { u64 k = n++; handlers.push_back({3, p, k});
            auto f = [this, k, p](std::shared_ptr<m3> m, time_interval s, std::seed_seq &q) { return handle(3, k, p, m ? m->uid : 0, m ? m->ttl : 0, s, q); };
            ESL_REGISTER_CALLBACK(m3, p, f, "third"); };
        add1(int(r.in(-128, 127)));
        if(r.chance(0.5)) add1(int(r.in(-3, 3)));
        add2(int(r.in(-3, 3)));
        if(r.chance(0.5)) add2(int(r.in(-3, 3)));
        add3(int(r.in(-3, 3)));
        if(r.chance(0.3)) add3(int(r.in(-128, 127)));
        if(cfg->outputs) { out = create_output<u64>("counts"); out->buffered = r.chance(0.7); }
    }

    void post(time_point now, int ttl)
    {
        if(counter > cfg->cap) return;
        auto &ids = *cfg->ids;
        auto to = ids[r.below(ids.size())];
        time_point d;
        double x = r.real();
        if(same >= 3) x = std::max(x, cfg->p_past + cfg->p_same_round);   // let time go on
        if(x < cfg->p_past) d = now - std::min<time_point>(now, r.below(4));
        else if(x < cfg->p_past + cfg->p_same_round) d = now;
        else if(x < cfg->p_past + cfg->p_same_round + cfg->p_far) d = now + 5 + r.below(2 * (cfg->end - cfg->start) + 1);
        else d = now + 1 + r.below(4);
        u64 uid = (index + 1) * 1000000 + (++counter);
        int type = int(r.in(1, 4));
        bool by_hand = r.chance(0.3);
        identity<agent> me = identifier;
        if(by_hand) {
            if(type == 1) send_message(std::make_shared<m1>(me, to, now, d, uid, ttl));
            else if(type == 2) send_message(std::make_shared<m2>(me, to, now, d, uid, ttl));
            else if(type == 3) send_message(std::make_shared<m3>(me, to, now, d, uid, ttl));
            else send_message(std::make_shared<m4>(me, to, now, d, uid, ttl));
        } else {
            if(type == 1) create_message<m1>(to, d, me, to, now, d, uid, ttl);
            else if(type == 2) create_message<m2>(to, d, me, to, now, d, uid, ttl);
            else if(type == 3) create_message<m3>(to, d, me, to, now, d, uid, ttl);
            else create_message<m4>(to, d, me, to, now, d, uid, ttl);
        }
        sent.push_back({uid, type, me, to, now, d});
    }

    time_point handle(int type, u64 number, int priority, u64 uid, int ttl, time_interval s, std::seed_seq &q)
    {
        (void) type;
        time_point ret = s.upper;
        if(r.chance(0.25)) ret = std::min(s.upper, s.lower + 1 + r.below(6));
        if(ttl > 0 && r.chance(0.6)) post(s.lower, ttl - 1);
        entry e{'H', s.lower, s.upper, uid, number, ret, priority, {}};
        seed_words(q, e.seed);
        diary.push_back(e);
        return ret;
    }

    virtual void extra(time_interval) {}

    time_point act(time_interval s, std::seed_seq &q) override
    {
        if(s.lower != last_time) { last_time = s.lower; same = 0; } else ++same;
        entry e{'A', s.lower, s.upper, 0, same, 0, 0, {}};
        seed_words(q, e.seed);
        std::minstd_rand g(q);
        e.a = g();
        if(cfg->outputs) {
            out->put(s.lower, e.a);
            if(r.chance(cfg->p_io)) { LOG(trace) << "agent " << identifier << " at " << s.lower << std::endl; }
        }
        while(r.chance(cfg->p_message)) post(s.lower, int(r.below(3)));
        time_point ret;
        if(r.chance(cfg->p_idle)) ret = s.upper;
        else if(same < 3 && r.chance(cfg->p_same_round)) ret = s.lower;
        else ret = s.lower + 1 + (r.chance(0.2) ? r.below(20) : r.below(3));
        e.ret = ret;
        diary.push_back(e);
        extra(s);
        return ret;
    }
};

// ------------------------------------------------- monitored environment/model
struct monitored_model;
struct monitored_environment : computation::environment {
    monitored_model *home = nullptr;
    size_t activations = 0, deactivations = 0;    // queued since the last call
    size_t activate() override;
    size_t deactivate() override;
    size_t send_messages(simulation::model &m) override;
    void activate_agent(const identity<agent> &a) override { ++activations; computation::environment::activate_agent(a); }
    void deactivate_agent(const identity<agent> &a) override { ++deactivations; computation::environment::deactivate_agent(a); }
};

struct step_record { time_interval step; time_point next; std::vector<std::vector<identity<agent>>> rounds; };

struct pending_message { u64 uid; int type; identity<agent> to; time_point at, received; };

struct monitored_model : simulation::model {
    vmon::ctx *c;
    script_config cfg;
    std::vector<identity<agent>> ids;
    std::vector<std::shared_ptr<scripted>> all;       // every scripted agent ever created
    int initialised = 0, terminated = 0;
    bool inside = false;
    std::vector<step_record> steps;
    // --- scheduling oracle
    time_interval now{0, 1};
    std::map<identity<agent>, time_point> due;        // when each present agent must act next
    std::set<identity<agent>> born;                   // created during this round
    std::map<identity<agent>, size_t> position;       // trace length at the start of the round
    std::vector<pending_message> undelivered;
    std::map<u64, pending_message> book;              // every sent message by uid
    std::map<std::pair<u64, u64>, u64> handled;       // (uid, handler number) -> times
    u64 sent_count = 0;
    size_t round = 0;
    std::set<identity<agent>> gone;
    std::map<std::array<u64, 4>, std::tuple<identity<agent>, time_point, size_t>> seeds;
    u64 total_rounds = 0;

    monitored_model(vmon::ctx *c, monitored_environment &e, const simulation::parameter::parametrization &p)
    : simulation::model(e, p), c(c) { e.home = this; }

    void initialize() override { ++initialised; simulation::model::initialize(); }
    void terminate() override { ++terminated; simulation::model::terminate(); }

    template<typename T = scripted> std::shared_ptr<T> add()
    {
        auto a = create<T>(world, (const script_config *) &cfg, u64(all.size()));
        a->home = reinterpret_cast<world_model *>(this);
        all.push_back(a);
        return a;
    }

    std::shared_ptr<scripted> find(const identity<agent> &i)
    {
        for(auto &a : all) if(identity<agent>(a->identifier) == i) return a;
        return nullptr;
    }

    void begin_round()
    {
        for(auto &a : all) position[a->identifier] = a->diary.size();
    }

    // called at the end of every round, before the messages are moved
    void end_round()
    {
        std::set<identity<agent>> acted;
        std::map<identity<agent>, time_point> wants;
        for(auto &a : all) {
            identity<agent> id = a->identifier;
            size_t from = position.count(id) ? position[id] : 0;
            bool act = false;
            std::vector<std::tuple<u64, u64, int>> served;    // uid, handler, priority
            for(size_t k = from; k < a->diary.size(); ++k) {
                auto &e = a->diary[k];
                vmon::check(*c, {"C01", "C03", "C04"}, e.t == now.lower, "agent-sees-wrong-time", "agent ", id, " sees time ", e.t, " in the step at ", now.lower);
                vmon::check(*c, "C03", e.upper == now.upper, "agent-sees-wrong-end", "agent ", id, " sees end ", e.upper, " expected ", now.upper);
                // one seed per (identity, time, round)
                std::array<u64, 4> w{e.seed[0], e.seed[1], e.seed[2], e.seed[3]};
                auto key = std::make_tuple(id, e.t, round);
                auto it = seeds.emplace(w, key).first;
                vmon::check(*c, "C04", it->second == key, "seed-repeats", "agent ", id, " at ", e.t, " round ", round, " has the seed already given to ", std::get<0>(it->second), " at ", std::get<1>(it->second), " round ", std::get<2>(it->second));
                if(e.kind == 'A') {
                    vmon::check(*c, {"C03", "C01"}, !act, "acts-twice-in-round", "agent ", id, " acts twice in one round at ", now.lower);
                    act = true; acted.insert(id);
                    auto w2 = wants.count(id) ? std::min(wants[id], e.ret) : e.ret;
                    wants[id] = w2;
                    vmon::event("acts");
                } else {
                    vmon::check(*c, {"C02", "C01"}, !act, "handler-after-act", "handler runs after act for ", id);
                    served.push_back({e.a, e.b, e.priority});
                    wants[id] = wants.count(id) ? std::min(wants[id], e.ret) : e.ret;
                    handle_seen(*a, e);
                    vmon::event("handled");
                }
            }
            if(!served.empty() && !act) vmon::fail(*c, "C03", "handles-without-acting", "agent handled messages but did not act");
            check_service_order(*a, served);
            // all due messages of an acting agent must have been served
            if(act) {
                for(auto i = undelivered.begin(); i != undelivered.end();) {
                    if(i->to == id && i->received <= now.lower) {
                        for(auto &h : a->handlers) if(h.type == i->type) {
                            vmon::check(*c, {"C01", "C02"}, handled[{i->uid, h.number}] == 1, "message-not-handled-once",
                                        "message ", i->uid, " (sent at ", i->at, " for ", i->received, ") to ", id, ": handler ", h.number, " ran ", handled[{i->uid, h.number}], " times at ", now.lower);
                        }
                        vmon::event("delivered");
                        i = undelivered.erase(i);
                    } else ++i;
                }
            }
        }
        // who acted must be who was due
        for(auto &[id, t] : due) {
            if(born.count(id)) continue;      // created in this very round: acts in the next
            if(t <= now.lower) {
                vmon::check(*c, {"C03", "C09", "C01"}, acted.count(id), "due-agent-did-not-act", "agent ", id, " due at ", t, " did not act in round ", round, " of the step at ", now.lower);
            } else {
                vmon::check(*c, {"C03"}, !acted.count(id), "agent-acted-when-not-due", "agent ", id, " due at ", t, " acted in round ", round, " of the step at ", now.lower);
            }
        }
        for(auto &id : acted) {
            vmon::check(*c, "C09", due.count(id) || (gone.count(id) && agents_gone_this_round.count(id)), "absent-agent-acted", "agent ", id, " acted although it is not present, at ", now.lower);
        }
        std::vector<identity<agent>> v(acted.begin(), acted.end());
        if(!steps.empty()) steps.back().rounds.push_back(v);
        vmon::distinct(vmon::hash_combine(vmon::hash_combine(now.lower, round), acted.size()));
        // the next wake-up of those that acted
        for(auto &id : acted) {
            if(!due.count(id)) continue;
            auto t = std::min(wants[id], now.upper);
            if(wants[id] < now.upper) t = wants[id];
            for(auto &m : undelivered) if(m.to == id && m.received > now.lower) t = std::min(t, m.received);
            due[id] = t;
        }
    }
    std::set<identity<agent>> agents_gone_this_round;

    void handle_seen(scripted &a, const entry &e)
    {
        identity<agent> id = a.identifier;
        auto it = book.find(e.a);
        if(!vmon::check(*c, {"C01"}, it != book.end(), "handled-unsent-message", "agent ", id, " handled message ", e.a, " that nobody sent")) return;
        auto &m = it->second;
        vmon::check(*c, {"C01"}, m.to == id, "wrong-recipient", "message ", m.uid, " for ", m.to, " handled by ", id);
        vmon::check(*c, {"C01"}, e.t >= m.received, "handled-early", "message ", m.uid, " for time ", m.received, " handled at ", e.t);
        vmon::check(*c, {"C01", "C03"}, e.t == std::max(m.received, m.at), "handled-late", "message ", m.uid, " sent at ", m.at, " for time ", m.received, " handled at ", e.t);
        u64 n = ++handled[{e.a, e.b}];
        vmon::check(*c, {"C01", "C02"}, n == 1, "handled-twice", "message ", m.uid, " reached handler ", e.b, " of ", id, " ", n, " times");
        bool right = false;
        for(auto &h : a.handlers) right |= (h.number == e.b && h.type == m.type);
        vmon::check(*c, {"C02"}, right, "wrong-handler", "message ", m.uid, " of type ", m.type, " reached handler ", e.b, " of another type");
    }

    void check_service_order(scripted &a, const std::vector<std::tuple<u64, u64, int>> &served)
    {
        // handlers of one message run consecutively by descending priority,
        // messages by descending highest priority
        std::vector<int> tops; std::set<u64> closed;
        for(size_t k = 0; k < served.size();) {
            u64 uid = std::get<0>(served[k]);
            vmon::check(*c, "C02", closed.insert(uid).second, "message-interleaved", "handlers of message ", uid, " are interleaved with another message");
            int last = 1000, top = -1000;
            for(; k < served.size() && std::get<0>(served[k]) == uid; ++k) {
                int p = std::get<2>(served[k]);
                vmon::check(*c, "C02", p <= last, "handler-priority-order", "handler of priority ", p, " after ", last, " for message ", uid);
                last = p; top = std::max(top, p);
            }
            tops.push_back(top);
        }
        for(size_t k = 1; k < tops.size(); ++k)
            vmon::check(*c, "C02", tops[k] <= tops[k - 1], "message-priority-order", "message of priority ", tops[k], " served after ", tops[k - 1], " by ", a.identifier);
    }

    // gather what is in the outboxes
    size_t collect()
    {
        size_t n = 0;
        for(auto &a : all) {
            identity<agent> id = a->identifier;
            bool present = agents.local_agents_.count(id);
            if(!present) { a->sent.clear(); continue; }
            vmon::check(*c, "C01", a->outbox.size() == a->sent.size(), "outbox-differs", "agent ", id, " queued ", a->sent.size(), " messages, its outbox has ", a->outbox.size());
            for(size_t k = 0; k < a->sent.size(); ++k) {
                auto &s = a->sent[k];
                pending_message p{s.uid, s.type, s.to, s.at, s.received};
                undelivered.push_back(p);
                book[s.uid] = p;
                ++n;
                if(k < a->outbox.size()) {
                    auto &h = a->outbox[k];
                    vmon::check(*c, "C01", uid_any(h) == s.uid && h->recipient == s.to && h->received == s.received && h->sent == s.at && h->sender == s.from && h->type == u64(0x50 + s.type),
                                "message-fields", "message ", s.uid, " has other fields in the outbox than it was made with");
                }
            }
            a->sent.clear();
        }
        return n;
    }
    void delivered_to_inboxes(size_t n, size_t reported)
    {
        vmon::check(*c, "C01", n == reported, "sent-count", "sent ", n, " messages, ", reported, " reported");
        sent_count += n;
        vmon::event("sent", n);
        std::map<u64, int> seen; size_t inboxed = 0;
        for(auto &[id, a] : agents.local_agents_) {
            vmon::check(*c, "C01", a->outbox.empty(), "outbox-not-empty", "outbox of ", id, " not empty after sending");
            for(auto &[t, m] : a->inbox) {
                ++inboxed;
                vmon::check(*c, "C01", m->recipient == id, "inbox-of-other", "message for ", m->recipient, " in the inbox of ", id);
                vmon::check(*c, "C01", t == m->received, "inbox-time", "message for time ", m->received, " filed under ", t);
                ++seen[uid_any(m)];
            }
        }
        for(auto &m : undelivered) {
            if(!agents.local_agents_.count(m.to)) continue;
            vmon::check(*c, "C01", seen[m.uid] == 1, "inbox-count", "message ", m.uid, " (for ", m.received, ") is ", seen[m.uid], " times in inboxes after the round at ", now.lower);
            if(due.count(m.to)) due[m.to] = std::min(due[m.to], std::max(m.received, now.lower));
        }
        vmon::check(*c, "C01", inboxed == undelivered.size() || !gone.empty(), "inbox-total", "inboxes hold ", inboxed, " messages, expected ", undelivered.size());
    }

    void present_new()
    {
        for(auto &[id, a] : agents.local_agents_) {
            (void) a;
            if(!due.count(id)) { due[id] = now.lower; born.insert(id); }
        }
        for(auto i = due.begin(); i != due.end();) {
            if(!agents.local_agents_.count(i->first)) { gone.insert(i->first); agents_gone_this_round.insert(i->first); i = due.erase(i); }
            else ++i;
        }
    }

    time_point step(time_interval s) override
    {
        now = s; round = 0; agents_gone_this_round.clear();
        steps.push_back({s, 0, {}});
        // at the start of a step every agent that never acted is due now
        for(auto &[id, a] : agents.local_agents_) { (void) a; if(!due.count(id)) due[id] = s.lower; }
        present_new();
        agents_gone_this_round.clear(); born.clear();
        begin_round();
        inside = true;
        time_point next = simulation::model::step(s);
        inside = false;
        steps.back().next = next;
        time_point expected = end;
        for(auto &[id, t] : due) expected = std::min(expected, t);
        vmon::check(*c, "C03", next == expected, "wrong-next-time", "step at ", s.lower, " returned ", next, ", expected ", expected);
        vmon::check(*c, {"C03"}, next > s.lower, "time-does-not-advance", "step at ", s.lower, " returned ", next);
        vmon::check(*c, {"C03"}, expected > s.lower, "due-agents-left", "the step at ", s.lower, " ended although somebody is due at ", expected);
        vmon::event("steps");
        return next;
    }
};

size_t monitored_environment::activate()
{
    auto n = activations; activations = 0;
    auto k = computation::environment::activate();
    activations = 0;
    if(home) vmon::check(*home->c, "C09", k == n, "activation-count", "queued ", n, " activations, counted ", k);
    vmon::event("activated", n);
    return k;
}
size_t monitored_environment::deactivate()
{
    auto n = deactivations; deactivations = 0;
    auto k = computation::environment::deactivate();
    deactivations = 0;
    if(home) vmon::check(*home->c, "C09", k == n, "deactivation-count", "queued ", n, " deactivations, counted ", k);
    vmon::event("deactivated", n);
    return k;
}
size_t monitored_environment::send_messages(simulation::model &m)
{
    if(!home) return computation::environment::send_messages(m);
    home->present_new();
    home->end_round();
    home->agents_gone_this_round.clear();
    home->born.clear();
    size_t n = home->collect();
    size_t k = computation::environment::send_messages(m);
    home->delivered_to_inboxes(n, k);
    ++home->round; ++home->total_rounds;
    vmon::event("rounds");
    home->begin_round();
    return k;
}

static script_config make_config(vmon::ctx &c, u64 max_agents = 8)
{
    script_config g{};
    g.seed = c.r.next();
    g.agents = 1 + c.r.below(max_agents);
    g.start = c.r.chance(0.5) ? 0 : c.r.below(100);
    if(c.r.chance(0.1)) g.start = (1ull << 33) + c.r.below(100);
    g.end = g.start + 1 + c.r.below(c.r.chance(0.3) ? 5 : 60);
    g.p_message = c.r.pick({0.0, 0.2, 0.5, 0.7});
    g.p_past = c.r.pick({0.0, 0.0, 0.1, 0.3});
    g.p_far = c.r.pick({0.0, 0.2, 0.5});
    g.p_same_round = c.r.pick({0.0, 0.1, 0.4});
    g.p_idle = c.r.pick({0.0, 0.2, 0.7, 0.95});
    g.p_io = 0.2;
    g.outputs = false;
    return g;
}

struct outcome {
    std::vector<std::vector<entry>> traces;
    std::vector<std::tuple<time_point, time_point>> steps;
    std::vector<std::vector<std::tuple<time_point, u64>>> outputs;
    size_t messages_sent;
};

static simulation::parameter::parametrization parameters(u64 sample, time_point start, time_point end, u64 threads)
{
    simulation::parameter::parametrization p(sample, start, end, 0, unsigned(threads));
    p.values["threads"] = std::make_shared<simulation::parameter::constant<std::uint64_t>>(threads);
    return p;
}

static void silence(bool on)
{
    static std::ostringstream sink; static std::streambuf *cout_ = std::cout.rdbuf();
    if(on) { sink.str(""); std::cout.rdbuf(sink.rdbuf()); } else std::cout.rdbuf(cout_);
}

static outcome run_once(vmon::ctx &c, const script_config &g, u64 sample, u64 threads, bool step_by_hand = false)
{
    monitored_environment e;
    monitored_model m(&c, e, parameters(sample, g.start, g.end, threads));
    m.cfg = g; m.cfg.ids = &m.ids;
    for(size_t k = 0; k < g.agents; ++k) { auto a = m.add(); m.ids.push_back(a->identifier); }
    silence(true);
    try {
        if(step_by_hand) {
            time_point t = g.start;
            while(t < g.end) t = m.step({t, g.end});
            m.initialised = m.terminated = 1;
        } else e.run(m);
    } catch(...) { silence(false); throw; }
    silence(false);
    vmon::check(c, "C03", m.initialised == 1, "initialise-count", "initialised ", m.initialised, " times");
    vmon::check(c, "C03", m.terminated == 1, "terminate-count", "terminated ", m.terminated, " times");
    time_point last = g.start; bool first = true;
    for(auto &s : m.steps) {
        vmon::check(c, "C03", s.step.lower == last && (first || true), "visits", "step starts at ", s.step.lower, ", previous step returned ", last);
        vmon::check(c, "C03", s.step.upper == g.end, "visits-end", "step ends at ", s.step.upper);
        last = s.next; first = false;
    }
    vmon::check(c, "C03", !m.steps.empty() && last >= g.end, "stopped-early", "last step returned ", last, " before ", g.end);
    vmon::check(c, "C01", m.messages_sent == m.sent_count, "messages-sent-total", "model counts ", m.messages_sent, " messages, ", m.sent_count, " were sent");
    for(auto &p : m.undelivered) vmon::check(c, {"C01"}, p.received >= g.end, "never-delivered", "message ", p.uid, " for ", p.received, " never handled before ", g.end);
    outcome o;
    for(auto &a : m.all) {
        o.traces.push_back(a->diary);
        if(a->out) { o.outputs.push_back(a->out->values);
            size_t acts = 0; for(auto &t : a->diary) acts += t.kind == 'A';
            vmon::check(c, {"C04", "C05"}, acts == a->out->values.size(), "output-count", "output has ", a->out->values.size(), " values for ", acts, " acts"); }
    }
    for(auto &s : m.steps) o.steps.push_back({s.step.lower, s.next});
    o.messages_sent = m.messages_sent;
    u64 h = 0;
    for(auto &t : o.traces) for(auto &x : t) h = vmon::hash_combine(h, vmon::hash_combine(x.t, x.a + x.kind));
    if(m.total_rounds > 1) c.touch(h);
    c.note("agents=", g.agents, " [", g.start, ",", g.end, ") threads=", threads, " steps=", m.steps.size(), " rounds=", m.total_rounds, " messages=", m.messages_sent);
    return o;
}

static void describe(vmon::ctx &c, const script_config &g)
{
    c.note("config seed=", g.seed, " agents=", g.agents, " start=", g.start, " end=", g.end, " p_message=", g.p_message, " p_past=", g.p_past,
           " p_far=", g.p_far, " p_same=", g.p_same_round, " p_idle=", g.p_idle);
}

REQUIRE_EVENT("C01", "delivered");
REQUIRE_EVENT("C02", "handled");
REQUIRE_EVENT("C03", "steps");

SECTION(run_model, ({"C01", "C02", "C03"}), 500, 20000)
{
    auto g = make_config(c);
    if(c.r.chance(0.03)) {                      // a crowd
        g.agents = 40 + c.r.below(200); g.end = g.start + 1 + c.r.below(4); vmon::event("crowds");
    } else if(c.r.chance(0.03)) {               // many messages at a time between few agents
        g.agents = 1 + c.r.below(4); g.cap = 200 + c.r.below(1500); g.p_message = 0.999; g.end = g.start + 1 + c.r.below(3); vmon::event("bursts");
    }
    describe(c, g);
    run_once(c, g, c.r.below(3), 1, c.r.chance(0.3));
}

static bool same_outcome(vmon::ctx &c, const outcome &a, const outcome &b, const std::string &what)
{
    bool ok = vmon::check(c, "C04", a.steps == b.steps, "steps-differ:" + what, "visited times differ: ", what);
    ok &= vmon::check(c, "C04", a.messages_sent == b.messages_sent, "messages-differ:" + what, "message counts differ: ", what);
    for(size_t i = 0; i < a.traces.size() && i < b.traces.size(); ++i) {
        bool eq = a.traces[i] == b.traces[i];
        std::ostringstream o;
        if(!eq) for(size_t k = 0; k < std::min(a.traces[i].size(), b.traces[i].size()); ++k) if(!(a.traces[i][k] == b.traces[i][k])) { o << a.traces[i][k] << " vs " << b.traces[i][k]; break; }
        ok &= vmon::check(c, "C04", eq, "trace-differs:" + what, "agent ", i, " behaves differently: ", what, " ", o.str());
    }
    ok &= vmon::check(c, "C04", a.outputs == b.outputs, "outputs-differ:" + what, "outputs differ: ", what);
    return ok;
}

SECTION(reproducible, ({"C04", "C05"}), 50, 4000)
{
    auto g = make_config(c, c.r.chance(0.2) ? 40 : 12);
    g.outputs = c.r.chance(0.7);
    describe(c, g);
    u64 sample = c.r.below(5);
    auto a = run_once(c, g, sample, 1);
    auto b = run_once(c, g, sample, 1);
    same_outcome(c, a, b, "repeated");
    for(u64 threads : {u64(2), u64(3), 4 + c.r.below(13)}) {
        auto d = run_once(c, g, sample, threads);
        same_outcome(c, a, d, "threads");
        vmon::event("parallel_runs");
    }
    // another sample: every seed differs
    auto o = run_once(c, g, sample + 1 + c.r.below(3), 1);
    std::set<u64> s1;
    for(auto &t : a.traces) for(auto &e : t) s1.insert(e.seed[0] ^ vmon::mix(e.seed[1]));
    for(auto &t : o.traces) for(auto &e : t) vmon::check(c, "C04", !s1.count(e.seed[0] ^ vmon::mix(e.seed[1])), "seed-same-for-other-sample", "a seed of one sample is used in another sample too");
    vmon::event("sample_pairs");
}
REQUIRE_EVENT("C04", "parallel_runs");
REQUIRE_EVENT("C05", "parallel_runs");

// the seed given to an agent, as a function of identity, time, round, sample
struct probe : agent {
    std::vector<std::array<u64, 4>> seeds; unsigned rounds;
    probe(const identity<agent> &i, unsigned rounds) : agent(i), rounds(rounds) {}
    time_point act(time_interval s, std::seed_seq &q) override
    {
        std::array<u64, 4> w; seed_words(q, w.data()); seeds.push_back(w);
        return seeds.size() < rounds ? s.lower : s.upper;
    }
};
static std::map<std::array<u64, 2>, std::vector<std::array<u64, 4>>> probe_seeds(time_point t, u64 sample, unsigned rounds, size_t n, size_t depth)
{
    computation::environment e;
    simulation::model m(e, parameters(sample, t, t + 10, 1));
    std::vector<std::shared_ptr<probe>> v;
    for(size_t k = 0; k < n; ++k) v.push_back(m.create<probe>(m.world, rounds));
    // nested identities
    for(size_t k = 0; k < depth; ++k) v.push_back(m.create<probe>(*v[k % v.size()], rounds));
    m.step({t, t + 10});
    std::map<std::array<u64, 2>, std::vector<std::array<u64, 4>>> r;
    for(size_t k = 0; k < v.size(); ++k) r[{k, 0}] = v[k]->seeds;
    return r;
}
SECTION(seeds, ({"C04"}), 60, 2000)
{
    time_point t = c.r.magnitude(31); u64 s = c.r.magnitude(31);
    unsigned rounds = 1 + unsigned(c.r.below(4)); size_t n = 1 + c.r.below(12), depth = c.r.below(12);
    c.note("time ", t, " sample ", s, " rounds ", rounds, " agents ", n, "+", depth);
    std::map<std::array<u64, 4>, std::string> seen;
    auto add = [&](time_point t, u64 s) {
        auto r = probe_seeds(t, s, rounds, n, depth), q = probe_seeds(t, s, rounds, n, depth);
        vmon::check(c, "C04", r == q, "seed-not-a-function", "the same identity, time, round and sample gave different seeds");
        for(auto &[k, v] : r) {
            vmon::check(c, {"C04"}, v.size() == rounds, "probe-rounds", "probe acted ", v.size(), " times");
            for(size_t i = 0; i < v.size(); ++i) {
                std::ostringstream o; o << "agent " << k[0] << " time " << t << " round " << i << " sample " << s;
                auto it = seen.emplace(v[i], o.str());
                vmon::check(c, "C04", it.second, "seed-collision", o.str(), " has the seed of ", it.first->second);
                vmon::event("seeds");
            }
        }
    };
    add(t, s); add(t + 1, s); add(t, s + 1); add(t + 1 + c.r.below(1000), s + 1 + c.r.below(1000));
    if(t != s) add(s, t);
    c.touch(vmon::hash_combine(t, s));
}
// The seed must not depend on what happened before: the same agents are run to
// a common time along two different histories (more rounds, more agents, more
// steps in one of them) and their seeds at that time compared.
struct wanderer : agent {
    std::map<time_point, unsigned> plan; unsigned left = 0; time_point at = 0; bool begun = false;
    std::map<std::array<u64, 2>, std::vector<std::array<u64, 4>>> seeds;
    explicit wanderer(const identity<agent> &i) : agent(i) {}
    time_point act(time_interval s, std::seed_seq &q) override
    {
        if(!begun || s.lower != at) { begun = true; at = s.lower; auto p = plan.find(at); left = p == plan.end() ? 1 : p->second; }
        std::array<u64, 4> v; q.generate(v.begin(), v.end());
        seeds[{s.lower, 0}].push_back(v);
        if(--left) return s.lower;
        auto n = plan.upper_bound(s.lower);
        return n == plan.end() ? s.upper : std::min<time_point>(n->first, s.upper);
    }
};
SECTION(seeds_history, ({"C04"}), 60, 2000)
{
    time_point common = 20 + c.r.below(100000); u64 s = c.r.magnitude(31);
    size_t n = 1 + c.r.below(6); unsigned rounds = 1 + unsigned(c.r.below(4));
    c.note("common time ", common, " sample ", s, " agents ", n, " rounds ", rounds);
    std::vector<std::vector<std::vector<std::array<u64, 4>>>> per_run;
    for(int run = 0; run < 3; ++run) {
        computation::environment e;
        bool by_hand = c.r.chance(0.3); time_point start = c.r.below(common);
        if(run == 0) start = common;
        simulation::model m(e, parameters(s, start, common + 5, 1 + c.r.below(3)));
        std::vector<std::shared_ptr<wanderer>> v;
        for(size_t k = 0; k < n + (run ? c.r.below(5) : 0); ++k) v.push_back(m.create<wanderer>(m.world));
        for(auto &w : v) {
            // every agent asks for the same times, with different numbers of rounds
            w->plan[start] = 1 + unsigned(c.r.below(5));
            for(u64 k = c.r.below(6); run && k; --k) { auto t = start + c.r.below(common - start + 1); w->plan[t] = 1 + unsigned(c.r.below(5)); }
            w->plan[common] = rounds;
        }
        silence(true);
        try { if(by_hand) { time_point t = start; while(t < common + 5) t = m.step({t, common + 5}); } else e.run(m); }
        catch(...) { silence(false); throw; }
        silence(false);
        per_run.emplace_back();
        for(size_t k = 0; k < n; ++k) {
            auto &q = v[k]->seeds[{common, 0}];
            vmon::check(c, "C04", q.size() == rounds, "history-rounds", "agent acted ", q.size(), " rounds instead of ", rounds, " at ", common);
            per_run.back().push_back(q);
            vmon::event("seeds compared across histories", q.size());
        }
        c.touch(vmon::hash_combine(start, v.size()));
    }
    vmon::check(c, "C04", per_run[0] == per_run[1] && per_run[0] == per_run[2], "seed-depends-on-history",
                "seeds at time ", common, " differ with the steps, rounds and agents before it");
}
REQUIRE_EVENT("C04", "seeds compared across histories");
SECTION(empty_model, ({"C03"}), 10, 100)
{
    time_point a = c.r.below(1000), b = a + 1 + c.r.below(1000); u64 th = 1 + c.r.below(4);
    monitored_environment e;
    monitored_model m(&c, e, parameters(1, a, b, th));
    c.note("no agents, [", a, ",", b, ") threads ", th);
    silence(true);
    try { e.run(m); } catch(...) { silence(false); throw; }
    silence(false);
    vmon::check(c, "C03", m.initialised == 1 && m.terminated == 1, "empty-model", "initialised ", m.initialised, " times and terminated ", m.terminated, " times");
    vmon::check(c, "C03", m.steps.size() == 1 && m.steps[0].next == b, "empty-model-steps", m.steps.size(), " steps");
    c.touch(vmon::hash_combine(a, b));
}
SECTION(seeds_high_bits, ({"C04"}), 1, 1)
{
    auto a = probe_seeds(7, 3, 1, 1, 0), b = probe_seeds(7 + (1ull << 32), 3, 1, 1, 0), d = probe_seeds(7, 3 + (1ull << 32), 1, 1, 0);
    vmon::check(c, "C04", a != b, "seed-ignores-high-bits-of-time", "times 7 and 7+2^32 give the same seed");
    vmon::check(c, "C04", a != d, "seed-ignores-high-bits-of-sample", "samples 3 and 3+2^32 give the same seed");
    c.touch(1);
}

// ---------------------------------------------------------------- C01 errors
struct shooter : agent {
    identity<agent> target; bool by_hand;
    shooter(const identity<agent> &i, identity<agent> t, bool h) : agent(i), target(t), by_hand(h) {}
    time_point act(time_interval s, std::seed_seq &) override
    {
        if(by_hand) send_message(std::make_shared<m1>(identifier, target, s.lower, s.lower + 1, 1, 0));
        else create_message<m1>(target, s.lower + 1, identifier, target, s.lower, s.lower + 1, u64(1), 0);
        return s.upper;
    }
};
SECTION(unknown_recipient, ({"C01", "C09"}), 40, 400)
{
    computation::environment e;
    simulation::model m(e, parameters(0, 0, 10, c.r.chance(0.5) ? 1 : 3));
    std::vector<identity<agent>> known;
    size_t n = 1 + c.r.below(5);
    for(size_t k = 0; k < n; ++k) known.push_back(m.create<probe>(m.world, 1u)->identifier);
    identity<agent> ghost;
    switch(c.r.below(4)) {
    case 0: ghost = identity<agent>({c.r.next()}); break;
    case 1: ghost = identity<agent>({known[0].digits[0], 5}); break;
    case 2: ghost = identity<agent>({n + 100, 1}); break;
    default: { auto a = m.create<probe>(m.world, 1u); ghost = a->identifier; m.agents.deactivate(a); }
    }
    m.create<shooter>(m.world, ghost, bool(c.r.below(2)));
    c.note("ghost ", ghost, " among ", n);
    bool thrown = false;
    try { m.step({0, 10}); } catch(const std::exception &) { thrown = true; }
    vmon::check(c, "C01", thrown, "unknown-recipient-accepted", "a message to the absent agent ", ghost, " was not reported");
    vmon::check(c, "C09", m.agents.local_agents_.count(ghost) == 0, "ghost-present", "sending made the agent present");
    for(auto &[i, a] : m.agents.local_agents_) vmon::check(c, "C01", a && a->inbox.empty(), "stray-inbox", "somebody else received the message for a ghost");
    vmon::event("ghosts");
    c.touch(vmon::hash_combine(n, ghost.digits[0]));
}

// same message object sent to the same or several recipients
struct receiver : agent {
    std::vector<std::pair<time_point, const void *>> got;
    explicit receiver(const identity<agent> &i) : agent(i)
    {
        auto f = [this](std::shared_ptr<m1> m, time_interval s, std::seed_seq &) { got.push_back({s.lower, m.get()}); return s.upper; };
        ESL_REGISTER_CALLBACK(m1, 0, f, "");
    }
};
SECTION(hand_delivery, ({"C01"}), 60, 1000)
{
    computation::environment e;
    u64 threads = 1 + c.r.below(4);
    simulation::model m(e, parameters(0, 0, 50, threads));
    size_t n = 2 + c.r.below(4);
    std::vector<std::shared_ptr<receiver>> v;
    for(size_t k = 0; k < n; ++k) v.push_back(m.create<receiver>());
    std::map<size_t, std::multimap<time_point, const void *>> expect;
    size_t sent = 0, rounds = 1 + c.r.below(4);
    time_point t = 0;
    std::vector<std::shared_ptr<m1>> keep;
    for(size_t q = 0; q < rounds && t < 50; ++q) {
        for(size_t k = 0; k < n; ++k) {
            size_t w = c.r.below(5);
            for(size_t i = 0; i < w; ++i) {
                size_t to = c.r.below(n);
                time_point d = t + c.r.below(8);
                auto x = std::make_shared<m1>(v[k]->identifier, v[to]->identifier, t, d, 1, 0);
                keep.push_back(x);
                size_t copies = 1 + (c.r.chance(0.2) ? c.r.below(3) : 0);
                for(size_t j = 0; j < copies; ++j) { v[k]->send_message(x); expect[to].insert({std::max(d, t), x.get()}); ++sent; }
            }
        }
        t = m.step({t, 50});
    }
    while(t < 50) t = m.step({t, 50});
    for(size_t k = 0; k < n; ++k) {
        std::multimap<time_point, const void *> g;
        for(auto &[a, b] : v[k]->got) g.insert({a, b});
        std::multiset<std::pair<time_point, const void *>> A(g.begin(), g.end()), B(expect[k].begin(), expect[k].end());
        vmon::check(c, "C01", A == B, "hand-delivery", "receiver ", k, " got ", A.size(), " messages, expected ", B.size(), " (or at other times)");
        vmon::event("delivered", A.size());
    }
    vmon::check(c, "C01", m.messages_sent == sent, "hand-delivery-count", "model counts ", m.messages_sent, " messages sent, ", sent, " were");
    c.note(n, " receivers, ", sent, " messages, ", threads, " threads");
    c.touch(vmon::hash_combine(sent, n));
}

// ---------------------------------------------------------------- C02 directly
struct listener : agent {
    std::vector<std::tuple<u64, u64, int>> log;
    std::map<u64, time_point> returns;      // handler number -> what it returns
    std::vector<std::tuple<int, int, u64>> handlers;
    u64 n = 0;
    explicit listener(const identity<agent> &i = identity<agent>({1})) : agent(i) {}
    template<typename M> void add(int type, int p, time_point ret)
    {
        u64 k = n++; returns[k] = ret; handlers.push_back({type, p, k});
        this->register_callback<M>([this, k, p, ret](std::shared_ptr<M> m, time_interval s, std::seed_seq &) {
            log.push_back({m ? m->uid : 0, k, p}); return std::min(std::max(ret, s.lower), s.upper); }, p);
    }
};
SECTION(callbacks, ({"C02"}), 1500, 40000)
{
    auto make = [&](vmon::rng r, bool random, u64 seedbase, std::vector<std::tuple<u64, u64, int>> &log, time_point &got, time_point &want,
                    std::map<u64, int> &type_of, std::map<u64, time_point> &when, std::vector<std::tuple<int, int, u64>> &handlers, time_interval step) {
        listener l;
        l.schedule = random ? interaction::communicator::random : interaction::communicator::in_order;
        int spread = int(r.pick({0, 1, 3, 127}));
        for(int type = 1; type <= 3; ++type) {
            size_t k = r.below(4);
            for(size_t i = 0; i < k; ++i) {
                int p = int(r.in(-spread - (spread == 127), spread));
                time_point ret = r.chance(0.3) ? step.upper : step.lower + r.below(step.upper - step.lower + 1);
                if(type == 1) l.add<m1>(1, p, ret); else if(type == 2) l.add<m2>(2, p, ret); else l.add<m3>(3, p, ret);
            }
        }
        size_t n = r.below(12);
        for(size_t i = 0; i < n; ++i) {
            int type = int(r.in(1, 4)); u64 uid = 1 + i;
            time_point d = r.chance(0.2) ? step.lower + 1 + r.below(5) : step.lower - std::min<u64>(step.lower, r.below(3));
            type_of[uid] = type; when[uid] = d;
            std::shared_ptr<interaction::header> m;
            identity<agent> a({9}), b({1});
            if(type == 1) m = std::make_shared<m1>(a, b, 0, d, uid, 0); else if(type == 2) m = std::make_shared<m2>(a, b, 0, d, uid, 0);
            else if(type == 3) m = std::make_shared<m3>(a, b, 0, d, uid, 0); else m = std::make_shared<m4>(a, b, 0, d, uid, 0);
            l.inbox.insert({d, m});
        }
        std::seed_seq q{u64(seedbase), u64(2), u64(3)};
        got = l.process_messages(step, q);
        log = l.log; handlers = l.handlers;
        want = step.upper;
        for(auto &[uid, type] : type_of) if(when[uid] <= step.lower) for(auto &[t, p, k] : handlers) if(t == type) want = std::min(want, std::max(l.returns[k], step.lower));
    };
    bool random = c.r.chance(0.5);
    u64 s = c.r.next();
    time_interval step(c.r.below(20), 0); step.upper = step.lower + 1 + c.r.below(20);
    vmon::rng base(c.r.next());
    std::vector<std::tuple<u64, u64, int>> log, log2; time_point got, want, got2, want2;
    std::map<u64, int> type_of, t2; std::map<u64, time_point> when, w2; std::vector<std::tuple<int, int, u64>> handlers, h2;
    make(base, random, s, log, got, want, type_of, when, handlers, step);
    make(base, random, s, log2, got2, want2, t2, w2, h2, step);
    vmon::check(c, "C02", log == log2, random ? "random-not-reproducible" : "order-not-reproducible", "the same inbox was processed in another order the second time");
    vmon::check(c, "C02", got == want, "wake-up-time", "process_messages returned ", got, ", earliest handler time is ", want, " in [", step.lower, ",", step.upper, ")");
    // exactly once each, right type only
    std::map<std::pair<u64, u64>, int> seen;
    for(auto &[uid, k, p] : log) ++seen[{uid, k}];
    size_t expect = 0;
    for(auto &[uid, type] : type_of) for(auto &[t, p, k] : handlers) {
        int want_n = (t == type && when[uid] <= step.lower);
        expect += want_n;
        vmon::check(c, "C02", (seen[{uid, k}]) == want_n, want_n ? "handler-not-once" : "handler-wrongly-called", "message ", uid, " of type ", type, " for ", when[uid], " reached handler ", k, " of type ", t, " ", seen[{uid, k}], " times at ", step.lower);
    }
    vmon::check(c, "C02", log.size() == expect, "handler-calls", log.size(), " handler calls, expected ", expect);
    std::vector<int> tops; std::vector<u64> order;
    for(size_t k = 0; k < log.size();) {
        u64 uid = std::get<0>(log[k]); int last = 1000, top = -1000;
        for(; k < log.size() && std::get<0>(log[k]) == uid; ++k) { int p = std::get<2>(log[k]); vmon::check(c, "C02", p <= last, "handler-priority-order", "priority ", p, " after ", last); last = p; top = std::max(top, p); }
        tops.push_back(top); order.push_back(uid);
    }
    for(size_t k = 1; k < tops.size(); ++k) vmon::check(c, "C02", tops[k] <= tops[k - 1], "message-priority-order", "message of priority ", tops[k], " after ", tops[k - 1]);
    vmon::check(c, "C02", std::set<u64>(order.begin(), order.end()).size() == order.size(), "message-interleaved", "handlers of one message are not consecutive");
    vmon::event("handled", log.size());
    if(log.size() > 1) { u64 h = random; for(auto &[a, b, p] : log) h = vmon::hash_combine(h, a * 131 + b); c.touch(h); }
    c.note(random ? "random" : "in order", " messages=", type_of.size(), " handlers=", handlers.size(), " calls=", log.size());
}
SECTION(shuffling, ({"C02"}), 20, 200)
{
    // equal priority: random scheduling permutes, in-order scheduling does not
    size_t n = 5 + c.r.below(4); std::set<std::vector<u64>> random_orders, fixed_orders;
    for(int k = 0; k < 24; ++k) for(bool random : {false, true}) {
        listener l; l.schedule = random ? interaction::communicator::random : interaction::communicator::in_order;
        l.add<m1>(1, 3, 10); l.add<m2>(2, 5, 10);
        identity<agent> a({9}), b({1});
        for(size_t i = 0; i < n; ++i) l.inbox.insert({0, std::make_shared<m1>(a, b, 0, 0, i + 1, 0)});
        l.inbox.insert({0, std::make_shared<m2>(a, b, 0, 0, 100, 0)});
        std::seed_seq q{u64(k), c.index};
        l.process_messages({0, 10}, q);
        std::vector<u64> o; for(auto &[u, h, p] : l.log) o.push_back(u);
        vmon::check(c, "C02", o.size() == n + 1 && o[0] == 100, "priority-first", "the higher priority message was not first");
        (random ? random_orders : fixed_orders).insert(o);
    }
    vmon::check(c, "C02", fixed_orders.size() == 1, "order-depends-on-seed", "in-order scheduling depends on the seed");
    vmon::check(c, "C02", random_orders.size() > 5, "random-does-not-permute", "random scheduling gave ", random_orders.size(), " orders for 24 seeds");
    vmon::event("orders", random_orders.size());
    c.note("orders for 24 seeds: ", random_orders.size());
    c.touch(n);
}
struct late : agent {
    int thrown = 0, tried = 0;
    explicit late(const identity<agent> &i, unsigned handlers = 1) : agent(i) { for(unsigned k = 0; k < handlers; ++k) reg(); }
    void reg() { auto f = [this](std::shared_ptr<m1>, time_interval s, std::seed_seq &) { return s.upper; }; ESL_REGISTER_CALLBACK(m1, 0, f, ""); }
    void reg2() { auto f = [this](std::shared_ptr<m2>, time_interval s, std::seed_seq &) { return s.upper; }; ESL_REGISTER_CALLBACK(m2, 0, f, ""); }
    time_point act(time_interval s, std::seed_seq &) override
    {
        ++tried; try { if(tried % 2) reg2(); else reg(); } catch(const std::logic_error &) { ++thrown; }
        return s.lower + 1;
    }
};
SECTION(late_registration, ({"C02"}), 12, 60)
{
    computation::environment e;
    simulation::model m(e, parameters(0, 0, 6, 1));
    const unsigned handlers = unsigned(c.index % 4);
    auto a = c.index % 2 ? m.create<late>(m.world, handlers) : m.agents.create<late>(m.world, handlers);
    auto b = m.create<late>(*a, unsigned(c.r.below(3)));
    const auto before = a->callbacks().size();
    vmon::check(c, "C02", vmon::throws_as<std::logic_error>([&] { a->reg2(); }), "late-registration", "a handler was accepted after creation in a model");
    vmon::check(c, "C02", vmon::throws_as<std::logic_error>([&] { b->reg(); }), "late-registration", "a handler was accepted after creation in a model");
    for(time_point t = 0; t < 6;) t = m.step({t, 6});
    vmon::check(c, "C02", a->tried == a->thrown && a->tried == 6, "late-registration-in-act", a->tried - a->thrown, " handlers accepted while running");
    vmon::check(c, "C02", a->callbacks().size() == before, "late-registration-effect", "refused registration still changed the handlers");
    // outside a model it is allowed
    late x(identity<agent>({3}));
    bool ok = !vmon::throws([&] { x.reg2(); });
    vmon::check(c, "C02", ok, "early-registration", "registration refused before creation in a model");
    vmon::event("late"); c.touch(c.index % 4);
}

// ---------------------------------------------------------------- C03 refusals
struct backwards : agent {
    time_point when, back; int acted = 0;
    backwards(const identity<agent> &i, time_point w, time_point b) : agent(i), when(w), back(b) {}
    time_point act(time_interval s, std::seed_seq &) override { ++acted; if(s.lower >= when) return s.lower - std::min(s.lower, back); return std::min(when, s.upper); }
};
SECTION(refusals, ({"C03"}), 100, 1000)
{
    time_point start = c.r.below(50), end = start + 10 + c.r.below(50);
    {
        computation::environment e; simulation::model m(e, parameters(0, start, end, 1));
        auto p = m.create<probe>(m.world, 1u);
        time_point x = start + c.r.below(20);
        bool t = vmon::throws([&] { m.step({x, x}); });
        vmon::check(c, "C03", t, "empty-interval-accepted", "step over [", x, ",", x, ") accepted");
        bool t2 = vmon::throws([&] { m.step({x + 1 + c.r.below(5), x}); });
        vmon::check(c, "C03", t2, "reversed-interval-accepted", "step over a reversed interval accepted");
        vmon::check(c, "C03", p->seeds.empty(), "acted-on-refused-step", "agent acted in a refused step");
    }
    {
        computation::environment e; simulation::model m(e, parameters(0, start + 1, end, 1));
        time_point when = start + 1 + c.r.below(5), back = 1 + c.r.below(when);
        auto p = m.create<backwards>(m.world, when, back);
        bool thrown = false; time_point t = start + 1, prev = 0; int k = 0;
        try { while(t < end && k++ < 100) { prev = t; t = m.step({t, end}); } } catch(const std::exception &) { thrown = true; }
        vmon::check(c, "C03", thrown, "past-wake-up-accepted", "agent asked at ", prev, " to wake up ", back, " earlier and was not refused");
        c.note("start ", start, " when ", when, " back ", back);
        c.touch(vmon::hash_combine(when, back));
    }
    vmon::event("refusals", 3);
}
// the threads parameter must reach the model
SECTION(parameters_reach_model, ({"C03", "C29"}), 60, 600)
{
    u64 sample = c.r.next(); time_point start = c.r.magnitude(40), end = start + 1 + c.r.magnitude(40); unsigned threads = 1 + unsigned(c.r.below(30));
    u64 verbosity = c.r.below(5);
    simulation::parameter::parametrization p(sample, start, end, verbosity, threads);
    computation::environment e; simulation::model m(e, p);
    vmon::check(c, {"C03", "C29"}, m.start == start && m.end == end && m.time == start, "model-times", "model runs from ", m.start, " to ", m.end);
    vmon::check(c, {"C29"}, m.sample == sample && m.verbosity == verbosity, "model-sample", "model has sample ", m.sample, " verbosity ", m.verbosity);
    vmon::check(c, {"C29"}, p.get<std::uint64_t>("threads") == threads && m.threads == threads, "model-threads", "asked for ", threads, " threads, model uses ", m.threads);
    vmon::event("parametrizations"); c.touch(threads);
}

// ------------------------------------------- models that skip or stop in between
SECTION(partial_steps, ({"C03", "C01"}), 150, 3000)
{
    // stepping by hand over given intervals, possibly beyond the next wake-up
    auto g = make_config(c, 5);
    describe(c, g);
    monitored_environment e;
    monitored_model m(&c, e, parameters(0, g.start, g.end, 1));
    m.cfg = g; m.cfg.ids = &m.ids;
    m.cfg.p_past = 0;
    for(size_t k = 0; k < g.agents; ++k) m.ids.push_back(m.add()->identifier);
    time_point t = g.start;
    while(t < g.end) { t = m.step({t, g.end}); }
    // one more step from the end on: refused (empty)
    vmon::check(c, "C03", vmon::throws([&] { m.simulation::model::step({g.end, g.end}); }), "step-at-end", "a step over the empty interval at the end was accepted");
    c.touch(m.total_rounds);
}
// an agent whose wake-up lies before the step's start (the user stepped past it) acts at once
SECTION(step_past_wakeup, ({"C03"}), 40, 500)
{
    computation::environment e; simulation::model m(e, parameters(0, 0, 100, 1));
    struct sleeper : agent { time_point next; std::vector<time_point> at; sleeper(const identity<agent> &i, time_point n) : agent(i), next(n) {}
        time_point act(time_interval s, std::seed_seq &) override { at.push_back(s.lower); return at.size() == 1 ? next : s.upper; } };
    time_point w = 1 + c.r.below(10), jump = w + 1 + c.r.below(10);
    auto a = m.create<sleeper>(m.world, w);
    time_point n1 = m.step({0, 100});
    vmon::check(c, "C03", n1 == w, "next", "step returned ", n1, " expected ", w);
    time_point n2 = m.step({jump, 100});
    vmon::check(c, "C03", a->at == std::vector<time_point>({0, jump}), "missed-wake-up", "agent due at ", w, " did not act in the step at ", jump);
    vmon::check(c, "C03", n2 == 100, "next-after-jump", "step returned ", n2);
    c.note("wake ", w, " jump ", jump);
    vmon::event("jumps"); c.touch(vmon::hash_combine(w, jump));
}

// environment::step advances through the model
SECTION(environment_step, ({"C03", "C09"}), 40, 500)
{
    struct counter_env : computation::environment { size_t act = 0, deact = 0; size_t n_before = 0, n_after = 0;
        void before_step() override { ++n_before; } void after_step(simulation::model &m) override { ++n_after; } };
    counter_env e;
    time_point start = c.r.below(10), end = start + 1 + c.r.below(10);
    simulation::model m(e, parameters(0, start, end, 1));
    struct sleeper : agent { std::vector<time_point> at; explicit sleeper(const identity<agent> &i) : agent(i) {}
        time_point act(time_interval s, std::seed_seq &) override { at.push_back(s.lower); return s.lower + 1; } };
    size_t n = 1 + c.r.below(4); std::vector<std::shared_ptr<sleeper>> v;
    for(size_t k = 0; k < n; ++k) v.push_back(m.create<sleeper>());
    e.step(m);
    for(auto &a : v) vmon::check(c, {"C03", "C09"}, a->at == std::vector<time_point>({start}), "environment-step", "agent acted ", a->at.size(), " times in one environment step");
    vmon::check(c, "C03", e.n_before == 1 && e.n_after == 1, "before-after", "before/after step hooks ran ", e.n_before, "/", e.n_after);
    vmon::check(c, "C09", e.activate() == 0 && e.deactivate() == 0, "queues-left", "queues were not emptied by the step");
    c.touch(n); vmon::event("environment_steps");
}

// ---------------------------------------------------------------- C09
struct mortal : scripted {
    using scripted::scripted;
    mortal(const identity<agent> &i, const script_config *cfg, u64 index) : scripted(i, cfg, index) {}
};
struct god : scripted {     // creates and removes agents while the model runs
    god(const identity<agent> &i, const script_config *cfg, u64 index) : scripted(i, cfg, index) {}
    void extra(time_interval s) override;
};
struct lively_model : monitored_model {
    std::vector<std::shared_ptr<scripted>> mortals;
    std::set<identity<agent>> expected;
    u64 created = 0, removed = 0;
    using monitored_model::monitored_model;
    void verify(const char *when)
    {
        std::set<identity<agent>> local, global(agents.global_agents_.begin(), agents.global_agents_.end());
        for(auto &[i, a] : agents.local_agents_) {
            local.insert(i);
            vmon::check(*c, "C09", a && identity<agent>(a->identifier) == i, "registered-under-other-id", "agent registered under ", i, " is another one");
        }
        vmon::check(*c, "C09", local == expected, "presence", when, ": ", local.size(), " agents present, expected ", expected.size());
        vmon::check(*c, "C09", global == expected, "global-presence", when, ": ", global.size(), " agents globally, expected ", expected.size());
        for(auto &a : all) {
            identity<agent> id = a->identifier;
            if(expected.count(id)) vmon::check(*c, "C09", agents[id].get() == a.get(), "lookup", "looking up ", id, " gives another agent");
        }
        size_t n = agents.local_agents_.size();
        auto ghost = agents[identity<agent>({12345678, 9})];
        vmon::check(*c, "C09", ghost == nullptr && agents.local_agents_.size() == n, "lookup-creates", "looking up an absent agent changes the collection");
        if(agents.local_agents_.size() != n) agents.local_agents_.erase(identity<agent>({12345678, 9}));
    }
};
void god::extra(time_interval s)
{
    auto *m = reinterpret_cast<lively_model *>(home);
    double x = r.real();
    if(x < 0.35 && m->all.size() < 40) {
        std::shared_ptr<scripted> a;
        if(r.chance(0.5)) { a = m->add<mortal>(); m->mortals.push_back(a); }
        else { a = m->add<scripted>(); m->ids.push_back(a->identifier); }
        m->expected.insert(a->identifier); ++m->created;
        vmon::event("created");
        if(r.chance(0.5)) {   // talk to the newborn at once
            u64 uid = (index + 1) * 1000000 + (++counter); identity<agent> me = identifier, to = a->identifier; time_point d = s.lower + r.below(4);
            create_message<m2>(to, d, me, to, s.lower, d, uid, 0);
            sent.push_back({uid, 2, me, to, s.lower, d});
        }
    } else if(x < 0.7 && !m->mortals.empty()) {
        // nobody may have a message on the way to it
        auto k = r.below(m->mortals.size());
        auto victim = m->mortals[k];
        for(auto &p : m->undelivered) if(p.to == identity<agent>(victim->identifier)) return;
        for(auto &p : sent) if(p.to == identity<agent>(victim->identifier)) return;
        m->mortals.erase(m->mortals.begin() + k);
        m->agents.deactivate(victim);
        m->expected.erase(victim->identifier); ++m->removed;
        victim->dead = true;
        vmon::event("removed");
    }
    if(r.chance(0.3)) m->verify("while acting");
}
SECTION(population, ({"C09", "C03", "C01"}), 200, 8000)
{
    auto g = make_config(c, 5);
    g.p_idle = std::min(g.p_idle, 0.7);
    describe(c, g);
    monitored_environment e;
    lively_model m(&c, e, parameters(0, g.start, g.end, 1));
    m.cfg = g; m.cfg.ids = &m.ids;
    for(size_t k = 0; k < g.agents; ++k) { auto a = m.add(); m.ids.push_back(a->identifier); m.expected.insert(a->identifier); }
    for(size_t k = c.r.below(4); k-- > 0;) { auto a = m.add<mortal>(); m.mortals.push_back(a); m.expected.insert(a->identifier); }
    { auto a = m.add<god>(); m.expected.insert(a->identifier); m.ids.push_back(a->identifier); }
    m.verify("after creation");
    bool run = c.r.chance(0.6);
    silence(true);
    try {
        if(run) e.run(m);
        else for(time_point t = g.start; t < g.end;) {
            if(c.r.chance(0.2) && !m.mortals.empty()) {      // remove between steps
                auto v = m.mortals.back();
                m.mortals.pop_back(); m.agents.deactivate(v); m.expected.erase(v->identifier); v->dead = true; ++m.removed;
                vmon::event("removed");
            }
            t = m.step({t, g.end}); m.verify("after step"); e.activate(); e.deactivate();
        }
    } catch(...) { silence(false); throw; }
    silence(false);
    m.verify("at the end");
    // ids are distinct
    std::set<identity<agent>> s; for(auto &a : m.all) s.insert(a->identifier);
    vmon::check(c, {"C09", "C08"}, s.size() == m.all.size(), "duplicate-identifier", "two agents have the same identifier");
    // every present agent took part
    for(auto &a : m.all) if(m.expected.count(a->identifier)) vmon::check(c, "C09", !a->diary.empty(), "never-acted", "agent ", a->identifier, " never acted; due ", m.due.count(a->identifier) ? m.due[a->identifier] : 0, " last step ", m.steps.back().step.lower, " returned ", m.steps.back().next);
    c.note("created ", m.created, " removed ", m.removed, " steps ", m.steps.size());
    c.touch(vmon::hash_combine(vmon::hash_combine(m.created, m.removed), m.total_rounds));
}
REQUIRE_EVENT("C09", "created");
REQUIRE_EVENT("C09", "removed");

SECTION(queues, ({"C09"}), 100, 1000)
{
    // activation and deactivation queues are counted once
    computation::environment e; simulation::model m(e, parameters(0, 0, 10, 1));
    std::vector<std::shared_ptr<probe>> v;
    for(int k = 0; k < 6; ++k) {
        size_t n = c.r.below(c.r.chance(.08) ? 200 : 8), d = 0;
        for(size_t i = 0; i < n; ++i) v.push_back(m.create<probe>(m.world, 1u));
        for(size_t i = c.r.below(v.size() + 1); i-- > 0;) { m.agents.deactivate(v.back()); v.pop_back(); ++d; }
        auto a = e.activate(), b = e.deactivate();
        vmon::check(c, "C09", a == n, "activation-count", "queued ", n, " activations, counted ", a);
        vmon::check(c, "C09", b == d, "deactivation-count", "queued ", d, " deactivations, counted ", b);
        vmon::check(c, "C09", e.activate() == 0 && e.deactivate() == 0, "counted-again", "the queues were counted twice");
        vmon::check(c, "C09", m.agents.local_agents_.size() == v.size() && m.agents.global_agents_.size() == v.size(), "presence", "wrong number of agents present");
        for(auto &x : v) vmon::check(c, "C09", m.agents[x->identifier] == x, "lookup", "agent is not found under its identifier");
        c.touch(vmon::hash_combine(n, d));
        vmon::event("created", n); vmon::event("removed", d);
    }
    // an agent activated again is present once
    auto x = m.create<probe>(m.world, 1u);
    m.agents.activate(x);
    vmon::check(c, "C09", m.agents.local_agents_.count(x->identifier) == 1 && m.agents.local_agents_.size() == v.size() + 1, "presence", "activating twice registers twice");
    m.agents.deactivate(x);
    vmon::check(c, "C09", m.agents.local_agents_.size() == v.size(), "presence", "agent still present after deactivation");
    m.step({0, 10});
    vmon::check(c, "C09", x->seeds.empty(), "absent-agent-acted", "a deactivated agent acted");
    for(auto &y : v) vmon::check(c, "C09", y->seeds.size() == 1, "present-agent-idle", "a present agent did not act");
}

// -------------------------------------------------------------- C05: logging
struct chatterbox : agent {
    std::vector<std::shared_ptr<chatterbox>> *others; u64 heard = 0; std::shared_ptr<data::output<u64>> out; std::ostringstream own;
    chatterbox(const identity<agent> &i, std::vector<std::shared_ptr<chatterbox>> *o, bool buffered) : agent(i), others(o)
    {
        out = create_output<u64>("x"); out->buffered = buffered;
        if(!buffered) add_output_stream("x", std::make_shared<data::stream>(own));
        auto f = [this](std::shared_ptr<m1> m, time_interval s, std::seed_seq &) { heard += m->uid; LOG(trace) << identifier << " heard " << m->uid << std::endl; return s.upper; };
        ESL_REGISTER_CALLBACK(m1, 0, f, "");
    }
    time_point act(time_interval s, std::seed_seq &q) override
    {
        std::minstd_rand g(q);
        out->put(s.lower, g());
        LOG(notice) << "agent " << identifier << " acts at " << s.lower << std::endl;
        for(size_t k = 0; k < others->size(); ++k) {
            auto x = std::make_shared<m1>(identifier, (*others)[k]->identifier, s.lower, s.lower + 1, 1, 0);
            send_message(x);
        }
        return s.lower + 1;
    }
};
SECTION(chatter, ({"C05", "C04"}), 12, 200)
{
    computation::environment e; u64 threads = 2 + c.r.below(7); size_t n = 4 + c.r.below(12);
    simulation::model m(e, parameters(0, 0, 6, threads));
    std::vector<std::shared_ptr<chatterbox>> v;
    for(size_t k = 0; k < n; ++k) v.push_back(m.create<chatterbox>(m.world, &v, bool(c.r.below(2))));
    for(auto &a : v) vmon::check(c, "C05", a->out != nullptr, "output", "no output");
    for(time_point t = 0; t < 6;) t = m.step({t, 6});
    for(auto &a : v) { vmon::check(c, {"C05", "C04"}, a->heard == 5 * n, "heard", "agent heard ", a->heard, " messages, expected ", 5 * n);
        vmon::check(c, {"C05", "C04"}, a->out->values.size() == 6, "output-values", "output has ", a->out->values.size(), " values"); }
    vmon::event("parallel_runs"); vmon::event("parallel_acts", 6 * n);
    c.note(n, " agents on ", threads, " threads");
    c.touch(vmon::hash_combine(n, threads));
}

VMON_MAIN
