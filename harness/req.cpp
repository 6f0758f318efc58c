// P03, P04: random histories of requests, replies, timeouts and timers.
#include "prop.h"
using namespace rotor;
using namespace sim;
using namespace prop;

struct res_t { int id = -1; res_t() = default; explicit res_t(int i) : id(i) {} };
struct ask_t { using response_t = res_t; int id; explicit ask_t(int i) : id(i) {} };
using ask_msg = request_traits_t<ask_t>::request::message_t;
using res_msg = request_traits_t<ask_t>::response::message_t;

struct same_sup_t : sup_t {
    using sup_t::sup_t;
    address_ptr_t make_address() noexcept override { return instantiate_address(static_cast<actor_base_t *>(parent)->address->locality); }
};
struct own_sup_t : sup_t {
    using sup_t::sup_t;
    address_ptr_t make_address() noexcept override { return instantiate_address(this); }
};
struct world_t;
static world_t *W;
struct node_t : actor_base_t {
    using actor_base_t::actor_base_t;
    int no = 0;
    sup_t *boss = nullptr;
    std::vector<intrusive_ptr_t<ask_msg>> later;
    void configure(plugin::plugin_base_t &p) noexcept override {
        actor_base_t::configure(p);
        p.with_casted<plugin::starter_plugin_t>([](auto &s) {
            s.subscribe_actor(&node_t::on_ask);
            s.subscribe_actor(&node_t::on_res);
        });
    }
    void on_ask(ask_msg &m) noexcept;
    void on_res(res_msg &m) noexcept;
    void on_timer(request_id_t id, bool cancelled) noexcept;
};
struct asked_t {
    int from, to;
    request_id_t rid = 0;
    const void *req = nullptr;
    int replies = 0, errors = 0;   // put by the responder
    int answers = 0;               // seen by the requester
    bool timer_fired = false, seen = false;
    bool own = true;
};
struct timer_info_t { int owner; int calls = 0; bool cancel = false, fired = false; };

struct world_t {
    rng_t &rng;
    ctx_t ctx;
    std::vector<intrusive_ptr_t<sup_t>> sups;
    std::vector<intrusive_ptr_t<node_t>> nodes;
    std::vector<asked_t> asked;
    std::map<std::pair<int, request_id_t>, timer_info_t> timers;
    int budget, depth = 0;
    explicit world_t(rng_t &r) : rng(r) { budget = 10 + r.below(50); }

    void build() {
        sups.push_back(ctx.create_supervisor<sup_t>().timeout(ms(100000)).finish());
        int n = rng.below(3);
        for (int i = 0; i < n; ++i) {
            auto &par = sups[rng.below((int)sups.size())];
            if (rng.chance(50)) sups.push_back(par->create_actor<own_sup_t>().timeout(ms(100000)).finish());
            else sups.push_back(par->create_actor<same_sup_t>().timeout(ms(100000)).finish());
        }
        int k = 2 + rng.below(3);
        for (int i = 0; i < k; ++i) {
            auto &s = rng.pick(sups);
            auto a = s->create_actor<node_t>().timeout(ms(100000)).finish();
            a->no = i;
            a->boss = s.get();
            nodes.push_back(a);
            note("actor %d", i);
        }
        settle();
        for (auto &nd : nodes) REQ("P03 P04", nd->state == state_t::OPERATIONAL, "an actor did not start");
        for (auto &s : sups) REQ("P03 P04", s->timers.empty() && s->request_map.empty(), "the timer of an answered request is left");
    }
    bool round() {
        bool any = false;
        for (auto &s : sups)
            if (s->locality_leader == s.get() && !s->queue.empty()) { any = true; s->do_process(); }
        return any;
    }
    void settle() { for (int i = 0; i < 1000 && round(); ++i) {} }

    void ask(int who) {
        int id = (int)asked.size();
        asked_t a;
        a.from = who;
        a.to = rng.below((int)nodes.size());
        asked.push_back(a);
        // as if the identifiers had wrapped around: the counter stands before identifiers that are still in use
        auto *l = nodes[who]->boss->locality_leader;
        int in_locality = 0;
        for (auto &s : sups) in_locality += s->locality_leader == l;
        if (in_locality == 1 && rng.chance(30))
            while (l->request_map.count(l->last_req_id) && rng.chance(85)) --l->last_req_id;
        auto rid = nodes[who]->request<ask_t>(nodes[a.to]->get_address(), id).send(ms(100 + rng.below(100)));
        asked[id].rid = rid;
        for (int i = 0; i < id; ++i)
            if (asked[i].answers == 0 && nodes[asked[i].from]->boss->locality_leader == nodes[who]->boss->locality_leader)
                REQ("P03", asked[i].rid != rid, "two pending requests of one locality have the same identifier");
        note("actor %d asks actor %d: question %d", who, a.to, id);
    }
    void answer(node_t &n, ask_msg &m, bool err) {
        auto &a = asked[m.payload.request_payload.id];
        note("  actor %d answers question %d%s", n.no, m.payload.request_payload.id, err ? " with an error" : "");
        if (err) { ++a.errors; n.reply_with_error(m, make_error("demo", make_error_code(error_code_t::request_timeout))); }
        else { ++a.replies; n.reply_to(m, m.payload.request_payload.id * 7); }
    }
    void start(int who) {
        auto id = nodes[who]->start_timer(ms(1 + rng.below(300)), *nodes[who], &node_t::on_timer);
        for (auto &p : timers) REQ("P04", !(p.first.first == who && p.second.calls == 0 && p.first.second == id), "two pending timers of an actor have the same identifier");
        timers[{who, id}] = timer_info_t{who};
        note("actor %d starts timer %d", who, (int)id);
    }
    void cancel(int who) {
        std::vector<request_id_t> v;
        for (auto &p : timers) if (p.first.first == who && p.second.calls == 0 && !p.second.fired && !p.second.cancel) v.push_back(p.first.second);
        if (v.empty()) return;
        auto id = rng.pick(v);
        note("actor %d cancels timer %d", who, (int)id);
        timers[{who, id}].cancel = true;
        nodes[who]->cancel_timer(id);
        auto &ct = timers[std::make_pair(who, id)];
        REQ("P04", ct.calls == 1, "the cancelled timer %d was not called back", (int)id);
    }
    void fire() {
        auto &s = *rng.pick(sups);
        if (s.timers.empty()) return;
        int k = rng.below((int)s.timers.size());
        auto it = s.timers.begin();
        std::advance(it, k);
        auto id = it->id;
        note("time out of timer %d", (int)id);
        int q = -1;
        std::pair<int, request_id_t> tk{-1, 0};
        for (size_t i = 0; i < asked.size(); ++i)
            if (it->handler->owner == nodes[asked[i].from]->boss && asked[i].rid == id && !asked[i].timer_fired && asked[i].answers == 0) q = (int)i;
        for (auto &p : timers) if (p.first.second == id && it->handler->owner == nodes[p.first.first].get() && p.second.calls == 0) tk = p.first;
        REQ("P03 P04", q >= 0 || tk.first >= 0, "a timer is pending that belongs to no request and no actor");
        if (q >= 0) asked[q].timer_fired = true;
        else timers[tk].fired = true;
        s.fire(id);
        if (q < 0) REQ("P04", timers[tk].calls == 1, "the timer was not called back");
    }
    void op(int who) {
        switch (rng.below(6)) {
        case 0: case 1: ask(who); break;
        case 2: start(who); break;
        case 3: cancel(who); break;
        case 4: {
            auto &n = *nodes[who];
            if (n.later.empty()) break;
            int k = rng.below((int)n.later.size());
            auto m = n.later[k];
            if (rng.chance(70)) n.later.erase(n.later.begin() + k); // otherwise answered again later
            answer(n, *m, rng.chance(30));
            break;
        }
        default: if (depth == 0) fire();
        }
    }
};
void node_t::on_ask(ask_msg &m) noexcept {
    auto &w = *W;
    int id = m.payload.request_payload.id;
    REQ("P03", id >= 0 && id < (int)w.asked.size() && w.asked[id].to == no, "question %d reached actor %d", id, no);
    auto &a = w.asked[id];
    REQ("P03 P01", !a.seen, "question %d arrived twice", id);
    a.seen = true;
    a.req = &m;
    REQ("P03", m.payload.origin == w.nodes[a.from]->get_address(), "the origin of question %d is not its requester", id);
    int c = w.rng.below(6);
    if (c < 2) w.answer(*this, m, false);
    else if (c == 2) w.answer(*this, m, true);
    else if (c == 3) { w.answer(*this, m, false); w.answer(*this, m, w.rng.chance(50)); }
    else if (c == 4) later.emplace_back(&m);
    if (w.budget > 0 && w.rng.chance(20)) { --w.budget; ++w.depth; w.op(no); --w.depth; }
}
void node_t::on_res(res_msg &m) noexcept {
    auto &w = *W;
    int id = m.payload.req->payload.request_payload.id;
    note("  actor %d gets the answer to question %d%s", no, id, m.payload.ee ? " (an error)" : "");
    auto &a = w.asked[id];
    REQ("P03", a.from == no, "the answer to question %d reached actor %d", id, no);
    REQ("P03", ++a.answers == 1, "question %d was answered twice", id);
    REQ("P03", !a.req || a.req == m.payload.req.get(), "the answer carries another request");
    if (!m.payload.ee) {
        REQ("P03", m.payload.res.id == id * 7, "question %d got the answer of another question", id);
        REQ("P03", a.replies > 0, "question %d got an answer nobody gave", id);
    } else {
        REQ("P03", a.errors > 0 || a.timer_fired, "question %d timed out though its time had not come", id);
        if (!a.errors) REQ("P03", m.payload.ee->ec == make_error_code(error_code_t::request_timeout), "question %d timed out with a strange error", id);
    }
    if (w.budget > 0 && w.rng.chance(20)) { --w.budget; ++w.depth; w.op(no); --w.depth; }
}
void node_t::on_timer(request_id_t id, bool cancelled) noexcept {
    auto &w = *W;
    note("  actor %d timer %d called back%s", no, (int)id, cancelled ? ", cancelled" : "");
    auto it = w.timers.find({no, id});
    REQ("P04", it != w.timers.end(), "a callback for a timer nobody started");
    REQ("P04", ++it->second.calls == 1, "timer %d was called back twice", (int)id);
    bool down = state >= state_t::SHUTTING_DOWN;
    REQ("P04", cancelled == (it->second.cancel || (down && !it->second.fired)), "timer %d was called back %s", (int)id, cancelled ? "as cancelled" : "as not cancelled");
    if (down && cancelled && w.rng.chance(20)) { note("    and starts another one"); w.start(no); }
    if (w.budget > 0 && !down && w.rng.chance(20)) { --w.budget; ++w.depth; w.op(no); --w.depth; }
}
static void history(rng_t &rng, long) {
    world_t w(rng);
    W = &w;
    w.build();
    while (w.budget-- > 0) {
        w.op(rng.below((int)w.nodes.size()));
        if (rng.chance(40)) w.settle(); else if (rng.chance(30)) w.round();
    }
    w.settle();
    // everything is quiet: what was answered in time was delivered, the rest is pending and has its timer
    for (size_t i = 0; i < w.asked.size(); ++i) {
        auto &a = w.asked[i];
        auto *boss = w.nodes[a.from]->boss;
        bool timer = false;
        for (auto &t : boss->timers) timer = timer || (t.id == a.rid && t.handler->owner == boss);
        REQ("P03", a.seen, "question %d was lost", (int)i);
        REQ("P03", (a.answers == 1) == (a.replies || a.errors || a.timer_fired), "question %d: %d answers", (int)i, a.answers);
        REQ("P03", a.answers ? !timer : timer, "question %d is %s but %s timer", (int)i, a.answers ? "answered" : "pending", timer ? "has a" : "has no");
        REQ("P03", (boss->request_map.count(a.rid) == 1) == (a.answers == 0), "question %d is %s", (int)i, a.answers ? "still registered" : "not registered any more");
    }
    for (auto &p : w.timers) {
        bool pending = false;
        for (auto &t : w.nodes[p.first.first]->boss->timers) pending = pending || (t.id == p.first.second && t.handler->owner == w.nodes[p.first.first].get());
        REQ("P04", pending == (p.second.calls == 0), "timer %d: %d callbacks, %s", (int)p.first.second, p.second.calls, pending ? "pending" : "not pending");
    }
    bool left = rng.chance(50);
    if (!left) // time passes until nothing is pending
        for (auto &s : w.sups)
            while (!s->timers.empty()) {
                int n = (int)s->timers.size();
                auto id = s->timers.front().id;
                for (size_t i = 0; i < w.asked.size(); ++i)
                    if (s->timers.front().handler->owner == w.nodes[w.asked[i].from]->boss && w.asked[i].rid == id && w.asked[i].answers == 0) w.asked[i].timer_fired = true;
                for (auto &p : w.timers) if (p.first.second == id && s->timers.front().handler->owner == w.nodes[p.first.first].get() && p.second.calls == 0) p.second.fired = true;
                s->fire(id);
                w.settle();
                REQ("P03 P04", (int)s->timers.size() <= n, "timers do not end");
            }
    if (!left) {
        for (size_t i = 0; i < w.asked.size(); ++i) REQ("P03", w.asked[i].answers == 1, "question %d was answered %d times", (int)i, w.asked[i].answers);
        for (auto &s : w.sups) REQ("P03", s->request_map.empty(), "a request is left");
        for (auto &n : w.nodes) REQ("P03", n->active_requests.empty(), "an actor still has a request");
    }
    for (auto &n : w.nodes) n->later.clear();
    if (left) { // an actor that still waits must not finish before its requests are over
        bool waiting = false;
        for (auto &a : w.asked) waiting = waiting || a.answers == 0;
        if (waiting) { w.sups[0]->do_shutdown(); w.settle(); for (int i = 0; i < 200; ++i) { bool any = false; for (auto &s : w.sups) for (auto &t : s->timers) { bool own = false; for (size_t q = 0; q < w.asked.size(); ++q) if (t.handler->owner == w.nodes[w.asked[q].from]->boss && w.asked[q].rid == t.id && w.asked[q].answers == 0) { w.asked[q].timer_fired = true; own = true; } if (own) { s->fire(t.id); any = true; break; } } w.settle(); if (!any) break; } }
        else { w.sups[0]->do_shutdown(); w.settle(); }
    } else { w.sups[0]->do_shutdown(); w.settle(); }
    for (auto &n : w.nodes) {
        REQ("P03 P04", n->state == state_t::SHUT_DOWN, "actor %d did not shut down", n->no);
        REQ("P04", n->timers_map.empty(), "an actor that is gone still has a timer");
    }
    for (auto &p : w.timers) REQ("P04", p.second.calls == 1, "timer %d was called back %d times", (int)p.first.second, p.second.calls);
    for (auto &s : w.sups) {
        REQ("P03 P04 P13", s->state == state_t::SHUT_DOWN, "a supervisor did not shut down");
        REQ("P04 P03", s->timers.empty(), "a timer survived its actor");
    }
}
int main(int argc, char **argv) { return run(argc, argv, history); }
