// P05 (and P04): timers of the thread backend, in real time: random timers, cancellations and delays in plain and I/O handlers.
#include "prop.h"
#include "rotor/thread.hpp"
#include <thread>
using namespace rotor;
using namespace sim;
using namespace prop;
namespace plug = rotor::plugin;
using clk = std::chrono::steady_clock;
namespace tp { struct step_t { int n; }; struct io_t { int n; }; }
namespace tmsg { using step_t = message_t<tp::step_t>; using io_t = message_t<tp::io_t>; }

struct world_t;
static world_t *W;
struct node_t : actor_base_t {
    using actor_base_t::actor_base_t;
    void configure(plug::plugin_base_t &p) noexcept override {
        actor_base_t::configure(p);
        p.with_casted<plug::starter_plugin_t>([&](auto &s) {
            s.subscribe_actor(&node_t::on_step);
            s.subscribe_actor(&node_t::on_io)->tag_io();
        });
    }
    void on_start() noexcept override;
    void on_step(tmsg::step_t &) noexcept;
    void on_io(tmsg::io_t &) noexcept;
    void on_timer(request_id_t id, bool cancelled) noexcept;
};
struct rec_t { clk::time_point deadline; int calls = 0; bool may_cancel = false; long no = 0; };
struct world_t {
    rng_t &rng;
    thread::system_context_thread_t ctx;
    std::map<request_id_t, rec_t> timers;
    int budget;
    long count = 0, steps = 0;
    node_t *node = nullptr;
    bool ending = false, io = false;
    long poll = 1; // ms: how long the backend spins before it sleeps
    explicit world_t(rng_t &r) : rng(r) { budget = 4 + r.below(14); }
    void nap() { if (rng.chance(40)) std::this_thread::sleep_for(std::chrono::microseconds(rng.below(2500))); }
    void start() {
        int us = rng.chance(15) ? 0 : rng.below(6000);
        auto before = ctx.now;
        auto id = node->start_timer(r::pt::microseconds{us}, *node, &node_t::on_timer);
        note("  timer %d in %d us%s", (int)id, us, io ? " (I/O)" : "");
        REQ("P04 P05", !timers.count(id) || timers[id].calls, "a timer has the identifier of another living one");
        rec_t rec;
        rec.no = ++count;
        // when a handler is tagged as I/O the clock is read anew
        rec.deadline = before + std::chrono::microseconds(us);
        bool found = false;
        for (auto &n : ctx.timer_nodes) if (n.handler->request_id == id) { found = true; REQ("P05", n.deadline >= rec.deadline, "timer %d is due too early", (int)id); rec.deadline = n.deadline; }
        REQ("P05", found, "timer %d is lost", (int)id);
        timers[id] = rec;
    }
    void cancel() {
        std::vector<request_id_t> v;
        for (auto &t : timers) if (!t.second.calls) v.push_back(t.first);
        if (v.empty()) return;
        auto id = rng.pick(v);
        note("  cancel %d", (int)id);
        timers[id].may_cancel = true;
        node->cancel_timer(id);
        REQ("P04 P05", timers[id].calls == 1, "cancelled timer %d: %d callbacks", (int)id, timers[id].calls);
    }
    void act() {
        for (int k = 1 + rng.below(3); k > 0 && budget > 0; --k) {
            --budget;
            switch (rng.below(6)) {
            case 0: case 1: case 2: start(); break;
            case 3: cancel(); break;
            case 4: nap(); break;
            default:
                ++steps;
                if (rng.chance(50)) node->send<tp::io_t>(node->get_address(), 1);
                else node->send<tp::step_t>(node->get_address(), 1);
            }
        }
        if (true) {
            bool live = false;
            for (auto &t : timers) if (!t.second.calls) live = true;
            if ((!live && !steps) || (budget <= 0 && rng.chance(30))) { if (!ending) { note("the end"); ending = true; node->get_supervisor().do_shutdown(); } }
        }
    }
};
void node_t::on_start() noexcept { actor_base_t::on_start(); W->node = this; for (int i = 0; i < 3; ++i) W->start(); W->steps = 1; send<tp::io_t>(get_address(), 1); }
void node_t::on_step(tmsg::step_t &) noexcept { note("step"); --W->steps; W->act(); }
void node_t::on_io(tmsg::io_t &) noexcept { note("I/O step"); --W->steps; W->io = true; W->nap(); W->act(); W->io = false; }
void node_t::on_timer(request_id_t id, bool cancelled) noexcept {
    auto now = clk::now();
    note("timer %d %s", (int)id, cancelled ? "is cancelled" : "fires");
    auto it = W->timers.find(id);
    REQ("P04 P05", it != W->timers.end(), "an unknown timer %d", (int)id);
    REQ("P04 P05", ++it->second.calls == 1, "timer %d is called back twice", (int)id);
    if (cancelled) { REQ("P04 P05", it->second.may_cancel || W->ending, "timer %d is cancelled by nobody", (int)id); return; }
    REQ("P05", now >= it->second.deadline, "timer %d fires too early", (int)id);
    if (W->poll > 1) REQ("P05", now - it->second.deadline < std::chrono::seconds(9), "the backend polled past the deadline of timer %d", (int)id);
    REQ("P04 P05", !it->second.may_cancel, "timer %d fires although it was cancelled", (int)id);
    for (auto &t : W->timers) {
        if (t.second.calls || t.first == id) continue;
        bool before = t.second.deadline < it->second.deadline || (t.second.deadline == it->second.deadline && t.second.no < it->second.no);
        REQ("P05", !before, "timer %d fires before %d, which is due earlier", (int)id, (int)t.first);
    }
    bool io = W->io;
    W->act();
    W->io = io;
}
static void history(rng_t &rng, long) {
    world_t w(rng);
    W = &w;
    if (rng.chance(10)) w.poll = 12000;
    note("polls for %ld ms", w.poll);
    auto sup = w.ctx.create_supervisor<thread::supervisor_thread_t>().timeout(ms(60000)).poll_duration(r::pt::milliseconds{w.poll}).finish();
    auto node = sup->create_actor<node_t>().timeout(ms(60000)).finish();
    sup->start();
    w.ctx.run();
    for (auto &t : w.timers) REQ("P05 P04", t.second.calls == 1, "timer %d: %d callbacks", (int)t.first, t.second.calls);
    REQ("P05", w.ctx.timer_nodes.empty(), "a timer is left");
    REQ("P05 P06", node->state == state_t::SHUT_DOWN && sup->state == state_t::SHUT_DOWN, "the context stops before its supervisor");
}
int main(int argc, char **argv) { return run(argc, argv, history); }
