// P11: random policies, attempt limits, periods, factories that throw and ways to terminate, in random histories.
#include "prop.h"
using namespace rotor;
using namespace sim;
using namespace prop;
namespace plug = rotor::plugin;

struct plan_t {
    int no;
    restart_policy_t policy;
    int max = 0;
    bool slow = false, escalate = false;
    int attempts = 0, timer_fired = 0;
    actor_base_t *now = nullptr;
    bool used = false;     // decided that there is no other instance
    bool unsure = false;   // the statement does not decide whether the supervisor goes down
    bool pending = false;  // a timer is expected
    bool instance_due = false;
};
struct world_t;
static world_t *W;
struct node_t : actor_base_t {
    using actor_base_t::actor_base_t;
    plan_t *plan = nullptr;
    bool again = true;
    bool should_restart() const noexcept override { return again; }
};
struct boss_t : sup_t { using sup_t::sup_t; };

static const char *policies[] = {"always", "never", "ask_actor", "normal_only", "fail_only"};
struct world_t {
    rng_t &rng;
    ctx_t ctx;
    intrusive_ptr_t<boss_t> boss;
    std::deque<plan_t> plans;
    std::vector<intrusive_ptr_t<node_t>> nodes;
    bool throws_next = false, down = false, must_down = false, unsure = false;
    explicit world_t(rng_t &r) : rng(r) {}
    void settle() { for (int i = 0; i < 500 && !boss->queue.empty(); ++i) boss->do_process(); }
    bool dying() { return boss->state >= state_t::SHUTTING_DOWN; }
    std::vector<request_id_t> spawn_timers() {
        std::vector<request_id_t> v;
        for (auto &t : boss->timers) if (!boss->request_map.count(t.id)) v.push_back(t.id);
        return v;
    }
    void spawn() {
        plans.emplace_back();
        auto &p = plans.back();
        p.no = (int)plans.size() - 1;
        p.policy = restart_policy_t(rng.below(5));
        p.max = rng.chance(50) ? 1 + rng.below(4) : 0;
        p.slow = rng.chance(50);
        p.escalate = rng.chance(40);
        note("spawner %d: policy %s, attempts %d, %s%s", p.no, policies[(int)p.policy], p.max, p.slow ? "an hour" : "at once", p.escalate ? ", escalates" : "");
        auto pp = &p;
        boss->spawn([this, pp](supervisor_t &sup, const address_ptr_t &addr) -> rotor::actor_ptr_t {
            auto &p = *pp;
            REQ("P11", !dying(), "spawner %d makes an instance while the supervisor shuts down", p.no);
            REQ("P11", !p.now, "spawner %d makes another instance while one is alive", p.no);
            REQ("P11", !p.used, "spawner %d makes an instance that its policy forbids", p.no);
            ++p.attempts;
            REQ("P11", !p.max || p.attempts <= p.max, "spawner %d made %d attempts of %d", p.no, p.attempts, p.max);
            p.pending = false;
            p.instance_due = false;
            if (throws_next) {
                throws_next = false;
                note("  the factory of %d throws", p.no);
                // tried again after the period if failures are retried
                bool retry = (p.policy == restart_policy_t::always || p.policy == restart_policy_t::fail_only) && (!p.max || p.attempts < p.max);
                if (retry) p.pending = true;
                else { p.used = true; }
                throw 1;
            }
            note("  instance %d of %d", p.attempts, p.no);
            auto a = sup.create_actor<node_t>().timeout(ms(100000)).spawner_address(addr).finish();
            a->plan = pp;
            p.now = a.get();
            nodes.push_back(a);
            return a;
        }).restart_period(p.slow ? r::pt::time_duration(1, 0, 0) : ms(0)).restart_policy(p.policy).max_attempts(p.max).escalate_failure(p.escalate);
        p.instance_due = true;
        throws_next = false;
        settle();
    }
    void end(plan_t &p) {
        bool abnormal = rng.chance(50);
        auto a = static_cast<node_t *>(p.now);
        a->again = rng.chance(60);
        throws_next = rng.chance(20);
        note("instance %d of %d terminates %s%s", p.attempts, p.no, abnormal ? "with a failure" : "normally", a->again ? "" : ", wants no other one");
        p.now = nullptr;
        bool left = !p.max || p.attempts < p.max;
        bool allowed = left && (p.policy == restart_policy_t::always || (p.policy == restart_policy_t::ask_actor && a->again) ||
                                (p.policy == restart_policy_t::normal_only && !abnormal) || (p.policy == restart_policy_t::fail_only && abnormal));
        if (allowed) { if (p.slow) p.pending = true; else p.instance_due = true; }
        else {
            p.used = true;
            if (p.escalate) {
                bool sure = abnormal && (p.policy == restart_policy_t::always || p.policy == restart_policy_t::normal_only || p.policy == restart_policy_t::fail_only);
                if (sure) must_down = true; else unsure = true;
            }
        }
        a->do_shutdown(make_error("driver", abnormal ? make_error_code(error_code_t::request_timeout) : make_error_code(shutdown_code_t::normal)));
        settle();
        throws_next = false;
    }
    void check() {
        if (must_down) REQ("P11", dying(), "a failure had to be escalated, the supervisor is alive");
        if (dying()) { if (!down) REQ("P11", must_down || unsure, "the supervisor shuts down for no reason"); return; }
        int due = 0;
        for (auto &p : plans) {
            REQ("P11", !p.instance_due, "spawner %d did not make the instance that its policy asks for", p.no);
            due += p.pending;
        }
        // a spawner whose factory threw for the last time may have a timer that does nothing
        int spare = 0;
        for (auto &p : plans) if (p.used && !p.now) ++spare;
        int have = (int)spawn_timers().size();
        REQ("P11", have >= due && have <= due + spare, "%d restarts are pending, %d are due", have, due);
    }
};
static void history(rng_t &rng, long) {
    world_t w(rng);
    W = &w;
    bool strict = rng.chance(30);
    int hold = rng.chance(30) ? 1 : 0;
    w.boss = w.ctx.create_supervisor<boss_t>().timeout(ms(100000)).policy(strict ? supervisor_policy_t::shutdown_self : supervisor_policy_t::shutdown_failed).finish();
    w.settle();
    int budget = 5 + rng.below(25);
    while (budget-- > 0 && !w.dying()) {
        switch (rng.below(4)) {
        case 0: if (w.plans.size() < 3) w.spawn(); break;
        case 1: {
            auto t = w.spawn_timers();
            if (t.empty()) break;
            note("the clock goes on");
            w.throws_next = rng.chance(20);
            for (auto &p : w.plans) if (p.pending) p.timer_fired = 1;
            auto before = w.boss->timers.size();
            (void)before;
            auto id = rng.pick(t);
            // whose timer is it?
            plan_t *owner = nullptr;
            auto &sm = w.boss->manager->spawning_map;
            auto it = sm.find(id);
            REQ("P11", it != sm.end(), "a timer of the supervisor belongs to nobody");
            (void)owner;
            w.boss->fire(id);
            w.settle();
            w.throws_next = false;
            break;
        }
        default: {
            std::vector<plan_t *> v;
            for (auto &p : w.plans) if (p.now && p.now->state == state_t::OPERATIONAL) v.push_back(&p);
            if (v.empty()) break;
            w.end(*rng.pick(v));
        }
        }
        w.check();
    }
    if (!w.dying()) {
        if (hold) { note("the supervisor acquires a resource"); w.boss->resources->acquire(0); }
        if (rng.chance(30)) { // something is in flight
            for (auto &p : w.plans) if (p.now && rng.chance(70)) {
                note("instance of %d is shut down, too", p.no);
                p.now->do_shutdown(rng.chance(50) ? make_error("driver", make_error_code(error_code_t::request_timeout)) : extended_error_ptr_t{});
                p.now = nullptr;
                p.used = false;
            }
            if (rng.chance(50)) w.settle();
        }
        w.down = true;
        note("the supervisor shuts down");
        w.boss->do_shutdown();
        w.settle();
        if (hold) {
            auto t = w.spawn_timers();
            if (!t.empty() && rng.chance(50)) { note("the clock goes on"); w.boss->fire(rng.pick(t)); w.settle(); }
            note("and releases the resource");
            w.boss->resources->release(0);
        }
    } else hold = 0;
    for (int i = 0; i < 10; ++i) w.settle();
    REQ("P11 P13 P06", w.boss->state == state_t::SHUT_DOWN, "the supervisor never finished its shutdown");
    REQ("P11", w.spawn_timers().empty(), "a restart is still pending after the shutdown of the supervisor");
    for (auto &n : w.nodes) REQ("P13 P11", n->state == state_t::SHUT_DOWN, "an instance survives its supervisor");
}
int main(int argc, char **argv) { return run(argc, argv, history); }
