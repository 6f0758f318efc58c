// P06, P07, P08, P10, P12, P13: random trees of supervisors and actors with resources, links and names, in random histories.
#include "prop.h"
using namespace rotor;
using namespace sim;
using namespace prop;
namespace plug = rotor::plugin;

struct world_t;
static world_t *W;
enum phase_t { INIT_START, INIT_FINISH, ON_START, SHUT_START, SHUT_FINISH, PHASES };
static const char *phase_name[] = {"init_start", "init_finish", "on_start", "shutdown_start", "shutdown_finish"};

struct info_t {
    actor_base_t *a = nullptr;
    bool boss = false;
    int no = 0, parent = -1;
    int when[PHASES] = {0, 0, 0, 0, 0};
    state_t last = state_t::NEW;
    extended_error_ptr_t reason;
    bool may_down = false;
    std::string why;
    int hold = 0, held_now = 0;             // resources held from the beginning; now
    std::vector<std::pair<int, bool>> links; // server, operational only
    std::set<int> linked, unlinked;
    bool tolerant = false;
    std::string name, seek;
    bool seek_link = false, seek_promise = false;
    int sought = 0;
    bool seek_linked = false;
    bool escalate = false, autoshut = false, sync = false;
    supervisor_policy_t policy = supervisor_policy_t::shutdown_self;
    int child_init = 0, child_down = 0; // confirmations seen by its supervisor
    address_ptr_t target;
};

template <typename Base> struct obs_t : Base {
    using Base::Base;
    info_t *me = nullptr;
    void configure(plug::plugin_base_t &p) noexcept override;
    void hook(phase_t p, bool after) noexcept;
    void init_start() noexcept override { hook(INIT_START, false); Base::init_start(); hook(INIT_START, true); }
    void init_finish() noexcept override { hook(INIT_FINISH, false); Base::init_finish(); hook(INIT_FINISH, true); }
    void on_start() noexcept override { hook(ON_START, false); Base::on_start(); hook(ON_START, true); }
    void shutdown_start() noexcept override { hook(SHUT_START, false); Base::shutdown_start(); hook(SHUT_START, true); }
    void shutdown_finish() noexcept override { hook(SHUT_FINISH, false); Base::shutdown_finish(); hook(SHUT_FINISH, true); }
    bool on_unlink(const address_ptr_t &) noexcept override;
};
struct node_t : obs_t<actor_base_t> { using obs_t<actor_base_t>::obs_t; };
struct boss_base_t : sup_t {
    using sup_t::sup_t;
    bool own = false;
    address_ptr_t make_address() noexcept override;
    void on_child_init(actor_base_t *c, const extended_error_ptr_t &ec) noexcept override;
    void on_child_shutdown(actor_base_t *c) noexcept override;
    void shutdown() noexcept override { do_shutdown(); }
};
struct boss_t : obs_t<boss_base_t> { using obs_t<boss_base_t>::obs_t; };

struct world_t {
    rng_t &rng;
    ctx_t ctx;
    std::deque<info_t> all;
    std::vector<intrusive_ptr_t<boss_t>> bosses;
    std::vector<intrusive_ptr_t<node_t>> nodes;
    std::vector<intrusive_ptr_t<actor_base_t>> alive;
    int clock = 0;
    info_t *next = nullptr;
    registry_t *registry() {
        for (auto &x : bosses[0]->alive_actors) if (auto r = dynamic_cast<const registry_t *>(x)) return const_cast<registry_t *>(r);
        return nullptr;
    }
    explicit world_t(rng_t &r) : rng(r) {}
    info_t *of(const actor_base_t *a) { for (auto &i : all) if (i.a == a) return &i; return nullptr; }

    bool round() {
        bool any = false;
        for (auto &s : bosses)
            if (s->locality_leader == s.get() && !s->queue.empty()) { any = true; s->do_process(); sample(); }
        return any;
    }
    void settle() { for (int i = 0; i < 2000 && round(); ++i) {} }
    void sample() {
        for (auto &i : all) {
            if (!i.a) continue;
            REQ("P06", (int)i.a->state >= (int)i.last, "actor %d went from state %d back to %d", i.no, (int)i.last, (int)i.a->state);
            i.last = i.a->state;
            if (i.reason) REQ("P07", i.a->shutdown_reason == i.reason, "the shutdown reason of actor %d changed", i.no);
            i.reason = i.a->shutdown_reason;
            if (i.last == state_t::SHUT_DOWN) REQ("P07", i.reason, "actor %d is shut down without a reason", i.no);
        }
    }
    static bool contains(extended_error_ptr_t e, const extended_error_ptr_t &r) { for (; e; e = e->next) if (e == r) return true; return false; }
    bool gone(const info_t &i) { return i.last >= state_t::SHUTTING_DOWN; }
    void down(info_t &i, const char *why) {
        if (i.may_down) return;
        i.may_down = true;
        i.why = why;
    }
    // who may shut down because of whom; to a fixed point
    void spread() {
        for (bool more = true; more;) {
            more = false;
            for (auto &i : all) {
                if (i.may_down) continue;
                if (i.parent >= 0 && all[i.parent].may_down) { down(i, "its supervisor goes down"); more = true; continue; }
                for (auto &l : i.links) if (all[l.first].may_down && !i.may_down) { down(i, "a server goes down"); more = true; }
                if (!i.seek.empty()) { // the sought one is gone or is not registered
                    for (auto &o : all) if (o.name == i.seek && o.may_down && !i.may_down) { down(i, "the sought one goes down"); more = true; }
                }
                for (auto &c : all)
                    if (c.parent == i.no && c.may_down && !i.may_down && (c.escalate || c.autoshut || !i.when[INIT_FINISH])) { down(i, "a child goes down"); more = true; }
            }
        }
    }
    info_t &add(int parent, bool boss) {
        all.emplace_back();
        auto &i = all.back();
        i.no = (int)all.size() - 1;
        i.parent = parent;
        i.boss = boss;
        return i;
    }
    boss_t *boss_of(int no) { return static_cast<boss_t *>(all[no].a); }
    void make_boss(int parent) {
        auto &i = add(parent, true);
        i.sync = rng.chance(40);
        i.policy = rng.chance(50) ? supervisor_policy_t::shutdown_failed : supervisor_policy_t::shutdown_self;
        i.hold = rng.chance(15) ? 1 : 0;
        i.escalate = parent >= 0 && rng.chance(15);
        i.autoshut = parent >= 0 && rng.chance(10);
        next = &i;
        bool own = rng.chance(40);
        note("%s%d is supervisor %d of %d%s%s hold %d%s%s", "", i.no, i.no, parent, i.sync ? " sync" : "", i.policy == supervisor_policy_t::shutdown_self ? " strict" : "", i.hold, i.escalate ? " escalate" : "", i.autoshut ? " auto" : "");
        intrusive_ptr_t<boss_t> b;
        if (parent < 0) b = ctx.create_supervisor<boss_t>().timeout(ms(100000)).synchronize_start(i.sync).policy(i.policy).create_registry().finish();
        else {
            own_flag() = own;
            auto bd = boss_of(parent)->create_actor<boss_t>().timeout(ms(100000)).synchronize_start(i.sync).policy(i.policy);
            if (i.escalate) std::move(bd).escalate_failure();
            if (i.autoshut) std::move(bd).autoshutdown_supervisor();
            b = std::move(bd).finish();
        }
        own_flag() = false;
        bosses.push_back(b);
        alive.push_back(b);
    }
    static bool &own_flag() { static bool f; return f; }
    void make_node() {
        std::vector<int> bs;
        for (auto &x : all) if (x.boss && !gone(x) && !x.may_down && x.a) bs.push_back(x.no);
        if (bs.empty()) return;
        auto parent = rng.pick(bs);
        auto &i = add(parent, false);
        i.hold = rng.chance(30) ? 1 + rng.below(2) : 0;
        i.tolerant = rng.chance(20);
        i.escalate = rng.chance(15);
        i.autoshut = rng.chance(10);
        for (auto &x : all)
            if (&x != &i && !x.boss && x.a && !x.may_down && !gone(x) && rng.chance(25)) i.links.push_back({x.no, rng.chance(60)});
        if (rng.chance(30)) i.name = "svc" + std::to_string(i.no);
        if (rng.chance(25)) {
            std::vector<std::string> v;
            for (auto &x : all) {
                bool other = &x != &i && !x.name.empty() && !x.may_down && !gone(x);
                for (auto &l : i.links) if (l.first == x.no) other = false; // one link to an address
                if (other) v.push_back(x.name);
            }
            if (rng.chance(10)) v.push_back("nobody");
            if (!v.empty()) { i.seek = rng.pick(v); i.seek_link = rng.chance(60); i.seek_promise = i.seek != "nobody" && rng.chance(50); }
        }
        std::string l;
        for (auto &p : i.links) l += " " + std::to_string(p.first) + (p.second ? "!" : "");
        note("%d is an actor of %d: holds %d, links%s, name '%s', seeks '%s'%s%s%s%s%s", i.no, parent, i.hold, l.c_str(), i.name.c_str(), i.seek.c_str(), i.seek_link ? " and links" : "", i.seek_promise ? " (promise)" : "", i.tolerant ? " tolerant" : "", i.escalate ? " escalate" : "", i.autoshut ? " auto" : "");
        next = &i;
        auto bd = boss_of(parent)->create_actor<node_t>().timeout(ms(100000));
        if (i.escalate) std::move(bd).escalate_failure();
        if (i.autoshut) std::move(bd).autoshutdown_supervisor();
        auto n = std::move(bd).finish();
        nodes.push_back(n);
        alive.push_back(n);
    }
    void release_some(bool every) {
        for (auto &i : all)
            while (i.held_now > 0 && i.a && i.a->resources && (every || rng.chance(40))) {
                note("%d releases a resource", i.no);
                --i.held_now;
                i.a->resources->release(0);
                sample();
                if (!every) return;
            }
    }
    // a request is not answered in time
    void expire_some() {
        std::vector<std::pair<boss_t *, request_id_t>> v;
        for (auto &b : bosses)
            for (auto &p : b->request_map) {
                auto t = p.second.request_message->type_index;
                if (t != message::shutdown_request_t::message_type && t != message::unlink_request_t::message_type) v.push_back({b.get(), p.first});
            }
        if (v.empty()) return;
        std::sort(v.begin(), v.end());
        auto &x = rng.pick(v);
        auto &c = x.first->request_map.at(x.second);
        auto src = of(c.source);
        bool init = c.request_message->type_index == message::init_request_t::message_type;
        if (src && !init) down(*src, "a request of it timed out");
        for (auto &o : all) if (o.a && o.a->get_address() == c.request_message->address && (init || !src)) { src = &o; down(o, "its initialization timed out"); }
        note("request %d of supervisor %d times out, which concerns %d", (int)x.second, x.first->me ? x.first->me->no : -1, src ? src->no : -1);
        if (!src) down(all[0], "its registry timed out");
        x.first->fire(x.second);
    }
    // a promise of a registry that is gone is answered by its timeout
    void expire_promises() {
        for (auto &b : bosses)
            for (auto &p : b->request_map)
                if (p.second.request_message->type_index == message::discovery_promise_t::message_type) { b->fire(p.first); return; }
    }
    void check_quiet(bool last);
};
address_ptr_t boss_base_t::make_address() noexcept {
    if (!address && !parent) own = true;
    else if (!address && W->own_flag()) own = true;
    W->own_flag() = false;
    return instantiate_address(own ? this : static_cast<actor_base_t *>(parent)->address->locality);
}
void boss_base_t::on_child_init(actor_base_t *c, const extended_error_ptr_t &ec) noexcept {
    sup_t::on_child_init(c, ec);
    if (auto i = c ? W->of(c) : nullptr) REQ("P06 P13", ++i->child_init == 1, "the initialization of actor %d was reported twice", i->no);
}
void boss_base_t::on_child_shutdown(actor_base_t *c) noexcept {
    if (auto i = c ? W->of(c) : nullptr) {
        REQ("P06 P13", ++i->child_down == 1, "the shutdown of actor %d was reported twice", i->no);
        REQ("P06 P13", i->a->state == state_t::SHUT_DOWN, "the shutdown of actor %d was reported too early", i->no);
    }
    sup_t::on_child_shutdown(c);
}
template <typename B> bool obs_t<B>::on_unlink(const address_ptr_t &a) noexcept {
    if (me) for (auto &o : W->all) if (o.a && o.a->get_address() == a) {
        note("  %d is unlinked from %d", me->no, o.no);
        REQ("P12", me->linked.erase(o.no) || (me->seek == o.name && me->sought), "actor %d is told to unlink from %d, to which it is not linked", me->no, o.no);
        REQ("P12", o.a->state >= state_t::SHUTTING_DOWN, "actor %d is told to unlink from the living %d", me->no, o.no);
        me->unlinked.insert(o.no);
    }
    if (me && this->resources && this->state >= state_t::OPERATIONAL) { // user code may hold a resource for as long as it runs
        auto &rng = W->rng;
        if (me->held_now > 0 && rng.chance(20)) { note("  %d releases a resource", me->no); --me->held_now; this->resources->release(0); }
        else if (rng.chance(20)) { note("  %d acquires and releases a resource", me->no); this->resources->acquire(0); this->resources->release(0); }
    }
    return me && me->tolerant ? false : B::on_unlink(a);
}
template <typename B> void obs_t<B>::configure(plug::plugin_base_t &p) noexcept {
    auto &w = *W;
    if (!me && w.next) { me = w.next; me->a = this; w.next = nullptr; }
    B::configure(p);
    if (!me) return;
    auto *i = me;
    p.with_casted<plug::resources_plugin_t>([&](auto &r) {
        for (int k = 0; k < i->hold; ++k) { r.acquire(0); ++i->held_now; }
    });
    p.with_casted<plug::link_client_plugin_t>([&](auto &l) {
        for (auto &s : i->links) {
            int no = s.first;
            bool op = s.second;
            l.link(w.all[no].a->get_address(), op, [i, no, op](const extended_error_ptr_t &ec) {
                note("  %d is told about its link to %d%s", i->no, no, ec ? ": failed" : "");
                auto st = W->all[no].a->state;
                if (!ec) {
                    REQ("P12", i->linked.insert(no).second, "actor %d is linked twice to %d", i->no, no);
                    if (op) REQ("P12", st >= state_t::OPERATIONAL, "actor %d was linked to %d, which is not operational", i->no, no);
                } else { bool late = i->may_down;
                    REQ("P12", late || W->all[no].may_down || W->gone(W->all[no]) || st >= state_t::SHUTTING_DOWN, "the link of %d to the living %d failed", i->no, no); W->down(*i, "a link failed"); }
            });
        }
    });
    p.with_casted<plug::registry_plugin_t>([&](auto &r) {
        if (!i->name.empty()) r.register_name(i->name, this->get_address());
        if (!i->seek.empty()) {
            auto &d = r.discover_name(i->seek, i->target, i->seek_promise);
            using phase = plug::registry_plugin_t::phase_t;
            auto cb = [i](phase ph, const extended_error_ptr_t &ec) {
                note("  %d is told about '%s' (%s)%s", i->no, i->seek.c_str(), ph == phase::discovering ? "found" : "link", ec ? ": failed" : "");
                if (ec) { W->down(*i, "a discovery failed"); return; }
                info_t *o = nullptr;
                for (auto &x : W->all) if (x.name == i->seek) o = &x;
                REQ("P10", o, "actor %d found a name that nobody has registered", i->no);
                if (!o) return;
                if (ph == phase::discovering) {
                    REQ("P10", ++i->sought == 1, "the discovery of actor %d was answered twice", i->no);
                    REQ("P10", i->target == o->a->get_address(), "actor %d found another service", i->no);
                } else {
                    REQ("P10 P12", i->sought == 1, "actor %d was linked to what it had not found", i->no);
                    i->seek_linked = true;
                    i->linked.insert(o->no);
                }
            };
            if (i->seek_link) d.link(false).callback(cb); else d.callback(cb);
        }
    });
}
template <typename B> void obs_t<B>::hook(phase_t p, bool after) noexcept {
    auto *i = me;
    auto &w = *W;
    if (!i) return;
    if (!after) {
        note("  %d: %s", i->no, phase_name[p]);
        REQ("P06", i->when[p] == 0, "%s of actor %d was reached twice", phase_name[p], i->no);
        i->when[p] = ++w.clock;
        for (int q = p + 1; q < PHASES; ++q) REQ("P06", i->when[q] == 0, "%s of actor %d was reached after %s", phase_name[p], i->no, phase_name[q]);
        if (p == INIT_FINISH) REQ("P06", i->when[INIT_START], "actor %d is initialized without a start of its initialization", i->no);
        if (p == ON_START) REQ("P06 P13", i->when[INIT_FINISH], "actor %d was started before it was initialized", i->no);
        if (p == SHUT_FINISH) REQ("P06", i->when[SHUT_START], "actor %d finished its shutdown without beginning it", i->no);
        if (p == SHUT_START) w.down(*i, "it shuts down");
        if (p == INIT_FINISH || p == SHUT_FINISH) REQ("P08", i->held_now == 0, "actor %d went through %s holding %d resources", i->no, phase_name[p], i->held_now);
        if (p == INIT_FINISH) {
            for (auto &l : i->links) REQ("P12", i->linked.count(l.first) || i->unlinked.count(l.first), "actor %d is initialized without its link to %d", i->no, l.first);
            if (!i->seek.empty()) REQ("P10", i->sought == 1, "actor %d is initialized before its discovery was answered", i->no);
            auto reg = w.registry();
            if (!i->name.empty() && (reg || !i->tolerant)) { // it is registered now
                REQ("P10 P12", reg, "actor %d is initialized after the registry it is linked to is gone", i->no);
                auto it = reg->registered_map.find(i->name);
                bool ok = it != reg->registered_map.end() && it->second == this->get_address();
                REQ("P10 P09", ok, "actor %d is initialized, but its name is not registered", i->no);
            }
        }
        if (p == ON_START && i->parent >= 0 && w.all[i->parent].sync)
            REQ("P13", w.all[i->parent].when[INIT_FINISH], "actor %d was started before its supervisor was initialized", i->no);
        if (i->boss && p == INIT_FINISH)
            for (auto &c : w.all)
                if (c.parent == i->no && c.a && !c.may_down) REQ("P13", c.when[INIT_FINISH], "supervisor %d is initialized, its child %d is not", i->no, c.no);
        if (i->boss && p == SHUT_FINISH)
            for (auto &c : w.all)
                if (c.parent == i->no && c.a) REQ("P13", c.a->state == state_t::SHUT_DOWN, "supervisor %d finished before its child %d", i->no, c.no);
        if (p == SHUT_FINISH) {
            for (auto &c : w.all)
                if (c.a && c.linked.count(i->no)) REQ("P12", c.a->state == state_t::SHUT_DOWN || c.when[SHUT_START], "server %d finished while its client %d was still linked", i->no, c.no);
        }
    } else {
        static const state_t st[] = {state_t::INITIALIZING, state_t::INITIALIZED, state_t::OPERATIONAL, state_t::SHUTTING_DOWN, state_t::SHUT_DOWN};
        REQ("P06", this->state == st[p] || (int)this->state > (int)st[p], "actor %d is in state %d after %s", i->no, (int)this->state, phase_name[p]);
        if (p == SHUT_START) REQ("P07", this->shutdown_reason, "actor %d begins to shut down without a reason", i->no);
        if (p == SHUT_FINISH) {
            REQ("P04 P06", this->timers_map.empty(), "actor %d is gone, but not its timers", i->no);
            REQ("P06", this->deactivating_plugins.empty(), "actor %d is gone, but not its plugins", i->no);
        }
    }
    w.sample();
}
void world_t::check_quiet(bool last) {
    sample();
    spread();
    for (auto &i : all) {
        if (!i.a) continue;
        if (gone(i)) REQ("P07 P13 P06", i.may_down, "actor %d shuts down for no reason", i.no);
        auto *par = i.parent >= 0 ? boss_of(i.parent) : nullptr;
        if (par && i.last == state_t::SHUT_DOWN) {
            REQ("P13", par->manager == nullptr || !par->manager->actors_map.count(i.a->get_address()), "supervisor %d still has a record of its terminated child %d", i.parent, i.no);
            REQ("P13", !par->alive_actors.count(i.a), "supervisor %d believes that its terminated child %d is alive", i.parent, i.no);
            auto *ld = static_cast<sup_t *>(par->locality_leader);
            auto it = ld->subscription_map.internal_infos.find(i.a->get_address());
            if (it != ld->subscription_map.internal_infos.end())
                for (auto &s : it->second) REQ("P14", !s->internal_handler, "the terminated actor %d still has subscriptions", i.no);
            if (all[i.parent].last == state_t::SHUT_DOWN || par->manager) REQ("P13 P06", i.child_down == 1, "the shutdown of actor %d was reported %d times", i.no, i.child_down);
            // the failure of a child reaches its supervisor
            bool abnormal = (bool)i.a->shutdown_reason->root()->ec;
            if ((i.autoshut || (i.escalate && abnormal))) REQ("P07", gone(all[i.parent]), "actor %d took its supervisor down, which did not notice", i.no);
            if (i.autoshut && !all[i.parent].when[SHUT_START]) REQ("P07", false, "supervisor %d does not shut down", i.parent);
        }
    }
    if (last) return;
    // nothing is in flight: who is not initialized waits for something
    for (auto &i : all) {
        if (!i.a || i.may_down || i.last != state_t::INITIALIZING) continue;
        bool waits = i.held_now > 0;
        for (auto &l : i.links) if (!i.linked.count(l.first)) waits = true;
        if (!i.seek.empty() && !i.seek_linked) waits = true;
        if (i.boss) for (auto &c : all) if (c.parent == i.no && c.a && c.last < state_t::INITIALIZED) waits = true;
        if (i.boss && i.parent < 0) waits = true;
        REQ("P06 P08 P10 P12 P13", waits, "actor %d does not finish its initialization", i.no);
    }
    // and who is shutting down waits for a resource, a child, a client that waits itself, or a promise
    for (auto &i : all) {
        if (!i.a || i.last != state_t::SHUTTING_DOWN) continue;
        bool waits = i.held_now > 0 || (!i.seek.empty() && !i.seek_linked);
        for (auto &c : all) {
            if (!c.a || c.last == state_t::SHUT_DOWN) continue;
            if (c.parent == i.no) waits = true;
            if ((c.linked.count(i.no) || c.unlinked.count(i.no)) && c.last == state_t::SHUTTING_DOWN) waits = true;
        }
        REQ("P06 P08 P12 P13 P14 P10", waits, "actor %d does not finish its shutdown, though it waits for nothing", i.no);
    }
    for (auto &i : all)
        if (i.a && !i.may_down && i.last == state_t::INITIALIZED && i.parent >= 0 && all[i.parent].last == state_t::OPERATIONAL)
            REQ("P13 P06", false, "actor %d is not started", i.no);
}
static void history(rng_t &rng, long) {
    world_t w(rng);
    W = &w;
    w.make_boss(-1);
    int n = rng.below(3);
    for (int i = 0; i < n; ++i) {
        std::vector<int> bs;
        for (auto &x : w.all) if (x.boss) bs.push_back(x.no);
        w.make_boss(rng.pick(bs));
    }
    n = 1 + rng.below(4);
    for (int i = 0; i < n; ++i) w.make_node();
    bool faults = rng.chance(25);
    int budget = 5 + rng.below(25);
    while (budget-- > 0) {
        switch (rng.below(10)) {
        case 0: case 1: case 2: w.release_some(false); break;
        case 3: {
            std::vector<info_t *> v;
            for (auto &i : w.all) if (i.last == state_t::OPERATIONAL && i.a->resources && !i.may_down) v.push_back(&i);
            if (v.empty()) break;
            auto *i = rng.pick(v);
            note("%d acquires a resource", i->no);
            ++i->held_now;
            i->a->resources->acquire(0);
            break;
        }
        case 5:
            if (!faults || !rng.chance(40)) break;
            w.expire_some();
            break;
        case 4: if (w.all.size() < 10) w.make_node(); break;
        case 6: {
            if (!rng.chance(40)) break;
            auto &i = rng.pick(w.all);
            if (!i.a || w.gone(i) || i.last < state_t::INITIALIZING) break;
            bool quiet = rng.chance(50);
            if (quiet) { w.settle(); w.check_quiet(false); if (w.gone(i) || i.may_down) break; }
            bool normal = rng.chance(50);
            auto r = make_error("driver", normal ? make_error_code(shutdown_code_t::normal) : make_error_code(error_code_t::request_timeout));
            note("%d is shut down%s", i.no, normal ? "" : " because of an error");
            w.down(i, "asked to");
            i.a->do_shutdown(r);
            if (rng.chance(20)) i.a->do_shutdown();
            if (quiet) {
                w.settle();
                w.sample();
                REQ("P06 P07", w.gone(i), "actor %d was asked to shut down and did not begin", i.no);
                REQ("P07", w.contains(i.a->shutdown_reason, r), "the shutdown reason of actor %d is not the one that was given", i.no);
            }
            break;
        }
        default:
            if (rng.chance(50)) w.round(); else { w.settle(); w.check_quiet(false); }
        }
        w.sample();
    }
    w.settle();
    w.check_quiet(false);
    w.release_some(true);
    w.settle();
    w.check_quiet(false);
    note("the end");
    w.down(w.all[0], "the end");
    w.bosses[0]->do_shutdown();
    for (int i = 0; i < 30; ++i) { w.settle(); w.release_some(true); if (i > 20) w.expire_promises(); }
    w.sample();
    for (auto &i : w.all) {
        if (!i.a || i.a->state == state_t::SHUT_DOWN) continue;
        note("%d is in state %d, plugins that are still to deactivate: %d", i.no, (int)i.a->state, (int)i.a->deactivating_plugins.size());
        for (auto p : i.a->plugins) if (p->reaction & plug::plugin_base_t::SHUTDOWN) note("  waits: %s", p->identity().name());
    }
    for (auto &i : w.all) REQ("P06 P08 P12 P13 P14 P10", !i.a || i.a->state == state_t::SHUT_DOWN, "actor %d never finished its shutdown", i.no);
    w.check_quiet(true);
    for (auto &b : w.bosses) {
        REQ("P13 P04", b->timers.empty(), "a timer is left");
        REQ("P13 P03", b->request_map.empty(), "a request is left");
    }
}
int main(int argc, char **argv) { return run(argc, argv, history); }
