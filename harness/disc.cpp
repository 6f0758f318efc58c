// P10: random actors which register names and discover others' (by several names, promised or not, linked), step by step
// interleaved with registrations, deregistrations and shutdowns at the granularity of single messages.
#include "prop.h"
using namespace rotor;
using namespace sim;
using namespace prop;
namespace plug = rotor::plugin;
using plug_t = plug::registry_plugin_t;

struct world_t;
static world_t *W;
struct payload_tick_t {};
using tick_t = message_t<payload_tick_t>;
struct clock_t_ : actor_base_t {
    using actor_base_t::actor_base_t;
    using plugins_list_t = std::tuple<plug::address_maker_plugin_t, plug::lifetime_plugin_t, plug::init_shutdown_plugin_t, plug::link_server_plugin_t,
        plug::link_client_plugin_t, plug::resources_plugin_t, plug::starter_plugin_t>;
    void configure(plug::plugin_base_t &p) noexcept override {
        actor_base_t::configure(p);
        p.with_casted<plug::starter_plugin_t>([](auto &s) { s.subscribe_actor(&clock_t_::on_tick); s.subscribe_actor(&clock_t_::on_reg); });
    }
    void on_tick(tick_t &) noexcept;
    void on_reg(message::registration_response_t &) noexcept {}
};
// a service: its names are registered by hand
struct service_t : actor_base_t { using actor_base_t::actor_base_t; };
struct seek_t { std::string name; bool promise, link, only_op; address_ptr_t addr; int found = 0, linked = 0; bool failed = false, stable = false; };
struct client_t : actor_base_t {
    using actor_base_t::actor_base_t;
    using plugins_list_t = actor_base_t::plugins_list_t;
    int no = 0, started_ = 0, finished_ = 0;
    bool excused = false, asked_down = false;
    std::deque<seek_t> seeks;
    std::vector<std::string> own;
    void configure(plug::plugin_base_t &p) noexcept override;
    void on_start() noexcept override;
    void shutdown_start() noexcept override;
    void shutdown_finish() noexcept override;
};
struct node_t { intrusive_ptr_t<actor_base_t> a; address_ptr_t addr; client_t *client; bool going = false; };

struct world_t {
    rng_t &rng;
    ctx_t ctx;
    intrusive_ptr_t<sup_t> sup;
    intrusive_ptr_t<clock_t_> clock;
    registry_t *reg = nullptr;
    std::vector<node_t> nodes;
    std::vector<client_t *> clients;
    std::vector<std::string> names{"a", "b", "c", "d", "e"};
    std::map<std::string, std::vector<address_ptr_t>> ever;
    std::set<std::string> unsettled; // its deregistration has been asked lately
    std::set<std::string> dropped;   // it has been deregistered by hand at some moment
    int ticks = 0;
    client_t *next = nullptr;
    explicit world_t(rng_t &r) : rng(r) {}
    void settle() { for (int i = 0; i < 1000 && !sup->queue.empty(); ++i) sup->do_process(); unsettled.clear(); check_quiet(); }
    int num(const address_ptr_t &a) { for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i].addr == a) return (int)i; return 99; }
    bool was(const std::string &n, const address_ptr_t &a) { for (auto &x : ever[n]) if (x == a) return true; return false; }
    address_ptr_t holds(const std::string &n) { auto it = reg->registered_map.find(n); return it == reg->registered_map.end() ? address_ptr_t() : it->second; }
    void check_quiet() {
        if (sup->state != state_t::OPERATIONAL) return;
        for (auto *c : clients) {
            if (c->state == state_t::SHUT_DOWN) {
                for (auto &n : c->own) REQ("P10", holds(n) != c->get_address(), "the name '%s' of client %d, which is shut down, is still registered", n.c_str(), c->no);
                continue;
            }
            if (c->state == state_t::SHUTTING_DOWN) continue; // links to the dead may have to time out
            if (c->state == state_t::OPERATIONAL) continue;
            REQ("P10", c->state == state_t::INITIALIZING, "client %d is in state %d", c->no, (int)c->state);
            bool why = false;
            for (auto &s : c->seeks) {
                if (s.linked) continue;
                if (!s.found) {
                    why = why || (s.promise && !holds(s.name));
                } else {
                    for (auto &n : nodes)
                        if (n.addr == s.addr) why = why || n.going || n.a->state != state_t::OPERATIONAL;
                }
            }
            REQ("P10", why, "client %d does not get initialized, though all its names can be settled", c->no);
        }
    }
    void step();
};
void clock_t_::on_tick(tick_t &) noexcept {
    W->step();
    if (W->ticks > 0) { --W->ticks; send<payload_tick_t>(address); }
}
void client_t::configure(plug::plugin_base_t &p) noexcept {
    actor_base_t::configure(p);
    p.with_casted<plug_t>([&](plug_t &r) {
        for (auto &n : own) { r.register_name(n, address); }
        for (auto &s : seeks) {
            auto &t = r.discover_name(s.name, s.addr, s.promise);
            if (s.link) t.link(s.only_op);
            t.callback([this, &s](plug_t::phase_t ph, const extended_error_ptr_t &ec) {
                note("  client %d: '%s' %s %s (%d)", no, s.name.c_str(), ph == plug_t::phase_t::discovering ? "discovering" : "linking", ec ? "fails" : "ok", s.addr ? W->num(s.addr) : -1);
                REQ("P10", !started_ && !finished_ && state != state_t::SHUT_DOWN, "client %d: progress of '%s' is reported late", no, s.name.c_str());
                REQ("P10", s.addr && W->was(s.name, s.addr), "client %d: '%s' has got a wrong address", no, s.name.c_str());
                if (ph == plug_t::phase_t::discovering) {
                    REQ("P10", ++s.found == 1 && !s.linked && !ec, "client %d: '%s' is discovered twice, or after it has been linked, or fails with a callback", no, s.name.c_str());
                } else {
                    REQ("P10", s.found && ++s.linked == 1, "client %d: '%s' is linked twice or before it is discovered", no, s.name.c_str());
                    s.failed = bool(ec);
                }
            });
        }
    });
}
void client_t::on_start() noexcept {
    actor_base_t::on_start();
    note("  client %d has started", no);
    ++started_;
    for (auto &s : seeks) {
        REQ("P10", s.addr && s.found == 1, "client %d has started, though '%s' has not been discovered", no, s.name.c_str());
        REQ("P10", s.linked == 1 && !s.failed, "client %d has started, though it is not linked with '%s'", no, s.name.c_str());
    }
    for (auto &n : own) REQ("P10", W->holds(n) == get_address() || W->dropped.count(n), "client %d has started, though its name '%s' is not registered", no, n.c_str());
}
void client_t::shutdown_start() noexcept {
    for (auto *c : W->clients) for (auto &s : c->seeks) for (auto &n : own) if (s.name == n) { s.stable = false; c->excused = true; }
    for (auto &n : own) W->unsettled.insert(n);
    actor_base_t::shutdown_start();
}
void client_t::shutdown_finish() noexcept {
    auto reason = shutdown_reason;
    actor_base_t::shutdown_finish();
    note("  client %d has shut down: %s", no, reason ? reason->message().c_str() : "?");
    ++finished_;
    if (excused || started_) return;
    // nobody asked it to and nothing it has linked with went away: a name was not there or was taken
    bool missing = false;
    for (auto &s : seeks) missing = missing || (!s.promise && !s.found && !s.stable);
    for (auto &n : own) missing = missing || W->ever[n].size() > 1;
    REQ("P10", missing, "client %d has shut down, though all its names could be settled", no);
    bool named = false;
    for (auto e = reason; e; e = e->next)
        named = named || e->ec == make_error_code(error_code_t::discovery_failed) || e->ec == make_error_code(error_code_t::registration_failed);
    REQ("P10", named, "client %d has shut down, the reason does not tell about names: %s", no, reason ? reason->message().c_str() : "?");
}
void world_t::step() {
    int k = rng.below(100);
    auto sender = clock.get();
    if (k < 22) { // a name is registered for a service
        auto &n = rng.pick(names);
        int i = rng.below((int)nodes.size());
        if (nodes[i].client) return;
        note("'%s' is registered as %d", n.c_str(), i);
        ever[n].push_back(nodes[i].addr);
        if (nodes[i].going) for (auto *c : clients) c->excused = true;
        sender->request<payload::registration_request_t>(reg->get_address(), n, nodes[i].addr).send(ms(1000));
    } else if (k < 28) {
        auto &n = rng.pick(names);
        note("'%s' is deregistered", n.c_str());
        for (auto *c : clients) for (auto &s : c->seeks) if (s.name == n) s.stable = false;
        unsettled.insert(n);
        dropped.insert(n);
        sender->send<payload::deregistration_service_t>(reg->get_address(), n);
    } else if (k < 42 && clients.size() < 6 && sup->state == state_t::OPERATIONAL) {
        auto c = sup->create_actor<client_t>().init_timeout(ms(2000)).shutdown_timeout(ms(1000)).finish();
        c->no = (int)clients.size();
        std::string text;
        auto pool = names;
        for (auto *o : clients) for (auto &n : o->own) if (std::find(pool.begin(), pool.end(), n) == pool.end()) pool.push_back(n);
        int m = rng.below(5);
        bool promises = rng.chance(50);
        for (int i = 0; i < m && !pool.empty(); ++i) {
            int j = rng.below((int)pool.size());
            auto n = pool[j];
            pool.erase(pool.begin() + j);
            seek_t s{n, promises ? rng.chance(85) : rng.chance(20), rng.chance(70), rng.chance(50)};
            s.stable = holds(n) && !unsettled.count(n);
            for (auto &a : ever[n]) for (auto &x : nodes) if (x.addr == a && (x.going || x.a->state > state_t::OPERATIONAL)) c->excused = true;
            c->seeks.push_back(s);
            text += " " + n + (s.promise ? "?" : "") + (s.link ? s.only_op ? "+" : "-" : "");
        }
        m = rng.below(3);
        text += " own";
        for (int i = 0; i < m; ++i) {
            auto n = rng.chance(80) ? "own" + std::to_string(c->no) + std::to_string(i) : rng.pick(names);
            bool dup = false;
            for (auto &o : c->own) dup = dup || o == n;
            for (auto &s : c->seeks) dup = dup || s.name == n; // its own name would make it link with itself
            // a name that an earlier client seeks might make them link with each other, i.e. neither could go first
            for (auto *o : clients) for (auto &s : o->seeks) dup = dup || s.name == n;
            if (dup) continue;
            c->own.push_back(n);
            ever[n].push_back(c->get_address());
            ever[n].push_back(c->get_address());
            if (n[0] == 'o') ever[n].resize(1);
            text += " " + n;
        }
        note("client %d (%d) seeks%s", c->no, (int)nodes.size(), text.c_str());
        clients.push_back(c.get());
        nodes.push_back({c, c->get_address(), c.get()});
    } else if (k < 46 || (k < 60 && ticks % 16 == 0)) {
        int i = rng.below((int)nodes.size());
        auto &n = nodes[i];
        if (n.going || (!n.client && rng.chance(70))) return;
        note("%d is asked to shut down", i);
        n.going = true;
        for (auto *c : clients) c->excused = true;
        n.a->do_shutdown();
    } else {
        return; // a message passes by
    }
}

static void history(rng_t &rng, long) {
    {
    world_t w(rng);
    W = &w;
    w.sup = w.ctx.create_supervisor<sup_t>().timeout(ms(5000)).create_registry().policy(supervisor_policy_t::shutdown_failed).finish();
    w.clock = w.sup->create_actor<clock_t_>().timeout(ms(5000)).finish();
    for (int i = 0; i < 3; ++i) {
        auto s = w.sup->create_actor<service_t>().timeout(ms(1000)).finish();
        w.nodes.push_back({s, s->get_address(), nullptr});
    }
    w.settle();
    for (auto &x : w.sup->alive_actors) if (auto r = dynamic_cast<const registry_t *>(x)) w.reg = const_cast<registry_t *>(r);
    REQ("P10", w.reg && w.sup->state == state_t::OPERATIONAL, "the supervisor does not start");
    // some names are there from the beginning
    for (auto &n : w.names) if (rng.chance(50)) {
        int i = rng.below(3);
        note("'%s' is registered as %d", n.c_str(), i);
        w.ever[n].push_back(w.nodes[i].addr);
        w.clock->request<payload::registration_request_t>(w.reg->get_address(), n, w.nodes[i].addr).send(ms(1000));
    }
    w.settle();
    int rounds = 1 + rng.below(5);
    for (int i = 0; i < rounds; ++i) {
        w.ticks = 5 + rng.below(40);
        w.clock->send<payload_tick_t>(w.clock->get_address());
        w.settle();
        note("quiet");
        if (rng.chance(25)) {
            int m = 1 + rng.below(4);
            for (int k = 0; k < m; ++k) {
                note("a timer fires");
                for (auto *c : w.clients) c->excused = true;
                w.sup->fire_next();
                w.settle();
            }
        }
    }
    // what is left to settle gets its timeouts
    for (int i = 0; i < 200; ++i) {
        bool open = false;
        for (auto *c : w.clients) open = open || (c->state != state_t::OPERATIONAL && c->state != state_t::SHUT_DOWN);
        if (!open) break;
        for (auto *c : w.clients) c->excused = true;
        if (!w.sup->fire_next()) break;
        w.settle();
    }
    for (auto *c : w.clients) REQ("P10", c->state == state_t::OPERATIONAL || c->state == state_t::SHUT_DOWN, "client %d is stuck in state %d after all timeouts", c->no, (int)c->state);
    for (auto *c : w.clients) c->excused = true;
    note("the supervisor shuts down");
    w.sup->do_shutdown();
    w.settle();
    for (int i = 0; i < 200 && w.sup->state != state_t::SHUT_DOWN && w.sup->fire_next(); ++i) w.settle();
    REQ("P10", w.sup->state == state_t::SHUT_DOWN, "the supervisor does not shut down");
    for (auto *c : w.clients) REQ("P10", c->finished_ == 1, "client %d has not been shut down", c->no);
    }
}
int main(int argc, char **argv) { return run(argc, argv, history); }
