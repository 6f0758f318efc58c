// P09: random histories of registrations, discoveries and promises against a table of names.
#include "prop.h"
using namespace rotor;
using namespace sim;
using namespace prop;
namespace plug = rotor::plugin;

struct world_t;
static world_t *W;
struct asker_t : actor_base_t {
    using actor_base_t::actor_base_t;
    using plugins_list_t = std::tuple<plug::address_maker_plugin_t, plug::lifetime_plugin_t, plug::init_shutdown_plugin_t, plug::link_server_plugin_t,
        plug::link_client_plugin_t, plug::resources_plugin_t, plug::starter_plugin_t>;
    int no = 0;
    void configure(plug::plugin_base_t &p) noexcept override {
        actor_base_t::configure(p);
        p.with_casted<plug::starter_plugin_t>([](auto &s) { s.subscribe_actor(&asker_t::on_future); s.subscribe_actor(&asker_t::on_found); s.subscribe_actor(&asker_t::on_reg); });
    }
    void on_future(message::discovery_future_t &m) noexcept;
    void on_found(message::discovery_response_t &m) noexcept;
    void on_reg(message::registration_response_t &m) noexcept;
};
enum kind_t { REG, DISC, PROM };
struct q_t { kind_t kind; int who; std::string name; bool done = false, cancelled = false; int expect = -2; /* address, -1 an error, -2 nothing yet */ int got = -2, count = 0; };

struct world_t {
    rng_t &rng;
    ctx_t ctx;
    intrusive_ptr_t<sup_t> sup;
    std::vector<intrusive_ptr_t<asker_t>> nodes;
    std::vector<address_ptr_t> addrs;
    std::map<std::string, int> model;
    std::map<std::pair<int, request_id_t>, q_t> qs;
    std::vector<std::pair<int, request_id_t>> order;
    std::vector<std::string> names{"alpha", "beta", "gamma"};
    explicit world_t(rng_t &r) : rng(r) {}
    void settle() { for (int i = 0; i < 1000 && !sup->queue.empty(); ++i) sup->do_process(); }
    void answer(int who, request_id_t id, kind_t k, int addr) {
        note("  asker %d gets an answer to request %d: %d", who, (int)id, addr);
        auto it = qs.find({who, id});
        REQ("P09 P10", it != qs.end() && it->second.kind == k, "an answer to a question nobody asked");
        auto &q = it->second;
        REQ("P09", ++q.count == 1, "a request was answered twice");
        q.got = addr;
    }
    int num(const address_ptr_t &a) { for (size_t i = 0; i < addrs.size(); ++i) if (addrs[i] == a) return (int)i; return 99; }
    // what must have been answered by now
    void compare() {
        for (auto &p : qs) {
            auto &q = p.second;
            if (q.cancelled) { continue; }
            REQ("P09", q.got == q.expect, "request %d for '%s': got %d, expected %d", (int)p.first.second, q.name.c_str(), q.got, q.expect);
        }
    }
};
void asker_t::on_reg(message::registration_response_t &m) noexcept { W->answer(no, m.payload.request_id(), REG, m.payload.ee ? -1 : 0); }
void asker_t::on_found(message::discovery_response_t &m) noexcept { W->answer(no, m.payload.request_id(), DISC, m.payload.ee ? -1 : W->num(m.payload.res.service_addr)); }
void asker_t::on_future(message::discovery_future_t &m) noexcept { W->answer(no, m.payload.request_id(), PROM, m.payload.ee ? -1 : W->num(m.payload.res.service_addr)); }

static void history(rng_t &rng, long) {
    world_t w(rng);
    W = &w;
    w.sup = w.ctx.create_supervisor<sup_t>().timeout(ms(1000)).create_registry().finish();
    for (int i = 0; i < 3; ++i) {
        w.nodes.push_back(w.sup->create_actor<asker_t>().timeout(ms(1000)).finish());
        w.nodes.back()->no = i;
        w.addrs.push_back(w.nodes.back()->get_address());
        w.addrs.push_back(w.nodes.back()->create_address());
    }
    w.settle();
    auto reg = w.sup->registry_address;
    REQ("P09", reg, "there is no registry");
    int n = 5 + rng.below(60);
    for (int i = 0; i < n; ++i) {
        int who = rng.below(3);
        auto &a = *w.nodes[who];
        auto name = rng.pick(w.names);
        int addr = rng.below((int)w.addrs.size());
        switch (rng.below(9)) {
        case 0: case 1: case 2: {
            auto id = a.request<payload::registration_request_t>(reg, name, w.addrs[addr]).send(ms(1000));
            q_t q{REG, who, name};
            note("request %d: asker %d registers '%s' as %d", (int)id, who, name.c_str(), addr);
            if (w.model.count(name)) q.expect = -1;
            else {
                q.expect = 0;
                w.model[name] = addr;
                for (auto &k : w.order) { auto &p = w.qs[k]; if (p.kind == PROM && p.name == name && !p.cancelled && p.expect == -2) p.expect = addr; }
            }
            w.qs[{who, id}] = q;
            w.order.push_back({who, id});
            break;
        }
        case 3: {
            note("'%s' is deregistered", name.c_str());
            a.send<payload::deregistration_service_t>(reg, name);
            w.model.erase(name);
            break;
        }
        case 4: {
            note("address %d is deregistered", addr);
            a.send<payload::deregistration_notify_t>(reg, w.addrs[addr]);
            for (auto it = w.model.begin(); it != w.model.end();) it = it->second == addr ? w.model.erase(it) : std::next(it);
            break;
        }
        case 5: {
            auto id = a.request<payload::discovery_request_t>(reg, name).send(ms(1000));
            note("request %d: asker %d discovers '%s'", (int)id, who, name.c_str());
            q_t q{DISC, who, name};
            q.expect = w.model.count(name) ? w.model[name] : -1;
            w.qs[{who, id}] = q;
            w.order.push_back({who, id});
            break;
        }
        case 6: case 7: {
            auto id = a.request<payload::discovery_promise_t>(reg, name).send(ms(1000));
            note("request %d: asker %d awaits '%s'", (int)id, who, name.c_str());
            q_t q{PROM, who, name};
            if (w.model.count(name)) q.expect = w.model[name];
            w.qs[{who, id}] = q;
            w.order.push_back({who, id});
            break;
        }
        default: {
            std::vector<std::pair<int, request_id_t>> v;
            for (auto &k : w.order) if (w.qs[k].kind == PROM && w.qs[k].who == who && !w.qs[k].cancelled && w.qs[k].expect == -2) v.push_back(k);
            if (v.empty()) break;
            auto k = rng.pick(v);
            note("request %d is cancelled", (int)k.second);
            a.send<message::discovery_cancel_t::payload_t>(reg, k.second, a.get_address());
            w.qs[k].expect = -1; // answered by a cancellation
        }
        }
        if (rng.chance(60)) { w.settle(); w.compare(); }
    }
    w.settle();
    w.compare();
    // what is registered is exactly what the table says
    for (auto &name : w.names) {
        auto &a = *w.nodes[0];
        auto id = a.request<payload::discovery_request_t>(reg, name).send(ms(1000));
        note("request %d: finally '%s'", (int)id, name.c_str());
        q_t q{DISC, 0, name};
        q.expect = w.model.count(name) ? w.model[name] : -1;
        w.qs[{0, id}] = q;
        w.settle();
        w.compare();
        if (w.model.count(name)) continue;
        auto rid = a.request<payload::registration_request_t>(reg, name, w.addrs[0]).send(ms(1000));
        q_t r{REG, 0, name};
        r.expect = 0;
        w.qs[{0, rid}] = r;
        for (auto &k : w.order) { auto &p = w.qs[k]; if (p.kind == PROM && p.name == name && !p.cancelled && p.expect == -2) p.expect = 0; }
        w.settle();
        w.compare();
    }
    for (auto &p : w.qs) REQ("P09", p.second.count == 1, "request %d was answered %d times", (int)p.first.second, p.second.count);
    w.sup->do_shutdown();
    w.settle();
    REQ("P09 P13", w.sup->state == state_t::SHUT_DOWN, "the supervisor did not shut down");
}
int main(int argc, char **argv) { return run(argc, argv, history); }
