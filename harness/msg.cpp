// P01, P02, P14: random histories of sending, subscribing and unsubscribing over several localities.
#include "prop.h"
using namespace rotor;
using namespace sim;
using namespace prop;

struct item_t { int id; int hop; std::shared_ptr<int> life; };
template <int T> struct typed_t : item_t { typed_t(const item_t &i) : item_t(i) {} };
template <int T> using msg_t = message_t<typed_t<T>>;

struct world_t;
static world_t *W;

struct same_sup_t : sup_t { // the locality of its parent
    using sup_t::sup_t;
    address_ptr_t make_address() noexcept override { return instantiate_address(static_cast<actor_base_t *>(parent)->address->locality); }
};
struct own_sup_t : sup_t { // a locality of its own
    using sup_t::sup_t;
    address_ptr_t make_address() noexcept override { return instantiate_address(this); }
};

struct node_t : actor_base_t {
    using actor_base_t::actor_base_t;
    int no = 0;
    sup_t *boss = nullptr;
    std::vector<address_ptr_t> extra;
    std::vector<message_ptr_t> kept;
    template <int T, int K> void on(msg_t<T> &m) noexcept;
};

enum sub_state { NO, YES, LEAVING };
struct hkey_t {
    int actor, addr, type, k;
    bool operator<(const hkey_t &o) const { return std::tie(actor, addr, type, k) < std::tie(o.actor, o.addr, o.type, o.k); }
};
struct sent_t {
    int type, addr, next, from, seq, put_at;
    bool kept = false;
    std::set<hkey_t> due[2], seen[2];   // by hop
    bool delivered[2] = {false, false};
};

// handlers are told apart by their type: member functions first, then lambdas
template <int T, int K> auto lam(node_t *n) { return rotor::lambda<msg_t<T>>([n](msg_t<T> &m) { n->on<T, K>(m); }); }
template <int T, typename F> void by_k(node_t *n, int k, F &&f) {
    if (k == 0) f(&node_t::on<T, 0>);
    else if (k == 1) f(lam<T, 1>(n));
    else f(lam<T, 2>(n));
}
template <typename F> void dispatch(node_t *n, int t, int k, F &&f) {
    if (t == 0) by_k<0>(n, k, f); else by_k<1>(n, k, f);
}

struct world_t {
    rng_t &rng;
    ctx_t ctx;
    std::vector<intrusive_ptr_t<sup_t>> sups;
    std::vector<intrusive_ptr_t<node_t>> nodes;
    std::vector<address_ptr_t> addrs;
    std::map<const address_t *, int> addr_no;
    std::map<hkey_t, sub_state> subs;
    std::map<hkey_t, int> when, sub_ops;
    std::vector<sent_t> msgs;
    std::map<std::pair<int, int>, std::pair<int, int>> last; // (receiving actor, sending locality) -> last seq at an address
    std::map<const void *, int> last_leader;
    int budget, ops = 0;
    explicit world_t(rng_t &r) : rng(r) { budget = 10 + r.below(60); }

    sup_t *leader(int node) { return static_cast<sup_t *>(nodes[node]->boss->locality_leader); }
    int addr_leader(int a) {
        for (size_t i = 0; i < sups.size(); ++i)
            if (addrs[a]->same_locality(*static_cast<supervisor_t *>(sups[i].get())->locality_leader->address)) return leader_no(static_cast<sup_t *>(sups[i]->locality_leader));
        return -1;
    }
    int leader_no(sup_t *l) { for (size_t i = 0; i < sups.size(); ++i) if (sups[i].get() == l) return (int)i; return -1; }

    void build() {
        sups.push_back(ctx.create_supervisor<sup_t>().timeout(ms(1000)).finish());
        int n = rng.below(3);
        for (int i = 0; i < n; ++i) {
            auto &par = sups[rng.below((int)sups.size())];
            if (rng.chance(60)) sups.push_back(par->create_actor<own_sup_t>().timeout(ms(1000)).finish());
            else sups.push_back(par->create_actor<same_sup_t>().timeout(ms(1000)).finish());
        }
        int k = 2 + rng.below(3);
        for (int i = 0; i < k; ++i) {
            auto &s = rng.pick(sups);
            auto a = s->create_actor<node_t>().timeout(ms(1000)).finish();
            a->no = i;
            a->boss = s.get();
            nodes.push_back(a);
        }
        settle();
        for (auto &s : sups) REQ("P01 P13", s->state == state_t::OPERATIONAL, "a supervisor did not start");
        for (auto &nd : nodes) {
            add(nd->get_address());
            if (rng.chance(50)) { nd->extra.push_back(nd->create_address()); add(nd->extra.back()); }
        }
        note("%d supervisors, %d actors, %d addresses", (int)sups.size(), (int)nodes.size(), (int)addrs.size());
        for (size_t i = 0; i < sups.size(); ++i) note("  supervisor %d, leader %d", (int)i, leader_no(static_cast<sup_t *>(sups[i]->locality_leader)));
        for (size_t i = 0; i < nodes.size(); ++i) note("  actor %d of supervisor %d", (int)i, leader_no(nodes[i]->boss));
    }
    void add(const address_ptr_t &a) { addr_no[a.get()] = (int)addrs.size(); addrs.push_back(a); }

    bool round() {
        bool any = false;
        for (size_t i = 0; i < sups.size(); ++i) {
            auto *l = static_cast<sup_t *>(sups[i]->locality_leader);
            if (l != sups[i].get()) continue;
            if (!l->queue.empty()) {
                any = true;
                l->do_process();
                REQ("P01", l->queue.empty(), "a processing round of supervisor %d ended with a message in the queue", (int)i);
            }
        }
        return any;
    }
    void settle() { for (int i = 0; i < 1000 && round(); ++i) {} }

    void send(int from) {
        sent_t s;
        s.type = rng.below(2);
        s.addr = rng.below((int)addrs.size());
        s.next = rng.chance(20) ? rng.below((int)addrs.size()) : -1;
        s.from = leader_no(leader(from));
        s.seq = (int)msgs.size();
        s.put_at = ops;
        int id = (int)msgs.size();
        msgs.push_back(s);
        note("actor %d sends #%d of type %d to address %d%s%s", from, id, s.type, s.addr, s.next >= 0 ? ", then " : "", s.next >= 0 ? std::to_string(s.next).c_str() : "");
        item_t it{id, 0, std::make_shared<int>(id)};
        auto &n = *nodes[from];
        auto go = [&](auto tag) {
            constexpr int T = decltype(tag)::value;
            if (s.next >= 0) n.route<typed_t<T>>(addrs[s.addr], addrs[s.next], it);
            else n.send<typed_t<T>>(addrs[s.addr], it);
        };
        if (s.type == 0) go(std::integral_constant<int, 0>()); else go(std::integral_constant<int, 1>());
    }
    void subscribe(int who) {
        hkey_t k{who, rng.below((int)addrs.size()), rng.below(2), rng.below(3)};
        auto it = subs.find(k);
        if (it != subs.end() && it->second != NO) return;
        note("actor %d subscribes handler %d/%d to address %d", who, k.type, k.k, k.addr);
        dispatch(nodes[who].get(), k.type, k.k, [&](auto f) { auto g = f; nodes[who]->subscribe(std::move(g), addrs[k.addr]); });
        subs[k] = YES;
        when[k] = ops;
    }
    void unsubscribe(int who) {
        std::vector<hkey_t> own;
        for (auto &p : subs) if (p.second == YES && p.first.actor == who) own.push_back(p.first);
        if (own.empty()) return;
        auto k = rng.pick(own);
        // the subscription must have been confirmed
        bool known = false;
        for (auto &i : nodes[who]->lifetime->points)
            if (i->address == addrs[k.addr] && i->state == subscription_info_t::state_t::ESTABLISHED) known = known || same(*i, k);
        if (!known) return;
        note("actor %d unsubscribes handler %d/%d from address %d", who, k.type, k.k, k.addr);
        dispatch(nodes[who].get(), k.type, k.k, [&](auto f) {
            auto g = f;
            if constexpr (std::is_member_function_pointer_v<decltype(g)>) nodes[who]->unsubscribe(std::move(g), addrs[k.addr]);
            else nodes[who]->lifetime->unsubscribe(wrap_handler(*nodes[who], std::move(g)), addrs[k.addr]);
        });
        subs[k] = LEAVING;
    }
    bool same(const subscription_info_t &i, const hkey_t &k) {
        bool r = false;
        dispatch(nodes[k.actor].get(), k.type, k.k, [&](auto f) { auto g = f; auto h = wrap_handler(*nodes[k.actor], std::move(g)); r = *h == *i.handler; });
        return r;
    }
    // is the handler gone for good?
    bool recorded(const hkey_t &k) {
        for (auto &i : nodes[k.actor]->lifetime->points)
            if (i->address == addrs[k.addr] && same(*i, k)) return true;
        return false;
    }
    void refresh() {
        for (auto &p : subs) if (p.second == LEAVING && !recorded(p.first)) p.second = NO;
    }
    void op(int who) {
        ++ops;
        refresh();
        int c = rng.below(10);
        if (c < 5) send(who);
        else if (c < 8) subscribe(who);
        else unsubscribe(who);
    }
    void seen(node_t &n, const address_ptr_t &at, int type, int k, const item_t &it, message_ptr_t m) {
        int a = addr_no.count(at.get()) ? addr_no[at.get()] : -1;
        auto &s = msgs[it.id];
        note("  actor %d handler %d/%d gets #%d at address %d", n.no, type, k, it.id, a);
        REQ("P02 P01", type == s.type, "message #%d of type %d reached a handler of type %d", it.id, s.type, type);
        REQ("P01 P02", a == s.addr || (s.next >= 0 && a == s.next), "message #%d was delivered at address %d", it.id, a);
        refresh();
        hkey_t key{n.no, a, type, k};
        auto f = subs.find(key);
        REQ("P02", f != subs.end() && f->second != NO, "handler %d/%d of actor %d ran for address %d without being subscribed to it", type, k, n.no, a);
        int hop = a == s.addr && !(s.next == s.addr && s.seen[0].count(key)) ? 0 : 1;
        REQ("P01 P02", s.seen[hop].insert(key).second, "message #%d was delivered twice to the same handler", it.id);
        // FIFO between a sending and a receiving locality, as far as first hops are concerned
        auto *ld = static_cast<sup_t *>(n.boss->locality_leader);
        if (hop == 0 && s.next < 0) {
            int al = addr_leader(a);
            auto &l = last[{n.no * 16 + al, s.from}];
            REQ("P01", it.id >= l.first, "actor %d got message #%d after #%d, which was sent later", n.no, it.id, l.first);
            l.first = it.id;
            if (al == s.from && leader_no(ld) == al) { // one locality only: a total order
                auto &g = last_leader[ld];
                REQ("P01", it.id >= g, "message #%d was processed after #%d of the same locality", it.id, g);
                g = it.id;
            }
        }
        if (rng.chance(10)) { s.kept = true; n.kept.push_back(m); note("    and keeps it"); }
        if (budget > 0 && rng.chance(40)) { --budget; op(n.no); }
    }
};

template <int T, int K> void node_t::on(msg_t<T> &m) noexcept { W->seen(*this, m.address, T, K, m.payload, &m); }

static void history(rng_t &rng, long) {
    world_t w(rng);
    W = &w;
    w.build();
    std::vector<std::weak_ptr<int>> alive;
    while (w.budget-- > 0) {
        int who = w.rng.below((int)w.nodes.size());
        w.op(who);
        if (w.rng.chance(30)) { w.round(); w.refresh(); }
    }
    w.settle();
    w.refresh();
    // quiescence: every subscription is stable now, what is sent next is seen by exactly the subscribers, in subscription order
    for (auto &p : w.subs) REQ("P02 P14", p.second != LEAVING, "an unsubscription was never finished");
    for (int t = 0; t < 2; ++t)
        for (size_t a = 0; a < w.addrs.size(); ++a) {
            sent_t s;
            s.type = t; s.addr = (int)a; s.next = -1; s.from = -1; s.seq = (int)w.msgs.size(); s.put_at = w.ops;
            int who = rng.below((int)w.nodes.size());
            s.from = w.leader_no(w.leader(who));
            w.msgs.push_back(s);
            int id = s.seq;
            w.budget = 0;
            item_t it{id, 0, std::make_shared<int>(id)};
            if (t == 0) w.nodes[who]->send<typed_t<0>>(w.addrs[a], it); else w.nodes[who]->send<typed_t<1>>(w.addrs[a], it);
            note("actor %d sends #%d of type %d to address %d (everything is quiet)", who, id, t, (int)a);
            w.settle();
            for (auto &p : w.subs)
                if (p.first.type == t && p.first.addr == (int)a)
                    REQ("P02 P01", (p.second == YES) == (w.msgs[id].seen[0].count(p.first) == 1), "message #%d %s handler %d/%d of actor %d", id,
                        p.second == YES ? "did not reach the subscribed" : "reached the unsubscribed", p.first.type, p.first.k, p.first.actor);
        }
    // handlers that were subscribed all the time have seen everything
    for (size_t i = 0; i < w.msgs.size(); ++i)
        for (auto &p : w.subs)
            if (p.second == YES && w.msgs[i].type == p.first.type && w.when[p.first] < w.msgs[i].put_at && w.msgs[i].addr == p.first.addr &&
                w.addr_leader(p.first.addr) == w.leader_no(w.leader(p.first.actor))) // an external subscription takes effect later
                REQ("P01 P02", w.msgs[i].seen[0].count(p.first), "message #%d was lost on its way to actor %d", (int)i, p.first.actor);
    for (auto &n : w.nodes) n->kept.clear();
    // one actor leaves: none of its handlers is left anywhere
    if (rng.chance(60)) {
        auto &n = *w.rng.pick(w.nodes);
        note("actor %d shuts down", n.no);
        n.do_shutdown();
        w.settle();
        REQ("P14 P06", n.state == state_t::SHUT_DOWN, "actor %d did not shut down", n.no);
        REQ("P14", n.lifetime == nullptr || n.lifetime->points.empty(), "actor %d is gone, but not its subscriptions", n.no);
        for (auto &s : w.sups) {
            for (auto &l : s->subscription_map.internal_infos)
                for (auto &i : l.second) REQ("P14", i->handler->actor_ptr != &n, "a subscription of actor %d outlives it", n.no);
            for (auto &l : s->subscription_map.mine_handlers)
                for (auto *v : {&l.second.internal, &l.second.external})
                    for (auto *h : *v) REQ("P14 P02", h->actor_ptr != &n, "a handler of actor %d would still be called", n.no);
        }
    }
    // shut down: nothing of the actors is left
    auto root = w.sups[0];
    root->do_shutdown();
    w.settle();
    for (int i = 0; i < 20 && root->state != state_t::SHUT_DOWN; ++i) w.settle();
    for (auto &n : w.nodes) REQ("P14 P13", n->state == state_t::SHUT_DOWN, "actor %d did not shut down", n->no);
    for (auto &s : w.sups) {
        REQ("P14 P13", s->state == state_t::SHUT_DOWN, "a supervisor did not shut down");
        REQ("P04 P14", s->timers.empty(), "a timer is left");
        for (auto &l : s->subscription_map.internal_infos)
            for (auto &i : l.second) REQ("P14", !i->internal_handler, "a supervisor that finished still has a subscription of its own locality in its index");
    }
}

int main(int argc, char **argv) { return run(argc, argv, history); }
