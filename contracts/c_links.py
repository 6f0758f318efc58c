"""Links: the server side (who is linked to me) and the client side (whom I am linked to)."""
from common import *

TUS = ["src/rotor/plugin/link_server.cpp", "src/rotor/plugin/link_client.cpp", "src/rotor/plugin/plugin_base.cpp", "src/rotor/actor_base.cpp",
       "src/rotor/extended_error.cpp", "src/rotor/error_code.cpp"]
A = "actor_base_t."
LS = "link_server_plugin_t."
LI = "link_server_plugin_t::link_info_t."
LC = "link_client_plugin_t."
SR = "link_client_plugin_t::server_record_t."
V = 16  # value of a node


def S(x, n):
    return x.lay["state_t::" + n]


def actor(x, st_min=None):
    a = actor_obj(x)
    sup = x.ptr("supervisor", "actor")
    x.wr(x.st, a, A + "supervisor", sup)
    x.assume(x.rdb(x.st, a, A + "address") != 0)
    x.assume(x.rdb(x.st, sup, A + "address") != 0)
    x.g.update(actor=a, sup=sup, state=x.rdb(x.st, a, A + "state"), address=x.rdb(x.st, a, A + "address"))
    return a


# ================================================================ server side
def setup_s(x):
    this = x.ptr("link_server", "plugin")
    x.fix_vtable(this, "@_ZTVN5rotor6plugin20link_server_plugin_tE")
    x.wr(x.st, this, "plugin_base_t.actor", actor(x))
    x.g["this"] = this
    x.args = [this]


def clients(x, st):
    return x.map(st, x.g["this"], LS + "linked_clients")


def info(x, st, node, f, off=0, n=None):
    o, sz = x.lay[LI + f]
    return ival(x, st, addoff(node, V + o + off), n or sz)


INFO = [(0, 4), (8, 8), (16, 8), (24, 1)]
INFO_NAMES = INFO


def s_msg(x, t, name="message"):
    m = x.ptr(name, "message")
    x.args.append(m)
    x.g["msg"] = m
    return m


def setup_link_request(x):
    setup_s(x)
    m = s_msg(x, "link_request_t")
    x.g["client"] = x.rdb(x.st, m, "message::link_request_t.payload.origin")
    rt = x.ptr("reply_to", "address")
    x.wr(x.st, m, "message::link_request_t.payload.reply_to", rt)
    x.g["reply_to"] = rt


def reacts(x, st, r, p=None):
    return (x.rdb(st, p if p is not None else x.g["this"], "plugin_base_t.reaction") & x.lay["reaction_t::" + r]) != 0


def post_link_request(x, st, ret):
    ms = sent(x, st)
    m0, m1 = clients(x, x.pre), clients(x, st)
    c, s = x.g["client"], x.g["state"]
    late, dup = s > S(x, "OPERATIONAL"), m0.has(c)
    only = (x.rdb(x.pre, x.g["msg"], "message::link_request_t.payload.request_payload.operational_only") & 1) == 1
    wait = z3.And(only, s < S(x, "OPERATIONAL"))
    yield "answered at once unless it has to wait for the server to become operational", iff(len(ms), z3.Not(z3.And(z3.Not(late), z3.Not(dup), wait)))
    ok = z3.And(z3.Not(late), z3.Not(dup))
    for m in ms:
        e = x.load(m.st, addoff(m.base, x.foff("message::link_response_t.payload.ee")), 8)
        yield from answer(x, m, "link_response", x.g["msg"], x.g["reply_to"], x.g["sup"], err=e)
        yield "refused exactly when shutting down or already linked", (bv(e) != 0) == z3.Not(ok)
        if not x.eng.must(m.st, bv(e) == 0):
            er = Err(x, m.st, e)
            yield "a late request is told so", z3.Implies(late, er.code == x.lay["error_code_t::actor_not_linkable"])
            yield "a duplicate is told so", z3.Implies(z3.And(z3.Not(late), dup), er.code == x.lay["error_code_t::already_linked"])
            yield "the error is about the request", er.request == x.g["msg"]
    if not x.eng.feasible(st, ok):
        yield "a refusal changes nothing", m0 is m1
        return
    yield "refused requests do not get here", ok
    yield "the client is linked now", m1.has(c)
    yield "other links are kept", only_changed(m0, m1, c)
    n = node_of(x, m1, c)
    yield "it is pending exactly if it has to wait", info(x, st, n, "state") == z3.If(wait, z3.BitVecVal(x.lay["ls::PENDING"], 32), z3.BitVecVal(x.lay["ls::OPERATIONAL"], 32))
    yield "a pending request is kept for the answer", z3.Implies(wait, info(x, st, n, "request") == x.g["msg"])
    yield "no unlink is pending", info(x, st, n, "unlink_request", 8, 1) == 0
    yield "the server waits for its start", z3.Implies(wait, reacts(x, st, "START"))


def node_of(x, m, k):
    n = z3.simplify(z3.Select(m.node, k))
    return n.as_long() if z3.is_bv_value(n) else n


def setup_unlink_notify(x):
    setup_s(x)
    m = s_msg(x, "unlink_notify_t")
    x.g["client"] = x.rdb(x.st, m, "message::unlink_notify_t.payload.client_addr")


def post_unlink_notify(x, st, ret):
    m0, m1 = clients(x, x.pre), clients(x, st)
    c = x.g["client"]
    yield "nothing is sent", not sent(x, st)
    yield "the client is forgotten", z3.Not(m1.has(c))
    yield "every other link is kept", only_changed(m0, m1, c)
    had = m0.has(c)
    sc, tc = evs(st, "shutdown_continue"), evs(st, "cancel_timer")
    yield "shutdown goes on once exactly if it waited for a client", iff(len(sc), z3.And(had, x.g["state"] == S(x, "SHUTTING_DOWN")))
    n0 = m0.at(c)
    pend = (info(x, x.pre, n0, "unlink_request", 8, 1) & 1) == 1
    yield "its pending unlink request is cancelled exactly if there is one", iff(len(tc), z3.And(had, pend))
    for e in tc:
        yield "the right request, at the own supervisor", z3.And(bv(e[1]) == x.g["sup"], bv(e[2]) == info(x, x.pre, n0, "unlink_request", 0, 8))
    for e in sc:
        yield "only after the client is forgotten", z3.Not(clients(x, e[-1]).has(c))
        yield "this actor continues", bv(e[1]) == x.g["actor"]


def setup_unlink_response(x):
    setup_s(x)
    m = s_msg(x, "unlink_response_t")
    c = x.rdb(x.st, m, "message::unlink_response_t.payload.res")
    ee = maybe(x, "error", "error")
    x.wr(x.st, m, "message::unlink_response_t.payload.ee", ee)
    r = maybe(x, "shutdown_request", "message")
    x.wr(x.st, x.g["actor"], A + "shutdown_request", r)
    x.assume(x.rdb(x.st, r, "message::shutdown_request_t.payload.reply_to") != 0)
    req = x.ptr("unlink_request", "message")
    x.wr(x.st, m, "message::unlink_response_t.payload.req", req)
    # whom the unlink request was sent to; an error response carries no client address
    to = x.rdb(x.st, req, "message_base_t.address")
    x.assume(z3.If(ee == 0, c == to, c == 0))
    x.assume(clients(x, x.st).has(to))
    x.assume(to != 0)
    x.assume(z3.Not(clients(x, x.st).has(z3.BitVecVal(0, 64))))
    x.g.update(client=to, ee=ee, req=r)


def post_unlink_response(x, st, ret):
    m0, m1 = clients(x, x.pre), clients(x, st)
    c, ee, r = x.g["client"], x.g["ee"], x.g["req"]
    fails = z3.And(ee != 0, r != 0)
    ms, sc = sent(x, st), evs(st, "shutdown_continue")
    yield "a failed unlink is reported once to whoever asked for the shutdown", iff(len(ms), fails)
    for m in ms:
        yield from answer(x, m, "shutdown_response", r, x.rdb(x.pre, r, "message::shutdown_request_t.payload.reply_to"), x.g["sup"], err=ee)
    if not x.eng.feasible(st, z3.Not(fails)):
        yield "then no shutdown is continued", not sc
        return
    yield "the client is forgotten", z3.Not(m1.has(c))
    yield "every other link is kept", only_changed(m0, m1, c)
    yield "shutdown goes on once", iff(len(sc), x.g["state"] == S(x, "SHUTTING_DOWN"))
    for e in sc:
        yield "only after the client is forgotten", z3.Not(clients(x, e[-1]).has(c))


# --- loops over the clients: ghost counter of what was sent to each of them
def setup_clients_loop(x, arg=True):
    setup_s(x)
    if arg:
        s_msg(x, "any")
    Ghost(x, "told")
    Ghost(x, "refused")
    x.assume(each(clients(x, x.st), lambda q, n: q != 0))
    pending_facts(x)
    x.g["on_request"] = on_unlink_sent


def pending(x, st, n):
    return info(x, st, n, "state") == x.lay["ls::PENDING"]


def pending_facts(x):
    P = "message::link_request_t.payload."
    # a pending record holds the request of its own client (on_link_request establishes it)
    x.assume(each(clients(x, x.st), lambda q, n: z3.Implies(pending(x, x.st, n), z3.And(
        info(x, x.st, n, "request") != 0, x.rdb(x.st, info(x, x.st, n, "request"), P + "origin") == q,
        x.rdb(x.st, info(x, x.st, n, "request"), P + "reply_to") != 0))))


def h_put_refuse(eng, st, cc):
    x = eng.x
    r = h_put(eng, st, cc)
    if "refused" not in x.g:
        return r
    m = Msg(x, st.events[-1][1], st.events[-1][2], st.events[-1][3])
    if m.is_("unlink_request"):
        return r  # recorded as a request
    eng.oblige(st, "only link requests are answered", m.is_("link_response"))
    if m.is_("link_response"):
        req = m.f("link_response_t.payload.req")
        c = x.rdb(x.pre, req, "message::link_request_t.payload.origin")
        cm = clients(x, x.pre)
        eng.oblige(st, "only pending clients are refused", z3.And(
            cm.has(c), pending(x, x.pre, cm.at(c)), info(x, x.pre, cm.at(c), "request") == req, x.g["refused"].get(x, st, c) == 0))
        e = x.load(m.st, addoff(m.base, x.foff("message::link_response_t.payload.ee")), 8)
        eng.oblige(st, "with an error", bv(e) != 0)
        er = Err(x, m.st, e)
        eng.oblige(st, "as the server is not linkable any more", z3.And(er.code == x.lay["error_code_t::actor_not_linkable"], er.request == req))
        eng.oblige(st, "to the address that waits for it", m.dst == x.rdb(x.pre, req, "message::link_request_t.payload.reply_to"))
        t = x.g["refused"]
        t.set(x, st, c, t.get(x, st, c) + 1)
    return r


def on_unlink_sent(eng, st, r):
    x = eng.x
    m = clients(x, st)
    n = m.at(r.dst)
    eng.oblige(st, "an unlink request is sent", r.is_("unlink_request"))
    if not r.is_("unlink_request"):
        return
    eng.oblige(st, "only to operational clients", z3.And(m.has(r.dst), info(x, x.pre, n, "state") == x.lay["ls::OPERATIONAL"], x.g["told"].get(x, st, n) == 0))
    eng.oblige(st, "about this server", r.f("unlink_request_t.payload.request_payload.server_addr") == x.g["address"])
    eng.oblige(st, "sent by this actor", z3.And(r.f("unlink_request_t.payload.origin") == x.g["address"], r.actor == x.g["actor"], bv(r.sup) == x.g["sup"]))
    eng.oblige(st, "within the shutdown timeout", r.timeout == x.rdb(x.pre, x.g["actor"], A + "shutdown_timeout"))
    t = x.g["told"]
    t.set(x, st, n, t.get(x, st, n) + 1)
    st.notes["last_id"] = r.id


def client_rel(x, st, q, n, done):
    """state of the record of client q relative to the pre-state"""
    o = lambda s, f, *a: info(x, s, n, f, *a)
    s0, s1 = o(x.pre, "state"), o(st, "state")
    was = s0 == x.lay["ls::OPERATIONAL"]
    told = x.g["told"].get(x, st, n)
    moved = z3.And(was, done)
    return z3.And(s1 == z3.If(moved, z3.BitVecVal(x.lay["ls::UNLINKING"], 32), s0), told == z3.If(moved, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)),
                  z3.Implies(moved, (o(st, "unlink_request", 8, 1) & 1) == 1),
                  z3.Implies(z3.Not(moved), z3.And(o(st, "unlink_request", 8, 1) == o(x.pre, "unlink_request", 8, 1), o(st, "unlink_request", 0, 8) == o(x.pre, "unlink_request", 0, 8))),
                  o(st, "request") == o(x.pre, "request"))


def inv_clients(rel):
    def inv(eng, st, ctx):
        x = eng.x
        m = clients(x, x.pre)
        p = passed(eng, st, ctx)
        yield "the set of clients is untouched", same_map(m, clients(x, st))
        if p is not None:
            yield "clients passed so far are dealt with, the others are not", each(m, lambda q, n: rel(x, st, q, n, p(q)))
        else:
            yield "no client was dealt with yet", each(m, lambda q, n: rel(x, st, q, n, z3.BoolVal(False)))
    return inv


def refused_rel(x, st, q, n, done):
    """a client that waits for the link is refused and forgotten, every other stays"""
    gone = z3.And(pending(x, x.pre, n), done)
    return z3.And(clients(x, st).has(q) == z3.Not(gone), x.g["refused"].get(x, st, q) == z3.If(gone, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)),
                  z3.Implies(z3.Not(gone), client_rel(x, st, q, n, done)))


def inv_notify(eng, st, ctx):
    x = eng.x
    m0, m = clients(x, x.pre), clients(x, st)
    yield "no client is added", each(m, lambda q, n: z3.And(m0.has(q), m0.at(q) == n))
    done = lambda q: z3.BoolVal(False)
    for c in sorted(ctx.mapit, key=str):
        v = bv(st.cells[c][1])
        e = stl.NODEKEY(v)
        done = lambda q: z3.Or(v == 0, z3.Select(m.rank, q) < z3.Select(m.rank, e))
    yield "clients passed so far are dealt with, the others are not", each(m0, lambda q, n: refused_rel(x, st, q, n, done(q)))


def post_notify(x, st, ret):
    m0, m = clients(x, x.pre), clients(x, st)
    yield "no client is added", each(m, lambda q, n: z3.And(m0.has(q), m0.at(q) == n))
    yield "every operational client is asked once to unlink, every pending one is refused, nobody else gets anything", each(m0, lambda q, n: refused_rel(x, st, q, n, z3.BoolVal(True)))
    yield "nothing else is sent", not sent(x, st)


def post_s_shutdown(x, st, ret):
    yield from post_notify(x, st, ret)
    yield "the server's shutdown may finish <=> no client is left", tobool(ret) == (clients(x, st).card == 0)


def h_put_start(eng, st, cc):
    x = eng.x
    r = h_put(eng, st, cc)
    m = Msg(x, st.events[-1][1], st.events[-1][2], st.events[-1][3])
    eng.oblige(st, "only link requests are answered", m.is_("link_response"))
    if m.is_("link_response"):
        req = m.f("link_response_t.payload.req")
        c = x.rdb(x.pre, req, "message::link_request_t.payload.origin")
        cm = clients(x, st)
        n = cm.at(c)
        eng.oblige(st, "only pending clients are answered", z3.And(
            cm.has(c), info(x, x.pre, n, "state") == x.lay["ls::PENDING"], x.g["told"].get(x, st, n) == 0, info(x, st, n, "request") == req))
        eng.oblige(st, "successfully", m.f("link_response_t.payload.ee") == 0)
        eng.oblige(st, "to the address that waits for it", m.dst == x.rdb(x.pre, req, "message::link_request_t.payload.reply_to"))
        t = x.g["told"]
        t.set(x, st, n, t.get(x, st, n) + 1)
    return r


def setup_start(x):
    setup_clients_loop(x)


def start_rel(x, st, q, n, done):
    s0, s1 = info(x, x.pre, n, "state"), info(x, st, n, "state")
    was = z3.And(s0 == x.lay["ls::PENDING"], done)
    return z3.And(s1 == z3.If(was, z3.BitVecVal(x.lay["ls::OPERATIONAL"], 32), s0), info(x, st, n, "request") == info(x, x.pre, n, "request"),
                  x.g["told"].get(x, st, n) == z3.If(was, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))


def post_start(x, st, ret):
    m0 = clients(x, x.pre)
    yield "no client is forgotten or added", same_map(m0, clients(x, st))
    yield "every pending client is answered once and linked, nobody else", each(m0, lambda q, n: start_rel(x, st, q, n, z3.BoolVal(True)))


# ================================================================ client side
QUEUED = z3.Function("queued_unlink_request", BV64, z3.BoolSort())
REC = [(0, 8), (8, 8), (16, 8), (24, 8), (32, 4), (40, 8)]


def setup_c(x, msg=None):
    this = x.ptr("link_client", "plugin")
    x.fix_vtable(this, "@_ZTVN5rotor6plugin20link_client_plugin_tE")
    a = actor(x)
    x.wr(x.st, this, "plugin_base_t.actor", a)
    ls = x.ptr("link_server", "plugin")
    x.fix_vtable(ls, "@_ZTVN5rotor6plugin20link_server_plugin_tE")
    x.wr(x.st, a, A + "link_server", ls)
    x.eng.distinct(x.st, this, ls)
    x.g.update(this=this, server=ls)
    x.args = [this]
    x.g["has_clients"] = x.map(x.st, ls, LS + "linked_clients").card != 0
    # an actor does not link to the null address
    x.assume(z3.Not(servers(x, x.st).has(z3.BitVecVal(0, 64))))
    x.assume(z3.ULE(x.g["state"], 6))
    ir = maybe(x, "init_request", "message")
    x.wr(x.st, a, A + "init_request", ir)
    x.assume(z3.Implies(ir != 0, x.rdb(x.st, ir, "message::init_request_t.payload.reply_to") != 0))
    x.g["init_request"] = ir
    if msg:
        s_msg(x, msg)


def servers(x, st):
    return x.map(st, x.g["this"], LC + "servers_map")


def rec(x, st, node, f):
    o, n = x.lay[SR + f]
    return ival(x, st, addoff(node, V + o), n)


def rec_fn(x, st, node):
    return [ival(x, st, addoff(node, V + o), 8) for o in (0, 8, 16, 24)]


def setup_link(x):
    setup_c(x)
    a = x.ptr("server", "address")
    cb = x.ptr("callback", "fn")
    x.args += [cell(x, a), x.sym("operational_only", 1), cb]
    x.assume(z3.Not(servers(x, x.st).has(a)))
    x.g.update(to=a, cb=cb)


def post_link(x, st, ret):
    m0, m1, to = servers(x, x.pre), servers(x, st), x.g["to"]
    rs = requests(x, st)
    yield "exactly one link request", len(rs) == 1
    for r in rs:
        yield "a link request", r.is_("link_request")
        if not r.is_("link_request"):
            continue
        yield "to the server", r.dst == to
        only = x.args[2]
        yield "asks to wait for the server's start exactly if told so", ((r.f("link_request_t.payload.request_payload.operational_only") & 1) == 1) == (only == 1)
        yield "within the initialization timeout", r.timeout == x.rdb(x.pre, x.g["actor"], A + "init_timeout")
        yield "by this actor", z3.And(r.actor == x.g["actor"], bv(r.sup) == x.g["sup"], r.f("link_request_t.payload.origin") == x.g["address"])
        yield "the server is recorded", m1.has(to)
        n = node_of(x, m1, to)
        yield "as linking", rec(x, st, n, "state") == x.lay["lc::LINKING"]
        yield "under the request", rec(x, st, n, "request_id") == r.id
        yield "with its callback", z3.And([a == b for a, b in zip(rec_fn(x, st, n), [ival(x, x.pre, addoff(x.g["cb"], o), 8) for o in (0, 8, 16, 24)])])
    yield "other links are kept", z3.And(only_changed(m0, m1, to), node_fields_kept(x, st, m0, m1, to, REC))
    yield "initialization waits for it", reacts(x, st, "INIT")


def h_callback(eng, st, cc):
    """a user callback: it is recorded; it does not re-enter the plugin (assumption)"""
    st.events.append(("callback",) + tuple(eng.load(st, addoff(cc.args[0], o), 8) for o in (0, 8, 16, 24)) + tuple(cc.args[1:2]) + (st.copy(),))
    r = None
    if cc.ins is not None and cc.ins.ty.k != "void":
        r = eng.sym("callback_result", z3.BoolSort())
        st.notes["callback_result"] = r
    return [(st, r)]


CALLBACK = (r"^std::function<.*>::operator\(\)\(.*\) const$", h_callback)


def setup_link_response(x):
    setup_c(x, "link_response_t")
    m = x.g["msg"]
    req = x.ptr("link_request", "message")
    ee = maybe(x, "error", "error")
    x.wr(x.st, m, "message::link_response_t.payload.ee", ee)
    x.wr(x.st, m, "message::link_response_t.payload.req", req)
    to = x.rdb(x.st, req, "message_base_t.address")
    x.assume(to != 0)
    x.g.update(to=to, ee=ee)


def post_link_response(x, st, ret):
    m0, m1, to, ee = servers(x, x.pre), servers(x, st), x.g["to"], x.g["ee"]
    ir = x.g["init_request"]
    n0 = m0.at(to)
    cbs, ms, ic = evs(st, "callback"), sent(x, st), evs(st, "init_continue")
    known = m0.has(to)
    if x.eng.must(st, z3.Not(known)):
        yield "the response about a forgotten server changes nothing", z3.And(same_map(m0, m1), z3.BoolVal(not (cbs or ms or ic)))
        return
    yield "responses about forgotten servers do not get here", known
    fn = rec_fn(x, x.pre, n0)
    un = [m for m in ms if x.eng.must(m.st, m.dst == to)]
    ms = [m for m in ms if m not in un]
    late = z3.And(ee != 0, z3.BoolVal(False))
    if x.eng.feasible(st, ee != 0):
        er = Err(x, x.pre.copy(), ee)
        late = z3.And(ee != 0, er.code == x.lay["error_code_t::request_timeout"], bv(er.category) == rotor_category(x))
    yield "a server that did not answer in time is told to forget the client, once", iff(len(un), late)
    for m in un:
        yield "by an unlink notification", m.is_("unlink_notify")
        if m.is_("unlink_notify"):
            yield "about this client", m.f("unlink_notify_t.payload.client_addr") == x.g["address"]
    yield "the callback is invoked once exactly if there is one", iff(len(cbs), fn[2] != 0)
    for e in cbs:
        yield "the recorded callback, with the outcome", z3.And([bv(a) == b for a, b in zip(e[1:5], fn)] + [bv(x.load(e[-1], e[5], 8)) == ee])
    fails = ee != 0
    yield "other links are kept", z3.And(only_changed(m0, m1, to), node_fields_kept(x, st, m0, m1, to, REC))
    yield "a refused link is forgotten, an accepted one is kept", m1.has(to) == z3.Not(fails)
    yield "an accepted link is operational", z3.Implies(z3.Not(fails), rec(x, st, m1.at(to), "state") == x.lay["lc::OPERATIONAL"])
    yield "a refused link fails a running initialization once", iff(len(ms), z3.And(fails, ir != 0))
    for m in ms:
        yield from answer(x, m, "init_response", ir, x.rdb(x.pre, ir, "message::init_request_t.payload.reply_to"), x.g["sup"], err=ee)
        yield "which is then not answered again", x.rdb(st, x.g["actor"], A + "init_request") == 0
    yield "an accepted link continues a running initialization once", iff(len(ic), z3.And(z3.Not(fails), ir != 0, x.g["state"] == S(x, "INITIALIZING")))
    for e in ic:
        yield "after the link is marked", rec(x, e[-1], servers(x, e[-1]).at(to), "state") == x.lay["lc::OPERATIONAL"]


# ---- unlinking
US = "unlink_request_t.payload.request_payload.server_addr"


def server_of(x, m):
    return x.rdb(x.pre, m, "message::" + US)


def link_clients(x, st):
    return x.map(st, x.g["server"], LS + "linked_clients").card != 0


def before_shutdown(x):
    return z3.ULT(x.g["state"], S(x, "SHUTTING_DOWN"))


def told(x, n):
    """the actor was asked about this server already, when it had clients to unlink first"""
    return rec(x, x.pre, n, "state") == x.lay["lc::UNLINKING"]


def h_put_forget(eng, st, cc):
    x = eng.x
    if "replied" not in x.g:
        return h_put(eng, st, cc)
    r = h_put(eng, st, cc)
    m = Msg(x, st.events[-1][1], st.events[-1][2], st.events[-1][3])
    if m.is_("unlink_notify") and x.g.get("notified"):
        eng.oblige(st, "a recorded server is notified", servers(x, x.pre).has(m.dst))
        eng.oblige(st, "about this actor", z3.And(m.f("unlink_notify_t.payload.client_addr") == x.g["address"], bv(m.sup) == x.g["sup"]))
        eng.oblige(st, "only when nobody is linked to this actor", z3.Not(link_clients(x, st)))
        x.g["notified"].set(x, st, m.dst, x.g["notified"].get(x, st, m.dst) + 1)
        return r
    eng.oblige(st, "only unlink requests are answered", m.is_("unlink_response"))
    if m.is_("unlink_response"):
        req = m.f("unlink_response_t.payload.req")
        q = server_of(x, req)
        eng.oblige(st, "only requests that were queued are answered", QUEUED(req))
        eng.oblige(st, "only those of a recorded server, once", z3.And(servers(x, x.pre).has(q), x.g["replied"].get(x, st, q) == 0))
        eng.oblige(st, "successfully", m.f("unlink_response_t.payload.ee") == 0)
        eng.oblige(st, "in this actor's name", m.f("unlink_response_t.payload.res") == x.g["address"])
        eng.oblige(st, "to the address that waits for it", m.dst == x.rdb(x.pre, req, "message::unlink_request_t.payload.reply_to"))
        stays = z3.And(before_shutdown(x), x.g["unlinked"].get(x, st, q) == 1, x.g["any"].get(x, st, x.g["this"]) == 0)
        eng.oblige(st, "only when nobody is linked to this actor, or it decided to stay", z3.Or(z3.Not(link_clients(x, st)), stays))
        x.g["replied"].set(x, st, q, x.g["replied"].get(x, st, q) + 1)
    return r


def h_on_unlink(eng, st, cc):
    x = eng.x
    q = bv(eng.load(st, cc.args[1], 8))
    g = x.g["unlinked"]
    g.set(x, st, q, g.get(x, st, q) + 1)
    r = eng.sym("on_unlink_result", z3.BoolSort())
    a = x.g["any"]
    a.set(x, st, x.g["this"], a.get(x, st, x.g["this"]) | z3.If(r, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
    return [(st, r)]


def h_discard(eng, st, cc):
    x = eng.x
    i = bv(cc.args[1])
    g = x.g.get("discarded")
    if g:
        g.set(x, st, x.g["this"], g.get(x, st, x.g["this"]) + 1)
    st.events.append(("discard", cc.args[0], i, st.copy()))
    return [(st, None)]


def setup_forgetting(x, msg=None, more=None):
    setup_c(x, msg)
    for n in ("replied", "unlinked", "any", "notified"):
        Ghost(x, n)
    q = x.seq(x.st, x.g["this"], LC + "unlink_queue")
    x.g["queue0"] = q
    x.assume(upto(q, q.len(), lambda j: z3.And(qelem(x, x.st, j) != 0, QUEUED(qelem(x, x.st, j)), x.rdb(x.st, qelem(x, x.st, j), "message::unlink_request_t.payload.reply_to") != 0)))
    if msg:
        m = x.g["msg"]
        x.assume(QUEUED(m))
        x.assume(x.rdb(x.st, m, "message::unlink_request_t.payload.reply_to") != 0)


def qelem(x, st, j):
    return ival(x, st, j.addr)


def flags_are(eng, st, ctx, val):
    """the one-byte locals of the loop that start at 0 equal val"""
    out = []
    for m in sorted((m for m in ctx.mods if m[0] == "c"), key=str):
        c0, c = ctx.entry.cells.get((m[1], m[2])), st.cells.get((m[1], m[2]))
        if c0 and c and c0[0] == 1 and not isinstance(c0[1], (Iter, Undef, VFn)) and eng.must(ctx.entry, bv(c0[1], 8) == 0):
            out.append((bv(c[1], 8) & 1) == z3.Extract(7, 0, val))
            out.append(z3.ULE(bv(c[1], 8), 1))
    return z3.And(out) if out else z3.BoolVal(True)


def inv_forget(eng, st, ctx):
    x = eng.x
    q = x.seq(st, x.g["this"], LC + "unlink_queue")
    m0, m = servers(x, x.pre), servers(x, st)
    k, facts = progress(eng, st, ctx, q.len())
    if k is None:
        k = z3.BitVecVal(0, 64)
    for f in facts:
        yield "position", f
    a = x.g["any"].get(x, st, x.g["this"])
    yield "results are collected", z3.And(z3.ULE(a, 1), flags_are(eng, st, ctx, a))
    yield "no server is added", each(m, lambda s, n: z3.And(m0.has(s), m0.at(s) == n))
    yield "servers of answered requests are forgotten", upto(q, k, lambda j: z3.Not(m.has(server_of(x, qelem(x, st, j)))))
    yield "forgotten servers were answered once, the others not", each(m0, lambda s, n: z3.And(
        x.g["replied"].get(x, st, s) == z3.If(m.has(s), z3.BitVecVal(0, 64), z3.BitVecVal(1, 64)),
        x.g["unlinked"].get(x, st, s) == z3.If(z3.Or(m.has(s), told(x, n)), z3.BitVecVal(0, 64), z3.BitVecVal(1, 64))))


def post_forget_common(x, st, q):
    """q: the queue the answers were taken from"""
    m0, m = servers(x, x.pre), servers(x, st)
    hc = x.g["has_clients"]
    yield "no server is added", each(m, lambda s, n: z3.And(m0.has(s), m0.at(s) == n))
    yield "with clients nothing is forgotten", z3.Implies(hc, each(m0, lambda s, n: m.has(s)))
    yield "without clients the server of every queued request is forgotten", z3.Implies(z3.Not(hc), upto(q, q.len(), lambda j: z3.Not(m.has(server_of(x, qelem(x, st, j))))))
    yield "every forgotten server was answered once and the actor told once, about no other", each(m0, lambda s, n: z3.And(
        x.g["replied"].get(x, st, s) == z3.If(m.has(s), z3.BitVecVal(0, 64), z3.BitVecVal(1, 64)),
        x.g["unlinked"].get(x, st, s) == z3.If(z3.Or(m.has(s), told(x, n)), z3.BitVecVal(0, 64), z3.BitVecVal(1, 64))))


def post_forget(x, st, ret):
    m0 = servers(x, x.pre)
    q0, q1 = x.g["queue0"], x.seq(st, x.g["this"], LC + "unlink_queue")
    to = server_of(x, x.g["msg"])
    sc, ds = evs(st, "shutdown_continue"), evs(st, "do_shutdown")
    if not x.eng.feasible(st, m0.has(to)):
        yield "a request of an unknown server changes nothing", z3.And(x.g["any"].get(x, st, x.g["this"]) == 0, z3.BoolVal(not sent(x, st) and not sc and not ds))
        yield "it is not queued", q1 is q0
        return
    early = z3.And(before_shutdown(x), x.g["has_clients"])
    if not x.eng.feasible(st, z3.Not(early)):
        # the actor's own clients have to go first: they are asked to when it shuts down
        m1 = servers(x, st)
        wants = x.g["any"].get(x, st, x.g["this"]) == 1
        yield "the actor is asked once whether it goes down with the server", x.g["unlinked"].get(x, st, to) == 1
        yield "a shutdown is started once exactly if it does", z3.And(iff(len(ds), wants), z3.BoolVal(not sc))
        for e in ds:
            er = Err(x, e[-1], x.load(e[-1], e[2], 8))
            yield "because of the unlink", z3.And(er.code == x.lay["shutdown_code_t::unlink_requested"], bv(e[1]) == x.g["actor"])
        yield "otherwise it confirms the unlink at once", x.g["replied"].get(x, st, to) == z3.If(wants, z3.BitVecVal(0, 64), z3.BitVecVal(1, 64))
        yield "and the server is forgotten then", m1.has(to) == wants
        yield "a postponed request is queued", z3.If(wants, z3.And(q1.len() == q0.len() + 1, ival(x, st, q1.get(q0.len())) == x.g["msg"]), q1.len() == q0.len())
        yield "the actor will not be asked about it again", z3.Implies(wants, rec(x, st, m1.at(to), "state") == x.lay["lc::UNLINKING"])
        yield "other links are kept", z3.And(only_changed(m0, m1, to), node_fields_kept(x, st, m0, m1, to, REC))
        return
    yield "the request is queued", z3.And(q1.len() == q0.len() + 1, ival(x, st, q1.get(q0.len())) == x.g["msg"])
    yield from post_forget_common(x, st, q1)
    yield "and so is this server", z3.Implies(z3.Not(x.g["has_clients"]), z3.Not(servers(x, st).has(to)))
    need = x.g["any"].get(x, st, x.g["this"]) == 1
    yield "a running shutdown goes on once exactly if the actor wants it", iff(len(sc), z3.And(need, x.g["state"] == S(x, "SHUTTING_DOWN")))
    yield "otherwise a shutdown is started once exactly if the actor wants it", iff(len(ds), z3.And(need, x.g["state"] != S(x, "SHUTTING_DOWN")))
    for e in ds:
        er = Err(x, e[-1], x.load(e[-1], e[2], 8))
        yield "because of the unlink", z3.And(er.code == x.lay["shutdown_code_t::unlink_requested"], bv(e[1]) == x.g["actor"])


def setup_unlink_request(x):
    setup_forgetting(x, "unlink_request_t")


def post_unlink_request(x, st, ret):
    fn = [ival(x, x.pre, addoff(x.g["this"], x.foff(LC + "unlink_reaction") + o)) for o in (0, 8, 16, 24)]
    cbs = evs(st, "callback")
    yield "the actor's reaction is asked once exactly if it has one", iff(len(cbs), fn[2] != 0)
    for e in cbs:
        yield "its reaction, with the request", z3.And([bv(a) == b for a, b in zip(e[1:5], fn)] + [bv(e[5]) == x.g["msg"]])
    taken = st.notes.get("callback_result")
    if taken is not None and not x.eng.feasible(st, z3.Not(taken)):
        yield "a request handled by the actor changes nothing", z3.And(z3.BoolVal(not sent(x, st) and not evs(st, "shutdown_continue", "do_shutdown")), same_map(servers(x, x.pre), servers(x, st)))
        return
    yield from post_forget(x, st, ret)


def setup_c_init(x):
    setup_c(x, "any")


def post_c_init(x, st, ret):
    conf = evs(st, "configure")
    was = (x.rdb(x.pre, x.g["this"], LC + "configured") & 1) == 1
    yield "the actor is asked to configure links once, the first time", iff(len(conf), z3.Not(was))
    yield "and not again", (x.rdb(st, x.g["this"], LC + "configured") & 1) == 1
    for e in conf:
        yield "for this plugin", z3.And(bv(e[1]) == x.g["actor"], bv(e[2]) == x.g["this"])
        yield "it is marked before", (x.rdb(e[-1], x.g["this"], LC + "configured") & 1) == 1
    m = servers(x, st)
    linking = lambda n: rec(x, st, n, "state") == x.lay["lc::LINKING"]
    q = z3.FreshConst(BV64, "lq")
    yield "initialization may finish <=> no link is being established", tobool(ret) == z3.Not(z3.Exists([q], z3.And(m.has(q), linking(m.at(q)))))


def h_configure(eng, st, cc):
    """user code: it may call link() for this plugin, so the links are arbitrary afterwards"""
    x = eng.x
    st.events.append(("configure", cc.args[0], cc.args[1], st.copy()))
    ck = eng.ckey(st, addoff(x.g["this"], x.foff(LC + "servers_map")))
    m = servers(x, st)
    eng.cont_set(st, ck, "map", stl.new_map(eng, "relinked", m.koff, m.kk))
    return [(st, None)]


def setup_c_shutdown(x):
    setup_forgetting(x)
    m = maybe(x, "request", "message")
    x.args.append(m)
    Ghost(x, "discarded")
    Ghost(x, "unlinking")
    m0 = servers(x, x.st)
    x.g["linking"] = lambda st, n: rec(x, st, n, "state") == x.lay["lc::LINKING"]


def h_notify(eng, st, cc):
    """the contract of notify_shutdown: some clients (those that wait for a link) are forgotten, the others are kept"""
    x = eng.x
    r = h_ev("notify_shutdown")(eng, st, cc)
    ck = eng.ckey(st, addoff(x.g["server"], x.foff(LS + "linked_clients")))
    m = x.map(st, x.g["server"], LS + "linked_clients")
    m1 = stl.new_map(eng, "notified", m.koff, m.kk)
    m1.oid = m.oid
    eng.cont_set(st, ck, "map", m1)
    return r


def h_discard_sh(eng, st, cc):
    x = eng.x
    i = bv(cc.args[1])
    ms = sent(x, st)
    eng.oblige(st, "a pending link request is cancelled at the own supervisor", bv(cc.args[0]) == x.g["sup"])
    eng.oblige(st, "order: right after the server was notified", z3.BoolVal(bool(ms) and ms[-1].is_("unlink_notify")))
    if ms and ms[-1].is_("unlink_notify"):
        s = ms[-1].dst
        n = servers(x, x.pre).at(s)
        eng.oblige(st, "only a link that is being established", z3.And(servers(x, x.pre).has(s), x.g["linking"](x.pre, n)))
        eng.oblige(st, "under its request id", i == rec(x, x.pre, n, "request_id"))
        x.g["discarded"].set(x, st, s, x.g["discarded"].get(x, st, s) + 1)
    return [(st, None)]


def inv_c_shutdown(eng, st, ctx):
    x = eng.x
    m0, m, me = servers(x, x.pre), servers(x, st), servers(x, ctx.entry)
    v = None
    for c in sorted(ctx.mapit, key=str):
        v = bv(st.cells[c][1])
        e = stl.NODEKEY(v)
    one, zero = z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)
    yield "no server is added", each(m, lambda s, n: z3.And(me.has(s), me.at(s) == n))
    if v is not None:
        yield "servers behind the iterator are gone, the others are not", each(me, lambda s, n: m.has(s) == z3.And(v != 0, z3.Select(m.rank, s) >= z3.Select(m.rank, e)))
    else:
        yield "no server is gone yet", each(me, lambda s, n: m.has(s))
    yield "servers that are gone were notified once, pending requests cancelled", each(me, lambda s, n: z3.And(
        x.g["notified"].get(x, st, s) == z3.If(m.has(s), zero, one),
        x.g["discarded"].get(x, st, s) == z3.If(z3.And(z3.Not(m.has(s)), x.g["linking"](x.pre, n)), one, zero)))
    yield "servers unlinked on request stay as they are", each(m0, lambda s, n: z3.Implies(z3.Not(me.has(s)), z3.And(
        x.g["replied"].get(x, st, s) == one, x.g["unlinked"].get(x, st, s) == z3.If(told(x, n), zero, one), x.g["notified"].get(x, st, s) == zero, x.g["discarded"].get(x, st, s) == zero, z3.Not(m.has(s)))))
    yield "no further answers", each(me, lambda s, n: z3.And(x.g["replied"].get(x, st, s) == zero, x.g["unlinked"].get(x, st, s) == zero))


def post_c_shutdown(x, st, ret):
    m0, m = servers(x, x.pre), servers(x, st)
    had = x.map(x.pre, x.g["server"], LS + "linked_clients").card != 0
    hc = x.map(st, x.g["server"], LS + "linked_clients").card != 0
    one, zero = z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)
    g = lambda n, s: x.g[n].get(x, st, s)
    yield "the shutdown may go on <=> no server is recorded any more", tobool(ret) == (m.card == 0)
    yield "the clients are asked to unlink exactly if there are some and a server is left", iff(len(evs(st, "notify_shutdown")), z3.And(had, m0.card != 0))
    yield "with clients no server is forgotten", z3.Implies(hc, same_map(m0, m))
    yield "without clients all servers are forgotten", z3.Implies(z3.Not(hc), each(m0, lambda s, n: z3.Not(m.has(s))))
    yield "every forgotten server is either answered or notified, once", each(m0, lambda s, n: g("replied", s) + g("notified", s) == z3.If(m.has(s), zero, one))
    yield "the pending requests of the notified ones are cancelled, nothing else", each(m0, lambda s, n: g("discarded", s) == z3.If(z3.And(g("notified", s) == 1, x.g["linking"](x.pre, n)), one, zero))
    yield "no shutdown is started or continued from here", not evs(st, "shutdown_continue", "do_shutdown")


CC = "rotor::plugin::link_client_plugin_t::"
FORGET = [Loop(r"link_client_plugin_t::(try_forget_links|forget_link|on_unlink_request)\(", inv_forget)]
UNLINK_HOOKS = [(r"^rotor::supervisor_t::put\(", h_put_forget), (r"^virtual .*::on_unlink\(|^rotor::actor_base_t::on_unlink\(", h_on_unlink), CALLBACK]
NO_CLIENTS = ("nobody is linked", lambda x, s, r: z3.And(z3.Not(x.g["has_clients"]), servers(x, x.pre).card != 0))
CLIENT = [
    Contract("link", re.escape(CC) + r"link\(.*\)", setup_link, post_link, hooks=[CALLBACK]),
    Contract("on_link_response", re.escape(CC) + r"on_link_response\(.*\)", setup_link_response, post_link_response, hooks=[CALLBACK],
             cover=[("fails init", lambda x, s, r: bool(sent(x, s))), ("continues init", lambda x, s, r: bool(evs(s, "init_continue"))), ("no init", lambda x, s, r: x.g["init_request"] == 0)]),
    Contract("forget_link", re.escape(CC) + r"forget_link\(.*\)", setup_unlink_request, post_forget, hooks=UNLINK_HOOKS, loops=FORGET,
             cover=[NO_CLIENTS, ("clients", lambda x, s, r: x.g["has_clients"]), ("goes down", lambda x, s, r: bool(evs(s, "do_shutdown")))]),
    Contract("on_unlink_request", re.escape(CC) + r"on_unlink_request\(.*\)", setup_unlink_request, post_unlink_request, hooks=UNLINK_HOOKS, loops=FORGET,
             cover=[NO_CLIENTS, ("clients", lambda x, s, r: x.g["has_clients"]), ("goes down", lambda x, s, r: bool(evs(s, "do_shutdown")))]),
    Contract("client handle_init", re.escape(CC) + r"handle_init\(.*\)", setup_c_init, post_c_init, hooks=[(r"^virtual .*::configure\(", h_configure)],
             cover=[("may finish", lambda x, s, r: tobool(r)), ("waits", lambda x, s, r: z3.Not(tobool(r)))]),
    Contract("client handle_shutdown", re.escape(CC) + r"handle_shutdown\(.*\)", setup_c_shutdown, post_c_shutdown,
             hooks=[(r"^rotor::supervisor_t::discard_request\(", h_discard_sh), (r"^virtual .*::notify_shutdown\(|^rotor::plugin::link_server_plugin_t::notify_shutdown\(", h_notify)] + UNLINK_HOOKS,
             loops=[Loop(r"link_client_plugin_t::try_forget_links\(", inv_forget), Loop(r"link_client_plugin_t::handle_shutdown\(", inv_c_shutdown)],
             cover=[("may finish", lambda x, s, r: tobool(r)), ("waits", lambda x, s, r: z3.Not(tobool(r))), NO_CLIENTS]),
]
HOOKS = [(r"^rotor::actor_base_t::shutdown_continue\(\)", h_ev("shutdown_continue")), (r"^rotor::actor_base_t::init_continue\(\)", h_ev("init_continue")),
         (r"^rotor::supervisor_t::cancel_timer\(|^rotor::actor_base_t::cancel_timer\(", h_ev("cancel_timer", nargs=2)),
         (r"^rotor::actor_base_t::do_shutdown\(|^virtual .*::do_shutdown\(", h_ev("do_shutdown", nargs=2))] + REQUESTS + [PUT]
C = "rotor::plugin::link_server_plugin_t::"
REFUSE = [(r"^rotor::supervisor_t::put\(", h_put_refuse)]
CONTRACTS = [
    Contract("on_link_request", re.escape(C) + r"on_link_request\(.*\)", setup_link_request, post_link_request,
             cover=[("late", lambda x, s, r: x.g["state"] > S(x, "OPERATIONAL")), ("accepted", lambda x, s, r: z3.And(z3.Not(clients(x, x.pre).has(x.g["client"])), x.g["state"] == 4)),
                    ("pending", lambda x, s, r: not sent(x, s))]),
    Contract("on_unlink_notify", re.escape(C) + r"on_unlink_notify\(.*\)", setup_unlink_notify, post_unlink_notify,
             cover=[("known", lambda x, s, r: clients(x, x.pre).has(x.g["client"])), ("continues", lambda x, s, r: bool(evs(s, "shutdown_continue")))]),
    Contract("on_unlink_response", re.escape(C) + r"on_unlink_response\(.*\)", setup_unlink_response, post_unlink_response,
             cover=[("ok", lambda x, s, r: x.g["ee"] == 0), ("failed", lambda x, s, r: bool(sent(x, s)))]),
    Contract("notify_shutdown", re.escape(C) + r"notify_shutdown\(\)", lambda x: setup_clients_loop(x, False), post_notify,
             loops=[Loop(r"link_server_plugin_t::notify_shutdown\(", inv_notify)], hooks=REFUSE),
    Contract("server handle_shutdown", re.escape(C) + r"handle_shutdown\(.*\)", setup_clients_loop, post_s_shutdown,
             loops=[Loop(r"link_server_plugin_t::", inv_notify)], hooks=REFUSE,
             cover=[("may finish", lambda x, s, r: tobool(r)), ("waits", lambda x, s, r: z3.Not(tobool(r)))]),
    Contract("handle_start", re.escape(C) + r"handle_start\(.*\)", setup_start, post_start,
             loops=[Loop(r"link_server_plugin_t::handle_start\(", inv_clients(start_rel))], hooks=[(r"^rotor::supervisor_t::put\(", h_put_start)]),
]
CONTRACTS += CLIENT
