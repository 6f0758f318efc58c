"""libev backend: its timers and the hand-over of messages of other threads."""
import contracts
from common import *
import c_inbound

TUS = ["src/rotor/ev/supervisor_ev.cpp"]
E = "ev::supervisor_ev_t."
W = "ev::supervisor_ev_t::timer_t."
SU = "supervisor_t."
DUE = r"timer_cb\(ev_loop\*, ev_timer\*, int\)"
V = 16  # offset of the value within a node of a map keyed by an integer


def tmap(x, st):
    return x.map(st, x.g["sup"], E + "timers_map", "int", 8)


def wf(x, st, w, f):
    o, sz = x.lay[W + f]
    return ival(x, st, addoff(w, o), sz)


def watcher(x, st, m, i):
    return ival(x, st, addoff(m.at(i), V))


def setup(x, by_watcher=False):
    s = x.ptr("supervisor", "actor")
    if by_watcher:
        w = x.ptr("watcher", "watcher")
        s = wf(x, x.st, w, "data")
        x.eng.setkind(x.st, s, "actor")
        x.assume(z3.And(z3.UGT(s, 1 << 16), z3.ULT(s, 1 << 60)))
        x.g["w"] = w
    l = x.ptr("leader", "actor")
    x.wr(x.st, s, SU + "locality_leader", l)
    x.g.update(sup=s, leader=l, loop=x.rdb(x.st, s, E + "loop"))
    x.assume(x.g["loop"] != 0)
    x.args = [s]


def a_timer(x):
    """a pending timer: what do_start_timer makes"""
    i = x.sym("timer_id")
    w = x.g.get("w")
    w = x.ptr("watcher", "watcher") if w is None else w
    h = x.ptr("handler", "timer_handler")
    a = x.ptr("owner", "owner")
    m = tmap(x, x.st)
    x.assume(m.has(i))
    t = watcher(x, x.st, m, i)  # as the code reads it
    x.assume(t == w)
    for k in (t, w):
        x.assume(wf(x, x.st, k, "handler") == h)
        x.assume(wf(x, x.st, k, "data") == x.g["sup"])
        for g in (h, wf(x, x.st, k, "handler")):
            for f, v in (("owner", a), ("request_id", i)):
                o, sz = x.lay["timer_handler_base_t." + f]
                x.assume(ival(x, x.st, addoff(g, o), sz) == v)
    x.g.update(id=i, watcher=w, handler=h, owner=a)


def callback(x):
    n = contracts.find_fn(x.eng, DUE).name
    return x.eng.fnptr(n if n.startswith("@") else "@" + n)


def setup_start(x):
    setup(x)
    d = x.ptr("interval", "interval")
    h = x.ptr("handler", "timer_handler")
    i = x.rdb(x.st, h, "timer_handler_base_t.request_id")
    x.assume(z3.Not(tmap(x, x.st).has(i)))
    x.g.update(id=i, handler=h)
    x.args += [d, h]


def refs(x, st, kind):
    return [e for e in st.events if e[0] == kind]


def post_start(x, st, ret):
    m0, m1, i = tmap(x, x.pre), tmap(x, st), x.g["id"]
    ss = evs(st, "ev_timer_start")
    yield "one timer of the loop is started", len(ss) == 1
    yield "it is recorded under its identifier, nothing else changes", z3.And(m1.has(i), only_changed(m0, m1, i))
    for e in ss:
        w = bv(e[2])
        yield "in the own loop", bv(e[1]) == x.g["loop"]
        yield "that very one is recorded", watcher(x, st, m1, i) == w
        yield "it belongs to this handler and this supervisor", z3.And(wf(x, st, w, "handler") == x.g["handler"], wf(x, st, w, "data") == x.g["sup"])
        yield "it calls the supervisor back", wf(x, e[-1], w, "cb") == callback(x)
        yield "it is complete by then", z3.And(wf(x, e[-1], w, "handler") == x.g["handler"], wf(x, e[-1], w, "data") == x.g["sup"])
    yield "the supervisor is kept alive for it, once", len(refs(x, st, "add_ref")) - len(refs(x, st, "release")) == 1


def h_trigger(eng, st, cc):
    """actor_base_t::on_timer_trigger (contract in c_requests): user code, it may start and cancel other timers"""
    x = eng.x
    i = x.g["id"]
    ck = eng.ckey(st, addoff(x.g["sup"], x.foff(E + "timers_map")))
    m0 = tmap(x, st)
    s0 = st.copy()
    m1 = stl.new_map(eng, "timers_after_callback", 8, "int")
    m1.oid = m0.oid
    stl.map_set(eng, st, ck, m1)
    st.assume(z3.And(m1.has(i) == m0.has(i), z3.Implies(m0.has(i), m1.at(i) == m0.at(i))))
    st.events.append(("on_timer_trigger", cc.args[0], cc.args[1], cc.args[2], s0, st.copy()))
    return [(st, None)]


def called_back(x, st, cancelled):
    ts = evs(st, "on_timer_trigger")
    yield "its owner is called back exactly once", len(ts) == 1
    m1 = tmap(x, st)
    yield "the timer is not recorded any more", z3.Not(m1.has(x.g["id"]))
    for e in ts:
        yield "the owner of that very timer, with its identifier", z3.And(bv(e[1]) == x.g["owner"], bv(e[2]) == x.g["id"])
        yield "it learns that the timer " + ("was cancelled" if cancelled else "came due"), tobool(e[3]) == cancelled
        yield "other timers are kept", only_changed(tmap(x, e[-1]), m1, x.g["id"])
    yield "the supervisor is released for it, once", len(refs(x, st, "release")) - len(refs(x, st, "add_ref")) == 1


def setup_cancel(x):
    setup(x)
    a_timer(x)
    x.args.append(x.g["id"])


def post_cancel(x, st, ret):
    yield from called_back(x, st, True)
    ss = evs(st, "ev_timer_stop")
    yield "the loop's timer is stopped, once", len(ss) == 1
    for e in ss:
        yield "that very timer, in the own loop", z3.And(bv(e[1]) == x.g["loop"], bv(e[2]) == x.g["watcher"])
        yield "while it is still alive", tmap(x, e[-1]).has(x.g["id"])


def setup_cb(x):
    setup(x, True)
    a_timer(x)
    r = x.sym("events", 32)
    x.assume(r == 0x100)
    x.args = [x.g["loop"], x.g["watcher"], r]


def post_cb(x, st, ret):
    yield from called_back(x, st, False)
    ks = [e[0] for e in st.events if e[0] in ("do_process", "on_timer_trigger")]
    yield "what the callback sent is processed", "do_process" in ks and ks[-1] == "do_process"
    for e in evs(st, "do_process"):
        yield "by this supervisor", bv(e[1]) == x.g["sup"]


def setup_enqueue(x):
    setup(x)
    m = x.ptr("message", "message")
    x.g["msg"] = m
    x.args += [cell(x, m)]


def post_enqueue(x, st, ret):
    es = [e for e in st.events if e[0] in ("lfq_push", "ev_async_send")]
    ks = [e[0] for e in es]
    yield "the message is pushed exactly once", ks.count("lfq_push") == 1
    yield "the loop is woken up after that", "ev_async_send" in ks and ks[-1] == "ev_async_send"
    for e in es:
        if e[0] == "lfq_push":
            yield "that very message, to the inbound queue of the locality leader", z3.And(bv(e[2]) == x.g["msg"], bv(e[1]) == x.g["leader"] + x.foff(SU + "inbound_queue"))
    for e in es[-1:]:
        if e[0] == "ev_async_send":
            yield "the own loop, by the own watcher", z3.And(bv(e[1]) == x.g["loop"], bv(e[2]) == x.g["sup"] + x.foff(E + "async_watcher"))


def h_ref(kind):
    def f(eng, st, cc):
        if stl.tru(st, bv(cc.args[0]) == eng.x.g["sup"]) if hasattr(stl, "tru") else True:
            st.events.append((kind, cc.args[0], st.copy()))
        return [(st, None)]
    return f


S = r"rotor::ev::supervisor_ev_t::"
HOOKS = [(r"^ev_timer_start$", h_ev("ev_timer_start", nargs=2)), (r"^ev_timer_stop$", h_ev("ev_timer_stop", nargs=2)), (r"^ev_async_send$", h_ev("ev_async_send", nargs=2)),
         (r"^rotor::actor_base_t::on_timer_trigger\(", h_trigger), (r"^rotor::supervisor_t::do_process\(", h_ev("do_process", nargs=1)),
         (r"intrusive_ptr_add_ref\(", h_ref("add_ref")), (r"intrusive_ptr_release\(", h_ref("release")),
         (r"intrusive_ptr_add_ref<", h_ref("add_ref")), (r"intrusive_ptr_release<", h_ref("release"))]
CONTRACTS = [
    Contract("ev start_timer", S + r"do_start_timer\(.*\)", setup_start, post_start),
    Contract("ev cancel_timer", S + r"do_cancel_timer\(.*\)", setup_cancel, post_cancel),
    Contract("ev timer due", DUE, setup_cb, post_cb),
    Contract("ev enqueue", S + r"enqueue\(.*\)", setup_enqueue, post_enqueue),
    Contract("ev on_async", S + r"on_async\(\)", c_inbound.setup_drain, c_inbound.post_drain, loops=[c_inbound.PopLoop(r"rotor::ev::", c_inbound.inv_pop)],
             hooks=c_inbound.DRAIN + [(r"^ev_now(_update)?$", lambda eng, st, cc: [(st, eng.sym("clock"))])]),
    Contract("ev move_inbound_queue", S + r"move_inbound_queue\(\)", c_inbound.setup_drain, c_inbound.post_moved, loops=[c_inbound.PopLoop(r"rotor::ev::", c_inbound.inv_pop)], hooks=c_inbound.DRAIN),
    Contract("ev on_async (follower)", S + r"on_async\(\)", c_inbound.setup_follower, c_inbound.post_drain, loops=[c_inbound.PopLoop(r"rotor::ev::", c_inbound.inv_pop)],
             hooks=c_inbound.DRAIN + [(r"^ev_now(_update)?$", lambda eng, st, cc: [(st, eng.sym("clock"))])]),
    Contract("ev move_inbound_queue (follower)", S + r"move_inbound_queue\(\)", c_inbound.setup_follower, c_inbound.post_moved, loops=[c_inbound.PopLoop(r"rotor::ev::", c_inbound.inv_pop)], hooks=c_inbound.DRAIN),
]
