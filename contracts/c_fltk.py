"""FLTK backend: its timers and the hand-over of messages of other threads."""
import contracts
from common import *
import c_inbound

TUS = ["src/rotor/fltk/supervisor_fltk.cpp", "src/rotor/fltk/system_context_fltk.cpp"]
EXTRA = (["rotor/fltk.hpp"], {"rotor::fltk::supervisor_fltk_t": ["timers_map"], "rotor::fltk::supervisor_fltk_t::timer_t": ["sup", "handler"]})
F = "fltk::supervisor_fltk_t."
W = "fltk::supervisor_fltk_t::timer_t."
DRAINS = r"_callback\(void\*\)"
DUE = r"on_timeout\(void\*\)"
V = 16  # offset of the value within a node of a map keyed by an integer


def tmap(x, st):
    return x.map(st, x.g["sup"], F + "timers_map", "int", 8)


def wf(x, st, w, f):
    o, sz = x.lay[W + f]
    return ival(x, st, addoff(w, o), sz)


def timer_at(x, st, m, i):
    return ival(x, st, addoff(m.at(i), V))


def setup(x, timer=None):
    if timer is None:
        s = x.ptr("supervisor", "actor")
    else:
        s = wf(x, x.st, timer, "sup")
        x.eng.setkind(x.st, s, "actor")
        x.assume(z3.And(z3.UGT(s, 1 << 16), z3.ULT(s, 1 << 60)))
    x.g["sup"] = s
    x.args = [s]


def a_timer(x, w=None):
    """a pending timer: what do_start_timer makes"""
    i = x.sym("timer_id")
    w = x.ptr("timer", "fltk_timer") if w is None else w
    h = x.ptr("handler", "timer_handler")
    a = x.ptr("owner", "owner")
    m = tmap(x, x.st)
    x.assume(m.has(i))
    t = timer_at(x, x.st, m, i)  # as the code reads it
    x.assume(t == w)
    for k in (t, w):
        x.assume(wf(x, x.st, k, "handler") == h)
        x.assume(wf(x, x.st, k, "sup") == x.g["sup"])
        for g in (h, wf(x, x.st, k, "handler")):
            for f, v in (("owner", a), ("request_id", i)):
                o, sz = x.lay["timer_handler_base_t." + f]
                x.assume(ival(x, x.st, addoff(g, o), sz) == v)
    x.g.update(id=i, timer=w, handler=h, owner=a)


def h_trigger(eng, st, cc):
    """actor_base_t::on_timer_trigger (contract in c_requests): user code, it may start and cancel other timers"""
    x = eng.x
    i = x.g["id"]
    ck = eng.ckey(st, addoff(x.g["sup"], x.foff(F + "timers_map")))
    m0 = tmap(x, st)
    s0 = st.copy()
    m1 = stl.new_map(eng, "timers_after_callback", 8, "int")
    m1.oid = m0.oid
    stl.map_set(eng, st, ck, m1)
    st.assume(z3.And(m1.has(i) == m0.has(i), z3.Implies(m0.has(i), m1.at(i) == m0.at(i))))
    st.events.append(("on_timer_trigger", cc.args[0], cc.args[1], cc.args[2], s0, st.copy()))
    return [(st, None)]


def called_back(x, st, cancelled):
    ts = evs(st, "on_timer_trigger")
    yield "its owner is called back exactly once", len(ts) == 1
    m1 = tmap(x, st)
    yield "the timer is not recorded any more", z3.Not(m1.has(x.g["id"]))
    for e in ts:
        yield "the owner of that very timer, with its identifier", z3.And(bv(e[1]) == x.g["owner"], bv(e[2]) == x.g["id"])
        yield "it learns that the timer " + ("was cancelled" if cancelled else "came due"), tobool(e[3]) == cancelled
        yield "other timers are kept", only_changed(tmap(x, e[-1]), m1, x.g["id"])


def fn_addr(x, rx):
    n = contracts.find_fn(x.eng, rx).name
    return bv(x.eng.fnptr(n if n.startswith("@") else "@" + n))


def callback(x):
    return fn_addr(x, DUE)


def setup_start(x):
    setup(x)
    d = x.ptr("interval", "interval")
    h = x.ptr("handler", "timer_handler")
    i = x.rdb(x.st, h, "timer_handler_base_t.request_id")
    x.assume(z3.Not(tmap(x, x.st).has(i)))
    x.g.update(id=i, handler=h)
    x.args += [d, h]


def post_start(x, st, ret):
    m0, m1, i = tmap(x, x.pre), tmap(x, st), x.g["id"]
    ss = evs(st, "fltk_add_timeout")
    yield "one timer of the loop is started", len(ss) == 1
    yield "it is recorded under its identifier, nothing else changes", z3.And(m1.has(i), only_changed(m0, m1, i))
    for e in ss:
        w = bv(e[3])
        yield "that very one is recorded", timer_at(x, st, m1, i) == w
        yield "it belongs to this handler and this supervisor", z3.And(wf(x, st, w, "handler") == x.g["handler"], wf(x, st, w, "sup") == x.g["sup"])
        yield "it calls the backend back", bv(e[2]) == callback(x)


def setup_cancel(x):
    setup(x)
    a_timer(x)
    x.args.append(x.g["id"])


def post_cancel(x, st, ret):
    yield from called_back(x, st, True)
    ss = evs(st, "fltk_remove_timeout")
    yield "the loop's timer is removed, once", len(ss) == 1
    for e in ss:
        yield "that very timer", z3.And(bv(e[2]) == x.g["timer"], bv(e[1]) == callback(x))
        yield "while it is still alive", tmap(x, e[-1]).has(x.g["id"])


def setup_due(x):
    w = x.ptr("timer", "fltk_timer")
    setup(x, w)
    a_timer(x, w)
    x.args = [w]


def post_due(x, st, ret):
    yield from called_back(x, st, False)
    ks = [e[0] for e in st.events if e[0] in ("fltk_awake", "do_process", "on_timer_trigger")]
    yield "the loop goes on with what the callback sent", ks[-1:] != ["on_timer_trigger"]


def setup_enqueue(x):
    c = x.ptr("context", "context")
    r = x.ptr("root", "actor")
    m = x.ptr("message", "message")
    x.wr(x.st, c, "system_context_t.supervisor", r)
    x.g.update(ctx=c, root=r, msg=m)
    x.args = [c, cell(x, m)]


def post_enqueue(x, st, ret):
    es = [e for e in st.events if e[0] in ("lfq_push", "fltk_awake")]
    ks = [e[0] for e in es]
    yield "the message is pushed exactly once, before the loop is woken up", ks in (["lfq_push"], ["lfq_push", "fltk_awake"])
    for e in es[:1]:
        if e[0] == "lfq_push":
            yield "that very message, to the inbound queue of the root supervisor", z3.And(bv(e[2]) == x.g["msg"], bv(e[1]) == x.g["root"] + x.foff("supervisor_t.inbound_queue"))
    for e in es:
        if e[0] == "fltk_awake":
            yield "the function which drains that queue is called back", z3.And(bv(e[1]) == fn_addr(x, DRAINS), bv(e[2]) == x.g["root"])


def setup_drains(x):
    c_inbound.setup_drain(x)
    x.assume(x.g["sup"] == x.g["leader"])
    x.g["leader"] = x.g["sup"]
    x.st.notes["popped"] = (c_inbound.lq(x, x.st), x.st.copy(), None)


def post_drains(x, st, ret):
    c_inbound.popped(x.eng, st)
    yield "returns", True


S = r"rotor::fltk::supervisor_fltk_t::"
HOOKS = [(r"^Fl::add_timeout\(", h_ev("fltk_add_timeout", nargs=3)), (r"^Fl::remove_timeout\(", h_ev("fltk_remove_timeout", nargs=2)), (r"^Fl::awake\(", h_ev("fltk_awake", nargs=2)),
         (r"^rotor::actor_base_t::on_timer_trigger\(", h_trigger), (r"^rotor::supervisor_t::do_process\(", h_ev("do_process", nargs=1))]
CONTRACTS = [
    Contract("fltk start_timer", S + r"do_start_timer\(.*\)", setup_start, post_start),
    Contract("fltk cancel_timer", S + r"do_cancel_timer\(.*\)", setup_cancel, post_cancel),
    Contract("fltk timer due", DUE, setup_due, post_due),
    Contract("fltk enqueue", r"rotor::fltk::system_context_fltk_t::enqueue\(.*\)", setup_enqueue, post_enqueue, cover=[("wakes the loop up", lambda x, s, r: len(evs(s, "fltk_awake")) == 1)]),
    Contract("fltk inbound queue", DRAINS, setup_drains, post_drains, loops=[c_inbound.PopLoop(r"_callback\(void\*\)", c_inbound.inv_pop)], hooks=c_inbound.DRAIN),
]
