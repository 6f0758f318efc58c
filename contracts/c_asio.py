"""boost::asio backend: its timers and the hand-over of messages of other threads."""
import re
import contracts
from ir import Unsupported
from common import *
import c_inbound

TUS = ["src/rotor/asio/supervisor_asio.cpp"]
EXTRA = (["rotor/asio.hpp"], {"rotor::asio::supervisor_asio_t": ["timers_map", "strand"], "rotor::asio::supervisor_asio_t::timer_t": ["handler"]})
A = "asio::supervisor_asio_t."
W = "asio::supervisor_asio_t::timer_t."
SU = "supervisor_t."
S = r"rotor::asio::supervisor_asio_t::"
FIRED = S + r"do_start_timer\(.*\)::\$_0::operator\(\)\(boost::system::error_code const&\) const"
WOKEN = S + r"enqueue\(.*\)::\$_0::operator\(\)\(\)"
DUE = FIRED + r"::\{lambda.*\}::operator\(\)\(\) const"
V = 16  # offset of the value within a node of a map keyed by an integer


def tmap(x, st):
    return x.map(st, x.g["sup"], A + "timers_map", "int", 8)


def wf(x, st, w, f):
    o, sz = x.lay[W + f]
    return ival(x, st, addoff(w, o), sz)


def timer_at(x, st, m, i):
    return ival(x, st, addoff(m.at(i), V))


def setup(x):
    s = x.ptr("supervisor", "actor")
    l = x.ptr("leader", "actor")
    x.wr(x.st, s, SU + "locality_leader", l)
    d = x.ptr("strand", "strand")
    x.eng.store(x.st, addoff(s, x.foff(A + "strand")), 8, d)
    x.g.update(sup=s, leader=l, strand=d)
    x.args = [s]


def a_timer(x):
    """a pending timer: what do_start_timer makes"""
    i = x.sym("timer_id")
    w = x.ptr("timer", "asio_timer")
    h = x.ptr("handler", "timer_handler")
    a = x.ptr("owner", "owner")
    m = tmap(x, x.st)
    x.assume(m.has(i))
    t = timer_at(x, x.st, m, i)  # as the code reads it
    x.assume(t == w)
    for k in (t, w):
        x.assume(wf(x, x.st, k, "handler") == h)
        for g in (h, wf(x, x.st, k, "handler")):
            for f, v in (("owner", a), ("request_id", i)):
                o, sz = x.lay["timer_handler_base_t." + f]
                x.assume(ival(x, x.st, addoff(g, o), sz) == v)
    x.g.update(id=i, timer=w, handler=h, owner=a)


def h_trigger(eng, st, cc):
    """actor_base_t::on_timer_trigger (contract in c_requests): user code, it may start and cancel other timers"""
    x = eng.x
    i = x.g["id"]
    ck = eng.ckey(st, addoff(x.g["sup"], x.foff(A + "timers_map")))
    m0 = tmap(x, st)
    s0 = st.copy()
    m1 = stl.new_map(eng, "timers_after_callback", 8, "int")
    m1.oid = m0.oid
    stl.map_set(eng, st, ck, m1)
    st.assume(z3.And(m1.has(i) == m0.has(i), z3.Implies(m0.has(i), m1.at(i) == m0.at(i))))
    st.events.append(("on_timer_trigger", cc.args[0], cc.args[1], cc.args[2], s0, st.copy()))
    return [(st, None)]


def called_back(x, st, cancelled):
    ts = evs(st, "on_timer_trigger")
    yield "its owner is called back exactly once", len(ts) == 1
    m1 = tmap(x, st)
    yield "the timer is not recorded any more", z3.Not(m1.has(x.g["id"]))
    for e in ts:
        yield "the owner of that very timer, with its identifier", z3.And(bv(e[1]) == x.g["owner"], bv(e[2]) == x.g["id"])
        yield "it learns that the timer " + ("was cancelled" if cancelled else "came due"), tobool(e[3]) == cancelled
        yield "other timers are kept", only_changed(tmap(x, e[-1]), m1, x.g["id"])


def setup_start(x):
    setup(x)
    d = x.ptr("interval", "interval")
    h = x.ptr("handler", "timer_handler")
    i = x.rdb(x.st, h, "timer_handler_base_t.request_id")
    x.assume(z3.Not(tmap(x, x.st).has(i)))
    x.g.update(id=i, handler=h)
    x.args += [d, h]


def post_start(x, st, ret):
    m0, m1, i = tmap(x, x.pre), tmap(x, st), x.g["id"]
    lo = closure_layout(x, FIRED)
    ss = evs(st, "asio_wait")
    yield "one timer of asio is started", len(ss) == 1
    yield "it is recorded under its identifier, nothing else changes", z3.And(m1.has(i), only_changed(m0, m1, i))
    for e in ss:
        w = bv(e[1])
        yield "that very one is recorded", timer_at(x, st, m1, i) == w
        yield "it belongs to this handler", wf(x, st, w, "handler") == x.g["handler"]
        yield "its completion keeps the supervisor alive", lo["owns"]
        yield "its completion knows the supervisor", ival(x, e[-1], addoff(e[2], lo["sup"])) == x.g["sup"]
        yield "its completion knows the identifier", ival(x, e[-1], addoff(e[2], lo["id"])) == i
    es = [e for e in st.events if e[0] in ("asio_wait", "asio_expires")]
    yield "its expiry is set before it is started", [e[0] for e in es] == ["asio_expires", "asio_wait"]
    if len(es) == 2:
        yield "the expiry of that very timer", bv(es[0][1]) == bv(es[1][1])


def setup_fired(x):
    setup(x)
    i = x.sym("timer_id")
    x.g.update(id=i, failed=x.eng.sym("failed", z3.BoolSort()))
    x.args = [capture(x, FIRED, x.g["sup"], i), x.ptr("error_code", "error_code")]


def post_fired(x, st, ret):
    lo = closure_layout(x, DUE)
    ds = evs(st, "asio_defer")
    f = x.g["failed"]
    yield "the timer is handled in the strand if it came due, and only then", z3.Implies(f, len(ds) == 0) if ds else f
    yield "at most once", len(ds) <= 1
    for e in ds:
        yield "in the own strand", bv(e[1]) == x.g["strand"]
        yield "the supervisor is kept alive", lo["owns"]
        yield "by that supervisor", ival(x, e[-1], addoff(e[2], lo["sup"])) == x.g["sup"]
        yield "under its identifier", ival(x, e[-1], addoff(e[2], lo["id"])) == x.g["id"]
    yield "nobody is called back outside of the strand", not evs(st, "on_timer_trigger")


def setup_cancel(x):
    setup(x)
    a_timer(x)
    x.args.append(x.g["id"])


def post_cancel(x, st, ret):
    yield from called_back(x, st, True)
    ss = evs(st, "asio_cancel")
    yield "the timer of asio is cancelled, once", len(ss) == 1
    for e in ss:
        yield "that very timer", bv(e[1]) == x.g["timer"]
        yield "while it is still alive", tmap(x, e[-1]).has(x.g["id"])


def captures(x, fn):
    """what a lambda keeps, and where: from its own code"""
    f = contracts.find_fn(x.eng, fn)
    txt = "\n".join(f.lines)
    names = set(re.findall(r"getelementptr inbounds (%class\.anon[.\d]*),", txt)) - set(re.findall(r"alloca (%class\.anon[.\d]*),", txt))
    if len(names) != 1:
        raise Unsupported("captures of a lambda")
    t = f.mod.named(names.pop())
    r = {}
    for j in range(len(f.mod.res(t).a)):
        o, ft = f.mod.field(t, j)
        r.setdefault(f.mod.res(ft).k, []).append(o)
    return r


def closure_layout(x, fn):
    r = captures(x, fn)
    if any(len(r.get(k, ())) > 1 for k in ("struct", "int", "ptr")) or "int" not in r or not ("struct" in r or "ptr" in r):
        raise Unsupported("captures of a lambda")
    return {"sup": r.get("struct", r.get("ptr"))[0], "id": r["int"][0], "owns": "struct" in r}


def capture(x, fn, sup, ident):
    lo = closure_layout(x, fn)
    c = x.eng.new_region("alloca")
    x.eng.store(x.st, addoff(c, lo["sup"]), 8, sup)
    x.eng.store(x.st, addoff(c, lo["id"]), 8, ident)
    return c


def setup_due(x):
    setup(x)
    a_timer(x)
    x.args = [capture(x, DUE, x.g["sup"], x.g["id"])]


def post_due(x, st, ret):
    yield from called_back(x, st, False)
    ks = [e[0] for e in st.events if e[0] in ("do_process", "on_timer_trigger")]
    yield "what the callback sent is processed", "do_process" in ks and ks[-1] == "do_process"
    for e in evs(st, "do_process"):
        yield "by this supervisor", bv(e[1]) == x.g["sup"]


def setup_gone(x):
    setup(x)
    i = x.sym("timer_id")
    x.assume(z3.Not(tmap(x, x.st).has(i)))
    x.g.update(id=i)
    x.args = [capture(x, DUE, x.g["sup"], i)]


def post_gone(x, st, ret):
    yield "nobody is called back again", not evs(st, "on_timer_trigger")
    m0, m1 = tmap(x, x.pre), tmap(x, st)
    yield "no timer is lost", only_changed(m0, m1, x.g["id"])
    yield "it stays away", z3.Not(m1.has(x.g["id"]))


def setup_enqueue(x):
    setup(x)
    m = x.ptr("message", "message")
    x.g["msg"] = m
    x.args += [cell(x, m)]


def post_enqueue(x, st, ret):
    es = [e for e in st.events if e[0] in ("lfq_push", "asio_defer")]
    ks = [e[0] for e in es]
    yield "the message is pushed exactly once", ks.count("lfq_push") == 1
    yield "processing is scheduled after that", "asio_defer" in ks and ks[-1] == "asio_defer"
    for e in es:
        if e[0] == "lfq_push":
            yield "that very message, to the inbound queue of the locality leader", z3.And(bv(e[2]) == x.g["msg"], bv(e[1]) == x.g["leader"] + x.foff(SU + "inbound_queue"))
    for e in es[-1:]:
        if e[0] == "asio_defer":
            yield "in the own strand", bv(e[1]) == x.g["strand"]
            yield "the supervisor is kept alive for it", "struct" in captures(x, WOKEN)
            yield "by that supervisor", ival(x, e[-1], e[2]) == x.g["sup"]


def post_woken(x, st, ret):
    ds = evs(st, "do_process")
    yield "the messages are processed", len(ds) == 1
    for e in ds:
        yield "by that supervisor", bv(e[1]) == x.g["sup"]


def setup_woken(x):
    setup(x)
    x.args = [cell(x, x.g["sup"])]


HOOKS = [(r"^(auto )?boost::asio::basic_waitable_timer<.*>::async_wait<", h_ev("asio_wait", nargs=2)),
         (r"^boost::asio::basic_waitable_timer<.*>::expires_after\(", h_ev("asio_expires", nargs=1, ret=lambda e, s, c: e.sym("cancelled"))),
         (r"^boost::asio::basic_waitable_timer<.*>::basic_waitable_timer<", h_ev("asio_timer", nargs=1)),
         (r"^boost::asio::io_context::strand::context\(", h_ev("asio_context", nargs=1, ret=lambda e, s, c: e.sym("context"))),
         (r"^boost::system::error_code::operator bool\(", h_ev("ec_bool", nargs=1, ret=lambda e, s, c: e.x.g["failed"])),
         (r"^(auto )?boost::asio::(defer|post)<", h_ev("asio_defer", nargs=2)),
         (r"^boost::asio::basic_waitable_timer<.*>::cancel\(", h_ev("asio_cancel", nargs=1)),
         (r"^boost::system::error_code::error_code\(\)", h_ev("ec", nargs=1)),
         (r"^rotor::actor_base_t::on_timer_trigger\(", h_trigger), 
         (r"timer_t::~timer_t\(", h_ev("timer_dtor", nargs=1))]
PROCESS = [(r"^rotor::asio::supervisor_asio_t::do_process\(", h_ev("do_process", nargs=1))]
CONTRACTS = [
    Contract("asio start_timer", S + r"do_start_timer\([^()]*\)", setup_start, post_start),
    Contract("asio timer fired", FIRED, setup_fired, post_fired),
    Contract("asio cancel_timer", S + r"do_cancel_timer\(unsigned long\)", setup_cancel, post_cancel),
    Contract("asio timer due", DUE, setup_due, post_due, hooks=PROCESS),
    Contract("asio timer gone", DUE, setup_gone, post_gone, hooks=PROCESS),
    Contract("asio enqueue", S + r"enqueue\(boost::intrusive_ptr<rotor::message_base_t>\)", setup_enqueue, post_enqueue),
    Contract("asio woken up", WOKEN, setup_woken, post_woken, hooks=PROCESS),
    Contract("asio do_process", S + r"do_process\(\)", c_inbound.setup_drain, c_inbound.post_drain, loops=[c_inbound.PopLoop(r"rotor::asio::", c_inbound.inv_pop)],
             hooks=c_inbound.DRAIN + [(r"^std::chrono::_V2::steady_clock::now\(\)", lambda eng, st, cc: [(st, eng.sym("clock"))])]),
    Contract("asio do_process (follower)", S + r"do_process\(\)", c_inbound.setup_follower, c_inbound.post_drain, loops=[c_inbound.PopLoop(r"rotor::asio::", c_inbound.inv_pop)],
             hooks=c_inbound.DRAIN + [(r"^std::chrono::_V2::steady_clock::now\(\)", lambda eng, st, cc: [(st, eng.sym("clock"))])]),
]
