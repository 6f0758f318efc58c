"""Draining of the queue other threads push to (libev and boost::asio backends)."""
from common import *
from ir import Unsupported

SU = "supervisor_t."


def lq(x, st):
    return x.seq(st, x.g["leader"], SU + "queue")


def popped(eng, st):
    x = eng.x
    q0, st0, v = st.notes["popped"]
    q = lq(x, st)
    f = seq_same(x, q0, st0, q, st) if v is None else appended(x, q0, st0, q, st, v)
    if v is None and q is q0:
        f = z3.BoolVal(True)
    eng.oblige(st, "every message taken from the inbound queue is queued, once, in order", f)
    st.notes["popped"] = (q, st.copy(), None)


def h_pop_any(eng, st, cc):
    """boost::lockfree::queue::pop of a queue other threads push to: any message, or none"""
    x = eng.x
    eng.oblige(st, "the inbound queue of the locality leader is drained", bv(cc.args[0]) == x.g["leader"] + x.foff(SU + "inbound_queue"))
    popped(eng, st)
    e = st.copy()
    e.events.append(("none",))
    v = eng.sym("message")
    st.assume(z3.And(z3.UGT(v, 1 << 16), z3.ULT(v, 1 << 60)))
    eng.store(st, cc.args[1], 8, v)
    q, s, _ = st.notes["popped"]
    st.notes["popped"] = (q, s, v)
    return [(e, False), (st, True)]


class PopLoop(Loop):
    def head(self, eng, st, ctx):
        st.notes["popped"] = (lq(eng.x, st), st.copy(), None)


def inv_pop(eng, st, ctx):
    x = eng.x
    if ctx.checking:
        q0, st0, v = st.notes["popped"]
        q = lq(x, st)
        if ctx.checking == "established" and v is not None and q is q0:
            raise Unsupported("a message is taken before the loop")
        yield "what is taken from the inbound queue is queued", (seq_same(x, q0, st0, q, st) if v is None else appended(x, q0, st0, q, st, v))


def h_process(eng, st, cc):
    """supervisor_t::do_process (contracts of the delivery plugin): handlers run; the queue of the leader is empty afterwards"""
    x = eng.x
    s0 = st.copy()
    popped(eng, st)
    s = bv(cc.args[0])
    eng.oblige(st, "a supervisor of this locality processes", z3.Or(s == x.g["sup"], s == x.g["leader"]))
    st.events.append(("process", s0))
    stl.seq_set(eng, st, eng.ckey(st, addoff(x.g["leader"], x.foff(SU + "queue"))), stl.Seq(()), False)
    st.notes["popped"] = (lq(x, st), st.copy(), None)
    return [(st, eng.sym("processed"))]


def setup_drain(x):
    s = x.ptr("supervisor", "actor")
    l = x.ptr("leader", "actor")
    x.wr(x.st, s, SU + "locality_leader", l)
    x.g.update(sup=s, leader=l)
    x.st.notes["popped"] = (lq(x, x.st), x.st.copy(), None)
    x.args = [s]


def setup_follower(x):
    """a supervisor which shares the locality of another one"""
    setup_drain(x)
    x.assume(x.g["sup"] != x.g["leader"])


def post_moved(x, st, ret):
    popped(x.eng, st)
    yield "until there is none any more", bool(st.events) and st.events[-1][0] == "none"


def post_drain(x, st, ret):
    popped(x.eng, st)
    yield "all messages of other threads are taken", "none" in [e[0] for e in st.events]
    yield "no message is left behind", zi(lq(x, st).len()) == 0


DRAIN = [(r"^boost::lockfree::queue<.*>::pop\(", h_pop_any), (r"^rotor::supervisor_t::do_process\(", h_process)]
