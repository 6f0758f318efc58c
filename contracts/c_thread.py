"""Thread backend: the list of timers, the clock, the inbound queue."""
from common import *

TUS = ["src/rotor/thread/system_context_thread.cpp", "src/rotor/thread/supervisor_thread.cpp", "src/rotor/supervisor.cpp"]
T = "system_context_thread_t."
DI = "system_context_thread_t::deadline_info_t."
SU = "supervisor_t."
HND = z3.Function("handler_of_timer", BV64, BV64)  # identifiers of pending timers are distinct (c_requests: next_request_id)


def nodes(x, st):
    return x.seq(st, x.g["ctx"], T + "timer_nodes")


def dl(x, st, e):
    return ival(x, st, addoff(e, x.foff(DI + "deadline")))


def hd(x, st, e):
    return ival(x, st, addoff(e, x.foff(DI + "handler")))


def owner(x, st, h):
    return x.rdb(st, h, "timer_handler_base_t.owner")


def rid(x, st, h):
    return x.rdb(st, h, "timer_handler_base_t.request_id")


def now(x, st):
    return x.rdb(st, x.g["ctx"], T + "now")


def sorted_(x, st, s, goal=False):
    """goal: neighbours only, which by induction on the distance is the same (lemma of the theory of sequences)"""
    if not s.pieces:
        return z3.BoolVal(True)
    if goal:
        i = z3.FreshConst(BV64, "si")
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(s.len()) - 1), dl(x, st, s.get(i)) <= dl(x, st, s.get(i + 1))))
    i, j = z3.FreshConst(BV64, "si"), z3.FreshConst(BV64, "sj")
    a, b = s.get(i), s.get(j)
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < zi(s.len())), dl(x, st, a) <= dl(x, st, b)))


def well(x, st, s, sort=True, goal=False):
    """ordered by deadline; every entry has a live handler; identifiers are distinct"""
    if not s.pieces:
        return z3.BoolVal(True)
    f = s.forall(lambda e: z3.And(z3.UGT(hd(x, st, e), 1 << 16), z3.ULT(hd(x, st, e), 1 << 60), HND(rid(x, st, hd(x, st, e))) == hd(x, st, e)))
    return z3.And(f, sorted_(x, st, s, goal)) if sort else f


def distinct(x, st, s):
    if not s.pieces:
        return z3.BoolVal(True)
    i, j = z3.FreshConst(BV64, "di"), z3.FreshConst(BV64, "dj")
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < zi(s.len())), hd(x, st, s.get(i)) != hd(x, st, s.get(j))))


def setup(x):
    c = x.ptr("context", "context")
    x.g["ctx"] = c
    s = nodes(x, x.st)
    x.assume(well(x, x.st, s))
    x.assume(distinct(x, x.st, s))
    x.assume(z3.And(now(x, x.st) >= 0, now(x, x.st) < (1 << 61)))
    x.st.notes["cur"] = (s, x.st.copy())
    x.args = [c]


def other_timers(eng, st, gone=None):
    """a callback ran: it may have started and cancelled timers (contracts start_timer, cancel_timer), and time went on"""
    x = eng.x
    c = x.g["ctx"]
    ck = eng.ckey(st, addoff(c, x.foff(T + "timer_nodes")))
    s = stl.SeqInit(eng, "timers_after", gen=eng.region_ctr)
    stl.seq_set(eng, st, ck, s)
    s.on_first(eng, st, ck)
    st.assume(well(x, st, s))
    st.assume(distinct(x, st, s))
    if gone is not None:
        st.assume(s.forall(lambda e: hd(x, st, e) != gone))
    n0 = now(x, st)
    n1 = eng.sym("now_after")
    st.assume(z3.And(n1 >= n0, n1 < (1 << 61)))
    x.wr(st, c, T + "now", n1)
    st.notes["cur"] = (s, st.copy())


def h_fire(eng, st, cc):
    """actor_base_t::on_timer_trigger(owner, id, cancelled): contract in c_requests"""
    x = eng.x
    own, i, can = bv(cc.args[0]), bv(cc.args[1]), tobool(cc.args[2])
    h = HND(i)
    s0, st0 = st.notes["cur"]
    s1 = nodes(x, st)
    eng.oblige(st, "the callback belongs to the timer's actor", own == owner(x, st, h))
    eng.oblige(st, "the timer is pending", s0.exists(lambda e: hd(x, st0, e) == h))
    eng.oblige(st, "exactly the timer is taken from the list before its callback runs", removed_one(x, s0, st0, s1, st, lambda e: hd(x, st0, e) == h))
    eng.oblige(st, "a timer never fires early", z3.Or(can, s0.forall(lambda e: z3.Implies(hd(x, st0, e) == h, dl(x, st0, e) <= now(x, st)))))
    st.events.append(("fire", own, i, can, st.copy()))
    other_timers(eng, st, h)
    return [(st, None)]


def list_kept(x, st):
    s0, st0 = st.notes["cur"]
    return seq_same(x, s0, st0, nodes(x, st), st) if s0 is not nodes(x, st) else z3.BoolVal(True)


def clock(eng, st, cc):
    x = eng.x
    v = eng.sym("clock")
    st.assume(z3.And(v >= now(x, st), v < (1 << 61)))
    st.events.append(("clock", v))
    st.notes["clocks"] = st.notes.get("clocks", 0) + 1
    st.notes["clock"] = v
    return [(st, v)]


CLOCK = (r"^std::chrono::_V2::steady_clock::now\(\)", clock)
FIRE = (r"^rotor::actor_base_t::on_timer_trigger\(", h_fire)


# ---------------------------------------------------------------- update_time
class UpdateLoop(Loop):
    def head(self, eng, st, ctx):
        st.notes["cur"] = (nodes(eng.x, st), st.copy())


def inv_update(eng, st, ctx):
    x = eng.x
    s = nodes(x, st)
    yield "the timers are ordered by deadline", well(x, st, s, goal=bool(ctx.checking))
    yield "identifiers are distinct", distinct(x, st, s)
    yield "time is sane", z3.And(now(x, st) >= 0, now(x, st) < (1 << 61))
    if ctx.checking:
        yield "no timer is lost", list_kept(x, st)
    for it in loop_iters(st, ctx):
        yield "the search starts over at the first timer", zi(it.idx) == 0


def post_update(x, st, ret):
    s = nodes(x, st)
    yield "the clock was read", len(evs(st, "clock")) >= 1
    yield "every timer whose deadline passed was fired", s.forall(lambda e: dl(x, st, e) >= now(x, st))
    yield "the timers are ordered by deadline", sorted_(x, st, s, True)
    yield "no timer is lost", list_kept(x, st)
    for e in evs(st, "fire"):
        yield "fired, not cancelled", z3.Not(e[3])


# ---------------------------------------------------------------- start
def setup_start(x):
    setup(x)
    iv, h = x.ptr("interval", "interval"), x.ptr("handler", "timer_handler")
    us = x.load(x.st, iv, 8)
    x.assume(z3.And(bv(us) >= 0, bv(us) < (1 << 50)))
    x.assume(HND(rid(x, x.st, h)) == h)
    s = nodes(x, x.st)
    x.assume(s.forall(lambda e: hd(x, x.st, e) != h))
    fl = x.rdb(x.st, x.g["ctx"], T + "intercepting")
    x.assume(z3.ULE(fl, 1))
    x.g.update(interval=iv, us=bv(us), h=h, icept=fl == 1)
    x.args += [iv, h]


def h_update(eng, st, cc):
    """update_time by its contract"""
    x = eng.x
    st.events.append(("update_time", cc.args[0], st.copy()))
    other_timers(eng, st)
    if "h" in x.g:
        s = nodes(x, st)
        st.assume(s.forall(lambda e: hd(x, st, e) != x.g["h"]))
    return [(st, None)]


UPDATE = (r"^rotor::thread::system_context_thread_t::update_time\(\)", h_update)


def inv_start(eng, st, ctx):
    x = eng.x
    s = nodes(x, st)
    k, facts = progress(eng, st, ctx, s.len())
    for i, f in enumerate(facts):
        yield "progress %d" % i, f
    if k is None:
        return
    D = new_deadline(x, st)
    yield "the timers passed are due before the new one", upto(s, k, lambda a: dl(x, st, a.addr) <= D)


def new_deadline(x, st):
    return now(x, st) + x.g["us"] * 1000


def post_start(x, st, ret):
    s0, st0 = st.notes["cur"]
    s1 = nodes(x, st)
    h = x.g["h"]
    up = evs(st, "update_time")
    yield "time is updated first while a blocking handler runs", iff(len(up), x.g["icept"]) if up else z3.Not(x.g["icept"])
    yield "exactly the new timer is added", removed_one(x, s1, st, s0, st0, lambda e: z3.And(hd(x, st, e) == h, dl(x, st, e) == new_deadline(x, st)))
    yield "the timers are ordered by deadline", sorted_(x, st, s1, True)
    yield "nothing is fired", not evs(st, "fire")


# ---------------------------------------------------------------- cancel
def setup_cancel(x):
    setup(x)
    i = x.sym("timer_id")
    s = nodes(x, x.st)
    fl = x.rdb(x.st, x.g["ctx"], T + "intercepting")
    x.assume(z3.ULE(fl, 1))
    x.g.update(id=i, icept=fl == 1)
    x.assume(s.exists(lambda e: rid(x, x.st, hd(x, x.st, e)) == i))
    x.args += [i]


def post_cancel(x, st, ret):
    f = evs(st, "fire")
    yield "the callback runs exactly once", len(f) == 1
    for e in f:
        yield "of that timer, as cancelled", z3.And(e[2] == x.g["id"], e[3])
    yield "no timer is lost", list_kept(x, st)
    ups = evs(st, "update_time")
    if ups:
        order = [e[0] for e in st.events if e[0] in ("fire", "update_time")]
        yield "the timer is cancelled before others may fire", order[0] == "fire"


# ---------------------------------------------------------------- messages of other threads
def queues(x, st):
    return x.seq(st, x.g["root"], SU + "queue"), x.seq(st, x.g["root"], SU + "inbound_queue")


def h_pop(eng, st, cc):
    """boost::lockfree::queue::pop: takes the oldest element, if any"""
    x = eng.x
    ck = eng.ckey(st, cc.args[0])
    eng.oblige(st, "the inbound queue of the root supervisor is drained", bv(cc.args[0]) == x.g["root"] + x.foff(SU + "inbound_queue"))
    s = stl.seq_get(eng, st, ck)
    out = []
    e = st.copy()
    e.assume(zi(s.len()) == 0)
    if eng.feasible(e, z3.BoolVal(True)):
        out.append((e, False))
    st.assume(zi(s.len()) > 0)
    if s.pieces and eng.feasible(st, z3.BoolVal(True)):
        v = eng.load(st, s.get(0), 8)
        eng.store(st, cc.args[1], 8, v)
        stl.seq_set(eng, st, ck, s.erase(eng, st, 0), False)
        out.append((st, True))
    return out


def h_sup(eng, st, cc):
    eng.store(st, cc.args[0], 8, eng.x.g["root"])
    return [(st, None)]


def setup_check(x):
    c = x.ptr("context", "context")
    x.g["ctx"] = c
    x.g["root"] = x.ptr("root", "actor")
    queues(x, x.st)
    x.args = [c]


def drained(x, q0, i0, st0, q1, i1, st, k):
    """q1 is q0 followed by the first k messages of i0, i1 is the rest of i0"""
    n = zi(q0.len())
    yield "no message is lost or doubled", z3.And(zi(q1.len()) == n + k, zi(i1.len()) + k == zi(i0.len()), k >= 0)
    yield "pending messages keep their place", seq_shift(x, q0, st0, q1, st, 0, n, 0)
    if i0.pieces:
        j = z3.FreshConst(BV64, "dj")
        yield "messages of other threads follow in their order", z3.ForAll([j], z3.Implies(z3.And(j >= n, j < n + k), ival(x, st, q1.get(j)) == ival(x, st0, i0.get(j - n)))) if q1.pieces else k == 0
        if i1.pieces:
            j = z3.FreshConst(BV64, "ej")
            yield "the others wait", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(i1.len())), ival(x, st, i1.get(j)) == ival(x, st0, i0.get(j + k))))


def inv_drain(eng, st, ctx):
    x = eng.x
    (q0, i0), (q1, i1) = queues(x, ctx.entry), queues(x, st)
    yield from drained(x, q0, i0, ctx.entry, q1, i1, st, zi(i0.len()) - zi(i1.len()))


def post_check(x, st, ret):
    (q0, i0), (q1, i1) = queues(x, x.pre), queues(x, st)
    yield "no message of another thread is left waiting", zi(i1.len()) == 0
    yield from drained(x, q0, i0, x.pre, q1, i1, st, zi(i0.len()))
    yield "time is updated once", len(evs(st, "update_time")) == 1


# ---------------------------------------------------------------- supervisor
def setup_sup(x):
    s = x.ptr("supervisor", "actor")
    c = x.ptr("context", "context")
    x.wr(x.st, s, SU + "context", c)
    x.g.update(sup=s, ctx=c)
    x.args = [s]


def setup_do_start(x):
    setup_sup(x)
    x.args += [x.ptr("interval", "interval"), x.ptr("handler", "timer_handler")]


def once(name, what):
    def post(x, st, ret):
        es = evs(st, name)
        yield what, len(es) == 1
        for e in es:
            yield "at the own context, with the same arguments", z3.And([bv(a) == bv(b) for a, b in zip(e[1:-1], [x.g["ctx"]] + x.args[1:])])
    return post


def setup_do_cancel(x):
    setup_sup(x)
    x.args += [x.sym("timer_id")]


def setup_enqueue(x):
    setup_sup(x)
    m = x.ptr("message", "message")
    x.g["msg"] = m
    x.args += [cell(x, m)]


def post_enqueue(x, st, ret):
    es = [e for e in st.events if e[0] in ("lfq_push", "lock", "unlock", "notify")]
    kinds = [e[0] for e in es]
    yield "the message is pushed exactly once", kinds.count("lfq_push") == 1
    yield "the receiver is woken up at least once after that", "notify" in kinds and "lfq_push" in kinds and kinds.index("lfq_push") < len(kinds) - 1 - kinds[::-1].index("notify")
    locked, ok = False, True
    for k in kinds:
        if k == "lock":
            locked = True
        if k == "unlock":
            locked = False
        if k == "lfq_push":
            pushed = True
    # either the push or the wake-up happens under the receiver's mutex, so that the receiver cannot miss it between its check and its wait
    locked = False
    safe = False
    for k in kinds:
        if k == "lock":
            locked = True
        elif k == "unlock":
            locked = False
        elif k in ("lfq_push", "notify") and locked:
            safe = True
    yield "push and wake-up cannot fall between the receiver's check and its wait", safe
    for e in es:
        if e[0] == "lfq_push":
            yield "that very message, to the own inbound queue", z3.And(bv(e[2]) == x.g["msg"], bv(e[1]) == x.g["sup"] + x.foff(SU + "inbound_queue"))
        if e[0] == "lock":
            yield "the mutex of the context", bv(e[1]) == x.g["ctx"] + x.foff(T + "mutex")
        if e[0] == "notify":
            yield "the receiver waits there", bv(e[1]) == x.g["ctx"] + x.foff(T + "cv")


def setup_intercept(x):
    setup_sup(x)
    m = cell(x, x.ptr("message", "message"))
    tag, co = x.sym("tag"), x.ptr("continuation", "continuation")
    x.g.update(tag=tag, cont=co)
    x.args += [m, tag, co]


def flag(x, st):
    return x.rdb(st, x.g["ctx"], T + "intercepting")


def post_intercept(x, st, ret):
    cs = evs(st, "continue")
    yield "the handler runs exactly once", len(cs) == 1
    ck = evs(st, "check")
    order = [e[0] for e in st.events if e[0] in ("check", "continue")]
    blocking = len(ck) > 0
    io = z3.simplify(bv(x.load(x.pre, x.eng.global_addr("@_ZN5rotor4tags2ioE", x.eng.mods[0]), 8)))
    yield "blocking handlers are those tagged as io", iff(blocking, x.g["tag"] == io)
    if blocking:
        yield "timers and messages are checked before and after a blocking handler", order == ["check", "continue", "check"]
        for e in cs:
            yield "time is kept up to date while it runs", flag(x, e[-1]) == 1
        yield "not afterwards", flag(x, st) == 0
    else:
        for e in cs:
            yield "a normal handler leaves the context alone", flag(x, e[-1]) == flag(x, x.pre)
        yield "the flag is kept", flag(x, st) == flag(x, x.pre)
    for e in cs:
        yield "that handler", bv(e[1]) == x.g["cont"]


# ---------------------------------------------------------------- run
def popped(eng, st):
    """what was taken from the inbound queue has been put to the queue, nothing else was"""
    x = eng.x
    q0, st0, v = st.notes["popped"]
    q = x.seq(st, x.g["root"], SU + "queue")
    f = seq_same(x, q0, st0, q, st) if v is None else appended(x, q0, st0, q, st, v)
    if v is None and q is q0:
        f = z3.BoolVal(True)
    eng.oblige(st, "every message taken from the inbound queue is queued, once, in order", f)
    st.notes["popped"] = (q, st.copy(), None)


def h_pop_any(eng, st, cc):
    """pop of a queue other threads push to: any message, or none"""
    x = eng.x
    eng.oblige(st, "the inbound queue of the root supervisor is drained", bv(cc.args[0]) == x.g["root"] + x.foff(SU + "inbound_queue"))
    popped(eng, st)
    if st.notes.get("clocks", 0) >= 2:
        t = st.notes["clock"]
        eng.oblige(st, "never polls once the earliest deadline is reached", nodes(x, st).forall(lambda e: t <= dl(x, st, e)))
    e = st.copy()
    e.events.append(("none",))
    v = eng.sym("message")
    st.assume(z3.And(z3.UGT(v, 1 << 16), z3.ULT(v, 1 << 60)))
    eng.store(st, cc.args[1], 8, v)
    q, s, _ = st.notes["popped"]
    st.notes["popped"] = (q, s, v)
    return [(e, False), (st, True)]


class PopLoop(Loop):
    def head(self, eng, st, ctx):
        x = eng.x
        st.notes["popped"] = (x.seq(st, x.g["root"], SU + "queue"), st.copy(), None)
        st.notes["cur"] = (nodes(x, st), st.copy())


def inv_pop(eng, st, ctx):
    x = eng.x
    if ctx.checking:
        q0, st0, v = st.notes["popped"]
        q = x.seq(st, x.g["root"], SU + "queue")
        if ctx.checking == "established" and v is not None and q is q0:
            raise stl.Unsupported("a message is taken before the loop")
        yield "what is taken from the inbound queue is queued", (seq_same(x, q0, st0, q, st) if v is None else appended(x, q0, st0, q, st, v))


def inv_outer(eng, st, ctx):
    yield from inv_pop(eng, st, ctx)
    yield from inv_run(eng, st, ctx)


def setup_run(x):
    c = x.ptr("context", "context")
    x.g["ctx"] = c
    r = x.ptr("root", "actor")
    x.g["root"] = r
    x.assume(well(x, x.st, nodes(x, x.st)))
    x.assume(distinct(x, x.st, nodes(x, x.st)))
    x.assume(z3.And(now(x, x.st) >= 0, now(x, x.st) < (1 << 61)))
    p = x.rdb(x.st, r, SU + "poll_duration")
    x.assume(z3.And(p >= 0, p < (1 << 40)))
    x.st.notes["popped"] = (queues(x, x.st)[0], x.st.copy(), None)
    x.st.notes["cur"] = (nodes(x, x.st), x.st.copy())
    x.args = [c]


def h_process(eng, st, cc):
    """supervisor_t::do_process (contracts of the delivery plugin): handlers run; the queue is empty afterwards"""
    x = eng.x
    s0 = st.copy()
    popped(eng, st)
    st.notes["clocks"] = 0
    eng.oblige(st, "the root supervisor processes", bv(cc.args[0]) == x.g["root"])
    st.events.append(("process", s0))
    ck = eng.ckey(st, addoff(x.g["root"], x.foff(SU + "queue")))
    stl.seq_set(eng, st, ck, stl.Seq(()), False)
    other_timers(eng, st)
    v = eng.sym("state_after", z3.BitVecSort(32))
    st.assume(z3.ULE(v, 6))
    x.wr(st, x.g["root"], "actor_base_t.state", v)
    st.notes["popped"] = (x.seq(st, x.g["root"], SU + "queue"), st.copy(), None)
    return [(st, eng.sym("processed"))]


def h_wait(eng, st, cc):
    """condition_variable::wait_until(lock, deadline, predicate): returns at the deadline at the latest, or earlier once the predicate holds"""
    x = eng.x
    d = bv(x.load(st, cc.args[2], 8))
    s = nodes(x, st)
    (q, i) = queues(x, st)
    eng.oblige(st, "never waits past the earliest deadline", s.forall(lambda e: d <= dl(x, st, e)))
    eng.oblige(st, "never waits while a message is to be processed", zi(q.len()) == 0)
    eng.oblige(st, "waits under the mutex that senders use", bv(x.load(st, cc.args[1], 8)) == x.g["ctx"] + x.foff(T + "mutex"))
    eng.oblige(st, "waits where senders wake it up", bv(cc.args[0]) == x.g["ctx"] + x.foff(T + "cv"))
    popped(eng, st)
    st.events.append(("wait", st.copy()))
    f, n = stl.find_callee(eng, cc.f, r"::operator\(\)\(\) const$", 3)
    if f is None:
        raise stl.Unsupported("the condition waited for")
    b = eng.new_region("predicate")
    eng.store(st, b, 8, cc.args[3])
    t = st.copy()
    t.notes["empty"] = eng.sym("no_message", z3.BoolSort())
    for s2, r in eng.exec_func(t, f, [b]):
        eng.oblige(s2, "waits until another thread sent a message", tobool(r) == z3.Not(t.notes["empty"]))
    return [(st, eng.sym("woken", z3.BoolSort()))]


def h_lfq_empty(eng, st, cc):
    eng.oblige(st, "the own inbound queue is looked at", bv(cc.args[0]) == eng.x.g["root"] + eng.x.foff(SU + "inbound_queue"))
    return [(st, st.notes["empty"])]


def inv_run(eng, st, ctx):
    x = eng.x
    s = nodes(x, st)
    yield "the timers are ordered by deadline", well(x, st, s, goal=bool(ctx.checking))
    yield "identifiers are distinct", distinct(x, st, s)
    yield "time is sane", z3.And(now(x, st) >= 0, now(x, st) < (1 << 61))


def post_run(x, st, ret):
    yield "runs until the root supervisor is shut down", True
    p = evs(st, "process")
    yield "what is left is processed at the end", len(p) >= 1 and st.events[-1][0] == "process"


B = r"rotor::thread::system_context_thread_t::"
S = r"rotor::thread::supervisor_thread_t::"
HOOKS = [CLOCK, FIRE, (r"^rotor::system_context_t::get_supervisor\(\)", h_sup), (r"^boost::lockfree::queue<.*>::pop\(", h_pop),
         (r"::lock_guard\(std::mutex&\)|unique_lock<std::mutex>::unique_lock\(std::mutex&\)|^std::mutex::lock\(", lambda eng, st, cc: h_lock(eng, st, cc)),
         (r"::~lock_guard\(\)|unique_lock<std::mutex>::~unique_lock\(\)|^std::mutex::unlock\(|unique_lock<std::mutex>::unlock\(", lambda eng, st, cc: h_unlock(eng, st, cc)),
         (r"^std::condition_variable::notify_(one|all)\(", h_ev("notify")), (r"condition_variable::wait_until<", h_wait),
         (r"^rotor::supervisor_t::do_process\(", h_process)]


def h_lock(eng, st, cc):
    if "mutex::lock" in cc.d:
        st.events.append(("lock", cc.args[0]))
    else:
        eng.store(st, cc.args[0], 8, cc.args[1])
        st.events.append(("lock", cc.args[1]))
    return [(st, None)]


def h_unlock(eng, st, cc):
    st.events.append(("unlock",))
    return [(st, None)]


CTX = lambda n, k: (r"^rotor::thread::system_context_thread_t::%s\(" % n, h_ev(n, nargs=k))
CONTRACTS = [
    Contract("update_time", B + r"update_time\(\)", setup, post_update, loops=[UpdateLoop(r"update_time", inv_update)],
             cover=[("fires nothing more", lambda x, s, r: True)]),
    Contract("start_timer", B + r"start_timer\(.*\)", setup_start, post_start, loops=[Loop(r"start_timer", inv_start)], hooks=[UPDATE],
             cover=[("intercepting", lambda x, s, r: len(evs(s, "update_time")) == 1)]),
    Contract("cancel_timer", B + r"cancel_timer\(.*\)", setup_cancel, post_cancel, hooks=[UPDATE]),
    Contract("check", B + r"check\(\)", setup_check, post_check, loops=[Loop(r"check\(\)", inv_drain)], hooks=[UPDATE2] if False else [(r"^rotor::thread::system_context_thread_t::update_time\(\)", h_ev("update_time"))]),
    Contract("run", B + r"run\(\)", setup_run, post_run, loops=[PopLoop(r"thread_t::run\(\)(?!::)", inv_outer, 0), PopLoop(r"thread_t::run\(\)", inv_pop)], hooks=[UPDATE, (r"^boost::lockfree::queue<.*>::pop\(", h_pop_any), (r"^boost::lockfree::queue<.*>::empty\(\)", h_lfq_empty)],
             cover=[("waits", lambda x, s, r: len(evs(s, "process")) == 1)]),
    Contract("do_start_timer", S + r"do_start_timer\(.*\)", setup_do_start, once("start_timer", "the context starts the timer once"), hooks=[CTX("start_timer", 3)]),
    Contract("do_cancel_timer", S + r"do_cancel_timer\(.*\)", setup_do_cancel, once("cancel_timer", "the context cancels the timer once"), hooks=[CTX("cancel_timer", 2)]),
    Contract("enqueue", S + r"enqueue\(.*\)", setup_enqueue, post_enqueue),
    Contract("intercept", S + r"intercept\(.*\)", setup_intercept, post_intercept, hooks=[CTX("check", 1), (r"^virtual .*continuation_t.*|^virtual .*continuation.*operator\(\)", h_ev("continue"))],
             cover=[("blocking", lambda x, s, r: len(evs(s, "check")) == 2), ("normal", lambda x, s, r: not evs(s, "check"))]),
]
