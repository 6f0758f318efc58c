"""Delivery of messages: the queue of a locality, the routing of one message, the call of its handlers."""
from common import *

TUS = ["verif:stubs/delivery.cpp", "src/rotor/plugin/delivery.cpp", "src/rotor/supervisor.cpp"]
D = "delivery_plugin_base_t."
SU = "supervisor_t."
MB = "message_base_t."


# ---------------------------------------------------------------- process(): one message at a time, in order
def queue(x, st):
    return x.seq(st, x.g["sup"], SU + "queue")


def live(x, st, s):
    """a queue holds messages"""
    if not s.pieces:
        return z3.BoolVal(True)


    def good(e):
        m = ival(x, st, e)
        n = x.rdb(st, m, MB + "next_route")
        return z3.And(ok_ptr(m), ok_ptr(x.rdb(st, m, MB + "address")), z3.Or(n == 0, ok_ptr(n)))

    return s.forall(good)


def setup_process(x):
    p = x.ptr("plugin", "plugin")
    s = x.ptr("leader", "actor")
    a = x.ptr("own_address", "address")
    x.wr(x.st, p, D + "queue", addoff(s, x.foff(SU + "queue")))
    x.wr(x.st, p, D + "address", a)
    x.wr(x.st, p, D + "subscription_map", addoff(s, x.foff(SU + "subscription_map")))
    x.wr(x.st, p, "plugin_base_t.actor", s)
    x.wr(x.st, s, SU + "locality_leader", s)
    x.g.update(plugin=p, sup=s, own=a)
    x.assume(live(x, x.st, queue(x, x.st)))
    Ghost(x, "foreign")
    x.args = [p]


def others_run(eng, st):
    """handlers are called: they may append messages, and put answers in front of the queue; messages that wait keep their order"""
    x = eng.x
    ck = eng.ckey(st, addoff(x.g["sup"], x.foff(SU + "queue")))
    s0 = stl.seq_get(eng, st, ck)
    st0 = st.copy()
    s1 = stl.SeqInit(eng, "queue_after", gen=eng.region_ctr)
    stl.seq_set(eng, st, ck, s1)
    s1.on_first(eng, st, ck)
    st.assume(live(x, st, s1))
    f = eng.sym("put_in_front")
    st.assume(z3.And(f >= 0, f < 1 << 31, zi(s1.len()) >= f + zi(s0.len())))
    if s0.pieces:
        j = z3.FreshConst(BV64, "wj")
        a = s1.get(j)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= f, j < f + zi(s0.len())), ival(x, st, a) == ival(x, st0, s0.get(j - f))), patterns=[a]))
    st.notes["front"] = (f, zi(s1.len()) - zi(s0.len()))


def h_deliver(eng, st, cc):
    x = eng.x
    st.events.append(("deliver", ival(x, st, cc.args[0]), bv(cc.args[1]), st.copy()))
    if "sup" in x.g:
        others_run(eng, st)
    return [(st, None)]


def h_lookup(eng, st, cc):
    r = eng.sym("route")
    st.assume(z3.Or(r == 0, z3.And(z3.UGT(r, 1 << 16), z3.ULT(r, 1 << 60))))
    eng.setkind(st, r, "recipients")
    st.events.append(("lookup", bv(cc.args[1]), r, bv(cc.args[0])))
    return [(st, r)]


def h_count(eng, st, cc):
    n = eng.sym("use_count", z3.BitVecSort(32))
    st.events.append(("use_count", bv(cc.args[0]), n))
    return [(st, n)]


def h_enqueue(eng, st, cc):
    x = eng.x
    st.events.append(("enqueue", bv(cc.args[0]), ival(x, st, cc.args[1]), st.copy()))
    # the by-value argument is consumed
    eng.store(st, cc.args[1], 8, 0)
    if "foreign" in x.g:
        g = x.g["foreign"]
        g.set(x, st, x.g["plugin"], g.get(x, st, x.g["plugin"]) + 1)
    return [(st, None)]


def h_discard(eng, st, cc):
    return [(st, None)]


class StepLoop(Loop):
    """every round of the loop handles exactly one message"""

    def head(self, eng, st, ctx):
        x = eng.x
        m = ival(x, st, queue(x, st).get(0))
        eng.setkind(st, m, "message")
        eng.setkind(st, x.rdb(st, m, MB + "address"), "address")
        st.notes["head"] = (st.copy(), len(st.events))

    def inv(self, eng, st, ctx):
        x = eng.x
        s = queue(x, st)
        yield "the queue holds messages", live(x, st, s)
        yield "the number of messages for other localities is counted", counted(x, st, ctx)
        if ctx.checking == "preserved":
            yield from self.round(x, st)

    def round(self, x, st):
        st0, n0 = st.notes["head"]
        q0, q1 = queue(x, st0), queue(x, st)
        m = ival(x, st0, q0.get(0))
        ev = st.events[n0:]
        at = lambda k: [e for e in ev if e[0] == k]
        addr = x.rdb(st0, m, MB + "address")
        nxt = x.rdb(st0, m, MB + "next_route")
        own = x.rdb(st0, addr, "address_t.locality") == x.rdb(st0, x.g["own"], "address_t.locality")
        de, lo, en, uc = at("deliver"), at("lookup"), at("enqueue"), at("use_count")
        yield "the locality of the destination decides who handles the message", z3.And(iff(len(lo), own), iff(len(en), z3.Not(own)))
        for e in lo:
            yield "the recipients of this message are looked up in the own index", z3.And(e[1] == m, e[3] == x.g["sup"] + x.foff(SU + "subscription_map"))
            yield "it is delivered once, if it has recipients", iff(len(de), e[2] != 0)
            for d in de:
                yield "to exactly these recipients", z3.And(d[1] == m, d[2] == e[2])
        if not lo:
            yield "a foreign message is not delivered here", len(de) == 0
        for e in en:
            yield "a foreign message goes to the supervisor of its destination", z3.And(e[2] == m, e[1] == bv(x.load(st0, addoff(addr, x.foff("address_t.supervisor")), 8)))
        f, extra = st.notes["front"] if de else (z3.BitVecVal(0, 64), z3.BitVecVal(0, 64))
        n = zi(q0.len())
        grown = zi(q1.len()) - (n - 1 + extra)
        yield "the message is taken from the queue, and put there again at most once", z3.Or(grown == 0, grown == 1)
        again = z3.BoolVal(False)
        for e in uc:
            again = z3.And(nxt != 0, e[2] == 1)
            yield "the owners of this message are counted", z3.ULT(e[1] - m, 40)
        if not uc:
            yield "a routed message is passed on unless somebody keeps it", z3.Or(z3.Not(own), nxt == 0)
        else:
            yield "only own messages are passed on", own
        yield "a routed message that nobody keeps is passed on, any other is not", (grown == 1) == again
        if q1.pieces:
            last = ival(x, st, q1.get(zi(q1.len()) - 1))
            yield "it is the same message, to the next address of its route, at the end of the queue", z3.Implies(grown == 1, z3.And(
                last == m, x.rdb(st, m, MB + "address") == nxt, x.rdb(st, m, MB + "next_route") == 0))
        if q0.pieces and q1.pieces:
            j = z3.FreshConst(BV64, "rj")
            yield "the messages that wait keep their order", z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < n), ival(x, st, q1.get(j - 1 + f)) == ival(x, st0, q0.get(j))))


def counted(x, st, ctx):
    """a local that starts with 0 holds the number of forwarded messages"""
    g = x.g["foreign"].get(x, st, x.g["plugin"])
    alts = [g == 0]
    for m in sorted((m for m in ctx.mods if m[0] == "c"), key=str):
        c0, c = ctx.entry.cells.get((m[1], m[2])), st.cells.get((m[1], m[2]))
        if c0 is None or c is None or c0[0] != 8 or isinstance(c[1], (Iter, Undef, VFn)) or isinstance(c0[1], (Iter, Undef, VFn)):
            continue
        if isz(c[1]) and not (z3.is_bv(c[1]) and c[1].size() == 64):
            continue
        if x.eng.must(ctx.entry, bv(c0[1]) == 0):
            return bv(c[1]) == g
    return g == g


def post_process(x, st, ret):
    yield "nothing is left in the queue", zi(queue(x, st).len()) == 0
    yield "the number of messages passed to other localities is returned", bv(ret) == x.g["foreign"].get(x, st, x.g["plugin"])


# ---------------------------------------------------------------- delivery(): every handler once
JH = "subscription_t::joint_handlers_t."


def vec(x, st, which):
    return x.seq(st, x.g["recipients"], JH + which)


def ok_ptr(v):
    return z3.And(z3.UGT(v, 1 << 16), z3.ULT(v, 1 << 60))


def setup_delivery(x):
    r = x.ptr("recipients", "recipients")
    m = x.ptr("message", "message")
    x.g.update(recipients=r, m=m)
    x.g["cell"] = cell(x, m)
    for w in ("internal", "external"):
        s = vec(x, x.st, w)
        rd = lambda p, f: x.rdb(x.st, p, f)

        def good(e):
            h = ival(x, x.st, e)
            a = rd(h, "handler_base_t.actor_ptr")
            u = rd(a, "actor_base_t.supervisor")
            return z3.And(ok_ptr(h), ok_ptr(a), ok_ptr(u), ok_ptr(rd(u, "actor_base_t.address")))

        x.assume(s.forall(good))
        x.g[w] = s
    Ghost(x, "called")
    Ghost(x, "forwarded")
    x.args = [x.g["cell"], r]


def h_call(eng, st, cc):
    """handler_base_t::call: user code; it may add handlers to the route, which may move them"""
    x = eng.x
    g, r = x.g["called"], x.g["recipients"]
    n = g.get(x, st, r)
    s0 = x.g["internal"]
    eng.oblige(st, "no more handlers are called than were subscribed", z3.And(n >= 0, n < zi(s0.len())))
    eng.oblige(st, "handlers are called in the order of their subscription", bv(cc.args[0]) == ival(x, x.pre, s0.get(n)))
    eng.oblige(st, "a handler gets the message", ival(x, st, cc.args[1]) == x.g["m"])
    f = x.g["forwarded"].get(x, st, r)
    g.set(x, st, r, n + 1)
    for w in ("internal", "external"):
        ck = eng.ckey(st, addoff(r, x.foff(JH + w)))
        a, sta = stl.seq_get(eng, st, ck), st.copy()
        b = stl.SeqInit(eng, w + "_after", gen=eng.region_ctr)
        stl.seq_set(eng, st, ck, b)
        b.on_first(eng, st, ck)
        st.assume(zi(b.len()) >= zi(a.len()))
        if a.pieces:
            j = z3.FreshConst(BV64, "hj")
            e = b.get(j)
            st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(a.len())), ival(x, st, e) == ival(x, sta, a.get(j))), patterns=[e]))
        stl.reallocated(st, ck)
    return [(st, None)]


def h_forward(eng, st, cc):
    x = eng.x
    g, r = x.g["forwarded"], x.g["recipients"]
    n = g.get(x, st, r)
    s0 = x.g["external"]
    eng.oblige(st, "no more calls are forwarded than there are foreign handlers", z3.And(n >= 0, n < zi(s0.len())))
    h = ival(x, x.pre, s0.get(n))
    sup = x.rdb(x.pre, x.rdb(x.pre, h, "handler_base_t.actor_ptr"), "actor_base_t.supervisor")
    eng.oblige(st, "a foreign call goes to the supervisor of the handler's actor, in the order of subscription", bv(cc.args[0]) == sup)
    w = Msg(x, cc.args[0], eng.load(st, cc.args[1], 8), st)
    eng.oblige(st, "it is a handler call", z3.BoolVal(w.is_("handler_call")))
    if w.is_("handler_call"):
        eng.oblige(st, "it is addressed to that supervisor", w.dst == x.rdb(st, sup, "actor_base_t.address"))
        eng.oblige(st, "it carries the message and the handler", z3.And(w.f("handler_call_t.payload.orig_message") == x.g["m"], w.f("handler_call_t.payload.handler") == h))
    eng.store(st, cc.args[1], 8, 0)
    g.set(x, st, r, n + 1)
    return [(st, None)]


class EachLoop(Loop):
    """a loop over one of the vectors: the ghost counts with it"""

    def __init__(self, rx, nth=None):
        Loop.__init__(self, rx, None, nth)

    def inv(self, eng, st, ctx):
        x = eng.x
        r = x.g["recipients"]
        c, f = x.g["called"], x.g["forwarded"]
        c0, f0 = c.get(x, ctx.entry, r), f.get(x, ctx.entry, r)
        c1, f1 = c.get(x, st, r), f.get(x, st, r)
        for w, k0, k1 in (("internal", c0, c1), ("external", f0, f1)):
            n = zi(x.g[w].len())
            yield "the %s calls are counted" % w, z3.And(k1 >= 0, k1 <= n)
            s = vec(x, st, w)
            yield "subscribed handlers stay (%s)" % w, z3.And(zi(s.len()) >= n, upto(s, n, lambda a: ival(x, st, a.addr) == ival(x, x.pre, x.g[w].get(a.pos))))
        moved = [("h", g.off, 8) for g in (c, f) if any(m[0] == "h" and m[1] == g.off for m in ctx.mods)]
        which = "internal" if any(m[1] == c.off for m in moved) else "external" if moved else None
        if which:
            k1 = c1 if which == "internal" else f1
            p, facts = progress(eng, st, ctx, x.g[which].len())
            if p is not None:
                yield "the loop visits one handler after the other", z3.And([p == k1] + facts)


def post_delivery(x, st, ret):
    r = x.g["recipients"]
    yield "every own handler was called once", x.g["called"].get(x, st, r) == zi(x.g["internal"].len())
    yield "every foreign handler was sent one call", x.g["forwarded"].get(x, st, r) == zi(x.g["external"].len())


def setup_inspected(x):
    setup_delivery(x)
    x.args += [x.ptr("stringifier", "stringifier")]


def post_inspected(x, st, ret):
    d = evs(st, "deliver")
    yield "the message is delivered exactly once to its recipients", z3.And(z3.BoolVal(len(d) == 1), *[z3.And(e[1] == x.g["m"], e[2] == x.g["recipients"]) for e in d])


def setup_do_process(x):
    s, l = x.ptr("supervisor", "actor"), x.ptr("leader", "leader")
    p = x.ptr("delivery", "plugin")
    x.wr(x.st, s, SU + "locality_leader", l)
    x.wr(x.st, l, SU + "delivery", p)
    x.g["p"] = p
    x.args = [s]


def post_do_process(x, st, ret):
    e = evs(st, "process")
    yield "the queue of the locality is processed once", z3.And(z3.BoolVal(len(e) == 1), *[bv(a[1]) == x.g["p"] for a in e])
    yield "its result is returned", bv(ret) == x.g["result"] if "result" in x.g else z3.BoolVal(False)


def h_process(eng, st, cc):
    st.events.append(("process", cc.args[0]))
    r = eng.x.g["result"] = eng.sym("processed")
    return [(st, r)]


# ---------------------------------------------------------------- put, uplift
def setup_put(x):
    s, l = x.ptr("supervisor", "actor"), x.ptr("leader", "leader")
    x.wr(x.st, s, SU + "locality_leader", l)
    m = x.ptr("message", "message")
    x.g.update(sup=l, m=m)
    q = queue(x, x.st)
    x.args = [s, cell(x, m)]


def post_put(x, st, ret):
    yield "the message is appended to the queue of the locality, the others stay", appended(x, queue(x, x.pre), x.pre, queue(x, st), st, x.g["m"])


def setup_uplift(x):
    s, l = x.ptr("supervisor", "actor"), x.ptr("leader", "leader")
    x.wr(x.st, s, SU + "locality_leader", l)
    x.g.update(sup=l)
    q = queue(x, x.st)
    x.assume(live(x, x.st, q))
    x.assume(zi(q.len()) > 0)
    x.args = [s]


def post_uplift(x, st, ret):
    q0, q1 = queue(x, x.pre), queue(x, st)
    n = zi(q0.len())
    yield "no message is lost or added", zi(q1.len()) == n
    yield "the last message is the first now", ival(x, st, q1.get(0)) == ival(x, x.pre, q0.get(n - 1))
    j = z3.FreshConst(BV64, "uj")
    yield "the others keep their order", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n - 1), ival(x, st, q1.get(j + 1)) == ival(x, x.pre, q0.get(j))))


HOOKS = [(r"^rotor::subscription_t::get_recipients\(", h_lookup), (r"::use_count\(\) const$", h_count), (r"^virtual .*(::enqueue\(|supervisor_t#)", h_enqueue)]
DL = [(r"^rotor::plugin::(inspected_)?local_delivery_t::delivery\(", h_deliver), (r"^rotor::plugin::inspected_local_delivery_t::discard\(", h_discard)]
P = r"rotor::plugin::delivery_plugin_t<rotor::plugin::%s>::process\(\)"
S = r"rotor::supervisor_t::"
CONTRACTS = [
    Contract("process", P % "local_delivery_t", setup_process, post_process, loops=[StepLoop(r"process\(\)")], hooks=DL),
    Contract("process (inspected)", P % "inspected_local_delivery_t", setup_process, post_process, loops=[StepLoop(r"process\(\)")], hooks=DL),
    Contract("local delivery", r"rotor::plugin::local_delivery_t::delivery\(.*\)", setup_delivery, post_delivery, loops=[EachLoop(r"delivery\(")],
             hooks=[(r"^virtual .*(handler_base_t::call\(|handler_base_t#)", h_call), (r"^virtual .*(::enqueue\(|supervisor_t#)", h_forward)]),
    Contract("inspected delivery", r"rotor::plugin::inspected_local_delivery_t::delivery\(.*\)", setup_inspected, post_inspected,
             hooks=[(r"^dump_message\(", h_discard), DL[0]]),
    Contract("do_process", S + r"do_process\(\)", setup_do_process, post_do_process, hooks=[(r"^virtual .*(::process\(|delivery_plugin_base_t#)", h_process)]),
    Contract("put", S + r"put\(.*\)", setup_put, post_put),
    Contract("uplift_last_message", S + r"uplift_last_message\(\)", setup_uplift, post_uplift),
]
