"""Requests and timers: identifiers, pending tables, timeouts, answers."""
from common import *
import common

TUS = ["src/rotor/supervisor.cpp", "src/rotor/actor_base.cpp", "src/rotor/extended_error.cpp", "src/rotor/error_code.cpp", "src/rotor/thread/supervisor_thread.cpp", "src/rotor/handler.cpp"]
A = "actor_base_t."
SU = "supervisor_t."
RC = "request_curry_t."
V = 16
TH = "timer_handler_t<supervisor_t, void (supervisor_t::*)(unsigned long, bool) noexcept>."


def rmap(x, st, sup=None):
    return x.map(st, x.g["sup"] if sup is None else sup, SU + "request_map")


def tmap(x, st, a=None):
    return x.map(st, x.g["actor"] if a is None else a, A + "timers_map")


def active(x, st, a=None):
    return x.map(st, x.g["actor"] if a is None else a, A + "active_requests")


def curry(x, st, node, f):
    o, sz = x.lay[RC + f]
    return ival(x, st, addoff(node, V + o), sz)


def keys_kept(m0, m1, k):
    """membership of every key but k is as before"""
    q = z3.FreshConst(BV64, "kk")
    return z3.ForAll([q], z3.Implies(q != k, m1.has(q) == m0.has(q)))


def setup_sup(x, name="supervisor"):
    s = x.ptr(name, "actor")
    x.g["sup"] = s
    return s


def setup_sup_actor(x):
    s = setup_sup(x)
    a = actor_obj(x)
    x.wr(x.st, a, A + "supervisor", s)
    x.assume(x.rdb(x.st, a, A + "address") != 0)
    x.g["actor"] = a
    x.assume(s != a)
    return s, a


# ---------------------------------------------------------------- identifiers
def setup_next_id(x):
    s = setup_sup(x)
    l = x.ptr("leader", "actor")
    x.wr(x.st, s, SU + "locality_leader", l)
    x.g["leader"] = l
    x.args = [s]


def inv_next_id(eng, st, ctx):
    return []


def post_next_id(x, st, ret):
    l = x.g["leader"]
    m0, m1 = rmap(x, x.pre, l), rmap(x, st, l)
    i0, i1 = x.rdb(x.pre, l, SU + "last_req_id"), x.rdb(st, l, SU + "last_req_id")
    yield "the identifier belongs to no pending request", z3.Not(m0.has(bv(ret)))
    yield "the counter remembers it", bv(ret) == i1
    yield "the table of pending requests is untouched", only_changed(m0, m1, bv(ret))


def inv_counter(eng, st, ctx):
    x = eng.x
    yield "the counter moved on past pending requests only", True


# ---------------------------------------------------------------- timers of an actor
def h_start_backend(eng, st, cc):
    """do_start_timer of the backend: remembers the handler, calls nobody back yet"""
    x = eng.x
    st.events.append(("start", cc.args[0], cc.args[1], cc.args[2], st.copy()))
    return [(st, None)]


def h_cancel_backend(eng, st, cc):
    """do_cancel_timer of the backend: runs the handler of that timer with 'cancelled' (contract of on_timer_trigger)"""
    x = eng.x
    st.events.append(("cancel", cc.args[0], cc.args[1], st.copy()))
    f = x.g.get("on_cancel")
    if f:
        return [(s, None) for s in f(eng, st, bv(cc.args[1]))]
    return [(st, None)]


def setup_start_timer(x):
    s, a = setup_sup_actor(x)
    i = x.sym("timer_id")
    x.assume(z3.Not(tmap(x, x.st).has(i)))
    d = x.ptr("delegate", "actor")
    iv = x.ptr("interval", "interval")
    m = x.sym("method")
    adj = x.sym("adjustment")
    x.g.update(id=i, delegate=d, interval=iv, method=m, adj=adj)
    x.args = [a, i, iv, d, m, adj]


def handler_is(x, st, h, owner, i, obj, m, adj):
    """the timer handler object: whose timer it is and what it calls"""
    T = "timer_handler_base_t."
    sz = 24
    o = x.lay[TH + "object"][0]
    return z3.And(x.rdb(st, h, T + "owner") == bv(owner), x.rdb(st, h, T + "request_id") == bv(i), ival(x, st, addoff(h, o)) == bv(obj),
                  ival(x, st, addoff(h, o + 8)) == bv(m), ival(x, st, addoff(h, o + 16)) == bv(adj))


def starts(x, st, a, i, iv, obj, m, adj, sup):
    ss = evs(st, "start")
    yield "the backend starts one timer", len(ss) == 1
    if len(ss) != 1:
        return
    e = ss[0]
    yield "at the actor's supervisor", bv(e[1]) == bv(sup)
    yield "with the given interval", ival(x, st, e[2]) == ival(x, x.pre, iv)
    yield "for this actor, identifier and callback", handler_is(x, e[-1], e[3], a, i, obj, m, adj)
    m0, m1 = tmap(x, x.pre, a), tmap(x, st, a)
    yield "the timer is pending now", m1.has(bv(i))
    yield "other timers are kept", only_changed(m0, m1, bv(i))
    yield "it is pending with the handler that the backend knows", ival(x, st, addoff(m1.at(bv(i)), V)) == bv(e[3])


def post_start_timer(x, st, ret):
    g = x.g
    yield from starts(x, st, g["actor"], g["id"], g["interval"], g["delegate"], g["method"], g["adj"], g["sup"])


def setup_start_timer_auto(x):
    setup_start_timer(x)
    x.args = [x.g["actor"]] + x.args[2:]
    x.g["fresh_id"] = x.g["id"]


def h_next_id_fixed(eng, st, cc):
    x = eng.x
    st.events.append(("next_id", cc.args[0]))
    return [(st, x.g["id"])]


def post_start_timer_auto(x, st, ret):
    yield "the identifier is a fresh one of the supervisor", len(evs(st, "next_id")) == 1
    for e in evs(st, "next_id"):
        yield "asked from the own supervisor", bv(e[1]) == x.g["sup"]
    yield "the caller learns the identifier", bv(ret) == x.g["id"]
    yield from post_start_timer(x, st, ret)


def setup_cancel_timer(x):
    s, a = setup_sup_actor(x)
    i = x.sym("timer_id")
    x.assume(tmap(x, x.st).has(i))
    x.g["id"] = i
    x.args = [a, i]


def post_cancel_timer(x, st, ret):
    cs = evs(st, "cancel")
    yield "the backend cancels once", len(cs) == 1
    for e in cs:
        yield "exactly that timer at the own supervisor", z3.And(bv(e[1]) == x.g["sup"], bv(e[2]) == x.g["id"])


def setup_trigger(x):
    s, a = setup_sup_actor(x)
    i = x.sym("timer_id")
    c = x.sym("cancelled", z3.BitVecSort(1)) if False else x.sym("cancelled", 1)
    q = z3.BitVec("tq", 64)
    m = tmap(x, x.st)
    x.assume(z3.Implies(m.has(i), ival(x, x.st, addoff(m.at(i), V)) != 0))
    x.g.update(id=i, cancelled=c)
    x.args = [a, i, c == 1]


def h_callback(eng, st, cc):
    """timer_handler_base_t::trigger: the user's callback; it may start and cancel other timers of the actor, the triggered one stays"""
    x = eng.x
    a, i = x.g["actor"], x.g["id"]
    ck = eng.ckey(st, addoff(a, x.foff(A + "timers_map")))
    m0 = tmap(x, st)
    s0 = st.copy()
    m1 = stl.new_map(eng, "timers_after_callback", 8, "int")
    m1.oid = m0.oid
    stl.map_set(eng, st, ck, m1)
    st.assume(z3.Implies(m0.has(i), z3.And(m1.has(i), m1.at(i) == m0.at(i))))
    st.assume(z3.Implies(z3.Not(m0.has(i)), z3.Not(m1.has(i))))
    st.events.append(("callback", cc.args[0], cc.args[1], s0, st.copy()))
    return [(st, None)]


def post_trigger(x, st, ret):
    a, i = x.g["actor"], x.g["id"]
    m0 = tmap(x, x.pre)
    cs = evs(st, "callback")
    yield "the callback runs exactly once if the timer is pending, else never", iff(len(cs), m0.has(i))
    m1 = tmap(x, st)
    yield "the timer is not pending any more", z3.Not(m1.has(i))
    for e in cs:
        yield "the callback of that very timer", bv(e[1]) == ival(x, x.pre, addoff(m0.at(i), V))
        yield "it learns whether it was cancelled", tobool(e[2]) == (x.g["cancelled"] == 1)
        yield "other timers are kept", only_changed(tmap(x, e[-1]), m1, i)
    if not cs:
        yield "other timers are kept", only_changed(m0, m1, i)


# the callback of a handler
def setup_handler(x):
    h = x.ptr("handler", "timer_handler")
    a = x.ptr("owner", "actor")
    d = x.ptr("delegate", "actor")
    i = x.sym("timer_id")
    c = x.sym("cancelled", 1)
    x.wr(x.st, h, "timer_handler_base_t.owner", a)
    x.wr(x.st, h, "timer_handler_base_t.request_id", i)
    o = x.lay[TH + "object"][0]
    x.eng.store(x.st, addoff(h, o), 8, d)
    x.eng.store(x.st, addoff(h, o + 8), 8, x.eng.fnptr("@_ZN5rotor12supervisor_t18on_request_triggerEmb"))
    x.eng.store(x.st, addoff(h, o + 16), 8, 0)
    x.g.update(delegate=d, id=i, cancelled=c)
    x.args = [h, c == 1]


def post_handler(x, st, ret):
    cs = evs(st, "method")
    yield "the method runs exactly once", len(cs) == 1
    for e in cs:
        yield "on the delegate", bv(e[1]) == x.g["delegate"]
        yield "with the timer's identifier", bv(e[2]) == x.g["id"]
        yield "and the cancelled flag", tobool(e[3]) == (x.g["cancelled"] == 1)


# ---------------------------------------------------------------- timeout
def setup_req_trigger(x):
    s = setup_sup(x)
    i = x.sym("request_id")
    c = x.sym("cancelled", 1)
    pending_inv(x, i)
    x.g.update(id=i, cancelled=c)
    x.args = [s, i, c == 1]


def h_fn(eng, st, cc):
    """the producer of the error response recorded with the request (contract make_error_response)"""
    x = eng.x
    out, dst, req, ee = cc.args[0], x.load(st, cc.args[1], 8), cc.args[2], x.load(st, cc.args[3], 8)
    m = eng.fresh_obj(st, "message") if False else eng.sym("error_response")
    st.facts.append(z3.And(z3.UGT(m, 1 << 16), z3.ULT(m, 1 << 60)))
    eng.setkind(st, m, "message")
    eng.store(st, out, 8, m)
    st.events.append(("error_response", m, dst, req, ee, st.copy()))
    return [(st, None)]


def post_req_trigger(x, st, ret):
    i, a = x.g["id"], x.g["actor"]
    m0, m1 = rmap(x, x.pre), rmap(x, st)
    n = m0.at(i)
    ms, er = sent(x, st), evs(st, "error_response")
    late = z3.And(m0.has(i), x.g["cancelled"] == 0)
    yield "a timeout is reported exactly once if the request is pending and was not cancelled", iff(len(ms), late)
    for m in ms:
        yield "the report is the recorded kind of response", len(er) == 1 and bv(m.base) == bv(er[0][1])
        yield "queued at the own supervisor", bv(m.sup) == x.g["sup"]
    for e in er:
        yield "it goes to whoever made the request", bv(e[2]) == curry(x, x.pre, n, "origin")
        yield "it answers that request", bv(e[3]) == curry(x, x.pre, n, "request_message")
        ee = Err(x, e[-1], e[4])
        yield "it says that the request timed out", ee.code == x.lay["error_code_t::request_timeout"]
        yield "in the error category of the library", "error" in err_cat(x, ee)
        yield "about that request", ee.request == curry(x, x.pre, n, "request_message")
    yield "the request is not pending any more", z3.Not(m1.has(i))
    yield "other requests are kept", only_changed(m0, m1, i)
    a0, a1 = active(x, x.pre), active(x, st)
    yield "its actor does not wait for it any more", z3.Implies(m0.has(i), z3.Not(a1.has(i)))
    yield "other requests of the actor are kept", only_changed(a0, a1, i)
    yield "an unknown timer changes nothing", z3.Implies(z3.Not(m0.has(i)), only_changed(a0, a1, z3.BitVecVal(0, 64)) if a0 is not a1 else True)


# ---------------------------------------------------------------- answers
def cancel_runs_trigger(eng, st, i):
    """cancelling the timer of a request runs on_request_trigger(id, cancelled = true): contract on_request_trigger, and the timer is gone:
    contract on_timer_trigger"""
    x = eng.x
    out = []
    m = rmap(x, st)
    for pend in (True, False):
        s = st.copy()
        s.assume(m.has(i) if pend else z3.Not(m.has(i)))
        if not eng.feasible(s, z3.BoolVal(True)):
            continue
        if pend:
            stl.m_erase(eng, s, eng.ckey(s, addoff(x.g["sup"], x.foff(SU + "request_map"))), m, i)
            ac = active(x, s)
            stl.m_erase(eng, s, eng.ckey(s, addoff(x.g["actor"], x.foff(A + "active_requests"))), ac, i)
        t = tmap(x, s, x.g["sup"])
        s.assume(t.has(i))
        stl.m_erase(eng, s, eng.ckey(s, addoff(x.g["sup"], x.foff(A + "timers_map"))), t, i)
        out.append(s)
    return out


def pending_inv(x, i, cond=True):
    """the entry knows its actor, that actor counts the request as active, and its timer is pending at the supervisor"""
    m, s = rmap(x, x.st), x.g["sup"]
    n = m.at(i)
    a = curry(x, x.st, n, "source")
    x.eng.setkind(x.st, a, "actor")
    x.g["actor"] = a
    x.assume(z3.And(a != s, z3.UGT(a, 1 << 16), z3.ULT(a, 1 << 60)))
    x.assume(z3.Implies(m.has(i), z3.And(curry(x, x.st, n, "request_message") != 0, curry(x, x.st, n, "origin") != 0,
                                        active(x, x.st, a).has(i), tmap(x, x.st, s).has(i))))


def setup_discard(x):
    s = setup_sup(x)
    i = x.sym("request_id")
    x.g.update(id=i, on_cancel=cancel_runs_trigger)
    x.wr(x.st, s, A + "supervisor", s)
    pending_inv(x, i)
    x.args = [s, i]


def discarded(x, st):
    i = x.g["id"]
    cs = evs(st, "cancel")
    yield "its timer is cancelled once", len(cs) == 1
    for e in cs:
        yield "the timer of that request at the own supervisor", z3.And(bv(e[1]) == x.g["sup"], bv(e[2]) == i)
    yield "the request is not pending any more", z3.Not(rmap(x, st).has(i))
    yield "its actor does not wait for it any more", z3.Not(active(x, st).has(i))
    yield "no timer is left for it", z3.Not(tmap(x, st, x.g["sup"]).has(i))


def kept(x, st):
    i = x.g["id"]
    yield "other requests are kept", only_changed(rmap(x, x.pre), rmap(x, st), i)
    yield "other requests of the actor are kept", only_changed(active(x, x.pre), active(x, st), i)


def post_discard(x, st, ret):
    had = rmap(x, x.pre).has(x.g["id"])
    if x.eng.feasible(st, had):
        yield "a request that is not pending does not get here", had
        yield from discarded(x, st)
    else:
        yield "a request that is not pending (it timed out): no timer is touched", not evs(st, "cancel")
        yield "nothing is forgotten", z3.And(same_map(rmap(x, x.pre), rmap(x, st)), same_map(active(x, x.pre), active(x, st)))
    yield from kept(x, st)
    yield "nothing is sent", not sent(x, st)


def setup_response(x):
    setup_discard_free(x)
    c = x.eng.new_region("alloca")
    x.eng.store(x.st, c, 8, x.g["sup"])
    m = x.ptr("response", "message")
    r = x.ptr("request", "request message")
    x.wr(x.st, m, "message::init_response_t.payload.req", r)
    x.wr(x.st, r, "message::init_request_t.payload.id", x.g["id"])
    x.wr(x.st, m, "message::init_response_t.payload.ee", maybe(x, "error", "error"))
    x.g.update(response=m, request=r, ee=x.rdb(x.st, m, "message::init_response_t.payload.ee"))
    x.args = [c, m]


def setup_discard_free(x):
    s = setup_sup(x)
    i = x.sym("request_id")
    x.g.update(id=i, on_cancel=cancel_runs_trigger)
    x.wr(x.st, s, A + "supervisor", s)
    pending_inv(x, i)


def post_response(x, st, ret):
    i = x.g["id"]
    m0 = rmap(x, x.pre)
    ms, ups = sent(x, st), evs(st, "uplift")
    yield "delivered exactly once if the request is pending, else dropped", iff(len(ms), m0.has(i))
    for m in ms:
        yield "it is the response", m.is_("init_response")
        yield "it goes to whoever made the request", m.dst == curry(x, x.pre, m0.at(i), "origin")
        yield "queued at the own supervisor", bv(m.sup) == x.g["sup"]
        yield "it answers the same request", m.f("init_response_t.payload.req") == x.g["request"]
        yield "it carries the same error or none", m.f("init_response_t.payload.ee") == x.g["ee"]
        yield from discarded(x, st)
        yield "it keeps its place in the queue", len(ups) == 1
        order = [e[0] for e in st.events if e[0] in ("put", "uplift")]
        yield "only it is moved to the front", order == ["put", "uplift"]
    if not ms:
        yield "a dropped response moves nothing", not ups
        yield "a dropped response cancels nothing", not evs(st, "cancel")
    yield from kept(x, st)


# ---------------------------------------------------------------- sending
def builder(x):
    b = x.ptr("builder", "builder")
    s, a = setup_sup_actor(x)
    RB = common.RB
    i = x.sym("request_id")
    req, rt, im, dst = x.ptr("request", "message"), x.ptr("reply_to", "address"), x.ptr("imaginary", "address"), x.ptr("destination", "address")
    for f, v in (("sup", s), ("actor", a), ("request_id", i), ("req", req), ("reply_to", cell(x, rt)), ("imaginary_address", im), ("destination", cell(x, dst))):
        x.eng.store(x.st, addoff(b, x.foff(RB + f)), 8, v)
    inst = x.sym("install", 8)
    x.assume(z3.ULE(inst, 1))
    x.wr(x.st, b, RB + "do_install_handler", inst)
    x.wr(x.st, s, A + "supervisor", s)
    x.g.update(builder=b, id=i, req=req, reply_to=rt, imaginary=im, install=inst == 1)
    return b


def setup_send(x):
    b = builder(x)
    i = x.g["id"]
    x.assume(z3.Not(rmap(x, x.st).has(i)))
    x.assume(z3.Not(tmap(x, x.st, x.g["sup"]).has(i)))
    x.assume(z3.Not(active(x, x.st).has(i)))
    iv = x.ptr("timeout", "interval")
    x.g["interval"] = iv
    x.args = [b, iv]


def post_send(x, st, ret):
    g = x.g
    i = g["id"]
    ins = evs(st, "subscribe")
    yield "a handler for responses is installed exactly when there is none yet", iff(len(ins), g["install"])
    for e in ins:
        yield from handler_installed(x, st, e)
    ms = sent(x, st)
    yield "the request is sent exactly once", len(ms) == 1
    for m in ms:
        yield "it is the prepared message at the own supervisor", z3.And(bv(m.base) == g["req"], bv(m.sup) == g["sup"])
    yield from starts(x, st, g["sup"], i, g["interval"], g["sup"], x.eng.fnptr("@_ZN5rotor12supervisor_t18on_request_triggerEmb"), 0, g["sup"])
    m0, m1 = rmap(x, x.pre), rmap(x, st)
    yield "the request is pending now", m1.has(i)
    yield "other requests are kept", only_changed(m0, m1, i)
    n = m1.at(i)
    yield "the answer goes to the requester", curry(x, st, n, "origin") == g["reply_to"]
    yield "the request itself is remembered", curry(x, st, n, "request_message") == g["req"]
    yield "the requesting actor is remembered", curry(x, st, n, "source") == g["actor"]
    yield "the timeout can be reported", curry(x, st, n, "fn") == bv(x.eng.fnptr(FN_ERR))
    a0, a1 = active(x, x.pre), active(x, st)
    yield "the actor waits for the answer", a1.has(i)
    yield "other requests of the actor are kept", only_changed(a0, a1, i)
    yield "the caller learns the identifier", bv(ret) == i


FN_ERR = "@_ZN5rotor16request_traits_tINS_7payload18initialize_actor_tEE19make_error_responseERKN5boost13intrusive_ptrINS_9address_tEEERNS_14message_base_tERKNS5_INS_16extended_error_tEEE"


def h_subscribe(eng, st, cc):
    """supervisor_t::subscribe (sret): (out, sup, handler&, address&, owner, tag)"""
    x = eng.x
    out, sup, h, ad, owner, tag = cc.args[:6]
    i = eng.sym("subscription_info")
    st.facts.append(z3.And(z3.UGT(i, 1 << 16), z3.ULT(i, 1 << 60)))
    eng.setkind(st, i, "subinfo")
    eng.store(st, out, 8, i)
    st.events.append(("subscribe", sup, x.load(st, h, 8), x.load(st, ad, 8), owner, tag, i, st.copy()))
    return [(st, None)]


def h_mapping_set(eng, st, cc):
    x = eng.x
    st.events.append(("map_address", cc.args[0], cc.args[1], x.load(st, cc.args[2], 8)))
    return [(st, None)]


def handler_installed(x, st, e):
    g = x.g
    s1 = e[-1]
    yield "responses are handled by the supervisor", x.rdb(s1, e[2], "handler_base_t.actor_ptr") == g["sup"]
    yield "at the address that the request names for the answer", bv(e[3]) == g["imaginary"]
    yield "on behalf of the requesting actor", bv(e[4]) == g["actor"]
    yield "it is a subscription of the supervisor", bv(e[5], 32) == x.lay["owner_tag_t::SUPERVISOR"]
    yield "subscribed at the own supervisor", bv(e[1]) == g["sup"]
    mp = evs(st, "map_address")
    yield "the address is remembered for later requests", len(mp) == 1
    for q in mp:
        yield "for the requesting actor, with that subscription", z3.And(bv(q[2]) == g["actor"], bv(q[3]) == bv(e[6]), bv(q[1]) == g["sup"] + x.foff(SU + "address_mapping"))


# ---------------------------------------------------------------- building
def setup_build(x):
    s, a = setup_sup_actor(x)
    dst, rt = x.ptr("destination", "address"), x.ptr("reply_to", "address")
    out = x.eng.new_region("alloca")
    i = x.sym("request_id")
    x.g.update(dst=dst, reply_to=rt, out=out, id=i)
    x.args = [out, s, a, cell(x, dst), cell(x, rt)]


def h_mapped(eng, st, cc):
    """address_mapping_t::get_mapped_address: the address that already receives responses of that type for the actor, or none"""
    x = eng.x
    a = eng.sym("mapped_address")
    st.facts.append(z3.Or(a == 0, z3.And(z3.UGT(a, 1 << 16), z3.ULT(a, 1 << 60))))
    eng.setkind(st, a, "address")
    eng.store(st, cc.args[0], 8, a)
    st.events.append(("mapped", cc.args[1], cc.args[2], cc.args[3], a))
    return [(st, None)]


def h_make_address(eng, st, cc):
    r = h_some_address(eng, st, cc)
    st.events.append(("new_address", cc.args[1], eng.x.load(st, cc.args[0], 8)))
    return r


def post_build(x, st, ret):
    g = x.g
    RB = common.RB
    b = g["out"]
    f = lambda n: ival(x, st, addoff(b, x.foff(RB + n)), 1 if n == "do_install_handler" else 8)
    mp, na = evs(st, "mapped"), evs(st, "new_address")
    yield "looks for an address that receives such responses", len(mp) == 1
    yield "one identifier is drawn", len(evs(st, "next_id")) == 1
    for e in evs(st, "next_id"):
        yield "from the own supervisor", bv(e[1]) == g["sup"]
    if len(mp) != 1:
        return
    e = mp[0]
    yield "for the requesting actor at the own supervisor", z3.And(bv(e[2]) == g["actor"], bv(e[1]) == g["sup"] + x.foff(SU + "address_mapping"))
    yield "a new address is made exactly if there is none", iff(len(na), bv(e[4]) == 0)
    yield "a handler is to be installed exactly for a new address", z3.And(z3.ULE(f("do_install_handler"), 1), (f("do_install_handler") == 1) == (bv(e[4]) == 0))
    yield "the answer will be received at that address", f("imaginary_address") == (bv(na[0][2]) if na else bv(e[4]))
    yield "the builder knows who asks whom", z3.And(f("sup") == g["sup"], f("actor") == g["actor"], bv(x.load(st, x.load(st, addoff(b, x.foff(RB + "reply_to"))))) == g["reply_to"], f("request_id") == g["id"])
    r = x.load(st, addoff(b, x.foff(RB + "req")), 8)
    m = Msg(x, g["sup"], r, st)
    yield "the message is a request of that type", m.is_("init_request")
    yield "it goes to the destination", m.dst == g["dst"]
    yield "it has that identifier", m.f("init_request_t.payload.id") == g["id"]
    yield "the answer is expected at the receiving address", m.f("init_request_t.payload.reply_to") == f("imaginary_address")
    yield "it tells who made it", m.f("init_request_t.payload.origin") == g["reply_to"]


# ---------------------------------------------------------------- error response
def setup_err(x):
    out = x.eng.new_region("alloca")
    dst, m, e = x.ptr("reply_to", "address"), x.ptr("request", "message"), maybe(x, "error", "error")
    x.g.update(out=out, dst=dst, msg=m, ee=e)
    x.args = [out, cell(x, dst), m, cell(x, e)]


def post_err(x, st, ret):
    m = Msg(x, 0, x.load(st, x.g["out"], 8), st)
    yield "the error response has the type of the response", m.is_("init_response")
    yield "it goes to the given address", m.dst == x.g["dst"]
    yield "it answers the request", m.f("init_response_t.payload.req") == x.g["msg"]
    yield "it carries the error", m.f("init_response_t.payload.ee") == x.g["ee"]


# ---------------------------------------------------------------- order
def setup_uplift(x):
    s = setup_sup(x)
    l = x.ptr("leader", "actor")
    x.wr(x.st, s, SU + "locality_leader", l)
    x.g["leader"] = l
    q = x.seq(x.st, l, SU + "queue")
    x.assume(zi(q.len()) > 0)
    x.args = [s]


def post_uplift(x, st, ret):
    l = x.g["leader"]
    q0, q1 = x.seq(x.pre, l, SU + "queue"), x.seq(st, l, SU + "queue")
    n = zi(q0.len())
    yield "no message is lost or added", zi(q1.len()) == n
    yield "the last message is the first now", ival(x, st, q1.get(0)) == ival(x, x.pre, q0.get(n - 1))
    yield "the others keep their order", seq_shift(x, q0, x.pre, q1, st, 1, n, -1)


SEQ_PUT = [(r"^virtual .*::do_start_timer\(", h_start_backend), (r"^virtual .*::do_cancel_timer\(", h_cancel_backend)]
HOOKS = SEQ_PUT + [(r"^virtual .*timer_handler_.*::trigger\(", h_callback)]
R = "rotor::"
NEXT = (r"^rotor::supervisor_t::next_request_id\(", h_next_id_fixed)
SUBSCRIBE = (r"^rotor::supervisor_t::subscribe\(", h_subscribe)
PM = r"void \(rotor::supervisor_t::\*\)\(unsigned long, bool\) noexcept"
RQ = r"rotor::request_builder_t<rotor::payload::initialize_actor_t>::"
CONTRACTS = [
    Contract("next_request_id", r"rotor::supervisor_t::next_request_id\(\)", setup_next_id, post_next_id, loops=[Loop(r"next_request_id", inv_next_id)]),
    Contract("start_timer", r"void rotor::actor_base_t::start_timer<rotor::supervisor_t, %s>\(unsigned long, .*\)" % PM, setup_start_timer, post_start_timer),
    Contract("start_timer (new identifier)", r"unsigned long rotor::actor_base_t::start_timer<rotor::supervisor_t, %s, void>\(.*\)" % PM, setup_start_timer_auto,
             post_start_timer_auto, hooks=[NEXT]),
    Contract("cancel_timer", r"rotor::actor_base_t::cancel_timer\(unsigned long\)", setup_cancel_timer, post_cancel_timer),
    Contract("on_timer_trigger", r"rotor::actor_base_t::on_timer_trigger\(unsigned long, bool\)", setup_trigger, post_trigger,
             cover=[("pending", lambda x, s, r: len(evs(s, "callback")) == 1), ("unknown", lambda x, s, r: not evs(s, "callback"))]),
    Contract("timer_handler::trigger", r"rotor::timer_handler_t<rotor::supervisor_t, %s>::trigger\(bool\)" % PM, setup_handler, post_handler,
             hooks=[(r"^rotor::supervisor_t::on_request_trigger\(", h_ev("method", nargs=3))]),
    Contract("on_request_trigger", r"rotor::supervisor_t::on_request_trigger\(unsigned long, bool\)", setup_req_trigger, post_req_trigger,
             hooks=[PUT, (r"^indirect", h_fn)], cover=[("timeout", lambda x, s, r: len(sent(x, s)) == 1)]),
    Contract("discard_request", r"rotor::supervisor_t::discard_request\(unsigned long\)", setup_discard, post_discard, hooks=[PUT]),
    Contract("response handler", RQ + r"install_handler\(\)::\{lambda\(rotor::message_t<.*>&\)#1\}::operator\(\)\(.*\) const", setup_response, post_response,
             hooks=[PUT, (r"^rotor::supervisor_t::uplift_last_message\(", h_ev("uplift"))],
             cover=[("pending", lambda x, s, r: len(sent(x, s)) == 1), ("late", lambda x, s, r: not sent(x, s))]),
    Contract("request::send", RQ + r"send\(.*\)", setup_send, post_send, hooks=[PUT, SUBSCRIBE, (r"^rotor::address_mapping_t::set\(", h_mapping_set)],
             cover=[("installs", lambda x, s, r: len(evs(s, "subscribe")) == 1), ("installed", lambda x, s, r: not evs(s, "subscribe"))]),
    Contract("request", r"rotor::request_builder_t<rotor::payload::initialize_actor_t> rotor::supervisor_t::do_request<rotor::payload::initialize_actor_t>\(.*\)",
             setup_build, post_build, hooks=[NEXT, (r"^rotor::address_mapping_t::get_mapped_address\(", h_mapped),
                                             (r"^rotor::supervisor_t::make_address\(|^virtual .*::make_address\(", h_make_address)],
             cover=[("reuses", lambda x, s, r: not evs(s, "new_address"))]),
    Contract("make_error_response", r"rotor::request_traits_t<rotor::payload::initialize_actor_t>::make_error_response\(.*\)", setup_err, post_err),
    Contract("uplift_last_message", r"rotor::supervisor_t::uplift_last_message\(\)", setup_uplift, post_uplift),
]
