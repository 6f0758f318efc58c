"""Registry: the two directions of the name map, and the promises that wait for a name."""
from common import *

TUS = ["src/rotor/registry.cpp", "src/rotor/extended_error.cpp", "src/rotor/error_code.cpp"]
RG = "registry_t."
A = "actor_base_t."
NVAL = 8 + 32   # value of an unordered_map node keyed by std::string
SVAL = 16       # value of an unordered_map node keyed by a pointer


def reg(x, st):
    return x.map(st, x.g["this"], RG + "registered_map", "str", 8)


def rev(x, st):
    return x.map(st, x.g["this"], RG + "reverse_map", "int", 8)


def prom(x, st):
    return x.seq(st, x.g["this"], RG + "promises")


def addr_of(x, st, name, m=None):
    m = m or reg(x, st)
    return bv(x.load(st, addoff(m.at(name), NVAL), 8))


def names(x, st, addr, pre=False):
    """the set of names recorded under an address"""
    r = rev(x, st)
    node = r.at(addr)
    return names_at(x, st, node)


def names_at(x, st, node):
    return stl.map_get(x.eng, st, x.eng.ckey(st, addoff(node, SVAL)), 32, "str")


def setup(x, msg, kind="message"):
    this = x.ptr("registry", "actor")
    sup = x.ptr("supervisor", "actor")
    x.wr(x.st, this, A + "supervisor", sup)
    m = x.ptr("request", "message")
    x.g.update(this=this, sup=sup, msg=m, mt=msg)
    x.args = [this, m]
    if "request" in msg or "promise" in msg:
        rt = x.ptr("reply_to", "address")
        x.wr(x.st, m, "message::%s.payload.reply_to" % msg, rt)
        x.g["reply_to"] = rt
        x.g["name"] = x.str(x.st, m, "message::%s.payload.request_payload.service_name" % msg)


def untouched(x, st, *what):
    for w, f in (("registrations", reg), ("addresses", rev), ("promises", prom)):
        if w not in what:
            a, b = f(x, x.pre), f(x, st)
            yield w + " are untouched", z3.BoolVal(a is b) if a is b else (same_map(a, b) if w != "promises" else z3.BoolVal(False))


def same_map(a, b):
    k = z3.FreshConst(BV64, "mk")
    return z3.ForAll([k], z3.And(a.has(k) == b.has(k), z3.Implies(a.has(k), a.at(k) == b.at(k))))


def only_changed(m0, m1, k):
    q = z3.FreshConst(BV64, "ok")
    return z3.ForAll([q], z3.Implies(q != k, z3.And(m1.has(q) == m0.has(q), z3.Implies(m0.has(q), m1.at(q) == m0.at(q)))))


def values_kept(x, st, m1, k):
    """the addresses of other names are the same"""
    m0 = reg(x, x.pre)
    q = z3.FreshConst(BV64, "ok")
    return z3.ForAll([q], z3.Implies(z3.And(q != k, m0.has(q), m1.has(q)), addr_of(x, st, q, m1) == addr_of(x, x.pre, q, m0)))


def reply(x, m, what, req, err, cat="error"):
    yield "the answer is a %s" % what, m.is_(what)
    yield "it goes to the address that waits for it", m.dst == x.rdb(x.pre, req, "message::%s.payload.reply_to" % ("discovery_promise_t" if what == "discovery_future" else x.g["mt"]))
    yield "it is queued at the registry's supervisor", bv(m.sup) == x.g["sup"]
    if not m.is_(what):
        return
    yield "it answers that request", m.f(what + "_t.payload.req") == bv(req)
    ee = x.load(m.st, addoff(m.base, x.foff("message::%s_t.payload.ee" % what)), 8)
    if err is None:
        yield "it carries no error", bv(ee) == 0
    else:
        yield "it carries an error", bv(ee) != 0
        e = Err(x, m.st, ee)
        yield "with the right code", e.code == x.lay["error_code_t::" + err]
        yield "of the library's category", "error" in err_cat(x, e)
        yield "about that name", x.str(m.st, ee, "extended_error_t.context") == req_name(x, req)
        yield "for that request", e.request == bv(req)


def req_name(x, req):
    return x.str(x.pre, req, "message::discovery_promise_t.payload.request_payload.service_name")


def answer_addr(x, m, what):
    return m.f(what + "_t.payload.res")


# ------------------------------------------------------------------ registration
def setup_reg(x):
    setup(x, "registration_request_t")
    x.g["addr"] = x.rdb(x.st, x.g["msg"], "message::registration_request_t.payload.request_payload.service_addr")
    g = x.eng.new_region("alloca")
    x.g["ghost"] = g
    x.assume(waiting(x, x.st))
    x.eng.store(x.st, g, 4, 0)


def h_put_reg(eng, st, cc):
    """a promise is answered: it matches the name and it is the one that is removed next"""
    x = eng.x
    r = h_put(eng, st, cc)
    m = Msg(x, st.events[-1][1], st.events[-1][2], st.events[-1][3])
    if m.is_("registration_response"):
        return r
    eng.oblige(st, "only the registration and promises are answered", m.is_("discovery_future"))
    if m.is_("discovery_future"):
        req = m.f("discovery_future_t.payload.req")
        eng.oblige(st, "only promises for that name are answered", x.str(st, req, "message::discovery_promise_t.payload.request_payload.service_name") == x.g["name"])
        eng.oblige(st, "with the registered address", answer_addr(x, m, "discovery_future") == x.g["addr"])
        eng.oblige(st, "without an error", m.f("discovery_future_t.payload.ee") == 0)
        eng.oblige(st, "to the promise's reply address", m.dst == x.rdb(st, req, "message::discovery_promise_t.payload.reply_to"))
        eng.oblige(st, "order: every answered promise was removed before the next is answered", bv(eng.load(st, x.g["ghost"], 4), 32) == 0)
        eng.store(st, x.g["ghost"], 4, 1)
        eng.store(st, x.g["ghost"] + 8, 8, req)
    return r


def on_erase(eng, st, val):
    x = eng.x
    eng.oblige(st, "order: a promise is removed right after it was answered", z3.And(bv(eng.load(st, x.g["ghost"], 4), 32) == 1, bv(eng.load(st, x.g["ghost"] + 8, 8)) == bv(val)))
    eng.store(st, x.g["ghost"], 4, 0)


def h_erase_promise(eng, st, cc):
    x = eng.x
    it = stl.it_val(eng, st, cc.args[1])
    s = stl.seq_get(eng, st, it.ck)
    v = eng.load(st, s.get(it.idx), 8)
    on_erase(eng, st, v)
    return stl.h_seq_erase(eng, st, cc)


def pname(x, st, i, s=None):
    s = s or prom(x, st)
    return x.str(st, x.load(st, s.get(i), 8), "message::discovery_promise_t.payload.request_payload.service_name")


def waiting(x, st):
    """every pending promise has somebody to answer to"""
    s = prom(x, st)
    return upto(s, zi(s.len()), lambda j: x.rdb(st, x.load(st, s.get(j), 8), "message::discovery_promise_t.payload.reply_to") != 0)


def inv_reg(eng, st, ctx):
    x = eng.x
    yield "promises have somebody to answer to", waiting(x, st)
    yield "no answered promise is left in the list", bv(x.load(st, x.g["ghost"], 4), 32) == 0
    s = prom(x, st)
    for i in loop_iters(st, ctx):
        yield "the position is inside the list", z3.And(i.idx >= 0, i.idx <= zi(s.len()))
        if s.pieces:
            yield "promises passed so far wait for other names", upto(s, i.idx, lambda j: pname(x, st, j) != x.g["name"])
            yield "the current one matches", z3.Implies(i.idx < zi(s.len()), pname(x, st, i.idx) == x.g["name"])


def upto(s, n, f):
    """f for the elements before position n"""
    j = z3.FreshConst(BV64, "pj")
    e = s.get(j)
    pat = [e] if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT else []
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, j < zi(s.len())), f(j)), patterns=pat)


def zi(v):
    return z3.BitVecVal(v, 64) if isinstance(v, int) else v


def post_reg(x, st, ret):
    n, a = x.g["name"], x.g["addr"]
    m0, m1 = reg(x, x.pre), reg(x, st)
    taken = m0.has(n)
    rs = sent(x, st, "registration_response")
    yield "the registration is answered exactly once", len(rs) == 1
    ok = not x.eng.feasible(st, taken)
    if not ok:
        yield "refused only when the name is taken", taken
        for m in rs:
            yield from reply(x, m, "registration_response", x.g["msg"], "already_registered")
        yield "a refusal changes nothing", m0 is m1 and rev(x, x.pre) is rev(x, st) and prom(x, x.pre) is prom(x, st)
        return
    for m in rs:
        yield from reply(x, m, "registration_response", x.g["msg"], None)
    yield "the name is registered now", m1.has(n)
    yield "to the given address", addr_of(x, st, n) == a
    yield "other names are kept", only_changed(m0, m1, n)
    yield "other names keep their addresses", values_kept(x, st, m1, n)
    r0, r1 = rev(x, x.pre), rev(x, st)
    yield "the address is recorded", r1.has(a)
    yield "other addresses are kept", only_changed(r0, r1, a)
    s1 = names(x, st, a)
    yield "the name is recorded under the address", s1.has(n)
    if x.eng.feasible(st, r0.has(a)):
        yield "its other names are kept", only_dom(names(x, x.pre, a), s1, n)
    else:
        yield "nothing else is recorded under a new address", s1.card == 1
    s = prom(x, st)
    if s.pieces:
        yield "no promise for the name is left", upto(s, zi(s.len()), lambda j: pname(x, st, j) != n)
    yield "no answered promise is left", bv(x.load(st, x.g["ghost"], 4), 32) == 0


def only_dom(m0, m1, k):
    q = z3.FreshConst(BV64, "ok")
    return z3.ForAll([q], z3.Implies(q != k, m1.has(q) == m0.has(q)))


# ------------------------------------------------------------------ deregistration
def setup_dereg(x):
    setup(x, "deregistration_notify_t")
    x.g["addr"] = x.rdb(x.st, x.g["msg"], "message::deregistration_notify_t.payload.service_addr")


def inv_dereg(eng, st, ctx):
    x = eng.x
    m0, m1 = reg(x, x.pre), reg(x, st)
    s = names(x, x.pre, x.g["addr"])
    r = passed(eng, st, ctx)
    q = z3.FreshConst(BV64, "dq")
    yield "other names are kept", z3.ForAll([q], z3.Implies(z3.Not(s.has(q)), m1.has(q) == m0.has(q)))
    yield "kept names keep their record", z3.ForAll([q], z3.Implies(m1.has(q), z3.And(m0.has(q), m1.at(q) == m0.at(q))))
    if r is not None:
        yield "names visited so far are gone", z3.ForAll([q], z3.Implies(r(q), z3.Not(m1.has(q))))


def post_dereg(x, st, ret):
    a = x.g["addr"]
    m0, m1, r0, r1 = reg(x, x.pre), reg(x, st), rev(x, x.pre), rev(x, st)
    yield "nothing is answered", not sent(x, st)
    yield "promises are untouched", prom(x, x.pre) is prom(x, st)
    yield "no record of the address is left", z3.Not(r1.has(a))
    yield "other addresses are kept", only_changed(r0, r1, a)
    if not x.eng.feasible(st, r0.has(a)):
        yield "an unknown address changes nothing", m0 is m1
        return
    s = names(x, x.pre, a)
    q = z3.FreshConst(BV64, "dq")
    yield "exactly the address's names are removed", z3.ForAll([q], m1.has(q) == z3.And(m0.has(q), z3.Not(s.has(q))))
    yield "other names keep their addresses", values_kept(x, st, m1, z3.FreshConst(BV64, "none"))


def setup_dereg_service(x):
    setup(x, "deregistration_service_t")
    n = x.str(x.st, x.g["msg"], "message::deregistration_service_t.payload.service_name")
    x.g["name"] = n
    # the two directions agree (preserved by every function of this contract: obligations below)
    m = reg(x, x.st)
    a = addr_of(x, x.st, n)
    x.g["addr"] = a
    x.assume(z3.Implies(m.has(n), rev(x, x.st).has(a)))


def post_dereg_service(x, st, ret):
    n, a = x.g["name"], x.g["addr"]
    m0, m1, r0, r1 = reg(x, x.pre), reg(x, st), rev(x, x.pre), rev(x, st)
    yield "nothing is answered", not sent(x, st)
    yield "promises are untouched", prom(x, x.pre) is prom(x, st)
    yield "the name is not registered any more", z3.Not(m1.has(n))
    yield "other names are kept", only_changed(m0, m1, n)
    yield "other names keep their addresses", values_kept(x, st, m1, n)
    yield "other addresses are kept", only_changed(r0, r1, a)
    if not x.eng.feasible(st, m0.has(n)):
        yield "an unknown name changes nothing", m0 is m1 and r0 is r1
        return
    if x.eng.feasible(st, r1.has(a)):
        yield "the name is not recorded under its address any more", z3.Implies(r1.has(a), z3.Not(names(x, st, a).has(n)))
        yield "the address's other names are kept", only_dom(names(x, x.pre, a), names(x, st, a), n)


# ------------------------------------------------------------------ discovery
def post_disc(x, st, ret):
    ms = sent(x, st)
    yield "the discovery is answered exactly once", len(ms) == 1
    yield from untouched(x, st)
    m0 = reg(x, x.pre)
    known = m0.has(x.g["name"])
    ok = not x.eng.feasible(st, z3.Not(known))
    for m in ms:
        if ok:
            yield from reply(x, m, "discovery_response", x.g["msg"], None)
            if m.is_("discovery_response"):
                yield "with the registered address", answer_addr(x, m, "discovery_response") == addr_of(x, x.pre, x.g["name"])
        else:
            yield "an unknown service is reported only for unregistered names", z3.Not(known)
            yield from reply(x, m, "discovery_response", x.g["msg"], "unknown_service")


def post_promise(x, st, ret):
    ms = sent(x, st)
    m0 = reg(x, x.pre)
    known = m0.has(x.g["name"])
    yield "answered at once exactly if the name is registered", iff(len(ms), known)
    yield "registrations are untouched", m0 is reg(x, st) and rev(x, x.pre) is rev(x, st)
    for m in ms:
        yield from reply(x, m, "discovery_future", x.g["msg"], None)
        if m.is_("discovery_future"):
            yield "with the registered address", answer_addr(x, m, "discovery_future") == addr_of(x, x.pre, x.g["name"])
    s0, s1 = prom(x, x.pre), prom(x, st)
    yield "otherwise the promise is kept, behind the others", (s0 is s1) if ms else appended(x, s0, x.pre, s1, st, x.g["msg"])


def setup_cancel(x):
    setup(x, "discovery_cancel_t")
    x.g["id"] = x.rdb(x.st, x.g["msg"], "message::discovery_cancel_t.payload.id")
    x.g["src"] = x.rdb(x.st, x.g["msg"], "message::discovery_cancel_t.payload.source")


def post_cancel(x, st, ret):
    ms = sent(x, st)
    s0, s1 = prom(x, x.pre), prom(x, st)
    P = "message::discovery_promise_t.payload."
    i, src = x.g["id"], x.g["src"]

    def hit(p, s):
        return z3.And(x.rdb(s, p, P + "id") == i, x.rdb(s, p, P + "origin") == src)
    yield "registrations are untouched", reg(x, x.pre) is reg(x, st) and rev(x, x.pre) is rev(x, st)
    yield "at most one answer", len(ms) <= 1
    if not ms:
        yield "nothing happens only if no such promise is pending", z3.And(s0 is s1, s0.forall(lambda q: z3.Not(hit(x.load(x.pre, q, 8), x.pre))))
        return
    m = ms[0]
    yield "the answer is a discovery_future", m.is_("discovery_future")
    if not m.is_("discovery_future"):
        return
    req = x.load(m.st, addoff(m.base, x.foff("message::discovery_future_t.payload.req")), 8)
    yield "the promise that was cancelled is answered", hit(req, x.pre)
    yield from reply(x, m, "discovery_future", req, "cancelled")
    yield "that promise alone is removed", removed_one(x, s0, x.pre, s1, st, lambda q: bv(x.load(x.pre, q, 8)) == bv(req))


HOOKS = [PUT]
C = "rotor::registry_t::"
CONTRACTS = [
    Contract("on_reg", re.escape(C) + r"on_reg\(.*\)", setup_reg, post_reg, loops=[Loop(r"registry_t::on_reg\(", inv_reg)],
             hooks=[(r"^rotor::supervisor_t::put\(", h_put_reg), (r"^std::(__cxx11::)?list<.*>::erase\(", h_erase_promise)],
             cover=[("refused", lambda x, s, r: reg(x, x.pre).has(x.g["name"])), ("registered", lambda x, s, r: z3.Not(reg(x, x.pre).has(x.g["name"])))]),
    Contract("on_dereg", re.escape(C) + r"on_dereg\(.*\)", setup_dereg, post_dereg, loops=[Loop(r"registry_t::on_dereg\(", inv_dereg)],
             cover=[("known", lambda x, s, r: rev(x, x.pre).has(x.g["addr"]))]),
    Contract("on_dereg_service", re.escape(C) + r"on_dereg_service\(.*\)", setup_dereg_service, post_dereg_service,
             cover=[("known", lambda x, s, r: reg(x, x.pre).has(x.g["name"]))]),
    Contract("on_discovery", re.escape(C) + r"on_discovery\(.*\)", lambda x: setup(x, "discovery_request_t"), post_disc,
             cover=[("known", lambda x, s, r: reg(x, x.pre).has(x.g["name"])), ("unknown", lambda x, s, r: z3.Not(reg(x, x.pre).has(x.g["name"])))]),
    Contract("on_promise", re.escape(C) + r"on_promise\(.*\)", lambda x: setup(x, "discovery_promise_t"), post_promise,
             cover=[("known", lambda x, s, r: len(sent(x, s)) == 1), ("unknown", lambda x, s, r: not sent(x, s))]),
    Contract("on_cancel", re.escape(C) + r"on_cancel\(.*\)", setup_cancel, post_cancel,
             cover=[("cancelled", lambda x, s, r: len(sent(x, s)) == 1), ("unknown", lambda x, s, r: not sent(x, s))]),
]
