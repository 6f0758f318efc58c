"""Shared vocabulary of the contracts: messages sent, errors made, the actor under verification."""
import z3
from contracts_lib import *
import re
from ir import dem, demangle_all


# ------------------------------------------------------------------ messages
class Msg:
    """a message handed to supervisor_t::put, seen in the state at that moment"""

    def __init__(self, x, sup, base, st):
        self.x, self.sup, self.base, self.st = x, sup, base, st
        vt = x.load(st, base, 8)
        self.type = None
        a = vt if isinstance(vt, int) else None
        if a is not None:
            g = x.eng.addr_glob.get(a - 16)
            if g:
                n = g[0]
                demangle_all([n])
                d = dem(n)
                self.type = d.replace("vtable for ", "").replace("> >", ">>").replace("> >", ">>")
        if self.type is None:
            self.type = "existing message"

    def is_(self, what):
        return self.type == TYPES.get(what, what)

    @property
    def dst(self):
        return self.x.rdb(self.st, self.base, "message_base_t.address")

    def f(self, name):
        return self.x.rdb(self.st, self.base, "message::" + name)

    def s(self, name):
        return self.x.str(self.st, self.base, "message::" + name)


class Req(Msg):
    """a request that was sent"""

    def __init__(self, x, e):
        Msg.__init__(self, x, e[1], e[2], e[3])
        self.id, self.timeout, self.actor = bv(e[4]), bv(e[5]), bv(e[6])


class Ghost:
    """a ghost counter attached to every object (a heap cell that no code touches)"""
    next_off = 1 << 20

    def __init__(self, x, name):
        self.off = Ghost.next_off
        Ghost.next_off += 8
        x.st.heap[(self.off, 8)] = HeapArr(z3.K(BV64, z3.BitVecVal(0, 64)), (), 8)
        x.g[name] = self

    def get(self, x, st, base):
        return ival(x, st, addoff(base, self.off))

    def set(self, x, st, base, v):
        x.eng.store(st, addoff(base, self.off), 8, v)


def _req(t):
    return "rotor::message_t<rotor::wrapped_request_t<rotor::payload::%s, void>>" % t


def _res(t):
    return "rotor::message_t<rotor::wrapped_response_t<rotor::payload::%s>>" % t


def _m(t):
    return "rotor::message_t<rotor::payload::%s>" % t


TYPES = {
    "shutdown_trigger": _m("shutdown_trigger_t"), "shutdown_request": _req("shutdown_request_t"), "shutdown_response": _res("shutdown_request_t"),
    "init_request": _req("initialize_actor_t"), "init_response": _res("initialize_actor_t"), "create_actor": _m("create_actor_t"),
    "spawn_actor": _m("spawn_actor_t"), "handler_call": _m("handler_call_t"), "start_trigger": _m("start_actor_t"),
    "subscription": _m("subscription_confirmation_t"), "unsubscription": _m("unsubscription_confirmation_t"),
    "external_subscription": _m("external_subscription_t"), "external_unsubscription": _m("external_unsubscription_t"),
    "commit_unsubscription": _m("commit_unsubscription_t"), "registration_request": _req("registration_request_t"),
    "registration_response": _res("registration_request_t"), "deregistration_notify": _m("deregistration_notify_t"),
    "deregistration_service": _m("deregistration_service_t"), "discovery_request": _req("discovery_request_t"),
    "discovery_response": _res("discovery_request_t"), "discovery_promise": _req("discovery_promise_t"),
    "discovery_future": _res("discovery_promise_t"), "discovery_cancel": "rotor::message_t<rotor::cancellation_t<rotor::payload::discovery_promise_t>>",
    "link_request": _req("link_request_t"), "link_response": _res("link_request_t"), "unlink_notify": _m("unlink_notify_t"),
    "unlink_request": _req("unlink_request_t"), "unlink_response": _res("unlink_request_t"),
}


def h_put(eng, st, cc):
    m = eng.load(st, cc.args[1], 8)
    st.events.append(("put", cc.args[0], m, st.copy()))
    # the queue takes the reference: the by-value argument is empty now
    eng.store(st, cc.args[1], 8, 0)
    return [(st, None)]


PUT = (r"^rotor::supervisor_t::put\(", h_put)


RB = "request_builder_t<payload::unlink_request_t>."


def h_request_send(eng, st, cc):
    """request_builder_t::send by its contract (c_requests): the request is sent once, its timeout is armed, the id is returned"""
    x = eng.x
    b = cc.args[0]
    req = x.load(st, addoff(b, x.foff(RB + "req")), 8)
    i = x.load(st, addoff(b, x.foff(RB + "request_id")), 8)
    sup = x.load(st, addoff(b, x.foff(RB + "sup")), 8)
    act = x.load(st, addoff(b, x.foff(RB + "actor")), 8)
    s0 = st.copy()
    st.events.append(("request", sup, req, s0, i, x.load(st, cc.args[1], 8), act))
    h = getattr(x.contract, "on_request", None) or x.g.get("on_request")
    if h:
        h(eng, st, Req(x, st.events[-1]))
    return [(st, i)]


def h_next_id(eng, st, cc):
    return [(st, eng.sym("request_id"))]


def h_some_address(eng, st, cc):
    """an address object (never null)"""
    a = eng.sym("imaginary_address")
    st.facts.append(z3.And(z3.UGT(a, z3.BitVecVal(1 << 16, 64)), z3.ULT(a, z3.BitVecVal(1 << 60, 64))))
    eng.setkind(st, a, "address")
    eng.store(st, cc.args[0], 8, a)
    return [(st, None)]


REQUESTS = [(r"^rotor::request_builder_t<.*>::send\(", h_request_send), (r"^rotor::supervisor_t::next_request_id\(|^virtual .*::next_request_id\(", h_next_id),
            (r"^rotor::address_mapping_t::get_mapped_address\(", h_some_address), (r"^rotor::supervisor_t::make_address\(|^virtual .*::make_address\(", h_some_address)]


def requests(x, st):
    return [Req(x, e) for e in st.events if e[0] == "request"]


def sent(x, st, what=None):
    out = [Msg(x, e[1], e[2], e[3]) for e in st.events if e[0] == "put"]
    if what:
        out = [m for m in out if m.is_(what)]
    return out


def evs(st, *kinds):
    return [e for e in st.events if e[0] in kinds]


def h_ev(name, ret=None, nargs=1):
    """a callee replaced by its contract: it is only recorded (with the state at the call)"""

    def h(eng, st, cc):
        st.events.append((name,) + tuple(cc.args[:nargs]) + (st.copy(),))
        r = ret(eng, st, cc) if ret else None
        return [(st, r)]

    return h


def fresh_bool(nm):
    return lambda eng, st, cc: eng.sym(nm, z3.BoolSort())


# ------------------------------------------------------------------ errors
class Err:
    """an error object: context, code, cause"""

    def __init__(self, x, st, base):
        self.x, self.st, self.base = x, st, base

    @property
    def code(self):
        return bv(self.x.load(self.st, addoff(self.base, self.x.foff("extended_error_t.ec")), 4), 32)

    @property
    def category(self):
        v = self.x.load(self.st, addoff(self.base, self.x.foff("extended_error_t.ec") + 8), 8)
        if isinstance(v, int):
            g = self.x.eng.addr_glob.get(v)
            return dem(g[0]) if g else v
        return v

    @property
    def next(self):
        return self.x.rdb(self.st, self.base, "extended_error_t.next")

    @property
    def request(self):
        return self.x.rdb(self.st, self.base, "extended_error_t.request")


ROOT = z3.Function("root_of_error", BV64, BV64)


def root_facts(eng, st, e):
    r = ROOT(bv(e))
    st.facts.append(z3.And(z3.UGT(r, z3.BitVecVal(1 << 16, 64)), z3.ULT(r, z3.BitVecVal(1 << 60, 64))))
    eng.setkind(st, r, "error")


def h_root(eng, st, cc):
    """extended_error_t::root(): the last element of the chain (its own contract is in c_errors)"""
    root_facts(eng, st, cc.args[1])
    eng.store(st, cc.args[0], 8, ROOT(bv(cc.args[1])))
    st.events.append(("root", cc.args[1]))
    return [(st, None)]


ROOT_HOOK = (r"^rotor::extended_error_t::root\(\)", h_root)


def ptr_null(v):
    return bv(v) == 0


def iff(n, f):
    """the event happened n times on this path: once iff f, never otherwise"""
    if n == 0:
        return z3.Not(tobool(f))
    if n == 1:
        return tobool(f)
    return z3.BoolVal(False)


def same(x, st, base, *fields):
    return z3.And([x.rdb(st, base, f) == x.rdb(x.pre, base, f) for f in fields])


def bit(x, st, base, cf, c):
    return (x.rdb(st, base, cf) & x.lay[c]) != 0


def err_cat(x, e):
    """which error category: 'error' or 'shutdown' (by the object that make_error_code uses)"""
    c = e.category
    return c if isinstance(c, str) else str(c)


def rotor_category(x):
    """address of the category object of error_code_t (the one object of class error_code_category)"""
    for m in x.eng.mods:
        for n, t in m.gtext.items():
            if "@_ZTVN5rotor7details19error_code_categoryE, i32 0" in t and not n.startswith("@_ZTV"):
                return x.eng.global_addr(n, m)
    raise Unsupported("the error category object is not found")


def actor_obj(x, name="actor", state=True):
    a = x.ptr(name, "actor")
    if state:
        x.assume(z3.ULE(x.rdb(x.st, a, "actor_base_t.state"), 6))
    return a


# ------------------------------------------------------------------ loops
def progress(eng, st, ctx, n):
    """How far a loop over a sequence of length n has come, whatever the loop looks like: every 8-byte local or iterator that the loop
    modifies and that starts at 0 counts up, one that starts at n counts down. Returns (k, [facts tying them together])."""
    up, down = [], []
    for m in sorted((m for m in ctx.mods if m[0] == "c"), key=str):
        c0, c = ctx.entry.cells.get((m[1], m[2])), st.cells.get((m[1], m[2]))
        if c0 is None or c is None:
            continue
        v0, v = c0[1], c[1]
        if isinstance(v0, Iter) and isinstance(v, Iter):
            v0, v = v0.idx, v.idx
        elif isinstance(v0, (Iter, Undef, VFn)) or isinstance(v, (Iter, Undef, VFn)) or c0[0] != 8:
            continue
        if isz(v0) and not isinstance(v0, z3.BitVecRef):
            continue
        if isz(v0) and v0.size() != 64:
            continue
        if eng.must(ctx.entry, bv(v0) == 0):
            up.append(bv(v))
        elif eng.must(ctx.entry, bv(v0) == bv(n)):
            down.append(bv(v))
    if up:
        k = up[0]
    elif down:
        k = bv(n) - down[0]
    else:
        return None, []
    return k, [k >= 0, k <= bv(n)] + [u == k for u in up[1:]] + [d == bv(n) - k for d in down]


def loop_iters(st, ctx):
    """the iterators that the loop advances"""
    out = []
    for m in sorted((m for m in ctx.mods if m[0] == "c"), key=str):
        c0, c = ctx.entry.cells.get((m[1], m[2])), st.cells.get((m[1], m[2]))
        if c0 and c and isinstance(c0[1], Iter) and isinstance(c[1], Iter):
            out.append(c[1])
    return out


def passed(eng, st, ctx):
    """for a loop over a map or set: which keys the iterator has left behind (a predicate), or None"""
    for c in sorted(ctx.mapit, key=str):
        v = bv(st.cells[c][1])
        m = stl.map_get(eng, st, ctx.mapit[c], 8, "int")
        e = stl.NODEKEY(v)
        return lambda q: z3.And(m.has(q), z3.Or(v == 0, z3.Select(m.rank, q) < z3.Select(m.rank, e)))
    return None


class Loop:
    """a loop of the named function, with its invariant inv(eng, st, ctx) -> [(name, formula)]"""

    def __init__(self, fn_rx, inv=None, nth=None):
        self.rx, self.fn_inv, self.nth = re.compile(fn_rx), inv, nth
        self.seen = []

    def matches(self, eng, fn, block):
        if not self.rx.search(dem(fn.name)):
            return False
        if self.nth is None:
            return True
        heads = [b for b in fn.order if b in fn.loops()]
        return self.nth < len(heads) and heads[self.nth] == block

    def inv(self, eng, st, ctx):
        return list(self.fn_inv(eng, st, ctx))


def cell(x, v):
    """a variable of the caller holding v (reference parameters)"""
    a = x.eng.new_region("alloca")
    x.eng.store(x.st, a, 8, v)
    return a


def maybe(x, name, kind=None):
    """possibly null pointer"""
    p = x.ptr(name, kind, nonnull=False)
    x.assume(z3.Or(p == 0, z3.UGT(p, z3.BitVecVal(1 << 16, 64))))
    return p


# ------------------------------------------------------------------ sequences in postconditions
def ival(x, st, addr, n=8):
    return bv(x.load(st, addr, n), 8 * n)


def seq_same(x, s0, st0, s1, st1):
    """both sequences hold the same values in the same order"""
    if s0 is s1:
        return z3.BoolVal(True)
    return seq_shift(x, s0, st0, s1, st1, 0, zi(s0.len()), 0, eqlen=0)


def seq_shift(x, s0, st0, s1, st1, lo, hi, d, eqlen=None):
    """for all j in [lo, hi): s1[j] == s0[j + d]; eqlen: len(s1) + eqlen == len(s0)"""
    cs = []
    if eqlen is not None:
        cs.append(zi(s1.len()) + zi(eqlen) == zi(s0.len()))
    if s0.pieces and s1.pieces:
        j = z3.FreshConst(z3.BitVecSort(64), "sj")
        a = ival(x, st0, s0.get(j + d if not (isinstance(d, int) and d == 0) else j))
        b = ival(x, st1, s1.get(j))
        cs.append(z3.ForAll([j], z3.Implies(z3.And(j >= zi(lo), j < zi(hi)), a == b)))
    return z3.And(cs)


def prefixes(s):
    """positions where the rope has a seam"""
    off = 0
    out = [0]
    for p in s.pieces:
        off = add_i(off, 1 if p[0] == "one" else p[3])
        out.append(off)
    return out


def removed_one(x, s0, st0, s1, st1, ok):
    """s1 is s0 without one element whose value satisfies ok"""
    if s0 is s1 or not s0.pieces:
        return z3.BoolVal(False)
    alts = []
    for i in {str(p): p for p in prefixes(s1) + prefixes(s0)}.values():
        parts = [zi(s1.len()) + 1 == zi(s0.len()), zi(i) >= 0, zi(i) < zi(s0.len()), ok(s0.get(i))]
        if s1.pieces:
            parts += [seq_shift(x, s0, st0, s1, st1, 0, zi(i), 0), seq_shift(x, s0, st0, s1, st1, zi(i), zi(s1.len()), 1)]
        alts.append(z3.And(parts))
    return z3.Or(alts)


def appended(x, s0, st0, s1, st1, v):
    """s1 is s0 followed by v"""
    if s0 is s1 or not s1.pieces:
        return z3.BoolVal(False)
    n = zi(s0.len())
    cs = [zi(s1.len()) == n + 1, ival(x, st1, s1.get(s0.len())) == v]
    if s0.pieces:
        cs.append(seq_shift(x, s0, st0, s1, st1, 0, n, 0))
    return z3.And(cs)


# ------------------------------------------------------------------ maps in postconditions
def same_map(a, b):
    if a is b:
        return z3.BoolVal(True)
    k = z3.FreshConst(BV64, "mk")
    return z3.ForAll([k], z3.And(a.has(k) == b.has(k), z3.Implies(a.has(k), a.at(k) == b.at(k))))


def only_changed(m0, m1, k):
    """every key but k is as before, with the same node"""
    if m0 is m1:
        return z3.BoolVal(True)
    q = z3.FreshConst(BV64, "ok")
    return z3.ForAll([q], z3.Implies(q != k, z3.And(m1.has(q) == m0.has(q), z3.Implies(m0.has(q), m1.at(q) == m0.at(q)))))


def each(m, f):
    """for every key q of m: f(q, node)"""
    q = z3.FreshConst(BV64, "eq")
    return z3.ForAll([q], z3.Implies(m.has(q), f(q, m.at(q))))


def node_fields_kept(x, st, m0, m1, k, fields, voff=16):
    """the records of all keys but k (present before and after) have the same contents"""
    q = z3.FreshConst(BV64, "fk")
    cs = [ival(x, st, addoff(m1.at(q), voff + o), n) == ival(x, x.pre, addoff(m0.at(q), voff + o), n) for o, n in fields]
    return z3.ForAll([q], z3.Implies(z3.And(q != k, m0.has(q), m1.has(q)), z3.And(cs)))


def upto(s, n, f):
    """f for the elements before position n"""
    if not s.pieces:
        return z3.BoolVal(True)
    cs, off = [], 0
    for p in s.pieces:
        if p[0] == "one":
            cs.append(z3.Implies(zi(off) < n, f(At(p[1], off))))
            off = add_i(off, 1)
        else:
            j = z3.FreshConst(BV64, "pj")
            e = z3.Select(p[1], j)
            rel = j - zi(p[2])
            cs.append(z3.ForAll([j], z3.Implies(z3.And(rel >= 0, rel < zi(p[3]), zi(off) + rel < n), f(At(e, zi(off) + rel))), patterns=[e]))
            off = add_i(off, p[3])
    return z3.And(cs)


class At:
    """a position of a sequence together with the address of the element there"""

    def __init__(self, addr, pos):
        self.addr, self.pos = addr, pos


def zi(v):
    return z3.BitVecVal(v, 64) if isinstance(v, int) else v


def answer(x, m, what, req, reply_to, sup, err=None):
    """m answers request req: right type, to the address that waits, at the right supervisor, without an error or with error object err"""
    yield "the answer has the right type", m.is_(what)
    yield "it goes to the address that waits for it", m.dst == reply_to
    yield "it is queued at the own supervisor", bv(m.sup) == bv(sup)
    if not m.is_(what):
        return
    yield "it answers that request", m.f(what + "_t.payload.req") == bv(req)
    yield ("it carries no error" if err is None else "it carries the error"), m.f(what + "_t.payload.ee") == bv(0 if err is None else err)
