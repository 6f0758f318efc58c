"""The index of subscriptions of a locality: which handlers a message reaches."""
from common import *

TUS = ["src/rotor/subscription.cpp", "src/rotor/subscription_point.cpp", "src/rotor/actor_base.cpp"]
SB = "subscription_t."
MTYPE = z3.Function("message_type_of", BV64, BV64)
VAL = 16  # value of a std::unordered_map node with an 8-byte key


def jh(x, which):
    return x.foff("subscription_t::joint_handlers_t." + which)


def setup(x):
    this = x.ptr("index", "subscription")
    main = x.ptr("main_address", "address")
    x.wr(x.st, this, SB + "main_address", main)
    x.g.update(this=this, main=main)
    x.args = [this]


def infos(x, st):
    return x.map(st, x.g["this"], SB + "internal_infos", "int", 8)


def routes(x, st):
    """keyed by (address, message type)"""
    return stl.map_get(x.eng, st, x.eng.ckey(st, addoff(x.g["this"], x.foff(SB + "mine_handlers"))), 8, "subkey")


def rkey(x, st, addr, mt):
    return stl.pair_key(x.eng, st, addr, mt)


RVAL = 24


def vec(x, st, node, off):
    return stl.seq_get(x.eng, st, x.eng.ckey(st, addoff(node, off)))


def point(x, name):
    p = x.ptr(name, "point")
    h, a = x.ptr(name + "_handler", "handler"), x.ptr(name + "_address", "address")
    x.wr(x.st, p, "subscription_point_t.handler", h)
    x.wr(x.st, p, "subscription_point_t.address", a)
    act, aa = x.ptr(name + "_actor", "actor"), x.ptr(name + "_actor_address", "address")
    x.wr(x.st, h, "handler_base_t.actor_ptr", act)
    x.wr(x.st, act, "actor_base_t.address", aa)
    mt = MTYPE(h)
    x.g.update({"h": h, "a": a, "aa": aa, "mt": mt})
    loc = lambda q: x.rdb(x.st, q, "address_t.locality")
    x.g["ia"] = loc(a) == loc(x.g["main"])
    x.g["ih"] = loc(aa) == loc(x.g["main"])
    return p


def h_mtype(eng, st, cc):
    return [(st, MTYPE(bv(cc.args[0])))]


def setup_mat(x):
    setup(x)
    p = point(x, "point")
    x.g["point"] = p
    out = x.eng.new_region("alloca")
    x.g["out"] = out
    # results larger than a register are returned through the first argument
    x.args = [out, x.g["this"], p]
    x.g["key"] = rkey(x, x.st, x.g["a"], x.g["mt"])


def lst(x, st, m, k, off):
    """the list stored under a key (empty when absent)"""
    return vec(x, st, m.at(k), off)


def others_kept(x, m0, m1, k):
    q = z3.FreshConst(BV64, "ok")
    return z3.ForAll([q], z3.Implies(q != k, z3.And(m1.has(q) == m0.has(q), z3.Implies(m0.has(q), m1.at(q) == m0.at(q)))))


def handler_eq(x, st, h):
    return lambda a: ival(x, st, a) == h


SI = "subscription_info_t."


def post_mat(x, st, ret):
    x.cur = st
    info = x.load(st, x.g["out"])
    yield "the subscription records whether address and handler belong to this locality", z3.And(
        (x.rdb(st, info, SI + "internal_address") & 1 == 1) == x.g["ia"], (x.rdb(st, info, SI + "internal_handler") & 1 == 1) == x.g["ih"])
    yield "it is established at once exactly for own addresses", x.rdb(st, info, SI + "state") == z3.If(
        x.g["ia"], z3.BitVecVal(x.lay["subinfo::ESTABLISHED"], 32), z3.BitVecVal(x.lay["subinfo::SUBSCRIBING"], 32))
    for f in ("handler", "address", "owner_ptr", "owner_tag"):
        yield "it describes the requested point (%s)" % f, x.rdb(st, info, SI + f) == x.rdb(x.pre, x.g["point"], "subscription_point_t." + f)
    m0, m1, i0, i1 = routes(x, x.pre), routes(x, st), infos(x, x.pre), infos(x, st)
    k = x.g["key"]
    if not x.eng.feasible(st, x.g["ia"]):
        yield "a foreign address creates no route", m1 is m0 and i1 is i0
        return
    yield "only own addresses create routes", x.g["ia"]
    yield "a route exists now", m1.has(k)
    yield "other routes are kept", others_kept(x, m0, m1, k)
    yield "other addresses' subscriptions are kept", others_kept(x, i0, i1, x.g["a"])
    r0, r1 = groups(x, x.pre, m0, k), groups(x, st, m1, k)
    for i, cond in ((0, x.g["ih"]), (1, z3.Not(x.g["ih"]))):
        yield "the handler is added once, behind the others of its group; the other group is kept", z3.If(
            cond, appended(x, r0[i], x.pre, r1[i], st, x.g["h"]), seq_same(x, r0[i], x.pre, r1[i], st))
    s0, s1 = lists(x, x.pre, i0, x.g["a"]), lists(x, st, i1, x.g["a"])
    yield "the subscription is recorded under its address", appended(x, s0, x.pre, s1, st, bv(info))


def groups(x, st, m, k):
    """internal and external handlers of a route (empty when there is no route)"""
    n = node_of(x, st, m, k)
    if n is None:
        return stl.Seq(()), stl.Seq(())
    return vec(x, st, n, RVAL + jh(x, "internal")), vec(x, st, n, RVAL + jh(x, "external"))


def lists(x, st, m, k):
    n = node_of(x, st, m, k)
    return stl.Seq(()) if n is None else vec(x, st, n, VAL)


def node_of(x, st, m, k):
    """the node stored under k on the current path; None when there is none"""
    if not x.eng.feasible(x.cur, m.has(k)):
        return None
    n = z3.simplify(m.at(k))
    if z3.is_bv_value(n):
        return n.as_long()
    return stl.resolve_store(x.eng, x.cur, m, k)


# ---------------------------------------------------------------- forget
def setup_info(x):
    setup(x)
    info = x.ptr("info", "subinfo")
    h, a = x.ptr("handler", "handler"), x.ptr("address", "address")
    x.wr(x.st, info, SI + "handler", h)
    x.wr(x.st, info, SI + "address", a)
    f = {}
    for n, key in (("internal_address", "ia"), ("internal_handler", "ih")):
        v = x.rdb(x.st, info, SI + n)
        x.assume(z3.ULE(v, 1))
        f[key] = v == 1
    x.g.update(h=h, a=a, mt=MTYPE(h), info=info, **f)
    x.g["key"] = rkey(x, x.st, a, x.g["mt"])


def index_has(x, h):
    """class invariant, for one subscription: an own address is indexed under the address and under (address, type)"""
    i0, m0 = infos(x, x.st), routes(x, x.st)
    x.assume(z3.Implies(x.g["ia"], z3.And(i0.has(x.g["a"]), m0.has(x.g["key"]))))
    e = x.st.copy()
    e.assume(x.g["ia"])
    x.cur = e
    li = lists(x, x.st, i0, x.g["a"])
    gi, ge = groups(x, x.st, m0, x.g["key"])
    has = lambda s: s.exists(lambda c: ival(x, x.st, c) == h)
    if li.pieces:
        x.assume(li.forall(lambda c: z3.UGT(ival(x, x.st, c), z3.BitVecVal(1 << 16, 64))))
    x.assume(z3.Implies(x.g["ia"], li.exists(lambda c: ghandler(x, x.st, c) == h)))
    x.assume(z3.Implies(x.g["ia"], z3.If(x.g["ih"], has(gi), has(ge))))


def ghandler(x, st, e):
    return x.rdb(st, ival(x, st, e), SI + "handler")


def setup_forget(x):
    setup_info(x)
    index_has(x, x.g["h"])
    x.args += [cell(x, x.g["info"])]


def post_forget(x, st, ret):
    x.cur = st
    m0, m1, i0, i1 = routes(x, x.pre), routes(x, st), infos(x, x.pre), infos(x, st)
    if not x.eng.feasible(st, x.g["ia"]):
        yield "nothing is indexed for a foreign address", m1 is m0 and i1 is i0
        return
    yield "a foreign address has no route here", x.g["ia"]
    k, a, h = x.g["key"], x.g["a"], x.g["h"]
    yield "other routes are kept", others_kept(x, m0, m1, k)
    yield "other addresses' subscriptions are kept", others_kept(x, i0, i1, a)
    s0, s1 = lists(x, x.pre, i0, a), lists(x, st, i0, a)
    gone = not x.eng.feasible(st, i1.has(a))
    yield "exactly one subscription of this handler is removed", removed_one(x, s0, x.pre, s1, st, lambda e: ghandler(x, x.pre, e) == h)
    yield "an address without subscriptions is forgotten", i1.has(a) == (zi(s1.len()) > 0)
    r0, r1 = groups(x, x.pre, m0, k), groups(x, st, m0, k)
    for i, cond in ((0, x.g["ih"]), (1, z3.Not(x.g["ih"]))):
        yield "exactly one entry of this handler is removed from its group; the other group is kept", z3.If(
            cond, removed_one(x, r0[i], x.pre, r1[i], st, lambda e: ival(x, x.pre, e) == h), seq_same(x, r0[i], x.pre, r1[i], st))
    yield "a route without handlers is removed", m1.has(k) == z3.Or(zi(r1[0].len()) > 0, zi(r1[1].len()) > 0)


# ---------------------------------------------------------------- update
def setup_update(x):
    setup(x)
    p = point(x, "point")
    x.g["key"] = rkey(x, x.st, x.g["a"], x.g["mt"])
    n = x.ptr("new_handler", "handler")
    x.g.update(point=p, new=n)
    x.assume(n != x.g["h"])
    index_has(x, x.g["h"])
    x.args += [p, cell(x, n)]


def replaced_one(x, s0, st0, s1, st1, old, new):
    if not s0.pieces or not s1.pieces:
        return z3.BoolVal(False)
    i = z3.FreshConst(BV64, "ri")
    j = z3.FreshConst(BV64, "rj")
    v = lambda s, st, k: ival(x, st, s.get(k))
    n = zi(s0.len())
    diff = z3.And(v(s0, st0, i) == old, v(s1, st1, i) == new)
    return z3.And(zi(s1.len()) == n,
                  z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Or(v(s0, st0, j) == v(s1, st1, j), z3.And(v(s0, st0, j) == old, v(s1, st1, j) == new)))),
                  z3.Exists([i], z3.And(i >= 0, i < n, diff)))


def post_update(x, st, ret):
    x.cur = st
    m0, m1, i0, i1 = routes(x, x.pre), routes(x, st), infos(x, x.pre), infos(x, st)
    yield "the point has the new handler", x.rdb(st, x.g["point"], "subscription_point_t.handler") == x.g["new"]
    yield "the set of routes is kept", z3.And(same_map(m0, m1), same_map(i0, i1))
    k = x.g["key"]
    if not x.eng.feasible(st, x.g["ia"]):
        return
    r0, r1 = groups(x, x.pre, m0, k), groups(x, st, m1, k)
    for i, cond in ((0, x.g["ih"]), (1, z3.Not(x.g["ih"]))):
        yield "the handler is replaced in place; the other group is kept", z3.Implies(x.g["ia"], z3.If(
            cond, replaced_one(x, r0[i], x.pre, r1[i], st, x.g["h"], x.g["new"]), seq_same(x, r0[i], x.pre, r1[i], st)))


# ---------------------------------------------------------------- get_recipients
def setup_get(x):
    setup(x)
    m = x.ptr("message", "message")
    a, t = x.ptr("address", "address"), x.sym("type")
    x.wr(x.st, m, "message_base_t.address", a)
    x.wr(x.st, m, "message_base_t.type_index", t)
    x.g["key"] = rkey(x, x.st, a, t)
    x.args += [m]


def post_get(x, st, ret):
    x.cur = st
    m0, m1 = routes(x, x.pre), routes(x, st)
    yield "the index is kept", same_map(m0, m1)
    k = x.g["key"]
    has = x.eng.feasible(st, m0.has(k))
    yield "a route is found exactly when there is one for this address and this type", m0.has(k) == (bv(ret) != 0)
    if has:
        yield "it is that route", z3.Implies(m0.has(k), bv(ret) == bv(m0.at(k)) + RVAL)


# ---------------------------------------------------------------- the list of points
def setup_find(x):
    c = x.ptr("points", "points")
    p = x.ptr("point", "point")
    for f in ("handler", "address"):
        x.g[f] = x.rdb(x.st, p, "subscription_point_t." + f)
    x.g["c"] = c
    s = pts(x, x.st)
    x.args = [c, p]


def pts(x, st):
    return stl.seq_get(x.eng, st, x.eng.ckey(st, x.g["c"]))


HEQ = z3.Function("handlers_equal", BV64, BV64, z3.BoolSort())


def h_heq(eng, st, cc):
    return [(st, HEQ(bv(cc.args[0]), bv(cc.args[1])))]


def matches(x, st, e):
    i = ival(x, st, e)
    return z3.And(HEQ(x.rdb(st, i, SI + "handler"), x.g["handler"]), x.rdb(st, i, SI + "address") == x.g["address"])


def post_find(x, st, ret):
    s = pts(x, st)
    i = zi(ret.idx)
    n = zi(s.len())
    if not s.pieces:
        yield "nothing is found in an empty list", i == 0
        return
    j = z3.FreshConst(BV64, "fj")
    yield "what is found has an equal handler and the same address", z3.Or(i == n, z3.And(i >= 0, i < n, matches(x, st, s.get(ret.idx))))
    yield "the latest one is found, and nothing only if there is none", z3.ForAll([j], z3.Implies(
        z3.And(j >= 0, j < n, z3.Or(i == n, j > i)), z3.Not(matches(x, st, s.get(j)))))


HOOKS = [(r"^virtual .*::message_type\(|^virtual .*handler_base_t#", h_mtype)]
C = "rotor::subscription_t::"
CONTRACTS = [
    Contract("materialize", re.escape(C) + r"materialize\(.*\)", setup_mat, post_mat,
             cover=[("own", lambda x, s, r: x.g["ia"]), ("foreign", lambda x, s, r: z3.Not(x.g["ia"]))]),
    Contract("forget", re.escape(C) + r"forget\(.*\)", setup_forget, post_forget,
             cover=[("own", lambda x, s, r: x.g["ia"]), ("foreign", lambda x, s, r: z3.Not(x.g["ia"]))]),
    Contract("update", re.escape(C) + r"update\(.*\)", setup_update, post_update,
             cover=[("own", lambda x, s, r: x.g["ia"]), ("foreign", lambda x, s, r: z3.Not(x.g["ia"]))]),
    Contract("get_recipients", re.escape(C) + r"get_recipients\(.*\) const", setup_get, post_get),
    Contract("points.find", r"rotor::subscription_container_t::find\(.*\)", setup_find, post_find, hooks=[(r"^virtual .*handler_base_t.*operator==|^rotor::handler_base_t::operator==\(", h_heq)]),
]
