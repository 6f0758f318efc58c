"""Which temporary addresses an actor gets its responses from (one per actor and response type)."""
from common import *

TUS = ["src/rotor/address_mapping.cpp", "src/rotor/handler.cpp"]
M = "address_mapping_t."
SI = "subscription_info_t."
SP = "subscription_point_t."
V = 16
MTYPE = z3.Function("message_type_of", BV64, BV64)


def setup(x):
    this = x.ptr("mapping", "mapping")
    a = x.ptr("actor", "actor")
    x.g.update(this=this, actor=a)
    x.args = [this]


def actors(x, st):
    return x.map(st, x.g["this"], M + "actor_map")


def inner(x, st, m, k):
    """the table of actor k (its node must exist)"""
    n = z3.simplify(m.at(k))
    n = n.as_long() if z3.is_bv_value(n) else n
    return x.elem_kind(stl.map_get(x.eng, st, x.eng.ckey(st, addoff(n, V)), 8, "int"), "subinfo", V)


def value(x, st, m, k):
    n = z3.simplify(m.at(k))
    n = n.as_long() if z3.is_bv_value(n) else n
    v = bv(x.load(st, addoff(n, V), 8))
    x.eng.setkind(st, v, "subinfo")
    return v


def h_mtype(eng, st, cc):
    return [(st, MTYPE(bv(cc.args[0])))]


def setup_set(x):
    setup(x)
    i, h = x.ptr("info", "subinfo"), x.ptr("handler", "handler")
    x.wr(x.st, i, SI + "handler", h)
    x.g.update(info=i, t=MTYPE(h))
    x.args += [x.g["actor"], cell(x, i)]


def post_set(x, st, ret):
    a, t = x.g["actor"], x.g["t"]
    m0, m1 = actors(x, x.pre), actors(x, st)
    yield "the actor is known", m1.has(a)
    yield "the others are kept", only_changed(m0, m1, a)
    i1 = inner(x, st, m1, a)
    yield "the type is known", i1.has(t)
    if x.eng.feasible(st, m0.has(a)):
        i0 = inner(x, x.pre, m0, a)
        had = z3.And(m0.has(a), i0.has(t))
        yield "the first subscription of a type stays", z3.Implies(had, value(x, st, i1, t) == value(x, x.pre, i0, t))
        yield "a new one is recorded", z3.Implies(z3.Not(had), value(x, st, i1, t) == x.g["info"])
        yield "other types are kept", z3.Implies(m0.has(a), only_changed(i0, i1, t))
    else:
        yield "a new one is recorded", value(x, st, i1, t) == x.g["info"]


def setup_get(x):
    setup(x)
    t = x.sym("type")
    out = x.eng.new_region("alloca")
    x.g.update(t=t, out=out)
    x.args = [out, x.g["this"], x.g["actor"], t]
    m = actors(x, x.st)
    i = inner(x, x.st, m, x.g["actor"])
    x.assume(z3.Implies(m.has(x.g["actor"]), each(i, lambda q, n: z3.UGT(val_at(x, x.st, n), z3.BitVecVal(1 << 16, 64)))))


def post_get(x, st, ret):
    a, t = x.g["actor"], x.g["t"]
    m = actors(x, x.pre)
    r = bv(x.load(st, x.g["out"], 8))
    yield "nothing changes", actors(x, st) is m
    if not x.eng.feasible(st, m.has(a)):
        yield "an unknown actor has no address", r == 0
        return
    i = inner(x, x.pre, m, a)
    if not x.eng.feasible(st, z3.And(m.has(a), i.has(t))):
        yield "an unknown type has no address", r == 0
        return
    yield "the recorded address, if there is one", r == z3.If(z3.And(m.has(a), i.has(t)), x.rdb(x.pre, value(x, x.pre, i, t), SI + "address"), z3.BitVecVal(0, 64))


def setup_remove(x):
    setup(x)
    p, h, ad = x.ptr("point", "point"), x.ptr("handler", "handler"), x.ptr("address", "address")
    for f, v in (("handler", h), ("address", ad)):
        x.assume(x.rdb(x.st, p, SP + f) == v)
    x.g["actor"] = x.rdb(x.st, p, SP + "owner_ptr")
    x.assume(z3.UGT(x.g["actor"], z3.BitVecVal(1 << 16, 64)))
    x.g.update(point=p, h=h, ad=ad)
    m = actors(x, x.st)
    # class invariant: only actors with subscriptions are recorded; this one is
    x.assume(m.has(x.g["actor"]))
    i = inner(x, x.st, m, x.g["actor"])
    x.assume(zi(i.card) > 0)
    # subscriptions are complete
    x.assume(each(i, lambda q, n: z3.UGT(val_at(x, x.st, n), z3.BitVecVal(1 << 16, 64))))
    # a handler is recorded once (each mapping has a handler of its own)
    q1, q2 = z3.FreshConst(BV64, "qa"), z3.FreshConst(BV64, "qb")
    hit = lambda q: hits(x, x.st, val_at(x, x.st, i.at(q)))
    x.assume(z3.ForAll([q1, q2], z3.Implies(z3.And(i.has(q1), i.has(q2), hit(q1), hit(q2)), q1 == q2)))
    x.args += [p]


def val_at(x, st, n):
    v = bv(x.load(st, addoff(n, V), 8))
    x.eng.setkind(st, v, "subinfo")
    return v


def hits(x, st, v):
    return z3.And(x.rdb(st, v, SI + "handler") == x.g["h"], x.rdb(st, v, SI + "address") == x.g["ad"])


def inv_remove(eng, st, ctx):
    x = eng.x
    m = actors(x, st)
    yield "the actor is recorded", m.has(x.g["actor"])
    i0 = inner(x, x.pre, actors(x, x.pre), x.g["actor"])
    i = inner(x, st, m, x.g["actor"])
    yield "nothing was dropped yet", same_map(i0, i)
    yield "the number is kept", zi(i.card) == zi(i0.card)
    ps = passed(eng, st, ctx)
    if ps is None:
        return
    q = z3.FreshConst(BV64, "iq")
    yield "it is not among the passed ones", z3.ForAll([q], z3.Implies(ps(q), z3.Not(hits(x, x.pre, val_at(x, x.pre, i0.at(q))))))


def post_remove(x, st, ret):
    a = x.g["actor"]
    m0, m1 = actors(x, x.pre), actors(x, st)
    i0 = inner(x, x.pre, m0, a)
    yield "the others are kept", only_changed(m0, m1, a)
    hit = lambda q: hits(x, x.pre, val_at(x, x.pre, i0.at(q)))
    q = z3.FreshConst(BV64, "rq")
    if x.eng.feasible(st, m1.has(a)):
        i1 = inner(x, st, m1, a)
        yield "exactly the subscription is dropped", z3.Implies(m1.has(a), z3.ForAll([q], z3.And(
            i1.has(q) == z3.And(i0.has(q), z3.Not(hit(q))), z3.Implies(i1.has(q), i1.at(q) == i0.at(q)))))
        yield "the actor stays known exactly while it has subscriptions", z3.Implies(m1.has(a), zi(i1.card) > 0)
    if x.eng.feasible(st, z3.Not(m1.has(a))):
        yield "an actor is dropped only with its last subscription", z3.Implies(z3.Not(m1.has(a)), z3.ForAll([q], z3.Implies(i0.has(q), hit(q))))


def setup_has(x):
    setup(x)
    x.args += [x.g["actor"]]


def post_has(x, st, ret):
    m = actors(x, x.pre)
    yield "exactly the known actors", tobool(ret) == m.has(x.g["actor"])
    yield "nothing changes", actors(x, st) is m


HOOKS = [(r"^virtual .*::message_type\(|^virtual .*handler_base_t#", h_mtype)]
C = "rotor::address_mapping_t::"
CONTRACTS = [
    Contract("mapping set", re.escape(C) + r"set\(.*\)", setup_set, post_set,
             cover=[("again", lambda x, s, r: actors(x, x.pre).has(x.g["actor"])), ("new", lambda x, s, r: z3.Not(actors(x, x.pre).has(x.g["actor"])))]),
    Contract("get_mapped_address", re.escape(C) + r"get_mapped_address\(.*\)", setup_get, post_get),
    Contract("mapping remove", re.escape(C) + r"remove\(.*\)", setup_remove, post_remove, loops=[Loop(r"address_mapping_t::remove\(", inv_remove)],
             cover=[("last", lambda x, s, r: z3.Not(actors(x, s).has(x.g["actor"]))), ("more", lambda x, s, r: actors(x, s).has(x.g["actor"]))]),
    Contract("has_subscriptions", re.escape(C) + r"has_subscriptions\(.*\) const", setup_has, post_has),
]
