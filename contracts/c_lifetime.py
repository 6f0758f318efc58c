"""The life of a subscription: request, confirmation, release - of the own locality and of foreign ones."""
from common import *

TUS = ["src/rotor/plugin/lifetime.cpp", "src/rotor/plugin/foreigners_support.cpp", "src/rotor/plugin/plugin_base.cpp", "src/rotor/plugin/starter.cpp",
       "src/rotor/subscription_point.cpp", "src/rotor/supervisor.cpp", "src/rotor/actor_base.cpp", "src/rotor/address_mapping.cpp",
       "src/rotor/handler.cpp"]
A = "actor_base_t."
LP = "lifetime_plugin_t."
PB = "plugin_base_t."
SI = "subscription_info_t."
SP = "subscription_point_t."
S = "supervisor_t."
PT = ("handler", "address", "owner_ptr", "owner_tag")


def tag(x, n):
    return x.lay["owner_tag_t::" + n]


def plugin(x, name, vt):
    p = x.ptr(name, "plugin")
    x.fix_vtable(p, vt)
    return p


def actor(x, name="actor"):
    a = actor_obj(x, name)
    sup = x.ptr(name + "_supervisor", "actor")
    x.wr(x.st, a, A + "supervisor", sup)
    x.assume(x.rdb(x.st, a, A + "address") != 0)
    x.assume(x.rdb(x.st, sup, A + "address") != 0)
    return a, sup


def setup_l(x):
    """the lifetime plugin of an actor"""
    p = plugin(x, "lifetime", "@_ZTVN5rotor6plugin17lifetime_plugin_tE")
    a, sup = actor(x)
    x.wr(x.st, p, PB + "actor", a)
    x.wr(x.st, a, A + "lifetime", p)
    x.g.update(this=p, actor=a, sup=sup)
    x.args = [p]


def seq_at(x, st, base, off):
    """a list of subscriptions"""
    return x.elem_kind(stl.seq_get(x.eng, st, x.eng.ckey(st, addoff(base, off))), "subinfo")


def points(x, st, p=None):
    return seq_at(x, st, x.g["this"] if p is None else p, x.foff(LP + "points"))


def own(x, st, p=None):
    return seq_at(x, st, x.g["this"] if p is None else p, x.foff(PB + "own_subscriptions"))


def val(x, st, e):
    """the subscription an element of a list of subscriptions refers to"""
    v = ival(x, st, e)
    x.eng.setkind(st, v, "subinfo")
    return v


def sane_infos(x, st, s):
    """a list of subscriptions holds existing subscriptions, each complete"""
    x.assume(s.forall(lambda e: z3.And(z3.UGT(val(x, st, e), z3.BitVecVal(1 << 16, 64)), x.rdb(st, val(x, st, e), SI + "handler") != 0,
                                       x.rdb(st, val(x, st, e), SI + "address") != 0, z3.ULE(x.rdb(st, val(x, st, e), SI + "owner_tag"), 3),
                                       z3.ULE(x.rdb(st, val(x, st, e), SI + "state"), 2))))


def info(x, name="info"):
    i = x.ptr(name, "subinfo")
    h, a = x.ptr(name + "_handler", "handler"), x.ptr(name + "_address", "address")
    x.wr(x.st, i, SI + "handler", h)
    x.wr(x.st, i, SI + "address", a)
    act = x.ptr(name + "_actor", "actor")
    aa = x.ptr(name + "_actor_address", "address")
    x.wr(x.st, h, "handler_base_t.actor_ptr", act)
    x.wr(x.st, act, A + "address", aa)
    x.assume(z3.ULE(x.rdb(x.st, i, SI + "state"), 2))
    x.assume(z3.ULE(x.rdb(x.st, i, SI + "owner_tag"), 3))
    x.assume(z3.ULE(x.rdb(x.st, i, SI + "internal_address"), 1))
    x.g.update(info=i, h=h, a=a, aa=aa)
    return i


def point(x, name="point"):
    p = x.ptr(name, "point")
    h, a = x.ptr(name + "_handler", "handler"), x.ptr(name + "_address", "address")
    psup = x.ptr(name + "_supervisor", "actor")
    x.wr(x.st, p, SP + "handler", h)
    x.wr(x.st, p, SP + "address", a)
    x.eng.store(x.st, addoff(a, x.foff("address_t.supervisor")), 8, psup)
    x.assume(x.rdb(x.st, psup, A + "address") != 0)
    x.assume(z3.ULE(x.rdb(x.st, p, SP + "owner_tag"), 3))
    x.g.update(point=p, h=h, a=a, psup=psup)
    return p


def carries(x, m, what, src, cls=SI, st=None):
    """the message's point is that of src"""
    st = st or m.st
    o = x.foff("message::" + what + "_t.payload.point")
    for f in PT:
        off, n = x.lay[SP + f]
        yield "it names the subscription (%s)" % f, bv(x.load(m.st, addoff(m.base, o + off), n), 8 * n) == x.rdb(st, src, cls + f)


# ================================================================ release of one subscription
def setup_unsub(x):
    setup_l(x)
    i = info(x)
    x.args += [cell(x, i)]


def post_unsub(x, st, ret):
    i = x.g["info"]
    ms = sent(x, st)
    first = x.rdb(x.pre, i, SI + "state") != x.lay["subinfo::UNSUBSCRIBING"]
    foreign = x.rdb(x.pre, i, SI + "owner_tag") == tag(x, "FOREIGN")
    yield "released by one message, once, unless it is held for another locality", iff(len(ms), z3.And(first, z3.Not(foreign)))
    yield "it is marked", x.rdb(st, i, SI + "state") == x.lay["subinfo::UNSUBSCRIBING"]
    yield "nothing else about it changes", same(x, st, i, *[SI + f for f in PT + ("internal_address", "internal_handler")])
    own_addr = x.rdb(x.pre, i, SI + "internal_address") == 1
    for m in ms:
        kind = "unsubscription" if m.is_("unsubscription") else "external_unsubscription" if m.is_("external_unsubscription") else None
        yield "it is a release", kind is not None
        yield "a release from the own locality or from a foreign one, as the address is", own_addr == z3.BoolVal(kind == "unsubscription")
        yield "it goes to the actor that handles the messages", m.dst == x.g["aa"]
        yield "it is queued at the own supervisor", bv(m.sup) == x.g["sup"]
        if kind:
            yield from carries(x, m, "unsubscription" if kind == "unsubscription" else "unsubscription_external", i, st=x.pre)


# ---------------------------------------------------------------- release of a point
HEQ = z3.Function("handlers_equal", BV64, BV64, z3.BoolSort())


def h_heq(eng, st, cc):
    return [(st, HEQ(bv(cc.args[0]), bv(cc.args[1])))]


HEQ_HOOK = (r"^virtual .*handler_base_t.*operator==|^rotor::handler_base_t::operator==\(", h_heq)


def matches(x, st, e, h=None, a=None):
    i = val(x, st, e)
    return z3.And(HEQ(x.rdb(st, i, SI + "handler"), x.g["h"] if h is None else h), x.rdb(st, i, SI + "address") == (x.g["a"] if a is None else a))


def setup_unsub_point(x):
    setup_l(x)
    s = points(x, x.st)
    sane_infos(x, x.st, s)
    h, a = x.ptr("handler", "handler"), x.ptr("address", "address")
    x.g.update(h=h, a=a)
    x.args += [cell(x, h), cell(x, a)]
    x.assume(s.exists(lambda e: matches(x, x.st, e)))


def post_unsub_point(x, st, ret):
    us = evs(st, "unsubscribe")
    yield "one subscription is released", len(us) == 1
    for e in us:
        at = e[-1]
        i = bv(x.load(at, e[2], 8))
        s = points(x, x.pre)
        yield "one that is recorded for this handler and address", s.exists(lambda q: z3.And(val(x, x.pre, q) == i, matches(x, x.pre, q)))
        yield "by this plugin", bv(e[1]) == x.g["this"]
    yield "the record stays until the release is confirmed", points(x, st) is points(x, x.pre)


UNSUB1 = (r"^rotor::plugin::lifetime_plugin_t::unsubscribe\(boost::intrusive_ptr<rotor::subscription_info_t> const&\)", h_ev("unsubscribe", nargs=2))

# ---------------------------------------------------------------- new subscription
def setup_initiate(x):
    setup_l(x)
    i = info(x)
    x.args += [cell(x, i)]


def post_initiate(x, st, ret):
    yield "it is recorded behind the others", appended(x, points(x, x.pre), x.pre, points(x, st), st, x.g["info"])
    yield "nothing is sent", not st.events


# ---------------------------------------------------------------- shutdown
def setup_l_shutdown(x):
    setup_l(x)
    r = x.ptr("request", "message")
    x.args += [r]


def post_l_shutdown(x, st, ret):
    none = z3.And(zi(points(x, x.pre).len()) == 0, zi(own(x, x.pre).len()) == 0)
    us = evs(st, "unsubscribe all")
    yield "shutdown goes on exactly when no subscription is left", tobool(ret) == none
    yield "otherwise all are released", iff(len(us), z3.Not(none))
    for e in us:
        yield "its own", bv(e[1]) == x.g["this"]


UNSUBALL = (r"^rotor::plugin::lifetime_plugin_t::unsubscribe\(\)", h_ev("unsubscribe all"))


def deactivating(x, st, a=None):
    return x.map(st, x.g["actor"] if a is None else a, A + "deactivating_plugins")


def setup_ready(x):
    setup_l(x)


def post_ready(x, st, ret):
    m = deactivating(x, x.pre)
    yield "exactly when one plugin is left", tobool(ret) == (bv(m.card) == 1)


# ---------------------------------------------------------------- unsubscribe all
def setup_unsub_all(x):
    setup_l(x)
    s = points(x, x.st)
    sane_infos(x, x.st, s)
    x.g["asked"] = None
    Ghost(x, "asked")


def h_unsub_mark(eng, st, cc):
    """unsubscribe(info) by its contract; ghost: this subscription's release was requested"""
    x = eng.x
    i = bv(x.load(st, cc.args[1], 8))
    eng.setkind(st, i, "subinfo")
    eng.oblige(st, "a plugin's own subscription is left to the plugin", x.rdb(st, i, SI + "owner_tag") != tag(x, "PLUGIN"))
    x.g["asked"].set(x, st, i, z3.BitVecVal(1, 64))
    return [(st, None)]


def h_erase_plugin(eng, st, cc):
    """the list's erase, observed: only plugins' subscriptions may be dropped from the record here"""
    x = eng.x
    a = stl.base_args(cc)
    it = stl.it_val(eng, st, a[1])
    s = stl.seq_get(eng, st, eng.ckey(st, a[0]))
    n = zi(s.len())
    idx = zi(it.idx)
    eng.oblige(st, "an existing record is dropped", z3.And(idx >= 0, idx < n))
    st.assume(z3.And(idx >= 0, idx < n))
    if s.pieces:
        e = s.get(it.idx)
        eng.oblige(st, "only a plugin's subscription is dropped without a release", x.rdb(st, val(x, st, e), SI + "owner_tag") == tag(x, "PLUGIN"))
    return stl.h_seq_erase(eng, st, cc)


def inv_unsub_all(eng, st, ctx):
    x = eng.x
    s = points(x, st)
    its = loop_iters(st, ctx)
    if not its:
        return
    n = zi(s.len())
    k = zi(its[0].idx)
    yield "the records are complete", s.forall(lambda e: z3.UGT(val(x, st, e), z3.BitVecVal(1 << 16, 64)))
    yield "the position is inside", z3.And(k >= 0, k <= n)
    yield "what was passed has been asked to be released", frm(s, k, lambda a: z3.And(
        x.g["asked"].get(x, st, val(x, st, a.addr)) == 1, x.rdb(st, val(x, st, a.addr), SI + "owner_tag") != tag(x, "PLUGIN")))


def frm(s, n, f):
    """f for the elements at and behind position n"""
    if not s.pieces:
        return z3.BoolVal(True)
    cs, off = [], 0
    for p in s.pieces:
        if p[0] == "one":
            cs.append(z3.Implies(zi(off) >= n, f(At(p[1], off))))
            off = add_i(off, 1)
        else:
            j = z3.FreshConst(z3.BitVecSort(64), "pj")
            e = z3.Select(p[1], j)
            rel = j - zi(p[2])
            cs.append(z3.ForAll([j], z3.Implies(z3.And(rel >= 0, rel < zi(p[3]), zi(off) + rel >= n), f(At(e, zi(off) + rel))), patterns=[e]))
            off = add_i(off, p[3])
    return z3.And(cs)


def post_unsub_all(x, st, ret):
    s = points(x, st)
    yield "the release of every recorded subscription has been requested", s.forall(lambda e: x.g["asked"].get(x, st, val(x, st, e)) == 1)
    de = evs(st, "deactivate")
    yield "the plugin is done at once exactly when nothing is recorded and it is the last one", iff(
        len(de), z3.And(zi(s.len()) == 0, bv(deactivating(x, x.pre).card) == 1))
    for e in de:
        yield "this plugin", bv(e[1]) == x.g["this"]
    gone = x.rdb(st, x.g["actor"], A + "lifetime") == 0
    yield "the actor keeps it until then", gone == z3.BoolVal(len(de) == 1)


DEACT = (r"^rotor::plugin::plugin_base_t::deactivate\(\)", h_ev("deactivate"))


# ---------------------------------------------------------------- a release was confirmed
def setup_l_unsubscription(x):
    setup_l(x)
    s = points(x, x.st)
    sane_infos(x, x.st, s)
    p = point(x)
    ext = x.eng.sym0("external", z3.BoolSort())
    x.g["external"] = ext
    x.args += [p, ext]
    # class invariant: what is not a plugin's is recorded
    x.assume(z3.Implies(x.rdb(x.st, p, SP + "owner_tag") != tag(x, "PLUGIN"), s.exists(lambda e: matches(x, x.st, e))))


def post_l_unsubscription(x, st, ret):
    mine = x.rdb(x.pre, x.g["point"], SP + "owner_tag") != tag(x, "PLUGIN")
    fs, de, ms, ba = evs(st, "forget"), evs(st, "deactivate"), sent(x, st), evs(st, "base")
    s0, s1 = points(x, x.pre), points(x, st)
    yield "a plugin's own subscription is handled like in every plugin", iff(len(ba), z3.Not(mine))
    yield "the subscription is removed from the index exactly once", iff(len(fs), mine)
    yield "a foreign locality is told exactly when the address is foreign", iff(len(ms), z3.And(mine, x.g["external"]))
    for e in ba:
        yield "the same release", z3.And(bv(e[1]) == x.g["this"], bv(e[2]) == x.g["point"], tobool(e[3]) == x.g["external"])
        yield "its answer is passed on", tobool(ret) == tobool(e[4])
        yield "the record is kept", s0 is s1
    for e in fs:
        i = bv(x.load(e[-1], e[2], 8))
        x.eng.setkind(st, i, "subinfo")
        yield "it is one recorded for this handler and address", s0.exists(lambda q: z3.And(val(x, x.pre, q) == i, matches(x, x.pre, q)))
        yield "it is dropped from the record", removed_one(x, s0, x.pre, s1, st, lambda q: z3.And(val(x, x.pre, q) == i, matches(x, x.pre, q)))
        yield "the release is consumed", tobool(ret)
    yield "the plugin is done exactly when nothing is recorded any more", iff(len(de), z3.And(mine, zi(s1.len()) == 0))
    for m in ms:
        yield "it is a commit", m.is_("commit_unsubscription")
        yield "to the supervisor of the address", m.dst == x.rdb(x.pre, x.g["psup"], A + "address")
        yield "queued at the own supervisor", bv(m.sup) == x.g["sup"]
        if m.is_("commit_unsubscription"):
            yield from carries(x, m, "commit_unsubscription", x.g["point"], SP, x.pre)
    for e in de:
        yield "only after the index forgot it", z3.And(mine, z3.BoolVal(st.events.index(e) > st.events.index(fs[0]))) if fs else z3.BoolVal(False)


def h_base_unsub(eng, st, cc):
    r = eng.sym("base_answer", z3.BoolSort())
    st.events.append(("base", cc.args[0], cc.args[1], tobool(cc.args[2]), r, st.copy()))
    return [(st, r)]


BASE = (r"^rotor::plugin::plugin_base_t::handle_unsubscription\(", h_base_unsub)
FORGET = (r"^rotor::plugin::plugin_base_t::forget_subscription\(boost::intrusive_ptr<rotor::subscription_info_t> const&\)", h_ev("forget", nargs=2))

HOOKS = [PUT, HEQ_HOOK]
L = "rotor::plugin::lifetime_plugin_t::"
PBN = "rotor::plugin::plugin_base_t::"
CONTRACTS = [
    Contract("release of a subscription", re.escape(L) + r"unsubscribe\(boost::intrusive_ptr<rotor::subscription_info_t> const&\)", setup_unsub, post_unsub,
             cover=[("sends", lambda x, s, r: len(sent(x, s)) == 1)]),
    Contract("release of a point", re.escape(L) + r"unsubscribe\(boost::intrusive_ptr<rotor::handler_base_t> const&, .*\)", setup_unsub_point, post_unsub_point, hooks=[UNSUB1]),
    Contract("initate_subscription", re.escape(L) + r"initate_subscription\(.*\)", setup_initiate, post_initiate),
    Contract("lifetime handle_shutdown", re.escape(L) + r"handle_shutdown\(.*\)", setup_l_shutdown, post_l_shutdown, hooks=[UNSUBALL]),
    Contract("ready_to_shutdown", re.escape(L) + r"ready_to_shutdown\(\)", setup_ready, post_ready),
    Contract("release of all", re.escape(L) + r"unsubscribe\(\)", setup_unsub_all, post_unsub_all, loops=[Loop(r"lifetime_plugin_t::unsubscribe\(\)", inv_unsub_all)],
             hooks=[(UNSUB1[0], h_unsub_mark), DEACT, (r"^std::__cxx11::list<.*>::erase\(", h_erase_plugin)],
             cover=[("done", lambda x, s, r: len(evs(s, "deactivate")) == 1), ("waits", lambda x, s, r: zi(points(x, s).len()) > 0)]),
    Contract("lifetime handle_unsubscription", re.escape(L) + r"handle_unsubscription\(.*\)", setup_l_unsubscription, post_l_unsubscription, hooks=[BASE, FORGET, DEACT],
             cover=[("foreign", lambda x, s, r: len(sent(x, s)) == 1), ("last", lambda x, s, r: len(evs(s, "deactivate")) == 1)]),
]


# ================================================================ every plugin's own subscriptions
def setup_p(x, alive=True):
    p = plugin(x, "plugin", "@_ZTVN5rotor6plugin13plugin_base_tE")
    a, sup = actor(x)
    lt = x.ptr("lifetime", "plugin")
    x.assume(lt != p)
    x.wr(x.st, p, PB + "actor", a)
    x.wr(x.st, a, A + "lifetime", lt)
    x.g.update(this=p, actor=a, sup=sup, lifetime=lt, state=x.rdb(x.st, a, A + "state"))
    x.args = [p]


def setup_p_deact(x):
    setup_p(x)
    x.wr(x.st, x.g["this"], PB + "actor", maybe(x, "actor_or_null", "actor"))
    a = x.rdb(x.st, x.g["this"], PB + "actor")
    x.assume(z3.Or(a == 0, a == x.g["actor"]))
    x.g["maybe_actor"] = a
    sane_infos(x, x.st, own(x, x.st))
    Ghost(x, "asked")


def inv_own(lst):
    def inv(eng, st, ctx):
        x = eng.x
        s = lst(x, x.pre)
        k, facts = progress(eng, st, ctx, s.len())
        for i, f in enumerate(facts):
            yield "progress %d" % i, f
        if k is None:
            return
        n = zi(s.len())
        asked = lambda a: x.g["asked"].get(x, st, val(x, st, a.addr)) == 1
        its = loop_iters(st, ctx)
        back = any(eng.must(ctx.entry, zi(ctx.entry.cells[(m[1], m[2])][1].idx) == n) for m in ctx.mods
                   if m[0] == "c" and isinstance(ctx.entry.cells.get((m[1], m[2]), (0, 0))[1], Iter)
                   and isinstance(st.cells.get((m[1], m[2]), (0, 0))[1], Iter)) and not eng.must(ctx.entry, n == 0)
        yield "what was passed has been asked to be released", frm(s, n - k, asked) if back else upto(s, k, asked)
    return inv


def h_unsub_any(eng, st, cc):
    x = eng.x
    eng.oblige(st, "the actor's record of subscriptions is used", bv(cc.args[0]) == x.g["lifetime"])
    i = bv(x.load(st, cc.args[1], 8))
    eng.setkind(st, i, "subinfo")
    x.g["asked"].set(x, st, i, z3.BitVecVal(1, 64))
    return [(st, None)]


def post_p_deact(x, st, ret):
    a = x.g["maybe_actor"]
    s = own(x, x.pre)
    cs = evs(st, "plugin done")
    gone = z3.And(a != 0, zi(s.len()) == 0)
    yield "it is done exactly when it is active and no subscription of it is left", iff(len(cs), gone)
    for e in cs:
        yield "the actor is told about this plugin", z3.And(bv(e[1]) == x.g["actor"], bv(e[2]) == x.g["this"])
    yield "a plugin that is done has no actor", z3.Implies(gone, z3.And(x.rdb(st, x.g["this"], PB + "actor") == 0, x.rdb(st, x.g["this"], PB + "reaction") == 0))
    yield "otherwise it stays active", z3.Implies(z3.Not(gone), same(x, st, x.g["this"], PB + "actor", PB + "reaction"))
    yield "otherwise the release of everything it subscribed has been requested", z3.Implies(a != 0, s.forall(lambda e: x.g["asked"].get(x, st, val(x, st, e)) == 1))


DONE = (r"^rotor::actor_base_t::commit_plugin_deactivation\(", h_ev("plugin done", nargs=2))
CONT = (r"^(virtual )?rotor::actor_base_t::shutdown_continue\(", h_ev("shutdown_continue"))
COMMIT = (r"^(virtual )?rotor::supervisor_t::commit_unsubscription\(", h_ev("commit", nargs=2))


def setup_forget_info(x):
    setup_p(x)
    x.args += [cell(x, info(x))]


def post_forget_info(x, st, ret):
    cs = evs(st, "commit")
    yield "removed from the index once", len(cs) == 1
    for e in cs:
        yield "of the actor's supervisor", bv(e[1]) == x.g["sup"]
        yield "that subscription", bv(x.load(e[-1], e[2], 8)) == x.g["info"]


def setup_forget_point(x):
    setup_p(x)
    s = own(x, x.st)
    sane_infos(x, x.st, s)
    x.assume(s.forall(lambda e: x.rdb(x.st, val(x, x.st, e), SI + "owner_tag") == tag(x, "PLUGIN")))
    p = point(x)
    x.args += [p]


def post_forget_point(x, st, ret):
    s0, s1 = own(x, x.pre), own(x, st)
    fs, cs, sc = evs(st, "forget"), evs(st, "plugin done"), evs(st, "shutdown_continue")
    had = s0.exists(lambda e: matches(x, x.pre, e))
    yield "taken exactly when the plugin holds it", tobool(ret) == had
    yield "removed from the index once", iff(len(fs), had)
    for e in fs:
        i = bv(x.load(e[-1], e[2], 8))
        x.eng.setkind(st, i, "subinfo")
        yield "the held one is dropped", removed_one(x, s0, x.pre, s1, st, lambda q: z3.And(val(x, x.pre, q) == i, matches(x, x.pre, q)))
    if not fs:
        yield "nothing is dropped", s0 is s1
    last = z3.And(had, zi(s1.len()) == 0)
    yield "the plugin is done exactly with its last subscription", iff(len(cs), last)
    yield "then shutdown goes on", iff(len(sc), z3.And(last, x.g["state"] == x.lay["state_t::SHUTTING_DOWN"]))
    for e in cs:
        yield "the actor is told about this plugin", z3.And(bv(e[1]) == x.g["actor"], bv(e[2]) == x.g["this"])
    for e in sc:
        yield "this actor's", bv(e[1]) == x.g["actor"]
        yield "after the plugin is accounted as done", z3.BoolVal(bool(cs) and st.events.index(e) > st.events.index(cs[0]))
    yield "a plugin that is done has no actor", (x.rdb(st, x.g["this"], PB + "actor") == 0) == last


def setup_p_unsub(x):
    setup_p(x)
    p = point(x)
    ext = x.eng.sym0("external", z3.BoolSort())
    x.g["external"] = ext
    x.args += [p, ext]


def h_forget_point(eng, st, cc):
    """forget_subscription(point) by its contract"""
    x = eng.x
    r = eng.sym("held", z3.BoolSort())
    st.events.append(("forget point", cc.args[0], cc.args[1], r, st.copy()))
    last = eng.sym("last_one", z3.BoolSort())
    st.assume(z3.Implies(last, r))
    x.wr(st, cc.args[0], PB + "actor", z3.If(last, z3.BitVecVal(0, 64), x.rdb(st, cc.args[0], PB + "actor")))
    return [(st, r)]


FORGETP = (r"^rotor::plugin::plugin_base_t::forget_subscription\(rotor::subscription_point_t const&\)", h_forget_point)


def post_p_unsub(x, st, ret):
    fs, ms = evs(st, "forget point"), sent(x, st)
    yield "dropped once", len(fs) == 1
    for e in fs:
        yield "that point, of this plugin", z3.And(bv(e[1]) == x.g["this"], bv(e[2]) == x.g["point"])
        yield "consumed exactly when the plugin held it", tobool(ret) == tobool(e[3])
        yield "a foreign locality is told exactly when it held one there", iff(len(ms), z3.And(tobool(e[3]), x.g["external"]))
    yield from commit_msg(x, ms)


def commit_msg(x, ms):
    for m in ms:
        yield "it is a commit", m.is_("commit_unsubscription")
        yield "to the supervisor of the address", m.dst == x.rdb(x.pre, x.g["psup"], A + "address")
        yield "queued at the own supervisor", bv(m.sup) == x.g["sup"]
        if m.is_("commit_unsubscription"):
            yield from carries(x, m, "commit_unsubscription", x.g["point"], SP, x.pre)


CONTRACTS += [
    Contract("plugin deactivate", re.escape(PBN) + r"deactivate\(\)", setup_p_deact, post_p_deact, loops=[Loop(r"plugin_base_t::deactivate\(\)", inv_own(own))],
             hooks=[DONE, (UNSUB1[0], h_unsub_any)], cover=[("done", lambda x, s, r: len(evs(s, "plugin done")) == 1)]),
    Contract("forget a subscription", re.escape(PBN) + r"forget_subscription\(boost::intrusive_ptr<rotor::subscription_info_t> const&\)", setup_forget_info, post_forget_info, hooks=[COMMIT]),
    Contract("forget a point", re.escape(PBN) + r"forget_subscription\(rotor::subscription_point_t const&\)", setup_forget_point, post_forget_point, hooks=[FORGET, DONE, CONT],
             cover=[("last", lambda x, s, r: len(evs(s, "shutdown_continue")) == 1), ("other", lambda x, s, r: z3.Not(tobool(r)))]),
    Contract("plugin handle_unsubscription", re.escape(PBN) + r"handle_unsubscription\(.*\)", setup_p_unsub, post_p_unsub, hooks=[FORGETP],
             cover=[("foreign", lambda x, s, r: len(sent(x, s)) == 1)]),
]


# ================================================================ subscriptions of other localities
FS = "foreigners_support_plugin_t."


def setup_f(x):
    p = plugin(x, "foreigners", "@_ZTVN5rotor6plugin27foreigners_support_plugin_tE")
    sup = x.ptr("supervisor", "actor")
    x.assume(z3.ULE(x.rdb(x.st, sup, A + "state"), 6))
    lt = x.ptr("lifetime", "plugin")
    x.assume(lt != p)
    x.wr(x.st, p, PB + "actor", sup)
    x.wr(x.st, sup, A + "lifetime", lt)
    x.g.update(this=p, sup=sup, lifetime=lt, state=x.rdb(x.st, sup, A + "state"))
    x.args = [p]


def foreign(x, st, p=None):
    return seq_at(x, st, x.g["this"] if p is None else p, x.foff(FS + "foreign_points"))


def msg_arg(x, name="message"):
    m = x.ptr(name, "message")
    x.args.append(m)
    x.g["msg"] = m
    return m


def setup_call(x):
    setup_f(x)
    m = msg_arg(x)
    h, om, c = x.ptr("handler", "handler"), x.ptr("orig_message", "message"), x.ptr("child", "actor")
    oa = x.ptr("orig_address", "address")
    x.wr(x.st, m, "message::handler_call_t.payload.handler", h)
    x.wr(x.st, m, "message::handler_call_t.payload.orig_message", om)
    x.wr(x.st, om, "message_base_t.address", oa)
    x.wr(x.st, h, "handler_base_t.actor_ptr", c)
    cl = maybe(x, "child_lifetime", "plugin2")
    x.wr(x.st, c, A + "lifetime", cl)
    x.assume(z3.ULE(x.rdb(x.st, c, A + "state"), 6))
    s = points(x, x.st, cl)
    sane_infos(x, x.st, s)
    x.g.update(h=h, a=oa, om=om, child=c, cl=cl)


def post_call(x, st, ret):
    cs = evs(st, "call")
    alive = x.map(x.pre, x.g["sup"], S + "alive_actors")
    s = points(x, x.pre, x.g["cl"])
    live = z3.And(alive.has(x.g["child"]), z3.ULT(x.rdb(x.pre, x.g["child"], A + "state"), x.lay["state_t::SHUT_DOWN"]), x.g["cl"] != 0)
    yield "delivered exactly if the actor lives here, is not shut down and still holds the subscription", iff(
        len(cs), z3.And(live, s.exists(lambda e: matches(x, x.pre, e))))
    for e in cs:
        yield "that handler", bv(e[1]) == x.g["h"]
        yield "with the original message", bv(x.load(e[-1], e[2], 8)) == x.g["om"]
    yield "nothing else happens", len(st.events) == len(cs)


def setup_ext_sub(x):
    setup_f(x)
    m = msg_arg(x)
    o = x.foff("message::external_subscription_t.payload.point")
    ad = x.ptr("address", "address")
    x.eng.store(x.st, addoff(m, o + x.foff(SP + "address")), 8, ad)
    x.eng.store(x.st, addoff(ad, x.foff("address_t.supervisor")), 8, x.g["sup"])
    x.g["a"] = ad


def h_subscribe_info(eng, st, cc):
    """supervisor_t::subscribe by its contract"""
    x = eng.x
    out, sup, h, a, own_, tg = cc.args[:6]
    i = eng.fresh_obj(st)
    eng.store(st, out, 8, i)
    st.events.append(("subscribe", sup, x.load(st, h, 8), x.load(st, a, 8), own_, tg, i, st.copy()))
    return [(st, None)]


SUBSCRIBE = (r"^rotor::supervisor_t::subscribe\(", h_subscribe_info)


def post_ext_sub(x, st, ret):
    es = evs(st, "subscribe")
    yield "subscribed once", len(es) == 1
    o = x.foff("message::external_subscription_t.payload.point")
    src = lambda f: x.load(x.pre, addoff(x.g["msg"], o + x.lay[SP + f][0]), 8)
    for e in es:
        yield "in this supervisor's locality", bv(e[1]) == x.g["sup"]
        yield "for the foreign handler", bv(e[2]) == bv(src("handler"))
        yield "on the own address", bv(e[3]) == x.g["a"]
        yield "on behalf of the same actor", bv(e[4]) == bv(src("owner_ptr"))
        yield "held for another locality", bv(e[5], 32) == tag(x, "FOREIGN")
        yield "it is recorded behind the others", appended(x, foreign(x, x.pre), x.pre, foreign(x, st), st, bv(e[6]))


def setup_f_unsub(x):
    setup_f(x)
    m = msg_arg(x)
    o = x.foff("message::commit_unsubscription_t.payload.point")
    h, a = x.ptr("handler", "handler"), x.ptr("address", "address")
    x.eng.store(x.st, addoff(m, o + x.foff(SP + "handler")), 8, h)
    x.eng.store(x.st, addoff(m, o + x.foff(SP + "address")), 8, a)
    x.g.update(h=h, a=a)
    s = foreign(x, x.st)
    sane_infos(x, x.st, s)
    x.assume(s.exists(lambda e: matches(x, x.st, e)))


def post_f_unsub(x, st, ret):
    cs, de = evs(st, "commit"), evs(st, "deactivate")
    s0, s1 = foreign(x, x.pre), foreign(x, st)
    yield "removed from the index once", len(cs) == 1
    for e in cs:
        i = bv(x.load(e[-1], e[2], 8))
        x.eng.setkind(st, i, "subinfo")
        yield "of this supervisor", bv(e[1]) == x.g["sup"]
        yield "the one that was released is dropped", removed_one(x, s0, x.pre, s1, st, lambda q: z3.And(val(x, x.pre, q) == i, matches(x, x.pre, q)))
    yield "the plugin is done exactly when nothing foreign is left at shutdown", iff(len(de), z3.And(zi(s1.len()) == 0, x.g["state"] == x.lay["state_t::SHUTTING_DOWN"]))


def setup_f_deact(x):
    setup_f(x)
    sane_infos(x, x.st, foreign(x, x.st))
    Ghost(x, "asked")


def post_f_deact(x, st, ret):
    s = foreign(x, x.pre)
    yield "the release of every foreign subscription has been requested", s.forall(lambda e: x.g["asked"].get(x, st, val(x, st, e)) == 1)
    de = evs(st, "deactivate")
    yield "then it deactivates like every plugin", len(de) == 1 and bv(de[0][1]) == x.g["this"]


F = "rotor::plugin::foreigners_support_plugin_t::"
CONTRACTS += [
    Contract("on_call", re.escape(F) + r"on_call\(.*\)", setup_call, post_call, hooks=[(r"^virtual .*::call\(|^virtual .*handler_base_t#", h_ev("call", nargs=2))],
             cover=[("delivered", lambda x, s, r: len(evs(s, "call")) == 1), ("not", lambda x, s, r: len(evs(s, "call")) == 0)]),
    Contract("on_subscription_external", re.escape(F) + r"on_subscription_external\(.*\)", setup_ext_sub, post_ext_sub, hooks=[SUBSCRIBE]),
    Contract("foreigners on_unsubscription", re.escape(F) + r"on_unsubscription\(.*\)", setup_f_unsub, post_f_unsub, hooks=[COMMIT, DEACT],
             cover=[("done", lambda x, s, r: len(evs(s, "deactivate")) == 1), ("more", lambda x, s, r: len(evs(s, "deactivate")) == 0)]),
    Contract("foreigners deactivate", re.escape(F) + r"deactivate\(\)", setup_f_deact, post_f_deact, loops=[Loop(r"foreigners_support_plugin_t::deactivate\(\)", inv_own(foreign))],
             hooks=[(UNSUB1[0], h_unsub_any), DEACT]),
]


# ================================================================ the supervisor's part
def setup_sup(x):
    sup = x.ptr("this", "actor")
    lead = x.ptr("leader", "actor")
    x.wr(x.st, sup, S + "locality_leader", lead)
    x.wr(x.st, sup, A + "supervisor", sup)  # a supervisor is its own supervisor
    x.g.update(sup=sup, lead=lead)
    x.args = [sup]


def setup_subscribe(x):
    setup_sup(x)
    h, a = x.ptr("handler", "handler"), x.ptr("address", "address")
    act, aa, asup = x.ptr("actor", "actor"), x.ptr("actor_address", "address"), x.ptr("address_supervisor", "actor")
    lt = x.ptr("lifetime", "plugin")
    sa = x.ptr("supervisor_address", "address")
    x.wr(x.st, h, "handler_base_t.actor_ptr", act)
    x.assume(x.rdb(x.st, act, A + "address") == aa)
    x.assume(x.rdb(x.st, act, A + "lifetime") == lt)
    x.eng.store(x.st, addoff(a, x.foff("address_t.supervisor")), 8, asup)
    x.assume(x.rdb(x.st, asup, A + "address") == sa)
    own_, tg = x.ptr("owner", "actor"), x.sym("owner_tag", 32)
    x.assume(z3.ULE(tg, 3))
    x.g.update(h=h, a=a, aa=aa, sa=sa, lt=lt, owner=own_, tag=tg)
    out = x.eng.new_region("alloca")
    x.g["out"] = out
    x.args = [out, x.g["sup"], cell(x, h), cell(x, a), own_, tg]


def h_materialize(eng, st, cc):
    """subscription_t::materialize by its contract (c_subscription)"""
    x = eng.x
    out, idx, p = cc.args[:3]
    i = eng.fresh_obj(st)
    eng.setkind(st, i, "subinfo")
    for f in PT:
        o, n = x.lay[SP + f]
        x.wr(st, i, SI + f, x.load(st, addoff(p, o), n))
    ia, ih = eng.sym("address_is_own", z3.BoolSort()), eng.sym("handler_is_own", z3.BoolSort())
    x.wr(st, i, SI + "internal_address", bv(ia, 8))
    x.wr(st, i, SI + "internal_handler", bv(ih, 8))
    x.wr(st, i, SI + "state", z3.If(ia, z3.BitVecVal(x.lay["subinfo::ESTABLISHED"], 32), z3.BitVecVal(x.lay["subinfo::SUBSCRIBING"], 32)))
    eng.store(st, out, 8, i)
    st.events.append(("materialize", idx, i, ia, ih, st.copy()))
    return [(st, None)]


def post_subscribe(x, st, ret):
    ms, es, li = sent(x, st), evs(st, "materialize"), evs(st, "recorded")
    yield "one subscription is made", len(es) == 1
    for e in es:
        i, ia, ih, at = e[2], e[3], e[4], e[-1]
        yield "in the index of the whole locality", bv(e[1]) == bv(addoff(x.g["lead"], x.foff(S + "subscription_map")))
        want = {"handler": x.g["h"], "address": x.g["a"], "owner_ptr": x.g["owner"], "owner_tag": x.g["tag"]}
        for f in PT:
            yield "as asked (%s)" % f, x.rdb(at, i, SI + f) == want[f]
        yield "it is returned", bv(x.load(st, x.g["out"], 8)) == bv(i)
        yield "one message", len(ms) == 1
        for m in ms:
            kind = "subscription" if m.is_("subscription") else "external_subscription"
            yield "confirmed at once for an own address, requested from the locality of a foreign one", z3.And(
                m.is_(kind), ia == z3.BoolVal(kind == "subscription"))
            yield "to whom it concerns", m.dst == (x.g["aa"] if kind == "subscription" else x.g["sa"])
            yield "queued here", bv(m.sup) == x.g["sup"]
            yield from carries(x, m, kind, i, SI, at)
        yield "recorded with the subscribing actor exactly if it lives here", iff(len(li), ih)
        for r in li:
            yield "that subscription, there", z3.And(bv(r[1]) == x.g["lt"], bv(x.load(r[-1], r[2], 8)) == bv(i))


def setup_commit(x):
    setup_sup(x)
    x.args += [cell(x, info(x))]


def post_commit(x, st, ret):
    es = evs(st, "index forget")
    yield "the index forgets it once", len(es) == 1
    for e in es:
        yield "the index of the whole locality", bv(e[1]) == bv(addoff(x.g["lead"], x.foff(S + "subscription_map")))
        v = e[2]
        yield "that subscription", bv(x.load(e[-1], v, 8)) == x.g["info"]


CONTRACTS += [
    Contract("supervisor subscribe", r"rotor::supervisor_t::subscribe\(.*\)", setup_subscribe, post_subscribe,
             hooks=[(r"^rotor::subscription_t::materialize\(", h_materialize), (r"^(virtual )?rotor::plugin::lifetime_plugin_t::initate_subscription\(|^virtual .*lifetime_plugin_t#", h_ev("recorded", nargs=2))],
             cover=[("own", lambda x, s, r: sent(x, s, "subscription") != []), ("foreign", lambda x, s, r: sent(x, s, "external_subscription") != [])]),
    Contract("supervisor commit_unsubscription", r"rotor::supervisor_t::commit_unsubscription\(.*\)", setup_commit, post_commit,
             hooks=[(r"^rotor::subscription_t::forget\(", h_ev("index forget", nargs=2))]),
]


# ================================================================ confirmations reach the plugins
def setup_on(what):
    def f(x):
        a = actor_obj(x)
        x.g.update(actor=a, state=x.rdb(x.st, a, A + "state"))
        x.args = [a]
        msg_arg(x)
        s = plugins(x, x.st)
        x.g["n"] = s.len()
        x.assume(s.forall(lambda q: z3.UGT(bv(x.load(x.st, q, 8)), z3.BitVecVal(1 << 16, 64))))
        Ghost(x, "told")
    return f


def plugins(x, st):
    return x.elem_kind(stl.seq_get(x.eng, st, x.eng.ckey(st, addoff(x.g["actor"], x.foff(A + "plugins")))), "plugin")


def reacts(x, st, p, what):
    return (x.rdb(st, p, PB + "reaction") & x.lay["reaction_t::" + what]) != 0


def h_tell(eng, st, cc):
    """handle_subscription of a plugin: any answer; its own reactions may change"""
    x = eng.x
    p = bv(cc.args[0])
    eng.oblige(st, "only a plugin that waits for confirmations is told", reacts(x, st, p, "SUBSCRIPTION"))
    eng.oblige(st, "it is told of this confirmation", bv(cc.args[1]) == x.g["msg"])
    x.g["told"].set(x, st, p, x.g["told"].get(x, st, p) + 1)
    r = eng.sym("consumed", z3.BoolSort())
    st.events.append(("told", p, r, st.copy()))
    return [(st, r)]


def inv_on_sub(eng, st, ctx):
    x = eng.x
    k, facts = progress(eng, st, ctx, x.g["n"])
    for i, f in enumerate(facts):
        yield "progress %d" % i, f
    if k is None:
        return
    n = zi(x.g["n"])
    s = plugins(x, x.pre)
    f = lambda a: x.g["told"].get(x, st, pl(x, a.addr)) == z3.If(reacts(x, x.pre, pl(x, a.addr), "SUBSCRIPTION"), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    yield "the plugins passed have been told", frm(s, n - k, f)
    untold = lambda a: z3.And(x.g["told"].get(x, st, pl(x, a.addr)) == 0,
                              x.rdb(st, pl(x, a.addr), PB + "reaction") == x.rdb(x.pre, pl(x, a.addr), PB + "reaction"))
    yield "the others have not", upto(s, n - k, untold)


def pl(x, e):
    v = bv(x.load(x.pre, e, 8))
    x.eng.setkind(x.st, v, "plugin")
    return v


def setup_on_sub(x):
    setup_on("SUBSCRIPTION")(x)
    # plugins of an actor are distinct (each is activated once)
    s = plugins(x, x.st)
    inv = z3.Function("position_of_plugin", BV64, BV64)
    x.assume(s.forall(lambda e: z3.BoolVal(True)))
    j = z3.FreshConst(BV64, "dj")
    e = s.get(j)
    x.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(s.len())), inv(bv(x.load(x.st, e, 8))) == j), patterns=[e]))


def post_on_sub(x, st, ret):
    s = plugins(x, x.pre)
    yield "every plugin that waits for confirmations has been told exactly once", s.forall(lambda e: z3.If(
        reacts(x, x.pre, pl(x, e), "SUBSCRIPTION"), x.g["told"].get(x, st, pl(x, e)) == 1, x.g["told"].get(x, st, pl(x, e)) == 0))


def h_offer(external):
    def h(eng, st, cc):
        x = eng.x
        eng.oblige(st, "the released point is offered", bv(cc.args[1]) == bv(addoff(x.g["msg"], x.foff("message::%s.payload.point" % ("unsubscription_external_t" if external else "unsubscription_t")))))
        eng.oblige(st, "as released from a foreign locality or not", tobool(cc.args[2]) == z3.BoolVal(external))
        eng.oblige(st, "nobody took it before", z3.And([z3.Not(tobool(e[2])) for e in evs(st, "offered")] or [z3.BoolVal(True)]))
        p = bv(cc.args[0])
        x.g["told"].set(x, st, p, z3.BitVecVal(1, 64))
        r = eng.sym("taken", z3.BoolSort())
        st.events.append(("offered", p, r, st.copy()))
        return [(st, r)]
    return h


def inv_offer(eng, st, ctx):
    x = eng.x
    k, facts = progress(eng, st, ctx, x.g["n"])
    for i, f in enumerate(facts):
        yield "progress %d" % i, f
    if k is None:
        return
    s = plugins(x, x.pre)
    yield "it was offered to the plugins passed", frm(s, zi(x.g["n"]) - k, lambda a: x.g["told"].get(x, st, pl(x, a.addr)) == 1)
    yield "none of them took it", z3.And([z3.Not(tobool(e[2])) for e in evs(st, "offered")] or [z3.BoolVal(True)])


def post_offer(x, st, ret):
    os_ = evs(st, "offered")
    s = plugins(x, x.pre)
    taken = z3.Or([tobool(e[2]) for e in os_] or [z3.BoolVal(False)])
    yield "offered to every plugin until one takes it", z3.Or(taken, s.forall(lambda e: x.g["told"].get(x, st, pl(x, e)) == 1))


# ---------------------------------------------------------------- the starter
ST = "starter_plugin_t."


def tracked(x, st):
    return seq_at(x, st, x.g["this"], x.foff(ST + "tracked"))


def setup_st(x):
    p = plugin(x, "starter", "@_ZTVN5rotor6plugin16starter_plugin_tE")
    a, sup = actor(x)
    x.wr(x.st, p, PB + "actor", a)
    x.assume(z3.ULE(x.rdb(x.st, p, ST + "configured"), 1))
    x.g.update(this=p, actor=a, sup=sup, state=x.rdb(x.st, a, A + "state"), conf=x.rdb(x.st, p, ST + "configured") == 1)
    x.args = [p]
    sane_infos(x, x.st, tracked(x, x.st))


def setup_st_sub(x):
    setup_st(x)
    m = msg_arg(x)
    o = x.foff("message::subscription_t.payload.point")
    h, a = x.ptr("handler", "handler"), x.ptr("address", "address")
    x.eng.store(x.st, addoff(m, o + x.foff(SP + "handler")), 8, h)
    x.eng.store(x.st, addoff(m, o + x.foff(SP + "address")), 8, a)
    x.g.update(h=h, a=a)


def post_st_sub(x, st, ret):
    s0, s1 = tracked(x, x.pre), tracked(x, st)
    had = s0.exists(lambda e: matches(x, x.pre, e))
    ic = evs(st, "init_continue")
    yield "a confirmed subscription is not waited for any more", z3.If(
        had, removed_one(x, s0, x.pre, s1, st, lambda q: matches(x, x.pre, q)), z3.BoolVal(s0 is s1) if s0 is s1 else seq_same(x, s0, x.pre, s1, st))
    done = z3.And(x.g["conf"], zi(s1.len()) == 0, x.g["state"] == x.lay["state_t::INITIALIZING"])
    yield "initialization goes on exactly when all are confirmed", iff(len(ic), done)
    for e in ic:
        yield "of this actor", bv(e[1]) == x.g["actor"]
    yield "consumed exactly then", tobool(ret) == done


def setup_st_init(x):
    setup_st(x)
    m = maybe(x, "message", "message")
    x.args += [m]
    x.g["msg"] = m


def h_st_configure(eng, st, cc):
    """the actor's configure: any subscriptions may have been added (or confirmed)"""
    x = eng.x
    st.events.append(("configure", cc.args[0], cc.args[1], st.copy()))
    ck = eng.ckey(st, addoff(x.g["this"], x.foff(ST + "tracked")))
    s = stl.SeqInit(eng, "tracked_after", gen=eng.region_ctr)
    stl.seq_set(eng, st, ck, s)
    s.on_first(eng, st, ck)
    return [(st, None)]


def post_st_init(x, st, ret):
    es = evs(st, "configure")
    s1 = tracked(x, st)
    yield "configured once", iff(len(es), z3.Not(x.g["conf"]))
    yield "and not again", x.rdb(st, x.g["this"], ST + "configured") == 1
    for e in es:
        yield "by its actor, for this plugin", z3.And(bv(e[1]) == x.g["actor"], bv(e[2]) == x.g["this"])
        yield "it is marked before", x.rdb(e[-1], x.g["this"], ST + "configured") == 1
        for w in ("INIT", "SUBSCRIPTION"):
            yield "it stops listening only when nothing is waited for (%s)" % w, reacts(x, st, x.g["this"], w) == z3.And(
                reacts(x, e[-1], x.g["this"], w), zi(s1.len()) > 0)
    yield "ready exactly when every subscription is confirmed", tobool(ret) == z3.And(zi(s1.len()) == 0, x.g["msg"] != 0)


def setup_st_deact(x):
    setup_st(x)


def post_st_deact(x, st, ret):
    de = evs(st, "deactivate")
    yield "it deactivates like every plugin", len(de) == 1 and bv(de[0][1]) == x.g["this"]
    yield "nothing is waited for any more", zi(tracked(x, st).len()) == 0


ST_ = "rotor::plugin::starter_plugin_t::"
IC = (r"^(virtual )?rotor::actor_base_t::init_continue\(", h_ev("init_continue"))
AB = "rotor::actor_base_t::"
CONTRACTS += [
    Contract("actor on_subscription", re.escape(AB) + r"on_subscription\(.*\)", setup_on_sub, post_on_sub, loops=[Loop(r"on_subscription\(", inv_on_sub)],
             hooks=[(r"^virtual .*::handle_subscription\(", h_tell)]),
    Contract("actor on_unsubscription", re.escape(AB) + r"on_unsubscription\(.*\)", setup_on("x"), post_offer, loops=[Loop(r"poll|on_unsubscription", inv_offer)],
             hooks=[(r"^virtual .*::handle_unsubscription\(", h_offer(False))]),
    Contract("actor on_unsubscription_external", re.escape(AB) + r"on_unsubscription_external\(.*\)", setup_on("x"), post_offer, loops=[Loop(r"poll|on_unsubscription", inv_offer)],
             hooks=[(r"^virtual .*::handle_unsubscription\(", h_offer(True))]),
    Contract("starter handle_subscription", re.escape(ST_) + r"handle_subscription\(.*\)", setup_st_sub, post_st_sub, hooks=[IC],
             cover=[("goes on", lambda x, s, r: len(evs(s, "init_continue")) == 1), ("waits", lambda x, s, r: zi(tracked(x, s).len()) > 0)]),
    Contract("starter handle_init", re.escape(ST_) + r"handle_init\(.*\)", setup_st_init, post_st_init, hooks=[(r"^virtual .*::configure\(", h_st_configure)],
             cover=[("first", lambda x, s, r: len(evs(s, "configure")) == 1), ("later", lambda x, s, r: len(evs(s, "configure")) == 0)]),
    Contract("starter deactivate", re.escape(ST_) + r"deactivate\(\)", setup_st_deact, post_st_deact, hooks=[DEACT]),
]
