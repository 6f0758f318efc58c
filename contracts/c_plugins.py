"""Plugins of an actor: activation, deactivation, start; the requests that move the life cycle."""
import c_lifetime as cl
from c_lifetime import *

TUS = ["src/rotor/actor_base.cpp", "src/rotor/plugin/init_shutdown.cpp", "src/rotor/plugin/starter.cpp", "src/rotor/plugin/plugin_base.cpp",
       "src/rotor/supervisor.cpp", "src/rotor/handler.cpp"]
IDENT = z3.Function("identity_of_plugin", BV64, BV64)


def h_ident(eng, st, cc):
    """identity(): the one identity object of the plugin's class"""
    r = IDENT(bv(cc.args[0]))
    st.facts.append(z3.And(z3.UGT(r, z3.BitVecVal(1 << 16, 64)), z3.ULT(r, z3.BitVecVal(1 << 60, 64))))
    eng.setkind(st, r, "identity")
    return [(st, r)]


def h_teq(eng, st, cc):
    """std::type_index: identities of different classes differ, and there is one identity object per class"""
    return [(st, bv(cc.args[0]) == bv(cc.args[1]))]


IDENTS = [(r"^virtual .*::identity\(\) const", h_ident), (r"^std::type_index::operator==\(", h_teq)]


# ================================================================ activation
def setup_act(x):
    cl.setup_on("x")(x)
    x.args = [x.g["actor"]]
    n_distinct(x)


def n_distinct(x):
    s = plugins(x, x.st)
    inv = z3.Function("position_of_plugin", BV64, BV64)
    j = z3.FreshConst(BV64, "dj")
    e = s.get(j)
    x.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(s.len())), inv(bv(x.load(x.st, e, 8))) == j), patterns=[e]))


def h_activate(eng, st, cc):
    x = eng.x
    p = bv(cc.args[0])
    eng.oblige(st, "a plugin is activated for this actor", bv(cc.args[1]) == x.g["actor"])
    x.g["told"].set(x, st, p, x.g["told"].get(x, st, p) + 1)
    return [(st, None)]


def inv_each(rev, todo, extra=None):
    """todo(x, st, plugin): how often a plugin that was passed has been told"""
    def inv(eng, st, ctx):
        x = eng.x
        k, facts = progress(eng, st, ctx, x.g["n"])
        for i, f in enumerate(facts):
            yield "progress %d" % i, f
        if k is None:
            return
        n = zi(x.g["n"])
        s = plugins(x, x.pre)
        done = lambda a: z3.And(x.g["told"].get(x, st, pl(x, a.addr)) == todo(x, pl(x, a.addr)), extra(x, st, pl(x, a.addr)) if extra else True)
        kept = lambda a: z3.And(x.g["told"].get(x, st, pl(x, a.addr)) == 0, *[
            x.rdb(st, pl(x, a.addr), PB + f) == x.rdb(x.pre, pl(x, a.addr), PB + f) for f in ("reaction", "actor")])
        if rev:
            yield "the plugins passed have been told", frm(s, n - k, done)
            yield "the others have not", upto(s, n - k, kept)
        else:
            yield "the plugins passed have been told", upto(s, k, done)
            yield "the others have not", frm(s, k, kept)
    return inv


ONE, ZERO = z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)


def post_act(x, st, ret):
    s = plugins(x, x.pre)
    yield "every plugin is activated once", s.forall(lambda e: x.g["told"].get(x, st, pl(x, e)) == 1)


# ================================================================ deactivation
def was_active(x, p):
    return z3.If(x.rdb(x.pre, p, PB + "actor") != 0, ONE, ZERO)


def h_deactivate(eng, st, cc):
    """deactivate() of a plugin: it may be done at once or later; other plugins keep their state"""
    x = eng.x
    p = bv(cc.args[0])
    m = x.map(st, x.g["actor"], A + "deactivating_plugins")
    eng.oblige(st, "it is accounted as deactivating before", m.has(IDENT(p)))
    x.g["told"].set(x, st, p, x.g["told"].get(x, st, p) + 1)
    x.wr(st, p, PB + "actor", eng.sym("actor_after"))
    return [(st, None)]


def post_deact(x, st, ret):
    s = plugins(x, x.pre)
    yield "exactly the active plugins are deactivated, once", s.forall(lambda e: x.g["told"].get(x, st, pl(x, e)) == was_active(x, pl(x, e)))


# ---------------------------------------------------------------- commit
def setup_commit_plugin(x):
    a = actor_obj(x)
    p = x.ptr("plugin", "plugin")
    x.g.update(actor=a, plugin=p, state=x.rdb(x.st, a, A + "state"))
    x.args = [a, p]
    i = IDENT(p)
    x.assume(z3.And(z3.UGT(i, z3.BitVecVal(1 << 16, 64)), z3.ULT(i, z3.BitVecVal(1 << 60, 64))))


def idset(x, st, f):
    return x.map(st, x.g["actor"], A + f)


def post_commit_deact(x, st, ret):
    m0, m1 = idset(x, x.pre, "deactivating_plugins"), idset(x, st, "deactivating_plugins")
    yield "the plugin is done", z3.Not(m1.has(IDENT(x.g["plugin"])))
    yield "the others are kept", only_changed(m0, m1, IDENT(x.g["plugin"]))


def setup_commit_act(x):
    setup_commit_plugin(x)
    ok = x.eng.sym0("success", z3.BoolSort())
    x.g["ok"] = ok
    x.args.append(ok)
    m = idset(x, x.st, "activating_plugins")
    x.assume(z3.Implies(ok, m.has(IDENT(x.g["plugin"]))))


def post_commit_act(x, st, ret):
    m0, m1 = idset(x, x.pre, "activating_plugins"), idset(x, st, "activating_plugins")
    de = evs(st, "deactivate plugins")
    yield "a failure deactivates all plugins", iff(len(de), z3.Not(x.g["ok"]))
    yield "the plugin is active", z3.Implies(x.g["ok"], z3.Not(m1.has(IDENT(x.g["plugin"]))))
    yield "the others are kept", only_changed(m0, m1, IDENT(x.g["plugin"]))


# ================================================================ start
def setup_start(x):
    p = plugin(x, "starter", "@_ZTVN5rotor6plugin16starter_plugin_tE")
    a = actor_obj(x)
    x.wr(x.st, p, PB + "actor", a)
    m = x.ptr("message", "message")
    x.g.update(this=p, actor=a, state=x.rdb(x.st, a, A + "state"), msg=m)
    x.args = [p, m]
    s = plugins(x, x.st)
    x.g["n"] = s.len()
    x.assume(s.forall(lambda q: z3.UGT(bv(x.load(x.st, q, 8)), z3.BitVecVal(1 << 16, 64))))
    n_distinct(x)
    Ghost(x, "told")


def h_handle_start(eng, st, cc):
    x = eng.x
    p = bv(cc.args[0])
    eng.oblige(st, "only a plugin that waits for the start is started", reacts(x, st, p, "START"))
    eng.oblige(st, "with this trigger", bv(cc.args[1]) == x.g["msg"])
    x.g["told"].set(x, st, p, x.g["told"].get(x, st, p) + 1)
    x.wr(st, p, PB + "reaction", eng.sym("reaction_after", z3.BitVecSort(32)))
    return [(st, None)]


def starts(x, p):
    return z3.If(reacts(x, x.pre, p, "START"), ONE, ZERO)


def post_start(x, st, ret):
    s = plugins(x, x.pre)
    go = x.g["state"] == x.lay["state_t::INITIALIZED"]
    if x.eng.feasible(st, z3.Not(go)):
        yield "an actor that is not just initialized is not started", s.forall(lambda e: z3.Implies(z3.Not(go), x.g["told"].get(x, st, pl(x, e)) == 0))
        return
    yield "every plugin waiting for the start is started once", s.forall(lambda e: x.g["told"].get(x, st, pl(x, e)) == starts(x, pl(x, e)))
    yield "and none waits any more", s.forall(lambda e: z3.Not(reacts(x, st, pl(x, e), "START")))


def setup_handle_start(x):
    setup_start(x)


def post_handle_start(x, st, ret):
    es = evs(st, "on_start")
    yield "the actor is started once", len(es) == 1
    for e in es:
        yield "this actor", bv(e[1]) == x.g["actor"]


# ================================================================ init and shutdown requests
IS = "rotor::plugin::init_shutdown_plugin_t::"


def setup_is(x):
    p = plugin(x, "init_shutdown", "@_ZTVN5rotor6plugin22init_shutdown_plugin_tE")
    a = actor_obj(x)
    x.wr(x.st, p, PB + "actor", a)
    x.g.update(this=p, actor=a, state=x.rdb(x.st, a, A + "state"))
    m = x.ptr("message", "message")
    x.g["msg"] = m
    x.args = [p, m]


def post_on_init(x, st, ret):
    es = evs(st, "activated", "init_continue")
    go = x.g["state"] == x.lay["state_t::INITIALIZING"]
    a = x.g["actor"]
    yield "the request is kept for the answer", x.rdb(st, a, A + "init_request") == x.g["msg"]
    yield "initialization goes on exactly if it has begun", iff(len(evs(st, "init_continue")), go)
    yield "the plugin is active then", iff(len(evs(st, "activated")), go)
    yield "in this order", [e[0] for e in es] in ([], ["activated", "init_continue"])
    for e in es:
        if e[0] == "init_continue":
            yield "of this actor", bv(e[1]) == a
            yield "with the request known", x.rdb(e[-1], a, A + "init_request") == x.g["msg"]
        else:
            yield "of this plugin and actor", z3.And(bv(e[1]) == x.g["this"], bv(e[2]) == a)


def post_on_shutdown(x, st, ret):
    es = [e for e in st.events if e[0] in ("reason", "shutdown_start", "shutdown_continue")]
    yield "the reason is recorded, then shutdown starts, then goes on: each once", [e[0] for e in es] == ["reason", "shutdown_start", "shutdown_continue"]
    a = x.g["actor"]
    for e in es:
        yield "of this actor", bv(e[1]) == a
        yield "the request is known", x.rdb(e[-1], a, A + "shutdown_request") == x.g["msg"]
        if e[0] == "reason":
            yield "the reason of the request", bv(x.load(e[-1], e[2], 8)) == x.rdb(x.pre, x.g["msg"], "message::shutdown_request_t.payload.request_payload.reason")


def post_is_init(x, st, ret):
    yield "ready exactly when there is a request to answer", tobool(ret) == (x.rdb(x.pre, x.g["actor"], A + "init_request") != 0)


def post_is_shutdown(x, st, ret):
    es = evs(st, "deactivate plugins")
    yield "all plugins are deactivated", len(es) == 1 and bv(es[0][1]) == x.g["actor"]
    yield "it does not hold the shutdown up", tobool(ret)


HOOKS = [PUT]
DP = (r"^rotor::actor_base_t::deactivate_plugins\(\)", h_ev("deactivate plugins"))
CONTRACTS = [
    Contract("activate_plugins", re.escape(AB) + r"activate_plugins\(\)", setup_act, post_act, loops=[Loop(r"activate_plugins\(", inv_each(False, lambda x, p: ONE))],
             hooks=[(r"^virtual .*::activate\(", h_activate)]),
    Contract("deactivate_plugins", re.escape(AB) + r"deactivate_plugins\(\)", setup_act, post_deact, loops=[Loop(r"deactivate_plugins\(", inv_each(True, was_active))],
             hooks=IDENTS + [(r"^virtual .*::deactivate\(", h_deactivate)]),
    Contract("commit_plugin_deactivation", re.escape(AB) + r"commit_plugin_deactivation\(.*\)", setup_commit_plugin, post_commit_deact, hooks=IDENTS),
    Contract("commit_plugin_activation", re.escape(AB) + r"commit_plugin_activation\(.*\)", setup_commit_act, post_commit_act, hooks=IDENTS + [DP]),
    Contract("starter on_start", re.escape(cl.ST_) + r"on_start\(.*\)", setup_start, post_start, loops=[Loop(r"starter_plugin_t::on_start\(", inv_each(True, starts, lambda x, st, p: z3.Not(reacts(x, st, p, "START"))))],
             hooks=[(r"^virtual .*::handle_start\(", h_handle_start)], cover=[("starts", lambda x, s, r: x.g["state"] == x.lay["state_t::INITIALIZED"])]),
    Contract("starter handle_start", re.escape(cl.ST_) + r"handle_start\(.*\)", setup_handle_start, post_handle_start, hooks=[(r"^virtual .*::on_start\(", h_ev("on_start"))]),
    Contract("on_init", re.escape(IS) + r"on_init\(.*\)", setup_is, post_on_init,
             hooks=[(r"^rotor::plugin::plugin_base_t::activate\(", h_ev("activated", nargs=2)), (r"^(virtual )?rotor::actor_base_t::init_continue\(", h_ev("init_continue"))]),
    Contract("on_shutdown", re.escape(IS) + r"on_shutdown\(.*\)", setup_is, post_on_shutdown,
             hooks=[(r"^(virtual )?rotor::actor_base_t::assign_shutdown_reason\(", h_ev("reason", nargs=2)), (r"^(virtual )?rotor::actor_base_t::shutdown_start\(", h_ev("shutdown_start")),
                    (r"^(virtual )?rotor::actor_base_t::shutdown_continue\(", h_ev("shutdown_continue"))]),
    Contract("init_shutdown handle_init", re.escape(IS) + r"handle_init\(.*\)", setup_is, post_is_init),
    Contract("init_shutdown handle_shutdown", re.escape(IS) + r"handle_shutdown\(.*\)", setup_is, post_is_shutdown, hooks=[DP]),
]
