"""Life cycle of an actor: states, polling of plugins, shutdown reason, confirmations."""
from common import *

TUS = ["src/rotor/actor_base.cpp", "src/rotor/extended_error.cpp", "src/rotor/error_code.cpp", "src/rotor/plugin/plugin_base.cpp",
       "src/rotor/plugin/init_shutdown.cpp"]
A = "actor_base_t."
N = 4


def S(x, n):
    return x.lay["state_t::" + n]


def state(x, st):
    return x.rdb(st, x.g["actor"], A + "state")


def setup(x):
    a = actor_obj(x)
    sup = x.ptr("supervisor", "actor")
    x.wr(x.st, a, A + "supervisor", sup)
    x.g.update(actor=a, sup=sup, state=x.rdb(x.st, a, A + "state"), address=x.rdb(x.st, a, A + "address"))
    x.assume(x.g["address"] != 0)
    x.assume(x.rdb(x.st, sup, A + "address") != 0)
    x.args = [a]


# ---------------------------------------------------------------- do_shutdown / reason
def setup_do_shutdown(x):
    setup(x)
    r = maybe(x, "reason", "error")
    x.g["reason"] = r
    x.args.append(cell(x, r))


def post_do_shutdown(x, st, ret):
    ms = sent(x, st)
    yield "a shutdown is triggered <=> the actor is not shutting down yet", iff(len(ms), x.g["state"] < S(x, "SHUTTING_DOWN"))
    yield "state is untouched", state(x, st) == x.g["state"]
    if len(ms) != 1:
        return
    m = ms[0]
    yield "it is a shutdown trigger", m.is_("shutdown_trigger")
    yield "sent to the supervisor", m.dst == x.rdb(x.pre, x.g["sup"], A + "address")
    yield "queued at the actor's supervisor", bv(m.sup) == x.g["sup"]
    yield "about this actor", m.f("shutdown_trigger_t.payload.actor_address") == x.g["address"]
    r = m.f("shutdown_trigger_t.payload.reason")
    yield "carries the given reason", z3.Implies(x.g["reason"] != 0, r == x.g["reason"])
    if x.eng.feasible(st, x.g["reason"] == 0):
        e = Err(x, m.st, x.load(m.st, addoff(m.base, x.foff("message::shutdown_trigger_t.payload.reason")), 8))
        yield "without a reason it is a normal shutdown", z3.Implies(x.g["reason"] == 0, e.code == x.lay["shutdown_code_t::normal"])
        yield "of the shutdown category", z3.Implies(x.g["reason"] == 0, "shutdown" in err_cat(x, e))


def setup_assign(x):
    setup(x)
    r = maybe(x, "reason", "error")
    x.g["reason"] = r
    x.args.append(cell(x, r))


def post_assign(x, st, ret):
    old, new = x.rdb(x.pre, x.g["actor"], A + "shutdown_reason"), x.rdb(st, x.g["actor"], A + "shutdown_reason")
    yield "an assigned reason is never replaced", z3.Implies(old != 0, new == old)
    yield "the first reason is kept", z3.Implies(old == 0, new == x.g["reason"])


# ---------------------------------------------------------------- simple state changes
def setup_in(st):
    def f(x):
        setup(x)
        x.assume(x.g["state"] == S(x, st))
    return f


def post_to(st):
    def f(x, s, ret):
        yield "the state becomes " + st, state(x, s) == S(x, st)
        yield "nothing is sent", not sent(x, s)
    return f


def setup_init_finish(x):
    setup_in("INITIALIZING")(x)
    r = x.ptr("init_request", "message")
    x.wr(x.st, x.g["actor"], A + "init_request", r)
    x.g["req"] = r
    x.assume(x.rdb(x.st, r, "message::init_request_t.payload.reply_to") != 0)


def post_init_finish(x, st, ret):
    yield "the state becomes INITIALIZED", state(x, st) == S(x, "INITIALIZED")
    ms = sent(x, st)
    yield "initialization is confirmed exactly once", len(ms) == 1
    if len(ms) == 1:
        m = ms[0]
        yield "with an init response", m.is_("init_response")
        yield "to the address that waits for it", m.dst == x.rdb(x.pre, x.g["req"], "message::init_request_t.payload.reply_to")
        yield "for the pending request", m.f("init_response_t.payload.req") == x.g["req"]
        yield "without an error", m.f("init_response_t.payload.ee") == 0
    yield "the request is forgotten", x.rdb(st, x.g["actor"], A + "init_request") == 0


# ---------------------------------------------------------------- shutdown_start
def setup_shutdown_start(x, sup=False):
    setup(x)
    if not sup:
        x.eng.distinct(x.st, x.g["actor"], x.g["sup"])
    x.assume(x.g["state"] < S(x, "SHUTTING_DOWN"))
    r = maybe(x, "shutdown_reason", "error")
    x.wr(x.st, x.g["actor"], A + "shutdown_reason", r)
    x.g.update(reason=r, root=ROOT(r), up=x.g["sup"])
    root_facts(x.eng, x.st, r)


def setup_shutdown_start_sup(x):
    """the actor is a supervisor: it is its own `supervisor`, its parent (if any) supervises it"""
    setup_shutdown_start(x, True)
    a = x.g["actor"]
    x.wr(x.st, a, A + "supervisor", a)
    up = maybe(x, "parent", "actor")
    x.wr(x.st, a, "supervisor_t.parent", up)
    x.eng.distinct(x.st, a, up)
    x.assume(z3.Implies(up != 0, x.rdb(x.st, up, A + "address") != 0))
    x.g.update(up=up, sup=a)


def post_shutdown_start(x, st, ret):
    a = x.g["actor"]
    yield "the state becomes SHUTTING_DOWN", state(x, st) == S(x, "SHUTTING_DOWN")
    ms = sent(x, st)
    up = x.g["up"]
    nosp = z3.And(x.rdb(x.pre, a, A + "spawner_address") == 0, up != 0)
    esc_code = bv(x.load(x.pre.copy(), addoff(x.g["root"], x.foff("extended_error_t.ec")), 4), 32)
    esc = z3.And(nosp, bit(x, x.pre, a, A + "continuation_mask", "ESCALATE_FALIURE"), x.g["reason"] != 0, esc_code != 0)
    auto = z3.And(nosp, bit(x, x.pre, a, A + "continuation_mask", "AUTOSHUTDOWN_SUPERVISOR"))
    sup_addr = x.rdb(x.pre, up, A + "address")
    kinds = {"esc": 0, "auto": 0}
    for m in ms:
        yield "only shutdown triggers are sent", m.is_("shutdown_trigger")
        yield "to the supervisor, about the supervisor", z3.And(m.dst == sup_addr, m.f("shutdown_trigger_t.payload.actor_address") == sup_addr)
        e = Err(x, m.st, x.load(m.st, addoff(m.base, x.foff("message::shutdown_trigger_t.payload.reason")), 8))
        yield "the actor's reason is the cause", e.next == x.g["reason"]
        if "shutdown" in err_cat(x, e):
            kinds["auto"] += 1
            yield "the supervisor shuts down because its child is down", e.code == x.lay["shutdown_code_t::child_down"]
        else:
            kinds["esc"] += 1
            yield "the supervisor shuts down because of failure escalation", e.code == x.lay["error_code_t::failure_escalation"]
    yield "escalates once <=> supervised, not spawned, escalation requested and it failed", iff(kinds["esc"], esc)
    yield "brings the supervisor down once <=> supervised, not spawned and configured so", iff(kinds["auto"], auto)
    yield "the reason is kept", x.rdb(st, a, A + "shutdown_reason") == x.g["reason"]
    for e in evs(st, "root"):
        yield "it is judged by the root of its own reason", bv(e[1]) == x.g["reason"]


# ---------------------------------------------------------------- shutdown_finish
def setup_shutdown_finish(x):
    setup_in("SHUTTING_DOWN")(x)
    r = maybe(x, "shutdown_request", "message")
    x.wr(x.st, x.g["actor"], A + "shutdown_request", r)
    x.g["req"] = r
    x.assume(x.rdb(x.st, r, "message::init_request_t.payload.reply_to") != 0)
    a = x.g["actor"]
    tm, ar, dp = timers(x, x.st), reqs(x, x.st), x.map(x.st, a, A + "deactivating_plugins", "int", 8)
    x.assume(dp.card == 0)
    # identifiers come from one counter per supervisor
    k = z3.BitVec("idq", 64)
    x.assume(z3.ForAll([k], z3.Not(z3.And(tm.has(k), ar.has(k))), patterns=[tm.has(k)]))


def timers(x, st):
    return x.map(st, x.g["actor"], A + "timers_map", "int", 8)


def reqs(x, st):
    return x.map(st, x.g["actor"], A + "active_requests", "int", 8)


def h_do_cancel(eng, st, cc):
    """supervisor_t::do_cancel_timer: the handler of that one timer runs with 'cancelled': on_timer_trigger of the owner erases it from
    the actor's timers (contract on_timer_trigger), on_request_trigger erases it from the active requests (contract on_request_trigger)"""
    x = eng.x
    a, i = x.g["actor"], bv(cc.args[1])
    eng.oblige(st, "only a pending timer or request is cancelled", z3.Or(timers(x, st).has(i), reqs(x, st).has(i)))
    eng.oblige(st, "timers are cancelled at the actor's supervisor", bv(cc.args[0]) == x.g["sup"])
    out = []
    for cf, get in (("timers_map", timers), ("active_requests", reqs)):
        s = st.copy()
        m = get(x, s)
        s.assume(m.has(i))
        if eng.feasible(s, z3.BoolVal(True)):
            stl.m_erase(eng, s, eng.ckey(s, addoff(a, x.foff(A + cf))), m, i)
            s.events.append(("cancel", i))
            out.append((s, None))
    return out


def inv_finish(eng, st, ctx):
    x = eng.x
    a = x.g["actor"]
    yield "the actor is not shut down while something is pending", x.rdb(st, a, A + "state") == S(x, "SHUTTING_DOWN")
    if ctx.which == 1:
        yield "no timer is left", timers(x, st).card == 0


class FinishLoop(Loop):
    def inv(self, eng, st, ctx):
        heads = [b for b in ctx.fn.order if b in ctx.fn.loops()]
        ctx.which = heads.index(ctx.head)
        return list(inv_finish(eng, st, ctx))


def post_shutdown_finish(x, st, ret):
    a = x.g["actor"]
    yield "the state becomes SHUT_DOWN", state(x, st) == S(x, "SHUT_DOWN")
    ms = sent(x, st)
    yield "shutdown is confirmed exactly once if it was requested", iff(len(ms), x.g["req"] != 0)
    for m in ms:
        yield "with a shutdown response", m.is_("shutdown_response")
        yield "to the address that waits for it", m.dst == x.rdb(x.pre, x.g["req"], "message::shutdown_request_t.payload.reply_to")
        yield "for the pending request", m.f("shutdown_response_t.payload.req") == x.g["req"]
        yield "without an error", m.f("shutdown_response_t.payload.ee") == 0
    yield "the request is forgotten", x.rdb(st, a, A + "shutdown_request") == 0
    yield "no timer is left", timers(x, st).card == 0
    yield "no request is left", reqs(x, st).card == 0


# ---------------------------------------------------------------- polling of plugins
def plugin_seq(x, st):
    return x.seq(st, x.g["actor"], A + "plugins")


def plug(x, st, i):
    return bv(x.load(st, plugin_seq(x, x.pre if hasattr(x, "pre") else x.st).get(i), 8))


def reacts(x, st, p, r):
    return (x.rdb(st, p, "plugin_base_t.reaction") & x.lay["reaction_t::" + r]) != 0


def setup_poll(what):
    def f(x):
        setup_in("INITIALIZING" if what == "INIT" else "SHUTTING_DOWN")(x)
        a = x.g["actor"]
        r = maybe(x, "request", "message")
        x.wr(x.st, a, A + ("init_request" if what == "INIT" else "shutdown_request"), r)
        x.g.update(req=r, what=what)
        s = plugin_seq(x, x.st)
        x.g["n"] = s.len()
        for e in [s.forall(lambda q: z3.UGT(bv(x.load(x.st, q, 8)), z3.BitVecVal(1 << 16, 64)))]:
            x.assume(e)
    return f


def setup_poll_b(what):
    def f(x):
        setup_poll(what)(x)
        n = bv(x.g["n"])
        x.assume(n <= N)
        for i in range(N):
            for j in range(i):
                x.assume(z3.Implies(z3.And(n > i), plug(x, x.st, i) != plug(x, x.st, j)))
    return f


def h_ask(what):
    def h(eng, st, cc):
        """a plugin's answer: unknown; it may change its own reactions and the actor's containers, never the list of plugins
        nor another plugin's reactions"""
        x = eng.x
        p = cc.args[0]
        eng.oblige(st, "only a plugin that is not done is asked", reacts(x, st, p, what))
        eng.oblige(st, "it is given the pending request", bv(cc.args[1]) == x.g["req"])
        yes = eng.sym("ready", z3.BoolSort())
        st.events.append(("ask", p, yes, st.copy()))
        r = eng.sym("reaction_after", z3.BitVecSort(32))
        x.wr(st, p, "plugin_base_t.reaction", r)
        st.assume(z3.Implies(z3.Not(yes), (r & x.lay["reaction_t::" + what]) != 0))
        return [(st, yes)]
    return h


def inv_poll(what, rev):
    def inv(eng, st, ctx):
        x = eng.x
        k, facts = progress(eng, st, ctx, x.g["n"])
        for i, f in enumerate(facts):
            yield "progress %d" % i, f
        if k is None:
            return
        n = bv(x.g["n"])
        j = z3.FreshConst(z3.BitVecSort(64), "pj")
        lo, hi = (n - k, n) if rev else (z3.BitVecVal(0, 64), k)
        s = plugin_seq(x, x.pre)
        p = bv(x.load(st, s.get(j), 8))
        f = z3.Implies(z3.And(j >= lo, j < hi), z3.Not(reacts(x, st, p, what)))
        yield "plugins passed so far are done", z3.ForAll([j], f, patterns=[s.get(j)])
    return inv


def post_poll(what):
    fin = "init_finish" if what == "INIT" else "shutdown_finish"

    def post(x, st, ret):
        f = evs(st, fin)
        asks = evs(st, "ask")
        yield "finished at most once", len(f) <= 1
        s = plugin_seq(x, x.pre)
        if f:
            at = f[0][-1]
            yield "finished only when every plugin is done", s.forall(lambda q: z3.Not(reacts(x, at, bv(x.load(at, q, 8)), what)))
            yield "no plugin was asked after a refusal", z3.And([tobool(e[2]) for e in asks]) if asks else True
            yield "the polling flag is off when finishing", z3.Not(bit(x, at, x.g["actor"], A + "continuation_mask", "PROGRESS_" + what))
        else:
            why = z3.Not(tobool(asks[-1][2])) if asks else z3.BoolVal(False)
            if what == "INIT":  # answered already with an error: nothing is left to be continued
                why = z3.If(x.g["req"] == 0, z3.BoolVal(not asks), why)
            yield "not finished only because the plugin asked last refused", why
        f0 = z3.And(x.g["req"] == 0, bit(x, x.pre, x.g["actor"], A + "continuation_mask", "PROGRESS_" + what)) if what == "INIT" else z3.BoolVal(False)
        yield "the polling flag is off afterwards", z3.Or(f0, z3.Not(bit(x, st, x.g["actor"], A + "continuation_mask", "PROGRESS_" + what)))
        for e in asks:
            yield "the polling flag is on while asking", bit(x, e[-1], x.g["actor"], A + "continuation_mask", "PROGRESS_" + what)
    return post


def post_poll_b(what, rev):
    def post(x, st, ret):
        yield from post_poll(what)(x, st, ret)
        n = bv(x.g["n"])
        asks = evs(st, "ask")
        blocked = z3.BoolVal(False)
        used = z3.BitVecVal(0, 64)
        # replay the protocol on the initial reactions
        order = range(N)
        for t in order:
            i = (n - 1 - t) if rev else z3.BitVecVal(t, 64)
            p = plug(x, x.pre, i)
            should = z3.And(z3.BitVecVal(t, 64) < n, z3.Not(blocked), reacts(x, x.pre, p, what))
            if what == "INIT":
                should = z3.And(should, x.g["req"] != 0)
            got = z3.Or([z3.And(used == u, bv(e[1]) == p) for u, e in enumerate(asks)]) if asks else z3.BoolVal(False)
            yield "plugin %d in order is asked exactly when it is its turn" % t, z3.Implies(should, got)
            ans = z3.And([z3.Implies(used == u, tobool(e[2])) for u, e in enumerate(asks)]) if asks else z3.BoolVal(True)
            blocked = z3.Or(blocked, z3.And(should, z3.Not(ans)))
            used = z3.If(should, used + 1, used)
        if what == "INIT":
            gone = x.g["req"] == 0
            yield "nobody is asked once the request has been answered", z3.Implies(gone, z3.BoolVal(not asks))
            blocked, used = z3.Or(gone, blocked), z3.If(gone, z3.BitVecVal(0, 64), used)
        yield "nobody else is asked", used == len(asks)
        yield "finished exactly when nobody refused", iff(len(evs(st, "init_finish" if what == "INIT" else "shutdown_finish")), z3.Not(blocked))
    return post


HOOKS = [PUT,
         (r"^virtual .*::handle_init\(", h_ask("INIT")), (r"^virtual .*::handle_shutdown\(", h_ask("SHUTDOWN")),
         (r"^virtual .*::init_finish\(", h_ev("init_finish")), (r"^virtual .*::shutdown_finish\(", h_ev("shutdown_finish")),
         (r"^virtual .*::do_cancel_timer\(|^virtual .*supervisor_t#", h_do_cancel),
         ROOT_HOOK]
B = "rotor::actor_base_t::"
CONTRACTS = [
    Contract("do_shutdown", re.escape(B) + r"do_shutdown\(.*\)", setup_do_shutdown, post_do_shutdown,
             cover=[("normal", lambda x, s, r: x.g["reason"] == 0), ("given", lambda x, s, r: x.g["reason"] != 0)]),
    Contract("assign_shutdown_reason", re.escape(B) + r"assign_shutdown_reason\(.*\)", setup_assign, post_assign),
    Contract("init_start", re.escape(B) + r"init_start\(\)", setup, post_to("INITIALIZING")),
    Contract("on_start", re.escape(B) + r"on_start\(\)", setup_in("INITIALIZED"), post_to("OPERATIONAL")),
    Contract("init_finish", re.escape(B) + r"init_finish\(\)", setup_init_finish, post_init_finish),
    Contract("shutdown_start", re.escape(B) + r"shutdown_start\(\)", setup_shutdown_start, post_shutdown_start,
             cover=[("both", lambda x, s, r: len(sent(x, s)) == 2)]),
    Contract("shutdown_start of a supervisor", re.escape(B) + r"shutdown_start\(\)", setup_shutdown_start_sup, post_shutdown_start,
             cover=[("both", lambda x, s, r: len(sent(x, s)) == 2), ("root supervisor", lambda x, s, r: x.g["up"] == 0)]),
    Contract("shutdown_finish", re.escape(B) + r"shutdown_finish\(\)", setup_shutdown_finish, post_shutdown_finish,
             loops=[FinishLoop(r"actor_base_t::shutdown_finish\(")], cover=[("confirms", lambda x, s, r: len(sent(x, s)) == 1)]),
]
for w, fn, rev in (("INIT", "init_continue", False), ("SHUTDOWN", "shutdown_continue", True)):
    CONTRACTS.append(with_twin(
        Contract(fn, re.escape(B) + fn + r"\(\)", setup_poll(w), post_poll(w), loops=[Loop(r"actor_base_t::%s\(" % fn, inv_poll(w, rev))],
                 cover=[("finishes", lambda x, s, r: bool(evs(s, "init_finish", "shutdown_finish"))), ("waits", lambda x, s, r: not evs(s, "init_finish", "shutdown_finish"))]),
        "at most %d plugins" % N, setup=setup_poll_b(w), post=post_poll_b(w, rev)))
