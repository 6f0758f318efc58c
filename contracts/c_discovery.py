"""An actor's own registrations and discoveries (registry plugin): each is asked once, settles once, and gates initialization and shutdown."""
from common import *

TUS = ["src/rotor/plugin/registry.cpp", "src/rotor/plugin/plugin_base.cpp", "src/rotor/actor_base.cpp", "src/rotor/extended_error.cpp", "src/rotor/error_code.cpp"]
A = "actor_base_t."
RP = "registry_plugin_t."
RI = "registry_plugin_t::register_info_t."
DT = "registry_plugin_t::discovery_task_t."
V = 40       # value of a node keyed by std::string
AV = 16      # value of a node keyed by a pointer
B = z3.BitVecVal


def S(x, n):
    return x.lay["state_t::" + n]


def setup(x):
    this = x.ptr("registry_plugin", "plugin")
    x.fix_vtable(this, "@_ZTVN5rotor6plugin17registry_plugin_tE")
    a = actor_obj(x)
    sup = x.ptr("supervisor", "actor")
    x.wr(x.st, this, "plugin_base_t.actor", a)
    x.wr(x.st, a, A + "supervisor", sup)
    ra = x.ptr("registry_address", "address")
    x.wr(x.st, sup, "supervisor_t.registry_address", ra)
    x.assume(x.rdb(x.st, a, A + "address") != 0)
    ir = maybe(x, "init_request", "message")
    x.wr(x.st, a, A + "init_request", ir)
    x.assume(z3.Implies(ir != 0, x.rdb(x.st, ir, "message::init_request_t.payload.reply_to") != 0))
    x.g.update(this=this, actor=a, sup=sup, ra=ra, ir=ir, state=x.rdb(x.st, a, A + "state"), address=x.rdb(x.st, a, A + "address"))
    x.assume(known_state(x, x.st))
    x.args = [this]


def regs(x, st):
    return x.map(st, x.g["this"], RP + "register_map", "str", 8)


def tasks(x, st):
    return x.map(st, x.g["this"], RP + "discovery_map", "str", 8)


def aliases(x, st):
    return x.map(st, x.g["this"], RP + "aliases_map")


def ri(x, st, n, f):
    o, sz = x.lay[RI + f]
    return ival(x, st, addoff(n, V + o), sz)


def dt(x, st, n, f, off=0, n_=None):
    o, sz = x.lay[DT + f]
    return ival(x, st, addoff(n, V + o + off), n_ or sz)


def tname(x, st, n):
    return bv(stl.str_get(x.eng, st, addoff(n, V + x.lay[DT + "service_name"][0])))


def fnw(x, st, n):
    return [dt(x, st, n, "task_callback", o, 8) for o in (0, 8, 16, 24)]


def node(m, k):
    n = z3.simplify(m.at(k))
    return n.as_long() if z3.is_bv_value(n) else n


def keys(m, f):
    q = z3.FreshConst(BV64, "rk")
    return z3.ForAll([q], z3.Implies(m.has(q), f(q, m.at(q))))


def known_state(x, st):
    """no registration is ever in the unused state UNREGISTERING: what registers asks LINKING or REGISTERING, a confirmation makes OPERATIONAL of it"""
    return keys(regs(x, st), lambda q, n: z3.Or(busy_at(x, st, n), ri(x, st, n, "state") == x.lay["rp::OPERATIONAL"]))


def busy_at(x, st, n):
    s = ri(x, st, n, "state")
    return z3.Or(s == x.lay["rp::REGISTERING"], s == x.lay["rp::LINKING"])


def busy(x, st):
    m = regs(x, st)
    q = z3.FreshConst(BV64, "bq")
    return z3.Exists([q], z3.And(m.has(q), busy_at(x, st, m.at(q))))


def idle(x, st):
    return keys(regs(x, st), lambda q, n: z3.Not(busy_at(x, st, n)))


def regs_kept(x, st, m0, m1, but=None):
    q = z3.FreshConst(BV64, "kq")
    ok = m1.has(q) if but is None else z3.And(m1.has(q), q != but)
    return z3.ForAll([q], z3.Implies(ok, z3.And(ri(x, st, m1.at(q), "state") == ri(x, x.pre, m0.at(q), "state"), ri(x, st, m1.at(q), "address") == ri(x, x.pre, m0.at(q), "address"))))


def passed_str(eng, st, ctx):
    for c in sorted(ctx.mapit, key=str):
        v = bv(st.cells[c][1])
        m = stl.map_get(eng, st, ctx.mapit[c], 8, "str")
        e = stl.NODEKEY(v)
        return lambda q: z3.And(m.has(q), z3.Or(v == 0, z3.Select(m.rank, q) < z3.Select(m.rank, e)))
    return None


def inv_busy(eng, st, ctx):
    """the search for a registration in progress"""
    x = eng.x
    ps = passed_str(eng, st, ctx)
    m = regs(x, st)
    if ps is not None:
        yield "no passed registration is in progress", keys(m, lambda q, n: z3.Implies(ps(q), z3.Not(busy_at(x, st, n))))


SEARCH = [Loop(r"std::__find_if|std::find_if|std::none_of|std::any_of|std::all_of|std::count_if|registry_plugin_t::has_registering\(", inv_busy)]


def reason(x, m, code, cause):
    """the init request is answered with an error of this code and this cause"""
    e = x.load(m.st, addoff(m.base, x.foff("message::init_response_t.payload.ee")), 8)
    yield "with an error", bv(e) != 0
    er = Err(x, m.st, e)
    yield "that says what failed", z3.And(er.code == x.lay["error_code_t::" + code], z3.BoolVal("error" in err_cat(x, er)))
    yield "whose cause is the failure", er.next == cause
    yield "about the init request", er.request == x.g["ir"]


def settled(x, st, fails, goes_on, code, cause):
    """the initialization fails / goes on exactly then; at most one of the two"""
    ms, ic = sent(x, st, "init_response"), evs(st, "init_continue")
    ir = x.g["ir"]
    yield "a running initialization fails exactly then, once", iff(len(ms), z3.And(fails, ir != 0))
    for m in ms:
        yield from answer(x, m, "init_response", ir, x.rdb(x.pre, ir, "message::init_request_t.payload.reply_to"), x.g["sup"],
                          err=x.load(m.st, addoff(m.base, x.foff("message::init_response_t.payload.ee")), 8))
        yield from reason(x, m, code, cause)
        yield "which is then not answered again", x.rdb(st, x.g["actor"], A + "init_request") == 0
    yield "a running initialization goes on exactly then, once", iff(len(ic), z3.And(goes_on, ir != 0))
    for e in ic:
        yield "of this actor", bv(e[1]) == x.g["actor"]
    if not ms:
        yield "the init request is kept", x.rdb(st, x.g["actor"], A + "init_request") == ir


# ------------------------------------------------------------------ asking
def link_hook(eng, st, cc):
    """link_client_plugin_t::link by its contract (c_links): one link request, the callback is called with its outcome"""
    st.events.append(("link", cc.args[0], eng.load(st, cc.args[1], 8), cc.args[2], cc.args[3], st.copy()))
    return [(st, None)]


def plugin_hook(eng, st, cc):
    x = eng.x
    if "link_client" not in x.g:
        raise Unsupported("a plugin is looked up")
    return [(st, x.g["link_client"])]


def setup_ask(x):
    setup(x)
    lc = x.ptr("link_client", "plugin")
    x.eng.distinct(x.st, x.g["this"], lc)
    x.g["link_client"] = lc
    x.assume((x.rdb(x.st, x.g["this"], RP + "plugin_state") & x.lay["rpp::LINKED"]) == 0)
    s = x.ptr("name_object", "strobj")
    x.g["name"] = bv(stl.str_get(x.eng, x.st, s))
    x.args.append(s)


def post_linked(x, st):
    """the registry is being linked, once"""
    ls = evs(st, "link")
    f0, f1 = x.rdb(x.pre, x.g["this"], RP + "plugin_state"), x.rdb(st, x.g["this"], RP + "plugin_state")
    yield "the registry gets linked once", iff(len(ls), (f0 & x.lay["rpp::LINKING"]) == 0)
    yield "which is remembered", f1 == f0 | x.lay["rpp::LINKING"]
    for e in ls:
        yield "through the actor's own plugin", bv(e[1]) == x.g["link_client"]
        yield "the registry of the supervisor", bv(e[2]) == x.g["ra"]
        yield "at once, it need not be operational", bv(e[3], 8) & 1 == 0
        yield from outcome_reported(x, e)


def outcome_reported(x, e):
    """the callback given to link() hands the outcome to on_link"""
    st = e[-1].copy()
    ee = maybe(x, "link_error", "error")
    c = x.eng.new_region("alloca")
    x.eng.store(st, c, 8, ee)
    inv = x.load(st, addoff(e[4], 24), 8)
    name = x.eng.addr_fn.get(inv) if isinstance(inv, int) else None
    if name is None:
        yield "the callback is known", z3.BoolVal(False)
        return
    for s, _ in x.eng.exec_func(st, x.eng.index[name], [e[4], c]):
        o = evs(s, "on_link")
        yield "the outcome of the linking is handed over once", z3.BoolVal(len(o) == 1)
        for v in o:
            yield "to this plugin, unchanged", z3.And(bv(v[1]) == x.g["this"], bv(x.load(s, v[2], 8)) == ee)


def setup_register(x):
    setup_ask(x)
    x.assume(z3.Not(regs(x, x.st).has(x.g["name"])))
    ad = x.rdb
    a = maybe(x, "service_address", "address")
    x.g["svc"] = a
    x.args.append(cell(x, a))


def post_register(x, st, ret):
    m0, m1, nm = regs(x, x.pre), regs(x, st), x.g["name"]
    yield from post_linked(x, st)
    yield "the registration is recorded", m1.has(nm)
    n = node(m1, nm)
    yield "with its address", ri(x, st, n, "address") == x.g["svc"]
    yield "waiting for the link", ri(x, st, n, "state") == x.lay["rp::LINKING"]
    yield "other registrations are kept", z3.And(only_changed(m0, m1, nm), regs_kept(x, st, m0, m1, nm))
    yield "nothing is sent yet", not sent(x, st) and not requests(x, st)


def setup_discover(x):
    setup_ask(x)
    x.assume(z3.Not(tasks(x, x.st).has(x.g["name"])))
    t = x.ptr("target", "target")
    d = x.sym("delayed", 1)
    x.g.update(target=t, delayed=d)
    x.args += [t, d]


def post_discover(x, st, ret):
    m0, m1, nm = tasks(x, x.pre), tasks(x, st), x.g["name"]
    yield from post_linked(x, st)
    yield "the discovery is recorded", m1.has(nm)
    n = node(m1, nm)
    yield "the caller gets it", bv(ret) == addoff(n, V) if isinstance(n, int) else bv(ret) == n + V
    yield "for that name", tname(x, st, n) == nm
    yield "with its target", z3.And(dt(x, st, n, "plugin") == x.g["this"], dt(x, st, n, "address") == x.g["target"])
    yield "not asked yet", dt(x, st, n, "state") == x.lay["dt::PASSIVE"]
    yield "waiting for the name exactly if told so", (dt(x, st, n, "delayed") & 1 == 1) == (x.g["delayed"] == 1)
    yield "without a callback", fnw(x, st, n)[2] == 0
    yield "other discoveries are kept", only_changed(m0, m1, nm)
    yield "nothing is sent yet", not sent(x, st) and not requests(x, st)


# ------------------------------------------------------------------ the registry is linked
def setup_linked(x):
    setup(x)
    ee = maybe(x, "error", "error")
    x.g["ee"] = ee
    x.args.append(cell(x, ee))
    Ghost(x, "asked")
    x.g["on_request"] = on_reg_request
    # every discovery is recorded under its name
    x.assume(keys(tasks(x, x.st), lambda q, n: tname(x, x.st, n) == q))


def on_reg_request(eng, st, r):
    x = eng.x
    eng.oblige(st, "a registration is requested", r.is_("registration_request"))
    if not r.is_("registration_request"):
        return
    m = regs(x, st)
    nm = r.s("registration_request_t.payload.request_payload.service_name")
    n = m.at(nm)
    eng.oblige(st, "of a recorded name", m.has(nm))
    eng.oblige(st, "under its address", r.f("registration_request_t.payload.request_payload.service_addr") == ri(x, x.pre, n, "address"))
    eng.oblige(st, "at the registry, by this actor, within the initialization timeout", z3.And(
        r.dst == x.g["ra"], r.actor == x.g["actor"], bv(r.sup) == x.g["sup"], r.timeout == x.rdb(x.pre, x.g["actor"], A + "init_timeout")))
    t = x.g["asked"]
    t.set(x, st, n, t.get(x, st, n) + 1)


def h_do_discover(eng, st, cc):
    x = eng.x
    n = addoff(cc.args[0], -V)
    m = tasks(x, st)
    eng.oblige(st, "only recorded discoveries are asked", z3.And(m.has(stl.NODEKEY(bv(n))), m.at(stl.NODEKEY(bv(n))) == bv(n)))
    t = x.g["asked"]
    t.set(x, st, n, t.get(x, st, n) + 1)
    return [(st, None)]


def asked_reg(x, st, q, n, done):
    one, zero = B(1, 64), B(0, 64)
    return z3.And(x.g["asked"].get(x, st, n) == z3.If(done, one, zero), ri(x, st, n, "address") == ri(x, x.pre, n, "address"),
                  ri(x, st, n, "state") == z3.If(done, B(x.lay["rp::REGISTERING"], 32), ri(x, x.pre, n, "state")))


def asked_task(x, st, q, n, done):
    return x.g["asked"].get(x, st, n) == z3.If(done, B(1, 64), B(0, 64))


def inv_linked(eng, st, ctx):
    x = eng.x
    m, d = regs(x, x.pre), tasks(x, x.pre)
    yield "the names are untouched", z3.And(same_map(m, regs(x, st)), same_map(d, tasks(x, st)))
    ps, which = None, None
    for c in sorted(ctx.mapit, key=str):
        which = ctx.mapit[c][1] if isinstance(ctx.mapit[c], tuple) else None
        ps = passed_str(eng, st, ctx)
    first = which == x.foff(RP + "register_map")
    if ps is None:
        yield "nothing was asked or everything was", z3.Or(*[z3.And(keys(m, lambda q, n: asked_reg(x, st, q, n, z3.BoolVal(v))), keys(d, lambda q, n: asked_task(x, st, q, n, z3.BoolVal(False)))) for v in (False, True)])
    elif first:
        yield "passed registrations were requested, no other", keys(m, lambda q, n: asked_reg(x, st, q, n, ps(q)))
        yield "no discovery was started", keys(d, lambda q, n: asked_task(x, st, q, n, z3.BoolVal(False)))
    else:
        yield "registrations do not change", keys(m, lambda q, n: z3.And(x.g["asked"].get(x, st, n) == x.g["asked"].get(x, ctx.entry, n), ri(x, st, n, "address") == ri(x, ctx.entry, n, "address"), ri(x, st, n, "state") == ri(x, ctx.entry, n, "state")))
        yield "passed discoveries were started, no other", keys(d, lambda q, n: asked_task(x, st, q, n, ps(q)))


def post_on_link(x, st, ret):
    ok = x.g["ee"] == 0
    m, d = regs(x, x.pre), tasks(x, x.pre)
    f0, f1 = x.rdb(x.pre, x.g["this"], RP + "plugin_state"), x.rdb(st, x.g["this"], RP + "plugin_state")
    yield "the registry counts as linked", z3.And((f1 & x.lay["rpp::LINKED"]) != 0, (f1 & x.lay["rpp::LINKING"]) == 0, (f1 & x.lay["rpp::CONFIGURED"]) == (f0 & x.lay["rpp::CONFIGURED"]))
    yield "the names are untouched", z3.And(same_map(m, regs(x, st)), same_map(d, tasks(x, st)))
    yield "every registration is requested once if the registry is there", keys(m, lambda q, n: asked_reg(x, st, q, n, ok))
    yield "every discovery is started once if the registry is there", keys(d, lambda q, n: asked_task(x, st, q, n, ok))
    yield "nothing else is sent", not sent(x, st)


# ------------------------------------------------------------------ answers
def setup_on_registration(x):
    setup(x)
    m = x.ptr("message", "message")
    req = x.ptr("registration_request", "message")
    ee = maybe(x, "error", "error")
    x.wr(x.st, m, "message::registration_response_t.payload.req", req)
    x.wr(x.st, m, "message::registration_response_t.payload.ee", ee)
    nm = x.str(x.st, req, "message::registration_request_t.payload.request_payload.service_name")
    x.assume(regs(x, x.st).has(nm))
    x.g.update(msg=m, ee=ee, name=nm)
    x.args.append(m)


def post_on_registration(x, st, ret):
    m0, m1, nm, ee = regs(x, x.pre), regs(x, st), x.g["name"], x.g["ee"]
    down = x.g["state"] == S(x, "SHUTTING_DOWN")
    ok = ee == 0
    yield "a refused registration is forgotten, and so is one that is no longer wanted", m1.has(nm) == z3.And(ok, z3.Not(down))
    yield "a confirmed one is recorded as such", z3.Implies(m1.has(nm), z3.And(ri(x, st, m1.at(nm), "state") == x.lay["rp::OPERATIONAL"], ri(x, st, m1.at(nm), "address") == ri(x, x.pre, m0.at(nm), "address")))
    yield "other registrations are kept", z3.And(only_changed(m0, m1, nm), regs_kept(x, st, m0, m1, nm))
    ds = sent(x, st, "deregistration_service")
    yield "a name confirmed during shutdown is deregistered, once", iff(len(ds), z3.And(ok, down))
    for m in ds:
        yield "at the registry", z3.And(m.dst == x.g["ra"], bv(m.sup) == x.g["sup"])
        yield "that name", m.s("deregistration_service_t.payload.service_name") == nm
    sc = evs(st, "shutdown_continue")
    yield "the shutdown goes on exactly when the last registration is gone", iff(len(sc), z3.And(down, m1.card == 0))
    for e in sc:
        yield "after the record is settled", z3.And(bv(e[1]) == x.g["actor"], same_map(regs(x, e[-1]), m1))
    up = z3.Not(down)
    yield "nothing else is sent", len(ds) + len(sent(x, st, "init_response")) == len(sent(x, st))
    if evs(st, "init_continue"):
        yield from settled(x, st, z3.And(up, z3.Not(ok)), z3.And(up, ok), "registration_failed", ee)
        yield "initialization goes on only when no registration is in progress", idle(x, st)
    elif sent(x, st, "init_response"):
        yield from settled(x, st, z3.And(up, z3.Not(ok)), z3.BoolVal(False), "registration_failed", ee)
    else:
        yield "a failure is not swallowed, the last confirmation continues the initialization", z3.Or(x.g["ir"] == 0, down, z3.And(ok, busy(x, st)))


def setup_response(x, fut):
    setup(x)
    what, req_t = ("discovery_future_t", "discovery_promise_t") if fut else ("discovery_response_t", "discovery_request_t")
    m = x.ptr("message", "message")
    req = x.ptr("request", "message")
    ee = maybe(x, "error", "error")
    x.wr(x.st, m, "message::%s.payload.req" % what, req)
    x.wr(x.st, m, "message::%s.payload.ee" % what, ee)
    x.g.update(msg=m, ee=ee, name=x.str(x.st, req, "message::%s.payload.request_payload.service_name" % req_t), res=x.foff("message::%s.payload.res" % what))
    x.args.append(m)


def h_task_answer(eng, st, cc):
    st.events.append(("answer", cc.args[0], cc.args[1], bv(eng.load(st, cc.args[2], 8)), st.copy()))
    return [(st, None)]


def post_response(x, st, ret):
    m = tasks(x, x.pre)
    an = evs(st, "answer")
    yield "the discovery of that name is answered exactly once if it is still wanted", iff(len(an), m.has(x.g["name"]))
    for e in an:
        yield "the one of that name", bv(e[1]) == m.at(x.g["name"]) + V
        yield "with the error, if there is one", e[3] == x.g["ee"]
        yield "with the address that was found, if there is no error", bv(e[2]) == z3.If(x.g["ee"] == 0, x.g["msg"] + x.g["res"], B(0, 64))
    yield "nothing else happens", z3.And(same_map(m, tasks(x, st)), z3.BoolVal(not sent(x, st)))


def task(x):
    """a recorded discovery"""
    nm = x.sym("task_name")
    m = tasks(x, x.st)
    x.assume(m.has(nm))
    n = m.at(nm)
    t = x.ptr("target", "target")
    x.eng.setkind(x.st, n, "node")
    stl.str_set(x.eng, x.st, addoff(n, V + x.lay[DT + "service_name"][0]), nm)
    x.eng.store(x.st, addoff(n, V + x.lay[DT + "plugin"][0]), 8, x.g["this"])
    x.eng.store(x.st, addoff(n, V + x.lay[DT + "address"][0]), 8, t)
    x.assume(z3.ULE(dt(x, x.st, n, "state"), 4))
    x.g.update(name=nm, node=n, target=t)
    x.args[0] = addoff(n, V)


def target(x, st):
    return bv(x.load(st, x.g["target"], 8))


def setup_task_answer(x):
    setup(x)
    task(x)
    lc = x.ptr("link_client", "plugin")
    x.eng.distinct(x.st, x.g["this"], lc)
    ee = maybe(x, "error", "error")
    found = x.ptr("found", "address")
    c = cell(x, found)
    pt = z3.If(ee == 0, bv(c), B(0, 64))
    a, d = aliases(x, x.st), tasks(x, x.st)
    # an address has names; all of them wait for its link, or none does any more (post_discovery settles them together)
    w = x.eng.sym0("names_are_waiting", z3.BoolSort())
    s = names(x, x.st, a, found)
    x.assume(z3.Implies(a.has(found), zi(s.len()) > 0))
    x.assume(z3.Implies(a.has(found), upto(s, zi(s.len()), lambda e: d.has(str_at(x, x.st, e.addr)) == w)))
    x.g.update(link_client=lc, ee=ee, found=found, waiting=w)
    x.args += [c, cell(x, ee)]


def names(x, st, m, k):
    n = node(m, k)
    return stl.seq_get(x.eng, st, x.eng.ckey(st, addoff(n, AV)))


def str_at(x, st, a):
    return bv(stl.str_get(x.eng, st, a))


def name_at(x, st, s, i):
    return str_at(x, st, s.get(i))


def h_callback(eng, st, cc):
    """a user callback: it does not re-enter the plugin (assumption)"""
    a = cc.args
    st.events.append(("callback",) + tuple(eng.load(st, addoff(a[0], o), 8) for o in (0, 8, 16, 24)) + (a[1], bv(eng.load(st, a[2], 8)), st.copy()))
    return [(st, None)]


def post_task_answer(x, st, ret):
    ee, n = x.g["ee"], x.g["node"]
    ok = ee == 0
    cbs, ls, pd = evs(st, "callback"), evs(st, "link"), evs(st, "post_discovery")
    fn = fnw(x, x.pre, n)
    yield "the target gets the address that was found, and nothing on failure", target(x, st) == z3.If(ok, x.g["found"], target(x, x.pre))
    init = x.g["state"] == S(x, "INITIALIZING")
    a0, a1 = aliases(x, x.pre), aliases(x, st)
    dup = a0.has(x.g["found"])
    # the address was linked under other names, all of which are settled
    linked = z3.And(ok, init, dup, z3.Not(x.g["waiting"]))
    waits = z3.And(ok, init, z3.Not(linked))
    yield "the callback is told once that the service was found, and once that it is linked", z3.BoolVal(len(cbs) <= 2)
    yield "if there is one", iff(min(len(cbs), 1), z3.And(ok, fn[2] != 0))
    yield "about the linking exactly if the address is linked already", iff(max(len(cbs) - 1, 0), z3.And(linked, fn[2] != 0))
    for i, e in enumerate(cbs):
        yield "the recorded callback, in this order", z3.And([bv(a) == b for a, b in zip(e[1:5], fn)] + [bv(e[5], 32) == x.lay["dphase::" + ("discovering", "linking")[min(i, 1)]], e[6] == ee])
    yield "it is settled now, unless it has to be linked first", iff(len(pd), z3.Not(waits))
    for e in pd:
        yield "this one, with the outcome", z3.And(bv(e[1]) == addoff(n, V), bv(x.load(e[-1], e[2], 8)) == ee)
    yield "the address is linked once, whatever the number of its names", iff(len(ls), z3.And(waits, z3.Not(dup)))
    for e in ls:
        yield "the found address, through the actor's own plugin", z3.And(bv(e[1]) == x.g["link_client"], bv(e[2]) == x.g["found"])
        yield "when it is operational, if told so", (bv(e[3], 8) & 1) == (dt(x, x.pre, n, "operational_only") & 1)
    d0, d1 = tasks(x, x.pre), tasks(x, st)
    yield "the discoveries are kept", same_map(d0, d1)
    if not x.eng.feasible(st, z3.And(ok, init)):
        yield "no name is waiting for a link", same_map(a0, a1)
        return
    yield "other answers do not get here", z3.And(ok, init)
    yield "its outcome is that of the link", dt(x, st, n, "state") == x.lay["dt::LINKING"]
    yield "other addresses are kept", only_changed(a0, a1, x.g["found"])
    yield "the address waits for a link", a1.has(x.g["found"])
    s1 = names(x, st, a1, x.g["found"])
    if ls:
        yield "for this name", z3.And(zi(s1.len()) == 1, name_at(x, st, s1, 0) == x.g["name"])
    else:
        s0 = names(x, x.pre, a0, x.g["found"])
        l0 = s0.len()
        yield "for this name too", z3.And(zi(s1.len()) == zi(l0) + 1, name_at(x, st, s1, l0) == x.g["name"])


def post_do_discover(x, st, ret):
    n = x.g["node"]
    rs = requests(x, st)
    d = (dt(x, x.pre, n, "delayed") & 1) == 1
    yield "exactly one question is asked", len(rs) == 1 and not sent(x, st)
    for r in rs:
        what = "discovery_promise" if r.is_("discovery_promise") else "discovery_request"
        yield "a discovery", r.is_(what)
        if not r.is_(what):
            continue
        yield "one that waits for the name exactly if told so", d == z3.BoolVal(what == "discovery_promise")
        yield "for that name", r.s(what + "_t.payload.request_payload.service_name") == x.g["name"]
        yield "at the registry, by this actor, within the initialization timeout", z3.And(
            r.dst == x.g["ra"], r.actor == x.g["actor"], bv(r.sup) == x.g["sup"], r.timeout == x.rdb(x.pre, x.g["actor"], A + "init_timeout"))
        yield "a question that waits can be cancelled", z3.Implies(d, dt(x, st, n, "request_id") == r.id)
    yield "it is being discovered", dt(x, st, n, "state") == x.lay["dt::DISCOVERING"]


def post_do_cancel(x, st, ret):
    n = x.g["node"]
    s0, s1 = dt(x, x.pre, n, "state"), dt(x, st, n, "state")
    waiting = z3.And((dt(x, x.pre, n, "delayed") & 1) == 1, s0 == x.lay["dt::DISCOVERING"])
    ms = sent(x, st)
    yield "a question that waits is cancelled, once", iff(len(ms), waiting)
    for m in ms:
        yield "by a cancellation", m.is_("discovery_cancel")
        if m.is_("discovery_cancel"):
            yield "at the registry", z3.And(m.dst == x.g["ra"], bv(m.sup) == x.g["sup"])
            yield "of that question", z3.And(m.f("discovery_cancel_t.payload.id") == dt(x, x.pre, n, "request_id"), m.f("discovery_cancel_t.payload.source") == x.g["address"])
    yield "it may be dropped unless a cancellation is on its way", tobool(ret) == z3.Not(z3.Or(waiting, s0 == x.lay["dt::CANCELLING"]))
    yield "which is remembered", s1 == z3.If(waiting, B(x.lay["dt::CANCELLING"], 32), s0)
    yield "no discovery is dropped here", same_map(tasks(x, x.pre), tasks(x, st))


# ------------------------------------------------------------------ a discovery is settled
def setup_post(x):
    setup(x)
    task(x)
    ee = maybe(x, "error", "error")
    x.args.append(cell(x, ee))
    x.g["ee"] = ee
    # a discovery that waits for a link is among the names of the address
    a = aliases(x, x.st)
    t = target(x, x.st)
    x.assume(z3.Implies(dt(x, x.st, x.g["node"], "state") == x.lay["dt::LINKING"], z3.And(a.has(t), aliased(x, x.st, names(x, x.st, a, t), x.g["name"]))))


def aliased(x, st, s, q, k=None):
    """q is among the (first k) names of the address"""
    return z3.Not(upto(s, zi(s.len() if k is None else k), lambda e: str_at(x, st, e.addr) != q))


def no_aliased(x, st, s, d, k=None):
    """none of the (first k) names of the address is an open discovery"""
    return upto(s, zi(s.len() if k is None else k), lambda e: z3.Not(d.has(str_at(x, st, e.addr))))


def inv_post(eng, st, ctx):
    x = eng.x
    d0, d = tasks(x, x.pre), tasks(x, st)
    a0 = aliases(x, x.pre)
    yield "the addresses are untouched", same_map(a0, aliases(x, st))
    t = target(x, x.pre)
    s = names(x, x.pre, a0, t)
    k, facts = progress(eng, st, ctx, s.len())
    for i, f in enumerate(facts):
        yield "progress %d" % i, f
    q = z3.FreshConst(BV64, "dq")
    nk = zi(k) if k is not None else zi(0)
    yield "no discovery is added", z3.ForAll([q], z3.Implies(d.has(q), z3.And(d0.has(q), d.at(q) == d0.at(q))))
    yield "the passed names are settled", no_aliased(x, x.pre, s, d, nk)
    yield "only passed names are", z3.ForAll([q], z3.Implies(z3.And(d0.has(q), z3.Not(d.has(q))), aliased(x, x.pre, s, q, nk)))


def post_post(x, st, ret):
    d0, d = tasks(x, x.pre), tasks(x, st)
    a0 = aliases(x, x.pre)
    t = target(x, x.pre)
    shared = z3.And(a0.has(t), dt(x, x.pre, x.g["node"], "state") == x.lay["dt::LINKING"])
    q = z3.FreshConst(BV64, "dq")
    ee = x.g["ee"]
    yield "the discovery is settled", z3.Not(d.has(x.g["name"]))
    done = z3.Or(d.card == 0, ee != 0)
    init = x.g["state"] == S(x, "INITIALIZING")
    yield "no discovery is added", z3.ForAll([q], z3.Implies(d.has(q), z3.And(d0.has(q), d.at(q) == d0.at(q))))
    if x.eng.feasible(st, shared):
        s = names(x, x.pre, a0, t)
        yield "all names of a linked address are settled", z3.Implies(shared, no_aliased(x, x.pre, s, d))
        yield "no other", z3.Implies(shared, z3.ForAll([q], z3.Implies(z3.And(d0.has(q), z3.Not(d.has(q))), aliased(x, x.pre, s, q))))
    if x.eng.feasible(st, z3.Not(shared)):
        yield "the discovery is settled, no other", z3.Implies(z3.Not(shared), z3.ForAll([q], d.has(q) == z3.And(d0.has(q), q != x.g["name"])))
    yield from settled(x, st, z3.And(init, ee != 0), z3.And(init, ee == 0, d.card == 0), "discovery_failed", ee)
    sc = evs(st, "shutdown_continue")
    yield "a shutdown goes on exactly when the last discovery is settled, or one failed", iff(len(sc), z3.And(done, z3.Not(init)))
    for e in sc + evs(st, "init_continue"):
        yield "after the discovery is settled", z3.And(bv(e[1]) == x.g["actor"], same_map(tasks(x, e[-1]), d))
    yield "nothing else is sent", len(sent(x, st, "init_response")) == len(sent(x, st))


# ------------------------------------------------------------------ gates
def h_configure(eng, st, cc):
    """user code: it may register and discover names, so both maps and the link state are arbitrary afterwards"""
    x = eng.x
    st.events.append(("configure", cc.args[0], cc.args[1], st.copy()))
    for f, get in (("register_map", regs), ("discovery_map", tasks)):
        m = get(x, st)
        m1 = stl.new_map(eng, "re" + f, m.koff, m.kk)
        m1.oid = m.oid
        eng.cont_set(st, eng.ckey(st, addoff(x.g["this"], x.foff(RP + f))), "map", m1)
        m1.facts(eng, st)
    return [(st, None)]


def setup_init(x):
    setup(x)
    x.args.append(maybe(x, "request", "message"))


def post_init(x, st, ret):
    cf = evs(st, "configure")
    f0, f1 = x.rdb(x.pre, x.g["this"], RP + "plugin_state"), x.rdb(st, x.g["this"], RP + "plugin_state")
    c = x.lay["rpp::CONFIGURED"]
    yield "the actor configures it once", iff(len(cf), (f0 & c) == 0)
    for e in cf:
        yield "this actor, this plugin", z3.And(bv(e[1]) == x.g["actor"], bv(e[2]) == x.g["this"], (x.rdb(e[-1], x.g["this"], RP + "plugin_state") & c) != 0)
    yield "which is remembered", f1 == f0 | c
    r = tobool(ret)
    yield "initialization may go on only with no discovery open", z3.Implies(r, tasks(x, st).card == 0)
    yield "and no registration in progress", z3.Implies(r, idle(x, st))
    yield "and it does not wait for anything else", z3.Or(r, tasks(x, st).card != 0, busy(x, st))
    yield "nothing is sent", not sent(x, st) and not requests(x, st)


def setup_down(x):
    setup(x)
    x.args.append(maybe(x, "request", "message"))
    Ghost(x, "told")
    Ghost(x, "cancelled")


def h_put_down(eng, st, cc):
    x = eng.x
    r = h_put(eng, st, cc)
    m = Msg(x, st.events[-1][1], st.events[-1][2], st.events[-1][3])
    eng.oblige(st, "only names are deregistered", m.is_("deregistration_service"))
    if m.is_("deregistration_service"):
        nm = m.s("deregistration_service_t.payload.service_name")
        rm = regs(x, x.pre)
        n = rm.at(nm)
        eng.oblige(st, "at the registry", z3.And(m.dst == x.g["ra"], bv(m.sup) == x.g["sup"]))
        eng.oblige(st, "only names that are registered", z3.And(rm.has(nm), ri(x, x.pre, n, "state") == x.lay["rp::OPERATIONAL"], x.g["told"].get(x, st, n) == 0))
        t = x.g["told"]
        t.set(x, st, n, t.get(x, st, n) + 1)
    return r


def h_cancel(eng, st, cc):
    """discovery_task_t::do_cancel by its contract; whether the task may be dropped is remembered with it"""
    x = eng.x
    n = addoff(cc.args[0], -V)
    m = tasks(x, st)
    eng.oblige(st, "only recorded discoveries are cancelled", z3.And(m.has(stl.NODEKEY(bv(n))), m.at(stl.NODEKEY(bv(n))) == bv(n)))
    r = eng.sym("may_be_dropped", z3.BoolSort())
    c = x.g["cancelled"]
    c.set(x, st, n, z3.If(c.get(x, st, n) == 0, z3.If(r, B(2, 64), B(1, 64)), B(3, 64)))
    return [(st, r)]


def reg_down(x, st, m, n, q, done):
    s0 = ri(x, x.pre, n, "state")
    out = s0 == x.lay["rp::REGISTERING"]
    return z3.And(m.has(q) == z3.Or(out, z3.Not(done)), z3.Implies(m.has(q), z3.And(m.at(q) == n, ri(x, st, n, "state") == s0)),
                  x.g["told"].get(x, st, n) == z3.If(z3.And(done, s0 == x.lay["rp::OPERATIONAL"]), B(1, 64), B(0, 64)))


def task_down(x, st, d, n, q, done):
    c = x.g["cancelled"].get(x, st, n)
    return z3.And(z3.If(done, z3.Or(c == 1, c == 2), c == 0), d.has(q) == (c != 2), z3.Implies(d.has(q), d.at(q) == n))


def inv_down(eng, st, ctx):
    x = eng.x
    m0, d0, m, d = regs(x, x.pre), tasks(x, x.pre), regs(x, st), tasks(x, st)
    ps, which = None, None
    for c in sorted(ctx.mapit, key=str):
        which = ctx.mapit[c][1] if isinstance(ctx.mapit[c], tuple) else None
        v = bv(st.cells[c][1])
        e = stl.NODEKEY(v)
        e0 = regs(x, ctx.entry) if which == x.foff(RP + "register_map") else tasks(x, ctx.entry)
        ps = lambda q, v=v, e=e, e0=e0: z3.And(e0.has(q), z3.Or(v == 0, z3.Select(e0.rank, q) < z3.Select(e0.rank, e)))
    no, yes = z3.BoolVal(False), z3.BoolVal(True)
    add = lambda a, b: z3.ForAll([z], z3.Implies(b.has(z), a.has(z)))
    z = z3.FreshConst(BV64, "az")
    yield "no name is added", z3.And(add(m0, m), add(d0, d))
    if which == x.foff(RP + "register_map"):
        yield "passed names are settled, no other", keys(m0, lambda q, n: reg_down(x, st, m, n, q, ps(q)))
        yield "no discovery is touched", keys(d0, lambda q, n: task_down(x, st, d, n, q, no))
    elif which == x.foff(RP + "discovery_map"):
        yield "names do not change", z3.And(same_map(regs(x, ctx.entry), m), keys(m0, lambda q, n: z3.And(
            x.g["told"].get(x, st, n) == x.g["told"].get(x, ctx.entry, n), ri(x, st, n, "state") == ri(x, ctx.entry, n, "state"))))
        yield "passed discoveries are cancelled, no other", keys(d0, lambda q, n: task_down(x, st, d, n, q, ps(q)))
    else:
        yield "nothing was settled or all names were", z3.And(z3.Or(*[keys(m0, lambda q, n: reg_down(x, st, m, n, q, z3.BoolVal(v))) for v in (False, True)]), keys(d0, lambda q, n: task_down(x, st, d, n, q, no)))


def post_down(x, st, ret):
    m0, d0, m, d = regs(x, x.pre), tasks(x, x.pre), regs(x, st), tasks(x, st)
    yes = z3.BoolVal(True)
    yield "every registered name is deregistered once and forgotten, requests in flight are waited for", keys(m0, lambda q, n: reg_down(x, st, m, n, q, yes))
    yield "every discovery is cancelled once, and dropped if it may be", keys(d0, lambda q, n: task_down(x, st, d, n, q, yes))
    yield "the shutdown may go on <=> no name and no discovery is left", tobool(ret) == z3.And(m.card == 0, d.card == 0)
    yield "the reaction is over exactly then", z3.Implies(z3.Not(tobool(ret)), (x.rdb(st, x.g["this"], "plugin_base_t.reaction") == x.rdb(x.pre, x.g["this"], "plugin_base_t.reaction")))
    yield "then no address waits for a link", z3.Implies(tobool(ret), aliases(x, st).card == 0)


C = "rotor::plugin::registry_plugin_t::"
T = C + "discovery_task_t::"
HOOKS = [(r"^rotor::actor_base_t::shutdown_continue\(\)", h_ev("shutdown_continue")), (r"^rotor::actor_base_t::init_continue\(\)", h_ev("init_continue")),
         (r"^(virtual )?rotor::plugin::link_client_plugin_t::link\(|^virtual .*link_client_plugin_t#", link_hook),
         (r"^(virtual )?rotor::actor_base_t::get_plugin\(", plugin_hook), (r"^std::function<.*>::operator\(\)\(.*\) const$", h_callback),
         (r"^std::type_index::type_index\(", lambda eng, st, cc: [(st, None)])] + REQUESTS + [PUT]
ON_LINK = [(re.escape("rotor::plugin::registry_plugin_t::on_link(").join(["^", ""]), h_ev("on_link", nargs=2))]
POST = [(r"^rotor::plugin::registry_plugin_t::discovery_task_t::post_discovery\(", h_ev("post_discovery", nargs=2))]
ANSWER = [(r"^rotor::plugin::registry_plugin_t::discovery_task_t::on_discovery\(", h_task_answer)]
CONTRACTS = [
    Contract("register_name", re.escape(C) + r"register_name\(.*\)", setup_register, post_register, hooks=ON_LINK,
             cover=[("links", lambda x, s, r: bool(evs(s, "link"))), ("linking", lambda x, s, r: not evs(s, "link"))]),
    Contract("discover_name", re.escape(C) + r"discover_name\(.*\)", setup_discover, post_discover, hooks=ON_LINK,
             cover=[("links", lambda x, s, r: bool(evs(s, "link"))), ("linking", lambda x, s, r: not evs(s, "link"))]),
    Contract("on_link", re.escape(C) + r"on_link\(.*\)", setup_linked, post_on_link, hooks=[(r"^rotor::plugin::registry_plugin_t::discovery_task_t::do_discover\(", h_do_discover)],
             loops=[Loop(r"registry_plugin_t::on_link\(", inv_linked)]),
    Contract("on_registration", re.escape(C) + r"on_registration\(.*\)", setup_on_registration, post_on_registration, loops=SEARCH,
             cover=[("fails init", lambda x, s, r: bool(sent(x, s, "init_response"))), ("continues", lambda x, s, r: bool(evs(s, "init_continue"))),
                    ("late", lambda x, s, r: bool(sent(x, s, "deregistration_service"))), ("finishes", lambda x, s, r: bool(evs(s, "shutdown_continue")))]),
    Contract("plugin on_discovery", re.escape(C) + r"on_discovery\(.*\)", lambda x: setup_response(x, False), post_response, hooks=ANSWER),
    Contract("plugin on_future", re.escape(C) + r"on_future\(.*\)", lambda x: setup_response(x, True), post_response, hooks=ANSWER),
    Contract("task answered", re.escape(T) + r"on_discovery\((?:(?!\)::).)*\)", setup_task_answer, post_task_answer, hooks=POST,
             cover=[("links", lambda x, s, r: bool(evs(s, "link"))), ("second name", lambda x, s, r: not evs(s, "link") and not evs(s, "post_discovery")), ("fails", lambda x, s, r: x.g["ee"] != 0)]),
    Contract("do_discover", re.escape(T) + r"do_discover\(.*\)", lambda x: (setup(x), task(x)), post_do_discover),
    Contract("do_cancel", re.escape(T) + r"do_cancel\(.*\)", lambda x: (setup(x), task(x)), post_do_cancel,
             cover=[("cancels", lambda x, s, r: bool(sent(x, s))), ("drops", lambda x, s, r: tobool(r)), ("waits", lambda x, s, r: z3.Not(tobool(r)))]),
    Contract("post_discovery", re.escape(T) + r"post_discovery\(.*\)", setup_post, post_post, loops=[Loop(r"discovery_task_t::post_discovery\(", inv_post)],
             cover=[("fails init", lambda x, s, r: bool(sent(x, s))), ("continues", lambda x, s, r: bool(evs(s, "init_continue"))), ("finishes", lambda x, s, r: bool(evs(s, "shutdown_continue")))]),
    Contract("registry handle_init", re.escape(C) + r"handle_init\(.*\)", setup_init, post_init, hooks=[(r"^virtual .*::configure\(", h_configure)], loops=SEARCH,
             cover=[("may finish", lambda x, s, r: tobool(r)), ("waits", lambda x, s, r: z3.Not(tobool(r)))]),
    Contract("registry handle_shutdown", re.escape(C) + r"handle_shutdown\(.*\)", setup_down, post_down,
             hooks=[(r"^rotor::supervisor_t::put\(", h_put_down), (r"^rotor::plugin::registry_plugin_t::discovery_task_t::do_cancel\(", h_cancel)],
             loops=[Loop(r"registry_plugin_t::handle_shutdown\(", inv_down)],
             cover=[("may finish", lambda x, s, r: tobool(r)), ("waits", lambda x, s, r: z3.Not(tobool(r)))]),
]


# ------------------------------------------------------------------ the address of a discovery is linked
POSITION = z3.Function("position_of_name", BV64, BV64)


def setup_outcome(x):
    setup(x)
    m, a = tasks(x, x.st), aliases(x, x.st)
    cl = x.ptr("closure", "closure")
    nm = x.sym("first_name")
    n, t = m.at(nm), x.ptr("target", "target")
    x.eng.store(x.st, cl, 8, x.g["this"])
    stl.str_set(x.eng, x.st, addoff(cl, 8), nm)
    ee = maybe(x, "error", "error")
    x.eng.setkind(x.st, n, "node")
    x.eng.store(x.st, addoff(n, V + x.lay[DT + "address"][0]), 8, t)
    tv = target_of(x, x.st, t)
    s = names(x, x.st, a, tv)
    # the names that wait for this link are all open
    x.assume(z3.Implies(m.has(nm), z3.And(a.has(tv), upto(s, zi(s.len()), lambda e: m.has(str_at(x, x.st, e.addr))))))
    # and distinct
    x.assume(upto(s, zi(s.len()), lambda e: POSITION(str_at(x, x.st, e.addr)) == zi(e.pos)))
    x.g.update(name=nm, node=n, target=t, ee=ee, addr=tv)
    x.args = [cl, cell(x, ee)]
    Ghost(x, "called")


def target_of(x, st, t):
    return bv(x.load(st, t, 8))


def h_count_callback(eng, st, cc):
    """the callback of a discovery, told about the linking; it does not re-enter the plugin (assumption)"""
    x = eng.x
    a = cc.args
    n = addoff(a[0], -(V + x.lay[DT + "task_callback"][0]))
    m = tasks(x, st)
    eng.oblige(st, "a callback of an open discovery", z3.And(m.has(stl.NODEKEY(bv(n))), m.at(stl.NODEKEY(bv(n))) == bv(n)))
    eng.oblige(st, "which has one", fnw(x, x.pre, n)[2] != 0)
    eng.oblige(st, "about the linking, with its outcome", z3.And(bv(a[1], 32) == x.lay["dphase::linking"], bv(eng.load(st, a[2], 8)) == x.g["ee"]))
    c = x.g["called"]
    c.set(x, st, n, c.get(x, st, n) + 1)
    return [(st, None)]


def inv_outcome(eng, st, ctx):
    x = eng.x
    m, a0 = tasks(x, x.pre), aliases(x, x.pre)
    yield "the discoveries are untouched", z3.And(same_map(m, tasks(x, st)), same_map(a0, aliases(x, st)))
    s = names(x, x.pre, a0, x.g["addr"])
    k, facts = progress(eng, st, ctx, s.len())
    for i, f in enumerate(facts):
        yield "progress %d" % i, f
    nk = zi(k) if k is not None else zi(0)
    yield "the callbacks of the passed names were told, once each", upto(s, zi(s.len()), lambda e: told(x, st, m, e, zi(e.pos) < nk))


def told(x, st, m, e, done):
    n = m.at(str_at(x, x.pre, e.addr))
    return x.g["called"].get(x, st, n) == z3.If(z3.And(done, fnw(x, x.pre, n)[2] != 0), B(1, 64), B(0, 64))


def post_outcome(x, st, ret):
    m, a0 = tasks(x, x.pre), aliases(x, x.pre)
    pd = evs(st, "post_discovery")
    yield "the discovery is settled once, if it is still wanted", iff(len(pd), m.has(x.g["name"]))
    for e in pd:
        yield "this one, with the outcome", z3.And(bv(e[1]) == x.g["node"] + V, bv(x.load(e[-1], e[2], 8)) == x.g["ee"])
    yield "the discoveries are untouched", z3.And(same_map(m, tasks(x, st)), same_map(a0, aliases(x, st)))
    if not pd:
        return
    s = names(x, x.pre, a0, x.g["addr"])
    yield "every name's callback is told once", upto(s, zi(s.len()), lambda e: told(x, st, m, e, z3.BoolVal(True)))


CONTRACTS += [
    Contract("linking outcome", r"(auto |void )?" + re.escape(T) + r"on_discovery\(.*\)::.*operator\(\)<.*>\(.*\) const", setup_outcome, post_outcome,
             hooks=POST + [(r"^std::function<.*>::operator\(\)\(.*\) const$", h_count_callback)], loops=[Loop(r"discovery_task_t::on_discovery\(", inv_outcome)]),
]
