"""Resources plugin: counting holds gates initialization and shutdown."""
import z3
from contracts_lib import *

RES = "resources_plugin_t.resources"
TUS = ["src/rotor/plugin/resources.cpp", "src/rotor/plugin/plugin_base.cpp"]


def setup(x, nargs=0):
    this = x.ptr("this", "plugin")
    actor = x.ptr("actor", "actor")
    x.fix_vtable(this, "@_ZTVN5rotor6plugin18resources_plugin_tE")
    x.wr(x.st, this, "plugin_base_t.actor", actor)
    x.args = [this]
    x.g.update(this=this, actor=actor, state=x.rdb(x.st, actor, "actor_base_t.state"),
               mask=x.rdb(x.st, actor, "actor_base_t.continuation_mask"))
    x.assume(z3.ULE(x.g["state"], 6))


def setup_id(x):
    setup(x)
    i = x.sym("id")
    x.assume(z3.ULT(i, 1 << 24))
    x.args.append(i)
    x.g["id"] = i


def cnt(x, st, a):
    return bv(x.eng.load(st, a, 4), 32)


def val(x, st, j):
    """counter of resource j (zero behind the end)"""
    s = x.seq(st, x.g["this"], RES)
    if not s.pieces:
        return z3.BitVecVal(0, 32)
    return z3.If(z3.And(j >= 0, j < zi(s.len())), cnt(x, st, s.get(j)), z3.BitVecVal(0, 32))


def held(x, st):
    s = x.seq(st, x.g["this"], RES)
    return s.exists(lambda a: cnt(x, st, a) != 0)


def post_has_any(x, st, ret):
    yield "something is held <=> some counter is non-zero", tobool(ret) == held(x, x.pre)
    yield "counters untouched", x.seq(st, x.g["this"], RES) is x.seq(x.pre, x.g["this"], RES)


def post_has(x, st, ret):
    j = x.g["id"]
    yield "reports the counter", bv(ret, 32) == val(x, x.pre, j)


def bit(x, st, r):
    return (x.rdb(st, x.g["this"], "plugin_base_t.reaction") & x.lay["reaction_t::" + r]) != 0


def conts(st):
    return [e for e in st.events if e[0] in ("init_continue", "shutdown_continue")]


def post_acquire(x, st, ret):
    j = z3.BitVec("j", 64)
    i = x.g["id"]
    S = x.g["state"]
    yield "only the acquired counter changes, by +1", z3.Implies(
        j >= 0, val(x, st, j) == val(x, x.pre, j) + z3.If(j == i, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
    yield "acquired while initializing => initialization is gated", z3.Implies(
        S == x.lay["state_t::INITIALIZING"], bit(x, st, "INIT"))
    yield "acquired when operational or later => shutdown is gated", z3.Implies(
        z3.UGE(S, x.lay["state_t::OPERATIONAL"]), bit(x, st, "SHUTDOWN"))
    for r in ("INIT", "SHUTDOWN", "SUBSCRIPTION", "START"):
        yield "reactions are never lost (%s)" % r, z3.Implies(bit(x, x.pre, r), bit(x, st, r))


def setup_rel(x):
    setup_id(x)
    i = x.g["id"]
    s = x.seq(x.st, x.g["this"], RES)
    x.assume(i < zi(s.len()))
    x.assume(val(x, x.st, i) != 0)


def post_release(x, st, ret):
    j = z3.BitVec("j", 64)
    i = x.g["id"]
    S, mask = x.g["state"], x.g["mask"]
    h = held(x, st)
    yield "only the released counter changes, by -1", z3.Implies(
        j >= 0, val(x, st, j) == val(x, x.pre, j) - z3.If(j == i, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
    yield "result tells whether something is still held", tobool(ret) == h
    ini = z3.And(S == x.lay["state_t::INITIALIZING"], z3.Not(h), (mask & x.lay["PROGRESS_INIT"]) == 0)
    shu = z3.And(S == x.lay["state_t::SHUTTING_DOWN"], z3.Not(h), (mask & x.lay["PROGRESS_SHUTDOWN"]) == 0)
    ev = conts(st)
    ni = len([e for e in ev if e[0] == "init_continue"])
    ns = len(ev) - ni
    yield "last release resumes initialization exactly once", (ini if ni == 1 else z3.Not(ini)) if ni < 2 else False
    yield "last release resumes shutdown exactly once", (shu if ns == 1 else z3.Not(shu)) if ns < 2 else False


def setup_req(x):
    setup(x)
    x.args.append(x.ptr("req", "message"))


def post_init(x, st, ret):
    yield "init may proceed <=> nothing is held", tobool(ret) == z3.Not(held(x, st))
    n = len([e for e in st.events if e[0] == "configure"])
    was = x.rdb(x.pre, x.g["this"], "resources_plugin_t.configured") & 1
    yield "the actor is configured exactly once", (was == 0) if n == 1 else z3.And(n == 0, was != 0)
    yield "configured is recorded", (x.rdb(st, x.g["this"], "resources_plugin_t.configured") & 1) == 1


def post_shutdown(x, st, ret):
    yield "shutdown may proceed <=> nothing is held", tobool(ret) == z3.Not(held(x, st))


def h_event(name):
    def h(eng, st, cc):
        st.events.append((name, cc.args[0]))
        return [(st, None)]

    return h


def h_configure(eng, st, cc):
    """user code: may acquire any resources of this actor"""
    st.events.append(("configure", cc.args[0]))
    x = eng.x
    this = x.g["this"]
    stl.havoc_cont(eng, st, ("k", x.foff(RES), "seq", this))
    eng.sym("cfg")
    root = eng.sym("Hcfg", z3.ArraySort(BV64, z3.BitVecSort(32)))
    st.heap[(0, 4)] = HeapArr(root, (), 4)
    return [(st, None)]


HOOKS = [
    (r"^rotor::actor_base_t::init_continue\(\)", h_event("init_continue")),
    (r"^rotor::actor_base_t::shutdown_continue\(\)", h_event("shutdown_continue")),
    (r"^virtual .*::configure\(|^virtual .*actor_base_t#", h_configure),
]
C = "rotor::plugin::resources_plugin_t::"
CONTRACTS = [
    Contract("has_any", re.escape(C) + r"has_any\(\)", setup, post_has_any,
             cover=[("true", lambda x, s, r: tobool(r)), ("false", lambda x, s, r: z3.Not(tobool(r)))]),
    Contract("has", re.escape(C) + r"has\(unsigned long\)", setup_id, post_has),
    Contract("acquire", re.escape(C) + r"acquire\(unsigned long\)", setup_id, post_acquire),
    Contract("release", re.escape(C) + r"release\(unsigned long\)", setup_rel, post_release,
             cover=[("resume init", lambda x, s, r: len(conts(s)) == 1)]),
    Contract("handle_init", re.escape(C) + r"handle_init\(.*\)", setup_req, post_init),
    Contract("handle_shutdown", re.escape(C) + r"handle_shutdown\(.*\)", setup_req, post_shutdown),
]
