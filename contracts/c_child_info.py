"""Spawner restart policy: which terminations lead to a new instance, to an escalation, or to nothing."""
import z3
from contracts_lib import *

TUS = ["src/rotor/detail/child_info.cpp", "src/rotor/actor_base.cpp"]
CI = "child_info_t."
POLICY = ("always", "never", "ask_actor", "normal_only", "fail_only")
NO, NOW, ESC, LATER = 0, 1, 2, 3


def f(x, st, n):
    v = x.rdb(st, x.g["this"], CI + n)
    return (v & 1) != 0 if n in ("active", "escalate_failure", "initialized", "started") else v


def pol(x, n):
    return f(x, x.pre if hasattr(x, "pre") else x.st, "policy") == x.lay["policy::" + n]


def inv(x, st):
    """representation invariant: a record that may still respawn has attempts left and a policy that allows it"""
    att, mx = f(x, st, "attempts"), f(x, st, "max_attempts")
    return z3.And(
        z3.Implies(z3.And(f(x, st, "active"), mx != 0, att != 0), z3.ULT(att, mx)),
        z3.Implies(z3.And(f(x, st, "active"), att != 0), f(x, st, "policy") != x.lay["policy::never"]))


def setup(x):
    this = x.ptr("this", "childinfo")
    x.g.update(this=this)
    x.assume(z3.ULT(f(x, x.st, "attempts"), 1 << 60))
    x.assume(z3.Or([f(x, x.st, "policy") == x.lay["policy::" + p] for p in POLICY]))
    x.assume(inv(x, x.st))
    x.args = [this]


def post_attempt(x, st, ret):
    yield "invariant: inactive once attempts are used up or the policy is 'never'", inv(x, st)
    yield "one more attempt is counted", f(x, st, "attempts") == f(x, x.pre, "attempts") + 1
    yield "no respawn timer is pending", f(x, st, "timer_id") == 0
    yield "never re-activated by an attempt", z3.Implies(f(x, st, "active"), f(x, x.pre, "active"))
    a1 = f(x, x.pre, "attempts") + 1
    mx = f(x, x.pre, "max_attempts")
    yield "stays active while attempts are left and the policy is not 'never'", z3.Implies(
        z3.And(f(x, x.pre, "active"), z3.Or(mx == 0, z3.ULT(a1, mx)), z3.Not(pol(x, "never"))), f(x, st, "active"))
    yield "the new instance is neither initialized nor started nor shutting down", z3.And(
        z3.Not(f(x, st, "initialized")), z3.Not(f(x, st, "started")), f(x, st, "shutdown") == x.lay["shutdown::none"])
    ck = [e[1] for e in st.events if e[0] == "clock"]
    yield "instantiation time is the clock", (f(x, st, "last_instantiation") == ck[-1]) if ck else False
    for k in ("policy", "restart_period", "max_attempts"):
        yield "configuration kept (%s)" % k, f(x, st, k) == f(x, x.pre, k)


def setup_next(x):
    setup(x)
    ab = x.eng.sym0("abnormal", z3.BoolSort())
    x.g["abnormal"] = ab
    x.args.append(ab)
    x.assume(f(x, x.st, "attempts") != 0)
    x.rd(x.st, x.g["this"], CI + "actor")


def asks(st):
    return [e for e in st.events if e[0] == "ask"]


def post_next(x, st, ret):
    idx = bv(ret[1], 8)
    dur = bv(ret[0], 64)
    ab = x.g["abnormal"]
    act, esc, tm = f(x, x.pre, "active"), f(x, x.pre, "escalate_failure"), f(x, x.pre, "timer_id")
    att, mx = f(x, x.pre, "attempts"), f(x, x.pre, "max_attempts")
    exhausted = z3.And(mx != 0, z3.UGE(att, mx))
    a = asks(st)
    answer = a[0][1] if a else z3.BoolVal(False)
    allowed = z3.Or(pol(x, "always"), z3.And(pol(x, "normal_only"), z3.Not(ab)), z3.And(pol(x, "fail_only"), ab),
                    z3.And(pol(x, "ask_actor"), z3.BoolVal(bool(a)), answer))
    respawn = z3.Or(idx == NOW, idx == LATER)
    escd = idx == ESC
    yield "result is a valid demand", z3.ULE(idx, 3)
    yield "nothing happens while a respawn timer is pending", z3.Implies(tm != 0, idx == NO)
    yield "an inactive spawner never respawns", z3.Implies(z3.Not(act), z3.Not(respawn))
    yield "attempts are never exceeded", z3.Implies(exhausted, z3.Not(respawn))
    yield "policy 'never' never respawns", z3.Implies(pol(x, "never"), z3.Not(respawn))
    yield "respawn only when the policy allows this kind of termination", z3.Implies(respawn, allowed)
    yield "policy-allowed termination of an active spawner respawns", z3.Implies(
        z3.And(act, tm == 0, allowed, z3.Not(escd)), respawn)
    yield "escalation only if requested", z3.Implies(escd, esc)
    yield "no escalation of a normal termination with attempts left", z3.Implies(z3.And(z3.Not(ab), z3.Not(exhausted)), z3.Not(escd))
    yield "requested escalation: abnormal end that will not be retried (attempts used up)", z3.Implies(
        z3.And(esc, tm == 0, ab, exhausted), escd)
    yield "requested escalation: abnormal end under 'normal_only'", z3.Implies(z3.And(esc, tm == 0, ab, pol(x, "normal_only")), escd)
    yield "requested escalation: abnormal end of an exhausted 'always'", z3.Implies(
        z3.And(esc, tm == 0, ab, pol(x, "always"), z3.Not(act)), escd)
    yield "an active spawner with attempts left that may be respawned is not escalated", z3.Implies(
        z3.And(act, z3.Not(exhausted), allowed), z3.Not(escd))
    ck = [e[1] for e in st.events if e[0] == "clock"]
    if ck:
        el = ck[0] - f(x, x.pre, "last_instantiation")
        yield "immediate respawn only after the restart period", z3.Implies(idx == NOW, el >= f(x, x.pre, "restart_period"))
        yield "delayed respawn only within the restart period", z3.Implies(idx == LATER, el < f(x, x.pre, "restart_period"))
    else:
        yield "respawn demand consults the clock", z3.Not(respawn)
    yield "the actor is asked at most once and only under ask_actor", z3.Implies(z3.BoolVal(bool(a)), pol(x, "ask_actor")) if len(a) < 2 else False
    yield "refused respawn deactivates the spawner", z3.Implies(z3.And(act, tm == 0, idx == NO), z3.Not(f(x, st, "active")))
    yield "respawn keeps it active", z3.Implies(respawn, f(x, st, "active"))
    yield "invariant kept", inv(x, st)
    yield "attempt count untouched", f(x, st, "attempts") == att


def h_ask(eng, st, cc):
    b = eng.sym("should_restart", z3.BoolSort())
    st.events.append(("ask", b))
    return [(st, b)]


HOOKS = [(r"^virtual .*::should_restart\(", h_ask)]
C = "rotor::detail::child_info_t::"
CONTRACTS = [
    Contract("spawn_attempt", re.escape(C) + r"spawn_attempt\(\)", setup, post_attempt),
    Contract("next_spawn", re.escape(C) + r"next_spawn\(bool\)", setup_next, post_next, strict_null=False,
             cover=[("respawn now", lambda x, s, r: bv(r[1], 8) == NOW), ("later", lambda x, s, r: bv(r[1], 8) == LATER),
                    ("escalate", lambda x, s, r: bv(r[1], 8) == ESC), ("no", lambda x, s, r: bv(r[1], 8) == NO)]),
]
