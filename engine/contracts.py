"""Contract runner: pre-state set-up, symbolic execution of the real function, postcondition obligations, vacuity guards."""
import os, re, sys, time, traceback
import z3
import sym, stl
from ir import Module, Unsupported, dem, demangle_all
from sym import Engine, State, Iter, VFn, bv, tobool, isz, addoff, split, BV64, REGION0, short
from front import Layout, compile_all, FrontError, REPO


class Ctx:
    """one verification of one function"""

    def __init__(self, eng, lay, contract):
        self.eng, self.lay, self.contract = eng, lay, contract
        self.st = State()
        self.args = []
        self.g = {}  # ghost / named terms of the pre-state

    # ---- symbols
    def ptr(self, name, kind=None, nonnull=True):
        p = self.eng.sym0(name)
        self.st.facts.append(z3.ULT(p, z3.BitVecVal(1 << 60, 64)))
        if nonnull:
            self.st.facts.append(z3.UGT(p, z3.BitVecVal(1 << 16, 64)))
        if kind:
            self.eng.setkind(self.st, p, kind)
        return p

    def sym(self, name, w=64):
        return self.eng.sym0(name, z3.BitVecSort(w))

    def assume(self, f):
        self.st.assume(f)

    # ---- fields
    def foff(self, cf):
        return self.lay[cf][0]

    def rd(self, st, base, cf):
        o, n = self.lay[cf]
        if n not in (1, 2, 4, 8):
            raise Unsupported("field size %s" % cf)
        return self.load(st, addoff(base, o), n)

    def load(self, st, a, n=8):
        """read of a specification: does not assume that the address is not null"""
        was, self.eng.spec = self.eng.spec, True
        try:
            return self.eng.load(st, a, n)
        finally:
            self.eng.spec = was

    def rdb(self, st, base, cf):
        return bv(self.rd(st, base, cf), 8 * self.lay[cf][1])

    def wr(self, st, base, cf, v):
        o, n = self.lay[cf]
        self.eng.store(st, addoff(base, o), n, v)

    def seq(self, st, base, cf):
        return stl.seq_get(self.eng, st, self.eng.ckey(st, addoff(base, self.lay[cf][0])))

    def map(self, st, base, cf, kk="int", koff=8):
        return stl.map_get(self.eng, st, self.eng.ckey(st, addoff(base, self.lay[cf][0])), koff, kk)

    def str(self, st, base, cf):
        return stl.str_get(self.eng, st, addoff(base, self.lay[cf][0]))

    def elem_kind(self, c, kind, off=0):
        """the elements (values) of container c point to objects of this kind"""
        arrs = [c.node] if isinstance(c, stl.Map) else [p[1] for p in c.pieces if p[0] != "one"]
        for a in arrs:
            self.eng.elemkinds[(a.get_id(), off)] = (a, kind)
        return c

    def fix_vtable(self, obj, cls_mangled):
        """the object's dynamic type is exactly the class whose vtable symbol is given (assumption of the contract)"""
        for m in self.eng.mods:
            if cls_mangled in m.gtext and m.gvar(cls_mangled) and m.gvar(cls_mangled)[1] is not None:
                self.eng.hwrite(self.st, obj, 0, 8, self.eng.global_addr(cls_mangled, m) + 16)
                return
        raise Unsupported("vtable " + cls_mangled)

    def event(self, st, *e):
        st.events.append(e)


class Contract:
    """fn: regex matched (fullmatch) against the demangled name"""

    def __init__(self, name, fn, setup, post, cover=None, loops=(), hooks=(), strict_null=True, max_paths=None, timeout=None,
                 twin=None):
        self.name, self.fn, self.setup, self.post = name, fn, setup, post
        self.cover = cover or []
        self.loops, self.hooks, self.strict_null = loops, hooks, strict_null
        self.max_paths, self.timeout = max_paths, timeout
        self.twin = twin  # bounded stand-in: same function, containers of bounded size, loops unrolled
        self.bounded = False


def bounded(c, bound, setup=None, post=None, cover=(), hooks=None, loops=()):
    """the bounded stand-in of contract c"""
    t = Contract(c.name + " (bounded)", c.fn, setup or c.setup, post or c.post, cover=list(cover), loops=loops,
                 hooks=c.hooks if hooks is None else hooks, strict_null=c.strict_null, max_paths=c.max_paths, timeout=c.timeout)
    t.bounded, t.bound = True, bound
    return t


def with_twin(c, bound, **kw):
    c.twin = bounded(c, bound, **kw)
    return c


def find_fn(eng, rx):
    r = re.compile(rx)
    c = [f for n, f in eng.index.items() if r.fullmatch(dem(n))]
    # C1/C2, D1/D2 duplicates: any
    if not c:
        raise Unsupported("function not found: " + rx)
    names = {dem(f.name) for f in c}
    if len(names) > 1:
        raise Unsupported("ambiguous function: %s -> %s" % (rx, sorted(names)[:4]))
    return c[0]


class Result:
    def __init__(self, c):
        self.c = c
        self.obls = []
        self.paths = 0
        self.error = None
        self.kind = "ok"
        self.inlined = []
        self.fn = None
        self.time = 0.0
        self.solver = 0.0
        self.queries = 0
        self.bounded_ok = None


LOOP_INV = re.compile(r"loop invariant (.*) \((established|preserved)\) in ")


def refuted(r):
    """names of the candidate loop invariants that could not be proved"""
    return {m.group(1) for m in (LOOP_INV.match(o.name) for o in r.obls if o.status != "discharged") if m}


def verify(mods, lay, c, budget=120, cross=None, base_hooks=(), verbose=False):
    """The inductive proof decides. Loop invariants are candidates: where one does not hold for a loop (it was rewritten), it is
    dropped, and the proof has to go through with the others. Where it does not, the bounded stand-in of the same
    contract, if there is one (every loop unrolled, containers up to the stated size, everything else symbolic), decides whether there
    is a violation; its success is never counted as a proof. A contract whose loop invariants were refuted is otherwise not decided by proof: the failure may be
    that of the hints and not of the code."""
    r = verify1(mods, lay, c, budget, cross, base_hooks, verbose)
    if r.kind == "ok":
        return r
    drop, t0 = set(), time.time()
    bad = refuted(r) if r.kind == "failed" else set()
    while bad - drop and time.time() - t0 < budget:
        drop |= bad
        h = verify1(mods, lay, c, max(20, budget - (time.time() - t0)), cross, base_hooks, verbose, drop)
        for f in ("time", "solver", "queries"):
            setattr(h, f, getattr(h, f) + getattr(r, f))
        if h.kind == "ok":
            h.error = "proved without the loop invariants: " + "; ".join(sorted(drop))
            return h
        r = h
        bad = refuted(r)
    if c.twin is not None:
        t = verify1(mods, lay, c.twin, budget, cross, base_hooks, verbose)
        t.time += r.time
        t.solver += r.solver
        t.queries += r.queries
        if t.kind == "failed":
            t.error = "counterexample within the bound: " + (c.twin.bound or "")
            return t
        if t.kind == "ok":
            bad = [o for o in r.obls if o.status == "failed"]
            r.kind = "unsupported"
            r.error = "inductive proof did not go through (%s); bounded stand-in holds (%s)" % (
                "; ".join(o.name for o in bad)[:200] if bad else r.error, c.twin.bound)
            r.bounded_ok = t
            return r
    if drop and r.kind == "failed":
        r.kind = "unsupported"
        r.error = "the loop invariants no longer apply (%s), without them no proof of: %s" % (
            "; ".join(sorted(drop))[:200], "; ".join(sorted({o.name for o in r.obls if o.status != "discharged"}))[:300])
    return r


def verify1(mods, lay, c, budget=120, cross=None, base_hooks=(), verbose=False, drop=()):
    """run one contract; never raises"""
    r = Result(c)
    t0 = time.time()
    try:
        eng = Engine(mods)
        eng.cross = cross
        eng.dropped = set(drop)
        if drop:
            eng.hard = 9  # no second attempts
        eng.strict_null = c.strict_null
        if c.max_paths:
            eng.max_paths = c.max_paths
        eng.deadline = t0 + (c.timeout or budget)
        for rx, h in list(c.hooks) + list(base_hooks):
            eng.hooks.append((re.compile(rx), h))
        stl.install(eng)
        eng.loopspecs = list(c.loops)
        f = find_fn(eng, c.fn)
        r.fn = f
        eng.cur_fn = short(dem(f.name))
        x = Ctx(eng, lay, c)
        eng.x = x
        eng.spec = True
        c.setup(x)
        eng.spec = False
        # vacuity: precondition satisfiable
        if eng.check(x.st, quant=True, timeout=3000) == z3.unsat:
            raise Unsupported("vacuous precondition")
        x.pre = x.st.copy()
        args = x.args
        if callable(args):
            args = args()
        outs = eng.exec_func(x.st, f, list(args))
        r.paths = len(outs)
        live = []
        eng.spec = True
        for s, ret in outs:
            res = eng.check(s, quant=True, timeout=1500)
            if res != z3.unsat:
                live.append((s, ret))
        if not live and not any(o.status != "discharged" for o in eng.obls):
            raise Unsupported("no terminating path")
        for s, ret in live:
            for nm, fm in c.post(x, s, ret):
                eng.oblige(s, nm, fm)
            if verbose:
                print("   path:", [t[-100:] for t in s.trace][-8:])
        # covers: each must be reachable on some path
        for nm, fn in c.cover:
            ok = False
            for s, ret in live:
                v = fn(x, s, ret)
                if v is True or (v is not False and v is not None and eng.check(s, [tobool(v)], quant=False, timeout=4000) == z3.sat):
                    ok = True
                    break
            if not ok and not any(o.status != "discharged" for o in eng.obls):
                r.obls = eng.obls
                raise Unsupported("cover unreachable: " + nm)
        if not eng.obls:
            raise Unsupported("no obligation generated")
        # canary: 'false' must not be provable on a live path
        if live and not any(eng.check(s, quant=True, timeout=3000) != z3.unsat for s, _ in live[:2]):
            raise Unsupported("contradictory path facts")
    except Unsupported as e:
        r.kind, r.error = "unsupported", str(e)[:400]
        if os.environ.get("TB"):
            traceback.print_exc()
    except FrontError as e:
        r.kind, r.error = "unsupported", str(e)[:400]
    except z3.Z3Exception as e:
        r.kind, r.error = "unsupported", "z3: %s %s" % (str(e)[:200], traceback.format_exc()[-600:])
    except RecursionError as e:
        r.kind, r.error = "unsupported", "recursion"
    except Exception as e:
        r.kind, r.error = "unsupported", "internal: " + traceback.format_exc()[-1500:]
    try:
        r.obls = eng.obls
        r.inlined = sorted(eng.inlined)
        r.solver, r.queries = eng.solver_time, eng.queries
        r.used = dict(eng.contract_used)
        r.cross_stats = eng.__dict__.get("cross_stats")
    except UnboundLocalError:
        pass
    if any(o.status == "failed" for o in r.obls):
        r.kind = "failed"
        odd = [o.name for o in r.obls if o.status == "failed" and o.name.startswith("order: ")]
        if odd:  # the contract of a callee is stated for another arrangement of the calls: what follows is not meaningful
            r.kind, r.error = "unsupported", "the calls are arranged in another way than the contract supposes: " + "; ".join(sorted(set(odd)))
    elif r.kind == "ok" and any(o.status == "unknown" for o in r.obls):
        r.kind, r.error = "unsupported", "solver gave up on: " + "; ".join(o.name for o in r.obls if o.status == "unknown")[:300]
    r.time = time.time() - t0
    return r
