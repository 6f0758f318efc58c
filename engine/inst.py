"""Ground instantiation: a proof attempt that only uses instances of the quantified assumptions.

The assertions (facts and the negated goal) are brought into negation normal form with the goal's quantifiers
skolemized; every universally quantified part is then replaced by finitely many of its instances, taken from
the index terms that occur in the ground part (array reads, uninterpreted function arguments, equalities and
bounds). Every step weakens the assertions, so `unsat` is a proof; anything else is no answer.
"""
import time

import z3

MAXI = 400
ELIM = z3.Then("simplify", "elim-term-ite", "solve-eqs", "smt")
DEBUG = DUMP = False


def flat(fs):
    out, todo = [], list(fs)
    while todo:
        f = todo.pop()
        if z3.is_and(f):
            todo.extend(f.children())
        else:
            out.append(f)
    return out


def quant(f, memo):
    st = [f]
    seen = set()
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen or i in memo:
            continue
        seen.add(i)
        st.extend(x.children())
    memo.update(seen)
    return False


def roots(a, memo):
    i = a.get_id()
    if i in memo:
        return memo[i][1]
    k = a.decl().kind() if z3.is_app(a) else None
    if k == z3.Z3_OP_STORE:
        r = roots(a.arg(0), memo)
    elif k == z3.Z3_OP_ITE:
        r = roots(a.arg(1), memo) | roots(a.arg(2), memo)
    elif k == z3.Z3_OP_UNINTERPRETED:
        r = frozenset([a.decl().name() if a.num_args() == 0 else str(a)])
    else:
        r = frozenset()
    memo[i] = (a, r)
    return r


def bvsub(t, c):
    return t if c is None else z3.simplify(t - c)


BOUND = set()


def _register(f):
    def q(vs, *a, **k):
        for v in vs if isinstance(vs, (list, tuple)) else [vs]:
            BOUND.add(v.decl().name())
        return f(vs, *a, **k)

    return q


z3.ForAll, z3.Exists = _register(z3.ForAll), _register(z3.Exists)
_free = {}


def leaked(f):
    """a fact about a constant that only stood for a bound variable while a formula was built"""
    i = f.get_id()
    if i in _free:
        return _free[i][1]
    if z3.is_quantifier(f):
        r = leaked(f.body())
    elif z3.is_app(f):
        r = f.num_args() == 0 and f.decl().kind() == z3.Z3_OP_UNINTERPRETED and f.decl().name() in BOUND or any(leaked(c) for c in f.children())
    else:
        r = False
    _free[i] = (f, r)
    return r


class Index:
    def __init__(self):
        self.terms = {}
        self.eqs = {}
        self.seen = set()
        self.rm = {}
        self.keep = []

    def put(self, key, t):
        d = self.terms.setdefault(key, {})
        t = z3.simplify(t)
        d.setdefault(t.get_id(), t)
        self.keep.append(t)

    def scan(self, f):
        todo = [f]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in self.seen or z3.is_quantifier(x) or z3.is_var(x):
                continue
            self.seen.add(i)
            self.keep.append(x)
            ch = x.children()
            todo.extend(ch)
            k = x.decl().kind()
            if k == z3.Z3_OP_SELECT:
                for r in roots(ch[0], self.rm):
                    self.put(("a", r), ch[1])
            elif k == z3.Z3_OP_STORE:
                for r in roots(ch[0], self.rm):
                    self.put(("a", r), ch[1])
            elif k == z3.Z3_OP_UNINTERPRETED and ch:
                for j, c in enumerate(ch):
                    self.put(("f", x.decl().name(), j), c)


def lin(t, n):
    """t == var + c: (var index, c); c None for zero"""
    if z3.is_var(t):
        return z3.get_var_index(t), None
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_ADD):
        vs = [c for c in t.children() if z3.is_var(c)]
        if len(vs) == 1:
            rest = [c for c in t.children() if not z3.is_var(c)]
            if all(not hasvar(c) for c in rest):
                s = rest[0]
                for c in rest[1:]:
                    s = s + c
                return z3.get_var_index(vs[0]), s
    return None


_hv = {}


def hasvar(t):
    i = t.get_id()
    if i in _hv:
        return _hv[i][1]
    if z3.is_var(t):
        r = True
    elif z3.is_quantifier(t):
        r = True
    else:
        r = any(hasvar(c) for c in t.children())
    _hv[i] = (t, r)
    return r


def patterns(body, idx):
    """variable index -> list of (key, offset); and terms the variable is compared with"""
    pats, eqs = {}, {}
    seen = set()
    todo = [body]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen or z3.is_quantifier(x) or z3.is_var(x):
            continue
        seen.add(i)
        if not hasvar(x):
            continue
        ch = x.children()
        todo.extend(ch)
        k = x.decl().kind()
        if k == z3.Z3_OP_SELECT:
            l = lin(ch[1], 0)
            if l:
                for r in roots(ch[0], idx.rm):
                    pats.setdefault(l[0], []).append((("a", r), l[1]))
        elif k == z3.Z3_OP_UNINTERPRETED:
            for j, c in enumerate(ch):
                l = lin(c, 0)
                if l:
                    pats.setdefault(l[0], []).append((("f", x.decl().name(), j), l[1]))
        elif k == z3.Z3_OP_EQ:
            for a, b in (ch, ch[::-1]):
                l = lin(a, 0)
                if l and not hasvar(b):
                    eqs.setdefault(l[0], []).append(bvsub(b, l[1]))
        elif k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            for a, b in (ch, ch[::-1]):
                l = lin(a, 0)
                if l and not hasvar(b):
                    t = bvsub(b, l[1])
                    eqs.setdefault(l[0], []).append(t)
                    if z3.is_bv(t):
                        eqs[l[0]].append(z3.simplify(t - 1))
    return pats, eqs


def no_mul(fs):
    """products replaced by unknowns"""
    subs, seen = {}, set()
    todo = list(fs)
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BMUL:
            subs[i] = (x, z3.FreshConst(x.sort(), "product"))
            continue
        todo.extend(x.children())
    if not subs:
        return fs
    return [z3.substitute(f, *subs.values()) for f in fs]


class Prover:
    def __init__(self, deadline):
        self.deadline = deadline
        self.idx = Index()
        self.qm = set()
        self.full = False

    def cands(self, q):
        n = q.num_vars()
        body = q.body()
        pats, eqs = patterns(body, self.idx)
        out = []
        for v in range(n):
            srt = q.var_sort(n - 1 - v)
            d = {}
            for key, off in pats.get(v, ()):
                for t in list(self.idx.terms.get(key, {}).values()):
                    if t.sort() == srt:
                        u = bvsub(t, off)
                        d.setdefault(u.get_id(), u)
            for t in eqs.get(v, ()):
                if t.sort() == srt:
                    d.setdefault(t.get_id(), t)
            out.append(list(d.values()))
        return out

    def inst(self, f, depth=0):
        """f without universal quantifiers: each replaced by a conjunction of instances"""
        if time.time() > self.deadline:
            raise TimeoutError()
        if not quant(f, self.qm):
            return f
        if z3.is_quantifier(f):
            if not f.is_forall() or f.is_lambda():
                return z3.BoolVal(True)
            cs = self.cands(f)
            n = f.num_vars()
            tot = 1
            for c in cs:
                tot *= max(1, len(c))
            if any(not c for c in cs):
                return z3.BoolVal(True)
            if DEBUG:
                print("CANDS", tot, [[str(t)[:60].replace(chr(10),' ') for t in c] for c in cs], str(f.body())[:300].replace(chr(10),' '))
            if tot > MAXI:
                lim = int(MAXI ** (1.0 / n)) if n > 1 else MAXI
                cs = [sorted(c, key=lambda t: len(t.sexpr()))[:lim] for c in cs]
                self.full = True
            res = []
            acc = [()]
            for c in cs:
                acc = [a + (t,) for a in acc for t in c]
            body = f.body()
            for a in acc:
                g = z3.substitute_vars(body, *a)
                g = z3.simplify(g)
                if z3.is_true(g):
                    continue
                res.append(self.inst(g, depth + 1) if quant(g, self.qm) else g)
            return z3.And(res) if res else z3.BoolVal(True)
        k = f.decl().kind()
        if k == z3.Z3_OP_AND:
            return z3.And([self.inst(c, depth) for c in f.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.inst(c, depth) for c in f.children()])
        return z3.BoolVal(True)


def prove(assertions, secs=16, rounds=3, log=None, seed=0):
    t0 = time.time()
    try:
        g = z3.Goal()
        g.add(*[f for f in assertions if not leaked(f)])
        r = z3.Tactic("nnf")(g)
        if len(r) != 1:
            return z3.unknown
        fs = flat([f for f in r[0]])
        p = Prover(t0 + secs)
        gs, qs = [], []
        for f in fs:
            (qs if quant(f, p.qm) else gs).append(f)
        if not qs:
            return z3.unknown
        if DEBUG:
            for f in gs:
                print("G", str(f)[:300].replace(chr(10), " "))
        extra = []
        for f in gs:
            p.idx.scan(f)
        # ground parts of quantified formulas feed the index as well
        for f in qs:
            if z3.is_or(f):
                for c in f.children():
                    if not quant(c, p.qm):
                        p.idx.scan(c)
        for rnd in range(rounds):
            new = [p.inst(f) for f in qs]
            new = flat(new)
            n0 = len(p.idx.seen)
            for f in new:
                p.idx.scan(f)
            if rnd and {f.get_id() for f in new} == {f.get_id() for f in extra}:
                return z3.unknown
            extra = new
            left = t0 + secs - time.time()
            if left < 0.2:
                return z3.unknown
            ground = no_mul([z3.simplify(f) for f in gs + extra])
            if DUMP:
                s = z3.Solver()
                s.add(*ground)
                open("/tmp/w/inst_%d.smt2" % (int(t0 * 1000) % 10000000), "w").write(s.to_smt2())
            last = rnd == rounds - 1
            res = z3.unknown
            # run times are heavy-tailed: alternate between two strategies
            for mk, share in ((z3.Solver, 0.6), (lambda: ELIM.solver(), 1.0 if last else 0.3)):
                left = t0 + secs - time.time()
                if left < 0.2:
                    break
                s = mk()
                if seed:
                    s.set("random_seed", seed)
                s.set("timeout", int(1000 * max(0.5, left * share)))
                s.add(*ground)
                res = s.check()
                if res != z3.unknown:
                    break
            if log is not None:
                log.append((rnd, len(extra), str(res), round(time.time() - t0, 2)))
            if res == z3.unsat:
                return res
            if len(p.idx.seen) == n0:
                break
        return z3.unknown
    except (TimeoutError, z3.Z3Exception) as e:
        if log is not None:
            log.append(repr(e))
        return z3.unknown
