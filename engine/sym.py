"""Symbolic execution of LLVM IR with contracts: the VC generator.

Memory model (Burstall style): a heap cell is (offset,size); each cell class is an array from object base address to a
bit-vector.  Allocas and globals live in concrete regions.  Containers of the C++ standard library are abstract values
(stl.py).  Every path ends in a list of obligations handed to z3."""
import re, sys, time, itertools
import os
import z3
import inst
from ir import Module, Unsupported, INT, PTR, Ty, dem, demangle_all

sys.setrecursionlimit(100000)
sys.set_int_max_str_digits(0)

REGION_SHIFT = 24
REGION0 = 1 << 62
GLOBAL0 = 1 << 61
OLD_MAX = 1 << 60

BV64 = z3.BitVecSort(64)


class PathLimit(Unsupported):
    pass


class VFn:
    """function pointer loaded from the vtable of a symbolic object"""

    def __init__(self, cls, slot, vt):
        self.cls, self.slot, self.vt = cls, slot, vt

    def __repr__(self):
        return "VFn(%s,%s)" % (self.cls, self.slot)


class Iter:
    """iterator over an abstract sequence: container key + index (int or z3 Int)"""

    __slots__ = ("ck", "idx", "kind", "sz", "gen")

    def __init__(self, ck, idx, kind="seq", sz=8, gen=None):
        self.ck, self.idx, self.kind, self.sz = ck, idx, kind, sz
        self.gen = gen  # storage of the vector it points into (None: not tracked)

    def __repr__(self):
        return "Iter(%s,%s)" % (self.ck, self.idx)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Throw:
    """a call that ends with an exception"""

    def __repr__(self):
        return "throw"


THROW = Throw()


def isz(x):
    return isinstance(x, z3.ExprRef)


def bv(x, w=64):
    if isinstance(x, bool):
        return z3.BitVecVal(int(x), w)
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x


def tobool(x):
    if isinstance(x, (bool, int)):
        return z3.BoolVal(bool(x))
    if z3.is_bool(x):
        return x
    return x != 0


_split_cache = {}


def split(a):
    """address -> (base, constant offset); base int or z3"""
    if isinstance(a, int):
        return a, 0
    k = a.get_id()
    r = _split_cache.get(k)
    if r is not None:
        return r[1]
    res = (a, 0)
    if z3.is_app_of(a, z3.Z3_OP_BADD) and a.num_args() == 2:
        x, y = a.arg(0), a.arg(1)
        if z3.is_bv_value(x):
            res = (y, x.as_signed_long())
        elif z3.is_bv_value(y):
            res = (x, y.as_signed_long())
    _split_cache[k] = (a, res)
    return res


def addoff(a, k):
    if k == 0:
        return a
    if isinstance(a, int):
        return (a + k) & ((1 << 64) - 1)
    if isinstance(a, (Iter, VFn, Undef)):
        raise Unsupported("pointer arithmetic on %r" % (a,))
    b, o = split(a)
    o += k
    if o == 0:
        return b
    return b + z3.BitVecVal(o, 64)


class HeapArr:
    """root array + list of stores; reads become If-chains"""

    __slots__ = ("root", "stores", "w", "scope", "prev")

    def __init__(self, root, stores, w, scope=None, prev=None):
        self.root, self.stores, self.w = root, stores, w
        # scope: root is an arbitrary value for objects of that kind only; the others are as in prev
        self.scope, self.prev = scope, prev


_gen = {}  # ast id -> (ast, generation)
_symgen = {}  # decl name -> generation


class Gen:
    """generation of a term: the largest watermark of the regions it can denote"""

    @staticmethod
    def of(e):
        if isinstance(e, int):
            if e >= REGION0:
                return (e - REGION0) >> REGION_SHIFT
            return -1
        k = e.get_id()
        r = _gen.get(k)
        if r is not None:
            return r[1]
        st = [e]
        while st:
            x = st[-1]
            if x.get_id() in _gen:
                st.pop()
                continue
            if z3.is_quantifier(x):
                _gen[x.get_id()] = (x, -1)
                st.pop()
                continue
            if z3.is_bv_value(x):
                v = x.as_long()
                g = (v - REGION0) >> REGION_SHIFT if x.size() == 64 and REGION0 <= v < (1 << 63) else -1
                _gen[x.get_id()] = (x, g)
                st.pop()
                continue
            if z3.is_var(x):
                _gen[x.get_id()] = (x, 1 << 30)
                st.pop()
                continue
            if not z3.is_app(x):
                _gen[x.get_id()] = (x, -1)
                st.pop()
                continue
            ch = [c for c in x.children() if c.get_id() not in _gen]
            if ch:
                st.extend(ch)
                continue
            g = _symgen.get(x.decl().name(), -1) if x.num_args() == 0 else -1
            kids = x.children()
            kd = x.decl().kind()
            if kd == z3.Z3_OP_SELECT:
                kids = kids[:1]  # what an array holds, wherever it is read
            elif kd == z3.Z3_OP_ITE:
                kids = kids[1:]
            for c in kids:
                g = max(g, _gen[c.get_id()][1])
            _gen[x.get_id()] = (x, g)
            st.pop()
        return _gen[k][1]


class State:
    def __init__(self):
        self.facts = []  # quantifier free facts / path condition
        self.qfacts = []  # quantified facts
        self.cells = {}  # (region, off) -> (size, val)
        self.heap = {}  # (off, size) -> HeapArr
        self.conts = {}  # (off, kind) -> list of (base, value)
        self.events = []
        self.kinds = {}  # term id -> (term, kind)
        self.vt = {}  # vtable term id -> (term, class)
        self.escaped = []
        self.next_region = None
        self.wlog = None
        self.notes = {}
        self.trace = []
        self.dist = set()

    def copy(self):
        s = State.__new__(State)
        s.facts = list(self.facts)
        s.qfacts = list(self.qfacts)
        s.cells = dict(self.cells)
        s.heap = dict(self.heap)
        s.conts = dict(self.conts)
        s.events = list(self.events)
        s.kinds = dict(self.kinds)
        s.vt = dict(self.vt)
        s.escaped = list(self.escaped)
        s.wlog = self.wlog
        s.notes = dict(self.notes)
        s.trace = list(self.trace)
        s.dist = set(self.dist)
        return s

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                self.facts.append(z3.BoolVal(False))
            return
        if has_quant(f):
            self.qfacts.append(f)
        else:
            self.facts.append(f)


_hq = {}


def has_quant(f):
    k = f.get_id()
    if k in _hq:
        return _hq[k][1]
    seen = set()
    st = [f]
    res = False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        st.extend(x.children())
    _hq[k] = (f, res)
    return res


class Obligation:
    __slots__ = ("name", "fn", "status", "time", "model", "reason", "backend", "where", "formula")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.model = None
        self.reason = ""
        self.backend = "z3"


KINDS = [
    (re.compile(r"rotor::(actor_base_t|supervisor_t|registry_t)\b|rotor::\w+::supervisor_\w+_t"), "actor"),
    (re.compile(r"rotor::plugin::\w+_plugin_t\b|rotor::plugin::plugin_base_t"), "plugin"),
    (re.compile(r"rotor::message_(t|base_t)\b"), "message"),
    (re.compile(r"rotor::address_t\b"), "address"),
    (re.compile(r"rotor::subscription_info_t\b"), "subinfo"),
    (re.compile(r"rotor::detail::child_info_t\b"), "childinfo"),
    (re.compile(r"rotor::(handler_base_t|handler_t|handler_intercepted_t|continuation_t)\b"), "handler"),
    (re.compile(r"rotor::(\w+::)?system_context_\w*t\b"), "context"),
    (re.compile(r"rotor::extended_error_t\b"), "error"),
    (re.compile(r"rotor::timer_handler(_base)?_t\b"), "timerh"),
    (re.compile(r"_Hash_node\b|_Rb_tree_node\b|_List_node\b"), "node"),
]
_kindcache = {}


def struct_kind(name):
    k = _kindcache.get(name)
    if k is None:
        k = ""
        nm = name.strip('%"')
        nm = re.sub(r"^(struct|class)\.", "", nm)
        for rx, kk in KINDS:
            if rx.match(nm) or (kk == "node" and rx.search(nm)):
                k = kk
                break
        _kindcache[name] = k
    return k


PORTFOLIO = [(True, {"mbqi": False}, 1500), (False, {"mbqi": False}, 1500), (True, {"mbqi": False, "random_seed": 5}, 2500),
             (False, {"mbqi": False, "random_seed": 3}, 2500), (True, {"relevancy": 1, "mbqi": False}, 2500)]
PORTFOLIO2 = [(True, {"mbqi": False, "random_seed": 17}, 8000), (False, {"mbqi": False, "random_seed": 5}, 8000), (True, {"random_seed": 23}, 8000),
              (False, {"relevancy": 1, "mbqi": False}, 8000), (False, {"random_seed": 11}, 15000)]


class Engine:
    def __init__(self, modules):
        self.mods = modules
        self.index = {}
        for m in modules:
            for n, f in m.funcs.items():
                self.index.setdefault(n, f)
        self.aliases = {}
        for m in modules:
            for a, t in m.aliases.items():
                self.aliases.setdefault(a, t)
        demangle_all(list(self.index) + [d for m in modules for d in m.decl] + list(self.aliases))
        self.cnt = itertools.count()
        self.region_ctr = 0
        self.fn_addr = {}
        self.addr_fn = {}
        self.glob_addr = {}
        self.addr_glob = {}
        self.glob_next = GLOBAL0
        self.regions = {}  # region idx -> kind ('alloca','heap','global', name)
        self.init_heap = {}
        self.elemkinds = {}  # (array of element addresses, offset) -> kind of the objects the elements point to
        self.init_conts = {}
        self.hooks = []  # [(regex on demangled name, handler)]
        self.exact = {}
        self.hookcache = {}
        self.loopspecs = []
        self.obls = []
        self.solver_time = 0.0
        self.queries = 0
        self.dry = 0
        self.inlined = set()
        self.contract_used = {}
        self.cur_fn = "?"
        self.stack = []
        self.max_paths = 4000
        self.deadline = None
        self.timeout_ms = 20000
        self.max_unroll = 24
        self.libcalls = {}
        self.touched_mod = set()
        self.feas_cache = {}
        self.lit_strs = {}
        self.spec = False
        self.wkind = {}
        self.elem_arrs = {}      # arrays that hold addresses of container elements
        self.elem_regions = set()  # regions that became container elements

    # ------------------------------------------------------------ symbols
    def sym(self, name, sort=BV64, gen=None):
        n = "%s!%d" % (name, next(self.cnt))
        if gen is None:
            gen = self.region_ctr
        _symgen[n] = gen
        return z3.Const(n, sort)

    def sym0(self, name, sort=BV64):
        return self.sym(name, sort, gen=-1)

    # ------------------------------------------------------------ regions
    def new_region(self, kind):
        self.region_ctr += 1
        i = self.region_ctr
        self.regions[i] = kind
        return REGION0 + (i << REGION_SHIFT)

    def fresh_obj(self, st, kind="heap"):
        return self.new_region("heap")

    def fnptr(self, name):
        if name not in self.fn_addr:
            a = (GLOBAL0 >> 1) + (len(self.fn_addr) + 1) * 64
            self.fn_addr[name] = a
            self.addr_fn[a] = name
        return self.fn_addr[name]

    def global_addr(self, name, mod):
        if name in self.aliases:
            name = self.aliases[name]
        if name in self.index or name in mod.decl:
            return self.fnptr(name)
        key = name
        if mod.gtext.get(name, "").startswith(("internal", "private")):
            key = (name, id(mod))
            # string literals with identical contents share identity only by content
        a = self.glob_addr.get(key)
        if a is None:
            self.glob_next += 1 << 16
            a = self.glob_next
            self.glob_addr[key] = a
            self.addr_glob[a] = (name, mod)
        return a

    # ------------------------------------------------------------ solver
    def solver(self, st, quant=True, extra=()):
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*st.facts)
        if quant:
            s.add(*st.qfacts)
        s.add(*extra)
        return s

    def check(self, st, extra=(), quant=False, timeout=None):
        t = time.time()
        if quant and st.qfacts:
            # only refutation matters to the callers: instantiate, do not search for models
            s = z3.SimpleSolver()
            s.set("mbqi", False)
            s.set("timeout", self.timeout_ms)
            s.add(*st.facts)
            s.add(*st.qfacts)
            s.add(*extra)
        else:
            s = self.solver(st, quant, extra)
        if timeout:
            s.set("timeout", timeout)
        r = s.check()
        self.queries += 1
        self.solver_time += time.time() - t
        return r

    def feasible(self, st, cond):
        """may cond hold on this path?"""
        if isinstance(cond, (bool, int)):
            return bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(st, [cond], timeout=3000) != z3.unsat

    def must(self, st, cond, quant=False):
        if isinstance(cond, (bool, int)):
            return bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(st, [z3.Not(cond)], quant=quant, timeout=3000) == z3.unsat

    def oblige(self, st, name, f, where=""):
        if self.dry:
            return True
        o = Obligation(name, self.cur_fn)
        o.where = where
        t = time.time()
        o.formula = None
        if isinstance(f, (bool, int)):
            f = z3.BoolVal(bool(f))
        s = self.solver(st, True, [z3.Not(f)])
        r = z3.unknown
        if st.qfacts or has_quant(f):
            # Instantiation only: a proof is found quickly or not at all, and run times are heavy-tailed,
            # so several short attempts come before a long one.
            r = self.portfolio(s, PORTFOLIO[:1])
            if r == z3.unknown:
                lg = [] if os.environ.get("INSTLOG") else None
                r = inst.prove(s.assertions(), log=lg)
                if lg is not None:
                    print("INST", name, lg, flush=True)
                if r == z3.unsat:
                    o.backend = "z3 on ground instances"
            if r == z3.unknown:
                r = self.portfolio(s, PORTFOLIO[1:])
        if r == z3.unknown:
            r = s.check()
            self.queries += 1
        o.time = time.time() - t
        self.solver_time += o.time
        if r == z3.unsat:
            o.status = "discharged"
            if getattr(self, "cross", None):
                self.cross(self, s, o)
        elif r == z3.sat:
            o.status = "failed"
            o.model = s.model()
        else:
            o.reason = s.reason_unknown()
            self.retry(st, s, f, o)
        self.obls.append(o)
        if o.status != "discharged":
            o.formula = (str(f)[:4000], [str(x)[:500] for x in st.facts[-40:]], list(st.trace[-60:]))
        return o.status == "discharged"

    def portfolio(self, s, configs):
        """unsat if some configuration proves it"""
        for simple, opts, ms in configs:
            s1 = z3.SimpleSolver() if simple else z3.Solver()
            s1.set("timeout", ms)
            for k, v in opts.items():
                s1.set(k, v)
            s1.add(*s.assertions())
            r = s1.check()
            self.queries += 1
            if r == z3.unsat:
                return r
        return z3.unknown

    def retry(self, st, s, f, o):
        """z3's default strategy gave up: other strategies, longer, then cvc5. An obligation nobody discharges has failed."""
        o.status = "failed"
        try:
            o.model = s.model()
        except z3.Z3Exception:
            o.model = None
        gave_up = "timeout" in o.reason or "canceled" in o.reason
        self.hard = getattr(self, "hard", 0) + 1
        if self.hard > 8:
            return
        t = time.time()
        if (st.qfacts or has_quant(f)) and inst.prove(s.assertions(), secs=60, seed=7) == z3.unsat:
            o.status, o.reason, o.model, o.backend = "discharged", "", None, "z3 on ground instances"
        elif self.portfolio(s, PORTFOLIO2) == z3.unsat:
            o.status, o.reason, o.model = "discharged", "", None
        if o.status == "failed" and gave_up:
            if self.cvc5(s, 20):
                o.status, o.reason, o.backend = "discharged", "", "cvc5"
            else:
                o.reason = "no proof found: " + o.reason
        o.time += time.time() - t
        self.solver_time += time.time() - t

    def cvc5(self, s, secs):
        import subprocess

        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % (secs * 1000), "--lang=smt2", "-"], input="(set-logic ALL)\n" + s.to_smt2(),
                               capture_output=True, text=True, timeout=secs + 5)
            return p.stdout.strip().split("\n")[0] == "unsat"
        except Exception:
            return False

    # ------------------------------------------------------------ memory
    def compare(self, st, a, b):
        """'eq' / 'ne' / '?' for two base addresses"""
        if isinstance(a, int) and isinstance(b, int):
            return "eq" if a == b else "ne"
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if b == 0:
                return "?"
            if b >= REGION0:
                if Gen.of(a) < ((b - REGION0) >> REGION_SHIFT):
                    return "ne"
                if ((b - REGION0) >> REGION_SHIFT) not in self.elem_regions and self.is_elem(a):
                    return "ne"
                return "?"
            if b >= GLOBAL0 >> 1:
                if Gen.of(a) < 0:
                    return "ne"
                return "?"
            return "?"
        if a.get_id() == b.get_id():
            return "eq"
        ka = st.kinds.get(a.get_id())
        kb = st.kinds.get(b.get_id())
        if ka and kb and ka[1] != kb[1]:
            return "ne"
        if (ka is None) != (kb is None):
            o, p = (a, kb) if ka is None else (b, ka)
            if p[1] not in ("node", "slot") and self.is_elem(o):
                return "ne"
        key = (min(a.get_id(), b.get_id()), max(a.get_id(), b.get_id()))
        if key in st.dist:
            return "ne"
        return "?"

    def is_elem(self, a):
        """the term is the address of an element of a container"""
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            return self.is_elem(a.arg(1)) and self.is_elem(a.arg(2))
        if z3.is_bv_value(a):
            v = a.as_long()
            return v >= REGION0 and ((v - REGION0) >> REGION_SHIFT) in self.elem_regions
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SELECT:
            r = a.arg(0)
            while z3.is_app(r) and r.decl().kind() == z3.Z3_OP_STORE:
                r = r.arg(0)
            return r.get_id() in self.elem_arrs
        return False

    def distinct(self, st, *xs):
        for i in range(len(xs)):
            for j in range(i):
                a, b = xs[i], xs[j]
                st.assume(bv(a) != bv(b))
                if isz(a) and isz(b):
                    st.dist.add((min(a.get_id(), b.get_id()), max(a.get_id(), b.get_id())))

    def setkind(self, st, a, k):
        if isz(a):
            st.kinds.setdefault(a.get_id(), (a, k))

    def harr(self, st, off, size):
        h = st.heap.get((off, size))
        if h is None:
            r = self.init_heap.get((off, size))
            if r is None:
                sort = z3.ArraySort(BV64, z3.BitVecSort(8 * size if isinstance(size, int) else 64))
                n = "H0_%d_%s" % (off, size)
                _symgen[n] = -1
                r = z3.Const(n, sort)
                self.init_heap[(off, size)] = r
            h = HeapArr(r, (), size)
            st.heap[(off, size)] = h
        return h

    def kind_of(self, st, a):
        """the kind of object a base address denotes, if known"""
        if isinstance(a, int):
            return "elem" if a >= REGION0 and ((a - REGION0) >> REGION_SHIFT) in self.elem_regions else "region"
        k = st.kinds.get(a.get_id())
        if k:
            return "elem" if k[1] in ("node", "slot") else k[1]
        return "elem" if self.is_elem(a) else None

    def hread(self, st, base, off, size, h=None):
        h = h or self.harr(st, off, size)
        guards = []
        stores = h.stores
        val = None
        for a, v in reversed(stores):
            c = self.compare(st, base, a)
            if c == "eq":
                val = v
                break
            if c == "ne":
                continue
            guards.append((a, v))
        if val is None:
            k = self.kind_of(st, base) if h.scope else None
            if k is not None and k != h.scope:
                val = self.hread(st, base, off, size, h.prev)
            else:
                val = z3.Select(h.root, bv(base))
                if size == 8 and self.elemkinds and isz(base) and z3.is_select(base):
                    ek = self.elemkinds.get((base.arg(0).get_id(), off))
                    if ek:
                        self.setkind(st, val, ek[1])
        if guards:
            w = 8 * size if isinstance(size, int) else 64
            val = self.enc(st, val, w)
            for a, v in reversed(guards):
                val = z3.If(bv(base) == bv(a), bv(self.enc(st, v, w), w), bv(val, w))
        return val

    def enc(self, st, v, w=64):
        """value as int/BV for storage in a merged term"""
        if isinstance(v, (int, bool)):
            return z3.BitVecVal(int(v), w)
        if isz(v):
            if z3.is_bool(v):
                return bv(v, w)
            return v
        if isinstance(v, Undef):
            return self.sym("undef", z3.BitVecSort(w))
        raise Unsupported("cannot merge %r" % (v,))

    def hwrite(self, st, base, off, size, v):
        h = self.harr(st, off, size)
        stores = tuple(s for s in h.stores if self.compare(st, base, s[0]) != "eq")
        st.heap[(off, size)] = HeapArr(h.root, stores + ((base, v),), size, h.scope, h.prev)
        if st.wlog is not None:
            st.wlog.add(("h", off, size, base))
            if isz(base):
                k = self.kind_of(st, base)
                o = self.wkind.setdefault(base.get_id(), (base, k))
                if o[1] != k:
                    self.wkind[base.get_id()] = (base, None)

    def locate(self, a):
        """concrete address -> ('cell', region, off) | ('heap', base, off) | ('glob', base, off)"""
        if a >= REGION0:
            i = (a - REGION0) >> REGION_SHIFT
            base = REGION0 + (i << REGION_SHIFT)
            k = self.regions.get(i)
            if k is None:
                raise Unsupported("wild address")
            if k == "heap":
                return "heap", base, a - base
            return "cell", i, a - base
        if a >= GLOBAL0:
            base = a - (a - GLOBAL0) % (1 << 16)
            return "glob", base, a - base
        if a < (1 << 16):
            raise NullDeref()
        raise Unsupported("wild address %x" % a)

    def base_facts(self, st, b):
        """a dereferenced symbolic address is a non-null pointer to an object that already exists"""
        key = ("bf", b.get_id())
        if key in st.notes:
            return
        g = Gen.of(b)
        if g >= (1 << 29):
            return
        lim = OLD_MAX if g < 0 else REGION0 + ((g + 1) << REGION_SHIFT)
        if self.spec:
            # a term of a specification: reading must not exclude null
            if ("bfs", b.get_id()) not in st.notes:
                st.notes[("bfs", b.get_id())] = b
                st.facts.append(z3.ULT(b, z3.BitVecVal(lim, 64)))
            return
        st.notes[key] = b
        st.facts.append(z3.ULT(b, z3.BitVecVal(lim, 64)))
        st.facts.append(b != 0)

    def resolve(self, st, a):
        """normalise an address: returns list of (state, base, off, where)"""
        if isinstance(a, (Iter, VFn, Undef)):
            raise Unsupported("dereference of %r" % (a,))
        if isz(a):
            a2 = z3.simplify(a)
            if z3.is_bv_value(a2):
                a = a2.as_long()
            else:
                if z3.is_app_of(a, z3.Z3_OP_ITE) or z3.is_app_of(split(a)[0], z3.Z3_OP_ITE):
                    c = self.concretize(st, a)
                    if c is not None:
                        a = c
        if isinstance(a, int):
            return self.locate(a)
        b, o = split(a)
        if isinstance(b, int):
            return self.locate(b + o)
        self.base_facts(st, b)
        return "heap", b, o

    def concretize(self, st, a):
        """if the path forces a to one leaf of its If-tree, return that leaf"""
        key = ("cz", a.get_id(), len(st.facts))
        if key in self.feas_cache:
            return self.feas_cache[key]
        b, o = split(a)
        x = b
        while z3.is_app_of(x, z3.Z3_OP_ITE):
            c = x.arg(0)
            if self.must(st, c):
                x = x.arg(1)
            elif self.must(st, z3.Not(c)):
                x = x.arg(2)
            else:
                x = None
                break
        r = None
        if x is not None:
            if z3.is_bv_value(x):
                r = x.as_long() + o
            else:
                r = addoff(x, o)
        self.feas_cache[key] = r
        return r

    def load(self, st, a, size, isptr=False):
        w, b, o = self.resolve(st, a)
        if w == "heap":
            if isz(b) and b.get_id() in st.vt and o % 8 == 0 and size == 8:
                return VFn(st.vt[b.get_id()][1], o // 8, b)
            for esc in st.escaped:
                if isz(b) and Gen.of(b) >= ((esc - REGION0) >> REGION_SHIFT) and not self.is_elem(b):
                    # may the pointer denote an escaped local?
                    if self.feasible(st, b == bv(esc)):
                        if self.must(st, b == bv(esc)):
                            return self.load(st, esc + o, size, isptr)
                        raise Unsupported("pointer may alias an escaped local")
            v = self.hread(st, b, o, size)
            return self.norm(v)
        if w == "cell":
            return self.cload(st, b, o, size)
        return self.gload(st, b, o, size)

    def norm(self, v):
        if isz(v) and not z3.is_const(v):
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                v2 = z3.simplify(v)
                if z3.is_bv_value(v2):
                    return v2.as_long()
        if isz(v) and z3.is_bv_value(v):
            return v.as_long()
        return v

    def cload(self, st, r, o, size):
        c = st.cells.get((r, o))
        if c is not None and c[0] == size:
            v = c[1]
            if isinstance(v, Undef):
                v = self.sym("undef", z3.BitVecSort(8 * size))
                st.cells[(r, o)] = (size, v)
            return v
        # covering / partial
        if c is not None and c[0] > size and not isinstance(c[1], (Iter, VFn)):
            v = c[1]
            if isinstance(v, Undef):
                return self.sym("undef", z3.BitVecSort(8 * size))
            if isinstance(v, int):
                return v & ((1 << (8 * size)) - 1)
            if z3.is_bool(v):
                v = bv(v, 8 * c[0])
            return z3.Extract(8 * size - 1, 0, v)
        for back in range(1, 16):
            c2 = st.cells.get((r, o - back))
            if c2 is not None:
                if c2[0] >= back + size and not isinstance(c2[1], (Iter, VFn, Undef)):
                    v = c2[1]
                    if isinstance(v, int):
                        return (v >> (8 * back)) & ((1 << (8 * size)) - 1)
                    return z3.Extract(8 * (back + size) - 1, 8 * back, bv(v, 8 * c2[0]))
                break
        # assemble from smaller cells
        parts = []
        p = 0
        anyv = False
        while p < size:
            c3 = st.cells.get((r, o + p))
            if c3 is None or p + c3[0] > size:
                parts.append((1, None))
                p += 1
                continue
            parts.append((c3[0], c3[1]))
            anyv = True
            p += c3[0]
        if not anyv:
            v = self.sym("uninit", z3.BitVecSort(8 * size))
            st.cells[(r, o)] = (size, v)
            return v
        es = []
        for sz, v in parts:
            if v is None or isinstance(v, Undef):
                v = self.sym("pad", z3.BitVecSort(8 * sz))
            elif isinstance(v, (Iter, VFn)):
                raise Unsupported("partial load of iterator")
            es.append(bv(v, 8 * sz))
        e = z3.simplify(z3.Concat(*reversed(es))) if len(es) > 1 else es[0]
        return self.norm(e)

    def gload(self, st, b, o, size):
        key = ("g", b)
        c = st.cells.get((key, o))
        if c is not None and c[0] == size:
            return c[1]
        name, mod = self.addr_glob[b]
        gv = None
        m2 = mod
        gv = mod.gvar(name)
        if gv is None or gv[1] is None:
            for m in self.mods:
                if name in m.gtext:
                    g2 = m.gvar(name)
                    if g2 and g2[1] is not None:
                        gv, m2 = g2, m
                        break
        if gv and gv[1] is not None and (gv[2] or name.startswith("@_ZTV")):
            leaf = self.const_leaf(m2, gv[0], gv[1], o, size)
            if leaf is not None:
                return leaf
        # mutable / external global: symbolic but stable
        n = "G_%s_%d_%d" % (name, o, size)
        _symgen[n] = -1
        v = z3.Const(n, z3.BitVecSort(8 * size))
        st.cells[(key, o)] = (size, v)
        return v

    def const_leaf(self, mod, t, v, o, size):
        t = mod.res(t)
        if v[0] == "z":
            return 0
        if v[0] == "agg":
            if t.k == "struct":
                for j in range(len(t.a)):
                    fo, ft = mod.field(t, j)
                    if fo <= o < fo + mod.size(ft):
                        return self.const_leaf(mod, ft, v[1][j][1], o - fo, size)
            elif t.k == "arr":
                es = mod.size(t.b)
                j = o // es
                return self.const_leaf(mod, t.b, v[1][j][1], o - j * es, size)
            return None
        if v[0] == "str":
            bs = v[1][o:o + size]
            return int.from_bytes(bs, "little")
        if o == 0 and mod.size(t) == size:
            return self.const(mod, v, t)
        return None

    def store(self, st, a, size, v):
        w, b, o = self.resolve(st, a)
        if w == "heap":
            if isinstance(v, int) and not isinstance(v, bool) and v >= REGION0 and size == 8:
                i = (v - REGION0) >> REGION_SHIFT
                if self.regions.get(i) == "alloca" and v < (1 << 63):
                    st.escaped.append(REGION0 + (i << REGION_SHIFT))
            if isinstance(v, (Iter, VFn)):
                if isinstance(v, Iter):
                    v2 = self.iter_token(st, v)
                    v = v2
                else:
                    raise Unsupported("store of %r to heap" % (v,))
            self.hwrite(st, b, o, size, v)
            return
        if w == "glob":
            st.cells[(("g", b), o)] = (size, v)
            if st.wlog is not None:
                st.wlog.add(("c", ("g", b), o))
            return
        self.cstore(st, b, o, size, v)

    def iter_token(self, st, it):
        raise Unsupported("iterator stored in the heap")

    def cstore(self, st, r, o, size, v):
        cells = st.cells
        # invalidate overlapped cells
        for d in range(-15, size):
            k = (r, o + d)
            c = cells.get(k)
            if c is None:
                continue
            if d == 0 and c[0] == size:
                continue
            if d < 0 and d + c[0] <= 0:
                continue
            # keep the non-overlapped bytes
            csz, cv = c
            del cells[k]
            if isinstance(cv, (Iter, VFn, Undef)):
                continue
            lo = o + d
            for bb in range(lo, lo + csz):
                if not (o <= bb < o + size):
                    sh = bb - lo
                    if isinstance(cv, int):
                        x = (cv >> (8 * sh)) & 255
                    else:
                        x = z3.Extract(8 * sh + 7, 8 * sh, bv(cv, 8 * csz))
                    cells[(r, bb)] = (1, x)
        cells[(r, o)] = (size, v)
        if st.wlog is not None:
            st.wlog.add(("c", r, o))

    def memcpy(self, st, d, s, n, mod=None):
        if n == 0:
            return
        ws, bs, os_ = self.resolve(st, s)
        if ws == "cell":
            items = [(k[1] - os_, c) for k, c in st.cells.items() if k[0] == bs and os_ <= k[1] < os_ + n]
            done = 0
            conts = [(k, e) for k, lst in st.conts.items() for e in lst if False]
            for o, (sz, v) in items:
                if o + sz > n:
                    v = self.cload(st, bs, os_ + o, n - o)
                    sz = n - o
                self.store(st, addoff(d, o), sz, v)
            return
        if ws == "glob":
            o = 0
            while o < n:
                sz = 8 if n - o >= 8 else 4 if n - o >= 4 else 1
                self.store(st, addoff(d, o), sz, self.gload(st, bs, os_ + o, sz))
                o += sz
            return
        # heap source: copy by the cell classes known for that range, default granule 8
        known = sorted({k for k in list(st.heap) + list(self.init_heap) if isinstance(k[1], int)
                        and os_ <= k[0] and k[0] + k[1] <= os_ + n})
        # choose a non overlapping cover, preferring classes written for this very object
        cover = {}
        for (o, sz) in known:
            wr = any(self.compare(st, bs, a) != "ne" for a, _ in st.heap[(o, sz)].stores) if (o, sz) in st.heap else False
            cover.setdefault(o, []).append((wr, sz))
        o = os_
        while o < os_ + n:
            if o in cover:
                wr, sz = max(cover[o])
            else:
                nxt = min([x for x in cover if x > o] + [os_ + n])
                sz = 8 if nxt - o >= 8 and o % 8 == 0 else 4 if nxt - o >= 4 and o % 4 == 0 else 1
            self.store(st, addoff(d, o - os_), sz, self.hread(st, bs, o, sz))
            o += sz

    # ------------------------------------------------------------ containers
    def ckey(self, st, a):
        w, b, o = self.resolve(st, a)
        if w == "heap":
            return (b, o)
        if w == "cell":
            return (REGION0 + (b << REGION_SHIFT), o)
        return (b, o)

    def cont_get(self, st, ck, kind, mk):
        b, o = ck
        lst = st.conts.get((o, kind), ())
        pend = []
        for bb, v in reversed(lst):
            c = self.compare(st, b, bb)
            if c == "eq":
                return v
            if c == "?":
                cond = bv(b) == bv(bb)
                if not self.feasible(st, cond):
                    continue
                if self.must(st, cond):
                    return v
                # one more try with the quantified facts
                if self.check(st, [cond], quant=True, timeout=3000) == z3.unsat:
                    continue
                raise Unsupported("container aliasing undecided: %s vs %s at +%d" % (b, bb, o))
        key = (b if isinstance(b, int) else b.get_id(), o, kind)
        r = self.init_conts.get(key)
        if r is None:
            r = (b, mk())
            self.init_conts[key] = r
        v = r[1]
        if hasattr(v, "on_first"):
            v.on_first(self, st, ck)
        return v

    def cont_set(self, st, ck, kind, v, grow=True):
        b, o = ck
        if grow and st.wlog is not None:
            st.wlog.add(("k+", o, kind, b))
        lst = tuple(e for e in st.conts.get((o, kind), ()) if self.compare(st, b, e[0]) != "eq")
        st.conts[(o, kind)] = lst + ((b, v),)
        if st.wlog is not None:
            st.wlog.add(("k", o, kind, b))

    # ------------------------------------------------------------ evaluation
    def const(self, mod, v, ty):
        k = v[0]
        if k == "c":
            if ty is not None and ty.k == "int":
                return v[1] & ((1 << ty.a) - 1)
            return v[1]
        if k == "z":
            t = mod.res(ty) if ty is not None else None
            if t is not None and t.k == "struct":
                return [self.const(mod, ("z",), f) for f in t.a]
            if t is not None and t.k == "arr":
                return [self.const(mod, ("z",), t.b) for _ in range(t.a)]
            return 0
        if k == "u":
            t = mod.res(ty) if ty is not None else None
            if t is not None and t.k == "struct":
                return [UNDEF for f in t.a]
            return UNDEF
        if k == "g":
            return self.global_addr(v[1], mod)
        if k == "gep":
            bt, ops = v[1], v[2]
            base = self.const(mod, ops[0][1], ops[0][0])
            return self.gep(mod, None, bt, base, [(t, self.const(mod, x, t)) for t, x in ops[1:]])
        if k == "cast":
            return self.const(mod, v[3], v[2])
        if k == "agg":
            return [self.const(mod, x, t) for t, x in v[1]]
        if k == "bin":
            x, y = self.const(mod, v[3], v[2]), self.const(mod, v[4], v[2])
            if v[1] == "sub":
                return (x - y) & ((1 << v[2].a) - 1)
            if v[1] == "add":
                return (x + y) & ((1 << v[2].a) - 1)
        if k == "f":
            return UNDEF
        raise Unsupported("constant %r" % (v,))

    def gep(self, mod, st, bt, base, idxs):
        off = 0
        cur = bt
        dyn = None
        for j, (t, i) in enumerate(idxs):
            if j == 0:
                s = mod.size(bt)
                if isinstance(i, int):
                    w = t.a if t.k == "int" else 64
                    if i >= 1 << (w - 1):
                        i -= 1 << w
                    off += i * s
                elif isinstance(base, Iter):
                    raise Unsupported("gep iter")
                else:
                    if z3.is_bv(i) and i.size() < 64:
                        i = z3.SignExt(64 - i.size(), i)
                    dyn = (i * s) if dyn is None else dyn + i * s
                continue
            r = mod.res(cur)
            if r.k == "struct":
                o, ft = mod.field(r, i)
                off += o
                cur = ft
            elif r.k == "arr":
                s = mod.size(r.b)
                if isinstance(i, int):
                    w = t.a if t.k == "int" else 64
                    if i >= 1 << (w - 1):
                        i -= 1 << w
                    off += i * s
                else:
                    if i.size() < 64:
                        i = z3.SignExt(64 - i.size(), i)
                    dyn = (i * s) if dyn is None else dyn + i * s
                cur = r.b
            else:
                raise Unsupported("gep into %r" % r)
        if st is not None and bt.k == "named" and isz(base) and len(idxs) > 1:
            k = struct_kind(bt.a)
            if k and split(base)[1] == 0:
                self.setkind(st, base, k)
        if isinstance(base, Undef):
            raise Unsupported("gep undef")
        if dyn is not None:
            d2 = z3.simplify(dyn)
            if z3.is_bv_value(d2):
                off += d2.as_signed_long()
            else:
                return addoff(bv(base) + d2, off)
        return addoff(base, off)

    def ev(self, fr, v, ty):
        if v[0] == "r":
            return fr[v[1]]
        if v[0] in ("gep", "g", "cast", "agg", "bin") or v[0] in "czuf":
            return self.const(self.curmod, v, ty)
        if v[0] == "md":
            return v
        raise Unsupported("operand %r" % (v,))

    # ------------------------------------------------------------ execution
    def exec_func(self, st, fn, args):
        """returns [(state, retval)]"""
        if len(self.stack) > 140:
            raise Unsupported("inlining too deep: " + dem(fn.name))
        if self.stack.count(fn.name) >= 4:
            raise Unsupported("recursion: " + dem(fn.name))
        fn.parse()
        self.inlined.add(fn.name)
        self.stack.append(fn.name)
        savemod = getattr(self, "curmod", None)
        try:
            self.curmod = fn.mod
            regs = {}
            for (t, r, at), a in zip(fn.params, args):
                regs[r] = a
            out = []
            work = [(st, fn.entry, None, regs, {}, {})]
            while work:
                s, b, prev, rg, active, visits = work.pop()
                self.curmod = fn.mod
                if self.deadline and time.time() > self.deadline:
                    raise PathLimit("time budget exhausted in " + dem(fn.name))
                # loop handling
                lp = fn.loops()
                if active:
                    dead = [h for h in active if b not in lp[h]]
                    if dead:
                        active = {h: c for h, c in active.items() if h not in dead}
                        if any(h == "__dry__" for h in dead):
                            continue
                    if "__dryhead__" in s.notes and s.notes["__dryhead__"][1] == len(self.stack):
                        if s.notes["__dryhead__"][0] not in active:
                            continue
                if b in lp:
                    spec = self.find_loop(fn, b)
                    if spec is not None:
                        if b in active:
                            ctx = active[b]
                            if not self.dry:
                                self.check_inv(s, spec, ctx, fn, rg, "preserved")
                            continue
                        s, ctx = self.enter_loop(s, spec, fn, b, rg)
                        if s is None:
                            continue
                        active = dict(active)
                        active[b] = ctx
                    else:
                        visits = dict(visits)
                        visits[b] = visits.get(b, 0) + 1
                        if visits[b] > self.max_unroll:
                            raise Unsupported("loop without invariant in " + dem(fn.name))
                self.exec_block(s, fn, b, prev, rg, active, visits, work, out)
                if len(work) + len(out) > self.max_paths:
                    raise PathLimit("too many paths in " + dem(fn.name))
            return out
        finally:
            self.stack.pop()
            self.curmod = savemod

    def find_loop(self, fn, b):
        for sp in self.loopspecs:
            if sp.matches(self, fn, b):
                return sp
        return None

    def exec_block(self, st, fn, b, prev, regs, active, visits, work, out):
        code = fn.block(b)
        # phis in parallel
        i = 0
        ph = {}
        while i < len(code) and code[i].op == "phi":
            for v, l in code[i].a:
                if l == prev:
                    ph[code[i].res] = self.ev(regs, v, code[i].ty)
                    break
            else:
                raise Unsupported("phi")
            i += 1
        regs.update(ph)
        self.exec_from(st, fn, b, i, regs, active, visits, work, out)

    def exec_from(self, st, fn, b, i, regs, active, visits, work, out):
        code = fn.block(b)
        n = len(code)
        while i < n:
            ins = code[i]
            op = ins.op
            self.curmod = fn.mod
            if op in ("call", "invoke"):
                callee, cargs = ins.a[0], ins.a[1]
                args = []
                for t, v, at in cargs:
                    args.append(self.ev(regs, v, t) if t.k != "metadata" else v)
                rs = self.call(st, fn, callee, args, ins, regs, cargs)
                nxt = ins.a[3] if op == "invoke" else None
                first = True
                for k, (s2, rv) in enumerate(rs):
                    rg = regs if k == len(rs) - 1 else dict(regs)
                    if rv is THROW:
                        # the exception goes to the handler of this call, or to the caller
                        if nxt is not None:
                            work.append((s2, ins.a[4], b, dict(regs), active, visits))
                        else:
                            out.append((s2, THROW))
                        if k == len(rs) - 1:
                            last = None
                        continue
                    if ins.res:
                        rg[ins.res] = rv
                    if nxt is not None:
                        work.append((s2, nxt, b, rg, active, visits))
                    elif k < len(rs) - 1:
                        self.exec_from(s2, fn, b, i + 1, rg, active, visits, work, out)
                    else:
                        last = (s2, rg)
                if nxt is not None or not rs or last is None:
                    return
                st, regs = last
                i += 1
                continue
            if op == "br":
                if len(ins.a) == 1:
                    work.append((st, ins.a[0], b, regs, active, visits))
                    return
                c = self.ev(regs, ins.a[0], INT(1))
                self.branch(st, [(c, ins.a[1]), (self.nott(c), ins.a[2])], b, regs, active, visits, work, fn)
                return
            if op == "switch":
                v = self.ev(regs, ins.a[0], ins.ty)
                if isinstance(v, int):
                    for c, l in ins.a[2]:
                        if self.const(fn.mod, c, ins.ty) == v:
                            work.append((st, l, b, regs, active, visits))
                            return
                    work.append((st, ins.a[1], b, regs, active, visits))
                    return
                alts = []
                neg = []
                for c, l in ins.a[2]:
                    e = v == bv(self.const(fn.mod, c, ins.ty), v.size())
                    alts.append((e, l))
                    neg.append(z3.Not(e))
                alts.append((z3.And(neg) if neg else True, ins.a[1]))
                self.branch(st, alts, b, regs, active, visits, work, fn)
                return
            if op == "ret":
                out.append((st, None if ins.a[0] is None else self.ev(regs, ins.a[0], ins.ty)))
                return
            if op == "unreachable":
                return
            if op == "resume":
                out.append((st, THROW))
                return
            if op == "landingpad":
                if ins.res:
                    regs[ins.res] = [UNDEF, UNDEF]
                i += 1
                continue
            try:
                r = self.step(st, fn, ins, regs)
            except NullDeref:
                # dereferencing null: undefined behaviour
                if getattr(self, "strict_null", True):
                    self.oblige(st, "no null dereference", False, where=dem(fn.name) + ": " + ins.txt[:80])
                return
            if ins.res:
                regs[ins.res] = r
            i += 1
        raise Unsupported("fell off block")

    def nott(self, c):
        if isinstance(c, (bool, int)):
            return not c
        if isinstance(c, Undef):
            raise Unsupported("branch on undef")
        return z3.Not(tobool(c))

    def branch(self, st, alts, b, regs, active, visits, work, fn):
        live = []
        for c, l in alts:
            if isinstance(c, (bool, int)):
                if c:
                    live.append((None, l))
                continue
            if isinstance(c, Undef):
                raise Unsupported("branch on undef")
            c = z3.simplify(tobool(c))
            if z3.is_false(c):
                continue
            if z3.is_true(c):
                live.append((None, l))
                continue
            live.append((c, l))
        if len(live) > 1:
            live = [(c, l) for c, l in live if c is None or self.feasible(st, c)]
        multi = len(live) > 1
        for k, (c, l) in enumerate(live):
            last = k == len(live) - 1
            s2 = st if last else st.copy()
            if c is not None:
                s2.facts.append(c)
                if multi:
                    s2.trace.append("%s@%s: %s" % (fn.name[:60], b, str(c)[:120]))
            work.append((s2, l, b, regs if last else dict(regs), active, visits))

    def load_ty(self, st, mod, a, ty):
        t = mod.res(ty)
        if t.k in ("struct", "arr"):
            if t.k == "struct":
                return [self.load_ty(st, mod, addoff(a, mod.field(t, j)[0]), mod.field(t, j)[1]) for j in range(len(t.a))]
            es = mod.size(t.b)
            return [self.load_ty(st, mod, addoff(a, j * es), t.b) for j in range(t.a)]
        sz = mod.size(t)
        v = self.load(st, a, sz, t.k == "ptr")
        if t.k == "int" and t.a == 1:
            if isinstance(v, int):
                return v & 1
            return z3.Extract(0, 0, bv(v, 8)) == 1
        if t.k == "int" and t.a < 8 * sz:
            if isinstance(v, int):
                return v & ((1 << t.a) - 1)
            return z3.Extract(t.a - 1, 0, v)
        return v

    def store_ty(self, st, mod, a, ty, v):
        t = mod.res(ty)
        if t.k == "struct":
            for j in range(len(t.a)):
                o, ft = mod.field(t, j)
                self.store_ty(st, mod, addoff(a, o), ft, v[j] if isinstance(v, list) else UNDEF)
            return
        if t.k == "arr":
            es = mod.size(t.b)
            for j in range(t.a):
                self.store_ty(st, mod, addoff(a, j * es), t.b, v[j] if isinstance(v, list) else UNDEF)
            return
        sz = mod.size(t)
        if t.k == "int" and t.a < 8 * sz and not isinstance(v, (int, Undef)):
            v = bv(v, 8 * sz) if z3.is_bool(v) else z3.ZeroExt(8 * sz - t.a, v)
        if isinstance(v, bool):
            v = int(v)
        self.store(st, a, sz, v)

    def step(self, st, fn, ins, regs):
        op = ins.op
        mod = fn.mod
        if op == "alloca":
            if ins.a[0] is not None and ins.a[0] != ("c", 1):
                raise Unsupported("vla")
            return self.new_region("alloca")
        if op == "load":
            return self.load_ty(st, mod, self.ev(regs, ins.a[0], PTR), ins.ty)
        if op == "store":
            v = self.ev(regs, ins.a[0], ins.ty)
            a = self.ev(regs, ins.a[1], PTR)
            self.store_ty(st, mod, a, ins.ty, v)
            return None
        if op == "getelementptr":
            base = self.ev(regs, ins.a[0][1], PTR)
            idxs = [(t, self.ev(regs, v, t)) for t, v in ins.a[1:]]
            if isinstance(base, Iter):
                return self.iter_gep(st, mod, ins.ty, base, idxs)
            return self.gep(mod, st, ins.ty, base, idxs)
        if op == "icmp":
            return self.icmp(st, ins.a[0], ins.ty, self.ev(regs, ins.a[1], ins.ty), self.ev(regs, ins.a[2], ins.ty))
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            return self.binop(op, ins.ty, self.ev(regs, ins.a[0], ins.ty), self.ev(regs, ins.a[1], ins.ty))
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
            return self.cast(op, ins.a[0], ins.ty, self.ev(regs, ins.a[1], ins.a[0]))
        if op == "select":
            c = self.ev(regs, ins.a[0], INT(1))
            x, y = self.ev(regs, ins.a[1], ins.ty), self.ev(regs, ins.a[2], ins.ty)
            if isinstance(c, (bool, int)):
                return x if c else y
            c = tobool(c)
            if self.must(st, c):
                return x
            if self.must(st, z3.Not(c)):
                return y
            w = ins.ty.a if ins.ty.k == "int" else 64
            if w == 1:
                return z3.If(c, tobool(x), tobool(y))
            return z3.If(c, self.enc(st, x, w), self.enc(st, y, w))
        if op == "extractvalue":
            v = self.ev(regs, ins.a[0], ins.ty)
            for j in ins.a[1]:
                if isinstance(v, Undef):
                    return UNDEF
                v = v[j]
            return v
        if op == "insertvalue":
            v = self.ev(regs, ins.a[0], ins.ty)
            e = self.ev(regs, ins.a[1], None) if ins.a[1][0] == "r" else self.const(mod, ins.a[1], None)

            def ins_at(x, idx):
                n = list(x) if isinstance(x, list) else [UNDEF] * 8
                if len(idx) == 1:
                    n[idx[0]] = e
                else:
                    n[idx[0]] = ins_at(n[idx[0]], idx[1:])
                return n

            if isinstance(v, Undef):
                t = mod.res(ins.ty)
                v = [UNDEF] * len(t.a)
            return ins_at(v, ins.a[2])
        if op == "freeze":
            return self.ev(regs, ins.a[0], ins.ty)
        if op == "atomicrmw":
            o, p, v = ins.a
            a = self.ev(regs, p, PTR)
            sz = mod.size(ins.ty)
            old = self.load(st, a, sz)
            x = self.ev(regs, v, ins.ty)
            if o in ("add", "sub"):
                nv = self.binop(o, ins.ty, old, x)
            elif o == "xchg":
                nv = x
            else:
                raise Unsupported("atomicrmw " + o)
            self.store(st, a, sz, nv)
            return old
        if op == "fence":
            return None
        if op == "fcmp":  # floating point is not interpreted: any outcome
            return self.sym("float_comparison", z3.BoolSort())
        if op in ("fadd", "fsub", "fmul", "fdiv", "sitofp", "uitofp", "fptosi", "fptoui"):
            return UNDEF
        raise Unsupported("op " + op + " " + ins.txt)

    def iter_gep(self, st, mod, ty, base, idxs):
        if len(idxs) == 1:
            t, i = idxs[0]
            if isinstance(i, int):
                if i >= 1 << 63:
                    i -= 1 << 64
                return Iter(base.ck, add_i(base.idx, i), base.kind, base.sz)
            return Iter(base.ck, add_i(base.idx, i), base.kind, base.sz)
        raise Unsupported("gep on iterator")

    def icmp(self, st, pr, ty, x, y):
        if isinstance(x, Iter) or isinstance(y, Iter):
            if isinstance(x, Iter) and isinstance(y, Iter):
                if pr == "eq":
                    return eq_i(x.idx, y.idx)
                if pr == "ne":
                    r = eq_i(x.idx, y.idx)
                    return (not r) if isinstance(r, bool) else z3.Not(r)
            raise Unsupported("icmp on iterator")
        if isinstance(x, VFn) or isinstance(y, VFn):
            raise Unsupported("icmp on vfn")
        if isinstance(x, Undef) or isinstance(y, Undef):
            return self.sym("ucmp", z3.BoolSort())
        w = ty.a if ty.k == "int" else 64
        if isinstance(x, int) and isinstance(y, int):
            if pr[0] == "s":
                x = x - (1 << w) if x >= 1 << (w - 1) else x
                y = y - (1 << w) if y >= 1 << (w - 1) else y
            return {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y,
                    "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[pr]
        if w == 1:
            x, y = tobool(x), tobool(y)
            return x == y if pr == "eq" else x != y
        if ty.k == "ptr" and pr in ("eq", "ne"):
            bx, ox = split(x)
            by, oy = split(y)
            if ox == oy or isinstance(x, int) or isinstance(y, int):
                xx = bx if ox == oy else x
                yy = by if ox == oy else y
                c = self.compare(st, xx, yy)
                if c == "eq":
                    return pr == "eq"
                # a stored pointer value may well be the address of a static object (error category, message type)
                st_ = [g for g in (xx, yy) if isinstance(g, int) and GLOBAL0 <= g < REGION0]
                if c == "ne" and (not st_ or (isinstance(xx, int) and isinstance(yy, int))):
                    return pr == "ne"
        x, y = bv(x, w), bv(y, w)
        return {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
                "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y,
                "sgt": lambda: x > y, "sge": lambda: x >= y}[pr]()

    def binop(self, op, ty, x, y):
        if ty.k != "int":
            raise Unsupported("binop " + op)
        if isinstance(x, Undef) or isinstance(y, Undef):
            return self.sym("ub", z3.BitVecSort(ty.a))
        if isinstance(x, (Iter, VFn)) or isinstance(y, (Iter, VFn)):
            if isinstance(x, Iter) and isinstance(y, Iter) and op == "sub":
                d = add_i(x.idx, y.idx, -1)
                r = d if isinstance(d, int) else None
                if r is not None:
                    return (r * x.sz) & ((1 << 64) - 1)
                return d * x.sz
            raise Unsupported("arith on iterator")
        w = ty.a
        m = (1 << w) - 1
        if isinstance(x, (bool, int)) and isinstance(y, (bool, int)):
            x, y = int(x), int(y)

            def sg(v):
                return v - (1 << w) if v >= 1 << (w - 1) else v

            if op == "add":
                return (x + y) & m
            if op == "sub":
                return (x - y) & m
            if op == "mul":
                return (x * y) & m
            if op == "and":
                return x & y
            if op == "or":
                return x | y
            if op == "xor":
                return x ^ y
            if op == "shl":
                return (x << y) & m if y < w else 0
            if op == "lshr":
                return x >> y
            if op == "ashr":
                return (sg(x) >> y) & m
            if op == "udiv" and y:
                return x // y
            if op == "urem" and y:
                return x % y
            if op == "sdiv" and y:
                return int(abs(sg(x)) // abs(sg(y)) * (1 if (sg(x) < 0) == (sg(y) < 0) else -1)) & m
            if op == "srem" and y:
                a = abs(sg(x)) % abs(sg(y))
                return (-a if sg(x) < 0 else a) & m
            raise Unsupported("div by zero")
        if w == 1:
            a, b = tobool(x), tobool(y)
            return {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](a, b)
        if op in ("sdiv", "udiv", "mul") and isinstance(y, int) and y == 1:
            return x
        if op == "mul" and isinstance(x, int):
            x, y = y, x  # one shape for products with a constant
        if op in ("add", "sub") and isinstance(y, int):
            s = y if y < (1 << (w - 1)) else y - (1 << w)
            if w == 64:
                return addoff(x, s if op == "add" else -s)
        a, b = bv(x, w), bv(y, w)
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b,
                "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b),
                "ashr": lambda: a >> b, "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b),
                "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[op]()

    def cast(self, op, t0, t1, v):
        if op in ("bitcast", "inttoptr", "ptrtoint"):
            return v
        if isinstance(v, Undef):
            return UNDEF
        w0, w1 = t0.a, t1.a
        if op == "zext":
            if isinstance(v, (bool, int)):
                return int(v)
            if z3.is_bool(v):
                return z3.If(v, z3.BitVecVal(1, w1), z3.BitVecVal(0, w1))
            return z3.ZeroExt(w1 - w0, v)
        if op == "sext":
            if isinstance(v, (bool, int)):
                v = int(v)
                return (v - (1 << w0) if v >= 1 << (w0 - 1) else v) & ((1 << w1) - 1)
            if z3.is_bool(v):
                return z3.If(v, z3.BitVecVal(-1, w1), z3.BitVecVal(0, w1))
            return z3.SignExt(w1 - w0, v)
        if op == "trunc":
            if isinstance(v, (bool, int)):
                return int(v) & ((1 << w1) - 1)
            if isinstance(v, Iter):
                raise Unsupported("trunc iter")
            if w1 == 1:
                # i8 holding a zext'ed bool
                if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
                    if v.arg(1).as_long() == 1 and v.arg(2).as_long() == 0:
                        return v.arg(0)
                return z3.Extract(0, 0, v) == 1
            return z3.Extract(w1 - 1, 0, v)
        raise Unsupported(op)

    # ------------------------------------------------------------ calls
    def hook_for(self, name):
        h = self.hookcache.get(name, 0)
        if h != 0:
            return h
        d = dem(name)
        h = None
        for rx, fnc in self.hooks:
            if rx.search(d):
                h = fnc
                break
        self.hookcache[name] = h
        return h

    def call(self, st, fn, callee, args, ins, regs, cargs):
        if callee[0] == "g":
            name = callee[1]
        elif callee[0] == "asm":
            return [(st, UNDEF)]
        else:
            fv = self.ev(regs, callee, PTR)
            if isz(fv):
                f2 = z3.simplify(fv)
                if z3.is_bv_value(f2):
                    fv = f2.as_long()
                else:
                    c = self.concretize(st, fv) if z3.is_app_of(fv, z3.Z3_OP_ITE) else None
                    if c is not None:
                        fv = c
            if isinstance(fv, int):
                if fv not in self.addr_fn:
                    if fv == 0:
                        self.oblige(st, "no call through a null function pointer", False)
                        return []
                    raise Unsupported("call through unknown pointer %x" % fv)
                name = self.addr_fn[fv]
            elif isinstance(fv, VFn):
                return self.vcall(st, fn, fv, args, ins, cargs)
            else:
                return self.icall(st, fn, fv, args, ins, cargs)
        return self.call_named(st, fn, name, args, ins, cargs)

    def call_named(self, st, fn, name, args, ins=None, cargs=None):
        if name.startswith("@llvm."):
            return self.llvm_intrinsic(st, fn, name, args, ins)
        if name in self.aliases:
            name = self.aliases[name]
        h = self.hook_for(name)
        if h is not None:
            mod = fn.mod if fn else None
            f = (mod.funcs.get(name) if mod else None) or self.index.get(name)
            r = h(self, st, CallCtx(name, dem(name), args, ins, f, fn))
            if r is not NotImplemented:
                return r
        return self.call_body(st, fn, name, args)

    def call_body(self, st, fn, name, args):
        f = (fn.mod.funcs.get(name) if fn else None) or self.index.get(name)
        if f is None:
            raise Unsupported("no body: " + dem(name))
        return self.exec_func(st, f, args)

    def method_name(self, cls, slot):
        """demangled name of the function a static class' vtable holds in a slot"""
        g = "@_ZTV" + cls[len("_ZTS"):]
        for m in self.mods:
            if g in m.gtext:
                gv = m.gvar(g)
                if gv and gv[1] is not None:
                    v = gv[1][1][0][1] if gv[1][0] == "agg" else None
                    if v and v[0] == "agg":
                        e = v[1][2 + slot][1]
                        if e[0] == "g":
                            return e[1]
        return None

    def derived_name(self, cls, slot):
        """what a derived class calls the pure virtual function in that slot"""
        want = "@_ZTI" + cls[len("_ZTS"):]
        for m in self.mods:
            for g in list(m.gtext):
                if not g.startswith("@_ZTI") or want not in m.gtext[g] or g == want:
                    continue
                nm = self.method_name("_ZTS" + g[len("@_ZTI"):], slot)
                if nm and nm != "@__cxa_pure_virtual":
                    return nm
        return None

    def vcall(self, st, fn, fv, args, ins, cargs):
        nm = self.method_name(fv.cls, fv.slot)
        if nm == "@__cxa_pure_virtual":
            nm = self.derived_name(fv.cls, fv.slot) or nm
        slot = "virtual %s#%d" % (dem(fv.cls), fv.slot)
        key = "virtual " + dem(nm) if nm and nm != "@__cxa_pure_virtual" else slot
        for k in (key, slot) if nm else (key,):
            for rx, h in self.hooks:
                if rx.search(k):
                    r = h(self, st, CallCtx(nm, k, args, ins, self.index.get(nm) if nm else None, fn, fv))
                    if r is not NotImplemented:
                        return r
        raise Unsupported("virtual call without contract: " + key)

    def icall(self, st, fn, fv, args, ins, cargs):
        for rx, h in self.hooks:
            if rx.search("indirect"):
                r = h(self, st, CallCtx(None, "indirect", args, ins, None, fn, fv))
                if r is not NotImplemented:
                    return r
        raise Unsupported("indirect call of %s in %s" % (str(fv)[:100], dem(fn.name)))

    def llvm_intrinsic(self, st, fn, name, args, ins):
        if name.startswith(("@llvm.memcpy", "@llvm.memmove")):
            n = args[2]
            if isz(n):
                n = z3.simplify(n)
                n = n.as_long() if z3.is_bv_value(n) else None
            if n is None:
                raise Unsupported("memcpy of symbolic length")
            self.memcpy(st, args[0], args[1], n)
            return [(st, None)]
        if name.startswith("@llvm.memset"):
            d, v, n = args[0], args[1], args[2]
            if not isinstance(n, int) or not isinstance(v, int):
                raise Unsupported("memset")
            o = 0
            w, b, oo = self.resolve(st, d)
            while o < n:
                sz = 8 if n - o >= 8 and (oo + o) % 8 == 0 else 4 if n - o >= 4 and (oo + o) % 4 == 0 else 1
                self.store(st, addoff(d, o), sz, int.from_bytes(bytes([v]) * sz, "little"))
                if w == "heap" and sz == 8:  # other views of the same bytes
                    for q in ((0, 4), (4, 4)):
                        if (oo + o + q[0], 4) in st.heap or (oo + o + q[0], 4) in self.init_heap:
                            self.store(st, addoff(d, o + q[0]), 4, int.from_bytes(bytes([v]) * 4, "little"))
                    for q in range(8):
                        if (oo + o + q, 1) in st.heap or (oo + o + q, 1) in self.init_heap:
                            self.store(st, addoff(d, o + q), 1, v)
                o += sz
            return [(st, None)]
        if name.startswith("@llvm.type.test"):
            v = args[0]
            md = args[1][1]
            if isz(v):
                st.vt[v.get_id()] = (v, re.sub(r'^!"|"$', "", md))
            return [(st, True)]
        if name.startswith("@llvm.type.checked.load"):
            raise Unsupported("type.checked.load")
        if name.startswith("@llvm.public.type.test"):
            v = args[0]
            md = args[1][1]
            if isz(v):
                st.vt[v.get_id()] = (v, re.sub(r'^!"|"$', "", md))
            return [(st, True)]
        if name.startswith(("@llvm.assume", "@llvm.lifetime", "@llvm.dbg", "@llvm.trap", "@llvm.experimental")):
            return [(st, None)]
        if name.startswith("@llvm.expect"):
            return [(st, args[0])]
        if name.startswith(("@llvm.umul.with.overflow", "@llvm.uadd.with.overflow")):
            x, y = args
            w = 64
            if isinstance(x, int) and isinstance(y, int):
                r = x * y if "umul" in name else x + y
                return [(st, [r & ((1 << w) - 1), r >= (1 << w)])]
            x, y = bv(x), bv(y)
            if "umul" in name:
                return [(st, [x * y, z3.Not(z3.BVMulNoOverflow(x, y, False))])]
            return [(st, [x + y, z3.ULT(x + y, x)])]
        m = re.match(r"@llvm\.(umin|umax|smin|smax)\.i(\d+)", name)
        if m:
            x, y = args
            w = int(m.group(2))
            x, y = bv(x, w), bv(y, w)
            c = {"umin": z3.ULT(x, y), "umax": z3.UGT(x, y), "smin": x < y, "smax": x > y}[m.group(1)]
            return [(st, z3.simplify(z3.If(c, x, y)))]
        raise Unsupported("intrinsic " + name)

    # ------------------------------------------------------------ loops
    def enter_loop(self, st, spec, fn, head, regs):
        import stl

        for (o, kind), lst in list(st.conts.items()):
            if kind == "seq" and any(len(v.pieces) > 1 for _, v in lst):
                st.conts[(o, kind)] = tuple((b, stl.flatten(self, st, v)) for b, v in lst)
        ctx = LoopCtx(fn, head, regs, st.copy())
        ctx.spec = spec
        ctx.mark = ctx.gen0 = self.region_ctr
        self.region_ctr += 1
        born = next(self.cnt)
        # modified set by fixpoint of dry runs
        key = None
        mods = set()
        for rnd in range(6):
            s = st.copy()
            hv = self.havoc(s, mods, ctx)
            c2 = LoopCtx(fn, head, regs, ctx.entry)
            c2.spec = spec
            c2.mark, c2.gen0 = ctx.mark, ctx.gen0
            c2.mods = set(mods)
            c2.hav = hv
            for nme, f in self.invs(spec, s, c2):
                s.assume(f)
            self.auto_range(s, c2)
            if hasattr(spec, "head"):
                spec.head(self, s, c2)
            s.wlog = set()
            outs = self.dry_body(s, fn, head, regs, c2)
            outs = {(("h", m[1], m[2], self.star(m[3])) if m[0] == "h" and isz(m[3]) and born_after(m[3], born) else m) for m in outs}
            for m in [m for m in outs | mods if m[0] == "h" and isinstance(m[3], str) and m[3].startswith("*")]:
                # objects of several kinds are written: no frame
                if len({n[3] for n in outs | mods if n[0] == "h" and n[1:3] == m[1:3] and isinstance(n[3], str) and n[3].startswith("*")}) > 1:
                    outs.add(("h", m[1], m[2], "*"))
            new = outs - mods
            new = {m for m in new if not (m[0] == "k+" and m in mods)}
            live = {m for m in new if not (m[0] == "c" and isinstance(m[1], int) and m[1] > ctx.mark)
                    and not (m[0] == "h" and isinstance(m[3], int) and m[3] >= REGION0 and
                             ((m[3] - REGION0) >> REGION_SHIFT) > ctx.mark_of(self))
                    and not (m[0] in ("k", "k+") and isinstance(m[3], int) and m[3] >= REGION0 and
                             ((m[3] - REGION0) >> REGION_SHIFT) > ctx.mark_of(self))}
            if not live:
                break
            mods |= live
            if os.environ.get("DBGMODS"):
                print("round", rnd, [str(m)[:150] for m in live])
        else:
            raise Unsupported("loop frame did not stabilise in " + dem(fn.name))
        ctx.mods = set(mods)
        if not self.dry:
            self.check_inv(st, spec, ctx, fn, regs, "established")
        if st.wlog is not None:
            st.wlog |= mods
        s = st
        ctx.hav = self.havoc(s, mods, ctx)
        for nme, f in self.invs(spec, s, ctx):
            s.assume(f)
        self.auto_range(s, ctx)
        if hasattr(spec, "head"):
            spec.head(self, s, ctx)
        if getattr(spec, "measure", None):
            ctx.measure0 = spec.measure(self, s, ctx)
        return s, ctx

    def star(self, base):
        k = self.wkind.get(base.get_id())
        return "*" + ((k and k[1]) or "")

    def auto_range(self, st, ctx):
        pass

    def dry_body(self, st, fn, head, regs, ctx):
        """execute the loop body once from head, obligations off; returns the union of write logs"""
        self.dry += 1
        wl = set()
        st.wlog = wl
        try:
            work = []
            out = []
            rg = dict(regs)
            body = fn.loops()[head]
            visits = {}
            active = {head: ctx}
            self.exec_block(st, fn, head, None, rg, active, visits, work, out)
            while work:
                s, b, prev, r2, act, vis = work.pop()
                if b not in body or b == head:
                    continue
                lp = fn.loops()
                if b in lp:
                    sp = self.find_loop(fn, b)
                    if sp is not None:
                        if b in act:
                            continue
                        s, c = self.enter_loop(s, sp, fn, b, r2)
                        act = dict(act)
                        act[b] = c
                    else:
                        vis = dict(vis)
                        vis[b] = vis.get(b, 0) + 1
                        if vis[b] > self.max_unroll:
                            raise Unsupported("inner loop without invariant in " + dem(fn.name))
                self.exec_block(s, fn, b, prev, r2, act, vis, work, out)
            return wl
        finally:
            self.dry -= 1

    def havoc(self, st, mods, ctx):
        hav = {}
        for m in sorted(mods, key=lambda m: (m[0] == "h" and not (isinstance(m[3], str) and m[3].startswith("*")), str(m))):
            if m[0] == "c":
                c = st.cells.get((m[1], m[2]))
                if c is None:
                    continue
                sz, v = c
                if isinstance(v, Iter):
                    nv = Iter(v.ck, self.sym("it"), v.kind, v.sz, v.gen)
                    st.assume(nv.idx >= 0)
                else:
                    nv = self.sym("hv", z3.BitVecSort(8 * sz))
                st.cells[(m[1], m[2])] = (sz, nv)
                hav[m] = nv
                e = ctx.entry.cells.get((m[1], m[2]))
                if e is not None and sz == 8 and not isinstance(e[1], (Iter, Undef, VFn)):
                    import stl

                    nt = stl.node_note(self, ctx.entry, e[1])
                    if nt is not None:
                        ctx.mapit[(m[1], m[2])] = nt[1]
                        stl.note_node(self, st, nv, nt[1], stl.NODEKEY(nv))
                        m0 = self.cont_get(st, nt[1], "map", lambda: None)
                        was, self.spec = self.spec, True
                        stl.tie_key(self, st, nv, stl.NODEKEY(nv), m0)
                        self.spec = was
            elif m[0] == "h":
                if not (isinstance(m[3], str) and m[3].startswith("*")) and isz(m[3]):
                    k = self.star(m[3])
                    if ("h", m[1], m[2], "*") in mods or (k != "*" and ("h", m[1], m[2], k) in mods):
                        continue  # covered by the havoc of its kind
                h = self.harr(st, m[1], m[2])
                sort = z3.BitVecSort(8 * m[2]) if isinstance(m[2], int) else BV64
                if not (isinstance(m[3], str) and m[3].startswith("*")):
                    self.hwrite(st, m[3], m[1], m[2], self.sym("hh", sort))
                elif m[3] == "*" or ("h", m[1], m[2], "*") not in mods:
                    root = self.sym("HL_%d_%s" % (m[1], m[2]), z3.ArraySort(BV64, sort))
                    st.heap[(m[1], m[2])] = HeapArr(root, (), m[2], m[3][1:] or None, h if m[3][1:] else None)
            elif m[0] == "k":
                import stl

                stl.havoc_cont(self, st, m, ("k+",) + m[1:] in mods, ctx.entry)
        for c, ck in ctx.mapit.items():
            st.assume(self.map_pos(st, st.cells[c][1], ck))
        return hav

    def map_pos(self, st, v, ck):
        """v is the end or an element of the container"""
        import stl

        m = self.cont_get(st, ck, "map", lambda: None)
        k = stl.NODEKEY(bv(v))
        return z3.Or(bv(v) == 0, z3.And(m.has(k), m.at(k) == bv(v)))

    def invs(self, spec, st, ctx):
        """the candidate invariants of a loop that have not been refuted"""
        for nme, f in spec.inv(self, st, ctx):
            if nme not in self.dropped:
                yield nme, f

    def check_inv(self, st, spec, ctx, fn, regs, what):
        for c, ck in ctx.mapit.items():
            if not self.dry and not self.must(st, self.map_pos(st, st.cells[c][1], ck), quant=True):
                raise Unsupported("a map iterator of the loop in %s may leave its map" % dem(fn.name))
        if what == "preserved" and not self.dry:
            import stl

            for k, (sz, v) in ctx.entry.cells.items():
                if isinstance(v, Iter) and ("c",) + k in ctx.mods and not stl.stale(ctx.entry, v):
                    e = st.cells.get(k)
                    if e and isinstance(e[1], Iter) and stl.stale(st, e[1]):
                        self.oblige(st, "iterators of the loop in %s stay valid (no reallocation behind their back)" % short(dem(fn.name)), z3.BoolVal(False))
        ctx.checking = what
        for nme, f in self.invs(spec, st, ctx):
            self.oblige(st, "loop invariant %s (%s) in %s" % (nme, what, short(dem(fn.name))), f)
        ctx.checking = None
        if what == "preserved" and getattr(ctx, "measure0", None):
            now = spec.measure(self, st, ctx)
            self.oblige(st, "the loop in %s terminates" % short(dem(fn.name)), z3.Or([z3.ULT(a, b) for a, b in zip(now, ctx.measure0)]))


_born = {}


def born_after(e, n):
    """does the term mention a symbol created after symbol number n"""
    k = e.get_id()
    r = _born.get(k)
    if r is None:
        b, todo, seen = -1, [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                t = x.decl().name().rsplit("!", 1)
                if len(t) == 2 and t[1].isdigit():
                    b = max(b, int(t[1]))
            todo.extend(x.children())
        r = _born[k] = (e, b)
    return r[1] > n


class LoopCtx:
    checking = None

    def __init__(self, fn, head, regs, entry):
        self.fn, self.head, self.regs, self.entry = fn, head, regs, entry
        self.hav = {}
        self.spec = None
        self.mods = set()
        self.gen0 = 0
        self.mark = 1 << 60
        self.mapit = {}

    def mark_of(self, eng):
        return self.mark


def add_i(a, b, sgn=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + sgn * b
    r = a + b if sgn == 1 else a - b
    return r


def eq_i(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    r = z3.simplify(bv(a) == bv(b))
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def short(d):
    d = re.sub(r"\(.*\)", "()", d)
    return d[-80:]


class NullDeref(Exception):
    pass


class CallCtx:
    __slots__ = ("name", "d", "args", "ins", "f", "caller", "fv")

    def __init__(self, name, d, args, ins, f, caller, fv=None):
        self.name, self.d, self.args, self.ins, self.f, self.caller, self.fv = name, d, args, ins, f, caller, fv
