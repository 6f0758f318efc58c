"""Assumed contracts of the C++ standard library / boost pieces the code under verification uses.

Containers are abstract values: sequences are ropes of element addresses, maps/sets are (dom,node,rank,card) over their
key sort.  Element contents live in ordinary heap cells, so code that touches elements through references is executed
as it stands."""
import re
import z3
from sym import (Engine, State, Iter, UNDEF, Undef, VFn, bv, tobool, isz, addoff, split, Gen, BV64, REGION0, REGION_SHIFT,
                 eq_i, add_i, has_quant, HeapArr)
from ir import Unsupported, dem

I = BV64  # container positions are 64-bit signed terms; lengths are assumed < 2^31


def zi(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else x


# ------------------------------------------------------------------ sequences
class Seq:
    """rope: pieces are ('one', addr) or ('seg', arr, start, len)"""

    __slots__ = ("pieces", "owner")

    def __init__(self, pieces=(), owner=None):
        self.pieces, self.owner = tuple(pieces), owner

    def len(self):
        n = 0
        sym = []
        for p in self.pieces:
            if p[0] == "one":
                n += 1
            elif isinstance(p[3], int):
                n += p[3]
            else:
                sym.append(p[3])
        if not sym:
            return n
        e = sym[0]
        for x in sym[1:]:
            e = e + x
        return z3.simplify(e + n) if n else e

    def concrete(self):
        return all(p[0] == "one" for p in self.pieces)

    def get(self, i):
        """address of element i (z3/BV or int)"""
        off = 0
        alts = []
        for p in self.pieces:
            if p[0] == "one":
                c = eq_i(i, off)
                if c is True:
                    return p[1]
                if c is not False:
                    alts.append((c, p[1]))
                off = add_i(off, 1)
            else:
                idx = add_i(add_i(i, off, -1), p[2])
                idx = z3.simplify(zi(idx)) if not isinstance(idx, int) else zi(idx)
                a = z3.Select(p[1], idx)
                off2 = add_i(off, p[3])
                alts.append((z3.And(zi(i) >= zi(off), zi(i) < zi(off2)), a))
                off = off2
        if not alts:
            raise Unsupported("element of empty sequence")
        e = bv(alts[-1][1])
        for c, a in reversed(alts[:-1]):
            c = z3.simplify(c)
            if z3.is_true(c):
                e = bv(a)
            elif not z3.is_false(c):
                e = z3.If(c, bv(a), e)
        if z3.is_bv_value(e):
            return e.as_long()
        return e

    def push_back(self, a):
        return Seq(self.pieces + (("one", a),), self.owner)

    def push_front(self, a):
        return Seq((("one", a),) + self.pieces, self.owner)

    def locate(self, eng, st, i):
        """piece index and index inside it, decided by the path (None if undecided)"""
        off = 0
        for k, p in enumerate(self.pieces):
            l = 1 if p[0] == "one" else p[3]
            rel = add_i(i, off, -1)
            if eng.must(st, z3.And(zi(rel) >= 0, zi(rel) < zi(l))):
                return k, rel
            off = add_i(off, l)
        return None

    def erase(self, eng, st, i):
        r = self.locate(eng, st, i)
        if r is None:
            raise Unsupported("erase at undecided position")
        k, rel = r
        p = self.pieces[k]
        if p[0] == "one":
            mid = ()
        else:
            rel = rel if isinstance(rel, int) else z3.simplify(rel)
            mid = (("seg", p[1], p[2], rel), ("seg", p[1], add_i(add_i(p[2], rel), 1), add_i(add_i(p[3], rel, -1), 1, -1)))
            mid = tuple(q for q in mid if not (isinstance(q[3], int) and q[3] == 0))
        return Seq(self.pieces[:k] + mid + self.pieces[k + 1:], self.owner)

    def insert(self, eng, st, i, a):
        n = self.len()
        if eng.must(st, zi(i) == zi(n)):
            return self.push_back(a)
        if eng.must(st, zi(i) == 0):
            return self.push_front(a)
        r = self.locate(eng, st, i)
        if r is None:
            raise Unsupported("insert at undecided position")
        k, rel = r
        p = self.pieces[k]
        if p[0] == "one":
            mid = (("one", a), p)
        else:
            mid = (("seg", p[1], p[2], rel), ("one", a), ("seg", p[1], add_i(p[2], rel), add_i(p[3], rel, -1)))
        return Seq(self.pieces[:k] + mid + self.pieces[k + 1:], self.owner)

    def forall(self, f):
        """conjunction over all elements of f(addr)"""
        cs = []
        for p in self.pieces:
            if p[0] == "one":
                cs.append(f(p[1]))
            else:
                i = z3.FreshConst(I, "qi")
                a = z3.Select(p[1], i)
                cs.append(z3.ForAll([i], z3.Implies(z3.And(i >= zi(p[2]), i < zi(p[2]) + zi(p[3])), f(a)), patterns=[a]))
        return z3.And(cs) if cs else z3.BoolVal(True)

    def exists(self, f):
        return z3.Not(self.forall(lambda a: z3.Not(f(a))))

    def subst(self, m):
        return self


_idxof = {}


def mark_elem(eng, a):
    if isinstance(a, int) and a >= REGION0:
        eng.elem_regions.add((a - REGION0) >> REGION_SHIFT)


def new_seg(eng, st, name, n=None, gen=None):
    arr = eng.sym(name + "_at", z3.ArraySort(I, BV64), gen)
    ln = eng.sym(name + "_len", I, gen) if n is None else n
    inv = eng.sym(name + "_inv", z3.ArraySort(BV64, I), gen)
    eng.elem_arrs[arr.get_id()] = arr
    return arr, ln, inv


class SeqInit(Seq):
    """initial unknown sequence; facts are added the first time a path sees it"""

    __slots__ = ("arr", "ln", "inv")

    def __init__(self, eng, name, gen=-1):
        self.arr, self.ln, self.inv = new_seg(eng, None, name, gen=gen)
        Seq.__init__(self, (("seg", self.arr, 0, self.ln),), None)

    def on_first(self, eng, st, ck):
        key = ("seqf", self.arr.get_id())
        if key in st.notes:
            return
        st.notes[key] = True
        g = Gen.of(self.arr)
        lim = (1 << 60) if g < 0 else REGION0 + ((g + 1) << REGION_SHIFT)
        st.assume(self.ln >= 0)
        st.assume(self.ln < (1 << 31))
        i = z3.Const("qs_%d" % self.arr.get_id(), I)
        a = z3.Select(self.arr, i)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.ln),
                                            z3.And(a != 0, z3.ULT(a, z3.BitVecVal(lim, 64)),
                                                   z3.Select(self.inv, a) == i)), patterns=[a]))


def flatten(eng, st, v):
    """the same sequence as one segment (loops then need no case split over the pieces)"""
    if not isinstance(v, Seq) or len(v.pieces) < 2:
        return v
    arr, _, _ = new_seg(eng, st, "flat", 0)
    off = 0
    for p in v.pieces:
        if p[0] == "one":
            st.assume(z3.Select(arr, zi(off)) == bv(p[1]))
            off = add_i(off, 1)
        else:
            i = z3.FreshConst(I, "fl")
            if off == 0 and isinstance(p[2], int) and p[2] == 0:
                st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(p[3])), z3.Select(arr, i) == z3.Select(p[1], i)),
                                    patterns=[z3.Select(arr, i), z3.Select(p[1], i)]))
                off = add_i(off, p[3])
                continue
            rel = i - zi(off)
            body = z3.Implies(z3.And(rel >= 0, rel < zi(p[3])), z3.Select(arr, i) == z3.Select(p[1], zi(p[2]) + rel))
            st.assume(z3.ForAll([i], body, patterns=[z3.Select(arr, i)]))
            j = z3.FreshConst(I, "fm")
            rel = j - zi(p[2])
            st.assume(z3.ForAll([j], z3.Implies(z3.And(rel >= 0, rel < zi(p[3])), z3.Select(arr, zi(off) + rel) == z3.Select(p[1], j)),
                                patterns=[z3.Select(p[1], j)]))
            off = add_i(off, p[3])
    return Seq((("seg", arr, 0, v.len()),), v.owner)


def seq_get(eng, st, ck):
    def mk():
        b = ck[0]
        if isinstance(b, int) and b >= REGION0:
            return Seq(())
        return SeqInit(eng, "seq%d" % ck[1])

    return eng.cont_get(st, ck, "seq", mk)


def seq_set(eng, st, ck, v, grow=True):
    eng.cont_set(st, ck, "seq", v, grow)


# ------------------------------------------------------------------ maps
def key_sort(kk):
    return BV64


_nodekey = {}


def nodekey(sort=BV64):
    return z3.Function("nodekey", BV64, BV64)


NODEKEY = z3.Function("nodekey", BV64, BV64)
OWNER = z3.Function("nodeowner", BV64, z3.IntSort())


class Map:
    """dom: Array(K,Bool), node: Array(K,BV64), rank: Array(K,Int), card: Int"""

    __slots__ = ("dom", "node", "rank", "unrank", "card", "koff", "kk", "oid", "adds")

    def __init__(self, dom, node, rank, unrank, card, koff, kk, oid, adds=()):
        self.dom, self.node, self.rank, self.unrank, self.card = dom, node, rank, unrank, card
        self.koff, self.kk, self.oid, self.adds = koff, kk, oid, adds

    def has(self, k):
        return z3.Select(self.dom, bv(k))

    def at(self, k):
        return z3.Select(self.node, bv(k))

    def upd(self, **kw):
        d = {f: getattr(self, f) for f in Map.__slots__}
        d.update(kw)
        return Map(**d)

    def facts(self, eng, st):
        key = ("mapf", self.dom.get_id())
        if key in st.notes:
            return
        st.notes[key] = True
        if not z3.is_const(self.dom) or z3.is_K(self.dom):
            return
        g = Gen.of(self.dom)
        lim = (1 << 60) if g < 0 else REGION0 + ((g + 1) << REGION_SHIFT)
        k = z3.BitVec("mk_%d" % self.dom.get_id(), 64)
        n = z3.Select(self.node, k)
        body = z3.Implies(z3.Select(self.dom, k), z3.And(
            n != 0, z3.ULT(n, z3.BitVecVal(lim, 64)), NODEKEY(n) == k, OWNER(n) == self.oid, self.card > 0))
        st.assume(z3.ForAll([k], body, patterns=[z3.Select(self.dom, k)]))
        st.assume(z3.ForAll([k], body, patterns=[n]))
        r = z3.Select(self.rank, k)
        st.assume(z3.ForAll([k], z3.Select(self.unrank, r) == k, patterns=[r]))
        w = eng.sym("mapw", BV64, g)
        st.assume(z3.And(self.card >= 0, self.card < (1 << 31)))
        st.assume(z3.Implies(self.card > 0, z3.Select(self.dom, w)))

    def on_first(self, eng, st, ck):
        self.facts(eng, st)

    def pat(self, k):
        """trigger for statements about the presence of key k"""
        d = self.dom
        while z3.is_app_of(d, z3.Z3_OP_STORE):
            d = d.arg(0)
        return [z3.Select(d, k)] if z3.is_const(d) and not z3.is_K(d) else []

    def forall(self, f):
        """for all present keys k: f(k, node)"""
        k = z3.FreshConst(BV64, "qk")
        return z3.ForAll([k], z3.Implies(self.has(k), f(k, self.at(k))), patterns=self.pat(k))


_oid = [0]


def new_map(eng, name, koff, kk, gen=-1):
    _oid[0] += 1
    nd = eng.sym(name + "_node", z3.ArraySort(BV64, BV64), gen)
    eng.elem_arrs[nd.get_id()] = nd
    return Map(eng.sym(name + "_dom", z3.ArraySort(BV64, z3.BoolSort()), gen), nd,
               eng.sym(name + "_rank", z3.ArraySort(BV64, I), gen),
               eng.sym(name + "_unrank", z3.ArraySort(I, BV64), gen),
               eng.sym(name + "_card", I, gen), koff, kk, _oid[0])


def empty_map(eng, koff, kk):
    _oid[0] += 1
    m = new_map(eng, "em", koff, kk, gen=None)
    return m.upd(dom=z3.K(BV64, z3.BoolVal(False)), card=zi(0))


def map_get(eng, st, ck, koff, kk):
    def mk():
        b = ck[0]
        if isinstance(b, int) and b >= REGION0:
            return empty_map(eng, koff, kk)
        return new_map(eng, "map%d" % ck[1], koff, kk)

    m = eng.cont_get(st, ck, "map", mk)
    if m.koff is None:
        m.koff, m.kk = koff, kk
    m.facts(eng, st)
    return m


def map_set(eng, st, ck, m, grow=True):
    eng.cont_set(st, ck, "map", m, grow)


def seq_gen(s):
    return max([Gen.of(p[1]) for p in s.pieces] + [-1])


def havoc_cont(eng, st, m, grow=True, entry=None):
    """an arbitrary later value of the container; grow: elements may have been added since entry"""
    _, o, kind, b = m
    ck = (b, o)
    if kind == "seq":
        old = eng.cont_get(st, ck, "seq", lambda: Seq(()))
        v = SeqInit(eng, "hseq%d" % o, gen=eng.region_ctr if grow else seq_gen(old))
        eng.cont_set(st, ck, "seq", v, grow)
        if not grow:
            st.assume(z3.ULE(v.ln, zi(old.len())))
        v.on_first(eng, st, ck)
    else:
        old = eng.cont_get(st, ck, "map", lambda: empty_map(eng, 8, "int"))
        if not grow:
            dom = eng.sym("hmap%d_dom" % o, z3.ArraySort(BV64, z3.BoolSort()), Gen.of(old.dom))
            card = eng.sym("hmap%d_card" % o, I, -1)
            v = old.upd(dom=dom, card=card)
            k = z3.FreshConst(BV64, "hk")
            st.assume(z3.ForAll([k], z3.Implies(v.has(k), z3.And(old.has(k), card > 0)), patterns=v.pat(k)))
            st.assume(z3.And(card >= 0, card <= old.card, card < (1 << 31)))
            w = eng.sym("mapw", BV64, -1)
            st.assume(z3.Implies(card > 0, v.has(w)))
            eng.cont_set(st, ck, "map", v, False)
            return
        v = new_map(eng, "hmap%d" % o, old.koff, old.kk, gen=eng.region_ctr)
        v.oid = old.oid
        # surviving keys keep their nodes and order is an arbitrary refinement
        v.rank, v.unrank = old.rank, old.unrank
        eng.cont_set(st, ck, "map", v)
        v.facts(eng, st)


# keys ---------------------------------------------------------------
def key_kind(t):
    t = t.strip()
    if re.match(r"(const )?(std::(__cxx11::)?(basic_string<|string\b))", t):
        return "str"
    if t.startswith("std::basic_string_view"):
        return "strv"
    return "int"


def load_key(eng, st, a, kk):
    if kk == "str":
        return bv(str_get(eng, st, a))
    if kk == "strv":
        return bv(eng.load(st, addoff(a, 8), 8))
    if kk == "subkey":
        x, y = bv(eng.load(st, a, 8)), bv(eng.load(st, addoff(a, 8), 8))
        return PAIR(x, y)
    return bv(eng.load(st, a, 8))


PAIR = z3.Function("pairkey", BV64, BV64, BV64)
PFST = z3.Function("pairfst", BV64, BV64)
PSND = z3.Function("pairsnd", BV64, BV64)


def pair_key(eng, st, x, y):
    p = PAIR(bv(x), bv(y))
    st.assume(PFST(p) == bv(x))
    st.assume(PSND(p) == bv(y))
    return p


def targs(d, cls):
    """template arguments of the (first) class cls in demangled name d"""
    i = d.find(cls + "<")
    if i < 0:
        return []
    i += len(cls) + 1
    depth = 1
    out = []
    cur = ""
    while i < len(d) and depth:
        c = d[i]
        if c in "<(":
            depth += 1
        elif c in ">)":
            if c == ">" and d[i - 1] == "-":
                pass
            else:
                depth -= 1
                if depth == 0:
                    break
        if c == "," and depth == 1:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    out.append(cur.strip())
    return out


MAPCLS = ("std::unordered_map", "std::unordered_set", "std::map", "std::set", "boost::unordered::unordered_map",
          "std::_Hashtable", "std::_Rb_tree")


def map_params(d):
    """(key offset in a node, key kind) from the demangled member name"""
    for c in MAPCLS:
        if d.startswith(c + "<") or (" " + c + "<") in d.split("(")[0]:
            k = targs(d, c)[0]
            kk = key_kind(k)
            if "subscription_key_t" in k:
                kk = "subkey"
            koff = 32 if c in ("std::map", "std::set", "std::_Rb_tree") else 8
            if c.startswith("boost"):
                koff = 8
            return koff, kk
    raise Unsupported("map params " + d[:100])


def the_map(eng, st, cc, a=None):
    koff, kk = map_params(cc.d)
    ck = eng.ckey(st, cc.args[0] if a is None else a)
    return ck, map_get(eng, st, ck, koff, kk)


def read_keycell(eng, st, node, m):
    if m.kk == "str":
        return bv(str_get(eng, st, addoff(node, m.koff)))
    return bv(eng.load(st, addoff(node, m.koff), 8))


def tie_key(eng, st, node, k, m):
    """facts that come with a node known to hold key k"""
    eng.setkind(st, node, "node")
    was, eng.spec = eng.spec, True  # these reads must not exclude the null node (the end iterator)
    try:
        if m.kk == "subkey":
            f = z3.And(bv(eng.load(st, addoff(node, m.koff), 8)) == PFST(k), bv(eng.load(st, addoff(node, m.koff + 8), 8)) == PSND(k))
        else:
            f = read_keycell(eng, st, node, m) == k
    finally:
        eng.spec = was
    st.assume(z3.Implies(node != 0, f) if isz(node) else f)


def note_node(eng, st, node, ck, k):
    if isz(node):
        st.notes[("node", node.get_id())] = (node, ck, k)
    else:
        st.notes[("node", node)] = (node, ck, k)


def node_note(eng, st, node):
    return st.notes.get(("node", node.get_id() if isz(node) else node))


def m_find(eng, st, ck, m, k):
    """forks; returns [(st, node or 0)]"""
    out = []
    c = z3.simplify(m.has(k))
    if not z3.is_false(c) and eng.feasible(st, c):
        s = st.copy()
        if not z3.is_true(c):
            s.facts.append(c)
            s.trace.append("found key")
        node = m.at(k)
        n2 = z3.simplify(node)
        node = n2.as_long() if z3.is_bv_value(n2) else node
        if isz(node) and not z3.is_const(m.node):
            cc = eng.concretize(s, n2) if z3.is_app_of(n2, z3.Z3_OP_ITE) else None
            node = resolve_store(eng, s, m, k)
        if isz(node):
            s.facts.append(node != 0)
            s.facts.append(NODEKEY(node) == k)
            s.facts.append(OWNER(node) == m.oid)
            s.facts.append(m.card > 0)
            eng.base_facts(s, node)
        tie_key(eng, s, node, k, m)
        note_node(eng, s, node, ck, k)
        out.append((s, node))
    if not z3.is_true(c) and eng.feasible(st, z3.Not(c)):
        st.facts.append(z3.Not(c))
        st.trace.append("missing key")
        out.append((st, 0))
    return out


def resolve_store(eng, st, m, k):
    """node of key k, peeling syntactic stores that the path decides"""
    a = m.node
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        i = a.arg(1)
        if eng.must(st, i == k):
            v = a.arg(2)
            return v.as_long() if z3.is_bv_value(v) else v
        if eng.must(st, i != k):
            a = a.arg(0)
            continue
        return z3.Select(a, k)
    return z3.Select(a, k)


def m_insert(eng, st, ck, m, k, node):
    mark_elem(eng, node)
    st.assume(NODEKEY(bv(node)) == k)
    st.assume(OWNER(bv(node)) == m.oid)
    rank = eng.sym("rank", z3.ArraySort(BV64, I))
    unrank = eng.sym("unrank", z3.ArraySort(I, BV64))
    x = z3.FreshConst(BV64, "rk")
    st.assume(z3.ForAll([x], z3.Select(unrank, z3.Select(rank, x)) == x, patterns=[z3.Select(rank, x)]))
    m2 = m.upd(dom=z3.Store(m.dom, k, z3.BoolVal(True)), node=z3.Store(m.node, k, bv(node)), card=m.card + 1,
               rank=rank, unrank=unrank)
    map_set(eng, st, ck, m2)
    note_node(eng, st, node, ck, k)
    return m2


def m_erase(eng, st, ck, m, k):
    m2 = m.upd(dom=z3.Store(m.dom, k, z3.BoolVal(False)), card=m.card - 1)
    st.assume(m.card > 0)
    w = eng.sym("mapw")
    st.assume(z3.Implies(m2.card > 0, m2.has(w)))
    x = z3.FreshConst(BV64, "ex")
    st.assume(z3.ForAll([x], z3.Implies(m2.has(x), m2.card > 0), patterns=m.pat(x)))
    map_set(eng, st, ck, m2, False)
    return m2


def m_begin(eng, st, ck, m):
    p = eng.sym("begin")
    k0 = eng.sym("k0")
    x = z3.FreshConst(BV64, "bx")
    st.assume(z3.Implies(m.card == 0, p == 0))
    st.assume(z3.Implies(m.card != 0, z3.And(m.has(k0), p == m.at(k0), p != 0, NODEKEY(p) == k0)))
    st.assume(z3.Implies(m.card != 0, z3.ForAll(
        [x], z3.Implies(m.has(x), z3.Select(m.rank, k0) <= z3.Select(m.rank, x)), patterns=m.pat(x))))
    if not z3.is_const(m.dom) or z3.is_K(m.dom):
        y = z3.FreshConst(BV64, "bz")
        st.assume(z3.Implies(m.card == 0, z3.ForAll([y], z3.Not(m.has(y)))))
    note_node(eng, st, p, ck, NODEKEY(p))
    return p


def m_next(eng, st, ck, m, node, k):
    """iterator after the one at key k: fresh pointer constrained to be the successor or null"""
    p = eng.sym("next")
    k2 = NODEKEY(p)
    x = z3.FreshConst(BV64, "nx")
    r = z3.Select(m.rank, k)
    last = z3.ForAll([x], z3.Implies(m.has(x), z3.Select(m.rank, x) <= r), patterns=m.pat(x))
    nxt = z3.And(m.has(k2), p == m.at(k2), z3.Select(m.rank, k2) > r)
    y = z3.FreshConst(BV64, "ny")
    mn = z3.ForAll([y], z3.Implies(z3.And(m.has(y), z3.Select(m.rank, y) > r),
                                   z3.Select(m.rank, y) >= z3.Select(m.rank, k2)), patterns=m.pat(y))
    st.assume(z3.Implies(p == 0, last))
    st.assume(z3.Implies(p != 0, nxt))
    st.assume(z3.Implies(p != 0, mn))
    note_node(eng, st, p, ck, k2)
    return p


# ------------------------------------------------------------------ strings
EMPTY_STR = 0


def str_cell(eng, st, a):
    w, b, o = eng.resolve(st, a)
    return w, b, o


def str_get(eng, st, a):
    w, b, o = eng.resolve(st, a)
    if w == "heap":
        return eng.norm(eng.hread(st, b, o, "str"))
    if w == "cell":
        c = st.cells.get((("s", b), o))
        if c is None:
            v = eng.sym("str")
            st.cells[(("s", b), o)] = ("str", v)
            return v
        return c[1]
    c = st.cells.get((("s", "g", b), o))
    if c is None:
        v = eng.sym0("gstr")
        st.cells[(("s", "g", b), o)] = ("str", v)
        return v
    return c[1]


def str_set(eng, st, a, v):
    w, b, o = eng.resolve(st, a)
    if w == "heap":
        eng.hwrite(st, b, o, "str", v)
    elif w == "cell":
        st.cells[(("s", b), o)] = ("str", v)
        if st.wlog is not None:
            st.wlog.add(("c", ("s", b), o))
    else:
        st.cells[(("s", "g", b), o)] = ("str", v)


CONCAT = z3.Function("strcat", BV64, BV64, BV64)
CSTR = z3.Function("cstr", BV64, BV64)
STRLEN = z3.Function("strlen", BV64, BV64)


def lit_str(eng, st, p):
    """string value of a const char*"""
    if isinstance(p, int):
        g = eng.addr_glob.get(p)
        if g is not None:
            gv = g[1].gvar(g[0])
            if gv and gv[1] is not None:
                if gv[1][0] == "str":
                    s = gv[1][1].rstrip(b"\0")
                elif gv[1][0] == "z":
                    s = b""
                else:
                    s = None
                if s is not None:
                    if s == b"":
                        return EMPTY_STR
                    if s not in eng.lit_strs:
                        eng.lit_strs[s] = (1 << 40) + len(eng.lit_strs) + 1
                    return eng.lit_strs[s]
    return FROMC(bv(p))


FROMC = z3.Function("str_of_cstr", BV64, BV64)


# ------------------------------------------------------------------ hooks
def nop(eng, st, cc):
    return [(st, None)]


def ret_this(eng, st, cc):
    return [(st, cc.args[0])]


def find_callee(eng, f, pat, depth=6, seen=None):
    """first function reachable from f whose demangled name matches"""
    rx = re.compile(pat)
    seen = set() if seen is None else seen
    lvl = [f]
    for _ in range(depth):
        nxt = []
        for g in lvl:
            if g is None or g.name in seen:
                continue
            seen.add(g.name)
            g.parse()
            for b in g.order:
                for ins in g.block(b):
                    if ins.op in ("call", "invoke") and ins.a[0][0] == "g":
                        n = ins.a[0][1]
                        if rx.search(dem(n)):
                            return g.mod.funcs.get(n) or eng.index.get(n), n
                        h = g.mod.funcs.get(n) or eng.index.get(n)
                        if h is not None:
                            nxt.append(h)
        lvl = nxt
    return None, None


# sequences -----------------------------------------------------------
SEQ = r"std::(vector|deque|__cxx11::list|list)<"


def elem_size(eng, cc):
    for c in ("std::vector", "std::deque", "std::__cxx11::list"):
        if (c + "<") in cc.d:
            t = targs(cc.d, c)[0]
            if t in ("unsigned int", "int"):
                return 4
            if t in ("char", "bool"):
                return 1
            return 8
    return 8


def iter_ret(eng, st, cc, it):
    """return an iterator: by sret when the first argument is the return slot"""
    f = cc.f
    if f is not None:
        f.parse()
        if f.params and "sret" in f.params[0][2]:
            eng.store(st, cc.args[0], 8, it)
            return [(st, None)]
    elif cc.ins is not None and cc.ins.ty.k == "void":
        eng.store(st, cc.args[0], 8, it)
        return [(st, None)]
    return [(st, it)]


def seq_this(eng, st, cc):
    f = cc.f
    a = cc.args[0]
    if f is not None:
        f.parse()
        if f.params and "sret" in f.params[0][2]:
            a = cc.args[1]
    elif cc.ins is not None and cc.ins.ty.k == "void" and len(cc.args) > 1 and re.search(r"::(begin|end|rbegin|rend|erase|insert|emplace)\b", cc.d):
        a = cc.args[1]
    ck = eng.ckey(st, a)
    return ck, seq_get(eng, st, ck)


def base_args(cc):
    f = cc.f
    if f is not None:
        f.parse()
        if f.params and "sret" in f.params[0][2]:
            return cc.args[1:]
    return cc.args


def h_seq_size(eng, st, cc):
    ck, s = seq_this(eng, st, cc)
    n = s.len()
    if isinstance(n, int):
        return [(st, n)]
    return [(st, int2bv(eng, st, n))]


def int2bv(eng, st, n):
    """64-bit value of a non-negative mathematical integer (container sizes are < 2^31)"""
    if isinstance(n, int):
        return n
    key = ("i2b", n.get_id())
    if key in st.notes:
        return st.notes[key][1]
    v = n
    st.notes[key] = (n, v)
    return v


def h_seq_empty(eng, st, cc):
    ck, s = seq_this(eng, st, cc)
    n = s.len()
    return [(st, eq_i(n, 0))]


def h_seq_begin(eng, st, cc):
    ck, s = seq_this(eng, st, cc)
    return iter_ret(eng, st, cc, Iter(ck, 0, "seq", elem_size(eng, cc), storage(cc, st, ck)))


def h_seq_end(eng, st, cc):
    ck, s = seq_this(eng, st, cc)
    return iter_ret(eng, st, cc, Iter(ck, s.len(), "seq", elem_size(eng, cc), storage(cc, st, ck)))


def elem(eng, st, ck, idx):
    s = seq_get(eng, st, ck)
    a = s.get(idx)
    if isz(a):
        c = eng.concretize(st, a)
        if c is not None:
            a = c
        # index inside bounds is the caller's duty (checked when the element is used)
    return a


def h_seq_at(eng, st, cc):
    ck, s = seq_this(eng, st, cc)
    i = cc.args[1]
    idx = i
    if isz(idx):
        idx = z3.simplify(idx)
    eng.oblige(st, "index within bounds", z3.And(zi(idx) >= 0, zi(idx) < zi(s.len())), where=cc.d[:80])
    st.assume(z3.And(zi(idx) >= 0, zi(idx) < zi(s.len())))
    return [(st, elem(eng, st, ck, idx))]


def h_seq_front(eng, st, cc):
    ck, s = seq_this(eng, st, cc)
    eng.oblige(st, "front() of a non-empty sequence", zi(s.len()) > 0)
    st.assume(zi(s.len()) > 0)
    return [(st, elem(eng, st, ck, 0))]


def h_seq_back(eng, st, cc):
    ck, s = seq_this(eng, st, cc)
    eng.oblige(st, "back() of a non-empty sequence", zi(s.len()) > 0)
    st.assume(zi(s.len()) > 0)
    return [(st, elem(eng, st, ck, add_i(s.len(), 1, -1)))]


def construct(eng, st, cc, slot, args):
    """run the element constructor the library would run (allocator_traits::construct) on the slot"""
    f, n = find_callee(eng, cc.f, r"allocator_traits<.*>::construct<|__new_allocator<.*>::construct<|std::_Construct<", 8)
    if f is None:
        # the allocator's construct was inlined by the front end: run the element's constructor
        m = re.search(r"std::(?:vector|deque|__cxx11::list|list)<", cc.d)
        t = targs(cc.d, m.group(0)[:-1])[0] if m else None
        if t and key_kind(t) == "str" and len(args) == 1:
            head, par = cc.d.split("::emplace", 1)[-1].split("(", 1)[0] if "::emplace" in cc.d else "", param_types(cc.d)
            copies = head.rstrip("> ").endswith("&") or (not head and par and par[-1].endswith("const&"))
            str_set(eng, st, slot, str_get(eng, st, args[0]))
            if not copies:
                str_set(eng, st, args[0], EMPTY_STR)
            return [(st, None)]
        if t and t.endswith("*") and len(args) == 1:
            eng.store(st, slot, 8, eng.load(st, args[0], 8, True))
            return [(st, None)]
        if t:
            base = re.sub(r"<.*", "", t).split("::")[-1]
            f, n = find_callee(eng, cc.f, re.escape(t) + "::" + re.escape(base) + r"\(", 5)
            if f is not None:
                f.parse()
                pts = param_types(dem(n))
                args = [a if i >= len(pts) or pts[i].endswith("&") else eng.load(st, a, 8) for i, a in enumerate(args)]
                for pt, _, _ in f.params[1 + len(args):]:
                    args.append(default_arg(eng, cc.f, n, len(args) + 1))
                return eng.exec_func(st, f, [slot] + args)
            fl = find_elem_copy(eng, cc)
            if fl and len(args) == 1:
                # trivially copyable element: the library copies its bytes
                eng.memcpy(st, slot, args[0], fl)
                return [(st, None)]
        raise Unsupported("no element constructor under " + cc.d[:100])
    d = dem(n)
    if "_Construct<" in d and "allocator" not in d.split("_Construct<")[0]:
        return eng.exec_func(st, f, [slot] + args)
    dummy = eng.new_region("alloca")
    return eng.exec_func(st, f, [dummy, slot] + args)


def find_elem_copy(eng, cc):
    """the number of bytes the container copies into a new node"""
    f, n = (cc.f, cc.name) if "_M_create_node<" in cc.d else find_callee(eng, cc.f, r"::_M_create_node<", 5)
    if f is None:
        return None
    f.parse()
    for b in f.order:
        for ins in f.block(b):
            if ins.op in ("call", "invoke") and ins.a[0][0] == "g" and ins.a[0][1].startswith("@llvm.memcpy"):
                a = ins.a[1][2]
                v = a[1] if isinstance(a[1], tuple) else a[-1]
                if v[0] == "c":
                    return v[1]
    return None


def default_arg(eng, f, callee, i, depth=6, seen=None):
    """the constant some function below f passes as argument i of callee"""
    seen = set() if seen is None else seen
    if f is None or depth == 0 or f.name in seen:
        return None
    seen.add(f.name)
    f.parse()
    for b in f.order:
        for ins in f.block(b):
            if ins.op in ("call", "invoke") and ins.a[0][0] == "g":
                if ins.a[0][1] == callee:
                    a = ins.a[1][i]
                    v = a[1] if isinstance(a[1], tuple) else a[-1]
                    if v[0] == "c":
                        return v[1]
                else:
                    r = default_arg(eng, f.mod.funcs.get(ins.a[0][1]) or eng.index.get(ins.a[0][1]), callee, i, depth - 1, seen)
                    if r is not None:
                        return r
    return None


def h_seq_push(front):
    def h(eng, st, cc):
        if cc.f is None:
            raise Unsupported("no body " + cc.d[:80])
        slot = eng.fresh_obj(st)
        mark_elem(eng, slot)
        out = []
        ck0 = eng.ckey(st, cc.args[0])
        seq_get(eng, st, ck0)
        for s2, _ in construct(eng, st, cc, slot, cc.args[1:]):
            s = seq_get(eng, s2, ck0)
            seq_set(eng, s2, ck0, s.push_front(slot) if front else s.push_back(slot))
            if re.search(r"(^|\s)std::vector<", cc.d.split("(")[0]):
                reallocated(s2, ck0)
            rt = slot if "emplace" in cc.d else None
            out.append((s2, rt))
        return out

    return h


def h_seq_pop(front):
    def h(eng, st, cc):
        ck, s = seq_this(eng, st, cc)
        eng.oblige(st, "pop of a non-empty sequence", zi(s.len()) > 0)
        st.assume(zi(s.len()) > 0)
        i = 0 if front else add_i(s.len(), 1, -1)
        seq_set(eng, st, ck, s.erase(eng, st, i), False)
        return [(st, None)]

    return h


def gkey(ck):
    return ("storage", ck[1], ck[0] if isinstance(ck[0], int) else ck[0].get_id())


def reallocated(st, ck):
    """the vector's elements may have moved: iterators obtained so far are invalid"""
    k = gkey(ck)
    st.notes[k] = (ck, st.notes.get(k, (0, 0))[1] + 1)


def storage(cc, st, ck):
    return st.notes.get(gkey(ck), (0, 0))[1] if re.match(r"std::vector<", cc.d) else None


def stale(st, it):
    return it.gen is not None and it.gen < st.notes.get(gkey(it.ck), (0, 0))[1]


def it_val(eng, st, x):
    """iterator argument: by value (Iter) or pointer to an iterator object"""
    if isinstance(x, Iter):
        return x
    v = eng.load(st, x, 8)
    if not isinstance(v, Iter):
        raise Unsupported("not an iterator: %s" % (str(v)[:60],))
    return v


def h_seq_erase(eng, st, cc):
    a = base_args(cc)
    ck = eng.ckey(st, a[0])
    s = seq_get(eng, st, ck)
    it = it_val(eng, st, a[1])
    eng.oblige(st, "erase of a valid iterator", z3.And(zi(it.idx) >= 0, zi(it.idx) < zi(s.len())))
    st.assume(z3.And(zi(it.idx) >= 0, zi(it.idx) < zi(s.len())))
    if s.locate(eng, st, it.idx) is None:
        # case split on the piece
        out = []
        off = 0
        for p in s.pieces:
            l = 1 if p[0] == "one" else p[3]
            c = z3.And(zi(it.idx) >= zi(off), zi(it.idx) < zi(add_i(off, l)))
            if eng.feasible(st, c):
                s2 = st.copy()
                s2.facts.append(c)
                out += h_seq_erase(eng, s2, cc)
            off = add_i(off, l)
        return out
    seq_set(eng, st, ck, s.erase(eng, st, it.idx), False)
    return iter_ret(eng, st, cc, Iter(ck, it.idx, it.kind, it.sz))


def h_seq_insert(eng, st, cc):
    a = base_args(cc)
    ck = eng.ckey(st, a[0])
    it = it_val(eng, st, a[1])
    slot = eng.fresh_obj(st)
    mark_elem(eng, slot)
    out = []
    for s2, _ in construct(eng, st, cc, slot, a[2:]):
        s = seq_get(eng, s2, ck)
        n = s.len()
        cands = []
        if s.locate(eng, s2, it.idx) is None and not eng.must(s2, zi(it.idx) == zi(n)):
            # split on end / inside
            off = 0
            alts = [zi(it.idx) == zi(n)]
            for p in s.pieces:
                l = 1 if p[0] == "one" else p[3]
                alts.append(z3.And(zi(it.idx) >= zi(off), zi(it.idx) < zi(add_i(off, l))))
                off = add_i(off, l)
            for c in alts:
                if eng.feasible(s2, c):
                    s3 = s2.copy()
                    s3.facts.append(c)
                    cands.append(s3)
        else:
            cands = [s2]
        for s3 in cands:
            seq_set(eng, s3, ck, s.insert(eng, s3, it.idx, slot))
            out += iter_ret(eng, s3, cc, Iter(ck, it.idx, it.kind, it.sz))
    return out


def h_seq_clear(eng, st, cc):
    ck = eng.ckey(st, cc.args[0])
    seq_set(eng, st, ck, Seq(()), False)
    return [(st, None)]


def h_seq_list(eng, st, cc):
    """construction from an initializer list: copies of its elements"""
    t = targs(cc.d, re.search(r"std::(?:vector|deque|__cxx11::list)", cc.d).group(0))[0]
    this, p, n = cc.args[:3]
    ck = eng.ckey(st, this)
    if not isinstance(n, int):
        raise Unsupported("initializer list of unknown length")
    kk = key_kind(t)
    if kk != "str" and not (t.endswith("*") or t.startswith("boost::intrusive_ptr<")):
        raise Unsupported("initializer list of " + t[:60])
    out = Seq(())
    for i in range(n):
        slot = eng.fresh_obj(st)
        mark_elem(eng, slot)
        if kk == "str":
            str_set(eng, st, slot, str_get(eng, st, addoff(p, 32 * i)))
        else:
            eng.store(st, slot, 8, eng.load(st, addoff(p, 8 * i), 8, True))
        out = out.push_back(slot)
    seq_get(eng, st, ck)
    seq_set(eng, st, ck, out)
    return [(st, None)]


def h_seq_init(eng, st, cc):
    ck = eng.ckey(st, cc.args[0])
    seq_set(eng, st, ck, Seq(()), False)
    return [(st, None)]


def h_seq_move(eng, st, cc):
    src = eng.ckey(st, cc.args[1])
    s = seq_get(eng, st, src)
    seq_set(eng, st, eng.ckey(st, cc.args[0]), s)
    seq_set(eng, st, src, Seq(()))
    return [(st, cc.args[0])]


def h_seq_copy(eng, st, cc):
    raise Unsupported("sequence copy " + cc.d[:60])


def h_seq_swap(eng, st, cc):
    a, b = eng.ckey(st, cc.args[0]), eng.ckey(st, cc.args[1])
    x, y = seq_get(eng, st, a), seq_get(eng, st, b)
    seq_set(eng, st, a, y)
    seq_set(eng, st, b, x)
    return [(st, None)]


def h_vec_resize(eng, st, cc):
    ck, s = seq_this(eng, st, cc)
    n = cc.args[1]
    old = s.len()
    new = n
    sz = elem_size(eng, cc)
    out = []
    grow = zi(new) > zi(old)
    if eng.feasible(st, grow):
        s2 = st.copy()
        s2.facts.append(grow)
        # new zero elements
        arr = eng.sym("rs_at", z3.ArraySort(I, BV64))
        inv = eng.sym("rs_inv", z3.ArraySort(BV64, I))
        nlen = eng.sym("rs_len", I)
        s2.facts.append(nlen == zi(new) - zi(old))
        base = eng.new_region("heap")
        top = eng.new_region("heap")
        i = z3.FreshConst(I, "ri")
        a = z3.Select(arr, i)
        s2.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nlen), z3.And(
            z3.UGT(a, z3.BitVecVal(base, 64)), z3.ULT(a, z3.BitVecVal(top, 64)), z3.Select(inv, a) == i)), patterns=[a]))
        h = eng.harr(s2, 0, sz)
        # zero initialised cells: a new root that agrees with the old one below 'base'
        x = z3.FreshConst(BV64, "rz")
        root = eng.sym("HZ", z3.ArraySort(BV64, z3.BitVecSort(8 * sz)))
        cur = lambda y: eng.hread(s2, y, 0, sz)
        oldv = bv(cur(x), 8 * sz)
        s2.assume(z3.ForAll([x], z3.Implies(z3.ULE(x, z3.BitVecVal(base, 64)), z3.Select(root, x) == oldv),
                            patterns=[z3.Select(root, x)]))
        s2.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nlen), z3.Select(root, a) == 0), patterns=[a]))
        s2.heap[(0, sz)] = HeapArr(root, (), sz)
        if s2.wlog is not None:
            s2.wlog.add(("h", 0, sz, x))
        seq_set(eng, s2, ck, Seq(s.pieces + (("seg", arr, 0, nlen),), s.owner))
        out.append((s2, None))
    shrink = zi(new) <= zi(old)
    if eng.feasible(st, shrink):
        if eng.must(st, z3.Implies(shrink, zi(new) == zi(old))):
            st.facts.append(shrink)
            out.append((st, None))
        elif len(s.pieces) == 1:
            st.facts.append(shrink)
            p = s.pieces[0]
            seq_set(eng, st, ck, Seq((("seg", p[1], p[2], new),), s.owner))
            out.append((st, None))
        else:
            raise Unsupported("shrinking resize")
    return out


# sequence iterators ---------------------------------------------------
def h_it_deref(eng, st, cc):
    it = it_val(eng, st, cc.args[0])
    s = seq_get(eng, st, it.ck)
    if stale(st, it):
        eng.oblige(st, "a dereferenced iterator is still valid (its vector has not been reallocated)", z3.BoolVal(False))
    eng.oblige(st, "a dereferenced iterator points to an element", z3.And(zi(it.idx) >= 0, zi(it.idx) < zi(s.len())))
    st.assume(z3.And(zi(it.idx) >= 0, zi(it.idx) < zi(s.len())))
    return [(st, elem(eng, st, it.ck, it.idx))]


def h_it_inc(d):
    def h(eng, st, cc):
        post = re.search(r"operator(\+\+|--)\(int\)", cc.d)
        a = cc.args
        sret = None
        if cc.f is not None:
            cc.f.parse()
            if cc.f.params and "sret" in cc.f.params[0][2]:
                sret, a = a[0], a[1:]
        it = it_val(eng, st, a[0])
        n = add_i(it.idx, d)
        if isz(n):
            n = z3.simplify(n)
        eng.store(st, a[0], 8, Iter(it.ck, n, it.kind, it.sz, it.gen))
        if post:
            if sret is not None:
                eng.store(st, sret, 8, it)
                return [(st, None)]
            return [(st, it)]
        return [(st, a[0])]

    return h


def h_it_eq(neg):
    def h(eng, st, cc):
        x, y = it_val(eng, st, cc.args[0]), it_val(eng, st, cc.args[1])
        r = eq_i(x.idx, y.idx)
        if neg:
            r = (not r) if isinstance(r, bool) else z3.Not(r)
        return [(st, r)]

    return h


def h_it_copy(eng, st, cc):
    v = eng.load(st, cc.args[1], 8) if not isinstance(cc.args[1], Iter) else cc.args[1]
    eng.store(st, cc.args[0], 8, v)
    return [(st, cc.args[0])]


def h_it_plus(eng, st, cc):
    a = base_args(cc)
    it = it_val(eng, st, a[0])
    n = a[1]
    d = (n if n < 1 << 63 else n - (1 << 64)) if isinstance(n, int) else n
    if "operator-" in cc.d:
        d = -d
    return iter_ret(eng, st, cc, Iter(it.ck, add_i(it.idx, d), it.kind, it.sz, it.gen))


# predicates over ranges -------------------------------------------------
class PredSummary:
    pass


def pred_term(eng, st, f, prefix, j, addr):
    """symbolic boolean of predicate f(prefix..., element at addr) as a term; the run must be pure"""
    base = st.copy()
    n0 = len(base.facts)
    q0 = len(base.qfacts)
    base.wlog = set()
    mark = eng.region_ctr
    eng.dry += 1
    try:
        rs = eng.exec_func(base, f, prefix + [addr])
    finally:
        eng.dry -= 1
    for w in base.wlog or ():
        pass
    cases = []
    for s, r in rs:
        conds = s.facts[n0:]
        if s.qfacts[q0:]:
            raise Unsupported("quantified facts inside a predicate")
        for w in s.wlog:
            if w[0] == "c" and isinstance(w[1], int) and w[1] > mark:
                continue
            if w[0] == "c" and isinstance(w[1], tuple) and isinstance(w[1][1], int) and w[1][1] > mark:
                continue
            raise Unsupported("predicate with side effects: %s" % (w,))
        cases.append((z3.And(conds) if conds else z3.BoolVal(True), tobool(r)))
    return cases


def pred_formula(eng, st, f, prefix, addr):
    """formula P(addr); facts of the run (base facts) are weakened into the path cases"""
    cases = pred_term(eng, st, f, prefix, None, addr)
    if not cases:
        raise Unsupported("predicate never returns")
    e = None
    ps = [z3.And(c, r) for c, r in cases]
    ns = [z3.And(c, z3.Not(r)) for c, r in cases]
    return z3.simplify(z3.Or(ps)), z3.simplify(z3.Or(ns))


def pred_fn(eng, cc):
    """the predicate's operator(): found in the callee tree"""
    f, n = find_callee(eng, cc.f, r"(\{lambda|'lambda|\$_\d+|lambda_\d*|_Iter_equals)", 6)
    return f


def h_find_if(kind):
    def h(eng, st, cc):
        if cc.f is None:
            return NotImplemented
        f = cc.f
        f.parse()
        args = list(cc.args)
        sret = None
        if f.params and "sret" in f.params[0][2]:
            sret = args.pop(0)
        # the two iterators: Iter values or pointers to iterator objects
        its = []
        rev = False
        d = cc.d
        for x in args[:2]:
            if isinstance(x, Iter):
                its.append(x)
            elif isz(x) or (isinstance(x, int) and (x == 0 or x < (1 << 60))):
                its.append(x)
            else:
                v = eng.load(st, x, 8)
                its.append(v)
        rev = "reverse_iterator<" in d.split("(")[0] or "reverse_iterator" in d
        rest = args[2:]
        if isinstance(its[0], Iter):
            return seq_search(eng, st, cc, kind, its, rev, rest, sret)
        return map_search(eng, st, cc, kind, its, rest, sret)

    return h


def lambda_of(eng, cc, rest, st):
    """(function, prefix args) of the predicate passed last"""
    m = None
    # lambda type from the template argument list of the algorithm
    f, n = None, None
    cand = find_callee(eng, cc.f, r"::operator\(\)", 7)
    if cand[0] is not None and not re.search(r"__gnu_cxx::__ops|std::function", dem(cand[1]).split("::operator()")[0][:40]):
        f = cand[0]
    else:
        seen = set()
        # skip wrapper operator() objects
        cur = cand[0]
        for _ in range(4):
            if cur is None:
                break
            nx = find_callee(eng, cur, r"::operator\(\)", 4)
            if nx[0] is None:
                break
            cur = nx[0]
            if not re.search(r"__gnu_cxx::__ops", dem(nx[1]).split("::operator()")[0][:40]):
                f = cur
                break
    return f


def pred_call(eng, st, cc, rest):
    """returns function(state, elem_addr)->(P, notP)"""
    d = cc.d
    head = d.split("(")[0]
    if re.search(r"\bstd::find<", d) or re.search(r"\bstd::(remove|count)<", d):
        vp = rest[0]
        val = eng.load(st, vp, 8)

        def P(s, a):
            v = bv(eng.load(s, a, 8)) == bv(val)
            return v, z3.Not(v)

        return P
    f = lambda_of(eng, cc, rest, st)
    if f is None:
        raise Unsupported("predicate of " + d[:100])
    f.parse()
    addr = closure_addr(eng, st, cc, rest)

    def P(s, a):
        # element parameter: by reference (pointer) or by value
        t = f.params[1][0]
        dd = dem(f.name)
        par = param_types(dd)
        et = par[-1] if par else ""
        if et.endswith("*") or (not et.endswith("&") and t.k == "ptr" and "intrusive_ptr" not in et):
            arg = eng.load(s, a, 8)
        elif et.endswith("&") or "intrusive_ptr" in et:
            arg = a
        elif t.k == "int":
            arg = eng.load(s, a, t.a // 8)
        else:
            arg = a
        return pred_formula(eng, s, f, [addr], arg)

    return P


def param_types(d):
    """parameter types of the last call parens of a demangled name"""
    d = re.sub(r"\) const$", ")", d)
    if not d.endswith(")"):
        return []
    depth = 0
    for i in range(len(d) - 1, -1, -1):
        if d[i] == ")":
            depth += 1
        elif d[i] == "(":
            depth -= 1
            if depth == 0:
                break
    inner = d[i + 1:-1]
    out, cur, dp = [], "", 0
    for c in inner:
        if c in "<({":
            dp += 1
        elif c in ">)}":
            dp -= 1
        if c == "," and dp == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def closure_addr(eng, st, cc, rest):
    """address of the predicate object an algorithm received by value (coerced to registers or passed indirectly)"""
    f = cc.f
    if not rest:
        return eng.new_region("alloca")
    params = f.params[-len(rest):]
    if len(rest) == 1:
        t, r, at = params[0]
        if "byval" in at:
            return rest[0]
        if t.k == "ptr":
            # stored into a plain pointer slot: indirect; into a struct field: coerced
            for ins in f.block(f.entry):
                if ins.op == "store" and ins.a[0] == ("r", r):
                    dst = ins.a[1][1] if ins.a[1][0] == "r" else None
                    for i2 in f.block(f.entry):
                        if i2.res == dst and i2.op == "alloca" and i2.ty.k == "ptr":
                            return rest[0]
            else:
                used_as_store = any(ins.op == "store" and ins.a[0] == ("r", r) for ins in f.block(f.entry))
                if not used_as_store:
                    return rest[0]
    addr = eng.new_region("alloca")
    o = 0
    for (t, r, at), x in zip(params, rest):
        sz = f.mod.size(t)
        eng.store_ty(st, f.mod, addr + o, t, x)
        o += 8 if sz > 4 else sz
    return addr


def seq_search(eng, st, cc, kind, its, rev, rest, sret):
    a, b = its
    ck = a.ck
    s = seq_get(eng, st, ck)
    P = pred_call(eng, st, cc, rest)
    lo, hi = (b.idx, a.idx) if rev else (a.idx, b.idx)

    def all_not(s_, l, h_):
        """no element with index in [l,h_) satisfies P"""
        cs = []
        off = 0
        for p in s.pieces:
            if p[0] == "one":
                t, f = P(s_.copy(), p[1])
                g = z3.And(zi(off) >= zi(l), zi(off) < zi(h_))
                cs.append(z3.Implies(g, f))
                off = add_i(off, 1)
            else:
                j = z3.FreshConst(I, "pj")
                ad = z3.Select(p[1], j)
                # an arbitrary element, named through its position so that reads know it is one of this container
                jc = eng.sym("pidx", I)
                adc = z3.Select(p[1], jc)
                s_c = s_.copy()
                s_c.assume(z3.And(jc >= zi(p[2]), jc < zi(p[2]) + zi(p[3])))
                eng.base_facts(s_c, adc)
                t, f = P(s_c, adc)
                f = z3.substitute(f, (jc, j))
                pos = add_i(add_i(j, p[2], -1), off)
                cs.append(z3.ForAll([j], z3.Implies(z3.And(j >= zi(p[2]), j < zi(p[2]) + zi(p[3]), zi(pos) >= zi(l),
                                                           zi(pos) < zi(h_)), f), patterns=[ad]))
                off = add_i(off, p[3])
        return z3.And(cs) if cs else z3.BoolVal(True)

    out = []
    # found
    s1 = st.copy()
    r = eng.sym("fnd", I)
    s1.assume(z3.And(r >= zi(lo), r < zi(hi)))
    n = s.len()
    s1.assume(z3.And(r >= 0, r < zi(n)))
    if eng.check(s1, timeout=3000) != z3.unsat:
        # split on the piece holding r
        off = 0
        for p in s.pieces:
            l = 1 if p[0] == "one" else p[3]
            s2 = s1.copy()
            s2.facts.append(z3.And(r >= zi(off), r < zi(add_i(off, l))))
            rr = r
            if p[0] == "one":
                ad = p[1]
                rr = off
            else:
                ad = z3.Select(p[1], z3.simplify(add_i(add_i(r, off, -1), p[2])))
                i0 = add_i(add_i(r, off, -1), p[2])
            off = add_i(off, l)
            if eng.check(s2, timeout=3000) == z3.unsat:
                continue
            t, f = P(s2.copy(), ad)
            s2.facts.append(t)
            if isz(ad):
                eng.base_facts(s2, ad)
            if eng.check(s2, timeout=3000) == z3.unsat:
                continue
            an = all_not(s2, add_i(rr, 1), hi) if rev else all_not(s2, lo, rr)
            s2.assume(an)
            s2.trace.append("search: found")
            out.append((s2, rr, True))
    s3 = st
    s3.assume(all_not(s3, lo, hi))
    s3.trace.append("search: none")
    out.append((s3, None, False))
    res = []
    for s_, r_, found in out:
        if kind == "any":
            res.append((s_, found))
        elif kind == "none":
            res.append((s_, not found))
        else:
            if rev:
                it = Iter(ck, add_i(r_, 1) if found else b.idx, a.kind, a.sz, a.gen)
            else:
                it = Iter(ck, r_ if found else b.idx, a.kind, a.sz, a.gen)
            if sret is not None:
                eng.store(s_, sret, 8, it)
                res.append((s_, None))
            else:
                res.append((s_, it))
    return res


def map_search(eng, st, cc, kind, its, rest, sret):
    nt = node_note(eng, st, its[0])
    if nt is None:
        raise Unsupported("search over unknown range")
    ck = nt[1]
    m = eng.cont_get(st, ck, "map", lambda: None)
    # whole-container search only: first is begin(), last is end()
    if not (isinstance(its[1], int) and its[1] == 0):
        raise Unsupported("map search with a bounded range")
    P = pred_call(eng, st, cc, rest)
    koff = m.koff
    out = []
    # does a satisfying element exist?
    kx = eng.sym("sk")
    s1 = st.copy()
    s1.facts.append(m.has(kx))
    node = m.at(kx)
    s1.facts.append(node != 0)
    s1.facts.append(NODEKEY(node) == kx)
    s1.facts.append(OWNER(node) == m.oid)
    s1.facts.append(m.card > 0)
    eng.base_facts(s1, node)
    tie_key(eng, s1, node, kx, m)
    note_node(eng, s1, node, ck, kx)
    t, f = P(s1.copy(), addoff(node, koff))
    s1.facts.append(t)
    if eng.check(s1, timeout=5000) != z3.unsat:
        s1.trace.append("any: some")
        out.append((s1, node, True))
    nd = eng.sym("mnode")
    q = st.copy()
    eng.setkind(q, nd, "node")
    k = z3.FreshConst(BV64, "ak")
    # every node holds its own key
    q2 = q.copy()
    n0 = len(q2.facts)
    q2.facts.append(nd != 0)
    tie_key(eng, q2, nd, k, m)
    tie = z3.substitute(z3.And(q2.facts[n0 + 1:]), (nd, m.at(k)))
    t, f = P(q, addoff(nd, koff))
    f2 = z3.substitute(f, (nd, m.at(k)))
    st.assume(z3.ForAll([k], z3.Implies(m.has(k), z3.And(f2, tie)), patterns=m.pat(k)))
    st.trace.append("any: none")
    out.append((st, 0, False))
    res = []
    for s_, node, found in out:
        if kind == "any":
            res.append((s_, found))
        elif kind == "none":
            res.append((s_, not found))
        else:
            if sret is not None:
                raise Unsupported("map find_if sret")
            res.append((s_, node))
    return res


def h_accumulate(eng, st, cc):
    a = [it_val(eng, st, x) for x in cc.args[:2]]
    s = seq_get(eng, st, a[0].ck)
    r = eng.sym("acc", z3.BitVecSort(32))
    # only what holds for every sum modulo 2^32: the sum of zeros is the initial value
    zero = s.forall(lambda ad: bv(eng.hread(st, ad, 0, a[0].sz), 8 * a[0].sz) == 0)
    st.assume(z3.Implies(zero, r == bv(cc.args[2], 32)))
    return [(st, r)]


# maps ------------------------------------------------------------------
def h_map_find(eng, st, cc):
    a = base_args(cc)
    ck, m = the_map(eng, st, cc, a[0])
    k = map_key_arg(eng, st, a[1], m)
    out = []
    for s, node in m_find(eng, st, ck, m, k):
        out += node_ret(eng, s, cc, node)
    return out


def map_key_arg(eng, st, a, m):
    if m.kk == "subkey":
        return pair_key(eng, st, eng.load(st, a, 8), eng.load(st, addoff(a, 8), 8))
    return load_key(eng, st, a, m.kk)


def node_sret(eng, st, cc, node):
    eng.store(st, cc.args[0], 8, node)
    if "boost::unordered" in cc.d:
        # the iterator also caches its bucket
        eng.store(st, addoff(cc.args[0], 8), 8, 0)
        eng.store(st, addoff(cc.args[0], 16), 8, 0)
    return [(st, None)]


def node_ret(eng, st, cc, node):
    f = cc.f
    if f is not None:
        f.parse()
        if f.params and "sret" in f.params[0][2]:
            return node_sret(eng, st, cc, node)
    elif cc.ins is not None and cc.ins.ty.k == "void":
        return node_sret(eng, st, cc, node)
    return [(st, node)]


def h_map_end(eng, st, cc):
    return node_ret(eng, st, cc, 0)


def h_map_begin(eng, st, cc):
    a = base_args(cc)
    ck, m = the_map(eng, st, cc, a[0])
    p = m_begin(eng, st, ck, m)
    tie_key(eng, st, p, NODEKEY(p), m)
    return node_ret(eng, st, cc, p)


def h_map_count(eng, st, cc):
    ck, m = the_map(eng, st, cc)
    k = map_key_arg(eng, st, cc.args[1], m)
    return [(s, 1 if not (isinstance(n, int) and n == 0) else 0) for s, n in m_find(eng, st, ck, m, k)]


def h_map_size(eng, st, cc):
    ck, m = the_map(eng, st, cc)
    c = z3.simplify(m.card)
    if z3.is_bv_value(c):
        return [(st, c.as_long())]
    st.assume(c < (1 << 31))
    return [(st, int2bv(eng, st, c))]


def h_map_empty(eng, st, cc):
    ck, m = the_map(eng, st, cc)
    c = z3.simplify(m.card == 0)
    if z3.is_true(c):
        return [(st, True)]
    if z3.is_false(c):
        return [(st, False)]
    if not z3.is_const(m.dom):
        y = z3.FreshConst(BV64, "me")
        root = m.dom
        while z3.is_app_of(root, z3.Z3_OP_STORE):
            root = root.arg(0)
        st.assume(z3.Implies(m.card == 0, z3.ForAll([y], z3.Not(m.has(y)), patterns=[z3.Select(root, y)] if z3.is_const(root) and not z3.is_K(root) else [])))
    return [(st, c)]


def h_map_at(eng, st, cc):
    ck, m = the_map(eng, st, cc)
    k = map_key_arg(eng, st, cc.args[1], m)
    out = []
    for s, n in m_find(eng, st, ck, m, k):
        if isinstance(n, int) and n == 0:
            eng.oblige(s, "at() of a present key", False)
            continue
        out.append((s, addoff(n, m.koff + val_off(cc))))
    return out


def val_off(cc):
    """offset of the mapped value behind the key in the pair"""
    for c in ("std::unordered_map", "std::map", "boost::unordered::unordered_map"):
        if (c + "<") in cc.d:
            k = targs(cc.d, c)[0]
            if "basic_string<" in k or "std::string" == k:
                return 32
            if "subscription_key_t" in k:
                return 16
            return 8
    return 8


def h_map_erase_key(eng, st, cc):
    ck, m = the_map(eng, st, cc)
    k = map_key_arg(eng, st, cc.args[1], m)
    out = []
    for s, n in m_find(eng, st, ck, m, k):
        if isinstance(n, int) and n == 0:
            out.append((s, 0))
        else:
            m_erase(eng, s, ck, m, k)
            out.append((s, 1))
    return out


def h_map_erase_it(eng, st, cc):
    a = base_args(cc)
    ck, m = the_map(eng, st, cc, a[0])
    node = a[1]
    if isinstance(node, int) and node >= REGION0:
        i = (node - REGION0) >> REGION_SHIFT
        if eng.regions.get(i) == "alloca":
            node = eng.load(st, node, 8)
    if isinstance(node, int) and node == 0:
        eng.oblige(st, "erase of a valid iterator", False)
        return []
    nt = node_note(eng, st, node)
    k = nt[2] if nt is not None else NODEKEY(bv(node))
    eng.oblige(st, "erase of a valid iterator", z3.And(m.has(k), m.at(k) == bv(node)))
    st.assume(m.has(k))
    m2 = m_erase(eng, st, ck, m, k)
    # returned iterator: the successor
    if cc.ins is not None and ret_used(cc):
        p = m_next(eng, st, ck, m2, node, k)
    else:
        p = eng.sym("erased")
    return node_ret(eng, st, cc, p)


def ret_used(cc):
    """is the call's result register used other than being parked in a dead temporary?"""
    if cc.ins is None or cc.ins.res is None or cc.caller is None:
        return cc.ins is not None and cc.ins.ty.k == "void"
    r = cc.ins.res
    f = cc.caller
    slots = set()
    uses = 0
    pat = re.compile(re.escape(r) + r"(?![\w.])")
    for b in f.order:
        for s in f.blocks[b]:
            if s.startswith(r + " ="):
                continue
            if pat.search(s):
                m = re.match(r"store ptr %s, ptr (%%[\w.]+)" % re.escape(r), s)
                if m:
                    slots.add(m.group(1))
                else:
                    uses += 1
    if uses:
        return True
    for sl in slots:
        base = sl
        m = None
        for b in f.order:
            for s in f.blocks[b]:
                if s.startswith(sl + " = getelementptr"):
                    g = re.search(r"ptr (%[\w.]+)", s)
                    if g:
                        base = g.group(1)
        pat2 = re.compile(re.escape(base) + r"(?![\w.])")
        for b in f.order:
            for s in f.blocks[b]:
                if s.startswith(base + " = alloca") or s.startswith(sl + " = getelementptr") or (" %s, ptr %s" % (r, sl)) in s:
                    continue
                if re.match(r"%\S+ = getelementptr inbounds .*ptr " + re.escape(base) + ",", s) and s.startswith(sl):
                    continue
                if pat2.search(s):
                    return True
    return False


def h_map_incr(eng, st, cc):
    """_Node_iterator_base::_M_incr / ++ on node iterators"""
    node = eng.load(st, cc.args[0], 8)
    nt = node_note(eng, st, node)
    if nt is None:
        raise Unsupported("increment of an unknown map iterator")
    ck, k = nt[1], nt[2]
    m = eng.cont_get(st, ck, "map", lambda: None)
    eng.oblige(st, "a map iterator that is advanced is not the end", bv(node) != 0)
    st.assume(bv(node) != 0)
    p = m_next(eng, st, ck, m, node, k)
    tie_key(eng, st, p, NODEKEY(p), m)
    eng.store(st, cc.args[0], 8, p)
    return [(st, cc.args[0])]


def h_map_clear(eng, st, cc):
    ck, m = the_map(eng, st, cc)
    map_set(eng, st, ck, empty_map(eng, m.koff, m.kk))
    return [(st, None)]


def h_map_init(eng, st, cc):
    koff, kk = map_params(cc.d)
    map_set(eng, st, eng.ckey(st, cc.args[0]), empty_map(eng, koff, kk))
    return [(st, None)]


def h_map_move(eng, st, cc):
    koff, kk = map_params(cc.d)
    src = eng.ckey(st, cc.args[1])
    m = map_get(eng, st, src, koff, kk)
    map_set(eng, st, eng.ckey(st, cc.args[0]), m)
    map_set(eng, st, src, empty_map(eng, koff, kk))
    return [(st, cc.args[0])]


def run_alloc_node(eng, st, cc, args, pat=r"_M_allocate_node<|_M_create_node<"):
    f, n = find_callee(eng, cc.f, pat, 8)
    if f is None:
        raise Unsupported("no node allocator under " + cc.d[:100])
    dummy = eng.new_region("alloca")
    return eng.exec_func(st, f, [dummy] + args)


def h_map_emplace(eng, st, cc):
    """emplace / insert / try_emplace returning pair<iterator,bool>"""
    if "boost::unordered" in cc.d:
        return h_boost_try_emplace(eng, st, cc)
    a = base_args(cc)
    koff, kk = map_params(cc.d)
    ck = eng.ckey(st, a[0])
    m0 = map_get(eng, st, ck, koff, kk)
    out = []
    if re.search(r"::try_emplace(<.*>)?\(", cc.d):
        # the element is built (in place, from a tuple of one argument) only if the key is new
        if len(a) != 3:
            raise Unsupported("try_emplace with %d arguments" % (len(a) - 2))
        for s, old in m_find(eng, st, ck, m0, map_key_arg(eng, st, a[1], m0)):
            if not (isinstance(old, int) and old == 0):
                out.append((s, [old, 0]))
                continue
            cells = []
            for v in (0, a[1], a[2]):
                c = eng.new_region("alloca")
                eng.store(s, c, 8, v)
                cells.append(c)
            for s2, node in run_alloc_node(eng, s, cc, cells):
                m = map_get(eng, s2, ck, koff, kk)
                m_insert(eng, s2, ck, m, read_keycell(eng, s2, node, m), node)
                out.append((s2, [node, 1]))
        return out
    for s, node in run_alloc_node(eng, st, cc, a[1:]):
        m = map_get(eng, s, ck, koff, kk)
        if m.kk == "subkey":
            k = pair_key(eng, s, eng.load(s, addoff(node, koff), 8), eng.load(s, addoff(node, koff + 8), 8))
        else:
            k = read_keycell(eng, s, node, m)
        for s2, old in m_find(eng, s, ck, m, k):
            if isinstance(old, int) and old == 0:
                m_insert(eng, s2, ck, m, k, node)
                out.append((s2, [node, 1]))
            else:
                out.append((s2, [old, 0]))
    return out


def h_boost_try_emplace(eng, st, cc):
    """boost::unordered_map::try_emplace with a value-initialized element: {iterator, inserted} through args[0]"""
    if "try_emplace" not in cc.d or len(cc.args) != 3:
        raise Unsupported("insertion into " + cc.d[:80])
    out, mp, key = cc.args
    koff, kk = map_params(cc.d)
    ck = eng.ckey(st, mp)
    m = map_get(eng, st, ck, koff, kk)
    k = map_key_arg(eng, st, key, m)
    res = []
    for s, n in m_find(eng, st, ck, m, k):
        if isinstance(n, int) and n == 0:
            n = new_node(eng, s, ck, m, k, koff, kk, val_off(cc))
            new = 1
        else:
            new = 0
        node_sret(eng, s, cc, n)
        eng.store(s, addoff(out, 24), 1, new)
        res.append((s, None))
    return res


def new_node(eng, s, ck, m, k, koff, kk, vo):
    node = eng.fresh_obj(s)
    if kk == "str":
        str_set(eng, s, node + koff, k)
    elif kk == "subkey":
        eng.store(s, node + koff, 8, PFST(k))
        eng.store(s, node + koff + 8, 8, PSND(k))
    else:
        eng.store(s, node + koff, 8, k)
    for o in range(0, 96, 8):
        eng.hwrite(s, node, koff + vo + o, 8, 0)
    m_insert(eng, s, ck, m, k, node)
    return node


def h_map_index(eng, st, cc):
    """operator[]: executes the library body for std maps (node construction is the real code)"""
    koff, kk = map_params(cc.d)
    ck = eng.ckey(st, cc.args[0])
    m = map_get(eng, st, ck, koff, kk)
    k = map_key_arg(eng, st, cc.args[1], m)
    out = []
    vo = val_off(cc)
    for s, n in m_find(eng, st, ck, m, k):
        if isinstance(n, int) and n == 0:
            node = new_node(eng, s, ck, m, k, koff, kk, vo)
            out.append((s, node + koff + vo))
        else:
            out.append((s, addoff(n, koff + vo)))
    return out


# strings ---------------------------------------------------------------
STR = r"^(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>|std::__cxx11::string)::"


def h_str_default(eng, st, cc):
    str_set(eng, st, cc.args[0], EMPTY_STR)
    return [(st, cc.args[0])]


def h_str_copy(eng, st, cc):
    str_set(eng, st, cc.args[0], str_get(eng, st, cc.args[1]))
    return [(st, cc.args[0])]


def h_str_move(eng, st, cc):
    v = str_get(eng, st, cc.args[1])
    str_set(eng, st, cc.args[1], EMPTY_STR)
    str_set(eng, st, cc.args[0], v)
    return [(st, cc.args[0])]


def h_str_cstr(eng, st, cc):
    str_set(eng, st, cc.args[0], lit_str(eng, st, cc.args[1]))
    return [(st, cc.args[0])]


def h_str_eq(neg):
    def h(eng, st, cc):
        a = str_get(eng, st, cc.args[0])
        if "char const*" in param_types(cc.d)[-1:][0] if param_types(cc.d) else False:
            b = lit_str(eng, st, cc.args[1])
        else:
            b = str_get(eng, st, cc.args[1])
        if isinstance(a, int) and isinstance(b, int):
            r = a == b
        else:
            r = bv(a) == bv(b)
        if neg:
            r = (not r) if isinstance(r, bool) else z3.Not(r)
        return [(st, r)]

    return h


def h_str_empty(eng, st, cc):
    v = str_get(eng, st, cc.args[0])
    return [(st, (v == EMPTY_STR) if isinstance(v, int) else bv(v) == EMPTY_STR)]


def h_str_size(eng, st, cc):
    v = str_get(eng, st, cc.args[0])
    if isinstance(v, int) and v == EMPTY_STR:
        return [(st, 0)]
    st.assume((STRLEN(bv(v)) == 0) == (bv(v) == EMPTY_STR))
    return [(st, STRLEN(bv(v)))]


def atoms(v):
    """the pieces a concatenation was made of, in order"""
    if isz(v) and z3.is_app(v) and v.decl().eq(CONCAT):
        return atoms(v.arg(0)) + atoms(v.arg(1))
    if isz(v) and z3.is_bv_value(v):
        v = v.as_long()
    return [] if isinstance(v, int) and v == EMPTY_STR else [v]


def cat(a, b):
    """concatenation, normalised: associated to the left"""
    for q in atoms(b):
        a = q if isinstance(a, int) and a == EMPTY_STR else CONCAT(bv(a), bv(q))
    return a


def h_str_append(eng, st, cc):
    v = str_get(eng, st, cc.args[0])
    pt = param_types(cc.d)
    if pt and "char const*" in pt[0]:
        w = lit_str(eng, st, cc.args[1])
    elif pt and "basic_string" in pt[0]:
        w = str_get(eng, st, cc.args[1])
    else:
        raise Unsupported("string append " + cc.d[:90])
    str_set(eng, st, cc.args[0], cat(v, w))
    return [(st, cc.args[0])]


def h_str_plus(eng, st, cc):
    pt = param_types(cc.d)
    vals = []
    for t, a in zip(pt, cc.args[1:]):
        vals.append(lit_str(eng, st, a) if "char const*" in t else str_get(eng, st, a))
    str_set(eng, st, cc.args[0], cat(vals[0], vals[1]))
    return [(st, None)]


def h_str_cstr_get(eng, st, cc):
    v = str_get(eng, st, cc.args[0])
    return [(st, CSTR(bv(v)))]


# std::function ----------------------------------------------------------
def fn_cell(eng, st, a):
    return eng.load(st, a, 8), eng.load(st, addoff(a, 8), 8), eng.load(st, addoff(a, 16), 8), eng.load(st, addoff(a, 24), 8)


def h_fn_copy(eng, st, cc):
    for o in (0, 8, 16, 24):
        eng.store(st, addoff(cc.args[0], o), 8, eng.load(st, addoff(cc.args[1], o), 8))
    return [(st, cc.args[0])]


def h_fn_move(eng, st, cc):
    h_fn_copy(eng, st, cc)
    eng.store(st, addoff(cc.args[1], 16), 8, 0)
    eng.store(st, addoff(cc.args[1], 24), 8, 0)
    return [(st, cc.args[0])]


def h_fn_bool(eng, st, cc):
    v = eng.load(st, addoff(cc.args[0], 16), 8)
    return [(st, (v != 0) if isinstance(v, int) else bv(v) != 0)]


# memory -----------------------------------------------------------------
def h_new(eng, st, cc):
    return [(st, eng.fresh_obj(st))]


def h_terminate(eng, st, cc):
    eng.oblige(st, "std::terminate is not reached", False, where=dem(cc.f.name) if cc.f is not None else "")
    return []


def h_assert(eng, st, cc):
    def lit(p):
        g = eng.addr_glob.get(p)
        if g:
            gv = g[1].gvar(g[0])
            if gv and gv[1] and gv[1][0] == "str":
                return gv[1][1].rstrip(b"\0").decode("latin1")
        return "?"

    expr, file, line = lit(cc.args[0]), lit(cc.args[1]), cc.args[2]
    if "/boost/" in file or "/c++/" in file or "/usr/include" in file:
        # library precondition (null smart pointer dereference): only reported when the contract asks for it
        if getattr(eng, "strict_null", True):
            eng.oblige(st, "library assertion: %s" % expr, False, where="%s:%s" % (file, line))
        return []
    fn = lit(cc.args[3])
    eng.oblige(st, "assertion: %s" % expr, False, where="%s:%s" % (file, line))
    return []


# refcounts ----------------------------------------------------------------
def h_addref(eng, st, cc):
    return [(st, None)]


def h_release(eng, st, cc):
    cb = getattr(eng, "on_release", None)
    if cb is not None:
        r = cb(eng, st, cc)
        if r is not None:
            return r
    return [(st, None)]


# std::type_index -----------------------------------------------------------
def h_ti_eq(neg):
    def h(eng, st, cc):
        a, b = eng.load(st, cc.args[0], 8), eng.load(st, cc.args[1], 8)
        if isinstance(a, int) and isinstance(b, int):
            r = a == b
        else:
            r = bv(a) == bv(b)
        if neg:
            r = (not r) if isinstance(r, bool) else z3.Not(r)
        return [(st, r)]

    return h


# lockfree queue -------------------------------------------------------------
def h_lfq_push(eng, st, cc):
    st.events.append(("lfq_push", cc.args[0], eng.load(st, cc.args[1], 8), snap(st)))
    return [(st, True)]


def snap(st):
    return None


# boost::posix_time: 64-bit tick counts, special values (infinities) excluded
def h_pt_cmp(op):
    def h(eng, st, cc):
        a, b = bv(eng.load(st, cc.args[0], 8)), bv(eng.load(st, cc.args[1], 8))
        r = {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b, "==": lambda: a == b,
             "!=": lambda: a != b}[op]()
        return [(st, r)]

    return h


def h_pt_now(eng, st, cc):
    v = eng.sym("clock")
    st.events.append(("clock", v))
    return [(st, v)]


def h_pt_arith(op):
    def h(eng, st, cc):
        a, b = bv(eng.load(st, cc.args[0], 8)), bv(eng.load(st, cc.args[1], 8))
        return [(st, a - b if op == "-" else a + b)]

    return h


def install(eng):
    H = eng.hooks

    def add(rx, f):
        H.append((re.compile(rx), f))

    add(r"^boost::lockfree::queue<.*>::push\(", h_lfq_push)
    for op in ("<", "<=", ">", ">=", "==", "!="):
        add(r"^(bool )?boost::operators_impl::operator%s\(boost::posix_time::(time_duration|ptime) const&, boost::posix_time::(time_duration|ptime) const&\)$" % re.escape(op), h_pt_cmp(op))
        add(r"^boost::date_time::(time_duration|base_time)<boost::posix_time::.*>::operator%s\(" % re.escape(op), h_pt_cmp(op))
    add(r"^boost::date_time::microsec_clock<boost::posix_time::ptime>::(local|universal)_time\(\)$", h_pt_now)
    add(r"^boost::date_time::base_time<boost::posix_time::.*>::operator-\(boost::posix_time::ptime const&\) const$", h_pt_arith("-"))
    add(r"^boost::date_time::base_time<boost::posix_time::.*>::operator[+]\(boost::posix_time::time_duration const&\) const$", h_pt_arith("+"))
    # memory
    add(r"^operator new\(unsigned long", h_new)
    add(r"^operator delete", nop)
    add(r"^__assert_fail$", h_assert)
    add(r"^(std::terminate\(\)|__clang_call_terminate|__cxa_call_terminate)", h_terminate)
    add(r"^__cxa_(begin_catch|end_catch|atexit|guard)", nop)
    # reference counting: ghost
    add(r"intrusive_ptr_add_ref<", h_addref)
    add(r"intrusive_ptr_release<", h_release)
    add(r"^(void )?(boost::sp_adl_block::)?intrusive_ptr_add_ref\(", h_addref)
    add(r"^(void )?(boost::sp_adl_block::)?intrusive_ptr_release\(", h_release)
    # type_index
    add(r"^std::type_index::operator==\(", h_ti_eq(False))
    add(r"^std::type_index::operator!=\(", h_ti_eq(True))
    add(r"^std::type_info::operator==\(", lambda e, s, c: [(s, bv(c.args[0]) == bv(c.args[1]))])
    # destructors of containers: element destruction has no observable effect here
    add(r"^std::(vector|deque|__cxx11::list)<.*>::~(vector|deque|list)\(\)$", nop)
    add(r"^(std|boost::unordered)::(unordered_map|unordered_set|map|set)<.*>::~(unordered_map|unordered_set|map|set)\(\)$", nop)
    add(r"^std::(__detail::)?_(Hashtable|Rb_tree|Deque_base|Vector_base|Hashtable_alloc)<.*>::~", nop)
    # sequences: constructors
    add(r"^std::(vector|deque|__cxx11::list)<.*>::(vector|deque|list)\(\)$", h_seq_init)
    add(r"^std::(vector|deque|__cxx11::list)<.*>::(vector|deque|list)\(std::initializer_list<", h_seq_list)
    add(r"^std::(vector|deque|__cxx11::list)<.*>::(vector|deque|list)\(std::(vector|deque|__cxx11::list)<.*&&\)$", h_seq_move)
    add(r"^std::(vector|deque|__cxx11::list)<.*>::operator=\(std::(vector|deque|__cxx11::list)<.*&&\)$", h_seq_move)
    add(r"^std::(vector|deque|__cxx11::list)<.*>::(vector|deque|list)\(std::(vector|deque|__cxx11::list)<.*const&\)$", h_seq_copy)
    add(r"^std::(vector|deque|__cxx11::list)<.*>::size\(\) const$", h_seq_size)
    add(r"^std::(vector|deque|__cxx11::list)<.*>::empty\(\) const$", h_seq_empty)
    add(r"^std::(vector|deque|__cxx11::list)<.*>::c?begin\(\)( const)?$", h_seq_begin)
    add(r"^std::(vector|deque|__cxx11::list)<.*>::c?end\(\)( const)?$", h_seq_end)
    add(r"^std::(vector|deque)<.*>::(operator\[\]|at)\(unsigned long\)( const)?$", h_seq_at)
    # a reverse iterator holds the iterator it is made of
    add(r"^std::(vector|deque|__cxx11::list)<.*>::c?rbegin\(\)( const)?$", h_seq_end)
    add(r"^std::(vector|deque|__cxx11::list)<.*>::c?rend\(\)( const)?$", h_seq_begin)
    add(r"^std::(vector|deque|__cxx11::list)<.*>::front\(\)( const)?$", h_seq_front)
    add(r"^std::(vector|deque|__cxx11::list)<.*>::back\(\)( const)?$", h_seq_back)
    add(r"(^|[&*] |void |> )std::(vector|deque|__cxx11::list)<.*>::(push_back|emplace_back)(<.*>)?\(", h_seq_push(False))
    add(r"(^|[&*] |void |> )std::(vector|deque|__cxx11::list)<.*>::(push_front|emplace_front)(<.*>)?\(", h_seq_push(True))
    add(r"^std::(vector|deque|__cxx11::list)<.*>::pop_front\(\)$", h_seq_pop(True))
    add(r"^std::(vector|deque|__cxx11::list)<.*>::pop_back\(\)$", h_seq_pop(False))
    add(r"^std::(vector|deque|__cxx11::list)<.*>::erase(\[abi:\w+\])?\((__gnu_cxx::__normal_iterator<|std::_(List|Deque)_(const_)?iterator<)[^()]*\)$", h_seq_erase)
    add(r"(^|> )std::(vector|deque|__cxx11::list)<.*>::(insert|emplace)(<.*>)?(\[abi:\w+\])?\((__gnu_cxx::__normal_iterator<|std::_(List|Deque)_(const_)?iterator<)", h_seq_insert)
    add(r"^std::(vector|deque|__cxx11::list)<.*>::clear\(\)$", h_seq_clear)
    add(r"^std::(vector|deque|__cxx11::list)<.*>::swap\(", h_seq_swap)
    add(r"^std::vector<.*>::resize\(unsigned long\)$", h_vec_resize)
    add(r"^std::vector<.*>::reserve\(", nop)
    # sequence iterators
    IT = r"(__gnu_cxx::__normal_iterator|std::_List_(const_)?iterator|std::_Deque_iterator)<"
    add(r"^" + IT + r".*>::operator[*]\(\) const$", h_it_deref)
    add(r"^" + IT + r".*>::operator->\(\) const$", h_it_deref)
    add(r"^" + IT + r".*>::operator\+\+\((int)?\)$", h_it_inc(1))
    add(r"^" + IT + r".*>::operator--\((int)?\)$", h_it_inc(-1))
    add(r"^" + IT + r".*>::operator[+-]\(long\) const$", h_it_plus)
    add(r"^(bool )?(__gnu_cxx|std)::operator==(<.*>)?\((const )?" + IT, h_it_eq(False))
    add(r"^(bool )?(__gnu_cxx|std)::operator!=(<.*>)?\((const )?" + IT, h_it_eq(True))
    add(r"^std::operator==\(std::_(List|Deque)_(const_)?iterator", h_it_eq(False))
    add(r"^std::operator!=\(std::_(List|Deque)_(const_)?iterator", h_it_eq(True))
    add(r"^" + IT + r".*>::(_List_const_iterator|_Deque_iterator|__normal_iterator|_List_iterator)(<.*>)?\((std::_List|std::_Deque|__gnu_cxx::__normal).*const&\)$", h_it_copy)
    add(r"^std::_Deque_iterator<.*>::operator=\(", h_it_copy)
    add(r"^std::_List_const_iterator<.*>::_M_const_cast\(\) const$", lambda e, s, c: [(s, it_val(e, s, c.args[0]))])
    # algorithms
    add(r"\bstd::find_if<|(^| )std::find<", h_find_if("find"))
    add(r"\bstd::any_of<", h_find_if("any"))
    add(r"\bstd::none_of<", h_find_if("none"))
    add(r"\bstd::accumulate<", h_accumulate)
    # maps
    M = r"(std::(unordered_map|unordered_set|map|set)|boost::unordered::unordered_map)<"
    add(r"^" + M + r".*>::(unordered_map|unordered_set|map|set)\(\)$", h_map_init)
    add(r"^" + M + r".*>::(unordered_map|unordered_set|map|set)\((std|boost::unordered)::(unordered_map|unordered_set|map|set)<.*&&\)$", h_map_move)
    add(r"^" + M + r".*>::operator=\((std|boost::unordered)::(unordered_map|unordered_set|map|set)<.*&&\)$", h_map_move)
    add(r"^" + M + r".*>::find\(", h_map_find)
    add(r"^" + M + r".*>::c?end\(\)( const)?$", h_map_end)
    add(r"^" + M + r".*>::c?begin\(\)( const)?$", h_map_begin)
    add(r"^" + M + r".*>::count\(", h_map_count)
    add(r"^" + M + r".*>::contains\(", h_map_count)
    add(r"^" + M + r".*>::size\(\) const$", h_map_size)
    add(r"^" + M + r".*>::empty\(\) const$", h_map_empty)
    add(r"^" + M + r".*>::at\(", h_map_at)
    add(r"^" + M + r".*>::clear\(\)$", h_map_clear)
    add(r"^" + M + r".*>::erase(\[abi:\w+\])?\((std::__detail::_Node_(const_)?iterator|std::_Rb_tree_(const_)?iterator|boost::unordered::(iterator_)?detail)", h_map_erase_it)
    add(r"^" + M + r".*>::erase(\[abi:\w+\])?\(", h_map_erase_key)
    add(r"^(std::pair<.*> )?" + M + r".*>::(emplace|insert|try_emplace)(<.*>)?\(", h_map_emplace)
    add(r"^" + M + r".*>::operator\[\]\(", h_map_index)
    add(r"^std::__detail::_Node_(const_)?iterator<.*>::operator\+\+\(\)$", h_map_incr)
    add(r"^std::__detail::_Node_iterator_base<.*>::_M_incr\(\)$", h_map_incr)
    add(r"^std::_Rb_tree_(const_)?iterator<.*>::operator\+\+\(\)$", h_map_incr)
    # strings
    add(STR + r"basic_string\(\)$", h_str_default)
    add(STR + r"basic_string\(std::__cxx11::basic_string<.*const&\)$", h_str_copy)
    add(STR + r"basic_string\(std::__cxx11::basic_string<.*&&\)$", h_str_move)
    add(r"^std::__cxx11::basic_string<.*>::basic_string(<.*>)?\(char const\*, std::allocator", h_str_cstr)
    add(STR + r"operator=\(std::__cxx11::basic_string<.*const&\)$", h_str_copy)
    add(STR + r"operator=\(std::__cxx11::basic_string<.*&&\)$", h_str_move)
    add(STR + r"operator=\(char const\*\)$", h_str_cstr)
    add(STR + r"~basic_string\(\)$", nop)
    add(STR + r"empty\(\) const$", h_str_empty)
    add(STR + r"(size|length)\(\) const$", h_str_size)
    add(STR + r"(append|operator\+=)\(", h_str_append)
    add(STR + r"(c_str|data)\(\) const$", h_str_cstr_get)
    add(r"std::operator\+<char, std::char_traits<char>, std::allocator<char> ?>\(", h_str_plus)
    add(r"std::operator==<char, std::char_traits<char>, std::allocator<char> ?>\(", h_str_eq(False))
    add(r"std::operator!=<char, std::char_traits<char>, std::allocator<char> ?>\(", h_str_eq(True))
    add(r"^std::__new_allocator<char>::", nop)
    add(r"^std::allocator<.*>::~?allocator\(", nop)
    # std::function
    add(r"^std::function<.*>::function\(std::function<.*const&\)$", h_fn_copy)
    add(r"^std::function<.*>::function\(std::function<.*&&\)$", h_fn_move)
    add(r"^std::function<.*>::operator=\(std::function<.*const&\)$", h_fn_copy)
    add(r"^std::function<.*>::operator=\(std::function<.*&&\)$", h_fn_move)
    add(r"^std::function<.*>::operator bool\(\) const$", h_fn_bool)
    add(r"^std::function<.*>::~function\(\)$", nop)
    add(r"^std::_Function_base::~_Function_base\(\)$", nop)
