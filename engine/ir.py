"""LLVM textual IR reader (LLVM 18, as printed by clang -S -emit-llvm).

Only what clang -O0 prints for C++17 is supported; anything else raises Unsupported,
which callers treat as "outside the verifier's reach" (never as a violation)."""
import re, subprocess


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b", "_sz")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._sz = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.a
        if self.k == "named":
            return self.a
        return "%s(%s,%s)" % (self.k, self.a, self.b)


PTR = Ty("ptr")
VOID = Ty("void")
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = Ty("int", n)
    return _ints[n]


TOK = re.compile(
    r'\s*(?:(c?"(?:[^"\\]|\\.)*")|([%@!]"(?:[^"\\]|\\.)*")|([%@!][-\w.$]+)|(#\d+)|(-?\d+(?:\.\d+)?(?:e[+-]?\d+)?(?![\w.]))|(\.\.\.)|([A-Za-z_$][\w.$]*)|([-+{}\[\]()<>,=*|!:]))'
)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == "":
                break
            if s[pos:].lstrip().startswith(";"):
                break
            raise Unsupported("tokenize: " + s[pos:pos + 80])
        out.append(m.group(m.lastindex))
        pos = m.end()
    return out


ATTRS = {
    "noundef", "nonnull", "noalias", "zeroext", "signext", "inreg", "nocapture", "returned", "immarg", "readonly",
    "writeonly", "readnone", "swiftself", "nofree", "nest", "noreturn", "nounwind", "dso_local", "hidden", "internal",
    "linkonce_odr", "weak_odr", "external", "private", "available_externally", "unnamed_addr", "local_unnamed_addr",
    "protected", "default", "comdat", "mustprogress", "linkonce", "weak", "extern_weak", "dso_preemptable", "fastcc",
    "ccc", "tail", "musttail", "notail", "dead_on_unwind", "writable", "constant", "global", "common", "appending",
    "thread_local", "allocptr", "noext",
}
PATTRS = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "inalloca", "byref", "elementtype",
          "preallocated", "captures", "range", "nofpclass", "allocalign"}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise Unsupported("expected %s got %s in %s" % (x, self.peek(), " ".join(self.t[:40])))

    def skip_attrs(self):
        res = {}
        while True:
            x = self.peek()
            if x in ATTRS:
                self.next()
            elif x in PATTRS:
                self.next()
                if self.accept("("):
                    if x in ("sret", "byval"):
                        res[x] = self.type()
                        self.expect(")")
                    else:
                        d = 1
                        while d:
                            y = self.next()
                            d += (y == "(") - (y == ")")
                elif self.peek() and re.match(r"\d+$", self.peek()):
                    self.next()
            elif x and x[0] == "#":
                self.next()
            else:
                return res

    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
        elif x == "void":
            t = VOID
        elif re.match(r"i\d+$", x):
            t = INT(int(x[1:]))
        elif x in ("float", "double", "x86_fp80", "label", "metadata", "token", "half", "fp128"):
            t = Ty(x)
        elif x[0] == "%":
            t = Ty("named", x)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("arr", n, e)
        elif x == "{":
            fs = []
            if not self.accept("}"):
                while True:
                    fs.append(self.type())
                    if self.accept("}"):
                        break
                    self.expect(",")
            t = Ty("struct", fs, False)
        elif x == "<":
            if self.accept("{"):
                fs = []
                if not self.accept("}"):
                    while True:
                        fs.append(self.type())
                        if self.accept("}"):
                            break
                        self.expect(",")
                self.expect(">")
                t = Ty("struct", fs, True)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = Ty("vec", n, e)
        elif x == "opaque":
            t = Ty("opaque")
        else:
            raise Unsupported("type " + x + " in " + " ".join(self.t[max(0, self.i - 5):self.i + 10]))
        # function type?  T (args)
        if self.peek() == "(" and t.k != "label":
            j = self.i
            try:
                self.next()
                args = []
                va = False
                if not self.accept(")"):
                    while True:
                        if self.accept("..."):
                            va = True
                        else:
                            args.append(self.type())
                            self.skip_attrs()
                        if self.accept(")"):
                            break
                        self.expect(",")
                # only a function type if followed by a callee token
                if self.peek() and (self.peek()[0] in "%@"):
                    return Ty("fn", t, args)
                self.i = j
            except (Unsupported, IndexError):
                self.i = j
        return t

    def value(self, ty):
        """operand of the given type"""
        x = self.next()
        c = x[0]
        if c == "%":
            return ("r", x)
        if c == "@":
            return ("g", unq(x))
        if x in ("null", "zeroinitializer", "none"):
            return ("z",)
        if x in ("undef", "poison"):
            return ("u",)
        if x == "true":
            return ("c", 1)
        if x == "false":
            return ("c", 0)
        if re.match(r"-?\d+$", x):
            return ("c", int(x))
        if re.match(r"-?\d", x) or x.startswith("0x"):
            return ("f", x)
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            ops = []
            while True:
                while self.peek() == "inrange":
                    self.next()
                t = self.type()
                ops.append((t, self.value(t)))
                if self.accept(")"):
                    break
                self.expect(",")
            return ("gep", bt, ops)
        if x in ("bitcast", "inttoptr", "ptrtoint", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("cast", x, t, v, t2)
        if x in ("sub", "add", "xor", "and", "or", "mul"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect(",")
            t2 = self.type()
            v2 = self.value(t2)
            self.expect(")")
            return ("bin", x, t, v, v2)
        if x in ("{", "[", "<"):
            close = {"{": "}", "[": "]", "<": ">"}[x]
            packed = False
            if x == "<" and self.peek() == "{":
                self.next()
                packed = True
            es = []
            if not self.accept("}" if packed else close):
                while True:
                    t = self.type()
                    es.append((t, self.value(t)))
                    if self.accept("}" if packed else close):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return ("agg", es)
        if c == "c" and len(x) > 1 and x[1] == '"':
            return ("str", cstr(x[2:-1]))
        if c == "!":
            return ("md", x)
        if x in ("dso_local_equivalent", "no_cfi"):
            return self.value(ty)
        raise Unsupported("value " + x)


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def unq(x):
    if len(x) > 1 and x[1] == '"':
        return x[0] + x[2:-1]
    return x


class Ins:
    __slots__ = ("op", "res", "ty", "a", "txt")

    def __init__(self, op, res, ty, a, txt):
        self.op, self.res, self.ty, self.a, self.txt = op, res, ty, a, txt


class Func:
    def __init__(self, mod, name, header, lines):
        self.mod, self.name, self.header, self.lines = mod, name, header, lines
        self._parsed = False

    def parse(self):
        if self._parsed:
            return self
        p = P(tokenize(self.header[len("define "):]), self.mod)
        p.skip_attrs()
        self.ret = p.type()
        nm = p.next()
        p.expect("(")
        self.params = []
        self.va = False
        n = 0
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    self.va = True
                else:
                    t = p.type()
                    at = p.skip_attrs()
                    if p.peek() and p.peek()[0] == "%":
                        r = p.next()
                    else:
                        r = "%%%d" % n
                    n += 1
                    self.params.append((t, r, at))
                if p.accept(")"):
                    break
                p.expect(",")
        self.blocks = {}
        self.order = []
        cur = None
        buf = None
        entry = "%%%d" % n
        lines = self.lines
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln.strip():
                continue
            if ln[0] not in " \t}":
                m = re.match(r'^("(?:[^"]*)"|[-\w.$]+):', ln)
                if not m:
                    raise Unsupported("label? " + ln)
                cur = "%" + m.group(1)
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                cur = entry
                self.blocks[cur] = []
                self.order.append(cur)
            s = ln.strip()
            # join multi-line (switch, landingpad)
            if s.startswith("switch") or " = landingpad" in s or s.startswith("invoke") or " = invoke" in s:
                while i < len(lines) and not complete(s):
                    s += " " + lines[i].strip()
                    i += 1
                if "landingpad" in s:
                    while i < len(lines) and re.match(r"\s+(catch|cleanup|filter)", lines[i]):
                        i += 1
            self.blocks[cur].append(s)
        self.entry = self.order[0]
        self.code = {}
        self._parsed = True
        return self

    def block(self, b):
        c = self.code.get(b)
        if c is None:
            c = [parse_ins(s, self.mod) for s in self.blocks[b]]
            self.code[b] = c
        return c

    def succs(self, b):
        t = self.block(b)[-1]
        if t.op == "br":
            return [t.a[1], t.a[2]] if len(t.a) == 3 else [t.a[0]]
        if t.op == "switch":
            return [t.a[1]] + [x[1] for x in t.a[2]]
        if t.op == "invoke":
            return [t.a[3]]
        return []

    def loops(self):
        """natural loop heads: {head: set(blocks)}"""
        if hasattr(self, "_loops"):
            return self._loops
        self.parse()
        # dominators (simple iterative)
        order = []
        seen = set()

        def dfs(b):
            st = [(b, iter(self.succs(b)))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(x)
                    st.pop()

        dfs(self.entry)
        rpo = order[::-1]
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        dom = {b: set(rpo) for b in rpo}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in preds[b]]
                nd = set.intersection(*ps) if ps else set()
                nd = nd | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])
        self._loops = loops
        return loops


def complete(s):
    if "switch" in s.split()[:1]:
        return s.rstrip().endswith("]") and "[" in s
    if "landingpad" in s:
        return True
    if "invoke" in s:
        return " unwind label " in s
    return True


BIN = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "fadd", "fsub",
       "fmul", "fdiv"}
CAST = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext",
        "fptrunc"}


def parse_call(p, op):
    p.skip_attrs()
    # fast-math flags / cc
    rt = p.type()
    p.skip_attrs()
    if rt.k == "fn":
        ret = rt.a
    else:
        ret = rt
    x = p.peek()
    if x == "asm":
        return ret, ("asm",), []
    callee = p.value(PTR)
    p.expect("(")
    args = []
    if not p.accept(")"):
        while True:
            t = p.type()
            at = p.skip_attrs()
            if t.k == "metadata":
                # metadata operand: consume until , or ) at depth 0
                d = 0
                txt = []
                while True:
                    y = p.peek()
                    if d == 0 and y in (",", ")"):
                        break
                    d += (y in "([{") - (y in ")]}")
                    txt.append(p.next())
                args.append((t, ("md", "".join(txt)), at))
            else:
                args.append((t, p.value(t), at))
            if p.accept(")"):
                break
            p.expect(",")
    return ret, callee, args


def parse_ins(s, mod):
    p = P(tokenize(s), mod)
    res = None
    if len(p.t) > 1 and p.t[1] == "=":
        res = p.next()
        p.next()
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    ty = None
    a = None
    if op == "alloca":
        ty = p.type()
        n = None
        if p.accept(","):
            if p.peek() != "align" and p.peek()[0] != "!":
                t = p.type()
                n = p.value(t)
        a = (n,)
    elif op == "load":
        p.accept("atomic")
        p.accept("volatile")
        ty = p.type()
        p.expect(",")
        p.type()
        a = (p.value(PTR),)
    elif op == "store":
        p.accept("atomic")
        p.accept("volatile")
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        p.type()
        a = (v, p.value(PTR))
    elif op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        ty = p.type()
        p.expect(",")
        ops = []
        while True:
            t = p.type()
            ops.append((t, p.value(t)))
            if not p.accept(","):
                break
            if p.peek()[0] == "!":
                break
        a = ops
    elif op in ("call", "invoke"):
        ty, callee, args = parse_call(p, op)
        if op == "call":
            a = (callee, args)
        else:
            while p.peek() != "to":
                p.next()
            p.next()
            p.expect("label")
            nl = p.next()
            p.expect("unwind")
            p.expect("label")
            ul = p.next()
            a = (callee, args, None, nl, ul)
    elif op == "br":
        if p.accept("label"):
            a = (p.next(),)
        else:
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            x = p.next()
            p.expect(",")
            p.expect("label")
            y = p.next()
            a = (c, x, y)
    elif op == "switch":
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        p.expect("label")
        d = p.next()
        p.expect("[")
        cs = []
        while not p.accept("]"):
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            cs.append((c, p.next()))
        a = (v, d, cs)
    elif op == "ret":
        ty = p.type()
        a = (None if ty.k == "void" else p.value(ty),)
    elif op == "icmp":
        pr = p.next()
        ty = p.type()
        x = p.value(ty)
        p.expect(",")
        a = (pr, x, p.value(ty))
    elif op == "fcmp":
        a = ()
    elif op in BIN:
        while p.peek() in ("nuw", "nsw", "exact", "disjoint"):
            p.next()
        ty = p.type()
        x = p.value(ty)
        p.expect(",")
        a = (x, p.value(ty))
    elif op in CAST:
        while p.peek() in ("nneg", "nuw", "nsw"):
            p.next()
        t = p.type()
        x = p.value(t)
        p.expect("to")
        ty = p.type()
        a = (t, x)
    elif op == "phi":
        ty = p.type()
        cs = []
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            l = p.next()
            p.expect("]")
            cs.append((v, l))
            if not p.accept(","):
                break
            if p.peek()[0] == "!":
                break
        a = cs
    elif op == "select":
        t = p.type()
        c = p.value(t)
        p.expect(",")
        ty = p.type()
        x = p.value(ty)
        p.expect(",")
        p.type()
        a = (c, x, p.value(ty))
    elif op == "extractvalue":
        ty = p.type()
        v = p.value(ty)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        a = (v, idx)
    elif op == "insertvalue":
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        t2 = p.type()
        e = p.value(t2)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        a = (v, e, idx)
    elif op == "atomicrmw":
        p.accept("volatile")
        o = p.next()
        p.type()
        ptr = p.value(PTR)
        p.expect(",")
        ty = p.type()
        a = (o, ptr, p.value(ty))
    elif op == "freeze":
        ty = p.type()
        a = (p.value(ty),)
    elif op in ("unreachable", "resume", "landingpad", "fence", "cmpxchg", "fneg", "va_arg"):
        a = ()
    else:
        raise Unsupported("instruction " + op + ": " + s)
    return Ins(op, res, ty, a, s)


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.typetext = {}
        self.funcs = {}
        self.gtext = {}
        self.decl = set()
        self._g = {}
        self.aliases = {}
        with open(path) as f:
            lines = f.read().split("\n")
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("%"):
                k, v = ln.split(" = type ", 1)
                self.typetext[k] = v
            elif ln.startswith("define "):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', ln)
                nm = unq(m.group(1))
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.funcs[nm] = Func(self, nm, ln, lines[i + 1:j])
                i = j
            elif ln.startswith("declare"):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', ln)
                if m:
                    self.decl.add(unq(m.group(1)))
            elif ln.startswith("@"):
                m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)', ln)
                self.gtext[unq(m.group(1))] = m.group(2)
                ma = re.search(r'\balias\b.*, ptr (@[-\w.$]+)', m.group(2))
                if ma:
                    self.aliases[unq(m.group(1))] = ma.group(1)
            i += 1

    def named(self, nm):
        t = self.types.get(nm)
        if t is None:
            if nm not in self.typetext:
                raise Unsupported("type " + nm)
            t = P(tokenize(self.typetext[nm]), self).type()
            self.types[nm] = t
        return t

    def gvar(self, nm):
        """(type, init or None, is_const)"""
        if nm in self._g:
            return self._g[nm]
        txt = self.gtext.get(nm)
        if txt is None:
            return None
        p = P(tokenize(txt), self)
        const = False
        ext = False
        while True:
            x = p.peek()
            if x in ("constant",):
                const = True
                p.next()
                break
            if x == "global":
                p.next()
                break
            if x in ("external", "extern_weak"):
                ext = True
            if x in ATTRS:
                p.next()
            elif x == "alias":
                self._g[nm] = None
                return None
            else:
                p.next()
                if p.accept("("):
                    while p.next() != ")":
                        pass
        t = p.type()
        init = None
        if not ext and p.peek() not in (None, ","):
            init = p.value(t)
        self._g[nm] = (t, init, const)
        return self._g[nm]

    # -------------------------------------------------- layout
    def res(self, t):
        while t.k == "named":
            t = self.named(t.a)
        return t

    def align(self, t):
        t = self.res(t)
        if t.k == "int":
            b = (t.a + 7) // 8
            return 1 if b <= 1 else 2 if b <= 2 else 4 if b <= 4 else 8 if b <= 8 else 16
        if t.k == "ptr" or t.k == "double":
            return 8
        if t.k == "float":
            return 4
        if t.k == "x86_fp80":
            return 16
        if t.k == "arr":
            return self.align(t.b)
        if t.k == "struct":
            if t.b:
                return 1
            return max([1] + [self.align(f) for f in t.a])
        raise Unsupported("align %r" % t)

    def size(self, t):
        if t._sz is not None:
            return t._sz
        t0 = t
        t = self.res(t)
        if t.k == "int":
            s = (t.a + 7) // 8
            s = 1 if s <= 1 else 2 if s <= 2 else 4 if s <= 4 else 8 if s <= 8 else 16
        elif t.k in ("ptr", "double"):
            s = 8
        elif t.k == "float":
            s = 4
        elif t.k == "x86_fp80":
            s = 16
        elif t.k == "arr":
            s = t.a * self.size(t.b)
        elif t.k == "struct":
            o = 0
            for f in t.a:
                if not t.b:
                    al = self.align(f)
                    o = (o + al - 1) // al * al
                o += self.size(f)
            if not t.b:
                al = self.align(t)
                o = (o + al - 1) // al * al
            s = o
        elif t.k == "opaque":
            s = 0
        else:
            raise Unsupported("size %r" % t)
        t0._sz = s
        return s

    def field(self, t, idx):
        """(offset, type) of element idx of struct type t"""
        t = self.res(t)
        o = 0
        for j, f in enumerate(t.a):
            if not t.b:
                al = self.align(f)
                o = (o + al - 1) // al * al
            if j == idx:
                return o, f
            o += self.size(f)
        raise Unsupported("field")

    def leaves(self, t, o=0):
        """scalar leaves [(off, ty)]"""
        r = self.res(t)
        if r.k == "struct":
            out = []
            for j in range(len(r.a)):
                fo, ft = self.field(r, j)
                out += self.leaves(ft, o + fo)
            return out
        if r.k == "arr":
            s = self.size(r.b)
            out = []
            for j in range(r.a):
                out += self.leaves(r.b, o + j * s)
            return out
        if r.k == "opaque":
            return []
        return [(o, r)]


_dem = {}


def demangle_all(names):
    todo = [n for n in names if n not in _dem]
    if todo:
        out = subprocess.run(["c++filt"], input="\n".join(n.lstrip("@") for n in todo) + "\n", capture_output=True,
                             text=True).stdout.split("\n")
        for n, d in zip(todo, out):
            _dem[n] = d
    return _dem


def dem(n):
    if n not in _dem:
        demangle_all([n])
    return _dem[n]
