"""Error chains: root, text, construction."""
from common import *

TUS = ["src/rotor/extended_error.cpp", "src/rotor/actor_base.cpp", "src/rotor/plugin/plugin_base.cpp"]
E = "extended_error_t."
DEPTH = z3.Function("chain_length", BV64, BV64)


def setup(x):
    """every chain of errors is finite: its length is a number that decreases along 'next' (an error is built from an existing one and its
    cause is never changed afterwards)"""
    this = x.ptr("this", "error")
    x.g["this"] = this
    q = z3.BitVec("eq", 64)
    nx = lambda e: x.rdb(x.st, e, E + "next")
    n = nx(q)
    x.assume(z3.ForAll([q], z3.And(ROOT(q) == z3.If(n == 0, q, ROOT(n)),
                                   z3.Or(n == 0, z3.And(z3.UGT(n, 1 << 16), z3.ULT(n, 1 << 60), z3.ULT(DEPTH(n), DEPTH(q))))), patterns=[n]))
    x.g["next"] = nx(this)


# ---------------------------------------------------------------- root
def setup_root(x):
    setup(x)
    x.g["out"] = x.eng.new_region("alloca")
    x.args = [x.g["out"], x.g["this"]]


def ptr_locals(eng, st, ctx):
    """the 8-byte locals that the loop advances"""
    for m in sorted((m for m in ctx.mods if m[0] == "c"), key=str):
        c = st.cells.get((m[1], m[2]))
        c0 = ctx.entry.cells.get((m[1], m[2]))
        if c and c0 and c[0] == 8 and not isinstance(c[1], (Iter, Undef, VFn)) and not isinstance(c0[1], (Iter, Undef, VFn)):
            yield (m[1], m[2]), bv(c[1])


def inv_root(eng, st, ctx):
    x = eng.x
    for nm, v in ptr_locals(eng, st, ctx):
        eng.setkind(st, v, "error")
        yield "stays on the chain", z3.And(z3.UGT(v, 1 << 16), z3.ULT(v, 1 << 60), ROOT(v) == ROOT(x.g["this"]))


def decreases(eng, st, ctx):
    return [DEPTH(v) for nm, v in ptr_locals(eng, st, ctx)]


class RootLoop(Loop):
    measure = staticmethod(decreases)


def post_root(x, st, ret):
    r = bv(x.load(st, x.g["out"]))
    yield "the root is the last error of the chain", r == ROOT(x.g["this"])
    yield "the root has no cause", x.rdb(x.pre, r, E + "next") == 0


# ---------------------------------------------------------------- text
CODE_TEXT = z3.Function("text_of_code", z3.BitVecSort(32), BV64, BV64)
STREAM = r"^std::(__cxx11::)?basic_[io]?string?stream<char.*>::"


def skey(eng, st, a):
    w, b, o = eng.resolve(st, a)
    if w != "cell":
        raise Unsupported("stream that is not a local")
    return ("stream", b), 0


def h_stream_new(eng, st, cc):
    st.cells[skey(eng, st, cc.args[0])] = ("str", stl.EMPTY_STR)
    return [(st, None)]


def s_add(eng, st, a, v):
    k = skey(eng, st, a)
    if k not in st.cells:
        raise Unsupported("unknown stream")
    st.cells[k] = ("str", stl.cat(st.cells[k][1], v))


def h_out_str(eng, st, cc):
    s_add(eng, st, cc.args[0], stl.str_get(eng, st, cc.args[1]))
    return [(st, cc.args[0])]


def h_out_c(eng, st, cc):
    s_add(eng, st, cc.args[0], stl.lit_str(eng, st, cc.args[1]))
    return [(st, cc.args[0])]


def h_stream_str(eng, st, cc):
    k = skey(eng, st, cc.args[1])
    stl.str_set(eng, st, cc.args[0], st.cells[k][1])
    return [(st, None)]


def h_code_message(eng, st, cc):
    """std::error_code::message(): determined by value and category"""
    v = CODE_TEXT(bv(eng.load(st, cc.args[1], 4), 32), bv(eng.load(st, addoff(cc.args[1], 8), 8)))
    stl.str_set(eng, st, cc.args[0], v)
    return [(st, None)]


def h_stringify(eng, st, cc):
    """user code writes the request to the stream"""
    v = eng.sym("stringified")
    s_add(eng, st, cc.args[1], v)
    st.events.append(("stringify", v, cc.args[2]))
    return [(st, None)]


def h_message(eng, st, cc):
    """message() of another error of the chain, by this contract"""
    v = eng.sym("text")
    st.events.append(("message", cc.args[1], v))
    stl.str_set(eng, st, cc.args[0], v)
    return [(st, None)]


def setup_message(x):
    setup(x)
    x.g["out"] = x.eng.new_region("alloca")
    s = maybe(x, "stringifier")
    x.args = [x.g["out"], x.g["this"], s]


def post_message(x, st, ret):
    out = stl.str_get(x.eng, st, x.g["out"])
    at = stl.atoms(out)
    lits = set(x.eng.lit_strs.values())
    msgs, strs = evs(st, "message"), evs(st, "stringify")
    is_lit = lambda a: isinstance(a, int) and a in lits
    vis = [bv(a) for a in at if not is_lit(a)]
    ctx = bv(x.str(x.pre, x.g["this"], E + "context"))
    ec = CODE_TEXT(bv(x.load(x.pre, addoff(x.g["this"], x.foff(E + "ec")), 4), 32), bv(x.load(x.pre, addoff(x.g["this"], x.foff(E + "ec") + 8), 8)))
    want = [ctx, ec] + [bv(e[1]) for e in strs] + [bv(e[2]) for e in msgs]
    yield "the text is context, code, request if asked for, and the text of the cause", \
        z3.And([a == b for a, b in zip(vis, want)]) if len(vis) == len(want) else z3.BoolVal(False)
    yield "the cause is described exactly if there is one", iff(len(msgs), x.g["next"] != 0)
    for e in msgs:
        yield "it is the cause of this error", bv(e[1]) == x.g["next"]
    yield "the error is unchanged", same(x, st, x.g["this"], E + "next", E + "request")


# ---------------------------------------------------------------- construction
def setup_make(x):
    out = x.eng.new_region("alloca")
    ctx = x.ptr("context")
    ec = x.ptr("code", "error_code")
    nx, rq = maybe(x, "next", "error"), maybe(x, "request", "message")
    x.g.update(out=out, next=nx, request=rq, ctx=stl.str_get(x.eng, x.st, ctx), code=bv(x.load(x.st, ec, 4), 32), cat=bv(x.load(x.st, addoff(ec, 8), 8)))
    x.args = [out, ctx, ec, cell(x, nx), cell(x, rq)]


def post_make(x, st, ret):
    e = x.load(st, x.g["out"])
    o = Err(x, st, e)
    yield "an error is made", bv(e) != 0
    yield "it keeps its cause", o.next == x.g["next"]
    yield "it keeps the request that failed", o.request == x.g["request"]
    yield "it keeps the code", z3.And(o.code == x.g["code"], bv(o.category) == x.g["cat"] if not isinstance(o.category, str) else z3.BoolVal(False))
    yield "it keeps the context", bv(x.str(st, e, E + "context")) == bv(x.g["ctx"])


def setup_make_of(kind, ident):
    def f(x):
        setup_make(x)
        o = x.ptr("this", kind)
        x.g["ctx"] = ident(x, o)
        a = x.args
        x.args = [a[0], o, a[2], a[3], a[4]]
    return f


def plugin_ident(x, o):
    a = x.ptr("actor", "actor")
    x.wr(x.st, o, "plugin_base_t.actor", a)
    return x.str(x.st, a, "actor_base_t.identity")


OS = r"^std::basic_ostream<char, std::char_traits<char> ?>& std::operator<< ?<"
SS = r"^std::__cxx11::basic_(o?stringstream)<.*>::"
HOOKS = [(OS + r".*\(std::basic_ostream<char, std::char_traits<char> ?>&, std::__cxx11::basic_string<", h_out_str),
         (OS + r".*\(std::basic_ostream<char, std::char_traits<char> ?>&, char const\*\)", h_out_c),
         (SS + r"basic_o?stringstream\(\)", h_stream_new), (SS + r"str\(\) const", h_stream_str), (SS + r"~basic", lambda e, s, c: [(s, None)]),
         (r"^std::error_code::message", h_code_message), (r"^virtual .*stringif", h_stringify),
         (r"^rotor::extended_error_t::message", h_message), ROOT_HOOK]
C = r"rotor::extended_error_t::"
CONTRACTS = [
    Contract("root", C + r"root\(\) const", setup_root, post_root, loops=[RootLoop(r"extended_error_t::root", inv_root)],
             cover=[("alone", lambda x, s, r: x.g["next"] == 0), ("chain", lambda x, s, r: x.g["next"] != 0)]),
    Contract("message", C + r"message.*", setup_message, post_message, cover=[("chain", lambda x, s, r: bool(evs(s, "message")))]),
    Contract("make_error", r"rotor::make_error\(std::__cxx11::basic_string<.*", setup_make, post_make),
    Contract("actor make_error", r"rotor::actor_base_t::make_error\(.*", setup_make_of("actor", lambda x, o: x.str(x.st, o, "actor_base_t.identity")), post_make),
    Contract("plugin make_error", r"rotor::plugin::plugin_base_t::make_error\(.*", setup_make_of("plugin", plugin_ident), post_make),
]
