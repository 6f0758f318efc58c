"""Front end: compile the real sources of /repo to LLVM IR on every run; layouts are asked from the compiler."""
import os, re, subprocess, hashlib, json, tempfile, concurrent.futures
from ir import Module, Unsupported, dem, demangle_all, P, tokenize

REPO = os.environ.get("ROTOR_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "/usr/bin/clang++-18"
FLAGS = ["-std=c++17", "-O0", "-fno-access-control", "-Wno-everything", "-I" + REPO + "/include", "-I" + VERIF + "/stubs",
         "-I" + REPO + "/src", "-flto", "-fvisibility=hidden", "-fwhole-program-vtables", "-S", "-emit-llvm"]


class FrontError(Exception):
    pass


def compile_one(src, out, extra=()):
    cmd = [CLANG] + FLAGS + list(extra) + [src, "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise FrontError("clang failed on %s:\n%s" % (src, p.stderr[-60000:]))
    return out


def compile_all(srcs, outdir, extra=()):
    os.makedirs(outdir, exist_ok=True)
    jobs = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for s in srcs:
            s2 = s if os.path.isabs(s) else os.path.join(REPO, s)
            o = os.path.join(outdir, re.sub(r"[^\w.]", "_", s2) + ".ll")
            jobs.append(ex.submit(compile_one, s2, o, extra))
        outs = [j.result() for j in jobs]
    return [Module(o) for o in outs]


class Layout:
    """field offsets / sizes / enum values, computed by the compiler from the real headers; names that no longer compile
    are simply absent (their users become 'unsupported')"""

    def __init__(self, outdir):
        self.dir = outdir
        self.vals = {}
        os.makedirs(outdir, exist_ok=True)

    def load(self, headers, fields, consts):
        items = []
        for cls, fs in fields.items():
            for f in fs:
                items.append((cls, f))
        todo = list(items)
        for attempt in range(40):
            src = ["#include <cstddef>"] + ['#include "%s"' % h for h in headers]
            names = {}
            line = {}
            for i, (cls, f) in enumerate(todo):
                line[len(src) + 1] = (cls, f)
                src.append('extern "C" __attribute__((used)) const long vpo_%d = (long)__builtin_offsetof(%s, %s);' % (i, cls, f))
                line[len(src) + 1] = (cls, f)
                src.append('extern "C" __attribute__((used)) const long vps_%d = (long)sizeof(((%s*)nullptr)->%s);' % (i, cls, f))
                names[i] = (cls, f)
            cs = sorted(consts.items())
            for i, (n, e) in enumerate(cs):
                line[len(src) + 1] = ("const", n)
                src.append('extern "C" __attribute__((used)) const long vpc_%d = %s;' % (i, e))
            p = os.path.join(self.dir, "layout.cpp")
            with open(p, "w") as f:
                f.write("\n".join(src) + "\n")
            try:
                compile_one(p, p + ".ll", ["-ferror-limit=0"])
            except FrontError as e:
                bad = set()
                for m in re.finditer(r"layout\.cpp:(\d+):\d+: error", str(e)):
                    k = line.get(int(m.group(1)))
                    if k:
                        bad.add(k)
                if not bad:
                    raise
                todo = [t for t in todo if t not in bad]
                consts = {n: v for n, v in consts.items() if ("const", n) not in bad}
                continue
            m = Module(p + ".ll")

            def val(g):
                gv = m.gvar(g)
                return gv[1][1] if gv[1][0] == "c" else 0

            for i, (cls, f) in names.items():
                self.vals[short_cls(cls) + "." + f] = (val("@vpo_%d" % i), val("@vps_%d" % i))
            for i, (n, e) in enumerate(cs):
                self.vals[n] = val("@vpc_%d" % i)
            return self
        raise FrontError("layout does not compile")

    def __getitem__(self, k):
        if k not in self.vals:
            raise Unsupported("no such field or constant: " + k)
        return self.vals[k]


def short_cls(c):
    c = c.replace("rotor::", "").replace("plugin::", "").replace("detail::", "").replace("thread::", "")
    return c
