"""Bounded complement of the proofs: seeded random histories against the real library, built with sanitizers from /repo's current tree.
Never counted as proved; a failing history is a concrete failing input for the violation report."""
import os, subprocess, time, glob, concurrent.futures

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ROTOR_REPO", "/repo")
FLAGS = ["-std=c++17", "-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-w"]
BACKENDS = ("/asio/", "/ev/", "/wx/", "/fltk/")
SECONDS = {"quick": 8, "thorough": 150}
LIMIT = {"quick": 20, "thorough": 20}  # alarm(100) ends a history that does not come to an end


def cc(args, cwd, timeout=400):
    p = subprocess.run(["g++"] + FLAGS + args, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stderr


def incs(work):
    out = ["-I" + REPO + "/include"]
    if os.path.exists(REPO + "/_build/include/rotor/export.h"):
        out.append("-I" + REPO + "/_build/include")
    else:
        out.append("-I" + HERE + "/stubs")
    return out + ["-I" + HERE + "/harness"]


def build(drivers, work):
    """compile the library and the drivers; returns ({driver: binary}, notes)"""
    os.makedirs(work, exist_ok=True)
    srcs = [s for s in sorted(glob.glob(REPO + "/src/rotor/*.cpp") + glob.glob(REPO + "/src/rotor/*/*.cpp")) if not any(b in s for b in BACKENDS)]
    if "thread" not in drivers:
        srcs = [s for s in srcs if "/thread/" not in s]
    notes, objs, jobs = [], [], []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for d in sorted(drivers, key=lambda d: d != "life"):  # the longest first
            o = os.path.join(work, "driver_%s.o" % d)
            jobs.append((d, o, ex.submit(cc, ["-fno-access-control"] + incs(work) + ["-c", "%s/harness/%s.cpp" % (HERE, d), "-o", o], work)))
        for i, s in enumerate(srcs):
            o = os.path.join(work, "lib_%d.o" % i)
            jobs.append((None, o, ex.submit(cc, incs(work) + ["-c", s, "-o", o], work)))
            objs.append(o)
        ok = {}
        for d, o, f in jobs:
            try:
                rc, err = f.result()
            except subprocess.TimeoutExpired:
                rc, err = 1, "timeout"
            if rc:
                if d is None:
                    return {}, ["the library does not compile for the drivers: " + err[:600]]
                notes.append("driver %s does not compile against this tree: %s" % (d, err[:600]))
            elif d is not None:
                ok[d] = o
        out = {}
        for d, o in ok.items():
            b = os.path.join(work, "run_" + d)
            rc, err = cc([o] + objs + ["-lpthread"] + (["-lboost_date_time"] if "thread" in drivers else []) + ["-o", b], work)
            if rc:
                notes.append("driver %s does not link: %s" % (d, err[:600]))
            else:
                out[d] = b
    return out, notes


def run1(binary, pid, seed, secs, cwd):
    env = {k: v for k, v in os.environ.items() if k != "LIVE"}
    env.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=1", UBSAN_OPTIONS="print_stacktrace=1:exitcode=1")
    try:
        p = subprocess.run([binary, pid, str(seed), str(secs)], cwd=cwd, env=env, capture_output=True, text=True, errors="replace", timeout=secs + 130, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return None, "", "no verdict in time"


def run(pid, drivers, work, tier, seed):
    t0 = time.time()
    bins, notes = build(drivers, work)
    t1 = time.time()
    secs = SECONDS[tier]
    n = max(1, 8 // max(1, len(bins)))
    res = {"failures": [], "evaluations": 0, "histories": 0, "kind": "bounded: seeded random histories, address and undefined-behaviour sanitizers",
           "drivers": {}, "notes": notes, "seconds_per_process": secs, "compile_s": round(t1 - t0, 1)}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        jobs = [(d, seed * 1000 + k, ex.submit(run1, b, pid, seed * 1000 + k, secs, work)) for d, b in bins.items() for k in range(n)]
        for d, s, f in jobs:
            rc, out, err = f.result()
            r = res["drivers"].setdefault(d, {"processes": 0, "histories": 0, "checks": 0})
            r["processes"] += 1
            if rc == 0:
                for t in out.split():
                    k, _, v = t.partition("=")
                    if k in ("histories", "checks") and v.isdigit():
                        r[k] += int(v)
            elif rc == 1 and ("FAILED" in out or "Sanitizer" in err or "runtime error" in err):
                res["failures"].append({"scenario": "%s seed %d" % (d, s), "output": "driver %s, seed %d\n%s\n%s" % (d, s, out[-7000:], err[:4000])})
            else:
                notes.append("driver %s seed %d gave no verdict (%s): %s" % (d, s, rc, err[-300:]))
    res["evaluations"] = sum(r["checks"] for r in res["drivers"].values())
    res["histories"] = sum(r["histories"] for r in res["drivers"].values())
    res["run_s"] = round(time.time() - t1, 1)
    return res


def start(pid, drivers, work, tier, seed):
    return (pid, drivers, os.path.join(work, "scenarios"), tier, seed)


def finish(h):
    return run(*h)
