#!/usr/bin/env python3
"""check.py <PID> [--thorough] : decide one property by symbolic execution of the code in /repo.

Rebuilds bitcode from /repo's working tree, runs every harness entry of the property in the ksym engine,
replays each counterexample natively on the real code, writes evidence/<PID>.json.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself failed."""
import sys, os, json, subprocess, hashlib, time, threading, re, shutil
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KSYM_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "harness"))
import props as P

T0 = time.time()
BUILD = os.path.join(V, ".build")
CACHE = os.path.join(BUILD, "cache")
CLANG = "clang++-18"
BUDGET = float(os.environ.get("KSYM_BUDGET", "800"))
ARCH = {
    "sse2": ["-mno-sse3", "-msse2"],
    "sse41": ["-msse4.1", "-mno-sse4.2"],
    "avx2": ["-mno-sse3", "-msse4.2", "-mavx2", "-mfma"],
    "avx": ["-mno-sse3", "-msse4.2", "-mavx", "-mno-avx2"],
    "generic": ["-msse2", "-mno-sse3", "-DCMT_FORCE_GENERIC_CPU"],
    "noext": ["-msse2", "-mno-sse3", "-DCMT_DISABLE_CLANG_EXT"],
}
LIBS = {
    "dft": ["src/dft/dft.cpp", "src/dft/dft-impl-f32.cpp", "src/dft/dft-impl-f64.cpp", "src/dft/fft-impl-f32.cpp",
            "src/dft/fft-impl-f64.cpp"],
    "conv": ["src/dft/convolution-impl.cpp"],
    "fir": ["src/dsp/fir.cpp"], "biquad": ["src/dsp/biquad.cpp"], "src": ["src/dsp/sample_rate_conversion.cpp"],
    "io": ["src/io/audiofile-impl.cpp"], "capi": ["src/capi/capi.cpp"],
}
COMMON = ["-std=gnu++17", "-DNDEBUG", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + V + "/harness", "-Wno-everything", "-fPIC"]
BC = ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only",
      "-emit-llvm", "-c"]


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", **kw)


def tree_hash():
    h = hashlib.sha256()
    for root in ("include", "src"):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


TREE = None
_locks = {}
_ll = threading.Lock()


def cached(key, suffix, make):
    os.makedirs(CACHE, exist_ok=True)
    k = hashlib.sha256(key.encode()).hexdigest()[:32]
    path = os.path.join(CACHE, k + suffix)
    with _ll:
        lk = _locks.setdefault(path, threading.Lock())
    with lk:
        if not os.path.exists(path):
            tmp = path + ".%d.tmp" % os.getpid()
            make(tmp)
            os.rename(tmp, path)
    return path


class BuildError(Exception):
    pass


def run_cc(cmd, what):
    r = sh(cmd)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (what, r.stdout[-4000:]))


def fhash(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def bitcode(src, arch, defs, harness):
    flags = BC + COMMON + ARCH[arch] + defs
    if "/src/dft/" in src:
        flags = flags + ["-ffp-contract=fast"]
    extra = "".join(fhash(os.path.join(V, "harness", h)) for h in sorted(os.listdir(os.path.join(V, "harness"))) if h.endswith(".h")) if harness else ""
    key = "bc" + TREE + src + fhash(src) + extra + " ".join(flags)
    return cached(key, ".bc", lambda o: run_cc([CLANG] + flags + [src, "-o", o], "compile " + src + " [" + arch + "]"))


def native_obj(src, arch, defs, opts, tag):
    flags = COMMON + ARCH[arch] + defs + opts
    key = "obj" + TREE + src + fhash(src) + fhash(os.path.join(V, "harness/sym.h")) + " ".join(flags)
    return cached(key, ".o", lambda o: run_cc([CLANG] + flags + ["-c", src, "-o", o], "native compile " + src))


def rtbc():
    src = os.path.join(V, "engine/rt.c")
    return cached("rt" + fhash(src), ".bc", lambda o: run_cc(
        ["clang-18", "-O1", "-fno-builtin", "-ffreestanding", "-fno-vectorize", "-w", "-emit-llvm", "-c", src, "-o", o], "rt.c"))


def cxxrt():
    src = os.path.join(V, "engine/cxxrt.cpp")
    return cached("cxxrt" + fhash(src), ".bc", lambda o: run_cc(
        [CLANG, "-std=gnu++17", "-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin", "-w", "-emit-llvm", "-c", src, "-o", o], "cxxrt.cpp"))


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD, "lock"), "w") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        r = sh(["make", "-j8", "-C", os.path.join(V, "engine"), "OUT=" + BUILD])
        if r.returncode:
            raise BuildError("engine build failed:\n" + r.stdout[-3000:])
    return os.path.join(BUILD, "ksym")


def native(unit, arch, mode):
    """mode: 'rel' (project release flags), 'asan', 'vg' (for valgrind)"""
    opts = {"rel": ["-O3", "-DKSYM_NATIVE"], "asan": ["-O1", "-g", "-DKSYM_NATIVE", "-DKSYM_SAN", "-DKSYM_NO_ALLOC_HOOK",
            "-fsanitize=address,undefined", "-fno-sanitize=vptr,signed-integer-overflow,shift,float-cast-overflow,enum,bool,function,null,pointer-overflow", "-fno-sanitize-recover=undefined"],
            "vg": ["-O1", "-g", "-DKSYM_NATIVE", "-DKSYM_NO_ALLOC_HOOK"]}[mode]
    defs = unit.get("defs", [])
    srcs = [os.path.join(V, "harness", unit["src"])] + [os.path.join(REPO, s) for l in unit.get("libs", []) for s in LIBS[l]]
    srcs.append(os.path.join(V, "harness/replay_rt.cpp"))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: native_obj(s, arch, defs, opts, mode), srcs))
    key = "bin" + "".join(objs) + mode
    link = [o for o in opts if o.startswith("-f")]
    if mode == "rel":
        link += ["-Wl,--wrap=malloc", "-Wl,--wrap=free", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc"]
    return cached(key, ".exe", lambda o: run_cc([CLANG] + objs + link + ["-o", o, "-lm", "-lpthread"], "link"))


def replay(unit, arch, entry, kind, path):
    """returns (confirmed, text)"""
    txt = ""
    for mode in (["rel"] if kind in ("assert", "close", "fuel", "div", "exception", "abort", "trap", "unreachable", "stack") else []) + ["asan"] + (["vg"] if kind in ("uninit", "close", "assert") else []):
        try:
            exe = native(unit, arch, mode)
            cmd = [exe, entry, path]
            if mode == "vg":
                cmd = ["valgrind", "-q", "--error-exitcode=9"] + cmd
            r = sh(cmd, timeout=120, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0"))
            txt += "[%s] rc=%d %s\n" % (mode, r.returncode, r.stdout[-1500:])
            if r.returncode not in (0, 4) or "REPLAY-FAIL" in r.stdout:
                return True, txt
            if r.returncode == 4:
                return None, txt
        except subprocess.TimeoutExpired:
            if kind == "fuel":
                return True, txt + "timeout"
            txt += "[%s] timeout\n" % mode
        except BuildError as e:
            txt += str(e)[-800:]
    return False, txt


def known_ids():
    ids = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: id=(\S+) property=(\S+) (.*)", l.strip())
            if m:
                ids[m.group(1)] = (m.group(2), m.group(3))
    return ids


def main():
    global TREE
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    only = onlyarch = None
    for a in sys.argv[2:]:
        if a.startswith("--only="):
            only = a[7:]
        if a.startswith("--arch="):
            onlyarch = a[7:].split(",")
    prop = P.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = BUDGET if not thorough else float(os.environ.get("KSYM_BUDGET", "6000"))
    TREE = tree_hash()
    pool = ThreadPoolExecutor(max_workers=int(os.environ.get("KSYM_JOBS", "8")))
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    eng_f = pool.submit(build_engine)
    rt_f = pool.submit(rtbc)
    cx_f = pool.submit(cxxrt)
    units = []
    for u in prop["units"]:
        for arch in (onlyarch or (u.get("archs_thorough", u.get("archs", ["sse2"])) if thorough else u.get("archs", ["sse2"]))):
            u2 = dict(u)
            u2["defs"] = list(u.get("defs", [])) + (["-DTHOROUGH=1"] if thorough else [])
            hs = os.path.join(V, "harness", u["src"])
            bcs = [pool.submit(bitcode, hs, arch, u2["defs"], True)]
            for l in u.get("libs", []):
                for s in LIBS[l]:
                    bcs.append(pool.submit(bitcode, os.path.join(REPO, s), arch, [], False))
            units.append((u2, arch, bcs))
    eng = eng_f.result()
    rt = rt_f.result()
    cx = cx_f.result()
    results = []
    rlock = threading.Lock()

    def run_entry(u, arch, bcs, entry):
        out = os.path.join(BUILD, "run", "%s_%s_%s_%d.json" % (pid, arch, entry, os.getpid()))
        left = budget - (time.time() - T0)
        cap = min(left, u.get("time", 300 if not thorough else 3000))
        if left < 5:
            return dict(entry=entry, status="timeout", error="no time left", arch=arch)
        cmd = [eng] + bcs + [rt, cx, "-e", entry, "-o", out, "--max-time", str(int(cap)), "--query-timeout", str(u.get("qt", 20000 if not thorough else 120000))]
        cmd += u.get("opts", [])
        if arch == "avx2":
            cmd.append("--fma")
        try:
            r = sh(cmd, timeout=cap + 40)
            if os.path.exists(out):
                j = json.load(open(out))
                os.unlink(out)
                j["arch"] = arch
                return j
            return dict(entry=entry, status="crash", error="rc=%d %s" % (r.returncode, r.stdout[-500:]), arch=arch)
        except subprocess.TimeoutExpired:
            return dict(entry=entry, status="timeout", error="killed", arch=arch)

    try:
        jobs = []
        for u, arch, bcs in units:
            b = [f.result() for f in bcs]
            ents = sh([eng, "--list", b[0]]).stdout.split()
            pat = u.get("entries")
            for e in ents:
                if pat and not re.search(pat, e):
                    continue
                if only and not re.search(only, e):
                    continue
                jobs.append((u, arch, pool.submit(run_entry, u, arch, b, e)))
        for u, arch, f in jobs:
            results.append((u, arch, f.result()))
    except BuildError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
        sys.exit(2)

    known = known_ids()
    nviol = 0
    lines = []
    unconfirmed = []
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    kseen = set()
    for f in os.listdir(os.path.join(V, "replays")):
        if f.startswith(pid + "_"):
            os.unlink(os.path.join(V, "replays", f))

    def dump(j, v, u, arch, tag):
        p = os.path.join(V, "replays", "%s_%s_%s_%s.txt" % (pid, j["entry"], arch, tag))
        with open(p, "w") as f:
            f.write("# property %s entry %s arch %s\n# %s: %s\n# at %s\n" % (pid, j["entry"], arch, v["kind"], v["msg"], v["where"]))
            f.write("# replay: python3 %s/replay.py %s %s %s <this file>\n" % (V, pid, arch, j["entry"]))
            for n, b, h in v["vals"]:
                f.write("%s %d %s\n" % (n, b, h))
        return p

    done_viol = tried = 0
    for u, arch, j in results:
        for v in j.get("known", []):
            kid = v["kind"]
            if kid not in known:
                v2 = dict(v, kind="assert")
                j.setdefault("violations", []).append(v2)
                continue
            if kid not in kseen:
                kseen.add(kid)
                p = dump(j, v, u, arch, "known_" + kid)
                lines.append("KNOWN-FINDING: property=%s %s: %s" % (pid, kid, known[kid][1]))
        for i, v in enumerate(j.get("violations", [])):
            p = dump(j, v, u, arch, "%d" % i)
            if done_viol >= 1 or tried >= 12:
                continue
            tried += 1
            ok, txt = replay(u, arch, j["entry"], v["kind"], p)
            with open(p, "a") as f:
                f.write("\n".join("# " + l for l in txt.splitlines()) + "\n")
            if ok or (ok is None and v["kind"] == "assert"):
                nviol += 1
                done_viol += 1
                lines.append("VIOLATION property=%s replay=%s" % (pid, p))
                lines.append("  entry %s [%s] %s: %s\n  at %s" % (j["entry"], arch, v["kind"], v["msg"], v["where"][:600]))
            else:
                unconfirmed.append("%s[%s] %s: %s (%s)" % (j["entry"], arch, v["kind"], v["msg"], p))
    bad = [(a, j) for _, a, j in results if j["status"] not in ("pass", "violation")]
    inconc = []
    for a, j in bad:
        inconc.append("%s[%s] %s %s %s" % (j["entry"], a, j["status"], j.get("error", ""), "; ".join(j.get("inconclusive", [])[:3])))
    tot = lambda k: sum(j.get(k, 0) or 0 for _, _, j in results)
    funcs = sorted({f for _, _, j in results for f in j.get("functions", [])})
    ents = [dict(entry=j["entry"], arch=a, status=j["status"], paths=j.get("paths", 0), asserts=j.get("asserts", 0),
                 symbolic_asserts=j.get("asserts_symbolic", 0), queries=j.get("queries", 0), solver_s=round(j.get("solver_s", 0) or 0, 3),
                 wall_s=round(j.get("wall_s", 0) or 0, 2), worst_margin=j.get("close_margin", {})) for _, a, j in results]
    npass = sum(1 for _, _, j in results if j["status"] == "pass")
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=seed, level=P.LEVEL,
              coverage=dict(
                  explanation="Bounded symbolic execution of the LLVM bitcode of /repo's code (compiled in this run); every assertion is decided by "
                              "z3 for all values of the symbolic inputs within the stated bounds. " + prop["bounds"],
                  bounds=prop["bounds"], outside=prop.get("outside", ""),
                  entries_total=len(results), entries_held=npass, paths=int(tot("paths")), assertions=int(tot("asserts")),
                  assertions_symbolic=int(tot("asserts_symbolic")), queries=int(tot("queries")), queries_sat=int(tot("sat")),
                  queries_unsat=int(tot("unsat")), queries_unknown=int(tot("unknown")), real_relaxation_queries=int(tot("lra")),
                  solver_s=round(tot("solver_s"), 2), instructions=int(tot("instr")),
                  functions_encoded=len(funcs), functions=funcs[:400], samples=ents[:600],
                  inconclusive=inconc, unconfirmed_counterexamples=unconfirmed, known_findings=sorted(kseen)),
              assumptions=prop.get("assumptions", []) + P.COMMON_ASSUMPTIONS, wall_s=round(time.time() - T0, 1), violations=nviol)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    for l in inconc:
        print("INCONCLUSIVE " + l[:1500])
    for l in unconfirmed:
        print("UNCONFIRMED (not reproduced natively, not reported) " + l[:600])
    print("%s: %d/%d entries held, %d paths, %d assertions (%d symbolic), %d queries, solver %.1fs, wall %.1fs" % (
        pid, npass, len(results), tot("paths"), tot("asserts"), tot("asserts_symbolic"), tot("queries"), tot("solver_s"), time.time() - T0))
    if not results:
        print("CHECK-ERROR property=%s no entries" % pid)
        sys.exit(2)
    if nviol:
        sys.exit(1)
    crashed = [j for _, _, j in results if j["status"] in ("crash", "vacuous")]
    if crashed and not only and len(crashed) == len(results):
        print("CHECK-ERROR property=%s engine failure" % pid)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
