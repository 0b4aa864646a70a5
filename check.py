#!/usr/bin/env python3
"""Builds the harness against /repo's working tree and runs one check.

usage: check.py --setup | check.py Cxx [--tier quick|thorough] [--seed N]
       check.py --replay FILE
"""
import fcntl, glob, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(HERE, "build"))
OUT = BUILD if "VF_BUILD" in os.environ else HERE
REPLAYS = os.path.join(OUT, "replays")
SRC = os.path.join(HERE, "src")

COMMON = ["-std=c++14", "-g1", "-w", "-I" + REPO, "-I/usr/include/eigen3",
          "-I" + SRC, "-I" + os.path.join(SRC, "fake"), "-pthread"]
VARIANTS = {
    "plain": ["g++", "-O2"],
    "asan": ["g++", "-O2", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["g++", "-O1", "-fsanitize=thread"],
}
# abstract_components.h leaves two virtual functions undefined; whether the base
# vtable is emitted depends on the optimiser.
UNRES = "-Wl,--unresolved-symbols=ignore-in-object-files"
LINK = {"plain": [UNRES], "asan": [UNRES, "-fsanitize=address,undefined"],
        "tsan": [UNRES, "-fsanitize=thread"]}
HARNESS = ["driver.cc", "qp.cc", "api.cc", "api_dense.cc", "api_mpc.cc",
           "malloc_fill.cc"]

# The runs that make up each check: (variant, extra driver arguments).
QUICK_PER_CASE = ("C02", "C10", "C11", "C12", "C13", "C14", "C16", "C22", "C23",
                  "C24")
DEFAULT_RUNS = [("plain", [])]
RUNS = {}


def check_ids():
    return sorted(os.path.basename(p)[:-3]
                  for p in glob.glob(os.path.join(SRC, "props", "C*.cc")))


def runs_of(cid):
    """Runs are declared in the check's own source: // RUN: variant args"""
    out = []
    with open(os.path.join(SRC, "props", cid + ".cc")) as f:
        for line in f:
            if line.startswith("// RUN:"):
                w = line[7:].split()
                out.append((w[0], w[1:]))
    return out or DEFAULT_RUNS


def lib_sources():
    out = []
    for d in ("fbstab", "fbstab/components"):
        out += glob.glob(os.path.join(REPO, d, "*.cc"))
    return sorted(out)


def header_digest():
    h = hashlib.sha256()
    files = []
    for d in ("fbstab", "tools"):
        for root, _, names in os.walk(os.path.join(REPO, d)):
            files += [os.path.join(root, n) for n in names
                      if n.endswith((".h", ".hpp", ".inc", ".hh"))]
    files += glob.glob(os.path.join(SRC, "*.h"))
    files += glob.glob(os.path.join(SRC, "props", "*.h"))
    files += glob.glob(os.path.join(SRC, "fake", "**", "*.h"), recursive=True)
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as s:
            h.update(s.read())
    return h.hexdigest()


def compile_all(jobs):
    """jobs: list of (source, variant). Returns {job: object path}."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    hd = header_digest()
    todo, out = [], {}
    for src, var in jobs:
        cmd = VARIANTS[var] + COMMON
        h = hashlib.sha256()
        h.update(" ".join(cmd).encode())
        h.update(hd.encode())
        with open(src, "rb") as f:
            h.update(f.read())
        name = "%s-%s-%s.o" % (os.path.basename(src)[:-3], var,
                               h.hexdigest()[:20])
        obj = os.path.join(BUILD, "obj", name)
        out[(src, var)] = obj
        if not os.path.exists(obj):
            todo.append((cmd + ["-c", src, "-o"], obj))

    def run(t):
        tmp = "%s.%d.tmp" % (t[1], os.getpid())
        p = subprocess.run(t[0] + [tmp], capture_output=True, text=True)
        if p.returncode == 0:
            os.replace(tmp, t[1])
            return None
        if os.path.exists(tmp):
            os.remove(tmp)
        return p.stderr

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(run, todo) if e]
    if errs:
        sys.stderr.write("BUILD FAILED\n" + errs[0][-6000:])
        sys.exit(3)
    return out


def build(cids):
    """Builds the executables of the checks. Returns {(cid, variant): exe}."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        pairs = sorted({(c, v) for c in cids for v, _ in runs_of(c)})
        variants = sorted({v for _, v in pairs})
        jobs = []
        # Slowest first.
        for v in variants:
            jobs += [(os.path.join(SRC, f), v) for f in reversed(HARNESS)]
        jobs += [(os.path.join(SRC, "props", c + ".cc"), v) for c, v in pairs]
        for v in variants:
            jobs += [(f, v) for f in lib_sources()]
        objs = compile_all(jobs)
        exes, link = {}, []
        for c, v in pairs:
            o = [objs[(os.path.join(SRC, "props", c + ".cc"), v)]]
            o += [objs[(os.path.join(SRC, f), v)] for f in HARNESS]
            o += [objs[(f, v)] for f in lib_sources()]
            key = hashlib.sha256(" ".join(o).encode()).hexdigest()[:20]
            exe = os.path.join(BUILD, "%s-%s-%s" % (c, v, key))
            exes[(c, v)] = exe
            if not os.path.exists(exe):
                link.append((VARIANTS[v] + o + LINK[v] + ["-pthread", "-o"],
                             exe))

        def run(t):
            tmp = t[1] + ".tmp"
            p = subprocess.run(t[0] + [tmp], capture_output=True, text=True)
            if p.returncode:
                return p.stderr
            os.replace(tmp, t[1])

        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            errs = [e for e in ex.map(run, link) if e]
        if errs:
            sys.stderr.write("LINK FAILED\n" + errs[0][-6000:])
            sys.exit(3)
        # Keep the cache small.
        for f in glob.glob(os.path.join(BUILD, "*")) + \
                glob.glob(os.path.join(BUILD, "obj", "*")):
            if f.endswith("lock") or os.path.isdir(f):
                continue
            try:
                if time.time() - os.path.getmtime(f) > 6 * 3600:
                    os.remove(f)
            except OSError:
                pass
        for f in list(objs.values()) + list(exes.values()):
            try:
                os.utime(f)
            except OSError:
                pass
    return exes


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:"
           "allocator_may_return_null=1:detect_stack_use_after_return=1",
           UBSAN_OPTIONS="print_stacktrace=0",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0")


def tsan_works():
    """ThreadSanitizer needs an address-space layout it does not get everywhere;
    a program without a race must run, one with a race must be reported."""
    exe = os.path.join(BUILD, "tsan_probe.%d" % os.getpid())
    try:
        p = subprocess.run(VARIANTS["tsan"] + [
            os.path.join(SRC, "tsan_probe.cpp"), "-pthread", "-o", exe],
            capture_output=True)
        if p.returncode:
            return False
        return all(subprocess.run([exe, a], env=ENV, capture_output=True
                                  ).returncode == rc
                   for a, rc in (("no", 0), ("yes", 66)) for _ in range(3))
    finally:
        if os.path.exists(exe):
            os.remove(exe)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build(check_ids())
        return 0
    if a and a[0] == "--replay":
        cid = os.path.basename(a[1]).split("-")[0]
        exes = build([cid])
        rc = 0
        for (c, v), exe in exes.items():
            if v == "tsan" and not tsan_works():
                continue
            print("== variant", v)
            rc |= subprocess.run([exe, "--replay", a[1]] + a[2:],
                                 env=ENV).returncode
        return rc
    cid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    rest = []
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 2
        elif a[i] == "--seed":
            seed = a[i + 1]
            i += 2
        else:
            rest.append(a[i])
            i += 1
    t0 = time.time()
    exes = build([cid])
    t_build = time.time() - t0
    evdir = os.path.join(OUT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    rc = 0
    merged = None
    for n, (v, extra) in enumerate(runs_of(cid)):
        if v == "tsan" and not tsan_works():
            print("NOTE ThreadSanitizer does not work here; its run is "
                  "skipped")
            merged["coverage"]["tsan_skipped"] = True
            continue
        part = os.path.join(BUILD, "%s-%s-%d-%d.json" % (cid, v, n, os.getpid()))
        # Checks that are quick per case get twice their nominal cases.
        twice = tier == "quick" and cid in QUICK_PER_CASE
        p = subprocess.run([exes[(cid, v)], "--tier", tier, "--seed", seed,
                            "--out", part, "--replay-dir", REPLAYS] +
                           (["--scale", "2"] if twice else []) + extra + rest,
                           env=ENV)
        if p.returncode not in (0, 1):
            sys.stderr.write("driver ended with %d\n" % p.returncode)
            return 3
        rc |= p.returncode
        with open(part) as f:
            ev = json.load(f)
        os.remove(part)
        ev["coverage"]["variant"] = v
        if merged is None:
            merged = ev
        else:
            m, e = merged["coverage"], ev["coverage"]
            m["evaluations"] += e["evaluations"]
            m["distinct_nontrivial"] += e["distinct_nontrivial"]
            m["samples"] += e["samples"]
            m.setdefault("further_runs", []).append(e)
            merged["wall_s"] += ev["wall_s"]
            merged["violations"] += ev["violations"]
    merged["coverage"]["build_seconds"] = round(t_build, 2)
    merged["wall_s"] = round(merged["wall_s"] + t_build, 3)
    with open(os.path.join(evdir, cid + ".json"), "w") as f:
        json.dump(merged, f, indent=1)
        f.write("\n")
    c = merged["coverage"]
    print("%s %s seed=%s: %d cases, %d distinct non-trivial, %d violations, "
          "%.1fs (build %.1fs)" % (cid, tier, seed, c["evaluations"],
                                   c["distinct_nontrivial"],
                                   merged["violations"], merged["wall_s"],
                                   t_build))
    return rc


if __name__ == "__main__":
    sys.exit(main())
