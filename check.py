#!/usr/bin/env python3
"""Entry point of every check:  check.py <property> [--tier quick|thorough] [--seed N]
                              check.py <property> --replay FILE
                              check.py --setup            (build everything)
Builds the library from /repo's current sources in the variants a property needs,
runs the generated-input search, writes evidence/<property>.json.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NJ = os.cpu_count() or 8
sys.path.insert(0, HERE)
from plan import VARIANTS, PROPS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def read(p):
    with open(p, "rb") as f:
        return f.read()

_headers = None
def repo_key():
    global _headers
    if _headers is None:
        fs = sorted(glob.glob(REPO + "/*.h")) + sorted(glob.glob(REPO + "/*.S")) + sorted(glob.glob(REPO + "/*.inc"))
        _headers = digest(*[os.path.basename(f).encode() + read(f) for f in fs])
    return _headers

def lib_key():
    fs = sorted(glob.glob(HERE + "/lib/*.h")) + sorted(glob.glob(HERE + "/props/*.h"))
    return digest(*[read(f) for f in fs])

class BuildError(Exception):
    pass

LOCKS, LOCKS_GUARD = {}, threading.Lock()

def compile_one(src, flags, cc, extra_key):
    key = digest(read(src), " ".join(flags), cc, extra_key, src)
    out = os.path.join(BUILD, "obj", key + ".o")
    with LOCKS_GUARD:
        lock = LOCKS.setdefault(out, threading.Lock())
    with lock:   # several variants share objects: one thread compiles, the others wait for it
        if not os.path.exists(out):
            tmp = out + ".%d.%d.tmp.o" % (os.getpid(), threading.get_ident())
            r = sh([cc] + flags + ["-c", src, "-o", tmp])
            if r.returncode:
                raise BuildError("%s\n%s" % (" ".join([cc] + flags + [src]), r.stdout))
            os.replace(tmp, out)
    return out

def build(prop, variant, harness, pool):
    """Compile and link one harness against one library variant; returns the binary path."""
    v = VARIANTS[variant]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    shim = ["-include", HERE + "/lib/shim.h"] if v.get("shim", True) else []
    base = ["-pthread", "-g1"] + v["flags"]
    jobs = []
    for s in sorted(glob.glob(REPO + "/*.c")):
        f = base + v.get("cflags", []) + shim + ["-I" + REPO, "-w"]
        b = os.path.basename(s)
        for pat, fl in v.get("perfile", []):
            if re.match(pat, b):
                f = f + fl
        jobs.append(pool.submit(compile_one, s, f, v["cc"], repo_key() + lib_key() if shim else repo_key()))
    if v.get("asm"):
        for s in sorted(glob.glob(REPO + "/*.S")):
            jobs.append(pool.submit(compile_one, s, ["-DMS_x64_CALL=0"], "gcc", repo_key()))
    hflags = base + v.get("hflags", []) + ["-std=c++17", "-Wall", "-I" + HERE + "/lib", "-I" + HERE + "/props", "-I" + REPO]
    hs = [HERE + "/props/" + harness + ".cpp"] + [HERE + "/lib/" + x for x in v.get("libsrc", ["pbt_main.cpp", "gen.cpp", "reflzma2.cpp", "alloc.cpp"])]
    for s in hs:
        jobs.append(pool.submit(compile_one, s, hflags + (v.get("pflags", []) if s == hs[0] else []), v["cxx"], repo_key() + lib_key()))
    def link():
        objs = [j.result() for j in jobs]
        key = digest(*objs, v["cxx"], " ".join(v["flags"] + v.get("ldflags", [])))
        out = os.path.join(BUILD, "%s-%s-%s" % (harness, variant, key[:12]))
        if not os.path.exists(out):
            tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
            r = sh([v["cxx"]] + base + v.get("ldflags", []) + objs + ["-o", tmp])
            if r.returncode:
                raise BuildError(r.stdout)
            os.replace(tmp, out)
        return out
    return link

def build_many(wanted):
    """wanted: set of (variant, harness) -> dict of binaries"""
    with cf.ThreadPoolExecutor(NJ) as pool:
        links = {w: build(None, w[0], w[1], pool) for w in wanted}
        with cf.ThreadPoolExecutor(NJ) as lp:
            fut = {w: lp.submit(l) for w, l in links.items()}
            return {w: f.result() for w, f in fut.items()}

def runs_of(pid, tier):
    return PROPS[pid]["runs"][tier]

def known_findings():
    out = []
    p = HERE + "/KNOWN_FINDINGS"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                m = re.match(r"finding: property=(\S+) tag=(\S+) (.*)", l)
                if m:
                    out.append(m.groups())
    return out

def san_env(variant):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:max_allocation_size_mb=6000:quarantine_size_mb=64"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=0:exitcode=66:second_deadlock_stack=1:suppressions=" + HERE + "/lib/tsan.supp:history_size=4"
    return e

def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1); replay = None; pid = None; scale = float(os.environ.get("VERIF_SCALE", "1"))
    setup = False; only = None
    i = 0
    while i < len(args):
        a = args[i]
        if a == "--tier": tier = args[i + 1]; i += 2
        elif a == "--seed": seed = int(args[i + 1]); i += 2
        elif a == "--replay": replay = args[i + 1]; i += 2
        elif a == "--only": only = args[i + 1]; i += 2
        elif a == "--setup": setup = True; i += 1
        else: pid = a; i += 1
    if setup:
        w = {(r["variant"], r.get("harness", p.lower())) for p in PROPS for r in runs_of(p, "quick")}
        b = build_many(w)
        print("built %d check binaries" % len(b)); return 0
    t0 = time.time()
    runs = runs_of(pid, tier)
    if replay:
        txt = open(replay).read()
        m = re.search(r"# run (\{.*\})", txt)
        r = json.loads(m.group(1))
        bins = build_many({(r["variant"], r["harness"])})
        cmd = [bins[(r["variant"], r["harness"])], "--replay", replay, "--arg", r.get("arg", ""), "--hang", str(r.get("hang", 40)), "--flaky", str(r.get("flaky", 0)), "--tier", str(r.get("tier", 0))]
        return subprocess.run(cmd, env=san_env(r["variant"])).returncode
    bins = build_many({(r["variant"], r.get("harness", pid.lower())) for r in runs})
    tb = time.time() - t0
    os.makedirs(HERE + "/evidence", exist_ok=True)
    os.makedirs(HERE + "/replays", exist_ok=True)
    results = []; violations = []
    logroot = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        for n, r in enumerate(runs):
            if only and only != r["variant"]: continue
            h = r.get("harness", pid.lower())
            out = os.path.join(logroot, "out%d.json" % n)
            rp = os.path.join(HERE, "replays", "%s-%s-%d.tape" % (pid, r["variant"], n))
            if os.path.exists(rp): os.remove(rp)
            info = "run " + json.dumps({"variant": r["variant"], "harness": h, "arg": r.get("arg", ""), "hang": r.get("hang", 40), "flaky": r.get("flaky", 0), "tier": 1 if tier == "thorough" else 0})
            cmd = [bins[(r["variant"], h)], "--seed", str(seed), "--cases", str(int(r["cases"] * scale)), "--workers", str(r.get("workers", NJ)), "--time", str(int(r["time"] * scale) + 1),
                   "--out", out, "--replay-out", rp, "--arg", r.get("arg", ""), "--hang", str(r.get("hang", 40)), "--flaky", str(r.get("flaky", 0)), "--fresh", str(r.get("fresh", 0)), "--guided", str(r.get("guided", 0)),
                   "--shrink", str(r.get("shrink", 60 if tier == "quick" else 300)), "--logdir", logroot, "--info", info, "--tier", "1" if tier == "thorough" else "0"]
            p = subprocess.run(cmd, env=san_env(r["variant"]))
            if not os.path.exists(out):
                print("check error: no result from", cmd); return 3
            d = json.load(open(out)); d["variant"] = r["variant"]; d["harness"] = h
            results.append(d)
            if d["failures"]:
                f = d["failures"][0]
                violations.append((f, rp))
                break
    finally:
        shutil.rmtree(logroot, ignore_errors=True)
    wall = time.time() - t0
    ev = sum(d["evaluations"] for d in results); dn = sum(d["distinct_nontrivial"] for d in results)
    labels = {}
    for d in results:
        for k, v in d["labels"].items():
            labels["%s:%s" % (d["variant"], k)] = labels.get("%s:%s" % (d["variant"], k), 0) + v
    samples = []
    for d in results: samples += ["[%s] %s" % (d["variant"], s) for s in d["samples"][:3]]
    known = [k for k in known_findings() if k[0] == pid]
    evidence = dict(property=pid, tier=tier, seed=seed, level=PROPS[pid].get("level", "exploration"),
        coverage=dict(evaluations=ev, distinct_nontrivial=dn, rule=" | ".join(sorted({d["rule"] for d in results})), samples=samples,
            runs=[{k: d[k] for k in ("variant", "harness", "arg", "evaluations", "nontrivial", "distinct_nontrivial", "requested", "wall_s", "unconfirmed", "unconfirmed_msgs")} for d in results],
            classes=labels, build_s=round(tb, 1)),
        assumptions=PROPS[pid].get("assumptions", []), wall_s=round(wall, 1), violations=len(violations))
    rc = 0
    for f, rp in violations:
        listed = [k for k in known if f["tag"] == k[1]]
        if listed:
            continue
        rc = 1
        print("failure: tag=%s %s" % (f["tag"], f["msg"][:1500])); print("case: " + f["desc"][:800])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (k[0], k[2]))
    with open(HERE + "/evidence/%s.json" % pid, "w") as fo:
        json.dump(evidence, fo, indent=1)
    print("%s %s seed=%d: %d cases (%d distinct non-trivial) in %.1fs%s" % (pid, tier, seed, ev, dn, wall, "" if rc == 0 else " - BROKEN"))
    return rc

if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("build failed:\n" + str(e)[:6000]); sys.exit(4)
    except Exception:   # a fault of the machinery is no verdict
        traceback.print_exc(); sys.exit(4)
