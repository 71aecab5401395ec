#!/usr/bin/env python3
"""Development aid: mutation analysis of the checks.  Not used by any check.
mutants.py list                          -> prints every mutant id
mutants.py run N SEED [--workers K] [--files a,b] [--secs S] [--out F]   -> runs N random mutants through short runs of all harnesses
Scratch in /tmp/mm; works on copies of /repo's sources only."""
import sys, os, re, glob, random, subprocess, shutil, threading, time, json, queue, signal
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
from plan import VARIANTS, PROPS
REPO = "/repo"; W = "/tmp/mm"
FILES = ["dict_buffer.c", "fl2_common.c", "fl2_compress.c", "fl2_decompress.c", "fl2_pool.c", "lzma2_dec.c", "lzma2_enc.c", "radix_bitpack.c", "radix_struct.c", "radix_mf.c", "radix_engine.h", "radix_get.h", "radix_internal.h", "range_enc.c", "range_enc.h", "lzma2_dec.h", "fl2_compress_internal.h", "dict_buffer.h"]
SWAP = [(r"<=", "<"), (r">=", ">"), (r"(?<![<>=!-])<(?![<=])", "<="), (r"(?<![->=!<])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
        (r"(?<=[\w\])]) \+ (?=[\w(])", " - "), (r"(?<=[\w\])]) - (?=[\w(])", " + "), (r"\bMIN\(", "MAX("), (r"\bMAX\(", "MIN("), (r"\+=", "-="), (r"-=", "+="), (r"\+\+", "--"), (r"(?<!-)--(?!-)", "++"),
        (r" \+ 1\b", ""), (r" - 1\b", ""), (r"(?<=[(&| ])!(?=[\w(])", ""), (r"<<", ">>"), (r">>", "<<"), (r"\btrue\b", "false"), (r" & ", " | "), (r" \| ", " & ")]
ASWAP = [("jae", "ja"), ("ja", "jae"), ("jb", "jbe"), ("jbe", "jb"), ("je", "jne"), ("jne", "je"), ("jz", "jnz"), ("jnz", "jz"), ("jl", "jle"), ("jge", "jg"), ("jle", "jl"), ("add", "sub"), ("sub", "add"), ("inc", "dec"), ("dec", "inc"), ("cmovae", "cmovb"), ("cmovb", "cmovae"), ("cmove", "cmovne"), ("cmovne", "cmove"), ("cmovs", "cmovns"), ("shl", "shr"), ("shr", "shl"), ("and", "or"), ("or", "and"), ("xor", "or"), ("adc", "add"), ("sbb", "sub")]
def asm_mutants(f):
    src = open(REPO + "/" + f).read().split("\n"); out = []
    for i, l in enumerate(src):
        code = l.split("#")[0].rstrip(); t = code.split()
        if not t or t[0].startswith(".") and t[0] != ".equ" or t[0].endswith(":") or t[0] in ("push", "pop"): continue
        if t[0] == ".equ" and not re.search(r"\d", code.split(",", 1)[-1].replace("x", "").strip()): continue
        for a, b in ASWAP:
            if t[0] == a: out.append((f, i, "w" + b, code.replace(a, b, 1)))
        for j, m in enumerate(re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code)):
            if t[0] in ("jae", "jb", "je", "jne", "jmp", "jz", "jnz", "ja", "jbe"): continue
            for d in (1, -1): out.append((f, i, "c%d.%d" % (j, d), code[:m.start()] + str(int(m[1]) + d) + code[m.end():]))
        for j, m in enumerate(re.finditer(r" \+ | - ", code)): out.append((f, i, "s%d" % j, code[:m.start()] + (" - " if "+" in m[0] else " + ") + code[m.end():]))
        if t[0] != ".equ": out.append((f, i, "del", ""))
    return [(f, i, k, n) for f, i, k, n in out if n != src[i]]
def mutants(f):
    if f.endswith(".S"): return asm_mutants(f)
    src = open(REPO + "/" + f).read().split("\n"); out = []; incom = False
    for i, l in enumerate(src):
        s = l.strip()
        if incom:
            if "*/" in s: incom = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: incom = True
            continue
        if not s or s.startswith(("//", "*", "#", "DEBUGLOG", "assert", "typedef", "static const", "FL2LIB_API", "extern")): continue
        code = re.sub(r"/\*.*?\*/", lambda m: " " * len(m[0]), l).split("//")[0]
        if "DEBUGLOG" in code or "assert(" in code: continue
        for k, (p, r) in enumerate(SWAP):
            for j, m in enumerate(re.finditer(p, code)):
                if "#include" in code: continue
                out.append((f, i, "s%d.%d" % (k, j), code[:m.start()] + r + code[m.end():]))
        for j, m in enumerate(re.finditer(r"(?<![\w.])(\d+)(U?)(?![\w.])", code)):
            v = int(m[1])
            if "case" in code: continue
            for d in ((1, -1) if v else (1,)):
                out.append((f, i, "c%d.%d" % (j, d), code[:m.start()] + str(v + d) + m[2] + code[m.end():]))
        m = re.match(r"^(\s*)((?:\+\+|--|\*)?[\w>.\[\]\-()+ *]+?\s*(?:[-+|&^]?=|<<=|>>=)[^=].*|\+\+[\w>.\-\[\]]+|--[\w>.\-\[\]]+|[\w>.\-\[\]]+(?:\+\+|--)|\w+\(.*\));\s*$", code)
        if m and not re.match(r"\s*(const |U32 |size_t |BYTE |int |unsigned |U64 |return|for|if|while|ptrdiff_t |static|struct|FL2_\w+ ?\*|\w+ ?\*? ?const |U16 |LZMA\w* |RMF_\w+ ?\*)", code): out.append((f, i, "del", m[1] + ";"))
        m = re.search(r"^(.*?\bif ?\()(.*)(\)\s*\{?\s*)$", code)
        if m and code.count("(") == code.count(")"):
            out.append((f, i, "if0", m[1] + "0 && (" + m[2] + ")" + m[3])); out.append((f, i, "if1", m[1] + "1 || (" + m[2] + ")" + m[3]))
        if re.match(r"^\s*(break|continue);\s*$", code): out.append((f, i, "del", ";"))
    return [(f, i, k, n) for f, i, k, n in out if n != src[i]]
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
SETS = {"asanasm": ["P08"], "asm": [p for p in PROPS if p not in ("P10", "P14")], "sched": ["P10", "P15"], "dbg": ["P22", "P08", "P06", "P04", "P13"]}
EARLY = ["P01", "P07", "P04", "P06"]
def flags(v):
    V = VARIANTS[v]; base = ["-pthread", "-g0"] + V["flags"]
    return V, base
def prep():
    os.makedirs(W, exist_ok=True)
    jobs = []
    for v, ps in SETS.items():
        V, base = flags(v); d = W + "/h-" + v; os.makedirs(d, exist_ok=True)
        srcs = [HERE + "/props/%s.cpp" % p.lower() for p in ps] + [HERE + "/lib/" + x for x in V.get("libsrc", ["pbt_main.cpp", "gen.cpp", "reflzma2.cpp", "alloc.cpp"])]
        for s in srcs: jobs.append([V["cxx"]] + base + V.get("hflags", []) + ["-std=c++17", "-w", "-I" + HERE + "/lib", "-I" + HERE + "/props", "-I" + REPO, "-c", s, "-o", d + "/" + os.path.basename(s) + ".o"])
        o = W + "/l-" + v; os.makedirs(o, exist_ok=True)
        for s in glob.glob(REPO + "/*.c"): jobs.append([V["cc"]] + base + V.get("cflags", []) + ["-include", HERE + "/lib/shim.h", "-I" + REPO, "-w", "-c", s, "-o", o + "/" + os.path.basename(s) + ".o"])
    jobs.append(["gcc", "-DMS_x64_CALL=0", "-c", REPO + "/lzma_dec_x86_64.S", "-o", W + "/asm.o"])
    q = queue.Queue(); [q.put(j) for j in jobs]
    def wk():
        while True:
            try: j = q.get_nowait()
            except queue.Empty: return
            r = sh(j)
            if r.returncode: print(r.stdout); os._exit(1)
    t = [threading.Thread(target=wk) for _ in range(8)]; [x.start() for x in t]; [x.join() for x in t]
def asmbuild(d, v, f):
    objs = [W + "/l-" + v + "/" + os.path.basename(s) + ".o" for s in sorted(glob.glob(REPO + "/*.c"))]
    if not VARIANTS[v].get("asm"): return objs + []
    if sh(["gcc", "-DMS_x64_CALL=0", "-c", d + "/src/" + f, "-o", d + "/asm.o"]).returncode: return None
    return objs + [d + "/asm.o"]
def libbuild(d, v, f):
    if f.endswith(".S"): return asmbuild(d, v, f)
    """compiles what the mutated file f affects; returns object list or None"""
    V, base = flags(v); objs = []; o = d + "/o-" + v; shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
    for s in sorted(glob.glob(REPO + "/*.c")):
        b = os.path.basename(s)
        if f.endswith(".c") and b != f or f.endswith(".h") and b in ("xxhash.c", "util.c"): objs.append(W + "/l-" + v + "/" + b + ".o"); continue
        r = sh([V["cc"]] + base + V.get("cflags", []) + ["-include", HERE + "/lib/shim.h", "-I" + d + "/src", "-w", "-c", d + "/src/" + b, "-o", o + "/" + b + ".o"])
        if r.returncode: return None
        objs.append(o + "/" + b + ".o")
    if V.get("asm"): objs.append(W + "/asm.o")
    return objs
def link(d, v, p, objs):
    V, base = flags(v); out = d + "/" + p + "-" + v
    ho = [W + "/h-" + v + "/" + x + ".o" for x in [p.lower() + ".cpp"] + V.get("libsrc", ["pbt_main.cpp", "gen.cpp", "reflzma2.cpp", "alloc.cpp"])]
    r = sh([V["cxx"]] + base + V.get("ldflags", []) + objs + ho + ["-o", out])
    if r.returncode: raise Exception(r.stdout[:2000])
    return out
def probe(binary, secs, seed, workers=1):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=6000:quarantine_size_mb=64")
    p = subprocess.Popen([binary, "--seed", str(seed), "--cases", "1000000", "--workers", str(workers), "--time", str(secs), "--shrink", "0", "--hang", "12", "--out", "/dev/null"], stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, env=env, start_new_session=True, text=True, errors="replace")
    hit = None
    for l in p.stderr:
        if "candidate failure" in l: hit = l.strip()[:200]; break
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
    p.wait(); return hit
def evaluate(d, m, secs, seed):
    f, i, k, n = m
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/src")
    for s in glob.glob(REPO + "/*.[chS]"): shutil.copy(s, d + "/src")
    l = open(d + "/src/" + f).read().split("\n"); old = l[i]; l[i] = n; open(d + "/src/" + f, "w").write("\n".join(l))
    objs = libbuild(d, "asm", f)
    if objs is None: return "nocompile", ""
    base = W + "/l-asm/" + f + ".o"
    if f.endswith(".c") and sh(["cmp", "-s", base, d + "/o-asm/" + f + ".o"]).returncode == 0: return "same-object", ""
    if f.endswith(".h") and all(sh(["cmp", "-s", W + "/l-asm/" + os.path.basename(x), x]).returncode == 0 for x in objs if "/o-asm/" in x): return "same-object", ""
    if f.endswith(".S") and sh(["cmp", "-s", W + "/asm.o", d + "/asm.o"]).returncode == 0: return "same-object", ""
    for p in EARLY:
        h = probe(link(d, "asm", p, objs), 2, seed)
        if h: return "killed-early", p + " " + h
    rest = [("asm", p) for p in SETS["asm"]]; random.shuffle(rest)
    sched = [("sched", p) for p in SETS["sched"]]; dbg = [("dbg", p) for p in SETS["dbg"]]
    built = {"asm": objs}
    if f.endswith(".S"): sched, dbg = [], [("asanasm", "P08")]; rest = [("asm", p) for p in ("P07", "P08", "P03", "P09", "P13", "P18", "P22")]
    for v, p in rest + sched + dbg:
        if v not in built:
            built[v] = libbuild(d, v, f)
        h = probe(link(d, v, p, built[v]), secs, seed + 1)
        os.remove(d + "/" + p + "-" + v)
        if h: return "killed", "%s/%s %s" % (p, v, h)
    return "SURVIVED", ""
if __name__ == "__main__":
    a = sys.argv[1:]; opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    files = opt("--files", ",".join(FILES)).split(",")
    allm = [m for f in files for m in mutants(f)]
    if a[0] == "list":
        from collections import Counter
        print(Counter(m[0] for m in allm)); sys.exit(0)
    if a[0] == "show":
        for m in allm:
            if m[0] == a[1] and m[1] == int(a[2]) - 1: print(m[2], "|", m[3])
        sys.exit(0)
    n, seed = int(a[1]), int(a[2]); secs = int(opt("--secs", "4")); out = open(opt("--out", "/tmp/mm.out"), "a")
    random.seed(seed); pick = random.sample(allm, min(n, len(allm))); os.makedirs(W, exist_ok=True); prep()
    q = queue.Queue(); [q.put(m) for m in pick]; lock = threading.Lock()
    def wk(w):
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            t = time.time(); 
            try: r, why = evaluate(W + "/w%d" % w, m, secs, seed)
            except Exception as e: r, why = "error", str(e)[:300]
            with lock:
                out.write("%s %s:%d %s %.0fs | %s | %s\n" % (r, m[0], m[1] + 1, m[2], time.time() - t, m[3].strip(), why)); out.flush()
    t = [threading.Thread(target=wk, args=(w,)) for w in range(int(opt("--workers", "4")))]; [x.start() for x in t]; [x.join() for x in t]
