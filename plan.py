# What each check runs: library variants and the runs of every property.
ASAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-DVF_ASAN"]
UB = ["-fsanitize=shift-exponent,integer-divide-by-zero,null,return,vla-bound", "-fno-sanitize-recover=all"]
LIBSRC = ["pbt_main.cpp", "gen.cpp", "reflzma2.cpp", "alloc.cpp"]
VARIANTS = {
    # as shipped: assembly decoder
    "asm":   dict(cc="gcc", cxx="g++", flags=["-O2"], cflags=["-DLZMA2_DEC_OPT"], asm=True),
    # portable C decoder
    "noasm": dict(cc="gcc", cxx="g++", flags=["-O2"]),
    # sanitised
    "asan":  dict(cc="clang", cxx="clang++", flags=ASAN, cflags=UB),
    "asanasm": dict(cc="clang", cxx="clang++", flags=ASAN, cflags=UB + ["-DLZMA2_DEC_OPT"], asm=True),
    # sanitised with the library's own assertions and small MT input buffers
    "dbg":   dict(cc="clang", cxx="clang++", flags=ASAN, cflags=["-DFL2_DEBUG=1"]),
    # sanitised, with coverage counters for guided generation
    "cov":   dict(cc="clang", cxx="clang++", flags=ASAN, cflags=UB + ["-DFL2_DEBUG=1", "-fsanitize-coverage=inline-8bit-counters"]),
    "st":    dict(cc="clang", cxx="clang++", flags=ASAN, cflags=UB + ["-DFL2_SINGLETHREAD"], hflags=["-DFL2_SINGLETHREAD"]),
    # the decoder's other compile-time choices: conditional moves and 16-bit probabilities; small code; no hash support
    "cmov":  dict(cc="clang", cxx="clang++", flags=ASAN, cflags=UB + ["-D__x86_64__s", "-DLZMA_DEC_PROB16"]),
    "small": dict(cc="clang", cxx="clang++", flags=ASAN, cflags=UB + ["-DHAVE_SMALL"]),
    "nohash": dict(cc="clang", cxx="clang++", flags=ASAN, cflags=UB + ["-DNO_XXHASH"], hflags=["-DNO_XXHASH"]),
    # controlled scheduler: one thread at a time, switches at synchronisation operations and at the library's memory accesses
    "sched": dict(cc="clang", cxx="clang++", flags=["-O1"], cflags=["-DVF_SCHED", "-DFL2_VERIF_SMALL_JOBS", "-DFL2_DEBUG=1", "-fsanitize-coverage=trace-loads,trace-stores"], hflags=["-DVF_SCHED"], libsrc=LIBSRC + ["vsched.cpp"]),
    # the same under the race detector (the harness library itself is not instrumented)
    "tsched": dict(cc="clang", cxx="clang++", flags=["-O1"], cflags=["-DVF_SCHED", "-DFL2_VERIF_SMALL_JOBS", "-fsanitize=thread", "-fsanitize-coverage=trace-loads,trace-stores"], hflags=["-DVF_SCHED"], pflags=["-fsanitize=thread"], ldflags=["-fsanitize=thread"], libsrc=LIBSRC + ["vsched.cpp"]),
    # real threads under the race detector
    "tsan": dict(cc="clang", cxx="clang++", flags=["-O1"], cflags=["-fsanitize=thread", "-DFL2_VERIF_SMALL_JOBS"], pflags=["-fsanitize=thread"], ldflags=["-fsanitize=thread"]),
}
PROPS = {}
def P(pid, quick, thorough=None, **kw):
    PROPS[pid] = dict(runs=dict(quick=quick, thorough=thorough or quick), **kw)
def R(variant, cases, time, **kw):
    return dict(variant=variant, cases=cases, time=time, **kw)

P("P01", [R("asm", 6000, 22), R("dbg", 2500, 20)], [R("asm", 10**9, 250), R("noasm", 10**9, 120), R("dbg", 10**9, 250), R("nohash", 10**9, 60), R("cov", 10**9, 120, guided=60)],
  technique="property-based testing: generated inputs x parameters x threads, round-trip oracle",
  note="Random search over structured inputs; content up to a few MB, dictionaries up to 4 MB.")
P("P07", [R("asm", 100000, 14), R("noasm", 100000, 12)], [R("asm", 10**9, 120), R("noasm", 10**9, 120), R("asanasm", 10**9, 120), R("asan", 10**9, 90), R("cmov", 10**9, 70), R("small", 10**9, 60), R("nohash", 10**9, 40), R("dbg", 10**9, 90), R("cov", 10**9, 90, guided=60)],
  technique="property-based testing: format-level generator of valid LZMA2 streams vs. every decoding path",
  note="Random streams up to about 1 MB; dictionaries up to 16 MB.")
P("P06", [R("asm", 400000, 12), R("dbg", 100000, 16)], [R("asm", 10**9, 150), R("noasm", 10**9, 120), R("dbg", 10**9, 250), R("st", 10**9, 100), R("cov", 10**9, 150, guided=60)],
  technique="property-based testing: generated streams x generated divisions of input and output, one-shot content as oracle, call-by-call contract checks",
  note="Random search; the dbg variant has 1 KiB MT input buffers so that buffer-chain boundaries are hit often.")
P("P04", [R("asm", 40000, 18), R("dbg", 8000, 20)], [R("asm", 10**9, 250), R("dbg", 10**9, 250), R("st", 10**9, 100), R("cov", 10**9, 150, guided=60)],
  technique="property-based testing: model-based generation of call histories, reference decoder as oracle", note="Histories of up to about 60 calls; real threads; dictionaries of 1-2 MB.")
P("P05", [R("asm", 40000, 18), R("dbg", 8000, 20)], [R("asm", 10**9, 300), R("dbg", 10**9, 300), R("cov", 10**9, 100, guided=60)],
  technique="property-based testing: generated histories with flushes, prefix decoded by the reference decoder and the library", note="Up to 12 flush points decoded per history.")
P("P02", [R("asm", 40000, 22), R("dbg", 8000, 16)], [R("asm", 10**9, 350), R("dbg", 10**9, 300), R("cov", 10**9, 100, guided=60)],
  technique="property-based testing: generated inputs, parameters and call histories; strict independent LZMA2 decoder as oracle", note="Dictionaries of 1-2 MB, content up to 3 MB.")
P("P03", [R("asm", 40000, 20), R("asan", 8000, 16)], [R("asm", 10**9, 300), R("asan", 10**9, 200), R("noasm", 10**9, 100), R("cov", 10**9, 80, guided=60)],
  technique="property-based testing: generated content x capacities with guard pages; metamorphic comparison with the full-capacity stream", note="Content up to 3 MB.")
P("P20", [R("asm", 20000, 30)], [R("asm", 10**9, 400), R("dbg", 10**9, 200), R("cov", 10**9, 80, guided=60)],
  technique="property-based testing: reset positions of generated streams against the interval", note="Content up to 5 MB (10 MB in the thorough tier), dictionaries of 1-1.2 MB.")
P("P08", [R("asm", 200000, 14), R("asanasm", 30000, 12), R("asan", 30000, 12), R("dbg", 30000, 10)], [R("asm", 10**9, 140), R("noasm", 10**9, 80), R("asanasm", 10**9, 140), R("asan", 10**9, 90), R("cmov", 10**9, 60), R("small", 10**9, 60), R("dbg", 10**9, 100), R("cov", 10**9, 120, guided=60)],
  technique="fuzzing: structure-aware mutation of streams, strict reference decoder as oracle, sanitizers, guard pages, two memory fills", note="Streams up to about 60 KB of content; allocations above 96 MB refused.")
P("P09", [R("asm", 300000, 16), R("noasm", 100000, 9), R("dbg", 40000, 12)], [R("asm", 10**9, 250), R("noasm", 10**9, 150), R("dbg", 10**9, 200), R("cov", 10**9, 120, guided=60)],
  technique="fuzzing: structure-aware alteration and truncation of hashed streams, original content as oracle", note="Streams up to 2.5 MB; small streams altered and cut at every byte.")
P("P18", [R("asm", 100000, 12), R("asan", 20000, 8)], [R("asm", 10**9, 200), R("asan", 10**9, 200), R("cov", 10**9, 60, guided=60)],
  technique="property-based testing: generated streams, truncations and mutations against a header-walk model, guard pages", note="Includes streams of more than 4 GiB content.")
P("P19", [R("asm", 20000, 22), R("dbg", 3000, 12)], [R("asm", 10**9, 300), R("dbg", 10**9, 200), R("cov", 10**9, 80, guided=60)],
  technique="property-based testing: exhaustive property bytes; metamorphic comparison of streams with and without the property; reference decoder", note="Dictionaries up to 256 MB one-shot, 6 MB streaming.")
P("P11", [R("asm", 200000, 14), R("asan", 30000, 8)], [R("asm", 10**9, 200), R("asan", 10**9, 100)],
  technique="property-based testing: model-based histories of parameter and compression calls", note="Histories of up to 40 calls.")
P("P12", [R("asm", 60000, 20), R("dbg", 10000, 16)], [R("asm", 10**9, 300), R("dbg", 10**9, 250), R("st", 10**9, 100), R("cov", 10**9, 120, guided=60)],
  technique="property-based testing: generated histories, last operation compared with a new object", note="Histories of up to 5 operations; dictionaries of 1-3 MB.")
P("P13", [R("asm", 60000, 18), R("dbg", 6000, 18)], [R("asm", 10**9, 250), R("dbg", 10**9, 250), R("st", 10**9, 100), R("cov", 10**9, 120, guided=60)],
  technique="property-based testing with fault injection: enumerated and sampled allocation / thread-creation failures over generated scenarios", level="fault_enumeration",
  note="Every attempt is failed when the scenario has few, otherwise a sample; dictionaries of 1-2 MB.")
P("P16", [R("asm", 60000, 22), R("dbg", 12000, 14)], [R("asm", 10**9, 300), R("dbg", 10**9, 100)],
  technique="property-based testing: generated objects and operations under an accounting allocator, estimates and limit as oracle", note="Levels up to 6 (8 in the thorough tier) for real operations, all levels for the agreement of the estimates.")
P("P17", [R("asm", 60000, 20), R("dbg", 6000, 12)], [R("asm", 10**9, 250), R("dbg", 10**9, 150), R("st", 10**9, 50)],
  technique="property-based testing: generated call histories, progress read at every step and timeout, invariants over the sequence", note="Content up to 3.5 MB; polling from the calling thread between calls and while waiting.")
P("P21", [R("asm", 60000, 36)], [R("asm", 10**9, 500)],
  technique="property-based testing: metamorphic size comparison (with and without the repeat, one and several threads) and absolute bounds on constructed data", note="Content up to 3 MB, dictionaries of 1-1.25 MB.")
P("P22", [R("asm", 100000, 18), R("dbg", 20000, 18)], [R("asm", 10**9, 250), R("asan", 10**9, 150), R("dbg", 10**9, 200), R("cov", 10**9, 150, guided=60)],
  technique="property-based testing: model-based generation of call orders with degenerate arguments, stage model as oracle, sanitizers", note="Up to 120 calls per object; data of a few KB, dictionaries of 1-2 MB.")
P("P10", [R("sched", 200000, 30)], [R("sched", 10**9, 500), R("tsched", 10**9, 100)],
  technique="property-based testing: generated inputs x generated schedules under a controlled scheduler, results compared between schedules", note="Preemption at synchronisation operations and at the library's memory accesses, up to 400 per run; the OS thread primitives are replaced by the scheduler.")
P("P15", [R("sched", 200000, 30), R("asm", 40000, 8)], [R("sched", 10**9, 500), R("tsched", 10**9, 100), R("asm", 10**9, 100)],
  technique="property-based testing: generated histories x generated schedules with expiries of timed waits at any point; output of an untimed new object as oracle", note="The scheduler replaces the OS thread primitives; up to 400 preemptions and 200 expiries per run; the asm runs use real threads and time.")

P("P14", [R("tsan", 200000, 24, flaky=1, fresh=4), R("tsched", 200000, 16, fresh=4)], [R("tsan", 10**9, 350, flaky=1, fresh=4), R("tsched", 10**9, 350, fresh=4)],
  technique="property-based testing: generated concurrent jobs under a race detector, with real threads and with generated schedules; the jobs run alone as oracle", note="ThreadSanitizer; progress counters and cancel flags, which are single words read as estimates, are excluded.")
P("P23", [R("asm", 60000, 24), R("dbg", 6000, 12)], [R("asm", 10**9, 350), R("dbg", 10**9, 200)],
  technique="property-based testing: metamorphic comparison of compressions that must agree byte for byte", note="Content up to 3.5 MB, dictionaries up to 2 MB (now and then above 64 MB); flushes excluded, since their moment legitimately decides the blocks.")
P("P24", [R("asm", 60000, 24), R("dbg", 6000, 12), R("dbg", 4000, 5, arg="cores")], [R("asm", 10**9, 250), R("dbg", 10**9, 150), R("dbg", 200000, 30, arg="cores")],
  technique="property-based testing: generated objects and histories, thread creations, ends and CPU time recorded at the library's own thread calls; stated thread counts as oracle", note="Up to 200 threads; content up to 5 MB; whether workers take part is judged by their CPU time (more than 5 % of the whole for compression, more than 60 % of their fair part for decompression).")
