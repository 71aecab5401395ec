// P04: histories of streaming-compression calls encode exactly the data supplied.
#include "cstream.h"
const char* const prop_id = "P04";
const char* const prop_rule = "random history of compress/dictionary/copy/next-buffer/flush/parameter/end calls over random content, pieces, output space, threads, single/dual buffer and timeouts; non-trivial = at least 3 calls before the end and 100 bytes of input";
void prop_init() {}

void run_case(Tape& t, Ctx& c) {
    vf_reset(); vf.fill = (int)t.draw(256);
    unsigned szk = (unsigned)t.draw(100); std::string d; Bytes in;
    if (szk < 60) in = gen_data(t, 60000, &d); else if (szk < 85) in = gen_data(t, 500000, &d); else in = gen_data_len(t, (size_t)t.range(900000, c.tier ? 6 << 20 : 3 << 20), &d);
    bool dual = t.chance(2, 5), big = in.size() > 800000; unsigned nth = (unsigned)t.range(1, 5), to = t.chance(1, 5) ? 1 + (unsigned)t.draw(3) : 0;
    PGen g; g.maxDict = 2 << 20; g.omit = true; g.large = true; CParams p = gen_params(t, g);
    FL2_CStream* s = nth == 1 && !dual && t.chance(1, 2) ? FL2_createCStream() : FL2_createCStreamMt(nth, dual); REQUIRE(c, s, "create", "createCStreamMt failed");
    if (p.dictSize < 0 && p.level > 4) p.level = 1 + p.level % 4;
    int e = apply_params(s, p); REQUIRE(c, !e, "param", "setParameter #%d rejected: %s", e, p.str().c_str());
    int lvl = 0; if (p.dictSize < 0 && t.chance(1, 3)) lvl = (int)t.range(1, 3);
    size_t r = FL2_initCStream(s, lvl); REQUIRE(c, r == 0, "init", "initCStream: %s", cname(r));
    if (to) { r = FL2_setCStreamTimeout(s, to); REQUIRE(c, r == 0, "timeout", "setCStreamTimeout: %s", cname(r)); }
    c.note("th%u dual%d to%u lvl%d %s %s", nth, dual, to, lvl, p.str().c_str(), d.c_str());
    CSOpts o; o.bigPieces = big; o.maxOps = big ? 24 : 60;
    CSRun run(c, t, s, in, o, dual || to, nth);
    run.all();
    unsigned prop = FL2_getCCtxDictProp(s);
    cs_check(c, run.out, in, p.omitProp, prop, p.omitProp ? -1 : p.xxh, "stream");
    // the library's own decoder agrees
    if (!p.omitProp) { Bytes o2(in.size() + 1); size_t n = FL2_decompress(o2.data(), in.size(), run.out.data(), run.out.size()); REQUIRE(c, !FL2_isError(n) && n == in.size() && !memcmp(o2.data(), in.data(), n), "decode", "FL2_decompress: %s", cname(n)); }
    // nothing but init is accepted after the end
    FL2_inBuffer ib = { "x", 1, 0 }; r = FL2_compressStream(s, NULL, &ib); REQUIRE(c, FL2_isError(r), "after-end", "compressStream accepted input after the end");
    r = FL2_endStream(s, NULL); REQUIRE(c, r == 0, "after-end", "endStream after completion: %s %zu", cname(r), r);
    FL2_freeCStream(s);
    REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks still allocated", vf.liveCount);
    c.label(dual ? "dual" : "single"); if (to) c.label("timed"); if (run.timeouts) c.label("timed-out"); if (run.flushes) c.label("flushes", run.flushes); if (run.paramChanges) c.label("param-changes"); if (big) c.label("multi-block"); c.label("ops", run.ops);
    if (run.ops >= 3 && in.size() >= 100) c.nontrivial(hash_bytes(in) ^ mix64(run.ops * 77 + run.out.size()));
}
