// P20: dictionary resets at the configured interval.
#include "mkstream.h"
const char* const prop_id = "P20";
const char* const prop_rule = "multi-megabyte content through one-shot and streaming compression with random reset interval, overlap, dictionary, threads, flushes; positions of dictionary resets read from the control bytes; non-trivial = at least one reset after the first, or content beyond one dictionary";
void prop_init() {}
void run_case(Tape& t, Ctx& c) {
    vf_reset();
    std::string d; unsigned api = (unsigned)t.draw(2) * 2; unsigned nth = (unsigned)t.range(1, 5);
    CParams p; p.dictSize = (1 << 20) + (t.chance(1, 3) ? (long)t.range(0, 200000) : 0); p.strategy = 0; p.depth = 6; p.xxh = 0; p.fast = 16; p.level = 1;
    p.reset = t.chance(1, 10) ? 0 : t.chance(1, 2) ? 1 : (long)t.range(1, 4); p.overlap = t.chance(1, 8) ? 0 : (long)t.range(0, 14);
    size_t maxn = (c.tier ? 10 : 5) << 20; size_t n = t.chance(1, 5) ? (size_t)t.logsize(1 << 20) : (size_t)t.range(1 << 20, maxn);
    if (t.chance(1, 4)) n = std::min(maxn, (size_t)p.dictSize * (size_t)t.range(1, 4) + (size_t)t.range(0, 4) - 2);
    // cheap to compress: repeated random block with sparse changes
    Bytes unit = random_bytes(t.raw(), (size_t)t.range(100, 60000)), in(n); Rng r(t.raw()); for (size_t i = 0; i < n; i++) in[i] = unit[i % unit.size()]; for (size_t i = 0; i < n; i += 200 + r.below(3000)) in[i] = (uint8_t)r.next();
    bool dual = api == 2 && t.chance(1, 3); FL2_CStream* s = api ? FL2_createCStreamMt(nth, dual) : FL2_createCCtxMt(nth); REQUIRE(c, s, "create", "create"); int e = apply_params(s, p); REQUIRE(c, !e, "param", "setParameter #%d", e);
    if (p.reset == 0) { size_t q = FL2_CCtx_setParameter(s, FL2_p_resetInterval, 0); REQUIRE(c, !FL2_isError(q), "param", "resetInterval 0"); }
    c.note("%s th%u dual%d %s unit%zu n%zu", api ? "stream" : "ctx", nth, dual, p.str().c_str(), unit.size(), n);
    Bytes out; size_t flushes = 0;
    if (api) { size_t q = FL2_initCStream(s, 0); REQUIRE(c, q == 0, "init", "init: %s", cname(q)); CSOpts o; o.bigPieces = t.chance(2, 3); o.maxOps = t.chance(1, 2) ? 40 : 12; o.paramChange = false; CSRun run(c, t, s, in, o, dual, nth); run.all(); out.swap(run.out); flushes = run.flushes; }
    else { out.resize(FL2_compressBound(n)); size_t q = FL2_compressCCtx(s, out.data(), out.size(), in.data(), n, 0); REQUIRE(c, !FL2_isError(q), "compress", "%s", cname(q)); out.resize(q); }
    FL2_freeCCtx(s);
    RefStream rs = cs_check(c, out, in, false, 0, 0, "stream");
    std::vector<size_t> pos; for (auto& k : rs.r.chunks) if (k.control == 1 || k.control >= 0xE0) pos.push_back(k.outOff);
    if (n) REQUIRE(c, !pos.empty() && pos[0] == 0, "first", "the first chunk does not reset the dictionary");
    size_t D = p.dictSize, I = p.reset, maxSeg = 0;
    for (size_t i = 0; i < pos.size(); i++) {
        size_t end = i + 1 < pos.size() ? pos[i + 1] : n, seg = end - pos[i]; maxSeg = std::max(maxSeg, seg);
        if (I) REQUIRE(c, seg <= D * I, "interval", "%zu bytes between dictionary resets, the interval is %zu x %zu", seg, D, I);
        if (end < n && p.overlap > 0) { if (I == 0) c.fail("reset-disabled", "dictionary reset at %zu although resets are disabled", end); REQUIRE(c, seg + (api ? D : std::min(D, n - end)) > D * I, "early", "dictionary reset after %zu bytes, the interval is %zu x %zu (at %zu of %zu)", seg, D, I, end, n); }
        if (end < n && p.overlap == 0 && !api) REQUIRE(c, seg == D, "no-overlap", "segment of %zu bytes without overlap", seg);
    }
    REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks still allocated", vf.liveCount);
    c.label(api ? "stream" : "ctx"); if (pos.size() > 1) c.label("resets", pos.size() - 1); if (I == 0) c.label("disabled"); if (flushes) c.label("flushed"); 
    if (pos.size() > 1 || n > D) c.nontrivial(mix64(n) ^ mix64(out.size()) ^ hash_bytes(p.str().data(), p.str().size()));
}
