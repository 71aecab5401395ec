// P16: memory held against the estimates and the limit.
#include "mkstream.h"
#include "mutate.h"
const char* const prop_id = "P16";
const char* const prop_rule = "objects of generated kind, parameters and thread count; estimates taken before use, then one to three operations under an accounting allocator; non-trivial = at least one operation used more than 60% of the estimate (compression), or decoded more than 1000 bytes";
void prop_init() {}
// allowance for the object itself, its thread pools and hash state
static size_t slack(unsigned th) { return 4096 + 512 * (size_t)th; }
static void comp_case(Tape& t, Ctx& c) {
    bool stream = t.chance(2, 3), dual = stream && t.chance(1, 3); unsigned th = (unsigned)t.range(1, 6); vf.fill = -1;
    FL2_CStream* s = stream ? FL2_createCStreamMt(th, dual) : FL2_createCCtxMt(th); REQUIRE(c, s, "create", "create"); CParams p; int lvl = 0; bool high = false; size_t est, est2 = 0; bool huge = false; std::string d; // huge: the dictionary is reserved, little of it is used
    REQUIRE(c, FL2_getCCtxThreadCount(s) == th, "threads", "thread count %u, asked for %u", FL2_getCCtxThreadCount(s), th);
    unsigned how = (unsigned)t.draw(4); size_t dict;
    if (how == 0) { lvl = (int)t.range(0, c.tier ? 8 : 6); if (lvl) { size_t r = FL2_CCtx_setParameter(s, FL2_p_compressionLevel, (size_t)lvl); REQUIRE(c, r == (size_t)lvl, "level", "%s", cname(r)); } int budget = t.chance(1, 3) && lvl ? (int)t.range(lvl, 10) : lvl; est2 = stream ? FL2_estimateCStreamSize(budget, th, dual) : FL2_estimateCCtxSize(budget, th); c.note("level%d(budget of %d) ", lvl, budget); }
    else if (how == 1) { high = t.chance(1, 2); lvl = (int)t.range(1, high ? 4 : 5); if (high) FL2_CCtx_setParameter(s, FL2_p_highCompression, 1); FL2_CCtx_setParameter(s, FL2_p_compressionLevel, (size_t)lvl); FL2_compressionParameters q; size_t r = FL2_getLevelParameters(lvl, high, &q); REQUIRE(c, r == 0, "level", "%s", cname(r)); est2 = stream ? FL2_estimateCStreamSize_byParams(&q, th, dual) : FL2_estimateCCtxSize_byParams(&q, th); c.note("byParams level%d%s ", lvl, high ? "h" : ""); }
    else { PGen g; g.maxDict = 4 << 20; g.omit = true; p = gen_params(t, g); if (p.dictSize < 0) p.dictSize = (long)t.range(1 << 20, 5 << 20); if (t.chance(1, 4)) { p.dictSize = (long)t.range(1, 15) << t.range(20, 25); if (p.dictSize > (1l << 28)) p.dictSize = 1l << 28; p.resize = (long)t.draw(5); huge = true; c.label("large-dictionary"); } apply_params(s, p); c.note("%s ", p.str().c_str()); }
    dict = FL2_CCtx_getParameter(s, FL2_p_dictionarySize);
    est = stream ? FL2_estimateCStreamSize_usingCStream(s) : FL2_estimateCCtxSize_usingCCtx(s); REQUIRE(c, !FL2_isError(est), "estimate", "%s", cname(est));
    if (how >= 2) { // the same values as a parameter set
        FL2_compressionParameters q; memset(&q, 0, sizeof q); q.dictionarySize = dict; q.overlapFraction = (unsigned)FL2_CCtx_getParameter(s, FL2_p_overlapFraction); q.chainLog = (unsigned)FL2_CCtx_getParameter(s, FL2_p_hybridChainLog); q.cyclesLog = 1; q.searchDepth = (unsigned)FL2_CCtx_getParameter(s, FL2_p_searchDepth); q.fastLength = (unsigned)FL2_CCtx_getParameter(s, FL2_p_fastLength); q.divideAndConquer = (unsigned)FL2_CCtx_getParameter(s, FL2_p_divideAndConquer); q.strategy = (FL2_strategy)FL2_CCtx_getParameter(s, FL2_p_strategy);
        size_t e3 = stream ? FL2_estimateCStreamSize_byParams(&q, th, dual) : FL2_estimateCCtxSize_byParams(&q, th); size_t rs = FL2_CCtx_getParameter(s, FL2_p_bufferResize); REQUIRE(c, rs == 2 ? e3 == est : rs < 2 ? e3 >= est : e3 <= est, "agree", "byParams estimate %zu, estimate from the object %zu (bufferResize %zu)", e3, est, rs); }
    c.note("%s%s th%u dict%zu est%zu ", stream ? "stream" : "ctx", dual ? " dual" : "", th, dict, est);
    if (how == 0) { size_t e4 = stream ? FL2_estimateCStreamSize(lvl, th, dual) : FL2_estimateCCtxSize(lvl, th); REQUIRE(c, e4 == est, "agree", "level estimate %zu, estimate from the object %zu", e4, est); REQUIRE(c, est2 >= est, "monotone", "estimate for a higher level %zu is below %zu", est2, est); }
    if (how == 1) REQUIRE(c, est2 == est, "agree", "byParams estimate %zu, estimate from the object %zu", est2, est);
    unsigned nops = (unsigned)t.range(1, 3); size_t peak = 0; bool big = huge;
    for (unsigned i = 0; i < nops; i++) {
        if (i && t.chance(1, 2)) { // other parameters for the same object: it may hold on to what it has, and need the new on top
            unsigned what = (unsigned)t.draw(4); size_t r = 0; if (what < 2) { r = FL2_CCtx_setParameter(s, FL2_p_strategy, 2); REQUIRE(c, !FL2_isError(r), "param", "%s", cname(r)); r = FL2_CCtx_setParameter(s, FL2_p_hybridChainLog, (size_t)t.range(4, 14)); } else if (what == 2) r = FL2_CCtx_setParameter(s, FL2_p_dictionarySize, (size_t)t.range(1 << 20, 3 << 20)); else r = FL2_CCtx_setParameter(s, FL2_p_compressionLevel, (size_t)t.range(1, 5));
            REQUIRE(c, !FL2_isError(r), "param", "%s", cname(r)); size_t e = stream ? FL2_estimateCStreamSize_usingCStream(s) : FL2_estimateCCtxSize_usingCCtx(s); est += e; c.note("change%u:%zu ", what, e); c.label("parameters-changed"); }
        unsigned k = (unsigned)t.draw(12); Bytes in = k < 8 ? gen_data(t, 40000, &d) : k < 11 || big ? gen_data(t, 500000, &d) : gen_data_len(t, (size_t)t.range(1 << 20, 3 << 20), &d); if (k == 11) big = true;
        if (!stream) { Bytes out(FL2_compressBound(in.size())); size_t r = FL2_compressCCtx(s, out.data(), out.size(), in.data(), in.size(), 0); REQUIRE(c, !FL2_isError(r), "compress", "%s", cname(r)); }
        else { bool to = t.chance(1, 5); if (to) FL2_setCStreamTimeout(s, 1); size_t r = FL2_initCStream(s, 0); REQUIRE(c, r == 0, "init", "%s", cname(r)); CSOpts o; o.maxOps = 12; o.bigPieces = in.size() > 300000; CSRun run(c, t, s, in, o, dual || to, th); if (t.chance(3, 4)) run.all(); else { run.op(); FL2_cancelCStream(s); } if (to) { FL2_cancelCStream(s); FL2_setCStreamTimeout(s, 0); } }
        peak = vf.peakBytes; REQUIRE(c, peak <= est + slack(th), "peak", "operation %u: peak %zu bytes, estimate %zu (%zd more)", i, peak, est, (ssize_t)(peak - est));
    }
    if (stream) FL2_freeCStream(s); else FL2_freeCCtx(s);
    REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks (%zu bytes) remain after free", vf.liveCount, vf.liveBytes);
    c.note("peak%zu ", peak); c.label(stream ? "cstream" : "cctx"); if (peak * 10 > est * 6) c.nontrivial(hash_bytes(&peak, sizeof peak, est));
}
static void est_case(Tape& t, Ctx& c) { // agreement of the estimates over all levels, invalid levels
    unsigned th = (unsigned)t.range(1, 30); bool dual = t.chance(1, 2); size_t prev = 0;
    for (int l = 0; l <= 10; l++) { size_t a = FL2_estimateCCtxSize(l, th), b = FL2_estimateCStreamSize(l, th, dual); FL2_compressionParameters q; FL2_getLevelParameters(l ? l : 6, 0, &q); REQUIRE(c, a == FL2_estimateCCtxSize_byParams(&q, th) && b == FL2_estimateCStreamSize_byParams(&q, th, dual), "agree", "level %d: %zu and %zu, by its parameters %zu and %zu", l, a, b, FL2_estimateCCtxSize_byParams(&q, th), FL2_estimateCStreamSize_byParams(&q, th, dual));
        REQUIRE(c, b >= a + (q.dictionarySize << dual), "agree", "level %d: stream estimate %zu, context %zu, dictionary %zu%s", l, b, a, q.dictionarySize, dual ? " twice" : ""); if (l) { REQUIRE(c, a >= prev, "monotone", "level %d needs %zu, the level below %zu", l, a, prev); prev = a; } REQUIRE(c, FL2_estimateCCtxSize(l, th + 1) > a, "threads", "level %d: an additional thread costs nothing", l); }
    int bad = t.chance(1, 2) ? -1 - (int)t.draw(100) : 11 + (int)t.draw(1000); size_t r = FL2_estimateCCtxSize(bad, th), q = FL2_estimateCStreamSize(bad, th, dual); REQUIRE(c, FL2_isError(r) && FL2_isError(q), "bad-level", "level %d: %zu, %zu", bad, r, q);
    c.label("estimates"); c.note("estimates th%u", th);
}
static void dctx_case(Tape& t, Ctx& c) {
    unsigned th = (unsigned)t.range(1, 8); size_t est = FL2_estimateDCtxSize(th); FL2_DCtx* d = FL2_createDCtxMt(th); REQUIRE(c, d, "create", "create"); REQUIRE(c, th == FL2_getDCtxThreadCount(d), "threads", "thread count"); unsigned n = (unsigned)t.range(1, 3); size_t got = 0; c.note("dctx th%u est%zu ", th, est);
    for (unsigned i = 0; i < n; i++) { Mat m = make_valid(t, c, -1, 100000, true); size_t base = vf.liveBytes; (void)base; vf.peakBytes = vf.liveBytes; if (t.chance(1, 3)) mutate(t, m); Bytes out(m.content.size() + 1); size_t r = FL2_decompressDCtx(d, out.data(), m.content.size(), m.b.data(), m.b.size()); if (m.valid) REQUIRE(c, r == m.content.size(), "decompress", "%s", cname(r)); got += m.content.size(); REQUIRE(c, vf.peakBytes <= est + slack(th), "peak", "peak %zu bytes, estimate %zu", vf.peakBytes, est); }
    FL2_freeDCtx(d); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks remain after free", vf.liveCount); c.label("dctx"); if (got > 1000) c.nontrivial(hash_bytes(&got, sizeof got, est));
}
static void dstream_case(Tape& t, Ctx& c, bool tight) {
    unsigned th = tight ? (unsigned)t.range(2, 4) : t.chance(1, 3) ? 1 : (unsigned)t.range(2, 6); FL2_DStream* d = FL2_createDStreamMt(th); REQUIRE(c, d, "create", "create"); unsigned n = (unsigned)t.range(1, 3); size_t got = 0, maxDict = 0; size_t limit = (size_t)1 << 29;
    // one dictionary unit longer than the limit (no reset to decode in parallel from), or streams of many units
    unsigned shape = tight ? 0 : (unsigned)t.draw(3); std::vector<Mat> ms; for (unsigned i = 0; i < n; i++) { if (shape == 0) { Mat m; GenOpts o; o.dictProp = (unsigned)t.range(0, 8); o.target = tight ? (size_t)t.range(8000, t.chance(1, 2) ? 50000 : 300000) : (size_t)t.logsize(300000); if (tight) o.dictProp &= 3; o.resets = tight ? t.chance(1, 6) : t.chance(1, 2); o.smallChunks = t.chance(1, 3); GenStream g = gen_lzma2(t, o); m.valid = true; m.hash = t.chance(1, 2); m.content = g.content; m.b.push_back((uint8_t)(o.dictProp | (m.hash ? 0x80 : 0))); m.b.insert(m.b.end(), g.raw.begin(), g.raw.end()); if (m.hash) add_hash(m.b, m.content); ms.push_back(m); } else ms.push_back(make_valid(t, c, -1, t.chance(1, 3) ? 600000 : 20000, true)); }
    if (th > 1 && (tight || t.chance(5, 6))) { size_t d0 = (size_t)ref_dict_size(ms[0].b[0] & 0x7F); limit = tight || t.chance(1, 2) ? (d0 + d0 / 6) * 2 + (size_t)t.logsize(d0) : (size_t)t.range(1, 200) << t.range(8, 16); FL2_setDStreamMemoryLimitMt(d, limit); } size_t fixed = vf.liveBytes; c.note("dstream th%u limit%zu ", th, limit); vf.fill = (int)t.draw(256);
    for (unsigned i = 0; i < n; i++) { Mat& m = ms[i]; DecCfg cfg = gen_deccfg(t, m.b.size(), m.content.size(), false); size_t dict = (size_t)ref_dict_size(m.b[0] & 0x7F), est = FL2_estimateDStreamSize(dict, 1), estMt = FL2_estimateDStreamSize(dict, th); REQUIRE(c, FL2_getDictSizeFromProp(m.b[0]) == dict, "dict", "getDictSizeFromProp"); REQUIRE(c, estMt >= est, "agree", "estimate for %u threads %zu, for one %zu", th, estMt, est);
        if (dict > maxDict) maxDict = dict; vf.peakBytes = vf.liveBytes; size_t len = t.chance(1, 5) ? m.b.size() / 2 : m.b.size(); DecOut o = run_dstream(c, d, m.b.data(), len, -1, cfg, m.content.size() + 10, true); REQUIRE(c, !o.err || (len < m.b.size() && o.code() == FL2_error_buffer), "decompress", "%s", cname(o.ret)); if (o.ret == 0) REQUIRE(c, o.out == m.content, "content", "content with limit %zu", limit);
        size_t peak = vf.peakBytes, stMax = FL2_estimateDStreamSize(maxDict, 1);
        if (th == 1) REQUIRE(c, peak <= stMax + slack(th), "peak", "peak %zu bytes, estimate %zu (dictionary %zu)", peak, stMax, maxDict);
        else REQUIRE(c, peak <= fixed + stMax + limit + slack(th), "limit", "peak %zu bytes, limit %zu, new object %zu, single-threaded decoder %zu", peak, limit, fixed, stMax);
        got += o.out.size(); c.note("peak%zu ", peak); }
    if (t.chance(1, 3)) FL2_cancelDStream(d); FL2_freeDStream(d); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks remain after free", vf.liveCount); c.label(th > 1 ? "dstream-mt" : "dstream"); if (got > 1000) c.nontrivial(hash_bytes(&got, sizeof got, limit));
}
void run_case(Tape& t, Ctx& c) { vf_reset(); unsigned k = (unsigned)t.draw(20); if (k < 9) comp_case(t, c); else if (k < 10) est_case(t, c); else if (k < 13) dctx_case(t, c); else dstream_case(t, c, k >= 17); }
