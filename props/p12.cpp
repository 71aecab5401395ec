// P12: an object with a history against a new one.
#include "mkstream.h"
#include "mutate.h"
const char* const prop_id = "P12";
const char* const prop_rule = "histories of successful, failed, abandoned and cancelled operations with changing parameters, then one operation compared with the same operation on a new object; non-trivial = the history holds at least two operations of which one failed or was abandoned, and the last operation succeeds on more than 100 bytes";
void prop_init() {}
static const FL2_cParameter ps[] = { FL2_p_compressionLevel, FL2_p_highCompression, FL2_p_dictionarySize, FL2_p_overlapFraction, FL2_p_resetInterval, FL2_p_bufferResize, FL2_p_hybridChainLog, FL2_p_hybridCycles, FL2_p_searchDepth, FL2_p_fastLength, FL2_p_divideAndConquer, FL2_p_strategy, FL2_p_omitProperties,
#ifndef NO_XXHASH
    FL2_p_doXXHash,
#endif
    FL2_p_literalCtxBits, FL2_p_literalPosBits, FL2_p_posBits };
static void copy_params(Ctx& c, FL2_CCtx* from, FL2_CCtx* to) {
    // high compression first: it applies a level
    size_t r = FL2_CCtx_setParameter(to, FL2_p_highCompression, FL2_CCtx_getParameter(from, FL2_p_highCompression)); REQUIRE(c, !FL2_isError(r), "copy", "highCompression: %s", cname(r));
    r = FL2_CCtx_setParameter(to, FL2_p_compressionLevel, FL2_CCtx_getParameter(from, FL2_p_compressionLevel)); REQUIRE(c, !FL2_isError(r), "copy", "level: %s", cname(r));
    FL2_CCtx_setParameter(to, FL2_p_literalCtxBits, 0); FL2_CCtx_setParameter(to, FL2_p_literalPosBits, 0);
    for (FL2_cParameter p : ps) { if (p == FL2_p_highCompression || p == FL2_p_compressionLevel) continue; size_t v = FL2_CCtx_getParameter(from, p); r = FL2_CCtx_setParameter(to, p, v); REQUIRE(c, r == v || p == FL2_p_literalCtxBits || p == FL2_p_literalPosBits, "copy", "parameter %d value %zu: %s", (int)p, v, cname(r)); }
    for (FL2_cParameter p : ps) REQUIRE(c, FL2_CCtx_getParameter(from, p) == FL2_CCtx_getParameter(to, p), "copy", "parameter %d differs", (int)p);
}
static Bytes content(Tape& t, std::string* d) { unsigned k = (unsigned)t.draw(20); return k < 12 ? gen_data(t, 30000, d) : k < 18 ? gen_data(t, 400000, d) : gen_data_len(t, (size_t)t.range(600000, 2600000), d); }
static void cparams(Tape& t, FL2_CCtx* s) { PGen g; g.maxDict = 2 << 20; g.omit = t.chance(1, 3); CParams p = gen_params(t, g); if (p.dictSize < 0) p.dictSize = 1 << 20; if (t.chance(1, 3)) p.dictSize = (long)t.range(1 << 20, 2 << 20); else if (t.chance(1, 6)) p.dictSize = (1l << 26) + 1; if (t.chance(1, 2)) { p.strategy = 2; p.chain = (long)t.range(4, 14); } apply_params(s, p); }
struct Fin { size_t r = 0; Bytes out; unsigned prop = 0; unsigned long long pin = 0, pout = 0; bool timing = false; /* flushed at a moment that depends on timing */ };
static Fin oneshot(Tape& t, FL2_CCtx* s, const Bytes& in) {
    Fin f; size_t bound = FL2_compressBound(in.size()); unsigned k = (unsigned)t.draw(6); size_t cap = k < 4 ? bound : k == 4 ? (size_t)t.logsize(bound) : in.size(); int lvl = t.chance(1, 6) ? (int)t.range(1, 3) : t.chance(1, 12) ? 11 : 0; Guard o(cap); f.r = FL2_compressCCtx(s, o.p, cap, in.data(), in.size(), lvl); if (!FL2_isError(f.r)) { f.out = o.bytes(f.r); f.prop = FL2_getCCtxDictProp(s); } return f;
}
static void comp_case(Tape& t, Ctx& c) {
    bool stream = t.chance(2, 3), dual = stream && t.chance(1, 4); unsigned th = (unsigned)t.range(1, 4);
    FL2_CStream* s = stream ? FL2_createCStreamMt(th, dual) : FL2_createCCtxMt(th); REQUIRE(c, s, "create", "create");
    cparams(t, s); unsigned nh = (unsigned)t.range(1, 5), bad = 0, ops = 0; bool oneDone = false, timed = false; std::string d; c.note("%s%s th%u: ", stream ? "stream" : "ctx", dual ? " dual" : "", th);
    for (unsigned i = 0; i < nh; i++) {
        if (t.chance(1, 2)) { if (t.chance(1, 3)) cparams(t, s); else { // one parameter
                FL2_cParameter p = ps[t.draw(sizeof ps / sizeof *ps)]; if (p == FL2_p_dictionarySize) FL2_CCtx_setParameter(s, p, (size_t)t.range(1 << 20, 3 << 20)); else if (p != FL2_p_compressionLevel && p != FL2_p_highCompression) FL2_CCtx_setParameter(s, p, (size_t)t.logsize(20)); } }
        ops++; vf.fill = (int)t.draw(256); Bytes in = content(t, &d);
        if (!stream || t.chance(1, 4)) { Fin f = oneshot(t, s, in); oneDone = true; if (FL2_isError(f.r)) { bad++; c.note("[one-shot %zu: %s] ", in.size(), cname(f.r)); } else c.note("[one-shot %zu] ", in.size()); if (FL2_CCtx_getParameter(s, FL2_p_dictionarySize) > 4u << 20) FL2_CCtx_setParameter(s, FL2_p_dictionarySize, 1 << 20); continue; }
        if (t.chance(1, 6)) { size_t r = FL2_setCStreamTimeout(s, (unsigned)t.draw(2)); REQUIRE(c, r == 0, "timeout", "%s", cname(r)); timed = true; }
        size_t r = FL2_initCStream(s, t.chance(1, 8) ? (t.chance(1, 3) ? 50 : (int)t.range(1, 2)) : 0); if (FL2_isError(r)) { bad++; c.note("[init: %s] ", cname(r)); continue; }
        unsigned how = (unsigned)t.draw(6); CSOpts o; o.maxOps = 10; o.bigPieces = in.size() > 500000; CSRun run(c, t, s, in, o, dual || timed, th);
        if (how < 2) { run.all(); c.note("[stream %zu done] ", in.size()); }
        else { bad++; unsigned k = (unsigned)t.range(0, 8); for (unsigned j = 0; j < k; j++) run.op();
            if (how == 2) c.note("[stream %zu of %zu abandoned] ", run.fed, in.size());
            else if (how == 3) { FL2_cancelCStream(s); c.note("[stream %zu of %zu cancelled] ", run.fed, in.size()); }
            else if (how == 4) { FL2_outBuffer ob = { NULL, 0, 0 }; uint8_t z; ob.dst = &z; FL2_inBuffer ib = { &z, 0, 0 }; unsigned g = 0; do { r = FL2_compressStream(s, &ob, &ib); } while (!FL2_isError(r) && ++g < 40); c.note("[stream %zu idle: %s] ", run.fed, cname(r)); }
            else { uint8_t z[8]; FL2_outBuffer ob = { z, t.draw(9), 0 }; r = FL2_endStream(s, &ob); c.note("[stream %zu end begun: %s] ", run.fed, cname(r)); } }
        if (t.chance(1, 3)) FL2_cancelCStream(s);
    }
    if (timed) { if (stream) FL2_cancelCStream(s); FL2_setCStreamTimeout(s, 0); }
    vf.fill = (int)t.draw(256);
    // A one-shot call makes a dual-buffer stream lose its second thread; give both objects the same standing.
    bool last1 = !stream || t.chance(1, 4); Bytes in = content(t, &d);
    if (stream && !last1) FL2_cancelCStream(s);
    if (t.chance(1, 2) && (!last1 || !stream)) cparams(t, s);
    if (last1 && stream) FL2_cancelCStream(s);
    FL2_CStream* f = stream ? FL2_createCStreamMt(th, dual) : FL2_createCCtxMt(th); REQUIRE(c, f, "create", "create"); copy_params(c, s, f);
    if (oneDone && dual) c.label("dual-after-oneshot");
    size_t n0 = t.n; Fin a, b;
    auto last = [&](Tape& q, FL2_CStream* x) { Fin z; if (last1) return oneshot(q, x, in);
        int lvl = q.chance(1, 8) ? (int)q.range(1, 3) : 0; size_t r = FL2_initCStream(x, lvl); REQUIRE(c, r == 0, "init", "%s: initCStream: %s", x == s ? "reused" : "new", cname(r)); CSOpts o; o.maxOps = 20; o.bigPieces = in.size() > 500000; if (dual) o.flush = o.paramChange = false; /* what a call consumes depends on timing, so would the block boundaries */ CSRun run(c, q, x, in, o, dual, th); run.all(); z.timing = dual && run.anyFlush; z.out.swap(run.out); z.prop = FL2_getCCtxDictProp(x); z.pin = FL2_getCStreamProgress(x, &z.pout); return z; };
    a = last(t, s); size_t n1 = t.n;
    std::vector<uint64_t> part; bool full = n1 <= t.cap; if (full) part.assign(t.rec + n0, t.rec + n1);
    if (full) { Tape q; q.replay = true; q.src = part.data(); q.srcLen = part.size(); b = last(q, f);
        REQUIRE(c, a.r == b.r || (FL2_isError(a.r) && FL2_isError(b.r) && FL2_getErrorCode(a.r) == FL2_getErrorCode(b.r)), "result", "reused object: %s (%zu), new object: %s (%zu)", cname(a.r), a.r, cname(b.r), b.r);
        size_t i = 0; while (i < a.out.size() && i < b.out.size() && a.out[i] == b.out[i]) i++;
        if (a.timing || b.timing) { c.label("timing"); b = a; }
        REQUIRE(c, a.out == b.out, "output", "reused object: %zu bytes, new object: %zu bytes, first difference at %zu", a.out.size(), b.out.size(), i);
        REQUIRE(c, a.prop == b.prop && a.pin == b.pin && a.pout == b.pout, "report", "dictionary property %u/%u, progress %llu/%llu %llu/%llu", a.prop, b.prop, a.pin, b.pin, a.pout, b.pout); }
    for (FL2_cParameter p : ps) REQUIRE(c, FL2_CCtx_getParameter(s, p) == FL2_CCtx_getParameter(f, p), "after", "parameter %d differs after the operation", (int)p);
    FL2_freeCStream(s); FL2_freeCStream(f); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks", vf.liveCount);
    c.note("| last %s %zu -> %zu %s", last1 ? "one-shot" : "stream", in.size(), a.out.size(), d.c_str()); c.label(last1 ? "one-shot" : "stream"); if (FL2_isError(a.r)) c.label("last-failed");
    if (ops >= 2 && bad && !FL2_isError(a.r) && in.size() > 100) c.nontrivial(hash_bytes(a.out));
}
struct DMat { Bytes b, content; bool valid; int prop; };
static DMat dmat(Tape& t, Ctx& c) { Mat m = make_valid(t, c, -1, t.chance(1, 5) ? 200000 : 8000, t.chance(1, 2)); DMat d; d.valid = true; if (t.chance(1, 3)) { unsigned n = (unsigned)t.range(1, 2); for (unsigned i = 0; i < n; i++) mutate(t, m); d.valid = false; } d.prop = -1; if (t.chance(1, 5) && !m.b.empty()) { d.prop = m.b[0]; m.b.erase(m.b.begin()); } d.b = m.b; d.content = m.content; return d; }
static void dctx_case(Tape& t, Ctx& c) {
    unsigned th = (unsigned)t.range(1, 4); FL2_DCtx* s = th == 1 ? FL2_createDCtx() : FL2_createDCtxMt(th); REQUIRE(c, s, "create", "create"); unsigned nh = (unsigned)t.range(1, 5), bad = 0; c.note("dctx th%u: ", th);
    auto run = [&](FL2_DCtx* x, const DMat& m, size_t cap, Bytes& out) { if (m.prop >= 0) { size_t q = FL2_initDCtx(x, (unsigned char)m.prop); if (FL2_isError(q)) return q; } Guard in(m.b), o(cap); memset(o.p, 0x11, cap); size_t r = FL2_decompressDCtx(x, o.p, cap, in.p, in.n); REQUIRE(c, o.intact(), "underrun", "written before the buffer"); if (!FL2_isError(r)) out = o.bytes(r); return r; };
    auto cap = [&](const DMat& m) { unsigned k = (unsigned)t.draw(5); return k < 3 ? m.content.size() : k == 3 ? (size_t)t.logsize(m.content.size() + 100) : m.content.size() + (size_t)t.draw(70000); };
    for (unsigned i = 0; i < nh; i++) { vf.fill = (int)t.draw(256); DMat m = dmat(t, c); Bytes o; size_t r = run(s, m, cap(m), o); if (FL2_isError(r)) bad++; c.note("[%zu%s: %s] ", m.b.size(), m.prop >= 0 ? " prop" : "", cname(r)); if (t.chance(1, 6)) { FL2_initDCtx(s, (unsigned char)t.draw(256)); Guard e((size_t)0); uint8_t z; FL2_decompressDCtx(s, &z, 1, e.p, 0); bad++; } }
    vf.fill = (int)t.draw(256); DMat m = dmat(t, c); size_t k = cap(m); FL2_DCtx* f = th == 1 ? FL2_createDCtx() : FL2_createDCtxMt(th); Bytes oa, ob; size_t ra = run(s, m, k, oa), rb = run(f, m, k, ob);
    REQUIRE(c, ra == rb, "result", "reused context: %s (%zu), new context: %s (%zu)", cname(ra), ra, cname(rb), rb); REQUIRE(c, oa == ob, "output", "content differs"); if (m.valid && k >= m.content.size()) REQUIRE(c, oa == m.content, "content", "valid stream: %s", cname(ra));
    FL2_freeDCtx(s); FL2_freeDCtx(f); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks", vf.liveCount); c.note("| last %zu %s", m.b.size(), cname(ra)); c.label("dctx"); if (nh >= 2 && bad && !FL2_isError(ra) && oa.size() > 100) c.nontrivial(hash_bytes(m.b));
}
static void dstream_case(Tape& t, Ctx& c) {
    unsigned th = (unsigned)t.range(1, 4); FL2_DStream* s = th == 1 ? FL2_createDStream() : FL2_createDStreamMt(th); REQUIRE(c, s, "create", "create"); unsigned nh = (unsigned)t.range(1, 5), bad = 0; c.note("dstream th%u: ", th); size_t lim = 0; unsigned to = 0;
    for (unsigned i = 0; i < nh; i++) {
        vf.fill = (int)t.draw(256); DMat m = dmat(t, c); DecCfg cfg = gen_deccfg(t, m.b.size(), m.content.size(), false);
        if (t.chance(1, 4)) { lim = (size_t)t.range(1, 100) << t.range(8, 16); FL2_setDStreamMemoryLimitMt(s, lim); }
        if (t.chance(1, 4)) { to = (unsigned)t.draw(2); size_t r = FL2_setDStreamTimeout(s, to); REQUIRE(c, r == 0, "timeout", "%s", cname(r)); }
        size_t n = t.chance(1, 2) ? m.b.size() : (size_t)t.draw(m.b.size() + 1), mo = t.chance(1, 3) ? (size_t)t.draw(m.content.size() + 1) : m.content.size() + 1000; DecOut o = run_dstream(c, s, m.b.data(), n, m.prop, cfg, mo, false); if (o.err || o.ret) bad++;
        c.note("[%zu of %zu: %s out %zu]", n, m.b.size(), o.err ? cname(o.ret) : o.ret ? "unfinished" : "done", o.out.size());
        if (t.chance(1, 4)) { FL2_cancelDStream(s); c.note("cancelled "); }
    }
    vf.fill = (int)t.draw(256); DMat m = dmat(t, c); DecCfg cfg = gen_deccfg(t, m.b.size(), m.content.size(), false); FL2_DStream* f = th == 1 ? FL2_createDStream() : FL2_createDStreamMt(th); if (lim) FL2_setDStreamMemoryLimitMt(f, lim);
    if (to) { FL2_cancelDStream(s); FL2_setDStreamTimeout(s, 0); }
    size_t mo = m.content.size() + 1000; DecOut a = run_dstream(c, s, m.b.data(), m.b.size(), m.prop, cfg, mo, m.valid); unsigned long long pa = FL2_getDStreamProgress(s); DecOut b = run_dstream(c, f, m.b.data(), m.b.size(), m.prop, cfg, mo, m.valid); unsigned long long pb = FL2_getDStreamProgress(f);
    REQUIRE(c, a.err == b.err && a.ret == b.ret, "result", "reused stream: %s (%zu), new stream: %s (%zu)", cname(a.ret), a.ret, cname(b.ret), b.ret); REQUIRE(c, a.out == b.out, "output", "content differs: %zu and %zu bytes", a.out.size(), b.out.size()); REQUIRE(c, a.consumed == b.consumed && a.calls == b.calls, "consumed", "consumed %zu and %zu in %zu and %zu calls", a.consumed, b.consumed, a.calls, b.calls);
    if (!a.err) REQUIRE(c, pa == pb, "progress", "progress %llu and %llu", pa, pb); if (m.valid) REQUIRE(c, a.out == m.content && !a.err && a.ret == 0, "content", "valid stream: %s", cname(a.ret));
    FL2_freeDStream(s); FL2_freeDStream(f); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks", vf.liveCount); c.note("| last %zu %s %s", m.b.size(), cname(a.ret), cfg.str().c_str()); c.label("dstream"); if (nh >= 2 && bad && !a.err && a.out.size() > 100) c.nontrivial(hash_bytes(m.b));
}
void run_case(Tape& t, Ctx& c) {
    vf_reset(); vf.failLarger = (size_t)700 << 20;
    unsigned k = (unsigned)t.draw(10); if (k < 5) comp_case(t, c); else if (k < 7) dctx_case(t, c); else dstream_case(t, c);
}
