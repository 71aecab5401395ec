// Produces a compressed stream with randomly chosen entry point and parameters.
#pragma once
#include "cstream.h"
struct Made { Bytes in, out; CParams p; bool omit = false, streaming = false; unsigned prop = 0; size_t dict = 0; unsigned interval = 0; unsigned overlap = 0; unsigned threads = 1; std::string desc; };
struct MakeOpts { int api = -1; /* 0 one-shot ctx, 1 simple calls, 2 streaming */ bool omit = true; long maxDict = 2 << 20; size_t small = 40000, mid = 400000, large = 3 << 20; unsigned pctSmall = 70, pctMid = 22; unsigned maxThreads = 5; bool structs = false; /* may use dictionaries which need the other match table */ bool ops = true; bool cheap = false; };
static inline Made make_stream(Tape& t, Ctx& c, const MakeOpts& m) {
    Made k; std::string d; unsigned szk = (unsigned)t.draw(100);
    bool edge = m.large > (2 << 20) && t.chance(1, 60);
    if (edge) k.in = gen_chunk_edge(t, &d); else if (szk < m.pctSmall) k.in = gen_data(t, m.small, &d); else if (szk < m.pctSmall + m.pctMid) k.in = gen_data(t, m.mid, &d); else k.in = gen_data_len(t, (size_t)t.range(m.large / 4, m.large), &d);
    int api = m.api >= 0 ? m.api : (int)t.draw(3); k.threads = (unsigned)t.range(1, m.maxThreads);
    if (api == 1) {
        int lvl = (int)t.range(1, 4); k.p.level = lvl; k.p.xxh = 1; k.out.resize(FL2_compressBound(k.in.size()));
        size_t r = k.threads == 1 ? FL2_compress(k.out.data(), k.out.size(), k.in.data(), k.in.size(), lvl) : FL2_compressMt(k.out.data(), k.out.size(), k.in.data(), k.in.size(), lvl, k.threads);
        REQUIRE(c, !FL2_isError(r), "compress-error", "compress level %d: %s", lvl, cname(r)); REQUIRE(c, r <= k.out.size(), "overrun", "size"); k.out.resize(r);
        FL2_compressionParameters cp; FL2_getLevelParameters(lvl, 0, &cp); k.dict = cp.dictionarySize; k.interval = 4; k.overlap = cp.overlapFraction; 
        char b[100]; snprintf(b, sizeof b, "simple lvl%d th%u ", lvl, k.threads); k.desc = b + d; return k;
    }
    PGen g; g.maxDict = m.maxDict; g.omit = m.omit; g.large = m.structs && api == 2; k.p = gen_params(t, g); if (k.p.dictSize < 0) k.p.dictSize = 1 << 20;
    if (edge) k.p.dictSize = 4 << 20;
    if (m.cheap) { k.p.strategy = 0; if (k.p.depth > 20) k.p.depth = 12; }
    bool dual = api == 2 && t.chance(1, 3);
    FL2_CStream* s = api == 2 ? FL2_createCStreamMt(k.threads, dual) : FL2_createCCtxMt(k.threads); REQUIRE(c, s, "create", "create failed");
    int e = apply_params(s, k.p); REQUIRE(c, !e, "param", "setParameter #%d rejected: %s", e, k.p.str().c_str());
    k.dict = FL2_CCtx_getParameter(s, FL2_p_dictionarySize); k.interval = (unsigned)FL2_CCtx_getParameter(s, FL2_p_resetInterval); k.overlap = (unsigned)FL2_CCtx_getParameter(s, FL2_p_overlapFraction); k.omit = k.p.omitProp;
    if (api == 2) {
        k.streaming = true; size_t r = FL2_initCStream(s, 0); REQUIRE(c, r == 0, "init", "initCStream: %s", cname(r));
        CSOpts o; bool big = k.in.size() > 800000; o.bigPieces = big; o.maxOps = m.ops ? (big ? 16 : 40) : 0; CSRun run(c, t, s, k.in, o, dual, k.threads); run.all(); k.out.swap(run.out); k.prop = FL2_getCCtxDictProp(s);
    } else {
        k.out.resize(FL2_compressBound(k.in.size())); size_t r = FL2_compressCCtx(s, k.out.data(), k.out.size(), k.in.data(), k.in.size(), 0); REQUIRE(c, !FL2_isError(r), "compress-error", "compressCCtx: %s", cname(r)); REQUIRE(c, r <= k.out.size(), "overrun", "size"); k.out.resize(r); k.prop = FL2_getCCtxDictProp(s);
    }
    FL2_freeCCtx(s);
    char b[100]; snprintf(b, sizeof b, "%s%s th%u ", api == 2 ? "stream" : "ctx", dual ? " dual" : "", k.threads); k.desc = b + k.p.str() + " " + d; return k;
}
