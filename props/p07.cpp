// P07: every decoder agrees with the format on every valid stream.
#include "dec.h"
const char* const prop_id = "P07";
const char* const prop_rule = "valid LZMA2 streams from an independent format-level generator (any lc/lp/pb, resets, stored chunks, all match kinds, wrap-around); non-trivial = at least 2 chunks and one match or rep";
void prop_init() {}

struct Src { Bytes full; size_t rawEnd; Bytes content; unsigned prop; bool hash; GenStream g; };   // full = prop + raw + hash
static Src gen_src(Tape& t, Ctx& c) {
    Src s; GenOpts o;
    o.dictProp = t.chance(1, 5) ? (unsigned)t.range(8, 24) : (unsigned)t.range(0, 10);
    size_t dict = (size_t)ref_dict_size(o.dictProp);
    unsigned k = (unsigned)t.draw(20);
    size_t mx = k < 12 ? 20000 : k < 18 ? 120000 : c.tier ? 3000000 : 900000;
    o.target = t.logsize(mx); if (t.chance(1, 3)) o.target = (size_t)std::min<uint64_t>(dict * (1 + t.draw(4)) + t.draw(600) , mx);
    o.resets = t.chance(3, 4); o.manyResets = t.chance(1, 3); o.copyThenPlain = t.chance(1, 2); o.smallChunks = t.chance(2, 3);
    s.g = gen_lzma2(t, o); s.content = s.g.content;
    s.hash = t.chance(1, 2);
#ifdef NO_XXHASH
    s.hash = false;
#endif
    s.prop = o.dictProp | (s.hash ? 0x80 : 0);
    s.full.push_back((uint8_t)s.prop); s.full.insert(s.full.end(), s.g.raw.begin(), s.g.raw.end());
    if (s.hash) { uint32_t h = ref_xxh32(s.content.data(), s.content.size()); for (int i = 3; i >= 0; i--) s.full.push_back((uint8_t)(h >> (8 * i))); }
    c.note("dict%u target%zu chunks%zu stored%zu resets%zu wraps%zu limDist%zu%s ", o.dictProp, o.target, s.g.chunks, s.g.stored, s.g.nresets, s.g.wraps, s.g.limitDist, s.hash ? " hash" : "");
    return s;
}
static void cmp(Ctx& c, const char* path, const uint8_t* p, size_t n, const Bytes& want) {
    REQUIRE(c, n == want.size(), "size", "%s: %zu bytes instead of %zu", path, n, want.size());
    if (n && memcmp(p, want.data(), n)) { size_t i = 0; while (p[i] == want[i]) i++; c.fail("content", "%s: first difference at %zu of %zu", path, i, n); }
}
void run_case(Tape& t, Ctx& c) {
    vf_reset(); vf.fill = (int)t.draw(256);
    Src s = gen_src(t, c);
    RefStream rs = ref_decode_stream(s.full.data(), s.full.size());
    REQUIRE(c, rs.ok && rs.r.out == s.content, "ref", "generator/reference mismatch: %s", rs.err.c_str());
    unsigned th = (unsigned)t.range(2, 6);
    Guard in(s.full), out(s.content.size() + (t.chance(1, 2) ? 0 : t.draw(500)));
    // one-shot, single and multi-threaded
    size_t r = FL2_decompress(out.p, out.n, in.p, in.n);
    REQUIRE(c, !FL2_isError(r), "one-shot", "FL2_decompress: %s", ename(r)); cmp(c, "FL2_decompress", out.p, r, s.content);
    memset(out.p, 0x77, out.n);
    r = FL2_decompressMt(out.p, out.n, in.p, in.n, th);
    REQUIRE(c, !FL2_isError(r), "one-shot-mt", "FL2_decompressMt(%u): %s", th, ename(r)); cmp(c, "FL2_decompressMt", out.p, r, s.content);
    // context initialised with the property
    {
        FL2_DCtx* d = t.chance(1, 2) ? FL2_createDCtx() : FL2_createDCtxMt(th);
        memset(out.p, 0x77, out.n);
        r = FL2_initDCtx(d, (unsigned char)s.prop); REQUIRE(c, !FL2_isError(r), "initDCtx", "%s", ename(r));
        r = FL2_decompressDCtx(d, out.p, out.n, in.p + 1, in.n - 1);
        REQUIRE(c, !FL2_isError(r), "dctx-prop", "FL2_decompressDCtx with property: %s", ename(r)); cmp(c, "FL2_decompressDCtx(prop)", out.p, r, s.content);
        r = FL2_decompressDCtx(d, out.p, out.n, in.p, in.n); // and again, property in the stream
        REQUIRE(c, !FL2_isError(r), "dctx", "FL2_decompressDCtx: %s", ename(r)); cmp(c, "FL2_decompressDCtx", out.p, r, s.content);
        FL2_freeDCtx(d);
    }
    // streaming: single-threaded, multi-threaded, multi-threaded with a small limit
    for (int k = 0; k < 3; k++) {
        DecCfg cfg = gen_deccfg(t, s.full.size(), s.content.size());
        cfg.threads = k == 0 ? 1 : th; cfg.memLimit = k == 2 ? (size_t)t.range(1, 200) << t.range(8, 16) : 0; cfg.empties = false;
        FL2_DStream* d = k == 0 ? FL2_createDStream() : FL2_createDStreamMt(th);
        REQUIRE(c, d, "create", "createDStream");
        if (cfg.memLimit) FL2_setDStreamMemoryLimitMt(d, cfg.memLimit);
        size_t off = cfg.withProp ? 1 : 0;
        DecOut o = run_dstream(c, d, s.full.data() + off, s.full.size() - off, cfg.withProp ? (int)s.prop : -1, cfg, s.content.size() + 100);
        REQUIRE(c, !o.err, "stream-error", "stream %d (%s): %s after %zu bytes out, %zu in", k, cfg.str().c_str(), ename(o.ret), o.out.size(), o.consumed);
        REQUIRE(c, o.ret == 0, "stream-unfinished", "stream %d (%s) never finished", k, cfg.str().c_str());
        cmp(c, cfg.str().c_str(), o.out.data(), o.out.size(), s.content);
        FL2_freeDStream(d);
    }
    REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks leaked", vf.liveCount);
    if (s.g.wraps) c.label("dict-wrap"); if (s.g.nresets > 1) c.label("multi-reset"); if (s.g.limitDist) c.label("dist=dict"); if (s.g.plainAfterCopy) c.label("plain-after-stored"); if (s.g.stored) c.label("stored"); if (s.content.empty()) c.label("empty"); if (s.g.propchg) c.label("lclppb-change");
    if (s.g.chunks >= 2 && s.g.maxDist) c.nontrivial(hash_bytes(s.full));
}
