// P01: one-shot round trip.
#include "gen.h"
#include "alloc.h"
const char* const prop_id = "P01";
const char* const prop_rule = "content from a segment grammar (random/run/periodic/copy/text/record/pool), parameters, thread counts and entry points drawn per case; non-trivial = content >= 3 bytes that was compressed below its own size with a match or split over blocks/threads";
void prop_init() {}

void run_case(Tape& t, Ctx& c) {
    vf_reset(); vf.fill = (int)t.draw(256);
    unsigned szk = (unsigned)t.draw(100);
    size_t maxLen = szk < 70 ? 70000 : szk < 93 ? 600000 : c.tier ? 6 << 20 : 3 << 20;
    std::string d; bool edge = t.chance(1, c.tier ? 25 : 35);
    Bytes in = edge ? gen_chunk_edge(t, &d) : szk < 70 || szk >= 93 ? (szk >= 93 ? gen_data_len(t, (size_t)t.range(1 << 20, maxLen), &d) : gen_data(t, maxLen, &d)) : gen_data_len(t, (size_t)t.range(100000, maxLen), &d);
    unsigned api = (unsigned)t.draw(4); if (edge) api |= 2; // 0 simple, 1 simpleMt, 2,3 ctx
    unsigned nth = (unsigned)t.range(1, 6), dth = (unsigned)t.range(1, 6);
    Guard src(in), dst(FL2_compressBound(in.size()));
    size_t cs; CParams p;
    bool omit = false; unsigned char prop = 0;
    if (api < 2) {
        int lvl = (int)t.range(1, in.size() > 300000 ? 5 : 8); // large levels only cost memory here
        c.note("api%u lvl%d th%u %s", api, lvl, nth, d.c_str());
        cs = api == 0 ? FL2_compress(dst.p, dst.n, src.p, src.n, lvl) : FL2_compressMt(dst.p, dst.n, src.p, src.n, lvl, nth);
    } else {
        PGen g; g.maxDict = 4 << 20; g.omit = true;
        p = gen_params(t, g); if (edge && p.dictSize >= 0) { p.dictSize = 4 << 20; if (t.chance(5, 6)) nth = 1; if (t.chance(1, 2)) p.strategy = 0; }
        c.note("ctx th%u %s %s", nth, p.str().c_str(), d.c_str());
        FL2_CCtx* cc = FL2_createCCtxMt(nth);
        REQUIRE(c, cc, "create", "createCCtxMt failed");
        int e = apply_params(cc, p); REQUIRE(c, !e, "param", "setParameter #%d rejected: %s", e, p.str().c_str());
        cs = FL2_compressCCtx(cc, dst.p, dst.n, src.p, src.n, 0);
        omit = p.omitProp; prop = FL2_getCCtxDictProp(cc);
        FL2_freeCCtx(cc);
    }
    REQUIRE(c, !FL2_isError(cs), "compress-error", "compress returned %s for %zu bytes", FL2_getErrorName(cs), in.size());
    REQUIRE(c, cs <= dst.n && dst.intact(), "overrun", "result %zu of %zu", cs, dst.n);
    REQUIRE(c, in.empty() || !memcmp(src.p, in.data(), in.size()), "src-modified", "source was modified");
    Guard comp(dst.p, cs), out(in.size());
    size_t ds; unsigned dapi = (unsigned)t.draw(3);
    if (omit) {
        FL2_DCtx* dc = FL2_createDCtxMt(dth);
        size_t r = FL2_initDCtx(dc, prop);
        REQUIRE(c, !FL2_isError(r), "initDCtx", "initDCtx(%u): %s", prop, FL2_getErrorName(r));
        ds = FL2_decompressDCtx(dc, out.p, out.n, comp.p, comp.n);
        FL2_freeDCtx(dc);
    } else if (dapi == 0) ds = FL2_decompress(out.p, out.n, comp.p, comp.n);
    else if (dapi == 1) ds = FL2_decompressMt(out.p, out.n, comp.p, comp.n, dth);
    else { FL2_DCtx* dc = FL2_createDCtxMt(dth); ds = FL2_decompressDCtx(dc, out.p, out.n, comp.p, comp.n); FL2_freeDCtx(dc); }
    REQUIRE(c, !FL2_isError(ds), "decompress-error", "decompress (api %u, %u threads) returned %s", dapi, dth, FL2_getErrorName(ds));
    REQUIRE(c, ds == in.size(), "size", "decompressed %zu instead of %zu", ds, in.size());
    if (ds && memcmp(out.p, in.data(), ds)) { size_t i = 0; while (out.p[i] == in[i]) i++; c.fail("content", "first difference at %zu of %zu", i, ds); }
    REQUIRE(c, out.intact(), "overrun", "output underrun");
    REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks, %zu bytes still allocated", vf.liveCount, vf.liveBytes);
    c.label(in.size() > (1 << 20) ? "size>1M" : in.size() > 300000 ? "size>300K" : in.size() > 5000 ? "size>5K" : in.size() ? "small" : "empty");
    if (omit) c.label("omit-prop"); if (edge) c.label("chunk-edge");
    if (nth > 1 && in.size() > 300000) c.label("multi-slice");
    if (in.size() >= 3 && cs < in.size()) c.nontrivial(hash_bytes(in) ^ mix64(nth * 31 + api) ^ hash_bytes(p.str().data(), p.str().size()));
}
