// P06: streaming decompression does not depend on the division of input and output.
#include "dec.h"
const char* const prop_id = "P06";
const char* const prop_rule = "valid streams (format-level generator and this library's encoder) x random divisions of input/output with empty pieces, garbage before the buffer positions and trailing bytes, threads and memory limits; non-trivial = at least 4 calls were needed and the content is not empty";
void prop_init() {}
static Bytes make_stream(Tape& t, Ctx& c, Bytes& content, bool tight) {
    Bytes full;
    if (tight) { // a dictionary unit whose compressed size exceeds the memory limit
        GenOpts o; o.dictProp = (unsigned)t.draw(4); o.target = (size_t)t.range(8000, 60000); o.resets = t.chance(1, 4); o.smallChunks = t.chance(1, 2); GenStream g = gen_lzma2(t, o); bool hash = t.chance(1, 2); content = g.content;
        full.push_back((uint8_t)(o.dictProp | (hash ? 0x80 : 0))); full.insert(full.end(), g.raw.begin(), g.raw.end());
        if (hash) { uint32_t h = ref_xxh32(content.data(), content.size()); for (int i = 3; i >= 0; i--) full.push_back((uint8_t)(h >> (8 * i))); }
        c.note("gen dict%u target%zu chunks%zu hash%d ", o.dictProp, o.target, g.chunks, hash); c.label("tight-limit");
    } else if (t.chance(2, 3)) {
        GenOpts o; o.dictProp = t.chance(1, 5) ? (unsigned)t.range(8, 22) : (unsigned)t.range(0, 10);
        unsigned k = (unsigned)t.draw(20);
        o.target = t.logsize(k < 12 ? 5000 : k < 18 ? 60000 : c.tier ? 2000000 : 400000);
        o.resets = t.chance(4, 5); o.manyResets = t.chance(1, 3); o.copyThenPlain = true; o.smallChunks = t.chance(2, 3);
        GenStream g = gen_lzma2(t, o); bool hash = t.chance(1, 2); content = g.content;
        full.push_back((uint8_t)(o.dictProp | (hash ? 0x80 : 0))); full.insert(full.end(), g.raw.begin(), g.raw.end());
        if (hash) { uint32_t h = ref_xxh32(content.data(), content.size()); for (int i = 3; i >= 0; i--) full.push_back((uint8_t)(h >> (8 * i))); }
        c.note("gen dict%u target%zu chunks%zu resets%zu hash%d ", o.dictProp, o.target, g.chunks, g.nresets, hash);
        if (g.nresets > 1) c.label("multi-reset"); if (g.wraps) c.label("wrap");
    } else {
        std::string d; unsigned k = (unsigned)t.draw(20);
        content = k < 14 ? gen_data(t, 60000, &d) : gen_data_len(t, (size_t)t.range(1, k < 18 ? 400000 : 3000000), &d);
        FL2_CCtx* cc = FL2_createCCtxMt((unsigned)t.range(1, 4)); CParams p = gen_params(t); apply_params(cc, p);
        full.resize(FL2_compressBound(content.size()));
        size_t r = FL2_compressCCtx(cc, full.data(), full.size(), content.data(), content.size(), 0);
        REQUIRE(c, !FL2_isError(r), "compress", "%s", ename(r)); full.resize(r); FL2_freeCCtx(cc);
        c.note("enc %s %s", p.str().c_str(), d.c_str()); c.label("encoder-stream");
    }
    return full;
}
void run_case(Tape& t, Ctx& c) {
    vf_reset(); vf.fill = (int)t.draw(256);
    bool tight = t.chance(1, 10); Bytes content, full = make_stream(t, c, content, tight);
    size_t trail = t.chance(1, 2) ? t.logsize(200) : 0; Bytes data = full; Bytes tb = random_bytes(t.draw(1000), trail);
    if (t.chance(1, 4) && trail) tb[0] = 0;
    data.insert(data.end(), tb.begin(), tb.end());
    DecCfg cfg = gen_deccfg(t, full.size(), content.size());
    if (tight) { size_t d0 = (size_t)ref_dict_size(full[0] & 0x7F); cfg.threads = (unsigned)t.range(2, 4); cfg.memLimit = (d0 + d0 / 6) * 2 + (size_t)t.logsize(d0); }
    c.note("| %s trail%zu", cfg.str().c_str(), trail);
    FL2_DStream* d = cfg.threads == 1 ? FL2_createDStream() : FL2_createDStreamMt(cfg.threads);
    REQUIRE(c, d, "create", "createDStream");
    if (cfg.memLimit) FL2_setDStreamMemoryLimitMt(d, cfg.memLimit);
    unsigned reps = (unsigned)t.range(1, 2); size_t calls = 0;
    for (unsigned k = 0; k < reps; k++) {
        size_t off = cfg.withProp ? 1 : 0;
        DecOut o = run_dstream(c, d, data.data() + off, data.size() - off, cfg.withProp ? (int)data[0] : -1, cfg, content.size() + 64);
        calls += o.calls;
        REQUIRE(c, !o.err, "stream-error", "run %u: %s after %zu bytes out, %zu in", k, ename(o.ret), o.out.size(), o.consumed);
        REQUIRE(c, o.ret == 0, "unfinished", "run %u: all input consumed (%zu), %zu of %zu bytes out, still returns 1", k, o.consumed, o.out.size(), content.size());
        REQUIRE(c, o.out.size() == content.size(), "size", "run %u: returned 0 with %zu of %zu bytes", k, o.out.size(), content.size());
        if (!content.empty() && memcmp(o.out.data(), content.data(), content.size())) { size_t i = 0; while (o.out[i] == content[i]) i++; c.fail("content", "run %u: first difference at %zu of %zu", k, i, content.size()); }
        REQUIRE(c, o.consumed == full.size() - off, "consumed", "run %u: consumed %zu bytes, stream has %zu", k, o.consumed, full.size() - off);
        // after the end nothing more is consumed or produced
        uint8_t ob[16]; FL2_outBuffer out = { ob, 16, 0 }; FL2_inBuffer in = { tb.data(), tb.size(), 0 };
        size_t r = FL2_decompressStream(d, &out, &in);
        REQUIRE(c, FL2_isError(r) || r == 0, "after-end", "returned %zu after the end", r);
        REQUIRE(c, in.pos == 0 && out.pos == 0, "after-end-moved", "consumed %zu / produced %zu after the end", in.pos, out.pos);
        cfg.seed = mix64(cfg.seed);
        REQUIRE(c, FL2_getDStreamProgress(d) == content.size(), "progress", "progress %llu at the end, content %zu", FL2_getDStreamProgress(d), content.size());
    }
    FL2_freeDStream(d);
    REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks leaked", vf.liveCount);
    if (cfg.threads > 1) c.label("mt"); if (cfg.memLimit) c.label("mt-limit"); if (cfg.inMax < 30) c.label("tiny-input"); if (cfg.outMax < 30) c.label("tiny-output"); if (trail) c.label("trailing");
    if (calls >= 4 && !content.empty()) c.nontrivial(hash_bytes(full) ^ mix64(hash_bytes(&cfg.seed, 8)));
}
