// P08: arbitrary bytes as compressed input.
#include "mutate.h"
const char* const prop_id = "P08";
const char* const prop_rule = "mutated valid streams (bytes, headers, sizes, chunk removal/duplication, truncation) and structured junk through every decoding and inspection entry point, twice with different memory contents; non-trivial = the reference decoder rejects the bytes after producing at least one byte of content, or accepts them";
void prop_init() {}
struct Res { size_t r; Bytes out; bool err; };
static Res one(Ctx& c, int api, unsigned th, const Bytes& b, size_t cap, int fillOut, int prop) {
    Guard in(b.data() + (prop >= 0), b.size() - (prop >= 0)), out(cap); memset(out.p, fillOut, cap); Res x; x.r = 0;
    Bytes copy = in.bytes(in.n);
    if (api == 0) x.r = FL2_decompress(out.p, cap, in.p, in.n);
    else if (api == 1) x.r = FL2_decompressMt(out.p, cap, in.p, in.n, th);
    else { FL2_DCtx* d = FL2_createDCtxMt(th); if (!d) { x.r = (size_t)0 - FL2_error_memory_allocation; } else { size_t q = prop >= 0 ? FL2_initDCtx(d, (unsigned char)prop) : 0; x.r = FL2_isError(q) ? q : FL2_decompressDCtx(d, out.p, cap, in.p, in.n);
        if (FL2_isError(x.r) && !FL2_isError(q)) { static const uint8_t emp[] = { 0, 0 }; uint8_t o1; size_t z = FL2_decompressDCtx(d, &o1, 1, emp, 2); REQUIRE(c, z == 0, "reuse", "context unusable after an error: %s", ename(z)); }
        FL2_freeDCtx(d); } }
    REQUIRE(c, out.intact() && in.intact(), "underrun", "bytes before a buffer written"); REQUIRE(c, in.n == 0 || !memcmp(in.p, copy.data(), in.n), "input-modified", "input modified");
    x.err = FL2_isError(x.r); if (!x.err) { REQUIRE(c, x.r <= cap, "overrun", "returned %zu for capacity %zu", x.r, cap); x.out = out.bytes(x.r); }
    return x;
}
void run_case(Tape& t, Ctx& c) {
    vf_reset(); vf.failLarger = (size_t)96 << 20;
    Mat m; unsigned k = (unsigned)t.draw(10); unsigned muts = 0;
    if (k < 8 && t.chance(1, 7)) { // declares a smaller dictionary than its distances need: stored data, and more of it, between reference and copy
        GenOpts o; o.dictProp = (unsigned)t.range(1, 8); size_t dd = (size_t)ref_dict_size(o.dictProp); o.target = std::min<size_t>(60000, dd / 2 + (size_t)t.draw(dd * 2)); o.resets = t.chance(1, 4); o.copyThenPlain = t.chance(1, 2); o.smallChunks = t.chance(1, 2);
        GenStream g = gen_lzma2(t, o); m.hash = t.chance(1, 3); m.content = g.content; unsigned low = t.chance(1, 6) ? o.dictProp : (unsigned)t.draw(o.dictProp); m.b.push_back((uint8_t)(low | (m.hash ? 0x80 : 0))); m.b.insert(m.b.end(), g.raw.begin(), g.raw.end()); if (m.hash) add_hash(m.b, m.content); m.src = "small-dict"; c.label("small-dict"); }
    else if (k < 8) { m = make_valid(t, c, -1, t.chance(1, 4) ? 60000 : 4000, t.chance(1, 2)); muts = t.chance(1, 12) ? 0 : (unsigned)t.range(1, 3); for (unsigned i = 0; i < muts; i++) mutate(t, m); if (t.chance(1, 3) && m.b.size() && m.hash && muts) { /* fix the hash up so that it does not mask what was decoded */ RefStream r0 = ref_decode_stream(m.b.data(), m.b.size(), 1 << 20); if (!r0.hashOk) { uint32_t h = ref_xxh32(r0.r.out.data(), r0.r.out.size()); for (int i = 0; i < 4; i++) m.b[r0.total - 4 + i] = (uint8_t)(h >> (24 - 8 * i)); } } }
    else if (k == 8) { m.b = junk_stream(t); m.src = "junk"; }
    else { size_t n = (size_t)t.logsize(300); m.b = random_bytes(t.raw(), n); if (n > 1) m.b[0] %= 20; m.src = "random"; }
    const Bytes& b = m.b; const size_t LIM = 4 << 20;
    RefStream rs = ref_decode_stream(b.data(), b.size(), LIM); bool limit = !rs.ok && rs.err.find("output limit") != std::string::npos;
    c.note("%s muts%u len%zu ref:%s out%zu ", m.src.c_str(), muts, b.size(), rs.ok ? "ok" : rs.err.c_str(), rs.r.out.size());
    size_t want = rs.r.out.size(); unsigned th = (unsigned)t.range(2, 4);
    size_t cap; switch (t.draw(4)) { case 0: cap = want + 70000; break; case 1: cap = (size_t)t.range(0, want); break; default: cap = want; }
    static const uint8_t fills[2][2] = { { 0x00, 0xFF }, { 0xD7, 0x21 } };
    // one-shot
    for (int api = 0; api < 4; api++) {
        int prop = api == 3 && !b.empty() ? b[0] : -1; Res x[2];
        for (int f = 0; f < 2; f++) { vf.fill = fills[f][0]; x[f] = one(c, api, th, b, cap, fills[f][1], prop); }
        REQUIRE(c, x[0].r == x[1].r, "undetermined", "api %d: result depends on memory contents: %zd vs %zd", api, (ssize_t)x[0].r, (ssize_t)x[1].r);
        REQUIRE(c, x[0].out == x[1].out, "undetermined", "api %d: output depends on memory contents", api);
        if (!x[0].err) { REQUIRE(c, !limit, "accepted", "api %d accepted a stream larger than the output", api);
            bool okNoHash = rs.r.ok() && (rs.dictProp <= 40);
            REQUIRE(c, rs.ok || (prop >= 0 && okNoHash && !rs.hasHash), "accepted", "api %d accepted an invalid stream (%s)", api, rs.err.c_str()); REQUIRE(c, x[0].out == rs.r.out, "content", "api %d: wrong content", api); }
        else REQUIRE(c, !(rs.ok && cap >= want), "rejected", "api %d rejected a valid stream: %s", api, ename(x[0].r));
        REQUIRE(c, vf.liveCount == 0, "leak", "api %d: %zu blocks leaked", api, vf.liveCount);
    }
    // inspection
    if (!b.empty()) { Guard in(b); unsigned long long q = FL2_findDecompressedSize(in.p, in.n); if (rs.r.ok() && rs.dictProp <= 40) REQUIRE(c, q == want, "find-size", "findDecompressedSize %llu for %zu bytes", q, want); if (rs.r.st == RefResult::TRUNC && rs.dictProp <= 40) REQUIRE(c, q == (unsigned long long)FL2_CONTENTSIZE_ERROR, "find-size", "findDecompressedSize %llu for a truncated stream", q); FL2_getDictSizeFromProp(b[0]); }
    // streaming
    for (int kind = 0; kind < 2; kind++) {
        DecCfg cfg = gen_deccfg(t, b.size(), want, false); cfg.threads = kind ? th : 1; if (kind && t.chance(1, 2)) cfg.memLimit = (size_t)t.range(1, 100) << t.range(6, 14); bool wp = cfg.withProp && !b.empty(); DecOut o[2];
        uint64_t decl = rs.dictProp <= 40 ? ref_dict_size(rs.dictProp) : 0;
        for (int f = 0; f < 2; f++) {
            vf.fill = fills[f][0]; FL2_DStream* d = kind ? FL2_createDStreamMt(th) : FL2_createDStream(); REQUIRE(c, d, "create", "createDStream"); if (cfg.memLimit) FL2_setDStreamMemoryLimitMt(d, cfg.memLimit);
            vf.peakBytes = vf.liveBytes; 
            o[f] = run_dstream(c, d, b.data() + wp, b.size() - wp, wp ? (int)b[0] : -1, cfg, want + 5000 < LIM ? want + 5000 : LIM, false);
            o[f].peak = vf.peakBytes;
            if (o[f].err && !o[f].initErr) { // whatever is called next must be memory-safe
                uint8_t x1[64] = { 1, 0, 0 }, y1[64]; FL2_inBuffer ib = { x1, sizeof x1, 0 }; FL2_outBuffer ob = { y1, sizeof y1, 0 }; for (int q = 0; q < 3; q++) FL2_decompressStream(d, &ob, &ib); REQUIRE(c, ib.pos <= ib.size && ob.pos <= ob.size, "after-error", "positions out of range");
                size_t r = FL2_initDStream(d); REQUIRE(c, r == 0, "reinit", "initDStream after an error: %s", ename(r)); uint8_t em[2] = { 0, 0 }; ib = { em, 2, 0 }; ob = { y1, 64, 0 }; r = FL2_decompressStream(d, &ob, &ib); REQUIRE(c, r == 0 && ob.pos == 0 && ib.pos == 2, "reuse", "stream object unusable after an error: %s", ename(r)); }
            FL2_freeDStream(d);
            REQUIRE(c, vf.liveCount == 0, "leak", "stream: %zu blocks leaked", vf.liveCount);
        }
        REQUIRE(c, o[0].err == o[1].err && o[0].ret == o[1].ret, "undetermined", "stream %s: %s vs %s", cfg.str().c_str(), ename(o[0].ret), ename(o[1].ret)); REQUIRE(c, o[0].out == o[1].out && o[0].consumed == o[1].consumed, "undetermined", "stream %s: output or consumption depends on memory contents", cfg.str().c_str());
        DecOut& q = o[0];
        if (kind == 0) REQUIRE(c, q.peak <= decl + (1 << 20), "memory", "single-threaded stream used %zu bytes for a %llu byte dictionary", q.peak, (unsigned long long)decl);
        if (!q.err && q.ret == 0) { REQUIRE(c, rs.ok || (wp && rs.r.ok() && !rs.hasHash), "accepted", "stream %s accepted an invalid stream (%s)", cfg.str().c_str(), rs.err.c_str()); REQUIRE(c, q.out == rs.r.out, "content", "stream %s: wrong content", cfg.str().c_str()); }
        else if (rs.ok && decl < vf.failLarger) c.fail("rejected", "stream %s did not accept a valid stream: %s (out %zu of %zu)", cfg.str().c_str(), ename(q.ret), q.out.size(), want);
        if (rs.r.st == RefResult::TRUNC) { size_t n = std::min(q.out.size(), want); REQUIRE(c, n == 0 || !memcmp(q.out.data(), rs.r.out.data(), n), "prefix", "stream %s: output is not a prefix of the content", cfg.str().c_str()); }
    }
    if (rs.ok) c.label("valid"); else if (rs.trunc) c.label("truncated"); else c.label("invalid"); if (!rs.hashOk) c.label("bad-hash");
    if (rs.ok || want) c.nontrivial(hash_bytes(b));
}
