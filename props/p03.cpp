// P03: output capacity.
#include "mkstream.h"
#include "dec.h"
const char* const prop_id = "P03";
const char* const prop_rule = "random content (biased to incompressible and boundary sizes) x parameters x capacities around the stream size and the bound, guard pages at both ends; non-trivial = at least one insufficient and one exactly sufficient capacity tried on non-empty content; one case in three: streams of the format-level generator (many dictionary resets) decompressed by every one-shot decoder into capacities around the content size";
void prop_init() {}
// decompression of streams from the format-level generator (many dictionary resets: the multi-threaded one-shot path works on separate parts of dst)
static void dec_case(Tape& t, Ctx& c) {
    GenOpts o; o.dictProp = (unsigned)t.range(0, 6); unsigned k = (unsigned)t.draw(8);
    o.target = t.logsize(k < 5 ? 20000 : k < 7 ? 150000 : 600000); o.resets = true; o.manyResets = t.chance(2, 3); o.copyThenPlain = t.chance(1, 2); o.smallChunks = t.chance(2, 3);
    GenStream g = gen_lzma2(t, o); const Bytes& want = g.content; bool hash = t.chance(1, 2); unsigned prop = o.dictProp | (hash ? 0x80 : 0), th = (unsigned)t.range(2, 6);
    Bytes full(1, (uint8_t)prop); full.insert(full.end(), g.raw.begin(), g.raw.end()); if (hash) { uint32_t h = ref_xxh32(want.data(), want.size()); for (int i = 3; i >= 0; i--) full.push_back((uint8_t)(h >> (8 * i))); }
    c.note("generated stream: dict%u content%zu chunks%zu stored%zu resets%zu%s th%u ", o.dictProp, want.size(), g.chunks, g.stored, g.nresets, hash ? " hash" : "", th);
    Guard src(full); size_t n = want.size(); bool small = false, exact = false; FL2_DCtx* dc[2] = { FL2_createDCtx(), FL2_createDCtxMt(th) }; REQUIRE(c, dc[0] && dc[1], "create", "createDCtx");
    unsigned tries = (unsigned)t.range(6, 10);
    for (unsigned i = 0; i < tries; i++) {
        size_t cap; switch (i < 2 ? i : t.draw(7)) { case 0: cap = n; break; case 1: cap = n ? n - 1 : 0; break; case 2: cap = n - std::min(n, (size_t)t.range(0, 40)); break; case 3: cap = (size_t)t.range(0, n); break; case 4: cap = (size_t)t.logsize(n); break; case 5: cap = n - std::min(n, (size_t)t.logsize(n)); break; default: cap = n + (size_t)t.logsize(70000); }
        int which = (int)t.draw(4); bool withProp = t.chance(1, 4); size_t r; Guard out(cap);
        if (which == 2 && !withProp) r = FL2_decompressMt(out.p, cap, src.p, src.n, th); else { which = which & 1 ? 1 : which == 2 ? 0 : 1;
            if (withProp) { r = FL2_initDCtx(dc[which], (unsigned char)prop); REQUIRE(c, !FL2_isError(r), "initDCtx", "initDCtx: %s", ename(r)); r = FL2_decompressDCtx(dc[which], out.p, cap, src.p + 1, src.n - 1); } else r = FL2_decompressDCtx(dc[which], out.p, cap, src.p, src.n); }
        REQUIRE(c, out.intact(), "underrun", "bytes before dst written");
        if (cap >= n) { REQUIRE(c, !FL2_isError(r), "decompress", "capacity %zu for %zu bytes (decoder %d): %s", cap, n, which, ename(r)); REQUIRE(c, r == n && (!n || !memcmp(out.p, want.data(), n)), "content", "wrong content (%zu of %zu bytes)", r, n); if (cap == n) exact = true; }
        else { REQUIRE(c, FL2_isError(r), "small-accepted", "capacity %zu for %zu bytes returned %zu (decoder %d)", cap, n, r, which); small = true; }
    }
    FL2_freeDCtx(dc[0]); FL2_freeDCtx(dc[1]); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks still allocated", vf.liveCount);
    c.label("generated"); if (g.nresets > 2) c.label("multi-reset"); if (small && exact && g.chunks > 1) c.nontrivial(hash_bytes(full));
}
void run_case(Tape& t, Ctx& c) {
    vf_reset(); vf.fill = (int)t.draw(256);
    if (t.chance(1, 3)) return dec_case(t, c);
    std::string d; Bytes in; unsigned k = (unsigned)t.draw(100);
    if (k < 40) in = gen_data(t, 30000, &d);
    else if (k < 65) { in = random_bytes(t.raw(), (size_t)t.logsize(200000)); d = "random"; }
    else if (k < 85) { size_t base = (size_t)t.range(1, 4) * 65536; in = random_bytes(t.raw(), base + t.range(0, 8) - 4); d = "random-edge"; }
    else if (k < 97) in = gen_data(t, 300000, &d);
    else { in = random_bytes(t.raw(), (size_t)t.range(1 << 20, 3 << 20)); d = "random-big"; }
    unsigned nth = (unsigned)t.range(1, 5); PGen g; g.maxDict = 1 << 20; g.omit = true; CParams p = gen_params(t, g); if (p.dictSize < 0) p.dictSize = 1 << 20;
    c.note("th%u %s %s/%zu", nth, p.str().c_str(), d.c_str(), in.size());
    FL2_CCtx* cc = FL2_createCCtxMt(nth); REQUIRE(c, cc, "create", "create failed"); int e = apply_params(cc, p); REQUIRE(c, !e, "param", "setParameter #%d", e);
    size_t bound = FL2_compressBound(in.size()); Guard src(in);
    Guard full(bound); size_t cs = FL2_compressCCtx(cc, full.p, bound, src.p, src.n, 0);
    REQUIRE(c, !FL2_isError(cs), "bound-fails", "failed with capacity FL2_compressBound(%zu) = %zu: %s", in.size(), bound, cname(cs)); REQUIRE(c, cs <= bound && full.intact(), "bound", "%zu > bound %zu", cs, bound);
    Bytes ref(full.p, full.p + cs); unsigned prop = FL2_getCCtxDictProp(cc);
    unsigned n = (unsigned)t.range(2, 5); bool shortfall = false, exact = false;
    for (unsigned i = 0; i < n; i++) {
        size_t cap; switch (t.draw(8)) { case 0: cap = cs; break; case 1: cap = cs - 1; break; case 2: cap = cs + 1; break; case 3: cap = (size_t)t.range(0, 8); break; case 4: cap = cs - std::min(cs, (size_t)t.range(0, 12)); break; case 5: cap = bound; break; case 6: cap = cs + t.range(0, 12); break; default: cap = (size_t)t.range(0, cs); }
        Guard o(cap); size_t r = FL2_compressCCtx(cc, o.p, cap, src.p, src.n, 0);
        REQUIRE(c, o.intact(), "underrun", "bytes before dst written");
        if (FL2_isError(r)) { REQUIRE(c, FL2_getErrorCode(r) == FL2_error_dstSize_tooSmall, "shortfall-code", "capacity %zu of %zu: %s", cap, cs, cname(r)); REQUIRE(c, cap < cs, "needless-failure", "capacity %zu suffices for %zu but dstSize_tooSmall was returned", cap, cs); shortfall = true; }
        else { REQUIRE(c, r <= cap, "overrun", "returned %zu with capacity %zu", r, cap); REQUIRE(c, r == cs && !memcmp(o.p, ref.data(), cs), "different", "capacity %zu gives a different stream (%zu vs %zu bytes)", cap, r, cs); if (cap == cs) exact = true; }
    }
    // simple call, default level parameters
    if (in.size() < 100000 && t.chance(1, 6)) { Guard o(bound); size_t r = FL2_compress(o.p, bound, src.p, src.n, (int)t.range(1, 3)); REQUIRE(c, !FL2_isError(r) && r <= bound && o.intact(), "bound-fails", "FL2_compress: %s", cname(r)); }
    FL2_freeCCtx(cc);
    // decompression
    Guard cg(ref); unsigned dth = (unsigned)t.range(1, 3);
    for (unsigned i = 0; i < 3; i++) {
        size_t cap; switch (t.draw(4)) { case 0: cap = in.size(); break; case 1: cap = in.size() ? in.size() - 1 : 0; break; case 2: cap = (size_t)t.range(0, in.size()); break; default: cap = in.size() + t.logsize(70000); }
        Guard o(cap); size_t r; FL2_DCtx* dc = FL2_createDCtxMt(dth); REQUIRE(c, dc, "create", "create failed");
        if (p.omitProp) { r = FL2_initDCtx(dc, (unsigned char)prop); REQUIRE(c, !FL2_isError(r), "initDCtx", "initDCtx: %s", cname(r)); }
        r = FL2_decompressDCtx(dc, o.p, cap, cg.p, cg.n); FL2_freeDCtx(dc); REQUIRE(c, o.intact(), "underrun", "bytes before dst written");
        if (cap >= in.size()) { REQUIRE(c, !FL2_isError(r), "decompress", "capacity %zu for %zu bytes (%u threads): %s", cap, in.size(), dth, cname(r)); REQUIRE(c, r == in.size() && !memcmp(o.p, in.data(), r), "content", "wrong content"); }
        else REQUIRE(c, FL2_isError(r), "small-accepted", "capacity %zu for %zu bytes returned %zu", cap, in.size(), r);
    }
    REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks still allocated", vf.liveCount);
    c.label(cs > in.size() ? "expanded" : "compressed"); if (shortfall) c.label("shortfall"); if (exact) c.label("exact");
    if (shortfall && exact && !in.empty()) c.nontrivial(hash_bytes(in) ^ mix64(cs));
}
