// P23: the compressed bytes depend on content, parameters and thread count alone.
#include "mkstream.h"
const char* const prop_id = "P23";
const char* const prop_rule = "the same content compressed twice with the same parameters and thread count but with other memory contents, buffer addresses, alignments and capacities, parameter-setting routes, entry points and - in streams - divisions of input and output, single or dual buffer and timeouts; non-trivial = at least 200 bytes of output containing an LZMA chunk";
void prop_init() {}
static const FL2_cParameter ps[] = { FL2_p_overlapFraction, FL2_p_resetInterval, FL2_p_bufferResize, FL2_p_hybridChainLog, FL2_p_hybridCycles, FL2_p_searchDepth, FL2_p_fastLength, FL2_p_divideAndConquer, FL2_p_strategy, FL2_p_omitProperties,
#ifndef NO_XXHASH
    FL2_p_doXXHash,
#endif
    };
static size_t differ(const Bytes& a, const Bytes& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return i; }
static void same(Ctx& c, const Bytes& a, const Bytes& b, const char* how) { REQUIRE(c, a == b, "differ", "%s: %zu bytes, otherwise %zu; first difference at %zu", how, b.size(), a.size(), differ(a, b)); }
// brings a second object to the same parameters by another route
static void reroute(Tape& t, Ctx& c, FL2_CCtx* from, FL2_CCtx* to) {
    auto set = [&](FL2_cParameter p, size_t v) { size_t r = FL2_CCtx_setParameter(to, p, v); REQUIRE(c, !FL2_isError(r), "param", "parameter %d value %zu: %s", (int)p, v, cname(r)); };
    set(FL2_p_highCompression, t.draw(2)); set(FL2_p_compressionLevel, 1 + t.draw(6)); // all of it replaced below
    size_t n = sizeof ps / sizeof *ps, k0 = t.draw(n); for (size_t i = 0; i < n; i++) { FL2_cParameter p = ps[(i + k0) % n]; set(p, FL2_CCtx_getParameter(from, p)); }
    size_t d = FL2_CCtx_getParameter(from, FL2_p_dictionarySize); unsigned lg = 0; while (((size_t)1 << lg) < d) lg++;
    if (((size_t)1 << lg) == d && t.chance(1, 2)) set(FL2_p_dictionaryLog, lg); else set(FL2_p_dictionarySize, d);
    set(FL2_p_literalCtxBits, 0); set(FL2_p_literalPosBits, 0); set(FL2_p_literalPosBits, FL2_CCtx_getParameter(from, FL2_p_literalPosBits)); set(FL2_p_literalCtxBits, FL2_CCtx_getParameter(from, FL2_p_literalCtxBits)); set(FL2_p_posBits, FL2_CCtx_getParameter(from, FL2_p_posBits));
}
struct Src { Guard g; const uint8_t* p; Src(Tape& t, const Bytes& b) { size_t tail = t.chance(1, 2) ? 0 : (size_t)t.draw(70); g.init(b.size() + tail); if (!b.empty()) memcpy(g.p, b.data(), b.size()); memset(g.p + b.size(), (int)t.draw(256), tail); p = g.p; } };
static void oneshot_case(Tape& t, Ctx& c) {
    std::string d; unsigned szk = (unsigned)t.draw(20); Bytes in = szk < 13 ? gen_data(t, 60000, &d) : szk < 19 ? gen_data(t, 500000, &d) : gen_data_len(t, (size_t)t.range(600000, 3000000), &d);
    unsigned th = (unsigned)t.range(1, 5); PGen g; g.maxDict = 2 << 20; g.omit = true; CParams p = gen_params(t, g); bool plain = t.chance(1, 4); int lvl = (int)t.range(1, 5);
    auto one = [&](FL2_CCtx* x, int level, size_t cap) { Src s(t, in); Guard o(cap); size_t r = FL2_compressCCtx(x, o.p, cap, s.p, in.size(), level); REQUIRE(c, !FL2_isError(r), "compress-error", "capacity %zu: %s", cap, cname(r)); REQUIRE(c, r <= cap, "overrun", "%zu > %zu", r, cap); REQUIRE(c, o.intact(), "underrun", "written before the buffer"); return o.bytes(r); };
    vf.fill = (int)t.draw(256); size_t bound = FL2_compressBound(in.size());
    FL2_CCtx* a = th == 1 && t.chance(1, 2) ? FL2_createCCtx() : FL2_createCCtxMt(th); REQUIRE(c, a, "create", "create"); int e = plain ? 0 : apply_params(a, p); REQUIRE(c, !e, "param", "#%d", e);
    Bytes oa = one(a, plain ? lvl : 0, bound); unsigned pa = FL2_getCCtxDictProp(a); unsigned k = plain ? (unsigned)t.draw(3) : 1;
    vf.fill = (int)t.draw(256);
    if (k == 0) { c.label("simple"); Src s(t, in); size_t cap = bound + (size_t)t.draw(300); Guard o(cap); size_t r = th == 1 ? FL2_compress(o.p, cap, s.p, in.size(), lvl) : FL2_compressMt(o.p, cap, s.p, in.size(), lvl, th); REQUIRE(c, !FL2_isError(r), "compress-error", "simple: %s", cname(r)); same(c, oa, o.bytes(r), "simple call"); }
    FL2_CCtx* b = FL2_createCCtxMt(th); REQUIRE(c, b, "create", "create"); bool route = t.chance(1, 2);
    if (route) { c.label("other-route"); reroute(t, c, a, b); } else if (!plain) { e = apply_params(b, p); REQUIRE(c, !e, "param", "#%d", e); } else if (k == 2) { size_t r = FL2_CCtx_setParameter(b, FL2_p_compressionLevel, lvl); REQUIRE(c, !FL2_isError(r), "param", "%s", cname(r)); }
    size_t cap = t.chance(1, 3) ? oa.size() : bound + (size_t)t.draw(100000);
    Bytes ob = one(b, plain && !route && k != 2 ? lvl : 0, cap); same(c, oa, ob, route ? "same parameters set by another route" : "repeated"); REQUIRE(c, pa == FL2_getCCtxDictProp(b), "prop", "dictionary property %u and %u", pa, FL2_getCCtxDictProp(b));
#ifndef NO_XXHASH
    if (!p.omitProp || plain) { c.label("hash-toggled"); size_t h = FL2_CCtx_getParameter(b, FL2_p_doXXHash); FL2_CCtx_setParameter(b, FL2_p_doXXHash, !h); Bytes oc = one(b, 0, bound); Bytes x = oa, y = oc; Bytes& w = h ? x : y; Bytes& n = h ? y : x;
        REQUIRE(c, w.size() == n.size() + 4 && (w[0] & 0x80) && !(n[0] & 0x80), "hash-size", "with hash %zu bytes, without %zu", w.size(), n.size()); w.resize(n.size()); w[0] &= 0x7F; same(c, w, n, "without the hash"); }
#endif
    FL2_freeCCtx(a); FL2_freeCCtx(b); c.note("ctx th%u %s %s -> %zu", th, plain ? ("lvl" + std::to_string(lvl)).c_str() : p.str().c_str(), d.c_str(), oa.size()); c.label("one-shot"); if (plain) c.label("plain-level"); if (th > 1 && oa.size() > 20000) c.label("mt");
    bool lz = false; if (oa.size() > 200) { Bytes full; if (!plain && p.omitProp) full.push_back((uint8_t)pa); full.insert(full.end(), oa.begin(), oa.end()); lz = full[1] >= 0x80; } if (lz) c.nontrivial(hash_bytes(oa));
}
static void stream_case(Tape& t, Ctx& c) {
    std::string d; unsigned szk = (unsigned)t.draw(20); Bytes in = szk < 10 ? gen_data(t, 60000, &d) : szk < 15 ? gen_data(t, 500000, &d) : gen_data_len(t, (size_t)t.range(900000, 3500000), &d); bool edge = t.chance(1, 10);
    unsigned th = (unsigned)t.range(1, 4); PGen g; g.maxDict = 2 << 20; g.omit = true; g.large = true; CParams p = gen_params(t, g); if (p.dictSize < 0 || szk >= 15) p.dictSize = (long)t.range(1 << 20, 3 << 19);
    if (edge) { in = gen_data_len(t, (size_t)(1 << 20) * t.range(1, 2) + t.draw(5) - 2, &d); p.dictSize = 1 << 20; p.overlap = (long)t.draw(3); } // content that just fills the buffer
    auto go = [&](FL2_CStream* s, bool dual, bool timed, Bytes& out, unsigned& prop) {
        size_t r = FL2_setCStreamTimeout(s, timed ? 1 : 0); REQUIRE(c, r == 0, "timeout", "%s", cname(r)); r = FL2_initCStream(s, 0); REQUIRE(c, r == 0, "init", "%s", cname(r));
        CSOpts o; o.flush = false; o.paramChange = false; o.maxOps = 20; o.bigPieces = in.size() > 500000 && t.chance(1, 2); CSRun run(c, t, s, in, o, dual || timed, th); run.all(); if (run.anyFlush) c.label("flushed"); bool f = run.anyFlush; out.swap(run.out); prop = FL2_getCCtxDictProp(s); return !f; };
    bool dual[2]; Bytes out[2]; unsigned prop[2]; bool okc = true; FL2_CStream* s[2];
    for (int i = 0; i < 2; i++) { dual[i] = t.chance(1, 3); bool timed = t.chance(1, 6); vf.fill = (int)t.draw(256); s[i] = th == 1 && !dual[i] && t.chance(1, 2) ? FL2_createCStream() : FL2_createCStreamMt(th, dual[i]); REQUIRE(c, s[i], "create", "create");
        if (i && t.chance(1, 2)) { c.label("other-route"); reroute(t, c, s[0], s[1]); } else { int e = apply_params(s[i], p); REQUIRE(c, !e, "param", "#%d", e); }
        if (timed) c.label("timed"); if (dual[i]) c.label("dual"); okc = go(s[i], dual[i], timed, out[i], prop[i]) && okc; }
    if (okc) { same(c, out[0], out[1], dual[0] != dual[1] ? "other divisions and buffering" : "other divisions"); REQUIRE(c, prop[0] == prop[1], "prop", "dictionary property %u and %u", prop[0], prop[1]); }
    FL2_freeCStream(s[0]); FL2_freeCStream(s[1]); c.note("stream th%u dual%d/%d %s %s -> %zu", th, dual[0], dual[1], p.str().c_str(), d.c_str(), out[0].size()); c.label("stream"); if (dual[0] != dual[1]) c.label("single-vs-dual"); if (in.size() > (size_t)p.dictSize) c.label("multi-block");
    if (okc && out[0].size() > 200 && out[0][p.omitProp ? 0 : 1] >= 0x80) c.nontrivial(hash_bytes(out[0]));
}
void run_case(Tape& t, Ctx& c) {
    vf_reset(); if (t.chance(1, 2)) stream_case(t, c); else oneshot_case(t, c); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks still allocated", vf.liveCount);
}
