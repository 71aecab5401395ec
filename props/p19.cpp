// P19: dictionary property.
#include "mkstream.h"
#include "dec.h"
const char* const prop_id = "P19";
const char* const prop_rule = "all 256 property values through every entry point that takes one; streams with random dictionary sizes with and without the property byte, decoded through every initialise-with-property path; non-trivial = stream with a match";
static void byte_sweep(Ctx& c, unsigned b, unsigned th) {
    unsigned m = b & 0x7F; bool valid = m <= 40; size_t q = FL2_getDictSizeFromProp((unsigned char)b);
    if (valid) REQUIRE(c, q == ref_dict_size(m), "dict-size", "property %u: size %zu instead of %llu", b, q, (unsigned long long)ref_dict_size(m)); else REQUIRE(c, FL2_isError(q), "dict-size", "property %u accepted: %zu", b, q);
    Bytes z; z.push_back(0); if (b & 0x80) { uint32_t h = ref_xxh32(nullptr, 0); for (int i = 3; i >= 0; i--) z.push_back((uint8_t)(h >> (8 * i))); }
    Bytes f(1, (uint8_t)b); f.insert(f.end(), z.begin(), z.end()); uint8_t o[8];
    for (int k = 0; k < 6; k++) {
        size_t r; const char* what;
        Guard gf(f), gz(z);
        if (k == 0) { what = "FL2_decompress"; r = FL2_decompress(o, 8, gf.p, gf.n); } else if (k == 1) { what = "FL2_decompressMt"; r = FL2_decompressMt(o, 8, gf.p, gf.n, th); }
        else if (k < 4) { what = "FL2_initDCtx"; FL2_DCtx* d = k == 2 ? FL2_createDCtx() : FL2_createDCtxMt(th); r = FL2_initDCtx(d, (unsigned char)b); if (valid) REQUIRE(c, r == 0, "init", "initDCtx(%u): %s", b, ename(r)); else { REQUIRE(c, FL2_isError(r), "init", "initDCtx accepts property %u", b); uint8_t em[] = { 0, 0 }; size_t e = FL2_decompressDCtx(d, o, 8, em, 2); REQUIRE(c, e == 0, "init-after", "context unusable after a rejected property: %s", ename(e)); } if (!FL2_isError(r)) r = FL2_decompressDCtx(d, o, 8, gz.p, gz.n); FL2_freeDCtx(d); }
        else { what = "FL2_initDStream_withProp"; FL2_DStream* d = k == 4 ? FL2_createDStream() : FL2_createDStreamMt(th); REQUIRE(c, d, "create", "createDStream"); size_t big = (size_t)24 << 20; r = FL2_initDStream_withProp(d, (unsigned char)b); FL2_inBuffer ib = { gz.p, gz.n, 0 }; FL2_outBuffer ob = { o, 8, 0 }; if (!FL2_isError(r)) r = FL2_decompressStream(d, &ob, &ib); bool mem = FL2_isError(r) && FL2_getErrorCode(r) == FL2_error_memory_allocation && ref_dict_size(valid ? m : 0) >= big - (1 << 22);
            if (mem) { FL2_freeDStream(d); continue; }
            if (!valid) { REQUIRE(c, FL2_isError(r), "invalid-prop", "%s accepts property %u", what, b); }
            // the byte in the stream
            size_t q2 = FL2_initDStream(d); REQUIRE(c, q2 == 0, "reinit", "initDStream: %s", ename(q2)); ib = { gf.p, gf.n, 0 }; q2 = FL2_decompressStream(d, &ob, &ib); mem = FL2_isError(q2) && FL2_getErrorCode(q2) == FL2_error_memory_allocation && ref_dict_size(valid ? m : 0) >= big - (1 << 22);
            if (!mem) { if (valid) REQUIRE(c, q2 == 0, "valid-prop", "FL2_decompressStream: property %u gives %s", b, ename(q2)); else REQUIRE(c, FL2_isError(q2), "invalid-prop", "FL2_decompressStream accepts property %u", b); }
            FL2_freeDStream(d); }
        if (valid) REQUIRE(c, r == 0, "valid-prop", "%s: property %u with an empty stream gives %s", what, b, ename(r)); else REQUIRE(c, FL2_isError(r), "invalid-prop", "%s accepts property %u", what, b);
    }
}
void prop_init() {}
static long rnd_dict(Tape& t, bool streaming) {
    long mx = streaming ? 6 << 20 : 1l << 28; unsigned k = (unsigned)t.draw(4); long v;
    if (k == 0) v = (1l << 20) + (long)t.draw(1 << 20); else if (k == 1) { unsigned p = (unsigned)t.range(18, streaming ? 21 : 30); v = (long)ref_dict_size(p) + (long)t.range(0, 4) - 2; } else if (k == 2) v = (long)t.range(1 << 20, mx); else v = 1l << t.range(20, streaming ? 22 : 26);
    if (v < 1 << 20) v = 1 << 20; if (v > mx) v = mx; return v;
}
void run_case(Tape& t, Ctx& c) {
    vf_reset(); vf.failLarger = (size_t)96 << 20; vf.fill = (int)t.draw(256); unsigned th = (unsigned)t.range(2, 4);
    if (t.chance(1, 60)) { vf.fill = -1; vf.failLarger = (size_t)24 << 20; for (unsigned b = 0; b < 256; b++) byte_sweep(c, b, th); c.note("all property bytes"); c.label("byte-sweep"); c.nontrivial(1); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks", vf.liveCount); return; }
    vf.failLarger = 0;
    bool streaming = t.chance(1, 2); std::string d; Bytes in; long dict = rnd_dict(t, streaming); unsigned sk = (unsigned)t.draw(10);
    if (sk < 6) in = gen_data(t, 5000, &d); else if (sk < 9) in = gen_data(t, 300000, &d); else in = gen_data_len(t, (size_t)std::min<long>(6 << 20, dict - 5 + (long)t.draw(10) + (t.chance(1, 2) ? (long)t.draw(1 << 20) : 0)), &d);
    CParams p; p.level = (int)t.range(1, 6); p.dictSize = dict; p.strategy = (long)t.range(0, sk == 9 ? 0 : 2); p.xxh = 0; if (t.chance(1, 3)) p.reset = (long)t.range(1, 4); if (t.chance(1, 3)) p.overlap = (long)t.range(0, 14);
    bool far = sk == 9 && t.chance(1, 2); if (far) { // the same bytes again at the far end of the dictionary
        size_t dd = (size_t)dict, l = 200 + (size_t)t.draw(3000); for (size_t at = dd / 2 + (size_t)t.draw(dd / 2 - 3300); at + l <= in.size() && at + l <= dd; at += dd / 8) memmove(&in[at], &in[0], l); if (in.size() <= dd) in.resize(dd + 1 + (size_t)t.draw(1 << 18), 7); d += "+far"; }
    bool flushes = t.chance(1, 3) || far; uint64_t fseed = t.draw(1u << 30);
    unsigned cth = (unsigned)t.range(1, 3); size_t piece = in.size() / 30 + 1 + (size_t)t.logsize(in.size()); bool hashed = t.chance(1, 2);
    c.note("%s dict%ld th%u %s ", streaming ? "stream" : "ctx", dict, cth, d.c_str());
    struct Q { size_t at; unsigned prop; }; std::vector<Q> qs;
    Bytes out[2]; unsigned prop = 0, propBefore = 0, prop0 = 0; size_t cfgDict = 0;
    for (int omit = 0; omit < 2; omit++) {
        p.omitProp = omit; p.xxh = omit ? hashed : 0; // the hash is not part of a stream without the property byte
        FL2_CCtx* s = streaming ? FL2_createCStreamMt(cth, 0) : FL2_createCCtxMt(cth); REQUIRE(c, s, "create", "create"); int e = apply_params(s, p); REQUIRE(c, !e, "param", "parameter #%d", e);
        cfgDict = FL2_CCtx_getParameter(s, FL2_p_dictionarySize); REQUIRE(c, cfgDict == (size_t)dict, "param", "dictionary size reads back as %zu", cfgDict);
        propBefore = FL2_getCCtxDictProp(s); REQUIRE(c, propBefore <= 40 && ref_dict_size(propBefore) >= cfgDict, "prop-before", "property before compression: %u", propBefore);
        Bytes& o = out[omit]; o.resize(FL2_compressBound(in.size()) + 100);
        if (streaming) {
            size_t r = FL2_initCStream(s, 0); REQUIRE(c, r == 0, "init", "%s", ename(r)); FL2_outBuffer ob = { o.data(), o.size(), 0 }; for (size_t i = 0; i < in.size();) { size_t n = std::min(piece, in.size() - i); FL2_inBuffer ib = { in.data() + i, n, 0 }; r = FL2_compressStream(s, &ob, &ib); REQUIRE(c, !FL2_isError(r), "compress", "%s", ename(r)); i += ib.pos;
                // between two blocks: the property reported so far covers what has been written so far
                if (flushes && Rng(fseed + i).below(5) == 0) { unsigned k = 0; do { r = FL2_flushStream(s, &ob); REQUIRE(c, !FL2_isError(r), "flush", "%s", ename(r)); } while (r && ++k < 100); REQUIRE(c, r == 0, "flush", "never completes"); unsigned q = FL2_getCCtxDictProp(s); REQUIRE(c, q <= ref_dict_prop(cfgDict), "prop-too-large", "after %zu bytes the property is %u for a dictionary of %zu", i, q, cfgDict); if (omit) qs.push_back({ ob.pos, q }); } }
            do { r = FL2_endStream(s, &ob); REQUIRE(c, !FL2_isError(r), "end", "%s", ename(r)); } while (r); o.resize(ob.pos);
        } else { size_t r = FL2_compressCCtx(s, o.data(), o.size(), in.data(), in.size(), 0); REQUIRE(c, !FL2_isError(r), "compress", "%s", ename(r)); o.resize(r); }
        prop = FL2_getCCtxDictProp(s); if (!omit) prop0 = prop; FL2_freeCCtx(s);
    }
    REQUIRE(c, prop == prop0, "prop-same", "property %u without, %u with the byte in the stream", prop, prop0);
    REQUIRE(c, prop <= 40 && prop <= ref_dict_prop(cfgDict) && (out[0][0] & 0x7Fu) <= ref_dict_prop(cfgDict), "prop-too-large", "property %u / %u for a dictionary of %zu", prop, out[0][0], cfgDict);
    bool same = out[0].size() == out[1].size() + 1 && std::equal(out[1].begin(), out[1].end(), out[0].begin() + 1); if (same) c.label("same-chunks"); // a chunk at the break-even point may be stored in one and compressed in the other
    size_t a = out[0].size(), b = out[1].size() + 1; REQUIRE(c, a + 64 + a / 20 > b && b + 64 + a / 20 > a, "omit-size", "stream without the property has %zu bytes, with it %zu", out[1].size(), out[0].size());
    RefStream rs = cs_check(c, out[1], in, true, prop, 0, "omitted"); for (auto& q : rs.r.chunks) REQUIRE(c, q.maxDist <= ref_dict_size(prop), "distance", "distance %llu with property %u", (unsigned long long)q.maxDist, prop);
    for (auto& q : rs.r.chunks) REQUIRE(c, q.maxDist <= ref_dict_size(out[0][0] & 0x7F), "distance", "distance %llu with property byte %u", (unsigned long long)q.maxDist, out[0][0]);
    for (auto& q : qs) for (auto& k : rs.r.chunks) if (k.off < q.at) REQUIRE(c, k.maxDist <= ref_dict_size(q.prop), "distance", "property %u reported in the stream after %zu bytes of output, which use distance %llu", q.prop, q.at, (unsigned long long)k.maxDist);
    if (!qs.empty()) c.label("flushes"); if (far) c.label("far");
    // decode without the byte
    for (int k = 0; k < 2; k++) { FL2_DCtx* x = k ? FL2_createDCtxMt(th) : FL2_createDCtx(); Guard z(out[1]), o(in.size()); size_t r = FL2_initDCtx(x, (unsigned char)prop); REQUIRE(c, r == 0, "init", "initDCtx: %s", ename(r)); r = FL2_decompressDCtx(x, o.p, o.n, z.p, z.n); REQUIRE(c, r == in.size() && (in.empty() || !memcmp(o.p, in.data(), r)), "decode", "decompressDCtx after initDCtx: %s (%zu)", ename(r), r); FL2_freeDCtx(x); }
    for (int k = 0; k < 2; k++) { DecCfg g = gen_deccfg(t, out[1].size(), in.size()); g.threads = k ? th : 1; FL2_DStream* x = k ? FL2_createDStreamMt(th) : FL2_createDStream(); DecOut q = run_dstream(c, x, out[1].data(), out[1].size(), (int)prop, g, in.size() + 10); REQUIRE(c, !q.err && q.ret == 0 && q.out == in, "decode", "stream %s: %s, %zu of %zu bytes", g.str().c_str(), ename(q.ret), q.out.size(), in.size()); FL2_freeDStream(x); }
    REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks", vf.liveCount);
    c.label(streaming ? "stream" : "one-shot"); if ((size_t)ref_dict_size(prop) != cfgDict) c.label("not-a-step"); if (rs.r.maxDist) c.nontrivial(hash_bytes(out[0]) + dict);
}
