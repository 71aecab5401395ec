// Compressed-stream material for the decoder checks: valid streams from two sources, mutations, structured junk.
#pragma once
#include "dec.h"
struct Mat { Bytes b; Bytes content; bool valid = false; std::vector<size_t> chunkOff; /* offsets in b of control bytes */ bool hash = false; std::string src; };
static inline void add_hash(Bytes& b, const Bytes& content) { uint32_t h = ref_xxh32(content.data(), content.size()); for (int i = 3; i >= 0; i--) b.push_back((uint8_t)(h >> (8 * i))); }
// valid stream with property byte; hash: -1 random, 0, 1
static inline Mat make_valid(Tape& t, Ctx& c, int hash, size_t maxContent, bool manyResets = false) {
    Mat m; m.valid = true; m.hash = hash < 0 ? t.chance(1, 2) : hash != 0;
    if (t.chance(1, 3)) {
        std::string d; m.content = gen_data(t, maxContent, &d); CParams p; p.level = (int)t.range(1, 6); p.dictSize = 1 << 20; p.strategy = (long)t.range(0, 2); p.xxh = m.hash;
        FL2_CCtx* cc = FL2_createCCtx(); REQUIRE(c, cc, "create", "createCCtx"); apply_params(cc, p); m.b.resize(FL2_compressBound(m.content.size())); size_t r = FL2_compressCCtx(cc, m.b.data(), m.b.size(), m.content.data(), m.content.size(), 0);
        REQUIRE(c, !FL2_isError(r), "compress", "%s", ename(r)); m.b.resize(r); FL2_freeCCtx(cc); m.src = "enc " + d;
        RefStream rs = ref_decode_stream(m.b.data(), m.b.size()); for (auto& k : rs.r.chunks) m.chunkOff.push_back(k.off + 1);
    } else {
        GenOpts o; o.dictProp = t.chance(1, 6) ? (unsigned)t.range(8, 16) : (unsigned)t.range(0, 8); o.target = (size_t)t.logsize(maxContent); o.resets = t.chance(3, 4); o.manyResets = manyResets || t.chance(1, 2); o.copyThenPlain = t.chance(1, 2); o.smallChunks = t.chance(2, 3);
        GenStream g = gen_lzma2(t, o); m.content = g.content; m.b.push_back((uint8_t)(o.dictProp | (m.hash ? 0x80 : 0))); m.b.insert(m.b.end(), g.raw.begin(), g.raw.end()); if (m.hash) add_hash(m.b, m.content);
        for (size_t q : g.chunkOff) m.chunkOff.push_back(q + 1);
        m.src = "gen";
    }
    return m;
}
static inline Bytes junk_stream(Tape& t) {
    Bytes b; b.push_back((uint8_t)(t.chance(1, 8) ? t.draw(256) : t.range(0, 12) | (t.draw(4) == 0 ? 0x80 : 0))); unsigned n = (unsigned)t.range(1, 6); Rng r(t.raw());
    for (unsigned i = 0; i < n; i++) {
        unsigned k = (unsigned)t.draw(10); uint8_t ctl = k < 3 ? (uint8_t)(0xE0 | t.draw(2)) : k < 5 ? (uint8_t)(0x80 | t.draw(128)) : k < 7 ? 1 : k == 7 ? 2 : k == 8 ? 0 : (uint8_t)t.draw(256);
        b.push_back(ctl); if (ctl == 0) continue;
        size_t u = (size_t)t.logsize(3000), p = (size_t)t.logsize(600); b.push_back((uint8_t)(u >> 8)); b.push_back((uint8_t)u);
        if (ctl < 0x80) { for (size_t j = 0; j <= u; j++) b.push_back((uint8_t)r.next()); }
        else { b.push_back((uint8_t)(p >> 8)); b.push_back((uint8_t)p); if (ctl >= 0xC0) b.push_back((uint8_t)(t.chance(1, 10) ? t.draw(256) : 93)); b.push_back(t.chance(1, 12) ? (uint8_t)r.next() : 0); unsigned style = (unsigned)t.draw(3); for (size_t j = 0; j < p; j++) b.push_back(style == 0 ? (uint8_t)r.next() : style == 1 ? 0xFF : (uint8_t)(r.below(4) ? 0 : r.next())); }
    }
    if (t.chance(2, 3)) b.push_back(0);
    return b;
}
// one mutation; positions favour headers
static inline void mutate(Tape& t, Mat& m) {
    Bytes& b = m.b; m.valid = false; if (b.empty()) return; Rng r(t.raw());
    size_t pos; unsigned pk = (unsigned)t.draw(4);
    if (pk == 0 && !m.chunkOff.empty()) { pos = m.chunkOff[t.draw(m.chunkOff.size())] + t.draw(13); if (pos >= b.size()) pos = b.size() - 1; } else if (pk == 1) pos = b.size() - 1 - t.draw(std::min<size_t>(b.size(), 16)); else pos = (size_t)t.draw(b.size());
    switch (t.draw(11)) {
    case 0: b[pos] ^= (uint8_t)(1u << t.draw(8)); break;
    case 1: b[pos] = (uint8_t)t.draw(256); break;
    case 2: b.resize(pos); break;                                     // truncate
    case 3: { size_t n = 1 + (size_t)t.draw(20); for (size_t i = 0; i < n; i++) b.insert(b.begin() + pos, (uint8_t)r.next()); break; }
    case 4: { size_t n = std::min<size_t>(1 + t.draw(40), b.size() - pos); b.erase(b.begin() + pos, b.begin() + pos + n); break; }
    case 5: { if (m.chunkOff.size() < 2) { b[pos]++; break; } size_t i = (size_t)t.draw(m.chunkOff.size()), a = m.chunkOff[i], e = i + 1 < m.chunkOff.size() ? m.chunkOff[i + 1] : b.size(); if (a > b.size()) a = b.size(); if (e > b.size()) e = b.size(); if (t.draw(2)) { if (a < e) b.erase(b.begin() + a, b.begin() + e); } else { Bytes x(b.begin() + a, b.begin() + (e > a ? e : a)); size_t w = m.chunkOff[t.draw(m.chunkOff.size())]; if (w > b.size()) w = b.size(); b.insert(b.begin() + w, x.begin(), x.end()); } break; } // remove / duplicate a chunk
    case 6: { if (m.chunkOff.empty()) break; size_t a = m.chunkOff[t.draw(m.chunkOff.size())]; if (a < b.size()) { static const uint8_t cs[] = { 0x80, 0xA0, 0xC0, 0xE0, 1, 2, 3, 0x7F, 0 }; b[a] = t.draw(2) ? (uint8_t)((b[a] & 0x1F) | cs[t.draw(4)]) : cs[t.draw(9)]; } break; }
    case 7: { if (m.chunkOff.empty()) break; size_t a = m.chunkOff[t.draw(m.chunkOff.size())] + 1 + t.draw(4); if (a < b.size()) b[a] += (uint8_t)(t.draw(2) ? 1 : 255); break; }     // sizes +-1
    case 8: { if (m.chunkOff.empty()) break; size_t a = m.chunkOff[t.draw(m.chunkOff.size())] + 5; if (a < b.size()) b[a] = (uint8_t)(t.draw(2) ? t.draw(225) : t.draw(256)); break; }   // lc/lp/pb
    case 9: b[0] = (uint8_t)(t.draw(2) ? (b[0] & 0x80) | t.draw(12) : t.draw(256)); break;
    default: { size_t n = std::min<size_t>(1 + t.draw(30), b.size() - pos); for (size_t i = 0; i < n; i++) b[pos + i] = (uint8_t)r.next(); break; }
    }
}
