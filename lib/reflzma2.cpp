#include "reflzma2.h"
#include <algorithm>

// ------------------------------------------------------------------ model
namespace {
typedef uint16_t P;
enum { PB = 1024, TOT = 11, MV = 5 };
struct LenM { P choice, choice2, low[16][8], mid[16][8], high[256]; };
struct Model {
    unsigned lc, lp, pb;
    P isMatch[12][16], isRep[12], isRep0[12], isRep1[12], isRep2[12], isRep0Long[12][16];
    P slot[4][64], spec[128], align[16];
    LenM len, rep;
    std::vector<P> lit;
    unsigned state; uint32_t r[4];
    static void fillp(P* p, size_t n) { std::fill(p, p + n, (P)PB); }
    void reset_state() {
        P* b = (P*)isMatch; (void)b;
        fillp(&isMatch[0][0], 12 * 16); fillp(isRep, 12); fillp(isRep0, 12); fillp(isRep1, 12); fillp(isRep2, 12); fillp(&isRep0Long[0][0], 12 * 16);
        fillp(&slot[0][0], 4 * 64); fillp(spec, 128); fillp(align, 16);
        fillp((P*)&len, sizeof(len) / sizeof(P)); fillp((P*)&rep, sizeof(rep) / sizeof(P));
        lit.assign((size_t)0x300 << (lc + lp), PB);
        state = 0; r[0] = r[1] = r[2] = r[3] = 0;
    }
};
// ------------------------------------------------------------------ decoder
struct RD {
    const uint8_t* p; size_t n, pos = 0; uint32_t range = 0xFFFFFFFF, code = 0; bool over = false;
    uint8_t byte() { if (pos < n) return p[pos++]; over = true; return 0; }
    void norm() { if (range < (1u << 24)) { range <<= 8; code = (code << 8) | byte(); } }
    unsigned bit(P& q) {
        norm();
        uint32_t b = (range >> TOT) * q;
        if (code < b) { range = b; q += (2048 - q) >> MV; return 0; }
        range -= b; code -= b; q -= q >> MV; return 1;
    }
    unsigned direct(unsigned k) { unsigned v = 0; while (k--) { norm(); range >>= 1; unsigned b = code >= range; if (b) code -= range; v = v << 1 | b; } return v; }
    unsigned tree(P* t, unsigned k) { unsigned m = 1; for (unsigned i = 0; i < k; i++) m = m << 1 | bit(t[m]); return m - (1u << k); }
    unsigned rtree(P* t, unsigned k) { unsigned m = 1, v = 0; for (unsigned i = 0; i < k; i++) { unsigned b = bit(t[m]); m = m << 1 | b; v |= b << i; } return v; }
    unsigned len(LenM& l, unsigned ps) {
        if (!bit(l.choice)) return tree(l.low[ps], 3);
        if (!bit(l.choice2)) return 8 + tree(l.mid[ps], 3);
        return 16 + tree(l.high, 8);
    }
};
} // namespace

uint64_t ref_dict_size(unsigned prop) { if (prop >= 40) return 0xFFFFFFFFull; return (uint64_t)(2 | (prop & 1)) << (prop / 2 + 11); }
unsigned ref_dict_prop(uint64_t size) { for (unsigned i = 0; i < 40; i++) if (ref_dict_size(i) >= size) return i; return 40; }

RefResult ref_decode_raw(const uint8_t* p, size_t n, uint64_t dictSize, size_t maxOut) {
    RefResult R; Model m; m.lc = m.lp = m.pb = 0; m.state = 0;
    bool needDic = true, needProp = true, needState = true;
    size_t pos = 0, dictStart = 0; // out index of the last dictionary reset
    auto bad = [&](const char* e) { R.st = RefResult::BAD; char b[160]; snprintf(b, sizeof b, "%s (chunk %zu at %zu, content %zu)", e, R.chunks.size(), pos, R.out.size()); R.err = b; return R; };
    auto trunc = [&]() { R.consumed = pos; R.st = RefResult::TRUNC; R.err = "truncated"; return R; };
    for (;;) {
        if (pos >= n) return trunc();
        uint8_t c = p[pos];
        if (c == 0) { R.consumed = pos + 1; R.st = RefResult::OK; return R; }
        RefChunk k; k.off = pos; k.control = c; k.outOff = R.out.size();
        if (c < 0x80) {
            if (c > 2) return bad("bad control byte");
            if (c == 1) { needDic = false; needProp = true; needState = true; dictStart = R.out.size(); }
            else if (needDic) return bad("stored chunk without dictionary reset");
            if (pos + 3 > n) return trunc();
            size_t u = ((size_t)p[pos + 1] << 8 | p[pos + 2]) + 1;
            k.pack = k.unpack = u;
            if (pos + 3 + u > n) { R.out.insert(R.out.end(), p + pos + 3, p + n); return trunc(); }
            if (R.out.size() + u > maxOut) return bad("output limit");
            R.out.insert(R.out.end(), p + pos + 3, p + pos + 3 + u);
            pos += 3 + u; R.chunks.push_back(k); continue;
        }
        unsigned mode = (c >> 5) & 3;
        if (mode == 3) { needDic = false; dictStart = R.out.size(); }
        else if (needDic) return bad("no dictionary reset");
        if (mode < 2 && needProp) return bad("no properties");
        if (mode < 1 && needState) return bad("no state reset");
        size_t hdr = mode >= 2 ? 6 : 5;
        if (pos + hdr > n) return trunc();
        size_t u = ((size_t)(c & 0x1F) << 16 | (size_t)p[pos + 1] << 8 | p[pos + 2]) + 1;
        size_t pk = ((size_t)p[pos + 3] << 8 | p[pos + 4]) + 1;
        if (mode >= 2) {
            unsigned b = p[pos + 5]; if (b >= 225) return bad("bad lc/lp/pb byte");
            unsigned lc = b % 9, lp = b / 9 % 5, pb = b / 45;
            if (lc + lp > 4) return bad("lc+lp>4");
            m.lc = lc; m.lp = lp; m.pb = pb; k.lc = lc; k.lp = lp; k.pb = pb;
            needProp = false;
        }
        if (mode >= 1) { m.reset_state(); needState = false; }
        k.pack = pk; k.unpack = u;
        size_t avail = std::min(pk, n - pos - hdr);
        if (avail < 5) { return avail < pk ? trunc() : bad("packed chunk shorter than range coder init"); }
        RD d; d.p = p + pos + hdr; d.n = avail;
        if (d.byte() != 0) return bad("range coder first byte");
        for (int i = 0; i < 4; i++) d.code = d.code << 8 | d.byte();
        if (R.out.size() + u > maxOut) return bad("output limit");
        size_t end = R.out.size() + u;
        bool trunced = avail < pk;
        Bytes& o = R.out;
        while (o.size() < end) {
            size_t q = o.size() - dictStart;
            unsigned ps = q & ((1u << m.pb) - 1);
            if (!d.bit(m.isMatch[m.state][ps])) {
                unsigned prev = q ? o.back() : 0;
                P* lp = &m.lit[(size_t)0x300 * (((q & ((1u << m.lp) - 1)) << m.lc) + (prev >> (8 - m.lc)))];
                unsigned sym = 1;
                if (m.state >= 7) {
                    if ((uint64_t)m.r[0] + 1 > q) return bad("matched literal before data");
                    unsigned mb = o[o.size() - m.r[0] - 1];
                    do { unsigned b = mb >> 7 & 1; mb <<= 1; unsigned x = d.bit(lp[((1 + b) << 8) + sym]); sym = sym << 1 | x; if (x != b) break; } while (sym < 0x100);
                }
                while (sym < 0x100) sym = sym << 1 | d.bit(lp[sym]);
                if (d.over) break;
                o.push_back((uint8_t)sym); k.lits++;
                m.state = m.state < 4 ? 0 : m.state < 10 ? m.state - 3 : m.state - 6;
                continue;
            }
            unsigned len;
            if (d.bit(m.isRep[m.state])) {
                if (q == 0) { if (d.over) break; return bad("rep match with empty dictionary"); }
                if (!d.bit(m.isRep0[m.state])) {
                    if (!d.bit(m.isRep0Long[m.state][ps])) {
                        if (d.over) break;
                        if ((uint64_t)m.r[0] + 1 > std::min<uint64_t>(q, dictSize)) return bad("short rep distance");
                        k.maxDist = std::max<uint64_t>(k.maxDist, (uint64_t)m.r[0] + 1);
                        o.push_back(o[o.size() - m.r[0] - 1]); k.reps++;
                        m.state = m.state < 7 ? 9 : 11; continue;
                    }
                } else {
                    uint32_t x;
                    if (!d.bit(m.isRep1[m.state])) x = m.r[1];
                    else { if (!d.bit(m.isRep2[m.state])) x = m.r[2]; else { x = m.r[3]; m.r[3] = m.r[2]; } m.r[2] = m.r[1]; }
                    m.r[1] = m.r[0]; m.r[0] = x;
                }
                len = d.len(m.rep, ps); m.state = m.state < 7 ? 8 : 11; k.reps++;
            } else {
                m.r[3] = m.r[2]; m.r[2] = m.r[1]; m.r[1] = m.r[0];
                len = d.len(m.len, ps); m.state = m.state < 7 ? 7 : 10;
                unsigned sl = d.tree(m.slot[std::min(len, 3u)], 6);
                uint32_t ds = sl;
                if (sl >= 4) {
                    unsigned fb = (sl >> 1) - 1; ds = (2 | (sl & 1)) << fb;
                    if (sl < 14) ds += d.rtree(m.spec + ds - sl, fb); // spec indexed from 1 inside rtree
                    else { ds += d.direct(fb - 4) << 4; ds += d.rtree(m.align, 4); }
                }
                m.r[0] = ds; k.matches++;
            }
            if (d.over) break;
            len += 2;
            if ((uint64_t)m.r[0] + 1 > std::min<uint64_t>(q, dictSize)) return bad("match distance too far");
            k.maxDist = std::max<uint64_t>(k.maxDist, (uint64_t)m.r[0] + 1);
            if (len > end - o.size()) return bad("match runs past the chunk");
            size_t s = o.size() - m.r[0] - 1;
            for (unsigned i = 0; i < len; i++) o.push_back(o[s + i]);
        }
        if (o.size() < end) { // ran out of packed bytes
            if (trunced) return trunc();
            return bad("packed data too short");
        }
        d.norm();
        if (d.over) { if (trunced) return trunc(); return bad("packed data too short"); }
        if (trunced) return trunc();
        if (d.pos != pk) return bad("packed data too long");
        if (d.code != 0) return bad("range coder not finished");
        R.maxDist = std::max(R.maxDist, k.maxDist);
        pos += hdr + pk; R.chunks.push_back(k);
    }
}

uint32_t ref_xxh32(const uint8_t* p, size_t n, uint32_t seed) {
    const uint32_t A = 2654435761u, B = 2246822519u, C = 3266489917u, D = 668265263u, E = 374761393u;
    auto rot = [](uint32_t x, int r) { return x << r | x >> (32 - r); };
    auto rd = [](const uint8_t* q) { return (uint32_t)q[0] | (uint32_t)q[1] << 8 | (uint32_t)q[2] << 16 | (uint32_t)q[3] << 24; };
    size_t i = 0; uint32_t h;
    if (n >= 16) {
        uint32_t v[4] = { seed + A + B, seed + B, seed, seed - A };
        for (; i + 16 <= n; i += 16) for (int j = 0; j < 4; j++) v[j] = rot(v[j] + rd(p + i + 4 * j) * B, 13) * A;
        h = rot(v[0], 1) + rot(v[1], 7) + rot(v[2], 12) + rot(v[3], 18);
    } else h = seed + E;
    h += (uint32_t)n;
    for (; i + 4 <= n; i += 4) h = rot(h + rd(p + i) * C, 17) * D;
    for (; i < n; i++) h = rot(h + p[i] * E, 11) * A;
    h ^= h >> 15; h *= B; h ^= h >> 13; h *= C; h ^= h >> 16; return h;
}

RefStream ref_decode_stream(const uint8_t* p, size_t n, size_t maxOut) {
    RefStream s;
    if (n == 0) { s.err = "empty"; s.trunc = true; return s; }
    s.hasHash = p[0] >> 7; unsigned prop = p[0] & 0x7F; s.dictProp = prop;
    if (prop > 40) { s.err = "dictionary property > 40"; return s; }
    s.r = ref_decode_raw(p + 1, n - 1, ref_dict_size(prop), maxOut);
    if (!s.r.ok()) { s.err = s.r.err; s.trunc = s.r.st == RefResult::TRUNC; return s; }
    s.total = 1 + s.r.consumed;
    if (s.hasHash) {
        if (n - s.total < 4) { s.err = "hash truncated"; s.trunc = true; return s; }
        uint32_t x = ref_xxh32(s.r.out.data(), s.r.out.size());
        const uint8_t* q = p + s.total;
        uint32_t got = (uint32_t)q[0] << 24 | (uint32_t)q[1] << 16 | (uint32_t)q[2] << 8 | q[3];
        s.total += 4;
        if (x != got) { s.hashOk = false; s.err = "hash mismatch"; return s; }
    }
    s.ok = true; return s;
}

// ------------------------------------------------------------------ generator
namespace {
struct RE {
    Bytes out; uint64_t low = 0; uint32_t range = 0xFFFFFFFF; uint8_t cache = 0; uint64_t cacheSize = 1;
    void shift() {
        if ((uint32_t)low < 0xFF000000u || (low >> 32) != 0) {
            uint8_t c = cache;
            do { out.push_back((uint8_t)(c + (uint8_t)(low >> 32))); c = 0xFF; } while (--cacheSize != 0);
            cache = (uint8_t)(low >> 24);
        }
        cacheSize++; low = (low & 0x00FFFFFF) << 8;
    }
    void bit(P& q, unsigned b) {
        uint32_t x = (range >> TOT) * q;
        if (!b) { range = x; q += (2048 - q) >> MV; } else { low += x; range -= x; q -= q >> MV; }
        while (range < (1u << 24)) { range <<= 8; shift(); }
    }
    void direct(uint32_t v, unsigned k) { while (k--) { range >>= 1; if (v >> k & 1) low += range; while (range < (1u << 24)) { range <<= 8; shift(); } } }
    void tree(P* t, unsigned k, unsigned v) { unsigned m = 1; while (k--) { unsigned b = v >> k & 1; bit(t[m], b); m = m << 1 | b; } }
    void rtree(P* t, unsigned k, unsigned v) { unsigned m = 1; for (unsigned i = 0; i < k; i++) { unsigned b = v >> i & 1; bit(t[m], b); m = m << 1 | b; } }
    void len(LenM& l, unsigned ps, unsigned v) {
        if (v < 8) { bit(l.choice, 0); tree(l.low[ps], 3, v); }
        else if (v < 16) { bit(l.choice, 1); bit(l.choice2, 0); tree(l.mid[ps], 3, v - 8); }
        else { bit(l.choice, 1); bit(l.choice2, 1); tree(l.high, 8, v - 16); }
    }
    void flush() { for (int i = 0; i < 5; i++) shift(); }
    size_t pending() const { return out.size() + cacheSize + 4; }
};
}

GenStream gen_lzma2(Tape& t, const GenOpts& o) {
    GenStream g; Model m; m.lc = m.lp = m.pb = 0; m.state = 0;
    uint64_t dict = ref_dict_size(o.dictProp);
    bool needDic = true, needProp = true, needState = true, lastCopy = false;
    size_t dictStart = 0;
    Rng rr(t.raw());
    // style of symbol choice
    unsigned wLit = (unsigned)t.range(1, 60), wMatch = (unsigned)t.range(0, 40), wRep = (unsigned)t.range(0, 40), wShort = (unsigned)t.range(0, 20);
    unsigned litMode = (unsigned)t.draw(3), distMode = (unsigned)t.draw(4), lenMode = (unsigned)t.draw(3);
    unsigned resetOdds = o.resets ? (o.manyResets ? 3 : (unsigned)t.range(4, 40)) : 0;
    Bytes& c = g.content;
    while (c.size() < o.target) {
        g.chunkOff.push_back(g.raw.size());
        bool dicReset = needDic || (resetOdds && rr.below(resetOdds) == 0);
        bool copy = rr.below(6) == 0 && (o.firstCopyReset || !needDic);
        size_t left = o.target - c.size();
        if (dicReset) { g.resetOff.push_back(g.raw.size()); g.nresets++; }
        if (copy) {
            size_t u = 1 + rr.below(std::min<size_t>(left, o.smallChunks ? 300 : rr.below(4) ? 2000 : 65536));
            g.raw.push_back(dicReset ? 1 : 2); g.raw.push_back((uint8_t)((u - 1) >> 8)); g.raw.push_back((uint8_t)(u - 1));
            if (dicReset) { dictStart = c.size(); needProp = needState = true; needDic = false; }
            for (size_t i = 0; i < u; i++) { uint8_t b = (uint8_t)rr.next(); if (litMode == 1) b &= 3; g.raw.push_back(b); c.push_back(b); }
            g.stored++; g.chunks++; lastCopy = true;
            continue;
        }
        unsigned mode;
        if (dicReset) mode = 3;
        else { mode = (unsigned)rr.below(3); if (needProp) mode = 2; else if (needState && mode == 0) mode = 1; if (mode == 0 && lastCopy && !o.copyThenPlain) mode = 1; }
        if (mode == 0 && lastCopy) g.plainAfterCopy++;
        lastCopy = false;
        if (mode == 3) { dictStart = c.size(); needDic = false; }
        if (mode >= 2) {
            if (!needProp) g.propchg++;
            m.lc = (unsigned)rr.below(5); m.lp = (unsigned)rr.below(5 - m.lc); m.pb = (unsigned)rr.below(5); needProp = false;
        }
        if (mode >= 1) { m.reset_state(); needState = false; if (mode == 1) g.statereset++; }
        size_t umax = std::min<size_t>(left, o.smallChunks ? 1 + rr.below(400) : rr.below(3) ? 1 + rr.below(6000) : 2097152);
        size_t start = c.size();
        RE e;
        while (c.size() - start < umax && e.pending() < 65536 - 64) {
            size_t q = c.size() - dictStart; unsigned ps = q & ((1u << m.pb) - 1);
            uint64_t maxd = std::min<uint64_t>(q, dict);
            unsigned w = q ? (unsigned)rr.below(wLit + wMatch + wRep + wShort) : 0;
            size_t room = umax - (c.size() - start);
            bool r0ok = (uint64_t)m.r[0] + 1 <= maxd;
            // A literal in a "match" state refers to rep0, which a dictionary reset without state reset can never leave dangling
            enum { LIT, MATCH, REP, SHORT } kind = LIT;
            if (q) {
                if (w < wLit) kind = LIT; else if (w < wLit + wMatch) kind = MATCH; else if (w < wLit + wMatch + wRep) kind = REP; else kind = SHORT;
                if (room < 2 && (kind == MATCH || kind == REP)) kind = LIT;
                if (kind == SHORT && !r0ok) kind = LIT;
            }
            unsigned ri = (unsigned)rr.below(4);
            if (kind == REP && (uint64_t)m.r[ri] + 1 > maxd) { kind = MATCH; }
            if (kind == LIT) {
                unsigned prev = q ? c.back() : 0;
                P* lp = &m.lit[(size_t)0x300 * (((q & ((1u << m.lp) - 1)) << m.lc) + (prev >> (8 - m.lc)))];
                unsigned b = litMode == 0 ? (unsigned)rr.below(256) : litMode == 1 ? 'a' + (unsigned)rr.below(4) : (prev + (unsigned)rr.below(3)) & 0xFF;
                e.bit(m.isMatch[m.state][ps], 0);
                unsigned sym = 1; int i = 7;
                if (m.state >= 7) {
                    unsigned mb = c[c.size() - m.r[0] - 1];
                    for (; i >= 0;) { unsigned x = mb >> 7 & 1; mb <<= 1; unsigned y = b >> i & 1; e.bit(lp[((1 + x) << 8) + sym], y); sym = sym << 1 | y; i--; if (x != y) break; }
                }
                for (; i >= 0; i--) { unsigned y = b >> i & 1; e.bit(lp[sym], y); sym = sym << 1 | y; }
                c.push_back((uint8_t)b);
                m.state = m.state < 4 ? 0 : m.state < 10 ? m.state - 3 : m.state - 6;
                continue;
            }
            if (kind == SHORT) {
                e.bit(m.isMatch[m.state][ps], 1); e.bit(m.isRep[m.state], 1); e.bit(m.isRep0[m.state], 0); e.bit(m.isRep0Long[m.state][ps], 0);
                c.push_back(c[c.size() - m.r[0] - 1]); m.state = m.state < 7 ? 9 : 11; continue;
            }
            size_t len = 2 + (lenMode == 0 ? rr.below(272) : lenMode == 1 ? rr.below(8) : rr.below(4) ? rr.below(20) : rr.below(272));
            if (rr.below(40) == 0) len = 273;
            len = std::min(len, room);
            e.bit(m.isMatch[m.state][ps], 1);
            if (kind == REP) {
                e.bit(m.isRep[m.state], 1);
                if (ri == 0) { e.bit(m.isRep0[m.state], 0); e.bit(m.isRep0Long[m.state][ps], 1); }
                else {
                    e.bit(m.isRep0[m.state], 1); uint32_t d = m.r[ri];
                    if (ri == 1) e.bit(m.isRep1[m.state], 0);
                    else { e.bit(m.isRep1[m.state], 1); e.bit(m.isRep2[m.state], ri - 2); if (ri == 3) m.r[3] = m.r[2]; m.r[2] = m.r[1]; }
                    m.r[1] = m.r[0]; m.r[0] = d;
                }
                e.len(m.rep, ps, (unsigned)len - 2); m.state = m.state < 7 ? 8 : 11;
            } else {
                uint64_t d; // 1-based
                switch (distMode) {
                case 0: d = 1 + rr.below(maxd); break;
                case 1: d = 1 + rr.below(std::min<uint64_t>(maxd, 300)); break;
                case 2: { unsigned bits = 0; while ((maxd >> bits) > 1) bits++; d = 1 + rr.below(std::min<uint64_t>(maxd, 1ull << rr.below(bits + 1))); break; }
                default: d = rr.below(3) ? maxd - rr.below(std::min<uint64_t>(maxd, 3)) : 1 + rr.below(maxd); break;
                }
                if (d == dict) g.limitDist++;
                uint32_t ds = (uint32_t)(d - 1);
                e.bit(m.isRep[m.state], 0);
                e.len(m.len, ps, (unsigned)len - 2); m.state = m.state < 7 ? 7 : 10;
                unsigned sl;
                if (ds < 4) sl = ds; else { unsigned hb = 31; while (!(ds >> hb)) hb--; sl = hb * 2 + (ds >> (hb - 1) & 1); }
                e.tree(m.slot[std::min<size_t>(len - 2, 3)], 6, sl);
                if (sl >= 4) {
                    unsigned fb = (sl >> 1) - 1; uint32_t base = (2 | (sl & 1)) << fb;
                    if (sl < 14) e.rtree(m.spec + base - sl, fb, ds - base);
                    else { e.direct((ds - base) >> 4, fb - 4); e.rtree(m.align, 4, (ds - base) & 15); }
                }
                m.r[3] = m.r[2]; m.r[2] = m.r[1]; m.r[1] = m.r[0]; m.r[0] = ds;
            }
            g.maxDist = std::max<uint64_t>(g.maxDist, (uint64_t)m.r[0] + 1);
            size_t s = c.size() - m.r[0] - 1;
            for (size_t i = 0; i < len; i++) c.push_back(c[s + i]);
        }
        e.flush();
        size_t u = c.size() - start, pk = e.out.size();
        g.raw.push_back((uint8_t)(0x80 | mode << 5 | (u - 1) >> 16)); g.raw.push_back((uint8_t)((u - 1) >> 8)); g.raw.push_back((uint8_t)(u - 1));
        g.raw.push_back((uint8_t)((pk - 1) >> 8)); g.raw.push_back((uint8_t)(pk - 1));
        if (mode >= 2) g.raw.push_back((uint8_t)((m.pb * 5 + m.lp) * 9 + m.lc));
        g.raw.insert(g.raw.end(), e.out.begin(), e.out.end());
        g.chunks++;
    }
    g.wraps = dict ? c.size() / dict : 0;
    g.raw.push_back(0);
    return g;
}
