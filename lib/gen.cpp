#include "gen.h"
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <cstdlib>

Bytes random_bytes(uint64_t seed, size_t n) {
    Bytes b(n); Rng r(seed); size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(&b[i], &v, 8); }
    for (; i < n; i++) b[i] = (uint8_t)r.next();
    return b;
}
static void add(std::string* d, const char* fmt, ...) {
    if (!d || d->size() > 300) return;
    char b[120]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); *d += b;
}
static const char* const W[] = { "the ", "compress", "ion ", "dictionary ", "radix ", "match ", "of ", "and ", "\n", "return 0;\n", "    ", "{ ", "} ", "if (", "size_t ", "0x", "12345", "lzma2", ", ", "block" };

Bytes gen_data_len(Tape& t, size_t len, std::string* d) {
    Bytes o; o.reserve(len);
    unsigned maxSeg = (unsigned)t.range(1, 12), seg = 0;
    while (o.size() < len) {
        size_t left = len - o.size();
        size_t n; if (++seg >= maxSeg) n = left; else { n = t.chance(1, 6) ? left : 1 + t.logsize(left - 1 ? left - 1 : 0); if (n > left) n = left; }
        static const unsigned wt[] = { 10, 8, 12, 22, 14, 10, 8, 10, 6 };
        unsigned k = t.weighted(wt); Rng r(t.draw(1u << 20) * 0x9E37 + 7);
        size_t s = o.size();
        switch (k) {
        case 0: { Bytes b = random_bytes(r.next(), n); o.insert(o.end(), b.begin(), b.end()); add(d, "rnd%zu ", n); break; }
        case 1: { o.insert(o.end(), n, (uint8_t)t.draw(256)); add(d, "run%zu ", n); break; }
        case 2: { size_t p = 1 + t.logsize(400); Bytes b = random_bytes(r.next(), p); for (size_t i = 0; i < n; i++) o.push_back(b[i % p]); add(d, "per%zu/%zu ", n, p); break; }
        case 3: { // copy from earlier, possibly with sparse changes
            if (s == 0) { Bytes b = random_bytes(r.next(), n); o.insert(o.end(), b.begin(), b.end()); add(d, "rnd%zu ", n); break; }
            size_t dist; unsigned dm = (unsigned)t.draw(3);
            if (dm == 0) dist = 1 + t.draw(s); else if (dm == 1) dist = 1 + t.logsize(s - 1 ? s - 1 : 0);
            else { unsigned sh = (unsigned)t.range(0, 21); dist = ((size_t)1 << sh) + (size_t)t.range(0, 4) - 2; }
            if (dist < 1) dist = 1; if (dist > s) dist = s;
            size_t mut = t.chance(1, 2) ? 0 : 2 + t.logsize(600);
            size_t nm = mut ? 1 + r.below(mut) : 0;
            for (size_t i = 0; i < n; i++) { uint8_t c = o[o.size() - dist]; if (mut && --nm == 0) { c ^= (uint8_t)(1 + r.below(255)); nm = 1 + r.below(mut * 2); } o.push_back(c); }
            add(d, "cpy%zu@%zu~%zu ", n, dist, mut); break; }
        case 4: { while (o.size() - s < n) { const char* w = W[r.below(r.below(3) ? 8 : 20)]; for (; *w && o.size() - s < n; w++) o.push_back(*w); } add(d, "txt%zu ", n); break; }
        case 5: { unsigned a = (unsigned)t.range(2, 20); for (size_t i = 0; i < n; i++) o.push_back((uint8_t)('A' + r.below(a))); add(d, "alpha%u:%zu ", a, n); break; }
        case 6: { unsigned rec = (unsigned)t.range(4, 40); uint32_t ctr = (uint32_t)r.next(); Bytes base = random_bytes(r.next(), rec);
            for (size_t i = 0; i < n; i++) { size_t f = i % rec; if (f == 0) ctr += (uint32_t)r.below(5); o.push_back(f < 4 ? (uint8_t)(ctr >> (8 * f)) : base[f]); } add(d, "rec%u:%zu ", rec, n); break; }
        case 7: { // many short overlapping repeats of a small pool of strings
            unsigned pn = (unsigned)t.range(1, 30); std::vector<Bytes> pool; for (unsigned i = 0; i < pn; i++) pool.push_back(random_bytes(r.next(), 2 + r.below(60)));
            while (o.size() - s < n) { const Bytes& b = pool[r.below(pn)]; size_t k2 = 1 + r.below(b.size()); for (size_t i = 0; i < k2 && o.size() - s < n; i++) o.push_back(b[i]); if (r.below(3) == 0 && o.size() - s < n) o.push_back((uint8_t)r.next()); }
            add(d, "pool%u:%zu ", pn, n); break; }
        default: { // long runs separated by single bytes
            size_t p = 2 + t.logsize(5000); uint8_t b = (uint8_t)r.next(); for (size_t i = 0; i < n; i++) o.push_back(i % p == p - 1 ? (uint8_t)r.next() : b); add(d, "runs%zu:%zu ", p, n); break; }
        }
    }
    o.resize(len);
    return o;
}
// content which compresses so well that a chunk ends by its uncompressed size (2 MiB), with changes around that point
Bytes gen_chunk_edge(Tape& t, std::string* d) {
    const size_t E = (size_t)1 << 21; size_t n = E + (size_t)t.logsize(8000), per = t.chance(1, 2) ? 1 : 1 + (size_t)t.logsize(40); Bytes b = random_bytes(t.draw(1000), per), o(n);
    for (size_t i = 0; i < n; i++) o[i] = b[i % per];
    unsigned k = t.chance(1, 2) ? 1 : (unsigned)t.range(2, 4); add(d, "edge%zu/%zu", n, per); // the lengths at the limit depend on where the longest matches (273) start, so on the last change before it
    while (k--) { unsigned w = (unsigned)t.draw(6); long dl = w == 0 ? (long)t.draw(3000) : (w < 4 ? 273 : 578) * (long)t.draw(4) + (long)t.range(0, 12) - 6; long at = (long)E - dl; if (at < 0 || at >= (long)n) continue; o[(size_t)at] ^= (uint8_t)t.range(1, 255); add(d, "%+ld", -dl); }
    add(d, " "); return o;
}
Bytes gen_data(Tape& t, size_t maxLen, std::string* d) {
    size_t n = t.logsize(maxLen);
    add(d, "[%zu] ", n);
    return gen_data_len(t, n, d);
}

std::string CParams::str() const {
    char b[300];
    snprintf(b, sizeof b, "lvl%d%s dict%ld ov%ld rst%ld rsz%ld ch%ld cy%ld dp%ld fl%ld dac%ld st%ld lc%ld lp%ld pb%ld omit%d xxh%d", level, high ? "H" : "", dictSize, overlap, reset, resize, chain, cycles, depth, fast, dac, strategy, lc, lp, pb, omitProp, xxh);
    return b;
}
CParams gen_params(Tape& t, const PGen& g) {
    CParams p;
    p.high = t.chance(1, 6);
    p.level = (int)t.range(0, 10);
    // the dictionary is always set so that memory stays bounded
    unsigned dk = (unsigned)t.draw(4);
    if (dk == 0 || g.maxDict <= (1 << 20)) p.dictSize = 1 << 20;
    else if (dk == 1) p.dictSize = (long)t.range(1 << 20, g.maxDict);
    else if (dk == 2) p.dictSize = 1l << t.range(20, 20 + (unsigned)__builtin_ctzl((unsigned long)(g.maxDict >> 20) | (1ul << 10)));
    else { p.dictSize = (1l << 20) + (long)t.range(0, 3); }
    if (p.dictSize > g.maxDict) p.dictSize = g.maxDict;
    if (g.large && t.chance(1, 8)) p.dictSize = (1l << 26) + 1 + (long)t.draw(1 << 20);
    unsigned on = (unsigned)t.range(0, 10);  // how many of the others are set
    auto opt = [&]() { return on && t.chance(on, 12); };
    if (opt()) { p.overlap = (long)t.range(0, 17); if (p.overlap > 14) p.overlap = 0; }
    if (opt()) p.reset = (long)t.range(1, 16);
    if (opt()) p.resize = (long)t.range(0, 4);
    if (opt()) p.chain = (long)t.range(4, 14);
    if (opt()) p.cycles = (long)t.range(1, 64);
    if (opt()) p.depth = (long)(t.chance(1, 2) ? t.range(6, 60) : t.range(6, 254));
    if (opt()) p.fast = (long)(t.chance(1, 2) ? t.range(6, 60) : t.range(6, 273));
    if (opt()) p.dac = (long)t.range(0, 1);
    if (opt() || t.chance(1, 2)) p.strategy = (long)t.range(0, 2);
    if (opt()) { p.lc = (long)t.range(0, 4); p.lp = (long)t.range(0, 4 - p.lc); p.pb = (long)t.range(0, 4); }
    if (g.omit && t.chance(1, 4)) p.omitProp = 1;
    if (t.chance(1, 3)) p.xxh = 0;
    return p;
}
int apply_params(FL2_CCtx* c, const CParams& p) {
    struct { FL2_cParameter id; long v; } list[] = {
        { FL2_p_highCompression, p.high }, { FL2_p_compressionLevel, p.level ? p.level : -1 },
        { FL2_p_dictionarySize, p.dictSize }, { FL2_p_overlapFraction, p.overlap }, { FL2_p_resetInterval, p.reset }, { FL2_p_bufferResize, p.resize },
        { FL2_p_hybridChainLog, p.chain }, { FL2_p_hybridCycles, p.cycles }, { FL2_p_searchDepth, p.depth }, { FL2_p_fastLength, p.fast },
        { FL2_p_divideAndConquer, p.dac }, { FL2_p_strategy, p.strategy },
        { FL2_p_literalCtxBits, p.lc >= 0 ? 0 : -1 }, { FL2_p_literalPosBits, p.lp >= 0 ? 0 : -1 },
        { FL2_p_literalCtxBits, p.lc }, { FL2_p_literalPosBits, p.lp }, { FL2_p_posBits, p.pb },
        { FL2_p_omitProperties, p.omitProp },
#ifndef NO_XXHASH
        { FL2_p_doXXHash, p.xxh },
#endif
    };
    int i = 0;
    for (auto& e : list) { i++; if (e.v >= 0 && FL2_isError(FL2_CCtx_setParameter(c, e.id, (size_t)e.v))) return i; }
    return 0;
}

static const size_t PG = 4096;
void Guard::init(size_t len, size_t al) {
    release(); n = len; align = al;
    size_t body = (len + PG - 1) / PG * PG; if (body == 0) body = PG;
    maplen = body + 2 * PG;
    base = (uint8_t*)mmap(0, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); abort(); }
    mprotect(base, PG, PROT_NONE); mprotect(base + PG + body, PG, PROT_NONE);
    size_t off = body - len; off = off / al * al;
    p = base + PG + off; slack = off;
    memset(base + PG, 0xC7, slack);
}
void Guard::release() { if (base) munmap(base, maplen); base = nullptr; }
bool Guard::intact() const { for (size_t i = 0; i < slack; i++) if (base[PG + i] != 0xC7) return false; return true; }
