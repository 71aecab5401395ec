// P18: FL2_findDecompressedSize against a header-walk model and against content.
#include "mutate.h"
const char* const prop_id = "P18";
const char* const prop_rule = "valid streams with trailing bytes, truncations at every point, mutated streams and junk; every buffer ends at an inaccessible page; non-trivial = stream with at least two chunks";
void prop_init() {}
struct Walk { bool ok; unsigned long long sum; size_t end; };
static Walk walk(const Bytes& b) {
    Walk w = { false, 0, 0 }; size_t p = 1;
    while (p < b.size()) { uint8_t k = b[p]; if (k == 0) { w.ok = true; w.end = p + 1; return w; } if (k < 0x80) { if (k > 2 || p + 3 > b.size()) return w; unsigned u = (b[p + 1] << 8 | b[p + 2]) + 1; w.sum += u; p += 3 + u; } else { size_t h = k >= 0xC0 ? 6 : 5; if (p + h > b.size()) return w; w.sum += ((unsigned)(k & 31) << 16 | b[p + 1] << 8 | b[p + 2]) + 1; p += h + (b[p + 3] << 8 | b[p + 4]) + 1; } }
    return w;
}
static const unsigned long long ERR = (unsigned long long)FL2_CONTENTSIZE_ERROR;
static unsigned long long ask(Ctx& c, const Bytes& b) { Guard g(b); uint64_t before = vf.count; unsigned long long r = FL2_findDecompressedSize(g.p, g.n); REQUIRE(c, g.intact() && (b.empty() || !memcmp(g.p, b.data(), b.size())), "modified", "the buffer was modified"); REQUIRE(c, vf.count == before, "alloc", "memory was allocated"); return r; }
void run_case(Tape& t, Ctx& c) {
    vf_reset(); unsigned kind = (unsigned)t.draw(20); Rng r(t.raw());
    if (kind == 0) { // content beyond 4 GiB: the same self-contained segment many times
        size_t seg = (size_t)t.range(1, 2 << 20); Bytes content(seg, (uint8_t)t.draw(256)); CParams p; p.level = 1; p.dictSize = 2 << 20; p.xxh = 0; FL2_CCtx* cc = FL2_createCCtx(); apply_params(cc, p); Bytes z(FL2_compressBound(seg)); size_t n = FL2_compressCCtx(cc, z.data(), z.size(), content.data(), seg, 0); REQUIRE(c, !FL2_isError(n), "compress", "%s", ename(n)); z.resize(n); FL2_freeCCtx(cc);
        size_t reps = c.tier || t.chance(1, 3) ? (size_t)(((5ull << 30) / seg) < 6000 ? (5ull << 30) / seg : 6000) : (size_t)t.range(1, 50); Bytes b(1, z[0]); b.reserve(reps * n + 2); for (size_t i = 0; i < reps; i++) b.insert(b.end(), z.begin() + 1, z.end() - 1); b.push_back(0);
        unsigned long long q = ask(c, b), w = (unsigned long long)seg * reps; c.note("segments %zu x %zu = %llu", reps, seg, w); REQUIRE(c, q == w, "size", "reported %llu for a stream of %llu bytes", q, w); if (w >> 32) c.label("beyond-4GiB"); c.nontrivial(hash_bytes(b)); return;
    }
    Mat m; unsigned muts = 0;
    if (kind < 12) m = make_valid(t, c, -1, t.chance(1, 5) ? 300000 : 5000, t.chance(1, 2)); else if (kind < 16) { m = make_valid(t, c, -1, 4000, true); muts = (unsigned)t.range(1, 3); for (unsigned i = 0; i < muts; i++) mutate(t, m); } else if (kind < 19) m.b = junk_stream(t); else { m.b = random_bytes(t.raw(), (size_t)t.logsize(200)); if (m.b.size() > 1) m.b[1] = (uint8_t)(t.draw(4)); }
    c.note("%s muts%u len%zu ", m.src.c_str(), muts, m.b.size());
    if (kind < 12) {
        RefStream rs = ref_decode_stream(m.b.data(), m.b.size()); REQUIRE(c, rs.ok && rs.r.out == m.content, "ref", "reference"); size_t endPos = 1 + rs.r.consumed; if (endPos > m.b.size() - (m.hash ? 4 : 0) + 1) endPos = m.b.size() - (m.hash ? 4 : 0);
        Walk w = walk(m.b); REQUIRE(c, w.ok && w.sum == m.content.size(), "ref", "model");
        unsigned long long q = ask(c, m.b); REQUIRE(c, q == m.content.size(), "size", "reported %llu for %zu bytes of content", q, m.content.size());
        Bytes b = m.b; Bytes tr = random_bytes(t.raw(), (size_t)t.logsize(100)); b.insert(b.end(), tr.begin(), tr.end()); q = ask(c, b); REQUIRE(c, q == m.content.size(), "size-trailing", "reported %llu for %zu bytes of content with %zu trailing bytes", q, m.content.size(), tr.size());
        b.assign(m.b.begin(), m.b.begin() + w.end); q = ask(c, b); REQUIRE(c, q == m.content.size(), "size-exact", "reported %llu for a buffer that ends with the end marker", q);
        size_t step = m.b.size() <= 3000 ? 1 : m.b.size() / 700 + 1; // truncated before the end marker
        for (size_t i = 0; i < w.end; i += step) { b.assign(m.b.begin(), m.b.begin() + i); q = ask(c, b); REQUIRE(c, q == ERR, "truncated", "reported %llu for the first %zu of %zu bytes", q, i, w.end); }
        b.assign(m.b.begin(), m.b.begin() + w.end - 1); q = ask(c, b); REQUIRE(c, q == ERR, "truncated", "reported %llu without the end marker", q);
        for (auto& k : rs.r.chunks) for (size_t d = 0; d < 7; d++) if (k.off + 1 + d < w.end) { b.assign(m.b.begin(), m.b.begin() + k.off + 1 + d); q = ask(c, b); REQUIRE(c, q == ERR, "truncated", "reported %llu for a stream cut %zu bytes into a chunk header", q, d); if (d > 1 && rs.r.chunks.size() > 300) break; }
        // an undefined control byte in place of a chunk's
        if (!rs.r.chunks.empty()) for (int i = 0; i < 8; i++) { b = m.b; auto& k = rs.r.chunks[r.below(rs.r.chunks.size())]; b[k.off + 1] = (uint8_t)(3 + r.below(0x7D)); q = ask(c, b); REQUIRE(c, q == ERR, "undefined-chunk", "reported %llu although a chunk has control byte %02x", q, b[k.off + 1]); }
        c.label("valid"); if (rs.r.chunks.size() >= 2) c.nontrivial(hash_bytes(m.b));
    } else {
        Walk w = walk(m.b); unsigned long long q = ask(c, m.b); RefStream rs = ref_decode_stream(m.b.data(), m.b.size(), 1 << 22);
        if (!w.ok) { REQUIRE(c, q == ERR, "invalid", "reported %llu for a truncated or undefined chunk sequence", q); c.label("walk-bad"); }
        else if (rs.r.ok() && rs.dictProp <= 40) { REQUIRE(c, q == w.sum, "size", "reported %llu, model %llu", q, w.sum); c.label("still-valid"); }
        else { REQUIRE(c, q == w.sum || q == ERR, "size", "reported %llu, sum of the chunk sizes %llu", q, w.sum); c.label("walk-ok"); }
        if (m.b.size() > 12) c.nontrivial(hash_bytes(m.b));
    }
}
