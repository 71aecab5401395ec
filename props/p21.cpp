// P21: sizes.  What repetition must cost at most, what incompressible data may grow by.
#include "mkstream.h"
#include <math.h>
const char* const prop_id = "P21";
const char* const prop_rule = "data built around a known redundancy (a block repeated at a chosen distance, a period, a pool of strings, no redundancy at all), compressed with generated parameters, threads and entry points and compared in size with the same data without the repeat or with an absolute bound; non-trivial = the expected saving is at least 400 bytes or the data has at least 2 blocks or slices";
static FILE* stats; void prop_init() { const char* f = getenv("P21_STATS"); if (f) stats = fopen(f, "a"); }
struct Cfg { CParams p; unsigned th; int api; bool dual; size_t dict, ov; };
static Cfg gen_cfg(Tape& t, long maxDict) {
    Cfg g; PGen pg; pg.maxDict = maxDict; g.p = gen_params(t, pg); if (g.p.dictSize < 0) g.p.dictSize = (long)t.range(1 << 20, (1 << 20) + (1 << 18)); g.p.reset = t.chance(1, 2) ? 0 : 16; g.p.omitProp = 0;
    // the match buffer is a trade-off of its own; the smallest depths only bound the length of what is found
    g.th = (unsigned)t.range(1, 5); g.api = (int)t.draw(3); g.dual = g.api == 2; g.dict = g.ov = 0;
    if (g.api && t.chance(1, 10)) g.p.dictSize = (1l << 26) + (long)t.range(1, 5000); // the other kind of match table
    return g;
}
static Bytes compress(Ctx& c, const Cfg& g, const Bytes& in, size_t* dict = NULL, size_t* ov = NULL) {
    FL2_CStream* s = g.api ? FL2_createCStreamMt(g.th, g.dual) : FL2_createCCtxMt(g.th); REQUIRE(c, s, "create", "create"); int e = apply_params(s, g.p); REQUIRE(c, !e, "param", "setParameter"); Bytes out(FL2_compressBound(in.size()) + 1000);
    if (dict) { *dict = FL2_CCtx_getParameter(s, FL2_p_dictionarySize); *ov = (*dict >> 4) * FL2_CCtx_getParameter(s, FL2_p_overlapFraction); }
    if (!g.api) { size_t r = FL2_compressCCtx(s, out.data(), out.size(), in.data(), in.size(), 0); REQUIRE(c, !FL2_isError(r), "compress", "%s", cname(r)); out.resize(r); }
    else { size_t r = FL2_initCStream(s, 0); REQUIRE(c, r == 0, "init", "%s", cname(r)); FL2_inBuffer ib = { in.data(), in.size(), 0 }; FL2_outBuffer ob = { out.data(), out.size(), 0 }; unsigned k = 0; while (ib.pos < ib.size) { r = FL2_compressStream(s, &ob, &ib); REQUIRE(c, !FL2_isError(r) && ++k < 1000, "compress", "%s", cname(r)); if (g.dual) FL2_waitCStream(s); } k = 0; do { r = FL2_endStream(s, &ob); REQUIRE(c, !FL2_isError(r) && ++k < 1000, "end", "%s", cname(r)); } while (r); out.resize(ob.pos); }
    FL2_freeCStream(s); return out;
}
static void fill(Rng& r, Bytes& b, size_t a, size_t n, unsigned alpha) { for (size_t i = a; i < a + n; i++) b[i] = (uint8_t)(alpha >= 256 ? r.next() : 'A' + r.below(alpha)); }
// number of slices and blocks at most
static size_t parts(size_t n, size_t dict, size_t ov, unsigned th) { size_t step = dict - ov, blocks = n <= dict ? 1 : 1 + (n - dict + step - 1) / step; size_t s = n / 0x1C000 + blocks; return std::min<size_t>(blocks * th, s); }
static void stat(const char* k, double used) { if (stats) fprintf(stats, "STAT %s %.3f\n", k, used), fflush(stats); }
static void repeat_case(Tape& t, Ctx& c) {
    Cfg g = gen_cfg(t, 1 << 20); bool multi = t.chance(1, 5); size_t dict, ov; { FL2_CCtx* s = FL2_createCCtx(); apply_params(s, g.p); dict = FL2_CCtx_getParameter(s, FL2_p_dictionarySize); ov = (dict >> 4) * FL2_CCtx_getParameter(s, FL2_p_overlapFraction); FL2_freeCCtx(s); }
    if (dict > 1u << 26) { multi = false; c.label("struct"); } size_t room = std::min<size_t>(dict, (1 << 20) + (1 << 18));
    unsigned af = t.chance(3, 4) ? (unsigned)t.range(90, 160) : (unsigned)t.range(4, 120), ar = t.chance(1, 2) ? 256 : (unsigned)t.range(12, 100); size_t L, n, src, dst;
    if (!multi || ov < 20000) { multi = false; L = (size_t)t.range(600, 1000) << t.range(0, 5); n = 2 * L + 1 + (size_t)t.logsize(t.chance(1, 4) ? room - 2 * L - 1 : 200000); if (n > room) n = room; src = (size_t)t.draw(n - 2 * L + 1); dst = src + L + (size_t)t.draw(n - 2 * L - src + 1); }
    else { size_t maxL = ov / 2 > 30000 ? 30000 : ov / 2 - 1; L = (size_t)t.range(600, maxL); unsigned k = (unsigned)t.range(1, 2); size_t start = dict + (k - 1) * (dict - ov), vis = start - ov, endb = start + dict - ov; dst = start + (t.chance(1, 2) ? (size_t)t.logsize(dict - ov - L) : (size_t)t.draw(dict - ov - L + 1)); src = t.chance(1, 2) && dst - L > vis ? vis + (size_t)t.draw(dst - L - vis + 1) : vis; if (src + L > dst) src = dst - L; (void)endb; n = dst + L + (size_t)t.logsize(50000); }
    Rng r(t.raw()); Bytes b(n); fill(r, b, 0, n, af); fill(r, b, src, L, ar); Bytes base = b; fill(r, base, dst, L, ar); memcpy(&b[dst], &b[src], L);
    Bytes x = compress(c, g, b), y = compress(c, g, base); double first = L * log2(ar >= 256 ? 256.0 : ar) / 8, cost = first - ((double)y.size() - (double)x.size());
    // a match is limited to 273 bytes; a slice boundary may fall inside the repeat
    // with few symbols short accidental matches compete with literals: whatever tips the parse has wider effects
    double bound = L * 0.03 + 120 + first * 0.04 + (af < 90 ? y.size() * 0.01 : 0); stat(multi ? "repeat-multi" : "repeat", cost / bound);
    c.note("%s th%u api%d n%zu L%zu src%zu dst%zu alpha%u/%u cost%.0f bound%.0f %s", multi ? "overlap" : "repeat", g.th, g.api, n, L, src, dst, af, ar, cost, bound, g.p.str().c_str());
    if (stats) fprintf(stats, "RPT %.0f %.0f %.5f af%u L%zu n%zu %s\n", cost, bound, (cost-bound)/y.size(), af, L, n, g.p.str().c_str());
    REQUIRE(c, cost <= bound, "repeat-cost", "repeating %zu bytes at distance %zu costs %.0f bytes (%zu with the repeat, %zu without)", L, dst - src, cost, x.size(), y.size()); c.label(multi ? "overlap" : "repeat"); if (first > 400) c.nontrivial(hash_bytes(x));
}
static void period_case(Tape& t, Ctx& c) {
    Cfg g = gen_cfg(t, 1 << 20); size_t dict, ov; size_t p = 1 + (size_t)t.logsize(t.chance(1, 3) ? 60000 : 300), n = p + (size_t)t.logsize(t.chance(1, 6) ? 2500000 : 300000); Rng r(t.raw()); Bytes b(n); fill(r, b, 0, p, 256); for (size_t i = p; i < n; i++) b[i] = b[i - p];
    Bytes x = compress(c, g, b, &dict, &ov); size_t k = parts(n, dict, ov, g.th); bool vis = ov >= p || n <= dict; double bound = 100 + p * 1.025 + n / 60.0 + 60.0 * k + (vis ? 0 : 1.02 * p * k); stat("period", x.size() / bound); if (stats) fprintf(stats, "PER %.4f n%zu p%zu k%zu size%zu %s\n", x.size()/bound, n, p, k, x.size(), g.p.str().c_str());
    c.note("period th%u api%d n%zu p%zu size%zu bound%.0f %s", g.th, g.api, n, p, x.size(), bound, g.p.str().c_str()); REQUIRE(c, x.size() <= bound, "period-cost", "%zu bytes of period %zu take %zu bytes", n, p, x.size()); c.label("period"); if (n > p + 400) c.nontrivial(hash_bytes(x.data(), x.size(), n));
}
static void random_case(Tape& t, Ctx& c) {
    Cfg g = gen_cfg(t, 1 << 20); size_t dict, ov; size_t n = (size_t)t.logsize(t.chance(1, 5) ? 3000000 : 400000); Bytes b = random_bytes(t.raw(), n); Bytes x = compress(c, g, b, &dict, &ov); size_t k = parts(n, dict, ov, g.th);
    double bound = n + 16 + 3.0 * (n / 60000 + k + 1); stat("random", (double)((double)x.size() - n) / (bound - n));
    c.note("random th%u api%d n%zu size%zu bound%.0f parts%zu %s", g.th, g.api, n, x.size(), bound, k, g.p.str().c_str()); REQUIRE(c, x.size() <= bound, "growth", "%zu incompressible bytes take %zu bytes", n, x.size()); c.label("random"); if (k > 1) c.nontrivial(hash_bytes(b));
}
static void pool_case(Tape& t, Ctx& c) {
    Cfg g = gen_cfg(t, 1 << 20); size_t dict, ov; unsigned pn = (unsigned)t.range(1, 200), len = (unsigned)t.range(40, 400); size_t n = (size_t)t.range(20000, 400000); Rng r(t.raw()); Bytes pool((size_t)pn * len), b; fill(r, pool, 0, pool.size(), 256); size_t picks = 0; while (b.size() < n) { size_t k = (size_t)r.below(pn); b.insert(b.end(), pool.begin() + k * len, pool.begin() + (k + 1) * len); picks++; }
    n = b.size(); Bytes x = compress(c, g, b, &dict, &ov); size_t k = parts(n, dict, ov, g.th); double bound = pool.size() * 1.04 + picks * (8 + len / 80.0) + 300.0 * k + 300; stat("pool", x.size() / bound); if (stats) fprintf(stats, "POOL %.4f n%zu strings%u len%u k%zu size%zu %s\n", x.size()/bound, n, pn, len, k, x.size(), g.p.str().c_str());
    c.note("pool th%u api%d n%zu strings%u len%u size%zu bound%.0f %s", g.th, g.api, n, pn, len, x.size(), bound, g.p.str().c_str()); REQUIRE(c, x.size() <= bound, "pool-cost", "%zu strings out of %u of %u bytes take %zu bytes", picks, pn, len, x.size()); c.label("pool"); c.nontrivial(hash_bytes(x));
}
static void thread_case(Tape& t, Ctx& c) {
    Cfg g = gen_cfg(t, 1 << 20); size_t dict, ov; std::string d; Bytes b = gen_data_len(t, (size_t)t.range(200000, 1500000), &d); g.th = (unsigned)t.range(2, 8); Bytes x = compress(c, g, b, &dict, &ov); Cfg g1 = g; g1.th = 1; Bytes y = compress(c, g1, b); size_t k = parts(b.size(), dict, ov, g.th);
    double bound = y.size() * 1.15 + 2500.0 * k + 200; stat("threads", x.size() / bound); c.note("threads th%u api%d n%zu size%zu/%zu parts%zu %s", g.th, g.api, b.size(), x.size(), y.size(), k, g.p.str().c_str());
    REQUIRE(c, x.size() <= bound, "thread-cost", "%u threads: %zu bytes, one thread: %zu bytes", g.th, x.size(), y.size()); c.label("threads"); c.nontrivial(hash_bytes(b));
}
// a long repeat, far away, in otherwise incompressible data
static void far_case(Tape& t, Ctx& c) {
    Cfg g = gen_cfg(t, 1 << 20); bool big = t.chance(1, 12); if (big) g.p.dictSize = (long)t.range(5 << 20, 6 << 20); else if (g.api && t.chance(1, 3)) g.p.dictSize = (1l << 26) + 1;
    size_t dict, ov; { FL2_CCtx* s = FL2_createCCtx(); apply_params(s, g.p); dict = FL2_CCtx_getParameter(s, FL2_p_dictionarySize); FL2_freeCCtx(s); } size_t room = big ? dict : std::min<size_t>(dict, dict > 1u << 26 ? 2 << 20 : (1 << 20) + (1 << 18));
    size_t L = (size_t)t.range(70000, 250000), gap = big ? (size_t)t.range(4 << 20, room - 2 * L - 60000) : t.chance(1, 2) ? (size_t)t.draw(room - 2 * L - 60000) : (size_t)t.logsize(room - 2 * L - 60000), pre = (size_t)t.logsize(room - 2 * L - gap), tail = (size_t)t.logsize(room - 2 * L - gap - pre); size_t n = pre + 2 * L + gap + tail;
    Rng r(t.raw()); Bytes b(n); fill(r, b, 0, n, 256); memcpy(&b[pre + L + gap], &b[pre], L);
    // sometimes with differences: the repeat is then many matches, each after a literal
    size_t flips = 0, every = t.chance(1, 2) ? (size_t)t.range(24, 200) : 0; if (every) for (size_t i = pre + L + gap + every; i < pre + 2 * L + gap; i += every / 2 + 1 + r.below(every)) { b[i] ^= 1 + (uint8_t)r.below(255); flips++; }
    Bytes x = compress(c, g, b, &dict, &ov); size_t k = parts(n, dict, ov, g.th);
    double bound = n - L + 16 + 3.0 * (n / 60000 + k + 2) + L * 0.03 + 2500 + 150.0 * k + 7.0 * flips; stat(every ? "far-flips" : "far", ((double)x.size() - (n - L)) / (bound - (n - L)));
    c.note("far th%u api%d n%zu repeat of %zu at distance %zu, %zu differences, size%zu bound%.0f %s", g.th, g.api, n, L, L + gap, flips, x.size(), bound, g.p.str().c_str()); REQUIRE(c, x.size() <= bound, "far-cost", "%zu incompressible bytes with %zu repeated at distance %zu with %zu differences take %zu bytes", n, L, L + gap, flips, x.size()); c.label("far"); if (dict > 1u << 26) c.label("far-struct"); c.nontrivial(hash_bytes(x.data(), 500, n));
}
void run_case(Tape& t, Ctx& c) { vf_reset(); unsigned k = (unsigned)t.draw(25); if (k >= 20) far_case(t, c); else if (k < 9) repeat_case(t, c); else if (k < 12) period_case(t, c); else if (k < 14) random_case(t, c); else if (k < 17) pool_case(t, c); else thread_case(t, c); }
