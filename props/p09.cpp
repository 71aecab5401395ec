// P09: alteration of a hashed stream is detected by every decoding path; truncation is never a complete stream.
#include "mutate.h"
#include "mkstream.h"
const char* const prop_id = "P09";
const char* const prop_rule = "hashed streams (encoder, multi-block encoder, format-level generator) with one or more altered bytes, moved/duplicated/removed chunks or truncated, through every decoding path; non-trivial = altered bytes lie in the chunks or hash and the stream has content";
void prop_init() {}
struct Chunk { size_t off, hdr, pack, unpack; uint8_t ctl; };
static std::vector<Chunk> walk(const Bytes& b) {
    std::vector<Chunk> v; size_t p = 1;
    while (p < b.size() && b[p]) { Chunk k; k.off = p; k.ctl = b[p]; if (k.ctl < 0x80) { if (p + 3 > b.size()) break; k.hdr = 3; k.unpack = k.pack = (b[p + 1] << 8 | b[p + 2]) + 1; } else { k.hdr = k.ctl >= 0xC0 ? 6 : 5; if (p + k.hdr > b.size()) break; k.unpack = ((size_t)(k.ctl & 31) << 16 | b[p + 1] << 8 | b[p + 2]) + 1; k.pack = (b[p + 3] << 8 | b[p + 4]) + 1; } v.push_back(k); p += k.hdr + k.pack; }
    return v;
}
struct Verdict { bool ok; Bytes out; size_t r; };
static const char* const pathName[] = { "FL2_decompress", "FL2_decompressMt", "FL2_decompressDCtx+prop", "DStream", "DStreamMt", "DStream+prop", "DStreamMt+prop" };
static Verdict decode(Ctx& c, Tape& t, int path, const Bytes& b, size_t want, unsigned th, uint64_t sd) {
    Verdict v; size_t cap = want + (sd & 1 ? 0 : 40000);
    if (path < 3) {
        Guard in(b.data() + (path == 2), b.size() - (path == 2)), out(cap);
        if (path == 0) v.r = FL2_decompress(out.p, cap, in.p, in.n);
        else if (path == 1) v.r = FL2_decompressMt(out.p, cap, in.p, in.n, th);
        else { FL2_DCtx* d = (sd & 2) ? FL2_createDCtx() : FL2_createDCtxMt(th); v.r = FL2_initDCtx(d, b[0]); if (!FL2_isError(v.r)) v.r = FL2_decompressDCtx(d, out.p, cap, in.p, in.n); FL2_freeDCtx(d); }
        v.ok = !FL2_isError(v.r); if (v.ok) { REQUIRE(c, v.r <= cap, "overrun", "%s returned %zu for capacity %zu", pathName[path], v.r, cap); v.out = out.bytes(v.r); } return v;
    }
    Rng r(sd); DecCfg g; g.threads = path == 4 || path == 6 ? th : 1; g.inMode = (unsigned)r.below(4); g.outMode = (unsigned)r.below(4); auto mx = [&](size_t len) { size_t f = len / 300 + 1, m = 1 + r.below(r.below(2) ? len + 40 : 30); return m < f ? f : m; }; g.inMax = mx(b.size()); g.outMax = mx(want); g.seed = r.next(); g.empties = r.below(3) == 0;
    if (g.threads > 1 && r.below(4) == 0) g.memLimit = 1000 + r.below(200000);
    FL2_DStream* d = g.threads > 1 ? FL2_createDStreamMt(g.threads) : FL2_createDStream(); REQUIRE(c, d, "create", "createDStream"); if (g.memLimit) FL2_setDStreamMemoryLimitMt(d, g.memLimit);
    bool wp = path >= 5; DecOut o = run_dstream(c, d, b.data() + wp, b.size() - wp, wp ? (int)b[0] : -1, g, want + 40000, false); FL2_freeDStream(d);
    v.ok = !o.err && o.ret == 0; v.r = o.ret; v.out = o.out; return v;
}
void run_case(Tape& t, Ctx& c) {
    vf_reset(); vf.failLarger = (size_t)96 << 20; vf.fill = (int)t.draw(256);
    Mat m; unsigned src = (unsigned)t.draw(10); bool hash = !t.chance(1, 8); unsigned th = (unsigned)t.range(2, 4);
    if (src == 9) { // streaming encoder with flushes, so that the hash is built up over several blocks
        MakeOpts o; o.api = 2; o.omit = false; o.small = 30000; o.pctSmall = 94; o.pctMid = 4; o.mid = 200000; o.large = 2500000; o.cheap = true; Made k = make_stream(t, c, o); m.b = k.out; m.content = k.in; m.hash = m.b[0] & 0x80; m.src = "cstream"; hash = m.hash;
    } else { m = make_valid(t, c, hash, src < 5 ? 300 : src < 8 ? 6000 : 150000, t.chance(1, 2)); }
    const Bytes orig = m.b; const Bytes& want = m.content; std::vector<Chunk> ch = walk(orig); size_t stored = 0; for (auto& k : ch) stored += k.ctl < 0x80;
    size_t body = orig.size() - (hash ? 4 : 0);   // bytes before the hash
    c.note("%s%s len%zu content%zu chunks%zu ", m.src.c_str(), hash ? "" : " nohash", orig.size(), want.size(), ch.size());
    auto check = [&](const Bytes& b, int path, bool trunc, uint64_t sd, const char* what) {
        Verdict v = decode(c, t, path, b, want.size(), th, sd);
        if (trunc) REQUIRE(c, !v.ok, "truncated", "%s reports a stream cut at %zu of %zu as complete", pathName[path], b.size(), orig.size());
        else if (v.ok) REQUIRE(c, v.out == want, "undetected", "%s accepts an altered stream (%s) with different content (%zu bytes, original %zu)", pathName[path], what, v.out.size(), want.size());
    };
    unsigned mode = (unsigned)t.draw(10); Rng r(t.raw());
    if (mode == 0) { // the unaltered stream
        for (int p = 0; p < 7; p++) { Verdict v = decode(c, t, p, orig, want.size(), th, r.next()); REQUIRE(c, v.ok, "false-alarm", "%s rejects an unaltered stream: %s", pathName[p], ename(v.r)); REQUIRE(c, v.out == want, "content", "%s: wrong content", pathName[p]); }
        c.label("unaltered"); if (!want.empty()) c.nontrivial(hash_bytes(orig)); return;
    }
    if (mode < 4 || !hash) { // truncation: every point of a small stream in a random path, otherwise random points and those near the end
        std::vector<size_t> cuts; if (orig.size() <= 260) for (size_t i = 1; i < orig.size(); i++) cuts.push_back(i); else { for (int i = 0; i < 12; i++) cuts.push_back(1 + r.below(orig.size() - 1)); for (size_t i = orig.size() - 8; i < orig.size(); i++) cuts.push_back(i); for (int i = 0; i < 6 && !ch.empty(); i++) { auto& k = ch[r.below(ch.size())]; cuts.push_back(k.off + r.below(k.hdr + 1)); } }
        for (size_t k : cuts) { Bytes b(orig.begin(), orig.begin() + k); check(b, (int)r.below(7), true, r.next(), "truncated"); }
        for (int p = 0; p < 7; p++) { Bytes b(orig.begin(), orig.end() - 1 - r.below(std::min<size_t>(orig.size() - 1, 6))); if (!b.empty()) check(b, p, true, r.next(), "truncated"); }
        c.label("truncation"); if (!want.empty()) c.nontrivial(hash_bytes(orig)); return;
    }
    if (mode < 6 && orig.size() <= 400) { // every byte of a small stream
        for (size_t i = 1; i < orig.size(); i++) { Bytes b = orig; b[i] ^= (uint8_t)(1 + r.below(255)); check(b, (int)r.below(7), false, r.next(), "one byte"); }
        c.label("every-byte"); if (!want.empty()) c.nontrivial(hash_bytes(orig)); return;
    }
    Bytes b = orig; std::string what; unsigned n = t.chance(2, 3) ? 1 : (unsigned)t.range(2, 4);
    for (unsigned i = 0; i < n; i++) {
        unsigned kind = (unsigned)t.draw(8);
        if (kind < 3 && stored) { size_t pick = (size_t)t.draw(stored); for (auto& k : ch) if (k.ctl < 0x80 && pick-- == 0) { size_t q = t.chance(1, 3) ? (t.chance(1, 2) ? 0 : k.pack - 1) : (size_t)t.draw(k.pack); if (k.off + k.hdr + q < b.size()) b[k.off + k.hdr + q] ^= (uint8_t)t.range(1, 255); what += "stored-byte "; } }
        else if (kind == 3) { size_t q = body + (size_t)t.draw(4); if (q < b.size()) b[q] ^= (uint8_t)t.range(1, 255); what += "hash-byte "; }
        else if (kind == 4 && stored >= 2) { // exchange two bytes of stored data, or two stored chunks of the same size
            std::vector<size_t> s; for (size_t j = 0; j < ch.size(); j++) if (ch[j].ctl < 0x80) s.push_back(j);
            auto& a = ch[s[t.draw(s.size())]]; auto& d = ch[s[t.draw(s.size())]]; size_t l = std::min(a.pack, d.pack), q = (size_t)t.draw(l), w = t.chance(1, 2) ? 1 : l - q; for (size_t j = q; j < q + w; j++) if (d.off + d.hdr + j < b.size() && a.off + a.hdr + j < b.size()) std::swap(b[a.off + a.hdr + j], b[d.off + d.hdr + j]); what += "swap ";
        } else if (kind == 5 && !ch.empty()) { auto& k = ch[t.draw(ch.size())]; size_t q = k.off + k.hdr + (k.ctl >= 0x80 ? 1 : 0) + (size_t)t.draw(k.pack); if (q < body && q < b.size()) b[q] ^= (uint8_t)t.range(1, 255); what += "data-byte "; }
        else { Mat x = m; x.b = b; mutate(t, x); b = x.b; what += "mutation "; if (b.empty()) b.push_back(orig[0]); b[0] = orig[0]; }
    }
    if (b == orig) { c.label("no-change"); return; }
    bool trunc = b.size() < orig.size() && std::equal(b.begin(), b.end(), orig.begin());
    // an altered stream may end early with other bytes after it; content is compared in any case
    c.note("%s", what.c_str());
    for (int p = 0; p < 7; p++) check(b, p, trunc, r.next(), what.c_str());
    c.label("altered"); if (what.find("stored") != std::string::npos) c.label("stored-byte"); if (!want.empty()) c.nontrivial(hash_bytes(b));
}
