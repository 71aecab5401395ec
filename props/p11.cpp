// P11: parameters against a model, over histories of set/get/compress calls.
#include "gen.h"
#include "alloc.h"
#include "fl2_errors.h"
#include "reflzma2.h"
const char* const prop_id = "P11";
const char* const prop_rule = "histories of set/get calls with in-range, edge, out-of-range and 64-bit values interleaved with one-shot and streaming compression, every parameter compared with a model after every call; non-trivial = at least 5 accepted and 3 rejected settings";
void prop_init() {}
static const char* cname(size_t r) { return FL2_isError(r) ? FL2_getErrorName(r) : "ok"; }
struct Def { FL2_cParameter id; const char* name; size_t lo, hi; int kind; }; // kind 0 range, 1 boolean, 2 level, 3 high, 4 dictLog, 5 dictSize, 6 lc, 7 lp, 8 reset
static const Def defs[] = {
    { FL2_p_compressionLevel, "compressionLevel", 1, 10, 2 }, { FL2_p_highCompression, "highCompression", 0, 1, 3 }, { FL2_p_dictionaryLog, "dictionaryLog", 20, 30, 4 }, { FL2_p_dictionarySize, "dictionarySize", 1u << 20, 1u << 30, 5 },
    { FL2_p_overlapFraction, "overlapFraction", 0, 14, 0 }, { FL2_p_resetInterval, "resetInterval", 1, 16, 8 }, { FL2_p_bufferResize, "bufferResize", 0, 4, 0 }, { FL2_p_hybridChainLog, "hybridChainLog", 4, 14, 0 }, { FL2_p_hybridCycles, "hybridCycles", 1, 64, 0 },
    { FL2_p_searchDepth, "searchDepth", 6, 254, 0 }, { FL2_p_fastLength, "fastLength", 6, 273, 0 }, { FL2_p_divideAndConquer, "divideAndConquer", 0, 1, 1 }, { FL2_p_strategy, "strategy", 0, 2, 0 },
    { FL2_p_literalCtxBits, "literalCtxBits", 0, 4, 6 }, { FL2_p_literalPosBits, "literalPosBits", 0, 4, 7 }, { FL2_p_posBits, "posBits", 0, 4, 0 }, { FL2_p_omitProperties, "omitProperties", 0, 1, 1 },
#ifndef NO_XXHASH
    { FL2_p_doXXHash, "doXXHash", 0, 1, 1 },
#endif
};
enum { ND = sizeof defs / sizeof defs[0] };
struct Model {
    size_t v[ND]; bool locked = false;
    static int ix(FL2_cParameter p) { for (int i = 0; i < ND; i++) if (defs[i].id == p) return i; return -1; }
    size_t& at(FL2_cParameter p) { return v[ix(p)]; }
    void dict(size_t d) { at(FL2_p_dictionarySize) = d; size_t l = 20; while (((size_t)1 << l) < d) l++; at(FL2_p_dictionaryLog) = l; }
    void level(Ctx& c, size_t lvl) {
        FL2_compressionParameters p; size_t r = FL2_getLevelParameters((int)lvl, (int)at(FL2_p_highCompression), &p); REQUIRE(c, r == 0, "level-query", "getLevelParameters(%zu): %s", lvl, cname(r));
        if (at(FL2_p_highCompression)) REQUIRE(c, p.dictionarySize == (size_t)1 << (19 + lvl), "high-table", "high compression level %zu has dictionary %zu, documented 1 << %zu", lvl, p.dictionarySize, 19 + lvl);
        dict(p.dictionarySize); at(FL2_p_overlapFraction) = p.overlapFraction; at(FL2_p_hybridChainLog) = p.chainLog; at(FL2_p_hybridCycles) = (size_t)1 << p.cyclesLog; at(FL2_p_searchDepth) = p.searchDepth; at(FL2_p_fastLength) = p.fastLength; at(FL2_p_divideAndConquer) = p.divideAndConquer; at(FL2_p_strategy) = p.strategy;
        at(FL2_p_literalCtxBits) = 3; at(FL2_p_literalPosBits) = 0; at(FL2_p_posBits) = 2; at(FL2_p_bufferResize) = FL2_BUFFER_RESIZE_DEFAULT; at(FL2_p_compressionLevel) = lvl;
        for (int i = 0; i < ND; i++) REQUIRE(c, (v[i] >= defs[i].lo || defs[i].kind == 8) && v[i] <= defs[i].hi, "level-range", "level %zu sets %s to %zu", lvl, defs[i].name, v[i]);
    }
};
static void compare(Ctx& c, FL2_CCtx* s, const Model& m, const char* after, uint64_t n) {
    for (int i = 0; i < ND; i++) { size_t g = (n & 1) ? FL2_CCtx_getParameter(s, defs[i].id) : FL2_CStream_getParameter(s, defs[i].id); REQUIRE(c, g == m.v[i], "readback", "op %llu (%s): %s reads %zu, expected %zu", (unsigned long long)n, after, defs[i].name, g, m.v[i]); }
}
// The properties which the chunks of a stream declare are those in effect when their block was compressed.
struct Block { size_t end; int lc, lp, pb; };
static Block block_of(Model& m, size_t end) { int lc = (int)m.at(FL2_p_literalCtxBits), lp = (int)m.at(FL2_p_literalPosBits); return { end, lc + lp > 4 ? 4 - lp : lc, lp, (int)m.at(FL2_p_posBits) }; }
static void check_chunks(Ctx& c, const uint8_t* p, size_t n, bool omit, uint64_t dict, const std::vector<Block>& blocks, const Bytes& content, const char* what) {
    RefResult r = ref_decode_raw(p + (omit ? 0 : 1), n - (omit ? 0 : 1), dict); REQUIRE(c, r.ok() && r.out == content, "content", "%s: reference decoder: %s", what, r.err.c_str());
    size_t b = 0; for (auto& k : r.chunks) { while (b < blocks.size() && k.outOff >= blocks[b].end) b++; REQUIRE(c, b < blocks.size(), "content", "%s: chunk beyond the content", what); if (k.control < 0x80) continue;
        REQUIRE(c, k.lc == blocks[b].lc && k.lp == blocks[b].lp && k.pb == blocks[b].pb, "effect", "%s: chunk at %zu (content %zu) declares lc%d lp%d pb%d, set were lc%d lp%d pb%d", what, k.off, k.outOff, k.lc, k.lp, k.pb, blocks[b].lc, blocks[b].lp, blocks[b].pb); c.label("chunk-properties"); if (blocks.size() > 1) c.label("several-blocks"); }
}
void run_case(Tape& t, Ctx& c) {
    vf_reset(); vf.fill = (int)t.draw(256); vf.failLarger = (size_t)40 << 20;
    bool stream = t.chance(1, 2), dual = stream && t.chance(1, 3); unsigned th = (unsigned)t.range(1, 3);
    FL2_CCtx* s = stream ? FL2_createCStreamMt(th, dual) : FL2_createCCtxMt(th); REQUIRE(c, s, "create", "create failed");
    REQUIRE(c, FL2_maxCLevel() == 10 && FL2_maxHighCLevel() == 10, "max-level", "%d %d", FL2_maxCLevel(), FL2_maxHighCLevel());
    Model m; memset(m.v, 0, sizeof m.v); m.at(FL2_p_resetInterval) = 4; m.level(c, 6);
#ifndef NO_XXHASH
    m.at(FL2_p_doXXHash) = 1;
#endif
    // the documented defaults
    static const struct { FL2_cParameter id; size_t v; } dflt[] = { { FL2_p_compressionLevel, 6 }, { FL2_p_highCompression, 0 }, { FL2_p_dictionaryLog, 24 }, { FL2_p_dictionarySize, 16u << 20 }, { FL2_p_overlapFraction, 2 }, { FL2_p_resetInterval, 4 }, { FL2_p_bufferResize, 2 }, { FL2_p_hybridChainLog, 9 },
        { FL2_p_hybridCycles, 1 }, { FL2_p_searchDepth, 42 }, { FL2_p_fastLength, 48 }, { FL2_p_divideAndConquer, 1 }, { FL2_p_strategy, FL2_ultra }, { FL2_p_literalCtxBits, 3 }, { FL2_p_literalPosBits, 0 }, { FL2_p_posBits, 2 } };
    for (auto& d : dflt) { size_t g = FL2_CCtx_getParameter(s, d.id); REQUIRE(c, g == d.v, "default", "%s of a new object is %zu, documented default %zu", defs[Model::ix(d.id)].name, g, d.v); }
    compare(c, s, m, "create", 0); Bytes acc, fed; std::vector<Block> blocks; bool accOmit = false; uint64_t accDict = 0;
    unsigned n = (unsigned)t.range(3, 40), good = 0, bad = 0, lockedTries = 0, frames = 0; Bytes data = random_bytes(7, 3000); for (size_t i = 300; i < data.size(); i++) data[i] = (i / 500) & 1 ? data[i - 300] : (uint8_t)("etaoin srhldcu"[data[i] % 14]); Bytes out(FL2_compressBound(3000) + 100); const char* what = ""; bool focus = stream && t.chance(1, 4);   // mostly lc, lp and pb changed between the blocks of a stream
    c.note("%s%s th%u ops%u ", stream ? "stream" : "ctx", dual ? " dual" : "", th, n);
    for (unsigned i = 1; i <= n; i++) {
        unsigned k = focus ? m.locked ? t.chance(2, 5) ? 0 : t.chance(7, 8) ? 82 : 90 : 75 : (unsigned)t.draw(100);
        if (k < 60) { // set
            const Def& d = focus ? defs[13 + t.draw(3)] : defs[t.draw(ND)]; size_t v; unsigned vk = (unsigned)t.draw(10); static const size_t odd[] = { (size_t)1 << 32, ((size_t)1 << 32) + 5, ((size_t)1 << 32) + 20, (size_t)1 << 31, 0x80000000u + 6, 255, 256, 65536, 1000000, ((size_t)1 << 33) + 8, (size_t)1 << 63 };
            if (vk < 5) v = (size_t)t.range(d.lo, d.hi); else if (vk == 5) v = d.lo; else if (vk == 6) v = d.hi; else if (vk == 7) v = d.hi + 1 + (size_t)t.draw(3); else if (vk == 8) v = d.lo ? d.lo - 1 - (size_t)t.draw(d.lo < 4 ? d.lo : 4) : d.hi + 1; else v = odd[t.draw(sizeof odd / sizeof *odd)];
            size_t r = t.chance(1, 2) ? FL2_CCtx_setParameter(s, d.id, v) : FL2_CStream_setParameter(s, d.id, v); what = d.name;
            bool exempt = d.id == FL2_p_literalCtxBits || d.id == FL2_p_literalPosBits || d.id == FL2_p_posBits, isBool = d.kind == 1 || d.kind == 3, inRange = isBool || (v >= d.lo && v <= d.hi) || (d.kind == 8 && v == 0);
            if (m.locked && !exempt) { lockedTries++; REQUIRE(c, FL2_isError(r) && FL2_getErrorCode(r) == FL2_error_stage_wrong, "locked", "op %u: set %s=%zu during a frame gives %s", i, d.name, v, cname(r)); }
            else if (!inRange) { bad++; REQUIRE(c, FL2_isError(r) && FL2_getErrorCode(r) == FL2_error_parameter_outOfBound, "range", "op %u: set %s=%zu gives %s", i, d.name, v, cname(r)); }
            else {
                good++; size_t other = d.kind == 6 ? m.at(FL2_p_literalPosBits) : d.kind == 7 ? m.at(FL2_p_literalCtxBits) : 0;
                if ((d.kind == 6 || d.kind == 7) && v + other > 4) { REQUIRE(c, FL2_isError(r) && FL2_getErrorCode(r) == FL2_error_lclpMax_exceeded, "lclp", "op %u: %s=%zu with the other %zu gives %s", i, d.name, v, other, cname(r)); c.label("lc+lp>4"); }
                else REQUIRE(c, r == v || (isBool && !FL2_isError(r)), "accept", "op %u: set %s=%zu returns %zu (%s)", i, d.name, v, r, cname(r));
                switch (d.kind) { case 2: m.level(c, v); break; case 3: m.at(d.id) = v != 0; m.level(c, m.at(FL2_p_compressionLevel)); break; case 1: m.at(d.id) = v != 0; break; case 4: m.dict((size_t)1 << v); break; case 5: m.dict(v); break; default: m.at(d.id) = v; }
            }
        } else if (k < 66) { // unknown parameters
            static const int odd[] = { 1000, -1, 100, 1 << 20, 40 }; FL2_cParameter p = (FL2_cParameter)odd[t.draw(5)]; what = "unknown"; size_t r = FL2_CCtx_getParameter(s, p); REQUIRE(c, FL2_isError(r) && FL2_getErrorCode(r) == FL2_error_parameter_unsupported, "unsupported", "get of parameter %d: %s", (int)p, cname(r));
            r = FL2_CCtx_setParameter(s, p, 1); FL2_ErrorCode e = m.locked ? FL2_error_stage_wrong : FL2_error_parameter_unsupported; REQUIRE(c, FL2_isError(r) && (FL2_getErrorCode(r) == e || FL2_getErrorCode(r) == FL2_error_parameter_unsupported), "unsupported", "set of parameter %d: %s", (int)p, cname(r));
        } else if (k < 70) { // level queries and tables
            static const int lv[] = { -1, 11, 100, 1 << 30, -1000000, 12 }; FL2_compressionParameters p; int l = lv[t.draw(6)]; what = "query"; size_t r = FL2_getLevelParameters(l, (int)t.draw(2), &p); REQUIRE(c, FL2_isError(r) && FL2_getErrorCode(r) == FL2_error_parameter_outOfBound, "level-query", "getLevelParameters(%d): %s", l, cname(r));
        } else if (!stream || k < 73) { // one-shot (not while a stream is open)
            if (m.locked) continue;
            if (m.at(FL2_p_dictionarySize) > (4u << 20) && t.chance(3, 4)) { size_t r = FL2_CCtx_setParameter(s, FL2_p_dictionarySize, 1 << 20); REQUIRE(c, r == 1 << 20, "accept", "dictionary size: %s", cname(r)); m.dict(1 << 20); }
            int lvl = t.chance(1, 3) ? (int)t.range(1, m.at(FL2_p_highCompression) ? 1 : 4) : 0; bool badLevel = t.chance(1, 10); if (badLevel) lvl = 11 + (int)t.draw(100); size_t len = (size_t)t.logsize(3000), cap = t.chance(1, 3) ? (size_t)t.draw(60) : out.size(); what = "compressCCtx";
            size_t r = FL2_compressCCtx(s, out.data(), cap, data.data(), len, lvl); if (badLevel) REQUIRE(c, FL2_isError(r), "level-arg", "level %d accepted", lvl); else if (cap == out.size()) REQUIRE(c, !FL2_isError(r) || FL2_getErrorCode(r) == FL2_error_memory_allocation, "compress", "compressCCtx: %s", cname(r));
            if (lvl > 0 && !badLevel && cap >= 2u - m.at(FL2_p_omitProperties)) m.level(c, (size_t)lvl); if (FL2_isError(r)) c.label("failed-oneshot"); else { size_t d = m.at(FL2_p_dictionarySize); check_chunks(c, out.data(), r, m.at(FL2_p_omitProperties), d, { block_of(m, len) }, Bytes(data.begin(), data.begin() + len), "compressCCtx"); } frames++;
        } else if (k < 80) { // start a stream
            bool small = focus || t.chance(2, 3); if (small && !m.locked && m.at(FL2_p_dictionarySize) > (2u << 20)) { size_t r = FL2_CStream_setParameter(s, FL2_p_dictionarySize, 1 << 20); REQUIRE(c, r == 1 << 20, "accept", "dictionary size: %s", cname(r)); m.dict(1 << 20); }
            int lvl = !focus && t.chance(1, 4) ? (int)t.range(1, 10) : 0; bool badLevel = t.chance(1, 8); if (badLevel) lvl = 11 + (int)t.draw(3); what = "initCStream"; size_t r = FL2_initCStream(s, lvl);
            m.locked = false; if (badLevel) REQUIRE(c, FL2_isError(r), "level-arg", "initCStream accepts level %d", lvl); else { if (lvl) m.level(c, (size_t)lvl); if (FL2_isError(r)) { REQUIRE(c, FL2_getErrorCode(r) == FL2_error_memory_allocation && m.at(FL2_p_dictionarySize) > (4u << 20), "init", "initCStream(%d) with dictionary %zu: %s", lvl, m.at(FL2_p_dictionarySize), cname(r)); c.label("init-oom"); } else { m.locked = true; acc.clear(); fed.clear(); blocks.clear(); accOmit = m.at(FL2_p_omitProperties); accDict = m.at(FL2_p_dictionarySize); } } frames++;
        } else if (k < 88) { if (!m.locked) continue; size_t l = (size_t)t.logsize(3000); FL2_inBuffer ib = { data.data(), l, 0 }; FL2_outBuffer ob = { out.data(), out.size(), 0 }; what = "compressStream"; size_t r = FL2_compressStream(s, &ob, &ib); REQUIRE(c, !FL2_isError(r), "compress", "compressStream: %s", cname(r)); fed.insert(fed.end(), data.begin(), data.begin() + ib.pos); acc.insert(acc.end(), out.begin(), out.begin() + ob.pos);
            if (t.chance(1, 3)) { unsigned g = 0; do { ob.pos = 0; r = FL2_flushStream(s, &ob); REQUIRE(c, !FL2_isError(r) && ++g < 1000, "flush", "%s", cname(r)); acc.insert(acc.end(), out.begin(), out.begin() + ob.pos); } while (r); blocks.push_back(block_of(m, fed.size())); }
        } else if (k < 95) { if (!m.locked) continue; what = "endStream"; size_t r; unsigned g = 0; do { FL2_outBuffer ob = { out.data(), out.size(), 0 }; r = FL2_endStream(s, &ob); REQUIRE(c, !FL2_isError(r) && ++g < 1000, "end", "%s", cname(r)); acc.insert(acc.end(), out.begin(), out.begin() + ob.pos); } while (r); m.locked = false; c.label("ended");
            blocks.push_back(block_of(m, fed.size())); check_chunks(c, acc.data(), acc.size(), accOmit, accDict, blocks, fed, "stream");
        } else { what = "cancel"; FL2_cancelCStream(s); m.locked = false; }
        compare(c, s, m, what, i);
    }
    FL2_freeCCtx(s); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks", vf.liveCount);
    if (lockedTries) c.label("set-during-frame"); if (frames) c.label("frames"); c.note("good%u bad%u locked%u ", good, bad, lockedTries);
    if (good >= 5 && bad >= 3) c.nontrivial(hash_bytes(m.v, sizeof m.v, t.n));
}
