// P22: misuse.  Calls in any order with degenerate arguments, on objects in any state.
#include "mkstream.h"
#include "mutate.h"
const char* const prop_id = "P22";
const char* const prop_rule = "call orders over the whole API on fresh, active, finished, cancelled and failed objects with zero sizes, NULL pointers of empty buffers, invalid levels, parameters and properties; every result checked against a model of the stage or for being a valid value or a named error, accepted data must still come out, and the object must work after re-initialisation; non-trivial = at least 3 calls rejected or made at the wrong stage";
void prop_init() {}
static bool named(size_t r) { int e = (int)FL2_getErrorCode(r); return e > 0 && e <= 15 && strcmp(FL2_getErrorName(r), FL2_getErrorString((FL2_ErrorCode)20)) != 0; }
// a size_t result: an error with a name or a value up to max
static void valid(Ctx& c, size_t r, size_t max, const char* what) { if (FL2_isError(r)) REQUIRE(c, named(r), "unnamed", "%s returned %zd, an error without a name", what, (ssize_t)r); else REQUIRE(c, r <= max, "ret-value", "%s returned %zu", what, r); }
static void expect(Ctx& c, size_t r, FL2_ErrorCode e, const char* what, const char* state) { REQUIRE(c, FL2_getErrorCode(r) == e && (e || !FL2_isError(r)), "ret-code", "%s on %s object: %s, expected %s", what, state, cname(r), FL2_getErrorString(e)); }

static void codes_case(Tape& t, Ctx& c) {
    std::vector<std::string> names; const char* un = FL2_getErrorString((FL2_ErrorCode)FL2_error_maxCode);
    for (int e = 0; e <= 15; e++) { const char* s = FL2_getErrorString((FL2_ErrorCode)e); REQUIRE(c, s && *s && strcmp(s, un), "name", "error code %d has no name", e); for (auto& o : names) REQUIRE(c, o != s, "name", "error code %d shares the name \"%s\"", e, s); names.push_back(s);
        size_t r = (size_t)0 - (size_t)e; REQUIRE(c, (FL2_isError(r) != 0) == (e != 0), "is-error", "FL2_isError(-%d)", e); REQUIRE(c, (int)FL2_getErrorCode(r) == e && names.back() == FL2_getErrorName(r), "code", "code of -%d", e); REQUIRE(c, (FL2_isTimedOut(r) != 0) == (e == FL2_error_timedOut), "is-timeout", "FL2_isTimedOut(-%d)", e); }
    for (int i = 0; i < 300; i++) { size_t v = t.draw(2) ? (size_t)t.logsize(~0ull >> 1) : (size_t)t.draw(1 << 20); REQUIRE(c, !FL2_isError(v) && !FL2_isTimedOut(v) && FL2_getErrorCode(v) == 0, "is-error", "size %zu taken for an error", v); REQUIRE(c, !strcmp(FL2_getErrorName(v), names[0].c_str()), "name", "size %zu has an error name", v); int e = (int)t.range(16, 100000); const char* s = FL2_getErrorString((FL2_ErrorCode)e); REQUIRE(c, s && !strcmp(s, un), "name", "undefined code %d has a name", e); s = FL2_getErrorName((size_t)0 - (size_t)e); REQUIRE(c, s != NULL, "name", "no name"); }
    // functions without an object
    for (int i = 0; i < 20; i++) {
        int lvl = t.draw(2) ? (int)t.range(0, 30) - 12 : (int)(t.raw() & 0xFFFFFFFF), high = (int)t.draw(3); FL2_compressionParameters p; memset(&p, 0, sizeof p); size_t r = FL2_getLevelParameters(lvl, high, &p); valid(c, r, 0, "getLevelParameters"); bool in = lvl >= 0 && lvl <= 10; REQUIRE(c, FL2_isError(r) ? FL2_getErrorCode(r) == FL2_error_parameter_outOfBound && !(in && lvl > 0) : in, "level", "getLevelParameters(%d): %s", lvl, cname(r));
        unsigned th = (unsigned)t.range(0, 300); r = FL2_estimateCCtxSize(lvl, th); REQUIRE(c, in ? !FL2_isError(r) : FL2_isError(r) && named(r), "level", "estimateCCtxSize(%d): %s", lvl, cname(r)); r = FL2_estimateCStreamSize(lvl, th, (int)t.draw(2)); REQUIRE(c, in ? !FL2_isError(r) : FL2_isError(r) && named(r), "level", "estimateCStreamSize(%d): %s", lvl, cname(r));
        unsigned prop = (unsigned)t.draw(256); r = FL2_getDictSizeFromProp((unsigned char)prop); REQUIRE(c, FL2_isError(r) ? named(r) : r >= 4096, "prop", "getDictSizeFromProp(%u): %zu", prop, r);
        Bytes one((size_t)t.draw(4)); for (auto& x : one) x = (uint8_t)t.draw(256); Guard g(one); unsigned long long d = FL2_findDecompressedSize(g.p, g.n); (void)d; d = FL2_findDecompressedSize(NULL, 0); REQUIRE(c, d == FL2_CONTENTSIZE_ERROR, "find-size", "size of nothing: %llu", d);
        Guard o((size_t)t.draw(3)); r = FL2_decompressMt(o.p, o.n, g.p, g.n, th % 4); valid(c, r, o.n, "decompressMt"); r = FL2_decompress(NULL, 0, NULL, 0); REQUIRE(c, FL2_isError(r) && named(r), "nothing", "decompressing nothing: %s", cname(r)); 
    }
    FL2_freeCCtx(NULL); FL2_freeCStream(NULL); FL2_freeDCtx(NULL); FL2_freeDStream(NULL);
    c.label("codes");
}

struct CObj {
    Tape& t; Ctx& c; FL2_CStream* s; unsigned th; bool dual, async = false, live = false, ended = false, busyMay = false, junk = false; unsigned idle = 0, misuse = 0; Bytes fed, out; Bytes inbuf; std::string log;
    CObj(Tape& t_, Ctx& c_) : t(t_), c(c_) {}
    const char* state() { return live ? "an active" : ended ? "a finished" : "an uninitialised"; }
    void dead() { live = ended = false; junk = true; idle = 0; }
    size_t settle(size_t r) { unsigned n = 0; while (FL2_isTimedOut(r)) { r = FL2_waitCStream(s); REQUIRE(c, ++n < 3000000, "timeout-forever", "never completes"); } return r; }
    // a call limit without progress may end the stream with an error of its own
    bool limit(size_t r, bool moved) { idle = moved ? 0 : idle + 1; if (FL2_getErrorCode(r) == FL2_error_buffer) { REQUIRE(c, idle > 3, "no-progress", "the stream is given up after %u calls without progress", idle); dead(); return true; } return false; }
    void op() {
        unsigned k = (unsigned)t.draw(23); size_t r; log += (char)('a' + k);
        switch (k) {
        case 0: { // init
            int lvl = t.chance(1, 2) ? 0 : t.chance(1, 2) ? (int)t.range(1, 3) : t.draw(2) ? (int)t.range(11, 1000) : -(int)t.range(1, 100); bool bad = lvl > 10; if (!bad && lvl > 0 && FL2_CCtx_getParameter(s, FL2_p_highCompression)) lvl = 0;
            r = FL2_initCStream(s, lvl); if (bad) { expect(c, r, FL2_error_parameter_outOfBound, "initCStream with an invalid level", state()); misuse++; dead(); } else { expect(c, r, FL2_error_no_error, "initCStream", state()); REQUIRE(c, r == 0, "ret-value", "initCStream returned %zu", r); if (live || ended || junk) misuse += live; live = true; ended = junk = false; idle = 0; fed.clear(); out.clear(); }
            if (lvl > 0 && !bad) { FL2_CCtx_setParameter(s, FL2_p_dictionarySize, 1 << 20); } break; }
        case 1: case 2: case 3: { // compress
            size_t n = t.chance(1, 4) ? 0 : (size_t)t.draw(3000), on = t.chance(1, 3) ? 0 : (size_t)t.draw(5000); Bytes d(n); Rng g(t.raw()); for (auto& x : d) x = (uint8_t)(g.next() & 7); Guard gi(d), go(on); bool nul = t.chance(1, 3); FL2_inBuffer ib = { n ? gi.p : NULL, n, 0 }; FL2_outBuffer ob = { on ? go.p : NULL, on, 0 };
            r = FL2_compressStream(s, nul ? NULL : &ob, &ib); REQUIRE(c, ib.pos <= n && ob.pos <= on, "pos", "positions"); if (!live) { expect(c, r, FL2_error_init_missing, "compressStream", state()); REQUIRE(c, ib.pos == 0 && ob.pos == 0, "moved", "a rejected call used input or wrote output"); misuse++; break; }
            fed.insert(fed.end(), d.begin(), d.begin() + ib.pos); out.insert(out.end(), go.p, go.p + ob.pos); if (FL2_isTimedOut(r)) { r = settle(r); break; } if (limit(r, ib.pos || ob.pos)) break; REQUIRE(c, !FL2_isError(r) && r <= 1, "ret-code", "compressStream: %s", cname(r)); break; }
        case 4: case 5: { // flush
            size_t on = t.chance(1, 3) ? 0 : (size_t)t.draw(5000); Guard go(on); FL2_outBuffer ob = { on ? go.p : NULL, on, 0 }; bool nul = t.chance(1, 3); r = FL2_flushStream(s, nul ? NULL : &ob); if (!live) { expect(c, r, FL2_error_init_missing, "flushStream", state()); REQUIRE(c, ob.pos == 0, "moved", "a rejected call wrote output"); misuse++; break; }
            out.insert(out.end(), go.p, go.p + ob.pos); if (FL2_isTimedOut(r)) { settle(r); break; } if (limit(r, ob.pos || nul)) break; REQUIRE(c, !FL2_isError(r) && r <= 1, "ret-code", "flushStream: %s", cname(r)); break; }
        case 6: { // end
            size_t on = t.chance(1, 3) ? 0 : (size_t)t.draw(5000); Guard go(on); FL2_outBuffer ob = { on ? go.p : NULL, on, 0 }; bool nul = t.chance(1, 4); if (junk) { r = FL2_endStream(s, nul ? NULL : &ob); valid(c, r, 1, "endStream"); misuse++; break; }
            r = FL2_endStream(s, nul ? NULL : &ob); if (!live && !ended) { expect(c, r, FL2_error_init_missing, "endStream", state()); misuse++; break; }
            out.insert(out.end(), go.p, go.p + ob.pos); if (FL2_isTimedOut(r)) { settle(r); break; } if (limit(r, ob.pos || nul)) break; REQUIRE(c, !FL2_isError(r) && r <= 1, "ret-code", "endStream: %s", cname(r));
            // the parameters are unlocked as soon as the end marker is in the buffers
            size_t q = FL2_CCtx_setParameter(s, FL2_p_divideAndConquer, FL2_CCtx_getParameter(s, FL2_p_divideAndConquer)); if (r == 0) { REQUIRE(c, !FL2_isError(q), "locked", "parameters locked after the end: %s", cname(q)); if (live) check_content(); live = false; ended = true; idle = 0; } else if (!FL2_isError(q)) { live = false; ended = true; } break; }
        case 7: { FL2_dictBuffer d; d.dst = NULL; d.size = 0; r = FL2_getDictionaryBuffer(s, &d); if (!live) { expect(c, r, FL2_error_init_missing, "getDictionaryBuffer", state()); misuse++; break; } if (FL2_isTimedOut(r)) { settle(r); break; } REQUIRE(c, r == 0, "ret-code", "getDictionaryBuffer: %s", cname(r)); size_t n = t.chance(1, 8) ? d.size : (size_t)t.draw(3000); if (n > d.size) n = d.size; if (n > 0x20000 && fed.size() > 0x300000) n = 100 < d.size ? 100 : d.size; uint8_t v = (uint8_t)t.draw(256); if (n) memset(d.dst, v, n); r = FL2_updateDictionary(s, n); fed.insert(fed.end(), n, v); if (FL2_isTimedOut(r)) { r = settle(r); break; } REQUIRE(c, !FL2_isError(r) && r <= 1, "ret-code", "updateDictionary: %s", cname(r)); break; }
        case 8: if (live) { r = FL2_updateDictionary(s, 0); if (FL2_isTimedOut(r)) { settle(r); break; } valid(c, r, 1, "updateDictionary(0)"); } else { size_t n = t.draw(2) ? 0 : (size_t)t.draw(100000); r = FL2_updateDictionary(s, n); if (n) expect(c, r, FL2_error_init_missing, "updateDictionary", state()); else valid(c, r, 1, "updateDictionary"); misuse++; } break;
        case 9: { FL2_cBuffer cb; memset(&cb, 0xEE, sizeof cb); r = FL2_getNextCompressedBuffer(s, &cb); if (FL2_isTimedOut(r)) { REQUIRE(c, cb.size == 0, "cbuf", "a buffer with the timeout"); settle(r); break; } REQUIRE(c, !FL2_isError(r) && cb.size == r, "ret-code", "getNextCompressedBuffer: %s, size %zu", cname(r), cb.size); if (!junk) { if (r) { if (live || ended) out.insert(out.end(), (const uint8_t*)cb.src, (const uint8_t*)cb.src + r); else c.fail("cbuf", "output from an uninitialised stream"); } } break; }
        case 10: { size_t on = t.chance(1, 3) ? 0 : (size_t)t.draw(3000); Guard go(on); FL2_outBuffer ob = { on ? go.p : NULL, on, 0 }; r = FL2_copyCStreamOutput(s, &ob); REQUIRE(c, !FL2_isError(r) && r <= 1 && ob.pos <= on, "ret-code", "copyCStreamOutput: %s", cname(r)); if (!junk) { REQUIRE(c, !ob.pos || live || ended, "output", "output from an uninitialised stream"); out.insert(out.end(), go.p, go.p + ob.pos); } break; }
        case 11: r = settle(FL2_waitCStream(s)); valid(c, r, 1, "waitCStream"); if (!junk && !live && !ended) REQUIRE(c, r == 0, "ret-value", "waitCStream on %s object: %zu", state(), r); break;
        case 12: r = FL2_remainingOutputSize(s); if (!junk) { REQUIRE(c, !FL2_isError(r), "ret-code", "remainingOutputSize: %s", cname(r)); if (!live && !ended) REQUIRE(c, r == 0, "ret-value", "remainingOutputSize on %s object: %zu", state(), r); } break;
        case 13: { unsigned long long o; unsigned long long p = FL2_getCStreamProgress(s, t.draw(2) ? &o : NULL); if (!live && !ended && !junk) REQUIRE(c, p == 0, "progress", "progress of %s object: %llu", state(), p); break; }
        case 14: FL2_cancelCStream(s); if (!live) misuse++; dead(); break;
        case 15: r = FL2_setCStreamTimeout(s, t.draw(3) ? (unsigned)t.draw(3) : 100000); REQUIRE(c, r == 0, "ret-code", "setCStreamTimeout: %s", cname(r)); break;
        case 16: case 17: { // parameters, harmless ones
            unsigned p = (unsigned)t.draw(24); size_t v = t.draw(3) ? (size_t)t.draw(20) : (size_t)t.raw(); FL2_cParameter q = (FL2_cParameter)p; if (p > 19) q = (FL2_cParameter)t.range(30, 5000); if (q == FL2_p_dictionaryLog || q == FL2_p_dictionarySize || q == FL2_p_compressionLevel || q == FL2_p_highCompression) v = q == FL2_p_dictionarySize ? 0 : q == FL2_p_highCompression ? 0 : 77; if (q == FL2_p_omitProperties && live) v = 0;
            if (v > (size_t)-1000) v = 100; bool lcl = q == FL2_p_literalCtxBits || q == FL2_p_literalPosBits || q == FL2_p_posBits; if (q == FL2_p_highCompression || q == FL2_p_omitProperties || q == FL2_p_doXXHash) { if (!live) break; } r = FL2_CCtx_setParameter(s, q, v); if (live && !lcl) { expect(c, r, FL2_error_stage_wrong, "setParameter", state()); misuse++; } else if (FL2_isError(r)) { REQUIRE(c, named(r), "unnamed", "setParameter"); misuse++; } if (lcl) { FL2_CCtx_setParameter(s, FL2_p_literalCtxBits, 0); FL2_CCtx_setParameter(s, FL2_p_literalPosBits, 0); } if (!live && q == FL2_p_resetInterval) FL2_CCtx_setParameter(s, q, 4); if (p > 19) { r = FL2_CCtx_getParameter(s, q); expect(c, r, FL2_error_parameter_unsupported, "getParameter", state()); misuse++; } break; }
        case 18: { // one-shot on whatever is going on
            size_t n = (size_t)t.draw(3000), on = t.chance(1, 4) ? (size_t)t.draw(3) : t.chance(1, 4) ? (size_t)t.draw(n + 1) : FL2_compressBound(n); Bytes d(n); Rng g(t.raw()); for (auto& x : d) x = (uint8_t)(g.next() & 15); Guard gi(d), go(on); int lvl = t.chance(1, 3) ? (int)t.range(11, 200) : 0; r = FL2_compressCCtx(s, on ? go.p : NULL, on, n ? gi.p : NULL, n, lvl); bool wasLive = live;
            if (on < 1) { expect(c, r, FL2_error_dstSize_tooSmall, "compressCCtx without space", state()); misuse++; break; } if (on < 2 && FL2_getErrorCode(r) == FL2_error_dstSize_tooSmall) { misuse++; if (!(live && stillLive())) dead(); break; }
            if (lvl) { misuse++; expect(c, r, wasLive ? FL2_error_stage_wrong : FL2_error_parameter_outOfBound, "compressCCtx with an invalid level", state()); break; }
            if (FL2_isError(r)) { REQUIRE(c, FL2_getErrorCode(r) == FL2_error_dstSize_tooSmall && on < FL2_compressBound(n), "ret-code", "compressCCtx: %s with space %zu for %zu", cname(r), on, n); misuse++; } else { REQUIRE(c, r <= on, "ret-value", "compressCCtx returned %zu of %zu", r, on); cs_check(c, go.bytes(r), d, FL2_CCtx_getParameter(s, FL2_p_omitProperties), FL2_getCCtxDictProp(s), -1, "one-shot"); }
            misuse += wasLive; dead(); break; }
        case 19: REQUIRE(c, FL2_getCCtxThreadCount(s) == th, "threads", "getCCtxThreadCount: %u of %u", FL2_getCCtxThreadCount(s), th); REQUIRE(c, FL2_getCCtxDictProp(s) <= 40, "prop", "getCCtxDictProp: %u", FL2_getCCtxDictProp(s)); break;
        case 20: r = FL2_estimateCCtxSize_usingCCtx(s); valid(c, r, (size_t)1 << 40, "estimate"); r = FL2_estimateCStreamSize_usingCStream(s); valid(c, r, (size_t)1 << 40, "estimate"); break;
        case 21: { // calls without input or output space, until the stream is given up; a new one must have its full allowance
            unsigned m = (unsigned)t.range(1, 16); bool end = t.chance(1, 4); for (unsigned round = 0; round < 2 && live && !junk; round++) { for (unsigned i = 0; i < m && live; i++) { FL2_inBuffer ib = { NULL, 0, 0 }; FL2_outBuffer ob = { NULL, 0, 0 }; r = end && i == 0 ? FL2_flushStream(s, &ob) : FL2_compressStream(s, &ob, &ib); if (FL2_isTimedOut(r)) { settle(r); idle = 0; break; } if (limit(r, false)) { misuse++; break; } REQUIRE(c, !FL2_isError(r) && r <= 1, "ret-code", "call without data: %s", cname(r)); }
                if (live || t.chance(1, 3)) break; r = FL2_initCStream(s, 0); REQUIRE(c, r == 0, "reinit", "initCStream: %s", cname(r)); live = true; ended = junk = false; idle = 0; fed.clear(); out.clear(); m = 3; c.label("reinit after idle calls"); }
            break; }
        default: { // finish properly
            if (!live || (!junk && idle > 6)) break; finish(); break; }
        }
    }
    bool stillLive() { return FL2_getErrorCode(FL2_CCtx_setParameter(s, FL2_p_divideAndConquer, 0)) == FL2_error_stage_wrong; }
    void finish() { uint8_t ob[4096]; unsigned n = 0; for (;;) { FL2_outBuffer o = { ob, sizeof ob, 0 }; size_t r = FL2_endStream(s, &o); out.insert(out.end(), ob, ob + o.pos); if (FL2_isTimedOut(r)) { r = settle(r); REQUIRE(c, !FL2_isError(r), "ret-code", "waitCStream: %s", cname(r)); continue; } REQUIRE(c, !FL2_isError(r) && ++n < 20000, "ret-code", "endStream: %s", cname(r)); if (!r) break; } check_content(); live = false; ended = true; idle = 0; }
    void check_content() { cs_check(c, out, fed, FL2_CCtx_getParameter(s, FL2_p_omitProperties), FL2_getCCtxDictProp(s), -1, "stream with misuse"); c.label("completed"); }
};
static void c_case(Tape& t, Ctx& c) {
    CObj o(t, c); o.th = (unsigned)t.range(1, 3); o.dual = t.chance(1, 4); o.s = FL2_createCStreamMt(o.th, o.dual); REQUIRE(c, o.s, "create", "create"); size_t r = FL2_CCtx_setParameter(o.s, FL2_p_dictionarySize, 1 << 20); REQUIRE(c, r == 1 << 20, "param", "%s", cname(r)); FL2_CCtx_setParameter(o.s, FL2_p_searchDepth, 6);
    unsigned n = (unsigned)t.range(1, t.chance(1, 4) ? 120 : 30); for (unsigned i = 0; i < n; i++) o.op(); c.note("cstream th%u%s ops %s misuse%u ", o.th, o.dual ? " dual" : "", o.log.c_str(), o.misuse); c.label("cstream"); if (o.misuse >= 3) c.nontrivial(hash_bytes(o.log.data(), o.log.size(), n));
    if (t.chance(1, 6)) { FL2_freeCStream(o.s); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks leaked", vf.liveCount); return; }
    r = FL2_initCStream(o.s, 0); REQUIRE(c, r == 0, "reinit", "initCStream: %s", cname(r)); o.live = true; o.ended = o.junk = false; o.fed.clear(); o.out.clear(); o.idle = 0; o.fed = random_bytes(t.raw(), (size_t)t.draw(4000)); FL2_inBuffer ib = { o.fed.data(), o.fed.size(), 0 }; r = FL2_compressStream(o.s, NULL, &ib); r = o.settle(r); REQUIRE(c, !FL2_isError(r) && ib.pos == ib.size, "reinit", "compressStream: %s", cname(r)); o.finish(); FL2_freeCStream(o.s); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks leaked", vf.liveCount);
}
static void dctx_case(Tape& t, Ctx& c) {
    unsigned th = (unsigned)t.range(1, 4); FL2_DCtx* d = th == 1 && t.draw(2) ? FL2_createDCtx() : FL2_createDCtxMt(th); REQUIRE(c, d, "create", "create"); unsigned misuse = 0; Mat m = make_valid(t, c, -1, 3000, t.chance(1, 2)); int pend = -1; std::string log; unsigned n = (unsigned)t.range(1, 14);
    for (unsigned i = 0; i <= n; i++) { unsigned k = i == n ? 9 : (unsigned)t.draw(9); size_t r; log += (char)('a' + k);
        if (k < 2) { unsigned p = (unsigned)t.draw(256); if (t.draw(2)) p = (p & 0x80) | (unsigned)t.draw(41); r = FL2_initDCtx(d, (unsigned char)p); if ((p & 0x7F) > 40) { REQUIRE(c, FL2_isError(r) && named(r), "prop", "initDCtx(%u): %s", p, cname(r)); misuse++; } else { REQUIRE(c, r == 0, "prop", "initDCtx(%u): %s", p, cname(r)); pend = (int)p; } }
        else if (k < 5) { Bytes x = t.draw(2) ? m.b : junk_stream(t); if (t.draw(2) && !x.empty()) x.resize((size_t)t.draw(x.size())); if (pend >= 0 && pend % 0x80 > 22) continue; size_t on = t.draw(2) ? 0 : (size_t)t.draw(m.content.size() + 1); Guard g(x), o(on); r = FL2_decompressDCtx(d, on ? o.p : NULL, on, x.empty() ? NULL : g.p, x.size()); valid(c, r, on, "decompressDCtx"); misuse += FL2_isError(r) != 0; if (!(x.empty() && pend < 0)) pend = -1; }
        else if (k == 5) { if (pend >= 0 && pend % 0x80 > 22) continue; r = FL2_decompressDCtx(d, NULL, 0, NULL, 0); REQUIRE(c, FL2_isError(r) && named(r), "nothing", "decompressing nothing: %s", cname(r)); pend = -1; misuse++; }
        else if (k == 6) REQUIRE(c, FL2_getDCtxThreadCount(d) == th, "threads", "getDCtxThreadCount: %u of %u", FL2_getDCtxThreadCount(d), th);
        else { Guard o(m.content.size()); Guard g(m.b); if (pend >= 0) { r = FL2_initDCtx(d, m.b[0]); REQUIRE(c, r == 0, "reinit", "initDCtx: %s", cname(r)); } size_t skip = pend >= 0; r = FL2_decompressDCtx(d, o.p, o.n, g.p + skip, g.n - skip); REQUIRE(c, r == m.content.size() && !memcmp(o.p, m.content.data(), r), "reuse", "valid stream after misuse: %s (%zd), th%u ops %s prop %u pend %d content %zu", cname(r), (ssize_t)r, th, log.c_str(), m.b[0], pend, m.content.size()); pend = -1; }
    }
    c.note("dctx th%u ops %s misuse%u", th, log.c_str(), misuse); c.label("dctx"); if (misuse >= 3) c.nontrivial(hash_bytes(log.data(), log.size(), hash_bytes(m.b))); FL2_freeDCtx(d); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks leaked", vf.liveCount);
}
static void ds_case(Tape& t, Ctx& c) {
    unsigned th = (unsigned)t.range(1, 4); FL2_DStream* d = th == 1 && t.draw(2) ? FL2_createDStream() : FL2_createDStreamMt(th); REQUIRE(c, d, "create", "create"); unsigned misuse = 0; Mat m = make_valid(t, c, -1, 3000, t.chance(1, 2)); std::string log; Bytes work; FL2_inBuffer ib; FL2_outBuffer ob; Bytes obuf(5000); bool busy = false, failed = false; size_t limited = 0; Bytes junk = junk_stream(t); size_t at = 0; bool inited = false, bigprop = false;
    Bytes got; bool mixed = false, stopped = false;   // output since the stream was started; something else than the stream was supplied; after an error or cancel
    auto fresh = [&]() { got.clear(); mixed = stopped = false; };
    auto settle = [&](size_t r) { unsigned n = 0; while (FL2_isTimedOut(r)) { r = FL2_waitDStream(d); REQUIRE(c, ++n < 3000000, "timeout-forever", "never completes"); } busy = false; return r; };
    unsigned n = (unsigned)t.range(1, 30);
    for (unsigned i = 0; i < n; i++) { unsigned k = (unsigned)t.draw(14); size_t r; log += (char)('a' + k);
        if (k < 5) { // decompress a piece of the stream or of junk
            if (bigprop) continue; if (busy) { r = FL2_decompressStream(d, &ob, &ib); if (FL2_getErrorCode(r) == FL2_error_stage_wrong) { misuse++; if (t.draw(2)) settle(FL2_waitDStream(d)); } else { valid(c, r, 1, "decompressStream"); busy = FL2_isTimedOut(r); } continue; }
            bool j = t.chance(1, 6); const Bytes& x = j ? junk : m.b; if (at > x.size()) { at = 0; mixed = true; } size_t k2 = t.chance(1, 4) ? 0 : (size_t)t.draw(x.size() - at + 1); work.assign(x.begin() + at, x.begin() + at + k2); work.reserve(1); size_t on = t.chance(1, 4) ? 0 : (size_t)t.draw(obuf.size() + 1); ib = { k2 ? work.data() : NULL, k2, 0 }; ob = { on ? obuf.data() : NULL, on, 0 }; if (t.chance(1, 8)) vf.failAt = vf.count + 1 + t.draw(4); r = FL2_decompressStream(d, &ob, &ib); valid(c, r, 1, "decompressStream"); busy = FL2_isTimedOut(r); if (busy) { if (t.draw(3)) r = settle(r); } vf.failAt = 0; if (!busy) { REQUIRE(c, ib.pos <= k2 && ob.pos <= on, "pos", "positions"); if (!j) at += ib.pos; if (j && k2) mixed = true; if (!mixed) { got.insert(got.end(), obuf.begin(), obuf.begin() + ob.pos); if (stopped && ob.pos) c.label("continued after error or cancel");
                    REQUIRE(c, got.size() <= m.content.size() && !memcmp(got.data(), m.content.data(), got.size()), "wrong-content", "%soutput differs from the content (th%u ops %s, %zu bytes out, content %zu, stream %zu, at %zu)", stopped ? "after an error or cancel, " : "", th, log.c_str(), got.size(), m.content.size(), m.b.size(), at); if (r == 0) REQUIRE(c, got.size() == m.content.size(), "false-complete", "%sthe stream is reported complete after %zu of %zu bytes", stopped ? "after an error or cancel, " : "", got.size(), m.content.size()); }
                if (FL2_isError(r)) { failed = stopped = true; misuse++; } } else mixed = true; }
        else if (k == 5) { r = FL2_initDStream(d); if (FL2_isError(r)) { REQUIRE(c, busy && FL2_getErrorCode(r) == FL2_error_stage_wrong, "init", "initDStream: %s", cname(r)); misuse++; } else { REQUIRE(c, r == 0, "init", "initDStream returned %zu", r); inited = true; failed = busy = bigprop = false; at = 0; fresh(); } }
        else if (k == 6) { unsigned p = t.draw(2) ? (unsigned)t.draw(256) : m.b[0]; if ((p & 0x7F) > 24 && (p & 0x7F) <= 40) p = 50; r = FL2_initDStream_withProp(d, (unsigned char)p); if (FL2_isError(r)) { if (FL2_getErrorCode(r) == FL2_error_stage_wrong) REQUIRE(c, busy, "init", "stage_wrong on an idle object"); else { REQUIRE(c, (p & 0x7F) > 40 && named(r), "prop", "initDStream_withProp(%u): %s", p, cname(r)); failed = mixed = true; busy = false; } misuse++; } else { REQUIRE(c, (p & 0x7F) <= 40 && r == 0, "prop", "initDStream_withProp(%u) returned %zu", p, r); inited = true; failed = busy = false; at = p == m.b[0] ? 1 : 0; fresh(); mixed = p != m.b[0]; } }
        else if (k == 7) { r = FL2_waitDStream(d); valid(c, r, 1, "waitDStream"); busy = FL2_isTimedOut(r); if (!busy) misuse++; }
        else if (k == 8) { FL2_cancelDStream(d); if (busy) mixed = true; busy = false; stopped = true; misuse++; }
        else if (k == 9) { unsigned long long p = FL2_getDStreamProgress(d); if (!busy && !inited && !at && !failed && log.find_first_of("abcde") == std::string::npos) REQUIRE(c, p == 0, "progress", "progress of a new object: %llu", p); }
        else if (k == 10) { limited = t.draw(2) ? (size_t)t.logsize(1 << 24) : (size_t)1 << 29; if (!busy) FL2_setDStreamMemoryLimitMt(d, limited); }
        else if (k == 11) { r = FL2_setDStreamTimeout(d, (unsigned)t.draw(3)); REQUIRE(c, r == 0, "timeout", "setDStreamTimeout: %s", cname(r)); }
        else { if (busy) settle(FL2_waitDStream(d)); }
    }
    if (busy) { if (t.draw(2)) settle(FL2_waitDStream(d)); else FL2_cancelDStream(d); }
    c.note("dstream th%u ops %s misuse%u", th, log.c_str(), misuse); c.label("dstream"); if (misuse >= 3) c.nontrivial(hash_bytes(log.data(), log.size(), hash_bytes(m.b)));
    if (!t.chance(1, 6)) { DecCfg cfg = gen_deccfg(t, m.b.size(), m.content.size(), false); cfg.threads = th; bool wp = t.chance(1, 4); DecOut o = run_dstream(c, d, m.b.data() + wp, m.b.size() - wp, wp ? m.b[0] : -1, cfg, m.content.size() + 100, true); REQUIRE(c, !o.err && o.ret == 0 && o.out == m.content, "reuse", "valid stream after misuse: %s, %zu of %zu bytes", cname(o.ret), o.out.size(), m.content.size()); }
    FL2_freeDStream(d); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks leaked", vf.liveCount);
}
void run_case(Tape& t, Ctx& c) { vf_reset(); vf.fill = (int)t.draw(256); vf.failLarger = (size_t)100 << 20; unsigned k = (unsigned)t.draw(20); if (k == 0) codes_case(t, c); else if (k < 11) c_case(t, c); else if (k < 14) dctx_case(t, c); else ds_case(t, c); }
