// Drivers for every decoding entry point, checking the contract of each call as they go.
#pragma once
#include "gen.h"
#include "reflzma2.h"
#include "alloc.h"
#include "fl2_errors.h"
#include <functional>
#include <alloca.h>

struct DecCfg {
    unsigned threads = 1;         // 1: single-threaded object
    size_t memLimit = 0;          // 0: default
    bool withProp = false;        // initialise with the property, stream presented without its first byte
    unsigned timeout = 0;
    // division into pieces
    unsigned inMode = 0, outMode = 0; size_t inMax = 4096, outMax = 4096; bool empties = false; bool prefix = false;
    uint64_t seed = 1;
    std::function<void(size_t, bool)> onPoll;   // (output so far, operation in progress)
    std::string str() const {
        char b[200]; snprintf(b, sizeof b, "th%u lim%zu%s in%u/%zu out%u/%zu%s%s to%u", threads, memLimit, withProp ? " withProp" : "", inMode, inMax, outMode, outMax, empties ? " empties" : "", prefix ? " prefix" : "", timeout);
        return b;
    }
};
static inline DecCfg gen_deccfg(Tape& t, size_t streamLen, size_t contentLen, bool allowMt = true) {
    DecCfg d;
    d.threads = allowMt && t.chance(2, 3) ? (unsigned)t.range(2, 5) : 1;
    if (d.threads > 1 && t.chance(1, 3)) d.memLimit = t.chance(1, 4) ? t.logsize(1 << 20) : t.chance(1, 2) ? (size_t)9556 + (size_t)t.logsize(streamLen + contentLen + 4096) : (size_t)t.range(1, 40) << t.range(10, 20);
    d.withProp = t.chance(1, 5);
    d.inMode = (unsigned)t.draw(4); d.outMode = (unsigned)t.draw(4);
    auto mx = [&](size_t len) { size_t floor = len / 3000 + 1; size_t m = t.logsize(len + 40) + 1; return m < floor ? floor : m; };
    d.inMax = mx(streamLen); d.outMax = mx(contentLen);
    d.empties = t.chance(1, 3); d.prefix = t.chance(1, 3);
    d.seed = t.raw();
    return d;
}
static inline size_t piece(Rng& r, unsigned mode, size_t mx) {
    switch (mode) {
    case 0: return mx;                               // constant
    case 1: return 1 + r.below(mx);                  // uniform
    case 2: { size_t b = 1; while (b < mx && r.below(4)) b *= 2; return b > mx ? mx : b; } // skewed to small
    default: return r.below(3) ? mx : 1 + r.below(mx < 30 ? mx : 30); // mostly large, some tiny
    }
}
// An arena whose blocks end directly before an inaccessible page.
struct EndArena {
    Guard g; size_t cap = 0;
    uint8_t* at(size_t n, bool fillit = true) {
        if (n > cap || !cap) { cap = n < 65536 ? 65536 : n * 2; g.init(cap); }
        uint8_t* p = g.p + cap - n; if (fillit) memset(p, 0x5B, n); return p;
    }
};
struct DecOut {
    Bytes out; size_t ret = 1; bool err = false; size_t consumed = 0; bool starved = false; size_t calls = 0, timeouts = 0; bool initErr = false;
    size_t peak = 0;
    unsigned code() const { return err ? FL2_getErrorCode(ret) : 0; }
};
// Streams data[0..n) (first byte = property unless cfg.withProp is set by the caller through prop).
// Reads nothing after ret 0 / error. Output collection stops at maxOut bytes.
static inline DecOut run_dstream(Ctx& c, FL2_DStream* ds, const uint8_t* data, size_t n, int prop, const DecCfg& cfg, size_t maxOut, bool strictProgress = true) {
    DecOut o; Rng r(cfg.seed);
    volatile char* shift = (volatile char*)alloca(16 + ((cfg.seed >> 7) & 7) * 16); shift[0] = 1;   // vary the alignment of the library's stack frames
    static thread_local EndArena ia, oa;
    size_t res = prop >= 0 ? FL2_initDStream_withProp(ds, (unsigned char)prop) : FL2_initDStream(ds);
    if (FL2_isError(res)) { o.err = true; o.initErr = true; o.ret = res; return o; }
    REQUIRE(c, res == 0, "init-result", "initDStream returned %zu", res);
    size_t pos = 0; unsigned idle = 0; Bytes canary;
    unsigned forced = 0;
    for (;;) {
        size_t inLen = piece(r, cfg.inMode, cfg.inMax), outLen = piece(r, cfg.outMode, cfg.outMax);
        if (inLen > n - pos) inLen = n - pos;
        if (cfg.empties && idle < 2 && !forced) { unsigned e = (unsigned)r.below(8); if (e == 0) inLen = 0; else if (e == 1) outLen = 0; else if (e == 2) inLen = outLen = 0; }
        if (outLen > maxOut - o.out.size()) outLen = maxOut - o.out.size();
        if (idle == 2) { if (inLen == 0) inLen = n - pos < cfg.inMax ? n - pos : cfg.inMax; if (outLen == 0) outLen = maxOut - o.out.size() < cfg.outMax ? maxOut - o.out.size() : cfg.outMax; }
        if (inLen == 0 && pos == n && outLen == 0 && o.out.size() >= maxOut && idle >= 1) { o.starved = true; break; }
        size_t pre = cfg.prefix ? r.below(60) : 0;
        uint8_t* ib = ia.at(pre + inLen, false); memset(ib, 0xEE, pre); if (inLen) memcpy(ib + pre, data + pos, inLen);
        size_t opre = cfg.prefix ? r.below(60) : 0, ogap = 64;
        uint8_t* ob = oa.at(ogap + opre + outLen); // ogap bytes in front of the buffer are watched as well
        static thread_local FL2_inBuffer in; static thread_local FL2_outBuffer out; in = { ib, pre + inLen, pre }; out = { ob + ogap, opre + outLen, opre }; /* still used by the library when the caller gives up during an operation */
        res = FL2_decompressStream(ds, &out, &in); o.calls++;
        unsigned spin = 0;
        while (FL2_isTimedOut(res)) { o.timeouts++; REQUIRE(c, ++spin < 2000000, "timeout-forever", "never completes"); if (cfg.onPoll) cfg.onPoll(o.out.size(), true); res = FL2_waitDStream(ds); }
        REQUIRE(c, out.pos >= opre && out.pos <= opre + outLen, "out-pos", "output position %zu outside [%zu,%zu]", out.pos, opre, opre + outLen);
        REQUIRE(c, in.pos <= pre + inLen, "in-pos", "input position %zu beyond size %zu", in.pos, pre + inLen);
        REQUIRE(c, in.pos >= pre, "in-rewind", "input position %zu moved before its initial value %zu", in.pos, pre);
        for (size_t i = 0; i < ogap + opre; i++) REQUIRE(c, ob[i] == 0x5B, "out-before", "byte before the output position written");
        REQUIRE(c, in.src == ib && in.size == pre + inLen && out.dst == ob + ogap && out.size == opre + outLen, "buf-fields", "buffer descriptor modified");
        bool moved = in.pos != pre || out.pos != opre;
        pos += in.pos - pre;
        o.out.insert(o.out.end(), ob + ogap + opre, ob + ogap + out.pos);
        o.consumed = pos; o.ret = res;
        if (cfg.onPoll && !FL2_isError(res)) cfg.onPoll(o.out.size(), false);
        if (FL2_isError(res)) {
            o.err = true;
            if (o.code() == FL2_error_corruption_detected || o.code() == FL2_error_checksum_wrong) for (int k = 0; k < 3; k++) {   // whoever goes on regardless must not be told that all is well
                size_t l = n - pos < cfg.inMax ? n - pos : cfg.inMax; uint8_t* jb = ia.at(l, false); if (l) memcpy(jb, data + pos, l); in = { jb, l, 0 }; uint8_t* kb = oa.at(4096); out = { kb, 4096, 0 };
                size_t r2 = FL2_decompressStream(ds, &out, &in); unsigned s2 = 0; while (FL2_isTimedOut(r2)) { REQUIRE(c, ++s2 < 2000000, "timeout-forever", "never completes"); r2 = FL2_waitDStream(ds); }
                REQUIRE(c, r2 != 0, "complete-after-error", "%s, but another call reports the stream complete", FL2_getErrorName(res)); REQUIRE(c, in.pos <= l && out.pos <= 4096, "out-pos", "positions after an error"); pos += in.pos; }
            return o; }
        if (res == 0) return o;
        REQUIRE(c, res == 1, "ret-value", "decompressStream returned %zu", res);
        if (strictProgress && inLen && outLen) REQUIRE(c, moved, "no-progress", "no progress with %zu input and %zu output space (consumed %zu, out %zu)", inLen, outLen, pos, o.out.size());
        if (moved) { idle = 0; forced = 0; } else idle++;
        if (!moved && pos == n && outLen > 0) { o.starved = true; break; }   // all input given, space offered, nothing more comes
        if (o.calls > 40 * (n + maxOut) + 1000) c.fail("endless", "too many calls");
    }
    return o;
}
static inline const char* ename(size_t r) { return FL2_isError(r) ? FL2_getErrorName(r) : "ok"; }
