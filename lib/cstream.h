// Tape-driven history of streaming-compression calls with a model of what must come out.
#pragma once
#include "gen.h"
#include "reflzma2.h"
#include "alloc.h"
#include "fl2_errors.h"
#include <functional>

static inline const char* cname(size_t r) { return FL2_isError(r) ? FL2_getErrorName(r) : "ok"; }
struct CSOpts {
    bool flush = true, paramChange = true, pull = true, progress = false;
    size_t maxOps = 60;
    bool bigPieces = false;
    size_t block = 0;                        // size of the first block (0: ask the stream); pieces often end next to it
};
struct CSRun {
    Ctx& c; Tape& t; FL2_CStream* s; const Bytes& data; CSOpts o;
    bool async; unsigned threads;
    Bytes out; size_t fed = 0; unsigned idle = 0; Rng rng;
    size_t flushes = 0, ops = 0, timeouts = 0, paramChanges = 0, bufs = 0; bool ended = false, anyFlush = false;
    unsigned long long lastProg = 0, lastProgOut = 0;
    std::function<void()> onFlushed;         // called whenever a flush reports completion
    std::function<void()> onPoll;            // called between calls
    CSRun(Ctx& c_, Tape& t_, FL2_CStream* s_, const Bytes& d, CSOpts o_, bool async_, unsigned th) : c(c_), t(t_), s(s_), data(d), o(o_), async(async_), threads(th), rng(t_.draw(1u << 30)) { if (!o.block) o.block = FL2_CStream_getParameter(s, FL2_p_dictionarySize); }
    void poll() {
        if (onPoll) onPoll();
    }
    // repeats a call while it times out
    size_t rep(const std::function<size_t()>& f, bool again = true) {
        size_t r = f(); unsigned n = 0;
        while (FL2_isTimedOut(r)) {
            timeouts++; poll(); REQUIRE(c, ++n < 3000000, "timeout-forever", "operation never completes");
            if (again && rng.below(2)) r = f(); else { r = FL2_waitCStream(s); if (!FL2_isTimedOut(r) && !FL2_isError(r)) { if (again) r = f(); } }
        }
        return r;
    }
    void ok(size_t r, const char* what) { REQUIRE(c, !FL2_isError(r), "op-error", "op %zu %s: %s (fed %zu, out %zu)", ops, what, cname(r), fed, out.size()); REQUIRE(c, r <= 1, "ret-value", "op %zu %s returned %zu", ops, what, r); }
    size_t remaining() { size_t r = FL2_remainingOutputSize(s); REQUIRE(c, !FL2_isError(r), "remaining-error", "remainingOutputSize: %s", cname(r)); return r; }
    // output buffer of the given size, guarded by an inaccessible page; appended to out
    struct OB { Guard g; FL2_outBuffer b; size_t p0; };
    void obInit(OB& ob, size_t n) { size_t pre = rng.below(4) ? 0 : rng.below(40); ob.g.init(pre + n); memset(ob.g.p, 0x3C, pre + n); ob.p0 = pre; ob.b = { ob.g.p, pre + n, pre }; }
    void obTake(OB& ob) {
        REQUIRE(c, ob.b.pos >= ob.p0 && ob.b.pos <= ob.b.size, "out-pos", "op %zu: output position %zu outside [%zu,%zu]", ops, ob.b.pos, ob.p0, ob.b.size);
        for (size_t i = 0; i < ob.p0; i++) REQUIRE(c, ob.g.p[i] == 0x3C, "out-before", "written before output position");
        for (size_t i = ob.b.pos; i < ob.b.size && i < ob.b.pos + 64; i++) REQUIRE(c, ob.g.p[i] == 0x3C, "out-beyond", "op %zu: byte %zu beyond the output position %zu written", ops, i, ob.b.pos);
        REQUIRE(c, ob.g.intact(), "out-underrun", "bytes before the buffer written");
        out.insert(out.end(), ob.g.p + ob.p0, ob.g.p + ob.b.pos);
    }
    void drain(unsigned mode) {
        if (async) { size_t r = rep([&] { return FL2_waitCStream(s); }); ok(r, "waitCStream"); }
        size_t rem = remaining(), before = out.size(); unsigned n = 0;
        if (mode == 0) {
            for (;;) { FL2_cBuffer cb; size_t r = rep([&] { return FL2_getNextCompressedBuffer(s, &cb); }); REQUIRE(c, !FL2_isError(r), "op-error", "getNextCompressedBuffer: %s", cname(r));
                REQUIRE(c, r == cb.size, "cbuf-size", "returned %zu, size %zu", r, cb.size); if (!r) break; n++; bufs++; out.insert(out.end(), (const uint8_t*)cb.src, (const uint8_t*)cb.src + cb.size); }
            REQUIRE(c, n <= threads, "buffers", "%u buffers for %u threads", n, threads);
        } else {
            for (;;) { OB ob; obInit(ob, 1 + rng.below(mode == 1 ? 70000 : 3000000)); size_t r = FL2_copyCStreamOutput(s, &ob.b); ok(r, "copyCStreamOutput"); obTake(ob);
                REQUIRE(c, r == 0 || ob.b.pos == ob.b.size, "copy-short", "copyCStreamOutput returned 1 with space left"); if (r == 0) break; }
        }
        REQUIRE(c, out.size() - before == rem, "remaining", "remainingOutputSize said %zu, %zu bytes came out", rem, out.size() - before);
        REQUIRE(c, remaining() == 0, "remaining", "remainingOutputSize is %zu after everything was read", remaining());
    }
    bool pending() { if (async) { size_t r = rep([&] { return FL2_waitCStream(s); }); ok(r, "waitCStream"); return r != 0; } return remaining() != 0; }
    void flushedCheck() { flushes++; if (onFlushed) onFlushed(); }
    size_t pieceSize(size_t left) {
        unsigned k = (unsigned)t.draw(8);
        if (o.bigPieces && k < 5) return left;
        if (k == 0) return left; if (k == 1) return 0;
        if (k == 2) return left ? (size_t)t.range(1, left) : 0;
        return (size_t)t.logsize(left);
    }
    void op() {
        ops++; size_t left = data.size() - fed; unsigned kind = (unsigned)t.draw(100); size_t n = pieceSize(left); size_t on = t.chance(1, 6) ? 0 : (size_t)t.logsize(300000); unsigned dm = (unsigned)t.draw(3), edge = (unsigned)t.draw(10);
        if (o.block && edge < 4 && fed < o.block && data.size() > o.block) n = std::min(left, o.block - fed + (edge == 0 ? 0 : edge == 1 ? (size_t)rng.below(20) : std::min(o.block - fed, (size_t)rng.below(21)) * (size_t)-1));
        if (idle >= 8) { // keep clear of the documented-by-error limit on calls without progress
            drain(dm); if (left) { if (!n) n = 1; kind = 30; } else { anyFlush = true; size_t r = rep([&] { return FL2_flushStream(s, NULL); }); ok(r, "flushStream"); idle = 0; if (r) drain(dm); return; }
        }
        if (kind < 30) { // compressStream with an output buffer
            Guard in(data.data() + fed, n); FL2_inBuffer ib = { in.p, n, 0 }; OB ob; obInit(ob, on); size_t p0 = ob.b.pos;
            size_t r = rep([&] { return FL2_compressStream(s, &ob.b, &ib); }); ok(r, "compressStream(out)");
            REQUIRE(c, ib.pos <= n, "in-pos", "input position"); bool moved = ib.pos || ob.b.pos != p0;
            REQUIRE(c, !n || !memcmp(in.p, data.data() + fed, n), "in-modified", "input changed"); fed += ib.pos; obTake(ob);
            if (!async) { REQUIRE(c, (r != 0) == (remaining() != 0), "ret-pending", "compressStream returned %zu, %zu bytes of output remain", r, remaining());
                if (r) REQUIRE(c, ob.b.pos == ob.b.size, "ret-space", "returned 1 with output space left"); }
            if (n && ob.b.size > p0) REQUIRE(c, moved, "no-progress", "compressStream made no progress with input and output space");
            idle = moved ? 0 : idle + 1;
        } else if (kind < 50) { // compressStream without output
            if (pending()) drain(dm);
            Guard in(data.data() + fed, n); FL2_inBuffer ib = { in.p, n, 0 };
            size_t r = rep([&] { return FL2_compressStream(s, NULL, &ib); }); ok(r, "compressStream(NULL)"); REQUIRE(c, ib.pos <= n, "in-pos", "input position"); fed += ib.pos;
            if (n) REQUIRE(c, ib.pos, "no-progress", "compressStream(NULL) consumed nothing"); idle = ib.pos ? 0 : idle + 1;
            if (!async) { REQUIRE(c, (r != 0) == (remaining() != 0), "ret-pending", "compressStream returned %zu, %zu bytes of output remain", r, remaining()); if (ib.pos < n) REQUIRE(c, r == 1, "ret-consumed", "input left over although no output is pending"); }
            if (r && t.chance(3, 4)) drain(dm);
        } else if (kind < 68 && o.pull) { // write into the dictionary
            FL2_dictBuffer d; size_t r = rep([&] { return FL2_getDictionaryBuffer(s, &d); }); REQUIRE(c, !FL2_isError(r), "op-error", "getDictionaryBuffer: %s", cname(r)); REQUIRE(c, r == 0, "ret-value", "getDictionaryBuffer returned %zu", r);
            if (t.chance(1, 4)) { // asked for again, with or without an update that adds nothing
                size_t was = d.size; if (t.chance(1, 2)) { r = FL2_updateDictionary(s, 0); if (FL2_isTimedOut(r)) { timeouts++; r = rep([&] { return FL2_waitCStream(s); }); } ok(r, "updateDictionary(0)"); }
                r = rep([&] { return FL2_getDictionaryBuffer(s, &d); }); REQUIRE(c, !FL2_isError(r), "op-error", "getDictionaryBuffer (again): %s", cname(r)); REQUIRE(c, d.size == was || pending(), "dict-changed", "%zu bytes of dictionary space, then %zu", was, (size_t)d.size);
            }
            size_t k = n < d.size ? n : d.size; if (left > d.size && d.size > 24 && edge < 4) { k = d.size - (edge == 0 ? 0 : (size_t)rng.below(21)); }
            if (d.size == 0) REQUIRE(c, pending(), "dict-full", "no dictionary space although no output is pending"); 
            if (k) memcpy(d.dst, data.data() + fed, k); fed += k;
            r = FL2_updateDictionary(s, k); if (FL2_isTimedOut(r)) { timeouts++; r = rep([&] { return FL2_waitCStream(s); }); } ok(r, "updateDictionary");
            if (!async) REQUIRE(c, (r != 0) == (remaining() != 0), "ret-pending", "updateDictionary returned %zu, %zu bytes of output remain", r, remaining());
            if (r && t.chance(1, 2)) drain(dm);
        } else if (kind < 74) { OB ob; obInit(ob, on); size_t rem = async ? 0 : remaining(); size_t r = FL2_copyCStreamOutput(s, &ob.b); ok(r, "copyCStreamOutput"); obTake(ob);
            if (!async) { size_t got = ob.b.pos - ob.p0; REQUIRE(c, got == std::min(rem, on), "copy-amount", "copied %zu of %zu with space %zu", got, rem, on); REQUIRE(c, (r != 0) == (rem > got), "ret-pending", "copyCStreamOutput returned %zu with %zu left", r, rem - got); }
        } else if (kind < 78) drain(dm);
        else if (kind < 90 && o.flush) {
            anyFlush = true; bool nul = t.chance(1, 3), once = t.chance(1, 4); unsigned guard = 0;
            if (async && t.chance(1, 3)) { // leave it in progress if it times out, and continue with other calls
                OB ob; obInit(ob, nul ? 0 : on); size_t r = FL2_flushStream(s, nul ? NULL : &ob.b); bool late = FL2_isTimedOut(r); if (late) { timeouts++; poll(); } else ok(r, "flushStream (once)"); bool moved = ob.b.pos != ob.p0; obTake(ob);
                idle = moved || (nul && !late) ? 0 : nul ? idle : idle + 1; if (!late && r == 0) flushedCheck(); return;
            }
            for (;;) {
                size_t r;
                if (nul) { r = rep([&] { return FL2_flushStream(s, NULL); }); ok(r, "flushStream(NULL)"); idle = 0; if (r) drain(dm); }
                else { OB ob; obInit(ob, guard ? std::max(on, remaining() / 40 + 1) : on); r = rep([&] { return FL2_flushStream(s, &ob.b); }); ok(r, "flushStream"); bool moved = ob.b.pos != ob.p0; obTake(ob); idle = moved ? 0 : idle + 1; if (r && !moved && idle >= 8) drain(dm); }
                REQUIRE(c, ++guard < 4000, "flush-forever", "flushStream never completes");
                if (r == 0) { REQUIRE(c, remaining() == 0, "flush-remaining", "flush complete but %zu bytes of output remain", remaining()); flushedCheck(); break; }
                if (once) break;
            }
        } else if (kind < 94 && o.paramChange) { paramChanges++;
            size_t lc = t.draw(5), lp = t.draw(5 - lc), pb = t.draw(5);
            for (int k = 0; k < 4; k++) { FL2_cParameter p = k == 1 ? FL2_p_literalPosBits : k == 3 ? FL2_p_posBits : FL2_p_literalCtxBits; size_t v = k == 0 ? 0 : k == 1 ? lp : k == 2 ? lc : pb;
                if (async) { size_t r = rep([&] { return FL2_waitCStream(s); }); ok(r, "wait"); }
                size_t r = FL2_CStream_setParameter(s, p, v); REQUIRE(c, !FL2_isError(r), "param", "setParameter(lc/lp/pb) in the stream: %s", cname(r)); }
        } else poll();
    }
    // finish: feed everything that is left and end the stream
    void finish() {
        unsigned mode = (unsigned)t.draw(4); size_t step = t.chance(1, 2) ? data.size() + 1 : 1 + (size_t)t.logsize(data.size()); size_t fl = (data.size() - fed) / 200 + 1; if (step < fl) step = fl;
        bool roomy = t.chance(1, 3); unsigned rg = 0;   // no draining: the output buffer always has room for everything
        while (roomy && fed < data.size()) {
            size_t n = std::min(step, data.size() - fed); FL2_inBuffer ib = { data.data() + fed, n, 0 }; OB ob; obInit(ob, data.size() + data.size() / 64 + 400000);
            size_t r = rep([&] { return FL2_compressStream(s, &ob.b, &ib); }); ok(r, "compressStream(out)"); REQUIRE(c, ib.pos > 0 && ib.pos <= n, "no-progress", "compressStream(out) consumed %zu of %zu", ib.pos, n); fed += ib.pos; idle = 0; obTake(ob);
            REQUIRE(c, ++rg < 4000, "feed-forever", "input never consumed");
        }
        while (fed < data.size()) {
            if (pending()) drain(mode % 3);
            size_t n = std::min(step, data.size() - fed); FL2_inBuffer ib = { data.data() + fed, n, 0 };
            size_t r = rep([&] { return FL2_compressStream(s, NULL, &ib); }); ok(r, "compressStream(NULL)"); REQUIRE(c, ib.pos > 0 && ib.pos <= n, "no-progress", "compressStream(NULL) consumed %zu of %zu", ib.pos, n); fed += ib.pos; idle = 0;
        }
        size_t osz = 1 + (size_t)t.logsize(mode == 3 ? 40 : 400000); size_t cap = out.size() / 300 + data.size() / 300 + 1; if (osz < cap) osz = cap; unsigned guard = 0; bool nul = !roomy && t.chance(1, 3);
        if (roomy) osz = data.size() + data.size() / 64 + 400000;
        unsigned zero = (unsigned)t.draw(4); if (idle > 4) zero = 0;
        for (;;) {
            size_t r;
            if (nul) { r = rep([&] { return FL2_endStream(s, NULL); }); ok(r, "endStream(NULL)"); if (r) drain(mode % 3); }
            else { OB ob; obInit(ob, guard < zero ? 0 : osz); r = rep([&] { return FL2_endStream(s, &ob.b); }); ok(r, "endStream"); obTake(ob); if (r && guard >= zero) REQUIRE(c, ob.b.pos == ob.b.size || async || guard < 4, "end-space", "endStream returned 1 with space left"); }
            REQUIRE(c, ++guard < 20000, "end-forever", "endStream never completes");
            if (r == 0) break;
        }
        REQUIRE(c, remaining() == 0, "end-remaining", "stream complete but %zu bytes of output remain", remaining());
        ended = true;
    }
    void all() { size_t k = (size_t)t.range(0, o.maxOps); for (size_t i = 0; i < k; i++) { op(); if (fed == data.size() && i > k / 2 + 5) break; } finish(); }
};
// checks the finished stream with the reference decoder; returns its structure
static inline RefStream cs_check(Ctx& c, const Bytes& out, const Bytes& data, bool omit, unsigned prop, int hash, const char* what) {
    Bytes full; if (omit) full.push_back((uint8_t)prop); full.insert(full.end(), out.begin(), out.end());
    RefStream rs = ref_decode_stream(full.data(), full.size(), data.size() + 65536);
    REQUIRE(c, rs.ok, "nonconforming", "%s: %s (after %zu bytes of content, at %zu of %zu)", what, rs.err.empty() ? rs.r.err.c_str() : rs.err.c_str(), rs.r.out.size(), rs.r.consumed, full.size());
    REQUIRE(c, rs.r.out.size() == data.size(), "size", "%s: content has %zu bytes instead of %zu", what, rs.r.out.size(), data.size());
    if (rs.r.out != data) { size_t i = 0; while (rs.r.out[i] == data[i]) i++; c.fail("content", "%s: first difference at %zu of %zu", what, i, data.size()); }
    REQUIRE(c, rs.total == full.size(), "trailing", "%s: %zu bytes follow the stream", what, full.size() - rs.total);
    if (hash >= 0) REQUIRE(c, rs.hasHash == (hash != 0), "hash-flag", "%s: hash flag %d, doXXHash %d", what, rs.hasHash, hash);
    return rs;
}
