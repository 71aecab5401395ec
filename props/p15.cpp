// P15: timeouts, waiting, cancellation.
#include "mkstream.h"
#include "mutate.h"
#include "vsched.h"
const char* const prop_id = "P15";
const char* const prop_rule = "compression streams (timed, dual-buffered) and decompression streams with a timeout, under a controlled scheduler that lets timed waits expire at any synchronisation point; polled, cancelled, re-initialised or freed at any expiry; final output compared with an untimed new object; non-trivial = at least 3 expiries were reported or an operation was abandoned in progress, and the last operation has more than 500 bytes";
void prop_init() {}
struct Abandon {};
static void comp_case(Tape& t, Ctx& c, const VsPolicy& pol) {
    VsPolicy calm; vs_begin(c, calm); bool real = false;
#ifndef VF_SCHED
    real = true;
#endif
    unsigned th = (unsigned)t.range(1, 4); bool dual = t.chance(1, 2), timed = !dual || t.chance(2, 3); FL2_CStream* s = FL2_createCStreamMt(th, dual); REQUIRE(c, s, "create", "create");
    PGen g; g.maxDict = 1 << 20; CParams cp = gen_params(t, g); if (cp.dictSize < 0) cp.dictSize = 1 << 20; if (cp.depth > 20) cp.depth = 12; if (t.chance(2, 3)) cp.strategy = 0; if (cp.level > 4) cp.level = 2; cp.high = 0; int e = apply_params(s, cp); REQUIRE(c, !e, "param", "#%d", e);
    vs_begin(c, pol); unsigned abandoned = 0; size_t touts = 0; bool setInProgress = t.chance(1, 4);
    auto setTimeout = [&](unsigned v) { size_t r = FL2_setCStreamTimeout(s, v); REQUIRE(c, r == 0, "timeout", "setCStreamTimeout: %s", cname(r)); };
    auto expiryCalls = [&](CSRun& run) { // calls that are allowed while work is in progress
        unsigned k = (unsigned)run.rng.below(8); unsigned long long po;
        if (k == 0) { unsigned long long p = FL2_getCStreamProgress(s, &po); REQUIRE(c, p <= run.data.size(), "progress", "progress %llu of %zu", p, run.data.size()); }
        else if (k == 1) { size_t r = FL2_remainingOutputSize(s); REQUIRE(c, !FL2_isError(r), "remaining", "remainingOutputSize in progress: %s", cname(r)); }
        else if (k == 2 && setInProgress) setTimeout((unsigned)run.rng.below(6));
        else if (k == 3) { size_t r = FL2_waitCStream(s); REQUIRE(c, FL2_isTimedOut(r) || (!FL2_isError(r) && r <= 1), "wait", "waitCStream: %s (%zu)", cname(r), r); }
    };
    if (timed) setTimeout((unsigned)t.range(1, 3));
    unsigned hist = (unsigned)t.draw(3); std::string d;
    for (unsigned i = 0; i < hist; i++) {
        Bytes in = t.chance(1, 12) ? gen_data_len(t, 1100000, &d) : gen_data(t, 60000, &d); size_t r = FL2_initCStream(s, 0); REQUIRE(c, r == 0, "init", "initCStream after %u: %s", i, cname(r)); CSOpts o; o.paramChange = false; o.maxOps = 12; o.bigPieces = in.size() > 300000; unsigned stopAt = (unsigned)t.logsize(40), polls = 0; CSRun run(c, t, s, in, o, true, th); run.onPoll = [&] { if (++polls > stopAt) throw Abandon(); expiryCalls(run); };
        unsigned nops = (unsigned)t.range(0, 14); bool stopped = false;
        try { for (unsigned k = 0; k < nops && run.fed < in.size(); k++) run.op(); if (t.draw(2)) run.finish(); } catch (Abandon&) { stopped = true; }
        touts += run.timeouts; abandoned += stopped; unsigned how = (unsigned)t.draw(4);
        c.note("[%zu of %zu%s, %u polls, %s] ", run.fed, in.size(), stopped ? " in progress" : run.ended ? " done" : "", polls, how == 0 ? "init" : how == 1 ? "cancel" : how == 2 ? "cancel twice" : "cancel+wait");
        if (how) { FL2_cancelCStream(s); if (how == 2) FL2_cancelCStream(s); if (how == 3) { r = FL2_waitCStream(s); REQUIRE(c, r == 0 || r == 1, "wait", "waitCStream after cancel: %s", cname(r)); } if (!dual && timed && t.chance(1, 4)) { setTimeout(0); setTimeout(2); } }
    }
    if (t.chance(1, 5) && hist) { FL2_freeCStream(s); vs_end(c); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks leaked", vf.liveCount); c.label("freed"); if (abandoned) c.nontrivial(pol.seed ^ touts << 32); return; }
    bool flush = t.chance(1, 3); Bytes in = t.chance(1, 10) ? gen_data_len(t, (size_t)t.range(900000, 1700000), &d) : gen_data(t, t.chance(1, 3) ? 400000 : 60000, &d);
    size_t r = FL2_initCStream(s, 0); REQUIRE(c, r == 0, "init", "initCStream: %s", cname(r)); CSOpts o; o.flush = o.paramChange = flush; o.maxOps = 12; o.bigPieces = in.size() > 300000; CSRun run(c, t, s, in, o, true, th); run.onPoll = [&] { expiryCalls(run); }; unsigned flushN = 0; run.onFlushed = [&] { flushN++; };
    run.all(); touts += run.timeouts; cs_check(c, run.out, in, cp.omitProp, FL2_getCCtxDictProp(s), cp.omitProp ? -1 : cp.xxh, "timed stream"); unsigned long long po, p = FL2_getCStreamProgress(s, &po); REQUIRE(c, p == in.size(), "progress", "final progress %llu of %zu", p, in.size());
    vs_begin(c, calm); FL2_CStream* f = FL2_createCStreamMt(th, 0); REQUIRE(c, f, "create", "create"); e = apply_params(f, cp);
    if (!flush && !run.anyFlush) { r = FL2_initCStream(f, 0); REQUIRE(c, r == 0, "init", "fresh"); FL2_inBuffer ib = { in.data(), in.size(), 0 }; Bytes out(FL2_compressBound(in.size()) + in.size() / 20 + 4000); FL2_outBuffer ob = { out.data(), out.size(), 0 }; for (unsigned n = 0;; n++) { r = FL2_compressStream(f, &ob, &ib); REQUIRE(c, !FL2_isError(r) && n < 1000, "fresh", "%s", cname(r)); if (ib.pos == ib.size && !r) break; } do { r = FL2_endStream(f, &ob); REQUIRE(c, !FL2_isError(r), "fresh", "%s", cname(r)); } while (r); out.resize(ob.pos); if (out != run.out) { size_t k = 0; while (k < out.size() && k < run.out.size() && out[k] == run.out[k]) k++; c.fail("bytes", "output differs from the untimed one of a new object at %zu of %zu/%zu (%02x %02x; %zu)", k, run.out.size(), out.size(), k < run.out.size() ? run.out[k] : 0, k < out.size() ? out[k] : 0, in.size()); } }
    FL2_freeCStream(f); vs_begin(c, pol); FL2_freeCStream(s); vs_end(c); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks leaked", vf.liveCount);
    c.label(dual ? timed ? "compress dual timed" : "compress dual" : "compress timed"); if (abandoned) c.label("abandoned-in-progress", abandoned); if (touts) c.label("expiries", touts); c.note("compress th%u%s%s %zu bytes%s, %zu expiries, %u abandoned; %s", th, dual ? " dual" : "", timed ? " timed" : "", in.size(), flush ? " with flushes" : "", touts, abandoned, pol.str().c_str()); (void)real;
    if ((touts >= 3 || abandoned) && in.size() > 500) c.nontrivial(hash_bytes(run.out) ^ pol.seed ^ touts << 32);
}
// whole blocks fed to a timed dual-buffered stream: the calls which time out are the ones that make progress
static void stall_case(Tape& t, Ctx& c, const VsPolicy& pol) {
    VsPolicy calm; vs_begin(c, calm); FL2_CStream* s = FL2_createCStreamMt((unsigned)t.range(1, 2), 1); REQUIRE(c, s, "create", "create"); CParams cp; cp.level = 1; cp.dictSize = 1 << 20; cp.overlap = (long)t.draw(2) * 2; cp.strategy = 0; cp.depth = 6; int e = apply_params(s, cp); REQUIRE(c, !e, "param", "#%d", e);
    size_t r = FL2_setCStreamTimeout(s, 1); REQUIRE(c, r == 0, "timeout", "%s", cname(r)); r = FL2_initCStream(s, 0); REQUIRE(c, r == 0, "init", "%s", cname(r)); vs_begin(c, pol);
    unsigned rounds = (unsigned)t.range(12, 20); Bytes one(2 << 20), in, out; size_t touts = 0; Rng g(t.draw(1 << 30));
    auto rep = [&](const char* what, const std::function<size_t()>& f) { size_t r; unsigned n = 0; while (FL2_isTimedOut(r = f())) { touts++; REQUIRE(c, ++n < 3000000, "timeout-forever", "never completes"); } REQUIRE(c, !FL2_isError(r), "op-error", "%s: %s", what, cname(r)); return r; };
    auto drain = [&] { FL2_cBuffer b; while (rep("getNextCompressedBuffer", [&] { return FL2_getNextCompressedBuffer(s, &b); })) out.insert(out.end(), (const uint8_t*)b.src, (const uint8_t*)b.src + b.size); };
    for (unsigned i = 0; i < rounds; i++) { memset(one.data(), (int)g.below(256), one.size()); FL2_dictBuffer d; rep("getDictionaryBuffer", [&] { return FL2_getDictionaryBuffer(s, &d); }); size_t n = std::min(one.size(), (size_t)d.size + (1 << 20) - (cp.overlap ? (size_t)1 << 19 : 0)); if (g.below(4) == 0) n -= g.below((unsigned)n); in.insert(in.end(), one.begin(), one.begin() + n);
        FL2_inBuffer ib = { one.data(), n, 0 }; unsigned k = 0; while (ib.pos < n) { REQUIRE(c, ++k < 8, "no-progress", "input never consumed"); rep("compressStream", [&] { return FL2_compressStream(s, NULL, &ib); }); if (ib.pos < n || g.below(3) == 0) drain(); } drain(); }
    while (rep("endStream", [&] { return FL2_endStream(s, NULL); })) drain();
    cs_check(c, out, in, cp.omitProp, FL2_getCCtxDictProp(s), cp.xxh, "timed stream of whole blocks"); vs_begin(c, calm); FL2_freeCStream(s); vs_end(c); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks leaked", vf.liveCount); c.label("whole-blocks"); c.note("whole blocks x%u -> %zu, %zu expiries", rounds, out.size(), touts); if (touts >= 3) c.nontrivial(hash_bytes(out) ^ pol.seed);
}
static void dec_case(Tape& t, Ctx& c, const VsPolicy& pol) {
    VsPolicy calm; vs_begin(c, calm); unsigned th = (unsigned)t.range(1, 4); FL2_DStream* s = FL2_createDStreamMt(th); REQUIRE(c, s, "create", "create"); std::string d; unsigned abandoned = 0; size_t touts = 0; uint64_t nt = 0;
    size_t r = FL2_setDStreamTimeout(s, (unsigned)t.range(1, 3)); REQUIRE(c, r == 0, "timeout", "setDStreamTimeout: %s", cname(r)); if (t.chance(1, 3)) FL2_setDStreamMemoryLimitMt(s, (size_t)t.range(1, 40) << t.range(10, 16)); unsigned n = (unsigned)t.range(1, 3);
    for (unsigned i = 0; i < n; i++) {
        vs_begin(c, calm); Mat m = make_valid(t, c, -1, 30000, t.chance(2, 3)); bool bad = t.chance(1, 5); if (bad) { mutate(t, m); if (m.b.empty()) m.b.push_back(8); if ((m.b[0] & 0x7F) > 12 && (m.b[0] & 0x7F) <= 40) m.b[0] = (uint8_t)((m.b[0] & 0x80) | 8); } DecCfg cfg = gen_deccfg(t, m.b.size(), m.content.size(), false); cfg.threads = th; bool wp = t.chance(1, 5); size_t maxOut = m.content.size() * 2 + 3000;
        bool stop = i + 1 < n && t.chance(2, 3); unsigned stopAt = (unsigned)t.logsize(60), polls = 0; bool stopped = false; unsigned long long last = 0;
        DecOut o; unsigned how = (unsigned)t.draw(4);
        Rng pr(t.draw(1 << 30)); DecCfg plain = cfg;
        cfg.onPoll = [&](size_t out, bool busy) { polls++; unsigned long long p = FL2_getDStreamProgress(s); REQUIRE(c, p >= last, "progress", "progress went back from %llu to %llu", last, p); last = p; (void)out;
            if (busy && stop && polls > stopAt) throw Abandon();
            if (busy) { unsigned k = (unsigned)pr.below(8); if (k == 0) { size_t q = FL2_initDStream(s); REQUIRE(c, FL2_getErrorCode(q) == FL2_error_stage_wrong || q == 0, "busy-init", "initDStream in progress: %s", cname(q)); if (q == 0) { stopped = true; throw Abandon(); } }
               
                else if (k == 2) { size_t q = FL2_setDStreamTimeout(s, (unsigned)pr.below(5)); REQUIRE(c, q == 0, "timeout", "setDStreamTimeout: %s", cname(q)); } } };
        vs_begin(c, pol);
        try { o = run_dstream(c, s, m.b.data() + wp, m.b.size() - wp, wp ? m.b[0] : -1, cfg, maxOut, m.valid); touts += o.timeouts; } catch (Abandon&) { stopped = true; }
        c.note("[%s %zu bytes th%u%s, %zu expiries%s] ", bad ? "damaged" : "stream", m.content.size(), th, wp ? " prop" : "", o.timeouts, stopped ? how ? " abandoned, cancelled" : " abandoned, waited" : "");
        if (stopped) { abandoned++; if (how) { FL2_cancelDStream(s); if (how == 2) FL2_cancelDStream(s); } else { unsigned g = 0; do { r = FL2_waitDStream(s); REQUIRE(c, ++g < 3000000, "timeout-forever", "never completes"); } while (FL2_isTimedOut(r)); } if (how == 3 && i + 1 == n) break; continue; }
        if (m.valid) { REQUIRE(c, !o.err && o.ret == 0 && o.out == m.content, "content", "timed decompression: %s (%zu), %zu of %zu bytes", cname(o.ret), o.ret, o.out.size(), m.content.size()); unsigned long long p = FL2_getDStreamProgress(s); REQUIRE(c, p == m.content.size(), "progress", "final progress %llu of %zu", p, m.content.size()); }
        else { vs_begin(c, calm); FL2_DStream* f = FL2_createDStreamMt(th); REQUIRE(c, f, "create", "create"); DecOut q = run_dstream(c, f, m.b.data() + wp, m.b.size() - wp, wp ? m.b[0] : -1, plain, maxOut, false); FL2_freeDStream(f);
            bool A = !o.err && o.ret == 0, B = !q.err && q.ret == 0; size_t k = std::min(o.out.size(), q.out.size()); REQUIRE(c, A == B, "verdict", "damaged stream: %s (%zu) with timeouts, %s (%zu) without", cname(o.ret), o.ret, cname(q.ret), q.ret); if (A) REQUIRE(c, o.out == q.out, "bytes", "damaged stream: different content"); else if (!FL2_isError(o.ret) && !FL2_isError(q.ret)) REQUIRE(c, std::equal(o.out.begin(), o.out.begin() + k, q.out.begin()), "bytes", "incomplete stream: different content"); }
        if (o.timeouts >= 3 || abandoned) if (m.content.size() > 500) nt = hash_bytes(m.b) ^ pol.seed ^ touts << 32;
        if (t.chance(1, 4)) FL2_cancelDStream(s);
    }
    vs_begin(c, pol); FL2_freeDStream(s); vs_end(c); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks leaked", vf.liveCount); c.label("decompress"); if (abandoned) c.label("abandoned-in-progress", abandoned); if (touts) c.label("expiries", touts); c.note("%s", pol.str().c_str()); if (nt) c.nontrivial(nt);
}
void run_case(Tape& t, Ctx& c) { vf_reset(); vf.fill = (int)t.draw(256); VsPolicy p = vs_policy(t); unsigned k = (unsigned)t.draw(1000); if (k >= 997) stall_case(t, c, p); else if (k % 5 < 3) comp_case(t, c, p); else dec_case(t, c, p); }
