// P17: progress reports.
#include "mkstream.h"
#include "mutate.h"
const char* const prop_id = "P17";
const char* const prop_rule = "compression and decompression histories with progress read after every call and at every timeout; non-trivial = at least 5 different progress values were seen";
void prop_init() {}
struct Track { unsigned long long last = 0, lastOut = 0, maxOut = 0; size_t polls = 0, distinct = 0; };
static void comp_case(Tape& t, Ctx& c) {
    unsigned th = (unsigned)t.range(1, 4); bool dual = t.chance(1, 3), timed = t.chance(1, 3); FL2_CStream* s = FL2_createCStreamMt(th, dual); REQUIRE(c, s, "create", "create"); std::string d;
    unsigned rounds = (unsigned)t.range(1, 2); size_t distinct = 0; uint64_t h = 0;
    for (unsigned k = 0; k < rounds; k++) {
        PGen g; g.maxDict = 2 << 20; g.omit = true; g.large = true; CParams p = gen_params(t, g); if (p.dictSize < 0) p.dictSize = 1 << 20; int e = apply_params(s, p); REQUIRE(c, !e, "param", "setParameter"); unsigned w = (unsigned)t.draw(20); Bytes in = w < 11 ? gen_data(t, 40000, &d) : w < 17 ? gen_data(t, 500000, &d) : gen_data_len(t, (size_t)t.range(900000, 3500000), &d);
        if (timed) { size_t r = FL2_setCStreamTimeout(s, 1); REQUIRE(c, r == 0, "timeout", "%s", cname(r)); }
        size_t r = FL2_initCStream(s, 0); REQUIRE(c, r == 0, "init", "%s", cname(r));
        unsigned long long po = 99, pi = FL2_getCStreamProgress(s, &po); REQUIRE(c, pi == 0 && po == 0, "start", "progress %llu / %llu after initialisation", pi, po);
        CSOpts o; o.bigPieces = in.size() > 500000; o.maxOps = o.bigPieces ? 16 : 40; CSRun run(c, t, s, in, o, dual || timed, th); Track k2;
        auto poll = [&] { unsigned long long b = 0, a = FL2_getCStreamProgress(s, &b), a2 = FL2_getCStreamProgress(s, NULL); REQUIRE(c, a2 >= a, "decrease", "progress fell from %llu to %llu", a, a2); k2.polls++;
            REQUIRE(c, a >= k2.last, "decrease", "op %zu: input progress fell from %llu to %llu", run.ops, k2.last, a); REQUIRE(c, b >= k2.lastOut, "decrease", "op %zu: output progress fell from %llu to %llu", run.ops, k2.lastOut, b);
            // data being consumed by the call in progress is not yet in run.fed
            REQUIRE(c, a2 <= in.size(), "exceeds", "op %zu: progress %llu, stream of %zu bytes", run.ops, a2, in.size()); if (a2 != k2.last) k2.distinct++; k2.last = a2; k2.lastOut = b; };
        run.onPoll = poll;
        run.onFlushed = [&] { poll(); REQUIRE(c, k2.last == run.fed, "flushed", "progress %llu after a completed flush of %zu bytes", k2.last, run.fed); REQUIRE(c, k2.lastOut <= run.out.size() && k2.lastOut + 1 >= run.out.size(), "flushed-out", "output progress %llu after a completed flush, %zu bytes emitted", k2.lastOut, run.out.size()); };
        size_t n = (size_t)t.range(0, o.maxOps); for (size_t i = 0; i < n; i++) { run.op(); poll(); if (!dual && !timed) REQUIRE(c, k2.last <= run.fed, "exceeds", "progress %llu, %zu bytes supplied", k2.last, run.fed); if (run.fed == in.size() && i > n / 2 + 5) break; }
        run.finish(); poll(); size_t over = (p.omitProp ? 0 : 1) + 1 + (p.xxh && !p.omitProp ? 4 : 0); (void)over;
        REQUIRE(c, k2.last == in.size(), "final", "final progress %llu, stream of %zu bytes", k2.last, in.size()); REQUIRE(c, k2.lastOut <= run.out.size() && k2.lastOut + over >= run.out.size(), "final-out", "final output progress %llu, %zu bytes emitted", k2.lastOut, run.out.size());
        distinct = std::max(distinct, k2.distinct); h = hash_bytes(&k2.last, 8, hash_bytes(&k2.lastOut, 8, h + k2.polls)); if (run.timeouts) c.label("timeouts"); c.note("[%zu -> %zu polls%zu values%zu timeouts%zu] ", in.size(), run.out.size(), k2.polls, k2.distinct, run.timeouts);
    }
    FL2_freeCStream(s); c.note("cstream th%u%s%s %s", th, dual ? " dual" : "", timed ? " timed" : "", d.c_str()); c.label("cstream"); if (distinct >= 5) c.nontrivial(h);
}
static void dec_case(Tape& t, Ctx& c) {
    unsigned th = (unsigned)t.range(1, 4); FL2_DStream* s = th == 1 ? FL2_createDStream() : FL2_createDStreamMt(th); REQUIRE(c, s, "create", "create"); unsigned rounds = (unsigned)t.range(1, 3); bool timed = t.chance(1, 3); uint64_t h = 0; size_t distinct = 0;
    for (unsigned k = 0; k < rounds; k++) {
        Mat m = make_valid(t, c, -1, t.chance(1, 3) ? 600000 : 20000, t.chance(1, 2)); DecCfg cfg = gen_deccfg(t, m.b.size(), m.content.size(), false); bool trunc = t.chance(1, 6); size_t len = trunc ? (size_t)t.draw(m.b.size()) : m.b.size(); if (t.chance(1, 4)) FL2_setDStreamMemoryLimitMt(s, (size_t)t.range(1, 100) << t.range(8, 15)); if (timed) FL2_setDStreamTimeout(s, 1);
        Track k2; bool first = true;
        cfg.onPoll = [&](size_t out, bool busy) { unsigned long long a = FL2_getDStreamProgress(s); if (first && busy) {} REQUIRE(c, a >= k2.last, "decrease", "progress fell from %llu to %llu", k2.last, a); REQUIRE(c, a <= m.content.size(), "exceeds", "progress %llu, content of %zu bytes", a, m.content.size()); if (!busy) REQUIRE(c, a >= out, "behind", "progress %llu, %zu bytes already output", a, out); if (a != k2.last) k2.distinct++; k2.last = a; k2.polls++; first = false; };
        DecOut o = run_dstream(c, s, m.b.data(), len, -1, cfg, m.content.size() + 10, true); if (!trunc) REQUIRE(c, !o.err && o.ret == 0 && o.out == m.content, "content", "%s", cname(o.ret));
        if (!o.err && o.ret == 0) { unsigned long long a = FL2_getDStreamProgress(s); REQUIRE(c, a == m.content.size(), "final", "final progress %llu, content of %zu bytes", a, m.content.size()); }
        if (t.chance(1, 2)) { FL2_cancelDStream(s); }
        size_t r = FL2_initDStream(s); REQUIRE(c, r == 0, "init", "%s", cname(r)); REQUIRE(c, FL2_getDStreamProgress(s) == 0, "start", "progress %llu after initialisation", FL2_getDStreamProgress(s));
        distinct = std::max(distinct, k2.distinct); h = hash_bytes(&k2.last, 8, h + k2.polls + m.b.size()); if (o.timeouts) c.label("dec-timeouts"); c.note("[%zu -> %zu polls%zu values%zu] ", m.b.size(), o.out.size(), k2.polls, k2.distinct);
    }
    FL2_freeDStream(s); c.note("dstream th%u%s", th, timed ? " timed" : ""); c.label("dstream"); if (distinct >= 5) c.nontrivial(h);
}
void run_case(Tape& t, Ctx& c) { vf_reset(); vf.fill = (int)t.draw(256); if (t.chance(1, 2)) comp_case(t, c); else dec_case(t, c); }
