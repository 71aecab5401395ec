// P05: a completed flush makes everything supplied so far decodable.
#include "cstream.h"
const char* const prop_id = "P05";
const char* const prop_rule = "random streaming histories rich in flushes; at each completed flush the output so far is decoded by the reference decoder and by FL2_decompressStream; non-trivial = at least one flush completed with new data before it";
void prop_init() {}

void run_case(Tape& t, Ctx& c) {
    vf_reset(); vf.fill = (int)t.draw(256);
    unsigned szk = (unsigned)t.draw(100); std::string d; Bytes in;
    if (szk < 70) in = gen_data(t, 40000, &d); else if (szk < 90) in = gen_data(t, 400000, &d); else in = gen_data_len(t, (size_t)t.range(900000, 2600000), &d);
    bool dual = t.chance(2, 5), big = in.size() > 800000; unsigned nth = (unsigned)t.range(1, 4), to = t.chance(1, 6) ? 1 : 0;
    PGen g; g.maxDict = 1 << 20; g.large = true; CParams p = gen_params(t, g); if (p.dictSize < 0) p.dictSize = 1 << 20;
    FL2_CStream* s = FL2_createCStreamMt(nth, dual); REQUIRE(c, s, "create", "createCStreamMt failed");
    int e = apply_params(s, p); REQUIRE(c, !e, "param", "setParameter #%d rejected: %s", e, p.str().c_str());
    size_t r = FL2_initCStream(s, 0); REQUIRE(c, r == 0, "init", "initCStream: %s", cname(r));
    if (to) FL2_setCStreamTimeout(s, to);
    c.note("th%u dual%d to%u %s %s", nth, dual, to, p.str().c_str(), d.c_str());
    CSOpts o; o.bigPieces = big; o.maxOps = big ? 24 : 50;
    CSRun run(c, t, s, in, o, dual || to, nth); size_t checked = 0, useful = 0, lastFed = 0; std::vector<std::pair<size_t, uint64_t>> prefixes;
    unsigned dth = t.chance(1, 2) ? 1 : (unsigned)t.range(2, 4);
    run.onFlushed = [&] {
        if (run.fed == lastFed && useful) return;
        bool nu = run.fed > lastFed; lastFed = run.fed;
        if (++checked > 12) return;
        if (nu) useful++;
        prefixes.push_back({ run.out.size(), hash_bytes(run.out) });
        if (run.out.empty()) { REQUIRE(c, run.fed == 0, "flush-empty", "flush complete after %zu bytes of input but nothing was output", run.fed); return; }
        RefResult rr = ref_decode_raw(run.out.data() + 1, run.out.size() - 1, ref_dict_size(run.out[0] & 0x3F), run.fed + 65536);
        REQUIRE(c, rr.st == RefResult::TRUNC, "flush-stream", "flushed prefix: status %d %s", (int)rr.st, rr.err.c_str());
        REQUIRE(c, rr.consumed == run.out.size() - 1, "flush-chunk", "flushed prefix of %zu bytes ends inside a chunk (complete up to %zu)", run.out.size(), rr.consumed + 1);
        REQUIRE(c, rr.out.size() == run.fed, "flush-size", "flush reported completion but only %zu of %zu bytes are decodable", rr.out.size(), run.fed);
        REQUIRE(c, !run.fed || !memcmp(rr.out.data(), in.data(), run.fed), "flush-content", "flushed content differs");
        FL2_DStream* ds = dth == 1 ? FL2_createDStream() : FL2_createDStreamMt(dth); size_t q = FL2_initDStream(ds); REQUIRE(c, q == 0, "dinit", "initDStream %s", cname(q));
        Bytes o2(run.fed + 1); FL2_inBuffer ib = { run.out.data(), run.out.size(), 0 }; FL2_outBuffer ob = { o2.data(), run.fed, 0 }; unsigned n = 0;
        // single-threaded decoding needs no more input to produce everything; the MT decoder buffers until a dictionary reset
        for (;;) { size_t op = ob.pos, ip = ib.pos; q = FL2_decompressStream(ds, &ob, &ib); REQUIRE(c, !FL2_isError(q), "flush-decode", "FL2_decompressStream of the flushed prefix: %s", cname(q)); REQUIRE(c, q == 1, "flush-decode", "prefix reported complete"); if (ob.pos == op && ib.pos == ip) { if (++n >= 1) break; } }
        REQUIRE(c, !memcmp(o2.data(), in.data(), ob.pos), "flush-decode", "prefix decodes to different content");
        if (dth == 1) REQUIRE(c, ob.pos == run.fed, "flush-decode", "FL2_decompressStream yields %zu of %zu flushed bytes", ob.pos, run.fed);
        FL2_freeDStream(ds);
    };
    run.all();
    cs_check(c, run.out, in, false, 0, p.xxh, "stream");
    for (auto& q : prefixes) REQUIRE(c, q.first <= run.out.size() && hash_bytes(run.out.data(), q.first) == q.second, "prefix-changed", "flushed prefix changed");
    FL2_freeCStream(s);
    REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks still allocated", vf.liveCount);
    c.label(dual ? "dual" : "single"); if (to) c.label("timed"); c.label("flush-checks", checked); if (big) c.label("multi-block");
    if (useful) c.nontrivial(hash_bytes(in) ^ mix64(run.ops * 77 + run.out.size()) ^ mix64(checked));
}
