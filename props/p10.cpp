// P10: one operation under many schedules.
#include "mkstream.h"
#include "mutate.h"
#include "vsched.h"
const char* const prop_id = "P10";
const char* const prop_rule = "multi-threaded one-shot and streaming compression and decompression (valid and damaged streams) run without preemption and then under several generated schedules; bytes, sizes and return codes compared; non-trivial = at least 2 worker threads did work on more than 2000 bytes and the schedules switched threads at least 20 times";
void prop_init() {}
struct Res { size_t r = 0; Bytes out; size_t consumed = 0; unsigned prop = 0; unsigned long long prog = 0, progOut = 0; bool timing = false; };
static Bytes input(Tape& t, std::string* d) { unsigned k = (unsigned)t.draw(30); return k < 22 ? gen_data(t, 120000, d) : k < 29 ? gen_data(t, 500000, d) : gen_data_len(t, (size_t)t.range(1000000, 1700000), d); }
void run_case(Tape& t, Ctx& c) {
    vf_reset(); vf.fill = (int)t.draw(256); unsigned kind = (unsigned)t.draw(10), th = (unsigned)t.range(2, 5); VsPolicy calm; calm.order = 0; VsPolicy p[3]; unsigned np = (unsigned)t.range(1, 3); for (unsigned i = 0; i < np; i++) p[i] = vs_policy(t);
    std::string d, what; Bytes in; CParams cp; Mat m; DecCfg cfg; bool dual = false, flush = false, hp = false; size_t cap = 0, n0 = 0, n1 = 0; std::vector<uint64_t> part; unsigned hist = 0;
    vs_begin(c, calm);
    if (kind < 6) { in = input(t, &d); PGen g; g.maxDict = 1 << 20; cp = gen_params(t, g); if (cp.dictSize < 0) cp.dictSize = 1 << 20; if (cp.depth > 20) cp.depth = 12; if (t.chance(2, 3)) cp.strategy = 0; cp.level = cp.level > 4 ? 2 : cp.level; cp.high = 0; cap = t.chance(3, 4) ? FL2_compressBound(in.size()) + 1000 + in.size() / 100 : (size_t)t.logsize(FL2_compressBound(in.size())); dual = kind > 1 && t.chance(1, 3); flush = !dual && t.draw(2); hist = (unsigned)t.draw(3); }
    else if (kind < 8) { m = make_valid(t, c, -1, 40000, true); hp = t.chance(1, 4); }
    else { m = make_valid(t, c, -1, 40000, true); unsigned k = (unsigned)t.range(1, 2); for (unsigned i = 0; i < k; i++) mutate(t, m); if ((m.b.empty() ? 0 : m.b[0] & 0x7F) > 16) m.b[0] = (uint8_t)((m.b[0] & 0x80) | 8); if (m.b.empty()) m.b.push_back(8); }
    bool ds = kind >= 6 && t.chance(2, 3); size_t maxOut = m.content.size() * 2 + 3000; if (kind >= 6) { cfg = gen_deccfg(t, m.b.size(), m.content.size(), false); cfg.threads = th; if (t.chance(1, 4)) cfg.memLimit = (size_t)t.range(1, 40) << t.range(10, 16); }
    std::vector<Bytes> before; for (unsigned i = 0; i < hist; i++) before.push_back(gen_data(t, 60000, &d));
    std::vector<uint64_t> tapePart; size_t t0 = t.n; bool haveTape = false;
    auto once = [&](Tape& q) { Res x;
        if (kind < 2) { FL2_CCtx* cc = FL2_createCCtxMt(th); REQUIRE(c, cc, "create", "create"); int e = apply_params(cc, cp); REQUIRE(c, !e, "param", "#%d", e); for (auto& b : before) { Bytes o(FL2_compressBound(b.size()) + 1000 + b.size() / 100); size_t r = FL2_compressCCtx(cc, o.data(), o.size(), b.data(), b.size(), 0); REQUIRE(c, !FL2_isError(r), "compress", "%s", cname(r)); x.out.insert(x.out.end(), o.begin(), o.begin() + r); } Guard o(cap); x.r = FL2_compressCCtx(cc, o.p, cap, in.data(), in.size(), 0); if (!FL2_isError(x.r)) { Bytes b = o.bytes(x.r); x.out.insert(x.out.end(), b.begin(), b.end()); if (before.empty()) cs_check(c, b, in, cp.omitProp, FL2_getCCtxDictProp(cc), -1, "one-shot"); } x.prop = FL2_getCCtxDictProp(cc); FL2_freeCCtx(cc); }
        else if (kind < 6) { FL2_CStream* s = FL2_createCStreamMt(th, dual); REQUIRE(c, s, "create", "create"); int e = apply_params(s, cp); REQUIRE(c, !e, "param", "#%d", e); size_t r = FL2_initCStream(s, 0); REQUIRE(c, r == 0, "init", "%s", cname(r)); CSOpts o; o.flush = flush; o.paramChange = flush; o.maxOps = 10; o.bigPieces = in.size() > 300000; CSRun run(c, q, s, in, o, dual, th); run.all(); x.timing = dual && run.anyFlush; x.out.swap(run.out); x.prop = FL2_getCCtxDictProp(s); x.prog = FL2_getCStreamProgress(s, &x.progOut); if (dual) x.progOut = 0; cs_check(c, x.out, in, cp.omitProp, x.prop, -1, "stream"); FL2_freeCStream(s); }
        else if (!ds) { FL2_DCtx* dc = FL2_createDCtxMt(th); REQUIRE(c, dc, "create", "create"); Guard o(hp ? m.content.size() : maxOut), g(m.b); x.r = FL2_decompressDCtx(dc, o.p, o.n, g.p, g.n); if (!FL2_isError(x.r)) x.out = o.bytes(x.r); if (m.valid) REQUIRE(c, x.r == m.content.size() && x.out == m.content, "content", "decompressDCtx: %s", cname(x.r)); FL2_freeDCtx(dc); }
        else { FL2_DStream* s = FL2_createDStreamMt(th); REQUIRE(c, s, "create", "create"); if (cfg.memLimit) FL2_setDStreamMemoryLimitMt(s, cfg.memLimit); DecOut o = run_dstream(c, s, m.b.data(), m.b.size(), -1, cfg, maxOut, m.valid); x.r = o.ret; x.out.swap(o.out); x.consumed = o.consumed; x.prog = o.calls; if (m.valid) REQUIRE(c, !o.err && o.ret == 0 && x.out == m.content, "content", "decompressStream: %s, %zu of %zu bytes", cname(o.ret), x.out.size(), m.content.size()); FL2_freeDStream(s); }
        return x; };
    Res a = once(t); if (t.n <= t.cap) { tapePart.assign(t.rec + t0, t.rec + t.n); haveTape = true; }
    uint64_t sw = 0;
    const char* names[] = { "one-shot", "one-shot", "stream", "stream", "stream", "stream", "decode", "decode", "decode damaged", "decode damaged" };
    c.note("%s%s%s th%u in %zu -> %zu: %s; ", ds ? "stream " : "", names[kind], dual ? " dual" : "", th, in.size() + m.b.size(), a.out.size(), cname(a.r));
    for (unsigned i = 0; i < np && haveTape; i++) {
        c.note("[%s] ", p[i].str().c_str());
#ifdef VF_SCHED
        uint64_t s0 = vs_stats.switches;
#endif
        vs_begin(c, p[i]); Tape q; q.replay = true; q.src = tapePart.data(); q.srcLen = tapePart.size(); Res b = once(q);
#ifdef VF_SCHED
        sw += vs_stats.switches - s0;
#endif
        if (a.timing || b.timing) continue; // a dual-buffer stream was flushed at a moment that depends on timing
        REQUIRE(c, a.r == b.r, "result", "result %zu (%s) under one schedule, %zu (%s) under another", a.r, cname(a.r), b.r, cname(b.r));
        if (a.out != b.out) { size_t k = 0; while (k < a.out.size() && k < b.out.size() && a.out[k] == b.out[k]) k++; c.fail("bytes", "output differs between schedules at %zu of %zu/%zu", k, a.out.size(), b.out.size()); }
        REQUIRE(c, a.prop == b.prop && a.consumed == b.consumed && a.prog == b.prog && a.progOut == b.progOut, "state", "property %u/%u, consumed %zu/%zu, progress %llu/%llu, %llu/%llu", a.prop, b.prop, a.consumed, b.consumed, a.prog, b.prog, a.progOut, b.progOut);
    }
    vs_end(c); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks leaked", vf.liveCount);
    c.label(names[kind]); if (dual) c.label("dual"); c.note("switches %llu", (unsigned long long)sw);
    if (sw >= 20 && (kind < 6 ? in.size() > 2000 : m.content.size() > 2000)) c.nontrivial(hash_bytes(a.out) ^ p[0].seed * 31 ^ sw);
}
