// P13: every allocation (and thread creation) of an operation made to fail.
#include "mkstream.h"
#include "mutate.h"
const char* const prop_id = "P13";
const char* const prop_rule = "a scenario (create, one to three operations with changing parameters, free) is run once to count its allocations and thread creations, then once per chosen attempt with that one failing, or it and all later ones; non-trivial = at least one attempt of a scenario with 3 or more was made to fail";
void prop_init() {}
// Failing call -> the object is started again without faults and must work.
struct Scn {
    int kind; unsigned th; bool dual; unsigned nops; unsigned long long seed; size_t memLimit; unsigned timeout; std::vector<CParams> p; std::vector<Bytes> in; std::vector<Bytes> comp; std::vector<int> prop; std::vector<uint64_t> sub; bool st3;
};
static void mem_err(Ctx& c, size_t r, const char* what) { REQUIRE(c, FL2_getErrorCode(r) == FL2_error_memory_allocation, "error-code", "%s reports %s for a failed allocation (attempt %llu of %llu failed)", what, cname(r), (unsigned long long)(vf.failAt ? vf.failAt : vf.failFrom), (unsigned long long)vf.count); REQUIRE(c, vf.failed > 0, "spurious", "%s: %s although no allocation failed", what, cname(r)); }
static void verify(Ctx& c, const Bytes& out, const Bytes& in, const CParams& p, unsigned prop, const char* what) { cs_check(c, out, in, p.omitProp, prop, p.omitProp ? 0 : p.xxh, what); }
// one streaming compression; returns false if a call failed for want of memory
static bool cstream_op(Ctx& c, FL2_CStream* s, const Bytes& in, const CParams& p, uint64_t seed, bool faulty, unsigned timeout) {
    Rng r(seed); size_t q = FL2_initCStream(s, 0); if (FL2_isError(q)) { REQUIRE(c, faulty, "init", "initCStream without faults: %s", cname(q)); mem_err(c, q, "initCStream"); return false; }
    if (timeout != ~0u) { q = FL2_setCStreamTimeout(s, timeout); if (FL2_isError(q)) { REQUIRE(c, faulty, "timeout", "%s", cname(q)); mem_err(c, q, "setCStreamTimeout"); return false; } }
    Bytes out; uint8_t ob[3000]; size_t fed = 0; unsigned prop; bool ending = false; unsigned g = 0; size_t step = 1 + r.below(in.size() + 1);
    for (;;) { REQUIRE(c, ++g < 4000000, "endless", "stream never completes"); FL2_outBuffer o = { ob, sizeof ob, 0 }; size_t k;
        if (!ending) { size_t n = std::min(step, in.size() - fed); if (n == 0) { ending = true; continue; } FL2_inBuffer ib = { in.data() + fed, n, 0 }; k = FL2_compressStream(s, &o, &ib); fed += ib.pos; }
        else k = FL2_endStream(s, &o);
        out.insert(out.end(), ob, ob + o.pos);
        if (FL2_isTimedOut(k)) { do k = FL2_waitCStream(s); while (FL2_isTimedOut(k)); if (!FL2_isError(k)) continue; }
        if (FL2_isError(k)) { REQUIRE(c, faulty, "stream", "%s", cname(k)); mem_err(c, k, ending ? "endStream" : "compressStream"); return false; }
        if (ending && k == 0) break; }
    prop = FL2_getCCtxDictProp(s); verify(c, out, in, p, prop, "stream"); return true;
}
static bool oneshot_op(Ctx& c, FL2_CCtx* s, const Bytes& in, const CParams& p, bool faulty) { Bytes out(FL2_compressBound(in.size())); size_t q = FL2_compressCCtx(s, out.data(), out.size(), in.data(), in.size(), 0); if (FL2_isError(q)) { REQUIRE(c, faulty, "one-shot", "%s", cname(q)); mem_err(c, q, "compressCCtx"); return false; } out.resize(q); verify(c, out, in, p, FL2_getCCtxDictProp(s), "one-shot"); return true; }
static bool dctx_op(Ctx& c, FL2_DCtx* d, const Bytes& comp, const Bytes& want, int prop, bool faulty) { size_t q = 0; if (prop >= 0) { q = FL2_initDCtx(d, (unsigned char)prop); if (FL2_isError(q)) { REQUIRE(c, faulty, "initDCtx", "%s", cname(q)); mem_err(c, q, "initDCtx"); return false; } } Bytes out(want.size() + 1, 7); q = FL2_decompressDCtx(d, out.data(), want.size(), comp.data(), comp.size()); if (FL2_isError(q)) { REQUIRE(c, faulty, "dctx", "%s", cname(q)); mem_err(c, q, "decompressDCtx"); return false; } REQUIRE(c, q == want.size() && !memcmp(out.data(), want.data(), q), "content", "decompressDCtx: wrong content"); return true; }
static bool dstream_op(Ctx& c, FL2_DStream* d, const Bytes& comp, const Bytes& want, int prop, uint64_t seed, bool faulty, unsigned timeout) {
    DecCfg cfg; Rng r(seed); cfg.seed = seed; cfg.inMode = (unsigned)r.below(4); cfg.outMode = (unsigned)r.below(4); cfg.inMax = 1 + r.below(comp.size() + 1); cfg.outMax = 1 + r.below(want.size() + 100); size_t fl = comp.size() / 200 + 1; if (cfg.inMax < fl) cfg.inMax = fl; fl = want.size() / 200 + 1; if (cfg.outMax < fl) cfg.outMax = fl;
    if (timeout != ~0u) { size_t q = FL2_setDStreamTimeout(d, timeout); if (FL2_isError(q)) { REQUIRE(c, faulty, "timeout", "%s", cname(q)); mem_err(c, q, "setDStreamTimeout"); return false; } }
    DecOut o = run_dstream(c, d, comp.data(), comp.size(), prop, cfg, want.size() + 100, true);
    if (o.err) { REQUIRE(c, faulty, "dstream", "%s", cname(o.ret)); mem_err(c, o.ret, o.initErr ? "initDStream" : "decompressStream"); return false; }
    REQUIRE(c, o.ret == 0 && o.out == want, "content", "stream: ret %zu, %zu of %zu bytes", o.ret, o.out.size(), want.size()); return true;
}
// runs the scenario with the faults currently set; returns whether everything worked
static bool scenario(Ctx& c, const Scn& s, bool faulty) {
    bool all = true; unsigned failedOp = ~0u;
    auto clear = [&] { vf.failAt = vf.failFrom = 0; };
    if (s.kind <= 1) {
        FL2_CCtx* x = s.kind == 0 ? FL2_createCCtxMt(s.th) : FL2_createCStreamMt(s.th, s.dual);
        if (!x) { REQUIRE(c, faulty && vf.failed, "create", "create failed without a fault"); REQUIRE(c, vf.liveCount == 0, "leak", "failed create leaks %zu blocks", vf.liveCount); return false; }
        for (unsigned i = 0; i < s.nops; i++) { int e = apply_params(x, s.p[i]); REQUIRE(c, !e, "param", "setParameter failed");
            bool ok = s.kind == 0 ? oneshot_op(c, x, s.in[i], s.p[i], faulty) : cstream_op(c, x, s.in[i], s.p[i], s.sub[i], faulty, s.timeout);
            if (!ok) { all = false; failedOp = i; uint64_t fa = vf.failFrom; if (fa && (s.sub[i] & 1)) { // still failing: must go on failing cleanly (or work without the memory)
                    if (s.kind == 0) oneshot_op(c, x, s.in[i], s.p[i], true); else cstream_op(c, x, s.in[i], s.p[i], s.sub[i], true, s.timeout); }
                if (s.sub[i] & 2) break; // free at once
                clear(); if (i && (s.sub[i] & 24) == 8) { // first what worked before
                    int e2 = apply_params(x, s.p[i - 1]); REQUIRE(c, !e2, "param", "setParameter failed"); bool prev = s.kind == 0 ? oneshot_op(c, x, s.in[i - 1], s.p[i - 1], false) : cstream_op(c, x, s.in[i - 1], s.p[i - 1], s.sub[i - 1], false, s.timeout); REQUIRE(c, prev, "reuse", "unusable after a failed allocation"); e2 = apply_params(x, s.p[i]); REQUIRE(c, !e2, "param", "setParameter failed"); }
                bool again = s.kind == 0 ? oneshot_op(c, x, s.in[i], s.p[i], false) : cstream_op(c, x, s.in[i], s.p[i], s.sub[i], false, s.timeout); REQUIRE(c, again, "reuse", "unusable after a failed allocation"); } }
        FL2_freeCCtx(x);
    } else if (s.kind == 2) { // simple functions
        for (unsigned i = 0; i < s.nops; i++) { Bytes out(FL2_compressBound(s.in[i].size())); size_t q = FL2_compressMt(out.data(), out.size(), s.in[i].data(), s.in[i].size(), 1, s.th); if (FL2_isError(q)) { REQUIRE(c, faulty, "compressMt", "%s", cname(q)); mem_err(c, q, "compressMt"); all = false; } else { out.resize(q); CParams p; verify(c, out, s.in[i], p, 0, "compressMt"); }
            REQUIRE(c, vf.liveCount == 0, "leak", "compressMt leaks %zu blocks", vf.liveCount); if (s.prop[i] < 0) { Bytes dst(s.in[i].size() + 1); q = FL2_decompressMt(dst.data(), s.in[i].size(), s.comp[i].data(), s.comp[i].size(), s.th); if (FL2_isError(q)) { REQUIRE(c, faulty, "decompressMt", "%s", cname(q)); mem_err(c, q, "decompressMt"); all = false; } else REQUIRE(c, q == s.in[i].size() && !memcmp(dst.data(), s.in[i].data(), q), "content", "decompressMt: wrong content"); REQUIRE(c, vf.liveCount == 0, "leak", "decompressMt leaks %zu blocks", vf.liveCount); } }
    } else if (s.kind == 3) {
        FL2_DCtx* x = FL2_createDCtxMt(s.th); if (!x) { REQUIRE(c, faulty && vf.failed, "create", "create failed without a fault"); REQUIRE(c, vf.liveCount == 0, "leak", "failed create leaks %zu blocks", vf.liveCount); return false; }
        for (unsigned i = 0; i < s.nops; i++) if (!dctx_op(c, x, s.comp[i], s.in[i], s.prop[i], faulty)) { all = false; failedOp = i; if (s.sub[i] & 2) break; clear(); if (i && s.sub[i] & 8) { bool prev = dctx_op(c, x, s.comp[i - 1], s.in[i - 1], s.prop[i - 1], false); REQUIRE(c, prev, "reuse", "unusable after a failed allocation"); } bool again = dctx_op(c, x, s.comp[i], s.in[i], s.prop[i], false); REQUIRE(c, again, "reuse", "unusable after a failed allocation"); }
        FL2_freeDCtx(x);
    } else {
        FL2_DStream* x = FL2_createDStreamMt(s.th); if (!x) { REQUIRE(c, faulty && vf.failed, "create", "create failed without a fault"); REQUIRE(c, vf.liveCount == 0, "leak", "failed create leaks %zu blocks", vf.liveCount); return false; }
        if (s.memLimit) FL2_setDStreamMemoryLimitMt(x, s.memLimit);
        for (unsigned i = 0; i < s.nops; i++) if (!dstream_op(c, x, s.comp[i], s.in[i], s.prop[i], s.sub[i], faulty, s.timeout)) { all = false; failedOp = i; if (vf.failFrom && (s.sub[i] & 1)) dstream_op(c, x, s.comp[i], s.in[i], s.prop[i], s.sub[i], true, s.timeout); if (s.sub[i] & 2) break; clear(); if (s.sub[i] & 4) FL2_cancelDStream(x); if (i && s.sub[i] & 8) { bool prev = dstream_op(c, x, s.comp[i - 1], s.in[i - 1], s.prop[i - 1], s.sub[i - 1], false, s.timeout); REQUIRE(c, prev, "reuse", "unusable after a failed allocation"); } bool again = dstream_op(c, x, s.comp[i], s.in[i], s.prop[i], s.sub[i], false, s.timeout); REQUIRE(c, again, "reuse", "unusable after a failed allocation"); }
        FL2_freeDStream(x);
    }
    REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks leaked", vf.liveCount); (void)failedOp;
    return all;
}
void run_case(Tape& t, Ctx& c) {
    vf_reset(); Scn s; s.kind = (int)t.draw(5); s.th = (unsigned)t.range(1, 4); s.dual = t.chance(1, 3); s.nops = (unsigned)t.range(1, 3); s.memLimit = t.chance(1, 3) ? (size_t)t.range(1, 60) << t.range(8, 14) : 0; s.timeout = t.chance(1, 4) ? 1 : ~0u; s.st3 = false; s.seed = 0; size_t bytes = 0; std::string d;
    for (unsigned i = 0; i < s.nops; i++) {
        s.sub.push_back(t.raw()); s.prop.push_back(-1); s.comp.push_back(Bytes()); CParams p;
        if (s.kind <= 2) { PGen g; g.maxDict = 2 << 20; g.omit = true; g.small = true; p = gen_params(t, g); if (p.dictSize < 0) p.dictSize = (long)t.range(1 << 20, 2 << 20); if (s.kind == 2) p = CParams(); Bytes in = t.chance(1, 8) ? gen_data(t, 500000, &d) : gen_data(t, 5000, &d); if (s.kind == 1 && t.chance(1, 10)) in = gen_data_len(t, (size_t)t.range(1 << 20, 5 << 19), &d);
            if (s.kind == 2) { FL2_CCtx* x = FL2_createCCtx(); Bytes o(FL2_compressBound(in.size())); size_t q = FL2_compressCCtx(x, o.data(), o.size(), in.data(), in.size(), 1); REQUIRE(c, !FL2_isError(q), "prepare", "%s", cname(q)); o.resize(q); FL2_freeCCtx(x); s.comp[i] = o; }
            s.in.push_back(in); }
        else { Mat m = make_valid(t, c, -1, t.chance(1, 4) ? 400000 : 6000, t.chance(2, 3)); s.in.push_back(m.content); if (t.chance(1, 4)) { s.prop[i] = m.b[0]; m.b.erase(m.b.begin()); } s.comp[i] = m.b; }
        s.p.push_back(p); bytes += s.in[i].size();
    }
    static const char* const names[] = { "ctx", "cstream", "simple", "dctx", "dstream" }; c.note("%s%s th%u ops%u%s lim%zu bytes%zu ", names[s.kind], s.dual && s.kind == 1 ? " dual" : "", s.th, s.nops, s.timeout == 1 ? " timeout" : "", s.memLimit, bytes);
    vf_reset(); vf.fill = (int)t.draw(256); int fill = vf.fill; bool ok = scenario(c, s, false); REQUIRE(c, ok, "no-fault", "scenario fails without faults"); uint64_t N = vf.count; c.note("attempts%llu ", (unsigned long long)N);
    unsigned runs = 0, fails = 0; bool big = bytes > 300000; unsigned budget = c.tier ? 80 : big ? 5 : 14; bool everyOne = N <= budget;
    for (unsigned i = 0; i < budget * 2 && (!everyOne || i < 2 * N); i++) {
        uint64_t k = everyOne ? i / 2 + 1 : 1 + t.draw(N); bool from = everyOne ? i & 1 : t.chance(1, 2); if (!everyOne && runs >= budget) break;
        vf_reset(); vf.fill = fill; if (from) vf.failFrom = k; else vf.failAt = k;
        char b[60]; snprintf(b, sizeof b, "[%s %llu]", from ? "from" : "at", (unsigned long long)k); size_t keep = c.desc.size(); c.desc += b; scenario(c, s, true); c.desc.resize(keep); runs++; if (vf.failed) fails++;
    }
    c.label(names[s.kind]); c.label("fault-runs", runs); if (fails && N >= 3) c.nontrivial(hash_bytes(&N, sizeof N, s.sub[0]));
}
