// P14: data races, and independence of separate contexts.
#define VF_SHIM_IMPL
#include "shim.h"
#include "mkstream.h"
#include "mutate.h"
#include "vsched.h"
const char* const prop_id = "P14";
const char* const prop_rule = "1-4 application threads, each with its own multi-threaded contexts (one-shot, stream, dual-buffer, timed, polled, cancelled; simple calls; decompression of valid and damaged streams), under ThreadSanitizer; results compared with the same jobs run one after another; non-trivial = at least two threads of the library or the application were at work on more than 2000 bytes in all";
void prop_init() {}
struct Job {
    unsigned kind = 0, th = 1, timeout = 0, rounds = 1; bool dual = false, flush = false, cancel = false, damaged = false; const Bytes* in = nullptr; CParams cp; const Mat* m = nullptr; DecCfg cfg; uint64_t seed = 0; int level = 1;
    Bytes out; size_t ret = 0; bool cmp = true, askCores = false; unsigned nCores = 0; Ctx ctx;
};
struct Stop {};
static unsigned cores() { FL2_CCtx* x = FL2_createCCtxMt(0); unsigned n = x ? FL2_getCCtxThreadCount(x) : 0; FL2_freeCCtx(x); return n; }
static void work(Job& j) {
    Ctx& c = j.ctx; if (j.askCores) j.nCores = cores(); Tape q; q.rng = Rng(j.seed); Rng pr(j.seed * 7 + 1); j.out.clear(); j.ret = 0; j.cmp = true;
    switch (j.kind) {
    case 0: { // context, used several times
        FL2_CCtx* cc = FL2_createCCtxMt(j.th); REQUIRE(c, cc, "create", "create"); int e = apply_params(cc, j.cp); REQUIRE(c, !e, "param", "#%d", e);
        for (unsigned i = 0; i < j.rounds; i++) { size_t n = j.in->size() >> i, cap = FL2_compressBound(n) + n / 50 + 2000; Bytes o(cap); size_t r = FL2_compressCCtx(cc, o.data(), cap, j.in->data(), n, 0); REQUIRE(c, !FL2_isError(r) && r <= cap, "compress", "compressCCtx: %s", cname(r)); o.resize(r); cs_check(c, o, Bytes(j.in->begin(), j.in->begin() + n), j.cp.omitProp, FL2_getCCtxDictProp(cc), -1, "one-shot"); j.out.insert(j.out.end(), o.begin(), o.end()); }
        FL2_freeCCtx(cc); break; }
    case 1: { // simple calls
        size_t n = j.in->size(), cap = FL2_compressBound(n) + n / 50 + 2000; Bytes o(cap); size_t r = j.th == 1 ? FL2_compress(o.data(), cap, j.in->data(), n, j.level) : FL2_compressMt(o.data(), cap, j.in->data(), n, j.level, j.th); REQUIRE(c, !FL2_isError(r), "compress", "compress: %s", cname(r)); o.resize(r);
        Bytes d(n + 1); size_t k = FL2_findDecompressedSize(o.data(), r); REQUIRE(c, k == n, "size", "findDecompressedSize %zu", k); k = j.th == 1 ? FL2_decompress(d.data(), n, o.data(), r) : FL2_decompressMt(d.data(), n, o.data(), r, j.th); REQUIRE(c, k == n && !memcmp(d.data(), j.in->data(), n), "content", "decompress: %s", cname(k)); j.out = o; break; }
    case 2: { // stream
        FL2_CStream* s = FL2_createCStreamMt(j.th, j.dual); REQUIRE(c, s, "create", "create"); int e = apply_params(s, j.cp); REQUIRE(c, !e, "param", "#%d", e); if (j.timeout) FL2_setCStreamTimeout(s, j.timeout);
        for (unsigned i = 0; i < j.rounds; i++) {
            size_t r = FL2_initCStream(s, 0); REQUIRE(c, r == 0, "init", "initCStream: %s", cname(r)); CSOpts o; o.flush = o.paramChange = j.flush; o.maxOps = 10; o.bigPieces = j.in->size() > 200000; CSRun run(c, q, s, *j.in, o, j.dual || j.timeout, j.th); bool last = i + 1 == j.rounds; unsigned stopAt = (unsigned)pr.below(30), polls = 0;
            run.onPoll = [&] { if (pr.below(2)) { unsigned long long po; FL2_getCStreamProgress(s, &po); } if (j.cancel && !last && ++polls > stopAt) throw Stop(); };
            try { if (last || pr.below(2)) run.all(); else for (int k = 0; k < 5; k++) run.op(); } catch (Stop&) {}
            if (last) { cs_check(c, run.out, *j.in, j.cp.omitProp, FL2_getCCtxDictProp(s), -1, "stream"); j.out = run.out; j.cmp = !j.flush && !run.anyFlush; } else if (!run.ended || pr.below(2)) FL2_cancelCStream(s);
        }
        FL2_freeCStream(s); break; }
    case 3: { // decompression context
        FL2_DCtx* dc = FL2_createDCtxMt(j.th); REQUIRE(c, dc, "create", "create"); for (unsigned i = 0; i < j.rounds; i++) { size_t cap = j.m->content.size() + (j.damaged ? 500 : 0); Bytes o(cap); size_t r = FL2_decompressDCtx(dc, o.data(), cap, j.m->b.data(), j.m->b.size()); if (j.m->valid) REQUIRE(c, r == cap && o == j.m->content, "content", "decompressDCtx: %s", cname(r)); j.ret = r; if (!FL2_isError(r)) { o.resize(r); j.out = o; } } FL2_freeDCtx(dc); break; }
    default: { // decompression stream
        FL2_DStream* s = FL2_createDStreamMt(j.th); REQUIRE(c, s, "create", "create"); if (j.timeout) FL2_setDStreamTimeout(s, j.timeout); if (j.cfg.memLimit) FL2_setDStreamMemoryLimitMt(s, j.cfg.memLimit);
        for (unsigned i = 0; i < j.rounds; i++) { DecCfg cfg = j.cfg; bool last = i + 1 == j.rounds; unsigned stopAt = (unsigned)pr.below(30), polls = 0; cfg.onPoll = [&](size_t, bool busy) { if (pr.below(2)) FL2_getDStreamProgress(s); if (busy && j.cancel && !last && ++polls > stopAt) throw Stop(); };
            try { DecOut o = run_dstream(c, s, j.m->b.data(), j.m->b.size(), -1, cfg, j.m->content.size() + 500, false); if (j.m->valid) REQUIRE(c, !o.err && o.ret == 0 && o.out == j.m->content, "content", "decompressStream: %s, %zu of %zu bytes", cname(o.ret), o.out.size(), j.m->content.size()); j.ret = o.ret; j.out = o.out; if (!o.err && o.ret) j.cmp = false; if (o.err) j.out.clear(); } catch (Stop&) { FL2_cancelDStream(s); }
        }
        FL2_freeDStream(s); break; }
    }
}
static void* entry(void* p) { work(*(Job*)p); return nullptr; }
void run_case(Tape& t, Ctx& c) {
    vf_reset(); vf.fill = (int)t.draw(256); VsPolicy pol = vs_policy(t), calm; vs_begin(c, calm);
    unsigned n = t.chance(1, 3) ? 1 : (unsigned)t.range(2, 4); Job j[4]; Bytes ins[2]; Mat ms[2]; std::string d; ins[0] = t.chance(1, 5) ? random_bytes(t.raw(), (size_t)t.range(90000, 350000)) : gen_data(t, t.chance(1, 8) ? 250000 : 50000, &d); ins[1] = t.chance(1, 40) ? gen_data_len(t, (size_t)t.range(1000000, 1300000), &d) : gen_data(t, 40000, &d); size_t total = 0, libth = 0;
    ms[0] = make_valid(t, c, -1, 30000, true); ms[1] = make_valid(t, c, -1, 30000, t.draw(2)); if (t.chance(1, 3)) { mutate(t, ms[1]); if (ms[1].b.empty()) ms[1].b.push_back(8); if ((ms[1].b[0] & 0x7F) > 12) ms[1].b[0] = (uint8_t)((ms[1].b[0] & 0x80) | 8); }
    for (unsigned i = 0; i < n; i++) { Job& k = j[i];
        k.kind = (unsigned)t.draw(5); k.th = t.chance(1, 4) ? 1 : (unsigned)t.range(2, 4); k.in = &ins[t.draw(2)]; k.m = &ms[t.draw(2)]; k.damaged = !k.m->valid; k.seed = t.draw(1u << 30); k.rounds = (unsigned)t.range(1, 2); k.dual = t.draw(2); k.timeout = t.draw(2) ? (unsigned)t.range(1, 3) : 0; if (k.kind == 2 && !k.dual && k.timeout && t.draw(2)) k.timeout = 0; k.flush = t.chance(1, 3); k.cancel = t.draw(2); k.level = (int)t.range(1, 2);
        PGen g; g.maxDict = 1 << 20; g.omit = false; k.cp = gen_params(t, g); if (k.cp.dictSize < 0) k.cp.dictSize = 1 << 20; if (k.cp.depth > 20) k.cp.depth = 12; if (t.chance(2, 3)) k.cp.strategy = 0; if (k.cp.level > 4) k.cp.level = 2; k.cp.high = 0;
        k.cfg = gen_deccfg(t, k.m->b.size(), k.m->content.size(), false); k.cfg.threads = k.th; if (k.th > 1 && t.chance(1, 4)) k.cfg.memLimit = (size_t)t.range(1, 40) << t.range(10, 16);
        k.askCores = t.chance(1, 2);
        total += k.kind < 3 ? k.in->size() : k.m->content.size(); libth += k.th; static const char* nm[] = { "ctx", "simple", "cstream", "dctx", "dstream" };
        c.note("[%s th%u x%u%s%s %zu bytes] ", nm[k.kind], k.th, k.rounds, k.kind == 2 && k.dual ? " dual" : "", k.timeout && (k.kind == 2 || k.kind == 4) ? " timed" : "", k.kind < 3 ? k.in->size() : k.m->content.size()); c.label(nm[k.kind]); }
    std::vector<Bytes> a; std::vector<size_t> ar; std::vector<bool> ac;
    vs_begin(c, pol);
    bool after = t.draw(2); unsigned nc = 0; // alone first, or concurrently first (a process's first use of the library may be a concurrent one)
    auto alone = [&] { if (n > 1) for (unsigned i = 0; i < n; i++) { work(j[i]); if (j[i].askCores) nc = j[i].nCores; a.push_back(j[i].out); ar.push_back(j[i].ret); ac.push_back(j[i].cmp); } };
    if (!after) alone();
    pthread_t id[4]; for (unsigned i = 0; i < n; i++) {
#ifdef VF_SCHED
        int r = vs_create(&id[i], NULL, entry, &j[i]);
#else
        int r = pthread_create(&id[i], NULL, entry, &j[i]);
#endif
        REQUIRE(c, !r, "thread", "pthread_create"); }
    for (unsigned i = 0; i < n; i++)
#ifdef VF_SCHED
        vs_join(id[i], NULL);
#else
        pthread_join(id[i], NULL);
#endif
    if (after) { struct R { Bytes o; size_t r; bool c; unsigned n; }; std::vector<R> conc; for (unsigned i = 0; i < n; i++) conc.push_back({ j[i].out, j[i].ret, j[i].cmp, j[i].nCores }); alone(); for (unsigned i = 0; i < n; i++) { j[i].out = conc[i].o; j[i].ret = conc[i].r; j[i].cmp = conc[i].c; j[i].nCores = conc[i].n; } c.label("concurrently first"); }
    vs_end(c);
    for (unsigned i = 0; i < n; i++) if (j[i].askCores && nc) REQUIRE(c, j[i].nCores == nc, "cores", "%u threads for 'all cores' concurrently, %u alone", j[i].nCores, nc);
    for (unsigned i = 0; i < a.size(); i++) if (ac[i] && j[i].cmp) { REQUIRE(c, ar[i] == j[i].ret, "result", "job %u: result %zu (%s) alone, %zu (%s) concurrently", i, ar[i], cname(ar[i]), j[i].ret, cname(j[i].ret)); if (a[i] != j[i].out) { size_t k = 0; while (k < a[i].size() && k < j[i].out.size() && a[i][k] == j[i].out[k]) k++; c.fail("bytes", "job %u: output differs from that of the job run alone at %zu of %zu/%zu", i, k, a[i].size(), j[i].out.size()); } }
    REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks leaked", vf.liveCount);
    c.label(n > 1 ? "several application threads" : "one application thread");
    if ((n > 1 || libth > 1) && total > 2000) { uint64_t h = pol.seed; for (unsigned i = 0; i < n; i++) h = h * 31 + hash_bytes(j[i].out) + j[i].seed; c.nontrivial(h); }
}
