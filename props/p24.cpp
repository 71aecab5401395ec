// P24: the threads an object owns: no more than asked for, all of them used, none left over.
#include "mkstream.h"
#include <time.h>
#include <unistd.h>
#include <sys/wait.h>
const char* const prop_id = "P24";
const char* const prop_rule = "contexts, streams and simple calls created for 0, 1, a few, 200 or more threads and put through operations, timeouts and cancellations, the live threads of the process counted throughout; non-trivial = an object for two or more threads did work of at least 300 KB in which workers had to take part";
void prop_init() {}
static double cpu_self() { struct timespec ts; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static unsigned want(Tape& t) { unsigned k = (unsigned)t.draw(20); return k < 4 ? 1 : k < 8 ? 2 : k < 14 ? (unsigned)t.range(3, 6) : k == 14 ? 0 : k == 15 ? (unsigned)t.range(7, 60) : k == 16 ? 200 : k == 17 ? 201 : k == 18 ? (unsigned)t.range(202, 5000) : ~0u; }
#ifdef FL2_SINGLETHREAD
static unsigned expected(Ctx&, unsigned, unsigned) { return 1; }
#else
static unsigned expected(Ctx& c, unsigned n, unsigned reported) {
    long cpus = sysconf(_SC_NPROCESSORS_CONF); if (cpus < 1) cpus = 1;
    if (n == 0) { REQUIRE(c, reported >= 1 && reported <= (unsigned)cpus && reported <= FL2_MAXTHREADS, "auto", "%u threads for 'all cores' of %ld", reported, cpus); return reported; }
    return n > FL2_MAXTHREADS ? FL2_MAXTHREADS : n;
}
#endif
#define LIVE(limit, what) REQUIRE(c, vf.threadsPeak <= (limit), "too-many", "%s: %llu threads, at most %u allowed", what, (unsigned long long)vf.threadsPeak, (unsigned)(limit))
static void gone(Ctx& c, const char* what) { REQUIRE(c, vf.threadsLive == 0, "left-over", "%s: %llu threads still there", what, (unsigned long long)vf.threadsLive); REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks", vf.liveCount); }
static Bytes text(Tape& t, size_t n) { Bytes b(n); Rng r(t.draw(1u << 30)); std::vector<Bytes> w(300); for (auto& x : w) { x.resize(2 + r.below(9)); for (auto& y : x) y = (uint8_t)('a' + r.below(20)); } size_t i = 0; while (i < n) { const Bytes& x = w[r.below(300)]; for (size_t j = 0; j < x.size() && i < n; j++) b[i++] = x[j]; if (i < n) b[i++] = r.below(9) ? ' ' : (uint8_t)r.below(256); } return b; }
static void part(Ctx& c, double mine, const char* what) { double w = vf.workerCpu; if (const char* f = getenv("P24_STATS")) { FILE* o = fopen(f, "a"); fprintf(o, "%s %.3f\n", what, w / (w + mine)); fclose(o); } REQUIRE(c, w > 0.05 * (w + mine), "idle-workers", "%s: workers used %.4f s of CPU, the caller %.4f s", what, w, mine); }
static void comp_case(Tape& t, Ctx& c) {
    unsigned n = want(t); bool stream = t.chance(2, 3), dual = stream && t.chance(1, 3); bool plain = t.chance(1, 6); unsigned wantN = n;
    FL2_CStream* s; if (plain) { s = stream ? FL2_createCStream() : FL2_createCCtx(); n = 1; dual = false; } else s = stream ? FL2_createCStreamMt(n, dual) : FL2_createCCtxMt(n); if (plain) wantN = 1;
    REQUIRE(c, s, "create", "create for %u threads", n); unsigned rep = FL2_getCCtxThreadCount(s), e = expected(c, wantN, rep); REQUIRE(c, rep == e, "count", "asked for %u threads, reported %u", wantN, rep);
    unsigned limit = e - 1 + dual; LIVE(limit, "after creation"); bool async = dual; unsigned ops = (unsigned)t.range(1, 4); c.note("%s%s %u threads: ", stream ? "cstream" : "cctx", dual ? " dual" : "", wantN); bool did = false; double mine = 0;
    bool many = e > 16; CParams p; p.dictSize = (long)t.range(1 << 20, 2 << 20); p.strategy = (long)t.draw(many ? 1 : 3); p.depth = 20; int pe = apply_params(s, p); REQUIRE(c, !pe, "param", "#%d", pe);
    for (unsigned i = 0; i < ops; i++) {
        size_t len = many ? (size_t)t.logsize(300000) : t.chance(1, 2) ? (size_t)t.range(500000, 1400000) : (size_t)t.logsize(400000); Bytes in = text(t, len), out; unsigned k = stream ? (unsigned)t.draw(8) : 0;
        if (k == 0) { out.resize(FL2_compressBound(len)); double a = cpu_self(); size_t r = FL2_compressCCtx(s, out.data(), out.size(), in.data(), len, 0); mine += cpu_self() - a; REQUIRE(c, !FL2_isError(r), "op-error", "compressCCtx: %s", cname(r)); out.resize(r); c.note("one-shot %zu; ", len); if (dual) { limit = std::max(limit, e - 1 + 1u); } }
        else if (k == 1) { bool on = t.chance(2, 3); size_t r = FL2_setCStreamTimeout(s, on); REQUIRE(c, r == 0, "op-error", "setCStreamTimeout: %s", cname(r)); if (on) { async = true; limit = e; } c.note("timeout %d; ", on); LIVE(limit, "after setting the timeout"); continue; }
        else { size_t r = FL2_initCStream(s, 0); REQUIRE(c, r == 0, "op-error", "init: %s", cname(r)); CSOpts o; o.maxOps = 6; o.bigPieces = true; o.flush = false; double a = cpu_self(); CSRun run(c, t, s, in, o, async, e); if (k == 7) { run.op(); run.op(); FL2_cancelCStream(s); c.note("cancelled; "); mine += cpu_self() - a; LIVE(limit, "cancel"); continue; } run.all(); mine += cpu_self() - a; out.swap(run.out); c.note("stream %zu; ", len); }
        LIVE(limit, "during the operation"); if (len >= 500000) did = true;
        cs_check(c, out, in, false, 0, -1, "output");
    }
    FL2_freeCStream(s); gone(c, "after free"); if (e == 1 && !async) REQUIRE(c, vf.threadsCreated == 0, "created", "%llu threads created", (unsigned long long)vf.threadsCreated);
    c.label("compress"); if (did && e > 1) { part(c, mine, "compression"); c.label("mt-work"); c.nontrivial(hash_bytes(c.desc.data(), c.desc.size())); } if (many) c.label("many");
}
struct Blocks { Bytes in, z; std::vector<size_t> sizes; size_t maxPacked = 0; };
static Blocks blocks(Tape& t, Ctx& c, unsigned count, size_t each) { // independent blocks one after the other: some are compressed, the others repeat them
    Blocks B; std::vector<Bytes> u, z; unsigned kinds = std::min(count, (unsigned)t.range(1, 3)); FL2_CCtx* x = FL2_createCCtx(); CParams p; p.dictSize = 1 << 20; p.strategy = 0; p.depth = 12; p.omitProp = 1; int e = apply_params(x, p); REQUIRE(c, !e, "param", "#%d", e);
    for (unsigned i = 0; i < kinds; i++) { Bytes in = text(t, each - t.draw(each / 16)), o(FL2_compressBound(in.size()) + 8); size_t r = FL2_compressCCtx(x, o.data(), o.size(), in.data(), in.size(), 0); REQUIRE(c, !FL2_isError(r), "op-error", "%s", cname(r)); o.resize(r - 1); B.maxPacked = std::max(B.maxPacked, r); u.push_back(in); z.push_back(o); }
    FL2_freeCCtx(x); Bytes all; B.z.push_back(16); Rng r(t.draw(1u << 30)); for (unsigned i = 0; i < count; i++) { unsigned k = (unsigned)r.below(kinds); B.in.insert(B.in.end(), u[k].begin(), u[k].end()); B.z.insert(B.z.end(), z[k].begin(), z[k].end()); B.sizes.push_back(u[k].size()); }
    B.z.push_back(0); return B; }
static double fair(const Blocks& B, unsigned n) { double w = 0, a = 0; for (size_t i = 0; i < B.sizes.size(); i++) { a += B.sizes[i]; if (i % n) w += B.sizes[i]; } return w / a; } // the part that falls to workers when every round has a block for each thread
static void share(Ctx& c, double mine, double expect, const char* what) { double w = vf.workerCpu; if (const char* f = getenv("P24_STATS")) { FILE* o = fopen(f, "a"); fprintf(o, "%s %.3f of %.3f : %.2f\n", what, w / (w + mine), expect, w / (w + mine) / expect); fclose(o); } REQUIRE(c, w > 0.6 * expect * (w + mine), "idle-workers", "%s: workers used %.4f s of CPU, the caller %.4f s; %.0f %% of the blocks are theirs", what, w, mine, expect * 100); }
static void decomp_case(Tape& t, Ctx& c) {
    unsigned n = want(t); bool stream = t.chance(1, 2); bool limited = stream && t.chance(1, 3); if (limited) n = (unsigned)t.range(2, 5); bool big = limited || t.chance(2, 3); unsigned count = limited ? (unsigned)t.range(5, 9) * n : (unsigned)t.range(1, big ? 14 : 4); Blocks B = blocks(t, c, count, big ? (size_t)t.range(400000, 900000) : 1 + (size_t)t.logsize(200000)); Bytes &in = B.in, &z = B.z; size_t len = in.size(); vf_reset(); c.note("%s %u threads, %u blocks, %zu bytes: ", stream ? "dstream" : "dctx", n, count, len); double mine = 0; unsigned e; bool async = false;
    bool plain = t.chance(1, 6); if (plain && !limited) n = 1; else plain = false;
    if (stream) {
        FL2_DStream* s = plain ? FL2_createDStream() : FL2_createDStreamMt(n); REQUIRE(c, s, "create", "create"); unsigned cnt; { FL2_DCtx* d = FL2_createDCtxMt(n); REQUIRE(c, d, "create", "create"); cnt = FL2_getDCtxThreadCount(d); FL2_freeDCtx(d); } e = expected(c, n, cnt);
        if (limited) { size_t most = *std::max_element(B.sizes.begin(), B.sizes.end()), lim = std::max(e * (most + B.maxPacked + 300000) * 3 / 2 + 300000, (size_t)2500000); FL2_setDStreamMemoryLimitMt(s, lim); c.note("limit %zu; ", lim); c.label("limited"); }
        unsigned limit = e - 1; vf.threadsPeak = vf.threadsLive; LIVE(limit, "after creation"); unsigned ops = (unsigned)t.range(1, 3); Bytes out(len + 8);
        for (unsigned i = 0; i < ops; i++) {
            if (t.chance(1, 4)) { bool on = t.chance(2, 3); size_t r = FL2_setDStreamTimeout(s, on); REQUIRE(c, r == 0, "op-error", "%s", cname(r)); if (on) { limit = e; async = true; } c.note("timeout %d; ", on); LIVE(limit, "after setting the timeout"); }
            size_t r = FL2_initDStream(s); REQUIRE(c, r == 0, "op-error", "init %s", cname(r)); FL2_inBuffer ib = { z.data(), z.size(), 0 }; FL2_outBuffer ob = { out.data(), out.size(), 0 }; double a = cpu_self(); unsigned g = 0; bool cut = t.chance(1, 6);
            do { r = FL2_decompressStream(s, &ob, &ib); while (FL2_isTimedOut(r)) { if (cut) break; r = FL2_waitDStream(s); } if (cut) break; REQUIRE(c, !FL2_isError(r), "op-error", "decompressStream: %s", cname(r)); REQUIRE(c, ++g < 1000, "stuck", "no end"); } while (r);
            mine += cpu_self() - a; LIVE(limit, "during decompression"); if (cut) { FL2_cancelDStream(s); c.note("cancelled; "); continue; } REQUIRE(c, ob.pos == len && !memcmp(out.data(), in.data(), len), "content", "content differs");
        }
        FL2_freeDStream(s);
    } else {
        FL2_DCtx* d = plain ? FL2_createDCtx() : FL2_createDCtxMt(n); REQUIRE(c, d, "create", "create"); unsigned cnt = FL2_getDCtxThreadCount(d); e = expected(c, n, cnt); REQUIRE(c, cnt == e, "count", "asked for %u threads, reported %u", n, cnt); unsigned ops = (unsigned)t.range(1, 3); Bytes out(len + 1);
        for (unsigned i = 0; i < ops; i++) { double a = cpu_self(); size_t r = FL2_decompressDCtx(d, out.data(), len, z.data(), z.size()); mine += cpu_self() - a; REQUIRE(c, r == len && !memcmp(out.data(), in.data(), len), "content", "%s", cname(r)); LIVE(e - 1, "during decompression"); }
        FL2_freeDCtx(d);
    }
    gone(c, "after free"); if (n == 1 && !async) REQUIRE(c, vf.threadsCreated == 0, "created", "%llu threads created", (unsigned long long)vf.threadsCreated);
    c.label("decompress"); if (e > 16) c.label("many"); double f = fair(B, e); if (e > 1 && len > 2200000 && count > 1) { c.nontrivial(hash_bytes(c.desc.data(), c.desc.size())); share(c, mine, f, limited ? "limited decompression" : "decompression"); c.label("mt-work"); }
}
static void simple_case(Tape& t, Ctx& c) {
    unsigned n = (unsigned)t.draw(8); if (t.chance(1, 20)) n = want(t); size_t len = t.chance(1, 2) ? (size_t)t.range(400000, 2400000) : (size_t)t.logsize(300000); Bytes in = text(t, len), z(FL2_compressBound(len)), out(len + 1); c.note("simple %u threads, %zu: ", n, len); unsigned cnt; { FL2_DCtx* d = FL2_createDCtxMt(n); REQUIRE(c, d, "create", "create"); cnt = FL2_getDCtxThreadCount(d); FL2_freeDCtx(d); } unsigned e = expected(c, n, cnt); vf_reset();
    double a = cpu_self(); size_t r = FL2_compressMt(z.data(), z.size(), in.data(), len, 1, n); double mine = cpu_self() - a; REQUIRE(c, !FL2_isError(r), "op-error", "%s", cname(r)); LIVE(e - 1, "compressMt"); gone(c, "after compressMt"); if (e > 1 && len >= 400000) { part(c, mine, "compressMt"); c.label("mt-work"); c.nontrivial(hash_bytes(in)); } if (e == 1) REQUIRE(c, vf.threadsCreated == 0, "created", "%llu threads created", (unsigned long long)vf.threadsCreated);
    vf_reset(); size_t q = FL2_decompressMt(out.data(), len, z.data(), r, n); REQUIRE(c, q == len && !memcmp(out.data(), in.data(), len), "content", "%s", cname(q)); LIVE(e - 1, "decompressMt"); gone(c, "after decompressMt");
    vf_reset(); r = FL2_compress(z.data(), z.size(), in.data(), len, 1); REQUIRE(c, !FL2_isError(r), "op-error", "%s", cname(r)); q = FL2_decompress(out.data(), len, z.data(), r); REQUIRE(c, q == len, "content", "%s", cname(q)); REQUIRE(c, vf.threadsCreated == 0, "created", "%llu threads created by the single-threaded calls", (unsigned long long)vf.threadsCreated); c.label("simple");
}
// what 'all cores' means on a generated machine; the library remembers its answer, so every machine gets a process
static struct { std::string text; size_t pos, errAt; bool absent; long online; } mach;
static ssize_t mach_read(void*, char* b, size_t n) { if (mach.pos >= mach.errAt) { errno = EIO; return -1; } size_t k = std::min(n, std::min(mach.text.size(), mach.errAt) - mach.pos); memcpy(b, mach.text.data() + mach.pos, k); mach.pos += k; return (ssize_t)k; }
static FILE* mach_open(const char*) { if (mach.absent) return nullptr; cookie_io_functions_t f = { mach_read, nullptr, nullptr, nullptr }; mach.pos = 0; return fopencookie(nullptr, "r", f); }
static long mach_conf(int) { return mach.online; }
static void cores_case(Tape& t, Ctx& c) {
    mach.online = t.chance(1, 12) ? -1 : t.chance(1, 6) ? (long)t.range(100, 1024) : (long)t.range(1, 64); mach.absent = t.chance(1, 12); mach.errAt = ~(size_t)0; mach.text.clear(); long cores = t.chance(1, 5) ? (long)t.range(0, 70) : (long)t.range(1, 32), ratio = (long)t.range(1, 2), sib = cores * ratio; bool exact = true; unsigned style = (unsigned)t.draw(10); // 0-5 usual, 6 no topology lines, 7 siblings unrelated to cores, 8 odd formatting, 9 read error
    if (style == 7) { sib = (long)t.range(0, 70); exact = sib && cores && sib % cores == 0; ratio = exact ? sib / cores : 1; } if (cores == 0) exact = style == 6; unsigned cpus = (unsigned)t.range(1, 6); Rng r(t.draw(1u << 30));
    for (unsigned i = 0; i < cpus; i++) { char b[256]; snprintf(b, sizeof b, "processor\t: %u\nvendor_id\t: GenuineIntel\nmodel name\t: %s\n", i, std::string(r.below(120), 'x').c_str()); mach.text += b; if (style != 6) { const char* sep = style == 8 ? (r.below(3) == 0 ? "\t" : r.below(2) ? ":" : "\t: ") : "\t: "; snprintf(b, sizeof b, "siblings%s%ld\ncore id\t\t: %u\ncpu cores%s%ld\n", sep, sib, i, sep, cores); mach.text += b; } mach.text += "flags\t\t: " + std::string(r.below(400), 'f') + "\n"; if (style == 8 && r.below(2)) mach.text += std::string(r.below(300), 's'); mach.text += "\n"; }
    if (style == 8 && r.below(2) && !mach.text.empty()) mach.text.resize(r.below(mach.text.size())); if (style == 9) mach.errAt = r.below(mach.text.size() + 1); if (style >= 8) exact = false; if (mach.online < 1 || mach.absent) { exact = true; ratio = 1; } if (style == 6) { ratio = 1; exact = true; }
    long online = std::max(mach.online, 1L); long want = std::min(std::max(online / ratio, 1L), (long)FL2_MAXTHREADS); bool dec = t.draw(2); c.note("%s on %ld processors online, siblings %ld, cores %ld, style %u%s", dec ? "decompression" : "compression", mach.online, sib, cores, style, mach.absent ? ", no description" : "");
    int fd[2]; REQUIRE(c, pipe(fd) == 0, "pipe", "pipe"); fflush(stdout); fflush(stderr); pid_t p = fork(); REQUIRE(c, p >= 0, "fork", "fork");
    if (p == 0) { close(fd[0]); vf_env.open = mach_open; vf_env.conf = mach_conf; unsigned v[2] = { 0, 0 }; for (unsigned i = 0; i < 2; i++) if (dec) { FL2_DCtx* d = FL2_createDCtxMt(0); v[i] = d ? FL2_getDCtxThreadCount(d) : 0; FL2_freeDCtx(d); } else { FL2_CCtx* x = FL2_createCCtxMt(0); v[i] = x ? FL2_getCCtxThreadCount(x) : 0; FL2_freeCCtx(x); } ssize_t w = write(fd[1], v, sizeof v); _exit(w == sizeof v ? 0 : 1); }
    close(fd[1]); unsigned v[2] = { 0, 0 }; ssize_t got = read(fd[0], v, sizeof v); close(fd[0]); int st = 0; waitpid(p, &st, 0); REQUIRE(c, got == sizeof v && WIFEXITED(st) && WEXITSTATUS(st) == 0, "auto-crash", "creating an object for 'all cores' ended the process (status %#x)", st);
    REQUIRE(c, v[0] == v[1], "auto-changes", "%u threads, then %u", v[0], v[1]); REQUIRE(c, v[0] >= 1 && (long)v[0] <= std::min(online, (long)FL2_MAXTHREADS), "auto", "%u threads for 'all cores' with %ld processors", v[0], online);
    if (exact) REQUIRE(c, (long)v[0] == want, "auto-count", "%u threads for 'all cores', expected %ld", v[0], want); c.label("cores"); if (online > 1) c.nontrivial(hash_bytes(c.desc.data(), c.desc.size()));
}
void run_case(Tape& t, Ctx& c) { vf_reset(); if (!strcmp(g_arg, "cores")) { cores_case(t, c); return; } unsigned k = (unsigned)t.draw(10); if (k < 4) comp_case(t, c); else if (k < 8) decomp_case(t, c); else simple_case(t, c); }
