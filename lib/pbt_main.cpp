// Driver: deterministic case generation over worker processes, crash capture,
// confirmation by replay in fresh processes, shrinking, evidence output.
#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

const char* g_arg = "";
Ctx* g_ctx;

enum { TAPE_CAP = 1 << 17, MAXLABEL = 120, MAXSAMPLE = 4, SAMPLE_LEN = 700, HASHCAP = 1 << 20, MSG = 3000 };

struct WorkerShm {
    volatile uint64_t tapeLen;
    volatile uint64_t caseIdx;
    volatile uint64_t startMs;
    volatile uint64_t evals, nontriv, done, hashes;
    volatile int failed;
    char tag[96];
    char msg[MSG];
    char desc[MSG];
    int nlabels;
    char lname[MAXLABEL][40];
    uint64_t lcount[MAXLABEL];
    int nsamples;
    char sample[MAXSAMPLE][SAMPLE_LEN];
    uint64_t hash[HASHCAP];
    uint64_t tape[TAPE_CAP];
};
static WorkerShm* g_shm;
static std::string g_logdir;
static int g_hang_ms = 60000;
static int g_tier = 0;
static bool g_verbose = false;

static uint64_t now_ms() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000ull + ts.tv_nsec / 1000000; }

void Ctx::note(const char* fmt, ...) {
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (verbose) fputs(b, stderr);
    if (desc.size() > 2400) return;
    desc += b;
    size_t n = std::min(desc.size(), sizeof(g_shm->desc) - 1); memcpy(g_shm->desc, desc.data(), n); g_shm->desc[n] = 0;
}
void Ctx::label(const char* name, uint64_t by) {
    WorkerShm* s = g_shm;
    for (int i = 0; i < s->nlabels; i++) if (!strcmp(s->lname[i], name)) { s->lcount[i] += by; return; }
    if (s->nlabels < MAXLABEL) { snprintf(s->lname[s->nlabels], 40, "%s", name); s->lcount[s->nlabels++] = by; }
}
void Ctx::fail(const char* tag, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(g_shm->msg, MSG, fmt, ap); va_end(ap);
    snprintf(g_shm->tag, sizeof g_shm->tag, "%s", tag);
    g_shm->failed = 1;
    if (verbose) fprintf(stderr, "\nFAIL[%s]: %s\n", tag, g_shm->msg);
    _exit(77);
}

struct Failure { std::vector<uint64_t> tape; std::string tag, msg, desc; uint64_t idx = 0; };

static void begin_case(WorkerShm* s, uint64_t idx) {
    s->tapeLen = 0; s->caseIdx = idx; s->failed = 0; s->tag[0] = s->msg[0] = s->desc[0] = 0;
    s->startMs = now_ms();
}
static void exec_case(WorkerShm* s, Tape& t) {
    Ctx c; c.tier = g_tier; c.verbose = g_verbose; g_ctx = &c;
    t.rec = s->tape; t.cap = TAPE_CAP; t.recLen = &s->tapeLen;
    run_case(t, c);
    s->evals++;
    if (c.isNontrivial) {
        s->nontriv++;
        if (s->hashes < HASHCAP) { s->hash[s->hashes] = c.ntHash; s->hashes++; }
        if (s->nsamples < MAXSAMPLE && (s->nontriv % 97 == 1 || s->nontriv <= 2))
            snprintf(s->sample[s->nsamples++], SAMPLE_LEN, "case %llu: %s", (unsigned long long)s->caseIdx, c.desc.c_str());
    }
    g_ctx = nullptr;
}

// Coverage guidance (library compiled with -fsanitize-coverage=inline-8bit-counters, option --guided PERCENT): tapes whose cases reach
// new edges or new orders of magnitude of an edge's count are kept, and later cases are made by changing kept tapes.
static std::vector<std::pair<uint8_t*, uint8_t*>>& cov_areas() { static std::vector<std::pair<uint8_t*, uint8_t*>> v; return v; }
extern "C" void __sanitizer_cov_8bit_counters_init(char* a, char* b) { if (a != b) { for (auto& r : cov_areas()) if (r.first == (uint8_t*)a) return; cov_areas().push_back({ (uint8_t*)a, (uint8_t*)b }); } }
struct Guide {
    struct Kept { std::vector<uint64_t> tape; unsigned uses; };
    std::vector<Kept> kept; std::vector<uint8_t> seen; size_t edges = 0; Rng r{0};
    static uint8_t bucket(uint8_t x) { return x == 0 ? 0 : x == 1 ? 1 : x == 2 ? 2 : x == 3 ? 4 : x < 8 ? 8 : x < 16 ? 16 : x < 32 ? 32 : x < 128 ? 64 : 128; }
    void clear() { for (auto& a : cov_areas()) memset(a.first, 0, a.second - a.first); }
    bool fresh() { // has the case just run seen anything new
        bool any = false; size_t k = 0;
        for (auto& a : cov_areas()) for (uint8_t* p = a.first; p < a.second; p++, k++) {
            if (k >= seen.size()) seen.resize(k + 4096);
            if (uint8_t x = bucket(*p)) if (uint8_t n = x & ~seen[k]) { if (!seen[k]) edges++; seen[k] |= n; any = true; }
        }
        return any;
    }
    void keep(const volatile uint64_t* t, size_t n) { Kept k; k.uses = 0; k.tape.resize(n); for (size_t i = 0; i < n; i++) k.tape[i] = t[i]; if (kept.size() < 4000) kept.push_back(std::move(k)); else kept[r.below(kept.size())] = std::move(k); }
    bool make(std::vector<uint64_t>& out) { // a changed copy of a kept tape; true: continue at random behind its end
        size_t a = r.below(kept.size()), b = r.below(kept.size()); if (r.below(2) && kept[b].uses < kept[a].uses) std::swap(a, b); if (r.below(3) == 0) a = kept.size() - 1 - r.below(std::min<size_t>(kept.size(), 20));
        kept[a].uses++; out = kept[a].tape; if (out.empty()) return true;
        bool cont = r.below(4) != 0; unsigned k = 1 + (unsigned)r.below(r.below(3) ? 3 : 12);
        for (unsigned i = 0; i < k && !out.empty(); i++) {
            size_t p = r.below(2) ? r.below(out.size()) : r.below(std::min<size_t>(out.size(), 40)), n;
            switch (r.below(9)) {
            case 0: case 1: case 2: out[p] = r.next(); break;
            case 3: out[p] = r.below(4); break;
            case 4: out[p] += r.below(5) - 2; break;
            case 5: out[p] = ~0ull - r.below(4); break;
            case 6: n = 1 + r.below(8); n = std::min(n, out.size() - p); out.erase(out.begin() + p, out.begin() + p + n); break;
            case 7: { n = std::min<size_t>(1 + r.below(8), out.size() - p); std::vector<uint64_t> sp(out.begin() + p, out.begin() + p + n); size_t q = r.below(out.size()); if (out.size() < TAPE_CAP / 2) out.insert(out.begin() + q, sp.begin(), sp.end()); break; }
            default: { auto& o = kept[r.below(kept.size())].tape; if (r.below(2)) { out.resize(p); cont = true; } else if (p < o.size()) { out.resize(p); out.insert(out.end(), o.begin() + p, o.end()); } }
            }
        }
        return cont;
    }
};

static std::string tail(const std::string& path, size_t n) {
    FILE* f = fopen(path.c_str(), "rb"); if (!f) return "";
    std::string s; char b[4096]; size_t r; while ((r = fread(b, 1, sizeof b, f)) > 0) s.append(b, r);
    fclose(f);
    size_t p = s.find("ERROR: ");
    if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
    if (p == std::string::npos) p = s.find("runtime error");
    if (p == std::string::npos) p = s.find("Assertion");
    if (p != std::string::npos) { p = p > 100 ? p - 100 : 0; return s.substr(p, n); }
    return s.size() > n ? s.substr(s.size() - n) : s;
}

static WorkerShm* g_tmpshm;
// Run a single tape in a forked child. Returns true when it fails.
static bool try_tape(const std::vector<uint64_t>& tp, Failure* out, int hang_ms) {
    WorkerShm* s = g_tmpshm;
    memset((void*)s, 0, offsetof(WorkerShm, hash));
    std::string log = g_logdir + "/replay.log";
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (!g_verbose) { int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); dup2(fd, 1); }
        g_shm = s;
        Tape t; t.replay = true; t.src = tp.data(); t.srcLen = tp.size();
        begin_case(s, 0);
        exec_case(s, t);
        _exit(0);
    }
    uint64_t t0 = now_ms(); int st = 0; bool hung = false;
    for (unsigned spin = 0;; spin++) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now_ms() - t0 > (uint64_t)hang_ms) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
        usleep(spin < 50 ? 200 : 2000);
    }
    if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    if (out) {
        out->tape.assign(s->tape, s->tape + std::min<size_t>((size_t)s->tapeLen, (size_t)TAPE_CAP));
        out->desc = s->desc;
        if (hung) { out->tag = "hang"; out->msg = "no result within the hang limit"; }
        else if (s->failed) { out->tag = s->tag; out->msg = s->msg; }
        else {
            out->tag = "crash"; char b[100];
            if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(st));
            out->msg = std::string(b) + ": " + tail(log, 1800);
        }
    }
    return true;
}

static void shrink(Failure& f, int budget_ms, int hang_ms, bool flaky) {
    uint64_t t0 = now_ms(); int tries = 0, wins = 0;
    auto left = [&]() { return now_ms() - t0 < (uint64_t)budget_ms; };
    auto attempt = [&](const std::vector<uint64_t>& cand) -> bool {
        if (!left()) return false;
        tries++;
        Failure g;
        for (int k = 0; k < (flaky ? 3 : 1); k++)
            if (try_tape(cand, &g, hang_ms) && g.tag == f.tag) { uint64_t idx = f.idx; f = g; f.idx = idx; wins++; return true; }
        return false;
    };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (size_t blk = std::max<size_t>(1, f.tape.size() / 2); blk >= 1 && left(); blk /= 2) {
            for (size_t i = 0; i + blk <= f.tape.size() && left();) {
                std::vector<uint64_t> c(f.tape); size_t before = c.size();
                c.erase(c.begin() + i, c.begin() + i + blk);
                if (attempt(c) && f.tape.size() < before) progress = true; else i += blk;
            }
            if (blk == 1) break;
        }
        for (size_t blk = 8; blk >= 1 && left(); blk /= 8) {
            for (size_t i = 0; i < f.tape.size() && left(); i += blk) {
                std::vector<uint64_t> c(f.tape); bool nz = false;
                for (size_t j = i; j < std::min(i + blk, c.size()); j++) if (c[j]) { nz = true; c[j] = 0; }
                if (nz && attempt(c)) progress = true;
            }
            if (blk == 1) break;
        }
        for (size_t i = 0; i < f.tape.size() && left(); i++) {
            uint64_t lo = 0;
            while (i < f.tape.size() && f.tape[i] > lo && left()) {
                uint64_t mid = lo + (f.tape[i] - lo) / 2, old = f.tape[i];
                std::vector<uint64_t> c(f.tape); c[i] = mid;
                if (attempt(c) && i < f.tape.size() && f.tape[i] < old) progress = true; else lo = mid + 1;
            }
        }
    }
    fprintf(stderr, "[shrink] %d attempts, %d accepted, %zu choices left\n", tries, wins, f.tape.size());
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

static bool load_tape(const char* path, std::vector<uint64_t>& v) {
    FILE* f = fopen(path, "r"); if (!f) return false;
    static char line[8192];
    while (fgets(line, sizeof line, f)) { if (line[0] == '#' || line[0] == '\n') continue; v.push_back(strtoull(line, 0, 10)); }
    fclose(f); return true;
}

int main(int argc, char** argv) {
    uint64_t seed = 1, cases = 1000, only = ~0ull; int workers = 8, time_limit = 60, flaky = 0, shrink_s = 60, fresh = 0, guided = 0;
    const char *out = nullptr, *replay = nullptr, *replay_out = nullptr, *cmdinfo = "";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--seed") seed = strtoull(nx(), 0, 10);
        else if (a == "--cases") cases = strtoull(nx(), 0, 10);
        else if (a == "--workers") workers = atoi(nx());
        else if (a == "--time") time_limit = atoi(nx());
        else if (a == "--out") out = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--replay-out") replay_out = nx();
        else if (a == "--hang") g_hang_ms = atoi(nx()) * 1000;
        else if (a == "--tier") g_tier = atoi(nx());
        else if (a == "--flaky") flaky = atoi(nx());
        else if (a == "--fresh") fresh = atoi(nx());      // cases per worker process (0: no limit)
        else if (a == "--guided") guided = atoi(nx());    // percentage of cases made from kept tapes
        else if (a == "--shrink") shrink_s = atoi(nx());
        else if (a == "--logdir") g_logdir = nx();
        else if (a == "--arg") g_arg = nx();
        else if (a == "--case") only = strtoull(nx(), 0, 10);
        else if (a == "--info") cmdinfo = nx();
        else if (a == "-v") g_verbose = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    bool ownlog = g_logdir.empty();
    if (ownlog) { static char tmpl[] = "/tmp/pbtXXXXXX"; g_logdir = mkdtemp(tmpl); }
    auto mk = []() { return (WorkerShm*)mmap(0, sizeof(WorkerShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
    g_tmpshm = mk();
    g_shm = g_tmpshm;
    prop_init();
    if (replay) {
        std::vector<uint64_t> tp; if (!load_tape(replay, tp)) { fprintf(stderr, "cannot read %s\n", replay); return 2; }
        Failure f; bool bad = false;
        for (int k = 0; k < (flaky ? 20 : 1) && !bad; k++) bad = try_tape(tp, &f, g_hang_ms);
        if (bad) { printf("REPLAY-FAIL tag=%s %s\n  case: %s\n", f.tag.c_str(), f.msg.c_str(), f.desc.c_str()); return 1; }
        printf("REPLAY-OK %s\n", g_tmpshm->desc); return 0;
    }
    uint64_t hid = hash_bytes(prop_id, strlen(prop_id)) ^ hash_bytes(g_arg, strlen(g_arg), 77);
    auto case_seed = [&](uint64_t i) { return mix64(mix64(seed ^ hid) + i * 0x2545F4914F6CDD1Dull); };
    if (only != ~0ull) {
        Tape t; t.rng = Rng(case_seed(only)); begin_case(g_shm, only); uint64_t t0 = now_ms(); exec_case(g_shm, t);
        printf("case %llu ok in %llu ms: %s\n", (unsigned long long)only, (unsigned long long)(now_ms() - t0), g_shm->desc); return 0;
    }
    std::vector<WorkerShm*> shm(workers); std::vector<pid_t> pid(workers, 0);
    std::vector<uint64_t> nextIdx(workers);
    for (int w = 0; w < workers; w++) { shm[w] = mk(); nextIdx[w] = w; }
    uint64_t t0 = now_ms(), deadline = t0 + time_limit * 1000ull;
    auto logname = [&](int w) { return g_logdir + "/w" + std::to_string(w) + ".log"; };
    auto spawn = [&](int w) {
        fflush(stdout); fflush(stderr);
        shm[w]->startMs = 0;
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int fd = open(logname(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); dup2(fd, 1);
            g_shm = shm[w];
            int here = 0; Guide gd; gd.r = Rng(mix64(seed ^ hid) + 991 * w + nextIdx[w]); std::vector<uint64_t> tp;
            for (uint64_t i = nextIdx[w]; i < cases; i += workers) {
                if (now_ms() > deadline) break;
                if (fresh && here++ == fresh) { g_shm->startMs = 0; g_shm->done = 2; _exit(0); }
                begin_case(g_shm, i);
                Tape t; t.rng = Rng(case_seed(i));
                if (guided) { gd.clear(); if (!gd.kept.empty() && gd.r.below(100) < (uint64_t)guided) { t.replay = true; t.more = gd.make(tp); t.src = tp.data(); t.srcLen = tp.size(); } }
                exec_case(g_shm, t);
                if (guided && g_shm->tapeLen < TAPE_CAP && gd.fresh()) { gd.keep(g_shm->tape, g_shm->tapeLen); Ctx lc; lc.label("kept-tapes"); if (t.replay) lc.label("kept-tapes-from-kept"); }
            }
            if (guided) { Ctx lc; lc.label("edges-reached", gd.edges); }
            g_shm->startMs = 0;
            g_shm->done = 1;
            _exit(0);
        }
        pid[w] = p;
    };
    for (int w = 0; w < workers; w++) spawn(w);
    int live = workers, unconfirmed = 0; std::vector<Failure> confirmed; std::vector<std::string> unconf;
    bool stop = false;
    int hang_confirm = std::max(g_hang_ms * 3 / 2, 20000);
    while (live > 0 && !stop) {
        usleep(20000);
        for (int w = 0; w < workers && !stop; w++) {
            if (!pid[w]) continue;
            int st; bool hung = false; pid_t r = waitpid(pid[w], &st, WNOHANG);
            if (r == 0) {
                uint64_t s = shm[w]->startMs;
                if (s && now_ms() > s + g_hang_ms) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); hung = true; }
                else continue;
            }
            pid[w] = 0;
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm[w]->done) {
                if (shm[w]->done == 2) { shm[w]->done = 0; nextIdx[w] = shm[w]->caseIdx + workers; spawn(w); }
                else live--;
                continue;
            }
            Failure f; f.idx = shm[w]->caseIdx; f.tape.assign(shm[w]->tape, shm[w]->tape + std::min<size_t>((size_t)shm[w]->tapeLen, (size_t)TAPE_CAP));
            f.desc = shm[w]->desc;
            if (hung) { f.tag = "hang"; f.msg = "no result within the hang limit"; }
            else if (shm[w]->failed) { f.tag = shm[w]->tag; f.msg = shm[w]->msg; }
            else { f.tag = "crash"; f.msg = tail(logname(w), 1500); }
            fprintf(stderr, "[%s] candidate failure at case %llu: %s: %.400s\n", prop_id, (unsigned long long)f.idx, f.tag.c_str(), f.msg.c_str());
            // confirm by replay in fresh processes, with the other workers paused
            int need = flaky ? flaky : 3, hits = 0, tries = flaky ? 20 : 3; Failure g;
            for (int k = 0; k < workers; k++) if (pid[k]) kill(pid[k], SIGSTOP);
            uint64_t p0 = now_ms();
            for (int k = 0; k < tries && hits < need; k++) { if (try_tape(f.tape, &g, hang_confirm)) hits++; else if (!flaky) break; }
            if (hits >= need) { g.idx = f.idx; if (g.tape.empty()) g.tape = f.tape; confirmed.push_back(g); stop = true; break; }
            uint64_t paused = now_ms() - p0;
            for (int k = 0; k < workers; k++) if (pid[k]) { if (shm[k]->startMs) shm[k]->startMs = shm[k]->startMs + paused; kill(pid[k], SIGCONT); }
            unconfirmed++; unconf.push_back(f.tag + ": " + f.msg.substr(0, 400));
            nextIdx[w] = f.idx + workers;
            spawn(w);
        }
    }
    for (int w = 0; w < workers; w++) if (pid[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], 0, 0); pid[w] = 0; }
    double wall = (now_ms() - t0) / 1000.0;
    std::string origmsg;
    if (!confirmed.empty()) {
        Failure& f = confirmed[0]; origmsg = f.msg;
        if (shrink_s > 0) shrink(f, shrink_s * 1000, f.tag == "hang" ? std::min(g_hang_ms, 20000) : g_hang_ms, flaky);
        std::string path = replay_out ? replay_out : g_logdir + "/replay.txt";
        FILE* o = fopen(path.c_str(), "w");
        if (o) {
            fprintf(o, "# property %s seed %llu case %llu\n# %s\n# tag %s\n", prop_id, (unsigned long long)seed, (unsigned long long)f.idx, cmdinfo, f.tag.c_str());
            std::string m = f.msg + "\n" + f.desc, line;
            for (char ch : m) { if (ch == '\n') { fprintf(o, "# %s\n", line.c_str()); line.clear(); } else line += ch; }
            if (!line.empty()) fprintf(o, "# %s\n", line.c_str());
            for (uint64_t v : f.tape) fprintf(o, "%llu\n", (unsigned long long)v);
            fclose(o);
        }
    }
    uint64_t evals = 0, nontriv = 0; std::set<uint64_t> hs; std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
    for (int w = 0; w < workers; w++) {
        evals += shm[w]->evals; nontriv += shm[w]->nontriv;
        for (uint64_t i = 0; i < shm[w]->hashes; i++) hs.insert(shm[w]->hash[i]);
        for (int i = 0; i < shm[w]->nlabels; i++) labels[shm[w]->lname[i]] += shm[w]->lcount[i];
        for (int i = 0; i < shm[w]->nsamples && (int)samples.size() < 6 && i < 2; i++) samples.push_back(shm[w]->sample[i]);
    }
    FILE* o = out ? fopen(out, "w") : stdout;
    fprintf(o, "{\"property\":%s,\"rule\":%s,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"requested\":%llu,\"wall_s\":%.2f,\"unconfirmed\":%d,\"arg\":%s,",
        jstr(prop_id).c_str(), jstr(prop_rule).c_str(), (unsigned long long)evals, (unsigned long long)nontriv, hs.size(), (unsigned long long)cases, wall, unconfirmed, jstr(g_arg).c_str());
    fprintf(o, "\"unconfirmed_msgs\":["); for (size_t i = 0; i < unconf.size() && i < 5; i++) fprintf(o, "%s%s", i ? "," : "", jstr(unconf[i]).c_str());
    fprintf(o, "],\"labels\":{"); bool first = true; for (auto& l : labels) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(l.first).c_str(), (unsigned long long)l.second); first = false; }
    fprintf(o, "},\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(o, "%s%s", i ? "," : "", jstr(samples[i]).c_str());
    fprintf(o, "],\"failures\":[");
    for (size_t i = 0; i < confirmed.size(); i++) fprintf(o, "%s{\"tag\":%s,\"msg\":%s,\"desc\":%s,\"case\":%llu,\"choices\":%zu}", i ? "," : "", jstr(confirmed[i].tag).c_str(), jstr(confirmed[i].msg).c_str(), jstr(confirmed[i].desc).c_str(), (unsigned long long)confirmed[i].idx, confirmed[i].tape.size());
    fprintf(o, "]}\n");
    if (out) fclose(o);
    if (ownlog) { std::string cmd = "rm -rf '" + g_logdir + "'"; if (system(cmd.c_str())) {} }
    return confirmed.empty() ? 0 : 1;
}
