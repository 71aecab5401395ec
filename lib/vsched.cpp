// One thread runs at a time; see vsched.h.  Compiled without sanitizers, and hands
// over with raw futex calls, so that a race detector sees only the synchronisation
// of the library itself (the real mutexes are taken too, but never contended).
#define VF_SHIM_IMPL
#define VF_SCHED
#include "shim.h"
#include "vsched.h"
#include <atomic>
#include <unordered_map>
#include <unistd.h>
#include <sched.h>
#include <sys/syscall.h>
#include <linux/futex.h>
namespace {
enum St { FREE, RUN, MUTEX, COND, TIMED, JOIN, DONE };
struct Th { std::atomic<int> go; St st; void* obj; bool expired; void* (*f)(void*); void* arg; void* ret; pthread_t real; unsigned seq; bool joined; };
const int MAXT = 400;
Th th[MAXT]; int nth = 1; thread_local int me = 0; int cur = 0;
std::unordered_map<void*, int>* owner;
bool active = false; VsPolicy pol; Rng rng; unsigned seqno = 0; int rot = 0;
unsigned preempts, expiries, spurious; 
long syncLeft = 0;
}
long vs_memLeft = 1L << 62;
VsStats vs_stats;
unsigned vs_main_moves;
static long gap(unsigned lg) { unsigned b = (unsigned)rng.below(lg + 1); return (long)(1 + rng.below(1ull << b)); }
static void rearm() {
    if (!preempts) { syncLeft = 1L << 62; vs_memLeft = 1L << 62; return; }
    bool mem = pol.memGap && rng.below(2);
    syncLeft = mem ? 1L << 62 : gap(pol.syncGap); vs_memLeft = mem ? gap(pol.memGap) : 1L << 62;
}
static void park() { while (!th[me].go.load(std::memory_order_acquire)) syscall(SYS_futex, &th[me].go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); th[me].go.store(0, std::memory_order_relaxed); }
static void unpark(int i) { th[i].go.store(1, std::memory_order_release); syscall(SYS_futex, &th[i].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void die(const char* tag, const char* what) {
    char b[600]; int n = snprintf(b, sizeof b, "%s:", what); for (int i = 0; i < nth && n < 500; i++) if (th[i].st != FREE) n += snprintf(b + n, sizeof b - n, " T%d %s", i, th[i].st == RUN ? "running" : th[i].st == MUTEX ? "mutex" : th[i].st == COND ? "condition" : th[i].st == TIMED ? "timed wait" : th[i].st == JOIN ? "join" : "done");
    if (g_ctx) g_ctx->fail(tag, "%s [%s]", b, pol.str().c_str()); fprintf(stderr, "ERROR: %s\n", b); abort();
}
// Chooses the thread to run next.  `keep`: the calling thread may go on.
static int choose(bool avoidSelf) {
    int c[MAXT], n = 0, tw[MAXT], nt = 0, cw[MAXT], nc = 0;
    for (int i = 0; i < nth; i++) { if (th[i].st == RUN) { if (!(avoidSelf && i == me)) c[n++] = i; } else if (th[i].st == TIMED) tw[nt++] = i; else if (th[i].st == COND) cw[nc++] = i; }
    if (spurious && nc + nt && rng.below(6) == 0) { spurious--; vs_stats.spurious++; unsigned k = (unsigned)rng.below(nc + nt); int x = k < (unsigned)nc ? cw[k] : tw[k - nc]; th[x].st = RUN; th[x].expired = false; return x; }
    if (nt && (n || avoidSelf) && expiries && rng.below(pol.expireEvery) == 0) { expiries--; vs_stats.expired++; int x = tw[rng.below(nt)]; th[x].st = RUN; th[x].expired = true; return x; }
    if (!n) {
        if (avoidSelf && th[me].st == RUN) return me;
        if (!nt) die("deadlock", "no thread can run");
        int x = tw[rng.below(nt)]; th[x].st = RUN; th[x].expired = true; return x;
    }
    switch (pol.order) {
    case 0: return c[0]; case 1: return c[n - 1];
    case 3: if (n > 1 && c[0] == 0) return c[1 + rng.below(n - 1)]; return c[rng.below(n)];
    case 4: if (c[0] == 0) return 0; return c[rng.below(n)];
    case 5: { for (int k = 0; k < n; k++) if (c[k] > rot) { rot = c[k]; return rot; } return rot = c[0]; }
    default: return c[rng.below(n)]; }
}
static void handover(bool avoidSelf) {
    int nx = choose(avoidSelf); if (nx == me) return;
    vs_stats.switches++; bool gone = th[me].st == DONE; cur = nx; int self = me; unpark(nx); if (!gone) { park(); } (void)self;
}
static bool focused() { return pol.focus == 0 || (pol.focus == 1) == (me == 0); }
static void preempt() { if (!focused()) { rearm(); return; } preempts--; vs_stats.preempted++; rearm(); handover(true); }
void vs_memslow() { vs_memLeft = 1L << 62; if (active) preempt(); }
extern "C" void vs_point(void) { if (!active) return; vs_stats.points++; if (--syncLeft <= 0) preempt(); else if (expiries && rng.below(16) == 0) { bool tw = false; for (int i = 0; i < nth; i++) tw |= th[i].st == TIMED; if (tw && rng.below(pol.expireEvery) == 0) { int x = 0; for (int i = 0; i < nth; i++) if (th[i].st == TIMED) x = i; expiries--; vs_stats.expired++; th[x].st = RUN; th[x].expired = true; vs_stats.switches++; cur = x; unpark(x); park(); } } }

void vs_begin(Ctx& c, const VsPolicy& p) {
    static bool pinned = false; if (!pinned) { pinned = true; cpu_set_t s; CPU_ZERO(&s); CPU_SET(getpid() % sysconf(_SC_NPROCESSORS_ONLN), &s); sched_setaffinity(0, sizeof s, &s); }
    if (!owner) owner = new std::unordered_map<void*, int>();
    if (!active) { me = 0; cur = 0; nth = 1; for (auto& x : th) { x.st = FREE; x.go = 0; } th[0].st = RUN; owner->clear(); memset(&vs_stats, 0, sizeof vs_stats); vs_main_moves = 0; }
    pol = p; rng = Rng(p.seed); preempts = p.preempts; expiries = p.expiries; spurious = p.spurious; rot = 0; active = true; rearm(); (void)c;
}
void vs_end(Ctx& c) {
    preempts = expiries = spurious = 0; rearm();
    for (int i = 1; i < nth; i++) if (th[i].st != FREE && !(th[i].st == DONE && th[i].joined)) die("thread-leak", "threads remain after the objects were freed");
    active = false; (void)c;
}
extern "C" {
int vs_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { return pthread_mutex_init(m, a); }
int vs_mutex_destroy(pthread_mutex_t* m) { if (active) { auto i = owner->find(m); if (i != owner->end() && i->second >= 0) die("destroy-busy", "mutex destroyed while locked"); for (int k = 0; k < nth; k++) if (th[k].st == MUTEX && th[k].obj == m) die("destroy-busy", "mutex destroyed while a thread waits for it"); owner->erase(m); } return pthread_mutex_destroy(m); }
static void acquire(pthread_mutex_t* m) {
    for (;;) { auto i = owner->find(m); if (i == owner->end() || i->second < 0) break; if (i->second == me) die("self-deadlock", "mutex locked twice by one thread"); th[me].st = MUTEX; th[me].obj = m; handover(false); }
    (*owner)[m] = me; pthread_mutex_lock(m);
}
static void release(pthread_mutex_t* m) {
    auto i = owner->find(m); if (i == owner->end() || i->second != me) die("unlock", "mutex unlocked by a thread which does not hold it");
    pthread_mutex_unlock(m); i->second = -1; for (int k = 0; k < nth; k++) if (th[k].st == MUTEX && th[k].obj == m) th[k].st = RUN;
}
int vs_mutex_lock(pthread_mutex_t* m) { if (!active) return pthread_mutex_lock(m); vs_point(); acquire(m); return 0; }
int vs_mutex_trylock(pthread_mutex_t* m) { if (!active) return pthread_mutex_trylock(m); vs_point(); auto i = owner->find(m); if (i != owner->end() && i->second >= 0) return EBUSY; acquire(m); return 0; }
int vs_mutex_unlock(pthread_mutex_t* m) { if (!active) return pthread_mutex_unlock(m); release(m); vs_point(); return 0; }
int vs_cond_init(pthread_cond_t* m, const pthread_condattr_t* a) { return pthread_cond_init(m, a); }
int vs_cond_destroy(pthread_cond_t* m) { if (active) for (int k = 0; k < nth; k++) if ((th[k].st == COND || th[k].st == TIMED) && th[k].obj == m) die("destroy-busy", "condition destroyed while a thread waits for it"); return pthread_cond_destroy(m); }
static int cwait(pthread_cond_t* cv, pthread_mutex_t* m, St st) {
    release(m); th[me].st = st; th[me].obj = cv; th[me].expired = false; th[me].seq = ++seqno; handover(false); bool ex = st == TIMED && th[me].expired; acquire(m); return ex ? ETIMEDOUT : 0;
}
int vs_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m) { if (!active) return pthread_cond_wait(cv, m); return cwait(cv, m, COND); }
int vs_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const struct timespec* ts) { if (!active) return pthread_cond_timedwait(cv, m, ts); return cwait(cv, m, TIMED); }
int vs_cond_signal(pthread_cond_t* cv) {
    if (!active) return pthread_cond_signal(cv);
    int best = -1; for (int k = 0; k < nth; k++) if ((th[k].st == COND || th[k].st == TIMED) && th[k].obj == cv) if (best < 0 || (pol.lifo ? th[k].seq > th[best].seq : th[k].seq < th[best].seq)) best = k;
    if (best >= 0) { th[best].st = RUN; th[best].expired = false; } vs_point(); return 0;
}
int vs_cond_broadcast(pthread_cond_t* cv) { if (!active) return pthread_cond_broadcast(cv); for (int k = 0; k < nth; k++) if ((th[k].st == COND || th[k].st == TIMED) && th[k].obj == cv) { th[k].st = RUN; th[k].expired = false; } vs_point(); return 0; }
static void* entry(void* p) {
    me = (int)(intptr_t)p; park(); th[me].ret = th[me].f(th[me].arg);
    th[me].st = DONE; for (int k = 0; k < nth; k++) if (th[k].st == JOIN && th[k].obj == &th[me]) th[k].st = RUN;
    handover(false); return th[me].ret;
}
int vs_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
    if (!active) return vf_pthread_create(t, a, f, arg);
    int i = 1; while (i < nth && th[i].st != FREE && !(th[i].st == DONE && th[i].joined)) i++; if (i >= MAXT) return EAGAIN;
    th[i].st = RUN; th[i].go = 0; th[i].f = f; th[i].arg = arg; th[i].joined = false; if (i == nth) nth++;
    int r = vf_pthread_create(&th[i].real, a, entry, (void*)(intptr_t)i); if (r) { th[i].st = FREE; return r; }
    *t = th[i].real; vs_point(); return 0;
}
int vs_join(pthread_t t, void** v) {
    if (!active) return pthread_join(t, v);
    int i = 1; while (i < nth && !(th[i].st != FREE && !th[i].joined && pthread_equal(th[i].real, t))) i++; if (i >= nth) die("join", "join of an unknown thread");
    vs_point(); while (th[i].st != DONE) { th[me].st = JOIN; th[me].obj = &th[i]; handover(false); }
    th[i].joined = true; if (v) *v = th[i].ret; return pthread_join(t, NULL);
}
#define MEM(k) void __sanitizer_cov_load##k(void*) { if (--vs_memLeft < 0) vs_memslow(); } void __sanitizer_cov_store##k(void*) { if (--vs_memLeft < 0) vs_memslow(); }
MEM(1) MEM(2) MEM(4) MEM(8) MEM(16)
}
