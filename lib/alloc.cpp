#define VF_SHIM_IMPL
#include "shim.h"
#include "alloc.h"
#include <atomic>
VfState vf;
namespace {
struct Ent { void* p; size_t n; unsigned epoch; };
const size_t NB = 1 << 16;
Ent tab[NB];
std::atomic_flag lk = ATOMIC_FLAG_INIT;
unsigned epoch = 1;
struct L { L() { while (lk.test_and_set(std::memory_order_acquire)) {} } ~L() { lk.clear(std::memory_order_release); } };
size_t h(void* p) { uint64_t x = (uint64_t)(uintptr_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; return x & (NB - 1); }
void put(void* p, size_t n) {
    size_t i = h(p); while (tab[i].p) i = (i + 1) & (NB - 1);
    tab[i] = {p, n, epoch};
    vf.liveBytes += n; vf.liveCount++; if (vf.liveBytes > vf.peakBytes) vf.peakBytes = vf.liveBytes;
    if (n > vf.maxSingle) vf.maxSingle = n;
}
bool take(void* p, size_t* n) {
    size_t i = h(p);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (NB - 1);
    if (!tab[i].p) return false;
    *n = tab[i].n;
    if (tab[i].epoch == epoch) { vf.liveBytes -= *n; vf.liveCount--; }
    // backward-shift deletion
    size_t j = i;
    for (;;) {
        j = (j + 1) & (NB - 1);
        if (!tab[j].p) break;
        size_t k = h(tab[j].p);
        if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
        tab[i] = tab[j]; i = j;
    }
    tab[i].p = nullptr;
    return true;
}
bool should_fail(size_t n) {
    uint64_t c = ++vf.count;
    bool f = (vf.failAt && c == vf.failAt) || (vf.failFrom && c >= vf.failFrom) || (vf.failLarger && n > vf.failLarger);
    if (f) vf.failed++;
    return f;
}
}
void vf_reset() { L l; epoch++; vf = VfState(); vf.fill = 0xA5; vf.fillMax = 1 << 26; }
extern "C" void* vf_malloc(size_t n) {
    { L l; if (should_fail(n)) { errno = ENOMEM; return nullptr; } }
    if (n > ((size_t)6 << 30)) return nullptr; // keep the sandbox usable
    void* p = malloc(n);
    if (!p) return p;
    if (vf.fill >= 0) memset(p, vf.fill, n > vf.fillMax ? vf.fillMax : n <= (size_t)24 << 20 ? n : (size_t)6 << 20); // of a very large block only the start: the rest is mostly never used
    L l; put(p, n); return p;
}
extern "C" void* vf_calloc(size_t a, size_t b) {
    { L l; if (should_fail(a * b)) { errno = ENOMEM; return nullptr; } }
    void* p = calloc(a, b);
    if (!p) return p;
    L l; put(p, a * b); return p;
}
extern "C" void vf_free(void* p) {
    if (!p) return;
    size_t n = 0; bool known;
    { L l; known = take(p, &n); }
#ifndef VF_ASAN
    if (!known) { fprintf(stderr, "ERROR: free of unknown or already freed block %p\n", p); abort(); }
#endif
    if (known && n <= 1 << 20) memset(p, 0xDD, n);
    free(p);
}
extern "C" void* vf_realloc(void* p, size_t n) {
    if (!p) return vf_malloc(n);
    { L l; if (should_fail(n)) { errno = ENOMEM; return nullptr; } }
    { L l; size_t o; take(p, &o); }
    void* q = realloc(p, n); L l; put(q, n); return q;
}
namespace { struct Start { void* (*f)(void*); void* arg; unsigned ep; }; }
static void* vf_thread(void* a) {
    Start s = *(Start*)a; free(a); void* r = s.f(s.arg);
    struct timespec ts; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &ts);
    L l; if (s.ep == epoch) { vf.threadsLive--; vf.workerCpu += ts.tv_sec + ts.tv_nsec * 1e-9; }
    return r;
}
extern "C" int vf_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
    Start* s = (Start*)malloc(sizeof(Start));
    { L l; if (should_fail(0) || !s) { free(s); return EAGAIN; } vf.threadsCreated++; if (++vf.threadsLive > vf.threadsPeak) vf.threadsPeak = vf.threadsLive; s->f = f; s->arg = arg; s->ep = epoch; }
    int e = pthread_create(t, a, vf_thread, s);
    if (e) { L l; vf.threadsLive--; vf.threadsCreated--; free(s); }
    return e;
}
VfEnv vf_env = { nullptr, nullptr };
extern "C" FILE* vf_fopen(const char* name, const char* mode) { return vf_env.open ? vf_env.open(name) : fopen(name, mode); }
extern "C" long vf_sysconf(int name) { return vf_env.conf ? vf_env.conf(name) : sysconf(name); }
