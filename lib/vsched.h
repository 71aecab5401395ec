// Controlled scheduler: with VF_SCHED all threads of a case take turns, one at a
// time, in an order decided by choices of the tape.  Without it the calls vanish.
#pragma once
#include "pbt.h"
struct VsPolicy {
    uint64_t seed = 0;
    unsigned order = 0;       // who runs when the running thread blocks: 0 lowest id, 1 highest id, 2 random, 3 workers first, 4 main first
    unsigned preempts = 0;    // switches away from a thread that could go on
    unsigned syncGap = 0;     // log2 of the largest distance between preemptions in synchronisation operations
    unsigned memGap = 0;      // the same in memory accesses of the library (0: none)
    unsigned expiries = 0;    // timed waits that expire although something else could run
    unsigned expireEvery = 4; // 1/n chance that an opportunity for that is taken
    unsigned spurious = 0;    // wake-ups without a signal
    bool lifo = false;        // which waiter a signal wakes
    unsigned focus = 0;       // preemption only of: 0 any, 1 main, 2 workers
    std::string str() const;
};
static inline VsPolicy vs_policy(Tape& t) {
    VsPolicy p; p.preempts = t.draw(3) ? (unsigned)t.logsize(400) : 0; p.expiries = t.draw(3) ? (unsigned)t.logsize(200) : 0; p.order = (unsigned)t.draw(6); p.syncGap = (unsigned)t.range(0, 12); p.memGap = t.draw(2) ? (unsigned)t.range(1, 22) : 0; p.expireEvery = (unsigned)t.range(1, 12);
    p.spurious = t.chance(1, 4) ? (unsigned)t.range(1, 20) : 0; p.lifo = t.draw(2); p.focus = (unsigned)t.draw(3); p.seed = t.draw(1u << 30); return p;
}
inline std::string VsPolicy::str() const { char b[160]; snprintf(b, sizeof b, "sched order%u pre%u/%u/%u exp%u/%u spur%u%s focus%u", order, preempts, syncGap, memGap, expiries, expireEvery, spurious, lifo ? " lifo" : "", focus); return b; }
#ifdef VF_SCHED
void vs_begin(Ctx& c, const VsPolicy& p);
void vs_end(Ctx& c);
struct VsStats { uint64_t points, switches, preempted, expired, spurious; };
extern VsStats vs_stats;
extern unsigned vs_main_moves;
#else
static inline void vs_begin(Ctx&, const VsPolicy&) {}
static inline void vs_end(Ctx&) {}
#endif
