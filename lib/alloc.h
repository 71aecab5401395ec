// Measuring / fault-injecting allocator used by the library under test.
#pragma once
#include <stdio.h>
#include <cstddef>
#include <cstdint>
struct VfState {
    size_t liveBytes, peakBytes, liveCount, maxSingle;
    uint64_t count;        // allocation attempts (incl. thread creations) so far
    uint64_t failAt;       // 1-based index of the single attempt that fails (0: none)
    uint64_t failFrom;     // every attempt with index >= failFrom fails (0: none)
    uint64_t failed;       // attempts made to fail
    int fill;              // byte written into fresh malloc memory, -1: leave alone
    size_t fillMax;
    uint64_t threadsCreated;
    uint64_t threadsLive, threadsPeak; // threads started and not yet finished (not under the scheduler); since vf_reset
    double workerCpu;      // seconds of CPU used by threads that have finished
    size_t failLarger;     // attempts larger than this always fail (0: none)
};
extern VfState vf;
void vf_reset();           // zero counters and faults (live blocks are kept out of the new accounting)
// what the library sees of the machine (null: the real thing)
struct VfEnv { FILE* (*open)(const char* name); long (*conf)(int name); };
extern VfEnv vf_env;
