// Generators for content, compression parameters and buffers.
#pragma once
#include "pbt.h"
#include "fast-lzma2.h"
#include <string>

// ---- content
Bytes gen_data(Tape& t, size_t maxLen, std::string* desc = nullptr);   // skewed size
Bytes gen_data_len(Tape& t, size_t len, std::string* desc = nullptr);  // exact size
Bytes gen_chunk_edge(Tape& t, std::string* desc = nullptr);            // about 2 MiB
Bytes random_bytes(uint64_t seed, size_t n);

// ---- parameters
struct CParams {
    int level = 0; int high = 0;          // level 0: leave default
    long dictSize = -1, overlap = -1, reset = -1, resize = -1, chain = -1, cycles = -1, depth = -1, fast = -1, dac = -1, strategy = -1, lc = -1, lp = -1, pb = -1;
    int omitProp = 0, xxh = 1;
    std::string str() const;
};
struct PGen { long maxDict = 1 << 20; bool omit = false; bool small = false; bool large = false; /* now and then a dictionary that needs the structured match table */ };
CParams gen_params(Tape& t, const PGen& g = PGen());
// returns 0 or the failing parameter + 1
int apply_params(FL2_CCtx* c, const CParams& p);
bool env_has_xxh();

// ---- guarded memory: n bytes directly followed by an inaccessible page
struct Guard {
    uint8_t* base = nullptr; size_t maplen = 0; uint8_t* p = nullptr; size_t n = 0; size_t slack = 0; size_t align;
    Guard() {}
    explicit Guard(size_t len, size_t al = 1) { init(len, al); }
    explicit Guard(const Bytes& b) { init(b.size(), 1); if (!b.empty()) memcpy(p, b.data(), b.size()); }
    Guard(const uint8_t* d, size_t len) { init(len, 1); if (len) memcpy(p, d, len); }
    Guard(const Guard&) = delete; Guard& operator=(const Guard&) = delete;
    ~Guard() { release(); }
    void init(size_t len, size_t al = 1);
    void release();
    bool intact() const;                  // canary bytes before p unchanged
    Bytes bytes(size_t k) const { return Bytes(p, p + k); }
};
