// Property-based testing core: every random decision of a case is drawn from a
// "tape" of choices.  The tape is recorded while generating, shrunk by the
// driver, and is itself the replay file.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

typedef std::vector<uint8_t> Bytes;

static inline uint64_t mix64(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() { uint64_t r = mix64(s); s += 0x9E3779B97F4A7C15ull; return r; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
static inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const uint8_t* b = (const uint8_t*)p;
    while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0x9FB21C651E98DF25ull; h ^= h >> 32; b += 8; n -= 8; }
    while (n--) { h = (h ^ *b++) * 1099511628211ull; }
    return mix64(h);
}
static inline uint64_t hash_bytes(const Bytes& b) { return hash_bytes(b.data(), b.size()); }

struct Tape {
    uint64_t* rec = nullptr;      // recorded choices (shared memory)
    volatile uint64_t* recLen = nullptr;
    size_t cap = 0;
    size_t n = 0;
    // source of choices: rng, or a recorded tape, or libFuzzer bytes
    bool replay = false, more = false;   // more: after the end of the recorded tape continue with rng (otherwise zeros)
    const uint64_t* src = nullptr; size_t srcLen = 0;
    const uint8_t* bytes = nullptr; size_t bytesLen = 0, bytesPos = 0;
    Rng rng{0};
    uint64_t draw(uint64_t bound) {
        if (bound == 0) bound = 1;
        uint64_t v;
        if (bytes) {
            unsigned w = bound <= 0x100 ? 1 : bound <= 0x10000 ? 2 : bound <= 0x100000000ull ? 4 : 8;
            v = 0;
            for (unsigned i = 0; i < w; i++) v |= (uint64_t)(bytesPos < bytesLen ? bytes[bytesPos++] : 0) << (8 * i);
            v %= bound;
        } else if (replay) {
            v = n < srcLen ? src[n] % bound : more ? rng.next() % bound : 0;
        } else v = rng.next() % bound;
        if (n < cap) { rec[n] = v; if (recLen) *recLen = n + 1; }
        n++;
        return v;
    }
    uint64_t raw() { return draw(~0ull); }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); } // inclusive
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }   // 0 -> false
    template <class T, size_t N> T pick(const T (&a)[N]) { return a[draw(N)]; }
    // skewed size: uniform in the number of bits
    uint64_t logsize(uint64_t maxv) {
        unsigned bits = 0; while (bits < 64 && (maxv >> bits) != 0) bits++;
        unsigned b = (unsigned)draw(bits + 1);
        if (b == 0) return 0;
        uint64_t lo = 1ull << (b - 1), hi = (lo << 1) - 1;
        if (hi > maxv) hi = maxv;
        return range(lo, hi);
    }
    template <size_t N> unsigned weighted(const unsigned (&w)[N]) {
        unsigned tot = 0; for (unsigned x : w) tot += x;
        unsigned v = (unsigned)draw(tot);
        for (unsigned i = 0; i < N; i++) { if (v < w[i]) return i; v -= w[i]; }
        return N - 1;
    }
};

struct Ctx {
    [[noreturn]] void fail(const char* tag, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    void nontrivial(uint64_t hash) { isNontrivial = true; ntHash = hash; }
    void label(const char* name, uint64_t by = 1);
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))); // appended to the case description
    std::string desc;
    bool isNontrivial = false; uint64_t ntHash = 0;
    bool verbose = false;
    int tier = 0;                                  // 0 quick, 1 thorough
};
#define REQUIRE(c, cond, tag, ...) do { if (!(cond)) (c).fail(tag, __VA_ARGS__); } while (0)

// Provided by the property file
extern const char* const prop_id;
extern const char* const prop_rule;
void prop_init();                                 // once per process
void run_case(Tape& t, Ctx& c);

extern const char* g_arg;                         // value of --arg for this run ("" by default)
extern Ctx* g_ctx;                                // context of the case being run (or null)
