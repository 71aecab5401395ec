// Independent, strict LZMA2 reference decoder and a generator of arbitrary valid
// LZMA2 streams (with the content they define).  Written from the format, not
// from the library under test; cross-checked against liblzma (tools/xcheck.py).
#pragma once
#include "pbt.h"

struct RefChunk {
    size_t off;            // offset of the control byte
    uint8_t control;
    size_t pack, unpack;   // packed size without header
    size_t outOff;
    int lc = -1, lp = -1, pb = -1;
    uint64_t maxDist = 0;  // largest match distance used (1-based)
    size_t matches = 0, reps = 0, lits = 0;
};
struct RefResult {
    enum St { OK, TRUNC, BAD } st = BAD;
    std::string err;
    size_t consumed = 0;   // bytes up to and incl. the end marker
    Bytes out;             // content decoded (up to the error)
    std::vector<RefChunk> chunks;
    uint64_t maxDist = 0;
    bool ok() const { return st == OK; }
};
// Decode raw LZMA2 (no property byte). dictSize: declared dictionary size; maxOut: stop when exceeded.
RefResult ref_decode_raw(const uint8_t* p, size_t n, uint64_t dictSize, size_t maxOut = (size_t)1 << 31);
uint64_t ref_dict_size(unsigned prop);       // 0..40 -> bytes (4 GiB-1 for 40)
unsigned ref_dict_prop(uint64_t size);       // smallest property >= size
uint32_t ref_xxh32(const uint8_t* p, size_t n, uint32_t seed = 0);

// Whole fast-lzma2 stream: [prop] chunks 00 [hash BE32?]
struct RefStream {
    RefResult r; bool hasHash = false; bool hashOk = true; unsigned dictProp = 0; size_t total = 0; std::string err; bool ok = false;
    bool trunc = false;
};
RefStream ref_decode_stream(const uint8_t* p, size_t n, size_t maxOut = (size_t)1 << 31);

struct GenOpts {
    unsigned dictProp = 0;      // property of the stream
    size_t target = 1000;       // approximate content size
    bool resets = true;         // mid-stream dictionary resets
    bool manyResets = false;
    bool firstCopyReset = true; // allow the first chunk to be a stored one
    bool copyThenPlain = false; // allow control 0x80 after a stored chunk
    bool smallChunks = false;
    bool alignResets = false;
};
struct GenStream {
    Bytes raw;        // LZMA2 chunks incl. end marker, no property byte
    Bytes content;
    std::vector<size_t> chunkOff, resetOff; // offsets in raw
    uint64_t maxDist = 0; size_t chunks = 0, stored = 0, nresets = 0, wraps = 0, propchg = 0, statereset = 0, limitDist = 0, plainAfterCopy = 0;
};
GenStream gen_lzma2(Tape& t, const GenOpts& o);
