// P02: every produced stream is a conforming LZMA2 stream within its declared dictionary.
#include "mkstream.h"
const char* const prop_id = "P02";
const char* const prop_rule = "random content compressed through the simple calls, contexts and streaming histories with random parameters; output parsed and decoded by the strict reference decoder; non-trivial = at least one LZMA chunk with a match";
void prop_init() {}
void run_case(Tape& t, Ctx& c) {
    vf_reset(); vf.fill = (int)t.draw(256);
    MakeOpts m; m.structs = true; Made k = make_stream(t, c, m); c.note("%s", k.desc.c_str());
    RefStream rs = cs_check(c, k.out, k.in, k.omit, k.prop, k.omit ? -1 : k.p.xxh, "stream");
    REQUIRE(c, rs.hashOk, "hash", "content hash is wrong");
    if (!k.omit) REQUIRE(c, (k.out[0] & 0x40) == 0, "prop-reserved", "property byte %02x", k.out[0]);
    REQUIRE(c, rs.dictProp <= ref_dict_prop(k.dict), "dict-prop", "declared dictionary property %u for a %zu byte dictionary", rs.dictProp, k.dict);
    uint64_t ds = ref_dict_size(rs.dictProp); size_t lz = 0, st = 0, mt = 0, ch = 0, resets = 0;
    for (auto& q : rs.r.chunks) {
        REQUIRE(c, q.maxDist <= ds, "distance", "match distance %llu with a %llu byte dictionary", (unsigned long long)q.maxDist, (unsigned long long)ds);
        if (q.control >= 0x80) { lz++; REQUIRE(c, q.pack <= 65536 && q.unpack <= (2u << 20), "chunk-size", "chunk sizes"); } else st++;
        mt += q.matches + q.reps; ch++; if (q.control == 1 || q.control >= 0xE0) resets++;
    }
    c.label(k.streaming ? "streaming" : "one-shot"); if (st) c.label("stored-chunks"); if (lz && st) c.label("mixed"); if (resets > 1) c.label("resets"); if (k.omit) c.label("omit-prop");
    REQUIRE(c, vf.liveCount == 0, "leak", "%zu blocks still allocated", vf.liveCount);
    if (mt) c.nontrivial(hash_bytes(k.out));
}
