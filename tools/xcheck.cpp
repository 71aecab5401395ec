// Dumps generated LZMA2 streams with expected content, for tools/xcheck.py (liblzma).
#include "../lib/reflzma2.h"
#include <cstdlib>
Ctx* g_ctx; const char* g_arg = "";
static void w(const Bytes& b) { uint32_t n = b.size(); fwrite(&n, 4, 1, stdout); fwrite(b.data(), 1, n, stdout); }
int main(int c, char** v) {
    int n = atoi(v[1]);
    for (int i = 0; i < n; i++) {
        Tape t; t.rng = Rng(i * 7919 + 13);
        GenOpts o; o.dictProp = t.draw(20); o.target = 1 + t.logsize(200000); o.manyResets = t.chance(1, 4); o.smallChunks = t.chance(1, 3); o.copyThenPlain = t.chance(1, 2);
        GenStream g = gen_lzma2(t, o);
        RefResult r = ref_decode_raw(g.raw.data(), g.raw.size(), ref_dict_size(o.dictProp));
        if (!r.ok() || r.out != g.content || r.consumed != g.raw.size()) { fprintf(stderr, "ref mismatch %d: %s\n", i, r.err.c_str()); return 1; }
        Bytes p(1, o.dictProp); w(p); w(g.raw); w(g.content);
    }
}
