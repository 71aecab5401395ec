#!/usr/bin/env python3
# Cross-check of the reference decoder/generator against liblzma (development aid).
import lzma, struct, subprocess, sys, os
d = os.path.dirname(os.path.abspath(__file__))
n = sys.argv[1] if len(sys.argv) > 1 else "2000"
subprocess.check_call(["g++", "-O2", "-o", "/tmp/xcheck", d + "/xcheck.cpp", d + "/../lib/reflzma2.cpp"])
buf = subprocess.run(["/tmp/xcheck", n], stdout=subprocess.PIPE, check=True).stdout
os.remove("/tmp/xcheck")
pos = 0; cnt = 0; bad = 0
def rd():
    global pos
    k, = struct.unpack_from("<I", buf, pos); b = buf[pos+4:pos+4+k]; pos += 4+k; return b
def ds(p): return (2 | (p & 1)) << (p // 2 + 11)
while pos < len(buf):
    p = rd()[0]; raw = rd(); con = rd()
    try:
        out = lzma.decompress(raw, format=lzma.FORMAT_RAW, filters=[{"id": lzma.FILTER_LZMA2, "dict_size": ds(p)}])
        if out != con: bad += 1; print("content mismatch", cnt)
    except lzma.LZMAError as e:
        bad += 1; print("liblzma rejects", cnt, e)
    cnt += 1
print(cnt, "streams,", bad, "bad")
