#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in git; this script is the readable source).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("P01", "One-shot round trip is exact for every input, parameter set and thread count",
 "Whatever bytes are compressed in one call, under any parameter set the library accepts, any level and any thread count, decompressing the result into a buffer of the original size succeeds and yields exactly the original bytes. This holds for the simple calls and for contexts, single- and multi-threaded on either side, and with or without the hash.",
 ["inputs", "configurations"],
 "all byte strings, incl. empty, tiny, highly repetitive, incompressible, periodic, multi-block inputs; all accepted values of every compression parameter; 1..N threads",
 "fuzzer/ round-trips a few hundred generated buffers, nearly all with preset levels and one data generator; parameter combinations (overlap x reset x chain x lc/lp/pb x divide-and-conquer) and structured repeats are sampled a handful of times.",
 ["fl2_compress.c", "lzma2_enc.c", "radix_engine.h", "radix_bitpack.c", "radix_struct.c", "radix_mf.c", "range_enc.c", "lzma2_dec.c", "lzma_dec_x86_64.S", "fl2_decompress.c"],
 [("block split, overlap and per-thread slices", "fl2_compress.c: FL2_compressBuffer / FL2_compressCurBlock_blocking"),
  ("match table build: list heads, buffered recursion, repeat handling", "radix_engine.h"),
  ("matches re-verified/extended before encoding", "radix_get.h"),
  ("optimal parser and chunk encoder, fallback to stored chunk", "lzma2_enc.c: LZMA2_encode")],
 [("curBlock", "dictionary range being compressed; start>0 means overlap kept", "fl2_compress_internal.h"),
  ("reps/state/probs", "LZMA model that encoder and decoder must update identically", "lzma2_enc.c, lzma2_dec.c")],
 ["FL2_compress*, FL2_compressCCtx results vs FL2_decompress* output"])

prop("P02", "Compressed output is a conforming LZMA2 stream within its declared dictionary",
 "Every stream produced (one-shot or streaming, any parameters) is accepted by an independent strict LZMA2 decoder: property byte first unless omitted, legal chunk headers and chunk sizes, dictionary/state/property resets where the format demands them, every match distance within both the declared dictionary size and the data since the last dictionary reset, one end marker, then exactly the 4-byte XXH32 of the content if and only if the hash flag is set. The decoded content equals the input and nothing follows.",
 ["inputs", "configurations"],
 "all inputs, parameter sets, thread counts, and streaming call sequences",
 "The tests decode only with this library's own decoder, which shares the encoder's assumptions, does not re-check declared dictionary size strictly in flat buffers, and ignores non-canonical headers; other decoders (7-zip, xz) would reject what it accepts.",
 ["lzma2_enc.c", "fl2_compress.c", "dict_buffer.c", "xxhash.c"],
 [("chunk header writer and stored/compressed choice, state/prop reset flags", "lzma2_enc.c: LZMA2_encode, LZMA2_encodeChunk"),
  ("dictionary size property", "lzma2_enc.c: LZMA2_getDictSizeProp; fl2_compress.c: FL2_getCCtxDictProp"),
  ("end marker and hash", "fl2_compress.c: FL2_writeEnd, FL2_compressCCtx; dict_buffer.c: DICT_getDigest")],
 [("dictMax", "largest dictionary extent used, from which the property is derived", "fl2_compress_internal.h")],
 ["bytes produced by every compression entry point"])

prop("P03", "Output fits: compressBound suffices, capacity respected, shortfall reported",
 "Compression never writes outside [dst, dst+dstCapacity). With dstCapacity >= FL2_compressBound(srcSize) it always succeeds and the result is no larger than the bound, whatever the input and parameters; with a smaller buffer it either succeeds with the very same stream or returns dstSize_tooSmall, and succeeds whenever the capacity is at least the size of that stream. Decompression likewise never writes outside its buffer and reports too small a buffer as an error, never as success.",
 ["inputs", "configurations"],
 "all inputs including incompressible ones at every size around chunk boundaries, all parameter sets, and every capacity from 0 to bound",
 "Tests always allocate compressBound and use mostly compressible data; the bound's slack per chunk and the exact-fit capacity are never probed.",
 ["fl2_common.c", "fl2_compress.c", "lzma2_enc.c", "fl2_decompress.c", "lzma2_dec.c"],
 [("worst-case bound", "fl2_common.c: FL2_compressBound"),
  ("incompressible chunks stored", "lzma2_enc.c: LZMA2_isChunkIncompressible and post-check in LZMA2_encode"),
  ("capacity checks per block, property byte, end marker and hash", "fl2_compress.c: FL2_compressBuffer, FL2_compressCCtx")],
 [], ["return value and guard bytes around dst"])

prop("P04", "Streaming compression encodes exactly the concatenation of the data supplied",
 "For any sequence of stream operations (compressing input in arbitrary pieces into arbitrary output space, writing through the dictionary buffer, reading internal buffers or copying output, flushing at any time, single or dual buffer, any thread count, with or without timeouts), the bytes collected up to the end of the stream decode to exactly the concatenation of all input supplied, in order, and the return codes tell truthfully whether output remains.",
 ["histories", "inputs", "configurations"],
 "all call histories over the push and pull streaming API, all splits of input and output, all parameters, multi-block inputs",
 "Tests drive the stream with a few fixed chunkings in one calling pattern; mixes of push/pull, mid-stream flush, 0-size buffers and dual buffering across block boundaries are unsampled.",
 ["fl2_compress.c", "dict_buffer.c", "fl2_pool.c"],
 [("dictionary double buffer, overlap shift, hash feed", "dict_buffer.c"),
  ("compressed slices drained in order from the match table memory", "fl2_compress.c: FL2_getNextCompressedBuffer, FL2_copyCStreamOutput, FL2_loopCheck"),
  ("flush/end state", "fl2_compress.c: FL2_flushStream, FL2_endStream, FL2_writeEnd")],
 [("DICT_buffer", "active buffer, start/end, overlap, reset interval counter", "dict_buffer.h"),
  ("outThread/outPos/threadCount", "position in pending output", "fl2_compress_internal.h")],
 ["collected stream bytes and return codes"])

prop("P05", "A completed flush makes all data supplied so far recoverable",
 "When a flush reports completion, the output emitted so far, with no further bytes, decodes to all input supplied so far; output emitted after it never changes that prefix. The same holds at the end of the stream.",
 ["histories", "inputs"],
 "all histories of writes and flushes at arbitrary points (incl. empty, back-to-back, and at exact dictionary boundaries)",
 "Tests call flush at one or two fixed points and check only the final round trip.",
 ["fl2_compress.c", "dict_buffer.c"],
 [("flush loop compresses partial dictionary and drains every slice", "fl2_compress.c: FL2_flushStream_internal, FL2_flushStream"),
  ("flushed data kept as overlap without being emitted twice", "dict_buffer.c: DICT_getBlock, DICT_shift")],
 [], ["prefix of output at each flush completion, decoded by an independent decoder and by FL2_decompressStream"])

prop("P06", "Streaming decompression is independent of how input and output are chunked",
 "For any valid stream, any division of input and output into pieces (including empty ones), any thread count and memory limit, streaming decompression produces exactly the content in order, returns 0 exactly when the stream is complete and fully output, and 1 before that. It never writes beyond the space offered, never reports positions outside the buffers, always makes progress when given both input and output space, and consumes no byte after the end of the stream.",
 ["histories", "inputs", "configurations"],
 "all valid streams (this encoder's and others'), all chunkings, single and multi-threaded, trailing data after the stream",
 "Tests use a few chunk sizes with one output size; boundaries inside chunk headers, symbols, hash bytes and MT block boundaries are exercised accidentally if at all.",
 ["fl2_decompress.c", "lzma2_dec.c"],
 [("resumable chunk-header and symbol decode with look-ahead buffer", "lzma2_dec.c: LZMA2_decodeToDic, LZMA_tryDummy"),
  ("MT input buffering, chunk parsing, fail-over to one thread", "fl2_decompress.c: FL2_loadInputMt, FL2_decompressFailedMt"),
  ("hash bytes gathered across calls", "fl2_decompress.c: FL2_decompressStream_blocking")],
 [("stage", "position in the stream state machine", "fl2_decompress.c"),
  ("temp_buf/temp_size", "partial symbol bytes carried between calls", "lzma2_dec.h")],
 ["in.pos, out.pos, return code after every call"])

prop("P07", "Every decoder agrees with the LZMA2 format on every valid stream",
 "For every valid LZMA2 stream, whether or not this library's encoder would produce it (any lc/lp/pb, resets at any chunk, stored chunks, any legal match structure, dictionary size and wrap-around), all decoding paths - one-shot, multi-threaded, streaming, streaming multi-threaded, in the assembly and the portable C build - return success with exactly the content the format defines.",
 ["inputs", "configurations"],
 "all valid LZMA2 streams",
 "Tests only decode what this encoder emits, which never uses most legal structures (property changes mid-stream, state reset without property, stored chunks with dictionary reset, distances at the exact window limit, ring wrap).",
 ["lzma2_dec.c", "lzma_dec_x86_64.S", "fl2_decompress.c"],
 [("chunk control state machine", "lzma2_dec.c: LZMA2_nextChunkInfo, LZMA2_decodeChunkToDic, LZMA2_decodeToDic"),
  ("two independent symbol decoders", "lzma2_dec.c: LZMA_decodeReal_3; lzma_dec_x86_64.S"),
  ("parallel split at dictionary resets", "fl2_decompress.c: FL2_decompressDCtxMt")],
 [], ["decoded bytes and return codes of all decode paths"])

prop("P08", "Arbitrary input to a decoder is memory-safe, bounded and never wrongly accepted",
 "For any byte string presented as compressed data to any decoding or stream-inspection entry point, any output capacity and any chunking, the call returns (no hang, no unbounded memory beyond what the dictionary property asks for), reads only the input given and writes only the output given, and its result depends on nothing but its arguments. If it reports a complete stream, the bytes form a valid LZMA2 stream and the output is that stream's content.",
 ["inputs", "histories", "fault_sequences"],
 "all byte strings, particularly mutated valid streams with consistent headers; all chunkings and capacities",
 "Tests corrupt a few random bytes of encoder output and only check that decoding fails or ends; they run without sanitizers and cannot see out-of-bounds accesses or acceptance of invalid structure.",
 ["lzma2_dec.c", "lzma_dec_x86_64.S", "fl2_decompress.c"],
 [("control byte and need_init checks", "lzma2_dec.c: LZMA2_decodeToDic, LZMA2_nextChunkInfo"),
  ("distance check, limit checks, over-read guard (required input max)", "lzma2_dec.c: LZMA_decodeReal_3, LZMA_decodeToDic"),
  ("MT chunk parser validating sizes before dispatch", "lzma2_dec.c: LZMA2_parseInput; fl2_decompress.c")],
 [], ["return codes, guard regions, sanitizer reports"])

prop("P09", "Corruption or truncation of a hashed stream is always detected",
 "If a stream that carries a content hash is altered in any byte of its chunks or hash, or truncated at any point, no decoding path reports success with content that differs from the original, and a truncated stream (hashed or not) is never reported complete. An unaltered stream is never reported as corrupt.",
 ["inputs", "fault_sequences"],
 "all streams x all bit flips, byte substitutions, chunk swaps and truncation points x all decoding paths and chunkings",
 "Tests flip a few bytes in a few streams in one path; whether the hash covers all bytes once and in order in every path (ring wrap, MT, partial output) is not settled by samples.",
 ["fl2_decompress.c", "dict_buffer.c", "xxhash.c", "fl2_compress.c"],
 [("hash computed over dictionary contents in stream order", "dict_buffer.c: DICT_shift / DICT_getDigest"),
  ("hash verified in one-shot, MT and stream paths", "fl2_decompress.c: FL2_decompressDCtx, FL2_decompressStream_blocking")],
 [("xxhIn/xxhPos", "partially received hash bytes", "fl2_decompress.c")],
 ["return code and content of each decode path on altered input"])

prop("P10", "Multithreaded results do not depend on scheduling",
 "For a fixed input, parameter set and thread count, every interleaving of the worker threads leads to the same compressed stream and the same decompressed output and return code as any other, and every operation terminates (no deadlock or lost wake-up).",
 ["schedules", "inputs"],
 "all interleavings at synchronisation points of the worker pool, match-table build, slice encode and parallel decode",
 "Tests run each case once under whatever schedule the OS picks; rare hand-offs in the pool and list distribution are not forced.",
 ["fl2_pool.c", "fl2_threading.c", "radix_engine.h", "radix_mf.c", "fl2_compress.c", "fl2_decompress.c", "atomic.h"],
 [("work queue with busy count and condition variables", "fl2_pool.c"),
  ("atomic hand-out of radix lists", "radix_mf.c: RMF_getNextList_mt"),
  ("per-thread output regions inside the match table", "lzma2_enc.c, fl2_compress.c")],
 [("queueIndex/queueEnd/numThreadsBusy", "pool state guarded by one mutex", "fl2_pool.c")],
 ["outputs under a controlled scheduler"])

prop("P11", "Parameters: documented ranges enforced, set values read back, levels consistent",
 "Setting a parameter accepts exactly its documented range and otherwise returns parameter_outOfBound (unknown parameters parameter_unsupported) leaving every parameter unchanged; an accepted value reads back until it is set again or a level is applied, a level (of either table) sets exactly what the level-parameter query reports, and lc+lp above 4 is reported as lclpMax_exceeded though the value is stored. A new object has the documented defaults, the high-compression levels have the documented dictionaries, and every block is coded with the lc, lp and pb in force when it is compressed (lc lowered to make lc+lp 4). While a frame is in progress only lc, lp and pb may be changed (anything else gives stage_wrong), and all may be changed again once it has ended, failed or been cancelled.",
 ["histories", "configurations"],
 "all sequences of get/set calls with arbitrary values interleaved with compression calls, against a model",
 "Unit tests set a few valid values; range ends, combinations such as lc+lp, large 64-bit values and post-error state are not covered.",
 ["fl2_compress.c"],
 [("range macros and combined checks", "fl2_compress.c: FL2_CCtx_setParameter"),
  ("level tables", "fl2_compress.c: FL2_defaultCParameters, FL2_highCParameters"),
  ("parameter lock during a frame", "fl2_compress.c: FL2_beginFrame / FL2_endFrame")],
 [("lockParams", "set while a frame is open", "fl2_compress_internal.h")],
 ["FL2_CCtx_setParameter/getParameter, FL2_CStream_*, FL2_getLevelParameters results"])

prop("P12", "A reused context behaves like a fresh one, also after errors and cancellation",
 "After any history of operations on a compression context/stream or decompression context/stream - successes, failed calls, abandoned or cancelled operations, parameter changes - the next properly started operation gives the same result as on a newly created object with the same parameters (with dual buffering, where the moment of a flush decides the blocks, the same content). Sizes and parameters used earlier never leak into later output.",
 ["histories", "inputs", "configurations"],
 "all histories of frames with different sizes, parameters, aborted streams, undersized buffers and corrupt inputs on one object",
 "Tests reuse contexts for similar successful operations only; reuse after an error, after a smaller/larger dictionary, or mid-stream is not exercised.",
 ["fl2_compress.c", "fl2_decompress.c", "radix_mf.c", "lzma2_enc.c", "dict_buffer.c", "lzma2_dec.c"],
 [("match table reuse/compatibility test", "radix_mf.c: RMF_compatibleParameters, RMF_applyParameters"),
  ("frame begin/end reset", "fl2_compress.c: FL2_beginFrame, FL2_endFrame, FL2_preBeginFrame"),
  ("decoder re-initialisation", "fl2_decompress.c: FL2_initDStream, FL2_resetMtBlocks; lzma2_dec.c: LZMA2_initDecoder")],
 [], ["output of the last operation vs. fresh object"])

prop("P13", "Memory allocation failure at any point is reported cleanly",
 "If any one allocation (or every allocation from some point on) fails during any operation, the call reports an error (or a null object, or completes correctly without the memory); nothing crashes, hangs or leaks, and the object can still be freed and, after a fresh start, used correctly.",
 ["fault_sequences", "histories"],
 "every allocation index of every operation sequence (create, set parameter, compress, stream, decode, re-init), single failures and permanent exhaustion, incl. thread-creation failure",
 "Tests never make an allocation fail.",
 ["fl2_compress.c", "fl2_decompress.c", "radix_mf.c", "lzma2_enc.c", "dict_buffer.c", "fl2_pool.c", "lzma2_dec.c"],
 [("null checks with unwinding", "FL2_createCCtx_internal, RMF_createMatchTable, DICT_init, FL2POOL_create, FL2_createDStreamMt"),
  ("fallback to single thread when MT buffers cannot be had", "fl2_decompress.c: FL2_decompressFailedMt")],
 [], ["return values, liveness and leak accounting with injected failures"])

prop("P14", "No data races; separate contexts never interfere",
 "Under every use the documentation allows - multi-threaded contexts, dual-buffer and timed asynchronous streams polled for progress, and any number of independent contexts in different application threads - shared memory is accessed without data races (progress queries, which are estimates, and cancel flags aside), and concurrent use of separate objects gives the same results as using them one after another.",
 ["schedules", "histories"],
 "all interleavings of worker threads with the calling thread and of independent application threads",
 "Tests are not run under a race detector and never use two contexts at once.",
 ["fl2_pool.c", "fl2_compress.c", "fl2_decompress.c", "radix_mf.c", "lzma2_enc.c", "atomic.h"],
 [("pool mutex", "fl2_pool.c"), ("atomic list index and progress counters", "atomic.h, radix_mf.c, lzma2_enc.c"),
  ("no mutable globals", "all files")],
 [], ["ThreadSanitizer reports; results of concurrent vs. serial runs"])

prop("P15", "Timeouts, waiting and cancellation are safe at every moment",
 "With a timeout set, any call may report the timeout at any moment, and however often the caller waits, polls, resumes or cancels, no operation deadlocks, completion is never reported before the work is done, and the final output equals the untimed one. After a cancel at any point the object can be re-initialised and then behaves like a fresh one.",
 ["schedules", "histories"],
 "all expiry points of timed waits, all interleavings with workers, all points of cancellation, for compression and decompression streams, single- and multi-threaded",
 "Tests use real time with a few fixed timeouts; expiry before a worker starts, at the moment it finishes, or during hand-off cannot be forced by the tests.",
 ["fl2_pool.c", "fl2_threading.h", "fl2_compress.c", "fl2_decompress.c"],
 [("timed wait for the pool", "fl2_pool.c: FL2POOL_waitAll"),
  ("async job result hand-over", "fl2_compress.c: FL2_waitCStream; fl2_decompress.c: FL2_waitDStream"),
  ("cancel flag polled by builders, encoders and decoders", "radix_mf.c, lzma2_enc.c, fl2_decompress.c")],
 [("asyncRes/canceled/wait", "async state shared by caller and worker", "fl2_compress_internal.h, fl2_decompress.c")],
 ["return codes and outputs under a controlled scheduler with virtual time"])

prop("P16", "Memory use stays within the published estimates and the MT limit",
 "The memory a new compression context or stream, or decompression stream, holds at its peak does not exceed what the matching estimate function returns for the same level or parameters, thread count and buffering (apart from a few KB of bookkeeping), and the estimates agree with one another. The multi-threaded stream decoder holds no more than the limit set on it beyond what a single-threaded one needs, and reaching the limit changes speed but not results. Freeing an object releases everything it allocated.",
 ["configurations", "histories", "inputs"],
 "all levels, parameter sets, thread counts, dual buffering, memory limits, and stream contents",
 "Tests never call the estimate functions against measured allocation, and never set a small MT limit on varied streams.",
 ["fl2_compress.c", "fl2_decompress.c", "radix_mf.c", "lzma2_enc.c", "dict_buffer.c"],
 [("estimates", "fl2_compress.c: FL2_estimateCCtxSize*, FL2_estimateCStreamSize*; fl2_decompress.c: FL2_estimateDStreamSize"),
  ("MT memory accounting", "fl2_decompress.c: FL2_lzma2DecMt memTotal/memLimit")],
 [], ["instrumented allocator peak vs. estimate"])

prop("P17", "Progress reports are monotonic, bounded by the work, and end at the total",
 "Between initialisation and the end of a stream the reported progress never decreases and never exceeds the data supplied (compression) or decoded (decompression), and the reported compressed size never exceeds what is eventually emitted. Once the stream is complete the progress equals the size of the content and the compressed size that of the emitted chunks.",
 ["histories", "schedules", "configurations"],
 "all histories and polling points, including polling concurrent with asynchronous work",
 "Tests do not check progress values.",
 ["fl2_compress.c", "fl2_decompress.c", "radix_mf.c"],
 [("weighted estimate of match-finder and encoder progress", "fl2_compress.c: FL2_getCStreamProgress; radix_mf.c: RMF_*progress"),
  ("decoder progress", "fl2_decompress.c: FL2_getDStreamProgress")],
 [], ["progress values at every poll"])

prop("P18", "Decompressed-size discovery is exact",
 "For any buffer that starts with a valid stream (with any trailing bytes), the reported decompressed size equals the size of the content, without decoding. For a chunk sequence that is truncated before its end marker or contains an undefined chunk type it returns the error value, and it never reads outside the buffer.",
 ["inputs"],
 "all valid streams, truncations at every byte, and arbitrary byte strings",
 "Tests call it on complete encoder output only.",
 ["fl2_decompress.c", "lzma2_dec.c"],
 [("chunk header walk", "lzma2_dec.c: LZMA2_getUnpackSize; fl2_decompress.c: FL2_findDecompressedSize")],
 [], ["FL2_findDecompressedSize result"])

prop("P19", "The dictionary property round-trips and property-less streams decode with it",
 "The property byte a compressor writes or reports names a dictionary at least as large as every match distance, no larger than the configured dictionary rounded up to a property step, and the size query agrees with the format for it; a stream made with the property omitted begins with the first chunk, carries no hash, and decodes correctly through every initialise-with-property path. Invalid property values are rejected as errors everywhere.",
 ["inputs", "configurations"],
 "all dictionary sizes (not only powers of two), input sizes around each step, all 256 property bytes, one-shot and streaming",
 "Tests use the default dictionary sizes and one omit-properties case.",
 ["lzma2_enc.c", "lzma2_dec.c", "fl2_compress.c", "fl2_decompress.c"],
 [("encode property from size", "lzma2_enc.c: LZMA2_getDictSizeProp"),
  ("size from property", "lzma2_dec.c: LZMA2_getDictSizeFromProp"),
  ("init with property", "fl2_decompress.c: FL2_initDCtx, FL2_initDStream_withProp")],
 [], ["property byte, FL2_getCCtxDictProp, FL2_getDictSizeFromProp, decode result"])

prop("P20", "Dictionary resets appear at the configured interval and nowhere else",
 "In any produced stream the first chunk resets the dictionary; with overlap in use, reset interval I > 0 and dictionary size D the next one follows after at most D x I bytes of input and, unless the stream ends, after more than D x (I-1), so that longer streams can be decoded in parallel; with interval 0 there is none within 2 GB. Flushes and chunking never remove the resets, and no match crosses one.",
 ["inputs", "configurations", "histories"],
 "all dictionary sizes, overlaps, intervals, input lengths over several intervals, one-shot and streaming with flushes",
 "Tests never inspect where resets occur; a missing or misplaced reset only makes MT decoding slow or memory-hungry and still round-trips.",
 ["dict_buffer.c", "fl2_compress.c", "lzma2_enc.c"],
 [("reset counter", "dict_buffer.c: DICT_init, DICT_getBlock/DICT_shift reset_interval handling; fl2_compress.c: FL2_compressBuffer"),
  ("first chunk of a block with start 0 carries dictionary reset", "lzma2_enc.c: LZMA2_encode")],
 [], ["control bytes of produced streams"])

prop("P21", "Redundancy within reach of the dictionary is exploited",
 "Repeating data at a distance within the dictionary (inside one block, or within the configured overlap into the previous block) costs only a small fraction of its size (a few percent) at every level and strategy, whatever the thread count, and incompressible data grows by no more than the stored-chunk overhead (3 bytes per chunk of about 60 KB, and a constant). Compressing the same data on more threads costs only a bounded amount.",
 ["inputs", "configurations"],
 "all inputs of the form X..X with long incompressible X at arbitrary distances, all strategies, depths, block positions, thread counts",
 "Tests check round trips, not sizes: a match finder that silently loses matches still passes every test.",
 ["radix_engine.h", "radix_mf.c", "radix_get.h", "lzma2_enc.c", "fl2_compress.c"],
 [("radix match finder recursion", "radix_engine.h"), ("overlap between blocks", "dict_buffer.c, fl2_compress.c")],
 [], ["size of output"])

prop("P22", "API misuse and call-order errors give an error code, not undefined behaviour",
 "Calling stream and context operations in an order or with arguments the library can detect as wrong (use before initialisation, after the end, empty or zero-size buffers, invalid level, parameter or property) returns a defined error code or a harmless no-op, leaving the object usable after re-initialisation. Every size_t result is either a valid value or an error code recognised by the error test and having its own name; the timeout code alone is recognised as a timeout.",
 ["histories", "inputs"],
 "all call orders over the public API with degenerate arguments, on fresh, active, finished and failed objects",
 "Tests call the API in the documented order only.",
 ["fl2_compress.c", "fl2_decompress.c", "fl2_common.c", "fl2_errors.h"],
 [("stage checks", "fl2_compress.c: CHECK on dictionary allocated / lockParams; fl2_decompress.c: stage, wait"),
  ("error code range and names", "fl2_common.c: FL2_isError, FL2_getErrorName")],
 [], ["return codes; sanitizer reports"])

prop("P23", "Output depends only on content, parameters and the thread count",
 "Compressing the same data with the same parameters and thread count gives the same bytes, whatever the state of the memory the library gets, the alignment and capacity of the caller's buffers, the way the parameters were set (simple call, context call, level parameter or individual parameters) and whether the object is new. For a stream without flushes it is also the same however the input is divided into calls, whichever entry points are used (compressStream or the dictionary buffer calls, buffer copies or direct access to the compressed data), with one or two buffers, with or without timeouts. The content hash setting changes only the property byte's flag and the appended hash.",
 ["inputs", "configurations", "histories", "schedules"],
 "all inputs, parameters, thread counts, memory contents, buffer positions, divisions of the stream and entry points",
 "Tests compress each input once by one route and compare only the decompressed data.",
 ["fl2_compress.c", "lzma2_enc.c", "radix_mf.c", "radix_engine.h", "dict_buffer.c", "range_enc.c"],
 [("initial encoder and match finder state", "lzma2_enc.c: LZMA2_createECtx, EncoderStates reset; radix_mf.c: RMF_createMatchTable, RMF_initTable"),
  ("cutting of a stream into blocks", "dict_buffer.c: DICT_put, DICT_update, DICT_get, DICT_shift; fl2_compress.c: FL2_compressStream, FL2_updateDictionary")],
 [("dictionary buffer fill", "how much input the next block has", "dict_buffer.c: DICT_buffer end, start")], ["the produced bytes"])

prop("P24", "Objects own the threads they were asked for, use them and give them up",
 "A context or stream created for n threads reports min(n, 200), or a number of cores for n = 0, and never has more threads of its own than that, the caller's included, plus one for asynchronous operation (dual buffers or timeouts); for n = 1 without asynchronous operation it creates none. The extra threads do part of the work where the input has enough of it for several threads. None is left once the object is freed.",
 ["configurations", "histories"],
 "all thread counts, object kinds, operation histories, timeouts set and unset, cancellations",
 "Tests check results; a thread left behind, one too many, or one that never gets work shows in none of them.",
 ["fl2_pool.c", "fl2_threading.c", "fl2_compress.c", "fl2_decompress.c", "util.c"],
 [("thread count", "fl2_threading.c: FL2_checkNbThreads; util.c: UTIL_countPhysicalCores"),
  ("pools", "fl2_pool.c: FL2POOL_create, FL2POOL_free; fl2_compress.c: FL2_createCCtx_internal, FL2_setCStreamTimeout; fl2_decompress.c: FL2_createDCtxMt, FL2_setDStreamTimeout, LZMA2_decompressMt")],
 [("factory, compressThread, decompressThread", "the pools", "fl2_compress_internal.h, fl2_decompress.c")], ["thread creation and ends, CPU time per thread, reported thread counts"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
