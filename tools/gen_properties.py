#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a program so the long text stays readable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every compressed buffer restores its input exactly",
 "For every input, compression level, legal combination of compression parameters and thread count, one-shot compression into a buffer of FL2_compressBound(srcSize) bytes succeeds, and one-shot decompression of the result returns exactly srcSize and exactly the original bytes. This holds for the functions that take a context and for those that do not, at every size including sizes above 4 GiB. The source buffer is never modified and nothing outside it is read.",
 ["inputs", "configurations"],
 "all inputs, levels (normal and high), parameter combinations (dictionary, overlap, reset interval, buffer resize, chain log, cycles, depth, fast length, divide-and-conquer, strategy, lc, lp, pb, hash, property byte) and thread counts",
 "The unit tests and the fuzzer round-trip a few seeded random inputs at sampled levels; a match-finder or parser error needs a specific repetition structure meeting a specific parameter value.",
 ["fl2_compress.c", "lzma2_enc.c", "radix_mf.c", "radix_engine.h", "radix_get.h", "radix_bitpack.c", "radix_struct.c", "range_enc.c", "fl2_decompress.c", "lzma2_dec.c"],
 [("radix match table: every link points backwards to equal bytes of the stated length", "radix_engine.h RMF_*BuildTable / radix_get.h"),
  ("block slicing and overlap handling", "fl2_compress.c FL2_compressBuffer, FL2_compressCurBlock_blocking"),
  ("encoder and decoder keep identical state machines", "lzma2_enc.c LZMA_encode*, lzma2_dec.c LZMA_decodeReal2")],
 observe=["FL2_compress*", "FL2_decompress*"])

prop("C02", "Output is a well-formed LZMA2 stream that declares what it uses",
 "Every stream the library produces (one-shot or streaming) is accepted by an independent strict LZMA2 decoder and decodes to the input: correct property byte, chunk headers, state and dictionary resets, exact chunk sizes, one end marker, and the XXH32 trailer exactly when hashing is enabled and the property byte is present. No match distance exceeds the dictionary size declared by the property byte or reaches back past the last dictionary reset. With a non-zero reset interval at least one dictionary reset occurs in every dictionarySize * resetInterval bytes of input, and the first chunk always resets the dictionary.",
 ["inputs", "configurations", "histories"],
 "all inputs, parameter combinations, thread counts and streaming call histories",
 "The tests only decode with the library's own decoder, which shares assumptions with the encoder, does not check distances against the declared dictionary and never looks at reset positions.",
 ["fl2_compress.c", "lzma2_enc.c", "dict_buffer.c", "lzma2_dec.c"],
 [("chunk header writing and reset flags", "lzma2_enc.c LZMA2_encode / LZMA2_writeChunk"),
  ("property byte from dictionary size", "lzma2_enc.c LZMA2_getDictSizeProp, fl2_compress.c FL2_getProp"),
  ("reset interval bookkeeping", "fl2_compress.c FL2_compressBuffer, dict_buffer.c DICT_shift")],
 observe=["bytes returned by FL2_compress*, FL2_compressStream, FL2_getNextCompressedBuffer, FL2_endStream"])

prop("C03", "Every valid LZMA2 stream decodes to what the format defines",
 "For every valid LZMA2 stream, including ones this library's encoder never emits (any lc/lp/pb with lc+lp<=4, any chunk type and reset sequence, any literal, match and rep-match sequence, any distance the dictionary allows), one-shot single- and multithreaded decompression and streaming decompression produce exactly the data the format defines. The portable C decoder and the x86-64 assembly decoder give identical results.",
 ["inputs", "configurations"],
 "all sequences of LZMA symbols and LZMA2 chunks, all property values, both decoder implementations, all decoding APIs",
 "The tests only decode what this encoder produces, so decoder states, properties and chunk sequences the encoder avoids are never executed, and asm and C decoders are never compared.",
 ["lzma2_dec.c", "lzma2_dec.h", "lzma_dec_x86_64.S", "fl2_decompress.c"],
 [("chunk control state machine", "lzma2_dec.c LZMA2_nextChunkInfo, LZMA2_decodeChunkToDic"),
  ("symbol decoder", "lzma2_dec.c LZMA_decodeReal2, lzma_dec_x86_64.S"),
  ("circular dictionary", "lzma2_dec.c LZMA2_decodeToBuf")],
 observe=["FL2_decompress*", "FL2_decompressStream"])

prop("C04", "Malformed streams are rejected without memory errors or hangs",
 "For every byte string presented as compressed data to any decoding function, the call terminates, reads nothing outside the source range given, writes nothing outside the destination range given, and uses no uninitialised decoder state. It returns an error for every string that is not a valid stream (truncated, bad control byte, bad or missing properties, distance beyond the data, wrong chunk size), and never reports success with data that differ from what the format defines.",
 ["inputs", "histories"],
 "all byte strings, all split points in streaming mode",
 "The fuzzer corrupts a few random positions and only checks that a decode of noise does not crash in a non-instrumented build; reads past the input or of uninitialised state are invisible to it.",
 ["lzma2_dec.c", "fl2_decompress.c", "lzma_dec_x86_64.S"],
 [("chunk header validation", "lzma2_dec.c LZMA2_nextChunkInfo, LZMA2_parseInput"),
  ("bounds of the fast decoder: LZMA_REQUIRED_INPUT_MAX", "lzma2_dec.c LZMA_decodeToDic"),
  ("init required flags", "lzma2_dec.c need_init_*")],
 observe=["FL2_decompress*", "FL2_decompressStream", "FL2_findDecompressedSize"])

prop("C05", "Streaming decompression does not depend on how data is split",
 "For every stream and every way of dividing its input and the output space over successive calls, streaming decompression with any thread count or memory limit delivers the same bytes as one-shot decompression, returns 0 exactly when the stream is complete and all output has been delivered, and 1 before that. It consumes exactly the bytes of the stream: data following it stays unread in the input buffer, and positions only move forward within their buffers.",
 ["inputs", "histories", "configurations"],
 "all partitions of input and output, thread counts, memory limits, streams with and without a hash, with trailing data",
 "The tests use a handful of random segment sizes; the overlap buffers only misbehave at particular byte offsets relative to chunk ends, the end marker and the hash.",
 ["fl2_decompress.c", "lzma2_dec.c"],
 [("input overlap handling", "fl2_decompress.c FL2_decompressOverlappedInput"),
  ("multithreaded input chain and block split", "fl2_decompress.c FL2_loadInputMt, FL2_parseMt, FL2_decompressBlockMt"),
  ("fall-back to single thread on memory limit", "fl2_decompress.c FL2_decompressFailedMt")],
 observe=["FL2_decompressStream return values and positions"], hook="small MT input buffer (guarded)")

prop("C06", "Streaming compression reproduces exactly the bytes supplied",
 "For every legal sequence of streaming compression calls (pushing input, filling the dictionary buffer directly, copying output to small buffers or taking internal buffers, flushing, ending, re-initialising; single or dual buffer, any thread count), the concatenated output is one complete stream that decodes to exactly the concatenated input, whatever the division of input and output. Every documented call loop finishes: ending or flushing with non-empty output space reaches completion in finitely many calls.",
 ["histories", "configurations"],
 "all call sequences, split sizes, buffer modes and parameters",
 "The tests use one or two fixed call patterns; a lost or repeated byte needs a particular sequence, such as a flush followed by a partial fill at a reset or overlap boundary, or asking twice for the dictionary buffer.",
 ["fl2_compress.c", "dict_buffer.c"],
 [("dictionary buffer cursor, overlap shift and reset", "dict_buffer.c DICT_shift, DICT_put, DICT_get, DICT_getBlock"),
  ("output cursor over per-thread slices", "fl2_compress.c FL2_copyCStreamOutput, FL2_getNextCompressedBuffer"),
  ("end marker writing", "fl2_compress.c FL2_writeEnd")],
 observe=["FL2_compressStream", "FL2_getDictionaryBuffer", "FL2_updateDictionary", "FL2_flushStream", "FL2_endStream"], hook="small dictionaries (guarded)")

prop("C07", "A completed flush makes all supplied input decodable",
 "When FL2_flushStream returns 0, everything supplied to the stream so far can be decoded from the output delivered so far, for every earlier call sequence, buffer mode, thread count and output division. Flushing when nothing is pending returns 0, any number of times, and neither ends nor damages the stream.",
 ["histories", "configurations", "schedules"],
 "all call sequences containing flushes, single and dual buffering",
 "The tests flush rarely, never decode the prefix delivered at that point, and never flush a dual-buffered stream.",
 ["fl2_compress.c", "dict_buffer.c"],
 [("flush loop", "fl2_compress.c FL2_flushStream, FL2_flushStream_internal, FL2_loopCheck")],
 observe=["FL2_flushStream", "FL2_decompressStream on the prefix"])

prop("C08", "Output never exceeds its buffer and the compression bound suffices",
 "No function writes beyond the destination capacity or output buffer size it was given, whatever the input, parameters, and capacity. With FL2_compressBound(srcSize) bytes compression always succeeds; with less it either succeeds within the capacity or returns dstSize_tooSmall, and it succeeds whenever the capacity is at least the size it would otherwise return. Decompression into a buffer at least as large as the content succeeds, and into a smaller one returns an error.",
 ["inputs", "configurations"],
 "all inputs, parameters, thread counts and every destination capacity from zero up",
 "Tests try the exact bound and one or two short capacities on one input; over-long writes land in slack and are not noticed.",
 ["fl2_compress.c", "fl2_common.c", "lzma2_enc.c", "fl2_decompress.c", "lzma2_dec.c"],
 [("capacity accounting", "fl2_compress.c FL2_compressBuffer, FL2_compressCCtx"),
  ("bound formula", "fl2_common.c FL2_compressBound"),
  ("incompressible chunks stored raw", "lzma2_enc.c LZMA2_encode")],
 observe=["return values and guard pages around dst"])

prop("C09", "Multithreaded results do not depend on thread timing",
 "For every interleaving of the worker threads, one-shot multithreaded compression terminates without deadlock and yields the same bytes for the same input, parameters and thread count, and multithreaded decompression yields the same result and data as single-threaded decompression.",
 ["schedules", "inputs"],
 "all interleavings of caller and worker threads at synchronisation and shared-state accesses",
 "A test run sees one interleaving per run, nearly always the same one.",
 ["fl2_pool.c", "fl2_compress.c", "fl2_decompress.c", "radix_engine.h", "radix_mf.c", "atomic.h"],
 [("worker pool", "fl2_pool.c"), ("list distribution by atomic counter", "radix_engine.h RMF_getNextList_mt"), ("per-thread slices and blocks", "fl2_compress.c, fl2_decompress.c FL2_decompressCtxBlocksMt")],
 observe=["FL2_compressMt", "FL2_decompressMt"], hook="small per-thread minimum (guarded)")

prop("C10", "The thread pool runs every job once, and a finished wait means done",
 "For every interleaving, each job added to the thread pool is executed exactly once with its own index, an untimed wait returns only when all added jobs have finished, and a timed wait reports completion only when they have. Adding, waiting and freeing never deadlock or lose a wake-up, and freeing joins all threads.",
 ["schedules"],
 "all interleavings of pool users and pool threads, all timer expiries, all sequences of add/wait/free",
 "The pool has no test of its own, and its windows are a few instructions wide.",
 ["fl2_pool.c", "fl2_threading.h"],
 [("queue under one mutex with two condition variables", "fl2_pool.c FL2POOL_thread, FL2POOL_addRange, FL2POOL_waitAll"),
  ("shutdown", "fl2_pool.c FL2POOL_join")],
 state=[("numThreadsBusy, queueIndex, queueEnd", "jobs running and jobs not yet started", "fl2_pool.c FL2POOL_ctx_s")],
 observe=["FL2POOL_create/add/addRange/waitAll/free"])

prop("C11", "Asynchronous streaming is correct under every thread timing",
 "With dual buffering or a timeout set, for every interleaving of caller and worker threads and every expiry of the timer, streaming compression and decompression deliver exactly the same data as without them. A function reports the timeout code only while work is really unfinished, never reports completion or returns output before the work is done, and repeating the documented call or waiting finishes without deadlock.",
 ["schedules", "histories"],
 "all interleavings and timer expiries for streams driven by the documented loops",
 "Timeouts are only exercised with real clocks in one pattern; an early timer expiry before the worker starts never happens in a test.",
 ["fl2_compress.c", "fl2_decompress.c", "fl2_pool.c", "dict_buffer.c"],
 [("async compression job and result", "fl2_compress.c FL2_compressCurBlock_async, FL2_waitCStream"),
  ("async decompression job and result", "fl2_decompress.c FL2_decompressStream_async, FL2_waitDStream"),
  ("dual dictionary buffers", "dict_buffer.c DICT_shift")],
 observe=["FL2_setCStreamTimeout", "FL2_setDStreamTimeout", "FL2_waitCStream", "FL2_waitDStream"])

prop("C12", "Cancelling at any moment is safe and leaves a reusable object",
 "Cancelling or freeing a compression or decompression stream at any point of its operation, under every thread timing, returns without hanging or touching freed memory. After cancelling, initialising the same object again and running a new operation gives exactly the result a new object would deliver.",
 ["schedules", "histories"],
 "all cancellation and free points in a history and all thread interleavings",
 "There is no cancellation test; the interesting cancellation points are inside a running build or encode.",
 ["fl2_compress.c", "fl2_decompress.c", "radix_mf.c", "radix_engine.h", "lzma2_enc.c", "fl2_pool.c"],
 [("cancel flags and match table abort", "fl2_compress.c FL2_cancelCStream, radix_mf.c RMF_cancelBuild, RMF_resetIncompleteBuild"),
  ("decoder cancel", "fl2_decompress.c FL2_cancelDStream"),
  ("object teardown order", "fl2_compress.c FL2_freeCCtx, fl2_decompress.c FL2_freeDStream")],
 observe=["FL2_cancelCStream", "FL2_cancelDStream", "FL2_freeCStream", "FL2_freeDStream"])

prop("C13", "A reused context behaves like a new one",
 "Whatever sequence of operations a compression context, decompression context or stream object has been through (different levels, sizes and parameters, failed or abandoned operations, corrupt data), the next properly started operation with given settings succeeds or fails exactly as on a fresh object, and gives the same result: the same compressed bytes for the same input, settings and number of threads, the same decompressed data. Settings requested for that operation take effect.",
 ["histories", "configurations"],
 "all sequences of operations on one object",
 "The tests reuse contexts in one or two patterns and only after success.",
 ["fl2_compress.c", "fl2_decompress.c", "radix_mf.c", "dict_buffer.c", "lzma2_dec.c"],
 [("match table reuse", "radix_mf.c RMF_compatibleParameters, RMF_applyParameters"),
  ("frame begin/end", "fl2_compress.c FL2_beginFrame, FL2_endFrame"),
  ("decoder re-initialisation", "lzma2_dec.c LZMA2_initDecoder, fl2_decompress.c FL2_resetDStream")],
 observe=["FL2_compressCCtx", "FL2_initCStream", "FL2_decompressDCtx", "FL2_initDStream"])

prop("C14", "A wrong checksum is always reported",
 "When the stream carries a hash (property byte bit 7), decompression by any function and any thread count reports success only if the stored value equals the XXH32 of the bytes it delivered; any alteration of the stored hash or of stored data is reported as an error instead of success. The hash written by compression is the XXH32 of the whole input.",
 ["inputs", "histories"],
 "all single-byte alterations of hashed streams, all splits, all APIs",
 "Tests corrupt a few bytes; a hash comparison that is skipped for certain splits, thread counts or sizes goes unnoticed.",
 ["fl2_decompress.c", "fl2_compress.c", "dict_buffer.c", "xxhash.c"],
 [("hash check one-shot", "fl2_decompress.c FL2_decompressDCtx"), ("hash check streaming", "fl2_decompress.c FL2_decompressStream_blocking"), ("hash generation", "dict_buffer.c DICT_getBlock, fl2_compress.c FL2_writeEnd")],
 observe=["FL2_decompress*", "FL2_decompressStream"])

prop("C15", "Parameters accept exactly their documented ranges",
 "Setting a parameter returns the value and takes effect when the value lies in its documented range, and otherwise returns an error and changes nothing; reading it back returns the value in force. During an operation only lc, lp and pb can be changed; every other parameter is refused until the operation has ended. Setting a level sets exactly that level's table entry, and FL2_getLevelParameters and the level limits agree with it. A thread count from 1 to FL2_MAXTHREADS given when an object is created is the one reported; 0 stands for the number of processor cores (not hyperthreads), at least 1 and at most FL2_MAXTHREADS, however the system describes them. Every error code is recognised as an error with a name of its own, and no result of a successful call is.",
 ["configurations", "histories"],
 "all parameters, all values around every limit, all sequences of set, start, end, all thread counts and processor descriptions",
 "Tests set a few values; no test sweeps limits or interleaves settings with operations.",
 ["fl2_compress.c", "fast-lzma2.h"],
 [("range checks", "fl2_compress.c FL2_CCtx_setParameter"), ("lock", "fl2_compress.c lockParams"), ("thread counts", "fl2_threading.c FL2_checkNbThreads, util.c UTIL_countPhysicalCores"), ("error codes", "fl2_common.c, fl2_errors.h")],
 observe=["FL2_CCtx_setParameter", "FL2_CCtx_getParameter", "FL2_getLevelParameters"])

prop("C16", "Running out of memory or threads fails cleanly",
 "If any memory allocation or thread creation fails, also after an earlier failure or an unfinished operation, the affected function returns NULL or an error (or, for multithreaded decoding, falls back to a slower correct method); there is no crash, hang, leak or wrong data. The object can still be freed, and retrying the operation on it when memory is available succeeds.",
 ["fault_sequences", "configurations"],
 "failure of every allocation and thread creation in every operation",
 "No test injects an allocation failure.",
 ["fl2_compress.c", "fl2_decompress.c", "radix_mf.c", "lzma2_enc.c", "lzma2_dec.c", "dict_buffer.c", "fl2_pool.c"],
 [("NULL checks and unwinding at each allocation", "all files listed")],
 observe=["return values of all functions that create or start something"])

prop("C17", "The reported decompressed size is the size decoding produces",
 "For every valid stream, FL2_findDecompressedSize returns exactly the number of bytes decompression produces, also when other data follow the stream. For a stream that is truncated or contains an invalid control byte it returns FL2_CONTENTSIZE_ERROR, and it never reads beyond the size it was given.",
 ["inputs"],
 "all streams, all truncations, all chunk header bytes",
 "Tests call it on a few complete streams.",
 ["lzma2_dec.c", "fl2_decompress.c"],
 [("chunk walk", "lzma2_dec.c LZMA2_getUnpackSize, LZMA2_parseInput")],
 observe=["FL2_findDecompressedSize"])

prop("C18", "Memory estimates and limits bound what is allocated",
 "The memory a new context or stream allocates while compressing or decompressing never exceeds the corresponding FL2_estimate* result by more than a small fixed overhead per thread, for every level up to the one given, parameter set, thread count and buffer mode (for multithreaded streaming decompression: when the stream has the shape the estimate assumes, blocks of at most four dictionary sizes compressed to at most half); an invalid level gives an error. Multithreaded streaming decompression keeps its buffers within the limit set by FL2_setDStreamMemoryLimitMt and still decodes correctly under any limit.",
 ["configurations", "inputs"],
 "all levels, parameters, thread counts, memory limits",
 "No test measures allocation against the estimates.",
 ["fl2_compress.c", "radix_mf.c", "lzma2_enc.c", "fl2_decompress.c", "lzma2_dec.c"],
 [("estimate formulas", "fl2_compress.c FL2_memoryUsage_internal, radix_mf.c RMF_memoryUsage, lzma2_enc.c LZMA2_encMemoryUsage"), ("limit accounting", "fl2_decompress.c memTotal / memLimit")],
 observe=["FL2_estimate*", "allocator totals"])

prop("C19", "Progress and remaining-output reports are accurate",
 "In every call sequence, compression progress never decreases and never exceeds the input supplied, and the reported output size and FL2_remainingOutputSize account exactly for the compressed bytes produced and still to be read (the end marker and hash count as remaining but not as reported output). Decompression progress never decreases, never runs behind the bytes delivered, and equals the total when the stream is complete.",
 ["histories", "configurations"],
 "all call sequences and output divisions",
 "Progress is only printed by tests, never checked.",
 ["fl2_compress.c", "fl2_decompress.c", "radix_engine.h"],
 [("progress counters", "fl2_compress.c FL2_getCStreamProgress, FL2_initProgress; fl2_decompress.c FL2_getDStreamProgress"), ("remaining output", "fl2_compress.c FL2_remainingOutputSize")],
 observe=["FL2_getCStreamProgress", "FL2_remainingOutputSize", "FL2_getDStreamProgress"])

prop("C20", "Container mode: streams without a property byte work end to end",
 "With the property byte omitted, the output is exactly a raw LZMA2 stream (no property byte, no hash, one end marker) for every input including the empty one, and it decodes to the input when FL2_getCCtxDictProp's value, or the property that an unomitted stream would carry, is given to FL2_initDCtx or FL2_initDStream_withProp. An invalid property byte is refused with an error by every function that takes one, and the dictionary size reported for a property matches the LZMA2 format.",
 ["inputs", "configurations", "histories"],
 "all inputs, dictionary sizes, all 256 property bytes, one-shot and streaming",
 "The omit path is tested with one input; the empty stream and invalid property bytes are not.",
 ["fl2_compress.c", "fl2_decompress.c", "lzma2_enc.c", "lzma2_dec.c"],
 [("property omission", "fl2_compress.c omitProp"), ("external property", "fl2_decompress.c FL2_initDCtx, FL2_initDStream_withProp"), ("property codec", "lzma2_enc.c LZMA2_getDictSizeProp, lzma2_dec.c LZMA2_getDictSizeFromProp")],
 observe=["FL2_getCCtxDictProp", "FL2_initDCtx", "FL2_initDStream_withProp", "FL2_getDictSizeFromProp"])

prop("C21", "Separate objects do not affect each other",
 "Any number of threads may use the library at the same time, each with contexts or streams of its own, and any calls on different objects may alternate: every call returns what it would return if its object were the only one, in every interleaving. This includes creating and freeing objects, the functions that take no object (sizes, estimates, level tables, error names) and thread counts taken from the number of processors.",
 ["schedules", "configurations"],
 "all interleavings of two or three threads with an object each: compression with every strategy, one-shot and streaming, decompression of valid, corrupt and truncated streams, multithreaded objects, queries",
 "No test uses two objects at the same time; a shared static variable gives wrong results only when a switch falls between two accesses to it.",
 ["util.c", "fl2_threading.c", "fl2_compress.c", "fl2_decompress.c", "lzma2_enc.c", "lzma2_dec.c", "radix_mf.c", "range_enc.c", "fl2_pool.c"],
 [("the only static variables are the price table, which is constant after start, and the cached number of cores", "range_enc.c price_table, util.c numPhysicalCores"),
  ("all working memory belongs to an object", "FL2_CCtx_s, FL2_DStream_s, LZMA2_ECtx, LZMA2_DCtx")],
 observe=["all functions of fast-lzma2.h"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
