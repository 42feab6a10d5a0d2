#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties lives here as data)."""
import json, os
P = []
S = "stenos/internal/stenos.cpp"
BC = "stenos/internal/block_compress.h"
LZ = "stenos/internal/lz_compress.h"
SH = ["stenos/internal/shuffle.cpp", "stenos/internal/shuffle-generic.h", "stenos/internal/shuffle-sse2.cpp", "stenos/internal/shuffle-avx2.cpp"]
DE = "stenos/internal/delta.cpp"
ZW = "stenos/internal/zstd_wrapper.h"
TP = "stenos/internal/tiny_pool.h"
CV = "stenos/cvector.hpp"
H = "stenos/stenos.h"

def p(id, title, statement, over, q, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

p("C01", "Compression is lossless for every input, element size and level",
  "For every byte buffer that is a whole number of elements, every supported element size (1 to 65534 bytes), every level from 0 to 9 and every number of threads, compressing into a large enough buffer succeeds and decompressing the result with the same element size returns exactly the original size and bytes. This includes empty inputs, inputs shorter than a block, inputs that are exact multiples of the internal block sizes, and several blocks of different content.",
  ["inputs", "configurations"],
  "all contents and sizes (0, < 1 block, exact (super)block multiples, partial blocks, several superblocks), element sizes 1..65534, levels 0-9 and out-of-range levels, 1..16 threads, one-shot and context API",
  "the tests round-trip three families of content (equal, sorted, random) for nine small element sizes at levels 0-5 with random sizes; they never meet an exact superblock multiple, most block encodings, levels 6-9, or element sizes above 12",
  [S, BC, LZ, DE, ZW, *SH],
  [("superblock strategy selection and framing", S + ":compress_generic_superblock / decompress_generic_superblock"),
   ("256-element block encoder and decoder", BC), ("per-level superblock sizing", S + ":prepare")],
  ["stenos_compress", "stenos_compress_generic", "stenos_decompress", "stenos_decompress_generic"])

p("C02", "A destination of the advertised bound always suffices",
  "For every input, element size, level and thread count, compression into a destination of exactly the advertised worst-case size succeeds and the result is no larger than that size. Data that cannot be reduced therefore costs no more than the raw bytes plus a fixed header and four bytes per block, and the C and C++ forms of the bound agree.",
  ["inputs", "configurations"],
  "all inputs (in particular incompressible and nearly incompressible ones), element sizes including those that give the smallest superblock, levels, threads, destination of exactly the bound",
  "tests only use compressible or uniformly random data with a destination far from the limits; the worst case depends on content, element size and block count together",
  [H, S, BC], [("fallback to a stored block", S + ":compress_memcpy"), ("bound formula", H + ":compress_bound")],
  ["stenos_bound", "stenos::compress_bound", "stenos_compress_generic"])

p("C03", "Compression stays inside its buffers for every destination size",
  "Whatever the destination size, compression never writes outside the destination, never reads outside the source and never changes the source. It either reports an error or produces a frame that fits and decompresses to the original bytes.",
  ["inputs", "configurations"],
  "all inputs, element sizes, levels and threads, with every destination size from 0 to beyond the bound, buffers ending exactly at an unmapped page or a sanitizer red zone",
  "the tests shrink the destination for a handful of buffers and only look at sentinel bytes behind it; reads and internal scratch buffers are not observed",
  [S, BC, LZ], [("destination checks", S + ":compress_generic_superblock"), ("line encoders' bounds checks", BC), ("scratch buffer sizing", BC + ":compression_buffer_size")],
  ["stenos_compress", "stenos_compress_generic"])

p("C04", "Decompression of valid frames stays inside its buffers",
  "Decompressing a valid frame never reads beyond the end of the frame and never writes outside the destination, even when both buffers are exactly as large as needed. When the destination is smaller than the original data an error is returned, and when it is larger the bytes behind the original size are left alone.",
  ["inputs", "configurations"],
  "all frames the compressor can produce x destination sizes (0, exact-1, exact, larger), with source and destination placed against unmapped pages or red zones, single- and multi-threaded",
  "SIMD decoders over-read in a content dependent way; tests decode from vectors much larger than the frame, so an over-read is invisible",
  [S, BC, LZ, DE], [("fast path guarded by remaining bytes", BC + ":decode_line / decode_block_"), ("run-length tail handling", BC + ":decode_rle_flat")],
  ["stenos_decompress", "stenos_decompress_generic"])

p("C05", "Damaged or hostile frames are handled without memory errors",
  "For any byte string given as a frame, with any element size, destination size and thread count, decompression and frame inspection terminate, touch only the given buffers and either return an error or a size that does not exceed the destination. A reported success means that every reported byte was produced from the frame, and damaged input never crashes the process or makes the context unusable for later valid frames.",
  ["inputs"],
  "all byte strings: arbitrary bytes, structured frames with hostile headers, valid frames with bit flips, overwritten fields, spliced, shortened or duplicated parts",
  "there is no test with a malformed frame; the space of damaged frames is unbounded and the decoders have many bounds checks, each reachable only through specific bytes",
  [S, BC, LZ, DE, *SH], [("bounds checks in decoders", BC), ("back-reference checks", LZ + ":lz_decompress_generic"), ("header validation", S + ":stenos_decompress_generic")],
  ["stenos_decompress", "stenos_decompress_generic", "stenos_get_info"])

p("C06", "A truncated frame is always reported, never decoded to other data",
  "Decompressing a strict prefix of a frame holding a non-empty input always returns an error, whatever the cut position, level, element size or thread count. No prefix yields a success with missing, stale or altered bytes.",
  ["inputs", "crash_points"],
  "all frames x all cut positions (an interrupted write or transfer), especially cuts inside the header, at block boundaries and inside the last block",
  "no test decodes a truncated frame; the result depends on where the cut falls inside each encoding",
  [S, BC, LZ], [("source overflow checks", S + ":stenos_decompress_generic"), ("block-level source checks", BC)],
  ["stenos_decompress", "stenos_decompress_generic"])

p("C07", "Time-limited compression stays lossless under any timing",
  "With a time limit set, compression into a destination of the advertised bound succeeds, terminates and decompresses to the original bytes, however fast or slow the machine is and whenever the limit is hit, including limits that expire before or during the work. When the time is already used up, the remaining data is stored instead of lost.",
  ["inputs", "schedules", "configurations"],
  "all inputs x limits (1 ns to hours) x clock behaviours (frozen, steady, jumping past the limit at any reading, very slow), threads, element sizes; the harness owns the clock",
  "no test sets a time limit, and real clocks reach only a few of the adaptive decisions",
  [S, ZW, BC, "stenos/timer.hpp"], [("adaptive level selection", ZW + ":clevel_for_remaining"), ("abandoning block compression", BC), ("time-limited superblock sizing and its header", S + ":prepare")],
  ["stenos_set_max_nanoseconds", "stenos_compress_generic"], hook=None)

p("C08", "Results do not depend on the number of threads",
  "A frame produced with any number of threads decodes to the original bytes with any other number of threads, and success, decoded sizes and errors reported do not depend on the thread count or on scheduling. Multi-threaded work never races on shared state.",
  ["schedules", "inputs", "configurations"],
  "compress threads x decompress threads (1..64, above and below the number of blocks), block counts that do and do not divide by the thread count, perturbed schedules, race detector builds",
  "tests run a few thread counts on whatever schedule occurs, and always decode with the same thread count they encoded with",
  [S, TP], [("batching over worker threads and offsets of results", S + ":stenos_compress_generic / stenos_decompress_generic"), ("task queue", TP)],
  ["stenos_set_threads", "stenos_compress_generic", "stenos_decompress_generic"])

p("C09", "Independent contexts can be used concurrently",
  "Several application threads that compress and decompress at the same time, each with its own context or the context-free functions, and with any number of worker threads each, all obtain the same results as when run alone. Every call returns: no call waits forever because another thread is using the library.",
  ["schedules", "histories"],
  "2..8 application threads x random sequences of operations (levels, worker threads, sizes) with random pauses, sharing the library's process-wide worker pool",
  "the tests call the library from one thread only",
  [TP, S, ZW], [("process-wide pool, wait and wake-up", TP + ":tiny_pool"), ("lock-free task memory list", TP + ":TaskAllocation"), ("thread-local zstd contexts", ZW)],
  ["stenos_compress_generic", "stenos_decompress_generic"])

p("C10", "A reused context behaves like a fresh one",
  "Whatever sequence of compressions, decompressions, setting changes, failures and resets a context has been through, the next operation on it gives the same outcome as on a fresh context with the same settings, and a reset restores the defaults. Destroying a context releases all of its memory.",
  ["histories"],
  "random histories of 1..30 operations on one context: different element sizes, sizes, levels, threads, time limits, custom block sizes, too small destinations, damaged frames, resets",
  "tests use one context per configuration and never after an error",
  [S], [("buffer reuse keyed on block size", S + ":prepare / clear_buffers"), ("parameter reset", S + ":stenos_reset_context")],
  ["stenos_reset_context", "stenos_compress_generic", "stenos_decompress_generic", "stenos_memory_footprint"])

p("C11", "Frame inspection reports the truth about a frame",
  "For every frame, inspection with the right element size returns the exact original size, a block size that matches how the frame was made and a header length of at most 12 bytes, and it gives the same answer from any prefix that covers the header. Shorter prefixes and invalid headers give an error.",
  ["inputs", "configurations"],
  "frames from all levels, element sizes, sizes, thread counts, time limits and custom block sizes, and from the compressed vector; every prefix length up to 16; all invalid first bytes",
  "no test calls the inspection function on anything but one cvector frame",
  [S, H], [("header parsing", S + ":stenos_get_info"), ("header writing", S + ":stenos_compress_generic")],
  ["stenos_get_info"])

p("C12", "Frames are portable between instruction sets",
  "A frame produced by a build or machine with one set of CPU features decodes to the original bytes on every other supported set of CPU features. This holds for every level, element size and content.",
  ["inputs", "configurations"],
  "all ordered pairs of builds (baseline x86-64, SSE4.1, AVX2, native) x generated inputs",
  "tests run one build on one machine",
  [BC, DE, *SH, S], [("scalar, SSE and AVX2 versions of each kernel", BC), ("run-time dispatch", "stenos/internal/shuffle.cpp")],
  ["stenos_compress", "stenos_decompress"])

p("C13", "Redundant data is really reduced and level 0 stores verbatim",
  "At level 1 and above, data with evident redundancy (constant, slowly varying, narrow range or repeated elements) compresses to a fraction of its size for every element size, also under a time limit far longer than needed, and level 0 stores the bytes unchanged behind a small header. Output for compressible data never silently degrades to plain storage.",
  ["inputs", "configurations"],
  "families of redundant inputs x parameters x element sizes x levels x threads, each with a conservative size limit derived from its redundancy",
  "tests check only that data comes back, not that it became smaller",
  [S, BC, ZW], [("strategy choice", S + ":compress_generic_superblock"), ("block encoders", BC), ("level mapping", ZW + ":zstd_from_reduced_level")],
  ["stenos_compress", "stenos_compress_generic"])

p("C14", "Running out of memory is reported, not fatal",
  "If any memory request made by the library during context creation, compression or decompression fails, the call returns an error or still succeeds with a correct result; it never crashes, hangs or reports success with wrong data. The context stays usable once memory is available again, and nothing leaks.",
  ["fault_sequences", "inputs"],
  "every allocation index (and sets of them) failing in generated single- and multi-threaded operations",
  "tests never inject allocation failures",
  [S, TP, ZW], [("allocation checks", S + ":CBuffer::make / ensure_has_buffers"), ("task allocation", TP + ":TaskAllocation")],
  ["stenos_make_context", "stenos_compress_generic", "stenos_decompress_generic"])

p("C15", "The timer reports exactly the elapsed monotonic time",
  "The elapsed time reported after a start mark equals the difference of the system's monotonic clock between the two calls in nanoseconds, for every pair of clock readings including second boundaries. It never goes backwards while the clock does not.",
  ["inputs"],
  "all pairs and sequences of clock readings (seconds and nanoseconds parts independently smaller or larger), supplied by a replaced clock",
  "a real clock rarely produces the interesting combinations and its readings are not known to a test",
  ["stenos/timer.hpp", S], [("carry handling", "stenos/timer.hpp:diff")], ["stenos_tick", "stenos_tock", "stenos::timer"])

p("C16", "Stored frames stay readable across versions of the library",
  "Frames written by the reference version of the library decode to the original bytes with the current one, and frames written now decode with the reference version, for every level, element size, block size and content. The frame layout is the contract between programs that store compressed data and programs that read it later.",
  ["inputs", "configurations"],
  "all contents, element sizes, levels, block sizes, both directions, against a reference copy of the library",
  "the tests decode only what the same build has just encoded, so a matching change of encoder and decoder passes unnoticed",
  [S, BC, LZ, DE, *SH], [("frame header and block headers", S), ("block encodings", BC)],
  ["stenos_compress_generic", "stenos_decompress_generic"])

p("C17", "What a call produces depends on its arguments alone",
  "Compressing the same bytes with the same parameters into a destination of the same size gives the same result and the same frame every time: whatever the addresses and the alignment of the buffers, whatever the destination, fresh memory or the stack held before, in a new thread or an old one, on a fresh context or a used one. The same holds for decoding a frame, valid or damaged. (No time limit set.)",
  ["inputs", "configurations", "histories"],
  "all contents, element sizes, levels, block sizes, thread counts and destination sizes, each call repeated at other addresses, with other garbage in fresh memory and on the stack, on another thread and with another history",
  "the tests compress every input once, in one place of memory",
  [S, BC, LZ, ZW, DE, *SH], [("LZ hash table", BC), ("thread-local zstd context and block buffer", ZW), ("unaligned loads and tails of the shuffles", SH[2])],
  ["stenos_compress", "stenos_compress_generic", "stenos_decompress", "stenos_decompress_generic"])

p("C18", "The library works at every point of the life of a program and of a thread",
  "Compression, decompression (with one or several threads), timers and compressed vectors give the same correct results when used by constructors and destructors of static objects, by functions registered for the end of the program and by destructors of thread-local objects as they do inside main and in ordinary threads, whatever the order in which the objects of program and library are linked; and the program ends normally.",
  ["histories", "schedules"],
  "programs made of operations placed in static constructors (before or after those of the library), main, threads, destructors of thread-local objects, atexit functions and static destructors",
  "all tests run inside main and end with no work left",
  [TP, ZW, BC, SH[0], S, CV], [("thread pool object", S + ":get_pool"), ("thread-local zstd contexts and block buffer", ZW), ("choice of the shuffle functions", SH[0])],
  ["exit status and results of whole programs"])

p("C19", "The reported memory footprint of a context is what it holds",
  "After any history of compressions, decompressions, parameter changes, resets and failures on a context, the memory footprint it reports is the number of bytes it holds and gives back when destroyed, up to a small constant for each block of memory.",
  ["histories", "fault_sequences"],
  "random histories on one context with all settings, several threads, failed calls and refused memory requests, the bytes given back being counted in the allocator",
  "the tests never look at the footprint of a context",
  [S], [("footprint computation", S + ":stenos_memory_footprint"), ("release of buffers when the superblock size changes", S + ":clear_buffers")], ["stenos_memory_footprint", "stenos_destroy_context"])

p("C20", "Bit, byte order and aligned memory helpers match their definition",
  "The portable helpers of the installed header bits.hpp do exactly what they are documented to do for every argument: population counts, lowest and highest set bit, 64 by 64 bits multiplication, byte swapping, unaligned little and big endian reads and writes that touch nothing but their bytes, and aligned memory that has the requested alignment and size and can be given back. The compression format and all block coders rest on them.",
  ["inputs", "configurations"],
  "all values of 8 to 64 bits (random, single bits, runs of bits, corner values), all addresses, alignments from 1 byte to 8 KiB, builds with and without special instructions",
  "no test calls these helpers; the codec uses a part of them with a part of their arguments",
  ["stenos/bits.hpp"], [("bit and byte order helpers", "stenos/bits.hpp"), ("aligned memory", "stenos/bits.hpp:aligned_malloc")], ["stenos/bits.hpp functions"])

p("C21", "Arguments outside their range are refused or clamped and leave no trace",
  "Every function given an unsupported element size (0, or 65535 and above, up to the largest number) returns the error for it and writes nothing; a block size that is impossible, by itself or for the element size, is refused; levels and thread counts outside their range act like the nearest valid value. After refused calls the context gives exactly what one that only got the valid values gives. Every error code is recognised as an error and no size is.",
  ["inputs", "histories", "configurations"],
  "histories of calls with valid and invalid levels, thread counts, block sizes and element sizes, followed by a compression compared with a context that only got the valid values",
  "tests only pass valid arguments",
  [S, "stenos/stenos.h"], [("element size and block size checks", S + ":stenos_context_s::prepare"), ("settings", S + ":stenos_set_level / stenos_set_threads / stenos_set_block_size"), ("error codes", BC + ":has_error")],
  ["stenos_set_level", "stenos_set_threads", "stenos_set_block_size", "stenos_has_error", "stenos_get_info"])

p("V01", "A compressed vector behaves like a standard vector",
  "For every sequence of operations, a compressed vector holds the same elements in the same order and reports the same size, return positions, comparisons and bounds errors as a standard vector driven by the same operations. Compression level, block size, shrinking and the pattern of accesses never change what is observed.",
  ["histories", "configurations"],
  "random histories of construction, insertion, erasure, resizing, assignment, element access, iteration and tuning calls over several element types, block sizes and levels, crossing block boundaries",
  "the tests follow a few fixed histories over two element types; block boundary positions, eviction of modified blocks and tuning calls in between multiply beyond that",
  [CV], [("bucketed storage with decompressed contexts", CV + ":CompressedVectorInternal"), ("dirty tracking and eviction", CV)],
  ["stenos::cvector"])

p("V02", "Iterators support the standard algorithms",
  "Random access iterators over a compressed vector obey the iterator laws, and sorting, partitioning, reversing, rotating, searching, removing duplicates and similar standard algorithms give the same result as on a standard vector. Reverse and const iterators see the same elements.",
  ["inputs", "histories"],
  "generated contents x algorithms x sub-ranges x block sizes, iterator arithmetic and comparisons at arbitrary positions",
  "tests run a few algorithms once on one content",
  [CV], [("proxy references", CV + ":RefWrapper / iterators")], ["stenos::cvector::begin/end/rbegin/rend", "std algorithms"])

p("V03", "Copies are independent and moves transfer everything",
  "Copying, assigning, moving and swapping compressed vectors leaves the target equal to the source's previous content, later changes to one never show in the other, and moved-from or default vectors stay usable. This holds for every state of the involved vectors: empty, compressed, or with pending modifications.",
  ["histories"],
  "random histories over a small pool of vectors with copy/move construction and assignment, self-assignment, swap, and modifications in between",
  "one test copies a few vectors in one state",
  [CV], [("copy and move operations", CV)], ["stenos::cvector"])

p("V04", "Serialized vectors come back intact and decode as plain frames",
  "Serializing a compressed vector into memory or a stream and reading it back gives an equal vector for every content and history, and the serialized bytes also decompress with the general decompression function to the same elements. In the other direction, a frame of whole elements made by the general compression function with the vector's block size deserializes to those elements. Serializing does not change the vector, and a too small output is an error.",
  ["histories", "inputs"],
  "vectors produced by random histories (full and partial last block, modified, compressed-only, shrunk) x element types x block sizes x levels, memory and stream forms, targets in any prior state",
  "one test serializes one vector in one state",
  [CV, S], [("serialize / deserialize", CV), ("custom block size frame", S + ":stenos_private_create_compression_header")],
  ["stenos::cvector::serialize", "stenos::cvector::deserialize", "stenos_decompress"])

p("V05", "Reading damaged serialized data is rejected safely",
  "Deserializing any byte string into a compressed vector terminates without memory errors and either succeeds or reports an error, and afterwards the vector can still be cleared, refilled and destroyed. Truncated serialized data is never accepted as complete.",
  ["inputs", "crash_points"],
  "serialized vectors cut at any position, with flipped bits or overwritten header and block fields, and arbitrary bytes; memory and stream forms; previously filled or empty target",
  "no test deserializes anything damaged",
  [CV], [("frame walking in deserialize", CV)], ["stenos::cvector::deserialize"])

p("V06", "Element lifetimes and memory are accounted for exactly",
  "Throughout any history, every element constructed inside a compressed vector is destroyed exactly once and every block of memory obtained through its allocator is returned with the same size; elements always live at addresses aligned for their type. When the vector is cleared or destroyed, no element and no memory is left behind.",
  ["histories"],
  "random histories with elements that track their own construction and destruction and an allocator that tracks every block, over block sizes and context limits",
  "tests count nothing except for one type at the end of a run",
  [CV], [("construction and destruction of raw buckets", CV), ("allocator use", CV)], ["stenos::cvector", "allocator"])

p("V07", "Writes through element references are never lost",
  "A value written through an element reference, iterator dereference, or front, back and index access is what every later read returns, even after the block was recompressed and other blocks were visited, and while a reference is held its element stays valid and current, also when values are exchanged with the elements of another vector. Reads never alter stored values.",
  ["histories"],
  "random interleavings of reads and writes through references held across accesses to many other blocks, with few decompressed blocks allowed, bulk visits and forced recompression",
  "tests write through references but with enough decompressed blocks that modified blocks are rarely evicted",
  [CV], [("reference counting of decompressed blocks", CV), ("dirty marking", CV)], ["stenos::cvector::operator[]", "iterators"])

p("V08", "Bulk visiting covers exactly the requested range, in order",
  "The forward, backward and const visiting functions call the given function exactly once for each element of the requested range in the documented order, stop early when asked and report how many elements were visited. Changes made by the function persist, including those made before an early stop or an exception.",
  ["inputs", "histories"],
  "all sub-ranges (empty, inside one block, across blocks, whole) x early stop positions x exceptions x mutating or not x block sizes and context limits, followed by recompression",
  "one test visits whole ranges without stopping early",
  [CV], [("for_each family", CV)], ["stenos::cvector::for_each", "const_for_each", "for_each_backward"])

p("V09", "Concurrent readers and disjoint writers are safe",
  "Any number of threads may read the same compressed vector at the same time, and threads may modify different elements concurrently through references or bulk visits; each sees correct values and no update is lost. No such access deadlocks or races, however many threads, blocks and references are involved.",
  ["schedules", "histories"],
  "2..8 threads x random access patterns (same block, different blocks, several references per thread), with schedule perturbation and race detection",
  "one test visits in parallel on one schedule",
  [CV], [("shared/exclusive spin locks on blocks", CV), ("context management lock", CV)], ["stenos::cvector const access", "for_each from several threads"])

p("V10", "Failures leave a compressed vector valid",
  "If constructing or copying an element throws, or memory runs out, during any modifying operation, the exception reaches the caller, and the vector remains a valid sequence whose size matches its elements, with nothing leaked or destroyed twice. Appending gives the strong guarantee: after a failed append the vector is unchanged.",
  ["fault_sequences", "histories"],
  "every allocation or element operation index failing inside generated histories",
  "tests never make an element operation or allocation fail",
  [CV], [("rollback paths", CV)], ["stenos::cvector modifiers"])

p("V11", "Memory use reflects compression",
  "Compressible content kept in a compressed vector really occupies a fraction of its plain size once shrunk, the reported footprint follows the memory actually held, and only a few blocks stay decompressed when no reference is held. Shrinking never changes the content.",
  ["histories", "configurations"],
  "redundant contents x element types x block sizes x histories, compared with the bytes actually outstanding in the allocator",
  "tests print a footprint but assert nothing about it",
  [CV], [("reuse of decompression contexts", CV + ":find_free_context"), ("shrink_to_fit", CV), ("footprint accounting", CV)], ["stenos::cvector::memory_footprint", "shrink_to_fit", "current_compression_ratio"])

p("V12", "The stream iterator delivers exactly the objects of the stream",
  "Iterating over an input stream with stenos::istreambuf_iterator yields each complete object stored in the stream once, in order, for any object size and any way the stream hands out its bytes, whichever of comparing, dereferencing, incrementing and copying comes first and however often. Iteration ends at the end of the stream, also when it ends inside of an object or the source fails, and the iterator can be used with algorithms and to fill containers.",
  ["inputs", "histories"],
  "streams of any length cut anywhere x object sizes x sizes of the pieces the source gives x failing sources x orders of iterator operations x algorithms",
  "no test uses it",
  [CV], [("lazy reading by operator*, ++ and ==", CV + ":istreambuf_iterator")], ["stenos::istreambuf_iterator", "stenos::cvector(first, last)"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
