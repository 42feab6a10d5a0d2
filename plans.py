"""What each check runs: build variants, generators, budgets.

A plan is {"variant", "harness": sources, "prop": generator, "quick": (cases, seconds cap, processes), "thorough": (...)}.
"""
BASE = ["-g1", "-DNDEBUG", "-fPIC", "-pthread"]
NAT = ["-march=native"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]

VARIANTS = {
    # the project's own flags
    "rel": {"flags": BASE + NAT + ["-O2"], "link": ["-pthread"]},
    "asan": {"flags": BASE + NAT + ASAN + ["-O1", "-D_GLIBCXX_ASSERTIONS"], "link": ["-pthread", "-fsanitize=address"]},
    # portable decoder and shuffles (no SSE4.1 code at all)
    "x64": {"flags": BASE + ["-O2"], "link": ["-pthread"]},
    # block coder without AVX2
    "sse41": {"flags": BASE + ["-O2", "-msse4.1"], "link": ["-pthread"]},
    "x64asan": {"flags": BASE + ASAN + ["-O1", "-D_GLIBCXX_ASSERTIONS"], "link": ["-pthread", "-fsanitize=address"]},
    # static objects of the program are initialized before those of the library (the usual order of a static library)
    "early": {"flags": BASE + NAT + ["-O2"], "link": ["-pthread"], "harness_first": True},
    "asanearly": {"flags": BASE + NAT + ASAN + ["-O1", "-D_GLIBCXX_ASSERTIONS"], "link": ["-pthread", "-fsanitize=address"], "harness_first": True},
    # allocation requests of the library go through wrappers
    "asanw": {"flags": BASE + NAT + ASAN + ["-O1", "-D_GLIBCXX_ASSERTIONS"], "link": ["-pthread", "-fsanitize=address"] + ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign")]},
    # several builds of the library in one process
    "so_x64": {"flags": BASE + ["-O2", "-fno-gnu-unique"], "link": ["-pthread"]},
    "so_sse41": {"flags": BASE + ["-O2", "-fno-gnu-unique", "-msse4.1"], "link": ["-pthread"]},
    "so_avx2": {"flags": BASE + ["-O2", "-fno-gnu-unique", "-mavx2"], "link": ["-pthread"]},
    "so_native": {"flags": BASE + NAT + ["-O2", "-fno-gnu-unique"], "link": ["-pthread"]},
    # compiled for this machine, on a processor that reports less: no BMI2; no AVX2; no SSE4.1; nothing
    **{"so_run%d" % m: {"flags": BASE + NAT + ["-O2", "-fno-gnu-unique"], "link": ["-pthread", "-Wl,--wrap=_ZN6stenos6detail19compute_cpu_featureEv"], "extra": ("cpumask.cpp:-DMASK=%d" % m,), "optional": True}
       for m in (1, 2, 3, 4)},
    "so_ref": {"flags": BASE + NAT + ["-O2", "-fno-gnu-unique"], "link": ["-pthread"], "reference": True},
    "host": {"flags": BASE + ["-O2"], "link": ["-pthread"], "nolib": True},
    "tsan": {"flags": BASE + NAT + ["-O1", "-fsanitize=thread"], "link": ["-pthread", "-fsanitize=thread"]},
}

CODEC = ("codec.cpp",)
TIMED = ("timed.cpp",)
MT = ("mt.cpp",)
STATE = ("state.cpp",)
CROSS = ("cross.cpp",)
ISAS = [("LIB_X64", "so_x64"), ("LIB_SSE41", "so_sse41"), ("LIB_AVX2", "so_avx2"), ("LIB_NATIVE", "so_native")]
RUNS = [("LIB_RUN%d" % m, "so_run%d" % m) for m in (1, 2, 3, 4)]
MALF = ("malformed.cpp",)


def cvh(prop, src, groups=(0, 1, 2, 3), defs=()):
    """Compressed vector harness: one object per group of element types."""
    tail = "".join(":" + d for d in defs)
    return ("cv_main.cpp:-DVPROP=" + prop + tail,) + tuple("%s:-DVT=%d%s" % (src, g, tail) for g in groups)


def cvplan(prop, src, rel, asan, groups=(0, 1, 2, 3), nrel=4, nasan=4, cap=18, f=40, san="asan", defs=(), sgroups=None):
    h = cvh(prop, src, groups, defs)
    hs = cvh(prop, src, sgroups or groups, defs)
    return [
        {"variant": "rel", "harness": h, "prop": prop, "quick": (rel, cap, nrel), "thorough": (rel * f, 900, nrel)},
        {"variant": san, "harness": hs, "prop": prop, "quick": (asan, cap, nasan), "thorough": (asan * f, 900, nasan)},
    ]



def two(harness, prop, rel, asan, trel, tasan, nrel=3, nasan=3, cap=40, tcap=900, nx64=2, third="x64"):
    x64, tx64 = rel * nx64 // 5, trel * nx64 // 5
    rel, trel = rel * nrel // 5, trel * nrel // 5
    return [
        {"variant": "rel", "harness": harness, "prop": prop, "quick": (rel, cap, nrel), "thorough": (trel, tcap, nrel)},
        {"variant": "asan", "harness": harness, "prop": prop, "quick": (asan, cap, nasan), "thorough": (tasan, tcap, nasan)},
        {"variant": third, "harness": harness, "prop": prop, "quick": (x64, cap, nx64), "thorough": (tx64, tcap, nx64)},
    ]


def mt(prop, rel, tsan, asan, f=30):
    return [
        {"variant": "rel", "harness": MT, "prop": prop, "quick": (rel, 25, 2), "thorough": (rel * f, 900, 2)},
        {"variant": "tsan", "harness": MT, "prop": prop, "quick": (tsan, 25, 3), "thorough": (tsan * f, 900, 3)},
        {"variant": "asan", "harness": MT, "prop": prop, "quick": (asan, 25, 1), "thorough": (asan * f, 900, 1)},
        # pools of other sizes: number of cores unknown, one core
        {"variant": "rel", "harness": ("mt.cpp:-DHWC=0",), "prop": prop, "quick": (rel // 10, 10, 1), "thorough": (rel * f // 10, 200, 1)},
        {"variant": "rel", "harness": ("mt.cpp:-DHWC=1",), "prop": prop, "quick": (rel // 10, 10, 1), "thorough": (rel * f // 10, 200, 1)},
    ]


def state(prop, rel, asan, leak, aleak, f=25):
    return [
        {"variant": "rel", "harness": STATE, "prop": prop, "quick": (rel, 22, 3), "thorough": (rel * f, 900, 3)},
        {"variant": "asanw", "harness": STATE, "prop": prop, "quick": (asan, 22, 3), "thorough": (asan * f, 900, 3)},
        {"variant": "rel", "harness": STATE, "prop": prop + "leak", "quick": (leak, 22, 1), "thorough": (leak * f, 900, 1)},
        {"variant": "asanw", "harness": STATE, "prop": prop + "leak", "quick": (aleak, 22, 1), "thorough": (aleak * f, 900, 1)},
    ]


def cvmt(rel, tsan, asan, f=40):
    """Threads on one vector; functions of the library are places where the schedule is disturbed."""
    h = ("cv_main.cpp:-DVPROP=V09:-DCV_PERTURB=1",) + tuple("cv09.cpp:-DVT=%d:-finstrument-functions:-finstrument-functions-exclude-file-list=/usr/" % g for g in (0, 1, 3))
    return [
        {"variant": "rel", "harness": h, "prop": "V09", "quick": (rel, 18, 2), "thorough": (rel * f, 900, 2)},
        {"variant": "tsan", "harness": h, "prop": "V09", "quick": (tsan, 18, 3), "thorough": (tsan * f, 900, 3)},
        {"variant": "asan", "harness": h, "prop": "V09", "quick": (asan, 18, 2), "thorough": (asan * f, 900, 2)},
    ]


PLANS = {
    "C01": two(CODEC, "C01", 17000, 7500, 400000, 180000),
    "C02": two(CODEC, "C02", 40000, 10000, 900000, 250000),
    "C03": two(CODEC, "C03", 13000, 5000, 300000, 120000),
    "C04": two(CODEC, "C04", 28000, 9000, 700000, 220000),
    "C05": [
        {"variant": "rel", "harness": MALF, "prop": "C05", "quick": (40000, 32, 2), "thorough": (2000000, 900, 2)},
        {"variant": "asan", "harness": MALF, "prop": "C05", "quick": (28000, 32, 3), "thorough": (2000000, 900, 3)},
        {"variant": "x64asan", "harness": MALF, "prop": "C05", "quick": (28000, 32, 3), "thorough": (2000000, 900, 3)},
    ],
    "C06": two(CODEC, "C06", 22000, 8000, 500000, 180000),
    "C07": two(TIMED, "C07", 30000, 9000, 700000, 250000, nx64=2, cap=25),
    "C08": mt("C08", 5000, 1800, 800),
    "C09": mt("C09", 3000, 1200, 600),
    "C10": state("C10", 30000, 9000, 9000, 3000),
    "C11": two(CODEC, "C11", 18000, 8000, 400000, 180000),
    "C12": [{"variant": "host", "harness": CROSS, "prop": "C12", "shared": ISAS + RUNS, "quick": (50000, 22, 8), "thorough": (2000000, 900, 8)}],
    "C16": [{"variant": "host", "harness": CROSS, "prop": "C16", "shared": ISAS + [("LIB_REF", "so_ref")], "quick": (50000, 22, 8), "thorough": (2500000, 900, 8)}],
    "C13": two(CODEC, "C13", 48000, 14000, 1000000, 300000, third="sse41"),
    "C14": state("C14", 30000, 12000, 6000, 3000),
    "V01": cvplan("V01", "cv01.cpp", 20000, 8000),
    "V02": cvplan("V02", "cv02.cpp", 16000, 6000, sgroups=(0, 2)),
    "V03": cvplan("V03", "cv03.cpp", 16000, 6000),
    "V04": cvplan("V04", "cv04.cpp", 16000, 6000, groups=(0, 1, 3)),
    "V05": cvplan("V05", "cv04.cpp", 40000, 20000, groups=(0, 1, 3), nrel=3, nasan=5, defs=("-DCV05=1",)),
    "V06": cvplan("V06", "cv06.cpp", 30000, 12000, groups=(0, 1, 2, 3, 4), san="asanw", defs=("-DCV_ALLOC=1",)),
    "V07": cvplan("V07", "cv07.cpp", 16000, 6000),
    "V08": cvplan("V08", "cv08.cpp", 50000, 18000),
    "V10": cvplan("V10", "cv10.cpp", 24000, 10000, san="asanw", defs=("-DCV_ALLOC=1",)),
    "V09": cvmt(6000, 2500, 2500),
    "V11": cvplan("V11", "cv11.cpp", 24000, 9000),
    "C15": [
        {"variant": "rel", "harness": TIMED, "prop": "C15", "quick": (3000000, 12, 5), "thorough": (60000000, 300, 5)},
        {"variant": "asan", "harness": TIMED, "prop": "C15", "quick": (1000000, 12, 3), "thorough": (20000000, 300, 3)},
    ],
}

# Inputs of several gigabytes
PLANS["C01"].append({"variant": "rel", "harness": ("huge.cpp",), "prop": "C01h", "quick": (2, 30, 1), "thorough": (100, 900, 1)})

# the portable bit packing of the block encoder
for p, n in (("C01", 3000), ("C03", 2000)):
    PLANS[p].append({"variant": "sse41", "harness": CODEC, "prop": p, "quick": (n, 25, 1), "thorough": (n * 25, 900, 1)})

PLANS["C07"].append({"variant": "rel", "harness": ("huge.cpp",), "prop": "C07h", "quick": (14, 20, 1), "thorough": (300, 900, 1)})

PLANS["C17"] = [
    {"variant": v, "harness": ("pure.cpp",), "prop": "C17", "quick": (n, 25, p), "thorough": (n * 40, 900, p)}
    for v, n, p in (("rel", 9000, 4), ("x64", 5000, 2), ("asan", 2500, 2))
]
PLANS["C19"] = [
    {"variant": v, "harness": STATE, "prop": "C19", "quick": (n, 18, 4), "thorough": (n * 60, 600, 4)}
    for v, n in (("rel", 40000), ("asanw", 16000))
]
PLANS["C20"] = [
    {"variant": v, "harness": ("bits.cpp",), "prop": "C20", "quick": (n, 12, p), "thorough": (n * 40, 200, p)}
    for v, n, p in (("rel", 600000, 3), ("x64", 600000, 3), ("asan", 100000, 2))
]
PLANS["C21"] = [
    {"variant": v, "harness": ("misuse.cpp",), "prop": "C21", "quick": (n, 15, p), "thorough": (n * 40, 300, p)}
    for v, n, p in (("rel", 16000, 3), ("x64", 10000, 2), ("asan", 6000, 3))
]
PLANS["C18"] = [
    {"variant": "rel", "harness": ("life.cpp",), "prop": "C18", "quick": (2500, 22, 2), "thorough": (100000, 900, 2)},
    {"variant": "asan", "harness": ("life.cpp",), "prop": "C18", "quick": (700, 22, 2), "thorough": (30000, 900, 2)},
    {"variant": "early", "harness": ("life.cpp",), "prop": "C18", "quick": (2500, 22, 2), "thorough": (100000, 900, 2)},
    {"variant": "asanearly", "harness": ("life.cpp",), "prop": "C18", "quick": (700, 22, 2), "thorough": (30000, 900, 2)},
]
PLANS["V12"] = [
    {"variant": v, "harness": ("cv12.cpp",), "prop": "V12", "quick": (n, 12, p), "thorough": (n * 40, 300, p)}
    for v, n, p in (("rel", 120000, 4), ("asan", 60000, 4))
]
# Blocks of several megabytes
PLANS["V01"].append({"variant": "rel", "harness": cvh("V01c", "cv01c.cpp", (0,)), "prop": "V01c", "quick": (60, 8, 1), "thorough": (2000, 200, 1)})

# Small generators beside the main ones: each reaches one known finding, which ends its shard.
PLANS["V07"].append({"variant": "rel", "harness": cvh("V07b", "cv07b.cpp", (2,)), "prop": "V07b", "quick": (200, 5, 1), "thorough": (2000, 20, 1)})
PLANS["V10"].append({"variant": "rel", "harness": cvh("V10b", "cv10b.cpp", (2,), ("-DCV_ALLOC=1",)), "prop": "V10b", "quick": (200, 5, 1), "thorough": (2000, 20, 1)})

CONCURRENT = {"C08", "C09", "V09"}

_CODEC_CASE = ("a case draws element size (1..65534, weighted to 1..512), content family (constant, byte planes, random, typed series, LZ, text, sparse, mixed, bits, near random), "
               "number of elements (sub-block, partial block, exact multiples, many superblocks), level 0..9, threads, block size and buffer alignment; ")
RULES = {
    "C01": _CODEC_CASE + "non-trivial: at least 128 input bytes (below that the encoder only calls zstd or memcpy); distinct by the hash of all choices",
    "C02": _CODEC_CASE + "aimed at incompressible data around superblock multiples; non-trivial: at least 128 bytes and the frame is larger than 80% of the input",
    "C03": _CODEC_CASE + "then destination sizes around the needed size, block ends, the raw size and the bound, with guard pages (plain build) or ASan red zones; non-trivial: both a success and an overflow report were seen near the needed size",
    "C04": _CODEC_CASE + "frames are decompressed into exact, larger and smaller destinations placed against guard pages / red zones; non-trivial: at least 128 bytes of input",
    "C05": "a case is a valid frame with 1-4 mutations (bit flips, field overwrites, hostile lengths, cut, moved, resized or re-encoded inner payloads), a frame synthesised around random block payloads, or random bytes; decoded twice into differently prefilled guarded memory, then the context must decode a known frame; non-trivial: more than 12 input bytes",
    "C06": _CODEC_CASE + "then cut at header bytes, block boundaries, inside and at the end of blocks; non-trivial: the frame carries at least one coded block",
    "C07": _CODEC_CASE + "with a time limit (1 ns to hours) while every clock reading of the library is served by a scripted monotonic clock (frozen, steady, jump at the n-th reading, random, stall, real); non-trivial: at least 128 bytes",
    "C08": "a case draws data of 0..70 superblocks, two thread counts for compression and two for decompression (1..64, huge and non-positive ones), too small destinations, cut and damaged frames; mutex and condition variable calls yield, sleep or spin at random; plain, ThreadSanitizer and AddressSanitizer builds, worker pools for 0, 1 and the real number of cores; non-trivial: several superblocks and at least one call with more than one thread",
    "C09": "a case is 2..8 application threads, each with 1..6 operations (own or temporary context, context-free calls, 1..8 worker threads, too small destinations, cut frames), run alone and then together 1..3 times under schedule perturbation; plain, ThreadSanitizer and AddressSanitizer builds, deadlock watch; non-trivial: at least two operations use the thread pool",
    "C10": "a case is a history of 1..14 operations on one context (compress, decompress, level, threads, block size, time limit, reset, footprint; with too small destinations, invalid element sizes, cut and damaged frames), each compress and decompress repeated on a fresh context with the same settings: same result code, same frame, same output; other cases count memory blocks before and after contexts are made, used and destroyed; non-trivial: at least two codec calls",
    "C11": _CODEC_CASE + "frame header and block walk compared with the call parameters; non-trivial: at least one block",
    "C12": _CODEC_CASE + "compressed and decoded by eight builds in one process: compiled for x86-64, SSE4.1, AVX2 and this machine, and the last one on processors reporting no BMI2, no AVX2, no SSE4.1 or no SIMD at all (every encoder with every decoder for cheap cases, one encoder otherwise); non-trivial: at least 128 bytes and a frame smaller than the input",
    "C16": _CODEC_CASE + "compressed by the reference copy (/verif/reference) and decoded by one of four builds of the current tree, and the other way round; non-trivial: at least 128 bytes and a frame smaller than the input",
    "C13": _CODEC_CASE + "families of redundant data with a size limit (some calls with a time limit of minutes to a day, which is no limit), and level 0 compared with the input byte for byte; non-trivial: at least one block",
    "C14": "a case is one call (compress, decompress, context-free forms, context and timer creation) with 1..6 threads, cold or warm thread-local state, while one request, all requests from one on, requests above a size or a random share of the memory requests fail (library, zstd and C++ runtime), then repeated with memory back; other cases count the blocks left behind; non-trivial: at least one request was refused",
    "V01": "a case is a history of up to 24 operations (of 21 kinds: pushes, pops, inserts, erasures, resizes, assignments, element writes and swaps, iteration, visiting, clear, shrink_to_fit) on one of eight configurations (element type x block size x level x allocator kind), compared with std::vector through eight reading orders; a few cases use blocks of 2 and 8 megabytes; non-trivial: at least two operations took effect and the vector spanned more than one block",
    "V02": "a case fills a compressed vector and a std::vector with the same elements (random, sorted, few distinct, runs; up to 12 blocks), then runs one of the standard algorithms or a series of iterator operations on both and compares contents, returned positions and visited orders; element type, block size, level and allocator kind vary; non-trivial: the vector spans more than one block",
    "V03": "a case is a history of up to 18 steps on a pool of four vectors with two allocators (copy and move construction and assignment, with and without another allocator, self assignment, swap, modification through any operation of V01, reuse of moved-from vectors); each vector is compared with its own std::vector; non-trivial: at least two transfers and a vector of more than one block",
    "V04": "a case builds a vector through a history of operations, serializes it into memory (also exact and too small destinations) or a stream (also at an offset, two vectors behind each other), reads it back into an empty or used vector, decodes the bytes with stenos_decompress, reads a frame of stenos_compress_generic with the same block size as a vector, and goes on using all vectors; non-trivial: more than one block",
    "V05": "a case is the serialized form of a vector, cut, with 1-4 changed bytes or structurally changed (size field, removed, repeated or added parts), or random bytes behind a plausible header; read from memory or a stream in an exact guarded buffer; accepted data must equal what stenos_decompress gives; then the vector is reused; non-trivial: more than 12 bytes",
    "V06": "a case is a history of up to 16 steps on three vectors with up to three counting allocators (operations of V01, copies, moves, swaps of content, clear, destruction, serialization and deserialization of whole, cut and damaged bytes for plain types); after each step the number of living elements must equal the number held, and every memory block must return with its size to its own allocator; a third of the cases is repeated three times to see memory outside of the allocators pile up; non-trivial: at least two operations and more than one block",
    "V07": "a case is a history of up to 42 steps around up to 60 held references, const references and iterators: writes through them, copies and swaps between them, exchanges with the elements of a second vector, writes, reads, visits, appends and block recycling elsewhere; every held reference and the address taken from it must read as the model; non-trivial: at least two references held, a write through one, more than two blocks",
    "V08": "a case is a history of visits (forward, backward, const, by a functor returning nothing or bool, given by value or by name) over drawn ranges with early stop, exception, changes and nested reads; the sequence of values seen, the number reported and the content afterwards are compared with the model; non-trivial: a visit of a vector of more than one block",
    "V09": "a case is a vector of up to 60 blocks and 2..8 threads with up to 14 operations each (reads, const reads, iteration, visits, up to 60 references held at once, writes through references and iterators, modifying visits, swaps, increments, copies of the vector); elements are shared read only or owned by one thread (interleaved, ranges cut anywhere, whole blocks); every value read is compared with the owner's model and the content with the models at the end; functions of the container, the allocator and waiting are places where the schedule is disturbed; plain, ThreadSanitizer and AddressSanitizer builds, deadlock watch; non-trivial: more than one block",
    "V11": "a case is a history of up to 14 steps (operations of V01, shrink_to_fit, held references, clear, serialize and deserialize); after each step memory_footprint() is compared with the bytes outstanding in the counting allocator and the number of decompressed blocks is counted, after shrink_to_fit the bytes held are compared with what the codec makes of the same blocks; non-trivial: at least one shrink of a vector of more than one block",
    "V10": "a case is a history of up to 14 operations, each with the k-th copy of an element throwing, the k-th (or every later) request to the allocator refused, or the k-th (or every later) memory request of the process refused while the operation runs; afterwards the vector must be readable, hold each object once, own all living objects, be unchanged after a failed append, read, shrink or element assignment, and go on working; non-trivial: at least one operation failed",
    "V12": "a case is a stream of 0 to 2300 objects of one of nine types (1 to 1000 bytes, also over-aligned), perhaps cut inside of an object or failing there, given out in pieces of 1 byte to all at once; the iterator compares, reads, increments, copies, moves and loops in any order against the array the stream was made from, then one of eleven algorithms or container functions takes the rest; non-trivial: more than two objects",
    "C17": _CODEC_CASE + "compressed and decoded (the frame also damaged) 2 to 5 times at other addresses, with other garbage on the heap, on the stack, in the destination and around the source, on new and old threads, with fresh, used and no context; results, frames and outputs must be the same; non-trivial: at least 128 bytes",
    "C19": "a case is a history of up to 7 compressions and decompressions (any settings, some with a refused memory request, a too small destination or a cut frame) on one context; the footprint reported at the end must be the bytes given back when the context is destroyed, up to 64 bytes a block; non-trivial: the context held at least one buffer",
    "C21": "a case is a history of up to 9 calls on one context: settings with any int or size, compression, decompression and inspection with unsupported element sizes, block sizes not possible for an element size; then a compression compared with a context that only got the valid values; non-trivial: at least one refused call or clamped value",
    "C20": "a case draws numbers of 8 to 64 bits (random, single bits, runs of bits, corners) and up to 4 aligned blocks, and compares every helper with a bit by bit or byte by byte definition, reading and writing against guard pages; non-trivial: a number that is not 0",
    "C18": "a case is a program of up to 8 operations placed in static constructors, main, threads, thread_local destructors, atexit functions and static destructors, run as a process of its own; it must do all of them with the right results and end with code 0; non-trivial: an operation outside of main and thread bodies",
    "C15": "a case is a series of start marks and readings of both timers under a scripted monotonic clock; non-trivial: a reading lies in another second than its start mark",
}
ASSUMPTIONS = {}
