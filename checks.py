"""The registry: for every property, the explorations that decide it."""

COMMON_ASSUMPTIONS = [
    "x86-64 Linux (a few jobs also build for 32-bit x86), gcc/clang of the sandbox; big-endian machines are not executed",
    "allocation requests above 1 GiB are refused by the harness allocator",
    "the reference encoder/decoder in harness/ref.h states the MessagePack specification",
]

def job(name, src, **kw):
    d = dict(name=name, src=src); d.update(kw); return d

FAST = dict(san=False, opt="-O2", cc="gcc")
DBG = ["-DVF_DEBUG"]

CHECKS = {}
NOT_APPLICABLE = {}
def check(pid, level, bounds, jobs, rule=None, assumptions=()):
    CHECKS[pid] = dict(level=level, bounds=bounds, jobs=jobs, rule=rule, assumptions=list(assumptions))

check("C01", "exploration",
    {"quick": "every write function x {v4,v5}; 8/16-bit arguments: all; 32-bit: 532 k structured values; 64-bit: 598 k; lengths 0..600 and 65500..65600; exact and one-short buffers; objects with 2^31 and 2^32-1 bytes of content really written, and requests beyond 2^32-1 refused",
     "thorough": "as quick plus all 2^32 arguments of the 32-bit integer functions, floats and array counts"},
    [job("release", "c01_enc.c", **FAST), job("size", "c01_enc.c", defs=["-DMPACK_OPTIMIZE_FOR_SIZE=1", "-DMPACK_WRITE_TRACKING=0"], tier="quick", **FAST), job("size-san", "c01_enc.c", defs=["-DMPACK_OPTIMIZE_FOR_SIZE=1", "-DMPACK_WRITE_TRACKING=0"], san=True, tiers=("thorough",)), job("c++", "c01_enc.c", cxx=True, tier="quick", **FAST),
     job("huge", "huge.c", hdefs=["-DHU=1"], **FAST)],
    rule="one evaluation = one value written through one function into a roomy, an exactly fitting and a one-byte-short buffer and compared with the reference encoder; non-trivial: the encoding has more than one byte")

check("C02", "exploration",
    {"quick": "all inputs of up to 3 bytes; all headers with 3..8 further bytes with structured payloads (532 k 32-bit, 598 k 64-bit values, 8 extension types) and every truncation; peek and read; extensions on and off",
     "thorough": "as quick plus all 2^32 payloads of the 4-byte headers"},
    [job("release", "c02_hdr.c", **FAST),
     job("sanitized", "c02_hdr.c", hdefs=["-DVF_EXACT=1"], tier="quick"),
     job("noext", "c02_hdr.c", defs=["-DMPACK_EXTENSIONS=0"], tier="quick", **FAST),
     job("debug-size", "c02_hdr.c", defs=["-DMPACK_DEBUG=1", "-DMPACK_READ_TRACKING=0", "-DMPACK_OPTIMIZE_FOR_SIZE=1", "-DMPACK_NO_BUILTINS=1"], tier="quick", **FAST)],
    rule="one evaluation = one byte string of one length read (and peeked, then read) from an in-memory reader and compared with the reference header decoder; non-trivial: more than one byte")

SMALLBUF = ["-DMPACK_BUFFER_SIZE=32"]
check("C03", "model_checking",
    {"quick": "fill level 0..61, then every sequence of 2 operations of 20, x {flush fn with 4 buffer sizes, flush fn failing at call 1..4, growable, file, FILE*, fixed buffer of every size}, library buffers of 32 bytes; also 47-byte library buffers",
     "thorough": "sequences of 3 operations, 6 buffer sizes"},
    [job("release", "c03_sink.c", defs=SMALLBUF), job("debug", "c03_sink.c", defs=["-DMPACK_BUFFER_SIZE=47"] + DBG, tier="quick"),
     job("noreal", "c03_sink.c", defs=["-DMPACK_BUFFER_SIZE=33", "-DVF_NO_REALLOC=1", "-DMPACK_OPTIMIZE_FOR_SIZE=1", "-DMPACK_BUILDER=0"], tier="quick")],
    assumptions=["a state is a (sink, message) pair; transitions are write operations applied to the library"])

def bld(page, internal=None, m32=False):
    d = ["-DMPACK_BUILDER_PAGE_SIZE=%d" % page, "-DMPACK_BUFFER_SIZE=48"]
    if internal: d += ["-DMPACK_BUILDER_INTERNAL_STORAGE=1", "-DMPACK_BUILDER_INTERNAL_STORAGE_SIZE=%d" % internal]
    return d
def mcd(**kw): return ["-D%s=%s" % (k, v) for k, v in kw.items()]
M32 = dict(san=False, opt="-O1", cc="gcc", cflags=["-m32", "-march=pentium4", "-mfpmath=sse"])
check("C12", "model_checking",
    {"quick": "5 sinks (roomy, exact, one byte short, flush function, growable) x 16 outer shapes x padding 0..31 (moving every record over the page ends) x every document of up to 4 objects over 2-6 leaves with every map and array built or counted, in 4 writing styles; pages of 80, 88 and 96 bytes, internal storage; also counts of 12..16 and around 65,535 crossing header widths; containers of up to 16,777,217 elements, counted, built and nested; 32-bit; every pair of 52 write calls in 8 shapes of builds x padding 0..31 x 4 sinks; flush requests at every depth of open builds", "thorough": "documents of one object more, more counts"},
    [job("page80", "c12_builder.c", defs=bld(80), hdefs=mcd(MC_BIG=0, MC_PAD=32, MC_NODES=4, MC_LEAVES=2)),
     job("page96-int80", "c12_builder.c", defs=bld(96, 80), hdefs=mcd(MC_BIG=0, MC_PAD=16, MC_NODES=3, MC_LEAVES=6)),
     job("big", "c12_builder.c", defs=bld(88), hdefs=mcd(MC_BIG=1, MC_PAD=4, MC_NODES=2, MC_LEAVES=1), **FAST),
     job('calls', 'c12_builder.c', defs=bld(80), hdefs=mcd(MC_BIG=0, MC_PAD=1, MC_NODES=1, MC_LEAVES=1, MC_CPADS=32), **FAST),
     job('calls-debug', 'c12_builder.c', defs=bld(96, 80) + DBG, hdefs=mcd(MC_BIG=0, MC_PAD=1, MC_NODES=1, MC_LEAVES=1, MC_CPADS=3)),
     job('m32', 'c12_builder.c', defs=bld(80), hdefs=mcd(MC_BIG=0, MC_PAD=32, MC_NODES=3, MC_LEAVES=2), **M32),
     job('m32-88', 'c12_builder.c', defs=bld(88), hdefs=mcd(MC_BIG=0, MC_PAD=32, MC_NODES=3, MC_LEAVES=2), **M32),
     ])

check("C04", "model_checking",
    {"quick": "5 sources (memory, fill, fill+skip, file, unseekable FILE) x buffers of 32 and 47 bytes x fill level 0..35 before the document x every document of up to 2 objects over 10 leaves x 2-13 ways to read each object (whole, chunked, in place, allocating, checked, skipped, discarded, peeked first) x delivery (every single short delivery at any call, pieces of 1, 2, 5 bytes, end of data at every byte, callback call 1..4 failing in 3 ways)", "thorough": "documents of up to 3 objects, buffers up to 64 bytes, every pair of short deliveries"},
    [job("two", "c04_source.c", defs=SMALLBUF, hdefs=mcd(MC_PAD=36, MC_NODES=2, MC_LEAVES=10)),
     job("debug", "c04_source.c", defs=["-DMPACK_BUFFER_SIZE=47"] + DBG + ["-DMPACK_OPTIMIZE_FOR_SIZE=1"], hdefs=mcd(MC_PAD=12, MC_NODES=2, MC_LEAVES=6), tier="quick", **FAST),
     job("m32", "c04_source.c", defs=SMALLBUF, hdefs=mcd(MC_PAD=36, MC_NODES=2, MC_LEAVES=4), tier="quick", **M32),
     ])

def page(n): return ["-DMPACK_NODE_PAGE_SIZE=%d" % n]
NOMALLOC = ["-DVF_NO_MALLOC=1", "-DMPACK_STDLIB=0", "-DMPACK_STDIO=0"]
check("C05", "exploration",
    {"quick": "all strings of up to 3 bytes and 4-5 bytes over an alphabet of every header class; every document of up to 4-5 objects in 3 encoding widths with every truncation and 6 changes of every byte; children counts around the node page size at every fill level of a page; nestings 0..99; consecutive messages; page sizes 64..4096, pool trees without malloc, extensions off, 32-bit; documents beyond 2^31 and 2^32 bytes really parsed, and lengths at and one past their end; messages of every size up to 599 and around 4096 and 65536 bytes in a row", "thorough": "longer strings and larger documents"},
    [job("bytes3", "c05_tree.c", hdefs=mcd(T_BYTES=3, T_AL=5), **FAST),
     job("sanitized", "c05_tree.c", defs=page(160), hdefs=mcd(T_BYTES=2, T_AL=4, VF_EXACT=1)),
     job("debug-size", "c05_tree.c", defs=page(96) + DBG + ["-DMPACK_OPTIMIZE_FOR_SIZE=1"], hdefs=mcd(T_BYTES=2, T_AL=4, VF_EXACT=1)),
     job("noext-nomalloc", "c05_tree.c", defs=NOMALLOC + ["-DMPACK_EXTENSIONS=0"], hdefs=mcd(T_BYTES=3, T_AL=4, VF_EXACT=1), opt="-O2", san=False, cc="gcc"),
     job("m32", "c05_tree.c", defs=page(96), hdefs=mcd(T_BYTES=2, T_AL=4), **M32),
     job("huge", "huge.c", hdefs=mcd(HU=5), **FAST),
     ],
    rule="one evaluation = one byte string parsed into a tree (message after message) and every node compared with the reference parse; non-trivial: a valid message of more than one byte")

check("C06", "model_checking",
    {"quick": "every document of up to 3 objects x 4 following messages x 6 limits x blocking or not x deliveries: every pair of short deliveries or 'no data yet' answers at any call, constant pieces of 1..12 bytes, 'no data yet' before every byte, end of data at every byte, callback call 1..5 failing in 4 ways; node pages of 64/96 bytes, buffers of 16/32 bytes, with and without realloc; two messages of every size 1..520 and around 1000..8192 bytes in 5 piece sizes, blocking and not, with a size limit that just fits", "thorough": "every triple of short deliveries, pieces up to 40, failing calls up to 12"},
    [job("release", "c06_stream.c", defs=page(96) + SMALLBUF, hdefs=mcd(S_NODES=3, S_LEAVES=4)),
     job("debug-norealloc", "c06_stream.c", defs=page(64) + ["-DMPACK_BUFFER_SIZE=16", "-DVF_NO_REALLOC=1"] + DBG, hdefs=mcd(S_NODES=2, S_LEAVES=6)),
     ])

check("C07", "model_checking",
    {"quick": "every document of up to 5 objects (2 encoding widths) x 5 sources (memory, pool, blocking and non-blocking streams, pieces) x every size limit from 4 below to 2 above and every node limit from 3 below to 1 above the need, with and without data behind; allocator ledger for all strings of 4-5 bytes over 20 header bytes; requests for the stream buffer with 28 maximum sizes x 4 message shapes of 9 sizes around them in 3 piece sizes; 11 allocating functions x 20 declared lengths x 14 maxima x 3 amounts of data present", "thorough": "as quick, with larger documents"},
    [job("release", "c07_limits.c", defs=page(96) + SMALLBUF, hdefs=mcd(L_NODES=5, L_AL=4)),
     job("fast", "c07_limits.c", defs=["-DVF_NO_REALLOC=1"], hdefs=mcd(L_NODES=4, L_AL=5), **FAST),
     job("debug-m32", "c07_limits.c", defs=page(64) + SMALLBUF + DBG, hdefs=mcd(L_NODES=4, L_AL=4), **M32),
     job("counts", "huge.c", hdefs=mcd(HU=7), **FAST), job("counts-m32", "huge.c", hdefs=mcd(HU=7), **M32),
     ])

FSM = SMALLBUF + page(96) + bld(88)[:1]
def fa(n, ops=2, **kw): return mcd(FA=n, F_OPS=ops, **kw)
INT_NOREALLOC = SMALLBUF + bld(96, 80)[:1] + bld(96, 80)[2:] + ["-DVF_NO_REALLOC=1"]
FRULE = "a state is (object kind, program of operations, faults injected, handler mode); transitions are API calls; every allocation / I/O operation / callback call is a fault point"
check("C09", "fault_enumeration",
    {"quick": "every program of 3 operations over writers (fixed, flushing, growable, file; builders, tracking), readers (memory, fill, file; allocating reads), trees (data, stream, file, pool) with every single and every permanent allocation failure; with and without realloc, internal builder storage, tracking; writes of up to 2^31 bytes with a 32-bit size_t and refused huge requests", "thorough": "programs of 4 operations and every pair of failures"},
    [job("release", "faults.c", defs=FSM, hdefs=fa(9, 3)),
     job("debug", "faults.c", defs=FSM + DBG, hdefs=fa(9, 3), tier="quick"),
     job("internal-norealloc", "faults.c", defs=INT_NOREALLOC, hdefs=fa(9, 3), tier="quick"),
     job("huge", "c09_huge.c", **FAST), job("huge-asan-debug", "c09_huge.c", defs=DBG), job("huge-m32", "c09_huge.c", **M32), job("huge-m32-norealloc", "c09_huge.c", defs=["-DVF_NO_REALLOC=1"] + SMALLBUF, **M32),
     ], rule=FRULE)
check("C10", "fault_enumeration",
    {"quick": "every program of 2 operations over every kind of writer, reader and tree with every I/O call (open, read, write, seek, tell, close) and every callback call failing, singly and permanently, in every way (error flagged, zero, -1, short)", "thorough": "programs of 3 operations and every pair of failures"},
    [job("release", "faults.c", defs=FSM, hdefs=fa(10)),
     job("debug-norealloc", "faults.c", defs=INT_NOREALLOC + DBG, hdefs=fa(10), tier="quick")], rule=FRULE)
check("C11", "fault_enumeration",
    {"quick": "every program of 2 operations over every kind of writer, reader and tree; at every data error, allocation failure, I/O failure and user-flagged error the handler jumps out and the object is destroyed afterwards or inside the handler", "thorough": "programs of 2 operations and every pair of failures, more fill levels"},
    [job("release", "faults.c", defs=FSM, hdefs=fa(11)),
     job("debug", "faults.c", defs=FSM + DBG, hdefs=fa(11), tier="quick"),
     job("internal-norealloc", "faults.c", defs=INT_NOREALLOC, hdefs=fa(11), tier="quick")], rule=FRULE)

NRULE = "one evaluation = one encoded object read through one number function (with one range) and compared with the value's own definition; non-trivial: the value must be accepted"
NB = {"quick": "every first byte with 3 fillers; all 8/16-bit encodings; 532 k 32-bit patterns as uint32/int32/float32; 598 k 64-bit patterns as uint64/int64/float64; every double exponent x sign x 2-bit significands; all functions",
      "thorough": "the same, also in a 32-bit build"}
check("C15", "exploration", {k: v + ("; u8/i8 ranges: every min<=max and every value -130..258; wider ranges: 33 boundary values as min, max and value (+-1) in every encoding; float/double ranges over 24 special values" if k == "quick" else "") for k, v in NB.items()},
    [job("release", "c15_numbers.c", hdefs=mcd(NUM=15), **FAST),
     job("debug-size", "c15_numbers.c", defs=DBG + ["-DMPACK_OPTIMIZE_FOR_SIZE=1"], hdefs=mcd(NUM=15), **FAST),
     job("m32", "c15_numbers.c", hdefs=mcd(NUM=15, VF_M32=1), tiers=("thorough",), **M32)], rule=NRULE)
check("C16", "exploration", NB,
    [job("release", "c15_numbers.c", hdefs=mcd(NUM=16), **FAST),
     job("debug-size", "c15_numbers.c", defs=DBG + ["-DMPACK_OPTIMIZE_FOR_SIZE=1"], hdefs=mcd(NUM=16), **FAST),
     job("m32", "c15_numbers.c", hdefs=mcd(NUM=16, VF_M32=1), tiers=("thorough",), **M32)], rule=NRULE)
NODBL = ["-DMPACK_FLOAT=1", "-DMPACK_DOUBLE=0"]; NOFLT = ["-DMPACK_FLOAT=0", "-DMPACK_DOUBLE=0"]
check("C29", "exploration", NB,
    [job("nodouble", "c15_numbers.c", defs=NODBL, hdefs=mcd(NUM=29), **FAST),
     job("nofloat", "c15_numbers.c", defs=NOFLT, hdefs=mcd(NUM=29), **FAST),
     job("nodouble-m32", "c15_numbers.c", defs=NODBL, hdefs=mcd(NUM=29, VF_M32=1), tiers=("thorough",), **M32)], rule=NRULE)

check("C27", "exploration", {"quick": "all pairs of 3,600 tags (boundary values of every type, made by every constructor and decoded from every encoding width), transitivity through ranks over all pairs and directly over all triples of a core; also in builds without extensions and without float support", "thorough": "as quick"},
    [job("release", "c27_tagcmp.c", san=True), job("debug-size-noext", "c27_tagcmp.c", defs=DBG + ["-DMPACK_OPTIMIZE_FOR_SIZE=1", "-DMPACK_EXTENSIONS=0"], **FAST),
     job("nofloat", "c27_tagcmp.c", defs=NOFLT, **FAST), job("m32", "c27_tagcmp.c", tiers=("thorough",), **M32)],
    rule="one evaluation = one ordered pair (or triple) of tags compared; non-trivial: two different tags")

check("C19", "exploration", {"quick": "validators: every string of up to 3 bytes, 4 bytes (first byte free, 31 classes), 5-6 bytes over boundary classes; all 19 APIs: every string of up to 2 bytes, 3-4 bytes over boundary classes, 38 sequences at every offset 0..39 with 0..4 following bytes and NULs, in memory and through a 32-byte stream buffer in 4 chunkings; 46 lengths up to 131,072 with a sequence or a NUL near the ends and the multiples of 256; strings of up to 2^32-1 bytes checked, with one defect at either end",
    "thorough": "validators: all 2^32 strings of 4 bytes; denser class products"},
    [job("fast", "c19_utf8.c", **FAST), job("sanitized-debug", "c19_utf8.c", defs=SMALLBUF + DBG, hdefs=mcd(U_SMALL=1), tier="quick"),
     job("size", "c19_utf8.c", defs=SMALLBUF + ["-DMPACK_OPTIMIZE_FOR_SIZE=1"], tier="quick", tiers=("thorough",)),
     job("huge", "huge.c", hdefs=mcd(HU=19), **FAST)],
    rule="one evaluation = one byte string through one API (or the validators) compared with Unicode table 3-7; non-trivial: the string is to be accepted")

check("C20", "exploration", {"quick": "seconds: 598 k structured 64-bit values x 28 nanosecond values; nanoseconds: 532 k structured 32-bit values x 22 seconds values; bit walks; every extension type x size 0..40 x header form x filler; every other first byte; all five reading functions",
    "thorough": "598 k seconds x 136 nanosecond values; also debug/size-optimised and 32-bit"},
    [job("release", "c20_time.c", **FAST), job("debug-size", "c20_time.c", defs=DBG + ["-DMPACK_OPTIMIZE_FOR_SIZE=1", "-DMPACK_NO_BUILTINS=1"], tier="quick", **FAST),
     job("m32", "c20_time.c", tier="quick", tiers=("thorough",), **M32)],
    rule="one evaluation = one timestamp written, or one encoded object read through one function; non-trivial: a valid timestamp")

NOLIB = ["-DMPACK_STDLIB=0", "-DMPACK_STDIO=0", "-DMPACK_NO_BUILTINS=1"]
check("C28", "exploration", {"quick": "memmove: every source/destination/length in a 48-byte arena; memcpy/memmove lengths 0..299 x 16 x 16 alignments; memcmp: all pairs of 4-byte strings over 5 bytes, lengths 0..77 x 64 alignments x every difference position; memset: 262 values x lengths 0..70 x 16 alignments; strlen 0..299",
    "thorough": "lengths to 1,200 (copy, strlen), 208 (memcmp), 260 (memset)"},
    [job("sanitized", "c28_libc.c", defs=NOLIB), job("gcc-O2", "c28_libc.c", defs=NOLIB, **FAST), job("size", "c28_libc.c", defs=NOLIB + ["-DMPACK_OPTIMIZE_FOR_SIZE=1"], san=False, opt="-Os", cc="gcc"), job("m32", "c28_libc.c", defs=NOLIB, tiers=("thorough",), **M32)],
    rule="one evaluation = one call of one helper compared with its plain definition; non-trivial: at least one byte involved (a difference, for memcmp)")

check("C17", "exploration", {"quick": "every map of 0..3 entries over 30 keys (same number in several encodings, unsigned/negative confusions, string prefixes, non-key types) and every third of 4 entries, x 12 int, 11 uint, 9 string queries x required/optional/contains; duplicates at every pair of positions in maps of 5..18; every index including overflow candidates; strings of 33 lengths up to 65537 next to 15 lookalikes each (lengths off by 1, 2^8, 2^16, prefixes, one byte flipped); every other type; pooled and paged trees",
    "thorough": "every map of 4 entries"},
    [job("fast", "c17_lookup.c", defs=page(96), hdefs=mcd(LK4=1), **FAST), job("sanitized-debug", "c17_lookup.c", defs=page(64) + DBG),
     job("size-m32", "c17_lookup.c", defs=page(64) + ["-DMPACK_OPTIMIZE_FOR_SIZE=1"], tiers=("thorough",), **M32)],
    rule="one evaluation = one query on one map or array compared with the list of its entries; non-trivial: the key occurs (the index exists)")

XRULE = "one evaluation = one call on one encoded value (every type, width and truncation of a 3,000-entry table) from one kind of source compared with the documentation's rule applied to what the reference decoder sees; non-trivial: the call must succeed"
check("C18", "exploration", {"quick": "about 3,000 values (every type, encoding width, truncation) x {memory, stream of whole buffers, stream of single bytes} x every matcher with 25 bounds (325 ranges), every tag of the table, enums of 1..8 words, found flags; key loops over every map of up to 3 entries from 16 keys; str_match: every pair of bytes at every position; matchers, enums and keys of 33 lengths up to 65537 against lists of 15 lookalikes",
    "thorough": "also 7-byte pieces and maps of 4 entries; also 32-bit"},
    [job("fast", "c18_expect.c", hdefs=mcd(EX=18), **FAST), job("sanitized-debug-size", "c18_expect.c", defs=DBG + ["-DMPACK_OPTIMIZE_FOR_SIZE=1"], hdefs=mcd(EX=18), tier="quick"),
     job("m32", "c18_expect.c", hdefs=mcd(EX=18), tier="quick", **M32)], rule=XRULE)
check("C21", "exploration", {"quick": "about 3,000 values x 3 sources x 11 expect, 7 reader and 15 node functions x 18 limits around the length and the integer limits, destination buffers of exactly the stated size; copies and allocations of contents of up to 2^32-1 bytes",
    "thorough": "also 7-byte pieces"},
    [job("sanitized", "c18_expect.c", hdefs=mcd(EX=21)), job("debug-size", "c18_expect.c", defs=DBG + ["-DMPACK_OPTIMIZE_FOR_SIZE=1"], hdefs=mcd(EX=21), **FAST),
     job("m32", "c18_expect.c", hdefs=mcd(EX=21), tier="quick", **M32),
     job("huge", "huge.c", hdefs=mcd(HU=21), **FAST)], rule=XRULE)

check("C13", "model_checking", {"quick": "every sequence of up to 6 operations out of 22 (elements, arrays/maps/strings/bin/ext of sizes 0-2, byte writes, finishes, builds, completes, flush) ended by destroy or by any one of 72 further API calls, over a fixed, a flushing and a growable writer; plus nestings up to depth 40 in 7 patterns with every insertion, replacement and omission at every point; contents and counts up to 2^32-1 really written, one too few and one too many",
    "thorough": "sequences of up to 7 operations, more builds"},
    [job("debug", "c13_wtrack.c", defs=DBG, san=False, opt="-O2"), job("sanitized-grow", "c13_wtrack.c", defs=DBG + ["-DMPACK_TRACKING_INITIAL_CAPACITY=1"], hdefs=mcd(W_OPS=5)),
     job("nodebug", "c13_wtrack.c", defs=["-DMPACK_READ_TRACKING=1", "-DMPACK_WRITE_TRACKING=1", "-DMPACK_BUILDER=0"], hdefs=mcd(W_OPS=5, NOBUILD=1), **FAST),
     job("norealloc", "c13_wtrack.c", defs=DBG + ["-DMPACK_TRACKING_INITIAL_CAPACITY=3", "-DVF_NO_REALLOC=1", "-DMPACK_OPTIMIZE_FOR_SIZE=1"], hdefs=mcd(W_OPS=5), tiers=("thorough",)),
     job("huge", "huge.c", hdefs=mcd(HU=13), defs=DBG, **FAST)],
    rule="a state is the stack of open compounds (type, builder or not, key pending, elements or bytes left) plus whether the mistake was made; a transition is one API call")

check("C14", "model_checking", {"quick": "every message of up to 3 objects (9 leaf kinds) read with up to 2 calls out of 138 (complete reader and expect API, three byte counts) in place of or between the canonical ones, every message of 5 objects (3 leaf kinds) and nestings up to depth 40 with one; memory and one-byte-at-a-time stream; contents and counts up to 2^32-1 really read, one too few and one too many",
    "thorough": "3 and 2 deviations, more builds"},
    [job("debug", "c14_rtrack.c", defs=DBG, san=False, opt="-O2"), job("sanitized-grow", "c14_rtrack.c", defs=DBG + ["-DMPACK_TRACKING_INITIAL_CAPACITY=1"], hdefs=mcd(R_DEV=1)),
     job("nodebug", "c14_rtrack.c", defs=["-DMPACK_READ_TRACKING=1", "-DMPACK_WRITE_TRACKING=1"], hdefs=mcd(R_DEV=1), **FAST),
     job("size", "c14_rtrack.c", defs=DBG + ["-DMPACK_OPTIMIZE_FOR_SIZE=1", "-DVF_NO_REALLOC=1"], hdefs=mcd(R_DEV=1), tiers=("quick", "thorough"), san=False, opt="-O2"),
     job("huge", "huge.c", hdefs=mcd(HU=14), defs=DBG, **FAST)],
    rule="a state is the rest of the message, the stack of open compounds (type, key pending, elements or bytes left) and the verdict; a transition is one API call")

check("C22", "exploration", {"quick": "all byte strings of length 0-2, 256 x 52 x 52 of length 3, all sequences of 2 (complete API) and 3 (trees, readers) out of 59 headers with boundary lengths, cut at every byte of the last; arrays and maps of up to 40 elements behind up to 11 others, cut; nestings up to 1,000,000; memory, stream, skip and FILE sources, data/pool/stream/limited/FILE trees, 130 reader/expect and 80 node calls, debug printing; arrays and maps of up to 2^29 elements that are all there (64- and 32-bit size_t)",
    "thorough": "all byte strings of length 3, every consumer on 3-header sequences, more builds"},
    [job("release", "c22_bytes.c", **FAST), job("asan-debug", "c22_bytes.c", defs=DBG + page(96)), job("size", "c22_bytes.c", defs=["-DMPACK_OPTIMIZE_FOR_SIZE=1"], **FAST), job("m32", "c22_bytes.c", **M32),
     job("asan-size", "c22_bytes.c", defs=["-DMPACK_OPTIMIZE_FOR_SIZE=1"], tiers=("thorough",)), job("asan-release", "c22_bytes.c", tiers=("thorough",)),
     job("huge", "huge.c", hdefs=mcd(HU=22), **FAST), job("huge-m32", "huge.c", hdefs=mcd(HU=22), **M32), job("huge-debug-m32", "huge.c", hdefs=mcd(HU=22), defs=DBG + page(96), **M32)],
    rule="non-trivial: the input makes the consumer flag an error")

check("C23", "model_checking", {"quick": "every document of up to 4 objects x every plan of reading or discarding each object and of splitting contents into read and skipped parts x memory, 3 piece sizes x 2 buffer sizes with and without skip function, seekable and non-seekable files (up to 3 objects); every document of 3 objects cut at every byte; contents of 10 x 5 lengths around buffer and file buffer sizes cut at 10 places; 9 declared lengths up to 2^32-1 that are not there; skips and discards of up to 2^32-1 bytes and beyond 2^32 in a row; arrays and maps declaring up to 2^32-1 elements that are not there",
    "thorough": "more leaf kinds, 5 piece sizes x 4 buffer sizes, 17 x 17 lengths, files for all documents, more builds"},
    [job("release", "c23_skip.c", **FAST), job("asan-debug", "c23_skip.c", defs=DBG, hdefs=mcd(K_NODES=3, K_L1=6)), job("m32", "c23_skip.c", hdefs=mcd(K_NODES=3, K_L1=6), **M32), job("size", "c23_skip.c", defs=["-DMPACK_OPTIMIZE_FOR_SIZE=1"], tiers=("thorough",), **FAST),
     job("huge", "huge.c", hdefs=mcd(HU=23), **FAST)],
    rule="a state is a message; a transition is one reading of it along one plan from one source")

check("C25", "model_checking", {"quick": "internal buffers of 32 bytes: every filler length 0..101 x 3 kinds x 14 documents before x 13 behind, written through 4 kinds of file writer, read in 5 ways from 5 kinds of file (named, FILE closed or left open, not at its start, not seekable) with 3 stdio bufferings and 3 read sizes, and loaded as trees with 10 maximum sizes; every cut of 507 files; internal buffers of 4096 bytes: 84 filler lengths around 1-3 buffers; objects of up to 1 MB",
    "thorough": "all combinations for 4096 bytes, more limits"},
    [job("small", "c25_files.c", defs=SMALLBUF, **FAST), job("small-asan-debug", "c25_files.c", defs=SMALLBUF + DBG, hdefs=mcd(K_FEW=4)), job("default", "c25_files.c", defs=["-DMPACK_BUFFER_SIZE=4096"], hdefs=mcd(K_FEW=6), **FAST), job("m32", "c25_files.c", defs=SMALLBUF, hdefs=mcd(K_FEW=3), **M32)],
    rule="a state is a file; a transition is one writing, reading or loading of it")

check("C26", "exploration", {"quick": "every document of up to 5 objects over 5 leaves and up to 3 over 19, single values over 16 lengths and 16 doubles, printed from data and from nodes to buffers of every size 1..text+3, callbacks, files and stdout; texts crossing the ends of the internal buffer at every offset; every document of up to 4 objects over 9 leaves cut at every byte; the texts of 400 tags in buffers of every size; arrays and maps of every count up to 23",
    "thorough": "5 objects over 8 leaves, cuts over 19 leaves"},
    [job("debug", "c26_print.c", defs=DBG, **FAST), job("asan", "c26_print.c", defs=DBG, hdefs=mcd(VF_EXACT=1)), job("m32", "c26_print.c", defs=DBG, **M32)],
    rule="one evaluation is one printed text compared; non-trivial: a whole document shown, or an error marked")

check("C30", "model_checking", {"quick": "every document of up to 4 objects over 7 leaf kinds (incl. timestamps), 4,096 boundary numbers in every kind, contents of 90 lengths, counts of 48 sizes, nestings up to 60 in 8 patterns; written with known counts, tags, builders and mixtures in up to 9 alternatives to 3 sinks, read by tags, expect functions (10 alternatives) and trees from 3 sources, alone and followed by a message",
    "thorough": "5 objects over 9 leaf kinds, all builds"},
    [job("release", "c30_round.c", defs=bld(96), **FAST), job("asan-debug", "c30_round.c", defs=bld(96, 80) + DBG, hdefs=mcd(K_NODES=3)), job("m32", "c30_round.c", hdefs=mcd(K_NODES=3), **M32), job("size", "c30_round.c", defs=["-DMPACK_OPTIMIZE_FOR_SIZE=1", "-DMPACK_NO_BUILTINS=1"], hdefs=mcd(K_NODES=3), **FAST), job("five", "c30_round.c", hdefs=mcd(K_NODES=5), tiers=("thorough",), **FAST)],
    rule="a state is a document; a transition is one writing of it")

def var(name, *defs, **kw): return dict(name=name, defs=["-D" + d for d in defs], **kw)
SMALLALL = ["MPACK_BUFFER_SIZE=32", "MPACK_STACK_SIZE=32", "MPACK_NODE_PAGE_SIZE=96", "MPACK_BUILDER_PAGE_SIZE=88", "MPACK_NODE_INITIAL_DEPTH=1", "MPACK_TRACKING_INITIAL_CAPACITY=1"]
VARIANTS = [
    var("release", opt="-O2"), var("debug", "VF_DEBUG"), var("size", "MPACK_OPTIMIZE_FOR_SIZE=1", opt="-Os"),
    var("debug-size-clang", "VF_DEBUG", "MPACK_OPTIMIZE_FOR_SIZE=1", cc="clang"), var("clang-nobuiltins", "MPACK_NO_BUILTINS=1", cc="clang", opt="-O2"),
    var("c++17", cxx=True, opt="-O2"), var("c++98-debug", "VF_DEBUG", cxx=True, cxxstd="gnu++98", cc="clang"), var("c99", cstd="gnu99"),
    var("nomalloc", "VF_NO_MALLOC=1", "MPACK_STDLIB=0", "MPACK_STDIO=0"), var("nostdlib-size", "MPACK_STDLIB=0", "MPACK_STDIO=0", "MPACK_OPTIMIZE_FOR_SIZE=1", "MPACK_NO_BUILTINS=1"), var("nostdio-debug", "MPACK_STDIO=0", "VF_DEBUG"),
    var("noext-nocompat", "MPACK_EXTENSIONS=0", "MPACK_COMPATIBILITY=0"), var("noext-nocompat-debug-size-c++", "MPACK_EXTENSIONS=0", "MPACK_COMPATIBILITY=0", "VF_DEBUG", "MPACK_OPTIMIZE_FOR_SIZE=1", cxx=True),
    var("tracking", "MPACK_READ_TRACKING=1", "MPACK_WRITE_TRACKING=1"), var("debug-notracking", "VF_DEBUG", "MPACK_NO_TRACKING=1"),
    var("nodouble", "MPACK_DOUBLE=0"), var("nofloat-debug-size", "MPACK_FLOAT=0", "MPACK_DOUBLE=0", "VF_DEBUG", "MPACK_OPTIMIZE_FOR_SIZE=1"), var("nofloat-c++", "MPACK_FLOAT=0", "MPACK_DOUBLE=0", cxx=True),
    var("small", *SMALLALL), var("small-debug-norealloc", "VF_DEBUG", "VF_NO_REALLOC=1", *SMALLALL), var("large", "MPACK_BUFFER_SIZE=65536", "MPACK_STACK_SIZE=4096", "MPACK_NODE_PAGE_SIZE=65536", "MPACK_BUILDER_PAGE_SIZE=65536", "MPACK_NODE_INITIAL_DEPTH=64", "MPACK_READER_SMALL_FRACTION_DENOMINATOR=1"),
    var("internal", "MPACK_BUILDER_INTERNAL_STORAGE=1", "MPACK_BUILDER_INTERNAL_STORAGE_SIZE=80", "MPACK_BUILDER_PAGE_SIZE=96"), var("nobuilder", "MPACK_BUILDER=0"), var("nostrings", "MPACK_STRINGS=0"),
    var("writer-only", "MPACK_READER=0", "MPACK_EXPECT=0", "MPACK_NODE=0"), var("reader-only-size", "MPACK_WRITER=0", "MPACK_EXPECT=0", "MPACK_NODE=0", "MPACK_OPTIMIZE_FOR_SIZE=1"), var("expect-only-debug", "VF_DEBUG", "MPACK_WRITER=0", "MPACK_NODE=0"), var("node-only", "MPACK_WRITER=0", "MPACK_READER=0", "MPACK_EXPECT=0"),
    var("amalgamated", amalgamated=True, opt="-O2"), var("amalgamated-debug-c++", "VF_DEBUG", amalgamated=True, cxx=True),
    var("release-m32", m32=True, opt="-O2"), var("debug-size-m32", "VF_DEBUG", "MPACK_OPTIMIZE_FOR_SIZE=1", m32=True), var("small-noext-m32", "MPACK_EXTENSIONS=0", "MPACK_COMPATIBILITY=0", *[x.replace("88", "80") for x in SMALLALL], m32=True),
]
check("C24", "model_checking", {"quick": "33 builds (debug/release, amalgamated, size, C99/C11/C++98/C++17, gcc/clang, no builtins/stdlib/stdio/malloc/realloc/strings/builder/float/double/extensions/compatibility, tracking, small and large buffers/pages/stacks, writer/reader/expect/node only, 3 of 32 bits): every tree of up to 2 write calls out of 95 and of up to 5 over 5 (explicit and built) into 20 sinks x 4 styles; every document of 1-2 bytes, 59 k of 3 bytes, 64 objects alone (cut everywhere), in pairs and triples in 4 wrappings; 15+ reading styles, all 120 expect calls, 80 node calls; memory, stream, pool, file sources",
    "thorough": "denser: every 2-byte document, 389 k 3-byte documents by readers and trees, every cut of pairs and triples, write trees of 6"},
    [dict(name="matrix", src="c24_config.c", variants=VARIANTS)],
    rule="a state is a document or write program; a transition is one execution of one program in one build")

check("C31", "model_checking", {"quick": "writers (3 flush buffers, fixed), readers (memory, fill, fill and skip), trees (data, pool, stream) x every program of 3 operations of 8-9 x callback call 1..5 failing in 9-11 ways (each of the 9 errors, nothing, too much; programs of 2 for the rarer errors) x handler none/returning/jumping out x teardown none/plain/flagging an error; objects that begin in error x 9 errors x pairs of operations; buffers of every size 0..69; stack objects around the stack size; re-use of the storage afterwards",
    "thorough": "programs of 4 operations"},
    [job("release", "c31_life.c", defs=SMALLBUF + page(96)), job("debug", "c31_life.c", defs=SMALLBUF + page(96) + DBG), job("size-int", "c31_life.c", defs=bld(96, 80) + ["-DMPACK_OPTIMIZE_FOR_SIZE=1"], **FAST), job("m32", "c31_life.c", defs=bld(80), **M32)],
    rule="a state is (object kind, how it began, handler mode, program with the failing callback); a transition is one call")

check("C32", "exploration", {"quick": "87 values of every type and encoding width and the missing node x 7 places (root, 3 array positions, map value, map key, result of the 4 optional lookups) x 3 kinds of tree (data, pool, stream) x 62 accessors, positional ones with 15 indexes up to those that wrap; enums: every string, bin and wide string of up to 3 characters over {a, b, NUL} x every list of up to 3 of 8 words; strings of 33 lengths up to 65537 against lists of their 15 lookalikes",
    "thorough": "enum strings of up to 5 characters"},
    [job("sanitized", "c32_nodes.c", defs=page(64)), job("debug-size", "c32_nodes.c", defs=page(96) + DBG + ["-DMPACK_OPTIMIZE_FOR_SIZE=1"], **FAST), job("m32", "c32_nodes.c", **M32),
     job("noext-nomalloc", "c32_nodes.c", defs=NOMALLOC + ["-DMPACK_EXTENSIONS=0"], **FAST), job("long", "c32_nodes.c", hdefs=mcd(N_ENUM=5), tiers=("thorough",), **FAST)],
    rule="one evaluation = one accessor called on one node of a freshly parsed tree; result, error, handler calls and a repeated call compared with what the value allows; non-trivial: the accessor accepts the value")

check("C08", "model_checking", {"quick": "every API call as the first failing one on 50 messages cut at every byte, allocator and sink working or failing, every room left in the buffer; readers (4 kinds x 4 states), writers (builders open or not) and trees x every cause of a first error (9 flagged codes each, 13 natural reader causes, 9 writer, 14 tree) x handler or none x every ordered pair of later calls out of 130 reader/expect, 58 writer, 80 tree/node calls",
    "thorough": "the same in all builds"},
    [job("release", "c08_sticky.c", **FAST), job("sanitized-debug", "c08_sticky.c", defs=DBG), job("first-call", "c08_first.c", **FAST), job("first-call-debug", "c08_first.c", defs=DBG), job("size", "c08_sticky.c", defs=["-DMPACK_OPTIMIZE_FOR_SIZE=1"], tiers=("thorough",), **FAST)],
    rule="a state is (object kind, position in the message, cause of the first error, handler); a transition is one later API call")
