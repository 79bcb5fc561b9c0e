#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
W='src/mpack/mpack-writer.c'; WH='src/mpack/mpack-writer.h'
R='src/mpack/mpack-reader.c'; RH='src/mpack/mpack-reader.h'
N='src/mpack/mpack-node.c'; NH='src/mpack/mpack-node.h'
E='src/mpack/mpack-expect.c'; EH='src/mpack/mpack-expect.h'
C='src/mpack/mpack-common.c'; CH='src/mpack/mpack-common.h'
P='src/mpack/mpack-platform.c'; PH='src/mpack/mpack-platform.h'
props=[]
def P_(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

P_("C01","Every write call emits the exact, shortest MessagePack encoding",
"Every write call (integers of each width, floats, bool, nil, headers and contents of strings, binary, extensions, arrays, maps, timestamps, generic tags and raw objects) emits exactly the bytes the MessagePack specification assigns to that value. Integers, lengths and counts always take the shortest form the selected specification version offers (non-negative signed values take unsigned forms), and floats and doubles keep their width and bit pattern. When the old (v4) version is selected only the old raw/array/map forms are used for strings and binary, and writing an extension is refused with a bug error.",
["inputs","configurations"],"every value of every writer argument (all 8/16/32-bit values, all length/count boundaries), speed- and size-optimised builds, current and v4 versions",
"The unit tests write a few dozen hand-picked values per type; a wrong threshold or byte order between two sampled values, or in only one build variant, passes them.",
[W,WH,CH],[("per-type encode functions and size thresholds",W),("endian store helpers",CH),("mpack_write_tag dispatch",W)],["bytes in the writer's buffer","mpack_writer_error"])

P_("C02","Header decoding is exact for every byte sequence",
"Reading an object header from any byte sequence yields exactly the type, value, length or count and extension type the MessagePack specification assigns to it and consumes exactly the header's bytes; peeking yields the same tag and consumes nothing. The reserved byte 0xC1 flags the invalid error, a header cut short flags an error, extension headers flag the unsupported error when extensions are disabled, and in each of these cases a nil tag is returned.",
["inputs","configurations"],"all byte sequences of length up to 3 over all 256 values and every wider header over boundary and walking payload bytes, every truncation length, at every buffer boundary, with and without extensions",
"Tests decode a sampled list of encodings from one contiguous buffer; a header byte, payload position or truncation point outside the list is never executed.",
[R,RH,CH],[("first-byte dispatch and size reservation",R),("endian load helpers",CH)],["mpack_read_tag, mpack_peek_tag","mpack_reader_remaining","mpack_reader_error"])

P_("C03","Written bytes do not depend on buffer size, flushing or sink",
"For any sequence of writes, the concatenation of everything handed to the flush function (plus what remains buffered), the data returned by a growable writer and the contents of a written file are all identical to the message written into one large buffer, whatever the buffer size and wherever explicit flushes happen. A fixed buffer without a flush function succeeds exactly when the message fits and otherwise reports too_big without writing outside the buffer; after an error the bytes already handed over are a prefix of the message and nothing more is flushed.",
["inputs","histories","configurations"],"every operation sequence up to the depth bound over an alphabet with small, boundary and larger-than-buffer writes, every buffer size in range, every flush point, flush failing at any call",
"Tests use a handful of buffer sizes with one message; straddling behaviour depends on the exact fill level at each write, which only enumeration of sequences times sizes covers.",
[W,WH],[("buffer straddle / flush logic",W),("growable flush (realloc policy)",W),("file flush",W)],["flush callback arguments","growable data/size","file contents","mpack_writer_buffer_used/left/size"],
[("buffer position","bytes written but not flushed",W)])

P_("C04","Read results do not depend on how the source delivers its bytes",
"For any message and any sequence of read calls (tags, chunked, whole, allocating, in-place, string-checked reads, skips, discards, timestamp reads), the values obtained and the final success are the same whether the data is in memory or arrives through a fill function in chunks of any size and through a buffer of any allowed size, with or without a skip function. Bytes are never lost, duplicated or reordered, in-place pointers expose exactly the requested bytes, and in-place requests larger than the buffer are refused as too_big.",
["inputs","histories"],"every chunking of the stream (all compositions up to the bound), every buffer size in range, every access script up to the depth bound",
"Tests fill with one or two fixed chunk sizes; refill, compaction and direct-read paths depend on the exact relation between fill level, request and chunk size.",
[R,RH],[("ensure/straddle refill and buffer compaction",R),("direct read bypassing the buffer",R),("skip through fill or skip function",R)],["values returned by read calls","mpack_reader_error","bytes requested from the source"],
[("data/end window","unread bytes within the buffer",R)])

P_("C05","A tree parses exactly the valid messages, to exactly their content",
"Parsing a byte string into a tree succeeds exactly when it begins with one complete valid MessagePack object, and then the reported size, every node's type, value, length, child order and data bytes are exactly those of that object. Otherwise (truncated, reserved byte, disabled extension, more children declared than can exist) an error is flagged, the root is a nil node and the size is zero.",
["inputs","configurations"],"all byte strings up to the length bound over an alphabet covering every header class, every strict prefix of every valid message, heap-paged and pooled trees, several page sizes",
"Tests parse dozens of literals; nesting, page boundaries and truncation interact, and only enumerating all short byte strings against an independent decoder covers the combinations.",
[N,NH],[("iterative node parser",N),("node page/pool allocation",N)],["mpack_tree_parse, mpack_tree_root, mpack_tree_size","node accessors"],
[("parse stack and possible-node budget","children still to parse",N)])

P_("C06","Tree parsing from a stream is independent of data arrival",
"Parsing consecutive messages from a stream gives the same sequence of trees and the same errors whatever the sizes of the pieces in which the data arrives, blocking or non-blocking; a non-blocking attempt with insufficient data returns false without an error and loses nothing, and a later attempt continues correctly. Data following a message is kept for the next parse and never consumed or corrupted.",
["inputs","histories","schedules"],"all chunkings and all placements of 'no data yet' answers up to the bound, sequences of several messages, small and growing buffers and node pages, consecutive parses over one memory block",
"Tests use fixed step sizes over two messages; retry state is carried across attempts at every possible byte, which only exhaustive interleaving of arrivals and attempts covers.",
[N,NH],[("resumable parser state",N),("stream buffer growth and leftover handling",N)],["mpack_tree_try_parse result","mpack_tree_error","tree contents per message"],
[("parser state","position of an interrupted parse",N)])

P_("C07","Tree size and node limits are exact and memory use is bounded by input",
"A message is accepted under a size limit, a node limit or a fixed node pool exactly when it fits within that limit, and is otherwise refused as too_big, regardless of how it is delivered. The memory a tree allocates is bounded by the bytes actually present and, for the buffer of a stream, by the configured maximum message size, never by lengths or counts merely declared in the data, and allocating reads never allocate more than the maximum the caller gave.",
["inputs","histories","configurations"],"every limit value around the exact need for every message in the corpus, pool sizes, all chunkings, all declared-length headers with missing data",
"Tests check a few limits on one message; accounting mistakes show only for particular combinations of limit, nesting, page state and chunking.",
[N,NH,R,E],[("reservation of bytes before nodes",N),("max_size/max_nodes checks",N)],["mpack_tree_error","allocator requests (sizes, totals)"],
[("node_count, possible_nodes_left","limit accounting",N)])

P_("C08","The first error is sticky, reported once, and all later results are safe",
"Once any error is flagged on a reader, writer or tree, that first error is what every later query and the destroy call return, the error handler has been called exactly once with it, and later calls have no observable effect. Later calls return nil/zero/false/NULL or the documented error value (minimum of a range, the enum count, an empty string buffer), never touch the source or sink again, and cannot change or clear the error.",
["histories","inputs"],"every operation sequence up to the depth bound with an error arising or flagged at every position, for all reader, expect, writer, builder and node operations and all error codes",
"Tests check a few operations after a few errors; 'every later call' quantifies over the whole API at every point of every history.",
[R,W,N,E,RH,WH,NH,EH],[("flag_error functions",R),("flag_error functions",W),("flag_error functions",N),("error checks at function entry",E)],["error queries","error handler calls","return values","callback invocations"],
[("error","sticky first error",RH)])

P_("C09","Any allocation failure is reported cleanly and leaks nothing",
"If any single allocation or reallocation request fails (or all from some point on), the affected reader, writer, builder, tree or helper reports the memory error, returns NULL/no data, and every block obtained is released exactly once by the time the object is destroyed. No failure point causes a crash, an out-of-bounds access, a leak, a double free or a wrong result reported as success.",
["fault_sequences","histories","configurations"],"every allocation site instance in every scenario of the corpus failing, singly and permanently, with and without a custom realloc, in tracking and non-tracking builds",
"The suite injects failures into a few scenarios; each scenario has its own failure points and unusual page/buffer states are not reached.",
[W,R,N,E,C],[("allocation result checks",W),("page and stack growth",N),("track stack growth",C)],["error codes","allocator ledger","AddressSanitizer"])

P_("C10","I/O failures never pass silently and never leak handles",
"If opening, reading, writing, seeking or closing a file fails at any point, or a fill, read, skip or flush callback fails or flags an error, the object reports an error (the callback's own error if it flagged one) unless all data was nevertheless transferred completely, and success is never reported for data that was not completely read or written. Files the library opened or was told to close are closed exactly once in every outcome, files it was told not to close are left open, and all memory is released.",
["fault_sequences","histories"],"every I/O operation of every scenario failing, singly and permanently, seekable and non-seekable files, every callback call failing in each documented way",
"The suite fails some libc calls in a few scenarios; it does not enumerate every call in every reader, writer and tree scenario.",
[W,R,N],[("file reader/writer/tree adapters",R),("file flush and close",W),("file tree loading",N)],["error codes","number of closes per handle","bytes on disk"])

P_("C11","Jumping out of an error handler is safe at every point",
"If the error handler of a reader, writer or tree leaves by a non-local jump, whatever error triggered it and wherever it was triggered (including the final flush during destroy), the object still reports that error and can be destroyed afterwards. Destroying it then does not call the handler again, releases all memory and closes owned files exactly once, with no access to freed memory.",
["fault_sequences","histories"],"every error point of every scenario (data errors, injected allocation and I/O failures, user-flagged errors), with the handler jumping out and the object destroyed after or inside it",
"The suite contains no enumeration of jumps at all failure points; partially updated state is visible only when the jump happens exactly there.",
[W,R,N],[("state made consistent before flagging",N),("teardown ordering",W),("teardown ordering",R)],["error handler calls","allocator ledger","handle ledger","AddressSanitizer"])

P_("C12","Builders produce the same bytes as explicit counts",
"For any nesting of built and explicitly counted maps and arrays with any contents, completing the outermost builder yields exactly the bytes that explicit counts would have produced, whatever the builder page size, page layout, writer buffer size or sink, and writing can continue normally before, between and after builds. Nothing is flushed while a build is open, and asking for a flush of the message then is refused as a bug.",
["histories","configurations"],"every operation sequence up to the depth bound (start/build/complete, small and page-crossing elements), several page sizes with and without internal storage, fixed, flushing and growable writers",
"Tests build a few documents with one page size; page-boundary layouts depend on the exact byte position of every element and build header.",
[W,WH],[("builder page chain and build records",W),("resolve into the writer",W)],["output bytes","flush calls","mpack_writer_error"],
[("builder pages","deferred contents with build records",W)])

P_("C13","Write tracking flags exactly the structural mistakes",
"In tracking builds, a writer flags a bug error at exactly the first call that is structurally wrong (too many or too few elements or bytes, a map key without value, finishing or completing the wrong kind or the wrong type, elements inside a string, unclosed compounds at flush or destroy) and flags nothing for any structurally correct sequence.",
["histories"],"every sequence of start/build/finish/complete/element/bytes calls up to the depth bound, correct or not, compared step by step with a pushdown model",
"Tests check about a dozen specific mistakes; correctness of the tracker is a statement about every call sequence.",
[C,W,WH],[("track stack push/pop/element/bytes",C)],["mpack_writer_error after each call","break handler"],
[("track stack","open compounds and remaining counts",C)])

P_("C14","Read tracking flags exactly the structural mistakes",
"In tracking builds, a reader flags a bug error at exactly the first call that is structurally wrong (reading past the end of a compound, finishing early or with the wrong type, reading elements inside a string, partial in-place/UTF-8/string reads where the whole is required, unfinished compounds at destroy or when querying remaining data) and flags nothing for any structurally correct reading of any valid message.",
["histories","inputs"],"every sequence of read/peek/bytes/skip/done/discard calls up to the depth bound over small messages, compared step by step with a pushdown model",
"Tests check a few misuse cases; the tracker must agree with the document structure for every call sequence.",
[C,R,RH],[("track stack push/pop/element/bytes",C)],["mpack_reader_error after each call","break handler"],
[("track stack","open compounds and remaining counts",C)])

P_("C15","Expect number reads are lossless, range-exact, and refuse all else",
"Each expect number function accepts an encoded number of any width and signedness exactly when its value is representable in the requested type (and inside the requested range or equal to the requested match), returns exactly that value, and otherwise flags the type error and returns the documented default. Lax float/double reads convert any number as the language does, strict ones accept only types that cannot lose precision, and nil/bool/true/false reads accept exactly those values.",
["inputs"],"every one-byte encoding and all boundary values in every encoding width for every function and every boundary range; all 16-bit encodings; every non-number type",
"Tests sample boundary values for some function/encoding pairs; the full product of encodings, functions and ranges is not covered.",
[E,EH],[("per-type conversion and range checks",E)],["return values","mpack_reader_error","bytes consumed"])

P_("C16","Node number reads are lossless and refuse everything else",
"Each node value accessor accepts an encoded number of any width and signedness exactly when its value is representable in the requested type, returns exactly that value, and otherwise flags the type error and returns zero/false. Lax float/double reads convert any number as the language does, strict ones accept only types that cannot lose precision, and the expect functions accept exactly the same numbers with the same results.",
["inputs"],"every one-byte encoding and all boundary values in every encoding width for every accessor; all 16-bit encodings; every non-number type",
"Tests sample boundary values for some accessor/encoding pairs only.",
[N,NH],[("per-type conversion and range checks",N)],["return values","mpack_node_error"])

P_("C17","Map and array lookups return the unique match or the right error",
"Looking up an integer or string key in a map node returns the value of the entry whose key equals it (by numeric value regardless of encoding width or signedness, or by exact bytes) when there is exactly one; a duplicate key is a data error; an absent key is a data error for required lookups, a missing node for optional ones and false for containment tests. Index access returns the element, key or value at that position and out-of-bounds indices are data errors, non-map or non-array nodes are type errors, and every error yields a nil node or zero.",
["inputs"],"all maps up to the entry bound over an alphabet of colliding keys (same number in different encodings, negative/unsigned confusions, string prefixes, non-key types) times all queries; every index",
"Tests look up present and absent keys in a couple of maps; duplicates after the match, encoding-equivalent keys and sign confusions need the enumeration.",
[N,NH],[("map search with duplicate detection",N)],["returned node","mpack_node_error"])

P_("C18","Expect matchers accept exactly what they name and nothing else",
"Key matchers (string and integer keys with found flags), enums, string/tag matches, fixed-size reads and the counted, ranged, optional (or_nil) and allocating map/array reads each succeed with the documented result exactly for the inputs they name. An unrecognised key or enum string yields the count (without error where documented), a repeated key, a mismatch, an out-of-range count or a wrong type flags an error with the documented return value, and after success the reader stands exactly behind what was consumed.",
["inputs","histories"],"all one-object inputs over an alphabet of headers and short contents (including bytes above 0x7f, embedded NUL, prefixes) for every matcher and every bound around the actual size; all key sequences up to the bound",
"Tests exercise each function with one or two inputs; acceptance must be exact over all inputs.",
[E,EH],[("key matching with found array",E),("in-place string comparison",E),("count range checks and array allocation",E)],["return values","out parameters","mpack_reader_error","next element read"])

P_("C19","UTF-8 checks accept exactly well-formed UTF-8",
"Every API that validates UTF-8 (writing, reading, expecting, in-place, copying, allocating and node checks) accepts a byte string exactly when it is well-formed UTF-8 as defined by Unicode (no overlongs, surrogates, values above U+10FFFF, truncated or stray bytes), and the C-string variants additionally reject NUL bytes; non-UTF-8 C-string variants reject exactly strings containing NUL. Rejected strings flag the documented error and accepted ones are delivered unchanged.",
["inputs"],"all byte strings up to length 4 (all 2^32 at the deepest tier; all boundary-class bytes at length 4 on every change), embedded at every offset in longer strings, through every API",
"Tests contain a list of good and bad sequences; the acceptance set is defined over all byte strings.",
[C,R,N,E,W],[("UTF-8 validator",C)],["error codes","delivered bytes"])

P_("C20","Timestamps round-trip exactly and malformed ones are rejected",
"Every (seconds, nanoseconds) pair with nanoseconds at most 999,999,999 is written in the smallest timestamp format the specification provides and read back unchanged by the reader, expect and node APIs; larger nanoseconds are refused as a bug when writing. When reading, any extension of the timestamp type with an unsupported size or out-of-range nanoseconds, and any other type, is an error yielding a zero timestamp.",
["inputs"],"all combinations of boundary and bit-walking seconds and nanoseconds, all sizes 0-20 and payload patterns for reading, all three readers",
"Tests cover a list of boundary timestamps; the 34/30-bit packing boundary and range checks are defined over all values.",
[W,R,N,E],[("timestamp packing",W),("timestamp unpacking",R),("timestamp unpacking",N)],["bytes written","returned timestamp","errors"])

P_("C21","Copying and allocating string/data reads are bounded and exact",
"Functions that copy or allocate strings or data from a reader or node deliver exactly the object's bytes when they fit the given limit (null-terminated for C-string variants, with the right size reported) and otherwise flag an error. They never write beyond the given size, and on any error C-string buffers contain an empty string, sizes are zero and allocating variants return NULL. Reading an empty string or data succeeds whatever the allocator returns for a request of zero bytes.",
["inputs","fault_sequences"],"every content length and every buffer/limit size around it, with and without NUL bytes, str/bin/ext and wrong types, every chunking and every truncation of the source",
"Tests use fitting and obviously too small buffers; off-by-one limits and failures in the middle of the data need enumeration.",
[R,E,N],[("cstr and buffer reads",R),("bounded expects",E),("node copies",N)],["buffer contents","returned size/pointer","errors","guard bytes"])

P_("C22","No byte sequence can corrupt memory, hang or crash a reader or tree",
"For every byte sequence, reading it with any reader, expect, skip, discard, tree, node or debug-print call terminates, touches only memory it owns and either yields values or flags an error; in-memory sources are never read past their end. This holds in speed-, size-optimised, debug and release builds.",
["inputs","configurations"],"all byte strings up to the length bound over an alphabet containing every header class and extreme lengths, each driven through every API under sanitizers with a step bound",
"Fuzzing and tests sample inputs; this enumerates every short input over the header alphabet in every API.",
[R,N,E,C],[("bounds checks before every load",R),("bounds checks before every load",N)],["AddressSanitizer/UBSan","termination"])

P_("C23","Skipping and discarding land exactly behind the object",
"Discarding any object, or skipping string contents, leaves the reader exactly at the following object with the same remaining bytes as reading it fully would, whatever its nesting, the chunking of the source, or whether a skip function or seek is used; discarding or skipping incomplete data is an error. The remaining-data query returns exactly the unread buffered bytes.",
["inputs","histories"],"all documents up to the node bound followed by a sentinel, all chunkings and buffer sizes in range, with and without skip function, every truncation",
"Tests discard a few objects from memory; the skip/fill/seek paths depend on sizes relative to the buffer.",
[R,RH],[("recursive discard",R),("skip using fill, skip callback or seek",R)],["next tag","mpack_reader_remaining","source position"])

P_("C24","Build configuration never changes observable results",
"The same calls give the same bytes, values and errors in every build configuration that includes the features used: debug or release, optimised for size or speed, with or without tracking, compiler builtins, the standard library, extensions or compatibility, any buffer/page/stack sizing option, as C or C++ and for 32- or 64-bit targets. Where a feature is missing only its documented consequences differ (limits of fixed buffers and stacks, unsupported extensions, rounding without double support), and on malformed data the builds agree that there is an error.",
["configurations","inputs"],"one exhaustive corpus of write, read, expect, node and builder histories executed in each of a matrix of configurations and compared result by result",
"The suite runs its sampled assertions in several configurations but never compares configurations on an exhaustive corpus.",
[W,R,N,E,C,P,PH],[("configuration macros",PH),("alternative code paths per configuration",W)],["digest of all results per history"])

P_("C25","File-based readers, writers and trees equal their in-memory forms",
"Writing to a named file or a FILE stores exactly the message bytes, and reading or parsing a file gives exactly the results of parsing its contents in memory, including multiple messages, non-seekable streams and a stream that is not at its start being read from the current position by readers. Tree loading honours its maximum byte count exactly (0 meaning unlimited), refuses an empty file, and handles are closed or left open exactly as requested. (Tree loading needs a seekable file and starts at its beginning.)",
["inputs","histories"],"all corpus documents and all file sizes around buffer-size multiples, every max_bytes around the file size, seekable and non-seekable streams, both close modes",
"Tests use one file with one size; end-of-file handling depends on the file size relative to the internal buffer.",
[W,R,N],[("stdio adapters",R),("stdio adapters",W),("stdio adapters",N)],["file contents","parsed values","handle state"])

P_("C26","Debug printing is bounded, faithful and consistent",
"Printing any message to a buffer of any size writes only inside it, always null-terminates it, and yields the longest prefix of the full text that fits; printing to a callback or file yields the full text. Text printed from raw data equals text printed from the parsed tree, shows every value of the document, and erroneous data is reported with an error marker instead of a crash.",
["inputs"],"all documents up to the node bound plus every truncation, every buffer size from 1 to beyond the text length",
"Tests compare one file's output; buffer-size and truncation behaviour is defined for every size and document.",
[R,N,C],[("print buffering",C),("element printers",R),("element printers",N)],["text output","guard bytes"])

P_("C27","Tag comparison is a total order that matches value equality",
"Comparing tags is reflexive, antisymmetric and transitive, and two tags compare equal exactly when they have the same value: integers by numeric value regardless of signedness of storage, floats and doubles by bit pattern within their own type, lengths and counts for compound types, extension type included.",
["inputs"],"all pairs and triples over an alphabet of boundary tags of every type",
"Tests compare a few pairs; transitivity and antisymmetry quantify over triples and pairs.",
[C,CH],[("mpack_tag_cmp",C)],["mpack_tag_cmp, mpack_tag_equal"])

P_("C28","Replacement libc helpers behave like the C library",
"When built without the standard library, the library's own memory and string helpers give results indistinguishable from the standard functions for every size, content, alignment and (for moves) overlap, with comparison results of the same sign.",
["inputs","configurations"],"all lengths and offsets up to the bound, all overlaps, all contents over a small byte alphabet including values above 0x7f",
"The embedded test builds only run whatever the sampled tests happen to copy or compare.",
[P,PH],[("fallback implementations",P)],["buffer contents","return values"])

P_("C29","Builds without float or double hardware keep number semantics",
"Builds without float or without double support read, write and report the raw bit patterns of the unsupported type unchanged, and float-only builds convert doubles by truncation: NaN stays NaN, infinities and values too large for a float become infinity of the same sign, tiny values become zero of the same sign and every other value becomes its truncated float. No finite double ever becomes NaN.",
["inputs","configurations"],"every exponent with boundary and walking significands for both signs, through tag, expect and node reads; all write/read raw patterns at boundaries",
"Tests convert a handful of doubles; the exponent boundaries are not enumerated.",
[CH,E,N,W],[("manual double-to-float shortening",CH),("raw float/double paths",E)],["returned bits","bytes written"])

P_("C30","Whatever is written is read back identically by every API",
"Any document written with the write API (known counts, chunked data, builders or generic tags) is read back with the same structure and values by the tag reader, the expect functions and the node tree, each of which ends exactly at the end of the document with no error.",
["inputs","histories"],"all documents up to the node and nesting bound over an alphabet of leaf values of every type and encoding class, four ways of writing, three ways of reading",
"Tests round-trip a few documents; agreement between independent encoders and decoders is a statement about all documents.",
[W,R,N,E],[("encoders",W),("decoders",R),("tree parser",N)],["document read back","errors","bytes consumed"])

P_("C31","Callbacks run at the documented times and teardown exactly once",
"Whatever happens before, the teardown function of a writer, reader or tree runs exactly once, as the last callback, when the object is destroyed (not when the error handler jumps out of the destruction's final flush, but then when destroy is called again), and an error it flags is what destroy returns. Every callback gets its own object with the context set last; flush, fill, skip and read functions are never called in an error state or after teardown; an object initialised in an error state reports that error without calling the handler. Flush and fill functions are refused as a bug for buffers below the documented minimum size. Afterwards the object's storage can be initialised and used again without any trace of the old callbacks.",
["histories","faults"],"all programs of a few operations over every kind of writer, reader and tree with every callback call failing in every way, three handler modes and three teardown modes",
"Tests attach one callback at a time to one history.",
[W,R,N],[("destroy functions",W),("destroy functions",R),("destroy functions",N)],["callback order and counts","errors","contexts"])

P_("C32","Every node accessor accepts exactly its types and enums match exactly",
"On a node of any type, at any place in any kind of tree, and on the missing node an optional lookup returns: each accessor succeeds exactly when its documented type and range allow, returns the value the data holds, and reading has no side effects; otherwise it flags the documented error (type for a wrong type, data for an index past the end or a key not there, invalid for a malformed timestamp) once and returns the neutral result (nil node, zero, NULL, empty string). Indexes of any magnitude are checked without wrapping. Missing nodes are neither nil nor anything else. mpack_node_enum and mpack_node_enum_optional return the index of the first string equal to the node in bytes and length, else the count, with an error only for the former.",
["inputs"],"all pairs of a table of values of every type and width at seven places with every accessor; all short strings with all short lists for enums",
"Tests try each accessor on one or two wrong types and in-range indexes.",
[N],[("mpack_node_* accessors",N),("mpack_node_enum_optional",N),("mpack_node_map_at",N)],["return values","errors","handler calls"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in props: f.write(json.dumps(p)+"\n")
print(len(props))
