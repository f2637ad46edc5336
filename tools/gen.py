#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below. A property is claimed when it has a harness file."""
import json, os, glob, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E, C, F, P, T = "code/source/essentials/", "code/source/core/", "code/source/parsers/", "code/header/", "code/source/threading/"
CO = "code/header/essentials/collections/"
# id, title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)]
PROPS = [
("P01", "Memory primitives copy, move, set, compare, find and swap exactly", "Copying, moving, setting, swapping, comparing and searching a byte range has exactly the effect of its definition for every length, alignment and overlap, and touches no byte outside the range. Comparison orders by the first differing byte; searching returns the first or last occurrence.", "inputs", "every length up to the bound, every relative alignment and overlap, every byte value", "the tests copy a few fixed strings; alignment prologues, word loops and overlap directions depend on values they never take", [E+"memory.c", P+"essentials/memory.h"], [("byte/word/SSE copy loops", E+"memory.c: zpl_memcopy, zpl_memmove, zpl_memset"), ("comparison and search", E+"memory.c: zpl_memcompare, zpl_memchr, zpl_memrchr"), ("swap through a temporary", E+"memory.c: zpl_memswap")]),
("P02", "Arena blocks are aligned, disjoint, in bounds and rolled back exactly", "Every block an arena serves is aligned as requested, lies inside the arena's memory, is disjoint from every other block served since the last reset and is zeroed when zeroing applies; a request that does not fit is refused and changes nothing. Ending a temporary snapshot restores the usage level of its beginning.", "histories", "every sequence of requests, sizes, alignments, base addresses and snapshot nestings up to the bound", "the test suite does not exercise the arena beyond one parse; alignment padding matters only for rare size/base combinations", [E+"memory_custom.c", P+"essentials/memory_custom.h"], [("bump pointer with alignment padding", E+"memory_custom.c: zpl_arena_allocator_proc"), ("snapshots", P+"essentials/memory_custom.h: zpl_arena_snapshot_begin/end")]),
("P03", "Pool blocks are aligned, disjoint, recycled and never lost", "A pool serves exactly as many blocks as it was made for, each aligned, inside the backing memory, zeroed, and disjoint from every other live block; a freed block becomes available again and nothing else changes. Usage accounting equals the live blocks times the block size.", "histories", "every interleaving of allocate, free and free-all, every block size, alignment and block count up to the bound", "alloc_pool tests allocate and free a handful of equal blocks of one size", [E+"memory_custom.c"], [("intrusive free list and block stride", E+"memory_custom.c: zpl_pool_init_align, zpl_pool_allocator_proc")]),
("P04", "Scratch memory never overlaps live blocks, across any wrap-around", "A scratch (ring) allocator never hands out memory overlapping a live block or leaving its buffer, whatever the order of allocations and frees, including across wrap-around; contents of live blocks survive, blocks are aligned and zeroed. When everything has been freed the whole buffer is usable again.", "histories", "every interleaving of allocations and frees (in any order), sizes, alignments and buffer sizes up to the bound", "no test touches the scratch allocator; overlap needs a particular sequence near the end of the buffer", [E+"memory_custom.c"], [("headers, deferred free marks and wrap-around", E+"memory_custom.c: zpl_scratch_allocator_proc")]),
("P05", "Stack allocator keeps LIFO discipline, alignment and contents across growth", "Blocks of a stack allocator are aligned, inside its memory and above every older block; freeing the top block restores the previous level exactly, and growing through the backing allocator preserves all contents and stays within the newly obtained memory.", "histories", "every push/pop sequence, size, alignment and base address up to the bound", "no test touches the stack allocator", [E+"memory_custom.c"], [("offset header and growth", E+"memory_custom.c: zpl_stack_allocator_proc")]),
("P06", "Heap blocks honour size, alignment, zeroing; resize keeps contents", "A heap block is aligned as requested, zeroed and exactly as large as asked; resizing keeps the common prefix, resizing to nothing frees, and copy helpers produce exact independent copies. Optional heap statistics equal the live blocks at every moment.", "inputs", "every size, alignment and resize pair up to the bound", "tests allocate a few fixed sizes with default alignment and never look at statistics", [E+"memory.c", P+"essentials/memory.h"], [("heap allocator", E+"memory.c: zpl_heap_allocator_proc"), ("default resize", P+"essentials/memory.h: zpl_default_resize_align")]),
("P07", "Dynamic arrays behave as sequences across growth", "Appending, inserting at a position, removing, popping, resizing, filling and bulk appends change a dynamic array exactly as the corresponding operation on a mathematical sequence, for every position, across every reallocation, never touching memory outside the allocated capacity and never leaking.", "histories", "every sequence of operations and positions up to the bound, every element value", "the tests never check the array against a model at capacity boundaries", [CO+"array.h"], [("header before the data, capacity growth", CO+"array.h")]),
("P08", "Fixed buffers keep their elements in order within capacity", "Appending to, bulk copying into, filling and popping from a fixed-capacity buffer change its contents exactly as the corresponding sequence operation, within the capacity given at creation.", "histories", "every sequence of operations up to the bound", "no test touches the buffer", [CO+"buffer.h"], [("count/capacity header", CO+"buffer.h")]),
("P09", "Ring buffers deliver the newest elements in order", "A ring buffer delivers its elements in insertion order, overwriting the oldest ones when full, and reports empty, full and contents consistently for every sequence of appends and reads.", "histories", "every sequence of appends and reads up to the bound and every capacity", "no test touches the ring buffer; order bugs need a wrap-around", [CO+"ring.h"], [("head/tail arithmetic", CO+"ring.h: ZPL_RING_DEFINE")]),
("P10", "Linked lists stay consistent in both directions", "After any sequence of insertions and removals, walking a linked list forwards and backwards visits exactly the linked nodes in mirrored order.", "histories", "every sequence of insertions and removals at every position up to the bound", "no test touches the list", [CO+"list.h"], [("next/prev relinking", CO+"list.h: zpl_list_add, zpl_list_remove")]),
("P11", "Hash tables are exact maps under any history", "A hash table returns for every key exactly the value last stored under it and nothing for keys never stored or removed, through any sequence of insertions, updates, removals, clears, rehashes and growths, and iteration visits every live entry exactly once; it leaks nothing.", "histories", "every operation sequence over arbitrary 64-bit keys and values up to the bound", "the table tests use one small key set and one order of operations", [CO+"hashtable.h"], [("chained slots, rehash and removal relinking", CO+"hashtable.h: ZPL_TABLE_DEFINE")]),
("P12", "C-string helpers agree with their definitions and stay in bounds", "Length, bounded length, comparison, bounded comparison, copying, concatenation, search, case folding, prefix/suffix tests, tokenising and line splitting agree with their definition for every string and stay inside the given buffers, producing terminated results where a string is promised.", "inputs", "every byte string up to the bound, every limit", "no test compares these helpers with a definition; limits and missing terminators need particular lengths", [C+"string.c", P+"core/string.h"], [("string helpers", C+"string.c")]),
("P13", "Integer text conversion round-trips in every base", "Formatting any 64-bit integer in a supported base yields its standard digits in that base, parsing decimal or hexadecimal text yields the integer it denotes, the two round-trip, and parsing consumes exactly the numeral.", "inputs", "every 64-bit value in binary and hexadecimal; every value near the type limits in every base; every short text", "tests convert no boundary values such as the most negative integer", [C+"string.c"], [("digit loops", C+"string.c: zpl_i64_to_str, zpl_u64_to_str, zpl_str_to_i64, zpl_str_to_u64")]),
("P14", "Decimal text parses to the nearby floating-point value", "Parsing decimal text yields the value it denotes (exactly for small exactly representable values), reports exactly the consumed text and stays inside the text.", "inputs", "every text over the numeral alphabet up to the bound", "tests parse a handful of literals", [C+"string.c"], [("mantissa/exponent loop", C+"string.c: zpl_str_to_f64")]),
("P15", "UTF-8 codec accepts exactly well-formed sequences and round-trips", "Decoding an arbitrary byte sequence yields the encoded code point with its length for every well-formed sequence and the replacement result for every malformed or truncated one, never reading past the given length; encoding every code point and decoding it again is the identity.", "inputs", "every byte sequence of up to four bytes and every code point", "no test decodes malformed sequences", [C+"string.c"], [("acceptance tables", C+"string.c: zpl_utf8_decode, zpl_utf8_encode_rune")]),
("P16", "UTF-8 and UCS-2 conversion is lossless and bounded", "Converting valid text between UTF-8 and UCS-2 and back is the identity, and conversion of arbitrary input terminates and never reads or writes beyond the given lengths.", "inputs", "every input up to the bound and every output length", "no test converts malformed or truncated text", [C+"string.c"], [("conversion loops with space accounting", C+"string.c: zpl_utf8_to_ucs2, zpl_ucs2_to_utf8")]),
("P17", "String objects keep length, capacity and terminator consistent", "After any sequence of creation, append, set, trim, substring, join and comparison, a string object's length equals its contents, it is terminated, its capacity is never exceeded, contents equal the model result and every block is returned on destruction.", "histories", "every operation sequence over arbitrary short contents up to the bound", "the tests do not exercise string objects directly", [C+"stringlib.c", P+"core/stringlib.h"], [("header before the characters, growth", C+"stringlib.c")]),
("P18", "Sorting sorts, binary search finds, shuffles permute", "Sorting yields an ordered permutation of the input for every input, radix sort is stable and ordered, binary search returns a matching index exactly when one exists, reversing reverses and shuffling permutes.", "inputs", "every array up to the bound, every element value, every random outcome", "no test sorts; the quicksort/insertion cut-over and degenerate pivots need particular inputs", [C+"sort.c", P+"core/sort.h"], [("iterative quicksort with insertion cut-over", C+"sort.c: zpl_sort"), ("radix passes", C+"sort.c"), ("binary search", P+"core/sort.h")]),
("P19", "Checksums and hashes equal their published definitions", "Adler-32, CRC-32, CRC-64, FNV and Murmur digests equal their published definitions for every input, and depend on nothing but the given bytes and seed.", "inputs", "every byte string up to the bound and every seed", "hashing tests check one string each; tail lengths, alignment and table entries are not reached", ["code/source/hashing.c"], [("tables and block/tail loops", "code/source/hashing.c")]),
("P20", "Base64 round-trips and stays in bounds", "Encoding equals standard Base64 for every byte string, decoding an encoded string restores its bytes, malformed text is rejected, and no access leaves the given buffers.", "inputs", "every byte string up to the bound and every text up to the bound", "no test covers Base64", ["code/source/hashing.c"], [("encode/decode tables and padding", "code/source/hashing.c: zpl_base64_encode, zpl_base64_decode")]),
("P21", "Bit, endian, alignment and power-of-two helpers match their definition", "Bit set/reset/get/toggle, endian swaps, power-of-two tests and rounding, alignment of sizes and pointers, hex digit conversion and count helpers compute their mathematical definition for every argument in range.", "inputs", "every argument value at full width", "tests touch few of these and no boundary values", [C+"misc.c", P+"core/misc.h", P+"essentials/memory.h", C+"string.c"], [("bit tricks", C+"misc.c"), ("alignment", P+"essentials/memory.h")]),
("P22", "Random numbers stay in range and unique sequences do not repeat", "Ranged draws lie inside the requested range for every generator state and range, unit draws lie in the unit interval, generated identifiers of the non-repeating generator are pairwise distinct, and reseeding reproduces the sequence.", "inputs", "every generator state and every range", "no test covers the generator; range edges need particular states", [C+"random.c"], [("range reduction", C+"random.c: zpl_random_range_i64"), ("quadratic residue permutation", C+"random.c: zpl_random_gen_u32_unique")]),
("P23", "Memory streams behave like files within their bounds", "Reading, writing and seeking a memory stream behaves as on a file of the same contents: reads return what was written, never past the end, writes never leave the buffer, growable streams grow and keep their contents.", "histories", "every sequence of reads, writes and seeks at every offset up to the bound", "stream tests write and read one small text", [C+"file_stream.c"], [("cursor, size and capacity handling", C+"file_stream.c")]),
("P24", "File operations map exactly to the operating system and release everything", "Opening, reading, writing, seeking, truncating, copying and loading files issue exactly the corresponding system requests, report every failure, handle short transfers, never write outside the caller's buffer and close every descriptor they open.", "fault_sequences", "every result (including failure and short transfer) of every system call up to the bound", "no test injects failures or short transfers", [C+"file.c", C+"file_misc.c"], [("POSIX back end", C+"file.c")]),
("P25", "Tar archives round-trip and malformed archives are rejected safely", "Packing files and unpacking the archive yields the same names and contents, every header carries a valid checksum and sizes, and unpacking arbitrary bytes terminates with an error or success without leaving the archive's bounds.", "inputs", "every small member content and name, every archive of up to the bound", "no test covers tar", [C+"file_tar.c"], [("header encode/decode, padding", C+"file_tar.c")]),
("P26", "Formatted output never exceeds its buffer and is always terminated", "Formatting into a bounded buffer never writes outside it for any format, arguments and size, always terminates the text and returns the length written.", "inputs", "every buffer size, format up to the bound and argument values", "print tests use ample buffers", [C+"print.c"], [("remaining-space accounting", C+"print.c: zpl_snprintf_va")]),
("P27", "Formatted output denotes the argument values", "Integer, character, string, pointer and fixed-point conversions with any combination of flags, width and precision produce the text that denotes the argument as documented.", "inputs", "every argument value and flag/width/precision combination up to the bound", "print tests check about a dozen literals", [C+"print.c"], [("conversion routines", C+"print.c")]),
("P28", "Calendar and clock conversions are consistent", "Clock readings convert between units without loss of order or scale, elapsed and absolute time agree with the clock sources for every reading, and sleeping requests the asked duration.", "inputs", "every clock reading the system may return", "the time test only looks at one reading", [C+"time.c"], [("clock conversion", C+"time.c")]),
("P29", "Regular expressions match exactly their language", "Compiling a pattern never writes outside its storage, malformed patterns are rejected, and matching a text succeeds exactly when the pattern's language says so, returning captures inside the text, and always terminates.", "inputs", "every pattern and text over a small alphabet up to the bound", "no test covers regular expressions", ["code/source/regex.c"], [("compiled op buffer and backtracking matcher", "code/source/regex.c")]),
("P30", "Command-line options are parsed as declared", "For declared options, every command line is parsed to exactly the values it denotes, missing required or malformed options are reported, and nothing outside the arguments is read.", "inputs", "every argument vector up to the bound", "no test covers option parsing", ["code/source/opts.c"], [("flag/value dispatch", "code/source/opts.c: zpl_opts_compile")]),
("P31", "Document trees keep parent and child links consistent", "Building, appending, inserting, moving, swapping, removing and destroying nodes of a document tree keeps every child under exactly one parent with correct back links and order, and returns all memory.", "histories", "every sequence of tree operations up to the bound", "adt tests build one fixed tree", ["code/source/adt.c"], [("child arrays and parent pointers", "code/source/adt.c")]),
("P32", "Document queries and number parsing agree with the document", "Looking up a path or name returns exactly the denoted node or nothing, and number text is classified and converted to the value it denotes, for any text without leaving it.", "inputs", "every query and every number text up to the bound", "adt tests run a handful of queries", ["code/source/adt.c"], [("query walker", "code/source/adt.c: zpl_adt_query"), ("number parser", "code/source/adt.c: zpl_adt_parse_number")]),
("P33", "JSON parsing is safe, and write-then-parse is the identity", "Parsing any text terminates with a tree or an error without leaving the text, accepted documents yield the tree they denote, and writing a tree and parsing it again yields an equal tree.", "inputs", "every text up to the bound over the JSON alphabet and arbitrary bytes; every small tree", "json5 tests parse fixed documents", [F+"json.c"], [("recursive descent parser and writer", F+"json.c")]),
("P34", "CSV parsing is safe, and write-then-parse is the identity", "Parsing any text terminates with the rows and fields it denotes or an error without leaving the text, and writing rows and parsing them back yields the same fields.", "inputs", "every text up to the bound over the CSV alphabet and arbitrary bytes", "csv tests parse a few fixed tables", [F+"csv.c"], [("field scanner", F+"csv.c")]),
("P35", "URI parsing splits and decodes exactly, and writing restores the text", "Parsing a URI splits it into the components it denotes with percent-decoding, malformed input is rejected or handled without leaving the text, and writing the parsed form gives back an equivalent URI.", "inputs", "every text up to the bound", "uri tests parse fixed examples", [F+"uri.c"], [("component scanner and percent coding", F+"uri.c")]),
("P36", "Vector and matrix algebra computes its definition", "Vector arithmetic, lengths, dot and cross products, reflection and refraction, matrix products, transposes, determinants and inverses compute their algebraic definition, also when the result overwrites an operand, for every input: applying a product is applying its factors, and a matrix times its inverse is the identity.", "inputs", "every floating-point input (componentwise)", "no test covers the math module", ["code/source/math.c", P+"math.h"], [("component formulas", "code/source/math.c")]),
("P37", "Atomic operations and the spin lock are linearizable", "Concurrent atomic loads, stores, exchanges, compare-exchanges, additions and bit operations take effect as if one at a time for every interleaving, returning the previous value, and the spin lock never admits two holders nor loses an unlock.", "schedules", "every interleaving of two or three threads up to the bound", "no test runs threads against each other", [T+"atomic.c"], [("lock-prefixed instructions", T+"atomic.c")]),
("P38", "Mutexes, semaphores and sync objects synchronise under every schedule", "A mutex admits one holder, a semaphore admits exactly as many waits as posts, and a sync object releases exactly the waiting threads, for every interleaving and interrupted system call; no wake-up is lost.", "schedules", "every interleaving of up to three threads up to the bound, including interrupted waits", "no test covers them", [T+"mutex.c", T+"sem.c", T+"sync.c"], [("wrapping of system primitives and waiter counting", T+"sync.c")]),
("P39", "Job queues run every accepted job exactly once and shut down", "Every accepted job runs exactly once with its own data, in priority order per the policy, a full queue refuses without losing jobs, and shutting down waits for the workers and never hangs, for every interleaving.", "schedules", "every interleaving of one or two workers with the dispatcher up to the bound", "no test covers jobs", ["code/source/jobs.c"], [("per-priority rings and worker state machine", "code/source/jobs.c")]),
("P40", "Threads start once, run their procedure and are joined", "Starting a thread runs the procedure once with its data, the starter observes it running, the return value is available after joining, and failure to create a thread is reported.", "schedules", "every interleaving of starter and thread, every result of the system calls", "no test starts a thread", [T+"thread.c"], [("start semaphore and running flag", T+"thread.c")]),
("P41", "Virtual memory requests are page exact and released", "Allocating, trimming and freeing virtual memory issues exactly the corresponding system requests on whole ranges, reports failure, and never releases a range still in use.", "fault_sequences", "every size, trim window and system call result up to the bound", "no test covers virtual memory", [C+"memory_virtual.c"], [("mmap/munmap arithmetic", C+"memory_virtual.c")]),
("P42", "Path helpers split and classify every path consistently", "Base name, extension, absolute/relative/root tests and separator fixing agree with the path's text for every path and never leave it; the returned pointers lie inside the path.", "inputs", "every path up to the bound", "no test covers path helpers", [C+"file_misc.c"], [("scans from the end", C+"file_misc.c")]),
("P43", "Directory listings report every entry and close the directory", "Listing a directory reports every entry except the two self references exactly once with its type, recursion visits exactly the sub-directories, and every opened directory is closed, for any directory contents.", "fault_sequences", "every sequence of directory entries and call results up to the bound", "no test lists a directory", [C+"file_misc.c"], [("directory stream handling", C+"file_misc.c: zpl_dirinfo_init, zpl_dirinfo_step")]),
("P44", "Making and removing directories makes every level and reports every failure", "Making or removing a directory issues exactly that request and reports each system error under its own code; making a path recursively makes every level from the outside in, succeeds exactly when the directory exists afterwards, refuses over-long paths, and leaves the path's text alone.", "fault_sequences", "every path, mode and system error up to the bound", "no test makes directories", [C+"file_misc.c"], [("level scan and error mapping", C+"file_misc.c: zpl_path_mkdir, zpl_path_mkdir_recursive, zpl_path_rmdir")]),
    ("P45", "Scalar rounding, remainders, signs and half floats are exact", "Rounding down, up and to nearest gives exactly the mathematical whole number for every float and double, remainders and moduli differ from the dividend by a whole number of divisors within their range, copied signs and half-float conversions are exact for every bit pattern, and the elementary functions are the C library's.", "inputs", "every 32-bit and 64-bit floating-point pattern; remainders over the reals", "no test covers the math module", ["code/source/math.c"], [("integer casts and bit manipulation", "code/source/math.c: zpl_floor, zpl_round, zpl_mod, zpl_float_to_half")]),
    ("P46", "Rotations, quaternions and camera matrices agree with each other", "Quaternion products, inverses and rotations satisfy the quaternion algebra, rotating by a quaternion, by its matrix and by axis and angle agree, view and projection matrices map the eye, the axes and the clipping planes where they belong, and a frustum contains exactly the points whose clip coordinates are inside.", "inputs", "every vector, quaternion, angle and camera up to the bound, over the reals", "no test covers the math module", ["code/source/math.c"], [("quaternion and projection formulas", "code/source/math.c: zpl_quat_mul, zpl_mat4_look_at, zpl_frustum_create")]),
    ("P47", "Rectangles and boxes contain, intersect and divide exactly", "A point is in a rectangle or box exactly when it lies between its edges, two rectangles intersect exactly in the rectangle of their common points, and cutting, growing and shrinking a box divides or changes it by exactly the asked amount without losing area.", "inputs", "every rectangle, box and point", "no test covers the math module", ["code/source/math.c"], [("edge comparisons", "code/source/math.c: zpl_rect2_intersection_result, zpl_aabb2_cut_left, zpl_aabb2_contract")]),
    ("P48", "Interpolation hits its end points and follows its definition", "Linear, smooth, Hermite and quaternion interpolation start and end exactly at their end points, stay linear, monotone or tangent as defined in between, and the inverse of linear interpolation recovers the parameter.", "inputs", "every end point, tangent and parameter, over the reals", "no test covers the math module", ["code/source/math.c"], [("blend formulas", "code/source/math.c: zpl_lerp, zpl_vec3_cslerp, zpl_quat_slerp")]),
    ("P49", "Environment variables and command output are passed through exactly", "Reading a variable gives the value last set or nothing, copies are exact and independent, setting or unsetting one changes no other, and the output of a command arrives completely in a string or as far as it fits in a buffer, never beyond it.", "histories", "every history of setting, unsetting and reading; every output of a command, every buffer size, failure to start", "no test covers the environment or commands", ["code/source/core/misc.c"], [("thin wrappers with their own copying and buffer limit", "code/source/core/misc.c")]),
    ("P50", "Socket calls map exactly to the operating system and release everything", "Creating a socket issues the right requests for its protocol, mode and flags, reports every failure and then leaves no socket or address list behind; every other call passes exactly its arguments, gives returned addresses their full room, and waiting watches exactly the given sockets.", "fault_sequences", "every combination of protocol, mode, flags and address family with a failure of any system call", "the tests open no sockets, and failures cannot be provoked", ["code/source/socket.c"], [("POSIX socket wrappers", "code/source/socket.c")]),
    ("P51", "Console output, processor count and dynamic libraries pass through exactly", "Formatted output to the console reaches exactly its stream, complete and in order, on terminals, pipes and files, and a failed write is reported; the processor description is the system's answer or a marked guess; loading a library, finding a symbol and unloading ask the system for exactly that.", "fault_sequences", "every sequence of outputs, kind of stream, failed write, processor count and loader answer up to the bound", "the tests redirect no output and load no library", ["code/source/core/print.c", "code/source/threading/affinity.c", "code/source/dll.c"], [("console formatting and system wrappers", "code/source/core/print.c: zpl_printf_va, zpl_printf_err_va")]),
]
NA = json.load(open(os.path.join(H, "tools", "na.json")))
def main():
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for (i, t, s, o, q, w, fl, m) in PROPS:
            f.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": o.split(), "text": q}, "why_tests_cant": w,
                                "anchors": {"files": fl, "mechanism": [{"name": a, "where": b} for a, b in m]}}) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p[0]; hs = glob.glob(os.path.join(H, "harness", i + "*.c"))
        if not hs or i in NA:
            na.append({"property": i, "reason": NA.get(i, "no harness yet")}); continue
        src = "".join(open(h).read() for h in sorted(hs)); eng = []
        if re.search(r"^//@ h=", src, re.M): eng.append("CBMC")
        if re.search(r"^//@ x=", src, re.M): eng.append("path-forking symbolic execution of LLVM IR (vpx) with minisat/Z3")
        n = len(re.findall(r"^//@ [hx]=", src, re.M))
        checks.append({"property": i, "quick_cmd": "python3 run_check.py %s --tier quick" % i, "thorough_cmd": "python3 run_check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "bounded symbolic checking of the real sources: " + " and ".join(eng),
                       "level": "model_checking", "level_note": "%d harnesses; every value within the per-harness bounds (//@ lines of harness/%s*.c, repeated in the evidence); nothing is claimed beyond them" % (n, i)})
    json.dump({"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
def design():
    notes = dict(l.rstrip("\n").split(": ", 1) for l in open(os.path.join(H, "tools", "design_notes.md")) if ": " in l)
    o = [open(os.path.join(H, "tools", "design_head.md")).read().rstrip(), "", "## Per property", ""]
    for (i, t, s, ov, q, w, fl, m) in PROPS:
        hs = sorted(glob.glob(os.path.join(H, "harness", i + "*.c"))); o += ["### %s %s" % (i, t), "", s, ""]
        if i in NA or not hs: o += ["Not applicable: " + NA.get(i, "no harness yet"), ""]; continue
        if i in notes: o += [notes[i], ""]
        o += ["Why tests cannot: " + w + ". Quantified over: " + q + ".", "", "| harness | decides | quick bounds | thorough bounds |", "|---|---|---|---|"]
        for h in hs:
            for l in open(h):
                k = re.match(r"//@\s*[hx]=(\S+)\s*(.*)", l)
                if not k: continue
                d = {a: b for a, b in re.findall(r'(\w+)="((?:[^"\\]|\\.)*)"', k.group(2))}; kn = re.search(r"known=(\w+)", k.group(2)); th = "tier=thorough" in k.group(2); c = lambda x: "`" + x.replace(";", " / ") + "`" if x else ""
                o.append("| %s | %s%s | %s | %s |" % (k.group(1), d.get("what", "").replace("|", "\\|"), " (known finding %s)" % kn.group(1) if kn else "", "thorough only" if th else c(d.get("q", "")), c(d.get("t", d.get("q", "")))))
        o.append("")
    o += [open(os.path.join(H, "tools", "design_tail.md")).read().rstrip(), ""]
    open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(o))
main(); design()
