#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep statement text readable)."""
import json, os
H = "include/utl/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

TP = H + "thread_pool.h"; PF = H + "parallel_for.h"; PT = H + "progress_tracker.h"; PTC = "src/progress_tracker.cc"
prop("C01", "Thread pool runs every job of every batch exactly once before returning",
 "When a batch of n jobs is submitted to a thread pool, each index 0..n-1 is passed to that batch's function exactly once, no other index is ever passed, every job has finished and its memory effects are visible to the caller when the submission returns, and no job of one batch ever runs with the function or the count of another. This holds for any number of successive batches of any size on one pool, for any number of workers, and for every thread schedule including spurious wake-ups. Submitting a new non-empty batch from inside a running job is refused with an exception and does not disturb the running batch.",
 ["schedules", "histories", "configurations"], "every interleaving of the workers and the submitting thread, for every sequence of batch sizes, with spurious condition-variable wake-ups allowed",
 "No test exercises the thread pool at all; a stress test would sample a vanishing share of the interleavings between a late worker of one batch and the set-up of the next.",
 [TP], [("batch set-up under the pool mutex; refusal while workers are active", TP + ": execute"), ("job claiming by an atomic counter", TP + ": worker loop"), ("completion wait on active workers and counter", TP + ": execute")])
prop("C02", "Thread pool lifecycle: worker hooks run once each and shutdown always completes",
 "Each worker of a thread pool runs the initializer exactly once before its first job and the finalizer exactly once after its last job, on its own thread, and all finalizers have run and all workers have ended when the pool's destruction returns. Construction, submission of any batch (including an empty one, which runs nothing and returns at once, wherever it is submitted from) and destruction terminate under every schedule, without lost wake-up or deadlock, even if the pool is destroyed immediately after construction or never used. Accesses to the pool's shared data are free of data races.",
 ["schedules", "histories", "configurations"], "every interleaving of construction, batches and destruction, with spurious wake-ups allowed, for every worker count",
 "No test constructs a pool; lost wake-ups and start-up/shutdown races need one particular schedule.",
 [TP], [("worker loop with initializer, finalizer", TP + ": constructor"), ("stop flag and join", TP + ": destructor")])
prop("C03", "Parallel loops run every element exactly once and finish before returning",
 "A parallel loop over n jobs (by index, with a per-thread local object, or over a const or non-const container, with or without progress description) calls the user function exactly once per index or element, calls the progress callback exactly once with that index after each job that completed and never for another, and returns an empty error list only after all these calls have finished and their effects are visible to the caller. An object declared per-thread is created once per worker, handed only to calls made on that worker, and never used by two threads. This holds for every schedule, every worker count (including when the platform cannot report one) and every n including 0, and the library's own state is free of data races.",
 ["schedules", "inputs", "configurations"], "every interleaving of the worker threads, for every job count, worker count and entry point",
 "No test exercises the parallel loops; missing or doubled indices depend on the interleaving and the worker count.",
 [PF], [("atomic index claiming", PF + ": parallel_for_run, parallel_for_run_threadlocal"), ("container adaptors", PF + ": parallel_for overloads"), ("join of all workers", PF)])
prop("C04", "Parallel loops report failures completely and stop as the chosen strategy says",
 "With the continue strategy every job is still run exactly once and the returned list holds exactly one entry per job that threw (from the job or its progress callback), pairing that job's index with the exception it threw. With the quit strategy the call throws exactly when some job threw, the exception is one of those thrown by a job of this call, it is thrown only after all workers have ended, no job runs twice, and once the failure has been flagged no worker starts a further job beyond the one it has already claimed. This holds for every schedule and every set of failing jobs, without data races, lost errors, deadlock or a call to terminate.",
 ["schedules", "inputs", "fault_sequences"], "every interleaving and every subset of failing jobs and progress callbacks, under both strategies and all entry points",
 "No test runs a failing job in parallel; lost or mislabelled errors need two workers to fail at specific moments.",
 [PF], [("error collection under a mutex", PF + ": catch handlers"), ("quit flag", PF), ("rethrow after join", PF)])
prop("C05", "Concurrent progress updates never lose or distort the final progress",
 "After any set of concurrent absolute, monotonic and incremental progress updates has finished (bounds configured beforehand), the input counter equals the result of the updates in some order (the sum for increments, the maximum for monotonic updates) and the reported output is exactly the output for that input: it is never left at a stale value. While only increments and monotonic updates run, the output never decreases, always stays within the configured output bounds, and every callback is triggered by an actual change of the output value. No schedule causes a data race, deadlock or crash.",
 ["schedules", "histories"], "every interleaving of updates from several threads, including spurious failure of weak compare-and-swap",
 "Existing progress tests are single threaded (and not built here); a lost update needs a specific interleaving of read, compute and publish.",
 [PT, PTC], [("atomic input counter", PTC + ": update, update_monotonic, increment"), ("output recomputation and publication", PTC + ": update_out")], ["the tracker's callback and its public output and input values"])
prop("C06", "Progress tracker maps input to output and notifies exactly on change",
 "For every sequence of configuration chains and updates, the tracker's output equals the lower output bound plus the input share of the output range, rounded to the configured step and clamped to the bounds (never NaN, also when the input range is 0, where any processed input counts as complete), and changing any bound resets the input to 0 and the output to the lower bound. A configuration chain invokes the callback exactly once, at the end of the chain and without holding the tracker's lock, if and only if it changed something; an update invokes it exactly once if and only if the output changed. Contradictory bounds (lower above upper) and non-positive steps are refused with an exception and leave the tracker usable.",
 ["histories", "inputs"], "every sequence of configuration chains and updates over any bounds, steps and inputs",
 "The repository's tracker tests check a handful of scripted sequences and are excluded from this build.",
 [PT, PTC], [("configuration chain with one notification on destruction", PTC + ": tracker_update"), ("output function", PTC + ": update_out")], ["callback invocations", "public status, bounds, input and output values"])
prop("C07", "Global progress registry is consistent under any use and any schedule",
 "Looking up a progress tracker by name returns the same tracker for the same name and different trackers for different names until the registry is cleared; the active tracker is the one last activated, asking for it when none is active fails with an exception (or activates the named one, for the activate-on-demand lookup, which never replaces an existing active tracker), and clearing forgets all trackers and the active one while trackers still held by users stay usable. A progress-bar scope sets silent mode and on exit restores the previous mode and clears the registry; in silent mode nothing is printed, otherwise every reported change redraws one line per registered tracker in name order showing its current status and percentage. Registry operations, updates and printing from several threads never deadlock or race.",
 ["histories", "schedules"], "every sequence of registry operations, and every interleaving of them from several threads",
 "No built test touches the registry; identity and lock-order defects depend on operation order and interleaving.",
 [PT, PTC], [("registry map and active tracker under one mutex", PTC + ": get_tracker, activate_*, get_active_*"), ("printing under registry then tracker lock", PTC + ": print"), ("scoped silent mode", PTC + ": global_progress_bars")])

CS = H + "parser/cstr.h"; AP = H + "parser/arg_parser.h"; CV = H + "parser/csv.h"; CR = H + "parser/csv_range.h"
prop("T01", "Slicing a string view never escapes the original text",
 "Taking a sub-string of a view by position and length, by begin and end, by begin only or by field description, and trimming white space or a trailing carriage return, always yields a view that lies entirely within the original, whatever the arguments: positions and sizes beyond the end are clamped, and an inverted range is empty. Whenever the requested range lies inside the original, the result is exactly that range.",
 ["inputs"], "every text and every position, length, begin/end pair and field, including the largest representable values",
 "Tests check about ten argument combinations on two strings; the wrap-around cases are not among them.",
 [CS], [("substr overloads", CS + ": cstr::substr"), ("trim helpers", CS + ": trim, skip_whitespace_front, skip_whitespace_back, strip_cr")])
prop("T02", "String view comparison and search agree with the bytes",
 "Equality, inequality and ordering of two views agree with byte-wise comparison of their full contents (including embedded zero bytes and empty or null views), and so do prefix tests, containment tests and the offset search, which returns the first match position or the maximal value if there is none. Constructing a view from any supported source and converting it back to an owned string or standard view preserves the bytes and never copies beyond them. Searching for a delimiter returns the text before its first occurrence, or all of it.",
 ["inputs"], "every pair of byte strings, including embedded zeros, non-ASCII bytes and empty operands",
 "Tests compare only a few printable strings; embedded zero bytes and high bytes never occur.",
 [CS], [("comparison operators", CS + ": operator==, operator<"), ("search", CS + ": contains, starts_with, substr_offset, get_until")])
prop("T03", "Tokenizing and line splitting are complete, ordered and mutually consistent",
 "Splitting a text at a separator yields, in order and exactly once, every piece between separators, with one trailing empty piece omitted, so that the pieces joined by the separator reproduce the text up to that final separator; breaking off early stops right after the requested piece, and numbering counts 1, 2, 3 and so on. All line facilities (callback, numbered callback, iterator range including iterator stepping by n, first line, skipping leading lines) see the same sequence of lines, with exactly one carriage return removed before the end of a line. Skipping lines leaves exactly the text from the first line that is not skipped.",
 ["inputs"], "every text over separators, carriage returns, newlines and ordinary bytes, and every stop position or skip predicate",
 "Tests check a dozen short texts; consistency between the different facilities on the same text is not tested.",
 [CS], [("for_each_token, for_each_line, numbered variants", CS), ("lines, line_iterator", CS), ("skip_lines, get_line", CS)])
prop("T04", "Line readers deliver every line of a buffer or file exactly once",
 "Reading line by line through a memory buffer reader, a memory-mapped file reader, a line range over either, or a whole-file line loop yields every line of the content in order and exactly once, including empty lines and a last line without newline, and then signals the end persistently. Lines are views into the content with the newline removed, block reads from a mapped file return consecutive pieces that never pass the end, and reported progress never decreases and never exceeds the total. A file that the mapped reader cannot open, read or map is reported by an exception, not by invalid data.",
 ["inputs", "histories"], "every content (any arrangement of newlines, empty lines, missing final newline) and every sequence of read operations",
 "There is no built test of the readers; empty lines in the middle and end-of-buffer cases are not covered.",
 [H + "parser/buf_reader.h", H + "parser/mmap_reader_unix.h", H + "parser/line_range.h", H + "for_each_line_in_file.h"],
 [("read_line", H + "parser/buf_reader.h, " + H + "parser/mmap_reader_unix.h"), ("line_range", H + "parser/line_range.h"), ("for_each_line_in_file", H + "for_each_line_in_file.h")])
prop("T05", "Integer parsing is exact, consumes exactly the number and never misbehaves",
 "Parsing an integer of any width and signedness from a text reads an optional sign (minus only for signed types) and the longest run of digits, leaves the rest of the text unconsumed, stores exactly the value written whenever it fits the type (including the smallest and largest values), and reports success exactly when at least one digit was read and the whole text was consumed. Without a digit the caller's default is stored, the verifying variant throws exactly when success is not reported, and stream-style extraction consumes the same text. No text, however long or malformed, causes undefined behaviour or a read outside the text.",
 ["inputs"], "every text over digits, signs, blanks and other bytes, for every integer type",
 "The parser tests are excluded from this build and hold a few decimal samples; limits of each type and malformed signs are not covered.",
 [AP], [("integral parse_arg", AP), ("parse, parse_verify, operator>>", AP)])
prop("T06", "Floating point, boolean and string parsing agree with the text",
 "Parsing a decimal number with optional sign, digits, point and fraction yields the written value up to rounding error of the target type, for magnitudes beyond the range of int as well, and reports success only if the whole text is such a number containing at least one digit. Booleans are read case-insensitively from exactly true or false, which are consumed, and nothing else succeeds; string, view, non-owning string and path targets receive exactly the bytes of the view. Nothing is read outside the text.",
 ["inputs"], "every text over digits, sign, point, letters and other bytes",
 "The parser tests are excluded from this build and hold single samples.",
 [AP], [("parse_fp", AP), ("bool, string, path parse_arg", AP)])
prop("T07", "CSV tables are read exactly as written",
 "Reading a well-formed CSV text (any separator, LF or CRLF line ends with or without a final one, quoted cells containing separators and doubled quotes, no line break within a cell) yields one record per data row, in order, each requested column taking the value of the cell under the header of that name whatever the order and number of columns in the file; columns not requested are ignored and requested columns that are absent leave the default. String cells come back unescaped, numbers and booleans with their written value. Reading the same text from memory and from a file gives the same records.",
 ["inputs", "configurations"], "every well-formed table: column orders, missing and extra columns, quoting, line endings, separators and cell contents",
 "The CSV tests are excluded from this build and hold about ten literal tables.",
 [CV], [("header mapping", CV + ": read_header"), ("cell scanner", CV + ": parse_column"), ("rows and values", CV + ": read_row, read_rows, read, parse_value, unescape_quoted_string")])
prop("T08", "Streaming CSV ranges yield one typed record per line, in order",
 "A CSV range over a line reader yields, lazily and in order, exactly one record per non-empty data line, with fields matched to columns by header name regardless of column order, absent columns and empty cells left at their default, and a leading UTF-8 byte order mark ignored; an input with only a header or nothing at all yields no record. Every record equals what the table reader returns for the same well-formed text (cells without line breaks), and the range composes with the other pipeline stages.",
 ["inputs", "configurations"], "every well-formed single-line-cell table, line ending, blank line placement and separator, from memory and from mapped files",
 "The streaming CSV tests are excluded from this build; blank lines and column permutations are hardly covered.",
 [CR, H + "parser/line_range.h"], [("csv_range", CR), ("header mapping with BOM", CR + ": read_header"), ("line source", H + "parser/line_range.h")])
prop("T09", "Malformed CSV input never breaks memory safety or termination",
 "For every byte sequence, however malformed (unterminated or misplaced quotes, lone carriage returns, missing or surplus cells, more columns than supported), reading it as a CSV table, as a CSV stream, as a single cell or by splitting a line terminates, touches no memory outside the text and its own results, and either returns records whose text cells are views inside the original text (or copies of bytes from it) or throws the documented too-many-columns error. An unterminated quoted cell extends to the end of its line or of the text at most and never loses bytes before the quote.",
 ["inputs"], "every byte sequence over quotes, separators, line breaks and ordinary bytes",
 "No built test feeds malformed CSV.",
 [CV, CR, H + "parser/split.h"], [("cell scanner", CV + ": parse_column"), ("header and row loops", CV + ", " + CR), ("column limit", CV + ": MAX_COLUMNS")])
prop("T10", "Command line flags are recognised, valued, required and described correctly",
 "Parsing an argument vector sets every declared flag from its last occurrence under its short or long name: boolean flags become true, other flags take the value of the following argument, flags not given keep their default, and unknown arguments are ignored. A flag followed by nothing or by an empty argument lacks its value and counts as not given; a required flag that is absent or lacks its value makes parsing fail with an error naming the flag, and nothing outside the argument vector is read. The generated description and value listing contain one line per declared flag, in declaration order, with its names, required marker and text or current value.",
 ["inputs", "configurations"], "every argument vector over flag names, values and other words, for flag sets mixing types, short and long names and required markers",
 "The command line tests are excluded from this build and hold four argument vectors.",
 [H + "cmd_line_parser.h"], [("parse_flags", H + "cmd_line_parser.h"), ("description, print_flags", H + "cmd_line_parser.h")])
prop("T11", "Splitting a delimited line fills typed fields in order",
 "Splitting a line into a tuple of typed fields assigns the n-th cell to the n-th field for every field type and separator, quoted cells losing their quotes; fields without a cell are default-initialised, empty or non-numeric cells give the zero value, and surplus cells are ignored. String fields are exact views or copies of their cell.",
 ["inputs"], "every line over digits, letters, quotes and separators, for tuples of different sizes and types",
 "The split test is excluded from this build and holds one line.",
 [H + "parser/split.h", CV], [("split", H + "parser/split.h"), ("parse_column", CV)])

FI = H + "parser/file.h"; RF = H + "read_file.h"; MU = H + "parser/mmap_reader_unix.h"
prop("F01", "Reading a whole file gives all of it or reports failure",
 "Every way of reading a whole file (optional-returning read, file object returning a string or a buffer, memory-mapped reader) returns exactly the file's bytes, of any length including 0 for the non-mapping readers, with binary content unchanged, or reports failure (no value or an exception). If any of the underlying system operations fails or delivers less data than announced at any point, the result is never a truncated, padded or partly uninitialised content presented as success. Repeated reads on one file object give the same content, the reported size is the true size, and no descriptor or mapping stays open afterwards, in success or failure.",
 ["fault_sequences", "inputs"], "every file size around block boundaries and every position and kind of fault (failing open, stat, seek, read, map; short and interrupted reads)",
 "No test reads a file, and no test can inject a failing or short read at each step.",
 [RF, FI, MU], [("optional-returning read", RF), ("file::content, content_str, size", FI), ("mmap_reader", MU)])
prop("F02", "Writing a file is complete or reports failure",
 "When a write through a file object used for writing returns normally, exactly the given bytes, in order after those written before, have been handed to the operating system, and reading the closed file gives exactly the concatenation of all successful writes; if any underlying operation of a write fails or accepts less than everything without recovering, that write throws. Opening a file that cannot be opened throws, and the descriptor is closed exactly once in every case.",
 ["fault_sequences", "histories"], "every sequence of write sizes around block boundaries and every position and kind of fault (failing, short and interrupted writes)",
 "No test writes a file or injects a write fault.",
 [FI], [("file::write and close", FI)])

BU = H + "parser/buffer.h"; RA = H + "raii.h"; GE = H + "generator.h"
prop("R01", "Buffers and mapped files are owned by exactly one object and released once",
 "Through any sequence of construction, resizing, move construction, move assignment (also onto itself) and destruction of buffers and mapped-file readers, each allocation, mapping and descriptor has exactly one owner, is released exactly once when its owner is destroyed or overwritten, and is never used afterwards. The owner shows exactly the content and size it was given or took over (resizing keeps the common prefix), and a moved-from object is empty and safe to assign and destroy. A failing allocation or mapping is reported by an exception and releases everything acquired so far.",
 ["histories", "fault_sequences"], "every sequence of ownership operations on several objects, with allocation and mapping failures at every point",
 "No test touches move assignment, resizing or failure of these owners.",
 [BU, MU], [("buffer special members and resize", BU), ("mmap_reader::file, memory_map special members", MU)])
prop("R02", "Scope guards run their cleanup exactly once",
 "A scope guard runs its cleanup exactly once when the last guard it was moved into is destroyed, with the guarded value it holds then, and a moved-from guard runs nothing; assigning to a guard by move runs or transfers each pending cleanup exactly once, with none lost or doubled. A resource guard runs its destructor function exactly once on the stored value unless omission was requested. This also holds when the scope is left by an exception.",
 ["histories"], "every sequence of creation, move construction, move assignment and destruction of guards, and every exit path",
 "No test touches the guards.",
 [RA], [("raii", RA), ("finally", RA)])
prop("R03", "A generator delivers the yielded sequence, failures and cleanup faithfully",
 "A generator delivers exactly the yielded values in order, each once, however testing for more, taking a value and collecting the rest are interleaved; testing repeatedly does not advance it. An exception thrown in the body reaches the consumer after all values yielded before it, and the generator then counts as finished; abandoning or destroying a generator at any point destroys the body's local objects exactly once, also after it has been handed over to another owner.",
 ["histories"], "every consumer operation sequence against every body shape (number of yields, exception position, nested locals)",
 "No test touches the generator.",
 [GE], [("promise and resume", GE + ": fill, operator bool, operator()"), ("destruction", GE)])

prop("A01", "Joins partition both sorted inputs into matching and unmatched groups",
 "For two ranges sorted by the given order, a full join reports every group of equivalent elements of either range exactly once, in ascending order: groups with a partner on the other side together with that partner, the others as left-only or right-only; concatenating the reported groups of one side reproduces that side. Inner and left joins report exactly the corresponding subset. All overloads (iterators or containers, default or custom order, different element types) agree.",
 ["inputs"], "every pair of sorted ranges with any multiplicities, over all overloads and iterator categories",
 "Tests check four fixed pairs of ranges.",
 [H + "join.h"], [("join_impl", H + "join.h"), ("inner_join, left_join, full_join", H + "join.h")])
prop("A02", "Sorted difference reports exactly the edits between two sorted collections",
 "For two sorted duplicate-free collections the sorted difference reports, in order, exactly the additions, deletions and (by the deep comparison) changes between them: applying the reported edits to the first collection yields the second, every element occurs in at most one report, and nothing is reported for elements equal under both comparisons. With duplicates, equivalent elements are paired in order and the surplus is reported as additions or deletions.",
 ["inputs"], "every pair of sorted collections with keys and payloads, over iterator and collection overloads",
 "One test checks one pair.",
 [H + "sorted_diff.h"], [("sorted_diff", H + "sorted_diff.h")])
prop("A03", "Grouping functions split a range into its maximal runs",
 "Grouping with sorting leaves the container a sorted permutation of its elements and calls the function once per equivalence class, in order, with exactly that class; linear grouping does not reorder and calls it once per maximal run of elements equal to the run's first. The uniformity test answers whether all elements (or their projections) are equal, is true for empty and single-element ranges, and changes nothing in the range.",
 ["inputs"], "every sequence of small keys with distinguishable payloads, over all overloads",
 "One test checks uniformity on two fixed vectors; grouping is untested.",
 [H + "equal_ranges.h", H + "equal_ranges_linear.h", H + "is_uniform.h"], [("equal_ranges", H + "equal_ranges.h"), ("equal_ranges_linear", H + "equal_ranges_linear.h"), ("is_uniform", H + "is_uniform.h")])
prop("A04", "Erasing, deduplicating and sorted insertion keep exactly the right elements",
 "Erasing a value or by predicate removes exactly the matching elements and keeps the others in order, for sequences and sets, also when the value to erase is itself an element of the container; erasing duplicates leaves the container (or the given sub-range, nothing outside it being touched except for moving up) sorted with exactly one element per class. Sorted insertion into a sorted duplicate-free sequence keeps it sorted, inserts exactly when the element is absent and returns its position and whether it was inserted; concatenation appends the second sequence unchanged.",
 ["inputs", "histories"], "every small container content and argument, and every sequence of sorted insertions",
 "None of these functions has a test.",
 [H + "erase.h", H + "erase_if.h", H + "erase_duplicates.h", H + "insert_sorted.h", H + "concat.h"],
 [("erase", H + "erase.h"), ("erase_if", H + "erase_if.h"), ("erase_duplicates", H + "erase_duplicates.h"), ("insert_sorted", H + "insert_sorted.h"), ("concat", H + "concat.h")])
prop("A05", "Sorting several vectors by one key keeps rows together",
 "Sorting parallel sequences by a key sequence returns the keys in ascending order and every other non-empty sequence permuted by the same permutation, so that each row of the result is a row of the input and each input row occurs exactly once; empty companions stay empty. The inputs themselves are unchanged unless the caller gave them away.",
 ["inputs"], "every key sequence with ties and any companions (also empty ones) of different element types",
 "No test.",
 [H + "sort_by.h"], [("sort_by, apply_permutation", H + "sort_by.h")])
prop("A06", "Get-or-create returns the existing entry or creates it exactly once",
 "Get-or-create returns a reference to the value stored under the key, calling the creation function exactly once if and only if the key was absent and storing its result; other entries are untouched and the reference stays the stored one, for ordered and unordered maps. The index variant assigns consecutive indices 0, 1, 2 in order of first request and always returns the same index for the same key. If the creation function throws, the map is unchanged.",
 ["histories"], "every sequence of requests over a small key set, on every supported map type, with failing creation functions",
 "No test.",
 [H + "get_or_create.h", H + "get_or_create_index.h"], [("get_or_create", H + "get_or_create.h"), ("get_or_create_index", H + "get_or_create_index.h")])
prop("A07", "Bit iteration visits exactly the set bits in ascending order",
 "Testing a bit and iterating over the set bits of an integer of any width agree with its binary representation: exactly the set positions are visited, each once, in ascending order, from the lowest to the highest bit of the type, for signed and unsigned types.",
 ["inputs"], "every value of 8 and 16 bit types and all sparse and boundary values of wider types",
 "No test.",
 [H + "for_each_bit_set.h"], [("has_bit_set, for_each_set_bit", H + "for_each_bit_set.h")])
prop("A08", "Set intersection reports every pair of equivalent elements exactly once",
 "For two sorted ranges the cross intersection calls the function for every pair of one element of the first and one equivalent element of the second, each pair exactly once and with the first range's element first, and for no other pair, whatever the multiplicities on either side and for default and custom orders.",
 ["inputs"], "every pair of sorted ranges with any multiplicities",
 "One test checks one pair of ranges.",
 [H + "power_set_intersection.h"], [("power_set_intersection, for_each_equal", H + "power_set_intersection.h")])
prop("A09", "Collection conversions and range algorithms act on the whole range",
 "Converting a collection to a vector, to a set or into another container with or without a transformation yields exactly the (transformed) elements in order, calling the transformation once per element, appending to a given output without touching what it held; repeating an element yields exactly that many copies. The range forms of the standard algorithms (all/any/none of, find, count, sort, nth element, is-sorted, fill, equal, minimum and maximum element) give the same result as the standard algorithm on the whole range.",
 ["inputs"], "every small collection, predicate and comparison",
 "No test.",
 [H + "to_vec.h", H + "to_set.h", H + "repeat_n.h", H + "helpers/algorithm.h"], [("to_vec, transform_to", H + "to_vec.h"), ("to_set", H + "to_set.h"), ("repeat_n", H + "repeat_n.h"), ("range algorithms", H + "helpers/algorithm.h")])

prop("I01", "Zipping walks several containers in lockstep by reference",
 "Zipping containers of equal size yields, for each position, the tuple of their elements at that position, as references for containers passed by reference (so writes go through, and constness is respected or enforced by the const variant) and valid for the zip's lifetime for containers moved in. The checked variants throw exactly when sizes differ; size, indexing, forward and backward iteration, comparison of iterators and use with standard algorithms agree with the index-based view.",
 ["inputs", "histories"], "every tuple of small containers, owned or referenced, and every walk of increments and decrements",
 "Tests check a few fixed containers; backward walks, comparisons and size mismatches beyond one are not covered.",
 [H + "zip.h"], [("zip_iterator, zip_range", H + "zip.h"), ("size check", H + "zip.h: check_dimensions")])
prop("I02", "Enumerating pairs each element with its position",
 "Enumerating a range yields each element in order together with its zero-based position, as a reference to the element for ranges passed by reference (writes go through) and keeping a range passed by value alive; after any walk of steps forwards, backwards or by n the position reported belongs to the element shown. For random-access ranges the distance between two iterators of the enumeration, including its end, is the number of elements between them.",
 ["inputs", "histories"], "every small range of every iterator category and every walk of increments, decrements and jumps",
 "No test.",
 [H + "enumerate.h"], [("enumerate and its iterator", H + "enumerate.h")])
prop("I03", "Pairwise and n-wise iteration visits every window once",
 "Iterating n-wise over a range of m elements visits exactly the max(0, m-n+1) windows of n consecutive elements, in order, as references into the range when it was passed by reference, and keeping a range passed by value alive; the reported size is the number of windows. Pairwise iteration, including its free begin and end functions, is the case n = 2.",
 ["inputs"], "every range length around n, for several n and iterator categories",
 "One test checks pairwise on three vectors; other n and sizes are untested.",
 [H + "nwise.h", H + "pairwise.h"], [("nwise_iterator, nwise_range, owning_nwise_range", H + "nwise.h"), ("pairwise", H + "pairwise.h")])
prop("I04", "Iterators built with the facade obey the iterator laws",
 "An iterator defined through the facade from a minimal set of operations behaves in every derived operation (increment and decrement in both forms, arithmetic in both operand orders, difference, subscript, all comparisons including those with a declared sentinel, arrow access to references and temporaries) exactly as a standard iterator of its category over the same sequence, and its traits report the category its operations support. The wrapper form behaves exactly like the iterator it wraps.",
 ["histories", "programs"], "every walk of operations on iterators of each category defined through the facade",
 "No test uses the facade.",
 [H + "iterator_facade.h"], [("iterator_facade", H + "iterator_facade.h"), ("iterator_wrapper_facade", H + "iterator_facade.h"), ("iterator_traits", H + "iterator_facade.h")])

prop("P01", "Pipeline stages compose lazily to the reference sequence",
 "Every composition of pipeline stages (filtering, mapping, consecutive-duplicate removal, prefix taking, use as an iterable) over every source (container by reference or by value, iterator pair, integer interval, generator function) yields exactly the sequence obtained by applying the stages one after another to the source's sequence, never evaluates past the end of the source nor past the element that ends the prefix, and applies stage functions only to elements that reach the stage. Sources piped by value stay alive as long as the pipeline, and sources piped by reference are not modified.",
 ["programs", "inputs"], "every composition of up to several stages over every small source sequence",
 "Tests check about ten fixed pipelines over fixed data.",
 [H + "pipes/"], [("stages", H + "pipes/remove_if.h, transform.h, unique.h, take_while.h, iterable.h"), ("sources", H + "pipes/all.h, range.h, iota.h, generate.h, make_range.h")])
prop("P02", "Pipeline terminals consume the whole range and compute the right result",
 "Every terminal stage (collecting into vectors and other containers by insertion or emplacement, counting, summing, averaging, maximum, accumulating, finding, for-each) gives exactly the result of the corresponding loop over the sequence: all elements in order are collected, the count is the number of matches, the sum (of non-negative integers, or of fractional values up to rounding), the mean (also of negative and fractional values) and the maximum are those of the elements, accumulation folds left to right, and the search returns the first match or nothing. Each element is processed exactly once, by collection terminals and by function-taking terminals, and the search stops at its match.",
 ["programs", "inputs"], "every terminal over every small sequence and source kind",
 "Tests check single samples of positive integers.",
 [H + "pipes/"], [("terminals", H + "pipes/vec.h, emplace_back.h, insert.h, map.h, count.h, sum.h, avg.h, max.h, accumulate.h, find.h, for_each.h")])

prop("D01", "Type dispatch calls the first matching handler, and only it",
 "Matching a polymorphic object against a list of handlers calls exactly the first handler whose argument type the object has (by dynamic type, bases included), once, with that very object, and returns its result; if none matches it throws and calls none. An overload set built from several callables calls the one declared for the argument's type and silently ignores types it does not list.",
 ["programs", "inputs"], "every dynamic type in a small hierarchy against every ordered handler list",
 "One test checks one hierarchy and order.",
 [H + "match.h", H + "overloaded.h"], [("match", H + "match.h"), ("overloaded", H + "overloaded.h")])
prop("D02", "Verification helpers throw exactly on failure, with the formatted message",
 "Each verification helper throws exactly when its condition is false, and then an exception of the documented type carrying the message formatted with exactly the given arguments (or the given exception object itself); when the condition holds it has no observable effect. The non-silent helpers also log the message once, the silent ones log nothing, and the macro form evaluates its message arguments only on failure.",
 ["inputs"], "every combination of condition, helper and argument list",
 "No test checks the helpers' messages or laziness.",
 [H + "verify.h"], [("verify, verify_silent, verify_ex, fail, utl_verify", H + "verify.h")])
prop("D03", "Printable enums print each enumerator's own name",
 "For an enum declared printable with any number of enumerators (without explicit values) and any spacing or line breaks customary in source code, converting or streaming each enumerator gives exactly its declared name.",
 ["programs", "inputs"], "every enumerator of enums of various sizes, name lengths and name overlaps",
 "One test checks one enum.",
 [H + "printable_enum.h"], [("PRINTABLE_ENUM", H + "printable_enum.h")])
prop("D04", "Field binding builds a view object only from complete sources",
 "Initialising a view struct of references and pointers from a source struct binds every member to the source's first member that has that type or owns or points to that type, so that reading and writing through the view reads and writes the source; it returns nothing exactly when a needed owner or pointer behind a reference member is null, while pointer members are bound to null in that case.",
 ["programs", "inputs"], "every combination of null and non-null sources and member kinds",
 "The test for it is excluded from this build and covers one pair of structs.",
 [H + "init_from.h"], [("init_from, member matching", H + "init_from.h")])
prop("D05", "Log lines and timers report complete lines and true times",
 "A log statement writes exactly one line, ending in a line break, with the level's tag, a UTC timestamp, the source file name and line, and everything streamed into it in order; formatting any time whose year fits an int gives the exact calendar date and time in UTC. A scoped timer logs exactly one start line and one finish line with its name, a manual timer one start line and one line per request, and reported durations are those of the monotonic clock.",
 ["inputs", "histories"], "every time value around calendar boundaries and every sequence of log and timer operations",
 "No test checks log output.",
 [H + "logging.h", H + "timer.h", "src/timer.cc", H + "timing.h"], [("log, time", H + "logging.h"), ("scoped_timer, manual_timer", "src/timer.cc")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
