#!/usr/bin/python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
        mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

p("P01", "Array list is a faithful sequence of fixed-size elements",
  "After any sequence of init, add, set, remove, get and size calls, an array list holds exactly the elements a reference sequence would hold: same size, same order, byte-for-byte the same contents, for every element size, initial capacity and number of growths. "
  "An index outside the list is rejected and leaves every element and the size unchanged. No call reads or writes outside the caller's element or the storage the list obtained from its allocator.",
  ["inputs", "histories"], "every element size >= 1, initial capacity >= 1 and history of operations with in- and out-of-range indices",
  "the 36 array_list tests use one element type and a handful of operations; histories, growth boundaries and element sizes are unbounded",
  ["src/array_list.c", "include/rcutils/types/array_list.h"],
  [("capacity doubling on add", "rcutils_array_list_increase_capacity"), ("memmove shift on remove", "rcutils_array_list_remove"), ("index bounds check", "ARRAY_LIST_VALIDATE_INDEX_IN_BOUNDS")],
  [("size/capacity/list", "live elements, room, storage", "rcutils_array_list_impl_s")], ["return codes", "rcutils_array_list_get/get_size output", "allocator callbacks"])

p("P02", "Hash map is a faithful map under any hash function",
  "For every sequence of set, unset, get, existence, size and iteration calls, a hash map behaves as a finite map under the caller's key equality: the last value set for a key is returned, unset keys are absent, and the size counts the live keys. "
  "Iterating from the start visits every live entry exactly once with its current value and then reports no more entries; continuing from a key that is not in the map reports not found. "
  "This holds for every hash function consistent with the equality (constant, colliding, extreme values), every key and value size, every initial capacity and across every growth.",
  ["inputs", "histories"], "every consistent hash/equality pair, key/value sizes, initial capacities and operation histories",
  "the 49 hash_map tests use a few keys and two hash functions; collisions inside a bucket, growth under collisions and iteration after removal are unbounded in combination",
  ["src/hash_map.c", "src/array_list.c", "include/rcutils/types/hash_map.h"],
  [("bucket lookup by masked hash, then hash and key equality", "hash_map_find"), ("rehash into doubled bucket array", "hash_map_check_and_grow_map"), ("iteration order by bucket index", "rcutils_hash_map_get_next_key_and_data")],
  [("map/size/capacity", "bucket lists, live entries, bucket count", "rcutils_hash_map_impl_s")], ["return codes", "outputs of get / get_next_key_and_data", "allocator callbacks"])

p("P03", "String map is a faithful map and never loses entries to capacity changes",
  "For every sequence of set, set-without-resize, unset, reserve, clear, copy, lookup and iteration calls, a string map behaves as a finite map from strings to strings, with lookups of length-delimited keys matching exactly the first key_length bytes and reading no byte beyond them. "
  "Changing the capacity never drops or corrupts an entry (the result is the larger of the requested capacity and the number of entries), and set-without-resize stores a new key exactly when there is unused capacity and otherwise reports not enough space and changes nothing. "
  "Iteration visits each key exactly once; copying adds or overwrites exactly the source's pairs.",
  ["inputs", "histories"], "all keys/values (including empty, prefixes of one another and pointers owned by the map) and all operation histories",
  "test_string_map samples a few literal keys and never shrinks a map with holes",
  ["src/string_map.c", "include/rcutils/types/string_map.h"],
  [("linear slot search", "__get_index_of_key_if_exists"), ("capacity change", "rcutils_string_map_reserve"), ("slot reuse", "rcutils_string_map_set_no_resize")],
  [("key_value_pairs/size/capacity", "slots, live pairs, slot count", "rcutils_string_map_impl_s")], ["return codes", "get/getn/get_next_key results", "allocator callbacks"])

p("P04", "String array owns, resizes, compares and sorts its strings correctly",
  "A string array of n slots starts with n empty slots; resizing keeps every surviving slot's string unchanged (same contents and order), makes new slots empty, releases exactly the removed strings, and on failure leaves the array unchanged; finalizing releases every string once. "
  "Comparing two arrays is the lexicographic order of their elements, then of their lengths (antisymmetric and transitive), and sorting permutes the slots into ascending order with empty slots last.",
  ["inputs", "histories"], "all array sizes, slot contents (including empty slots and duplicate strings) and histories of resize/sort/compare/fini",
  "the four string_array tests compare a few literals and resize once up and once down",
  ["src/string_array.c", "include/rcutils/types/string_array.h", "src/qsort.c"],
  [("stash and release removed entries", "rcutils_string_array_resize"), ("element-wise strcmp then size", "rcutils_string_array_cmp"), ("NULLs last comparer", "rcutils_string_array_sort_compare")],
  [], ["data/size fields", "return codes", "allocator callbacks"])

p("P05", "Char array holds exactly what was formatted, copied or appended",
  "After any sequence of printf-style formatting, string copy, memory copy, (bounded) append and resize calls, a char array's buffer holds exactly the bytes the equivalent C string operations on an unbounded buffer would produce, its length counts those bytes (including the terminating null for string operations), and its capacity is never smaller than its length. "
  "Growing preserves the existing content, shrinking truncates it, and a buffer the array does not own is never resized, freed or overwritten beyond its declared capacity. "
  "Bounded append uses at most n bytes of the source and never reads past the source's terminator.",
  ["inputs", "histories"], "all formats/arguments/sources/lengths, owned and borrowed buffers, and all histories of calls",
  "the five char_array tests each use one short literal and one size",
  ["src/char_array.c", "include/rcutils/types/char_array.h"],
  [("grow by 1.5x", "rcutils_char_array_expand_as_needed"), ("two-pass vsnprintf", "rcutils_char_array_vsprintf"), ("copy out of borrowed buffer", "rcutils_char_array_resize")],
  [("buffer/buffer_length/buffer_capacity/owns_buffer", "contents, used bytes, room, ownership", "rcutils_char_array_t")], ["public struct fields", "return codes", "allocator callbacks"])

p("P06", "Byte array capacity changes keep the content and length",
  "Initializing a byte array gives the requested capacity and length zero; every later resize sets the capacity to exactly the requested size, keeps the first min(length, new size) bytes unchanged and clips the length to the new capacity; resizing to zero is rejected and changes nothing. "
  "After finalizing, the array owns no memory and its length and capacity are zero.",
  ["inputs", "histories"], "all capacities, contents and resize histories",
  "two tests, one resize up and one down each",
  ["src/uint8_array.c", "include/rcutils/types/uint8_array.h"],
  [("reallocf-based resize", "rcutils_uint8_array_resize")], [], ["public struct fields", "return codes", "allocator callbacks"])

p("P07", "Splitting a string yields exactly its non-empty tokens",
  "Splitting a string at a delimiter yields, in order, exactly its maximal non-empty runs of non-delimiter characters. "
  "Splitting at the last delimiter ignores one leading and one trailing delimiter and then yields the text before the last remaining delimiter (without one further delimiter directly in front of it) and the text after it; when no inner delimiter remains, it yields the single text after a leading delimiter. A NULL or empty input yields an empty array. "
  "Every token is a properly terminated string owned by the output array.",
  ["inputs"], "every string (any length, any byte values, runs of delimiters anywhere) and delimiter",
  "test_split checks about 20 literals; delimiter runs at every position of arbitrary strings are not enumerable by hand",
  ["src/split.c", "include/rcutils/split.h"],
  [("count then copy tokens", "rcutils_split"), ("last delimiter search", "rcutils_split_last")], [], ["output string array"])

p("P08", "Search, compare and option-lookup primitives match their definitions",
  "Finding the first or last occurrence of a character returns its true index (or 'not found') and never reads beyond the given length; case-insensitive comparison has the sign of comparing the case-folded strings within the given length; the locale-independent alphanumeric test accepts exactly [0-9A-Za-z] for every character value. "
  "A command-line option is reported as present exactly when some argument equals it, and its value is the argument that follows it, or nothing when there is none; an empty argument range has no options.",
  ["inputs"], "every string, length, character and argument vector",
  "each has one to four tests on literals",
  ["src/find.c", "src/strcasecmp.c", "include/rcutils/isalnum_no_locale.h", "src/cmdline_parser.c"],
  [("bounded scans", "rcutils_findn / rcutils_find_lastn"), ("strcasecmp wrappers", "rcutils_strcasecmp"), ("argument scan", "rcutils_cli_get_option")], [], ["return values"])

p("P09", "Replacing, duplicating and formatting strings is exact",
  "Replacing a substring yields the text in which every non-overlapping occurrence, scanned left to right, is replaced and everything else is unchanged, and leaves the input untouched. "
  "Duplicating a string (optionally bounded) yields an independent, terminated copy of exactly its first min(length, bound) bytes; formatting to a new string yields exactly what the platform formatter produces, cut to the requested limit and always terminated. NULL input yields NULL.",
  ["inputs"], "all source/pattern/replacement strings (overlapping, empty replacement, growing and shrinking), bounds and formats",
  "repl_str has one test and format_string/strdup a handful of literals",
  ["src/repl_str.c", "src/strdup.c", "src/format_string.c", "include/rcutils/format_string.h"],
  [("match position cache then single copy", "rcutils_repl_str"), ("copy n bytes + null", "rcutils_strndup"), ("measure, allocate, print", "rcutils_format_string_limit")], [], ["returned strings", "allocator callbacks"])

p("P10", "Bounded formatting never writes past its buffer",
  "Formatting into a caller's buffer (snprintf/vsnprintf wrappers and system-error text) writes no byte outside the given size, always null-terminates a non-empty buffer, and yields the platform formatter's text cut to the buffer. "
  "The formatter returns the length the complete text would have, including when called with no buffer and size zero to measure.",
  ["inputs"], "all buffer sizes from zero upward, formats, arguments and errno values",
  "the snprintf tests use two sizes, strerror is mocked",
  ["src/snprintf.c", "src/strerror.c", "include/rcutils/snprintf.h"],
  [("vsnprintf wrapper", "rcutils_vsnprintf"), ("strerror_r + strncpy", "rcutils_strerror")], [], ["buffer, canaries, return value"])

p("P11", "Sorting permutes the array into order",
  "Sorting an array of any element size leaves a permutation of the original elements in non-decreasing order under the caller's comparison, touches no byte outside the array, and accepts an empty or NULL array of zero elements; a missing comparison (for any number of elements) or a NULL array of two or more elements is rejected without touching memory.",
  ["inputs"], "all element counts, element sizes, contents and comparison functions that are total preorders",
  "there is no direct test of the sort",
  ["src/qsort.c", "include/rcutils/qsort.h"], [("argument checks then qsort", "rcutils_qsort")], [], ["array contents", "return code"])

p("P12", "SHA-256 equals the standard digest however the input is chunked",
  "For every byte sequence, the digest equals FIPS 180-4 SHA-256 of that sequence, regardless of how it is divided between update calls (including empty chunks) and independent of other contexts in use at the same time. "
  "Reinitializing a used context starts a fresh digest.",
  ["inputs", "histories"], "all messages (all lengths, especially around block boundaries) and all chunkings, interleaved contexts",
  "three tests on short literals; padding boundaries 55/56/63/64 bytes and chunkings are not covered",
  ["src/sha256.c", "include/rcutils/sha256.h"], [("64-byte block buffering", "rcutils_sha256_update"), ("padding and length", "rcutils_sha256_final")],
  [("datalen/data/bitlen/state", "partial block, total bits, chaining value", "rcutils_sha256_ctx_t")], ["digest bytes"])

p("P13", "Time points render losslessly and within their buffers",
  "The nanosecond and second renderings of a time point are its exact decimal value (sign, zero padding to 19 digits, respectively 10.9 digits), so that parsing the text gives the same time point back; the date rendering is the local calendar time with a three-digit millisecond field. "
  "Output is cut to the caller's buffer, always terminated when the buffer is not empty, and nothing is written outside it.",
  ["inputs"], "every 64-bit time point and every buffer size",
  "test_time formats 100 and -100 only and is not part of the stable suite",
  ["src/time.c", "include/rcutils/time.h"], [("split into seconds and fraction", "rcutils_time_point_value_as_seconds_string"), ("strftime + milliseconds", "rcutils_time_point_value_as_date_string")], [], ["buffer and canaries", "return code"])

p("P14", "Clocks are exact, monotone and fail loudly",
  "The system and steady clocks report the operating system's realtime and monotonic clocks in nanoseconds without losing precision; the steady clock never goes backwards within or across threads that are ordered by synchronization. "
  "If the operating system's clock is unavailable or yields an invalid time, an error is returned and the caller's output is not presented as a valid time.",
  ["inputs", "schedules", "fault_sequences"], "every operating-system clock value (including negative and failing ones) and every interleaving of readers",
  "the tests compare to std::chrono within a tolerance and mock one bad value each, and test_time is not in the stable suite",
  ["src/time_unix.c", "include/rcutils/time.h"], [("clock_gettime and validity check", "rcutils_system_time_now / rcutils_steady_time_now")], [], ["return code and output, with the OS clock interposed"])

p("P15", "The error state reports the last error exactly, truncated but never overrun",
  "After setting an error, the thread's error state holds exactly that message, file and line (each cut to its documented maximum, terminated), the error string is 'message, at file:line', and both stay so until the next set or reset (operations that succeed do neither); after a reset no error is set and the string says so. "
  "Building, formatting, appending and overwriting error messages of any length, including messages built from the current error, never writes out of bounds; overwriting a different, unhandled error is reported on standard error with both messages.",
  ["inputs", "histories"], "all message and file lengths, line numbers, formats and histories of set/append/get/reset",
  "test_error_handling uses short literals and is not in the stable suite",
  ["src/error_handling.c", "src/error_handling_helpers.h", "include/rcutils/error_handling.h"],
  [("bounded copies", "__rcutils_copy_string"), ("lazy formatting", "rcutils_get_error_string"), ("overwrite report", "rcutils_set_error_state")],
  [("thread-local error state and string", "message, file, line, set flag", "gtls_rcutils_error_*")], ["rcutils_get_error_state/get_error_string", "stderr"])

p("P16", "Error state is per thread",
  "An error set, read, reset or overwritten in one thread is never visible to, and never changes, the error state, error string or error-set flag of any other thread, in any interleaving, including threads created before and after the error. No data race occurs.",
  ["schedules"], "every interleaving of set/get/reset across any number of threads",
  "no test uses more than one thread",
  ["src/error_handling.c"], [("thread-local storage", "gtls_rcutils_error_state")], [("thread-local error variables", "one set per thread", "src/error_handling.c")], ["per-thread reads of the public error API", "ThreadSanitizer"])

p("P17", "Allocation failure is reported and harmless at every point",
  "Whichever single allocation of an operation fails (and when all later ones fail too), the operation reports failure (bad-alloc code, NULL or false) instead of crashing or claiming success, frees everything it had allocated for itself, and does not corrupt memory. "
  "The objects it was given remain valid: containers keep the contents they had before the call wherever the interface says so, can still be used, and can still be finalized without leaking or freeing twice. An operation that returns an error code also leaves an error message (except adding to a list or a hash map, splitting, and measuring a directory).",
  ["fault_sequences", "histories"], "every allocation point of every allocating operation, failing once or from then on",
  "tests fail one or two chosen allocations with the time-bomb allocator; nobody enumerates every point or checks the object afterwards",
  ["src/array_list.c", "src/hash_map.c", "src/string_map.c", "src/string_array.c", "src/char_array.c", "src/uint8_array.c", "src/split.c", "src/repl_str.c", "src/strdup.c", "src/format_string.c", "src/filesystem.c", "src/process.c", "src/shared_library.c", "src/logging.c", "src/allocator.c"],
  [("NULL checks and roll-back after each allocate/reallocate", "every allocating function")], [], ["allocator callbacks", "return codes", "container contents after failure"])

p("P18", "All memory goes through the given allocator and comes back exactly once",
  "Every allocating operation obtains its memory only from the allocator it was given (with that allocator's state pointer), releases each block exactly once through the same allocator and never after use, and releases everything once the objects are finalized and returned strings are freed by the caller. "
  "The default allocator is valid, a zero-initialized one is not, and realloc-or-free releases the original block exactly once on failure.",
  ["histories", "inputs"], "every operation history over every allocating interface, with distinct allocator states per object",
  "tests use the default allocator, which cannot see a wrong state pointer, a mixed-up allocator or a leak",
  ["src/allocator.c", "include/rcutils/allocator.h", "src/hash_map.c", "src/string_map.c", "src/filesystem.c", "src/logging.c"],
  [("allocator copied into each object and used throughout", "all containers"), ("realloc then free on failure", "rcutils_reallocf")], [], ["allocator callbacks with per-object state and live-block ledger", "interposed malloc/free during calls"])

p("P19", "Invalid arguments are rejected without side effects",
  "Passing NULL for a required argument, an invalid allocator, an uninitialized or already finalized object, or a size the interface forbids is rejected with the documented code, NULL or false, never by crashing, and leaves every valid object passed along unchanged and the library usable. "
  "Where the interface returns an error code other than a lookup result, an error message is set for the caller (an invalid allocator may be rejected without one).",
  ["inputs"], "every combination of valid and invalid arguments of every public function that documents a rejection",
  "tests check one NULL at a time for part of the interface",
  ["include/rcutils/error_handling.h", "src/array_list.c", "src/hash_map.c", "src/string_map.c", "src/string_array.c", "src/char_array.c", "src/uint8_array.c", "src/time.c", "src/shared_library.c", "src/env.c", "src/filesystem.c"],
  [("argument check macros", "RCUTILS_CHECK_ARGUMENT_FOR_NULL, RCUTILS_CHECK_ALLOCATOR")], [], ["return codes", "error state", "object contents"])

p("P20", "A logger's effective level is that of its nearest configured ancestor",
  "For every history of setting and unsetting logger levels and the default level, the effective level of a logger is the level set on it, else that of its closest dot-separated ancestor with a level set, else the default; unsetting restores inheritance, and is-enabled is exactly 'severity >= effective level'. "
  "Reported individual levels are the ones last set, caching never makes a stale level visible, and invalid levels are rejected without changing anything.",
  ["histories", "inputs"], "all logger names (dots anywhere, empty components, prefixes that are not ancestors) and all histories of level changes and queries",
  "test_logging sets a handful of levels once per name, and queries never interleave with changes to ancestors; it is not in the stable suite",
  ["src/logging.c", "include/rcutils/logging.h"],
  [("hash map of levels with cached inherited entries", "rcutils_logging_get_logger_effective_level"), ("cache invalidation on change", "rcutils_logging_set_logger_level")],
  [("severity map and default level", "set and cached levels", "g_rcutils_logging_severities_map, g_rcutils_logging_default_logger_level")], ["public level getters", "is_enabled_for"])

p("P21", "Each enabled log call reaches the handler exactly once, unaltered",
  "A log call reaches the installed output handler exactly once when its severity is enabled for its logger and never otherwise, with the given location, severity, logger name and format arguments and a timestamp taken from the system clock between the call's start and end. "
  "Installing another handler redirects all later calls; with no handler installed nothing is delivered and nothing fails.",
  ["histories", "inputs"], "all histories of handler changes, level changes and log calls, all argument lists",
  "tests check one call per severity",
  ["src/logging.c", "include/rcutils/logging.h"], [("enable check then handler call", "rcutils_log / rcutils_log_internal"), ("handler swap", "rcutils_logging_set_output_handler")],
  [("output handler pointer", "current handler", "g_rcutils_logging_output_handler")], ["recording output handler"])

p("P22", "Console output is exactly the configured format applied to the record",
  "For every format string given by the environment, each log record is rendered by replacing every known {token} by its value, turning the supported backslash escapes into their characters and copying everything else, unknown tokens, unmatched braces and unknown escapes included, unchanged; the rendered line plus newline reaches the configured stream completely, for messages and names of any length. "
  "With colors on, the line is wrapped in the severity's color code and a reset, and never otherwise.",
  ["inputs", "configurations"], "all format strings up to the documented buffer, all tokens, escapes, severities, streams, color settings and message lengths",
  "seven fixed formats are compared by launch tests that are not in the stable suite",
  ["src/logging.c"], [("escape expansion", "create_format_string"), ("format parsed into handler list", "parse_and_create_handlers_list"), ("token expanders", "expand_*"), ("console handler", "rcutils_logging_console_output_handler")],
  [("parsed handlers and format", "how a line is rendered", "g_handlers, g_rcutils_logging_output_format_string")], ["stdout/stderr of a child process", "rcutils_logging_format_message output"])

p("P23", "Logging starts, configures itself from the environment and shuts down cleanly",
  "Initialization accepts exactly the documented values of each logging environment variable, applies them (stream, buffering, color, format) and reports any other value as an error without leaving logging half-initialized; repeating initialization or shutdown is harmless. "
  "Shutdown releases everything, and any number of init/use/shutdown cycles with different settings each behave as if in a fresh process: no level, handler, format or cached state of an earlier cycle survives.",
  ["configurations", "histories", "fault_sequences"], "all combinations of variable values and all histories of init, use and shutdown",
  "each environment test starts one process with one setting and is not in the stable suite",
  ["src/logging.c", "include/rcutils/logging.h"], [("environment parsing", "rcutils_logging_initialize_with_allocator"), ("teardown", "rcutils_logging_shutdown")],
  [("initialized flag and globals", "configuration", "g_rcutils_logging_*")], ["return codes", "child-process output", "allocator callbacks"])

p("P24", "Conditional logging macros fire exactly when their condition says",
  "Each macro of every severity logs through the standard path with its own severity, the calling function, file and line, and the given logger name: ONCE exactly once per call site, SKIPFIRST on every pass but the first, EXPRESSION and FUNCTION exactly when the condition is true, THROTTLE at most once per interval of the given clock and whenever at least the interval has elapsed, and combinations when all their conditions hold (SKIPFIRST_THROTTLE skips the first pass its interval admits, which starts the interval). "
  "A failing clock is reported at most once per pass, never loses or repeats the message. Conditions are evaluated only at enabled levels, arguments of a call that does not log are not evaluated, and macros below the compile-time minimum severity produce nothing.",
  ["histories", "configurations"], "all call sites, pass counts, clock sequences (including failing and backward clocks), severities and compile-time thresholds",
  "the logging macro tests exercise a few passes of each macro at two severities with a well-behaved clock",
  ["resource/logging_macros.h.em", "rcutils/logging.py", "src/logging.c"], [("generated condition blocks", "RCUTILS_LOG_CONDITION_*")], [], ["recording output handler"])

p("P25", "Concurrent logging neither loses, duplicates nor mixes records",
  "When any number of threads log concurrently to an initialized logging system, with levels queried and error states used meanwhile, every enabled record is delivered exactly once with its own content, no disabled record is delivered, console lines are never interleaved within a line, and no data race or memory error occurs on paths the library documents as usable concurrently.",
  ["schedules"], "every interleaving of loggers across threads",
  "no test logs from two threads",
  ["src/logging.c", "src/error_handling.c"], [("single write per line", "rcutils_logging_console_output_handler"), ("thread-local error state", "src/error_handling.c")], [], ["captured stream", "recording handler", "ThreadSanitizer"])

p("P26", "Fault injection fires exactly at the chosen point",
  "With fault injection set to n, exactly the (n+1)-th injection point reached afterwards fails, once, no matter how many threads reach points concurrently, and none fails when it is disabled or after it fired; the count read back is the number of points still to pass (or 'never' afterwards). "
  "Testing the counter never produces a data race, a second failure or a lost count.",
  ["schedules", "inputs", "histories"], "all counts, all interleavings of threads reaching points, all histories of set/get/test",
  "one test loops counts in a single thread",
  ["src/testing/fault_injection.c", "include/rcutils/testing/fault_injection.h"], [("atomic compare-and-swap countdown", "_rcutils_fault_injection_maybe_fail")], [("fault injection counter", "points left until failure, -1 when disabled", "g_rcutils_fault_injection_count")], ["return values per thread", "ThreadSanitizer"])

p("P27", "File predicates and directory creation agree with the file system",
  "For every path, existence, is-directory, is-file, readable and writable answers agree with the file's actual type and its owner's mode bits at that moment (a missing path is none of these), the file size is the actual size, and the current directory is the process's. "
  "Creating a directory succeeds exactly when an absolute path names an existing directory or one whose parent exists and is creatable, reports failure otherwise, and never alters an existing entry.",
  ["inputs", "histories", "configurations"], "all path shapes, file types (regular, directory, symlink, dangling link, fifo, unreadable) and mode bits",
  "test_filesystem looks at four fixed files and is not in the stable suite",
  ["src/filesystem.c", "include/rcutils/filesystem.h"], [("stat-based predicates", "rcutils_is_directory etc."), ("mkdir with EEXIST handling", "rcutils_mkdir")], [], ["return values against lstat/stat taken by the monitor"])

p("P28", "Path strings are composed and rewritten without loss",
  "Joining two path components yields left, one separator, right in full for any length; converting to native separators replaces exactly the forward slashes by the platform separator; expanding a user path replaces exactly a leading '~' by the home directory and leaves every other path unchanged. "
  "The inputs are never modified and the result is a fresh string from the given allocator.",
  ["inputs"], "all component strings and lengths, all values of HOME",
  "tests use short literals and are not in the stable suite",
  ["src/filesystem.c"], [("format-based join", "rcutils_join_path"), ("separator replacement", "rcutils_to_native_path"), ("home expansion", "rcutils_expand_user")], [], ["returned strings", "allocator callbacks"])

p("P29", "Directory listing is complete and directory size is exact",
  "Iterating a directory visits every entry exactly once and then reports the end, and ending the iteration early or at any point releases everything. "
  "The computed size is exactly the sum of the sizes of the regular files at each level down to the requested depth (depth one: the directory's own files; zero: unlimited), symbolic links are not followed, and for a missing or unreadable path an error is returned and no partial result leaks memory.",
  ["inputs", "configurations", "fault_sequences"], "all directory trees, depths, path lengths and stopping points",
  "the tests use one tree of three files with depth 0, 1 and 2, and are not in the stable suite",
  ["src/filesystem.c"], [("dir iterator", "rcutils_dir_iter_start/next/end"), ("explicit work list of directories", "rcutils_calculate_directory_size_with_recursion")], [], ["results against an independent walk of a generated tree", "allocator callbacks", "open file descriptors"])

p("P30", "Shared libraries load, resolve and unload faithfully",
  "Loading a library gives access to exactly its symbols: a symbol that exists resolves to the address the dynamic linker gives and has-symbol agrees with get-symbol, and loading a library changes nothing for the libraries loaded besides it; missing symbols or libraries are reported as errors and leave the object usable or empty; the recorded path names the loaded library. "
  "Any number of load/unload cycles leaves no memory, and unloading twice is rejected; platform file names are composed exactly from prefix, name, debug suffix and extension, within the caller's buffer.",
  ["inputs", "histories"], "all library names, symbols, buffer sizes and load/unload histories",
  "24 tests, most on argument checks and mocked failures",
  ["src/shared_library.c", "include/rcutils/shared_library.h"], [("dlopen/dlsym/dlclose wrappers", "rcutils_load_shared_library etc."), ("bounded name composition", "rcutils_get_platform_library_name")],
  [("rcutils_shared_library_t", "handle, path, allocator", "include/rcutils/shared_library.h")], ["return codes", "dladdr/dlopen RTLD_NOLOAD", "allocator callbacks"])

p("P31", "Environment and process queries are exact",
  "Setting, overwriting, unsetting and reading environment variables behave as the process environment does: a read returns the value last set, or the empty string when unset, and no-overwrite keeps an existing value; invalid names are rejected without change. "
  "The home directory is the value of HOME, the process id is the caller's, and the executable name is the final component of the program's invocation path, for any name.",
  ["inputs", "histories"], "all names, values, histories of changes and program names",
  "four tests on fixed variables",
  ["src/env.c", "src/process.c", "include/rcutils/env.h"], [("setenv/unsetenv/getenv wrappers", "rcutils_set_env_overwrite, rcutils_get_env"), ("basename of invocation name", "rcutils_get_executable_name")], [], ["getenv in the same process and in a child"])

p("P32", "An injected internal fault is reported and leaves nothing behind",
  "In a fault-injection build, whichever single internal fault point fires during an operation, the operation reports a failure rather than success with a missing effect, does not crash, leaks nothing, and everything it was given can still be used and released afterwards. "
  "With injection disabled again the same operation succeeds with its normal result.",
  ["fault_sequences"], "every injection point reached by every operation of the interface",
  "tests loop the injection over a few calls and ignore the result",
  ["src/testing/fault_injection.c", "src/allocator.c", "src/string_array.c", "src/string_map.c", "src/env.c", "src/shared_library.c", "src/logging.c"],
  [("macro returning the declared error at function entry", "RCUTILS_CAN_RETURN_WITH_ERROR_OF")], [], ["return codes", "leak and memory sanitizers"])

p("P33", "Operations on distinct objects in distinct threads do not interfere",
  "Threads that work only on objects of their own (containers, buffers, hash contexts, strings, iterators, library handles, error states) and on shared data nobody changes never influence one another: every call returns exactly what it returns when the thread is alone, with the same error text and the same memory given back, and there is no data race, however the threads interleave.",
  ["schedules", "inputs"], "all numbers of threads, all interleavings and all mixes of operations on thread-private objects",
  "no test runs these operations in more than one thread",
  ["src/array_list.c", "src/hash_map.c", "src/string_map.c", "src/string_array.c", "src/char_array.c", "src/split.c", "src/repl_str.c", "src/sha256.c", "src/qsort.c", "src/time.c", "src/time_unix.c", "src/filesystem.c", "src/shared_library.c", "src/error_handling.c", "src/format_string.c"],
  [("no state outside the objects", "all listed files"), ("thread-local error state", "gtls_rcutils_error_state")], [], ["return values and outputs of every call", "ThreadSanitizer", "allocator callbacks"])

p("P34", "Atomic helpers are atomic and sequentially consistent",
  "The atomic load, store, exchange, compare-exchange and fetch-add helpers behave as indivisible operations in one total order: no update is lost or applied twice, each exchanged value comes out exactly once, a compare-exchange succeeds exactly when the value was the expected one and otherwise reports the value it saw, and data written before an atomic write is visible to whoever reads that write. "
  "Their arguments are evaluated once and nothing but the variable is written.",
  ["schedules", "inputs"], "all values, numbers of threads and interleavings, for the platform's atomics and the bundled replacement header",
  "test_atomics runs each helper once in one thread",
  ["include/rcutils/stdatomic_helper.h", "include/rcutils/stdatomic_helper/gcc/stdatomic.h"],
  [("macros over C11 atomics", "rcutils_atomic_*"), ("bundled stdatomic.h", "atomic_*_explicit")], [], ["values returned to every thread", "ThreadSanitizer"])

p("P35", "A failing operating-system or C-library call is reported, not swallowed",
  "Whenever a call the library makes to the operating system or the C library fails (formatting, clock, directory opening, reading and inspection, working directory, environment, dynamic loading, stream setup), the operation either still has its full effect or reports the failure in its own way (return code, NULL or false, error message, or a line on standard error from logging); it never claims success with part of its effect missing. "
  "In particular the size of a directory is not reported as a success when an entry within the depth cannot be inspected or a directory cannot be read to its end. Whatever fails, no memory or descriptor stays behind, and the same operation works normally afterwards.",
  ["fault_sequences", "inputs"], "every call each operation makes, every error it can fail with, alone or persistently",
  "tests mock a handful of single failures",
  ["src/filesystem.c", "src/format_string.c", "src/char_array.c", "src/snprintf.c", "src/time.c", "src/time_unix.c", "src/shared_library.c", "src/env.c", "src/logging.c", "src/error_handling.c"],
  [("checks of the results of stat, lstat, opendir, readdir", "src/filesystem.c"), ("checks of formatting results", "src/format_string.c, src/char_array.c, src/time.c")], [],
  ["return codes and outputs with calls replaced at link time", "allocator callbacks", "open descriptors"])

p("P36", "The helper macros keep their promises for arguments of any form",
  "The public helper macros (checks for NULL and for valid allocators, setting and reporting errors, unit conversions, fault points and fault-injection loops, automatic initialization of logging, text and token helpers, thread-local declarations) do what they say wherever and with whatever they are used, in C and in C++: the given statement is executed exactly when the stated condition holds for the whole argument expression; the message, file and line are those of the call site; the user's variables mean the same inside the macro as outside whatever they are called (except the counters the two fault-injection loops declare); texts containing percent signs are reproduced verbatim. "
  "Conversions between time units are exact 64-bit results (truncating toward zero) for every operand expression; checked values, format arguments and allocators are evaluated once; each statement macro is usable as the only statement of a branch (except the bare if of the allocator check and the fault points); fault points do nothing when compiled out, and otherwise fail exactly when the counter says so.",
  ["inputs", "configurations"], "all argument expressions, values, error states, counters and allocators, in both languages, with and without fault injection compiled in",
  "tests use each macro with one plain variable, if at all",
  ["include/rcutils/error_handling.h", "include/rcutils/allocator.h", "include/rcutils/macros.h", "include/rcutils/time.h", "include/rcutils/testing/fault_injection.h", "include/rcutils/logging.h"],
  [("RCUTILS_CHECK_*", "error_handling.h, allocator.h"), ("RCUTILS_SET_ERROR_MSG*, RCUTILS_SAFE_FWRITE_TO_STDERR*", "error_handling.h"), ("RCUTILS_*_TO_NS, RCUTILS_NS_TO_*", "time.h"), ("RCUTILS_LOGGING_AUTOINIT_WITH_ALLOCATOR", "logging.h"), ("RCUTILS_CAN_*, RCUTILS_FAULT_INJECTION_*", "macros.h, testing/fault_injection.h")], [],
  ["return values and error state of call sites", "captured standard output and error", "the fault-injection counter"])

p("P37", "Nothing depends on memory that was never written",
  "No branch taken, value returned, byte written to a stream, file, object or string, and no address used by the library depends on memory that nothing has written (uninitialized locals, the results of operating-system calls that failed, storage an allocator handed out, the unused part of a buffer or a structure), whatever the call and whether it succeeds or fails; and no invalid or freed memory is read or written.",
  ["inputs", "histories", "faults"], "all operations of all parts, valid and invalid arguments, failing allocations and failing operating-system calls",
  "a test sees a plausible value whenever the leftover memory happens to hold one",
  ["src/array_list.c", "src/hash_map.c", "src/string_map.c", "src/string_array.c", "src/char_array.c", "src/uint8_array.c", "src/split.c", "src/repl_str.c", "src/format_string.c",
   "src/error_handling.c", "src/logging.c", "src/filesystem.c", "src/env.c", "src/process.c", "src/shared_library.c", "src/time_unix.c", "src/time.c", "src/sha256.c"],
  [("results of stat, clock_gettime, localtime_r, getcwd, readdir", "filesystem.c, time_unix.c, time.c, logging.c"), ("storage from allocate, reallocate, zero_allocate", "array_list.c, hash_map.c, string_array.c, repl_str.c, char_array.c"), ("partially filled records and buffers", "error_handling.c, logging.c, sha256.c")], [],
  ["valgrind memcheck's definedness of every branch condition, address and system-call argument", "definedness of every result a harness looks at"])

p("P38", "The same results in every locale",
  "What the operations return and write does not depend on the locale the program has selected: level names are recognized regardless of case by the letters A to Z alone, characters are classified by rcutils_isalnum_no_locale alike, times, numbers and dates are rendered with the same digits and separators, strings are split, searched, replaced, formatted, sorted and hashed byte by byte whatever multibyte encoding is in force, output formats keep their meaning, and every byte of a message arrives.",
  ["inputs", "configurations"], "all strings, numbers and times, in locales with other cases, letters, digits, separators and multibyte encodings",
  "tests run in the C locale only",
  ["src/logging.c", "include/rcutils/isalnum_no_locale.h", "src/time.c", "src/split.c", "src/find.c", "src/repl_str.c", "src/format_string.c", "src/snprintf.c", "src/string_array.c", "src/error_handling.c"],
  [("rcutils_logging_severity_level_from_string", "logging.c"), ("rcutils_isalnum_no_locale", "isalnum_no_locale.h"), ("rcutils_time_point_value_as_*_string", "time.c"), ("rcutils_vsnprintf and its users", "snprintf.c")], [],
  ["every result of the operations under each locale"])

p("P39", "What is used over and over stays bounded",
  "Repeating operations that leave things as they were does not add up: after the first few turns a program that keeps filling and emptying lists, maps, string maps, string arrays and buffers, "
  "setting and clearing errors, changing levels and logging, restarting logging, listing directories, loading and unloading libraries, setting the same environment variable, starting and ending threads, or provoking failures "
  "needs no more memory, descriptors, mappings or threads than before, and no more allocations per turn; a map that always sees new keys stays within a bound given by how many it holds at a time. "
  "Building a list, map, string or replacement of n pieces takes a number of allocations and an amount of requested memory that do not grow quadratically.",
  ["histories"], "all histories of repeated operations, arbitrarily long",
  "a test goes through an operation once or twice and ends",
  ["src/array_list.c", "src/hash_map.c", "src/string_map.c", "src/string_array.c", "src/char_array.c", "src/uint8_array.c", "src/error_handling.c", "src/logging.c", "src/filesystem.c", "src/shared_library.c", "src/env.c", "src/repl_str.c"],
  [("capacity growth and reuse of storage", "array_list.c, hash_map.c, string_map.c, char_array.c"), ("release on removal, replacement and failure", "hash_map.c, logging.c, string_map.c"), ("closing of descriptors and handles", "filesystem.c, shared_library.c")], [],
  ["process-wide counts of malloc & co.", "/proc/self/fd, maps, task"])

p("P40", "Operations may run inside and in the middle of other operations",
  "The functions a user hands to the library (allocators, hash functions and equalities, sort comparisons, output handlers, clocks, conditions) and the arguments of its macros may themselves use the library on other objects, to any depth, "
  "and operations on different objects may alternate step by step on one thread: each gives exactly the results it gives by itself. "
  "An output handler may log further records, print through the console handler, change levels and the output handler and run any other operation; each enabled record reaches the handler that was in place when it was logged exactly once, "
  "with its own severity, name, location, time and arguments before and after whatever the handler does, console lines appear whole in the order in which they are completed, and conditional call sites decide as they would without the nested calls.",
  ["histories", "inputs"], "all nestings and alternations of operations through callbacks, handlers and macro arguments",
  "tests use callbacks that do nothing else",
  ["src/logging.c", "resource/logging_macros.h.em", "src/array_list.c", "src/hash_map.c", "src/string_map.c", "src/string_array.c", "src/char_array.c", "src/split.c", "src/repl_str.c", "src/format_string.c", "src/qsort.c", "src/sha256.c", "src/time.c", "src/filesystem.c", "src/shared_library.c", "src/error_handling.c"],
  [("buffers and state local to the call or the object", "all listed files"), ("rcutils_log and the output handler", "logging.c"), ("condition macros", "logging_macros.h.em")], [],
  ["every result of nested and interrupted operations", "records at the handler", "captured console lines"])

p("P41", "The stack an operation needs does not depend on its input",
  "Operations work in threads with small stacks: strings, elements, keys, element counts, argument lists, records, environment values and directory trees far larger than the stack "
  "(nested some hundreds of levels, sorted in any order) give the same exact results there as anywhere, and the operation touches nothing beyond the stack of the thread it runs on.",
  ["inputs"], "all sizes, counts, depths and orders of the input, on a stack of 128 KiB",
  "tests run small inputs on stacks of megabytes; a recursion or an array on the stack that grows with the input passes them all",
  ["src/array_list.c", "src/hash_map.c", "src/string_map.c", "src/string_array.c", "src/char_array.c", "src/uint8_array.c", "src/split.c", "src/find.c", "src/repl_str.c", "src/format_string.c", "src/snprintf.c", "src/strdup.c", "src/qsort.c", "src/sha256.c", "src/logging.c", "src/error_handling.c", "src/filesystem.c", "src/env.c", "src/shared_library.c", "src/cmdline_parser.c"],
  [("storage taken from the allocator", "all listed files"), ("directory traversal with a list of its own", "filesystem.c"), ("sorting", "qsort.c")], [],
  ["results on a small stack", "bytes of the stack in use", "accesses beyond the stack"])

p("P42", "What is documented not to allocate memory does not",
  "The functions documented not to allocate (in array lists: set, remove, get, get_size, fini; in hash maps: unset, key_exists, get, get_next_key_and_data, get_size, get_capacity, fini; the zero-initializers and the default allocator; "
  "the clocks and the three time-to-text functions; in initialized logging: getting and setting the output handler and the default level, asking for levels and enablement, shutting down, and logging a record whose line has up to 1023 characters, "
  "through the console handler too) make no call for memory, neither to the allocator of the object nor to the heap by any other way, whatever the history and size of the object and also when they reject their arguments; "
  "they work, with full effect, while no memory can be had at all. (As listed in the known findings, looking up the level of a logger that has none of its own copies the name for the duration of the call; nothing beyond this one temporary copy.)",
  ["inputs", "histories"], "all histories and sizes of the objects, all lines up to the documented limit, all rejected arguments",
  "tests check results; an allocation that succeeds is invisible to them",
  ["src/array_list.c", "src/hash_map.c", "src/logging.c", "src/time.c", "src/time_unix.c", "src/allocator.c", "src/char_array.c", "src/error_handling.c"],
  [("Allocates Memory tables", "include/rcutils/*.h"), ("stack buffers of 1024 characters", "logging.c"), ("thread-local error state", "error_handling.c")], [],
  ["calls of the allocator during each operation", "heap allocations during each operation", "results while allocation is refused"])

p("P43", "An operation held up in one thread holds up no other",
  "However long a thread is held up in the middle of an operation - preempted or stopped anywhere in the library, waiting in its allocator, hash function, comparison, output handler, condition, log argument or clock - "
  "operations of other threads on other objects, and logging, complete meanwhile with the results they give alone, and so they do in a process forked at that moment; "
  "when the thread goes on, its operation completes with its own usual result, whatever the others have done in between. Each record logged meanwhile is delivered once, and lines printed on the console stay whole. "
  "(Initialization and shutdown of logging, changing levels, handlers or the environment at the same time, and waiting for the output stream or the dynamic linker are excluded, as documented.)",
  ["schedules", "inputs"], "all points at which an operation can be interrupted, any number of other operations until it goes on",
  "tests run one operation at a time; a lock, a spin flag or a value shared between calls goes unnoticed until a thread is stopped at the wrong point",
  ["src/array_list.c", "src/hash_map.c", "src/string_map.c", "src/string_array.c", "src/char_array.c", "src/split.c", "src/repl_str.c", "src/format_string.c", "src/qsort.c", "src/sha256.c", "src/time.c", "src/filesystem.c", "src/shared_library.c", "src/error_handling.c", "src/logging.c", "resource/logging_macros.h.em"],
  [("Lock-Free tables", "include/rcutils/*.h"), ("state local to the call, the object or the thread", "all listed files")], [],
  ["completion of operations while threads are stopped", "their results and those of the stopped ones", "delivered records and console lines", "forked processes"])

p("P44", "Inputs are only read, and only as far as they go",
  "Strings, elements, keys, values, formats and their arguments, argument lists, names, locations, times, hashed data and allocators handed to an operation are never written, not even for a moment, and nothing before their beginning or beyond their end is read: "
  "operations work with inputs in read-only memory next to inaccessible memory, and with names, keys and strings given by length that have no terminator, giving the results they give for ordinary copies, also when allocations fail on the way. "
  "Operations on a const handle leave the object and everything it owns unwritten: any number of threads or processes may look at it at once, also in read-only memory; asking logging for levels or logging a record writes to no level.",
  ["inputs", "histories"], "all inputs, placements and sizes, all objects, all failing allocations",
  "tests pass ordinary writable, terminated strings; a write that is undone, or a read just past the end, changes no result they look at",
  ["src/find.c", "src/split.c", "src/repl_str.c", "src/strdup.c", "src/format_string.c", "src/snprintf.c", "src/strcasecmp.c", "src/char_array.c", "src/array_list.c", "src/hash_map.c", "src/string_map.c", "src/string_array.c", "src/cmdline_parser.c", "src/time.c", "src/sha256.c", "src/filesystem.c", "src/env.c", "src/shared_library.c", "src/error_handling.c", "src/logging.c"],
  [("const parameters", "include/rcutils/*.h"), ("length-limited lookups", "find.c, strdup.c, string_map.c, logging.c")], [],
  ["accesses to inputs on protected pages", "accesses to frozen objects", "results compared with ordinary inputs"])

p("P45", "Work and memory grow in proportion to the data",
  "Adding n elements to a list one by one, setting n keys in a hash map whose hash spreads them, appending n pieces to a char array or growing it a byte at a time, looking up, overwriting, removing (the last element, any key) and iterating, "
  "splitting, searching, replacing, duplicating, formatting, joining and converting texts of n characters, hashing n bytes, sorting n elements (n log n), looking for an option among n arguments, naming n loggers, setting their levels once, asking for them, "
  "logging n messages or one of n characters, shutting logging down with n loggers, summing up n files, and n objects, errors or init/shutdown cycles: the work altogether and the memory in use grow in proportion to n, not with its square. "
  "An operation on a string map looks at each key at most a bounded number of times. Operations limited to a part of a text (counted forms) do no more work when the rest is longer.",
  ["inputs", "histories"], "all sizes, all histories",
  "tests use a handful of elements, where quadratic work is not noticed; at a hundred thousand it is a hang",
  ["src/array_list.c", "src/hash_map.c", "src/string_map.c", "src/string_array.c", "src/char_array.c", "src/uint8_array.c", "src/split.c", "src/find.c", "src/repl_str.c", "src/strdup.c", "src/format_string.c", "src/sha256.c", "src/qsort.c", "src/cmdline_parser.c", "src/filesystem.c", "src/error_handling.c", "src/logging.c"],
  [("growth by a factor", "array_list.c, hash_map.c, char_array.c (\"at least 1.5x\"), repl_str.c cache"), ("Just log on this failure because the map can continue to operate with degraded performance", "hash_map.c")], [],
  ["basic blocks executed", "bytes handled by C library functions", "bytes allocated and moved", "calls of hashes and comparisons", "bytes in use"])

p("P46", "What belongs to the whole process or lies around it is left alone",
  "No operation changes what all threads of a program share, neither for good nor for a moment: the working directory, the file mode mask, the locale, the environment (except the one variable named to set_env), signal actions and masks, "
  "limits, timers and identity, descriptors, their flags and positions, the state and buffering of standard streams (except the stream logging writes to), rounding mode and cancellation, random sequences, the results the C library keeps for the "
  "program (localtime, ctime, strerror, getpwuid, getenv), the positions of strtok and getopt. No operation starts processes, consumes standard input, prints where nothing is documented to be printed, or makes, changes or removes files other than "
  "the directory it was asked to make, which obeys the mask.",
  ["inputs", "environments", "histories"], "all operations, also failing ones, in any surroundings (working directories, masks, rounding modes, signal set-ups, locales, environments)",
  "tests run in one ordinary process and look at results only; what a program around the library loses is not looked at",
  ["src/filesystem.c", "src/env.c", "src/process.c", "src/shared_library.c", "src/time.c", "src/strerror.c", "src/strcasecmp.c", "src/logging.c", "src/error_handling.c", "src/cmdline_parser.c", "src/snprintf.c"],
  [("localtime_r, strerror_r and other reentrant forms", "time.c, strerror.c"), ("mkdir", "rcutils_mkdir"), ("setvbuf", "rcutils_logging_initialize_with_allocator")], [],
  ["/proc/self/status, fd, sigaction, environ, streams, static results before and after", "watched calls meanwhile", "files around"])

p("P47", "Arguments may come from what the library holds, and one may serve several parameters",
  "An operation gives the results, errors, reports and objects it gives with private copies of its arguments when a string handed to it is the message or file name of the calling thread's error state (or the end of one; also as the new error, and also "
  "when allocations fail on the way), the value of an environment variable (also of the one it sets), or the same string for several parameters: these keep their contents until the operation is done with them; operations on maps that "
  "succeed leave the error that is set as it is. A string map may be given its own keys and values, also when it grows or a key is removed by its own pointer, and may be copied onto itself; "
  "one buffer may be the key and the value set in a hash map, the key looked up and the data returned, the previous key and the next key or data; arrays may be initialized with the allocator they hold; "
  "a library may be loaded by the path of a loaded one.",
  ["inputs", "histories"], "all operations that take strings, all histories of maps, all failing allocations",
  "tests pass literals and separate buffers; a string that is overwritten, released or wiped while it is still needed matters only when it is one of the library's own",
  ["src/string_map.c", "src/hash_map.c", "src/error_handling.c", "src/string_array.c", "src/char_array.c", "src/uint8_array.c", "src/shared_library.c", "src/env.c", "src/filesystem.c", "src/logging.c", "src/split.c", "src/repl_str.c", "src/strdup.c", "src/format_string.c"],
  [("rcutils_hash_map_get_next_key_and_data(&map, &ret_key, &ret_key, &ret_data)", "test_hash_map.cpp"), ("rcutils_get_error_state, rcutils_string_map_get_next_key, rcutils_get_env return pointers to what is kept", "include/rcutils")], [],
  ["results, objects, errors and reports with and without aliasing", "string map contents after each step", "entries iterated in place"])

p("P48", "Only what is documented to be kept is kept, and what was handed out stays",
  "Operations keep no pointer to their arguments: strings, elements, keys, values, formats, locations, allocator structures, environment values read at initialization and the memory an earlier call's arguments lay in may be overwritten, freed or reused for other "
  "contents as soon as the call is over. Handles of lists, maps, string maps, arrays, buffers, libraries and hash contexts may be moved in memory between any two operations (a copied hash context goes on by itself). What an operation handed out stays as it is, in the same place, "
  "until it is documented to go: values of a string map until their own key is set or removed or the map is cleared (also when other keys are set and the capacity changes), the strings of a string array when it is resized, symbols and paths until "
  "their library is unloaded, the name of a directory entry until the next one, error strings and returned strings for good.",
  ["histories", "inputs"], "all histories, all placements of handles and arguments",
  "tests keep handles and arguments where they are until the end of the test, so what points to them stays right by chance",
  ["src/array_list.c", "src/hash_map.c", "src/string_map.c", "src/string_array.c", "src/char_array.c", "src/uint8_array.c", "src/sha256.c", "src/shared_library.c", "src/logging.c", "src/error_handling.c", "src/split.c", "src/filesystem.c", "src/env.c"],
  [("the value pointer becomes invalid if ... cleared ... updated or removed", "rcutils_string_map_get"), ("a handle is a struct with a pointer to its implementation", "include/rcutils/types/*.h")], [],
  ["results while handles move and arguments vanish", "handed out pointers and contents after every later operation"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
