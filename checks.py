"""The checks: which harness stages decide each property, and what they observe."""
import os
import subprocess

ASSUME = [
    "the platform's libc, compiler and sanitizer runtimes are correct",
    "verdicts hold for the executions observed (counted below), nothing more",
]
CHECKS = {}


def check(pid, technique, note, rule, stages, level="exploration", require=(), assumptions=None):
    for i, s in enumerate(stages):
        s.setdefault("name", "s%d" % i)
    CHECKS[pid] = dict(technique=technique, note=note, rule=rule, stages=stages, level=level, require=list(require),
                       assumptions=assumptions or ASSUME)


def aux_libs(b, wd, st):
    """Small libraries to load, next to the harness."""
    d = os.path.join(wd, "aux")
    if os.path.isdir(d):
        return
    os.makedirs(d)
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "aux", "mon_lib.c")
    for i, n in enumerate("abc"):
        o = os.path.join(d, "libmon_%s.so" % n)
        subprocess.run(["gcc", "-shared", "-fPIC", "-DMON_ID=%d" % (i + 1), "-DMON_NAME=" + n, "-Wl,-soname,libmon_%s.so.7" % n, src, "-o", o],
                       check=True)
        os.symlink("libmon_%s.so" % n, os.path.join(d, "link_%s.so" % n))
    with open(os.path.join(d, "text.so"), "w") as f:
        f.write("not a library\n")
    gone = os.path.join(d, "libmon_gone.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-DMON_ID=8", "-DMON_NAME=g", src, "-o", gone], check=True)
    subprocess.run(["gcc", "-shared", "-fPIC", "-DMON_ID=9", "-DMON_NAME=n", src, "-Wl,--no-as-needed", gone, "-o",
                    os.path.join(d, "libmon_needs.so")], check=True)
    os.remove(gone)
    subprocess.run(["gcc", "-shared", "-fPIC", "-DMON_ID=10", "-DMON_NAME=l", "-DMON_LAZY", "-Wl,-z,lazy", src, "-o",
                    os.path.join(d, "libmon_lazy.so")], check=True)


def aux_sites(b, wd, st):
    """Call sites of the logging macros, as C and C++, for every compile-time minimum severity."""
    d = os.path.join(wd, "aux")
    if os.path.isdir(d):
        return
    os.makedirs(d)
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "aux", "macro_sites.c")

    def build(job):
        lang, cc, std, i = job
        subprocess.run([cc, "-x", "c++" if lang == "cpp" else "c", "-std=" + std, "-O1", "-g1", "-w", "-shared", "-fPIC",
                        "-fsanitize=undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-D_GNU_SOURCE",
                        "-DRCUTILS_LOG_MIN_SEVERITY=%d" % i] + b.incs() + [src, "-o", os.path.join(d, "sites_%s%d.so" % (lang, i))],
                       check=True)
    list(b.pool.map(build, [(lang, cc, std, i) for lang, cc, std in (("c", "clang", "gnu11"), ("cpp", "clang++", "gnu++17"))
                            for i in range(6)]))


def wide(sections):
    """Sizes beyond 16 bits."""
    return dict(src="wide.cpp", name="wide", sections=sections)


def huge(sections):
    """Sizes beyond 32 bits, over a few megabytes mapped again and again; one run of the address sanitizer would take minutes."""
    return dict(src="huge.cpp", name="huge", flavour="plain", sections=sections, stuck=250)


check("P01", "ASan/UBSan execution with reference-sequence oracle and checking allocator",
      "Held on the generated histories; element bytes, size and return codes compared with a reference sequence after operations, "
      "with exact-size heap buffers under ASan and an allocator that always moves, poisons and counts.",
      "seeded random histories of add/set/remove/get/size over element sizes 1..5000 and capacities 1..70; non-trivial: at least one "
      "growth and one removal, or a rejected index",
      [dict(src="array_list.cpp"),
       wide("wide-list"), huge("huge-list,refused-list")], require=["beyond-32-bits", "beyond-refused", "wide.list-elements", "wide.list-large", "growths", "set.out-of-range", "remove.ok", "huge.refused"])

check("P02", "ASan/UBSan execution with reference-map oracle under hostile hash functions",
      "Held on the generated histories; every lookup, size and complete iteration compared with a reference map under nine hash "
      "functions (constant, all-ones, few chains, high bits only, same bucket with different hashes ...) and three equalities.",
      "seeded random histories of set/unset/get/exists/size/iterate; non-trivial: at least one update of a live key, one removal and a "
      "non-empty final map (string, big and huge sections: all)",
      [dict(src="hash_map.cpp"),
       wide("wide-map"), huge("huge-map,refused-map")], require=["beyond-32-bits", "beyond-refused", "wide.map", "growths", "wide.grown", "big.growths", "iter.complete", "iter.from-absent", "unset.live", "huge.refused"])

check("P03", "ASan/UBSan execution with reference-map oracle and capacity accounting",
      "Held on the generated histories; lookups (also length-delimited, with exact-size unterminated buffers), size, capacity and "
      "complete iteration compared with a reference map after operations, including shrinking maps with holes.",
      "seeded random histories over keys that are prefixes of one another; non-trivial: a shrink of a map with removed entries, or a "
      "set refused for lack of capacity, or a copy over existing keys",
      [dict(src="string_map.cpp"),
       wide("wide-smap"), huge("huge-smap,refused-smap")], require=["beyond-32-bits", "beyond-refused", "wide.string-map", "reserve.shrink-with-holes", "set_no_resize.full", "getn.absent", "getn.present", "copy.overlapping", "huge.refused"])

check("P04", "ASan/UBSan execution with reference-vector oracle and block accounting",
      "Held on the generated histories; slots compared by pointer and content, blocks counted against the live strings after every "
      "resize (also failed ones), comparison and sorting checked against an independent order.",
      "seeded random histories of put/resize/sort and triples of arrays for comparison; non-trivial: a growth and a shrink, or two "
      "different non-empty arrays compared",
      [dict(src="string_array.cpp"),
       wide("wide-sarr"), huge("huge-sarr,refused-sarr")], require=["beyond-32-bits", "beyond-refused", "wide.string-array", "resize.shrink", "resize.failed", "sorts", "cmp.equal", "cmp.less", "huge.refused"])

check("P05", "ASan/UBSan execution with byte-string oracle, exact-size sources and unowned buffers",
      "Held on the generated histories; buffer content, length, capacity and ownership compared with a model string after every "
      "operation; sources are exact-size (also unterminated for bounded appends), unowned buffers are guarded by ASan.",
      "seeded random histories of vsprintf/strcpy/memcpy/strcat/strncat/resize/expand; non-trivial: the buffer grew",
      [dict(src="bytes.cpp", sections="chars"),
       wide("wide-chars"), huge("huge-chars,refused-chars")], require=["beyond-32-bits", "beyond-refused", "wide.chars", "growths", "unowned.moved", "strncat.longer-than-source", "strncat.part", "growth.failed", "resize.truncate"])

check("P06", "ASan/UBSan execution with byte-string oracle",
      "Held on the generated histories; capacity, length and content compared with a model after every resize.",
      "seeded random histories of fill and resize; non-trivial: a resize that clipped or grew",
      [dict(src="bytes.cpp", sections="bytes"),
       wide("wide-bytes"), huge("huge-bytes,refused-bytes")], require=["beyond-32-bits", "beyond-refused", "wide.bytes", "resize.clipped", "resize.grown", "resize.zero", "resize.failed"])

check("P07", "ASan/UBSan execution with an independent tokenizer as oracle",
      "Held on every string up to length 9 over {delimiter, a, b} and on the generated longer ones; tokens compared exactly, their "
      "blocks counted, the input checked for changes; the allocator poisons fresh memory so unwritten tokens show.",
      "all short strings over a three letter alphabet plus seeded random delimited strings; non-trivial: at least two tokens",
      [dict(src="strings.cpp", sections="split,split-small,split-null,split-large"),
       wide("wide-split"), huge("huge-split")], require=["beyond-32-bits", "huge.split-around", "wide.split-many", "wide.split-long", "split.many", "split.only-delimiters", "split_last.two", "split_last.empty-before"])

check("P08", "ASan/UBSan execution with definition oracles on exact-size inputs",
      "Held on the generated inputs; results compared with independent definitions, inputs are heap copies without slack (bounded "
      "forms without terminator), argument ranges are exact.",
      "seeded random strings, bounds, characters and argument vectors; isalnum on all 256 values; non-trivial: several occurrences, "
      "differing strings, or a present option",
      [dict(src="strings.cpp", sections="find,casecmp,isalnum,cli"),
       dict(src=["strings.cpp", "aux/portable_find.c"], name="portable", sections="find", cflags=["-DMON_PORTABLE"]),
       wide("wide-find"), huge("huge-find")],
      require=["beyond-32-bits", "wide.find", "find.bounded", "find.absent", "casecmp.equal", "cli.empty-range", "cli.with-value", "cli.last", "cli.absent"])

check("P09", "ASan/UBSan execution with reference implementations",
      "Held on the generated inputs; results compared exactly with reference results, blocks counted, inputs checked for changes.",
      "seeded random texts with up to several hundred occurrences, bounds around the length, formatting requests around the limit; "
      "non-trivial: several replacements, a bounded copy, a cut text",
      [dict(src="strings.cpp", sections="repl,dup,format,format-fail"),
       wide("wide-repl"), huge("huge-copies,huge-matches")],
      require=["huge.matches", "beyond-32-bits", "wide.replace", "repl.over16", "repl.over64", "repl.none", "strndup.bounded", "format.cut", "format.whole", "format.rejected"])

check("P10", "ASan/UBSan execution with the platform formatter as reference and exact-size buffers",
      "Held on the generated requests; text, returned length, terminator and untouched remainder compared for buffers of every size "
      "around the text's length.",
      "seeded random formatting requests and error numbers with buffer sizes around the boundary (including zero); non-trivial: the "
      "text did not fit",
      [dict(src="strings.cpp", sections="bounded,strerror"),
       wide("wide-printf"), huge("huge-printf")],
      require=["beyond-32-bits", "wide.snprintf", "snprintf.cut", "snprintf.whole", "strerror.cut", "strerror.empty", "strerror.unknown"])

check("P11", "ASan/UBSan execution with permutation and order oracles",
      "Held on the generated arrays; result checked to be an ordered permutation, surroundings checked.",
      "seeded random arrays of 0..3000 elements of 1..600 bytes under four comparisons; non-trivial: more than two elements",
      [dict(src="strings.cpp", sections="sort"),
       wide("wide-sort")], require=["wide.sort-large", "wide.sort-many", "qsort.elements", "qsort.rejected", "qsort.rejected-trivial", "qsort.trivial"])

check("P12", "ASan/UBSan execution with an independent SHA-256 as oracle",
      "Held on the generated messages; digests compared with an independent implementation (constants derived from primes, tied to "
      "FIPS examples) for every length up to 319 cut at every position of its last blocks, random chunkings, interleaved and reused "
      "contexts, contexts of four threads at once (also under TSan), and one message longer than 2^32 bits.",
      "all lengths 0..319 with all cuts of the last 130 bytes, seeded random messages and chunkings; non-trivial: more than one chunk",
      [dict(src="hashtime.cpp", sections="sha-known,sha,sha-lengths,sha-interleaved,sha-threads,sha-long", link=["-Wl,--wrap=clock_gettime"]),
       dict(src="hashtime.cpp", name="tsan", flavour="tsan", sections="sha-threads", link=["-Wl,--wrap=clock_gettime"]), huge("huge-sha")],
      require=["beyond-32-bits", "sha.cuts", "sha.abandoned", "sha.reused", "sha.interleaved", "sha.threads", "sha.overlapped", "sha.long"])

check("P13", "ASan/UBSan execution with integer-arithmetic reference and parse-back oracle",
      "Held on the generated time points; texts compared with an independent rendering and parsed back, for buffers of every size, in "
      "six time zones.",
      "seeded random time points (extremes, powers of ten, negatives, few nanoseconds past a second) and buffer sizes; non-trivial: all",
      [dict(src="hashtime.cpp", sections="strings,dates", link=["-Wl,--wrap=clock_gettime"])],
      require=["time.cut", "time.whole", "time.negative", "time.empty"])

check("P14", "execution under a controllable clock (interposed clock_gettime) with exactness, bracket and order monitors",
      "Held on the generated clock values, failures and thread schedules; readings equal the injected timespec exactly, real readings "
      "are bracketed by the OS clocks, steady readings ordered by a mutex never decrease across threads.",
      "seeded random timespecs incl. boundaries, clock failures and negative times, 200-reading sequences, 4 threads handing over; "
      "non-trivial: all",
      [dict(src="hashtime.cpp", sections="clock,clock-real,clock-threads,clock-race", link=["-Wl,--wrap=clock_gettime"]),
       dict(src="hashtime.cpp", name="tsan", flavour="tsan", sections="clock-threads,clock-race", link=["-Wl,--wrap=clock_gettime"])],
      require=["clock.concurrent-readings", "clock.concurrent-switches", "clock.injected", "clock.failed", "clock.negative", "clock.bracketed", "clock.thread-handovers"])

check("P15", "ASan/UBSan execution with a model of the error state and captured standard error",
      "Held on the generated histories; error state, error string and set flag compared with a model after every step (twice, in "
      "varying order), standard error captured and searched for the overwrite report.",
      "seeded random histories of set (also from the thread's own error buffers), format, append, reset, print; non-trivial: an "
      "overwritten error or a cut message",
      [dict(src="errors.cpp", sections="errors,errors-init"), dict(src="kept.cpp", name="kept", aux=[aux_libs]),
       wide("wide-error"), huge("huge-error")],
      require=["kept.looked", "kept.single", "errors.nearly-same", "wide.error", "errors.cut", "errors.overwritten", "errors.same-again", "errors.appended", "errors.null", "errors.thread-init"])

check("P16", "ThreadSanitizer and ASan execution of concurrent error users, one model per thread",
      "Held on the observed interleavings; every thread compares its error state with its own model at every step, ThreadSanitizer "
      "watches for races; the order of steps is recorded to count interleavings.",
      "2..6 threads with seeded random histories of set/append/get/reset; non-trivial: more switches between threads than threads; "
      "distinct by the recorded global order of steps",
      [dict(src="errors.cpp", sections="threads", flavour="tsan", name="tsan"), dict(src="errors.cpp", sections="threads", name="asan")],
      level="exploration", require=["threads.interleaved", "threads.switches"])

LOGLINK = ["-Wl,--wrap=clock_gettime", "-lutil"]
check("P20", "ASan/UBSan execution with a reference level tree",
      "Held on the generated histories; individual, effective and default levels and enablement compared with a reference tree, also "
      "across shutdown and initialization; length-delimited lookups on exact-size buffers.",
      "seeded random histories over dotted names that share prefixes (empty components included); non-trivial: some level was inherited",
      [dict(src="logging.cpp", sections="levels,level-names", link=LOGLINK),
       wide("wide-levels"),
       dict(huge("huge-names"), libcflags=["-fsanitize=signed-integer-overflow", "-fsanitize-trap=signed-integer-overflow"], shards=4)],
      require=["beyond-32-bits", "wide.levels", "levels.inherited", "levels.unset", "levels.rejected", "levels.enabled", "levels.disabled", "levels.restarts", "levels.named", "levels.unnamed"])

check("P21", "ASan/UBSan execution with a recording output handler and delivery ledger",
      "Held on the generated histories; every call's deliveries counted and compared (handler, location, severity, name, arguments, "
      "timestamp bracketed by the clock), including nested calls from the handler and automatic initialization.",
      "seeded random histories of handler changes, level changes and log calls; non-trivial: some calls delivered, some suppressed",
      [dict(src="logging.cpp", sections="delivery", link=LOGLINK)],
      require=["deliver.delivered", "deliver.suppressed", "deliver.nested", "deliver.switched-within"])

check("P22", "ASan/UBSan execution with a reference renderer on captured streams",
      "Held on the generated formats and records; formatted messages and captured console output (files and pseudo terminals, both "
      "streams, all color settings, fixed clock) compared byte for byte with a reference renderer.",
      "seeded random format strings (tokens, near-tokens, escapes, many parts, around the size limit) and records (lengths around the "
      "internal buffers); non-trivial: the format has a brace, or any console line",
      [dict(src="logging.cpp", sections="format,console,console-odd,console-broken", link=LOGLINK),
       wide("wide-console")],
      require=["wide.console", "console.unwritable", "console.recovered", "format.rendered", "format.long", "format.escapes", "format.unknown-escape", "format.trailing-backslash", "format.many-parts",
               "console.stdout", "console.stderr", "console.colored", "console.tty", "console.long", "console.immediate", "console.odd", "console.line-buffered", "console.unbuffered",
               "console.fully-buffered"])

check("P23", "ASan/UBSan execution of configuration cycles with fresh-process oracle and allocator ledger",
      "Held on the generated cycles; every initialization's verdict, resulting levels, handler, stream, color and format compared with what "
      "its own environment demands; allocations counted after every shutdown.",
      "seeded random cycles of environment settings (valid and invalid), use and shutdown; non-trivial: several good cycles or an invalid setting",
      [dict(src="logging.cpp", sections="cycles", link=LOGLINK)],
      require=["cycle.good", "cycle.bad", "cycle.twice", "cycle.shutdown-twice", "cycle.invalid-allocator", "cycle.no-memory"])

WRAPALLOC = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "strdup", "strndup"))]
check("P17", "ASan/UBSan execution with an allocator that fails at every point in turn, ledger and state oracles",
      "Held for every allocation point reached by the generated operations, failing once, with all later ones and with a second one; return "
      "value, object state, leaks, retry without faults and immediate finalization checked at each point.",
      "seeded random operations of 13 kinds over all allocating interfaces, every allocation of each failed in turn; non-trivial: at "
      "least one allocation failed",
      [dict(src="alloc.cpp", sections="alloc-faults,alloc-faults-fini", link=WRAPALLOC)],
      require=["failed." + k for k in ("array_list", "hash_map", "string_map", "string_array", "char_array", "uint8_array", "split", "repl_str", "strdup",
               "strndup", "format_string", "format_string_limit", "join_path", "to_native_path", "expand_user", "get_executable_name", "dir_iter",
               "directory_size", "shared_library", "logging", "severity")] + ["faults.reported", "faults.tolerated", "faults.finalized"])

check("P18", "ASan execution with per-object ledger allocators and interposed malloc family",
      "Held on the generated groups of objects; every block is accounted to the allocator of its object (which moves, poisons and "
      "rejects foreign pointers), also while its requests fail, direct calls of malloc and friends by the library are seen, realloc-or-free and validity are checked.",
      "seeded random groups of 2..5 objects of 14 kinds, interleaved, finalized in random order; non-trivial: more than three allocations",
      [dict(src="alloc.cpp", sections="ownership,reallocf,validity", link=WRAPALLOC),
       dict(src="alloc.cpp", name="failing", sections="alloc-faults,alloc-faults-fini", link=WRAPALLOC, scale=0.5)],
      require=["owner." + k for k in ("array_list", "hash_map", "string_map", "string_array", "char_array", "uint8_array", "split", "dir_iter",
               "directory_size", "shared_library", "logging", "severity")] + ["reallocf.failed", "reallocf.zero", "reallocf.ok", "valid.partial", "logging.reallocated", "default.wrapped"])

check("P32", "ASan/UBSan execution with every fault injection point fired in turn, leak ledger and state oracles",
      "Held for every injection point reached by the generated operations, with the default allocator (leaks seen through interposed "
      "malloc) and with a checking one; return value, state, leaks and retry without injection checked at each point.",
      "seeded random operations of 14 kinds, every injection point fired in turn; non-trivial: at least one point fired",
      [dict(src="alloc.cpp", sections="injected", link=WRAPALLOC)],
      require=["injected." + k for k in ("array_list", "hash_map", "string_map", "string_array", "char_array", "uint8_array", "split", "repl_str",
               "strdup", "strndup", "format_string", "join_path", "to_native_path", "expand_user", "get_executable_name", "dir_iter",
               "directory_size", "shared_library", "logging", "severity", "env")] + ["faults.reported"])

check("P27", "ASan/UBSan execution with stat/lstat oracle on generated file systems",
      "Held on the generated directories; every predicate and size compared with what stat says at that moment, every directory creation "
      "with a prediction and a before/after snapshot of the tree, also as an unprivileged user, with stale errno values.",
      "seeded random entries (regular, sparse > 4 GB, directory, fifo, socket, links, loops) with all mode bits, changed between queries; "
      "path spellings incl. over-long and non-directories; mkdir histories; non-trivial: more than two entries, a directory made",
      [dict(src="fs.cpp", sections="predicates,cwd,mkdir")],
      require=["seen.absent", "seen.directory", "seen.file", "seen.other", "seen.huge", "mode.00", "mode.01", "mode.10", "mode.11", "changes",
               "cwd.ok", "cwd.small", "cwd.removed", "mkdir.made", "mkdir.existing", "mkdir.impossible", "mkdir.relative"])

check("P28", "ASan/UBSan execution with string oracle and checking allocator",
      "Held on the generated components; results compared with the concatenation, ownership and inputs checked, lengths around and above "
      "the internal 2048 byte format buffer.",
      "seeded random components (empty, separators, format directives, any bytes, up to 6000 bytes) and HOME values; non-trivial: two "
      "non-empty components",
      [dict(src="fs.cpp", sections="paths"),
       wide("wide-paths")],
      require=["wide.paths", "join.long", "join.short", "expand.tilde", "expand.plain", "expand.no-home", "expand.long"])

check("P29", "ASan/UBSan execution with generated trees as oracle, descriptor and allocation accounting",
      "Held on the generated trees; listings compared with the entries made (interleaved iterators, stopped anywhere), sizes with the "
      "per-level sums recorded when the tree was made, for all depths, with links (also to parents), long paths and unreadable parts.",
      "seeded random trees up to 16 levels and 4000 byte paths, files up to 16 GB (sparse); non-trivial: three levels and six entries, or "
      "a listing of more than two",
      [dict(src="fs.cpp", sections="listing,sizes,removed"),
       wide("wide-dir,wide-deep,wide-siblings")],
      require=["wide.directory-entries", "wide.levels-of-directories", "iter.complete", "iter.early", "iter.many", "size.links", "size.huge", "size.long-path", "size.deep", "removed"])

check("P30", "ASan/UBSan execution with the dynamic linker as oracle and per-library ledgers",
      "Held on the generated histories; handles, symbols, paths and whether a library is really loaded compared with what dlopen "
      "(RTLD_NOLOAD), dlsym and dlinfo say after every step; file names composed into exact-size buffers.",
      "seeded random histories of four library objects over four generated libraries, a system one, links, missing and broken files; "
      "all buffer sizes around the needed one; non-trivial: two loads and an unload",
      [dict(src="sysq.cpp", sections="libraries,platform-names", aux=[aux_libs]),
       wide("wide-names")],
      require=["wide.names", "load.ok", "load.failed", "load.refused", "unload.refused", "unload.shared", "unload.last", "symbol.found", "symbol.missing",
               "symbol.called", "symbol.own", "load.lazy", "name.exact", "name.small", "name.ok"])

check("P31", "ASan/UBSan execution with the process environment as oracle",
      "Held on the generated histories; the whole environment compared with a model after every step (in a child process too), process "
      "ids also after fork, executable names for arbitrary invocation names.",
      "seeded random histories of set/unset/keep/get over valid, odd and invalid names; non-trivial: four changes",
      [dict(src="sysq.cpp", sections="env,process"),
       wide("wide-env")],
      require=["wide.env", "env.set", "env.unset", "env.bad", "env.kept", "get.present", "get.absent", "home.none", "pid.child", "exe.empty", "exe.plain",
               "exe.trailing", "exe.path"])

check("P25", "ThreadSanitizer race detection and record/line conservation monitors under concurrent logging",
      "Held on the observed interleavings; every record compared with what its thread logged (recording handler) and every console line "
      "attributed to its thread in program order; the library runs under ThreadSanitizer, and uninstrumented at higher speed.",
      "seeded plans of 2..6 threads with 10..60 records each, levels set before, long and short messages, own and real timestamps; "
      "non-trivial: more switches between threads than threads (distinct: distinct observed interleavings)",
      [dict(src="conc.cpp", name="tsan", flavour="tsan", sections="conc-record,conc-console,conc-uncached"),
       dict(src="conc.cpp", name="fast", flavour="plain", sections="conc-record,conc-console,conc-uncached", scale=3)],
      require=["conc.records", "conc.disabled", "conc.switches", "console.lines", "console.switches", "console.direct", "console.logged",
               "conc.levels", "conc.no-levels", "conc.uncached", "console.hostile"])

check("P26", "ThreadSanitizer execution with counting oracle over concurrent fault points",
      "Held on the observed interleavings; each count consumed exactly once, exactly one failure per setting, readers see it fall; "
      "single-threaded histories (also the pausing and looping macros) compared with a counter model.",
      "seeded histories of set/point/pause/loop and runs of 2..7 threads with 20..400 points each; non-trivial: a point failed, any "
      "threaded run",
      [dict(src="conc.cpp", name="tsan", flavour="tsan", sections="fault-history,fault-threads"),
       dict(src="conc.cpp", name="fast", flavour="plain", sections="fault-threads", scale=4)],
      require=["fault.fired", "fault.loops", "fault.points", "fault.concurrent-failures", "fault.switches", "fault.with-resets", "fault.api"])

check("P24", "ASan/UBSan execution of every macro's call sites with per-site condition models under a scripted clock",
      "Held on the generated histories; every pass over a call site compared with a model of its condition (record, severity, name, "
      "location, arguments and conditions evaluated), for all macros, as C and C++, at all compile-time minimum severities, each case "
      "with fresh call sites.",
      "seeded random passes over one to six of 180 call sites per library with level changes and forward, backward, equal and failing "
      "clocks at the interval's edges; non-trivial: some passes logged and some did not",
      [dict(src="macros.cpp", sections="macros", aux=[aux_sites], must_compile="aux", link=["-rdynamic"])],
      require=["macro.logged", "macro.compiled-out", "macro.disabled", "macro.clock-failed", "macro.throttled", "macro.skipped", "macro.backward",
               "macro.once-held", "macro.autoinit"] + ["logged." + k for k in ("once", "expression", "function", "skipfirst", "throttle", "named")])

check("P19", "ASan/UBSan execution of every argument combination with state snapshot and error oracles",
      "Held on the generated calls; every documented rejection of 70 functions, with one or several wrong arguments, checked for its code, "
      "its message, unwritten outputs, no allocator calls, and unchanged, still usable objects of every kind.",
      "seeded random combinations of NULL, uninitialized, finalized or in-use objects, incomplete allocators (all 15 kinds), forbidden "
      "sizes, indexes and levels; non-trivial: more than five rejected calls",
      [dict(src="args.cpp", sections="args,codes")],
      require=["combinations", "return codes told apart", "live-init"] + ["rejected." + k for k in ("array_list_init", "hash_map_set", "string_map_copy", "string_array_cmp_content",
               "char_array_grow", "uint8_array_resize", "split", "join_path", "snprintf", "time_now", "get_env", "dir_iter_next",
               "unload_shared_library", "set_logger_level", "logging_initialize", "string_map_set_no_resize_full", "calculate_directory_size")])

check("P33", "ThreadSanitizer and ASan execution, concurrent results compared with the same operations alone",
      "Held on the observed interleavings; eighteen kinds of operation on thread-private objects gave, with other threads at work, exactly the results, "
      "errors and allocation balance they gave alone; ThreadSanitizer watches for hidden shared state.",
      "seeded plans of 2..6 threads with 6..15 operations each, two thirds hammering one kind; non-trivial: more switches between threads than threads",
      [dict(src="parallel.cpp", name="tsan", flavour="tsan", aux=[aux_libs]),
       dict(src="parallel.cpp", name="asan", aux=[aux_libs]),
       dict(src="parallel.cpp", name="fast", flavour="plain", aux=[aux_libs], scale=4)],
      require=["parallel.switches"] + ["parallel." + k for k in ("list", "map", "string_map", "string_array", "char_array", "sha", "repl", "dup", "format", "find",
               "sort", "time", "error", "paths", "files", "library", "severity", "failing")])

ATOMSRC = ["atomics.cpp", "aux/atom_default.c", "aux/atom_compat.c", "aux/atom_gnu.c"]
check("P34", "ThreadSanitizer and native execution with linearizability, conservation and litmus oracles",
      "Held on the observed interleavings; fetch-adds checked to form one total order, exchanged values to come out exactly once, locks and "
      "hand-overs built on the helpers to protect plain data (races seen by ThreadSanitizer), store/load litmus tests run natively; single-threaded "
      "histories against a model of each variable; for the platform's atomics and the bundled replacement in two configurations.",
      "seeded random histories and runs of 2..7 threads; non-trivial: more switches between threads than threads, both outcomes of a litmus test",
      [dict(src=ATOMSRC, name="tsan", flavour="tsan", sections="atom-count,atom-exchange,atom-lock,atom-publish", shards=4, must_compile="aux/atom_"),
       dict(src=ATOMSRC, name="asan", sections="atom-seq"),
       dict(src=ATOMSRC, name="fast", flavour="plain", shards=3)],
      require=["atom.native", "atom.compat", "atom.gnu", "atom.cas-won", "atom.cas-lost", "atom.adds", "atom.exchanges", "atom.switches", "atom.lock0", "atom.lock4",
               "atom.publish0", "atom.publish4", "atom.both-seen", "atom.first-seen"])

NOT_CLAIMED = {}

WRAPS = ["vsnprintf", "clock_gettime", "localtime_r", "strftime", "opendir", "readdir", "stat", "lstat", "getcwd", "mkdir", "dlopen", "dlinfo", "dlclose",
         "setenv", "unsetenv", "setvbuf"]
check("P35", "ASan/UBSan execution with every operating-system call failing in turn, full-effect-or-reported-failure oracle",
      "Held on the generated operations; each call an operation makes was made to fail, alone and with all later ones: the operation reported it or "
      "had its full effect, gave back memory and descriptors, and worked as before afterwards; trees with entries that cannot be looked at or read.",
      "22 operations with seeded arguments times all their calls times error codes; seeded random trees with one faulty path each; non-trivial: the "
      "operation made calls, the tree has more than four entries",
      [dict(src="osfail.cpp", aux=[aux_libs], link=["-Wl,--wrap=" + w for w in WRAPS])],
      require=["tree.unread", "tree.unseen", "tree.untouched", "failed.vsnprintf", "op.format", "op.console", "op.message", "op.library", "op.listing",
               "op.directory_size", "op.set_env", "op.deliver"])

HELPERS = ["helpers.cpp"] + ["aux/helper_%s" % x for x in ("c.c", "c_nofault.c", "cpp.cpp", "cpp_nofault.cpp")]
check("P36", "ASan/UBSan execution of the helper macros' call sites with condition, evaluation-count, error-state and exact-value oracles",
      "Held on the generated executions; 80 call sites of the macros, each compiled as C and C++ with and without fault injection, with arguments of every "
      "shape (choices, casts, calls, variables named like the macros' own, percent signs, unbraced branches) compared with what the macro promises.",
      "seeded random values, error states, armed counters and allocators; 40 sites per case; non-trivial: conditions that held and that did not",
      [dict(src=HELPERS, must_compile="aux/helper_")],
      require=["kind.%d" % k for k in range(19)] + ["as.C", "as.C++", "as.C without faults", "as.C++ without faults", "held", "not-held", "autoinit.failed",
               "autoinit.again", "thread-local"])

LOCALES = ["tr_TR.ISO-8859-9", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "ja_JP.SHIFT_JIS", "fa_IR.UTF-8", "zh_CN.GB18030"]


def aux_locales(b, wd, st):
    """Locales with other cases, letters, digits, separators and multibyte encodings, made from the C library's definitions."""
    d = os.path.join(wd, "locale")
    if os.path.isdir(d):
        return
    os.makedirs(d)
    list(b.pool.map(lambda l: subprocess.run(["localedef", "--no-archive", "--no-warnings=ascii", "-i", l.split(".")[0], "-f", l.split(".")[1], os.path.join(d, l)],
                                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True), LOCALES))


def lc(name, src, scale, sections=None, link=(), aux=()):
    st = dict(src=src, name=name, scale=dict(quick=scale, thorough=scale), link=list(link), aux=list(aux) + [aux_locales],
              env=dict(MON_LOCALE=",".join(LOCALES)), contrast=dict(MON_LOCALE=""))
    if sections:
        st["sections"] = sections
    return st


check("P38", "ASan/UBSan execution of the workloads of other properties in foreign locales, contrasted with the C locale",
      "Held on the generated executions; six locales (Turkish case rules in one-byte and UTF-8 form, Latin-1 letters, a decimal comma, Arabic-script digits, two "
      "multibyte encodings whose second bytes are ASCII characters); every oracle is absolute, and a case that fails is run again in the C locale.",
      "the generated cases of the other properties; non-trivial as there",
      [lc("strings", "strings.cpp", 0.4, "split,find,isalnum,cli,repl,dup,format,bounded,sort"),
       lc("hashtime", "hashtime.cpp", 0.3, "strings,dates", link=["-Wl,--wrap=clock_gettime"]),
       lc("logging", "logging.cpp", 0.4, link=LOGLINK), lc("errors", "errors.cpp", 0.2, "errors"), lc("string_map", "string_map.cpp", 0.3, "sm.model,sm.copy"),
       lc("string_array", "string_array.cpp", 0.3, "ops,cmp"), lc("bytes", "bytes.cpp", 0.2, "chars"), lc("hash_map", "hash_map.cpp", 0.3, "hm.string"),
       lc("fs", "fs.cpp", 0.2, "paths,listing,sizes"), lc("sysq", "sysq.cpp", 0.2, aux=[aux_libs])],
      require=["locale." + l for l in LOCALES] + ["isalnum.values", "levels.named", "console.stdout", "format.rendered", "repl.some"])

check("P39", "Execution under a process-wide allocation, descriptor, mapping and thread count, cycles compared with their own past",
      "Held on the observed runs; after a warm-up of 24 turns memory, descriptors, threads and the allocations of each cycle never exceed what they were; "
      "element-by-element construction stays within amortized bounds.",
      "17 kinds of work with seeded parameters repeated 120..280 (thorough: 1600) times, five kinds of large objects; non-trivial: more turns than the warm-up",
      [dict(src="steady.cpp", flavour="plain", aux=[aux_libs])],
      require=["steady." + k for k in ("list", "map", "map, new keys", "string map", "string map, new keys", "string array", "char and byte arrays", "short-lived objects",
               "errors", "logging", "logging restarts", "strings", "files", "shared libraries", "process and environment", "failing operations", "threads")] +
              ["build." + k for k in ("list", "map", "string map", "text", "replacement")])

check("P40", "ASan/UBSan execution with operations nested in callbacks and between steps of others, compared with the same operations alone",
      "Held on the observed runs; every nested and every interrupted operation gave what it gives alone, every record logged within the handling of another reached its handler "
      "once and unchanged.",
      "18 kinds of operations interrupted in allocators, hash functions, comparisons and between steps by up to three levels of others; handlers which log, change levels and "
      "handlers and print; call sites whose arguments, conditions and clocks log; non-trivial: several nested operations",
      [dict(src="reentry.cpp", aux=[aux_libs])],
      require=["from.steps", "from.allocator", "from.hash", "from.equality", "from.comparison", "handler.nested", "handler.silent", "handler.console lines", "handler.changes",
               "tasks within a handler", "tasks within the logging allocator", "lines printed within the logging allocator", "sites.records"])

def ss(name, src, scale, sections=None, **kw):
    st = dict(src=src, name=name, flavour="plain", env=dict(MON_STACK="131072"), scale=dict(quick=scale, thorough=scale), **kw)
    if sections:
        st["sections"] = sections
    return st


check("P41", "Execution of every operation on large inputs in threads with small stacks between unmapped pages, high-water mark of the stack",
      "Held on the executions observed: every operation gave the right result for inputs several times larger than the stack it ran on, and nothing beyond the stack was touched.",
      "strings, elements, counts, environment values, records and directory chains of 300 kB to 600 kB (thorough: 3 MB) on stacks of 128 KiB surrounded by unmapped memory, and a tenth "
      "of the generated cases of the other properties; non-trivial as there",
      [ss("wide", "wide.cpp", 1),
       ss("list", "array_list.cpp", 0.1, "al.model,al.pair"), ss("map", "hash_map.cpp", 0.1, "hm.model,hm.string,hm.wide"),
       ss("string_map", "string_map.cpp", 0.1, "sm.model,sm.copy"), ss("string_array", "string_array.cpp", 0.1, "ops,cmp,cmp-null"),
       ss("bytes", "bytes.cpp", 0.1), ss("strings", "strings.cpp", 0.1), ss("hashtime", "hashtime.cpp", 0.1, "sha-known,sha,sha-lengths,sha-long,strings,dates,clock", link=["-Wl,--wrap=clock_gettime"]),
       ss("errors", "errors.cpp", 0.1), ss("logging", "logging.cpp", 0.1, link=LOGLINK), ss("fs", "fs.cpp", 0.1), ss("sysq", "sysq.cpp", 0.1, aux=[aux_libs]), ss("args", "args.cpp", 0.1)],
      require=["cases on small stacks", "max stack in use", "wide.sort-large", "wide.sort-many", "wide.directory-entries", "wide.levels-of-directories", "wide.siblings", "wide.names", "wide.env",
               "wide.console", "wide.find"])

check("P42", "ASan execution with allocation hooks and an allocator that refuses everything, around every operation documented not to allocate",
      "Held on the observed operations apart from the listed findings: no call of the allocator in use, no allocation from the heap by any function, and full success while nothing can be allocated.",
      "seeded random histories of lists, maps and loggers with lines of up to exactly 1023 characters, times and clocks, rejected calls included; non-trivial: more than three elements, a line and three "
      "levels",
      [dict(src="noalloc.cpp")],
      require=["op." + o for o in ("array_list_remove", "array_list_set", "array_list_get", "array_list_get_size", "array_list_fini", "hash_map_unset", "hash_map_get", "hash_map_key_exists",
               "hash_map_get_size", "hash_map_get_capacity", "hash_map_get_next_key_and_data", "hash_map_fini", "get_logger_level", "get_logger_leveln", "get_logger_effective_level",
               "logger_is_enabled_for", "set_output_handler", "get_output_handler", "set_default_logger_level", "get_default_logger_level", "log", "log_internal", "log macro", "logging_shutdown",
               "time_point_value_as_nanoseconds_string", "time_point_value_as_seconds_string", "time_point_value_as_date_string", "system_time_now", "steady_time_now",
               "get_default_allocator")] + ["lines", "lines of 1023 characters", "elements of long lists removed", "entries of large maps removed"])

check("P43", "ASan/UBSan execution with threads stopped at arbitrary branches of the library and in callbacks while others work, results compared with the same operations alone",
      "Held on the observed runs; with one to three threads stopped in the middle of operations, the operations of other threads and of processes forked at that moment came to an end "
      "and gave what they give alone, and so did the interrupted ones afterwards.",
      "18 kinds of operations and logging, stopped at seeded branches of the library (a hook compiled in at every basic block, load and store), allocators, hashes, comparisons, handlers, conditions, arguments and "
      "clocks; non-trivial: a thread was stopped",
      [dict(src="holdup.cpp", aux=[aux_libs], libcflags=["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"],
            link=["-Wl,--wrap=" + f for f in ("__asan_memcpy", "__asan_memmove", "__asan_memset", "memchr", "strlen", "strcmp", "strncmp", "vsnprintf", "qsort", "getenv", "localtime_r",
                                              "stat", "lstat", "opendir", "readdir", "closedir")])],
      require=["held in the library", "held in a callback", "completed meanwhile", "forked", "forked and logged", "records", "logging held in the library", "logging held in the logging allocator",
               "logging held in an output handler", "logging held in a condition", "logging held in an argument", "logging held in a clock"])

check("P44", "ASan/UBSan execution with inputs and objects on pages that cannot be written, next to pages that cannot be accessed, results compared with ordinary copies",
      "Held on the generated calls; no input was written, even for a moment, nothing beyond one was read, nothing behind a const handle changed, and results were those with ordinary inputs, also when "
      "allocations failed.",
      "18 kinds of operations with seeded inputs ending (or beginning) at an inaccessible page, names given by length unterminated, half of them with failing allocations; five kinds of objects frozen "
      "with everything they own while they are looked at; non-trivial: more than two inputs or elements",
      [dict(src="constin.cpp", aux=[aux_libs], link=["-Wl,--wrap=clock_gettime"])],
      require=["inputs." + k for k in ("find", "split", "repl", "dup", "format", "chars", "case", "list", "map", "string map", "arguments", "time", "sha", "paths", "environment", "library", "error",
               "logging")] + ["failed allocations", "looked at unwritable objects"])

COUNTED = ["memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "strnlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strcpy", "strncpy", "strcat", "strncat", "strchr",
           "strrchr", "strstr", "vsnprintf", "snprintf"]
check("P45", "execution with the library's basic blocks, C library bytes, allocator bytes and callbacks counted, the same workload at two sizes compared",
      "Held on the generated workloads; with eight times as many elements, characters, loggers or files, none of the counted kinds of work and memory grew by more than twice as much as it may.",
      "17 families of workloads with seeded parameters, each at a size and at eight times that size; non-trivial: both sizes completed",
      [dict(src="growth.cpp", flavour="plain", libcflags=["-fsanitize-coverage=trace-pc", "-fno-builtin", "-U_FORTIFY_SOURCE"], link=["-Wl,--wrap=" + w for w in COUNTED])],
      require=["growth." + k for k in ("list", "map", "smap", "chars", "sarr", "bytes", "split", "find", "repl", "copies", "sha", "sort", "args", "errors", "loggers", "console", "dirs")] +
              ["measured " + k for k in ("basic blocks", "bytes through the C library", "bytes from the allocator", "calls of what it was given", "bytes in use")])

MEMCHECK = ["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=20", "--fair-sched=yes"]


def mc(name, src, scale, sections=None, link=(), aux=(), shards=4):
    st = dict(src=src, name=name, flavour="plain", cflags=["-DMON_MEMCHECK"], libcflags=["-O0"], prefix=MEMCHECK, scale=dict(quick=scale, thorough=scale), shards=shards,
              link=list(link), aux=list(aux))
    if sections:
        st["sections"] = sections
    return st


CLOCKS = ["-Wl,--wrap=clock_gettime"]
check("P37", "Valgrind memcheck execution of the workloads of the other properties, allocator blocks marked as never written",
      "Held on the executions observed; nothing the library decided, returned or wrote depended on memory never written, and no access was out of bounds.",
      "the generated cases of the other properties, a few per cent of them; non-trivial as there",
      [mc("list", "array_list.cpp", 0.06, "al.model,al.pair"), mc("map", "hash_map.cpp", 0.06, "hm.model,hm.string,hm.wide"),
       mc("string_map", "string_map.cpp", 0.06, "sm.model,sm.copy"), mc("string_array", "string_array.cpp", 0.06, "ops,cmp,cmp-null"),
       mc("bytes", "bytes.cpp", 0.06), mc("strings", "strings.cpp", 0.06, "split,split-null,find,casecmp,cli,repl,dup,format,format-fail,bounded,strerror,sort"),
       mc("hashtime", "hashtime.cpp", 0.06, "sha-known,sha,sha-lengths,sha-interleaved,strings,dates,clock", link=CLOCKS),
       mc("errors", "errors.cpp", 0.06), mc("logging", "logging.cpp", 0.06, link=LOGLINK), mc("alloc", "alloc.cpp", 0.06, link=WRAPALLOC),
       mc("fs", "fs.cpp", 0.06), mc("sysq", "sysq.cpp", 0.06, aux=[aux_libs]), mc("args", "args.cpp", 0.06),
       mc("osfail", "osfail.cpp", 0.06, link=["-Wl,--wrap=" + w for w in WRAPS], aux=[aux_libs]), mc("helpers", HELPERS, 0.06)],
      require=["growths", "growth.failed", "removed", "iter.steps", "reserve.shrink-with-holes", "resize.failed", "find.present", "repl.over16", "format.rendered",
               "errors.cut", "console.stderr", "console.tty", "deliver.delivered", "expand.long", "failed.readdir", "failed.localtime_r", "failed.getcwd",
               "pred.failed", "load.failed", "mkdir.made", "qsort.elements", "cycle.good", "rejected.join_path"])

FELT = ("chdir", "fchdir", "umask", "setlocale", "setenv", "unsetenv", "putenv", "clearenv", "signal", "sigaction", "alarm", "srand", "srandom", "fork", "system", "popen",
        "raise", "kill", "chmod", "unlink", "rmdir", "remove", "rename", "truncate")
check("P46", "ASan/UBSan execution with the process's surroundings recorded before and after, and calls felt by all threads watched meanwhile",
      "Held on the observed runs; of some 200 recorded facts about the process and the files around it none changed, and none of the %d watched calls was made meanwhile." % len(FELT),
      "21 kinds of work with seeded parameters, each in surroundings drawn at random (working directory, mask, rounding, signals, locale, descriptors, positions); every case counts as non-trivial",
      [dict(src="world.cpp", aux=[aux_libs], link=["-Wl,--wrap=" + w for w in FELT])],
      require=["world." + k for k in ("list", "map", "map, new keys", "string map", "string map, new keys", "string array", "char and byte arrays", "short-lived objects", "errors", "logging",
               "strings", "files", "shared libraries", "process and environment", "failing operations", "threads", "logging started and stopped", "one variable set",
               "paths, also missing and unreadable ones", "directories made", "small helpers", "recorded", "modes")] + ["world.round %d" % r for r in (0, 0x400, 0x800, 0xc00)])

check("P47", "ASan/UBSan execution of each operation twice, with private copies of its arguments and with arguments held by the library or given twice, all results compared",
      "Held on the generated calls; results, objects, return codes, errors and reports were those with private copies of the arguments, also when allocations failed.",
      "19 kinds of operations with strings from the error state, the environment and other arguments, histories of string maps given their own keys and values, hash maps with one buffer for several arguments, "
      "objects initialized from their own allocator; non-trivial: more than two characters, own keys or entries",
      [dict(src="alias.cpp", link=["-Wl,--wrap=clock_gettime"])],
      require=["alias." + k for k in ("find", "split", "repl", "dup", "format", "case", "chars", "map", "ask", "paths", "dirs", "env", "args", "sha", "arrays", "error", "library", "logging", "first record")] +
              ["from " + k for k in ("the error message", "the error's file name", "the end of the error message", "the environment", "one string for all")] +
              ["smap." + k for k in ("own key, own value of it", "own key, value of another", "own key as its value", "own key, another as its value", "own value as key and value",
               "end of an own value as key, own key as value", "own key removed", "own value removed as key", "copied onto itself")] +
              ["hmap." + k for k in ("one buffer as key and value", "looked up in place", "next key in place", "data over the previous key", "errors kept")] + ["smap.errors kept"] +
              ["objects." + k for k in ("string array", "char array", "byte array", "library")] + ["failed allocations"])

check("P48", "ASan/UBSan execution with handles moved before each call, arguments overwritten and freed after it, and everything handed out looked at again",
      "Held on the generated histories; every result was that of a reference model although handles moved between any two calls and no argument outlived its call, and what was handed out stayed as it was.",
      "9 kinds of objects and operations in seeded random histories; non-trivial: more than two moves, strings or records",
      [dict(src="moved.cpp")],
      require=["moved." + k for k in ("list", "map", "smap", "sarr", "chars", "sha", "library", "texts", "logging")] + ["moves", "values handed out", "strings handed out", "moved.environment"])
