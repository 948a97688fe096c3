#!/usr/bin/python3
"""Runs one check:  run.py P01   (environment: VERIF_SEED, VERIF_TIER)
   run.py --replay FILE           reruns the case a VIOLATION line pointed to.

Builds the rcutils sources of /repo's working tree under the instrumentation a check needs, builds
the check's harness against them, runs it sharded, folds oracle and sanitizer verdicts together,
matches them against known_findings.txt, writes evidence/<id>.json.
exit 0: held on everything observed; 1: VIOLATION; 2: the check itself could not decide."""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
import checks as C

NPROC = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    pass


class DoesNotCompile(CheckError):
    """Call sites of the public macros which every correct tree accepts."""


# ------------------------------------------------------------------ building
FLAVOURS = {
    "asan": dict(cc="clang", cxx="clang++",
                 flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls",
                        "-fsanitize=address,undefined",
                        "-fno-sanitize=nonnull-attribute,pointer-overflow,vptr",
                        "-fno-sanitize-recover=all"]),
    "tsan": dict(cc="clang", cxx="clang++",
                 flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"]),
    "plain": dict(cc="gcc", cxx="g++", flags=["-O1", "-g1"]),
}


def sh(cmd, what, timeout=600, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise CheckError("%s timed out" % what)
    if p.returncode != 0:
        raise CheckError("%s failed:\n%s\n%s" % (what, " ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout


def lib_sources():
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"set\(rcutils_sources\s(.*?)\)", txt, re.S)
    out = []
    if m:
        for t in m.group(1).split():
            t = t.replace("${time_impl_c}", "src/time_unix.c")
            if t.endswith(".c") and os.path.exists(os.path.join(REPO, t)):
                out.append(t)
    if not out:
        out = [os.path.relpath(f, REPO) for f in
               glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/testing/*.c")
               if not f.endswith("time_win32.c")]
    return sorted(set(out))


class Build:
    def __init__(self, workdir):
        self.wd = workdir
        self.libs = {}
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self.inc = os.path.join(workdir, "include")
        os.makedirs(os.path.join(self.inc, "rcutils"), exist_ok=True)
        sh(["/usr/bin/python3", "-B", "-c",
            "import em; em.invoke(['-o', %r, '-D', 'rcutils_module_path=%s', %r])" % (
                os.path.join(self.inc, "rcutils", "logging_macros.h"), json.dumps(REPO),
                os.path.join(REPO, "resource", "logging_macros.h.em"))], "generating logging_macros.h")

    def incs(self):
        return ["-I", os.path.join(REPO, "include"), "-I", self.inc, "-I", os.path.join(HERE, "harness")]

    def lib(self, flavour, fault=True, extra=()):
        key = (flavour, fault, tuple(extra))
        if key in self.libs:
            return self.libs[key]
        fl = FLAVOURS[flavour]
        d = os.path.join(self.wd, "lib%d" % len(self.libs))
        os.makedirs(d)
        defs = ["-D_GNU_SOURCE", "-DRCUTILS_BUILDING_DLL"] + (["-DRCUTILS_ENABLE_FAULT_INJECTION"] if fault else [])
        jobs = []
        objs = []
        for s in lib_sources():
            o = os.path.join(d, s.replace("/", "_") + ".o")
            objs.append(o)
            jobs.append(self.pool.submit(
                sh, [fl["cc"], "-std=gnu11", "-w", "-fPIC"] + fl["flags"] + list(extra) + defs + self.incs() +
                ["-c", os.path.join(REPO, s), "-o", o], "compiling " + s))
        self.libs[key] = (jobs, objs)
        return self.libs[key]

    def harness(self, src, flavour, fault=True, extra=(), link=(), name=None, libextra=(), must_compile=None):
        """Returns the path of the linked harness executable (compiles in parallel with the library)."""
        fl = FLAVOURS[flavour]
        jobs, objs = self.lib(flavour, fault, libextra)
        srcs = [src] if isinstance(src, str) else list(src)
        hobjs, hjobs = [], []
        for s in srcs:
            o = os.path.join(self.wd, "%s-%s.o" % (os.path.basename(s), abs(hash((flavour, fault, tuple(extra), name)))))
            hobjs.append(o)
            cxx = s.endswith(".cpp")
            hjobs.append(self.pool.submit(
                sh, [fl["cxx"] if cxx else fl["cc"], "-std=c++17" if cxx else "-std=gnu11", "-w"] + fl["flags"] +
                ["-D_GNU_SOURCE"] + (["-DRCUTILS_ENABLE_FAULT_INJECTION"] if fault else []) + list(extra) + self.incs() +
                ["-c", os.path.join(HERE, "harness", s), "-o", o], "compiling harness " + s))
        for j in jobs:
            j.result()
        for s, j in zip(srcs, hjobs):
            try:
                j.result()
            except CheckError as e:
                # the library itself has been compiled; is it the use of its macros which is not accepted?
                if must_compile and s.startswith(must_compile) and " error: " in str(e):
                    raise DoesNotCompile(str(e))
                raise
        exe = os.path.join(self.wd, name or (os.path.splitext(os.path.basename(srcs[0]))[0] + "-" + flavour))
        sh([fl["cxx"]] + fl["flags"] + hobjs + objs + ["-o", exe, "-ldl", "-lpthread"] + list(link), "linking " + exe)
        return exe


# ------------------------------------------------------------------ running
def base_env(scratch):
    env = {k: os.environ[k] for k in ("PATH", "LANG", "TZ") if k in os.environ}
    env.setdefault("PATH", "/usr/bin:/bin")
    env["HOME"] = "/nonexistent-home"
    env["TMPDIR"] = scratch
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    common = "exitcode=97:handle_abort=1:allocator_may_return_null=1:detect_leaks=0:abort_on_error=0" \
             ":malloc_context_size=12:print_suppressions=0:detect_stack_use_after_return=1"
    if sym:
        common += ":external_symbolizer_path=" + sym
    env["ASAN_OPTIONS"] = common
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=97"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:second_deadlock_stack=1:report_signal_unsafe=0" + (
        ":external_symbolizer_path=" + sym if sym else "")
    return env


FUNC_RE = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)")


def classify_crash(rc, log):
    """A stable key and a message for a run that ended abnormally."""
    where = "?"
    # first frame inside the library
    for m in FUNC_RE.finditer(log):
        if REPO + "/" in m.group(2) or "/repo/" in m.group(2):
            where = m.group(1)
            break
    m = re.search(r"^==\d+== ((?:Conditional jump|Use of uninit|Syscall param|Invalid|Jump to|Source and dest|Mismatched|Argument ')[^\n]*)(.*)",
                  log, re.M | re.S)
    if m:
        kind = re.sub(r"0x[0-9A-Fa-f]+|\d+", "N", m.group(1))[:60].strip()
        srcs = {os.path.basename(f) for f in lib_sources()}
        for f in re.finditer(r"(?:at|by) 0x[0-9A-F]+: (\S+) \((\S+?):\d+\)", m.group(2)):
            if f.group(2) in srcs:
                where = f.group(1)
                break
        return "memcheck:%s:%s" % (kind, where), "valgrind memcheck: %s (in %s)\n%s" % (m.group(1), where, m.group(2)[:800])
    m = re.search(r"SUMMARY: (\w+): ([\w-]+(?: race)?[\w -]*?)(?: \(| /|\s+\S+:\d+| in |$)", log, re.M)
    m2 = re.search(r"runtime error: (.*)", log)
    if m2:
        kind = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m2.group(1))[:60].strip()
        return "ubsan:%s:%s" % (kind, where), "undefined behaviour: %s (in %s)" % (m2.group(1), where)
    if m:
        return "%s:%s:%s" % (m.group(1), m.group(2).strip(), where), \
            "%s: %s (in %s)" % (m.group(1), m.group(2).strip(), where)
    if "MON-ABORT" in log:
        k = re.search(r"MON-ABORT key=(\S+)(.*)", log)
        return k.group(1), k.group(2).strip()
    if rc is not None and rc < 0:
        try:
            s = signal.Signals(-rc).name
        except ValueError:
            s = str(-rc)
        return "signal:%s:%s" % (s, where), "terminated by %s" % s
    return "exit:%s:%s" % (rc, where), "harness process ended with code %s" % rc


def read_progress(out):
    try:
        with open(out + ".progress", "rb") as f:
            return f.read(256).split(b"\n")[0].decode(errors="replace")
    except OSError:
        return ""


MEMORY_MB = 3000         # no harness comes near it


def resident(pid):
    """Memory in use by a process of ours, in MB, without what is shared."""
    try:
        m = open("/proc/%d/statm" % pid).read().split()
        return (int(m[1]) - int(m[2])) * os.sysconf("SC_PAGE_SIZE") >> 20
    except (OSError, ValueError, IndexError):
        return 0


def run_shard(exe, stage, seed, tier, shard, nshards, outdir, timeout, only=None, attempt=0, stuck=600, abort=None):
    """Run one process; it counts as stuck when it stays at the same case for that many seconds."""
    tag = "%s.%d.%d" % (stage["name"], shard, attempt)
    out = os.path.join(outdir, tag + ".json")
    logp = os.path.join(outdir, tag + ".log")
    scratch = os.path.join(outdir, "s." + tag)
    os.makedirs(scratch, exist_ok=True)
    cmd = list(stage.get("prefix", [])) + [exe, "--seed", str(seed), "--shard", str(shard), "--nshards", str(nshards),
                                          "--tier", tier, "--out", out, "--scratch", scratch]
    if stage.get("sections"):
        cmd += ["--section", stage["sections"]]
    if stage.get("scale"):
        cmd += ["--scale", str(stage["scale"] if not isinstance(stage["scale"], dict) else stage["scale"][tier])]
    if only:
        i = cmd.index("--section") if "--section" in cmd else None
        if i is not None:
            cmd[i + 1] = only[0]
        else:
            cmd += ["--section", only[0]]
        cmd += ["--idx", str(only[1])]
    env = base_env(scratch)
    for k, v in stage.get("env", {}).items():
        env[k] = env[k] + ":" + v[1:] if v.startswith("+") and k in env else v.lstrip("+")
    env["MON_SCRATCH"] = scratch
    if os.path.isdir(os.path.join(outdir, "locale")):
        env["LOCPATH"] = os.path.join(outdir, "locale")
    t0 = time.time()
    timed_out = return_early = False
    if abort is not None and abort.is_set():
        return dict(rc=None, log="", progress="", res=None, hashes=set(), timed_out=False, aborted=True, wall=0, longest=0, rss=0, too_much=False,
                    shard=shard, stage=stage["name"])
    with open(logp, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env,
                             start_new_session=True, cwd=scratch)
        rc, at, since, longest, nap, rss, too_much = None, None, time.time(), 0.0, 0.02, 0, False
        while True:
            try:
                rc = p.wait(timeout=nap)
                break
            except subprocess.TimeoutExpired:
                nap = min(0.25, nap * 1.5)
            now = time.time()
            rss = max(rss, resident(p.pid))
            if rss > MEMORY_MB:
                too_much = True
                break
            here = read_progress(out)
            if here != at:
                at, since = here, now
            longest = max(longest, now - since)
            if now - since > stuck or now - t0 > timeout:
                timed_out = True
                if abort is not None:
                    abort.set()
                break
            if abort is not None and abort.is_set():
                return_early = True
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    with open(logp, "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 200000))
        log = f.read().decode(errors="replace")
    prog = read_progress(out)
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    hashes = set()
    if res is not None and os.path.exists(out + ".hashes"):
        b = open(out + ".hashes", "rb").read()
        hashes = set(struct.unpack("<%dQ" % (len(b) // 8), b))
    subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
    shutil.rmtree(scratch, ignore_errors=True)
    return dict(rc=rc, log=log, progress=prog, res=res, hashes=hashes, timed_out=timed_out, aborted=return_early,
                wall=time.time() - t0, longest=longest, rss=rss, too_much=too_much,
                shard=shard, stage=stage["name"])


def load_known():
    known, path = {}, os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def norm_key(k):
    return re.sub(r"\s+", "_", k)


def run_check(pid, tier, seed, only=None, stage_name=None):
    chk = C.CHECKS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, ".build"), exist_ok=True)
    wd = tempfile.mkdtemp(prefix=pid + ".", dir=os.path.join(HERE, ".build"))
    os.chmod(wd, 0o711)
    viol = {}            # key -> dict
    counters, sections, samples, hashes = {}, {}, [], set()
    evals = nontriv = 0
    stages_info = []
    try:
        b = Build(wd)
        stages = [s for s in chk["stages"] if s.get("tier") in (None, tier)]
        if stage_name:
            stages = [s for s in stages if s["name"] == stage_name]
        if not stages:
            raise CheckError("no stage to run")
        for st in stages:                    # the library variants first: the harnesses share them
            b.lib(st.get("flavour", "asan"), st.get("fault", True), st.get("libcflags", []))
        try:
            with cf.ThreadPoolExecutor(len(stages)) as ex:
                exes = list(ex.map(lambda st: b.harness(
                    st["src"], st.get("flavour", "asan"), st.get("fault", True), st.get("cflags", []), st.get("link", []),
                    name=st["name"] + ".exe", libextra=st.get("libcflags", []), must_compile=st.get("must_compile")), stages))
        except DoesNotCompile as e:
            viol["does-not-compile"] = dict(key="does-not-compile", stage=stages[0]["name"], case="compile 0",
                                            msg="a documented use of the macros is not accepted: %s" % str(e)[-3000:])
            stages, exes = [], []
        for st in stages:
            for a in st.get("aux", []):      # helper programs/libraries next to the executable
                try:
                    a(b, wd, st)
                except (subprocess.SubprocessError, OSError) as e:
                    if st.get("must_compile") == "aux" and isinstance(e, subprocess.CalledProcessError) and e.returncode == 1:
                        viol["does-not-compile"] = dict(key="does-not-compile", stage=st["name"], case="compile 0",
                                                        msg="a documented use of the macros is not accepted: %s" % " ".join(e.cmd))
                        continue
                    raise CheckError("building what %s needs failed: %s" % (st["name"], e))
        if viol:
            stages, exes = [], []
        def everything(factor, attempt, abort):
            todo = []
            with cf.ThreadPoolExecutor(NPROC) as ex:
                for st, exe in zip(stages, exes):
                    nsh = 1 if only else st.get("shards", NPROC)
                    tmo = st.get("timeout", {}).get(tier, 300 if tier == "quick" else 3000) * factor
                    stuck = st.get("stuck", (200 if st.get("prefix") else 90) if tier == "quick" else 900) * factor
                    todo.append((st, exe, nsh, tmo, stuck, [
                        ex.submit(run_shard, exe, st, seed, tier, i, nsh, wd, tmo, only, attempt, stuck, abort) for i in range(nsh)]))
            return [(st, exe, nsh, tmo, stuck, [f.result() for f in futs]) for st, exe, nsh, tmo, stuck, futs in todo]

        def hang(st, progress, seconds):
            sec = progress.split(" ")[0]
            viol.setdefault("hang:" + sec, dict(key="hang:" + sec, stage=st["name"], case=progress,
                                                msg="the same case did not finish within %ds, twice" % seconds))
        done = everything(1, 0, threading.Event())
        stuck_at = [(x, r) for x in done for r in x[5] if r["timed_out"]]
        if stuck_at:
            # a time-out alone tells nothing (the machine may be busy): the case again, by itself
            (st, exe, nsh, tmo, stuck, _), r = stuck_at[0]
            sys.stderr.write("shard %d of %s timed out at '%s', trying again\n" % (r["shard"], st["name"], r["progress"]))
            sec, idx = (r["progress"].split(" ") + ["0"])[:2]
            r2 = None
            if sec not in ("", "done") and r["longest"] > stuck:
                r2 = run_shard(exe, st, seed, tier, 0, 1, wd, stuck, (sec, int(idx)), 1, stuck)
            if r2 is not None and r2["timed_out"]:
                hang(st, r["progress"], stuck)
                done = []
            elif r2 is not None and (r2["rc"] != 0 or r2["res"] is None):
                done = [(st, exe, nsh, tmo, stuck, [r2])]
            else:
                first = {(x[0]["name"], r["shard"]): r["progress"] for x, r in stuck_at}
                done = everything(2, 2, None) if only or tier != "quick" or time.time() - t0 < 400 else []
                if not done:
                    raise CheckError("timed out (inconclusive) at %s" % sorted(first.items()))
                for st, exe, nsh, tmo, stuck, results in done:
                    for r in [r for r in results if r["timed_out"]]:
                        if r["progress"] != first.get((st["name"], r["shard"])):
                            raise CheckError("stage %s timed out (inconclusive) at '%s' and '%s'" % (
                                st["name"], first.get((st["name"], r["shard"])), r["progress"]))
                        hang(st, r["progress"], stuck)
                    results[:] = [r for r in results if not r["timed_out"]]
        for st, exe, nsh, tmo, stuck, results in done:
            final = [r for r in results if not r["aborted"]]
            complete = 0
            for r in final:
                res = r["res"]
                bad_exit = r["rc"] not in (0, 1) or res is None or not res.get("complete")
                if r["rc"] == 3 and res is None:
                    raise CheckError("harness error in %s: %s" % (st["name"], r["log"][-2000:]))
                if bad_exit:
                    key, msg = classify_crash(r["rc"], r["log"])
                    if r["too_much"]:
                        key, msg = "memory:" + r["progress"].split(" ")[0], "a case took over %d MB of memory" % MEMORY_MB
                    viol.setdefault(norm_key(key), dict(key=norm_key(key), msg=msg, stage=st["name"], case=r["progress"],
                                                        log=r["log"][-6000:]))
                if res is not None:
                    complete += 1
                    evals += res["evaluations"]
                    nontriv += res["nontrivial"]
                    hashes |= r["hashes"]
                    for k, v in res["counters"].items():
                        counters[k] = max(counters.get(k, 0), v) if k.startswith("max ") else counters.get(k, 0) + v
                    for k, v in res["sections"].items():
                        sections[k] = sections.get(k, 0) + v
                    samples += res["samples"]
                    for v in res["violations"]:
                        k = norm_key(v["key"])
                        viol.setdefault(k, dict(key=k, msg=v["msg"], stage=st["name"], case="%s %d" % (v["section"], v["idx"])))
            # what goes wrong in the same way without the circumstance this stage is about is another property's business
            if st.get("contrast"):
                for k in [k for k, v in viol.items() if v["stage"] == st["name"]]:
                    sec, idx = (viol[k]["case"].split(" ") + ["0"])[:2]
                    st2 = dict(st, env=dict(st.get("env", {}), **st["contrast"]))
                    r = run_shard(exe, st2, seed, tier, 0, 1, wd, tmo, (sec, int(idx)), attempt=2)
                    if r["rc"] != 0:
                        counters["judged-elsewhere"] = counters.get("judged-elsewhere", 0) + 1
                        sys.stderr.write("not specific to %s: %s: %s\n" % (st["name"], k, viol[k]["msg"][:300]))
                        del viol[k]
            stages_info.append(dict(stage=st["name"], instrumentation=st.get("flavour", "asan") + (
                "+" + os.path.basename(st["prefix"][0]) if st.get("prefix") else ""), processes=nsh, completed=complete,
                                    longest_case_s=round(max([r["longest"] for r in final] or [0]), 1),
                                    peak_memory_mb=max([r["rss"] for r in final] or [0])))
        # observed something?
        if not viol and not only:
            for k in chk.get("require", []):
                if counters.get(k, 0) == 0:
                    raise CheckError("inconclusive: the run never observed '%s'" % k)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
    known = load_known()
    reported = 0
    lines = []
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    for k, v in sorted(viol.items()):
        if (pid, k) in known:
            lines.append("KNOWN-FINDING: property=%s %s (key=%s)" % (pid, known[(pid, k)], k))
            continue
        reported += 1
        path = os.path.join(HERE, "replay", "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", k)[:80]))
        json.dump(dict(property=pid, seed=seed, tier=tier, **v), open(path, "w"), indent=1)
        lines.append("%s: %s\n  at %s: %s" % (pid, k, v.get("case"), v["msg"][:1500]))
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    if not only:
        uniq, per = [], {}
        for s in samples:
            sec = s.split("#")[0]
            if per.get(sec, 0) < 2 and len(uniq) < 24:
                per[sec] = per.get(sec, 0) + 1
                uniq.append(s)
        ev = dict(property=pid, tier=tier, seed=seed, level=chk["level"],
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=chk["rule"], samples=uniq or ["none"],
                                cases_per_section=sections, observed=dict(sorted(counters.items())), stages=stages_info),
                  assumptions=chk.get("assumptions", C.ASSUME), wall_s=round(time.time() - t0, 2), violations=reported)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.%d" % (pid, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    for l in lines:
        print(l)
    print("%s: %d cases, %d distinct non-trivial, %d violations, %.1fs (%s, seed %d)" % (
        pid, evals, len(hashes), reported, time.time() - t0, tier, seed))
    return 1 if reported else 0


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        if args and args[0] == "--replay":
            d = json.load(open(args[1]))
            case = d["case"].split(" ")
            return run_check(d["property"], d["tier"], d["seed"], only=(case[0], int(case[1])), stage_name=d["stage"])
        if not args or args[0] not in C.CHECKS:
            print("usage: run.py <%s> [--tier quick|thorough] [--seed N]" % "|".join(sorted(C.CHECKS)))
            return 2
        i = 1
        while i + 1 < len(args):
            if args[i] == "--tier":
                tier = args[i + 1]
            elif args[i] == "--seed":
                seed = int(args[i + 1])
            i += 2
        return run_check(args[0], "thorough" if tier == "thorough" else "quick", seed)
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
