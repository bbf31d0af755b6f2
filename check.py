#!/usr/bin/env python3
"""Runner of all checks:  check.py <property> <quick|thorough> [--keep]
Builds the flavours the property needs from /repo's working tree, runs the monitored workloads,
classifies what the monitors reported, and writes evidence/<property>.json.
exit 0: held; exit 1 + VIOLATION line: a monitor fired; exit 2: the check itself could not run."""
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, ROOT)
from plan import PLAN, FLAVOURS  # noqa: E402

NCORE = os.cpu_count() or 4


def say(*a):
    print(*a, flush=True)


def env_for(flavour):
    e = dict(os.environ)
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
             OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1",
             OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1",
             OMPI_MCA_plm_rsh_agent="/bin/false", OMPI_MCA_orte_base_help_aggregate="0",
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:handle_abort=0",
             UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1", OMP_NUM_THREADS="1", LC_ALL="C")
    return e


def tree_hash():
    h = hashlib.sha256()
    for base in (REPO, ROOT + "/harness", ROOT + "/cmake"):
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "build", "_build", "test", "doc"))
            for f in sorted(files):
                if f.endswith((".c", ".h", ".cxx", ".hxx", ".txx", ".cmake", ".in", ".txt")) or f == "git":
                    fn = os.path.join(d, f)
                    h.update(fn.encode())
                    # harness edits are followed by time stamp (they are ours)
                    if base == REPO or base.endswith("cmake"):
                        h.update(open(fn, "rb").read())
    return h.hexdigest()


def build(flavour, progs, log):
    """cmake + ninja of /repo's own CMake project with our injection, then the harness programs"""
    f = FLAVOURS[flavour]
    b = os.path.join(ROOT, "build", flavour)
    # time stamps are not trusted: unless the sources are byte for byte those of the last build, build
    # from scratch (the compiler cache goes by content)
    stamp = os.path.join(ROOT, "build", flavour + ".tree")
    now = tree_hash()
    try:
        if open(stamp).read() != now:
            shutil.rmtree(b, ignore_errors=True)
    except OSError:
        shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b, exist_ok=True)
    open(stamp, "w").write(now)
    e = env_for(flavour)
    e["CCACHE_DIR"] = os.path.join(ROOT, "build", "ccache")
    e["CCACHE_MAXSIZE"] = "2G"
    e["CCACHE_NOHASHDIR"] = "1"
    launcher = []
    if shutil.which("ccache"):
        launcher = ["-DCMAKE_C_COMPILER_LAUNCHER=ccache", "-DCMAKE_CXX_COMPILER_LAUNCHER=ccache"]
    conf = ["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=" + f["type"],
            "-DCMAKE_C_FLAGS_%s=%s" % (f["type"].upper(), f["opt"]),
            "-DCMAKE_CXX_FLAGS_%s=%s" % (f["type"].upper(), f["opt"]),
            "-DCMAKE_PROJECT_T8CODE_INCLUDE=" + ROOT + "/cmake/inject.cmake", "-DVERIF_ROOT=" + ROOT,
            "-DVERIF_FLAGS=" + f["flags"], "-DGIT_EXECUTABLE=" + ROOT + "/cmake/git",
            "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest",
            "-DT8CODE_USE_SYSTEM_SC=ON", "-DSC_DIR=" + ROOT + "/cmake", "-DT8CODE_USE_SYSTEM_P4EST=ON",
            "-DP4EST_DIR=" + ROOT + "/cmake", "-DT8CODE_ENABLE_MPI=ON", "-DT8CODE_BUILD_AS_SHARED_LIBRARY=OFF",
            "-DT8CODE_BUILD_TESTS=OFF", "-DT8CODE_BUILD_EXAMPLES=OFF", "-DT8CODE_BUILD_TUTORIALS=OFF",
            "-DT8CODE_BUILD_BENCHMARKS=OFF"] + launcher + f.get("cmake", [])
    with open(log, "ab") as lf:
        lf.write((" ".join(conf) + "\n").encode())
        lf.flush()
        for attempt in (0, 1):
            if subprocess.call(conf, stdout=lf, stderr=subprocess.STDOUT, env=e) == 0:
                break
            if attempt == 1:
                return False
            shutil.rmtree(b, ignore_errors=True)
        r = subprocess.call(["ninja", "-C", b, "-j", str(NCORE)] + sorted(progs), stdout=lf, stderr=subprocess.STDOUT,
                            env=e)
        return r == 0


def memcheck(log):
    """errors of valgrind's memcheck whose access is made by t8code (or the harness on its behalf)"""
    out = ""
    n = 0
    for blk in re.split(r"^==\d+== \n", log, flags=re.M):
        m = re.search(r"^==\d+== (Conditional jump or move depends on uninit.*|Use of uninitialised value.*|Invalid (?:read|write|free).*|"
                      r"Mismatched free.*|Source and destination overlap.*)$", blk, re.M)
        if not m:
            continue
        n += 1
        for fr in re.findall(r"^==\d+==    (?:at|by) 0x\w+: (.*)$", blk[m.end():], re.M):
            if re.search(r"vg_replace|/include/c\+\+/|libsc|\(in [^)]*/lib(c|stdc\+\+|m)[-.]", fr):
                continue
            if "/repo/" in fr or "/verif/" in fr:
                out += "MEMCHECK %s in %s\n%s\n" % (m.group(1), fr, re.sub(r"^==\d+==", "==", blk, flags=re.M)[:1500])
            break
    return out + 'STATS {"rank":0,"counts":{"memcheck_runs":1,"memcheck_reports_elsewhere":%d},"samples":[]}\n' % n


class Job:
    def __init__(self, name, flavour, prog, args, np, timeout, valgrind=False):
        self.valgrind = valgrind
        self.name, self.flavour, self.prog, self.args, self.np, self.timeout = name, flavour, prog, args, np, timeout
        self.out = ""
        self.rc = None
        self.hang = False
        self.skipped = False
        self.wall = 0.0

    def cmd(self, work):
        exe = os.path.join(ROOT, "build", self.flavour, "verif-bin", self.prog)
        c = [exe] + self.args + ["--workdir=" + work, "--job=" + self.name]
        if self.valgrind:
            c = ["valgrind", "--error-limit=no", "--num-callers=24", "--fullpath-after=", "--leak-check=no",
                 "--log-file=%s/s_%s/vg.%%p" % (work, self.name)] + c
        if self.np > 1:
            c = ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(self.np)] + c
        return c

    def once(self, work):
        t0 = time.time()
        sess = os.path.join(work, "s_" + self.name)
        os.makedirs(sess, exist_ok=True)
        e = env_for(self.flavour)
        e["TMPDIR"] = sess
        if "--lsan" in self.args:
            e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1:leak_check_at_exit=0")
        e["OMPI_MCA_orte_tmpdir_base"] = sess
        p = subprocess.Popen(self.cmd(work), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=sess,
                             start_new_session=True)
        timer = threading.Timer(self.timeout, lambda: self._kill(p))
        self.hang = False
        timer.start()
        out, _ = p.communicate()
        timer.cancel()
        self.out = out.decode("utf-8", "replace")
        self.rc = p.returncode
        self.wall = time.time() - t0
        if self.valgrind:
            self.out += "".join(memcheck(open(f, errors="replace").read()) for f in sorted(glob.glob(sess + "/vg.*")))
        shutil.rmtree(sess, ignore_errors=True)

    def _kill(self, p):
        self.hang = True
        # the programs print their context on SIGTERM (where did it hang)
        for sig, wait in ((signal.SIGTERM, 3), (signal.SIGKILL, 0)):
            try:
                os.killpg(p.pid, sig)
            except ProcessLookupError:
                return
            time.sleep(wait)


PROP = None
BAD = re.compile(r"^(VIOL |CRASH |.*ERROR: AddressSanitizer|.*runtime error:|.*LeakSanitizer|\[libsc \d+\] Abort: |Abort: |.*Assertion )",
                 re.M)


def classify(job):
    """-> (kind, findings) with kind in ok / viol / error; findings: list of (key, text)"""
    o = job.out
    finds = []
    for m in re.finditer(r"^VIOL key=(\S+) (.*)$", o, re.M):
        finds.append((m.group(1), m.group(2)))
    for m in re.finditer(r"^.*?([^\s:]+:\d+(?::\d+)?: runtime error: .*)$", o, re.M):
        t = m.group(1)
        # misaligned accesses are recovered from; they are judged by the sanitizer property (C17) only
        if "misaligned address" in t and PROP != "C17":
            continue
        loc = os.path.basename(t.split(":")[0])
        finds.append(("misaligned" if "misaligned address" in t else "ubsan:" + loc, t))
    for m in re.finditer(r"^.*ERROR: AddressSanitizer:? (\S+).*$", o, re.M):
        frame = re.search(r"#\d+ 0x\w+ in (\S+) (?:/repo|/verif|\.\.)\S*", o[m.start():])
        finds.append(("asan:" + m.group(1) + (":" + frame.group(1) if frame else ""), m.group(0)))
    for m in re.finditer(r"^MEMCHECK (.*)$", o, re.M):
        finds.append(("memcheck", m.group(1)))
    if re.search(r"LeakSanitizer: detected memory leaks", o):
        m = re.search(r"leak of .*", o)
        finds.append(("lsan", m.group(0) if m else "leak"))
    for m in re.finditer(r"^.*Abort: (.*)$", o, re.M):
        finds.append(("abort", m.group(1)))
    if not finds:
        m = re.search(r"^CRASH (.*)$", o, re.M)
        if m:
            finds.append(("crash", m.group(1)))
    m = re.search(r"^CRASH .*?case=(\{.*\})$", o, re.M)
    if m and finds:
        finds = [(k, t if "case={" in t else t + " case=" + m.group(1)) for k, t in finds]
    if finds:
        return "viol", finds
    m = re.search(r"^HANG (.*)$", o, re.M)
    if job.hang or m:
        return "hang", [("hang", "no progress within %d s%s" % (job.timeout if job.hang else STALL, (": " + m.group(1)) if m else ""))]
    ends = len(re.findall(r"^END ok", o, re.M))
    if job.rc == 0 and ends == job.np:
        return "ok", []
    if re.search(r"MPI_ERRORS_ARE_FATAL|An error occurred in MPI_", o):
        m = re.search(r"^.*(An error occurred in .*)$", o, re.M)
        return "viol", [("mpi-error", m.group(1) if m else "MPI error")]
    if re.search(r"not enough slots|unable to launch|could not be started|unable to start|ORTE_ERROR_LOG|orte_init failed", o):
        return "env", [("not-run", "mpirun could not start the job (exit code %s)" % job.rc)]
    return "error", [("no-verdict", "exit code %s, %d of %d ranks ended normally" % (job.rc, ends, job.np))]


def load_known():
    """known-findings.txt: 'known: property=<id> key=<key> match=<regex> <what fails>' lines"""
    res = []
    fn = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"known: property=(\S+) key=(\S+) match=/(.*?)/ (.*)$", l.strip())
            if m:
                res.append(dict(prop=m.group(1), key=m.group(2), rx=re.compile(m.group(3)), what=m.group(4)))
    return res


STALL = 150  # s without any step of a process: it hangs


def run_jobs(jobs, work, unknown):
    """run all jobs; once one of them has shown a violation (unknown(job) is true) no further job is started"""
    cond = threading.Condition()
    free = [NCORE]
    stop = [False]

    def worker(j):
        # a job of np ranks takes np slots; the polling MPI ranks of one job need their own cores
        need = min(j.np, NCORE)
        with cond:
            while free[0] < need and not stop[0]:
                cond.wait()
            if stop[0]:
                j.skipped = True
                return
            free[0] -= need
        try:
            j.once(work)
            k, _ = classify(j)
            if k in ("hang", "error", "env"):  # decide on a second, undisturbed look
                first = (k, j.out)
                j.once(work)
                k2, _ = classify(j)
                if k2 == "ok":
                    j.note = "first attempt: %s" % k
            if unknown(j):
                stop[0] = True
        finally:
            with cond:
                free[0] += need
                cond.notify_all()

    ths = []
    for j in sorted(jobs, key=lambda x: -x.np):
        t = threading.Thread(target=worker, args=(j,))
        t.start()
        ths.append(t)
    for t in ths:
        t.join()


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    global PROP
    PROP = prop
    t0 = time.time()
    p = PLAN[prop]
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    os.makedirs(ROOT + "/build", exist_ok=True)
    ev = os.path.join(ROOT, "evidence", prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    specs = p["jobs"](tier, seed)
    need = {}
    for s in specs:
        need.setdefault(s["flavour"], set()).add(s["prog"])
    log = os.path.join(ROOT, "build", prop + ".build.log")
    open(log, "w").close()
    for fl, progs in need.items():
        if not build(fl, progs, log):
            say("ERROR: build of flavour %s failed, see %s" % (fl, log))
            sys.stdout.write(open(log, errors="replace").read()[-6000:])
            sys.exit(2)
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="w", dir="/tmp")  # short path: Open MPI puts sockets below it
    known = [k for k in load_known() if k["prop"] == prop]
    try:
        jobs = []
        for i, s in enumerate(specs):
            args = ["--prop=" + s.get("prop", prop), "--seed=%d" % s.get("seed", seed), "--tier=" + tier,
                    "--stall=%d" % (STALL * (6 if s.get("valgrind") else 1) * (1 if tier == "quick" else 3))] + s.get("args", [])
            jobs.append(Job("j%02d" % i, s["flavour"], s["prog"], args, s.get("np", 1),
                            s.get("timeout", 500 if tier == "quick" else 2400), s.get("valgrind", False)))
        def is_unknown(j):
            kind, finds = classify(j)
            return kind in ("viol", "hang", "error") and any(not any(x["key"] == k and x["rx"].search(t) for x in known) for k, t in finds)

        run_jobs(jobs, work, is_unknown)
        jobs = [j for j in jobs if not j.skipped]
        counts, samples, bad, errors, knownhit = {}, [], [], [], {}
        per_job = []
        for j in jobs:
            kind, finds = classify(j)
            if kind == "env":
                errors.append((j, finds))
            elif kind in ("viol", "hang", "error"):
                left = []
                for k, t in finds:
                    hit = [x for x in known if x["key"] == k and x["rx"].search(t)]
                    if hit:
                        knownhit[hit[0]["what"]] = 1
                    else:
                        left.append((k, t))
                if left:
                    bad.append((j, left))
            c = {}
            for m in re.finditer(r"^STATS (\{.*\})$", j.out, re.M):
                try:
                    d = json.loads(m.group(1))
                except ValueError:
                    continue
                for k, v in d["counts"].items():
                    counts[k] = counts.get(k, 0) + v
                    c[k] = c.get(k, 0) + v
                samples += d["samples"][:2]
            for m in re.finditer(r"^KNOWN (\S+) (.*)$", j.out, re.M):
                hit = [x for x in known if x["key"] == m.group(1) and x["rx"].search(m.group(2))]
                if hit:
                    knownhit[hit[0]["what"]] = 1
                else:
                    bad.append((j, [(m.group(1), m.group(2))]))
            per_job.append(dict(job=j.name, np=j.np, flavour=j.flavour, args=" ".join(j.args), wall_s=round(j.wall, 1),
                                result=kind, events=sum(c.values())))
        dist = {}
        for f in glob.glob(work + "/distinct.*.bin"):
            name = os.path.basename(f).split(".")[3]
            raw = open(f, "rb").read()
            dist.setdefault(name, set()).update(x[0] for x in struct.iter_unpack("<Q", raw[:len(raw) // 8 * 8]))
        dcount = {k: len(v) for k, v in dist.items()}
        evaluations = sum(counts.get(k, 0) for k in p["evals"])
        distinct = sum(dcount.get(k, 0) for k in p["distinct"])
        e = dict(property=prop, tier=tier, seed=seed, level="exploration",
                 coverage=dict(evaluations=evaluations, distinct_nontrivial=distinct, rule=p["rule"],
                               samples=samples[:8], counters=counts, distinct_sets=dcount, jobs=per_job),
                 assumptions=p.get("assumptions", []), wall_s=round(time.time() - t0, 1),
                 violations=sum(len(l) for _, l in bad))
        json.dump(e, open(ev, "w"), indent=1)
        for w in knownhit:
            say("KNOWN-FINDING: property=%s %s" % (prop, w))
        if bad:
            rep = os.path.join(ROOT, "replay")
            os.makedirs(rep, exist_ok=True)
            fn = os.path.join(rep, "%s-%s-%d.txt" % (prop, tier, seed))
            with open(fn, "w") as f:
                f.write("# %s %s seed %d: re-run with: VERIF_SEED=%d python3 check.py %s %s\n" % (prop, tier, seed, seed, prop, tier))
                for j, l in bad:
                    f.write("\n## job %s (np %d): %s\n" % (j.name, j.np, " ".join(j.cmd("/tmp"))))
                    for k, t in l:
                        f.write("%s: %s\n" % (k, t))
                    f.write("\n--- output tail\n" + j.out[-12000:] + "\n")
            for j, l in bad:
                for k, t in l[:3]:
                    say("  [%s np=%d] %s: %s" % (j.name, j.np, k, t[:600]))
            say("VIOLATION property=%s replay=%s" % (prop, fn))
            sys.exit(1)
        if errors:
            for j, l in errors:
                say("ERROR: job %s np=%d %s: %s" % (j.name, j.np, " ".join(j.args), l))
                say(j.out[-2500:])
            sys.exit(2)
        for k, v in p.get("min", {}).items():
            got = counts.get(k, dcount.get(k, 0))
            if got < v:
                say("ERROR: the monitors saw too little: %s = %d < %d" % (k, got, v))
                sys.exit(2)
        say("%s %s seed=%d: held; %d evaluations, %d distinct non-trivial; build %.0f s, total %.0f s" %
            (prop, tier, seed, evaluations, distinct, tb, time.time() - t0))
        sys.exit(0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
