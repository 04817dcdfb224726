"""Shared machinery: building clingcon from /repo's working tree, running jobs, verdicts, evidence."""
import hashlib, json, os, subprocess, sys, time, fcntl, shutil, tempfile, threading, urllib.parse, glob, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SP = "/opt/vp/pydeps/lib/python3.12/site-packages"
CLINGO = SP + "/clingo"
CLINGO_SO = CLINGO + "/_clingo.cpython-312-x86_64-linux-gnu.so"
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/build")
NCPU = max(1, min(8, os.cpu_count() or 1))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

VARIANTS = {
    # asserts on (no NDEBUG): clingcon's own assertions act as monitors
    "asan": ("clang++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"),
    "tsan": ("clang++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread"),
    "rel": ("g++", "-O2 -g1 -DNDEBUG"),
    "pic": ("g++", "-O2 -g1 -DNDEBUG -fPIC"),
}
LIBSRC = ["clingcon", "constraints", "parsing", "propagator", "solver"]
INCS = ["-I" + REPO + "/libclingcon", "-I" + CLINGO, "-isystem", REPO + "/third_party/wide-integer", "-I" + VERIF + "/harness"]
LINK = ["-Wl,--no-as-needed," + CLINGO_SO + ",-lpython3.12,-rpath," + CLINGO, "-lpthread"]
WRAPS = ["clingo_control_register_propagator", "clingo_propagate_init_add_clause", "clingo_propagate_init_add_literal",
         "clingo_propagate_init_add_weight_constraint", "clingo_propagate_init_add_minimize", "clingo_propagate_control_add_clause",
         "clingo_propagate_control_add_literal", "clingo_propagate_control_propagate"]


class HarnessError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_hash():
    files = sorted(glob.glob(REPO + "/libclingcon/*.h") + glob.glob(REPO + "/libclingcon/clingcon/*.hh")
                   + glob.glob(VERIF + "/harness/*.hh"))
    return sha(*[x for f in files for x in (f, read(f))])


def compile_one(src, variant, extra, hh):
    cc, flags = VARIANTS[variant]
    key = sha(src, read(src), hh, cc, flags, extra)
    obj = f"{BUILD}/obj/{variant}-{os.path.basename(src)}-{key}.o"
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = f"{obj}.{os.getpid()}.{threading.get_ident()}.tmp"
        cmd = [cc, "-std=c++17", *flags.split(), "-DCLINGCON_NO_VISIBILITY", *extra.split(), *INCS, "-c", src, "-o", tmp]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise HarnessError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
        os.replace(tmp, obj)
    return obj


def source(s, variant, extra):
    """Sources are paths or pairs of a path and its own flags."""
    return (s, variant, extra) if isinstance(s, str) else (s[0], variant, s[1])


def build(targets):
    """targets: list of (name, variant, [harness/app sources], extra flags, extra link flags) -> {name: path}"""
    t0 = time.time()
    hh = headers_hash()
    jobs = {}
    for name, variant, srcs, extra, lextra in targets:
        for s in [f"{REPO}/libclingcon/src/{x}.cc" for x in LIBSRC]:
            lx = "-DCLINGCON_VERIF" if "-DCLINGCON_VERIF" in extra else ""
            jobs.setdefault((s, variant, lx), None)
        for s in srcs:
            jobs.setdefault(source(s, variant, extra), None)
    # longest first
    order = sorted(jobs, key=lambda k: -os.path.getsize(k[0]))
    with ThreadPoolExecutor(NCPU) as ex:
        futs = {k: ex.submit(compile_one, k[0], k[1], k[2], hh) for k in order}
        for k, f in futs.items():
            jobs[k] = f.result()
    out = {}
    for name, variant, srcs, extra, lextra in targets:
        lx = "-DCLINGCON_VERIF" if "-DCLINGCON_VERIF" in extra else ""
        objs = [jobs[(f"{REPO}/libclingcon/src/{x}.cc", variant, lx)] for x in LIBSRC] + [jobs[source(s, variant, extra)] for s in srcs]
        cc, flags = VARIANTS[variant]
        key = sha(*objs, *lextra, flags)
        exe = f"{BUILD}/bin/{name}-{variant}-{key}"
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = f"{exe}.{os.getpid()}.tmp"
            cmd = [cc, *flags.split(), *objs, *LINK, *lextra, "-o", tmp]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise HarnessError("link failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
            os.replace(tmp, exe)
        out[name + "-" + variant] = exe
    prune()
    return out, time.time() - t0


PYTHON = "/opt/vp/pydeps/bin/python"


def build_python():
    """Builds the Python module; returns a folder that can be passed as executable to run_jobs with PYWRAP."""
    hh = headers_hash()
    src = [f"{REPO}/libclingcon/src/{x}.cc" for x in LIBSRC]
    ext = REPO + "/libpyclingcon/_clingcon.c"
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: compile_one(s, "pic", "", hh), src))
    py = sorted(glob.glob(REPO + "/libpyclingcon/clingcon/*.py"))
    key = sha(*objs, read(ext), hh, *[x for f in py for x in (os.path.basename(f), read(f))])
    root = f"{BUILD}/bin/py-pic-{key}"
    if not os.path.exists(root):
        tmp = f"{root}.{os.getpid()}.tmp"
        os.makedirs(tmp + "/clingcon")
        for f in py:
            shutil.copy(f, tmp + "/clingcon/" + os.path.basename(f))
        for cmd in (["gcc", "-O1", "-fPIC", "-w", "-D_CFFI_NO_LIMITED_API", "-DCLINGCON_NO_VISIBILITY", "-I/usr/include/python3.12", *INCS, "-c", ext, "-o", tmp + "/ext.o"],
                    ["g++", "-shared", tmp + "/ext.o", *objs, *LINK, "-o", tmp + "/clingcon/_clingcon.so"]):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise HarnessError("python module failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
        os.unlink(tmp + "/ext.o")
        try:
            os.rename(tmp, root)
        except OSError:
            if not os.path.exists(root):
                raise
            shutil.rmtree(tmp)
    return root


PYWRAP = [PYTHON, VERIF + "/harness/pyrun.py"]


def prune(limit=1500 << 20):
    """Keeps the build folder from growing without bound (old objects of other trees)."""
    for d in glob.glob(BUILD + "/bin/py-*"):
        if time.time() - os.path.getmtime(d) > 3 * 86400:
            shutil.rmtree(d, ignore_errors=True)
    fs = [f for f in glob.glob(BUILD + "/*/*") if os.path.isfile(f)]
    fs.sort(key=lambda f: os.path.getmtime(f))
    tot = sum(os.path.getsize(f) for f in fs)
    for f in fs:
        if tot <= limit:
            break
        if time.time() - os.path.getmtime(f) < 3600:
            continue
        tot -= os.path.getsize(f)
        os.unlink(f)


def driver_target(variant):
    return ("driver", variant, [VERIF + "/harness/driver.cc"], "", [])


def monitor_target(variant, hooks=True):
    """Driver linked with the monitor; hooks gives the monitor access to solver states."""
    return ("monitor" + ("" if hooks else "0"), variant, [VERIF + "/harness/driver.cc", VERIF + "/harness/monitor.cc"],
            "-DCLINGCON_VERIF" if hooks else "", ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)])


def opt_target(variant, hooks=True):
    """Driver linked with an application that takes options from the command line and the programming interface."""
    return ("opt" + ("" if hooks else "0"), variant, [VERIF + "/harness/driver.cc", VERIF + "/harness/optapp.cc"],
            "-DCLINGCON_VERIF" if hooks else "", ["-Wl,--wrap=clingo_control_register_propagator"])


def tool_target(variant):
    """Driver linked with the command line tool."""
    return ("tool", variant, [VERIF + "/harness/driver.cc", (REPO + "/app/main.cc", "-Dmain=verif_app_main")], "", [])


SYMBOLS = ["clingo_symbol_create_" + x for x in ("number", "supremum", "infimum", "string", "id", "function")] + ["clingo_add_string", "clingo_parse_term"]


def serial_target(variant):
    """Driver for concurrent scripts: creation of symbols is serialized."""
    return ("serial", variant, [VERIF + "/harness/driver.cc", VERIF + "/harness/serial.cc"], "",
            ["-Wl," + ",".join("--wrap=" + w for w in SYMBOLS)])


def sched_target(variant):
    """Driver that perturbs and records schedules of solver threads."""
    return ("sched", variant, [VERIF + "/harness/driver.cc", VERIF + "/harness/sched.cc"], "", ["-Wl,--wrap=clingo_control_register_propagator"])


OBSERVER = None


def enc(s):
    s = str(s)
    return urllib.parse.quote(s, safe="-_.,:;=+/()[]{}@!*<>|&$#^~'\"?") or "%"


def job_text(job):
    lines = ["job %s %d %s" % (enc(job["id"]), job.get("timeout", 30), "continue" if job.get("cont") else "stop")]
    for op in job["ops"]:
        lines.append(" ".join(enc(x) for x in op))
    return "\n".join(lines) + "\n"


SANENV = {
    "ASAN_OPTIONS": "abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:exitcode=77:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4:suppressions=" + VERIF + "/harness/tsan.supp",
}


TSAN_EXIT = (66, 77)  # the options of both sanitizers set an exit code


def tsan_reports(stderr):
    """The ThreadSanitizer reports that concern accesses by instrumented code.

    clingo is not instrumented: the sanitizer sees neither its accesses nor its atomic operations. It does see the
    allocations and releases it performs, which look like races because the atomic reference counts ordering them are
    invisible. A data race only counts if both accesses are made by clingcon or the harness (or by a library function
    or memory management called from there).
    """
    reports = []
    for block in stderr.split("WARNING: ThreadSanitizer: ")[1:]:
        block = "ThreadSanitizer: " + block.split("\n==================")[0]
        if block.startswith("ThreadSanitizer: data race"):
            foreign = False
            for part in re.split(r"\n\s*\n", block):
                m = re.match(r"(?:.*\n)?\s*(?:(?:Previous )?(?:atomic )?(?:write|read) of size)", part, re.I)
                if not m:
                    continue
                for frame in re.findall(r"^ +#\d+ (.*)$", part, re.M):
                    if "_clingo.cpython" in frame:
                        foreign = True
                    elif "<null>" in frame:
                        continue  # interceptor or function of a system library
                    break
            if foreign:
                continue
        reports.append(block)
    return reports


class Result:
    __slots__ = ("id", "ops", "models", "end", "exit", "sig", "timeout", "stderr", "wall")

    def __init__(self, id):
        self.id = id
        self.ops = {}
        self.models = {}
        self.end = False
        self.exit = None
        self.sig = 0
        self.timeout = False
        self.stderr = ""
        self.wall = 0.0

    @property
    def crashed(self):
        if self.timeout:
            return False
        if self.sig == 0 and self.exit in TSAN_EXIT and self.end and "ThreadSanitizer" in self.stderr:
            return bool(tsan_reports(self.stderr))
        return self.sig != 0 or self.exit != 0 or not self.end

    def crash_kind(self):
        s = self.stderr
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", s)
        if m:
            return "asan:" + m.group(1)
        m = re.search(r"runtime error: (.{0,80})", s)
        if m:
            return "ubsan:" + re.sub(r"-?\d+", "N", m.group(1))
        if "ThreadSanitizer" in s:
            s = (tsan_reports(s) or [s])[0]
            m = re.search(r"ThreadSanitizer: ([\w -]+)", s)
            return "tsan:" + (m.group(1).strip() if m else "?")
        m = re.search(r"Assertion [`'](.*?)' failed", s)
        if m:
            return "assert:" + m.group(1)[:120]
        if "terminate called" in s:
            return "terminate"
        return "exit=%s sig=%s" % (self.exit, self.sig)


def run_jobs(exe, jobs, env=None, nproc=NCPU, retry_timeouts=True, wrapper=None):
    """Runs jobs (dicts with id, ops, timeout), returns {id: Result}."""
    e = dict(os.environ)
    e.update(SANENV)
    if env:
        e.update(env)
    results = {}
    if not jobs:
        return results
    tmp = tempfile.mkdtemp(prefix="vjobs")
    try:
        chunks = [[] for _ in range(min(nproc * 4, len(jobs)))]
        for i, j in enumerate(jobs):
            chunks[i % len(chunks)].append(j)

        def go(ci):
            ch = chunks[ci]
            jf, of, ef = (f"{tmp}/{ci}.{x}" for x in ("jobs", "out", "err"))
            with open(jf, "w") as f:
                for j in ch:
                    f.write(job_text(j))
            budget = sum(j.get("timeout", 30) for j in ch) + 60
            cmd = (wrapper or (PYWRAP if os.path.isdir(exe) else [])) + [exe, jf, of, ef]
            p = subprocess.run(cmd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=budget)
            if p.returncode != 0:
                raise HarnessError("driver failed rc=%s %s" % (p.returncode, p.stderr[-2000:]))
            res = {}
            with open(of, encoding="utf-8", errors="replace") as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue  # torn line of a crashed child
                    r = res.get(d["j"])
                    if r is None:
                        r = res[d["j"]] = Result(d["j"])
                    if "m" in d:
                        r.models.setdefault(d["o"], []).append(d["m"])
                    elif "op" in d:
                        r.ops[d["o"]] = d
                    elif "end" in d:
                        r.end = True
                    elif "exit" in d:
                        r.exit, r.sig, r.timeout = d["exit"], d["sig"], bool(d["timeout"])
                        r.stderr, r.wall = d.get("stderr", ""), d["wall"]
            os.unlink(of)
            return res
        with ThreadPoolExecutor(nproc) as ex:
            for r in ex.map(go, range(len(chunks))):
                results.update(r)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    missing = [j["id"] for j in jobs if j["id"] not in results]
    if missing:
        raise HarnessError("no result for jobs %s" % missing[:5])
    if retry_timeouts:
        again = [j for j in jobs if results[j["id"]].timeout]
        if again:
            again = [dict(j, timeout=j.get("timeout", 30) * 3) for j in again[:16]]
            results.update(run_jobs(exe, again, env, max(1, nproc // 2), False, wrapper))
            return results
    if OBSERVER:
        for r in results.values():
            OBSERVER(r)
    return results


class Check:
    """Collects verdicts of one property check and writes the evidence."""

    def __init__(self, pid, rule, level="exploration"):
        self.pid, self.rule, self.level = pid, rule, level
        self.t0 = time.time()
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.counts = {}
        self.violations = []
        self.known_hits = {}
        self.inconclusive = []
        self.assumptions = []
        self.known = load_known(pid)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, key, what, replay):
        """key: stable identification of the violation (for the known-findings file)."""
        for k in self.known:
            if re.search(k["match"], key):
                self.known_hits[k["id"]] = k
                return
        self.violations.append((key, what, replay))

    def inconc(self, what):
        self.inconclusive.append(what)

    def finish(self, min_nontrivial=1):
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.nontrivial), "rule": self.rule,
               "samples": self.samples or ["(none)"]}
        cov.update(self.counts)
        cov["inconclusive"] = len(self.inconclusive)
        if self.inconclusive:
            cov["inconclusive_samples"] = self.inconclusive[:5]
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hits.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        print("%s: %d evaluations, %d distinct non-trivial, %d inconclusive, %d violations, %.1fs %s" % (
            self.pid, self.evals, len(self.nontrivial), len(self.inconclusive), len(self.violations),
            time.time() - self.t0, json.dumps(self.counts)))
        if self.violations:
            os.makedirs(VERIF + "/out", exist_ok=True)
            seen = set()
            for i, (key, what, replay) in enumerate(self.violations):
                kk = re.sub(r"\d+", "N", key)
                if kk in seen or len(seen) >= 10:
                    continue
                seen.add(kk)
                path = f"{VERIF}/out/{self.pid}-{SEED}-{len(seen)}.json"
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "key": key, "what": what, "replay": replay}, f, indent=1, default=str)
                print("  " + str(what)[:1500])
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            sys.stdout.flush()
            sys.exit(1)
        if len(self.nontrivial) < min_nontrivial:
            print("ERROR: workload observed too little (%d non-trivial cases)" % len(self.nontrivial))
            sys.exit(3)
        if self.inconclusive and len(self.inconclusive) * 2 > max(1, self.evals):
            print("ERROR: most cases were inconclusive: %s" % self.inconclusive[:3])
            sys.exit(4)
        sys.exit(0)


def load_known(pid):
    p = VERIF + "/known-findings.json"
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["known"] if k["property"] == pid]
