"""Parallel workload execution: tasks run in worker processes, each driving its own clingcon processes."""
import hashlib, multiprocessing, os, random, time, traceback
import vlib


class Acc:
    """What a task observed."""

    def __init__(self):
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.counts = {}
        self.violations = []
        self.inconc = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def viol(self, key, what, replay):
        if len(self.violations) < 20:
            self.violations.append((key, what, replay))

    def seen(self, *parts):
        self.nontrivial.add(hashlib.md5("\0".join(map(str, parts)).encode()).hexdigest()[:12])

    def merge_into(self, chk):
        chk.evals += self.evals
        chk.nontrivial |= self.nontrivial
        for k, v in self.counts.items():
            chk.count(k, v)
        for s in self.samples:
            chk.sample(s)
        for v in self.violations:
            chk.violation(*v)
        for i in self.inconc:
            chk.inconc(i)


def _call(a):
    f, args, deadline = a
    acc = Acc()
    if time.time() > deadline:
        return None, None
    try:
        f(acc, *args)
    except Exception:
        return acc, traceback.format_exc()
    return acc, None


def run(chk, f, tasks, deadline, stop_after=12, nproc=None):
    """Runs f(acc, *task) for all tasks; tasks not started before the deadline are skipped (and counted)."""
    ctx = multiprocessing.get_context("fork")
    done = skipped = 0
    errors = []
    with ctx.Pool(nproc or vlib.NCPU) as pool:
        for acc, err in pool.imap_unordered(_call, [(f, t, deadline) for t in tasks], 1):
            if acc is None:
                skipped += 1
                continue
            done += 1
            if err:
                errors.append(err)
                if len(errors) > 3:
                    pool.terminate()
                    break
            acc.merge_into(chk)
            if len(chk.violations) >= stop_after:
                pool.terminate()
                break
    if errors and not chk.violations:
        raise vlib.HarnessError("task failed:\n" + errors[0])
    chk.count("tasks", done)
    if skipped:
        chk.count("tasks_skipped_at_deadline", skipped)
    return done


def dispatch(acc, f, *args):
    f(acc, *args)


def crash_check(acc, res, job, exe, what=""):
    """Reports crashes, sanitizer reports and hangs of a job. Returns False if the result is unusable."""
    if res.timeout:
        acc.inconc.append("timeout of job %s %s" % (job["id"], what))
        return False
    if res.crashed:
        kind = res.crash_kind()
        err = "\n".join(vlib.tsan_reports(res.stderr)) or res.stderr
        acc.viol("crash:" + kind, "process crashed: %s (exit %s signal %s)\n%s\n%s" % (kind, res.exit, res.sig, what, err[:3000]),
                 {"job": job, "variant": variant(exe), "stderr": err[:8000]})
        return False
    return True


def variant(exe):
    return os.path.basename(exe).rsplit("-", 2)[1]


def setup_ops(args, conf, text, prepare=True):
    """Operations that set up theory t on control c and add and ground the program; ends before solving."""
    return ([["new", "c"] + args, ["theory", "t"]] + [["conf", "t", k, v] for k, v in conf]
            + [["reg", "t", "c"], ["text", "t", "c", text], ["ground", "c", "base"]] + ([["prepare", "t", "c"]] if prepare else []))
