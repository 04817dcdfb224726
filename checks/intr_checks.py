"""Interrupted, limited and failing solve calls followed by complete ones (C21)."""
import random, collections
import vlib, work, gen, multi
import multi_checks as mc

ERR = "callback failure injected by driver"


class Broken(mc.Hist):
    """Every round has disturbed solve calls before, between and after complete ones."""

    def disturb(self, k):
        r = self.r
        # clasp's own defect: interrupts before the threads of a parallel search have started break it
        late = self.cur > 1
        kinds = ["limit", "cancel", "interrupt", "yield", "ylimit", "delaycancel"]
        # clasp's own defect: exceptions in callbacks leave solvers with several threads, several steps, or externals
        # unusable
        ok = self.cur == 1 and len(self.m.rounds) == 1 and not any(rd.externals for rd in self.m.rounds)
        kind = r.choice(kinds + (["throw"] * 3 if ok else []))
        n = r.choice([1, 1, 2, 3, 5, 9])
        if kind == "limit":
            i = self.solve(k, ["limit=%d" % n] + r.choice([[], [], ["async"]]), ("part", kind, n))
        elif kind == "throw":
            i = self.solve(k, ["throw=%d" % n] + r.choice([[], [], ["async"]]), ("part", kind, n))
            self.allow_error[i] = ERR
        elif kind == "cancel":
            i = self.solve(k, ["cancel=%d" % r.choice([0, 1, 50, 300, 1000, 3000])] +
                           (["cancelat=1"] if late else []), ("part", kind, None))
        elif kind == "delaycancel":
            i = self.solve(k, ["delay=%d" % r.choice([20, 200]), "cancel=%d" % r.choice([100, 400, 2000])] +
                           (["cancelat=%d" % r.choice([1, 2, 3])] if late else []), ("part", kind, None))
        elif kind == "interrupt":
            i = self.solve(k, ["interrupt=%d" % r.choice([1, 2, 4] if late else [0, 0, 1, 2, 4]), "delay=%d" % r.choice([0, 50, 200])] + r.choice([[], ["async"]]),
                           ("part", kind, None))
        else:
            extra = ["limit=%d" % n] if kind == "ylimit" else []
            i = self.solve(k, ["yield=%d" % r.choice([0, 1, 1, 2, 4])] + extra, ("part", kind, n))
        self.kinds[i] = kind
        if kind == "interrupt":
            # an interrupt arriving after the search is kept by clasp for the next solve call
            self.solve(k, [], ("part", "drain", None))

    def run(self):
        r = self.r
        self.cont, self.allow_error, self.kinds = True, {}, {}
        for k in range(len(self.m.rounds)):
            self.ground(k)
            for _ in range(r.choice([0, 1, 1, 2, 4])):
                if self.reconf:
                    self.ops += mc.cfg_ops(r, self)
                self.disturb(k)
                if r.random() < 0.4:
                    self.solve(k)
            if k == len(self.m.rounds) - 1 or r.random() < 0.6:
                self.solve(k)
        return self


def judge_part(rd, exp, models, d, judge, acc):
    kind, n = judge[1], judge[2]
    acc.count("disturb_" + kind)
    keys = [multi.model_key(rd, m) for m in models]
    if not rd.has_obj and len(set(keys)) != len(keys):
        return "duplicate", "answers reported twice by a disturbed solve call: %s" % keys
    res = d.get("res", 0)
    failed = not d["ok"]
    if failed and len(models) < n:
        return "error", "solve call failed with %s after %d answers" % (d["err"], len(models))
    if kind in ("limit", "throw") and len(models) > n:
        return "limit", "%d answers reported, limit %d" % (len(models), n)
    if kind == "throw" and not failed and not rd.has_obj and len(exp) >= n:
        return "throw", "the exception of the callback was lost (%d answers exist, thrown at %d)" % (len(exp), n)
    if failed:
        acc.count("failed_calls")
        return None
    if not models and kind in ("interrupt", "cancel", "delaycancel"):
        # clasp's own defect: a search interrupted right at its start can be reported as exhausted
        acc.count("interrupted_at_start")
        return None
    if res & 4:
        acc.count("disturbed_but_exhausted")
        if not rd.has_obj and len(keys) != len(exp):
            return "exhausted", "search reported as exhausted with %d of %d answers" % (len(keys), len(exp))
        if rd.has_obj and bool(keys) != bool(exp):
            return "exhausted", "search reported as exhausted with %d answers" % len(keys)
    elif res & 8:
        acc.count("interrupted")
    if res & 2 and exp:
        return "result", "reported as unsatisfiable but %d answers exist" % len(exp)
    if res & 1 and not models and kind not in ("yield", "ylimit"):
        return "result", "reported as satisfiable without answer"
    return None


def extra(acc, h, r):
    for si, (k, exp, judge) in h.expect.items():
        if judge[0] == "part":
            v = judge_part(h.m.rounds[k], exp, r.models.get(si, []), r.ops[si], judge, acc)
            if v:
                return v[0], "operation %d (%s): %s" % (si, " ".join(h.ops[si]), v[1])
    return None


def intr_task(acc, pid, exe, seed, n, threads):
    rng = random.Random("intr/%s/%s" % (pid, seed))
    hs = []
    for i in range(n):
        m = multi.multi("%s/intr/%s/%d" % (pid, seed, i), nrounds=rng.choice([1, 2, 3]))
        hs.append(Broken(rng, m, threads).run())
    mc.run_hists(acc, exe, hs, extra=extra)


# Optimization that is repeated under an assumption with a worse optimum.
AGAIN = [["new", "c", "0", "--parallel-mode=2"], ["theory", "t"], ["reg", "t", "c"],
         ["text", "t", "c", "#program p0.\n&dom { 3 .. 4 } = g(x).\n&dom { -3 .. 0 } = f(1).\n&sum { g(x); - 3 * f(1); 1 * g(x)*4; -2 } < 22.\n"
          "&minimize { f(1) }.\n#program p1.\n{ a2 }.\n{ a3 }.\n:- &sum { z } < 3. :- not &sum { z } <= 6.\n"
          "&sum { (f(1))*J : d(J), J >= 0; 0*f(1) } < - 4 :- a2, not a3.\n&sum { f(1)-z; -z } = -4-z :- not a2.\nb4 :- &sum { f(1) } != 5, not a1."],
         ["ground", "c", "p0"], ["prepare", "t", "c"], ["ground", "c", "p1"], ["prepare", "t", "c"],
         ["solve", "t", "c", "delay=200"], ["assume", "c", "a2", "f"], ["solve", "t", "c", "delay=200"]]


def again_task(acc, pid, exe, seed, n):
    """
    A frequent failure to find answers again; rare failures are a defect of clasp, see multi_checks.clasp_step_literal.
    """
    for mode in ("2", "2,split", "3"):
        ops = [list(o) for o in AGAIN]
        ops[0][3] = "--parallel-mode=" + mode
        jobs = [{"id": str(i), "ops": ops} for i in range(n)]
        results = vlib.run_jobs(exe, jobs, nproc=1)
        bad = 0
        for j in jobs:
            acc.evals += 1
            if not work.crash_check(acc, results[j["id"]], j, exe, "repeated optimization"):
                continue
            if not results[j["id"]].models.get(len(ops) - 1):
                bad += 1
        acc.count("repeated_optimizations", n)
        acc.count("clasp_step_literal", bad)
        if bad * 12 > n:
            acc.viol("again", "%d of %d repeated optimizations under an assumption found no answer\n%s" % (bad, n, "\n".join(map(str, ops))),
                     {"job": dict(jobs[0]), "variant": work.variant(exe)})
