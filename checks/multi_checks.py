"""Multi-shot histories (C06) and everything built on them (C18, C21)."""
import random, collections
import vlib, work, gen, multi
from enum_checks import theory_cost


PAR = ["1", "2", "2,split", "3", "4", "4,split"]


def cfg_ops(r, h, t="t", c="c"):
    """Reconfiguration between solve calls."""
    ops = []
    if h.par and r.random() < 0.4:
        # Note: clasp clones one-sided weight constraints wrongly if threads are added between solve calls; so either
        # the number of threads does not grow or no weight constraints are used.
        pool = PAR if h.grow else [p for p in PAR if int(p[0]) <= h.cur]
        p = r.choice(pool)
        h.cur = int(p[0])
        ops.append(["cfg", c, "solve.parallel_mode", p])
    if r.random() < 0.15:
        # Note: clasp's vmtf heuristic crashes if variables are removed between solve calls
        ops.append(["cfg", c, "solver.heuristic", r.choice(["vsids", "berkmin", "none"])])
    if r.random() < 0.1:
        ops.append(["cfg", c, "solver.rand_freq", r.choice(["0.5", "0.1", "1.0"])])
    if r.random() < 0.35:
        ops += [["conf", t, k, v] for k, v in gen.clingcon_conf(r, True) if not h.grow or k not in NOWC]
    return ops


NOWC = ("translate-pb", "translate-distinct")


class Hist:
    """Builds one history: operations plus, for every solve, what is expected."""
    modes = False   # also asks for brave and cautious consequences

    def __init__(self, r, m, threads=True, reconf=True, limits=True, conf=True, args=None):
        self.r, self.m = r, m
        self.ops, self.expect = [], {}
        cf = list(m.conf.items()) + (gen.clingcon_conf(r, r.random() < 0.5) if conf and r.random() < 0.8 else [])
        self.translated_opt = dict(cf).get("translate-opt", "0")
        if args is None:
            args = ["0"] + (gen.clasp_args(r, False, True) if r.random() < 0.5 else [])
            args = [a for a in args if a != "--heuristic=vmtf" and a[-5:] != "handy"]
        # clasp's own defect: lookahead and several threads
        if gen.PARALLEL >= 1:
            args = [x for x in args if x != "--heuristic=unit" and not x.startswith("--lookahead")]
        if any(x == "--heuristic=unit" or x.startswith("--lookahead") for x in args):
            threads = False
        self.par = self.grow = False
        self.cur = 1
        if threads and r.random() < max(0.6, gen.PARALLEL):
            self.par = True
            self.grow = r.random() < 0.5
            if r.random() < 0.7 or not self.grow:
                p = r.choice(PAR)
                self.cur = int(p[0])
                args = args + ["--parallel-mode=" + p]
            if self.grow:
                cf = [x for x in cf if x[0] not in NOWC] + [(k, "0") for k in NOWC]
        self.args, self.conf = args, cf
        self.threads, self.reconf, self.limits = threads, reconf, limits
        self.ops = [["new", "c"] + args, ["theory", "t"]] + [["conf", "t", k, v] for k, v in cf] + [["reg", "t", "c"]]
        self.ext = {}
        self.incremental_text = r.random() < 0.4
        if not self.incremental_text:
            self.ops.append(["text", "t", "c", m.text])

    def ground(self, k):
        rd = self.m.rounds[k]
        if self.incremental_text:
            self.ops.append(["text", "t", "c", "#program p%d.\n%s" % (k, "\n".join(rd.lines))])
        self.ops.append(["ground", "c", "p%d" % k])
        self.ops.append(["prepare", "t", "c"])
        for a, init in rd.externals:
            self.ext.setdefault(a, init)

    def env_ops(self, rd):
        """Externals and assumptions for the next solve."""
        r = self.r
        for a, _ in rd.externals:
            if self.ext[a] == "r":
                continue
            if r.random() < 0.5:
                v = r.choice(["t", "f", "u", "t", "f", "u", "r"]) if r.random() < 0.5 else r.choice("tfu")
                self.ext[a] = v
                self.ops.append(["ext", "c", a, v])
        asm = []
        if r.random() < 0.4:
            pool = sorted(rd.atoms)
            for a in r.sample(pool, min(len(pool), r.choice([1, 1, 2]))):
                s = r.random() < 0.5
                asm.append((a, s))
                self.ops.append(["assume", "c", a, "t" if s else "f"])
        return asm

    def solve(self, k, kwargs=(), judge="full"):
        rd = self.m.rounds[k]
        asm = self.env_ops(rd)
        exp = multi.expected(rd, self.ext, asm)
        kwargs = list(kwargs)
        if self.cur > 1 and self.r.random() < 0.3 and not any(x.startswith("delay") for x in kwargs):
            # model callbacks that take some time let the threads drift apart
            kwargs.append("delay=%d" % self.r.choice([20, 50, 200]))
        self.ops.append(["solve", "t", "c"] + kwargs)
        i = len(self.ops) - 1
        self.expect[i] = (k, exp, judge)
        return i

    def run(self):
        r = self.r
        for k in range(len(self.m.rounds)):
            self.ground(k)
            for _ in range(r.choice([1, 1, 2, 3])):
                if self.reconf:
                    self.ops += cfg_ops(r, self)
                if self.modes and not self.m.rounds[k].has_obj and r.random() < 0.25:
                    mode = r.choice(["brave", "cautious"])
                    self.ops.append(["cfg", "c", "solve.enum_mode", mode])
                    self.solve(k, (), (mode,))
                    self.ops.append(["cfg", "c", "solve.enum_mode", r.choice(["auto", "bt"])])
                elif self.limits and r.random() < 0.2:
                    n = r.randint(1, 3)
                    self.solve(k, ["limit=%d" % n], ("limit", n))
                else:
                    self.solve(k)
        return self


def judge_solve(rd, exp, models, d, judge, acc):
    """Judges the models of one solve call; returns (kind, text) or None."""
    keys, costs = [], []
    native = True
    for m in models:
        if not m["v"] or len(m["v"][0]) != len(rd.ivars):
            return "variables", "model assigns %s, expected variables %s" % (m["v"], rd.ivars)
        for x in m["v"][0]:
            if x[2] != 1 or x[3] != 1:
                return "lookup", "symbol lookup of %s is not inverse" % (x,)
        keys.append(multi.model_key(rd, m))
    for k, m in zip(keys, models):
        if k not in exp and judge[0] not in ("brave", "cautious"):
            return "wrong", "wrong answer %s (expected e.g. %s)" % (k, list(exp)[:3])
        if rd.has_obj:
            c = theory_cost(m)
            if m["c"]:
                native = False
            elif c is None:
                return "nocost", "no cost reported in %s" % m
            if c is not None and c != exp[k]:
                return "cost", "reported cost %s of answer %s should be %s" % (c, k, exp[k])
            costs.append(exp[k])
    if judge != "full":
        if judge[0] in ("brave", "cautious"):
            if (d["res"] & 3) != (1 if exp else 2) or not (d["res"] & 4):
                return "result", "result %s but %d answers exist" % (d["res"], len(exp))
            if exp:
                sets = [frozenset(k.split("|")[0].split()) for k in exp]
                want = frozenset.union(*sets) if judge[0] == "brave" else frozenset.intersection(*sets)
                got = frozenset(models[-1]["a"]) & rd.atoms if models else None
                if got != want:
                    return judge[0], "%s consequences are %s instead of %s" % (judge[0], sorted(got or []), sorted(want))
                acc.count("mode_" + judge[0])
            return None
        if judge[0] == "limit":
            n = judge[1]
            if not rd.has_obj:
                if len(set(keys)) != len(keys):
                    return "duplicate", "answers reported twice: %s" % keys
                if len(keys) != min(n, len(exp)):
                    return "lost", "%d answers reported, limit %d, %d exist" % (len(keys), n, len(exp))
            elif exp and not keys:
                return "lost", "no answers, %d exist" % len(exp)
        return None
    if (d["res"] & 3) != (1 if exp else 2) or not (d["res"] & 4):
        return "result", "result %s but %d answers exist" % (d["res"], len(exp))
    if d["fin"] != 1:
        return "finish", "finish event reported %d times" % d["fin"]
    if not rd.has_obj:
        dup = [k for k, n in collections.Counter(keys).items() if n > 1]
        if dup:
            return "duplicate", "%d answers reported more than once, e.g. %s" % (len(dup), dup[0])
        lost = [k for k in exp if k not in set(keys)]
        if lost:
            return "lost", "%d of %d answers lost, e.g. %s" % (len(lost), len(exp), lost[0])
        return None
    if not exp:
        return None
    best = min(exp.values())
    acc.count("native_optima" if native else "translated_optima")
    if not keys:
        return "lost", "no answers but optimum is %d" % best
    if any(a <= b for a, b in zip(costs, costs[1:])):
        return "improve", "costs do not improve strictly: %s" % costs
    if costs[-1] != best:
        return "optimum", "last answer has cost %d but the optimum is %d" % (costs[-1], best)
    if not native:
        offs = {m["c"][0] - c for m, c in zip(models, costs) if m["c"]}
        if len(offs) > 1:
            return "clasp-cost", "inconsistent costs reported by clasp: %s" % sorted(offs)
    return None


def describe(h):
    return "program:\n%s\nhistory:\n%s" % (h.m.text, "\n".join(" ".join(o) for o in h.ops if o[0] != "text"))


def clasp_step_literal(acc, exe, h, job, r, v):
    """
    Recognizes clasp's own defect that a step literal becoming false on level 0 of the first thread (rarely happens in
    parallel searches with volatile clauses) makes the next solve call fail without any search: a repeated parallel
    search with a natively handled objective ends without answers. It depends on timing and is not reported unless it
    is frequent in repetitions of the same history.
    """
    solves = sorted(h.expect)
    empty = [si for si in solves if h.expect[si][1] and not r.models.get(si) and r.ops[si].get("res", 0) & 2]
    if not empty or empty[0] == solves[0] or v[0] not in ("result", "exhausted") or "operation %d " % empty[0] not in v[1]:
        return False
    parallel = any(o[0] == "cfg" and o[2] == "solve.parallel_mode" for o in h.ops) or any("--parallel" in a for a in h.ops[0])
    if not parallel or not h.m.rounds[h.expect[empty[0]][0]].has_obj:
        return False
    n = 60
    again = vlib.run_jobs(exe, [dict(job, id=str(i)) for i in range(n)], nproc=1)
    bad = sum(1 for a in again.values() if a.crashed or (not a.models.get(empty[0]) and a.ops[empty[0]].get("res", 0) & 2))
    if bad * 4 > n:
        return False
    acc.count("clasp_step_literal")
    return True


def run_hists(acc, exe, hists, timeout=20, extra=None, chunk=30):
    """Runs histories and judges every solve. extra(acc, h, r) -> (kind, text) or None judges the whole history."""
    for i in range(0, len(hists), chunk):
        part = hists[i:i + chunk]
        jobs = [{"id": str(k), "ops": h.ops, "timeout": timeout, "cont": getattr(h, "cont", False)} for k, h in enumerate(part)]
        results = vlib.run_jobs(exe, jobs, nproc=1)
        for k, h in enumerate(part):
            r = results[str(k)]
            job = jobs[k]
            acc.evals += 1
            what = describe(h)
            if not work.crash_check(acc, r, job, exe, what):
                continue
            allow = getattr(h, "allow_error", {})
            bad = [d for d in r.ops.values() if not d["ok"] and not (d["o"] in allow and allow[d["o"]] in d["err"])]
            if bad:
                acc.viol("error:%s:%s" % (bad[0]["op"], bad[0]["err"]), "unexpected error %s\n%s" % (bad[0], what),
                         {"job": job, "variant": work.variant(exe)})
                continue
            v = None
            nsolve = nontriv = 0
            for si, (rk, exp, judge) in sorted(h.expect.items()):
                models = r.models.get(si, [])
                acc.count("models", len(models))
                acc.count("solves")
                nsolve += 1
                nontriv += bool(exp) and len(exp) < len(h.m.rounds[rk].sols) + 1
                v = judge_solve(h.m.rounds[rk], exp, models, r.ops[si], judge, acc)
                if v:
                    v = (v[0], "operation %d (%s): %s" % (si, " ".join(h.ops[si]), v[1]))
                    break
            if v is None and extra:
                v = extra(acc, h, r)
            if v and clasp_step_literal(acc, exe, h, job, r, v):
                continue
            if v:
                acc.viol("hist:" + v[0], v[1] + "\n" + what, {"job": job, "variant": work.variant(exe)})
                continue
            if nontriv >= 2:
                acc.seen(h.m.text, h.ops)
            if len(acc.samples) < 1:
                acc.samples.append({"history": [" ".join(o) for o in h.ops], "answers": [len(e[1]) for e in h.expect.values()]})


def hist_task(acc, pid, exe, seed, n, threads):
    rng = random.Random("hist/%s/%s" % (pid, seed))
    hs = []
    for i in range(n):
        m = multi.multi("%s/hist/%s/%d" % (pid, seed, i))
        hs.append(Hist(rng, m, threads))
        hs[-1].modes = True
        hs[-1].run()
    run_hists(acc, exe, hs)


class Reopt(Hist):
    """Parallel optimization repeated under changing assumptions; model callbacks take time."""

    def __init__(self, r, m):
        super().__init__(r, m, threads=False, conf=r.random() < 0.5)
        self.ops = [o for o in self.ops if o[:3] != ["conf", "t", "translate-opt"]]
        i = next(i for i, o in enumerate(self.ops) if o[0] == "theory")
        self.ops.insert(i + 1, ["conf", "t", "translate-opt", "0"])
        if not any(a.startswith(("--heuristic=unit", "--lookahead")) for a in self.args):
            self.cur = 2
            self.ops[0].append("--parallel-mode=" + r.choice(PAR[1:]))
        self.translated_opt = "0"

    def run(self):
        r = self.r
        for k in range(len(self.m.rounds)):
            self.ground(k)
        k = len(self.m.rounds) - 1
        for _ in range(r.choice([3, 4, 6])):
            self.solve(k, r.choice([[], ["delay=50"], ["delay=200"], ["delay=200"], ["delay=500"]]))
        return self


def reopt_task(acc, pid, exe, seed, n):
    rng = random.Random("reopt/%s/%s" % (pid, seed))
    hs = [Reopt(rng, multi.multi("%s/reopt/%s/%d" % (pid, seed, i), nrounds=rng.choice([1, 1, 2]), with_obj=True)).run() for i in range(n)]
    run_hists(acc, exe, hs)
