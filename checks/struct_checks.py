"""Structured problems (problems.py): answers, their number, and optima against independent algorithms; also under monitors."""
import random
import numpy as np
import vlib, work, gen, problems
import enum_checks as enum
import multi_checks as mc
import mon_checks as mon
import api_checks as api

KINDS = {"sat": problems.SAT, "opt": problems.OPT, "all": problems.ALL, "distinct": problems.DISTINCT, "disjoint": problems.DISJOINT,
         "nsum": problems.NSUM, "dom": problems.DOM,
         "count": [f for f in problems.SAT if f not in (problems.planted, problems.network)],
         "big": [problems.big]}


class Case:
    shown = None

    def __init__(self, rng, seed, kinds, threads, light=False):
        self.p = p = problems.problem(seed, KINDS[kinds])
        self.conf = [x for x in gen.clingcon_conf(rng, light)] if rng.random() < 0.85 else []
        self.args = gen.clasp_args(rng, threads, p.has_obj) if rng.random() < 0.8 else []
        self.limit = 0
        if not p.has_obj and p.count is None and p.sat is not False:
            self.limit = rng.choice([1, 5, 30])
        elif not p.has_obj and p.sat and rng.random() < 0.1:
            self.limit = rng.randint(1, 3)
        self.args = [str(self.limit)] + self.args
        if p.has_obj and rng.random() < 0.4:
            self.conf = [x for x in self.conf if x[0] != "translate-opt"] + [("translate-opt", rng.choice(["max", "100000", "0"]))]

    @property
    def what(self):
        return "%s problem:\n%s\narguments: %s\nconfiguration: %s" % (self.p.name, self.p.text, self.args, self.conf)


def values(p, m):
    return {x[0]: x[1] for x in m["v"][0]} if m["v"] else {}


def judge(c, d, models, complete, acc):
    """Compares answers with what is known about the problem; d is None if the search did not finish."""
    p = c.p
    keys, costs, offs, native = set(), [], set(), False
    for m in models:
        s, t = values(p, m), set(m["a"]) & p.atoms
        if set(s) != set(p.ivars) or len(m["v"][0]) != len(p.ivars):
            return "variables", "answer %s does not assign exactly %s" % (m["v"], p.ivars)
        v = api.check_terms(p.ivars, c.shown, m)
        if v:
            return "terms", v
        if not p.check(s, t):
            return "wrong", "wrong answer %s %s" % (sorted(m["a"]), s)
        k = (frozenset(m["a"]), tuple(s[v] for v in p.ivars))
        if k in keys:
            return "duplicate", "answer %s reported twice" % (k,)
        keys.add(k)
        if p.has_obj:
            cost = p.cost(s, t)
            th = enum.theory_cost(m)
            if th is not None and th != cost:
                return "cost", "reported cost %s should be %s in %s" % (th, cost, s)
            if th is None and not m["c"]:
                return "nocost", "no cost reported in %s" % m
            if m["c"]:
                if len(m["c"]) != 1:
                    return "costs", "unexpected costs %s" % m["c"]
                offs.add((m["c"][0] - cost) % 2 ** 32)
            else:
                native = True
            costs.append(cost)
    if p.has_obj:
        if len(offs) > 1 or offs and native:
            return "clasp-cost", "costs reported by clasp are inconsistent with the objective: %s" % sorted(offs)
        if any(a <= b for a, b in zip(costs, costs[1:])):
            return "improve", "costs do not improve strictly: %s" % costs
        if costs and p.best is not None and costs[-1] < p.best:
            return "better", "cost %d is below the optimum %d" % (costs[-1], p.best)
    if p.sat is False and models:
        return "unsat", "answer for an unsatisfiable problem"
    if not complete:
        return None
    acc.count("native" if native else "translated" if costs else "no_objective")
    if (d["res"] & 3) != (1 if models else 2):
        return "result", "result %d for %d answers" % (d["res"], len(models))
    if p.sat is not None and p.sat != bool(models):
        return "lost", "no answer found for a satisfiable problem"
    if d["fin"] != 1:
        return "finish", "finish event reported %d times" % d["fin"]
    if p.has_obj:
        if not d["res"] & 4:
            return "notexhausted", "search was not exhausted"
        if models and costs[-1] != p.best:
            return "optimum", "last cost %d but the optimum is %s" % (costs[-1], p.best)
    elif c.limit == 0 or p.count is not None and p.count < c.limit:
        if not d["res"] & 4:
            return "notexhausted", "search was not exhausted"
        if p.count is not None and len(models) != p.count:
            return "count", "%d answers but there are %d" % (len(models), p.count)
    elif p.count is not None and len(models) != min(p.count, c.limit):
        return "limit", "%d answers for limit %d and %d answers" % (len(models), c.limit, p.count)
    return None


# errors reported for objectives over variables without bounds
TOO_LARGE = ("integer overflow", "integer underflow", "bound value out of range")


def run(acc, exe, cases, extra_ops=(), timeout=6, after=None):
    """Runs the cases; after(case, result, solve index) may return a further violation."""
    jobs, info = [], {}
    for i, c in enumerate(cases):
        ops = work.setup_ops(c.args, c.conf, c.p.text) + list(extra_ops) + [["solve", "t", "c"]]
        jobs.append({"id": str(i), "ops": ops, "timeout": timeout})
        info[str(i)] = (c, len(ops) - 1)
    for i in range(0, len(jobs), 20):
        part = jobs[i:i + 20]
        results = vlib.run_jobs(exe, part, nproc=1, retry_timeouts=False)
        for job in part:
            c, si = info[job["id"]]
            r = results[job["id"]]
            acc.evals += 1
            acc.count("problem_" + c.p.name)
            models = r.models.get(si, [])
            if r.timeout:
                acc.count("timeouts")   # hard search problems; answers found so far are still checked
                v = judge(c, None, models, False, acc)
                if v:
                    acc.viol("struct:" + v[0], v[1] + "\n" + c.what, {"job": job, "variant": work.variant(exe)})
                continue
            if not work.crash_check(acc, r, job, exe, c.what):
                continue
            bad = [d for d in r.ops.values() if not d["ok"]]
            v = None
            if bad and c.p.unbounded and bad[0]["err"] in TOO_LARGE and c.p.has_obj:
                acc.count("rejected_as_too_large")   # objectives over unbounded variables cannot be translated
                continue
            if bad:
                v = ("error:%s:%s" % (bad[0]["op"], bad[0]["err"]), "unexpected error %s" % bad[0])
            else:
                v = judge(c, r.ops[si], models, True, acc)
                if v is None and after:
                    v = after(c, r, si)
            acc.count("models", len(models))
            if v:
                acc.viol("struct:" + v[0], v[1] + "\n" + c.what,
                         {"job": job, "variant": work.variant(exe), "count": c.p.count, "best": c.p.best, "sat": c.p.sat})
                continue
            if c.p.sat is False:
                acc.count("unsat")
            acc.seen(c.p.text, c.conf)
    c = cases[-1]
    acc.samples.append({"problem": c.p.name, "program": c.p.text[:1500], "count": c.p.count, "optimum": c.p.best, "satisfiable": c.p.sat})


def struct_task(acc, pid, exe, seed, n, kinds, threads):
    rng = random.Random("struct/%s/%s" % (pid, seed))
    run(acc, exe, [Case(rng, "%s/%s/%d" % (pid, seed, i), kinds, threads) for i in range(n)])


def show_task(acc, pid, exe, seed, n, kinds, threads):
    """Only some of many variables are shown."""
    rng = random.Random("structw/%s/%s" % (pid, seed))
    cases = []
    for i in range(n):
        c = Case(rng, "%s/w%s/%d" % (pid, seed, i), kinds, threads)
        if "&show" not in c.p.text and rng.random() < 0.7:
            c.shown, els = set(), []
            sigs = sorted({(x.split("(")[0], 0 if "(" not in x else x.count(",") + 1) for x in c.p.ivars})
            for x in rng.sample(c.p.ivars, rng.choice([0, 1, len(c.p.ivars) // 2, len(c.p.ivars)])):
                c.shown.add(x)
                els.append(x)
            for nm, ar in sigs:
                if rng.random() < 0.4:
                    els.append("%s/%d" % (nm, ar))
                    c.shown |= {x for x in c.p.ivars if (x.split("(")[0], 0 if "(" not in x else x.count(",") + 1) == (nm, ar)}
            k = rng.randint(0, len(els))
            rng.shuffle(els)
            c.p.lines += ["&show { %s }." % "; ".join(e) for e in (els[:k], els[k:])]
            rng.shuffle(c.p.lines)
        cases.append(c)
    run(acc, exe, cases)


def conf_task(acc, pid, exe, seed, n, nconf, kinds, threads):
    """The same problem under several configurations."""
    rng = random.Random("structc/%s/%s" % (pid, seed))
    run(acc, exe, [Case(rng, "%s/%s/%d" % (pid, seed, i), kinds, threads) for i in range(n) for _ in range(nconf)])


# ---------------------------------------------------------------- monitors
def state_task(acc, pid, exe, seed, n, threads):
    rng = random.Random("structs/%s/%s" % (pid, seed))
    cases = []
    for i in range(n):
        c = Case(rng, "%s/%s/%d" % (pid, seed, i), "all", threads)
        c.conf = [x for x in c.conf if x[0] not in ("check-state", "check-solution", "order-heuristic")] + [("check-state", "yes"), ("check-solution", "yes")]
        if rng.random() < 0.5:
            c.conf.append(("order-heuristic", "max-chain"))
        cases.append(c)

    def after(c, r, si):
        m = r.ops[si]["mon"]
        mon.count(acc, m)
        w = mon.mon_viol(m)
        return ("state:" + w.split(":")[0], w) if w else None
    run(acc, exe, cases, after=after, timeout=8)


class Raw:
    """Solutions of a problem in the form expected by mon_checks.Sols."""

    def __init__(self, p):
        self.raw = p.sols if p.sols is not None else [p.planted] if p.planted else []
        self.ivars, self.atoms = p.ivars, p.atoms


def clause_task(acc, pid, exe, seed, n, threads, kinds="all"):
    """Recorded clauses against all solutions or a known one."""
    rng = random.Random("structr/%s/%s" % (pid, seed))
    cases = []
    i = 0
    while len(cases) < n:
        c = Case(rng, "%s/%s/%d" % (pid, seed, i), kinds, threads)
        i += 1
        if c.p.sols or c.p.planted:
            cases.append(c)

    def after(c, r, si):
        m = r.ops[si]["mon"]
        acc.count("dropped", m["dropped"])
        if m["viols"] and m["viols"][0].startswith("clause:"):
            return "clause", m["viols"][0]
        raw = Raw(c.p)
        recs = m["recs"]
        if c.p.has_obj and c.p.cost is None:
            recs = [x for x in recs if x[0] != "min"]
        w = mon.check_records(mon.Sols(raw), recs, acc)
        if w:
            return "clause:" + w[0], "%s %s is violated by the solution %s" % (w[0], w[1], raw.raw[w[2]])
        return None
    run(acc, exe, cases, extra_ops=[["record"]], after=after, timeout=8)


# ---------------------------------------------------------------- histories
class Stub:
    conf = {}


class StructHist(mc.Hist):
    """A problem grounded in several parts; partial, limited, and disturbed solve calls precede complete ones."""
    shown = None

    def __init__(self, r, p, threads, disturb):
        m = Stub()
        parts = problems.split(r, p, r.choice([1, 1, 2, 3, 5, 12]) if not p.unbounded else 1)
        m.text = "\n".join("#program p%d.\n%s" % (k, "\n".join(x)) for k, x in enumerate(parts))
        # clasp's own defect: repeated parallel searches with volatile clauses, see multi_checks.clasp_step_literal
        super().__init__(r, m, threads and not p.has_obj, args=None)
        self.p, self.parts, self.disturb = p, parts, disturb
        self.limit = 0
        self.rest = not p.has_obj and p.count is None and p.sat is not False    # too many answers

    def part(self, k):
        if self.incremental_text:
            self.ops.append(["text", "t", "c", "#program p%d.\n%s" % (k, "\n".join(self.parts[k]))])
        self.ops += [["ground", "c", "p%d" % k], ["prepare", "t", "c"]]

    def call(self, kind, kwargs):
        self.ops.append(["solve", "t", "c"] + kwargs)
        self.expect[len(self.ops) - 1] = kind

    def go(self):
        r, p = self.r, self.p
        self.cont = True
        last = len(self.parts) - 1
        for k in range(last + 1):
            self.part(k)
            for _ in range(r.choice([0, 1, 2]) + (k == last and self.disturb)):
                if r.random() < 0.5:
                    self.ops += mc.cfg_ops(r, self)
                late = self.cur > 1
                kind = r.choice(["limit", "limit", "cancel", "cancel", "interrupt", "yield", "delaycancel"] if self.disturb else ["limit"])
                if k < last and p.has_obj:
                    kind = "limit"
                n = r.choice([1, 1, 2, 5, 20])
                us = r.choice([0, 50, 300, 1000, 3000, 10000, 30000])
                if kind == "limit":
                    self.call(("limit" if k == last else "partial", n), ["limit=%d" % n])
                elif kind == "cancel":
                    self.call(("part", k), ["limit=500", "cancel=%d" % us] + (["cancelat=1"] if late else []))
                elif kind == "delaycancel":
                    self.call(("part", k), ["limit=200", "delay=%d" % r.choice([20, 200]), "cancel=%d" % us] + (["cancelat=%d" % r.choice([1, 2, 3])] if late else []))
                elif kind == "interrupt":
                    self.call(("part", k), ["limit=500", "interrupt=%d" % r.choice([1, 2, 4] if late else [0, 0, 1, 2, 4, 20])])
                    self.call(("part", k), ["limit=3"])   # an interrupt arriving after the search is kept by clasp
                else:
                    self.call(("part", k), ["yield=%d" % r.choice([0, 1, 4, 30])])
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < 0.4:
                self.ops += mc.cfg_ops(r, self)
            self.call(("full", 0), ["limit=30"] if self.rest else [])
        return self


def hist_judge(h, r, acc):
    p = h.p
    for si, (kind, n) in sorted(h.expect.items()):
        d, models = r.ops[si], r.models.get(si, [])
        acc.count("solves_" + kind)
        if kind == "partial":
            if p.sat and not models:
                return si, "lost", "no answer for a part of a satisfiable problem"
            if len(models) > n:
                return si, "limit", "%d answers for limit %d" % (len(models), n)
            continue
        if kind == "part" and n < len(h.parts) - 1:
            if d["res"] & 2 and p.sat and models:
                return si, "result", "unsatisfiable with answers"
            continue
        v = judge(h, d, models, False, acc)
        if v:
            return (si,) + v
        if kind == "part":
            if d["res"] & 4 and p.count is not None and len(models) not in (0, p.count):
                return si, "exhausted", "search reported as exhausted with %d of %d answers" % (len(models), p.count)
        elif kind == "limit":
            if len(models) > n or not p.has_obj and p.count is not None and len(models) != min(p.count, n) or p.sat and not models:
                return si, "limit", "%d answers for limit %d, there are %s" % (len(models), n, p.count)
        else:
            h.limit = 30 if h.rest else 0
            v = judge(h, d, models, True, acc)
            if v:
                return (si,) + v
    return None


def hist_task(acc, pid, exe, seed, n, kinds, threads, disturb):
    rng = random.Random("structh/%s/%s" % (pid, seed))
    hs = []
    while len(hs) < n:
        p = problems.problem("%s/%s/%d" % (pid, seed, rng.randrange(1 << 30)), KINDS[kinds])
        if not p.unbounded or not p.has_obj:
            hs.append(StructHist(rng, p, threads, disturb).go())
    for i in range(0, n, 20):
        part = hs[i:i + 20]
        jobs = [{"id": str(k), "ops": h.ops, "timeout": 10, "cont": True} for k, h in enumerate(part)]
        results = vlib.run_jobs(exe, jobs, nproc=1, retry_timeouts=False)
        for job, h in zip(jobs, part):
            r = results[job["id"]]
            acc.evals += 1
            what = mc.describe(h)
            if r.timeout:
                acc.count("timeouts")
                continue
            if not work.crash_check(acc, r, job, exe, what):
                continue
            bad = [d for d in r.ops.values() if not d["ok"]]
            if bad:
                acc.viol("struct:error:%s:%s" % (bad[0]["op"], bad[0]["err"]), "unexpected error %s\n%s" % (bad[0], what), {"job": job, "variant": work.variant(exe)})
                continue
            v = hist_judge(h, r, acc)
            if v:
                acc.viol("struct:" + v[1], "operation %d (%s): %s\n%s problem\n%s" % (v[0], " ".join(h.ops[v[0]]), v[2], h.p.name, what),
                         {"job": job, "variant": work.variant(exe), "count": h.p.count, "best": h.p.best, "sat": h.p.sat})
                continue
            acc.seen(h.m.text, h.ops)
    acc.samples.append({"problem": hs[-1].p.name, "history": [" ".join(o) for o in hs[-1].ops if o[0] != "text"]})
