"""Statistics (C18): conservation laws between reported statistics, observed API calls and the history."""
import math, random
import multi, multi_checks as mc
from enum_checks import theory_cost
from multi_checks import Hist, run_hists

TIMES = [("Init time in seconds", x) for x in ("Total", "Simplify", "Translate")]
PROBLEM = [("Problem", x) for x in ("Constraints", "Variables", "Clauses", "Literals")]
TRANSLATE = [("Translate", x) for x in ("Constraints removed", "Constraints added", "Clauses", "Weight constraints", "Literals")]
TCOUNTS = ["Refined reason", "Introduced reason", "Literals introduced"]
TTIMES = ["Total", "Propagation", "Check", "Undo"]


class SHist(Hist):
    """A history that reads the statistics after (most) solve calls."""

    def __init__(self, r, *args, **kw):
        self.stat_ops = {}  # operation -> solve operations it reports on
        self.pending = []
        super().__init__(r, *args, **kw)

    def solve(self, k, kwargs=(), judge="full"):
        kwargs = list(kwargs)
        ns = self.r.random() < 0.12
        if ns:
            kwargs.append("nostats")
        i = super().solve(k, kwargs, judge)
        self.pending.append(i)
        if not ns:
            self.ops.append(["stats", "c"])
            self.stat_ops[len(self.ops) - 1] = self.pending
            self.pending = []
        return i


def values(x, path=""):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from values(v, path + "/" + k)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from values(v, "%s/%d" % (path, i))
    else:
        yield path, x


def shape_ok(d):
    for grp, names in (("Init time in seconds", ["Total", "Simplify", "Translate"]), ("Problem", [x for _, x in PROBLEM]),
                       ("Translate", [x for _, x in TRANSLATE])):
        if not isinstance(d.get(grp), dict) or any(n not in d[grp] for n in names):
            return False
    if not isinstance(d.get("Thread"), list):
        return False
    return all(isinstance(t, dict) and all(n in t for n in TCOUNTS) and isinstance(t.get("Time in seconds"), dict)
               and all(n in t["Time in seconds"] for n in TTIMES) for t in d["Thread"])


def judge_stats(acc, h, r):
    total = {}      # running sums of the step statistics
    tthreads = []   # running sums of the threads
    nvars = 0
    threads = maxthreads = None
    conflict = False
    cost = None
    cur = [a for a in h.args if a.startswith("--parallel-mode=")]
    cur = int(cur[0].split("=")[1].split(",")[0]) if cur else 1
    off = []
    pend_threads = []
    options = {}
    for i, op in enumerate(h.ops):
        if op[0] == "conf":
            v, _, t = op[3].partition(",")
            if t:
                options[op[2], int(t)] = v
            else:
                options = {k: x for k, x in options.items() if k[0] != op[2]}
                options[op[2], None] = v
        elif op[0] == "cfg" and op[2] == "solve.parallel_mode":
            cur = int(op[3].split(",")[0])
        elif op[0] == "solve":
            pend_threads.append(cur)
            off = [{o for o in ("refine-reasons", "refine-introduce") if options.get((o, t), options.get((o, None))) == "no"} for t in range(cur)]
            maxthreads = max(maxthreads or 1, cur)
            if r.ops[i]["res"] & 2:
                conflict = True  # possibly during initialization
        elif op[0] == "stats":
            st = r.ops[i]["stats"]
            api = r.ops[i].get("api")
            solves = h.stat_ops[i]
            if not st["user_step"] or not st["user_accu"] or "Clingcon" not in st["user_step"] or "Clingcon" not in st["user_accu"]:
                return "missing", "no statistics reported: %s" % st
            step, accu = st["user_step"]["Clingcon"], st["user_accu"]["Clingcon"]
            acc.count("reports")
            if not shape_ok(step) or not shape_ok(accu):
                return "shape", "entries are missing: %s / %s" % (step, accu)
            for kind, d in (("step", step), ("accu", accu)):
                for path, v in values(d):
                    if v is None or not math.isfinite(v):
                        return "finite", "%s%s is %s" % (kind, path, v)
                    if path == "/Cost":
                        continue
                    if abs(v) > 1e12 or v < 0 and not (kind == "step" and path == "/Problem/Constraints"):
                        return "range", "%s%s is %s" % (kind, path, v)
                    if "ime" not in path and v != int(v):
                        return "integer", "%s%s is %s" % (kind, path, v)
            # sums over the solve calls so far
            for g, n in PROBLEM + TRANSLATE + TIMES:
                total[g, n] = total.get((g, n), 0) + step[g][n]
                if not math.isclose(total[g, n], accu[g][n], rel_tol=1e-9, abs_tol=1e-12):
                    return "sum", "accumulated %s/%s is %s but the steps add up to %s" % (g, n, accu[g][n], total[g, n])
            for t, d in enumerate(step["Thread"]):
                if t == len(tthreads):
                    tthreads.append({})
                for n, v in [(n, d[n]) for n in TCOUNTS] + [("time " + n, d["Time in seconds"][n]) for n in TTIMES]:
                    tthreads[t][n] = tthreads[t].get(n, 0) + v
            if len(accu["Thread"]) != len(tthreads):
                return "threads", "%d accumulated thread entries, steps reported %d" % (len(accu["Thread"]), len(tthreads))
            for t, d in enumerate(accu["Thread"]):
                for n, v in [(n, d[n]) for n in TCOUNTS] + [("time " + n, d["Time in seconds"][n]) for n in TTIMES]:
                    if not math.isclose(v, tthreads[t][n], rel_tol=1e-9, abs_tol=1e-12):
                        return "sum", "accumulated %s of thread %d is %s but the steps add up to %s" % (n, t, v, tthreads[t][n])
            if ("Cost" in step) != ("Cost" in accu) or step.get("Cost") != accu.get("Cost"):
                return "cost", "cost of step and accumulated statistics differ: %s %s" % (step.get("Cost"), accu.get("Cost"))
            # times
            for d in (step, accu):
                t = d["Init time in seconds"]
                if t["Total"] + 1e-9 < t["Simplify"] + t["Translate"]:
                    return "time", "initialization time is less than its parts: %s" % t
                for x in d["Thread"]:
                    t = x["Time in seconds"]
                    if not math.isclose(t["Total"], t["Propagation"] + t["Check"] + t["Undo"], rel_tol=1e-6, abs_tol=1e-9):
                        return "time", "total is not the sum of the parts: %s" % t
            if not conflict and step["Init time in seconds"]["Total"] <= 0:
                return "time", "no initialization time: %s" % step
            # threads
            if not conflict and not max(pend_threads) <= len(step["Thread"]) <= maxthreads:
                return "threads", "%d thread entries with %s threads (at most %s so far)" % (len(step["Thread"]), pend_threads, maxthreads)
            if not conflict and len(pend_threads) == 1 and any(any(x["Time in seconds"][n] for n in TTIMES) or any(x[n] for n in TCOUNTS)
                                                               for x in step["Thread"][max(pend_threads):]):
                return "threads", "thread entries of unused threads are non-zero: %s" % step["Thread"]
            # variables
            rk = h.expect[solves[-1]][0]
            expect = len(h.m.rounds[rk].ivars) - nvars
            models = sum(len(r.models.get(s, ())) for s in solves)
            if r.models.get(solves[-1]):
                acc.count("variables_compared")
                if step["Problem"]["Variables"] != expect or accu["Problem"]["Variables"] != len(h.m.rounds[rk].ivars):
                    return "variables", "step %s accumulated %s, but there are %d and %d" % (
                        step["Problem"]["Variables"], accu["Problem"]["Variables"], expect, len(h.m.rounds[rk].ivars))
            nvars = accu["Problem"]["Variables"]
            # translation is a part of initialization
            for n in ("Clauses", "Literals"):
                if step["Translate"][n] > step["Problem"][n]:
                    return "translate", "more translated %s than all: %s" % (n, step)
            # compare with observed calls
            if api:
                acc.count("api_compared")
                if step["Problem"]["Literals"] != api["init_lits"]:
                    return "literals", "%s literals reported but %d added" % (step["Problem"]["Literals"], api["init_lits"])
                for t in range(16):
                    v = step["Thread"][t]["Literals introduced"] if t < len(step["Thread"]) else 0
                    if v != api["ctl_lits"][t]:
                        return "literals", "%d literals introduced by thread %d reported but %d added" % (v, t, api["ctl_lits"][t])
                    acc.count("search_literals", v)
                if not api["init_false"] and not conflict:
                    # a weight constraint can be replaced by a clause and implied ones can be dropped
                    diff = api["init_clauses"] - step["Problem"]["Clauses"]
                    if not 0 <= diff <= max(0, step["Translate"]["Weight constraints"] - api["init_wcs"]):
                        return "clauses", "%s clauses reported but %d added" % (step["Problem"]["Clauses"], api["init_clauses"])
                    if step["Translate"]["Weight constraints"] < api["init_wcs"]:
                        return "weights", "%s weight constraints reported but %d added" % (step["Translate"]["Weight constraints"], api["init_wcs"])
                    if not (r.ops[solves[-1]]["res"] & 2) and "constraints" in api:
                        acc.count("constraints_compared")
                        if accu["Problem"]["Constraints"] != api["constraints"]:
                            return "constraints", "%s constraints reported but there are %d" % (accu["Problem"]["Constraints"], api["constraints"])
            # cost: the best one of the last solve call with answers (entries cannot be removed from clingo's statistics)
            for si in solves:
                ms = r.models.get(si, [])
                cs = [theory_cost(m) for m in ms]
                if ms and cs[-1] is not None:
                    if ms[-1]["c"] == []:
                        acc.count("costs_compared")
                    cost = min(cs)
            if step.get("Cost") != cost:
                return "cost", "reported cost %s, best answer so far has cost %s" % (step.get("Cost"), cost)
            # options that switch refinement off
            for t, x in enumerate(step["Thread"]):
                if len(solves) == 1 and t < len(off):
                    if off[t] and x["Introduced reason"] or "refine-reasons" in off[t] and x["Refined reason"]:
                        return "refined", "refined reasons of thread %d: %s with %s switched off" % (t, x, off[t])
                    acc.count("refine_off", len(off[t]))
            for x in step["Thread"]:
                acc.count("refined_reasons", x["Refined reason"])
                acc.count("introduced_reasons", x["Introduced reason"])
            pend_threads = []
    return None


def stats_task(acc, pid, exe, seed, n, threads):
    rng = random.Random("stat/%s/%s" % (pid, seed))
    hs = []
    for i in range(n):
        wo = True if rng.random() < 0.6 else None
        m = multi.multi("%s/stat/%s/%d" % (pid, seed, i), with_obj=wo)
        hs.append(SHist(rng, m, threads).run())
    run_hists(acc, exe, hs, extra=judge_stats)
