"""Checks that watch the propagator itself: state invariants (C14) and clauses (C15)."""
import random, json
import numpy as np
import vlib, work, gen, multi
import multi_checks as mc
import enum_checks as enum


def mon_viol(mon):
    return mon["viols"][0] if mon and mon["viols"] else None


def count(acc, mon):
    for k in ("props", "checks", "undos", "decides", "olits", "snapshots", "totals"):
        acc.count("mon_" + k, mon[k])


# ---------------------------------------------------------------- C14
def state_task(acc, pid, exe, seed, n, profile, threads):
    rng = random.Random("state/%s/%s" % (pid, seed))
    jobs, info = [], {}
    for i in range(n):
        prof = dict(enum.PROFILES[profile])
        if rng.random() < 0.3:
            prof["objective"] = 1
        pr = gen.program("%s/%s/%s/%d" % (pid, profile, seed, i), prof)
        conf = list(pr.conf.items()) + [x for x in gen.clingcon_conf(rng) if x[0] not in ("check-state", "check-solution", "order-heuristic")]
        conf += [("check-state", "yes"), ("check-solution", "yes")]
        if rng.random() < 0.5:
            conf.append(("order-heuristic", "max-chain"))
        args = ["0"] + gen.clasp_args(rng, threads, True)
        ops = work.setup_ops(args, conf, pr.text) + [["solve", "t", "c"]]
        jobs.append({"id": str(i), "ops": ops, "timeout": 30})
        info[str(i)] = (pr, args, conf, len(ops) - 1)
    for i in range(0, len(jobs), 40):
        part = jobs[i:i + 40]
        results = vlib.run_jobs(exe, part, nproc=1)
        for job in part:
            pr, args, conf, si = info[job["id"]]
            r = results[job["id"]]
            acc.evals += 1
            what = enum.describe(pr, args, conf)
            if not work.crash_check(acc, r, job, exe, what):
                continue
            bad = [d for d in r.ops.values() if not d["ok"]]
            v = None
            if bad:
                v = ("error:" + bad[0]["err"], "unexpected error %s" % bad[0])
            models = r.models.get(si, [])
            if v is None:
                mon = r.ops[si]["mon"]
                count(acc, mon)
                w = mon_viol(mon)
                if w:
                    v = ("state:" + w.split(":")[0], w)
            if v is None and not pr.has_obj:
                v = enum.compare(pr, models)
            if v:
                acc.viol(v[0], v[1] + "\n" + what, {"job": job, "variant": work.variant(exe)})
                continue
            if mon["undos"] and (mon["olits"] or not mon["snapshots"]) and (pr.sols or mon["undos"] > 2):
                acc.seen(pr.text, pr.conf)
    acc.samples.append({"program": pr.text, "undos": mon["undos"] if v is None else None})


def state_hist_task(acc, pid, exe, seed, n):
    rng = random.Random("stateh/%s/%s" % (pid, seed))
    hs = [mc.Hist(rng, multi.multi("%s/stateh/%s/%d" % (pid, seed, i)), True).run() for i in range(n)]
    for h in hs:
        h.ops = [["conf", "t", "check-state", "yes"] if o[0] == "conf" and o[2] == "check-state" else o for o in h.ops]

    def extra(acc, h, r):
        for si in sorted(h.expect):
            mon = r.ops[si]["mon"]
            count(acc, mon)
            w = mon_viol(mon)
            if w:
                return "state:" + w.split(":")[0], "operation %d: %s" % (si, w)
        return None
    mc.run_hists(acc, exe, hs, extra=extra)


# ---------------------------------------------------------------- C15
class Sols:
    """Solutions of a program as columns; evaluates recorded clauses."""

    def __init__(self, pr):
        self.n = len(pr.raw)
        self.obj = np.array([x[2] for x in pr.raw], dtype=np.int64)
        self.vals = {v: np.array([x[1][k] for x in pr.raw], dtype=np.int64) for k, v in enumerate(pr.ivars)}
        self.atoms = {a: np.array([a in x[0] for x in pr.raw], dtype=bool) for a in pr.atoms}
        self.cache = {"T": np.ones(self.n, dtype=bool), "F": np.zeros(self.n, dtype=bool), "?": None}

    def tok(self, t):
        if t in self.cache:
            return self.cache[t]
        if t[0] == "!":
            a = self.tok(t[1:])
            r = None if a is None else ~a
        elif t[:2] == "o:":
            n, v = t[2:].rsplit(":", 1)
            r = self.vals[n] <= int(v) if n in self.vals else None
        else:
            r = self.atoms.get(t[2:])
        self.cache[t] = r
        return r


def check_records(sols, recs, acc):
    """Returns the first record that is not implied by the program."""
    minim = []
    for rec in recs:
        kind = rec[0]
        if kind == "min":
            minim.append(rec)
            continue
        if kind == "wc":
            _, _, typ, bound, lit, *ws = rec
            cols = [sols.tok(t) for t in ws[1::2]]
            l = sols.tok(lit)
            if l is None or any(c is None for c in cols):
                acc.count("wcs_unknown")
                continue
            tot = np.zeros(sols.n, dtype=np.int64)
            for w, c in zip(ws[0::2], cols):
                tot = tot + w * c
            holds = tot >= bound
            acc.count("wcs")
            bad = (l & ~holds if typ >= 0 else False) | (holds & ~l if typ <= 0 else False)
            if np.any(bad):
                return "wc", rec, int(np.argmax(bad))
            continue
        bound, toks = rec[1], rec[2:]
        sat = np.zeros(sols.n, dtype=bool)
        unknown = False
        for t in toks:
            c = sols.tok(t)
            if c is None:
                unknown = True
            else:
                sat = sat | c
        if bound is not None:
            sat = sat | (sols.obj > bound)
        if unknown:
            acc.count("clauses_unknown")
            continue
        acc.count("clauses_" + kind)
        if not np.all(sat):
            return kind, rec, int(np.argmin(sat))
    if minim:
        tot = np.zeros(sols.n, dtype=np.int64)
        for _, _, w, p, t in minim:
            c = sols.tok(t)
            if c is None:
                acc.count("minimize_unknown")
                return None
            tot = tot + w * c
        acc.count("minimize")
        if np.any(tot != sols.obj):
            return "minimize", minim, int(np.argmax(tot != sols.obj))
    return None


PLAIN = {"plain": 1, "raw": 1, "nonground": 0.2, "integrity": 1.5, "show": 0, "maxsols": 600}


def clause_task(acc, pid, exe, seed, n, profile, threads):
    rng = random.Random("clause/%s/%s" % (pid, seed))
    jobs, info = [], {}
    for i in range(n):
        prof = dict(enum.PROFILES[profile], **PLAIN)
        if rng.random() < 0.3:
            prof["objective"] = 1
        pr = gen.program("%s/%s/%s/%d" % (pid, profile, seed, i), prof)
        conf = list(pr.conf.items()) + gen.clingcon_conf(rng)
        args = ["0"] + gen.clasp_args(rng, threads, True)
        ops = work.setup_ops(args, conf, pr.text) + [["record"], ["solve", "t", "c"]]
        jobs.append({"id": str(i), "ops": ops, "timeout": 30})
        info[str(i)] = (pr, args, conf, len(ops) - 1)
    for i in range(0, len(jobs), 40):
        part = jobs[i:i + 40]
        results = vlib.run_jobs(exe, part, nproc=1)
        for job in part:
            pr, args, conf, si = info[job["id"]]
            r = results[job["id"]]
            acc.evals += 1
            what = enum.describe(pr, args, conf)
            if not work.crash_check(acc, r, job, exe, what):
                continue
            bad = [d for d in r.ops.values() if not d["ok"]]
            if bad:
                acc.viol("error:" + bad[0]["err"], "unexpected error %s\n%s" % (bad[0], what), {"job": job, "variant": work.variant(exe)})
                continue
            mon = r.ops[si]["mon"]
            recs = mon["recs"]
            acc.count("dropped", mon["dropped"])
            v = None
            if mon["viols"] and mon["viols"][0].startswith("clause:"):
                v = ("clause", mon["viols"][0])
            before = dict(acc.counts)
            if v is None and pr.raw:
                c = check_records(Sols(pr), recs, acc)
                if c:
                    v = ("clause:" + c[0], "%s %s is violated by the solution %s" % (c[0], c[1], pr.raw[c[2]]))
            if v is None and not pr.has_obj:
                v = enum.compare(pr, r.models.get(si, []))
            if v:
                acc.viol(v[0], v[1] + "\n" + what, {"job": job, "variant": work.variant(exe)})
                continue
            if any(acc.counts.get(k, 0) > before.get(k, 0) for k in ("clauses_learnt", "clauses_static", "clauses_volatile", "wcs")):
                acc.seen(pr.text, pr.conf)
    acc.samples.append({"program": pr.text, "records": len(recs) if v is None else None, "clauses": recs[:3]})
