"""Programming interface: assignments, symbols and shown terms (C16), statistics (C18), interrupted solving (C21), independence (C19)."""
import random, collections, math
import vlib, work, gen, multi
import multi_checks as mc
import enum_checks as enum


# ---------------------------------------------------------------- C16
def check_terms(names, shown, m):
    """Compares assignment and theory terms of a model; returns text or None."""
    vals = {}
    for x in m["v"][0]:
        if x[0] in vals:
            return "variable %s visited twice" % x[0]
        vals[x[0]] = x[1]
        if x[2] != 1 or x[3] != 1:
            return "bad type or lookup of %s" % (x,)
    if set(vals) != set(names):
        return "variables %s visited, expected %s" % (sorted(vals), sorted(names))
    exp = sorted("__csp(%s,%d)" % (n, v) for n, v in vals.items() if shown is None or n in shown)
    got = sorted(t for t in m["th"] if not t.startswith("__csp_cost("))
    if exp != got:
        return "theory terms %s, expected %s" % (got, exp)
    return None


UNKNOWN = ["nosuch", "x(1)", "f", "f(7)", "1", '"x"', "(1,2,3)", "-x", "v(9)", "#sup"]


def lookup_ops(r, names, later=()):
    ops, exp = [], []
    for n in r.sample(names, len(names)):
        ops.append(["lookup", "t", n])
        exp.append((n, True))
    for n in r.sample(UNKNOWN, 3) + list(later):
        if n not in names:
            ops.append(["lookup", "t", n])
            exp.append((n, False))
    return ops, exp


def check_lookups(r, start, exp, known, sat=True):
    """known: {name: idx} of earlier lookups (updated). If unsatisfiable, clingo might not have initialized propagators."""
    for k, (n, found) in enumerate(exp):
        d = r.ops[start + k]
        if not sat and n not in known and found:
            found = bool(d["found"])
        if bool(d["found"]) != found:
            return "lookup of %s: found=%s, expected %s" % (n, d["found"], found)
        if found:
            if d["sym"] != n:
                return "symbol of index of %s is %s" % (n, d["sym"])
            if known.get(n, d["idx"]) != d["idx"]:
                return "index of %s changed from %d to %d" % (n, known[n], d["idx"])
            known[n] = d["idx"]
    if len(set(known.values())) != len(known):
        return "index shared by several variables: %s" % known
    return None


def show_task(acc, pid, exe, seed, n):
    rng = random.Random("show/%s/%s" % (pid, seed))
    jobs, info = [], {}
    for i in range(n):
        prof = {"show": 0.75, "weird": 0.8, "nonground": 2, "maxsols": 150}
        if rng.random() < 0.25:
            prof["objective"] = 1
        pr = gen.program("%s/show/%s/%d" % (pid, seed, i), prof)
        conf = list(pr.conf.items()) + gen.clingcon_conf(rng, True)
        args = ["0"] + (gen.clasp_args(rng, True, True) if rng.random() < 0.7 else [])
        ops = work.setup_ops(args, conf, pr.text)
        l1, e1 = lookup_ops(rng, pr.ivars)
        pre = len(ops)
        ops += l1
        ops.append(["solve", "t", "c"] + (["delay=%d" % rng.choice([50, 500])] if rng.random() < 0.1 else []))
        si = len(ops) - 1
        l2, e2 = lookup_ops(rng, pr.ivars)
        # the theory accepts variables of the program only after init
        ops += l2
        jobs.append({"id": str(i), "ops": ops, "timeout": 20})
        info[str(i)] = (pr, args, conf, pre, e1, si, e2)
    for i in range(0, len(jobs), 40):
        part = jobs[i:i + 40]
        results = vlib.run_jobs(exe, part, nproc=1)
        for job in part:
            pr, args, conf, pre, e1, si, e2 = info[job["id"]]
            r = results[job["id"]]
            acc.evals += 1
            what = enum.describe(pr, args, conf)
            if not work.crash_check(acc, r, job, exe, what):
                continue
            bad = [d for d in r.ops.values() if not d["ok"]]
            models = r.models.get(si, [])
            v = None
            if bad:
                v = "unexpected error %s" % bad[0]
            if v is None:
                # before the first solve call no variable is known
                v = check_lookups(r, pre, [(a, False) for a, _ in e1], {})
            if v is None:
                for m in models:
                    v = check_terms(pr.ivars, pr.shown, m)
                    acc.count("terms", len(m["th"]))
                    if v:
                        v += " in %s" % m
                        break
            if v is None and not pr.has_obj:
                c = enum.compare(pr, models)
                v = c and c[1]
            if v is None:
                v = check_lookups(r, si + 1, e2, {}, bool(models))
                acc.count("lookups", len(e2))
            acc.count("models", len(models))
            if v:
                acc.viol("api:" + v.split(" ")[0], v + "\n" + what, {"job": job, "variant": work.variant(exe)})
                continue
            if models and pr.shown is not None and 0 < len(pr.shown) < len(pr.ivars):
                acc.seen(pr.text, pr.conf)
            acc.count("shown_" + ("all" if pr.shown is None else "none" if not pr.shown else "some"))
    acc.samples.append({"program": pr.text, "shown": sorted(pr.shown) if pr.shown is not None else "all"})


def show_hist_task(acc, pid, exe, seed, n):
    rng = random.Random("showh/%s/%s" % (pid, seed))
    hs = []
    for i in range(n):
        m = multi.multi("%s/showh/%s/%d" % (pid, seed, i), {"show": 0.4})
        h = mc.Hist(rng, m, True)
        h.lookups = []
        for k in range(len(m.rounds)):
            h.ground(k)
            h.solve(k)
            names = m.rounds[k].ivars
            later = [x for x in m.rounds[-1].ivars if x not in names]
            ops, exp = lookup_ops(rng, names, later)
            h.lookups.append((len(h.ops), exp))
            h.ops += ops
        hs.append(h)

    def extra(acc, h, r):
        known = {}
        for si, (k, _, _) in sorted(h.expect.items()):
            rd = h.m.rounds[k]
            for m in r.models.get(si, []):
                v = check_terms(rd.ivars, rd.shown, m)
                acc.count("terms", len(m["th"]))
                if v:
                    return "terms", "round %d: %s in %s" % (k, v, m)
        for k, (start, exp) in enumerate(h.lookups):
            # variables are added when their statements are initialized, i.e., by the solve call of their round
            v = check_lookups(r, start, exp, known, any(r.models.get(si) for si, e in h.expect.items() if e[0] == k))
            acc.count("lookups", len(exp))
            if v:
                return "lookup", "round %d: %s" % (k, v)
        return None
    mc.run_hists(acc, exe, hs, extra=extra)
