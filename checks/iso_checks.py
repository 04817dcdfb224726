"""Independence of theory objects and determinism of sequential runs (C19)."""
import random
import vlib, work, gen, multi
import multi_checks as mc

# position of theory and control names in operations
NAMES = {"new": (1,), "theory": (1,), "conf": (1,), "validate": (1,), "reg": (1, 2), "text": (1, 2), "dump": (1, 2), "raw": (1,), "ground": (1,),
         "prepare": (1, 2), "ext": (1,), "assume": (1,), "cfg": (1,), "cfgget": (1,), "solve": (1, 2), "stats": (1,), "lookup": (1,),
         "assign": (1,), "tatoms": (1,), "delc": (1,), "delt": (1,), "msgs": (1,)}


def rename(op, k):
    op = list(op)
    for i in NAMES.get(op[0], ()):
        op[i] = op[i] + str(k)
    return op


def clean_stats(x):
    """Statistics without times."""
    if isinstance(x, dict):
        return {k: clean_stats(v) for k, v in x.items() if "ime" not in k}
    if isinstance(x, list):
        return [clean_stats(v) for v in x]
    return x


def observed(r, ops):
    """Everything observed by the given operations (global indices): list of comparable records."""
    res = []
    for i in ops:
        d = r.ops.get(i)
        if d is None:
            res.append(("none",))
            continue
        d = {k: v for k, v in d.items() if k not in ("j", "o")}
        if "stats" in d:
            # Note: clasp's own times are part of the summary
            d["stats"] = clean_stats({k: d["stats"][k] for k in ("user_step", "user_accu")})
        models = [{k: m[k] for k in ("n", "p", "k", "c", "a", "v", "th")} for m in r.models.get(i, ())]
        res.append((d, models))
    return res


class Member:
    """A sequential script using one theory and control."""

    def __init__(self, r, seed, par=False):
        self.par = par
        self.hist = None
        if par or r.random() < 0.5:
            m = multi.multi(seed, nrounds=r.choice([1, 2, 2, 3]))
            h = mc.Hist(r, m, threads=par)
            if par and not h.par:
                self.par = False
            h.run()
            self.hist = h
            ops = []
            self.map = {}
            for i, op in enumerate(h.ops):
                self.map[i] = len(ops)
                ops.append(op)
                if op[0] == "solve" and r.random() < 0.5:
                    ops.append(["stats", "c"])
                    for x in m.rounds[h.expect[i][0]].ivars[:2]:
                        ops.append(["lookup", "t", x])
            self.text = m.text
            self.answers = sum(len(e[1]) for e in h.expect.values())
        else:
            pr = gen.program(seed, {"maxsols": 120, "syntax": 1} if r.random() < 0.7 else {"maxsols": 120, "objective": 1})
            conf = list(pr.conf.items()) + gen.clingcon_conf(r, r.random() < 0.3)
            args = ["0"] + gen.clasp_args(r, False, True)
            ops = work.setup_ops(args, conf, pr.text) + [["solve", "t", "c"], ["stats", "c"]]
            if r.random() < 0.3 and "--heuristic=vmtf" not in args and not any(a[-5:] == "handy" for a in args):
                # Note: see clasp's defects in DESIGN.md
                ops += [["solve", "t", "c"], ["stats", "c"]]
            ops += [["lookup", "t", x] for x in pr.ivars[:3]]
            self.text = pr.text
            self.answers = len(pr.sols)
        if r.random() < 0.8:
            ops += [["delc", "c"], ["delt", "t"]]
        self.ops = ops


def merge(r, members):
    """Random interleaving: operations and, for each member, the positions of its operations."""
    ops, pos = [], [[] for _ in members]
    nxt = [0] * len(members)
    cur = 0
    sticky = r.choice([0.0, 0.5, 0.9])
    while True:
        todo = [k for k, m in enumerate(members) if nxt[k] < len(m.ops)]
        if not todo:
            break
        if cur not in todo or r.random() >= sticky:
            cur = r.choice(todo)
        pos[cur].append(len(ops))
        ops.append(rename(members[cur].ops[nxt[cur]], cur))
        nxt[cur] += 1
    return ops, pos


def concurrent(r, members):
    """Members run in threads of their own; some are started only after others are finished."""
    ops, pos = [], []
    for k, m in enumerate(members):
        if k and r.random() < 0.15:
            ops.append(["join"])
        ops.append(["spawn"])
        pos.append([])
        for op in m.ops:
            pos[k].append(len(ops))
            ops.append(rename(op, k))
        ops.append(["endspawn"])
    ops.append(["join"])
    return ops, pos


def differ(a, b):
    """First difference of two observation lists."""
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            if len(x) == 2 and len(y) == 2 and x[0] == y[0]:
                for j, (m, n) in enumerate(zip(x[1], y[1])):
                    if m != n:
                        return i, "answer %d: %s / %s" % (j, m, n)
                return i, "%d / %d answers" % (len(x[1]), len(y[1]))
            return i, "%s / %s" % (x[0], y[0])
    return None


def iso_task(acc, pid, exe, seed, n, repeat=True):
    rng = random.Random("iso/%s/%s" % (pid, seed))
    groups, jobs = [], []
    for g in range(n):
        k = rng.choice([2, 2, 3, 3, 4])
        ms = [Member(rng, "%s/iso/%s/%d/%d" % (pid, seed, g, i), par=i == 0 and rng.random() < 0.3) for i in range(k)]
        plans = []
        if repeat:
            plans.append(("interleaved",) + merge(rng, ms))
        plans.append(("concurrent",) + concurrent(rng, ms))
        if not repeat:
            plans.append(("concurrent",) + concurrent(rng, ms))
        groups.append((ms, plans))
        for i, m in enumerate(ms):
            if not m.par:
                ops = [rename(o, i) for o in m.ops]
                jobs.append({"id": "%d.a%d" % (g, i), "ops": ops, "timeout": 20})
                if repeat:
                    jobs.append({"id": "%d.b%d" % (g, i), "ops": ops, "timeout": 20})
        for j, p in enumerate(plans):
            jobs.append({"id": "%d.p%d" % (g, j), "ops": p[1], "timeout": 30})
    results = vlib.run_jobs(exe, jobs, nproc=1)
    byid = {j["id"]: j for j in jobs}
    for g, (ms, plans) in enumerate(groups):
        base = {}
        good = True
        for i, m in enumerate(ms):
            if m.par:
                continue
            for x in ("a", "b") if repeat else ("a",):
                jid = "%d.%s%d" % (g, x, i)
                good = good and work.crash_check(acc, results[jid], byid[jid], exe, m.text)
            if not good:
                break
            base[i] = observed(results["%d.a%d" % (g, i)], range(len(m.ops)))
            acc.evals += 1
            if repeat:
                acc.count("repeated_runs")
                d = differ(base[i], observed(results["%d.b%d" % (g, i)], range(len(m.ops))))
                if d:
                    acc.viol("repeat:" + m.ops[d[0]][0], "repeating a run gives something else: operation %d (%s): %s\nprogram:\n%s\n%s" % (
                        d[0], " ".join(m.ops[d[0]]), d[1], m.text, m.ops), {"job": byid["%d.a%d" % (g, i)], "variant": work.variant(exe)})
                    good = False
        if not good:
            continue
        for j, (kind, ops, pos) in enumerate(plans):
            jid = "%d.p%d" % (g, j)
            r = results[jid]
            acc.evals += 1
            what = "%s members:\n%s" % (kind, "\n----\n".join(m.text for m in ms))
            if not work.crash_check(acc, r, byid[jid], exe, what):
                continue
            acc.count(kind)
            ok = True
            for i, m in enumerate(ms):
                if m.par:
                    v = judge_par(acc, m, r, pos[i])
                    if v:
                        acc.viol("par:" + v[0], v[1] + "\n" + what, {"job": byid[jid], "variant": work.variant(exe)})
                        ok = False
                    acc.count("parallel_members")
                    continue
                acc.count("members_compared")
                d = differ(base[i], observed(r, pos[i]))
                if d:
                    acc.viol("differs:%s:%s" % (kind, m.ops[d[0]][0]), "member %d alone/%s differs in operation %d (%s): %s\n%s" % (
                        i, kind, pos[i][d[0]], " ".join(ops[pos[i][d[0]]]), d[1], what), {"job": byid[jid], "variant": work.variant(exe)})
                    ok = False
                acc.count("models_compared", sum(len(x[1]) for x in base[i] if len(x) > 1))
            if ok and sum(m.answers > 1 for m in ms) >= 2:
                acc.seen(kind, ops)
        if len(acc.samples) < 1:
            acc.samples.append({"members": [m.text for m in ms], "kinds": [p[0] for p in plans]})


def judge_par(acc, m, r, pos):
    """A member with several threads is compared with the oracle."""
    for i, (rk, exp, judge) in sorted(m.hist.expect.items()):
        si = pos[m.map[i]]
        if si not in r.ops or not r.ops[si]["ok"]:
            return "error", "operation %d: %s" % (si, r.ops.get(si))
        v = mc.judge_solve(m.hist.m.rounds[rk], exp, r.models.get(si, []), r.ops[si], judge, acc)
        if v:
            return v[0], "operation %d: %s" % (si, v[1])
    return None
