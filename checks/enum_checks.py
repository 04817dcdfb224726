"""Enumeration checks: reported answers against the independent oracle (C01, C02, C03, C05, C07 - C11)."""
import random, time, collections, re
import numpy as np
import vlib, work, gen

PROFILES = {
    "base": {},
    "distinct": {"distinct": 6, "sum": 3, "diff": 1, "nsum": 0.2, "disjoint": 0.2, "force": ["distinct"], "ints": (2, 4)},
    "disjoint": {"disjoint": 6, "sum": 3, "diff": 1, "nsum": 0.2, "distinct": 0.3, "force": ["disjoint"], "ints": (2, 4),
                 "width": (3, 8)},
    "nsum": {"nsum": 6, "sum": 2, "diff": 1, "distinct": 0.3, "disjoint": 0.3, "ints": (1, 4), "force": ["nsum_head"]},
    "dom": {"dom": 6, "sum": 3, "diff": 1, "nsum": 0.3, "force": ["dom"], "width": (2, 12)},
    "syntax": {"nonground": 5, "rhsvars": 0.5, "weird": 0.8, "integrity": 6, "rule": 3},
    "objective": {"objective": 1},
    "wide": {"width": (5, 40), "ints": (1, 3), "maxcombos": 200000},
    "par": {"ints": (3, 6), "width": (3, 6), "choices": (1, 5), "stmts": (3, 9), "maxcombos": 100000, "maxsols": 1500},
    "many": {"ints": (4, 6), "width": (2, 3), "choices": (0, 4), "stmts": (4, 12), "maxcombos": 200000},
}


def s_nsum_head(self):
    if self.r.random() < 0.5:
        self.s_head("nsum")
    else:
        a = self.name("b")
        t, f = self.tatom(True, "nsum")
        neg = self.r.random() < 0.4
        self.lines.append("%s :- %s%s." % (a, "not " if neg else "", t))

        def sem(e):
            e.B[a] = ~f(e) if neg else f(e)
        self.sem.append(sem)
        self.derived.append(a)


gen.G.s_nsum_head = s_nsum_head


def compare(prog, models):
    """Compares enumerated models with the oracle; returns (kind, text) or None."""
    keys = []
    for m in models:
        if not m["v"] or len(m["v"][0]) != len(prog.ivars):
            return "variables", "model reports %s, expected variables %s" % (m["v"], prog.ivars)
        for x in m["v"][0]:
            if x[2] != 1 or x[3] != 1:
                return "lookup", "symbol lookup of %s is not inverse" % (x,)
        keys.append(prog.key(m))
    got = collections.Counter(keys)
    extra = [k for k in got if k not in prog.sols]
    if extra:
        return "wrong", "%d wrong answers, e.g. %s" % (len(extra), extra[0])
    dup = [k for k in got if got[k] > 1]
    if dup:
        return "duplicate", "%d answers reported more than once, e.g. %s (%d times)" % (len(dup), dup[0], got[dup[0]])
    lost = [k for k in prog.sols if k not in got]
    if lost:
        return "lost", "%d of %d answers lost, e.g. %s" % (len(lost), len(prog.sols), lost[0])
    return None


def describe(prog, args, conf):
    return "program:\n%s\narguments: %s\nconfiguration: %s" % (prog.text, args, conf)


def enum_task(acc, pid, exe, seed, n, nconf, profile, threads, light):
    """n programs, each enumerated under nconf configurations."""
    rng = random.Random("enum/%s/%s" % (pid, seed))
    jobs, info = [], {}
    progs = []
    for i in range(n):
        prof = dict(PROFILES[profile])
        if rng.random() < 0.3:
            prof.update({"maxsols": 60})
        pr = gen.program("%s/%s/%s/%d" % (pid, profile, seed, i), prof)
        progs.append(pr)
        for k in range(nconf):
            conf = list(pr.conf.items()) + ([] if k == 0 and rng.random() < 0.5 else gen.clingcon_conf(rng, light))
            args = ["0"] + ([] if k == 0 and rng.random() < 0.5 else gen.clasp_args(rng, threads))
            ops = work.setup_ops(args, conf, pr.text) + [["solve", "t", "c"]]
            jid = "%d.%d" % (i, k)
            jobs.append({"id": jid, "ops": ops, "timeout": 20})
            info[jid] = (pr, args, conf, len(ops) - 1)
    for i in range(0, len(jobs), 40):
        part = jobs[i:i + 40]
        results = vlib.run_jobs(exe, part, nproc=1)
        for job in part:
            pr, args, conf, si = info[job["id"]]
            r = results[job["id"]]
            acc.evals += 1
            what = describe(pr, args, conf)
            if not work.crash_check(acc, r, job, exe, what):
                continue
            bad = [d for d in r.ops.values() if not d["ok"]]
            if bad:
                acc.viol("error:%s:%s" % (bad[0]["op"], bad[0]["err"]), "unexpected error %s\n%s" % (bad[0], what),
                         {"job": job, "variant": work.variant(exe)})
                continue
            models = r.models.get(si, [])
            d = r.ops[si]
            v = compare(pr, models)
            if v is None:
                if (d["res"] & 3) != (1 if pr.sols else 2) or not (d["res"] & 4):
                    v = ("result", "result %d does not match %d answers" % (d["res"], len(pr.sols)))
                elif d["fin"] != 1:
                    v = ("finish", "finish event reported %d times" % d["fin"])
            acc.count("models", len(models))
            acc.count("unsat" if not pr.sols else "sat")
            if v:
                acc.viol("enum:" + v[0], v[1] + "\n" + what,
                         {"job": job, "variant": work.variant(exe), "expected": sorted(pr.sols)[:50], "got": len(models)})
                continue
            if len(pr.sols) > 0 and pr.combos > len(pr.sols):
                acc.seen(pr.text, pr.conf)
            for f in pr.features:
                acc.count("feature_" + f)
            if any(a.startswith("--parallel-mode") for a in args):
                acc.count("parallel_jobs")
    if progs and len(acc.samples) < 1:
        acc.samples.append({"program": progs[0].text, "answers": len(progs[0].sols)})


def point_check(pr_g, models):
    """Evaluates the meaning of a program at reported models only (for programs with huge solution spaces)."""
    g = pr_g
    e = gen.Env([], [])
    e.n = 1
    m = len(models)
    vals = {}
    for j, mod in enumerate(models):
        d = {x[0]: x[1] for x in mod["v"][0]}
        if set(d) != {v.name for v in g.ivars} or len(mod["v"][0]) != len(g.ivars):
            return "variables", "model %s does not assign exactly the variables %s" % (mod["v"][0], [v.name for v in g.ivars])
        for v in g.ivars:
            vals.setdefault(v.name, []).append(d[v.name])
    for v in g.ivars:
        a = np.array(vals[v.name], dtype=np.int64)
        e.I[v.name] = a
        if ((a < v.lo) | (a > v.hi)).any():
            return "domain", "value of %s outside of its domain [%d,%d]: %s" % (v.name, v.lo, v.hi, a.tolist()[:5])
    sets = [set(mod["a"]) for mod in models]
    for c in g.choices:
        e.B[c] = np.array([c in s for s in sets])
    e.mask = np.ones([1], dtype=bool)
    # statements one by one to be able to say which one failed
    for s in g.sem:
        s(e)
        if not np.all(e.mask):
            j = int(np.argmin(np.broadcast_to(e.mask, (m,))))
            return "constraint", "answer %s violates the program" % (models[j],)
    for d in g.derived:
        arr = np.broadcast_to(e.B[d], (m,))
        for j in range(m):
            if bool(arr[j]) != (d in sets[j]):
                return "derived", "atom %s is %s but should be %s in %s" % (d, d in sets[j], bool(arr[j]), models[j])
    keys = {(frozenset(s), tuple(x[1] for x in sorted(mod["v"][0]))) for s, mod in zip(sets, models)}
    if len(keys) != m:
        return "duplicate", "answers reported twice"
    return None


SOUND = [
    {"width": (20, 2000), "ints": (2, 8), "choices": (0, 6), "stmts": (4, 14), "free": 0.4, "nonground": 1.0},
    {"width": (1000, 1000000), "ints": (1, 6), "choices": (0, 5), "stmts": (3, 10), "free": 0.4},
    {"width": (2, 12), "ints": (3, 10), "choices": (2, 8), "stmts": (6, 22), "free": 0.5},
]


def sound_task(acc, pid, exe, seed, n, limit):
    rng = random.Random("sound/%s/%s" % (pid, seed))
    jobs, info = [], {}
    for i in range(n):
        prof = dict(rng.choice(SOUND))
        g = gen.G(random.Random("%s/%s/%d" % (pid, seed, i)), prof).build()
        conf = list(g.conf.items()) + (gen.clingcon_conf(rng) if rng.random() < 0.8 else [])
        args = [str(limit)] + (gen.clasp_args(rng, True) if rng.random() < 0.7 else [])
        ops = work.setup_ops(args, conf, "\n".join(g.lines)) + [["solve", "t", "c", "nostats"]]
        jid = str(i)
        jobs.append({"id": jid, "ops": ops, "timeout": 3})
        info[jid] = (g, args, conf, len(ops) - 1)
    for i in range(0, len(jobs), 40):
        part = jobs[i:i + 40]
        results = vlib.run_jobs(exe, part, nproc=1, retry_timeouts=False)
        for job in part:
            g, args, conf, si = info[job["id"]]
            r = results[job["id"]]
            acc.evals += 1
            what = "program:\n%s\narguments: %s\nconfiguration: %s" % ("\n".join(g.lines), args, conf)
            models = r.models.get(si, [])
            if r.timeout:
                acc.count("timeouts")  # hard search problems; answers found so far are still checked
            elif not work.crash_check(acc, r, job, exe, what):
                continue
            bad = [d for d in r.ops.values() if not d["ok"]]
            if bad:
                if any(x in bad[0]["err"] for x in ("overflow", "underflow", "too large", "too small", "safe cast")):
                    acc.count("rejected_as_too_large")
                    continue
                acc.viol("error:%s:%s" % (bad[0]["op"], bad[0]["err"]), "unexpected error %s\n%s" % (bad[0], what),
                         {"job": job, "variant": work.variant(exe)})
                continue
            acc.count("models", len(models))
            if models:
                v = point_check(g, models)
                if v:
                    acc.viol("sound:" + v[0], v[1] + "\n" + what, {"job": job, "variant": work.variant(exe)})
                    continue
                acc.seen(*g.lines)
            else:
                acc.count("no_models")
    acc.samples.append({"program": "\n".join(g.lines), "models": len(models)})


# ---------------------------------------------------------------- optimization
def opt_task(acc, pid, exe, seed, n, nconf):
    rng = random.Random("opt/%s/%s" % (pid, seed))
    jobs, info = [], {}
    for i in range(n):
        prof = dict(PROFILES["objective"], maxsols=20000, maxcombos=60000)
        if rng.random() < 0.3:
            prof.update(PROFILES["wide"])
            prof["objective"] = 1
        pr = gen.program("%s/opt/%s/%d" % (pid, seed, i), prof)
        for k in range(nconf):
            conf = list(pr.conf.items()) + ([] if rng.random() < 0.2 else gen.clingcon_conf(rng))
            translated = None
            cd = dict(conf)
            if rng.random() < 0.4:
                conf = [x for x in conf if x[0] != "translate-opt"] + [("translate-opt", rng.choice(["0", "max", "100000"]))]
                cd = dict(conf)
            optn = cd.get("translate-opt") in ("max", "100000") and rng.random() < 0.6
            if rng.random() < 0.1 and not optn:
                args = []  # default number of models: prepare() has to request all
            else:
                args = ["0"]
            args += gen.clasp_args(rng, True, True)
            if optn:
                # Note: clasp sporadically stops early with optN in split mode
                args = [a.replace(",split", ",compete") for a in args] + ["--opt-mode=optN"]
            ops = work.setup_ops(args, conf, pr.text) + [["solve", "t", "c"], ["stats", "c"]]
            jid = "%d.%d" % (i, k)
            jobs.append({"id": jid, "ops": ops, "timeout": 20})
            info[jid] = (pr, args, conf, len(ops) - 2, optn)
    for i in range(0, len(jobs), 40):
        part = jobs[i:i + 40]
        results = vlib.run_jobs(exe, part, nproc=1)
        for job in part:
            pr, args, conf, si, optn = info[job["id"]]
            r = results[job["id"]]
            acc.evals += 1
            what = describe(pr, args, conf)
            if not work.crash_check(acc, r, job, exe, what):
                continue
            bad = [d for d in r.ops.values() if not d["ok"]]
            if bad:
                acc.viol("error:%s:%s" % (bad[0]["op"], bad[0]["err"]), "unexpected error %s\n%s" % (bad[0], what),
                         {"job": job, "variant": work.variant(exe)})
                continue
            models = r.models.get(si, [])
            st = r.ops[si + 1].get("stats")
            v = judge_opt(pr, models, r.ops[si], optn, st, acc)
            acc.count("models", len(models))
            if v:
                acc.viol("opt:" + v[0], v[1] + "\n" + what, {"job": job, "variant": work.variant(exe),
                                                           "optimum": min(pr.sols.values()) if pr.sols else None})
            elif len(set(pr.sols.values())) > 1:
                acc.seen(pr.text, pr.conf)
    acc.samples.append({"program": pr.text, "optimum": min(pr.sols.values()) if pr.sols else None})


def theory_cost(m):
    for s in m["th"]:
        if s.startswith("__csp_cost("):
            return int(s[len("__csp_cost("):-1].strip('"'))
    return None


def judge_opt(pr, models, d, optn, stats, acc):
    if not (d["res"] & 4):
        return "notexhausted", "search was not exhausted: %s" % d
    if (d["res"] & 3) != (1 if pr.sols else 2):
        return "result", "result %s but %d solutions" % (d["res"], len(pr.sols))
    if not pr.sols:
        return ("answers", "answers for an unsatisfiable program") if models else None
    best = min(pr.sols.values())
    costs = []
    keys = []
    native = True
    for m in models:
        if len(m["v"][0]) != len(pr.ivars):
            return "variables", "wrong variables in %s" % m
        k = pr.key(m)
        if k not in pr.sols:
            return "wrong", "wrong answer %s" % k
        c = theory_cost(m)
        if m["c"]:
            native = False
            if len(m["c"]) != 1:
                return "costs", "unexpected costs %s" % m["c"]
        if c is None and not m["c"]:
            return "nocost", "no cost reported in %s" % m
        if c is not None and c != pr.sols[k]:
            return "cost", "reported theory cost %s of answer %s should be %s" % (c, k, pr.sols[k])
        costs.append(pr.sols[k])
        keys.append((k, m["p"], m["c"]))
    acc.count("native" if native else "translated")
    if not models:
        return "lost", "no answers but optimum is %d" % best
    if native:
        if any(a <= b for a, b in zip(costs, costs[1:])):
            return "improve", "costs do not improve strictly: %s" % costs
        if costs[-1] != best:
            return "optimum", "last answer has cost %d but the optimum is %d" % (costs[-1], best)
        if stats is not None:
            try:
                c = stats["user_step"]["Clingcon"]["Cost"]
            except (KeyError, TypeError):
                c = None
            acc.count("stat_cost" if c is not None else "no_stat_cost")
            if c is not None and c != best:
                return "statcost", "cost %s in the statistics should be %s" % (c, best)
        return None
    # translated to a clasp objective: clasp reports costs; they differ from the objective by a constant at most
    # Note: clasp itself wraps costs that do not fit into 32 bits when reporting them
    offs = {(x[2][0] - pr.sols[x[0]]) % 2 ** 32 for x in keys}
    if len(offs) != 1:
        return "clasp-cost", "costs reported by clasp are inconsistent with the objective: %s" % sorted(offs)
    if min(costs) != best or not any(x[1] for x in keys) and optn:
        return "optimum", "best cost %d but the optimum is %d (or not proven)" % (min(costs), best)
    if not optn:
        if any(a <= b for a, b in zip(costs, costs[1:])):
            return "improve", "costs do not improve strictly: %s" % costs
        if costs[-1] != best:
            return "optimum", "last answer has cost %d but the optimum is %d" % (costs[-1], best)
        return None
    opt = sorted(x[0] for x in keys if x[1])
    exp = sorted(k for k, c in pr.sols.items() if c == best)
    if opt != exp:
        return "optN", "optimal answers %s, expected %s" % (opt[:5], exp[:5])
    return None


def mode_task(acc, pid, exe, seed, n, nconf, threads):
    """Reasoning modes: backtracking enumeration, brave and cautious consequences, projection on atoms."""
    rng = random.Random("mode/%s/%s" % (pid, seed))
    jobs, info = [], {}
    for i in range(n):
        prof = dict(PROFILES[rng.choice(["base", "dense"]) if "dense" in PROFILES else "base"])
        prof["maxsols"] = 60
        pr = gen.program("%s/mode/%s/%d" % (pid, seed, i), prof)
        sets = [frozenset(x for x in s.split("|")[0].split() if x) for s in pr.sols]
        names = sorted(set().union(*sets)) if sets else []
        for k in range(nconf):
            conf = list(pr.conf.items()) + gen.clingcon_conf(rng, True)
            args = gen.clasp_args(rng, threads)
            # Note: clasp records solutions (enum-mode record) over atoms only and cannot tell apart assignments.
            mode = rng.choice(["bt", "brave", "cautious", "project", "project"])
            text = pr.text
            if mode in ("brave", "cautious"):
                args = ["0", "--enum-mode=" + mode] + args
            elif mode == "project":
                on = [x for x in names if rng.random() < 0.6]
                text += "".join("\n#project %s." % x for x in on)
                args = ["0", "--project=" + rng.choice(["project", "auto"]) if on else "--project=project"] + args
                if not on:
                    text += "\n#project none.\n#external none."
            else:
                args = ["0", "--enum-mode=" + mode] + args
            ops = work.setup_ops(args, conf, text) + [["solve", "t", "c"]]
            jid = "%d.%d" % (i, k)
            jobs.append({"id": jid, "ops": ops, "timeout": 20})
            info[jid] = (pr, args, conf, len(ops) - 1, mode, on if mode == "project" else None, sets)
    for i in range(0, len(jobs), 40):
        part = jobs[i:i + 40]
        results = vlib.run_jobs(exe, part, nproc=1)
        for job in part:
            pr, args, conf, si, mode, on, sets = info[job["id"]]
            r = results[job["id"]]
            acc.evals += 1
            what = describe(pr, args, conf)
            if not work.crash_check(acc, r, job, exe, what):
                continue
            bad = [d for d in r.ops.values() if not d["ok"]]
            if bad:
                acc.viol("error:%s:%s" % (bad[0]["op"], bad[0]["err"]), "unexpected error %s\n%s" % (bad[0], what),
                         {"job": job, "variant": work.variant(exe)})
                continue
            models, d, v = r.models.get(si, []), r.ops[si], None
            if (d["res"] & 3) != (1 if sets else 2) or not (d["res"] & 4):
                v = ("result", "result %d does not match %d answers" % (d["res"], len(sets)))
            elif mode == "bt":
                v = compare(pr, models)
            elif mode == "project":
                got = sorted(sorted(set(m["a"]) & set(on)) for m in models)
                exp = sorted(map(sorted, {s & frozenset(on) for s in sets}))
                if got != exp:
                    v = ("project", "projection on %s: %d of %d projected answers, e.g. %s" % (on, len(got), len(exp), [x for x in got if got.count(x) > 1 or x not in exp][:2] or [x for x in exp if x not in got][:2]))
            elif sets:
                exp = frozenset.union(*sets) if mode == "brave" else frozenset.intersection(*sets)
                got = frozenset(models[-1]["a"]) & set(pr.atoms) if models else None
                if got != exp:
                    v = (mode, "%s consequences are %s instead of %s" % (mode, sorted(got or []), sorted(exp)))
            if v:
                acc.viol("mode:" + v[0], v[1] + "\n" + what, {"job": job, "variant": work.variant(exe)})
                continue
            acc.count("mode_" + mode)
            if len(set(sets)) > 1:
                acc.seen(pr.text, mode)


def derivations(pr):
    """Atoms derived by exactly one rule without variables: atom, body."""
    heads, res = collections.Counter(), []
    for line in pr.text.split("\n"):
        for m in re.finditer(r"(?<![\w'])(\w+)(?= *($|\.|,|;|}))", line.split(":-")[0]):
            heads[m.group(1)] += 1
        m = re.fullmatch(r"(\w+) :- ([^%\"]*)\.\s*", line)
        if m and m.group(1) in pr.atoms and "&" in m.group(2) and not re.search(r"(?<![\w'])_*[A-Z]", re.sub(r"\{[^}]*\}", "", m.group(2))) and ". " not in m.group(2):
            res.append((m.group(1), m.group(2)))
    return [x for x in res if heads[x[0]] == 1]


def place(r, n, atom, body, exp, text):
    """Adds a statement with the body that defines an atom; returns what it does to (atoms, assignment, terms, cost)."""
    z = "zz%d" % n
    k = r.randrange(13)

    def on(e):
        return atom in e[0]

    def plus(e, *atoms):
        return (e[0] | set(atoms),) + e[1:]
    if k == 0:
        # only one of the edges can be used
        # Note: clasp crashes if an edge alone makes the program unsatisfiable
        text.append("#edge (%s,%sx) : %s.\n{ %s }.\n#edge (%sx,%s) : %s." % (z, z, body, z, z, z, z))
        return [x for e in exp for x in ([e] if on(e) else [e, plus(e, z)])]
    if k == 1:
        text.append("{ %s } :- %s." % (z, body))
        return [x for e in exp for x in ([e, plus(e, z)] if on(e) else [e])]
    if k == 2:
        text.append("%sa; %sb :- %s." % (z, z, body))
        return [x for e in exp for x in ([plus(e, z + "a"), plus(e, z + "b")] if on(e) else [e])]
    if k == 3:
        text.append("%s(X) : X=1..2 :- %s." % (z, body))
        return [x for e in exp for x in ([plus(e, z + "(1)"), plus(e, z + "(2)")] if on(e) else [e])]
    if k == 4:
        text.append(r.choice(["{ %s } = 1 :- %s.", "%s : #true :- %s.", "1 #count { 0,zs : %s } :- %s.", "%s :- %s, not #false.", "%s :- 1 <= 1, %s.", "%s; #false :- %s."]) % (z, body))
        return [plus(e, z) if on(e) else e for e in exp]
    if k == 5:
        text.append(r.choice(["%s(1;2) :- %s.", "%s(1..2) :- %s.", "%s(X) :- %s, X=(1;2)."]) % (z, body))
        return [plus(e, z + "(1)", z + "(2)") if on(e) else e for e in exp]
    if k == 6:
        text.append("#show %s : %s." % (z, body))
        return [(e[0], e[1], e[2] | {z}, e[3]) if on(e) else e for e in exp]
    if k == 7:
        text.append("#show %s(1;2) : %s." % (z, body))
        return [(e[0], e[1], e[2] | {z + "(1)", z + "(2)"}, e[3]) if on(e) else e for e in exp]
    if k == 8:
        w = r.randint(-5, 9)
        text.append(":~ %s. [%d@0,%s]" % (body, w, z))
        return [(e[0], e[1], e[2], e[3] + w) if on(e) else e for e in exp]
    if k == 9:
        text.append("#heuristic %s : %s. [%d,%s]" % (r.choice([atom, "zz"]), body, r.randint(-3, 3), r.choice(["true", "false", "sign", "level", "factor", "init"])))
        return exp
    if k == 10:
        # an external keeps its value, no matter if its body holds
        text.append("#external %s : %s. [false]" % (z, body))
        text.append("%sx :- %s." % (z, z))
        return exp
    if k == 11:
        text.append(r.choice([":- %s, not %s." % (body, atom), ":- %s, %s, not %s." % (atom, body, atom), ":- not %s, %s." % (atom, body), "not not %s :- %s." % (atom, body)]))
        return exp
    text.append("%s :- 1 { %s; zy } 1, %s.\n#external zy." % (z, atom, body))
    return [plus(e, z) if on(e) else e for e in exp]


def place_task(acc, pid, exe, seed, n, nconf, threads):
    """Theory atoms in bodies of all kinds of statements."""
    rng = random.Random("place/%s/%s" % (pid, seed))
    jobs, info = [], {}
    i = 0
    while i < n:
        pr = gen.program("%s/place/%s/%d" % (pid, seed, rng.randrange(1 << 40)), dict(PROFILES["base"], maxsols=150, rule=5))
        ds = derivations(pr)
        if not ds:
            continue
        i += 1
        text = [pr.text]
        exp = [(frozenset(s.split("|")[0].split()), s.split("|")[1], frozenset(), 0) for s in pr.sols]
        for k in range(rng.randint(1, 4)):
            e = place(rng, k, *rng.choice(ds), exp, text)
            if len(e) < 600:
                exp = e
            else:
                text.pop()
        text = "\n".join(text)
        exp = collections.Counter((" ".join(sorted(e[0])), e[1], " ".join(sorted(e[2])), e[3]) for e in exp)
        for k in range(nconf):
            conf = list(pr.conf.items()) + gen.clingcon_conf(rng, k > 0)
            args = ["0", "--opt-mode=enum"] + gen.clasp_args(rng, threads)
            if rng.random() < 0.2:
                args = [a for a in args if not a.startswith("--heuristic")] + ["--heuristic=domain"]
            ops = work.setup_ops(args, conf, text) + [["solve", "t", "c"]]
            jid = "%d.%d" % (i, k)
            jobs.append({"id": jid, "ops": ops, "timeout": 20})
            info[jid] = (pr.atoms, text, exp, "program:\n%s\narguments: %s\nconfiguration: %s" % (text, args, conf), len(ops) - 1)
    for i in range(0, len(jobs), 40):
        part = jobs[i:i + 40]
        results = vlib.run_jobs(exe, part, nproc=1)
        for job in part:
            names, text, exp, what, si = info[job["id"]]
            r = results[job["id"]]
            acc.evals += 1
            if not work.crash_check(acc, r, job, exe, what):
                continue
            bad = [d for d in r.ops.values() if not d["ok"]]
            d, v = r.ops.get(si), None
            if bad:
                v = "error:%s:%s" % (bad[0]["op"], bad[0]["err"]), "unexpected error %s" % bad[0]
            else:
                got = collections.Counter((" ".join(sorted(a for a in m["a"] if a in names or a.startswith("zz"))), " ".join(sorted("%s=%d" % (x[0], x[1]) for x in m["v"][0])), " ".join(sorted(m["s"])), m["c"][0] if m["c"] else 0)
                                          for m in r.models.get(si, []))
                if got != exp:
                    v = "place", "%d answers expected, %d reported; missing %s, superfluous %s" % (sum(exp.values()), sum(got.values()), list((exp - got).items())[:2], list((got - exp).items())[:2])
                elif (d["res"] & 3) != (1 if exp else 2) or not (d["res"] & 4):
                    v = "result", "result %d does not match %d answers" % (d["res"], len(exp))
            if v:
                acc.viol("place:" + v[0], v[1] + "\n" + what, {"job": job, "variant": work.variant(exe)})
                continue
            acc.count("placed")
            if len(exp) > 1:
                acc.seen(text)


def asp_opt_task(acc, pid, exe, seed, n, nconf, threads):
    """Objectives over atoms (weak constraints with priorities), alone or together with a translated theory objective of lower priority."""
    rng = random.Random("aspopt/%s/%s" % (pid, seed))
    jobs, info = [], {}
    for i in range(n):
        both = rng.random() < 0.4
        pr = gen.program("%s/aspopt/%s/%d" % (pid, seed, i), dict(PROFILES["objective" if both else "base"], maxsols=400 if both else 120))
        prios = rng.sample([1, 2, 3] if both else [-1, 0, 1, 2], rng.randint(1, 2))
        ws, text = [], pr.text
        for a in pr.atoms:
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                w, p, neg = rng.randint(-4, 6), rng.choice(prios), rng.random() < 0.3
                ws.append((w, p, a, neg))
                lit = ("not " if neg else "") + a
                if rng.random() < 0.7:
                    text += "\n#minimize { %d@%d,%d : %s }." % (w, p, len(ws), lit)
                else:
                    text += "\n:~ %s. [%d@%d,%d]" % (lit, w, p, len(ws))
        used = sorted({p for _, p, _, _ in ws}, reverse=True)
        if not used:
            continue
        cost = {}
        for s, c in pr.sols.items():
            on = set(s.split("|")[0].split())
            vec = [sum(w for w, q, a, neg in ws if q == p and (a in on) != neg) for p in used]
            cost[s] = tuple(vec + ([c] if both else []))
        for k in range(nconf):
            conf = [x for x in list(pr.conf.items()) + gen.clingcon_conf(rng) if x[0] != "translate-opt"] + [("translate-opt", "max")]
            optn = rng.random() < 0.5
            args = ["0"] + gen.clasp_args(rng, threads, True)
            if optn:
                # Note: clasp sporadically stops early with optN in split mode
                args = [a.replace(",split", ",compete") for a in args] + ["--opt-mode=optN"]
            ops = work.setup_ops(args, conf, text) + [["solve", "t", "c"]]
            jid = "%d.%d" % (i, k)
            jobs.append({"id": jid, "ops": ops, "timeout": 20})
            info[jid] = (pr, text, args, conf, len(ops) - 1, optn, cost, both, len(used))
    for i in range(0, len(jobs), 40):
        part = jobs[i:i + 40]
        results = vlib.run_jobs(exe, part, nproc=1)
        for job in part:
            pr, text, args, conf, si, optn, cost, both, np_ = info[job["id"]]
            r = results[job["id"]]
            acc.evals += 1
            what = describe(pr, args, conf) + "\n" + text[len(pr.text):]
            if not work.crash_check(acc, r, job, exe, what):
                continue
            bad = [d for d in r.ops.values() if not d["ok"]]
            if bad:
                acc.viol("error:%s:%s" % (bad[0]["op"], bad[0]["err"]), "unexpected error %s\n%s" % (bad[0], what),
                         {"job": job, "variant": work.variant(exe)})
                continue
            models, d, v = r.models.get(si, []), r.ops[si], None
            keys = [pr.key(m) for m in models]
            if (d["res"] & 3) != (1 if cost else 2) or not (d["res"] & 4):
                v = "result", "result %d but %d solutions" % (d["res"], len(cost))
            elif any(x not in cost for x in keys):
                v = "wrong", "wrong answer %s" % [x for x in keys if x not in cost][0]
            elif cost:
                best = min(cost.values())
                offs = {(m["c"][-1] - cost[k][-1]) % 2 ** 32 for m, k in zip(models, keys)} if both and models and all(len(m["c"]) == np_ + 1 for m in models) else {0}
                if not models:
                    v = "lost", "no answers but optimum is %s" % (best,)
                elif any(tuple(m["c"][:np_]) != cost[k][:np_] for m, k in zip(models, keys)):
                    v = "cost", "costs %s should be %s" % ([m["c"] for m in models], [cost[k] for k in keys])
                elif len(offs) != 1:
                    v = "clasp-cost", "costs reported by clasp are inconsistent with the objective: %s" % sorted(offs)
                elif optn:
                    opt, exp = sorted(k for m, k in zip(models, keys) if m["p"]), sorted(k for k, c in cost.items() if c == best)
                    if opt != exp:
                        v = "optN", "%d optimal answers, expected %d, e.g. %s" % (len(opt), len(exp), [x for x in opt if x not in exp or opt.count(x) > 1][:2] or [x for x in exp if x not in opt][:2])
                else:
                    cs = [cost[k] for k in keys]
                    if cs[-1] != best:
                        v = "optimum", "last answer has cost %s but the optimum is %s" % (cs[-1], best)
                    elif any(a <= b for a, b in zip(cs, cs[1:])):
                        v = "improve", "costs do not improve strictly: %s" % cs
            if v:
                acc.viol("aspopt:" + v[0], v[1] + "\n" + what, {"job": job, "variant": work.variant(exe)})
                continue
            acc.count("aspopt_both" if both else "aspopt_atoms")
            if len(set(cost.values())) > 1:
                acc.seen(text)
