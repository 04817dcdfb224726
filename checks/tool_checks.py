"""Command line tool and Python module (C20): printed answers, costs, results and exit codes against the oracle."""
import json, random, re
import vlib, work, gen, multi
import multi_checks as mc
import enum_checks as enum


class Bad(Exception):
    pass


def split_terms(line):
    """Splits a line at blanks that are not part of strings."""
    res, cur, q, i = [], "", False, 0
    while i < len(line):
        c = line[i]
        if q and c == "\\":
            cur += line[i:i + 2]
            i += 2
            continue
        if c == '"':
            q = not q
        if c == " " and not q:
            if cur:
                res.append(cur)
            cur = ""
        else:
            cur += c
        i += 1
    if cur:
        res.append(cur)
    return res


def parse_text(out):
    """Returns (answers, result, models, more, optimum) with answers [(number, atoms, assignment, cost, clasp costs)]."""
    lines = out.split("\n")
    answers, res, models, more, opt = [], None, None, None, None
    i = 0
    while i < len(lines):
        x = lines[i]
        if x.startswith("Answer: "):
            n = int(x[8:].split()[0])
            if lines[i + 2] != "Assignment:":
                raise Bad("no assignment after answer %d: %r" % (n, lines[i:i + 4]))
            val = []
            for t in split_terms(lines[i + 3]):
                k, _, v = t.rpartition("=")
                val.append((k, int(v)))
            ans = [n, split_terms(lines[i + 1]), val, None, []]
            i += 4
            while i < len(lines) and re.match(r"(Cost|Optimization): ", lines[i]):
                k, _, v = lines[i].partition(": ")
                if k == "Cost":
                    if ans[3] is not None:
                        raise Bad("cost printed twice")
                    ans[3] = int(v)
                else:
                    ans[4] = [int(y) for y in v.split()]
                i += 1
            answers.append(ans)
            continue
        if x in ("SATISFIABLE", "UNSATISFIABLE", "OPTIMUM FOUND", "UNKNOWN"):
            if res is not None:
                raise Bad("several results")
            res = x
        m = re.match(r"Models +: (\d+)(\+?)$", x)
        if m:
            models, more = int(m.group(1)), m.group(2) == "+"
        m = re.match(r"  Optimum +: (\w+)$", x)
        if m:
            opt = m.group(1)
        i += 1
    return answers, res, models, more, opt


def parse_json(out):
    d = json.loads(out)
    answers = []
    for call in d["Call"]:
        for k, w in enumerate(call.get("Witnesses", [])):
            atoms, val, cost = [], [], None
            for s in w["Value"]:
                if s.startswith("__csp("):
                    n, _, v = s[len("__csp("):-1].rpartition(",")
                    val.append((n, int(v)))
                elif s.startswith("__csp_cost("):
                    if cost is not None:
                        raise Bad("cost printed twice")
                    cost = int(s[len("__csp_cost("):-1].strip('"'))
                else:
                    atoms.append(s)
            answers.append([k + 1, atoms, val, cost, w.get("Costs", [])])
    return answers, d["Result"], d["Models"]["Number"], d["Models"]["More"] == "yes", d["Models"].get("Optimum"), d


class Spec:
    pass


def make(rng, seed, python):
    s = Spec()
    prof = {"show": 0.4, "weird": 0.7, "maxsols": 120}
    if rng.random() < 0.35:
        prof["objective"] = 1
        prof["maxsols"] = 3000
    pr = gen.program(seed, prof)
    s.pr = pr
    conf = dict(list(pr.conf.items()) + (gen.clingcon_conf(rng, True) if rng.random() < 0.7 else []))
    if pr.has_obj:
        conf["translate-opt"] = rng.choice(["0", "0", "0", "max", "100000"])
    s.limit = None
    if not pr.has_obj:
        s.limit = rng.choice([None, 0, 0, 0, 0, 1, 2, 3, len(pr.sols), len(pr.sols) + 1])
    elif rng.random() < 0.5:
        s.limit = 0
    args = gen.clasp_args(rng, True, pr.has_obj) if rng.random() < 0.5 else []
    if conf.get("translate-opt", "0") == "0":
        args = [a for a in args if not a.startswith("--opt-strategy")]
    for k, v in conf.items():
        if v in ("yes", "no") and k in ("shift-constraints", "sort-constraints", "literals-only", "add-order-clauses", "check-solution", "check-state"):
            args.append("--" + ("" if v == "yes" else "no-") + k)
        else:
            args.append("--%s=%s" % (k, v))
    s.json = rng.random() < 0.4
    s.quiet = rng.choice([None, None, None, None, "1", "2"])
    s.stats = rng.random() < 0.3
    if s.json:
        args.append("--outf=2")
    if s.quiet:
        args.append(rng.choice(["-q" + s.quiet, "--quiet=" + s.quiet]))
    if s.stats:
        args.append("--stats")
    # files
    ls = pr.text.split("\n")
    k = rng.choice([1, 1, 1, 2, 3])
    parts = [[] for _ in range(k)]
    for x in ls:
        parts[rng.randrange(k)].append(x)
    s.ops, files = [], []
    for j, p in enumerate(parts):
        text = "\n".join(p) + "\n"
        if j == 0 and rng.random() < 0.15:
            s.ops.append(["file", "stdin", text])
            files.append("-")
        else:
            s.ops.append(["file", "f%d.lp" % j, text])
            files.append("@f%d.lp" % j)
    if files == ["-"] and rng.random() < 0.5:
        files = []
    if s.limit is not None:
        x = rng.choice(["-n", "%d", "--models=%d", "-n%d"])
        args += ["-n", str(s.limit)] if x == "-n" else [x % s.limit]
    # files, numbers and options in any order
    allargs = []
    units = [[f] for f in files]
    i = 0
    while i < len(args):
        if args[i] == "-n":
            units.append(args[i:i + 2])
            i += 2
        else:
            units.append([args[i]])
            i += 1
    rng.shuffle(units)
    for u in units:
        allargs += u
    s.ops.append(["app", "main", "0"] + allargs)
    s.args = allargs
    s.native = conf.get("translate-opt", "0") == "0"
    return s


def judge(s, d, acc):
    """Judges one run; returns text or None."""
    pr = s.pr
    if s.json:
        answers, res, models, more, opt, js = parse_json(d["out"])
    else:
        answers, res, models, more, opt = parse_text(d["out"])
        js = None
    exh = {10: False, 30: True, 20: True}.get(d["rc"])
    if exh is None:
        return "unexpected exit code %d" % d["rc"]
    sat = d["rc"] != 20
    if sat != bool(pr.sols):
        return "exit code %d but %d answers exist" % (d["rc"], len(pr.sols))
    if (res == "UNSATISFIABLE") != (not sat) or res not in ("UNSATISFIABLE", "SATISFIABLE", "OPTIMUM FOUND"):
        return "result %s does not match exit code %d" % (res, d["rc"])
    if models is None or (more != (not exh)):
        return "number of models %s%s does not match exit code %d" % (models, "+" if more else "", d["rc"])
    # answers
    names = sorted(n for n in pr.ivars if pr.shown is None or n in pr.shown)
    hidden = pr.shown is not None and len(pr.shown) < len(pr.ivars)
    byproj = {}
    for key, cost in pr.sols.items():
        at, _, vs = key.partition("|")
        vals = tuple(x for x in split_terms(vs) if x.rpartition("=")[0] in names)
        byproj.setdefault((at, tuple(sorted(vals))), []).append((key, cost))
    costs, seen, claspcosts = [], {}, []
    native = None
    for n, atoms, val, cost, cc in answers:
        if sorted(k for k, _ in val) != names:
            return "answer %d prints values of %s, expected each of %s once" % (n, [k for k, _ in val], names)
        if len(set(atoms)) != len(atoms):
            return "atom printed twice in %s" % atoms
        at = " ".join(sorted(a for a in atoms if a in pr.atoms))
        pk = (at, tuple(sorted("%s=%d" % x for x in val)))
        if pk not in byproj:
            return "answer %d is wrong: %s" % (n, pk)
        seen[pk] = seen.get(pk, 0) + 1
        cands = [c for _, c in byproj[pk]]
        if pr.has_obj:
            # Note: objectives without literals are always translated
            if native is None:
                native = cost is not None
                if native and not s.native:
                    acc.count("not_translated")
            if native != (cost is not None) or native != (not cc):
                return "answer %d has costs %s %s" % (n, cost, cc)
            if native:
                if cost not in cands:
                    return "cost %d printed for answer %s, expected %s" % (cost, pk, sorted(set(cands)))
                costs.append(cost)
            else:
                costs.append(cc[0])
                claspcosts.append((cc[0], cands))
        elif cost is not None or cc:
            return "answer %d has costs %s %s without objective" % (n, cost, cc)
    acc.count("answers", len(answers))
    # number of answers
    nsol = len(pr.sols)
    if not pr.has_obj:
        lim = 1 if s.limit is None else s.limit
        exp = nsol if lim == 0 else min(lim, nsol)
        if models != exp:
            return "%d models counted, expected %d" % (models, exp)
        if lim == 0 or lim > nsol:
            if not exh:
                return "search not exhausted"
        elif lim < nsol and exh:
            return "search exhausted after %d of %d answers" % (models, nsol)
        if not s.quiet and len(answers) != exp:
            return "%d answers printed, expected %d" % (len(answers), exp)
        for pk, k in seen.items():
            if k > len(byproj[pk]):
                return "answer %s printed %d times, expected at most %d" % (pk, k, len(byproj[pk]))
        if not s.quiet and exp == nsol:
            for pk, l in byproj.items():
                if seen.get(pk, 0) != len(l):
                    return "answer %s printed %d times, expected %d" % (pk, seen.get(pk, 0), len(l))
        if res == "OPTIMUM FOUND":
            return "optimum reported without objective"
    else:
        if not exh:
            return "optimization not exhausted"
        if pr.sols:
            best = min(pr.sols.values())
            if any(a <= b for a, b in zip(costs, costs[1:])):
                return "costs do not improve strictly: %s" % costs
            if native is None:
                pass
            elif native:
                if costs[-1] != best:
                    return "last answer has cost %s but the optimum is %d" % (costs[-1:], best)
                if js is not None and s.stats and js["Stats"]["Clingcon"].get("Cost") != best:
                    return "cost %s in statistics, expected %d" % (js["Stats"]["Clingcon"].get("Cost"), best)
            else:
                if best not in claspcosts[-1][1]:
                    return "last answer has costs %s but the optimum is %d" % (claspcosts[-1], best)
                # costs reported by clasp differ from the objective by a constant
                offs = None
                for c, cands in claspcosts:
                    o = {c - x for x in cands}
                    offs = o if offs is None else offs & o
                if offs is not None and not offs:
                    return "costs %s reported by clasp are inconsistent with the objective" % claspcosts
                if res != "OPTIMUM FOUND":
                    return "result is %s instead of OPTIMUM FOUND" % res
            acc.count("optima_" + ("native" if native else "translated"))
    if not s.quiet:
        if len(answers) != models:
            return "%d models counted, %d answers printed" % (models, len(answers))
        if [a[0] for a in answers] != list(range(1, len(answers) + 1)):
            return "answers are numbered %s" % [a[0] for a in answers]
    elif s.quiet == "1" and pr.sols and (len(answers) != 1 or not s.json and answers[0][0] != models):
        return "the last of %d answers should be printed: %s" % (models, answers)
    elif s.quiet == "2" and answers:
        return "answers printed in quiet mode"
    if s.stats:
        st = js.get("Stats", {}).get("Clingcon") if js is not None else "Clingcon" in d["out"]
        if not st:
            return "no statistics"
    return None


def tool_task(acc, pid, exe, seed, n):
    rng = random.Random("tool/%s/%s" % (pid, seed))
    jobs, specs = [], {}
    for i in range(n):
        s = make(rng, "%s/tool/%s/%d" % (pid, seed, i), exe)
        jobs.append({"id": str(i), "ops": s.ops, "timeout": 20})
        specs[str(i)] = s
    for i in range(0, len(jobs), 30):
        part = jobs[i:i + 30]
        results = vlib.run_jobs(exe, part, nproc=1)
        for job in part:
            s, r = specs[job["id"]], results[job["id"]]
            acc.evals += 1
            what = "program:\n%s\narguments: %s\n" % (s.pr.text, " ".join(s.args))
            if not work.crash_check(acc, r, job, exe, what):
                continue
            d = r.ops[len(s.ops) - 1]
            if not d["ok"]:
                v = "unexpected error %s" % d
            else:
                try:
                    v = judge(s, d, acc)
                except (Bad, ValueError, KeyError, IndexError) as e:
                    v = "output not understood: %r" % e
            if v:
                acc.viol("tool:" + re.sub(r"[\d'\"].*", "", v)[:60], v + "\n" + what + "output:\n%s\n%s" % (d.get("out", "")[:3000], d.get("errout", "")[:1000]),
                         {"job": job, "variant": work.variant(exe), "sols": sorted(s.pr.sols.items())[:200]})
                continue
            acc.count("runs_" + ("json" if s.json else "text"))
            if len(s.pr.sols) > 1:
                acc.seen(s.pr.text, s.args)
    acc.samples.append({"program": s.pr.text, "arguments": s.args})


BROKEN = [("&sum { x } <= 1 1.", None), ("&sum { x } <= y : z.", None), ("&sum { x*y } <= 1.", None), ("&dom { x } = y.", None), ("&foo { x } <= 1.", None),
          ("&diff { x } <= 1.", None), ("p(X) :- q.", None), ("&minimize { x*y }.", None), ("&disjoint { x@y }.", None), ("&sum { 1/0 } <= x.", None)]
OPTS = ["--translate-clauses=x", "--sign-value=1,64", "--min-int=5 --max-int=3", "--nosuch", "--refine-reasons=maybe", "--order-heuristic=x", "nosuchfile.lp",
        "--translate-pb=x", "--sort-constraints=maybe --nosuch"]


def fail_task(acc, pid, exe, seed, n):
    """Invalid programs, options and files: an error, an exit code that tells so, and no answers."""
    rng = random.Random("toolf/%s/%s" % (pid, seed))
    jobs, info = [], {}
    python = work.variant(exe) == "pic"
    for i in range(n):
        pr = gen.program("%s/toolf/%s/%d" % (pid, seed, i), {"maxsols": 60})
        ls = pr.text.split("\n")
        extra = []
        # Note: the exit code is 0 if options are rejected during validation; this is decided by clasp
        zero = False
        if rng.random() < 0.6:
            ls.insert(rng.randrange(len(ls) + 1), rng.choice(BROKEN)[0])
        else:
            x = rng.choice([o for o in OPTS if not python or "min-int" not in o])
            zero = "min-int" in x
            extra = x.split()
        extra += rng.choice([[], ["--outf=2"], ["0"], ["--parallel-mode=2"]])
        ops = [["file", "f.lp", "\n".join(ls) + "\n"], ["app", "main", "0", "@f.lp"] + ["--%s=%s" % x for x in pr.conf.items()] + extra]
        jobs.append({"id": str(i), "ops": ops, "timeout": 20})
        info[str(i)] = "\n".join(ls) + "\n%s" % extra, zero
    results = vlib.run_jobs(exe, jobs, nproc=1)
    for job in jobs:
        r = results[job["id"]]
        acc.evals += 1
        what, zero = info[job["id"]]
        if not work.crash_check(acc, r, job, exe, what):
            continue
        d = r.ops[1]
        v = None
        if not d["ok"]:
            v = "unexpected error %s" % d
        elif d["rc"] in (0, 10, 20, 30) and not (zero and d["rc"] == 0):
            v = "exit code %d after an error" % d["rc"]
        elif re.search(r"^(Answer|SATISFIABLE|UNSATISFIABLE|OPTIMUM)", d["out"], re.M) or '"Witnesses"' in d["out"]:
            v = "answers after an error"
        elif not d["errout"].strip():
            v = "no error message"
        if v:
            acc.viol("tool:fail:" + v[:30], v + "\n" + what + "\noutput:\n%s\n%s" % (d.get("out", "")[:3000], d.get("errout", "")[:1000]), {"job": job, "variant": work.variant(exe)})
            continue
        acc.count("rejected")
        acc.count("exit_code_%d" % d["rc"])


def py_hist_task(acc, pid, exe, seed, n, threads):
    """Multi-shot histories driven through the Python module."""
    rng = random.Random("pyhist/%s/%s" % (pid, seed))
    hs = []
    for i in range(n):
        h = mc.Hist(rng, multi.multi("%s/pyhist/%s/%d" % (pid, seed, i), {"show": 0.3}), threads).run()
        for o in h.ops:
            if o[0] == "solve" and not any(x.startswith("limit") for x in o):
                o += rng.choice([[], [], ["yield=-1"], ["async"]])
        hs.append(h)
    mc.run_hists(acc, exe, hs)


FACTS = ["p", "_p", "__p", "q(1)", "_q(-1)", "__q(2)", "-n(1)", "-_n", '-__n', 's("a b")', 's("x\\"y")', 's("")', 's("a\\nb")', "t((1,2))", "t((1,))", "t(())", "u(#inf)", "u(#sup)",
         "big(2147483647)", "neg(-2147483647)", "f(f(g(x)))", "_a_(1)", "csp(x,1)", "assignment", "cost(3)"]
TERMS = ["5", "-3", '"str y"', "(1,2)", "()", "#inf", "h(1)", "_h(1)", "__h", "x", '"Cost: 3"']
VARS = ["x", "_x", "__x", "v(1)", "_v(1)", 'v("a=b c")', "v((1,2))", "__csp(1)", "cost", "f(x)"]


def signature(x):
    m = re.match(r"(-?)(\w+)(\(.*\))?$", x)
    return m.group(1) + m.group(2), 0 if not m.group(3) else 2 if m.group(2) == "csp" else 1


def print_task(acc, pid, exe, seed, n):
    """Every shown atom, term and value is printed once per answer, whatever it looks like."""
    rng = random.Random("toolp/%s/%s" % (pid, seed))
    python = work.variant(exe) == "pic"
    jobs, info = [], {}
    for i in range(n):
        facts = rng.sample(FACTS, rng.randint(1, 8))
        terms = rng.sample(TERMS, rng.randint(0, 4))
        names = rng.sample(VARS, rng.randint(0, 3))
        ch = ["c%d" % k for k in range(rng.randint(0, 2))]
        cond = {x: rng.choice([None, None] + ch) for x in facts + terms}
        ls = ["{%s}." % c for c in ch]
        ls += ["%s%s." % (x, " :- " + cond[x] if cond[x] else "") for x in facts]
        ls += ["#show %s%s." % (x, " : " + cond[x] if cond[x] else " : #true") for x in terms]
        sig = rng.random() < 0.3
        if sig:
            ls.append("#show.")
            sigs = sorted({signature(x) for x in facts if rng.random() < 0.5})
            shownatoms = [x for x in facts if signature(x) in sigs]
            ls += ["#show %s/%d." % y for y in sigs]
        vals = {v: sorted(rng.sample(range(-9, 10), rng.randint(1, 2))) for v in names}
        ls += ["&dom{%s} = %s." % ("; ".join(map(str, vals[v])), v) for v in names]
        hid = []
        if names and rng.random() < 0.4:
            hid = rng.sample(names, rng.randint(0, len(names) - 1))
            ls.append("&show{%s}." % "; ".join(v for v in names if v not in hid))
        rng.shuffle(ls)
        js = rng.random() < 0.3
        exp = []
        for k in range(2 ** len(ch)):
            on = {c for b, c in enumerate(ch) if k >> b & 1}
            out = [] if sig else sorted(on)
            out += [x for x in facts if (not sig or x in shownatoms) and (cond[x] is None or cond[x] in on)]
            out += [x for x in terms if cond[x] is None or cond[x] in on]
            if python and not js:
                out = [x for x in out if not re.match(r"-?__", x)]
            vs = [{}]
            for v in names:
                vs = [dict(d, **{v: y}) for d in vs for y in vals[v]]
            exp += [(tuple(sorted(set(out))), tuple(sorted((v, y) for v, y in d.items() if v not in hid))) for d in vs]
        exp.sort()
        text = "\n".join(ls) + "\n"
        jobs.append({"id": str(i), "ops": [["file", "f.lp", text], ["app", "main", "0", "@f.lp", "0"] + (["--outf=2"] if js else [])], "timeout": 20})
        info[str(i)] = text, exp, js
    results = vlib.run_jobs(exe, jobs, nproc=1)
    for job in jobs:
        r = results[job["id"]]
        acc.evals += 1
        text, exp, js = info[job["id"]]
        if not work.crash_check(acc, r, job, exe, text):
            continue
        d, v = r.ops[1], None
        if not d["ok"]:
            v = "unexpected error %s" % d
        else:
            try:
                answers = (parse_json if js else parse_text)(d["out"])[0]
                got = sorted((tuple(sorted(a[1])), tuple(sorted(a[2]))) for a in answers)
                if got != exp:
                    v = "printed answers differ:\nmissing %s\nunexpected %s" % ([x for x in exp if x not in got][:3], [x for x in got if x not in exp][:3])
                elif d["rc"] != 30:
                    v = "exit code %d" % d["rc"]
            except (Bad, ValueError, KeyError, IndexError) as e:
                v = "output not understood: %r" % e
        if v:
            acc.viol("tool:print:" + v[:30], v + "\n" + text + "\noutput:\n%s\n%s" % (d.get("out", "")[:3000], d.get("errout", "")[:1000]), {"job": job, "variant": work.variant(exe)})
            continue
        acc.count("answers_printed", len(exp))
        if len(exp) > 1:
            acc.seen(text)


def limit_task(acc, pid, exe, seed, n):
    """Runs stopped by a time limit: printed answers are valid, costs improve, and no result is claimed that was not established."""
    rng = random.Random("tooll/%s/%s" % (pid, seed))
    jobs, info = [], {}
    for i in range(n):
        k = rng.randint(11, 16)
        w = [rng.randint(1, 9) * rng.choice([1, -1]) for _ in range(k)]
        kind = rng.choice(["min", "unsat"])
        ls = ["&dom{0..%d} = x(%d)." % (k if kind == "min" else k - 2, j) for j in range(k)]
        ls.append("&distinct{%s}." % "; ".join("x(%d)" % j for j in range(k)))
        gaps = sorted(set(tuple(rng.sample(range(k), 2)) for _ in range(k // 2)))
        if kind == "min":
            for a, b in gaps:
                ls.append(":- &sum{x(%d)} = x(%d)+1." % (a, b))
            ls.append("&minimize{%s}." % "; ".join("%d*x(%d)" % (c, j) for j, c in enumerate(w)))
        text = "\n".join(ls) + "\n"
        args = ["@f.lp", "--time-limit=1", "--translate-distinct=0"] + rng.choice([[], ["-t2"], ["0"], ["--refine-reasons=no"]])
        jobs.append({"id": str(i), "ops": [["file", "f.lp", text], ["app", "main", "0"] + args], "timeout": 40})
        info[str(i)] = text, k, w, kind, gaps, args
    results = vlib.run_jobs(exe, jobs, nproc=1)
    for job in jobs:
        r = results[job["id"]]
        acc.evals += 1
        text, k, w, kind, gaps, args = info[job["id"]]
        if not work.crash_check(acc, r, job, exe, text):
            continue
        d, v = r.ops[1], None
        if not d["ok"]:
            v = "unexpected error %s" % d
        else:
            try:
                answers, res, models, more, opt = parse_text(d["out"])
                stopped = d["rc"] in (1, 11, 65, 75)
                acc.count("stopped" if stopped else "finished")
                last = None
                for _, _, val, cost, _ in answers:
                    x = dict(val)
                    y = [x["x(%d)" % j] for j in range(k)]
                    c = sum(a * b for a, b in zip(w, y))
                    if kind == "unsat":
                        v = "answer printed for an unsatisfiable program"
                    elif len(val) != k or len(set(y)) != k or min(y) < 0 or max(y) > k or any(y[a] == y[b] + 1 for a, b in gaps):
                        v = "wrong answer %s" % val
                    elif cost != c:
                        v = "cost %s printed, expected %d" % (cost, c)
                    elif last is not None and c >= last:
                        v = "costs do not improve: %d after %d" % (c, last)
                    last = c
                    acc.count("answers")
                if v is None:
                    if d["rc"] not in (1, 11, 65, 75, 20 if kind == "unsat" else 30):
                        v = "exit code %d" % d["rc"]
                    elif (d["rc"] in (11, 75, 30)) != bool(answers):
                        v = "exit code %d with %d answers" % (d["rc"], len(answers))
                    elif stopped and res not in ("UNKNOWN", "SATISFIABLE") or stopped and (res == "SATISFIABLE") != bool(answers):
                        v = "result %s of a stopped run with %d answers" % (res, len(answers))
                    elif stopped and models is not None and not more:
                        v = "a stopped run claims to have found all models"
            except (Bad, ValueError, KeyError, IndexError) as e:
                v = "output not understood: %r" % e
        if v:
            acc.viol("tool:limit:" + v[:30], v + "\n" + text + "\narguments: %s\noutput:\n%s\n%s" % (args, d.get("out", "")[-3000:], d.get("errout", "")[:1000]), {"job": job, "variant": work.variant(exe)})
            continue
        acc.seen(text)
