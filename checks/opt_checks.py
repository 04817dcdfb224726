"""Options (C17): syntax, effect, precedence, threads, and agreement of command line and programming interface."""
import json, random, re
import vlib, work, gen
import iso_checks

BOOLS = ["shift-constraints", "sort-constraints", "literals-only", "add-order-clauses", "check-solution", "check-state"]
TBOOLS = ["refine-reasons", "refine-introduce", "propagate-chain", "split-all"]
THREADED = TBOOLS + ["sign-value", "order-heuristic"]
NUMS = ["translate-clauses", "translate-pb", "translate-distinct", "translate-opt", "min-int", "max-int"]
ALL = BOOLS + THREADED + NUMS
MINV, MAXV = -2 ** 30 + 1, 2 ** 30 - 1
U32 = 2 ** 32 - 1
DEFAULT = {"sort-constraints": 1, "translate-clauses": [1000, 1000000], "literals-only": 0, "translate-pb": 1, "translate-distinct": 1000,
           "translate-opt": 0, "add-order-clauses": 0, "min-int": MINV, "max-int": MAXV, "shift-constraints": 1}
# Note: defaults of hidden options and of solver options are taken from a run without options


def classify(opt, s):
    """Documented values: parsed value; None: has to be rejected; ...: not specified."""
    def num(x):
        return int(x) if re.fullmatch(r"0|-?[1-9]\d*", x) else None
    base, comma, tid = s.partition(",")
    if opt in THREADED or opt == "translate-clauses":
        idx = None
        if comma:
            if re.fullmatch(r"0|[1-9]\d*", tid):
                idx = int(tid)
                if opt == "translate-clauses":
                    if idx > 2 ** 31 - 1:
                        return ... if idx < 2 ** 64 else None
                elif idx > 63:
                    return None
            elif re.fullmatch(r"\+?\d+|min|max|-0+", tid):
                idx = ...
            else:
                return None
        if opt in TBOOLS:
            v = {"yes": 1, "no": 0}.get(base)
            if v is None and base in ("true", "false", "1", "0"):
                v = ...
        elif opt == "sign-value":
            v = {"+": 2 ** 31 - 1, "-": -2 ** 31}.get(base)
            if v is None:
                v = num(base)
                if v is not None and not -2 ** 31 <= v < 2 ** 31:
                    v = None
                elif v is None and re.fullmatch(r"[+-]?\d+|min|max", base):
                    v = ... if base in ("min", "max") or -2 ** 31 <= int(base) < 2 ** 31 else None
        elif opt == "order-heuristic":
            v = {"none": 0, "max-chain": 1}.get(base)
        else:
            v = num(base)
            if v is None and re.fullmatch(r"\+?\d+|min|max|-0+", base):
                v = ...
            elif v is not None and not 0 <= v <= U32:
                v = None
        if v is None:
            return None
        return ... if v is ... or idx is ... else (v, idx)
    if opt in BOOLS:
        v = {"yes": 1, "no": 0}.get(s)
        return ... if v is None and s in ("true", "false", "1", "0") else v
    if opt == "translate-pb":
        if re.fullmatch(r"\d{1,6}(\.\d{1,3})?", s):
            return float(s)
        # Note: negative and very large ratios and other notations for numbers are not specified
        return ... if re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?|min|max", s) else None
    v = num(s)
    if opt in ("min-int", "max-int"):
        if v is None:
            if s in ("min", "max"):
                return ...
            return ... if re.fullmatch(r"[+-]?\d+", s) and MINV <= int(s) <= MAXV else None
        return v if MINV <= v <= MAXV else None
    if opt == "translate-opt" and s == "max":
        return U32
    if v is None:
        return ... if re.fullmatch(r"\+?\d+|min|max|-0+", s) and (s in ("min", "max") or int(s) <= U32) else None
    return v if 0 <= v <= U32 else None


def good_value(r, opt, big=True):
    """A documented value."""
    tid = lambda: "" if r.random() < 0.5 else ",%d" % r.choice([0, 0, 1, 1, 2, 3, 5, 62, 63])
    n = lambda: str(r.choice([0, 1, 2, 7, 50, 1000, 99999] + ([2 ** 31 - 1, 2 ** 31, U32] if big else [])))
    if opt in TBOOLS:
        return r.choice(["yes", "no"]) + tid()
    if opt == "sign-value":
        return r.choice(["+", "-", "0", "1", "-1", "17", "-300", str(MAXV), str(MINV)]) + tid()
    if opt == "order-heuristic":
        return r.choice(["none", "max-chain"]) + tid()
    if opt == "translate-clauses":
        return n() + ("" if r.random() < 0.5 else ",%d" % r.choice([0, 1, 10, 1000, 10 ** 6] + ([2 ** 31 - 1] if big else [])))
    if opt in BOOLS:
        return r.choice(["yes", "no"])
    if opt == "translate-pb":
        return r.choice(["0", "1", "0.5", "2.25", "1000", "0.125", "10"])
    if opt == "min-int":
        return str(r.choice([-3, -1, 0, 1, MINV, -1000]))
    if opt == "max-int":
        return str(r.choice([2, 3, 5, MAXV, 1000]))
    return r.choice([n(), "max"]) if opt == "translate-opt" else n()


def some_value(r, opt):
    """A value that is documented, slightly different from a documented one, or nonsense."""
    x = r.random()
    if x < 0.3:
        return good_value(r, opt)
    special = ["", ",", "yes,", ",0", "yes,64", "no,-1", "yes,0,1", "yes,x", "maybe", "y", "YES", "yesno", "no ", " no", "+,64", "-,", "+-", "--", "++", "+,+",
               "1,2", "5,63", "5,64", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "-1", "-0", "99999999999999999999",
               "1.5", "1.5.2", "1,5", "1e", "e5", "0x10", "10k", "nan", "inf", "-inf", "none", "None", "max-chain", "max-chain,63", "max-chain,64", "max_chain",
               "max-chain,", "none,none", "min", "max", "maximum", str(MAXV), str(MAXV + 1), str(MINV), str(MINV - 1), "1000,", "1000,-1", ",1000", "1000,1,1",
               "1000;5", "0,0", "10,1000000", "5 ", " 5", "5\t", "5\n", "no,4294967296", "no,18446744073709551616", "yes,00000000000000000000001x", "+,-0", "3,-0"]
    if x < 0.75:
        return r.choice(special)
    v = good_value(r, opt)
    i = r.randrange(len(v) + 1)
    k = r.random()
    if k < 0.35 and v:
        i = min(i, len(v) - 1)
        return v[:i] + v[i + 1:]
    if k < 0.75:
        return v[:i] + r.choice("0123456789+-,. abxyesno\u00e9") + v[i:]
    return v + r.choice([",", ",1", ",64", ",-1", "0", "-", "x", ",0,0"])


class State:
    """Configuration according to the documentation."""

    def __init__(self):
        self.plain, self.default, self.thread = {}, {}, {}

    def assign(self, opt, val):
        if opt in THREADED:
            v, t = val
            if t is None:
                self.default[opt] = v
                self.thread[opt] = {}
            else:
                self.thread.setdefault(opt, {})[t] = v
        elif opt == "translate-clauses":
            n, m = val
            old = self.plain.get(opt, [None, None])
            self.plain[opt] = [n, old[1] if m is None else m]
        else:
            self.plain[opt] = val

    def cli(self, opts):
        """Values for single threads take precedence whatever the order."""
        for opt, val in opts:
            if opt not in THREADED or val[1] is None:
                self.assign(opt, val)
        for opt, val in opts:
            if opt in THREADED and val[1] is not None:
                self.assign(opt, val)

    def solver(self, opt, t, base):
        return self.thread.get(opt, {}).get(t, self.default.get(opt, base))


def app_job(jid, conf, args, text, kind="opt", timeout=20):
    flat = [x for p in conf for x in p]
    return {"id": jid, "ops": [["file", "p", text], ["app", kind, str(len(conf))] + flat + ["@p"] + args], "timeout": timeout}


def cli_args(r, opts):
    res = []
    for opt, s in opts:
        if opt in BOOLS:
            # Note: flags do not take a value
            res.append("--%s" % opt if s == "yes" else "--no-%s" % opt)
        else:
            res.append("--%s=%s" % (opt, s))
    return res


PRG = "&dom { 0..3 } = x. &dom { -2..2 } = y. { a }. &sum { x; y } >= 1 :- a. :- &sum { x; -1*y } > 4. &distinct { x; y }."


def compare(d, st, base):
    """Compares the configuration in effect with the expected one; base: configuration without options."""
    if "config" in d:
        for k, v in d["config"].items():
            e = st.plain.get(k, base["config"][k])
            if k == "translate-clauses":
                e = [b if x is None else x for x, b in zip(e, base["config"][k])]
            if v != e:
                return "option %s is %s but should be %s" % (k, v, e)
        for t, s in enumerate(d["threads"]):
            for k, v in s.items():
                e = st.solver(k, t, base["threads"][0][k])
                if v != e:
                    return "option %s of thread %d is %s but should be %s" % (k, t, v, e)
    shift = st.plain.get("shift-constraints", 1)
    body = any("__sum_b" in s for s in d["stms"])
    if body == bool(shift):
        return "constraints are %sshifted: %s" % ("not " if shift else "", d["stms"])
    threads = len(d.get("threads", [0]))
    if any(st.solver("order-heuristic", t, 0) for t in range(threads)) and not d["decide"]:
        return "the heuristic is switched on but not used"
    return None


def distinct_pairs(opts):
    """Drops options given twice (which is not specified on the command line)."""
    seen, res = set(), []
    for opt, s in opts:
        v = classify(opt, s)
        k = (opt, v[1] if opt in THREADED else None)
        if k not in seen:
            seen.add(k)
            res.append((opt, s))
    return res


def ranged(opts):
    """The options do not lead to empty default domains, at least on the way."""
    st = State()
    for opt, s in opts:
        st.assign(opt, classify(opt, s))
    return st.plain.get("min-int", MINV) <= st.plain.get("max-int", MAXV)


def option_task(acc, pid, exe, seed, n, threads):
    """Random documented options on the command line, through the programming interface, and both."""
    r = random.Random("opt/%s/%s" % (pid, seed))
    jobs = [app_job("base", [], ["--outf=2", "0"], PRG)]
    info = {}
    for i in range(n):
        k = r.choice([1, 1, 2, 3, 5, 8])
        # prefer several values of the same option
        pool = r.choices(ALL, k=r.choice([1, 2, 4])) if r.random() < 0.6 else ALL
        opts = [(o, good_value(r, o)) for o in (r.choice(pool) for _ in range(k))]
        nt = r.choice([1, 1, 2, 4, 4, 8]) if threads else 1
        split = r.choice([0, len(opts), r.randint(0, len(opts))])
        cli, api = distinct_pairs(opts[:split]), opts[split:]
        if not ranged(cli) or not ranged(cli + api):
            continue
        args = cli_args(r, cli)
        r.shuffle(args)
        extra = ["--outf=2", "0"] + (["--parallel-mode=%d" % nt] if nt > 1 else [])
        info[str(i)] = (cli, api, nt, extra)
        jobs.append(app_job(str(i), api, args + extra, PRG))
    res = vlib.run_jobs(exe, jobs, nproc=1)
    base = get(acc, res["base"], jobs[0], exe)
    if base is None:
        return
    v = compare(base, State(), base)
    for k, e in DEFAULT.items():
        if "config" in base and base["config"].get(k, e) != e:
            v = v or "default of option %s is %s but documented as %s" % (k, base["config"][k], e)
    if v:
        acc.viol("default", v, {"job": jobs[0], "variant": work.variant(exe)})
    for job in jobs[1:]:
        cli, api, nt, extra = info[job["id"]]
        acc.evals += 1
        d = get(acc, res[job["id"]], job, exe)
        if d is None:
            continue
        what = "command line %s, interface %s" % (job["ops"][1][4 + 2 * len(api):], api)
        st = State()
        st.cli([(o, classify(o, s)) for o, s in cli])
        for o, s in api:
            st.assign(o, classify(o, s))
        if not d["valid"] or not d["registered"] or not all(x == 1 for x in d["accepted"]) or d["rc"] not in (10, 20, 30):
            acc.viol("rejected", "documented options are rejected: %s\n%s" % (d["errout"], what), {"job": job, "variant": work.variant(exe)})
            continue
        v = compare(d, st, base)
        if v is None and len(d.get("threads", [0] * nt)) != nt:
            v = "%d solver states with %d threads" % (len(d["threads"]), nt)
        got = sorted(json.dumps(m["s"]) for m in d["models"])
        lo, hi = st.plain.get("min-int", MINV), st.plain.get("max-int", MAXV)
        answers = sorted(json.dumps(m["s"]) for m in base["models"] if all(lo <= val(m, x) <= hi for x in "xy"))
        if v is None and got != answers:
            v = "answers differ: %d instead of %d" % (len(got), len(answers))
        if v:
            acc.viol("effect:" + re.sub(r"\d+", "N", v)[:60], v + "\n" + what, {"job": job, "variant": work.variant(exe)})
            continue
        acc.count("options", len(cli) + len(api))
        acc.count("solver_configurations", len(d.get("threads", ())))
        if any(o in THREADED and classify(o, s)[1] is not None for o, s in cli + api):
            acc.count("thread_specific")
        acc.seen(sorted(cli), api, nt)
    if not acc.samples:
        acc.samples.append({"command line": [list(x) for x in info[jobs[-1]["id"]][0]], "interface": [list(x) for x in info[jobs[-1]["id"]][1]]})


def get(acc, r, job, exe):
    if not work.crash_check(acc, r, job, exe, str(job["ops"])):
        return None
    return r.ops[max(r.ops)]


def syntax_task(acc, pid, exe, seed, n):
    """Accepts or rejects values as documented; rejected values leave the configuration as it is."""
    r = random.Random("syn/%s/%s" % (pid, seed))
    jobs = [app_job("base", [], ["--outf=2", "0"], PRG)]
    info = {}
    for i in range(n):
        if r.random() < 0.5:
            # one value on the command line
            # Note: flags are parsed by clingo
            opt = r.choice([o for o in ALL if o not in BOOLS])
            s = some_value(r, opt)
            if "\0" in s:
                continue
            info["c%d" % i] = ("cli", [(opt, s)])
            jobs.append(app_job("c%d" % i, [], ["--%s=%s" % (opt, s), "--outf=2", "1"], PRG))
        else:
            # several values through the interface
            opts = []
            for _ in range(r.choice([1, 3, 8])):
                opt = r.choice(ALL)
                s = some_value(r, opt)
                if classify(opt, s) is ... and opt in ("min-int", "max-int"):
                    continue
                opts.append((opt, s))
            info["a%d" % i] = ("api", opts)
            jobs.append(app_job("a%d" % i, opts, ["--outf=2", "1", "--parallel-mode=2"], PRG))
    res = vlib.run_jobs(exe, jobs, nproc=1)
    base = get(acc, res["base"], jobs[0], exe)
    if base is None:
        return
    for job in jobs[1:]:
        kind, opts = info[job["id"]]
        acc.evals += 1
        d = get(acc, res[job["id"]], job, exe)
        if d is None:
            continue
        rep = {"job": job, "variant": work.variant(exe)}
        if kind == "cli":
            (opt, s), = opts
            c = classify(opt, s)
            acc.count("rejected" if c is None else "unspecified" if c is ... else "accepted")
            rejected = not d["valid"] and d["rc"] not in (10, 20, 30)
            if c is None and not rejected:
                acc.viol("cli-accepted:%s" % opt, "option --%s=%r is accepted on the command line" % (opt, s), rep)
            elif c is None and s not in d["errout"] and opt not in d["errout"] and "rror" not in d["errout"]:
                acc.viol("cli-silent:%s" % opt, "option --%s=%r is rejected without a message: %r" % (opt, s, d["errout"]), rep)
            elif c is not None and c is not ...:
                st = State()
                st.assign(opt, c)
                v = "rejected: " + d["errout"] if rejected else compare(d, st, base) if d["registered"] and d["res"] != -1 else "no result: " + d["errout"]
                if v:
                    acc.viol("cli:%s" % opt, "option --%s=%r: %s" % (opt, s, v), rep)
                    continue
            if c is not ...:
                acc.seen("cli", opt, s)
            continue
        if len(d["accepted"]) != len(opts):
            acc.viol("message", "an option is rejected without setting an error: %s %s" % (opts, d["accepted"]), rep)
            continue
        st, unspec, v = State(), set(), None
        for (opt, s), a in zip(opts, d["accepted"]):
            c = classify(opt, s)
            acc.count("rejected" if c is None else "unspecified" if c is ... else "accepted")
            if c is ...:
                unspec.add(opt)
                continue
            if (c is None) == bool(a):
                v = "value %r of option %s is %s" % (s, opt, "accepted" if a else "rejected")
                break
            if c is not None:
                st.assign(opt, c)
            acc.seen("api", opt, s)
        if v is None and not unspec:
            if st.plain.get("min-int", MINV) > st.plain.get("max-int", MAXV):
                if d["registered"] or d["rc"] in (10, 20, 30):
                    v = "an empty default domain is accepted"
            elif not d["registered"]:
                v = "not accepted: " + d["errout"]
            elif d["rc"] in (10, 20, 30):
                v = compare(d, st, base)
            else:
                v = "no result: " + d["errout"]
        if v:
            acc.viol("api:" + re.sub(r"\d+", "N", v)[:60], "%s\ninterface: %s" % (v, opts), rep)
    if not acc.samples:
        acc.samples.append({"values": [info[j["id"]][1] for j in jobs[1:12]]})


def strip(d):
    """What does not depend on timing."""
    try:
        out = json.loads(d["out"])
        cl = out["Stats"]["Clingcon"]
    except (ValueError, KeyError):
        return None
    return [d["res"], d["rc"], [m for m in d["models"]], iso_checks.clean_stats(cl), out["Result"]]


def same_task(acc, pid, exe, seed, n):
    """The same options on the command line and through the interface give the same run, including order and statistics."""
    r = random.Random("same/%s/%s" % (pid, seed))
    jobs, info = [], {}
    for i in range(n):
        pr = gen.program("%s/same/%s/%d" % (pid, seed, i), {"maxsols": 60, "objective": 1} if r.random() < 0.3 else {"maxsols": 60})
        conf = list(pr.conf.items()) + [c for c in gen.clingcon_conf(r)]
        args = ["--outf=2", "--stats=2", "0"] + gen.clasp_args(r, False, True)
        info[i] = (pr, conf)
        cl = cli_args(r, conf)
        k = r.randint(0, len(conf))
        jobs.append(app_job("%d.c" % i, [], args + cl, pr.text))
        jobs.append(app_job("%d.a" % i, conf, args, pr.text))
        jobs.append(app_job("%d.m" % i, conf[k:], args + cl[:k], pr.text))
    res = vlib.run_jobs(exe, jobs, nproc=1)
    byid = {j["id"]: j for j in jobs}
    for i in range(n):
        pr, conf = info[i]
        ds = {x: get(acc, res["%d.%s" % (i, x)], byid["%d.%s" % (i, x)], exe) for x in "cam"}
        acc.evals += 1
        if None in ds.values():
            continue
        st = {x: strip(d) for x, d in ds.items()}
        what = "program:\n%s\noptions: %s" % (pr.text, conf)
        rep = {"job": byid["%d.c" % i], "other": byid["%d.a" % i], "variant": work.variant(exe)}
        bad = [x for x in "cam" if st[x] is None]
        if bad:
            acc.viol("error", "run failed: %s\n%s" % (ds[bad[0]]["errout"], what), rep)
            continue
        for x in "am":
            if st[x] != st["c"]:
                acc.viol("differs", "runs with options from the command line and the interface differ:\n%s\n%s\n%s" % (st["c"], st[x], what), rep)
                break
        else:
            acc.count("equal_runs")
            acc.count("models", len(ds["c"]["models"]))
            if len(ds["c"]["models"]) > 1:
                acc.seen(pr.text, conf)


def stat(d, *path):
    x = json.loads(d["out"])["Stats"]["Clingcon"]
    for p in path:
        x = x[p]
    return x


def effect_task(acc, pid, exe, seed, n):
    """Options have the documented effect on search (both front ends)."""
    r = random.Random("eff/%s/%s" % (pid, seed))
    cases = []
    for i in range(n):
        kind = r.choice(EFFECTS)
        text, variants = kind(r)
        runs = []
        for opts, args, *_ in variants:
            api = r.random() < 0.5
            runs.append((opts if api else [], args + ["--outf=2", "--stats=2"] + ([] if api else cli_args(r, opts))))
        cases.append((kind, text, variants, runs))
    jobs = []
    for i, (kind, text, variants, runs) in enumerate(cases):
        for k, (api, args) in enumerate(runs):
            jobs.append(app_job("%d.%d" % (i, k), api, args, text))
    res = vlib.run_jobs(exe, jobs, nproc=1)
    byid = {j["id"]: j for j in jobs}
    for i, (kind, text, variants, runs) in enumerate(cases):
        acc.evals += 1
        ds = [get(acc, res["%d.%d" % (i, k)], byid["%d.%d" % (i, k)], exe) for k in range(len(runs))]
        if None in ds:
            continue
        if any(strip(d) is None for d in ds):
            acc.viol("error", "run failed: %s" % [d["errout"] for d in ds], {"job": byid["%d.0" % i], "variant": work.variant(exe)})
            continue
        v = JUDGE[kind](ds, variants)
        acc.count("effect_" + kind.__name__)
        if v:
            acc.viol("effect:" + kind.__name__, "%s\nprogram:\n%s\noptions: %s" % (v, text, variants),
                     {"job": byid["%d.0" % i], "others": [byid["%d.%d" % (i, k)] for k in range(1, len(runs))], "variant": work.variant(exe)})
        else:
            acc.seen(kind.__name__, text, variants)


def val(m, x):
    for s in m["s"]:
        q = re.fullmatch(r"__csp\(%s,(-?\d+)\)" % x, s)
        if q:
            return int(q.group(1))
    return None


def e_sign(r):
    a = r.randint(-20, 20)
    b = a + r.randint(2, 30)
    t = r.choice(["", ",0"])
    return "&dom { (%d) .. (%d) } = x." % (a, b), [([("sign-value", "+" + t)], ["1"]), ([("sign-value", "-" + t)], ["1"]),
                                             ([("sign-value", "+,1"), ("sign-value", "+" + t)], ["1"]), ([("sign-value", "%d%s" % (b + 5, t))], ["1"]),
                                             ([("sign-value", "%d%s" % (a - 5, t))], ["1"])]


def j_sign(ds, vs):
    # the values + and - prefer different literals; numbers beyond the domain are the same as these
    x = [val(d["models"][0], "x") for d in ds]
    if x[0] == x[1] or x[0] != x[2] or x[3] != x[0] or x[4] != x[1]:
        return "first values of x: %s" % x


def e_range(r):
    a = r.randint(-9, 3)
    b = a + r.randint(0, 9)
    return "&sum { x } >= -100.", [([("min-int", str(a)), ("max-int", str(b))], ["0"]), ([("max-int", str(b)), ("min-int", str(a))], ["0"])]


def j_range(ds, vs):
    a, b = (int(v) for _, v in vs[0][0])
    for d in ds:
        got = sorted(val(m, "x") for m in d["models"])
        if got != list(range(a, b + 1)):
            return "values of x: %s" % got


def sums(r, k):
    """k constraints none of which is redundant or tightens domains."""
    n = 4
    w = r.randint(3, 5)
    vs = ["v(%d)" % i for i in range(n)]
    t = "".join("&dom { 0..%d } = %s. " % (w, v) for v in vs)
    for xs in r.sample([vs[:i] + vs[i + 1:] for i in range(n)], k):
        t += "&sum { %s } <= %d. " % ("; ".join("%s" % x for x in xs), r.randint(w + 2, 2 * w))
    return t


def e_clauses(r):
    nopb = ("translate-pb", "0")
    return sums(r, r.randint(3, 4)), [([nopb, ("translate-clauses", "0")], ["0"]), ([nopb, ("translate-clauses", "100000,1000000")], ["0"]),
                                      ([nopb, ("translate-clauses", "100000,0")], ["0"]), ([nopb, ("translate-clauses", "100000,1")], ["0"]),
                                      ([nopb, ("translate-clauses", "100000"), ("literals-only", "yes")], ["0"])]


def j_clauses(ds, vs):
    c = [stat(d, "Translate", "Clauses") for d in ds]
    rem = [stat(d, "Translate", "Constraints removed") for d in ds]
    w = [stat(d, "Translate", "Weight constraints") for d in ds]
    # Note: some constraints are redundant
    if c[0] or c[2] or c[4] or rem[2] != rem[0] or rem[4] != rem[0] or any(w):
        return "switched off but clauses %s, removed constraints %s, weight constraints %s" % (c, rem, w)
    if not c[1] or rem[1] <= rem[0] or stat(ds[1], "Problem", "Constraints") != 0:
        return "switched on but clauses %s, removed constraints %s" % (c, rem)
    if rem[3] != rem[0] + 1 or not 0 < c[3] <= c[1]:
        return "limited to one clause in total but clauses %s, removed constraints %s" % (c, rem)
    if not stat(ds[4], "Translate", "Literals"):
        return "no literals are added"
    return same_answers(ds)


def same_answers(ds):
    k = [sorted(json.dumps(m["s"]) for m in d["models"]) for d in ds]
    if any(x != k[0] for x in k):
        return "answers differ: %s" % [len(x) for x in k]


def e_pb(r):
    n = r.randint(4, 7)
    t = "".join("&dom { 0..1 } = v(%d). " % i for i in range(n))
    t += "&sum { %s } <= %d." % ("; ".join("%d*v(%d)" % (r.choice([1, 2, 3]), i) for i in range(n)), r.randint(2, n - 1))
    off = ("translate-clauses", "0")
    # Note: with one literal per variable, the ratio of literals and variables is one
    return t, [([off, ("translate-pb", "0")], ["0"]), ([off, ("translate-pb", "1")], ["0"]), ([off, ("translate-pb", "100")], ["0"]),
               ([off, ("translate-pb", "0.5")], ["0"])]


def j_pb(ds, vs):
    w = [stat(d, "Translate", "Weight constraints") for d in ds]
    if w[0] or not w[1] or not w[2] or w[3]:
        return "weight constraints: %s" % w
    return same_answers(ds)


def e_distinct(r):
    n = r.randint(3, 5)
    t = "".join("&dom { 0..%d } = v(%d). " % (n + r.randint(0, 2), i) for i in range(n))
    t += "&distinct { %s }." % "; ".join("v(%d)" % i for i in range(n))
    off = [("translate-clauses", "0"), ("translate-pb", "0")]
    return t, [(off + [("translate-distinct", "0")], ["0"]), (off + [("translate-distinct", "1000")], ["0"]), (off + [("translate-distinct", "1")], ["0"])]


def j_distinct(ds, vs):
    w = [stat(d, "Translate", "Weight constraints") for d in ds]
    rem = [stat(d, "Translate", "Constraints removed") for d in ds]
    if w[0] or not w[1] or w[2] or rem[0] or rem[2]:
        return "weight constraints: %s removed constraints: %s" % (w, rem)
    return same_answers(ds)


def e_opt(r):
    obj = "&maximize { %s }." % "; ".join("%d*v(%d)" % (r.choice([1, 2]), i) for i in range(3))
    return sums(r, 1) + obj, [([("translate-opt", "0")], ["0"], obj), ([("translate-opt", "max")], ["0"]), ([("translate-opt", "1")], ["0"]), ([("translate-opt", "100000")], ["0"])]


def j_opt(ds, vs):
    c = [bool(d["models"][-1]["c"]) for d in ds]
    # Note: with 1, the objective is translated if no literals are required
    if c[:2] + c[3:] != [False, True, True]:
        return "objective handled by clasp: %s" % c
    ws = [int(re.search(r"(\d)\*v\(%d\)" % i, vs[0][2]).group(1)) for i in range(3)]
    best = [sum(w * val(d["models"][-1], r"v\(%d\)" % i) for i, w in enumerate(ws)) for d in ds]
    if any(b != best[0] for b in best):
        return "different optima: %s" % best


def e_order(r):
    w = r.randint(4, 12)
    n = r.randint(1, 3)
    t = "".join("&dom { 0..%d } = v(%d). { a(%d) }. &sum { v(%d) } <= %d :- a(%d). " % (w, i, i, i, r.randint(1, w - 2), i)
                + "".join("&sum { v(%d) } >= %d :- a(%d,%d). { a(%d,%d) }. " % (i, j, i, j, i, j) for j in range(1, w)) for i in range(n))
    t += "&sum { %s } <= %d. " % ("; ".join("v(%d)" % i for i in range(n)), w + 2)
    return t, [([("add-order-clauses", "no")], ["5"]), ([("add-order-clauses", "yes")], ["5"])]


def j_order(ds, vs):
    c = [stat(d, "Problem", "Clauses") for d in ds]
    if not c[1] > c[0]:
        return "number of clauses without and with order clauses: %s" % c


def e_refine(r):
    t = "".join("&dom { 0..30 } = v(%d). " % i for i in range(5))
    for _ in range(6):
        t += "&sum { %s } %s %d. " % ("; ".join("%d*v(%d)" % (r.choice([3, 5, 7, -4, -6]), i) for i in r.sample(range(5), 4)), r.choice(["<=", ">="]),
                                      r.randint(-10, 60))
    off = [("translate-clauses", "0"), ("translate-pb", "0")]
    lim = ["0", "--opt-stop=no"]
    lim = ["200"]
    return t, [(off + [("refine-reasons", "no")], lim), (off + [("refine-introduce", "no")], lim), (off + [("refine-reasons", "yes"), ("refine-introduce", "yes")], lim),
               (off + [("refine-introduce", "no,0"), ("refine-introduce", "yes,1")], lim)]


def j_refine(ds, vs):
    t = [stat(d, "Thread")[0] for d in ds]
    if t[0]["Refined reason"] or t[0]["Introduced reason"] or t[1]["Introduced reason"] or t[3]["Introduced reason"]:
        return "switched off but statistics are: %s" % t


EFFECTS = [e_sign, e_range, e_clauses, e_pb, e_distinct, e_opt, e_order, e_refine]
JUDGE = {e_sign: j_sign, e_range: j_range, e_clauses: j_clauses, e_pb: j_pb, e_distinct: j_distinct, e_opt: j_opt, e_order: j_order, e_refine: j_refine}
