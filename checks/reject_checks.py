"""C13: invalid input is rejected with an error, and fresh objects work normally afterwards."""
import random
import vlib, work, gen
import enum_checks as enum

# contexts: f fact, h head of rule with body, b body, d directive (fact without body)
# {v} {w} {u}: distinct variables, {n} nonzero number, {k} number from 2 to 9, {R} relation, {c} choice atom, {q} unary predicate with facts 1..3
TABLE = [
    # sums
    ("&sum {{ {v} }}", "fhb"), ("&sum {{ {k} * {v} ; {w} }}", "fhb"), ("&sum {{ {v}, {w} }} {R} {n}", "fhb"), ("&sum {{ {v}, {k} : {c} }} {R} {n}", "fhb"),
    ("&sum {{ : {q}(1) }} {R} {n}", "fhb"), ("&sum {{ {v} : {c} }} {R} {n}", "fhb"), ("&sum {{ {w} ; {k} * {v} : {c} }} {R} {n}", "fhb"),
    ("&sum {{ {v} * {w} }} {R} {n}", "fhb"), ("&sum {{ {u} ; {k} * ({v} + {n}) * ({w} - {k}) }} {R} {n}", "fhb"), ("&sum {{ {u} }} {R} {v} * {w}", "fhb"),
    ("&sum {{ {v} * {v} }} {R} {n}", "fhb"), ("&sum {{ {v} ** 2 }} {R} {n}", "fhb"), ("&sum {{ 2 ** {v} }} {R} {n}", "fhb"), ("&sum {{ {v} / {k} }} {R} {n}", "fhb"),
    ("&sum {{ {k} / {v} }} {R} {n}", "fhb"), ("&sum {{ {w} ; {v} \\ {k} }} {R} {n}", "fhb"), ("&sum {{ {v} }} {R} {w} / {k}", "fhb"),
    ("&sum {{ {k} / 0 ; {v} }} {R} {n}", "fhb"), ("&sum {{ {v} }} {R} {k} \\ 0", "fhb"), ("&sum {{ 0 ** (- {k}) ; {v} }} {R} {n}", "fhb"),
    ("&sum {{ {v} }} {R} {k} / ({k} - {k})", "fhb"), ("&sum {{ f({v}+{w}) }} {R} {n}", "fhb"), ("&sum {{ f({k}/0) }} {R} {n}", "fhb"), ("&sum {{ f(- \"s\") }} {R} {n}", "fhb"),
    ("&sum {{ f(- (1,2)) }} {R} {n}", "fhb"), ("&sum {{ [{v}] }} {R} {n}", "fhb"), ("&sum {{ {{{v}}} }} {R} {n}", "fhb"), ("&sum {{ f([{v}]) }} {R} {n}", "fhb"),
    ("&sum {{ {v} }} {R} [{k}]", "fhb"), ("&sum {{ ({v},{w}) / 2 }} {R} {n}", "fhb"), ("&sum {{ {k} * {v} : {q}(X), {c} }} {R} {n}", "fhb"),
    ("&sum {{ 1 / (I - 2) ; {v} : {q}(I) }} {R} {n}", "fhb"), ("&sum {{ {v} / I : {q}(I) }} {R} {n}", "fhb"),
    ("&sum {{ \"a\" * \"b\" }} {R} {n}", "fhb"), ("&sum {{ ({v} + 1) * ({w} + 1) - {v} * {w} + 0 * {u} * {v} }} {R} {n}", "fhb"),
    # rejected by the theory definition
    ("&sum {{ {v}..{w} }} {R} {n}", "fhb"), ("&sum {{ 1..{k} }} {R} {n}", "fhb"), ("&sum {{ {v} }} {R} 1..{k}", "fhb"), ("&sum {{ {v} @ {k} }} {R} {n}", "fhb"),
    ("&sum {{ {v} }} << {n}", "fhb"), ("&sum {{ {v} }} == {n}", "fhb"), ("&sum {{ {v} }} ++ {n}", "fhb"), ("&sum {{ {v} }} <= {n} <= {k}", "fhb"),
    ("&sum({k}) {{ {v} }} {R} {n}", "fhb"), ("&summ {{ {v} }} {R} {n}", "fhb"), ("&sums {{ {v} }} {R} {n}", "fhb"), ("&sum {{ + {v} }} {R} {n}", "fhb"), ("&sum {{ not {v} }} {R} {n}", "fhb"),
    ("&sum {{ {v} & {w} }} {R} {n}", "fhb"), ("&sum {{ {v} ? {w} }} {R} {n}", "fhb"), ("&sum {{ {v} ** ** {w} }} {R} {n}", "fhb"), ("&sum {{ X }} {R} {n}", "fhb"),
    ("&sum {{ {v} : {q}(X) }} {R} Y", "fhb"),
    # syntax errors
    ("&sum {{ {v} }} {R}", "fhb"), ("&sum {{ {v} {R} {n}", "fhb"), ("&sum {v} }} {R} {n}", "fhb"), ("& {{ {v} }} {R} {n}", "fhb"), ("&sum {{ {v} ; }} {R} {n}", "fhb"),
    ("&sum {{ {v} + }} {R} {n}", "fhb"), ("&sum {{ {v} {w} }} {R} {n}", "fhb"), ("&sum {{ 3{v} }} {R} {n}", "fhb"), ("&sum {{ f( }} {R} {n}", "fhb"), ("&sum {{ \"a }} {R} {n}", "fhb"),
    ("&sum {{ {v} }} {R} {n} ;", "f"), ("&sum {{ {v} }} {R} {n} | {c}", "f"), ("{c} ; &sum {{ {v} }} {R} {n}", "f"), ("{{ &sum {{ {v} }} {R} {n} }}", "f"), ("not &sum {{ {v} }} {R} {n}", "f"),
    # nonlinear sums
    ("&nsum {{ {v} * {w} }}", "fhb"), ("&nsum {{ {v} * {w} * {u} }} {R} {n}", "fhb"), ("&nsum {{ {v} * {w} ; {w} * {u} }} {R} {n}", "fhb"), ("&nsum {{ {v} * {w} ; {u} }} {R} {v}", "fhb"),
    ("&nsum {{ {v} ; {w} }} {R} {n}", "fhb"), ("&nsum {{ {v} * {w} }} {R} {v} * {u}", "fhb"), ("&nsum {{ {v} ** 2 }} {R} {n}", "fhb"), ("&nsum {{ {v} * {w} : {c} }} {R} {n}", "fhb"),
    ("&nsum {{ ({v} + {w}) * {u} }} {R} {n}", "fhb"), ("&nsum {{ ({v} + 1) * ({w} + 1) }} {R} {n}", "fhb"), ("&nsum {{ {v} * {w}, {k} }} {R} {n}", "fhb"), ("&nsum {{ {v} * {v} * {v} }} {R} {n}", "fhb"),
    ("&nsum {{ {v} * {v} ; {v} * {w} }} {R} {n}", "fhb"), ("&nsum {{ {v} * {w} / {u} }} {R} {n}", "fhb"), ("&nsum {{ {v} * {w} ; {k} / 0 }} {R} {n}", "fhb"), ("&nsum {{ {v} * {w} }} << {n}", "fhb"),
    ("&nsum {{ {v} * [{w}] }} {R} {n}", "fhb"), ("&nsum {{ {v} * {w} ; {u} ; {w} }} {R} {n}", "fhb"),
    # difference constraints
    ("&diff {{ {v} - {w} }} >= {n}", "fhb"), ("&diff {{ {v} - {w} }} = {n}", "fhb"), ("&diff {{ {v} - {w} }} < {n}", "fhb"), ("&diff {{ {v} - {w} }} != {n}", "fhb"), ("&diff {{ {v} - {w} }} > {n}", "fhb"),
    ("&diff {{ {v} - {w} }}", "fhb"), ("&diff {{ {v} - {w} }} <= {u}", "fhb"), ("&diff {{ {v} - {w} ; {w} - {u} }} <= {n}", "fhb"), ("&diff {{ {v} + {w} }} <= {n}", "fhb"), ("&diff {{ {v} }} <= {n}", "fhb"),
    ("&diff {{ {k} }} <= {n}", "fhb"), ("&diff {{ {v} - {w} - {u} }} <= {n}", "fhb"), ("&diff {{ {k} * {v} - {w} }} <= {n}", "fhb"), ("&diff {{ {v} - {k} * {w} }} <= {n}", "fhb"),
    ("&diff {{ {v} - {w} : {c} }} <= {n}", "fhb"), ("&diff {{ {v} - {w} : {q}(X) }} <= {n}", "fhb"), ("&diff {{ {v} - g(X) : {q}(X) }} <= {n}", "fhb"), ("&diff {{ }} <= {n}", "fhb"), ("&diff {{ {v} , {w} }} <= {n}", "fhb"),
    ("&diff {{ - {v} }} <= {n}", "fhb"), ("&diff {{ {v} * {w} }} <= {n}", "fhb"), ("&diff {{ {v} - {w} }} <= {n} / 0", "fhb"), ("&diff {{ {v} - [{w}] }} <= {n}", "fhb"), ("&diff {{ ({v} + {k}) - {w} }} <= {n}", "fhb"),
    # domains
    ("&dom {{ 1..{k} }}", "fh"), ("&dom {{ {v} }} = {w}", "fh"), ("&dom {{ 1..{v} }} = {w}", "fh"), ("&dom {{ {v}..{k} }} = {w}", "fh"), ("&dom {{ (1..2)..{k} }} = {w}", "fh"), ("&dom {{ (1,{k}) }} = {w}", "fh"),
    ("&dom {{ f({k}) }} = {w}", "fh"), ("&dom {{ \"s\" }} = {w}", "fh"), ("&dom {{ 1..{k} }} <= {w}", "fh"), ("&dom {{ 1..{k} }} = {w} + 1", "fh"), ("&dom {{ 1..{k} : {c} }} = {w}", "fh"),
    ("&dom {{ 1..{k} ; 0..2 : {c} }} = {w}", "fh"), ("&dom {{ 0..{k} ; {n} : {c} }} = {w}", "fh"), ("&dom {{ 1, {k} }} = {w}", "fh"), ("&dom {{ {k}/0 }} = {w}", "fh"), ("&dom {{ 1..{k} }} = {n}", "fh"),
    ("&dom {{ 1..{k} }} = {w}", "b"), ("&dom {{ X..{k} : {q}(X), {c} }} = {w}", "fh"), ("&dom {{ 1..{k} }} = [{w}]", "fh"), ("&dom {{ 1..{k} }} != {w}", "fh"), ("&dom {{ - {v} }} = {w}", "fh"), ("&dom({k}) {{ 1..{k} }} = {w}", "fh"),
    # distinct and disjoint
    ("&distinct {{ {v} * {w} ; {u} }}", "fh"), ("&distinct {{ {v} ; {w} }} {R} {n}", "fh"), ("&distinct {{ {v} : {c} ; {w} }}", "fh"), ("&distinct {{ {v}, {w} }}", "fh"), ("&distinct {{ {v} / {k} ; {w} }}", "fh"),
    ("&distinct {{ {v} ; {w} }}", "b"), ("&distinct {{ {v} ; 1..{k} }}", "fh"), ("&distinct {{ {v} ; {k} / 0 }}", "fh"), ("&distinct {{ {v} ; [{w}] }}", "fh"), ("&distinct {{ {v} ; {w} + {u} * {u} }}", "fh"),
    ("&disjoint {{ {v} ; {w} }}", "fh"), ("&disjoint {{ {v} @ {u} ; {w} @ {k} }}", "fh"), ("&disjoint {{ {v} @ {k} : {c} ; {w} @ {k} }}", "fh"), ("&disjoint {{ {n} @ {k} ; {w} @ {k} }}", "fh"),
    ("&disjoint {{ {v} + 1 @ {k} ; {w} @ {k} }}", "fh"), ("&disjoint {{ {k} * {v} @ {k} ; {w} @ {k} }}", "fh"), ("&disjoint {{ {v} @ {k} @ {k} ; {w} @ {k} }}", "fh"), ("&disjoint {{ {v} @ ({k} @ {k}) ; {w} @ {k} }}", "fh"),
    ("&disjoint {{ f({v} @ {k}) @ {k} ; {w} @ {k} }}", "fh"), ("&disjoint {{ {v} , {k} ; {w} @ {k} }}", "fh"), ("&disjoint {{ {v} @ {k}, {k} ; {w} @ {k} }}", "fh"), ("&disjoint {{ {v} @ {k} ; {w} @ {k} }} = {n}", "fh"),
    ("&disjoint {{ {v} @ {k} ; {w} @ {k} }}", "b"), ("&disjoint {{ {v} @ f({k}) ; {w} @ {k} }}", "fh"), ("&disjoint {{ {v} @ {k} / 0 ; {w} @ {k} }}", "fh"), ("&disjoint {{ [{v}] @ {k} ; {w} @ {k} }}", "fh"),
    ("&disjoint {{ {v} @ {k} ; {w} @ {k} ; {u} - {k} }}", "fh"),
    # directives
    ("&minimize {{ {v} * {w} }}", "d"), ("&minimize {{ {v} : {c} }}", "d"), ("&minimize {{ {v} ; {k} * {w} : {q}(X), {c} }}", "d"), ("&minimize {{ {v}, 1 }}", "d"), ("&minimize {{ {v} @ {k} }}", "d"), ("&minimize {{ {v} }}", "hb"),
    ("&minimize {{ {v} }} {R} {n}", "d"), ("&minimize {{ {v} / {k} }}", "d"), ("&minimize {{ [{v}] }}", "d"), ("&minimize {{ {v} ; {k} / 0 }}", "d"), ("&maximize {{ {v} ** {k} }}", "d"), ("&maximize {{ {v} * {w} ; {u} }}", "d"),
    ("&maximize {{ {v} : {c} }}", "d"), ("&maximize {{ {v} }}", "hb"), ("&maximize {{ {v}, 1 }}", "d"), ("&minimise {{ {v} }}", "d"), ("&minimize", "hb"),
    ("&show {{ {n} }}", "d"), ("&show {{ {v} + {n} }}", "d"), ("&show {{ {v} + {w} }}", "d"), ("&show {{ {v} - {w} }}", "d"), ("&show {{ sx/{v} }}", "d"), ("&show {{ f(x)/{k} }}", "d"), ("&show {{ {k}/{k} }}", "d"), ("&show {{ \"s\"/{k} }}", "d"),
    ("&show {{ sx/(- {k}) }}", "d"), ("&show {{ {v} : {c} }}", "d"), ("&show {{ sx/1 : {c} }}", "d"), ("&show {{ {v}, {w} }}", "d"), ("&show {{ sx/1, {v} }}", "d"), ("&show {{ {v} }}", "hb"), ("&show {{ {v} }} {R} {n}", "d"), ("&show {{ {k} * {k} }}", "d"),
    ("&show {{ {v} ** {k} }}", "d"), ("&show {{ f(1..2) }}", "d"), ("&show {{ [{v}] }}", "d"), ("&show {{ sx/\"s\" }}", "d"), ("&show {{ f({k}/0) }}", "d"),
]


class Bad:
    """An invalid statement."""

    def __init__(self, rng, names, kind=None):
        t, ctx = rng.choice(TABLE) if kind is None else TABLE[kind]
        self.kind = TABLE.index((t, ctx))
        vs = list(names)
        rng.shuffle(vs)
        # Note: names that look like terms with operators are fine in sums only
        vs = [v for v in vs if not v.startswith(("-", "\""))]
        vs = (["vx", "vy(1)", "vz"] if len(vs) < 3 or rng.random() < 0.4 else vs)[:3]
        k = rng.choice([2, 3, 5, 9])
        n = rng.choice([-3, -1, 1, 2, 7])
        fill = dict(v=vs[0], w=vs[1], u=vs[2], k=k, n=n, c="zzc", q="zzq", R=rng.choice(["<=", ">=", "<", ">", "=", "!="]))
        self.atom = t.format(**fill)
        c = rng.choice(ctx)
        neg = "" if c != "b" or rng.random() < 0.6 else rng.choice(["not ", "not not "])
        self.lines = ["{zzc}.", "zzq(1..3)."]
        if c in "fd":
            self.lines.append(self.atom + ".")
        elif c == "h":
            self.lines.append(self.atom + " :- " + rng.choice(["zzc", "not zzc", "zzq(I), zzc", "zzc, zzq(2)"]) + ".")
        else:
            self.lines.append(rng.choice([":- %s%s.", "zzd :- %s%s.", ":- zzc, %s%s.", "zzd :- %s%s, not zzc.", "{zzd} :- %s%s, zzq(I)."]) % (neg, self.atom))
        self.ctx = c


def valid_member(rng, seed, suffix):
    """A valid program with fresh objects; returns operations, offset of solving, program."""
    pr = gen.program(seed, {"maxsols": 150})
    conf = list(pr.conf.items()) + gen.clingcon_conf(rng, True)
    args = ["0"] + gen.clasp_args(rng, rng.random() < 0.3)
    ops = []
    for op in work.setup_ops(args, conf, pr.text) + [["solve", "t", "c"]]:
        ops.append([op[0]] + [x + suffix if i < 2 and x in ("t", "c") else x for i, x in enumerate(op[1:])])
    return ops, pr


def judge_valid(pr, r, si):
    d = r.ops.get(si)
    if d is None or not d["ok"]:
        return "error", "%s" % d
    if not (d["res"] & 4):
        return "notexhausted", "%s" % d
    return enum.compare(pr, r.models.get(si, []))


def reject_task(acc, pid, exe, seed, n):
    rng = random.Random("reject/%s/%s" % (pid, seed))
    jobs, info = [], {}
    for i in range(n):
        while True:
            base = gen.program("%s/reject/%s/%d.%d" % (pid, seed, i, rng.randrange(1 << 30)), {"maxsols": 150})
            if base.sols:
                break
        bad = Bad(rng, base.ivars, None if rng.random() < 0.5 else (hash_int(seed) + i) % len(TABLE))
        conf = list(base.conf.items()) + gen.clingcon_conf(rng, True)
        if rng.random() < 0.2:
            conf.append(("shift-constraints", "1"))
        args = ["0"] + gen.clasp_args(rng, rng.random() < 0.3)
        ops, checks = [], []
        early = rng.random() < 0.3
        if early:  # objects that exist already when the input is rejected
            o, pr0 = valid_member(rng, "%s/reject/%s/%d/early" % (pid, seed, i), "0")
            ops += o[:-1] if rng.random() < 0.5 else o
            if ops[-1][0] == "solve":
                checks.append((len(ops) - 1, pr0))
                if rng.random() < 0.5:
                    ops += [["delc", "c0"], ["delt", "t0"]]
                early = False
        setup = [["new", "c"] + args, ["theory", "t"]] + [["conf", "t", k, v] for k, v in conf] + [["reg", "t", "c"]]
        ops += setup
        first = len(ops)
        later = rng.random() < 0.3
        if later:
            # Note: see clasp's defects in DESIGN.md
            ops[first - len(setup)] = [x for x in setup[0] if x != "--heuristic=vmtf" and x[-5:] != "handy"]
            ops += [["text", "t", "c", base.text], ["ground", "c", "base"], ["prepare", "t", "c"], ["solve", "t", "c"]]
            checks.append((len(ops) - 1, base))
            first = len(ops)
            ops += [["text", "t", "c", "#program bad.\n" + "\n".join(bad.lines)], ["ground", "c", "bad"], ["prepare", "t", "c"]]
        else:
            lines = base.text.split("\n")
            # Note: lines of the program can be spread over several lines of text
            lines = bad.lines + lines if rng.random() < 0.5 else lines + ["#program base."] + bad.lines
            ops += [["text", "t", "c", "\n".join(lines)], ["ground", "c", "base"], ["prepare", "t", "c"]]
        ops += [["solve", "t", "c", "limit=20"]]
        last = len(ops) - 1
        # what is done with the rejected objects
        for x in rng.sample([["stats", "c"], ["lookup", "t", base.ivars[0] if base.ivars else "x"], ["msgs", "c"], ["cfgget", "c", "solver.0.heuristic"]], rng.randrange(3)):
            ops.append(x)
        if rng.random() < 0.8:
            ops += [["delc", "c"], ["delt", "t"]] if rng.random() < 0.7 else [["delt", "t"], ["delc", "c"]]
        o, pr = valid_member(rng, "%s/reject/%s/%d/next" % (pid, seed, i), "1")
        if early:
            ops.append(["solve", "t0", "c0"])
            checks.append((len(ops) - 1, pr0))
        ops += o
        checks.append((len(ops) - 1, pr))
        jid = str(i)
        jobs.append({"id": jid, "ops": ops, "timeout": 20, "cont": True})
        info[jid] = (bad, base, first, last, checks)
    for i in range(0, len(jobs), 30):
        part = jobs[i:i + 30]
        results = vlib.run_jobs(exe, part, nproc=1)
        for job in part:
            bad, base, first, last, checks = info[job["id"]]
            r = results[job["id"]]
            acc.evals += 1
            what = "invalid statement: %s\nprogram:\n%s" % (" ".join(bad.lines), base.text)
            if not work.crash_check(acc, r, job, exe, what):
                continue
            replay = {"job": job, "variant": work.variant(exe)}
            errs = [r.ops[k] for k in range(first, last + 1) if not r.ops[k]["ok"]]
            ms = r.models.get(last, [])
            ok = True
            # solving after an error of an earlier call goes on with what was accepted before
            if not errs or ms and errs[0]["op"] == "solve":
                acc.viol("accepted:%s" % TABLE[bad.kind][0], "invalid statement accepted (%d answers)\n%s" % (len(ms), what), replay)
                continue
            if not errs[0]["err"]:
                acc.viol("message", "error without message\n%s" % what, replay)
                continue
            acc.count("rejected_in_" + errs[0]["op"])
            for si, pr in checks:
                v = judge_valid(pr, r, si)
                if v:
                    acc.viol("other:" + v[0], "%s\nobjects working independently of or before rejected input\n%s\nprogram:\n%s" % (v[1], what, pr.text), replay)
                    ok = False
                    break
            if ok:
                acc.count("context_" + bad.ctx)
                acc.seen(bad.kind, bad.ctx, bad.atom, len(checks))
    acc.samples.append({"invalid": bad.lines[-1], "error": errs[0]["err"] if errs else None})


def hash_int(s):
    return int("".join(c for c in str(s) if c.isdigit()) or "0")


# ---------------------------------------------------------------- random mutations
TOKENS = ("&sum &nsum &diff &dom &distinct &disjoint &minimize &maximize &show { } ( ) [ ] , ; : . :- not #show #program base | = != < > <= >= + - * / \\ ** .. @ & % %* *% "
          "\" 'x' x y X Y _ 0 1 2 3 -1 f(x) \"s\" #sup #inf #true #false #sum #count #external #const #theory cp __sum_h &__sum_b {x} if ~ ^ ? $").split()


CLASSES = [["&sum", "&nsum", "&diff", "&dom", "&distinct", "&disjoint", "&minimize", "&maximize", "&show"], ["<=", ">=", "<", ">", "=", "!="],
           ["+", "-", "*", "/", "\\", "**", "..", "@"], [";", ",", ":"], ["not", "not not", ""]]


def mutate(rng, text):
    import re
    toks = re.findall(r"\s+|[A-Za-z_#&]\w*|\d+|[^\w\s]+", text)
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        if not toks:
            break
        i = rng.randrange(len(toks))
        k = rng.randrange(9) if rng.random() < 0.5 else 9
        if k == 9:
            # tokens replaced by others of the same kind are accepted by clingo more often
            cls = [c for c in CLASSES if toks[i] in c]
            if cls:
                toks[i] = rng.choice(cls[0])
            elif toks[i].isdigit():
                toks[i] = rng.choice(["0", "1", "2", "x", "f(x)", "(1+1)", "\"s\"", "-1", "(x,y)", "(1/0)", "x*y", "x/2", "2**2", "1..2"])
            elif re.match(r"[a-z]\w*$", toks[i]):
                toks[i] = rng.choice(["0", "1", "v(1)", "x", "f(x)", "\"s\"", "-x", "(x,y)", "x+1", "2*x", "x@2", "x/1", "x-y", "x*y", "[x]", "X", "I"])
        elif k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, " " + rng.choice(TOKENS) + " ")
        elif k == 2:
            toks[i] = rng.choice(TOKENS)
        elif k == 3:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 4:
            j = min(len(toks), i + rng.randrange(1, 8))
            toks[i:i] = toks[i:j]
        elif k == 5:
            j = min(len(toks), i + rng.randrange(1, 12))
            del toks[i:j]
        elif k == 6:
            s = toks[i]
            p = rng.randrange(len(s) + 1)
            toks[i] = s[:p] + rng.choice(["{", "}", "\"", "\\", "\n", "\t", ".", "(", ")", "é", "\x01", "\x7f", "%", "@", "&", "#"]) + s[p:]
        elif k == 7:
            toks = toks[:i]
        else:
            # replace a theory atom name
            at = [j for j, t in enumerate(toks) if t.startswith("&")]
            if at:
                toks[rng.choice(at)] = rng.choice(["&sum", "&nsum", "&diff", "&dom", "&distinct", "&disjoint", "&minimize", "&maximize", "&show"])
    return "".join(toks)


def fuzz_task(acc, pid, exe, seed, n):
    """Mutated programs: whatever happens, there is no crash and fresh objects work."""
    rng = random.Random("fuzz/%s/%s" % (pid, seed))
    jobs, info = [], {}
    for i in range(n):
        base = gen.program("%s/fuzz/%s/%d" % (pid, seed, i), {"maxsols": 150, "syntax": 1, "nonground": 0})
        text = mutate(rng, base.text)
        conf = list(base.conf.items()) + gen.clingcon_conf(rng, True)
        args = ["0"] + gen.clasp_args(rng, rng.random() < 0.2)
        ops = [["new", "c"] + args, ["theory", "t"]] + [["conf", "t", k, v] for k, v in conf] + [["reg", "t", "c"]]
        first = len(ops)
        ops += [["text", "t", "c", text], ["ground", "c", "base"], ["prepare", "t", "c"], ["solve", "t", "c", "limit=20"], ["delc", "c"], ["delt", "t"]]
        o, pr = valid_member(rng, "%s/fuzz/%s/%d/next" % (pid, seed, i), "1")
        ops += o
        jobs.append({"id": str(i), "ops": ops, "timeout": 6, "cont": True})
        info[str(i)] = (text, first, len(ops) - 1, pr)
    for i in range(0, len(jobs), 30):
        part = jobs[i:i + 30]
        results = vlib.run_jobs(exe, part, nproc=1, retry_timeouts=False)
        for job in part:
            text, first, si, pr = info[job["id"]]
            r = results[job["id"]]
            if r.timeout:
                acc.count("mutations_with_timeout")
                continue
            acc.evals += 1
            if not work.crash_check(acc, r, job, exe, "mutated program:\n" + text):
                continue
            errs = [r.ops[k] for k in range(first, first + 4) if not r.ops[k]["ok"]]
            acc.count("mutation_" + ("rejected_in_" + errs[0]["op"] if errs else "accepted"))
            v = judge_valid(pr, r, si)
            if v:
                acc.viol("other:" + v[0], "%s\nobjects used after mutated input\n%s\nprogram:\n%s" % (v[1], text, pr.text), {"job": job, "variant": work.variant(exe)})
