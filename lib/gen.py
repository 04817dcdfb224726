"""Random programs with an independent semantics.

A program is generated together with its meaning: every statement carries its text (what clingcon reads) and a
function over numpy arrays (what it means). The oracle evaluates the meaning over the whole box of choice atoms and
integer variables, so no solver of any kind is involved. Array axes: one per choice, one per integer variable.
"""
import random
import re
import numpy as np

RELS = ["<=", "<", ">=", ">", "=", "!="]


def rel_eval(rel, a, b):
    if rel == "<=":
        return a <= b
    if rel == "<":
        return a < b
    if rel == ">=":
        return a >= b
    if rel == ">":
        return a > b
    if rel == "=":
        return a == b
    if rel == "!=":
        return a != b
    raise ValueError(rel)


class Env:
    """Axis-aligned arrays for all choices and integer variables."""

    def __init__(self, choices, ivars):
        n = len(choices) + len(ivars)
        self.shape = [2] * len(choices) + [v.hi - v.lo + 1 for v in ivars]
        self.B, self.I = {}, {}
        for i, c in enumerate(choices):
            sh = [1] * n
            sh[i] = 2
            self.B[c] = np.array([False, True]).reshape(sh)
        for i, v in enumerate(ivars):
            k = len(choices) + i
            sh = [1] * n
            sh[k] = self.shape[k]
            self.I[v.name] = np.arange(v.lo, v.hi + 1, dtype=np.int64).reshape(sh)
        self.n = n
        self.mask = np.ones([1] * n, dtype=bool)

    def require(self, m):
        self.mask = self.mask & m


class IVar:
    __slots__ = ("name", "lo", "hi")

    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi


# ---------------------------------------------------------------- expressions
# A linear expression: (text, precedence, {var: co}, const); precedence as in clingcon's theory definition:
# 0: + -, 1: * / \, 2: **, 3: unary -, 9: atom
class Lin:
    __slots__ = ("t", "p", "co", "c")

    def __init__(self, t, p, co, c):
        self.t, self.p, self.co, self.c = t, p, co, c

    def isconst(self):
        return not self.co

    def ev(self, env):
        r = np.int64(self.c)
        for v, k in self.co.items():
            r = r + k * env.I[v]
        return r


def ladd(a, b, s=1):
    co = dict(a)
    for k, v in b.items():
        co[k] = co.get(k, 0) + s * v
    return co


class G:
    """Generator state."""

    def __init__(self, rng, profile=None):
        self.r = rng
        self.p = {"sum": 6, "diff": 3, "distinct": 1, "disjoint": 1, "nsum": 1, "dom": 1.5, "rule": 3, "integrity": 3,
                  "nonground": 1.5, "objective": 0, "maxcombos": 60000, "maxsols": 400, "ints": (1, 4),
                  "choices": (0, 3), "width": (2, 8), "stmts": (2, 7), "shift": None, "show": 0.25, "rhsvars": 0.3,
                  "weird": 0.35, "clasp_min": 0, "assumeable": 0, "free": 0.3}
        self.p.update(profile or {})
        self.lines = []
        self.choices = []
        self.derived = []
        self.sem = []
        self.ivars = []
        self.conf = {}
        self.obj = []
        self.nth = 0
        self.features = set()

    # -------------------------------------------------------------- helpers
    def wrap(self, e, minp):
        if e.p < minp or self.r.random() < 0.06:
            return "(" + e.t + ")"
        return e.t

    def num(self, n):
        if n < 0:
            return Lin("-%d" % -n if self.r.random() < 0.7 else "- %d" % -n, 3, {}, n)
        return Lin(str(n), 9, {}, n)

    def var(self, v=None):
        v = v or self.r.choice(self.ivars)
        return Lin(v.name, 9, {v.name: 1}, 0)

    def op(self, a, o, b, p, co, c, right=False):
        lt = self.wrap(a, p if not right else p + 1)
        rt = self.wrap(b, p + 1 if not right else p)
        sp = " " if rt[0] in "-" or self.r.random() < 0.3 or o in ("/", "\\", "**") else ""
        return Lin(lt + sp + o + sp + rt, p, co, c)

    def cexpr(self, depth, small=4):
        """A constant expression."""
        r = self.r
        if depth <= 0 or r.random() < 0.5:
            return self.num(r.randint(-small, small))
        k = r.randrange(7)
        a = self.cexpr(depth - 1, small)
        b = self.cexpr(depth - 1, small)
        if k == 0:
            return self.op(a, "+", b, 0, {}, a.c + b.c)
        if k == 1:
            return self.op(a, "-", b, 0, {}, a.c - b.c)
        if k == 2:
            return self.op(a, "*", b, 1, {}, a.c * b.c)
        if k == 3 and 0 <= b.c <= 3 and abs(a.c) <= 6:
            return self.op(a, "**", b, 2, {}, a.c ** b.c, right=True)
        if k == 4 and b.c != 0:
            # integer division truncates as in clingo
            q = abs(a.c) // abs(b.c) * (1 if (a.c >= 0) == (b.c > 0) else -1)
            if a.c >= 0 and b.c > 0:
                return self.op(a, "/", b, 1, {}, q)
        if k == 5 and b.c > 0 and a.c >= 0:
            return self.op(a, "\\", b, 1, {}, a.c % b.c)
        if k == 6:
            return Lin("-" + self.wrap(a, 4 if a.t.startswith("-") else 9), 3, {}, -a.c)
        return a

    def lexpr(self, depth, vs=None):
        """A linear expression."""
        r = self.r
        vs = vs or self.ivars
        if depth <= 0 or r.random() < 0.35:
            k = r.random()
            if k < 0.6:
                return self.var(r.choice(vs))
            if k < 0.92:
                v = self.var(r.choice(vs))
                c = self.cexpr(1 if r.random() < 0.3 else 0)
                co = {k2: v2 * c.c for k2, v2 in v.co.items()}
                return self.op(c, "*", v, 1, co, 0) if r.random() < 0.7 else self.op(v, "*", c, 1, co, 0)
            return self.cexpr(1)
        k = r.randrange(5)
        if k <= 1:
            a, b = self.lexpr(depth - 1, vs), self.lexpr(depth - 1, vs)
            return self.op(a, "+", b, 0, ladd(a.co, b.co), a.c + b.c)
        if k == 2:
            a, b = self.lexpr(depth - 1, vs), self.lexpr(depth - 1, vs)
            return self.op(a, "-", b, 0, ladd(a.co, b.co, -1), a.c - b.c)
        if k == 3:
            a, b = self.lexpr(depth - 1, vs), self.cexpr(1)
            co = {q: w * b.c for q, w in a.co.items()}
            return self.op(a, "*", b, 1, co, a.c * b.c) if r.random() < 0.5 else self.op(b, "*", a, 1, co, a.c * b.c)
        a = self.lexpr(depth - 1, vs)
        return Lin("-" + self.wrap(a, 4 if a.t.startswith("-") else 9), 3, {q: -w for q, w in a.co.items()}, -a.c)

    def name(self, base):
        self.nth += 1
        return "%s%d" % (base, self.nth)

    # -------------------------------------------------------------- atoms and bodies
    def blit(self, theory=0.0):
        """A body literal: (text, fn(env) -> bool array)."""
        r = self.r
        if r.random() < theory:
            t, f = self.tatom(body=True)
            k = r.random()
            self.features.add("body-" + t[1:5])
            if k < 0.6:
                return t, f
            if k < 0.9:
                return "not " + t, lambda e: ~f(e)
            return "not not " + t, f
        atoms = self.choices + self.derived
        if not atoms:
            return None
        a = r.choice(atoms)
        if r.random() < 0.5:
            return a, lambda e: e.B[a]
        return "not " + a, lambda e: ~e.B[a]

    def body(self, theory=0.0, maxn=2, minn=0):
        if self.p.get("plain"):
            # bodies that are equivalent to a single atom or have none
            theory, maxn = 0, min(maxn, 1)
        n = self.r.randint(min(minn, maxn), maxn)
        ls = [x for x in (self.blit(theory) for _ in range(n)) if x]
        if not ls:
            return "", lambda e: np.ones([1] * e.n, dtype=bool)

        def f(e):
            m = ls[0][1](e)
            for _, g in ls[1:]:
                m = m & g(e)
            return m
        return ", ".join(x[0] for x in ls), f

    def tatom(self, body, kind=None):
        """A (sum, diff, nsum) theory atom: (text, fn(env))."""
        r = self.r
        w = [("sum", self.p["sum"]), ("diff", self.p["diff"]), ("nsum", self.p["nsum"])]
        if kind is None:
            kind = r.choices([x for x, _ in w], [y for _, y in w])[0]
        self.features.add(("b" if body else "h") + kind)
        if kind == "diff":
            vs = self.ivars
            a = self.var() if r.random() < 0.9 else self.num(r.randint(0, 3))
            b = self.var() if r.random() < 0.9 else self.num(r.randint(0, 3))
            c = self.cexpr(1 if r.random() < 0.2 else 0, 6)
            text = "&diff { %s - %s } <= %s" % (self.wrap(a, 9), self.wrap(b, 9), c.t)
            return text, lambda e: (a.ev(e) - b.ev(e)) <= c.c
        rel = r.choice(RELS)
        if kind == "nsum":
            return self.nsum(rel)
        n = r.choice([1, 1, 2, 2, 2, 3, 4])
        els = [self.lexpr(r.choice([0, 0, 0, 1, 1, 2])) for _ in range(n)]
        ets = []
        tot_co, tot_c = {}, 0
        for e in els:
            mult, t = 1, e.t
            if r.random() < 0.08 and self.facts():
                t, mult = e.t + " : d(J)", self.nd
            elif r.random() < 0.05 and self.facts():
                # weighted by the condition variable
                t = "J*(%s) : d(J)" % e.t if r.random() < 0.5 else "(%s)*J : d(J), J >= 0" % e.t
                mult = sum(self.dvals) if t.startswith("J") else sum(x for x in self.dvals if x >= 0)
            tot_co = ladd(tot_co, e.co, mult)
            tot_c += mult * e.c
            ets.append(t)
        vs = [v for v in tot_co]
        # a bound close to the range of the sum
        lo = hi = tot_c
        for v, k in tot_co.items():
            iv = next(x for x in self.ivars if x.name == v)
            lo += min(k * iv.lo, k * iv.hi)
            hi += max(k * iv.lo, k * iv.hi)
        bound = r.randint(lo, hi) if r.random() < 0.85 and hi - lo < 10 ** 6 else r.randint(lo - 2, hi + 2)
        if r.random() < self.p["rhsvars"]:
            rhs = self.lexpr(r.choice([0, 1]))
            if r.random() < 0.5:
                c = self.num(r.randint(-4, 4))
                rhs = self.op(rhs, "+", c, 0, rhs.co, rhs.c + c.c)
        else:
            rhs = self.num(bound) if r.random() < 0.8 else self.cexpr(2, 6)
        text = "&sum { %s } %s %s" % ("; ".join(ets), rel, rhs.t)

        def f(e):
            s = np.int64(tot_c)
            for v, k in tot_co.items():
                s = s + k * e.I[v]
            return rel_eval(rel, s, rhs.ev(e))
        return text, f

    def nsum(self, rel):
        r = self.r
        x, y = r.choice(self.ivars), r.choice(self.ivars)
        a = r.choice([1, 1, 1, -1, 2, -2, 3, 0] if r.random() < 0.5 else [1, -1, 2])
        form = r.randrange(5)
        if form == 0:
            prod = "%s*%s" % (x.name, y.name) if a == 1 else "%d*%s*%s" % (a, x.name, y.name)
        elif form == 1:
            prod = "%s*%s*%s" % (x.name, y.name, a if a >= 0 else "(%d)" % a)
        elif form == 2:
            prod = "(%d)*(%s*%s)" % (a, x.name, y.name)
        elif form == 3:
            prod = "-(%d*%s)*%s" % (-a, x.name, y.name) if -a >= 0 else "-(-%d*%s)*%s" % (a, x.name, y.name)
        else:
            prod = "%d*%s*%s; %d*%s*%s" % (a - 1, x.name, y.name, 1, y.name, x.name)
        els = [prod]
        co, z = 0, None
        if r.random() < 0.6:
            z = r.choice(self.ivars)
            co = r.choice([1, -1, 2, -3])
            els.append("%d*%s" % (co, z.name) if co != 1 else z.name)
        c = 0
        if r.random() < 0.3:
            c = r.randint(-4, 4)
            els.append(str(c))
        r.shuffle(els)
        vals = [a * p * q for p in (x.lo, x.hi) for q in (y.lo, y.hi)]
        bound = r.randint(min(vals) - 1, max(vals) + 1)
        if abs(bound) > 1 << 29:  # numbers have 32 bits
            bound = r.choice([-1, 1]) * r.randint(0, 1 << 29)
        rt = str(bound)
        rco, rz = 0, None
        if z is None and r.random() < 0.3:
            rz, rco = r.choice(self.ivars), r.choice([1, -1, 2])
            rt = "%s + %d*%s" % (bound, rco, rz.name) if bound >= 0 else "%d*%s - %d" % (rco, rz.name, -bound)
        self.features.add("nsum")

        def f(e):
            s = a * e.I[x.name] * e.I[y.name] + c
            if z is not None:
                s = s + co * e.I[z.name]
            rh = np.int64(bound)
            if rz is not None:
                rh = rh + rco * e.I[rz.name]
            return rel_eval(rel, s, rh)
        return "&nsum { %s } %s %s" % ("; ".join(els), rel, rt), f

    dvals = None

    def facts(self):
        if self.dvals is None:
            k = self.r.randint(1, 3)
            form = self.r.randrange(3)
            if form == 0:
                self.dvals = list(range(1, k + 1))
                self.lines.append("d(1..%d)." % k)
            elif form == 1:
                self.dvals = sorted(self.r.sample(range(-2, 5), k))
                self.lines.append("d(%s)." % ";".join(map(str, self.dvals)))
            else:
                self.dvals = sorted(self.r.sample(range(-2, 5), k))
                self.lines += ["d(%d)." % i for i in self.dvals]
        self.nd = len(self.dvals)
        return True

    # -------------------------------------------------------------- statements
    def add(self, line, sem=None):
        self.lines.append(line)
        if sem:
            self.sem.append(sem)

    def rule_head_constraint(self, text, f, body=None, theory=0.25):
        bt, bf = body or self.body(theory)
        self.add(text + (" :- " + bt if bt else "") + ".", lambda e: e.require(~bf(e) | f(e)))

    def s_head(self, kind=None):
        t, f = self.tatom(body=False, kind=kind)
        self.rule_head_constraint(t, f)

    def s_rule(self):
        """A derived atom defined by one or two rules, possibly over theory atoms."""
        a = self.name("b")
        rules = [self.body(0.6, 2, 1) for _ in range(self.r.choice([1, 1, 2]))]
        rules = [(t, f) for t, f in rules if t]
        if not rules:
            t, f = self.tatom(body=True)
            rules = [(t, f)]
        for t, _ in rules:
            self.lines.append("%s :- %s." % (a, t))

        def sem(e):
            m = rules[0][1](e)
            for _, f in rules[1:]:
                m = m | f(e)
            e.B[a] = m
        self.sem.append(sem)
        self.derived.append(a)

    def s_integrity(self):
        t, f = self.body(0.7, 3, 1)
        if not t or "&" not in t and self.r.random() < 0.6:
            t2, f2 = self.tatom(body=True)
            if self.r.random() < 0.4:
                t2, f2 = "not " + t2, (lambda g: lambda e: ~g(e))(f2)
            t, f = (t + ", " + t2, (lambda p, q: lambda e: p(e) & q(e))(f, f2)) if t else (t2, f2)
        head = self.r.choice(["", "", "", "#false ", "not #true "])
        self.add(head + ":- " + t + ".", lambda e: e.require(~f(e)))
        self.features.add("integrity")

    def s_distinct(self):
        r = self.r
        n = r.randint(2, 4)
        els = []
        for _ in range(n):
            k = r.random()
            if k < 0.5:
                els.append(self.var())
            elif k < 0.6:
                els.append(self.cexpr(1))
            else:
                els.append(self.lexpr(r.choice([0, 1, 1, 2])))
        ets = [e.t for e in els]
        self.features.add("distinct")

        def f(e):
            vals = [x.ev(e) for x in els]
            m = np.ones([1] * e.n, dtype=bool)
            for i in range(n):
                for j in range(i):
                    m = m & (vals[i] != vals[j])
            return m
        self.rule_head_constraint("&distinct { %s }" % "; ".join(ets), f)

    def s_disjoint(self):
        r = self.r
        vs = r.sample(self.ivars, min(len(self.ivars), r.randint(2, 4)))
        if len(vs) > 1 and r.random() < 0.05:
            vs.append(vs[0])
        els = [(v, self.cexpr(r.choice([0, 0, 1]), 4) if r.random() < 0.5 else self.num(r.choice([1, 1, 2, 2, 3, 0, -1]))) for v in vs]
        self.features.add("disjoint")

        def fmt(v, c):
            t = self.wrap(c, 1)
            return "%s@%s" % (v.name, t if not t.startswith("-") else " " + t)

        def f(e):
            m = np.ones([1] * e.n, dtype=bool)
            for i in range(len(els)):
                for j in range(i):
                    (a, da), (b, db) = els[i], els[j]
                    if da.c > 0 and db.c > 0:
                        x, y = e.I[a.name], e.I[b.name]
                        m = m & ((x + da.c <= y) | (y + db.c <= x))
            return m
        self.rule_head_constraint("&disjoint { %s }" % "; ".join(fmt(v, c) for v, c in els), f)

    def domset(self, lo, hi):
        """A random set within [lo-1, hi+1] with a textual form."""
        r = self.r
        parts, vals = [], set()
        for _ in range(r.randint(1, 4)):
            if r.random() < 0.5:
                a = r.randint(lo - 1, hi + 1)
                b = a + r.randint(-1, 4)
                at, bt = self.wrap(self.num(a), 1), self.num(b).t
                parts.append("%s..%s" % (at, bt if not bt.startswith("-") else " " + bt))
                vals |= set(range(a, b + 1))
            else:
                a = r.randint(lo - 1, hi + 1)
                e = self.num(a)
                if r.random() < 0.2:
                    c = r.randint(1, 3)
                    e = self.op(self.num(a - c), "+", self.num(c), 0, {}, a)
                parts.append(e.t)
                vals.add(a)
        return "; ".join(parts), vals

    def s_dom(self, theory=0.3):
        v = self.r.choice(self.ivars)
        t, vals = self.domset(v.lo, v.hi)
        if not vals and self.r.random() < 0.8:
            return self.s_dom(theory)
        arr = np.array(sorted(vals), dtype=np.int64)
        self.features.add("dom")
        self.rule_head_constraint("&dom { %s } = %s" % (t, v.name), lambda e: np.isin(e.I[v.name], arr),
                                  body=self.body(theory, 2, 0))

    def s_nonground(self):
        """Statements with variables over v(1..n)."""
        r = self.r
        n = self.nv
        if not n:
            return self.s_head()
        self.features.add("nonground")
        k = r.randrange(8)
        vn = lambda i: "v(%d)" % i
        if not self.has_i:
            self.lines.append("i(1..%d)." % n)
            self.has_i = True
        if k == 0:
            rel, c = r.choice(RELS), r.randint(-2, 2)
            off = r.choice(["I", "I%+d" % c if c else "I", "2*I", "-I", "I*%d" % abs(c)])
            val = {"I": lambda i: i, "2*I": lambda i: 2 * i, "-I": lambda i: -i}.get(off)
            if val is None:
                val = (lambda i: i * abs(c)) if "*" in off else (lambda i: i + c)
            bt, bf = self.body(0.2, 1)
            self.add("&sum { v(I) } %s %s :- i(I)%s." % (rel, off, ", " + bt if bt else ""),
                     lambda e: [e.require(~bf(e) | rel_eval(rel, e.I[vn(i)], val(i))) for i in range(1, n + 1)])
        elif k == 1:
            c = r.randint(-3, 3)
            bt, bf = self.body(0.2, 1)
            self.add("&diff { v(I) - v(I+1) } <= %d :- i(I), i(I+1)%s." % (c, ", " + bt if bt else ""),
                     lambda e: [e.require(~bf(e) | (e.I[vn(i)] - e.I[vn(i + 1)] <= c)) for i in range(1, n)])
        elif k == 2:
            rel, c = r.choice(RELS), r.randint(-3, 6)
            w = r.choice([("v(I)", lambda i: 1), ("I*v(I)", lambda i: i), ("-v(I)", lambda i: -1), ("v(I)*(I-2)", lambda i: i - 2)])
            bt, bf = self.body(0.2, 1)
            self.add("&sum { %s : i(I) } %s %d%s." % (w[0], rel, c, " :- " + bt if bt else ""),
                     lambda e: e.require(~bf(e) | rel_eval(rel, sum(w[1](i) * e.I[vn(i)] for i in range(1, n + 1)), c)))
        elif k == 3:
            def f(e):
                m = np.ones([1] * e.n, dtype=bool)
                for i in range(1, n + 1):
                    for j in range(1, i):
                        m = m & (e.I[vn(i)] != e.I[vn(j)])
                return m
            self.features.add("distinct")
            self.rule_head_constraint("&distinct { v(I) : i(I) }", f)
        elif k == 4:
            rel, c = r.choice(RELS), r.randint(-2, 5)
            neg = r.random() < 0.4
            self.add(":- %s&sum { v(I) } %s %d, i(I), I %s 1." % ("not " if neg else "", rel, c, r.choice([">", ">=", ">="]) if n > 1 else ">="),
                     None)
            strict = self.lines[-1].endswith("I > 1.")
            self.sem.append(lambda e: [e.require(rel_eval(rel, e.I[vn(i)], c) if neg else ~rel_eval(rel, e.I[vn(i)], c))
                                       for i in range(2 if strict else 1, n + 1)])
        elif k == 5:
            # choice per index
            s = self.name("s")
            names = ["%s(%d)" % (s, i) for i in range(1, n + 1)]
            if len(self.choices) + n > 6:
                return
            self.lines.append("{ %s(I) : i(I) }." % s if r.random() < 0.5 else "{ %s(I) } :- i(I)." % s)
            self.choices += names
            rel, c = r.choice(RELS), r.randint(-2, 4)
            self.add("&sum { v(I) } %s %d :- %s(I)." % (rel, c, s),
                     lambda e: [e.require(~e.B[names[i - 1]] | rel_eval(rel, e.I[vn(i)], c)) for i in range(1, n + 1)])
        elif k == 6:
            # multiplicity: the condition variable does not occur in the tuple
            rel = r.choice(RELS)
            x = r.choice(self.ivars)
            c = r.randint(n * x.lo, n * x.hi)
            self.features.add("multiset")
            self.rule_head_constraint("&sum { %s : i(I) } %s %d" % (x.name, rel, c), lambda e: rel_eval(rel, n * e.I[x.name], c))
        else:
            a = self.name("b")
            rel, c = r.choice(RELS), r.randint(-2, 4)
            self.lines.append("%s :- &sum { v(I) } %s %d, i(I)." % (a, rel, c))

            def sem(e):
                m = np.zeros([1] * e.n, dtype=bool)
                for i in range(1, n + 1):
                    m = m | rel_eval(rel, e.I[vn(i)], c)
                e.B[a] = m
            self.sem.append(sem)
            self.derived.append(a)

    def s_objective(self):
        r = self.r
        self.objs = getattr(self, "objs", [])
        mx = r.random() < 0.4
        n = r.randint(1, 3)
        els = [self.lexpr(r.choice([0, 0, 1, 1])) for _ in range(n)]
        ets, sem = [], []
        for x in els:
            t, mult = x.t, 1
            if r.random() < 0.1 and self.facts():
                t, mult = x.t + " : d(J)", self.nd
            ets.append(t)
            sem.append((x, mult))
        line = "&%s { %s }." % ("maximize" if mx else "minimize", "; ".join(ets))
        # Note: structurally identical theory atoms are merged by the grounder; they also have the same meaning.
        key = (mx, sorted((sorted(x.co.items()), x.c, m) for x, m in sem))
        if key in self.objs:
            return
        self.objs.append(key)
        self.features.add("maximize" if mx else "minimize")
        self.lines.append(line)
        self.obj.append((-1 if mx else 1, sem))

    SIGS = {"x": "x/0", "y": "y/0", "z": "z/0", "w": "w/0", "f(1)": "f/1", "f(2,a)": "f/2", "g(x)": "g/1", "q(h(1),2)": "q/2",
            "h(1,2,a)": "h/3", "h(b,2)": "h/2", "f(1,2,3,4,a)": "f/5",
            "v(1)": "v/1", "v(2)": "v/1", "v(3)": "v/1"}

    def s_show(self):
        """A show statement; self.shows collects the names and signatures shown."""
        r = self.r
        els = [(v.name, v.name, None) for v in self.ivars if r.random() < 0.4]
        if r.random() < 0.5:
            for sig in r.sample(["x/0", "y/0", "f/1", "f/2", "v/1", "g/1", "q/2", "nosuch/3", "f/0", "z/1", "x/(3-3)", "f/(1+1)", "h/2", "h/3", "h/4", "f/5", "f/4"]
                                + [self.SIGS[v.name] for v in self.ivars if v.name in self.SIGS] * 3, 2):
                els.append((sig, None, {"x/(3-3)": "x/0", "f/(1+1)": "f/2"}.get(sig, sig)))
        if self.nv and self.has_i and r.random() < 0.3:
            els.append(("v(I) : i(I)", None, None))
            self.shows += [("v(%d)" % i, None) for i in range(1, self.nv + 1)]
        r.shuffle(els)
        self.lines.append("&show { %s }." % "; ".join(e[0] for e in els))
        self.shows += [(n, s) for _, n, s in els]
        self.has_show = True

    shows = ()
    has_show = False

    def shown_vars(self, ivars):
        """Which of the variables are shown; None if there is no show statement."""
        if not self.has_show:
            return None
        return {v.name for v in ivars if any(v.name == n or s is not None and self.SIGS.get(v.name) == s for n, s in self.shows)}

    # -------------------------------------------------------------- whole program
    VNAMES = ["x", "y", "z", "w", "f(1)", "f(2,a)", "(1,2)", '"s t"', "g(x)", "q(h(1),2)", "h(1,2,a)", "h(b,2)", "f(1,2,3,4,a)"]

    def build(self):
        r, p = self.r, self.p
        nc = r.randint(*p["choices"])
        ni = r.randint(*p["ints"])
        pre = []
        i = 0
        while i < nc:
            k = r.random()
            if k < 0.2 and i + 1 < nc:
                a, b = "a%d" % i, "a%d" % (i + 1)
                form = r.randrange(3)
                if form == 0:
                    pre.append("1 { %s; %s } 1." % (a, b))
                elif form == 1:
                    pre += ["%s :- not %s." % (a, b), "%s :- not %s." % (b, a)]
                else:
                    pre.append("{ %s; %s } 1." % (a, b))
                self.choices += [a, b]
                if form < 2:
                    self.sem.append((lambda a, b: lambda e: e.require(e.B[a] ^ e.B[b]))(a, b))
                else:
                    self.sem.append((lambda a, b: lambda e: e.require(~(e.B[a] & e.B[b])))(a, b))
                i += 2
            else:
                pre.append("{ a%d }." % i)
                self.choices.append("a%d" % i)
                i += 1
        self.lines += pre
        # integer variables
        self.nv = 0
        self.has_i = False
        names = []
        if p["nonground"] and r.random() < 0.35:
            self.nv = min(ni, r.randint(1, 3))
            names = ["v(%d)" % i for i in range(1, self.nv + 1)]
        rest = self.VNAMES[:4] if r.random() > p["weird"] else list(self.VNAMES)
        r.shuffle(rest)
        names += rest[:ni - len(names)]
        small_range = r.random() < p["free"]
        if small_range:
            w = r.randint(*p["width"])
            lo = r.randint(-5, 4)
            self.conf = {"min-int": str(lo), "max-int": str(lo + w - 1)}
        for nm in names:
            if small_range:
                self.ivars.append(IVar(nm, lo, lo + w - 1))
                if r.random() < 0.5:
                    self.lines.append("&sum { %s } >= %d." % (nm, lo - r.randint(0, 2)))
                else:
                    self.lines.append("&sum { %s } <= %d." % (nm, lo + w - 1 + r.randint(0, 2)))
            else:
                w = r.randint(*p["width"])
                lo_ = r.randint(-6, 4)
                v = IVar(nm, lo_, lo_ + w - 1)
                self.ivars.append(v)
                k = r.random()
                if k < 0.35:
                    self.lines.append("&dom { %d .. %d } = %s." % (v.lo, v.hi, nm))
                elif k < 0.5:
                    t, vals = self.domset(v.lo, v.hi)
                    vals = {q for q in vals if v.lo <= q <= v.hi}
                    if not vals:
                        self.lines.append("&dom { %d .. %d } = %s." % (v.lo, v.hi, nm))
                    else:
                        arr = np.array(sorted(vals))
                        self.lines.append("&dom { %d .. %d } = %s." % (v.lo, v.hi, nm))
                        self.lines.append("&dom { %s } = %s." % (t, nm))
                        self.sem.append((lambda nm, arr: lambda e: e.require(np.isin(e.I[nm], arr)))(nm, arr))
                elif k < 0.8:
                    self.lines.append("&sum { %s } >= %d. &sum { %s } <= %d." % (nm, v.lo, nm, v.hi))
                elif k < 0.9:
                    self.lines.append("&diff { %s - 0 } <= %d. &diff { 0 - %s } <= %d." % (nm, v.hi, nm, -v.lo))
                else:
                    self.lines.append(":- &sum { %s } < %d. :- not &sum { %s } <= %d." % (nm, v.lo, nm, v.hi))
        kinds = ["sum", "diff", "nsum", "distinct", "disjoint", "dom", "rule", "integrity", "nonground"]
        weights = [p[k] for k in kinds]
        for _ in range(r.randint(*p["stmts"])):
            k = r.choices(kinds, weights)[0]
            if k in ("sum", "diff", "nsum"):
                self.s_head(k)
            else:
                getattr(self, "s_" + k)()
        for f in p.get("force", ()):
            getattr(self, "s_" + f)()
        if p["objective"]:
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                self.s_objective()
        self.shows = []
        if r.random() < p["show"]:
            self.features.add("show")
            for _ in range(r.choice([1, 1, 2])):
                self.s_show()
        if r.random() < 0.5:
            r.shuffle(self.lines)
        return self


class Program:
    """Picklable result: text, conf (min-int/max-int) and the set of expected solutions."""
    __slots__ = ("text", "conf", "sols", "atoms", "ivars", "features", "nvars", "combos", "seed", "lines", "boxes", "has_obj", "shown", "raw")

    def key(self, m):
        """Canonical key of a reported model (first theory)."""
        at = " ".join(sorted(a for a in m["a"] if a in self.atoms))
        return at + "|" + " ".join(sorted("%s=%d" % (x[0], x[1]) for x in m["v"][0]))


def solve(g):
    """Evaluates the meaning of the program; returns {key: objective} or None if too large."""
    env = Env(g.choices, g.ivars)
    tot = 1
    for s in env.shape:
        tot *= s
    if tot > g.p["maxcombos"]:
        return None, tot
    g.raw = []
    for s in g.sem:
        s(env)
    full = np.broadcast_to(env.mask, env.shape)
    idx = np.argwhere(full)
    if len(idx) > g.p["maxsols"]:
        return None, tot
    obj = None
    if g.obj:
        o = np.int64(0)
        for sgn, sem in g.obj:
            for x, mult in sem:
                o = o + sgn * mult * x.ev(env)
        obj = np.broadcast_to(o, env.shape)
    res = {}
    bn = [(a, np.broadcast_to(env.B[a], env.shape)) for a in g.choices + g.derived]
    nc = len(g.choices)
    for ix in idx:
        t = tuple(ix)
        at = " ".join(sorted(a for a, arr in bn if arr[t]))
        vs = " ".join(sorted("%s=%d" % (v.name, v.lo + t[nc + k]) for k, v in enumerate(g.ivars)))
        res[at + "|" + vs] = int(obj[t]) if obj is not None else 0
        if g.p.get("raw"):
            g.raw.append((frozenset(a for a, arr in bn if arr[t]), tuple(int(v.lo + t[nc + k]) for k, v in enumerate(g.ivars)), res[at + "|" + vs]))
    return res, tot


def decorate(text, rng):
    """Writes a program differently without changing what it means: constants for numbers, comments, line breaks."""
    if rng.random() < 0.7:
        return text
    consts, lines = {}, []
    pr = rng.choice([0.1, 0.3, 0.8])
    named, noted = rng.random() < 0.7, rng.random() < 0.4

    def name(m):
        if rng.random() >= pr:
            return m.group(0)
        k = "zk%d" % rng.randrange(3)
        if consts.setdefault(k, m.group(0)) != m.group(0):
            return m.group(0)
        return k
    for x in text.split("\n"):
        # Note: signatures after #show and the like have to be numbers
        if named and not x.startswith("#") and '"' not in x and "%" not in x:
            x = re.sub(r"(?<![\w'])\d+(?![\w'])", name, x)
        if noted and "%" not in x and rng.random() < 0.4:
            x += rng.choice(["  % &sum { x } > 1000.", " %* &dom { 1..0 } = x. *%", " %", "\n", "\t\r"])
        lines.append(x)
    for k, v in consts.items():
        lines.insert(rng.choice([0, len(lines)]), "#const %s = %s." % (k, v))
    return "\n".join(lines)


def program(seed, profile=None):
    """Generates a program whose oracle is tractable (deterministic in seed)."""
    for attempt in range(60):
        rng = random.Random("%s/%d" % (seed, attempt))
        g = G(rng, profile).build()
        sols, tot = solve(g)
        if sols is None:
            continue
        if not sols and rng.random() < (profile or {}).get("drop_unsat", 0.7):
            continue
        pr = Program()
        pr.lines = g.lines
        # Note: with an own source of random numbers
        pr.text = decorate("\n".join(g.lines), random.Random("%s/%d/text" % (seed, attempt)))
        pr.conf = g.conf
        pr.sols = sols
        pr.atoms = set(g.choices + g.derived)
        pr.ivars = [v.name for v in g.ivars]
        pr.boxes = {v.name: (v.lo, v.hi) for v in g.ivars}
        pr.features = sorted(g.features)
        pr.combos = tot
        pr.seed = seed
        pr.has_obj = bool(g.obj)
        pr.raw = g.raw
        pr.shown = g.shown_vars(g.ivars)
        return pr
    raise RuntimeError("no tractable program for seed %s" % (seed,))


# ---------------------------------------------------------------- configurations
# probability of parallel solving; 1 also avoids everything that conflicts with it and sets options of single threads
PARALLEL = 0.2
MODES = ["2", "2", "3", "3", "4,split", "4,split", "4,compete", "4,compete", "8,compete", "8,split", "12,compete"]


def clingcon_conf(r, sparse=False):
    """Random values for clingcon's options."""
    c = []

    def opt(k, f, pr=0.35):
        if r.random() < (pr * 0.4 if sparse else pr):
            c.append((k, f()))
    b = lambda: r.choice(["yes", "no"])
    opt("shift-constraints", b)
    opt("sort-constraints", b)
    opt("translate-clauses", lambda: r.choice(["0", "1", "5", "50", "1000", "max", "1000,10", "10,1000000", "0,0", "100000"]), 0.6)
    opt("literals-only", b)
    opt("translate-pb", lambda: r.choice(["0", "0.01", "0.5", "1", "1000"]))
    opt("translate-distinct", lambda: r.choice(["0", "1", "10", "1000"]), 0.5)
    opt("translate-opt", lambda: r.choice(["0", "1", "100", "max"]))
    opt("add-order-clauses", b)
    opt("order-heuristic", lambda: r.choice(["none", "max-chain", "max-chain,0"]))
    opt("sign-value", lambda: r.choice(["+", "-", "0", "3", "-2"]))
    opt("refine-reasons", b)
    opt("refine-introduce", b)
    opt("propagate-chain", b)
    opt("split-all", b)
    opt("check-solution", lambda: "yes" if r.random() < 0.7 else "no")
    opt("check-state", b, 0.5)
    if PARALLEL >= 1:
        for k, v in list(c):
            if k in ("order-heuristic", "sign-value", "refine-reasons", "refine-introduce", "propagate-chain", "split-all") and "," not in v and r.random() < 0.6:
                c.append((k, "%s,%d" % (r.choice([v, {"yes": "no", "no": "yes", "+": "-", "-": "+", "none": "max-chain", "max-chain": "none"}.get(v, v)]), r.randrange(8))))
    return c


def clasp_args(r, threads=True, opt=False):
    a = []
    if r.random() < 0.35:
        a.append("--heuristic=" + r.choice(["berkmin", "vmtf", "vsids", "unit", "none", "domain"]))
    if r.random() < 0.15:
        # Note: SAT preprocessing is switched off everywhere: clasp itself loses models if a propagator (of any
        # kind) introduces variables during search after variables have been eliminated.
        a += ["--configuration=" + r.choice(["frumpy", "jumpy", "tweety", "handy", "crafty", "trendy"]), "--sat-prepro=no"]
    if r.random() < 0.25:
        a.append("--rand-freq=" + r.choice(["0.1", "0.5", "1.0"]))
    if r.random() < 0.3:
        a.append("--seed=%d" % r.randint(0, 1000))
    if r.random() < 0.2:
        a.append("--restarts=" + r.choice(["no", "x,5,1.5", "L,2", "F,1", "D,10,0.8"]))
    if r.random() < 0.15:
        a.append("--eq=" + r.choice(["0", "1", "-1"]))
    if r.random() < 0.15:
        a.append("--sign-def=" + r.choice(["asp", "pos", "neg", "rnd"]))
    if r.random() < 0.1:
        a.append("--otfs=" + r.choice(["0", "1", "2"]))
    if r.random() < 0.1:
        a.append("--reverse-arcs=" + r.choice(["0", "1", "2", "3"]))
    if r.random() < 0.1:
        a.append("--save-progress=" + r.choice(["0", "10"]))
    if r.random() < 0.12:
        a.append("--deletion=" + r.choice(["no", "basic,10", "sort,50", "ipSort,75"]))
    if r.random() < 0.08:
        a.append("--trans-ext=" + r.choice(["all", "weight", "choice", "no"]))
    if r.random() < 0.08:
        a.append("--lookahead=" + r.choice(["atom", "body", "hybrid", "no"]))
    if r.random() < 0.05:
        a.append("--strengthen=" + r.choice(["no", "local", "recursive"]))
    if opt and r.random() < 0.4:
        a.append("--opt-strategy=" + r.choice(["bb,lin", "bb,hier"]))
    # Note: clasp loses models if lookahead is combined with one-sided weight constraints and multiple threads.
    if threads and PARALLEL >= 1:
        a = [x for x in a if x != "--heuristic=unit" and not x.startswith("--lookahead")]
    if threads and r.random() < PARALLEL and not any(x == "--heuristic=unit" or x.startswith("--lookahead") for x in a):
        a.append("--parallel-mode=" + r.choice(MODES))
    return a
