"""C12: extreme values; the exact meaning is computed with Python's unbounded integers."""
import ast, collections, itertools, random
import vlib, work, gen
import enum_checks as enum

MAX = 2 ** 30 - 1
I32 = 2 ** 31 - 1
RELS = ["<=", ">=", "<", ">", "=", "!="]
# messages of internal consistency checks; these never stand for "out of range"
INTERNAL = ["invalid solution", "not assigned", "invalid lower", "exceeds upper", "invalid distinct", "invalid assignment", "not fully assigned"]


class T:
    """A term: text, priority, monomials [(co, variables)], bound on the magnitude of all intermediate values (products are distributed)."""
    __slots__ = ("t", "p", "m", "g")

    def __init__(self, t, p, m, g):
        self.t, self.p, self.m, self.g = t, p, m, max([g] + [abs(c) for c, _ in m])

    @property
    def c(self):
        return sum(c for c, v in self.m if not v)


def ev(m, a):
    s = 0
    for c, vs in m:
        for v in vs:
            c *= a[v]
        s += c
    return s


def anchor(r, lim=I32):
    """Some number; mostly close to a power of two or a limit."""
    k = r.random()
    if k < 0.2:
        return 0
    if k < 0.45:
        n = r.choice([1, -1]) * ((lim if lim < MAX else MAX) - r.choice([0, 0, 1, 2, 5]))
    elif k < 0.7:
        n = r.choice([1, -1]) * 2 ** r.randint(14, 30) + r.randint(-2, 2)
    elif k < 0.8:
        n = r.choice([1, -1]) * (lim - r.randint(0, 3))
    elif k < 0.9:
        n = r.randint(-lim, lim)
    else:
        return r.randint(-9, 9) if lim > 9 else r.randint(-lim, lim)
    return n if abs(n) <= lim else r.randint(-lim, lim)


class X:
    """Generates one program."""

    def __init__(self, r):
        self.r = r
        self.lines = []      # text, mag
        self.cons = []       # predicate over (assignment, atoms)
        self.vars = collections.OrderedDict()   # name -> candidates
        self.choices, self.derived = [], []
        self.obj, self.objmag, self.objseen = None, 0, set()
        self.pinned = set()
        self.wide = False    # values far apart
        self.n = 0
        self.kinds = set()
        self.mag = 0
        # limits for values and coefficients
        self.vlim, self.clim = r.choice([(I32, I32)] * 4 + [(MAX, 1), (MAX // 4, 1), (2 ** 28, 3), (2 ** 20, 2 ** 8), (2 ** 14, 2 ** 14), (100, 2 ** 21), (3, 2 ** 27), (2, MAX // 3), (2, MAX), (1, I32)])
        self.nlim = I32 if self.vlim == I32 else min(MAX, self.vlim * self.clim)

    def val(self):
        return anchor(self.r, self.vlim)

    def any(self):
        return anchor(self.r, self.nlim)

    # ----------------------------------------------------------------- terms
    def lit(self, n):
        if abs(n) > I32:
            # -2^31 and beyond can only be written as expressions
            d = n - (I32 if n > 0 else -I32)
            a = self.lit(I32 if n > 0 else -I32)
            b = self.lit(d)
            return T("(%s + %s)" % (a.t, b.t), 9, [(n, ())], a.g + b.g)
        if n < 0:
            return T("- %d" % -n if self.r.random() < 0.5 else "-%d" % -n, 3, [(n, ())], -n)
        return T(str(n), 9, [(n, ())], n)

    def par(self, e, p):
        return "(" + e.t + ")" if e.p < p or self.r.random() < 0.05 else e.t

    def rng(self, a, b):
        bt = self.par(b, 0)
        return "%s..%s%s" % (self.par(a, 0), " " if bt[0] == "-" else "", bt)

    def num(self, n):
        """Some expression for the given number."""
        r = self.r
        if abs(n) > I32 or r.random() < 0.6:
            return self.lit(n)
        k = r.randrange(7)
        # largest helper number
        L = I32 if self.vlim == I32 else MAX - 9
        try:
            if k == 0:
                d = r.choice([1, -1, anchor(r, max(1, L - abs(n)))])
                a, b = self.lit(n - d), self.lit(d)
                return T("%s + %s" % (self.par(a, 0), self.par(b, 1)), 0, [(n, ())], a.g + b.g)
            if k == 1:
                d = r.choice([1, -1, anchor(r, max(1, L - abs(n)))])
                a, b = self.lit(n + d), self.lit(d)
                return T("%s - %s" % (self.par(a, 0), self.par(b, 1)), 0, [(n, ())], a.g + b.g)
            if k == 2 and n:
                ds = [d for d in (2, 3, 5, 7, 16, 257, 1024, 65535, 65536, -1, -2) if n % d == 0]
                if ds:
                    d = r.choice(ds)
                    a, b = self.lit(n // d), self.lit(d)
                    return T("%s * %s" % (self.par(a, 1), self.par(b, 2)), 1, [(n, ())], max(1, a.g) * max(1, b.g))
            if k == 3:
                d = r.choice([-1, 1, 2, 3])
                if abs(n * d) <= (I32 + 1 if L == I32 else L):
                    a, b = self.lit(n * d), self.lit(d)
                    return T("%s / %s" % (self.par(a, 1), self.par(b, 2)), 1, [(n, ())], max(a.g, b.g))
            if k == 4:
                a = self.num(-n)
                return T("-" + (a.t if a.p == 9 else "(%s)" % a.t), 3, [(n, ())], a.g)
            if k == 5:
                for b in range(31, 1, -1):
                    for s in (2, -2, 3, -3, 10, 7, 46341, 46340, 215, -1290):
                        if s ** b == n:
                            return T("%s ** %d" % ("(%d)" % s if s < 0 else s, b), 2, [(n, ())], abs(n))
                for b in range(28, 32):
                    if abs(n - 2 ** b) < 10:
                        a = self.lit(n - 2 ** b)
                        return T("2 ** %d + %s" % (b, self.par(a, 1)), 0, [(n, ())], 2 ** b + a.g)
            if k == 6 and n >= 0:
                d = r.choice([n + 1, MAX, L, I32, n + 7])
                if d > n and d <= L:
                    q = r.choice([0, 1, (L - n) // d])
                    if q * d + n <= I32:
                        a, b = self.lit(q * d + n), self.lit(d)
                        return T("%s \\ %s" % (self.par(a, 1), self.par(b, 2)), 1, [(n, ())], max(a.g, b.g))
        except OverflowError:
            pass
        return self.lit(n)

    def coef(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return r.choice([1, 1, -1, -1, 2, -2, 3, -5] if self.clim > 8 else [1, -1])
        return anchor(r, self.clim)

    def mono(self, v=None, co=None):
        """A product of a number and a variable."""
        r = self.r
        v = v or r.choice(list(self.vars))
        co = self.coef() if co is None else co
        if co == 1 and r.random() < 0.8:
            return T(v, 9, [(1, (v,))], 1)
        if co == -1 and r.random() < 0.6:
            return T("-" + v, 3, [(-1, (v,))], 1)
        if r.random() < 0.12:
            # two factors
            for d in (65536, 65535, 46341, 1024, 3, 2):
                if co % d == 0:
                    a, b = self.num(co // d), self.num(d)
                    return T("%s * %s * %s" % (self.par(a, 1), self.par(b, 2), v), 1, [(co, (v,))], max(1, a.g) * max(1, b.g))
        c = self.num(co)
        if r.random() < 0.7:
            return T("%s * %s" % (self.par(c, 1), v), 1, [(co, (v,))], c.g)
        return T("%s * %s" % (v, self.par(c, 2)), 1, [(co, (v,))], c.g)

    def lin(self, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.55:
            return self.mono() if r.random() < 0.85 else self.num(self.any())
        k = r.randrange(4)
        a = self.lin(depth - 1)
        if k == 3:
            c = self.num(r.choice([-1, 2, 3, self.coef()]))
            return T("%s * %s" % (self.par(c, 1), self.par(a, 2)), 1, [(co * c.c, v) for co, v in a.m], max(1, a.g) * max(1, c.g))
        b = self.lin(depth - 1)
        if k == 2:
            return T("%s - %s" % (self.par(a, 0), self.par(b, 1)), 0, a.m + [(-co, v) for co, v in b.m], a.g + b.g)
        return T("%s + %s" % (self.par(a, 0), self.par(b, 1)), 0, a.m + b.m, a.g + b.g)

    def point(self):
        return {v: self.r.choice(c) for v, c in self.vars.items()}

    # ------------------------------------------------------------- statements
    def name(self, b):
        self.n += 1
        return "%s%d" % (b, self.n)

    def emit(self, text, mag, f=None):
        self.lines.append(text)
        self.mag = max(self.mag, mag)
        if f:
            self.cons.append(f)

    def new_var(self):
        r = self.r
        x = self.name("x")
        k = r.random()
        if k < 0.4:
            vals = set()
            for _ in range(r.randint(1, 5)):
                vals.add(self.val() + r.choice([0, 0, 0, 1, -1]))
            parts, cand, mag = [], set(), 0
            for v in vals:
                w = r.choice([0, 0, 0, 1, 2])
                cand |= set(range(v, v + w + 1))
                if w == 0:
                    e = self.num(v)
                    parts.append(e.t)
                    mag = max(mag, e.g, abs(v) + 1)
                else:
                    a, b = self.num(v), self.num(v + w)
                    parts.append(self.rng(a, b))
                    mag = max(mag, a.g, b.g, abs(v) + w + 1)
            self.emit("&dom { %s } = %s." % (" ; ".join(parts), x), mag)
            self.pinned.add(x)
        elif k < 0.85 or not self.vars:
            lo = self.val()
            if abs(lo) > MAX and r.random() < 0.8:
                lo = max(-MAX, min(MAX, lo))
            hi = lo + r.randint(0, 4)
            if r.random() < 0.6 and hi > MAX:
                lo, hi = lo - (hi - MAX), MAX
            cand = set(range(lo, hi + 1))
            if r.random() < 0.35:
                a, b = self.num(lo), self.num(hi)
                self.emit("&dom { %s } = %s." % (self.rng(a, b), x), max(a.g, b.g, abs(lo) + 1, abs(hi) + 1))
            else:
                for bound, up in ((lo, False), (hi, True)):
                    co = r.choice([1, 1, 1, -1, 2, 3, self.coef()]) or 1
                    if abs(co * bound) > 2 ** 33:
                        co = 1
                    # co*x <= co*bound + slack, with 0 <= slack < |co|
                    strict = r.random() < 0.3
                    le = (co > 0) == up
                    slack = r.choice([0, 0, abs(co) - 1, r.randrange(abs(co))])
                    rhs = co * bound + (slack if le else -slack)
                    if strict:
                        rhs += 1 if le else -1
                    op = ("<" if strict else "<=") if le else (">" if strict else ">=")
                    m, c = self.mono(x, co), self.num(rhs)
                    self.emit("&sum { %s } %s %s." % (m.t, op, c.t), m.g + c.g + 1)
            self.pinned.add(x)
        else:
            # determined by another variable: co*x + d*y = e
            y = r.choice(list(self.vars))
            co, d = r.choice([1, 1, -1, 2, self.coef()]) or 1, self.coef() or 1
            v = r.choice(self.vars[y])
            if abs(co * self.vlim) + abs(d * v) > 2 ** 34:
                co, d = 1, -1
            e = co * max(-MAX, min(MAX, self.val())) + d * v
            cand = {(e - d * w) // co for w in self.vars[y] if (e - d * w) % co == 0}
            self.vars[x] = [0]
            a, b, c = self.mono(x, co), self.mono(y, d), self.num(e)
            self.emit("&sum { %s ; %s } = %s." % (a.t, b.t, c.t), a.g + b.g + c.g + 1,
                      lambda s, t: co * s[x] + d * s[y] == e)
        self.vars[x] = sorted(v for v in cand if -MAX <= v <= MAX)
        c = self.vars[x]
        if c and c[-1] - c[0] > 300:
            self.wide = True
        return bool(c)

    def atom(self, kind=None):
        """A constraint that can be used in heads and bodies: text, magnitude, meaning."""
        r = self.r
        k = kind or r.choice(["sum"] * 6 + ["diff", "nsum", "nsum"])
        self.kinds.add(k)
        op = r.choice(RELS)
        p = self.point()
        if k == "diff":
            v, w = r.choice(list(self.vars)), r.choice(list(self.vars))
            n = p[v] - p[w] + r.choice([0, 0, 1, -1]) if r.random() < 0.7 else self.any()
            c = self.num(n)
            return "&diff { %s - %s } <= %s" % (v, w, c.t), max(c.g, abs(n) + 3), lambda s: s[v] - s[w] <= n
        if k == "nsum":
            v, w, u = (r.choice(list(self.vars)) for _ in range(3))
            co = self.coef() or 1
            c = self.num(co)
            els = [T("%s * %s * %s" % (self.par(c, 1), v, w), 1, [(co, (v, w))], c.g)]
            if r.random() < 0.6:
                els.append(self.mono(u))
        else:
            els = [self.lin(r.choice([0, 0, 1, 2])) for _ in range(r.randint(1, 4))]
        if r.random() < 0.25:
            els = self.split(els)
        m = [x for e in els for x in e.m]
        if r.random() < 0.75:
            n = ev(m, p) + r.choice([0, 0, 0, 1, -1, 2])
        else:
            n = self.any()
        if k == "sum" and r.random() < 0.2:
            rhs = self.lin(1)
            n -= ev(rhs.m, p)
            if abs(n) <= 2 ** 33:
                nn = self.lit(n)
                rhs = T("%s + %s" % (self.par(rhs, 0), self.par(nn, 1)), 0, rhs.m + nn.m, rhs.g + nn.g)
        elif abs(n) > 2 ** 33:
            rhs = self.num(self.any())
        else:
            rhs = self.num(n)
        mag = sum(e.g for e in els + [rhs]) + 3
        return "&%s { %s } %s %s" % (k, " ; ".join(e.t for e in els), op, rhs.t), mag, lambda s: gen.rel_eval(op, ev(m, s), ev(rhs.m, s))

    def split(self, els):
        """Writes one of the monomials as several with big coefficients; their sum may differ by a multiple of 2^32."""
        r = self.r
        ks = [i for i, e in enumerate(els) if len(e.m) == 1 and e.m[0][1]]
        if not ks:
            return els
        i = r.choice(ks)
        co, vs = els[i].m[0]
        parts = [r.choice([1, -1]) * r.choice([I32, I32 - r.randint(0, 3), MAX, MAX - r.randint(0, 3), r.randint(0, I32)]) for _ in range(r.randint(1, 4))]
        if r.random() < 0.4:
            parts = [abs(x) for x in parts] if r.random() < 0.5 else [-abs(x) for x in parts]
        last = (co - sum(parts) + 2 ** 31) % 2 ** 32 - 2 ** 31
        if last != -2 ** 31:
            parts.append(last)
        new = []
        for c in parts:
            a = self.num(c)
            new.append(T("%s * %s" % (self.par(a, 1), " * ".join(vs)), 1, [(c, vs)], a.g))
        els = els[:i] + new + els[i + 1:]
        r.shuffle(els)
        return els

    def body(self):
        r = self.r
        if not self.choices or r.random() < 0.5:
            return "", lambda t: True
        a = r.choice(self.choices)
        if r.random() < 0.5:
            return a, lambda t: t[a]
        return "not " + a, lambda t: not t[a]

    def stmt(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            text, mag, f = self.atom()
            if r.random() < 0.45:
                bt, bf = self.body()
                self.emit(text + (" :- %s." % bt if bt else "."), mag, lambda s, t: not bf(t) or f(s))
            elif r.random() < 0.5:
                neg = r.random() < 0.5
                bt, bf = self.body()
                self.emit(":- %s%s%s." % ("not " if neg else "", text, ", " + bt if bt else ""), mag, lambda s, t: not (bf(t) and f(s) != neg))
            else:
                b = self.name("b")
                neg = r.random() < 0.3
                self.emit("%s :- %s%s." % (b, "not " if neg else "", text), mag)
                self.derived.append((b, lambda s: f(s) != neg))
            return
        bt, bf = self.body()
        tail = " :- %s." % bt if bt else "."
        if k < 0.66:
            self.kinds.add("distinct")
            els = [self.lin(1 if r.random() < 0.4 else 0) for _ in range(r.randint(2, 4))]
            mag = sum(e.g for e in els) + 3
            ms = [e.m for e in els]
            self.emit("&distinct { %s }%s" % (" ; ".join(e.t for e in els), tail), mag,
                      lambda s, t: not bf(t) or len({ev(m, s) for m in ms}) == len(ms))
        elif k < 0.8:
            self.kinds.add("disjoint")
            vs = [r.choice(list(self.vars)) for _ in range(r.randint(2, 4))]
            if len(set(vs)) < len(vs):
                vs = sorted(set(vs))
            p = self.point()
            els = []
            for v in vs:
                d = r.choice([1, 1, 2, 3, abs(self.val()), self.val(), abs(p[v] - p[r.choice(vs)]) + r.choice([0, 0, 1, -1])])
                els.append((v, d, self.num(d)))
            mag = sum(e.g for _, _, e in els) + 3

            def f(s):
                for i in range(len(els)):
                    for j in range(i):
                        (a, da, _), (b, db, _) = els[i], els[j]
                        if da > 0 and db > 0 and not (s[a] + da <= s[b] or s[b] + db <= s[a]):
                            return False
                return True
            self.emit("&disjoint { %s }%s" % (" ; ".join("%s @ %s" % (v, self.par(e, 1)) for v, d, e in els), tail),
                      mag, lambda s, t: not bf(t) or f(s))
        elif k < 0.92:
            self.kinds.add("dom")
            x = r.choice(list(self.vars))
            cand = self.vars[x]
            rs, parts, mag = [], [], 0
            for _ in range(r.randint(1, 4)):
                a = r.choice(cand) + r.choice([0, 0, 1, -1]) if r.random() < 0.7 else self.any()
                b = r.choice([a, a, a + 1, a + 3, r.choice(cand), self.val(), I32, -I32, MAX, -MAX])
                ea, eb = self.num(a), self.num(b)
                if a == b and r.random() < 0.7:
                    parts.append(ea.t)
                else:
                    parts.append(self.rng(ea, eb))
                rs.append((a, b))
                mag = max(mag, ea.g, eb.g, abs(a) + 1, abs(b) + 1)
            self.emit("&dom { %s } = %s%s" % (" ; ".join(parts), x, tail), mag, lambda s, t: not bf(t) or any(a <= s[x] <= b for a, b in rs))
        else:
            self.objective()

    def objective(self):
        r = self.r
        if self.obj is None:
            self.obj = []
        sgn = r.choice([1, -1])
        els = [self.lin(1 if r.random() < 0.3 else 0) for _ in range(r.randint(1, 3))]
        # Note: identical theory atoms are merged by the grounder
        key = (sgn, " ".join(e.t for e in els).translate(str.maketrans("", "", " ()")))
        if key in self.objseen:
            return
        self.objseen.add(key)
        self.kinds.add("objective")
        m = [(sgn * c, v) for e in els for c, v in e.m]
        self.obj += m
        self.emit("&%s { %s }." % ("minimize" if sgn == 1 else "maximize", " ; ".join(e.t for e in els)), 0)
        self.objmag += sum(e.g for e in els)

    def build(self):
        r = self.r
        for i in range(r.choice([0, 0, 1, 1, 2])):
            a = self.name("a")
            self.choices.append(a)
            self.lines.append("{ %s }." % a)
        for i in range(r.randint(1, 4)):
            if not self.new_var():
                return None
        combos = 1
        for c in self.vars.values():
            combos *= len(c)
        combos <<= len(self.choices)
        if combos > 1500:
            return None
        self.combos = combos
        first, cut = None, len(self.lines)
        for i in range(r.randint(1, 5)):
            self.stmt()
            if r.random() < 0.06 and first is None:
                first, cut = self.finish(), len(self.lines)
        if r.random() < 0.15 and self.obj is None:
            self.objective()
        p = self.finish()
        # what the documentation promises to accept, whether values are far apart, first step
        p.raw = (self.mag <= MAX - 2, self.wide, first if cut < len(self.lines) else None)
        if p.raw[2]:
            p.raw[2].text = "\n".join(self.lines[:cut])
            p.features = set(p.features) | {"two_steps"}
            p.boxes = "\n".join(self.lines[cut:])
        return p

    def finish(self):
        p = gen.Program()
        p.ivars = list(self.vars)
        p.atoms = set(self.choices) | {b for b, _ in self.derived}
        p.sols = {}
        names = list(self.vars)
        for vals in itertools.product(*self.vars.values()):
            s = dict(zip(names, vals))
            dv = [b for b, f in self.derived if f(s)]
            for bits in itertools.product((False, True), repeat=len(self.choices)):
                t = dict(zip(self.choices, bits))
                if all(f(s, t) for f in self.cons):
                    at = " ".join(sorted([a for a in self.choices if t[a]] + dv))
                    p.sols[at + "|" + " ".join(sorted("%s=%d" % q for q in s.items()))] = ev(self.obj, s) if self.obj is not None else 0
        p.combos = self.combos
        p.has_obj = self.obj is not None
        if p.has_obj:
            # all intermediate costs have to be representable
            big = sum(abs(c) * max([1] + [abs(w) for x in v for w in self.vars[x]]) for c, v in self.obj)
            self.mag = max(self.mag, self.objmag, big + 3)
            if any(x not in self.pinned for c, v in self.obj for x in v):
                self.mag = max(self.mag, MAX)
        p.text = "\n".join(self.lines)
        p.features = self.kinds
        return p


def program(r):
    while True:
        p = X(r).build()
        if p is not None:
            return p


def conf(r, p):
    c = []
    for k, v in gen.clingcon_conf(r):
        if k == "translate-opt" and p.raw[1]:
            continue
        if k == "translate-clauses":
            v = r.choice(["0", "1", "5", "50", "1000", "1000,10", "0,0"])
        if k == "translate-pb" and p.raw[1]:
            v = r.choice(["0", "0.01", "0.5"])
        if k == "sign-value":
            v = r.choice(["+", "-", "0", str(MAX), str(-MAX), "2147483647", "-2147483648", "3"])
        c.append((k, v))
    if not p.raw[1] and r.random() < 0.4:
        # weight constraints with large numbers
        c = [(k, v) for k, v in c if k not in ("translate-clauses", "translate-pb")]
        c += [("translate-clauses", r.choice(["0", "3"])), ("translate-pb", r.choice(["4", "100"]))]
    if r.random() < 0.1:
        c.append(("min-int", str(-MAX)))
    if r.random() < 0.1:
        c.append(("max-int", str(MAX)))
    return c


def judge(p, steps, r, acc):
    """Compares all answers with the oracle; an error is fine if some value is not within the documented range."""
    accept = p.raw[0]
    bad = [d for d in r.ops.values() if not d["ok"]]
    err = str(bad[0].get("msg", bad[0]["err"])) if bad else None
    if bad and any(x in err for x in INTERNAL):
        return "internal", "internal check failed: %s" % bad[0]
    if bad and accept:
        return "rejected", "program within the documented range was rejected: %s" % bad[0]
    for si, q in steps:
        models = r.models.get(si, [])
        done = si in r.ops and r.ops[si]["ok"]
        if q is None:
            continue
        if not done or q.has_obj:
            for m in models:
                if not m["v"] or len(m["v"][0]) != len(q.ivars):
                    return "variables", "model reports %s, expected variables %s" % (m["v"], q.ivars)
                k = q.key(m)
                if k not in q.sols:
                    return "wrong", "wrong answer %s" % k
                c = enum.theory_cost(m)
                if c is not None and c != q.sols[k]:
                    return "cost", "reported cost %s of answer %s should be %s" % (c, k, q.sols[k])
        if not done:
            acc.count("errors")
            acc.count("models", len(models))
            return None
        d = r.ops[si]
        v = enum.judge_opt(q, models, d, False, None, acc) if q.has_obj else enum.compare(q, models)
        if v is None and ((d["res"] & 3) != (1 if q.sols else 2) or not d["res"] & 4):
            v = ("result", "result %d does not match %d answers" % (d["res"], len(q.sols)))
        acc.count("models", len(models))
        if v:
            return v
    if bad:
        acc.count("errors")
    else:
        acc.count("accepted")
        if accept:
            acc.count("must_accept")
    return None


def extreme_task(acc, pid, exe, seed, n, nconf, only=None):
    rng = random.Random("extreme/%s/%s" % (pid, seed))
    jobs, info = [], {}
    for i in range(n):
        r = random.Random("extreme/%s/%s/%d" % (pid, seed, i))
        p = program(r)
        while only and only not in p.features:
            p = program(r)
        for k in range(nconf):
            cf = [] if k == 0 and rng.random() < 0.5 else conf(rng, p)
            args = ["0"] + ([] if rng.random() < 0.5 else gen.clasp_args(rng, not p.has_obj or p.raw[0]))
            q = p.raw[2]
            if q:
                # Note: clasp's vmtf heuristic crashes if variables are removed between solve calls
                args = [a for a in args if a != "--heuristic=vmtf" and a[-5:] != "handy"]
            ops = work.setup_ops(args, cf, q.text if q else p.text) + [["solve", "t", "c"]]
            steps = [(len(ops) - 1, q or p)]
            if q:
                ops += [["text", "t", "c", "#program two.\n" + p.boxes], ["ground", "c", "two"], ["prepare", "t", "c"], ["solve", "t", "c"]]
                steps.append((len(ops) - 1, p))
            jid = "%d.%d" % (i, k)
            jobs.append({"id": jid, "ops": ops, "timeout": 5})
            info[jid] = (p, args, cf, steps)
    for i in range(0, len(jobs), 40):
        part = jobs[i:i + 40]
        results = vlib.run_jobs(exe, part, nproc=1, retry_timeouts=False)
        for job in part:
            p, args, cf, steps = info[job["id"]]
            r = results[job["id"]]
            acc.evals += 1
            what = enum.describe(p, args, cf)
            if not work.crash_check(acc, r, job, exe, what):
                continue
            v = judge(p, steps, r, acc)
            if v:
                acc.viol("extreme:" + v[0], v[1] + "\n" + what, {"job": job, "variant": work.variant(exe), "expected": sorted(p.sols.items())[:50],
                                                              "features": sorted(p.features)})
            else:
                for f in p.features:
                    acc.count("feature_" + f)
                if p.combos > len(p.sols):
                    acc.seen(p.text)
    acc.samples.append({"program": p.text, "answers": len(p.sols), "must be accepted": p.raw[0]})


MAXI = I32


def term(r, depth, big):
    """A constant number term: text, priority, value (None: some part of it is not an integer of 32 bits)."""
    if big and r.random() < 0.05:
        return "-%d - 1" % MAXI, 0, -MAXI - 1
    if depth <= 0 or r.random() < 0.3:
        n = r.randint(0, 9) if big is None or r.random() < (0.3 if big else 0.9) else r.choice([MAXI, MAXI, MAXI - r.randint(0, 3), 2 ** r.randint(14, 30) + r.randint(-1, 1), r.randint(0, MAXI), 46340, 46341, 65536, 2 ** 30])
        return str(n), 9, n
    k = r.choice("+-*/%^~+-*~")
    at, ap, a = term(r, depth - 1, big)
    if k == "~":
        t = "(" + at + ")" if ap < 9 or r.random() < 0.2 else at
        sp = r.choice(["", " "])
        v = None if a is None or a == -MAXI - 1 else -a
        return "-" + sp + t, 3, v
    bt, bp, b = term(r, depth - 1 if k != "^" else min(depth - 1, 1), big and k != "^")
    if big and a is not None and r.random() < 0.25:
        # results right at the limits
        g = r.choice([MAXI, MAXI + 1, -MAXI - 1, -MAXI - 2])
        g = g - a if k == "+" else a - g if k == "-" else -1
        if abs(g) <= MAXI and k != "^":
            bt, bp, b = "%s%d" % ("-" if g < 0 else "", abs(g)), 3 if g < 0 else 9, g
    p = {"+": 0, "-": 0, "*": 1, "/": 1, "%": 1, "^": 2}[k]
    if k == "^":
        at, bt = ("(%s)" % at if ap <= p else at), ("(%s)" % bt if bp < p else bt)
    else:
        at, bt = ("(%s)" % at if ap < p else at), ("(%s)" % bt if bp <= p else bt)
    v = None
    if a is not None and b is not None:
        if k == "+":
            v = a + b
        elif k == "-":
            v = a - b
        elif k == "*":
            v = a * b
        elif k in "/%" and b != 0:
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            # Note: the minimum modulo -1 overflows in the intermediate division
            v = q if k == "/" else None if q > MAXI else a - q * b
        elif k == "^":
            if b >= 0:
                v = a ** b if abs(a) <= 1 or b <= 64 else None
            elif a != 0:
                v = 0 if abs(a) > 1 else 1 if a == 1 or b % 2 == 0 else -1
        if v is not None and not -MAXI - 1 <= v <= MAXI:
            v = None
    return "%s %s %s" % (at, {"%": "\\", "^": "**"}.get(k, k), bt), p, v


def spread(text):
    """A bound for the absolute values of everything a term consists of if its products are distributed over its sums."""
    def f(e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.UnaryOp):
            return f(e.operand)
        a, b = f(e.left), f(e.right)
        if isinstance(e.op, (ast.Add, ast.Sub)):
            return a + b
        if isinstance(e.op, ast.Mult):
            return a * b
        if isinstance(e.op, ast.Pow):
            return a if a <= 1 else a ** b if b <= 64 else 2 * MAXI
        return a
    return f(ast.parse(text.replace("\\", "%").strip(), mode="eval").body)


STRINGS = [("", ""), ("a b", "a b"), ("\\\\", "\\\\"), ("\\\"q\\\"", "\\\"q\\\""), ("l\\nm", "l\\nm"), ("\\\\n", "\\\\n"), ("%*c*%", "%*c*%"), ("&sum{x}", "&sum{x}"), (",=;", ",=;")]


def symbol(r, depth, big):
    """A term naming a variable: text, the symbol it evaluates to (None: error)."""
    k = r.random()
    if k < 0.2:
        s, e = r.choice(STRINGS)
        return '"%s"' % s, '"%s"' % e
    args = []
    for _ in range(r.randint(1, 3)):
        if depth > 0 and r.random() < 0.25:
            args.append(symbol(r, depth - 1, big))
        else:
            t, _, v = term(r, r.randint(0, 3), big)
            args.append((t, None if v is None else str(v)))
    bad = any(v is None for _, v in args)
    name = r.choice(["f", "g", "_h", "__k", "", "a'b"])
    if name == "" and len(args) == 1:
        text, val = "(%s,)" % args[0][0], "(%s,)" % args[0][1]
    else:
        text, val = "%s(%s)" % (name, ",".join(t for t, _ in args)), "%s(%s)" % (name, ",".join(str(v) for _, v in args))
    return text, None if bad else val


LEAST = ["&sum { o } = M.", "&sum { M } >= o.", "&sum { o; - (M * o) } >= 0.", "&sum { o - M * o } <= 0.", "&sum { o } != M * o.", "&diff { o - p } <= M.", "&sum { -M; o } < 0.",
         "&minimize { - (M * o) }.", "&maximize { M * o }.", "&minimize { - (M * o)@1; p@1 }.", "&nsum { o*p } = M.", "&nsum { - (M * o * p) } <= 1.", "&sum { - (o * M) } > p.",
         "&distinct { o - M; p }.", "&distinct { M * o; p }.", "&distinct { - (M * o); p }.", "&dom { M..M } = o.", "&dom { M } = o.", "&sum { o } > M.", "{ q } :- &sum { o } < M."]


def term_task(acc, pid, exe, seed, n):
    """Terms evaluate to exactly the value they denote, or are rejected if some part of them cannot be represented."""
    jobs, info = [], {}
    for i in range(n):
        r = random.Random("term/%s/%s/%d" % (pid, seed, i))
        big = r.random() < 0.6
        lines, exp, bad = [], {}, []
        for j in range(r.randint(1, 4)):
            k = r.choice(["var", "var", "var", "bound", "const", "dom", "dur", "rhs"])
            t, v = symbol(r, 2, big)
            if r.random() < 0.75:
                while v is None:
                    t, v = symbol(r, 2, False)
            if v in exp:
                continue
            val, n0 = r.randint(-9, 9), len(lines)
            if k == "var":
                lines.append("&sum { %s } = %d." % (t, val))
            else:
                ct, cp, c = term(r, r.randint(1, 3), big if k == "dom" else False if k == "dur" else None)
                if k == "dom":
                    while c is None:
                        ct, cp, c = term(r, r.randint(1, 3), big)
                    if abs(c) > MAX:
                        bad.append(ct)
                    val = c
                    lines.append("&dom { %s } = v(%d)." % (ct, j))
                    t, v = "v(%d)" % j, "v(%d)" % j
                elif k == "dur":
                    # the value of the duration decides the only value the variable can have
                    while c is None or not 0 < c < 50:
                        ct, cp, c = term(r, r.randint(1, 3), False)
                    val = c
                    lines.append("&disjoint { %s@ %s; w(%d)@1 }. &sum { w(%d) } = 0. &sum { %s } >= 0." % (t, "(%s)" % ct if r.random() < 0.3 else ct, j, j, t)
                                 + " &disjoint { w(%d)@(%s); %s@1 }. &sum { %s } <= %d." % (j, ct, t, t, c))
                    exp["w(%d)" % j] = 0
                # Note: constants of sums are collected separately and products distributed, sums of big ones may be rejected
                elif k == "const":
                    while c is None:
                        ct, cp, c = term(r, r.randint(1, 3), None)
                    if spread(ct) > MAX - 9:
                        continue
                    val = r.choice([c, c + r.randint(-9, 9)])
                    off = val - c
                    lines.append("&sum { %s - %s } = %d." % (t, "(%s)" % ct if cp < 1 else ct, off))
                else:
                    while c is None:
                        ct, cp, c = term(r, r.randint(1, 3), None)
                    if spread(ct) > MAX:
                        continue
                    val = c
                    lines.append("&sum { %s } = %s." % (t, ct))
            if v is not None:
                exp[v] = val
            elif len(lines) > n0:
                bad.append(t)
        if r.random() < 0.06:
            # coefficients and constants that have no inverse
            bad.append(r.choice(LEAST).replace("M", r.choice(["(-%d - 1)" % MAXI, "(-%d * 2)" % 2 ** 30, "((-2) ** 31)"])))
            lines.append(bad[-1])
        r.shuffle(lines)
        if r.random() < 0.3:
            lines.append("&show { %s }." % "; ".join(sorted(exp)) if not bad and not any("-" in x for x in exp) else "")
        lim = "%d" % MAX
        jobs.append({"id": str(i), "ops": work.setup_ops(["0"], [("min-int", "-" + lim), ("max-int", lim)] if r.random() < 0.95 else [], "\n".join(lines)) + [["solve", "t", "c", "limit=3"]], "timeout": 10})
        info[str(i)] = "\n".join(lines), exp, bad
    results = vlib.run_jobs(exe, jobs, nproc=1)
    for job in jobs:
        text, exp, bad = info[job["id"]]
        r = results[job["id"]]
        acc.evals += 1
        if not work.crash_check(acc, r, job, exe, text):
            continue
        err = [d for d in r.ops.values() if not d["ok"]]
        models, v = r.models.get(len(job["ops"]) - 1, []), None
        if err:
            e = str(err[0].get("msg", err[0]["err"]))
            if not bad:
                v = "rejected", "valid terms rejected: %s" % err[0]
            elif any(x in e for x in INTERNAL):
                v = "internal", "internal check failed: %s" % err[0]
            acc.count("terms_rejected", len(bad))
        elif bad:
            v = "accepted", "terms %s accepted although not all of their parts can be represented: %s" % (bad, models[:1])
        elif len(models) != 1:
            v = "answers", "%d answers instead of one" % len(models)
        else:
            got = {x[0]: x[1] for x in models[0]["v"][0]}
            if got != exp:
                v = "value", "assignment %s instead of %s" % (got, exp)
            acc.count("terms_evaluated", len(exp))
        if v:
            acc.viol("term:" + v[0], v[1] + "\n" + text, {"job": job, "variant": work.variant(exe)})
            continue
        acc.seen(text)
