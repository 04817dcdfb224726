"""Structured problems whose answers, their number, or their optimum are computed by independent algorithms.

They complement the random programs of gen.py: many variables, long sums, deep search, and many learnt clauses.
"""
import collections, functools, itertools, random

NEG = {"<=": ">", "<": ">=", ">=": "<", ">": "<=", "=": "!=", "!=": "="}
FLIP = {"<=": ">=", "<": ">", ">=": "<=", ">": "<", "=": "=", "!=": "!="}


def holds(a, op, b):
    return {"<=": a <= b, "<": a < b, ">=": a >= b, ">": a > b, "=": a == b, "!=": a != b}[op]


class P:
    """A problem.

    check(values, atoms) decides answers; count, best, sat are None if unknown; sols is None or the list of all
    solutions (atoms, values in the order of ivars, cost); planted is some solution if known.
    """

    def __init__(self, name):
        self.name = name
        self.lines, self.ivars, self.atoms = [], [], set()
        self.base = set()   # lines that give variables their domains
        self.check = self.cost = None
        self.count = self.best = self.sat = self.sols = self.planted = None
        self.has_obj = self.unbounded = False

    @property
    def text(self):
        return "\n".join(self.lines)


class W:
    """Writes constraints in various equivalent ways."""

    def __init__(self, r, p):
        self.r, self.p, self.n = r, p, 0

    def mul(self, co, v):
        r = self.r
        if co == 1 and r.random() < 0.8:
            return v
        if co == -1 and r.random() < 0.5:
            return "-" + v
        return "%d*%s" % (co, v) if r.random() < 0.8 else "%s*%s" % (v, co if co >= 0 else "(%d)" % co)

    def atom(self, terms, op, rhs):
        r = self.r
        ts = list(terms)
        if len(ts) == 2 and op == "<=" and sorted(c for c, _ in ts) == [-1, 1] and r.random() < 0.5:
            (_, a), (_, b) = sorted(ts, reverse=True)
            return "&diff { %s - %s } <= %d" % (a, b, rhs)
        if r.random() < 0.3:
            r.shuffle(ts)
        if op == "<=" and r.random() < 0.3:
            op, rhs = "<", rhs + 1
        elif op == ">=" and r.random() < 0.3:
            op, rhs = ">", rhs - 1
        k = r.choice([1, 1, 1, 1, -1, 2])
        if k != 1:
            ts, rhs = [(k * c, v) for c, v in ts], rhs * k
            op = FLIP[op] if k < 0 else op
        left, right = ts, []
        if r.random() < 0.25:
            left, right = [], []
            for c, v in ts:
                (left if r.random() < 0.7 else right).append((c, v))
        lhs = "; ".join(self.mul(c, v) for c, v in left) or "0"
        if r.random() < 0.1 and left:
            lhs = " + ".join(self.mul(c, v) if c >= 0 else "(%s)" % self.mul(c, v) for c, v in left)
        rt = [self.mul(-c, v) if -c >= 0 else "(%s)" % self.mul(-c, v) for c, v in right]
        if rhs or not rt:
            rt.append(str(rhs) if rhs >= 0 or not rt else "(%d)" % rhs)
        return "&sum { %s } %s %s" % (lhs, op, " + ".join(rt))

    def con(self, terms, op, rhs, body=""):
        """The linear constraint has to hold if the body does."""
        r = self.r
        k = r.random()
        if k < 0.6:
            s = self.atom(terms, op, rhs) + (" :- %s." % body if body else ".")
        elif k < 0.8:
            s = ":- %s%s." % (self.atom(terms, NEG[op], rhs), ", " + body if body else "")
        else:
            s = ":- not %s%s." % (self.atom(terms, op, rhs), ", " + body if body else "")
        self.p.lines.append(s)

    def dom(self, v, lo, hi):
        n = len(self.p.lines)
        self._dom(v, lo, hi)
        self.p.base |= set(self.p.lines[n:])

    def _dom(self, v, lo, hi):
        self.p.ivars.append(v)
        k = self.r.random()
        if k < 0.6:
            self.p.lines.append("&dom { %d..%s%d } = %s." % (lo, " " if hi < 0 else "", hi, v))
        elif k < 0.8:
            self.p.lines += ["&sum { %s } >= %d." % (v, lo), "&sum { %s } <= %d." % (v, hi)]
        else:
            self.p.lines += [":- &sum { %s } < %d." % (v, lo), ":- not &sum { %s } <= %d." % (v, hi)]

    def distinct(self, els):
        """els: list of (variable, offset)"""
        r = self.r
        if r.random() < 0.65:
            c = r.choice([1, 1, 1, 1, -1, -1, 2, -3])
            es = ["%s%s" % (self.mul(c, v), " + %d" % (c * o) if c * o > 0 else " - %d" % (-c * o) if o else "") for v, o in els]
            r.shuffle(es)
            self.p.lines.append("&distinct { %s }." % "; ".join(es))
        elif r.random() < 0.5 and len({o for _, o in els}) == 1:
            self.p.lines.append("&disjoint { %s }." % "; ".join("%s @ 1" % v for v, _ in els))
        else:
            for (v, o), (w, q) in itertools.combinations(els, 2):
                self.con([(1, v), (-1, w)], "!=", q - o)

    def minimize(self, terms, const=0):
        r = self.r
        ts = [self.mul(c, v) for c, v in terms]
        if const:
            ts.append(str(const))
        r.shuffle(ts)
        if r.random() < 0.5:
            self.p.lines.append("&minimize { %s }." % "; ".join(ts))
        else:
            self.p.lines.append("&maximize { %s }." % "; ".join(["%s" % self.mul(-c, v) for c, v in terms] + ([str(-const)] if const else [])))
        self.p.has_obj = True


# ------------------------------------------------------------------ counting problems
def all_solutions(names, doms, ok):
    """Backtracking; ok(partial) is called with prefixes."""
    res = []

    def rec(i, a):
        if i == len(names):
            res.append(tuple(a))
            return
        for v in doms[i]:
            a.append(v)
            if ok(a):
                rec(i + 1, a)
            a.pop()
    rec(0, [])
    return res


def finish(p, tuples, cost=None):
    p.sols = [(frozenset(), t, cost(dict(zip(p.ivars, t))) if cost else 0) for t in tuples]
    p.count = len(tuples)
    p.sat = bool(tuples)
    if cost:
        p.best = min(x[2] for x in p.sols) if p.sols else None
    return p


def queens(r):
    p = P("queens")
    w = W(r, p)
    n = r.choice([4, 5, 6, 6, 7, 8])
    q = ["q(%d)" % i for i in range(n)]
    for v in q:
        w.dom(v, 1, n)
    w.distinct([(v, 0) for v in q])
    w.distinct([(v, i) for i, v in enumerate(q)])
    w.distinct([(v, -i) for i, v in enumerate(q)])
    p.check = lambda s, t: all(s[q[i]] != s[q[j]] and abs(s[q[i]] - s[q[j]]) != i - j for i in range(n) for j in range(i)) and all(1 <= s[v] <= n for v in q)
    return finish(p, all_solutions(q, [range(1, n + 1)] * n, lambda a: all(a[-1] != a[j] and abs(a[-1] - a[j]) != len(a) - 1 - j for j in range(len(a) - 1))))


def latin(r):
    p = P("latin")
    w = W(r, p)
    n = r.choice([3, 4, 4])
    cells = [(i, j) for i in range(n) for j in range(n)]
    base = [[(i + j) % n for j in range(n)] for i in range(n)]
    perm = [r.sample(range(n), n) for _ in range(3)]
    planted = {(i, j): perm[2][base[perm[0][i]][perm[1][j]]] for i, j in cells}
    given = set(r.sample(cells, r.randint(0, n) if n == 3 else r.randint(3, 7)))
    name = {c: "x(%d,%d)" % c for c in cells}
    for c in cells:
        w.dom(name[c], 0, n - 1)
        if c in given:
            w.con([(1, name[c])], "=", planted[c])
    for i in range(n):
        w.distinct([(name[i, j], 0) for j in range(n)])
        w.distinct([(name[j, i], 0) for j in range(n)])

    def ok(a):
        k = len(a) - 1
        i, j = cells[k]
        if (i, j) in given and a[k] != planted[i, j]:
            return False
        return all(a[i * n + m] != a[k] for m in range(j)) and all(a[m * n + j] != a[k] for m in range(i))
    tup = all_solutions(cells, [range(n)] * (n * n), ok)
    ts = set(tup)
    p.check = lambda s, t: tuple(s[name[c]] for c in cells) in ts
    return finish(p, tup)


def magic(r):
    p = P("magic")
    w = W(r, p)
    c = ["m(%d)" % i for i in range(9)]
    off = r.randint(-6, 3)
    for v in c:
        w.dom(v, 1 + off, 9 + off)
    w.distinct([(v, 0) for v in c])
    ls = [(0, 1, 2), (3, 4, 5), (6, 7, 8), (0, 3, 6), (1, 4, 7), (2, 5, 8), (0, 4, 8), (2, 4, 6)]
    for l in ls:
        w.con([(1, c[i]) for i in l], "=", 15 + 3 * off)
    tup = [tuple(x + off for x in t) for t in _magic()]
    if r.random() < 0.4:
        w.con([(1, c[0]), (-1, c[2])], "<=", -1)
        tup = [t for t in tup if t[0] < t[2]]
    ts = set(tup)
    p.check = lambda s, t: tuple(s[v] for v in c) in ts
    return finish(p, tup)


@functools.lru_cache(None)
def _magic():
    ls = [(0, 1, 2), (3, 4, 5), (6, 7, 8), (0, 3, 6), (1, 4, 7), (2, 5, 8), (0, 4, 8), (2, 4, 6)]
    return [t for t in itertools.permutations(range(1, 10)) if all(t[a] + t[b] + t[c] == 15 for a, b, c in ls)]


def crypt(r):
    """Cryptarithm w1 + w2 = w3 over few letters."""
    p = P("crypt")
    w = W(r, p)
    base = r.choice([5, 6, 7, 10])
    k = r.randint(3, 6 if base < 10 else 5)
    let = ["l%d" % i for i in range(min(k, base))]
    L = r.randint(2, 3)
    ws = [[r.choice(let) for _ in range(L)], [r.choice(let) for _ in range(r.randint(1, L))], [r.choice(let) for _ in range(r.choice([L, L + 1]))]]
    co = {}
    for sgn, word in zip((1, 1, -1), ws):
        for e, l in enumerate(reversed(word)):
            co[l] = co.get(l, 0) + sgn * base ** e
    for l in let:
        w.dom(l, 0, base - 1)
    for word in ws:
        w.con([(1, word[0])], ">=", 1)
    w.distinct([(l, 0) for l in let])
    if r.random() < 0.5:
        w.con([(c, l) for l, c in co.items()], "=", 0)
    else:
        # letters occur several times
        w.con([(sgn * base ** e, l) for sgn, word in zip((1, 1, -1), ws) for e, l in enumerate(reversed(word))], "=", 0)
    lead = {word[0] for word in ws}
    tup = [t for t in itertools.permutations(range(base), len(let))
           if sum(co.get(l, 0) * v for l, v in zip(let, t)) == 0 and all(v or l not in lead for l, v in zip(let, t))]
    ts = set(tup)
    p.check = lambda s, t: tuple(s[v] for v in let) in ts
    return finish(p, tup)


def coins(r):
    """Ways to pay an amount: long sums with large and repeated coefficients."""
    p = P("coins")
    w = W(r, p)
    while True:
        n = r.randint(3, 9)
        co = [r.choice([1, 2, 3, 5, 7, 10, 20, 25, 50]) * r.choice([1, 1, 1, -1]) for _ in range(n)]
        lo = [r.choice([0, 0, -1, 1]) for _ in range(n)]
        hi = [l + r.randint(1, 6) for l in lo]
        goal = sum(c * r.randint(a, b) for c, a, b in zip(co, lo, hi))
        op = r.choice(["=", "=", "=", "<=", ">="])
        if op != "=":
            ends = sum(min(c * a, c * b) for c, a, b in zip(co, lo, hi)), sum(max(c * a, c * b) for c, a, b in zip(co, lo, hi))
            goal = ends[0] + r.randint(0, 9) if op == "<=" else ends[1] - r.randint(0, 9)
        ways = {0: 1}
        for c, a, b in zip(co, lo, hi):
            nw = {}
            for s, k in ways.items():
                for v in range(a, b + 1):
                    nw[s + c * v] = nw.get(s + c * v, 0) + k
            ways = nw
        count = sum(k for s, k in ways.items() if holds(s, op, goal))
        if count <= 1500:
            break
    vs = ["c(%d)" % i for i in range(n)]
    for v, a, b in zip(vs, lo, hi):
        w.dom(v, a, b)
    w.con(list(zip(co, vs)), op, goal)
    p.check = lambda s, t: holds(sum(c * s[v] for c, v in zip(co, vs)), op, goal) and all(a <= s[v] <= b for v, a, b in zip(vs, lo, hi))
    p.count, p.sat = count, count > 0
    return p


def coloring(r):
    p = P("coloring")
    w = W(r, p)
    n, k = r.randint(4, 8), r.choice([2, 3, 3])
    edges = [(i, j) for i in range(n) for j in range(i) if r.random() < 0.45]
    vs = ["v(%d)" % i for i in range(n)]
    for v in vs:
        w.dom(v, 1, k)
    form = r.randrange(3)
    if form == 0:
        for i, j in edges:
            w.con([(1, vs[i]), (-1, vs[j])], "!=", 0)
    elif form == 1:
        p.lines += ["edge(%d,%d)." % e for e in edges] + ["e(0,0)."]
        p.lines.append(":- edge(I,J), &sum { v(I) } = v(J)." if r.random() < 0.5 else "&sum { v(I); -1*v(J) } != 0 :- edge(I,J).")
    else:
        for e in edges:
            w.distinct([(vs[e[0]], 0), (vs[e[1]], 0)])
    adj = [[j for a, j in edges if a == i] for i in range(n)]
    tup = all_solutions(vs, [range(1, k + 1)] * n, lambda a: all(a[j] != a[-1] for j in adj[len(a) - 1]))
    ts = set(tup)
    p.check = lambda s, t: tuple(s[v] for v in vs) in ts
    return finish(p, tup)


def pigeons(r):
    p = P("pigeons")
    w = W(r, p)
    n = r.randint(3, 6)
    vs = ["p(%d)" % i for i in range(n + 1)]
    lo = r.randint(-3, 3)
    full = r.random() < 0.6
    for v in vs[:n + 1 if not full else n]:
        w.dom(v, lo, lo + n - 1)
    if full:
        w.dom(vs[n], lo, lo + n)
    w.distinct([(v, 0) for v in vs])
    tup = [t + (lo + n,) for t in itertools.permutations(range(lo, lo + n))] if full else []
    ts = set(tup)
    p.check = lambda s, t: tuple(s[v] for v in vs) in ts
    return finish(p, tup)


def ordering(r):
    """Linear extensions of a partial order, counted over subsets."""
    p = P("ordering")
    w = W(r, p)
    while True:
        n = r.randint(4, 8)
        prec = [(i, j) for j in range(n) for i in range(j) if r.random() < 0.35]
        pre = [sum(1 << i for i, j in prec if j == k) for k in range(n)]
        ways = [0] * (1 << n)
        ways[0] = 1
        for m in range(1 << n):
            for k in range(n):
                if not m >> k & 1 and pre[k] & m == pre[k]:
                    ways[m | 1 << k] += ways[m]
        if ways[-1] <= 1500:
            break
    ids = r.sample(range(n), n)
    vs = ["t(%d)" % ids[i] for i in range(n)]
    for v in vs:
        w.dom(v, 1, n)
    for i, j in prec:
        w.con([(1, vs[i]), (-1, vs[j])], "<=", -1)
    if r.random() < 0.5:
        w.distinct([(v, 0) for v in vs])
    else:
        p.lines.append("&disjoint { %s }." % "; ".join("%s @ 1" % v for v in vs))
    p.check = lambda s, t: sorted(s[v] for v in vs) == list(range(1, n + 1)) and all(s[vs[i]] < s[vs[j]] for i, j in prec)
    p.count, p.sat = ways[-1], True
    return p


# ------------------------------------------------------------------ choices and variables
def subset(r):
    """Chosen items determine variables: choices, conditional domains and sums over many variables."""
    p = P("subset")
    w = W(r, p)
    while True:
        n = r.randint(5, 12)
        wt = [r.randint(1, 30) for _ in range(n)]
        pf = [r.randint(0, 40) for _ in range(n)]
        cap = r.randint(max(wt), sum(wt))
        sets = [m for m in range(1 << n) if sum(wt[i] for i in range(n) if m >> i & 1) <= cap]
        obj = r.random() < 0.6
        if obj or len(sets) <= 1500:
            break
    vs = ["w(%d)" % i for i in range(n)]
    p.lines.append(" ".join("item(%d,%d,%d)." % x for x in zip(range(n), wt, pf)))
    p.lines.append("{ take(I) } :- item(I,_,_).")
    k = r.randrange(3)
    if k == 0:
        p.unbounded = r.random() < 0.5
        p.lines += ["&sum { w(I) } = W :- take(I), item(I,W,P).", "&sum { w(I) } = 0 :- not take(I), item(I,W,P)."]
        p.lines += [] if p.unbounded else ["&dom { -W..W+9 } = w(I) :- item(I,W,P)."]
    elif k == 1:
        p.lines += ["&dom { 0; W } = w(I) :- item(I,W,P).", "take(I) :- &sum { w(I) } > 0, item(I,W,P).", ":- take(I), &sum { w(I) } <= 0."]
        p.lines[1] = ""
        p.lines = [l for l in p.lines if l]
    else:
        p.lines += ["&dom { 0..W } = w(I) :- item(I,W,P).", "&sum { w(I) } >= W :- take(I), item(I,W,P).", ":- not take(I), not &sum { w(I) } = 0, item(I,W,P)."]
    p.ivars += vs
    p.atoms = {"take(%d)" % i for i in range(n)}
    p.lines.append("&sum { w(I) : item(I,W,P) } <= %d." % cap)

    def ok(s, t):
        return all(s[vs[i]] == (wt[i] if "take(%d)" % i in t else 0) for i in range(n)) and sum(s.values()) <= cap
    p.check = ok
    if obj:
        # profit through a further variable or directly: maximize is a negated minimize
        c = [r.randint(-3, 5) for _ in range(n)]
        w.minimize([(-c[i], vs[i]) for i in range(n) if c[i]] or [(0, vs[0])])
        p.cost = lambda s, t: -sum(c[i] * s[vs[i]] for i in range(n))
        p.best = min(-sum(c[i] * wt[i] for i in range(n) if m >> i & 1) for m in sets)
        p.sat = True
    else:
        p.count, p.sat = len(sets), True
    p.sols = [(frozenset("take(%d)" % i for i in range(n) if m >> i & 1), tuple(wt[i] if m >> i & 1 else 0 for i in range(n)),
               p.cost({vs[i]: wt[i] if m >> i & 1 else 0 for i in range(n)}, ()) if obj else 0) for m in sets]
    return p


# ------------------------------------------------------------------ optimization
def knapsack(r):
    """Bounded knapsack with many variables; optimum by dynamic programming."""
    p = P("knapsack")
    w = W(r, p)
    n = r.randint(4, 10)
    wt = [r.randint(1, 25) for _ in range(n)]
    pf = [r.randint(1, 30) for _ in range(n)]
    mx = [r.randint(1, 3) for _ in range(n)]
    cap = r.randint(max(wt), sum(a * b for a, b in zip(wt, mx)))
    best = [0] * (cap + 1)
    for a, b, m in zip(wt, pf, mx):
        best = [max(best[c - k * a] + k * b for k in range(m + 1) if k * a <= c) for c in range(cap + 1)]
    vs = ["x(%d)" % i for i in range(n)]
    for v, m in zip(vs, mx):
        w.dom(v, 0, m)
    w.con(list(zip(wt, vs)), "<=", cap)
    const = r.choice([0, 0, 5, -7])
    w.minimize([(-b, v) for b, v in zip(pf, vs)], const)
    p.check = lambda s, t: sum(a * s[v] for a, v in zip(wt, vs)) <= cap and all(0 <= s[v] <= m for v, m in zip(vs, mx))
    p.cost = lambda s, t: const - sum(b * s[v] for b, v in zip(pf, vs))
    p.best, p.sat = const - best[cap], True
    return p


def network(r):
    """Simple temporal problem with many variables: longest paths decide consistency and the optimum."""
    p = P("network")
    w = W(r, p)
    n = r.randint(8, 40)
    vs = ["s(%d)" % i for i in range(n)]
    H = 60
    plant = [r.randint(0, H) for _ in range(n)]
    arcs = []   # s_j - s_i >= d
    for _ in range(r.randint(n, 3 * n)):
        i, j = r.sample(range(n), 2)
        arcs.append((i, j, plant[j] - plant[i] - r.randint(0, 12)))
    if r.random() < 0.35:
        # possibly inconsistent
        for _ in range(r.randint(1, 2)):
            i, j = r.sample(range(n), 2)
            arcs.append((i, j, plant[j] - plant[i] + r.randint(1, 9)))
    low = [0] * n
    for _ in range(n + 2):
        for i, j, d in arcs:
            low[j] = max(low[j], low[i] + d)
    sat = all(low[j] >= low[i] + d for i, j, d in arcs) and max(low) <= H
    for v in vs:
        w.dom(v, 0, H)
    if r.random() < 0.4:
        p.lines += ["arc(s(%d),s(%d),%d)." % a for a in arcs] + ["&diff { I - J } <= -D :- arc(I,J,D)." if r.random() < 0.5 else "&sum { J; -I } >= D :- arc(I,J,D)."]
    else:
        for i, j, d in arcs:
            w.con([(1, vs[i]), (-1, vs[j])], "<=", -d)
    p.check = lambda s, t: all(s[vs[j]] - s[vs[i]] >= d for i, j, d in arcs) and all(0 <= s[v] <= H for v in vs)
    p.sat = sat
    if r.random() < 0.6:
        sub = r.sample(range(n), r.randint(1, n))
        c = [r.choice([1, 1, 2, 3]) for _ in sub]
        w.minimize([(k, vs[i]) for k, i in zip(c, sub)])
        p.cost = lambda s, t: sum(k * s[vs[i]] for k, i in zip(c, sub))
        p.best = sum(k * low[i] for k, i in zip(c, sub)) if sat else None
    elif sat:
        p.planted = (frozenset(), tuple(low), 0)
    return p


def jobshop(r):
    p = P("jobshop")
    w = W(r, p)
    J, M = r.choice([(2, 2), (2, 3), (3, 2), (3, 3)])
    route = [r.sample(range(M), M) for _ in range(J)]
    dur = [[r.randint(1, 5) for _ in range(M)] for _ in range(J)]
    H = sum(map(sum, dur))
    v = [["t(%d,%d)" % (j, k) for k in range(M)] for j in range(J)]
    for j in range(J):
        for k in range(M):
            w.dom(v[j][k], 0, H)
    w.dom("end", 0, H)
    for j in range(J):
        for k in range(M - 1):
            w.con([(1, v[j][k]), (-1, v[j][k + 1])], "<=", -dur[j][k])
        w.con([(1, v[j][M - 1]), (-1, "end")], "<=", -dur[j][M - 1])
    ops = [[(j, route[j].index(m)) for j in range(J)] for m in range(M)]
    k = r.randrange(2)
    for m in range(M):
        if k == 0:
            p.lines.append("&disjoint { %s }." % "; ".join("%s @ %d" % (v[j][q], dur[j][q]) for j, q in ops[m]))
        else:
            for (a, x), (b, y) in itertools.combinations(ops[m], 2):
                o = "o(%d,%d,%d)" % (m, a, b)
                p.lines.append("{ %s }." % o)
                w.con([(1, v[a][x]), (-1, v[b][y])], "<=", -dur[a][x], o)
                w.con([(1, v[b][y]), (-1, v[a][x])], "<=", -dur[b][y], "not " + o)
    w.minimize([(1, "end")])
    best = H
    for orders in itertools.product(*[list(itertools.permutations(o)) for o in ops]):
        arcs = [((j, q), (j, q + 1)) for j in range(J) for q in range(M - 1)] + [(a, b) for o in orders for a, b in zip(o, o[1:])]
        st = {(j, q): 0 for j in range(J) for q in range(M)}
        for _ in range(J * M + 1):
            ch = False
            for a, b in arcs:
                if st[b] < st[a] + dur[a[0]][a[1]]:
                    st[b], ch = st[a] + dur[a[0]][a[1]], True
            if not ch:
                break
        if not ch:
            best = min(best, max(st[a] + dur[a[0]][a[1]] for a in st))

    def ok(s, t):
        f = lambda j, q: s[v[j][q]]
        if any(f(j, q) + dur[j][q] > f(j, q + 1) for j in range(J) for q in range(M - 1)):
            return False
        if any(f(j, M - 1) + dur[j][M - 1] > s["end"] for j in range(J)) or s["end"] > H or any(f(j, 0) < 0 for j in range(J)):
            return False
        return all(f(a, x) + dur[a][x] <= f(b, y) or f(b, y) + dur[b][y] <= f(a, x) for m in range(M) for (a, x), (b, y) in itertools.combinations(ops[m], 2))
    p.check, p.cost, p.best, p.sat = ok, lambda s, t: s["end"], best, True
    return p


def assignment(r):
    """Workers to tasks with costs through conditional sums."""
    p = P("assignment")
    w = W(r, p)
    n = r.randint(2, 5)
    c = [[r.randint(-5, 20) for _ in range(n)] for _ in range(n)]
    xs, cs = ["x(%d)" % i for i in range(n)], ["c(%d)" % i for i in range(n)]
    for i in range(n):
        w.dom(xs[i], 0, n - 1)
        w.dom(cs[i], min(c[i]), max(c[i]))
    w.distinct([(v, 0) for v in xs])
    k = r.randrange(2)
    for i in range(n):
        for j in range(n):
            if k:
                p.lines.append("is(%d,%d) :- &sum { %s } = %d." % (i, j, xs[i], j))
                p.atoms.add("is(%d,%d)" % (i, j))
                w.con([(1, cs[i])], "=", c[i][j], "is(%d,%d)" % (i, j))
            else:
                w.con([(1, cs[i])], "=", c[i][j], "&sum { %s } = %d" % (xs[i], j))

    def ok(s, t):
        return sorted(s[v] for v in xs) == list(range(n)) and all(s[cs[i]] == c[i][s[xs[i]]] for i in range(n)) and \
            (not k or t == {"is(%d,%d)" % (i, s[xs[i]]) for i in range(n)})
    p.check, p.sat = ok, True
    if r.random() < 0.7:
        w.minimize([(1, v) for v in cs])
        p.cost = lambda s, t: sum(s[v] for v in cs)
        p.best = min(sum(c[i][q[i]] for i in range(n)) for q in itertools.permutations(range(n)))
    else:
        p.count = len(list(itertools.permutations(range(n))))
    return p


def golomb(r):
    p = P("golomb")
    w = W(r, p)
    n, best = r.choice([(3, 3), (4, 6), (4, 6), (5, 11)])
    H = best + r.randint(0, 3)
    vs = ["g(%d)" % i for i in range(n)]
    for v in vs:
        w.dom(v, 0, H)
    w.con([(1, vs[0])], "=", 0)
    for a, b in zip(vs, vs[1:]):
        w.con([(1, a), (-1, b)], "<=", -1)
    els = ["%s-%s" % (vs[j], vs[i]) for i in range(n) for j in range(i + 1, n)]
    if r.random() < 0.6:
        p.lines.append("&distinct { %s }." % "; ".join(els))
    else:
        prs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        for (a, b), (c, d) in itertools.combinations(prs, 2):
            w.con([(1, vs[b]), (-1, vs[a]), (-1, vs[d]), (1, vs[c])], "!=", 0)

    def ok(s, t):
        x = [s[v] for v in vs]
        ds = [b - a for a, b in itertools.combinations(x, 2)]
        return x[0] == 0 and min(ds) > 0 and len(set(ds)) == len(ds) and max(x) <= H
    p.check, p.sat = ok, True
    if r.random() < 0.7:
        w.minimize([(1, vs[-1])])
        p.cost, p.best = lambda s, t: s[vs[-1]], best
    else:
        tup = [(0,) + t for t in itertools.combinations(range(1, H + 1), n - 1) if ok(dict(zip(vs, (0,) + t)), ())]
        finish(p, tup)
    return p


def route(r):
    """Cheapest path in a layered graph: choices, conditional sums, Dijkstra-like oracle."""
    p = P("route")
    w = W(r, p)
    L, n = r.randint(2, 6), r.randint(2, 4)
    cost = [[[r.randint(0, 15) for _ in range(n)] for _ in range(n)] for _ in range(L)]
    xs = ["n(%d)" % i for i in range(L + 1)]
    ds = ["d(%d)" % i for i in range(L + 1)]
    for v in xs:
        w.dom(v, 1, n)
    for v in ds:
        w.dom(v, 0, 15 * L)
    w.con([(1, ds[0])], "=", 0)
    p.lines.append("at(L,X) :- &sum { n(L) } = X, L=0..%d, X=1..%d." % (L, n))
    p.atoms = {"at(%d,%d)" % (l, x) for l in range(L + 1) for x in range(1, n + 1)}
    facts = ["arc(%d,%d,%d,%d)." % (l, a + 1, b + 1, cost[l][a][b]) for l in range(L) for a in range(n) for b in range(n)]
    p.lines.append(" ".join(facts))
    p.lines.append("&sum { d(L+1); -1*d(L) } = C :- arc(L,A,B,C), at(L,A), at(L+1,B)." if r.random() < 0.5 else
                   "&sum { d(L) + C } = d(L+1) :- arc(L,A,B,C), &sum { n(L) } = A, at(L+1,B).")
    cur = [0] * n
    for l in range(L):
        cur = [min(cur[a] + cost[l][a][b] for a in range(n)) for b in range(n)]

    def ok(s, t):
        return all(1 <= s[v] <= n for v in xs) and s[ds[0]] == 0 and all(s[ds[l + 1]] == s[ds[l]] + cost[l][s[xs[l]] - 1][s[xs[l + 1]] - 1] for l in range(L)) and \
            t == {"at(%d,%d)" % (l, s[xs[l]]) for l in range(L + 1)}
    p.check, p.sat = ok, True
    if n ** (L + 1) <= 1200 and r.random() < 0.3:
        p.count = n ** (L + 1)
    else:
        w.minimize([(1, ds[L])])
        p.cost, p.best = lambda s, t: s[ds[L]], min(cur)
    return p


# ------------------------------------------------------------------ products and domains
def squares(r):
    """Products: sums of squares, factorizations, and scaled products."""
    p = P("squares")
    w = W(r, p)
    k = r.randrange(3)
    if k == 0:
        n, m = r.randint(2, 4), r.randint(2, 5)
        lo = r.choice([0, -m])
        xs, qs = ["x(%d)" % i for i in range(n)], ["q(%d)" % i for i in range(n)]
        goal = sum(r.randint(lo, m) ** 2 for _ in range(n))
        names = []
        for x, q in zip(xs, qs):
            w.dom(x, lo, m)
            w.dom(q, -3, m * m + 3)
            names += [x, q]
            p.lines.append(r.choice(["&nsum { %s*%s } = %s.", "&nsum { %s*%s; -%s } = 0.", ":- not &nsum { -%s*%s } = -%s.", ":- &nsum { 2*%s*%s } != 2*%s."]) % (x, x, q))
        w.con([(1, q) for q in qs], "=", goal)
        tup = [sum(((a, a * a) for a in t), ()) for t in itertools.product(range(lo, m + 1), repeat=n) if sum(a * a for a in t) == goal]
    elif k == 1:
        n = r.randint(2, 4)
        lim = r.randint(4, 12)
        a, b = [r.choice([1, 1, 2, -3]) for _ in range(n)], r.choice([1, -1, 2])
        los = [r.choice([-lim, 0, 1, -2]) for _ in range(n)]
        xs = ["f(%d)" % i for i in range(n)]
        for x, l in zip(xs, los):
            w.dom(x, l, lim)
        op = r.choice(["=", "<=", ">", "!=", "="])
        rhs = r.randint(-30, 30)
        # consecutive products
        for i in range(n - 1):
            t = "&nsum { %d*%s*%s; %d*%s } %%s %d" % (a[i], xs[i], xs[i + 1], b, xs[0], rhs)
            p.lines.append(r.choice([t % op + ".", ":- not %s." % (t % op), ":- %s." % (t % NEG[op])]))
        tup = []
        for t in itertools.product(*[range(l, lim + 1) for l in los]):
            if all(holds(a[i] * t[i] * t[i + 1] + b * t[0], op, rhs) for i in range(n - 1)):
                tup.append(t)
        if len(tup) > 1500:
            v = [(1, x) for x in xs]
            cut = sorted(map(sum, tup))[1000]
            w.con(v, "<", cut)
            tup = [t for t in tup if sum(t) < cut]
        names = xs
    else:
        # rectangles with given area and a conditional perimeter
        m = r.randint(3, 20)
        area = r.choice([12, 24, 36, 30, 17, 0])
        names = ["h", "w"]
        w.dom("h", r.choice([-3, 1]), m)
        w.dom("w", -2, m)
        lo = -3 if ".. -" in p.lines[0] or "-3" in p.text.split("w", 1)[0] else 1
        p.lines.append("big :- &nsum { h*w } >= %d." % area)
        p.lines.append(":- not &nsum { w*h } <= %d." % area)
        p.lines.append("&sum { h; w } <= %d :- big." % (m + 3))
        p.atoms = {"big"}
        tup = [(x, y) for x in range(lo, m + 1) for y in range(-2, m + 1) if x * y <= area and (x * y < area or x + y <= m + 3)]
        p.ivars = names
        ts = set(tup)
        p.check = lambda s, t: (s["h"], s["w"]) in ts and (t == {"big"}) == (s["h"] * s["w"] >= area)
        p.sols = [(frozenset(["big"]) if x * y >= area else frozenset(), (x, y), 0) for x, y in tup]
        p.count, p.sat = len(tup), bool(tup)
        return p
    p.ivars = names
    ts = set(tup)
    p.check = lambda s, t: tuple(s[v] for v in names) in ts
    return finish(p, tup)


def listcolor(r):
    """Domains with holes, partly conditional, and disequalities."""
    p = P("listcolor")
    w = W(r, p)
    n = r.randint(3, 7)
    vs = ["z(%d)" % i for i in range(n)]
    na = r.randint(0, 3)
    for i in range(na):
        p.lines.append("{ c(%d) }." % i)
    p.atoms = {"c(%d)" % i for i in range(na)}
    doms = []

    def some(k):
        els, S = [], set()
        for _ in range(r.randint(1, k)):
            a = r.randint(-12, 12)
            b = a + r.choice([0, 0, 1, 2])
            S |= set(range(a, b + 1))
            els.append(str(a) if a == b else "%d..%s%d" % (a, " " if b < 0 else "", b))
        return "; ".join(els), S
    p.ivars = vs
    for v in vs:
        d, S = some(5)
        p.lines.append("&dom { %s } = %s." % (d, v))
        doms.append([(None, S)])
    for _ in range(r.randint(0, 2 * na)):
        i, c, sgn = r.randrange(n), r.randrange(na), r.random() < 0.5
        d, S = some(7)
        p.lines.append("&dom { %s } = %s :- %sc(%d)." % (d, vs[i], "" if sgn else "not ", c))
        doms[i].append(((c, sgn), S))
    edges = [(i, j) for i in range(n) for j in range(i) if r.random() < 0.4]
    for i, j in edges:
        w.con([(1, vs[i]), (-1, vs[j])], r.choice(["!=", "!="]), 0)
    cut = r.randint(-8, 8)
    w.con([(r.choice([1]), v) for v in vs], "<=", cut)
    p.sols = []
    for bits in itertools.product([False, True], repeat=na):
        ds = []
        for d in doms:
            S = None
            for c, T in d:
                if c is None or bits[c[0]] == c[1]:
                    S = T if S is None else S & T
            ds.append(sorted(S))
        at = frozenset("c(%d)" % i for i in range(na) if bits[i])
        for t in all_solutions(vs, ds, lambda a: all(a[j] != a[-1] for i, j in edges if i == len(a) - 1)):
            if sum(t) <= cut:
                p.sols.append((at, t, 0))
        if len(p.sols) > 3000:
            break
    if len(p.sols) > 1500:
        return listcolor(r)
    ts = {(a, t) for a, t, _ in p.sols}
    p.check = lambda s, t: (frozenset(t), tuple(s[v] for v in vs)) in ts
    p.count, p.sat = len(p.sols), bool(p.sols)
    return p


# ------------------------------------------------------------------ planted
def planted(r):
    """Many variables and long constraints around a known solution."""
    p = P("planted")
    w = W(r, p)
    n = r.choice([12, 20, 30, 45, 70])
    wid = r.choice([1, 3, 9, 40])
    vs = ["v(%d)" % i for i in range(n)]
    sol = [r.randint(-20, 20) for _ in range(n)]
    lo = [s - r.randint(0, wid) for s in sol]
    hi = [s + r.randint(0, wid) for s in sol]
    for v, a, b in zip(vs, lo, hi):
        w.dom(v, a, b)
    na = r.randint(0, 12)
    truth = [r.random() < 0.5 for _ in range(na)]
    for i in range(na):
        p.lines.append("{ a(%d) }." % i)
    p.atoms = {"a(%d)" % i for i in range(na)}
    cons = []
    for _ in range(r.randint(n // 3, n)):
        k = min(n, r.choice([2, 2, 3, 4, 6, 12, 40]))
        idx = r.sample(range(n), k)
        co = [r.choice([1, 1, -1, -1, 2, -3, 5]) for _ in idx]
        val = sum(c * sol[i] for c, i in zip(co, idx))
        op = r.choice(["<=", "<=", ">=", "=", "!="]) if k < 12 else r.choice(["<=", ">=", "<="])
        rhs = val if op == "=" else val + r.choice([-1, 1, 5]) if op == "!=" else val + (1 if op == "<=" else -1) * r.randint(0, 2 * k)
        body = ""
        cond = None
        if na and r.random() < 0.6:
            i = r.randrange(na)
            sgn = r.random() < 0.5
            body, cond = ("" if sgn else "not ") + "a(%d)" % i, (i, sgn)
            if truth[i] != sgn and r.random() < 0.7:
                rhs += r.choice([-9, 9])
        w.con([(c, vs[i]) for c, i in zip(co, idx)], op, rhs, body)
        cons.append((co, idx, op, rhs, cond))
    if r.random() < 0.4:
        k = r.randint(3, min(n, 15))
        idx = [i for i in r.sample(range(n), k)]
        seen, els = set(), []
        for i in idx:
            o = 0
            while sol[i] + o in seen:
                o += 1
            seen.add(sol[i] + o)
            els.append((i, o))
        w.distinct([(vs[i], o) for i, o in els])
        cons.append((None, els))

    def ok(s, t):
        for c in cons:
            if c[0] is None:
                if len({s[vs[i]] + o for i, o in c[1]}) < len(c[1]):
                    return False
                continue
            co, idx, op, rhs, cond = c
            if cond and ("a(%d)" % cond[0] in t) != cond[1]:
                continue
            if not holds(sum(k * s[vs[i]] for k, i in zip(co, idx)), op, rhs):
                return False
        return all(a <= s[v] <= b for v, a, b in zip(vs, lo, hi))
    p.check, p.sat = ok, True
    p.planted = (frozenset("a(%d)" % i for i in range(na) if truth[i]), tuple(sol), 0)
    assert ok(dict(zip(vs, sol)), p.planted[0])
    return p


# ------------------------------------------------------------------ size
def big(r, kind=None):
    """More of everything: many variables, long constraints, deep levels, many intervals, atoms, and answers."""
    k = kind or r.choice(["chain", "dom", "sum", "distinct", "disjoint", "nsum", "obj", "atoms"])
    p = P("big_" + k)
    w = W(r, p)
    if k == "chain":
        # x_1 < ... < x_n with little slack
        n = r.randint(10, 60)
        sl = r.choice([1, 1, 2]) if n < 40 else 1
        d = [r.randint(-3, 5) for _ in range(n - 1)]
        lo = r.randint(-100, 100)
        first = [lo + sum(d[:i]) for i in range(n)]
        vs = ["c(%d)" % i for i in range(n)]
        for v, f in zip(vs, first):
            if r.random() < 0.4:
                w.dom(v, f - r.randint(0, 30), f + sl + r.randint(0, 30))
            else:
                w.dom(v, lo - 400, lo + 400)
        for i in range(n - 1):
            w.con([(1, vs[i]), (-1, vs[i + 1])], "<=", -d[i])
        w.con([(1, vs[0])], ">=", lo)
        w.con([(1, vs[-1])], "<=", first[-1] + sl)
        p.check = lambda s, t: s[vs[0]] >= lo and s[vs[-1]] <= first[-1] + sl and all(s[vs[i + 1]] - s[vs[i]] >= d[i] for i in range(n - 1))
        return finish(p, [tuple(f + sum(1 for c in cs if c <= i) for i, f in enumerate(first)) for cs in itertools.combinations_with_replacement(range(n + 1), sl)])
    if k == "dom":
        # domains with many holes, given several times
        vs = ["h(%d)" % i for i in range(r.randint(1, 3))]
        sets = []
        for v in vs:
            lo, step = r.randint(-200, 100), r.choice([2, 3, 5, 9])
            s = None
            for _ in range(r.choice([1, 1, 2])):
                els, cur = [], set()
                for _ in range(r.randint(5, 70 if len(vs) == 1 else 25)):
                    a = lo + step * r.randint(0, 60)
                    b = a + r.choice([0, 0, 0, 1, 2, 4]) if r.random() < 0.95 else a - 1
                    els.append("%d" % a if a == b and r.random() < 0.7 else "%d..%s%d" % (a, " " if b < 0 else "", b))
                    cur |= set(range(a, b + 1))
                p.lines.append("&dom { %s } = %s." % ("; ".join(els), v))
                s = cur if s is None else s & cur
            p.ivars.append(v)
            sets.append(s)
        bound = None
        if len(vs) > 1:
            # x + y (+ z) close to the maximum
            tot = sorted((sum(t) for t in itertools.product(*sets)), reverse=True) if all(sets) else [0]
            bound = tot[min(len(tot) - 1, r.randint(5, 200))]
            w.con([(1, v) for v in vs], ">=", bound)
        p.check = lambda s, t: all(s[v] in d for v, d in zip(vs, sets)) and (bound is None or sum(s[v] for v in vs) >= bound)
        return finish(p, [t for t in itertools.product(*map(sorted, sets)) if bound is None or sum(t) >= bound])
    if k == "sum":
        # a long sum with few solutions
        n = r.randint(12, 40)
        vs = ["b(%d)" % i for i in range(n)]
        co = [r.choice([-1, 1]) * r.choice([1, 2, 3, 5, 7, 11, 20, 100]) for _ in range(n)]
        los = [r.randint(-3, 3) for _ in range(n)]
        his = [l + r.choice([1, 1, 1, 2, 3]) for l in los]
        least = sum(c * (l if c > 0 else h) for c, l, h in zip(co, los, his))

        def count(x):
            ways = {0: 1}
            for c, l, h in zip(co, los, his):
                nw = collections.Counter()
                for q, m in ways.items():
                    for j in range(h - l + 1):
                        if q + abs(c) * j <= x:
                            nw[q + abs(c) * j] += m
                ways = nw
            return ways
        x = 0
        while sum(count(x + 1).values()) <= 1000 and x < 40:
            x += 1
        op = r.choice(["<=", "="])
        y = r.randint(max(0, x - 4), x)
        cnt = count(y)
        p.count = sum(cnt.values()) if op == "<=" else cnt.get(y, 0)
        for v, l, h in zip(vs, los, his):
            w.dom(v, l, h)
        w.con(list(zip(co, vs)), op, least + y)
        p.sat, p.sols = p.count > 0, []

        def fill(i, rest, t):
            if i == n:
                if op == "<=" or rest == 0:
                    p.sols.append((frozenset(), tuple(dict(zip(vs, t))[v] for v in p.ivars), 0))
                return
            for j in range(his[i] - los[i] + 1):
                if abs(co[i]) * j <= rest:
                    fill(i + 1, rest - abs(co[i]) * j, t + [los[i] + j if co[i] > 0 else his[i] - j])
        fill(0, y, [])
        assert len(p.sols) == p.count
        p.check = lambda s, t: all(l <= s[v] <= h for v, l, h in zip(vs, los, his)) and holds(sum(c * s[v] for c, v in zip(co, vs)), op, least + y)
        return p
    if k in ("distinct", "disjoint"):
        # windows of two values: all elements below some point stay, all above move
        n = r.randint(9, 30)
        vs = ["e(%d)" % i for i in r.sample(range(100), n)]
        du = [1] * n if k == "distinct" else [r.randint(1, 9) for _ in range(n)]
        lo = r.randint(-30, 30)
        first = [lo + sum(du[:i]) for i in range(n)]
        for v, f in zip(vs, first):
            w.dom(v, f, f + 1)
        idx = r.sample(range(n), n)
        if k == "distinct":
            co = r.choice([1, 1, -1, 2, 3])
            p.lines.append("&distinct { %s }." % "; ".join(w.mul(co, vs[i]) for i in idx))
        else:
            p.lines.append("&disjoint { %s }." % "; ".join("%s @ %d" % (vs[i], du[i]) for i in idx))
        p.check = lambda s, t: all(f <= s[v] <= f + 1 for v, f in zip(vs, first)) and all(s[vs[i + 1]] >= s[vs[i]] + du[i] for i in range(n - 1))
        return finish(p, [tuple(f + (i >= c) for i, f in enumerate(first)) for c in range(n + 1)])
    if k == "nsum":
        # neighbours mostly have the same sign
        n = r.randint(6, 14)
        vs = ["s(%d)" % i for i in range(n)]
        ways = {(v, 0): 1 for v in (-1, 0, 1)}
        for _ in range(n - 1):
            nw = collections.Counter()
            for (a, q), m in ways.items():
                for b in (-1, 0, 1):
                    nw[b, q + a * b] += m
            ways = nw
        tot = collections.Counter()
        for (_, q), m in ways.items():
            tot[q] += m
        t0 = n - 1
        while t0 > 0 and sum(m for q, m in tot.items() if q >= t0 - 1) <= 800:
            t0 -= 1
        t0 = r.randint(t0, n - 1)
        op = r.choice([">=", "="])
        for v in vs:
            w.dom(v, -1, 1)
        qs = ["q(%d)" % i for i in range(n - 1)]
        for q, a, b in zip(qs, vs, vs[1:]):
            if r.random() < 0.5:
                a, b = b, a
            if r.random() < 0.8:
                w.dom(q, -1, 1)
            else:
                p.ivars.append(q)
            p.lines.append(r.choice(["&nsum { %s*%s } = %s.", "&nsum { %s*%s; -%s } = 0.", "&nsum { -(%s*%s); %s } = 0."]) % (a, b, q))
        w.con([(1, q) for q in qs], op, t0)
        p.count = sum(m for q, m in tot.items() if q == t0 or op == ">=" and q > t0)
        p.sat, p.sols = p.count > 0, []

        def walk(t, q):
            if q + n - len(t) < t0:
                return
            if len(t) == n:
                if op == ">=" or q == t0:
                    d = dict(zip(vs, t))
                    d.update({x: a * b for x, a, b in zip(qs, t, t[1:])})
                    p.sols.append((frozenset(), tuple(d[v] for v in p.ivars), 0))
                return
            for b in (-1, 0, 1):
                walk(t + [b], q + t[-1] * b)
        for a in (-1, 0, 1):
            walk([a], 0)
        assert len(p.sols) == p.count
        p.check = lambda s, t: all(-1 <= s[v] <= 1 for v in vs) and all(s[q] == s[a] * s[b] for q, a, b in zip(qs, vs, vs[1:])) and holds(sum(s[a] * s[b] for a, b in zip(vs, vs[1:])), op, t0)
        return p
    if k == "obj":
        # many terms, one constraint: a greedy choice is optimal
        n = r.randint(10, 40)
        vs = ["m(%d)" % i for i in range(n)]
        los = [r.randint(-9, 9) for _ in range(n)]
        his = [l + r.randint(1, 9) for l in los]
        co = [r.randint(1, 30) for _ in range(n)]
        for v, l, h in zip(vs, los, his):
            w.dom(v, l, h)
        need = r.randint(0, 12)
        w.con([(1, v) for v in vs], ">=", sum(los) + need)
        w.minimize(list(zip(co, vs)))
        rest, best, at = need, sum(c * l for c, l in zip(co, los)), dict(zip(vs, los))
        for c, l, h, v in sorted(zip(co, los, his, vs)):
            q = min(rest, h - l)
            rest, best = rest - q, best + c * q
            at[v] += q
        if rest == 0:
            p.planted = (frozenset(), tuple(at[v] for v in p.ivars), best)
        p.check = lambda s, t: all(l <= s[v] <= h for v, l, h in zip(vs, los, his)) and sum(s[v] for v in vs) >= sum(los) + need
        p.cost = lambda s, t: sum(c * s[v] for c, v in zip(co, vs))
        p.sat, p.best = rest == 0, best if rest == 0 else None
        return p
    # many atoms about few variables
    n = r.choice([1, 1, 2])
    vs = ["z(%d)" % i for i in range(n)]
    top = r.randint(50, 600) if n == 1 else r.randint(10, 25)
    lo = r.randint(-top, 0)
    names = {}
    for v in vs:
        w.dom(v, lo, lo + top)
        for j in r.sample(range(lo - 2, lo + top + 3), r.randint(10, top)):
            op = r.choice(["<=", ">=", "<", ">", "=", "!="])
            a = "o%d" % len(names)
            names[a] = (v, op, j)
            p.lines.append("%s :- %s." % (a, w.atom([(1, v)], op, j)))
    p.atoms = set(names)
    p.check = lambda s, t: all(lo <= s[v] <= lo + top for v in vs) and t == {a for a, (v, op, j) in names.items() if holds(s[v], op, j)}
    p.count, p.sat = (top + 1) ** n, True
    p.sols = [(frozenset(a for a, (v, op, j) in names.items() if holds(dict(zip(p.ivars, t))[v], op, j)), t, 0)
              for t in itertools.product(range(lo, lo + top + 1), repeat=n)]
    return p


def big_of(kind):
    return lambda r: big(r, kind)


SAT = [queens, latin, magic, crypt, coins, coloring, pigeons, ordering, subset, planted, planted, network, golomb, squares, listcolor, big, big, big, big]
OPT = [subset, knapsack, network, jobshop, assignment, golomb, route, big_of("obj")]
ALL = [queens, latin, magic, crypt, coins, coloring, pigeons, ordering, subset, knapsack, network, jobshop, assignment, golomb, route, planted, squares, listcolor, big, big, big, big]
DISTINCT = [queens, latin, magic, crypt, pigeons, golomb, assignment, planted, big_of("distinct"), big_of("distinct")]
DISJOINT = [ordering, jobshop, queens, pigeons, big_of("disjoint")]
NSUM = [squares, squares, squares, big_of("nsum")]
DOM = [listcolor, subset, big_of("dom")]


def problem(seed, kinds):
    r = random.Random("problem/%s" % (seed,))
    p = r.choice(kinds)(r)
    if r.random() < 0.3:
        r.shuffle(p.lines)
    return p


def split(r, p, n):
    """Splits a problem into parts to be grounded one after the other; definitions come first."""
    parts, last = [[] for _ in range(n)], 0
    # Note: objectives over variables without bounds are rejected
    for l in sorted(p.lines, key=lambda l: l.startswith(("&minimize", "&maximize"))):
        later = l.startswith(("&sum", "&nsum", "&diff", "&distinct", "&disjoint", "&dom", "&minimize", "&maximize", ":-")) and l not in p.base
        i = r.randrange(last if l.startswith(("&min", "&max")) else 0, n) if later else 0
        if l.startswith("&dom"):
            last = max(last, i)
        parts[i].append(l)
    return parts
