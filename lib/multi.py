"""Random multi-shot programs: rounds of program parts, each prefix with an exhaustive oracle."""
import random
import numpy as np
import gen
from gen import G, IVar, Env


class MG(G):
    """Adds statements round by round; every round is a program part p0, p1, ..."""

    def build_rounds(self, nrounds, with_obj):
        r, p = self.r, self.p
        self.externals = []
        self.shows = []
        self.rounds = []  # (lines, number of choices, ivars, sem, derived, obj)
        self.nv, self.has_i = 0, False
        self.VN = list(self.VNAMES)
        r.shuffle(self.VN)
        self.common_range = r.random() < p["free"]
        w = r.randint(2, 6)
        self.lo = r.randint(-5, 4)
        self.hi = self.lo + w - 1
        if self.common_range:
            self.conf = {"min-int": str(self.lo), "max-int": str(self.hi)}
        obj_round = r.randrange(nrounds) if with_obj else None
        for k in range(nrounds):
            start = len(self.lines)
            nch = r.choice([0, 1, 1, 2]) if k else r.choice([0, 1, 2])
            for _ in range(nch):
                if len(self.choices) >= 5:
                    break
                if r.random() < 0.45:
                    a = self.name("e")
                    init = r.choice(["", "", " [true]", " [free]", " [false]"])
                    self.lines.append("#external %s.%s" % (a, init))
                    self.externals.append((a, k, {"": "f", " [true]": "t", " [free]": "u", " [false]": "f"}[init]))
                    self.choices.append(a)
                else:
                    a = self.name("a")
                    self.lines.append("{ %s }." % a)
                    self.choices.append(a)
            niv = r.choice([1, 1, 2, 2]) if k == 0 else r.choice([0, 0, 1])
            for _ in range(niv):
                if len(self.ivars) >= 4:
                    break
                self.declare(self.VN[len(self.ivars)])
            kinds = ["sum", "diff", "nsum", "distinct", "disjoint", "dom", "rule", "integrity"]
            weights = [p[x] for x in kinds]
            for _ in range(r.randint(1, 4)):
                x = r.choices(kinds, weights)[0]
                if x in ("sum", "diff", "nsum"):
                    self.s_head(x)
                else:
                    getattr(self, "s_" + x)()
            if obj_round is not None and k >= obj_round and (k == obj_round or r.random() < 0.4):
                self.s_objective()
            if r.random() < p["show"]:
                self.s_show()
            shown = self.shown_vars(self.ivars)
            part = self.lines[start:]
            if r.random() < 0.3:
                # d/1 facts have to come first if a later round uses them; order within a round is irrelevant
                r.shuffle(part)
            self.rounds.append({"lines": part, "nc": len(self.choices), "ni": len(self.ivars), "ns": len(self.sem),
                                "shown": shown, "nd": len(self.derived), "no": len(self.obj)})
        return self

    def declare(self, nm):
        r = self.r
        if self.common_range:
            self.ivars.append(IVar(nm, self.lo, self.hi))
            self.lines.append(r.choice(["&sum { %s } >= %d." % (nm, self.lo), "&sum { %s } <= %d." % (nm, self.hi + 1)]))
            return
        w = r.randint(*self.p["width"])
        lo = r.randint(-6, 4)
        v = IVar(nm, lo, lo + w - 1)
        self.ivars.append(v)
        k = r.random()
        if k < 0.4:
            self.lines.append("&dom { %d .. %d } = %s." % (v.lo, v.hi, nm))
        elif k < 0.8:
            self.lines.append("&sum { %s } >= %d. &sum { %s } <= %d." % (nm, v.lo, nm, v.hi))
        else:
            self.lines.append(":- &sum { %s } < %d. :- not &sum { %s } <= %d." % (nm, v.lo, nm, v.hi))


class Round:
    __slots__ = ("lines", "sols", "ivars", "atoms", "externals", "has_obj", "new_obj", "shown")


def solve_prefix(g, rd):
    """All solutions with externals free: list of (frozenset atoms, values tuple, objective)."""
    env = Env(g.choices[:rd["nc"]], g.ivars[:rd["ni"]])
    tot = 1
    for s in env.shape:
        tot *= s
    if tot > g.p["maxcombos"]:
        return None
    for s in g.sem[:rd["ns"]]:
        s(env)
    full = np.broadcast_to(env.mask, env.shape)
    idx = np.argwhere(full)
    if len(idx) > 4000:
        return None
    o = np.int64(0)
    for sgn, sem in g.obj[:rd["no"]]:
        for x, mult in sem:
            o = o + sgn * mult * x.ev(env)
    obj = np.broadcast_to(o, env.shape)
    atoms = g.choices[:rd["nc"]] + g.derived[:rd["nd"]]
    bn = [(a, np.broadcast_to(env.B[a], env.shape)) for a in atoms]
    nc = rd["nc"]
    ivs = g.ivars[:rd["ni"]]
    res = []
    for ix in idx:
        t = tuple(ix)
        res.append((frozenset(a for a, arr in bn if arr[t]), tuple(v.lo + int(t[nc + k]) for k, v in enumerate(ivs)), int(obj[t])))
    return res


class Multi:
    """Picklable: rounds with oracle solutions."""
    __slots__ = ("text", "conf", "rounds", "features", "seed")


def multi(seed, profile=None, nrounds=None, with_obj=None):
    for attempt in range(80):
        rng = random.Random("%s/%d" % (seed, attempt))
        prof = {"maxcombos": 60000, "width": (2, 5), "nonground": 0, "show": 0, "distinct": 1.2, "disjoint": 0.8}
        prof.update(profile or {})
        g = MG(rng, prof)
        n = nrounds or rng.choice([2, 3, 3, 4])
        wo = rng.random() < 0.35 if with_obj is None else with_obj
        g.build_rounds(n, wo)
        out = []
        for k, rd in enumerate(g.rounds):
            s = solve_prefix(g, rd)
            if s is None:
                break
            q = Round()
            q.lines = rd["lines"]
            q.sols = s
            q.ivars = [v.name for v in g.ivars[:rd["ni"]]]
            q.atoms = set(g.choices[:rd["nc"]] + g.derived[:rd["nd"]])
            q.externals = [(a, init) for a, kk, init in g.externals if kk <= k]
            q.shown = rd["shown"]
            q.has_obj = rd["no"] > 0
            q.new_obj = rd["no"] > (g.rounds[k - 1]["no"] if k else 0)
            out.append(q)
        if len(out) < n:
            continue
        sizes = [len(q.sols) for q in out]
        # most histories should stay satisfiable to the end
        if sizes[0] == 0 or sizes[-1] == 0 and rng.random() < 0.8:
            continue
        m = Multi()
        m.text = "\n".join("#program p%d.\n%s" % (k, "\n".join(q.lines)) for k, q in enumerate(out))
        m.conf, m.rounds, m.features, m.seed = g.conf, out, sorted(g.features), seed
        return m
    raise RuntimeError("no tractable multi-shot program for seed %s" % seed)


def expected(rd, ext, assume):
    """Solutions of a round under external values {a: t/f/u/r} and assumptions [(a, bool)]: {key: objective}."""
    res = {}
    for atoms, vals, obj in rd.sols:
        ok = True
        for a, _ in rd.externals:
            v = ext[a]
            if v in ("f", "r") and a in atoms or v == "t" and a not in atoms:
                ok = False
                break
        if ok:
            for a, s in assume:
                if (a in atoms) != s:
                    ok = False
                    break
        if ok:
            res[key(atoms, rd.ivars, vals)] = obj
    return res


def key(atoms, ivars, vals):
    return " ".join(sorted(atoms)) + "|" + " ".join(sorted("%s=%d" % x for x in zip(ivars, vals)))


def model_key(rd, m):
    return (" ".join(sorted(a for a in m["a"] if a in rd.atoms)) + "|"
            + " ".join(sorted("%s=%d" % (x[0], x[1]) for x in m["v"][0])))
