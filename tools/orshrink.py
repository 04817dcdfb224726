#!/usr/bin/env python3-vt
"""Shrinks a 'lost'/'wrong' enumeration failure: compares enumeration with the sum over all pinned points.
usage: orshrink.py OUT.json"""
import sys, json, itertools
sys.path[:0] = ["/verif/lib"]
import vlib
d = json.load(open(sys.argv[1]))["replay"]
job = d["job"]
exes, _ = vlib.build([vlib.driver_target("asan"), vlib.driver_target("rel")])
ops = job["ops"]
lines = next(o for o in ops if o[0] == "text")[3].split("\n")
new = ops[0]
conf = [o for o in ops if o[0] == "conf"]
exp = d.get("expected") or []
names = {}
for e in exp:
    for v in e.partition("|")[2].split():
        n, _, x = v.rpartition("=")
        names.setdefault(n, set()).add(int(x))
PT = None
ALL = pts = list(itertools.islice(itertools.product(*[sorted(names[n]) for n in names]), 4000))

def job_(i, ls, new, conf):
    return {"id": i, "timeout": 20, "ops": [new, ["theory", "t"]] + conf + [["reg", "t", "c"], ["text", "t", "c", "\n".join(ls)], ["ground", "c", "base"], ["prepare", "t", "c"], ["solve", "t", "c"]]}
def ms(r):
    return {(tuple(sorted(m["a"])), tuple(sorted("%s=%s" % (x[0], x[1]) for x in m["v"][0]))) for q in r.models.values() for m in q}
def bad(ls, new, conf, pts=None):
    pts = pts or PT or ALL
    js = [job_("all", ls, new, conf)]
    js += [job_(str(i), ls + ["&sum { %s } = %s." % (n, str(v).replace("-", "- ")) for n, v in zip(names, p)], ["new", "c", "0"], []) for i, p in enumerate(pts)]
    rs = vlib.run_jobs(exes["driver-rel"], js, retry_timeouts=False)
    if any(r.crashed or r.timeout or any(not q["ok"] for q in r.ops.values()) for r in rs.values()): return None
    a = ms(rs["all"])
    if any("Unknown" in q for q in rs["0"].ops.values()): return None
    for m in list(a)[:1] + [m for i in range(len(pts)) for m in ms(rs[str(i)])][:1]:
        if len(m[1]) != len(names): return None
    if not a and any(("text" in o and False) for o in []): return None
    if any(n not in "\n".join(l for l in ls) for n in names): return None
    for i, p in enumerate(pts):
        s = {"%s=%s" % (n, v) for n, v in zip(names, p)}
        sub = {m for m in a if s <= set(m[1])}
        if sub != ms(rs[str(i)]):
            return (p, len(sub), len(ms(rs[str(i)])))
    return None
b = bad(lines, new, conf)
print(names, "bad:", b)
PT = [b[0]] if b else None
ch = bool(b)
while ch:
    ch = False
    for i in reversed(range(len(lines))):
        l2 = lines[:i] + lines[i+1:]
        if bad(l2, new, conf): lines = l2; ch = True; break
    else:
        for i in range(len(conf)):
            c2 = conf[:i] + conf[i+1:]
            if bad(lines, new, c2): conf = c2; ch = True; break
        else:
            if len(new) > 3 and bad(lines, ["new", "c", "0"], conf): new = ["new", "c", "0"]; ch = True
print("\n".join(lines)); print(new, conf, bad(lines, new, conf))
