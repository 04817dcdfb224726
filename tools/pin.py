#!/usr/bin/env python3-vt
"""Shrinks a lost answer: pin.py OUT.json 'g(x)=-5 x=-1' ; removes lines while the pinned program stays UNSAT."""
import sys, json
sys.path[:0] = ["/verif/lib"]
import vlib
d = json.load(open(sys.argv[1]))["replay"]
job = d["job"]
exes, _ = vlib.build([vlib.driver_target("rel")])
ops = job["ops"]
lines = next(o for o in ops if o[0] == "text")[3].split("\n")
new = ops[0]
conf = [o for o in ops if o[0] == "conf"]
key = sys.argv[2]
atoms, _, vals = key.partition("|")
atoms = atoms.split()
vals = [v.rsplit("=", 1) for v in vals.split()]
pins = ["&sum { %s } = %s." % (a, b.replace("-", "- ")) for a, b in vals]
def n(lines):
    o = [new, ["theory", "t"]] + conf + [["reg", "t", "c"], ["text", "t", "c", "\n".join(lines + pins)], ["ground", "c", "base"], ["prepare", "t", "c"], ["solve", "t", "c"]]
    r = vlib.run_jobs(exes["driver-rel"], [{"id": "a", "ops": o, "timeout": 20}], retry_timeouts=False)["a"]
    return [m["a"] for ms in r.models.values() for m in ms], [q for q in r.ops.values() if not q["ok"]]
def bad(ls):
    ms, err = n(ls)
    return not any(set(m) == set(atoms) for m in ms)
print("bad:", bad(lines), n(lines))
ch = bad(lines)
while ch:
    ch = False
    for i in range(len(lines)):
        if lines[i].startswith("{"):
            continue
        l2 = lines[:i] + lines[i+1:]
        if bad(l2):
            lines = l2; ch = True; break
print("\n".join(lines + pins)); print(new, conf)
