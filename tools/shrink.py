#!/usr/bin/env python3-vt
"""Shrinks a single-shot replay by comparing it with a run under the default configuration.
usage: shrink.py OUT.json [conf=val ...]"""
import sys, json, itertools
sys.path[:0] = ["/verif/lib"]
import vlib
d = json.load(open(sys.argv[1]))["replay"]
job = d["job"]
exes, _ = vlib.build([vlib.driver_target("asan"), vlib.driver_target("rel")])
exe = exes["driver-" + d["variant"]]
ops = job["ops"]
ti = next(i for i, o in enumerate(ops) if o[0] == "text")
lines = ops[ti][3].split("\n")
new = ops[0]
conf = [o for o in ops if o[0] == "conf"]
rngc = [o for o in conf if o[2] in ("min-int", "max-int")]


def run(lines, new, conf, exe=exe):
    o = [new] + [["theory", "t"]] + conf + [["reg", "t", "c"], ["text", "t", "c", "\n".join(lines)], ["ground", "c", "base"], ["prepare", "t", "c"], ["solve", "t", "c"], ["msgs", "c"]]
    r = vlib.run_jobs(exe, [{"id": "a", "ops": o, "timeout": 20}], retry_timeouts=False)["a"]
    if r.timeout:
        return "timeout"
    if r.crashed:
        return "crash " + r.crash_kind()
    for q in r.ops.values():
        if not q["ok"]:
            return "error " + str(q["err"])
    return tuple(sorted(" ".join(sorted(m["a"])) + "|" + " ".join(sorted("%s=%s" % (x[0], x[1]) for x in m["v"][0])) for ms in r.models.values() for m in ms))


def bad(lines, new, conf):
    a = run(lines, new, conf)
    if isinstance(a, str):
        return a if a != "timeout" else None
    b = run(lines, ["new", "c", "0"], rngc + [["conf", "t", "translate-clauses", "0"]])
    if isinstance(b, str):
        return None
    return "differ %d vs %d (reference)" % (len(a), len(b)) if a != b else None


v = bad(lines, new, conf)
print("reproduced:", v)
if v:
    ch = True
    while ch:
        ch = False
        for i in range(len(lines)):
            l2 = lines[:i] + lines[i + 1:]
            if bad(l2, new, conf) and (not v.startswith("error") or bad(l2, new, conf) == v):
                lines = l2
                ch = True
                break
        else:
            for i in range(len(conf)):
                c2 = conf[:i] + conf[i + 1:]
                if conf[i] not in rngc and bad(lines, new, c2):
                    conf = c2
                    ch = True
                    break
            else:
                for i in range(3, len(new)):
                    n2 = new[:i] + new[i + 1:]
                    if bad(lines, n2, conf):
                        new = n2
                        ch = True
                        break
    print("\n".join(lines), "\n", new, conf)
    a = run(lines, new, conf)
    b = run(lines, ["new", "c", "0"], rngc + [["conf", "t", "translate-clauses", "0"]])
    print("got", a if isinstance(a, str) else len(a), "reference", b if isinstance(b, str) else len(b))
    if not isinstance(a, str) and not isinstance(b, str):
        print(" wrong:", [x for x in a if x not in b][:3])
        print(" lost:", [x for x in b if x not in a][:3])
