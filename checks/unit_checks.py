"""C22: primitives of clingcon against independent models."""
import subprocess
import vlib, work
from vlib import VERIF, SANENV
import os

PARTS = {"arith": ["int32", "int64", "int128", "cast"], "sets": [""], "var": [""], "sum": [""]}


def targets():
    return [("unit_" + u, v, [VERIF + "/harness/unit_%s.cc" % u], "", []) for u in PARTS for v in ("asan", "rel")]


def build():
    """Programs that do not fit the code any more are left out."""
    try:
        exes, t = vlib.build(targets())
        return exes
    except vlib.HarnessError:
        pass
    vlib.build([vlib.driver_target("asan"), vlib.driver_target("rel")])  # the library itself has to compile
    exes = {}
    for u in PARTS:
        try:
            exes.update(vlib.build([x for x in targets() if x[0] == "unit_" + u])[0])
        except vlib.HarnessError as e:
            print("note: primitives of unit_%s.cc cannot be accessed: %s" % (u, str(e)[:500]))
    if not exes:
        raise vlib.HarnessError("no primitive can be accessed")
    return exes


def unit_task(acc, pid, exe, seed, n, part):
    e = dict(os.environ)
    e.update(SANENV)
    cmd = [exe, str(seed), str(n)] + ([part] if part else [])
    try:
        r = subprocess.run(cmd, env=e, capture_output=True, text=True, errors="replace", timeout=600)
    except subprocess.TimeoutExpired:
        acc.inconc.append("timeout of %s" % cmd)
        return
    name = os.path.basename(exe).split("-")[0] + ("-" + part if part else "")
    replay = {"cmd": [os.path.basename(exe).rsplit("-", 1)[0]] + cmd[1:]}
    end = False
    for line in r.stdout.splitlines():
        if line.startswith("VIOL "):
            key, what = line[5:].split("\t", 1)
            acc.viol(key, what, dict(replay, what=what))
        elif line.startswith("COUNT "):
            k, v = line[6:].split("\t")
            acc.count("%s_%s" % (name.replace("-", "_"), k), int(v))
            acc.evals += int(v)
        elif line == "END":
            end = True
    if not end or r.returncode != 0:
        acc.viol("crash/" + name, "crashed: %s" % r.stderr[:3000], dict(replay, stderr=r.stderr[:6000]))
    elif not acc.violations:
        acc.seen(name, seed)
        acc.samples.append("%s: %s" % (" ".join(replay["cmd"]), "; ".join(x[6:].replace("\t", "=") for x in r.stdout.splitlines() if x.startswith("COUNT "))))
