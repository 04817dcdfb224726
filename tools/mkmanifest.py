#!/usr/bin/env python3
"""Writes MANIFEST.json; claims every property that has a check in checks/registry.py."""
import json, re, subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
reg = open(ROOT + "/checks/registry.py").read()
claimed = re.findall(r'^    "(C\d\d)":', reg, re.M)
TRUST = "Trusts clingo/clasp/gringo (uninstrumented binaries) and the generator's semantics (independent Python code evaluated by exhaustive enumeration of the box). Only the executions generated for the seed are covered."
T = {
    "C01": ("ASan/UBSan + assertion builds under random programs; online point oracle evaluates every reported answer against the meaning of each statement", TRUST),
    "C02": ("offline exactly-once checker: enumerated answers of random programs compared with an independent exhaustive oracle, under ASan/UBSan", TRUST),
    "C03": ("differential monitoring over random option combinations with an exhaustive oracle, under ASan/UBSan", TRUST),
    "C04": ("ThreadSanitizer plus exactly-once and cost checkers over parallel solving with varied threads, modes and callback delays", TRUST + " Schedules are sampled by the operating system and injected delays, not enumerated; accesses made inside clingo.so are invisible to TSan."),
    "C05": ("event checker over reported costs (strict improvement, true cost, true optimum, optN exactness) against an exhaustive oracle, under ASan/UBSan", TRUST),
    "C06": ("history checker: random multi-shot histories of ground/external/assume/reconfigure/solve, each solve compared with the oracle of the accumulated program, under ASan/UBSan", TRUST),
    "C07": ("exactly-once checker over programs with distinct constraints and all translations, under ASan/UBSan", TRUST),
    "C08": ("exactly-once checker over programs with disjoint constraints, under ASan/UBSan", TRUST),
    "C09": ("exactly-once checker over programs with nonlinear sums, under ASan/UBSan", TRUST),
    "C10": ("exactly-once checker over programs with domain statements, under ASan/UBSan", TRUST),
    "C11": ("exactly-once checker over syntactically diverse programs (terms, pools, conditions, shifting), under ASan/UBSan", TRUST),
    "C12": ("UBSan/ASan + assertions under extreme-value programs with big-integer oracles: exact answers or a reported error", TRUST),
    "C13": ("ASan/UBSan + assertions under invalid and mutated programs: rejected with an error at the call, followed by a probe that new objects work", TRUST),
    "C14": ("hooked solver state: invariant monitor run at every propagate/check/undo callback of every thread (bounds, literals, trail snapshots), assertions and check-state on", TRUST + " Uses the read-only accessors guarded by CLINGCON_VERIF."),
    "C15": ("recorded event log of all clauses handed to clasp (linker-wrapped), each clause evaluated on every oracle solution of the program", TRUST + " Clauses with auxiliary literals that have no known meaning are not judged."),
    "C16": ("protocol monitor over the assignment/symbol/show interfaces in model callbacks, compared with shown terms and the exhaustive oracle, under ASan/UBSan", TRUST),
    "C17": ("option-syntax table driven through API and command line with effect observation; random valid and invalid values, under ASan/UBSan", "The table of documented values was transcribed from the help text; effects are observed through answers, statistics and rejection."),
    "C18": ("conservation checker over reported statistics (threads, variables, costs, accumulated = sum of steps) in single and multi-shot histories", TRUST),
    "C19": ("isolation checker: interleaved and concurrent theories compared with the same runs alone; repeated runs compared event by event; ASan/UBSan and TSan", TRUST),
    "C20": ("differential monitoring of the command line tool and the Python module against the library and the exhaustive oracle", TRUST),
    "C21": ("fault injection: cancel/interrupt/limit/throw/close at sampled points, then a full solve compared with the oracle, under ASan/UBSan", TRUST + " Points of interruption are sampled."),
    "C22": ("model-based testing of the header primitives against reference models (128-bit arithmetic, sets, ordered maps), exhaustive on small domains, under ASan/UBSan", "Reference models in the harness."),
}
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--oneline", "--grep=^hook:"], capture_output=True, text=True).stdout.splitlines()]
m = {"version": 1, "setup_cmd": "python3-vt setup.py",
     "hooks": {"guard": "CLINGCON_VERIF", "enable": "lib/vlib.py compiles /repo/libclingcon/src/*.cc with -DCLINGCON_VERIF for the monitor driver (C14, C15); all other drivers use the code without hooks", "source_commits": hooks},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": "python3-vt check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed")
