import random, time
import vlib, work, gen
import enum_checks as enum
import multi_checks as mc
import api_checks as api
import mon_checks as mon
import stat_checks as stat
import intr_checks as intr
import iso_checks as iso
import opt_checks as opt
import tool_checks as tool
import unit_checks as unit
import reject_checks as rej
import extreme_checks as ext
import par_checks as par
import struct_checks as struct
from vlib import Check, SEED, THOROUGH

DRV = [vlib.driver_target("asan"), vlib.driver_target("rel")]


def drivers():
    exes, t = vlib.build(DRV)
    return exes["driver-asan"], exes["driver-rel"]


SER = [vlib.serial_target(v) for v in ("asan", "rel", "tsan")]


def serial_drivers():
    exes, t = vlib.build(SER)
    return exes["serial-asan"], exes["serial-rel"], exes["serial-tsan"]


MON = [vlib.monitor_target("asan"), vlib.monitor_target("rel")]


def monitors():
    try:
        exes, t = vlib.build(MON)
    except vlib.HarnessError as e:
        # the hooks do not fit the code: fall back to what can be observed without them
        print("note: no access to solver states: %s" % str(e)[:300])
        exes, t = vlib.build([vlib.monitor_target("asan", False), vlib.monitor_target("rel", False)])
        return exes["monitor0-asan"], exes["monitor0-rel"]
    return exes["monitor-asan"], exes["monitor-rel"]


OPT = [vlib.opt_target("asan"), vlib.opt_target("rel")]


def opt_drivers():
    try:
        exes, t = vlib.build(OPT)
    except vlib.HarnessError as e:
        print("note: no access to configurations of solvers: %s" % str(e)[:300])
        exes, t = vlib.build([vlib.opt_target("asan", False), vlib.opt_target("rel", False)])
        return exes["opt0-asan"], exes["opt0-rel"]
    return exes["opt-asan"], exes["opt-rel"]


SCHED = [vlib.sched_target(v) for v in ("asan", "rel", "tsan")]


def sched_drivers():
    exes, t = vlib.build(SCHED)
    return exes["sched-asan"], exes["sched-rel"], exes["sched-tsan"]


TOOL = [vlib.tool_target("asan"), vlib.tool_target("rel")]


def tools():
    exes, t = vlib.build(TOOL)
    return exes["tool-asan"], exes["tool-rel"], vlib.build_python()


def budget(quick, thorough):
    return time.time() + (thorough if THOROUGH else quick)


def enum_check(rule, mix, further=()):
    """mix: list of (profile, asan programs, rel programs, configurations, threads); further: as for several"""
    def f(pid):
        chk = Check(pid, rule)
        exes = asan, rel = drivers()
        dl = budget(40, 1500)
        k = 40 if THOROUGH else 1
        tasks = []
        for profile, na, nr, nconf, threads in mix:
            for exe, cnt in ((asan, na), (rel, nr)):
                per = max(5, 60 // nconf)
                for i in range(cnt * k // per):
                    tasks.append((enum.enum_task, pid, exe, "%d/%d" % (SEED, len(tasks)), per, nconf, profile, threads, nconf > 4))
        for task, v, cnt, *rest in further:
            for i in range(cnt * k):
                tasks.append((task, pid, exes[v], "%d/%d" % (SEED, len(tasks)), *rest))
        random.Random(SEED).shuffle(tasks)
        work.run(chk, work.dispatch, tasks, dl)
        chk.assumptions = ["clingo/clasp and gringo are trusted (uninstrumented)", "integer semantics of the oracle is numpy int64 over the enumerated box"]
        chk.finish(50)
    return f


def simple(rule, f, mix, min_nontrivial=50, drv=drivers, quick=45, timeout_factor=40, prep=None):
    """mix: list of (variant index, tasks, args...)."""
    def g(pid):
        chk = Check(pid, rule)
        exes = drv()
        dl = budget(quick, 1500)
        k = timeout_factor if THOROUGH else 1
        tasks = []
        for v, cnt, *rest in mix:
            for i in range(cnt * k):
                tasks.append((pid, exes[v], "%d/%d" % (SEED, len(tasks)), *rest))
        random.Random(SEED).shuffle(tasks)
        work.run(chk, f, tasks, dl)
        chk.finish(min_nontrivial)
    return g


def several(rule, mix, min_nontrivial=50, drv=drivers, quick=45, factor=40):
    """Like simple but with a task function for each entry: (f, variant index, tasks, args...)."""
    def g(pid):
        chk = Check(pid, rule)
        exes = drv()
        dl = budget(quick, 1500)
        k = factor if THOROUGH else 1
        groups = []
        for gi, (f, v, cnt, *rest) in enumerate(mix):
            for i in range(cnt * k):
                groups.append((f, pid, exes[v], "%d/%d.%d" % (SEED, gi, i), *rest))
        random.Random(SEED).shuffle(groups)
        work.run(chk, work.dispatch, groups, dl)
        chk.finish(min_nontrivial)
    return g


def c22(pid):
    chk = Check(pid, "a run of a program exercising one group of primitives counts if it went through all its operations without a difference to the model")
    exes = unit.build()
    dl = budget(40, 1500)
    k = 30 if THOROUGH else 1
    tasks = []
    for u, parts in unit.PARTS.items():
        for v, cnt, n in (("asan", 4, 3000), ("rel", 12, 20000)):
            exe = exes.get("unit_%s-%s" % (u, v))
            for part in parts if exe else []:
                for i in range(cnt * k):
                    tasks.append((pid, exe, SEED * 1000003 + len(tasks), n * (4 if THOROUGH and i % 4 == 0 else 1), part))
    random.Random(SEED).shuffle(tasks)
    work.run(chk, unit.unit_task, tasks, dl)
    chk.finish(10)


EN = "a program counts if it has answers, some candidate is excluded, and all its answers were reported exactly once"
CHECKS = {
    "C01": several("a program counts if at least one reported answer was evaluated against the meaning of every statement",
                   [(enum.sound_task, 0, 24, 40, 10), (enum.sound_task, 1, 52, 40, 30), (struct.struct_task, 0, 12, 20, "sat", True), (struct.struct_task, 1, 40, 20, "sat", True)]),
    "C02": enum_check(EN, [("base", 600, 2400, 1, False), ("many", 150, 600, 1, False), ("wide", 150, 600, 1, False)],
                   [(struct.struct_task, 0, 10, 20, "count", False), (struct.struct_task, 1, 30, 20, "count", False),
                    (enum.mode_task, 0, 6, 15, 2, False), (enum.mode_task, 1, 24, 30, 3, False),
                    (ext.extreme_task, 0, 5, 40, 1), (ext.extreme_task, 1, 16, 60, 1)]),
    "C03": enum_check(EN + " under every configuration tried", [("base", 200, 800, 8, True), ("many", 60, 200, 8, True), ("wide", 60, 200, 8, True), ("distinct", 30, 100, 8, True)],
                   [(struct.conf_task, 0, 8, 4, 6, "all", True), (struct.conf_task, 1, 24, 4, 6, "all", True),
                    (enum.mode_task, 0, 5, 10, 4, True), (enum.mode_task, 1, 20, 20, 6, True), (enum.asp_opt_task, 1, 10, 20, 6, True),
                    (enum.place_task, 1, 10, 20, 6, True),
                    (ext.extreme_task, 0, 4, 20, 6), (ext.extreme_task, 1, 16, 30, 6)]),
    "C04": several("a program (history) counts if its answers, all reported by several threads, or its optimum were as expected",
                   [(par.jitter_task, v, c, None, *t) for t, cs in (((enum.enum_task, 20, 2, "par", True, False), (6, 30, 14)),
                    ((enum.enum_task, 20, 3, "base", True, False), (3, 14, 6)), ((enum.enum_task, 20, 3, "distinct", True, False), (2, 8, 3)),
                    ((enum.opt_task, 15, 3), (4, 20, 12)), ((mc.hist_task, 20, True), (4, 20, 8)), ((mc.reopt_task, 20), (2, 10, 4)), ((struct.struct_task, 20, "all", True), (2, 10, 4)),
                    ((enum.mode_task, 15, 2, True), (1, 6, 2)), ((enum.asp_opt_task, 15, 2, True), (1, 6, 2))) for v, c in enumerate(cs)],
                   drv=sched_drivers),
    "C05": several("a program counts if it has solutions of different cost, or an optimum found by an independent algorithm, that was confirmed; one of extreme magnitudes if some candidate is excluded",
                   [(enum.opt_task, 0, 36, 15, 3), (enum.opt_task, 1, 110, 15, 3), (struct.struct_task, 0, 14, 20, "opt", True), (struct.struct_task, 1, 40, 20, "opt", True),
                    (enum.asp_opt_task, 0, 6, 15, 2, True), (enum.asp_opt_task, 1, 24, 20, 3, True),
                    (ext.extreme_task, 0, 5, 40, 3, "objective"), (ext.extreme_task, 1, 16, 60, 3, "objective")]),
    "C06": several("a history counts if at least two of its solve calls have answers and all calls matched the oracle of the accumulated program",
                   [(mc.hist_task, 0, 20, 30, True), (mc.hist_task, 0, 12, 30, False), (mc.hist_task, 1, 80, 30, True), (mc.hist_task, 1, 40, 30, False),
                    (mc.reopt_task, 0, 12, 30), (mc.reopt_task, 1, 60, 40),
                    (struct.hist_task, 0, 6, 20, "all", True, False), (struct.hist_task, 1, 24, 20, "all", True, False)]),
    "C07": enum_check(EN, [("distinct", 900, 3000, 2, False)],
                   [(struct.struct_task, 0, 8, 20, "distinct", False), (struct.struct_task, 1, 24, 20, "distinct", False),
                    (ext.extreme_task, 0, 5, 40, 2, "distinct"), (ext.extreme_task, 1, 16, 60, 2, "distinct")]),
    "C08": enum_check(EN, [("disjoint", 900, 3000, 2, False)],
                   [(struct.struct_task, 0, 8, 20, "disjoint", False), (struct.struct_task, 1, 24, 20, "disjoint", False),
                    (ext.extreme_task, 0, 5, 40, 2, "disjoint"), (ext.extreme_task, 1, 16, 60, 2, "disjoint")]),
    "C09": enum_check(EN, [("nsum", 900, 3000, 2, False)],
                   [(struct.struct_task, 0, 8, 20, "nsum", False), (struct.struct_task, 1, 24, 20, "nsum", False),
                    (ext.extreme_task, 0, 5, 40, 2, "nsum"), (ext.extreme_task, 1, 16, 60, 2, "nsum")]),
    "C10": enum_check(EN, [("dom", 900, 3000, 2, False)],
                   [(struct.struct_task, 0, 8, 20, "dom", False), (struct.struct_task, 1, 24, 20, "dom", False),
                    (ext.extreme_task, 0, 5, 40, 2, "dom"), (ext.extreme_task, 1, 16, 60, 2, "dom")]),
    "C11": enum_check(EN, [("syntax", 900, 3000, 2, False)],
                   [(ext.term_task, 0, 4, 40), (ext.term_task, 1, 10, 100), (enum.place_task, 0, 6, 20, 2, False), (enum.place_task, 1, 24, 30, 3, False),
                    (ext.extreme_task, 0, 5, 40, 1, "sum"), (ext.extreme_task, 1, 16, 60, 1, "sum"), (ext.extreme_task, 0, 5, 40, 1, "diff"), (ext.extreme_task, 1, 16, 60, 1, "diff")]),
    "C16": several("a case counts if only some of the variables are shown and the terms of all answers were checked",
                   [(api.show_task, 0, 20, 40), (api.show_task, 1, 60, 40), (api.show_hist_task, 0, 8, 25), (api.show_hist_task, 1, 40, 25),
                    (struct.show_task, 0, 6, 20, "all", True), (struct.show_task, 1, 16, 20, "all", True), (struct.show_task, 1, 12, 20, "big", True),
                    (struct.show_task, 1, 8, 20, "sat", True), (struct.show_task, 1, 6, 20, "opt", True)]),
    "C12": several("a case counts if some candidate is excluded, and the answers are exact or an error was reported where one is permitted",
                   [(ext.extreme_task, 0, 30, 60, 2), (ext.extreme_task, 1, 120, 100, 2),
                    (ext.term_task, 0, 8, 60), (ext.term_task, 1, 24, 150)]),
    "C13": several("a case counts if an invalid statement was rejected with an error and all other objects of the process behaved according to the oracle",
                   [(rej.reject_task, 0, 30, 30), (rej.reject_task, 1, 100, 60), (rej.fuzz_task, 0, 20, 30), (rej.fuzz_task, 1, 60, 60)]),
    "C14": several("a case counts if levels were entered, left again, and the bounds were compared in between",
                   [(mon.state_task, 0, 16, 40, "base", True), (mon.state_task, 1, 40, 40, "base", True),
                    (mon.state_task, 0, 6, 40, "distinct", True), (mon.state_task, 1, 16, 40, "distinct", True),
                    (mon.state_task, 0, 6, 40, "wide", True), (mon.state_task, 1, 16, 40, "wide", True),
                    (mon.state_task, 1, 10, 40, "many", True), (mon.state_task, 1, 8, 40, "disjoint", True),
                    (mon.state_task, 1, 8, 40, "nsum", True), (mon.state_task, 1, 6, 40, "dom", True),
                    (mon.state_hist_task, 0, 8, 25), (mon.state_hist_task, 1, 30, 25),
                    (struct.state_task, 0, 8, 20, True), (struct.state_task, 1, 20, 20, True)], drv=monitors),
    "C15": several("a case counts if clauses added during search or weight constraints with known meaning were compared with all solutions",
                   [(mon.clause_task, v, c, 40, prof, True) for prof, ca, cr in (("base", 8, 24), ("distinct", 6, 16), ("disjoint", 6, 16),
                    ("nsum", 4, 12), ("dom", 4, 10), ("wide", 4, 12), ("many", 2, 8)) for v, c in ((0, ca), (1, cr))] +
                   [(struct.clause_task, 0, 5, 20, True), (struct.clause_task, 1, 14, 20, True), (struct.clause_task, 1, 14, 20, True, "big")], drv=monitors),
    "C18": several("a history counts if at least two of its solve calls have answers and all statistics satisfied all laws",
                   [(stat.stats_task, 0, 24, 25, True), (stat.stats_task, 1, 100, 30, True)], drv=monitors),
    "C21": several("a history counts if at least two of its solve calls have answers and all complete calls after disturbed ones matched the oracle",
                   [(intr.intr_task, 0, 30, 25, True), (intr.intr_task, 0, 18, 25, False), (intr.intr_task, 1, 160, 30, True), (intr.intr_task, 1, 80, 30, False),
                    (intr.again_task, 0, 1, 100), (intr.again_task, 1, 4, 100),
                    (struct.hist_task, 0, 8, 20, "all", True, True), (struct.hist_task, 1, 30, 20, "all", True, True)]),
    "C19": several("a group counts if at least two members have several answers and every member behaved as if it were alone",
                   [(iso.iso_task, 0, 14, 12), (iso.iso_task, 1, 50, 20), (iso.iso_task, 2, 24, 12, False)], drv=serial_drivers),
    "C17": several("a case counts if the options given were accepted or rejected as documented and their effect was compared",
                   [(opt.option_task, 0, 8, 60, True), (opt.option_task, 1, 120, 80, True), (opt.syntax_task, 0, 8, 60), (opt.syntax_task, 1, 120, 80),
                    (opt.same_task, 0, 8, 12), (opt.same_task, 1, 80, 20), (opt.effect_task, 0, 8, 12), (opt.effect_task, 1, 80, 20)], drv=opt_drivers),
    "C22": c22,
    "C20": several("a run counts if the program has several answers and everything printed matched them; a history counts if at least two of its solve calls have answers",
                   [(tool.tool_task, 0, 16, 60), (tool.tool_task, 1, 80, 100), (tool.tool_task, 2, 24, 60), (tool.fail_task, 0, 2, 50), (tool.fail_task, 1, 8, 60),
                    (tool.fail_task, 2, 4, 50), (tool.py_hist_task, 2, 16, 20, True), (tool.py_hist_task, 2, 10, 20, False), (enum.enum_task, 2, 12, 40, 1, "base", True, False),
                    (enum.opt_task, 2, 8, 20, 2), (api.show_task, 2, 8, 40),
                    (struct.struct_task, 2, 6, 20, "all", False),
                    (tool.print_task, 0, 4, 60), (tool.print_task, 1, 16, 100), (tool.print_task, 2, 8, 60),
                    (tool.limit_task, 0, 1, 3), (tool.limit_task, 1, 6, 4), (tool.limit_task, 2, 3, 3)], drv=tools),
}


def all_targets():
    return DRV + SCHED + SER + MON + OPT + TOOL + unit.targets()
