#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, statements and anchors)."""
import json, os
L = "libclingcon/src/"
H = "libclingcon/clingcon/"
P = []
def prop(id, title, statement, over, text, why, files, mech, obs=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Every reported answer satisfies every linear constraint",
 "In every answer that is reported, the integer assignment shown gives each variable exactly one value inside its domain, and makes every &sum and &diff atom that holds in a rule head (facts, rule heads, shifted integrity constraints) true under ordinary integer arithmetic. A &sum/&diff atom in a rule body is true in the answer exactly if the assignment satisfies it. The regular atoms form a stable model of the program given those truth values.",
 ["programs", "inputs", "configurations"],
 "for all ground programs with linear constraints over bounded integers, all relations (<=,<,>=,>,=,!=), coefficient signs and magnitudes, head/body/integrity/negated positions, and all answers",
 "The tests solve about 40 fixed tiny programs with hand-written expected answers; no test evaluates the constraints of an arbitrary program on the reported assignment.",
 [L+"constraints.cc", L+"solver.cc", L+"parsing.cc", L+"propagator.cc"],
 [("bound propagation of linear sums", L+"constraints.cc SumConstraintState::propagate"),
  ("final consistency checks on total assignments", L+"solver.cc Solver::check_full"),
  ("normalisation of relations into <=", L+"parsing.cc normalize_constraint")],
 ["clingcon_on_model / __csp terms", "clingcon_assignment_*"])

prop("C02", "Enumeration finds every answer exactly once",
 "When all answers are requested and search is exhausted, the set of reported answers (regular atoms plus integer assignment) is exactly the set of solutions of the program: no solution is lost and none is reported twice. In particular a program is reported unsatisfiable exactly if it has no solution.",
 ["programs", "inputs", "configurations"],
 "for all bounded programs mixing Boolean choices, rules, &sum, &diff and &dom constraints, enumerated to exhaustion",
 "Losing or duplicating an answer depends on which reason clauses, order literals and backtracking sequences arise; tests sample a few dozen programs and compare against literal expected lists.",
 [L+"constraints.cc", L+"solver.cc", L+"propagator.cc", L+"parsing.cc"],
 [("reason generation for propagated literals", L+"constraints.cc"),
  ("order literal introduction and total splitting", L+"solver.cc Solver::check_full, get_literal"),
  ("undo of bound changes on backtracking", L+"solver.cc Solver::undo")],
 ["solve call result and models"])

prop("C03", "Options never change the set of answers",
 "For a fixed program, every combination of translation options (clauses, weight constraints, distinct, objective, literals-only, order clauses, sorting, shifting), propagation and heuristic options and clasp search options yields the same answers, the same satisfiability and the same optimum. Options may only change how the answers are found and in which order.",
 ["configurations", "programs"],
 "for all programs and all pairs of configurations, including extreme limits and random mixtures of limits, per-thread options and clasp restarts/heuristics/seeds",
 "The tests compare six fixed configurations on the fixed programs; the option space is a product of more than fifteen dimensions.",
 [L+"constraints.cc", L+"solver.cc", L+"propagator.cc", H+"base.hh", L+"clingcon.cc"],
 [("translation to clauses and weight constraints", L+"constraints.cc SumConstraintState::translate / SumTranslator"),
  ("translation loop and limits", L+"solver.cc Solver::translate"),
  ("decision heuristic", L+"solver.cc Solver::decide")],
 ["models of differential runs"])

prop("C04", "Parallel solving is race free and equivalent to sequential solving",
 "Solving with any number of threads, in competition or splitting mode, reports the same answers and the same optimum as sequential solving. No schedule causes a data race, a crash, a lost answer or a wrong value attributed to the model of another thread.",
 ["schedules", "programs", "configurations"],
 "for all programs, thread counts, parallel modes, per-thread configurations and interleavings of the solver threads, including shared objective bounds",
 "Tests run with -t8 but on programs that finish in microseconds, under no race detector, with one schedule per run.",
 [L+"propagator.cc", L+"solver.cc", H+"propagator.hh"],
 [("per-thread solver states copied from the master", L+"solver.cc Solver::copy_state"),
  ("atomic shared objective bound", H+"propagator.hh minimize_bound_")],
 ["ThreadSanitizer", "models of runs with -tN"],
 [("minimize_bound_", "objective bound shared between threads", H+"propagator.hh")])

prop("C05", "Optimization reports the true optimum and true costs",
 "With &minimize/&maximize the last answer of a completed search has the smallest (largest) objective value over all solutions, costs reported along the way are the objective values of the reported answers and strictly improve, and enumerating optimal answers yields all and only optimal ones. This holds whether the objective is handled natively or translated to a clasp objective, for every number of threads and for objectives with constants, repeated and negative terms.",
 ["programs", "configurations", "schedules"],
 "for all bounded programs with one or several objective statements, all translation limits, opt-modes and thread counts",
 "Tests have a handful of objectives with fixed optima and never compare the reported cost with the value recomputed from the assignment on arbitrary programs.",
 [L+"propagator.cc", L+"constraints.cc", L+"solver.cc"],
 [("native objective constraint with decreasing bound", L+"constraints.cc MinimizeConstraintState"),
  ("objective translation", L+"constraints.cc, propagator.cc translate_"),
  ("bound update on model", L+"propagator.cc on_model / update_minimize")],
 ["__csp_cost, statistics Cost, model cost, models"])

prop("C06", "Multi-shot solving equals solving the accumulated program",
 "After any history of grounding further parts, assigning or releasing externals, changing assumptions, options or thread counts, and solving, each solve call reports exactly the answers (and optimum) that a fresh run on the program accumulated so far would report under the same externals and assumptions. Nothing from an earlier call, such as bounds, objectives or learnt constraints, leaks into a later one.",
 ["histories", "programs", "configurations"],
 "for all sequences of add/ground/external/assumption/solve operations and all configurations",
 "A few fixed two- or three-step histories are tested; the property ranges over all histories.",
 [L+"propagator.cc", L+"solver.cc", L+"constraints.cc"],
 [("re-initialisation and update of solver states", L+"propagator.cc Propagator::init, solver.cc Solver::update/update_bounds"),
  ("accumulation of the objective", L+"propagator.cc add_minimize_/remove_minimize")],
 ["models per solve call"])

prop("C07", "Distinct constraints mean pairwise different values",
 "In every answer in which a &distinct head atom holds, the values of its element terms are pairwise different, and no answer satisfying all constraints is excluded because of it. This holds for elements that are constants, single variables with or without coefficients and offsets, or linear expressions, and independently of the translation limit.",
 ["programs", "configurations"],
 "for all element lists, domains (including overlapping, tight and pigeonhole ones), activating conditions and translation limits",
 "Tests use a few fixed distinct constraints; propagation order, reasons and translated forms vary with search.",
 [L+"constraints.cc", L+"propagator.cc", L+"parsing.cc"],
 [("value elimination propagation", L+"constraints.cc DistinctConstraintState"),
  ("translation to cardinality constraints", L+"constraints.cc DistinctConstraintState::translate"),
  ("auxiliary variables for complex elements", L+"propagator.cc ConstraintBuilder::add_distinct")])

prop("C08", "Disjoint constraints mean non-overlapping intervals",
 "In every answer in which a &disjoint head atom with elements x@d holds, the half-open intervals [x,x+d) of its elements with positive length are pairwise disjoint, and no answer satisfying this is excluded.",
 ["programs", "configurations"],
 "for all element lists, lengths (including zero, negative and very large), domains and activating conditions",
 "A handful of fixed instances are tested.",
 [L+"constraints.cc", L+"parsing.cc", L+"propagator.cc"],
 [("time table / edge finding style propagation", L+"constraints.cc DisjointConstraintState")])

prop("C09", "Nonlinear sums mean what they say",
 "A &nsum atom a*x*y + c*z <rel> b holds in a head, or is true in a body, exactly as for linear sums but with the product interpreted as integer multiplication; unsupported shapes (several products, more than one linear term, more than two factors) are rejected with an error and never silently changed. No answer is lost or added.",
 ["programs", "configurations"],
 "for all coefficients, signs, domains spanning zero, equal factors (squares), relations, head/body positions and activating conditions",
 "Tests contain a few positive head constraints only.",
 [L+"constraints.cc", L+"propagator.cc", L+"parsing.cc"],
 [("interval propagation of products", L+"constraints.cc NonlinearConstraintState"),
  ("strict/body handling", L+"propagator.cc ConstraintBuilder::add_nonlinear")])

prop("C10", "Domains are exactly the declared sets",
 "With &dom{S}=x holding, x ranges over exactly the union of the values and intervals in S intersected with the global bounds and other domain statements; conditional domains apply only if their condition holds; an empty domain has no answers. Variables without a domain range exactly over [min-int,max-int].",
 ["inputs", "programs", "configurations"],
 "for all unions of intervals (overlapping, adjacent, reversed, single values, singleton gaps), conditions and global bounds",
 "Tests check a few fixed interval sets.",
 [L+"parsing.cc", L+"solver.cc", H+"util.hh"],
 [("interval set normalisation", H+"util.hh IntervalSet"), ("domain clauses", L+"solver.cc Solver::add_dom")])

prop("C11", "Rewriting preserves the meaning of the written program",
 "The parsed and rewritten program means what was written: tuples are counted with multiplicity per ground instance, pools and intervals expand as in clingo, term arithmetic follows integer arithmetic and operator precedence, variables on the right-hand side count, &diff{a-b}<=c equals &sum{a-b}<=c, negated and shifted integrity constraints keep their meaning, and enabling or disabling constraint shifting gives the same answers. Every rule the language accepts without shifting is also accepted with it.",
 ["inputs", "programs"],
 "for all syntactic forms of theory atoms and rules that contain them",
 "Parsing tests check about fifty fixed strings.",
 [L+"parsing.cc", H+"parsing.hh"],
 [("rewriting of statements", L+"parsing.cc transform, shift_rule, TheoryRewriter"),
  ("term evaluation", L+"parsing.cc evaluate, parse_constraint_elem")])

prop("C12", "Extreme values give exact answers or an error, never a wrong result",
 "For coefficients, bounds, weights and domains of any magnitude the system either computes with exact integer semantics or reports an error; it never wraps around, never executes undefined behaviour and never crashes. Values within the documented range [-2^30+1, 2^30-1] whose sums fit the documented checks are accepted.",
 ["inputs", "programs"],
 "for all integer constants up to and beyond 32-bit limits in every syntactic position, and full-range domains",
 "Tests check a handful of overflow cases in release builds without a UB detector.",
 [L+"constraints.cc", L+"parsing.cc", L+"propagator.cc", H+"util.hh", H+"base.hh"],
 [("checked arithmetic", H+"util.hh safe_add/safe_mul/..."), ("check_valid_value", H+"base.hh")])

prop("C13", "Invalid input is rejected cleanly",
 "Malformed theory atoms and programs that violate the syntax rules of the constraint language are rejected with an error at parsing, grounding or initialisation; they never crash, corrupt memory, or get accepted with a different meaning. After a rejection the theory and control objects can be destroyed and new ones work normally.",
 ["inputs", "histories"],
 "for all byte strings, grammar-generated near-valid programs and rejections followed by further API calls",
 "Tests contain few negative cases and no sanitizer or fuzzing.",
 [L+"parsing.cc", L+"clingcon.cc", L+"propagator.cc"],
 [("syntax checks", L+"parsing.cc check_syntax"), ("exception barrier at the C API", L+"clingcon.cc CLINGCON_TRY/CLINGCON_CATCH")])

prop("C14", "Solver state is consistent at every step and restored by backtracking",
 "Whenever propagation of a thread has finished, the bounds of each variable are exactly those implied by the currently assigned order literals, order literals are totally ordered, every value maps to one literal, and after backtracking to a level the bounds equal those held when that level was left. Internal assertions and state checks never fire.",
 ["histories", "programs", "configurations"],
 "for all interleavings of propagate, check, decide and undo produced by search with restarts, backjumps, randomised decisions and several threads",
 "Assertions are compiled out in the tested build, and tests run a fixed search.",
 [L+"solver.cc", H+"solver.hh", L+"constraints.cc"],
 [("level stacks", L+"solver.cc Solver::push_level_/undo"), ("order literal stores", H+"solver.hh VarState")],
 ["wrapped propagate/check/undo callbacks"],
 [("lower/upper bound of a variable", "current domain interval", H+"solver.hh VarState")],
 "accessor to the per-thread solver state")

prop("C15", "Every clause the propagator adds is implied by the program",
 "Each clause handed to the SAT solver during initialisation, propagation or checking is satisfied by every solution of the program (for optimization: every solution better than the bound in force), reading order literals as x<=v. A clause that is already satisfied, or holds in every assignment, is useless but harmless.",
 ["programs", "histories", "configurations"],
 "for all clauses produced in any search on any bounded program",
 "An unsound clause only loses an answer in the runs where it prunes; tests see only final answers of fixed programs.",
 [L+"constraints.cc", L+"solver.cc", L+"propagator.cc"],
 [("reasons", L+"constraints.cc propagate functions"), ("order clauses", L+"solver.cc")],
 ["add_clause calls of the propagate control"], None,
 "accessor to the order literals of a thread")

prop("C16", "Assignment, symbol and show interfaces agree with the model",
 "Iterating the assignment of a model visits every variable exactly once with a valid symbol; symbol lookup and reverse lookup are inverse; values reported through the API equal the values in the model's theory terms for the thread that found the model. &show restricts exactly which variables are added to the shown terms and never the answers.",
 ["programs", "histories"],
 "for all programs, show directives, multi-shot histories and threads",
 "Only the Python/C++ front-ends use this API; no test covers it.",
 [L+"clingcon.cc", L+"propagator.cc"],
 [("assignment iteration", L+"clingcon.cc clingcon_assignment_next"), ("show filtering", L+"propagator.cc Propagator::shown")])

prop("C17", "Options are parsed as documented and reach the right thread",
 "Every documented option value is accepted and takes effect, for all threads or for the given thread only; every value that is outside the documented syntax or range is rejected with an error. Configuring through the programming interface and through the command line has the same effect.",
 ["inputs", "configurations"],
 "for all option/value strings",
 "No test covers option parsing.",
 [L+"clingcon.cc", "app/main.cc", H+"base.hh"],
 [("option parsers", L+"clingcon.cc parse_*"), ("deferred per-thread options", L+"clingcon.cc clingcon_validate_options")])

prop("C18", "Statistics add up",
 "Reported statistics are finite and consistent with the program (number of variables, constraints, clauses and literals); counts are non-negative except for the number of constraints of a step, which is the change made by the step. The reported cost equals the best objective value of the last solve call with an answer, per-thread entries match the number of threads, and accumulated statistics equal the sum over the solve calls so far.",
 ["histories", "programs"],
 "for all histories of solve calls and all programs and configurations",
 "Tests only read the cost entry.",
 [L+"propagator.cc", H+"base.hh"],
 [("statistics accumulation", L+"propagator.cc on_statistics, base.hh Statistics::accu")])

prop("C19", "Theory objects are independent and runs are deterministic",
 "Several theories and controls in one process, used one after the other, interleaved or concurrently, behave exactly as if each were alone, whatever options the others use. Repeating a sequential run with the same program and options reports the same answers in the same order with the same costs.",
 ["histories", "schedules", "configurations"],
 "for all interleavings of API calls on several theory objects and all option combinations",
 "Every test uses a single theory at a time.",
 [L+"clingcon.cc", L+"parsing.cc", L+"constraints.cc"],
 [("static propagator record", L+"clingcon.cc clingcon_register"), ("thread_local scratch maps", L+"parsing.cc simplify")])

prop("C20", "Command line tool and Python module agree with the library",
 "The clingcon command line tool and the Python module report the same answers, costs and satisfiability as the C library for the same program and options, print each shown variable's value once per answer, and the tool's exit code and optimum reporting match the result.",
 ["programs", "configurations"],
 "for all programs and options",
 "The tool and the Python module have no tests.",
 ["app/main.cc", "libpyclingcon/clingcon/__init__.py", L+"clingcon.cc"],
 [("model printer", "app/main.cc"), ("foreign function wrapper", "libpyclingcon/clingcon/__init__.py")])

prop("C21", "Interrupted, limited and aborted solving leaves a usable theory",
 "Cancelling, interrupting or closing a search at any point, limiting the number of answers or failing inside a model callback never crashes or hangs, never reports a wrong answer, and a later solve call on the same theory reports exactly the full answer set.",
 ["histories", "fault_sequences", "schedules"],
 "for all points of interruption, sequential and parallel",
 "No test interrupts a search.",
 [L+"propagator.cc", L+"solver.cc", L+"clingcon.cc"],
 [("state update before each solve call", L+"solver.cc Solver::update, undo")])

prop("C22", "Arithmetic and container primitives are exact",
 "The checked integer operations return the exact mathematical result or signal overflow, division and midpoint round as specified for all signs, interval sets behave as sets of integers, duplicate-free vectors keep set semantics, and the order-literal dictionary of a variable behaves as an ordered map in both of its representations.",
 ["inputs", "histories"],
 "for all operand values of every used width and all operation sequences",
 "Unit tests check a few dozen values.",
 [H+"util.hh", H+"solver.hh", H+"base.hh"],
 [("checked operations, IntervalSet, UniqueVector", H+"util.hh"), ("VarState order literal map/vector", H+"solver.hh")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
