"""C04: parallel solving under perturbed schedules."""
import os, random
import vlib, gen


def jitter_task(acc, pid, exe, seed, level, f, *args):
    """Runs a task with parallel solving forced; the harness delays callbacks and records how calls of threads interleave."""
    hashes, single = set(), [0]

    def observe(r):
        for d in r.ops.values():
            if "sched" in d:
                calls, active, switches, h = d["sched"]
                acc.count("callbacks", calls)
                if active > 1:
                    acc.count("parallel_searches")
                    acc.count("thread_switches", switches)
                    hashes.add(h)
                else:
                    single[0] += 1
    rng = random.Random("jitter/%s" % seed)
    if level is None:
        level = rng.choice([0, 1, 2, 3, 4, 4, 5])
    jitter = "%d,%d" % (level, rng.randrange(1 << 30))
    os.environ["VERIF_JITTER"] = jitter
    old = gen.PARALLEL
    gen.PARALLEL = 1
    vlib.OBSERVER = observe
    try:
        f(acc, pid, exe, seed, *args)
    finally:
        vlib.OBSERVER = None
        gen.PARALLEL = old
        del os.environ["VERIF_JITTER"]
    for _, _, replay in acc.violations:
        replay["env"] = {"VERIF_JITTER": jitter}
    acc.count("searches_by_one_thread", single[0])
    acc.count("distinct_schedules", len(hashes))
    acc.count("jitter_level_%d" % level)
