"""Runs the job scripts of driver.cc with the Python module: pyrun.py MODULEDIR JOBS OUT ERR."""
import json, os, resource, signal, sys, time, traceback, urllib.parse

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import clingo
import clingo.ast
from clingcon import ClingconTheory
import clingcon.__main__ as appmod


class Out:
    fd = 1

    def line(self, d):
        b = (json.dumps(d) + "\n").encode()
        while b:
            b = b[os.write(self.fd, b):]


out = Out()
scratch = ""


def thval(x):
    return [x.name, x.arguments]


class Runner:
    def __init__(self, jid):
        self.jid, self.op = jid, 0
        self.th, self.ctl, self.assume, self.logs = {}, {}, {}, {}

    def run(self, op, a):
        self.op, self.extra = op, {}
        err = None
        try:
            getattr(self, "do_" + a[0])(*a[1:])
        except Exception as e:
            # Note: errors in callbacks are printed by clingo and reported in this form
            err = "%s" % (e,)
            traceback.print_exc()
        d = {"j": self.jid, "o": op, "op": a[0], "ok": 1 if err is None else 0}
        if err is not None:
            d["err"] = err
        d.update(self.extra)
        out.line(d)
        return err is None

    def do_new(self, c, *args):
        msgs = []
        self.logs[c] = msgs
        self.ctl[c] = clingo.Control(list(args), lambda code, m: msgs.append(m), 20)

    def do_theory(self, t):
        self.th[t] = ClingconTheory()

    def do_conf(self, t, k, v):
        self.th[t].configure(k, v)

    def do_reg(self, t, c):
        self.th[t].register(self.ctl[c])

    def do_text(self, t, c, text):
        thy = self.th[t]
        with clingo.ast.ProgramBuilder(self.ctl[c]) as b:
            clingo.ast.parse_string(text, lambda stm: thy.rewrite_ast(stm, b.add), None, lambda code, m: self.logs[c].append(m), 20)

    def do_raw(self, c, text):
        self.ctl[c].add("base", [], text)

    def do_ground(self, c, *parts):
        ps = []
        for p in parts:
            n, *xs = p.split(":")
            ps.append((n, [clingo.Number(int(x)) for x in xs]))
        self.ctl[c].ground(ps)

    def do_prepare(self, t, c):
        self.th[t].prepare(self.ctl[c])

    def do_ext(self, c, s, v):
        s = clingo.parse_term(s)
        if v == "r":
            self.ctl[c].release_external(s)
        else:
            self.ctl[c].assign_external(s, {"t": True, "u": None}.get(v, False))

    def do_assume(self, c, s, v):
        self.assume.setdefault(c, []).append((clingo.parse_term(s), v == "t"))

    def conf_key(self, c, path):
        x = self.ctl[c].configuration
        *pre, last = path.split(".")
        for p in pre:
            x = x[int(p)] if p.isdigit() else getattr(x, p)
        return x, last

    def do_cfg(self, c, path, v):
        x, last = self.conf_key(c, path)
        setattr(x, last, v)

    def do_cfgget(self, c, path):
        x, last = self.conf_key(c, path)
        self.extra["val"] = getattr(x, last)

    @staticmethod
    def values(t, thread):
        r = []
        for s, v in t.assignment(thread):
            i = t.lookup_symbol(s)
            ok = i is not None and t.has_value(thread, i) and t.get_symbol(i) == s and t.get_value(thread, i) == v
            r.append([str(s), v, 1 if type(v) is int else 0, 1 if ok else 0])
        return r

    def do_solve(self, ts, c, *kw):
        ts = [self.th[x] for x in ts.split(",")]
        o = dict((x.split("=") + ["1"])[:2] for x in kw)
        n, fin = [0], []

        def show(m):
            d = {"t": m.thread_id, "n": m.number, "p": int(m.optimality_proven), "k": {"StableModel": 0, "BraveConsequences": 1, "CautiousConsequences": 2}[m.type.name],
                 "c": list(m.cost), "a": [str(s) for s in sorted(m.symbols(atoms=True))], "th": [str(s) for s in sorted(m.symbols(theory=True))],
                 "v": [self.values(t, m.thread_id) for t in ts]}
            out.line({"j": self.jid, "o": self.op, "m": d})

        def on_model(m):
            for t in ts:
                t.on_model(m)
            n[0] += 1
            show(m)
            if "delay" in o:
                time.sleep(int(o["delay"]) / 1e6)
            if "throw" in o and n[0] >= int(o["throw"]):
                raise RuntimeError("callback failure injected by driver")
            return not ("limit" in o and n[0] >= int(o["limit"]))

        def on_stats(step, accu):
            for t in ts:
                t.on_statistics(step, accu)

        def on_finish(r):
            fin.append(r)

        def bits(r):
            return (1 if r.satisfiable else 2 if r.unsatisfiable else 0) + (4 if r.exhausted else 0) + (8 if r.interrupted else 0)
        ctl = self.ctl[c]
        asm = []
        for s, sign in self.assume.pop(c, []):
            atom = ctl.symbolic_atoms[s]
            # Note: clingo.Control.solve uses atom 1 for atoms that do not exist
            if atom is not None:
                asm.append(atom.literal if sign else -atom.literal)
            elif sign:
                asm += [1, -1]
        args = dict(assumptions=asm, on_model=on_model, on_finish=on_finish, on_statistics=on_stats)
        try:
            if "yield" in o:
                lim = int(o["yield"])
                with ctl.solve(yield_=True, **args) as h:
                    for k, m in enumerate(h):
                        if 0 <= lim <= k + 1:
                            break
                    res = bits(h.get()) if lim < 0 else 0
            elif "async" in o:
                with ctl.solve(async_=True, **args) as h:
                    res = bits(h.get())
            else:
                res = bits(ctl.solve(**args))
        finally:
            self.extra.update({"n": n[0], "res": 0, "fin": len(fin), "finres": bits(fin[-1]) if fin else -1})
        self.extra["res"] = res

    def do_stats(self, c):
        s = self.ctl[c].statistics
        self.extra["stats"] = {k: s.get(k) for k in ("user_step", "user_accu", "summary")}

    def do_lookup(self, t, s):
        t = self.th[t]
        i = t.lookup_symbol(clingo.parse_term(s))
        self.extra.update({"found": 0 if i is None else 1, "idx": 0 if i is None else i})
        if i is not None:
            self.extra["sym"] = str(t.get_symbol(i))

    def do_assign(self, t, thread):
        self.extra["v"] = self.values(self.th[t], int(thread))

    def do_version(self):
        t = ClingconTheory()
        self.extra["version"] = list(t.version())

    def do_delc(self, c):
        self.ctl.pop(c, None)

    def do_delt(self, t):
        self.th.pop(t, None)

    def do_msgs(self, c):
        self.extra["msgs"] = self.logs[c]

    def do_file(self, name, text):
        with open(scratch + name, "w") as f:
            f.write(text)

    def do_app(self, kind, n, *args):
        args = [scratch + a[1:] if a.startswith("@") else a for a in args]
        so, se = scratch + "stdout", scratch + "stderr"
        sys.stdout.flush()
        sys.stderr.flush()
        old = [os.dup(1), os.dup(2)]
        if os.path.exists(scratch + "stdin"):
            f = os.open(scratch + "stdin", os.O_RDONLY)
            os.dup2(f, 0)
        for fd, p in ((1, so), (2, se)):
            f = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o644)
            os.dup2(f, fd)
            os.close(f)
        rc = int(clingo.application.clingo_main(appmod.ClingconApp("clingcon"), args))
        sys.stdout.flush()
        sys.stderr.flush()
        flush()
        for fd in (1, 2):
            os.dup2(old[fd - 1], fd)
        self.extra.update({"rc": rc, "out": open(so, errors="replace").read(), "errout": open(se, errors="replace").read()[:4000]})


def flush():
    import ctypes
    ctypes.CDLL(None).fflush(None)


def run_job(job):
    r = Runner(job["id"])
    failed = False
    for i, a in enumerate(job["ops"]):
        if failed and not job["cont"] and a[0] not in ("delc", "delt", "msgs"):
            continue
        if not r.run(i, a):
            failed = True
    r.ctl.clear()
    r.th.clear()
    out.line({"j": job["id"], "end": 1})


def main():
    global scratch
    jf, of, ef = sys.argv[2:5]
    out.fd = os.open(of, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o644)
    scratch = of + "."
    jobs = []
    for line in open(jf):
        a = [urllib.parse.unquote(x) if x != "%" else "" for x in line.split()]
        if not a:
            continue
        if a[0] == "job":
            jobs.append({"id": a[1], "timeout": int(a[2]), "cont": a[3] == "continue", "ops": []})
        else:
            jobs[-1]["ops"].append(a)
    for job in jobs:
        efd = os.open(ef, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o644)
        for x in ("stdin", "stdout", "stderr"):
            if os.path.exists(scratch + x):
                os.unlink(scratch + x)
        pid = os.fork()
        if pid == 0:
            os.dup2(efd, 2)
            os.dup2(efd, 1)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            rc = 96
            try:
                run_job(job)
                rc = 0
            except BaseException:
                traceback.print_exc()
            sys.stdout.flush()
            sys.stderr.flush()
            flush()
            os._exit(rc)
        os.close(efd)
        t0, timeout, spins = time.time(), False, 0
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p == pid:
                break
            if not timeout and time.time() - t0 > job["timeout"]:
                timeout = True
                os.kill(pid, signal.SIGKILL)
            spins += 1
            time.sleep(0.0003 if spins < 50 else 0.002)
        d = {"j": job["id"], "exit": os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1, "sig": os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0,
             "timeout": int(timeout), "wall": time.time() - t0}
        err = open(ef, errors="replace").read()
        if err:
            d["stderr"] = err[:6000] if len(err) <= 8000 else err[:6000] + "\n...\n" + err[-2000:]
        out.line(d)


main()
