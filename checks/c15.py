import itertools
import os
import sys

import numpy as np

import env
import mc
import toys
from env import sampling

ID = "C15"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive crash-point exploration of the real saving code (process killed at every file operation, executed line and torn write)"
NOTE = ("A forked process generates and saves samples and is killed at every file operation boundary, at every executed line of pyMARS, and "
        "in the middle of every file written (prefixes); every recovery is run and judged. Process death only, not power loss.")
RULE = ("initial directories (empty; samples of another shape; only data; only metrics; leftovers) x requests x {every file operation, every "
        "executed line, prefixes of every file written} x recovery requests (the same, the old one, baseline metrics), and pairs of "
        "crashes at file operations; plus crashes at every file operation, and at evenly spaced executed lines, of complete reductions; a case is one crash point")
ASSUMPTIONS = ["simulations are replaced by chosen metrics and states", "data of completed writes survive the death of the process"]
BOUNDS = "up to 2 conditions per phenomenon; all prefixes of metrics files, of data files all in the thorough tier (quick: around line ends)"

MODELS = {"a3": ["T", "A", "B"], "a4": ["T", "A", "B", "C"]}
KINDS = ["ign", "psr", "flame"]
FILES = {"ign": ("ignition_data.dat", "ignition_output.txt"), "psr": ("psr_data.dat", "psr_output.txt"),
         "flame": ("laminarflame_data.dat", "laminarflame_output.txt")}
MAKE = {"ign": env.ign, "psr": env.psr, "flame": env.flame}

# initial directories: operations performed before the crashing run
INIT = {
    "empty": [],
    "fewer": [("run", "a4", [1, 1, 1])],
    "other model": [("run", "a3", [2, 2, 2])],
    "only data": [("run", "a4", [2, 2, 2]), ("delete", 1)],
    "only metrics": [("run", "a4", [2, 2, 2]), ("delete", 0)],
    "old metrics only": [("run", "a3", [1, 2, 1]), ("delete", 0)],
}


def scenarios(tier, seed):
    S = []
    th = tier == "thorough"
    for init in INIT:
        for k in range(3):
            c = [0, 0, 0]
            c[k] = 2
            S.append(dict(part="crash", init=init, model="a4", conds=c, mode="event", torn="all" if th else "lines"))
            S.append(dict(part="crash", init=init, model="a4", conds=c, mode="line"))
        S.append(dict(part="crash", init=init, model="a4", conds=[2, 2, 2], mode="event", torn="few"))
        S.append(dict(part="crash", init=init, model="a4", conds=[1, 1, 1], mode="event", torn="few"))
    for init in ("empty", "other model", "fewer"):
        S.append(dict(part="crash", init=init, model="a4", conds=[1, 2, 1], mode="line"))
        for k in range(3):
            c = [0, 0, 0]
            c[k] = 2
            S.append(dict(part="pairs", init=init, model="a4", conds=c))
        if th:
            S.append(dict(part="pairs", init=init, model="a4", conds=[1, 1, 1]))
    for method in ("DRG", "DRGEP", "PFA"):
        n = 2000 if th else 40
        S.insert(0, dict(part="reduction", method=method, conds=["psr"], lines=n))
        S.insert(0, dict(part="reduction", method=method, conds=["ign", "flame"], lines=n))
    S.append(dict(part="h5"))
    return S


def run(scn, ctx):
    globals()["run_" + scn["part"]](scn, ctx)


def metric(gen, kind, model, n, idx):
    v = 100.0 * gen + 10.0 * (1 + KINDS.index(kind)) + list(MODELS).index(model) + 0.1 * n + 0.01 * idx + 1.0 / 3.0
    return [v, v + 1000.0, v + 2000.0] if kind == "psr" else v


def rows(gen, kind, model, n, idx):
    return [[1000.0 + 100 * idx + r + gen / 7.0, 101325.0 + n + 10 * gen, *[gen + j / 3.0 for j in range(len(MODELS[model]))]]
            for r in range(3 if kind == "psr" else 20)]


def expect(gen, kind, model, n):
    return ([x for i in range(n) for x in np.atleast_1d(metric(gen, kind, model, n, i))],
            [r for i in range(n) for r in rows(gen, kind, model, n, i)])


def request(gen, model, conds, fn="sample"):
    num = dict(zip(KINDS, conds))
    C = [[MAKE[k](i) for i in range(n)] for k, n in zip(KINDS, conds)]
    e = env.StubEnv(lambda kind, sp, idx, p: metric(gen, kind, model, num[kind], idx),
                    states=lambda kind, names, idx: rows(gen, kind, model, num[kind], idx),
                    baseline=lambda kind, idx: metric(gen, kind, model, num[kind], idx))
    with e:
        if fn == "sample":
            return sampling.sample(f"m_{model}.yaml", *C)
        return sampling.sample_metrics(f"m_{model}.yaml", *C, reuse_saved=True)


def prepare_dir(init, gen0=1):
    for f in os.listdir("."):
        if os.path.isfile(f) and not f.startswith("m_"):
            os.remove(f)
    old = None
    for op in INIT[init]:
        if op[0] == "run":
            request(gen0, op[1], op[2])
            old = (op[1], op[2])
        else:
            for k in KINDS:
                os.remove(FILES[k][op[1]])
    return old


def snapshot():
    out = {}
    for f in os.listdir("."):
        if os.path.isfile(f) and not f.startswith("m_"):
            with open(f, "rb") as fh:
                out[f] = fh.read()
    return out


def restore(files):
    for f in os.listdir("."):
        if os.path.isfile(f) and not f.startswith("m_"):
            os.remove(f)
    for f, b in files.items():
        with open(f, "wb") as fh:
            fh.write(b)


WRITE = os.O_WRONLY | os.O_RDWR


class Killer:
    """Installed in the child: kills it at an event, at an executed line, or in a torn write."""

    def __init__(self, where, pipe):
        self.where = where  # ("event", n) | ("torn", n, bytes) | ("line", n) | None
        self.pipe = pipe
        self.n = 0
        self.lines = 0
        self.last = None  # file opened for writing by the last event
        self.cwd = os.getcwd()
        self.on = True

    def die(self):
        os._exit(77)

    def event(self, path, write):
        if not self.on:
            return
        self.on = False
        try:
            self.boundary()
            self.n += 1
            self.last = path if write else None
        finally:
            self.on = True

    def boundary(self):
        """Between event n and event n+1."""
        size = os.path.getsize(self.last) if self.last and os.path.isfile(self.last) else 0
        if self.where is None:
            os.write(self.pipe, f"{self.n} {size} {self.last or '-'}\n".encode())
        elif self.where[:2] == ("event", self.n):
            self.die()
        elif self.where[:2] == ("torn", self.n):
            os.truncate(self.last, self.where[2])
            self.die()

    def audit(self, name, args):
        if not self.on:
            return
        if name == "open":
            path, mode, flags = args
            if not isinstance(path, (str, bytes)) or not (flags and flags & WRITE):
                return
            path = os.path.abspath(os.fsdecode(path))
            if path.startswith(self.cwd):
                self.event(path, True)
        elif name in ("os.rename", "os.remove", "os.link", "os.truncate", "os.mkdir", "os.rmdir", "os.symlink"):
            p = args[0]
            if isinstance(p, (str, bytes)) and os.path.abspath(os.fsdecode(p)).startswith(self.cwd):
                self.event(None, False)

    def trace(self, frame, what, arg):
        if os.sep + "pymars" + os.sep not in frame.f_code.co_filename:
            return None
        if what == "line":
            self.lines += 1
            if self.where and self.where[0] == "line" and self.where[1] == self.lines:
                os._exit(77)
        return self.trace


def child(fn, where, lines=False):
    """Runs ``fn`` in a forked process killed at ``where``; returns (exit status, list of
    (event, size, file)) for where=None, with the number of lines last."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(r)
            k = Killer(where, w)
            if not lines:
                sys.addaudithook(k.audit)
            else:
                sys.settrace(k.trace)
            try:
                fn()
                code = 0
            except SystemExit:
                code = 0
            except BaseException as e:  # noqa
                os.write(w, f"-1 0 {type(e).__name__}\n".encode())
                code = 98
            sys.settrace(None)
            k.on = False
            if not lines:
                k.boundary()
            elif where is None:
                os.write(w, f"{k.lines} 0 lines\n".encode())
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    out = [l.split(" ", 2) for l in data.decode().splitlines()]
    return os.waitstatus_to_exitcode(st), [(int(a), int(b), c) for a, b, c in out]


def judge(ctx, files, crash, gen, old, model, conds, d):
    """Runs the recoveries from the directory left by the crash and judges them."""
    reqs = [("sample", model, conds)]
    if old:
        reqs.append(("sample", old[0], [n if conds[i] else 0 for i, n in enumerate(old[1])]))
    reqs.append(("metrics", model, conds))
    for fn, m, c in reqs:
        restore(files)
        o = mc.outcome(lambda: request(gen, m, c, fn))
        d2 = dict(d, recovery=[fn, m, c], result=str(o)[:300], files={f: len(b) for f, b in files.items()})
        ctx.check(o[0] == "ok", "recovery fails", f"after a crash at {crash}, {fn} ended in {str(o)[:200]}", d2)
        mets = list(o[1][0] if fn == "sample" else o[1])
        data = [list(r) for r in o[1][1]] if fn == "sample" else None
        im = idt = 0
        for k, n in zip(KINDS, c):
            if not n:
                continue
            nm, nd = n * (3 if k == "psr" else 1), n * (3 if k == "psr" else 20)
            gm, gd = mets[im:im + nm], data[idt:idt + nd] if data is not None else None
            im, idt = im + nm, idt + nd
            ok = False
            for g in range(1, gen + 1):
                for src in MODELS:
                    if fn == "sample" and len(MODELS[src]) != len(MODELS[m]):
                        continue
                    em, ed = expect(g, k, src, n)
                    if gm == em and (gd is None or gd == ed):
                        ok = True
            ctx.check(ok, "mixed or partial samples", f"after a crash at {crash}, {fn} gave metrics {gm} and data that do not belong "
                      "to one complete run", d2)
        ctx.check(im == len(mets) and (data is None or idt == len(data)), "wrong number", f"after a crash at {crash}: {len(mets)} metrics", d2)


def prefixes(size, mode, content):
    if mode == "all":
        return range(size)
    ends = [i + 1 for i, b in enumerate(content) if b == 10]
    if mode == "few" and len(ends) > 4:
        ends = [ends[0], ends[len(ends) // 2], ends[-2], ends[-1]]
    pts = {0, 1}
    for e in ends:
        pts |= {e - 26, e - 2, e - 1, e, e + 1, e + 13}
    if size < 120:
        pts |= set(range(size))
    return sorted(p for p in pts if 0 <= p < size)


def run_crash(scn, ctx):
    mc.fresh_dir()
    for m, sp in MODELS.items():
        toys.write(toys.toy(sp, [toys.rxn(f"{a} => {b}", 1.0) for a, b in zip(sp, sp[1:])]), f"m_{m}.yaml")
    old = prepare_dir(scn["init"])
    start = snapshot()
    model, conds = scn["model"], scn["conds"]
    fn = lambda: request(2, model, conds)  # noqa
    lines = scn["mode"] == "line"
    st, log = child(fn, None, lines)
    full = snapshot()
    ctx.check(st == 0, "clean run", f"sampling in directory '{scn['init']}' failed: {log[-1:]}", scn)
    points = []
    if lines:
        points = [("line", i) for i in range(1, log[-1][0] + 1)]
    else:
        for n, size, last in log:
            points.append(("event", n))
            if last != "-":
                name = os.path.basename(last)
                # what it contained at that moment: found by stopping there
                restore(start)
                child(fn, ("event", n))
                content = b""
                if os.path.isfile(last):
                    with open(last, "rb") as f:
                        content = f.read()
                for p in prefixes(len(content), scn["torn"], content):
                    points.append(("torn", n, p, name))
    for pt in points:
        if ctx.out_of_time():
            return
        restore(start)
        st, _ = child(fn, pt[:3], lines)
        ctx.check(st == 77, "nondeterministic run", f"crash point {pt} was not reached (status {st})", scn)
        left = snapshot()
        ctx.transition()
        ctx.trace()
        ctx.evaluated((str(scn), pt))
        ctx.state((scn["init"], str(sorted((f, hash(b)) for f, b in left.items()))))
        d = {"initial": scn["init"], "request": [model, conds], "crash": pt}
        judge(ctx, left, pt, 3, old, model, conds, d)
    ctx.sample({"initial": scn["init"], "request": conds, "mode": scn["mode"], "crash_points": len(points),
                "files_written": sorted(full)})


def run_pairs(scn, ctx):
    """A second crash during the recovery from a first one."""
    mc.fresh_dir()
    for m, sp in MODELS.items():
        toys.write(toys.toy(sp, [toys.rxn(f"{a} => {b}", 1.0) for a, b in zip(sp, sp[1:])]), f"m_{m}.yaml")
    old = prepare_dir(scn["init"])
    start = snapshot()
    model, conds = scn["model"], scn["conds"]
    fn = lambda g: (lambda: request(g, model, conds))  # noqa
    first = [("event", n) for n, _, _ in child(fn(2), None)[1]]
    for a in first:
        restore(start)
        child(fn(2), a)
        left1 = snapshot()
        st, log = child(fn(3), None)
        ctx.check(st == 0, "recovery fails", f"after a crash at {a} the next run fails: {log[-1:]}", scn)
        for b in [("event", n) for n, _, _ in log]:
            restore(left1)
            child(fn(3), b)
            left = snapshot()
            ctx.transition()
            ctx.trace()
            ctx.evaluated((str(scn), a, b))
            ctx.state((scn["init"], str(sorted((f, hash(x)) for f, x in left.items()))))
            judge(ctx, left, (a, b), 4, old, model, conds, {"initial": scn["init"], "request": [model, conds], "crashes": [a, b]})


def run_reduction(scn, ctx):
    """A complete reduction, killed at every file operation and repeated."""
    t = toys.star({"A": 0.005, "B": 0.05})
    full = frozenset(t["species"])
    FN = {"DRG": env.drg.run_drg, "DRGEP": env.drgep.run_drgep, "PFA": env.pfa.run_pfa}[scn["method"]]
    C = [[MAKE[k](0)] if k in scn["conds"] else [] for k in KINDS]
    ANS = {len(full): 8.0, len(full) - 1: 8.25}

    def reduce():
        with env.StubEnv(lambda kind, sp, idx, p: ANS.get(len(sp), 16.0)):
            return FN("m_toy.yaml", *C, env.LIMIT, ["T"], [])

    mc.fresh_dir()
    toys.write(t, "m_toy.yaml")
    ref = mc.outcome(reduce)
    ctx.check(ref[0] == "ok", "clean run", f"{str(ref)[:200]}", scn)
    want = (sorted(ref[1].model.species_names), float(ref[1].error), sorted(snapshot()))
    restore({})
    for mode in ("event", "line"):
        st, log = child(reduce, None, mode == "line")
        restore({})
        pts = [("event", n) for n, _, _ in log] if mode == "event" else [("line", i) for i in range(1, log[-1][0], max(7, log[-1][0] // scn["lines"]))]
        for pt in pts:
            restore({})
            st, _ = child(reduce, pt, mode == "line")
            ctx.check(st == 77, "nondeterministic run", f"crash point {pt} was not reached (status {st})", scn)
            o = mc.outcome(reduce)
            got = (sorted(o[1].model.species_names), float(o[1].error)) if o[0] == "ok" else str(o)[:200]
            ctx.transition()
            ctx.trace()
            ctx.evaluated((str(scn), pt))
            ctx.state((str(scn), pt))
            ctx.check(got == want[:2], "reduction after crash", f"killed at {pt} and repeated, the reduction gives {got}, expected {want[:2]}",
                      dict(scn, crash=pt))
    ctx.sample({"method": scn["method"], "conditions": scn["conds"], "result": want})


def run_h5(scn, ctx):
    """Leftover intermediate files of an interrupted real ignition run."""
    mc.fresh_dir()
    case = sampling.InputIgnition(kind="constant volume", temperature=1400.0, pressure=1.0, equivalence_ratio=1.0, fuel={"H2": 1.0},
                                  oxidizer={"O2": 1.0, "N2": 3.76})
    ref = mc.outcome(lambda: sampling.sample("h2o2.yaml", [case]))
    sim = env.simulation.IgnitionSimulation(0, case, "h2o2.yaml")
    sim.setup_case()
    sim.run_case()
    with open("0.h5", "rb") as f:
        content = f.read()
    other = env.simulation.IgnitionSimulation(0, case._replace(temperature=1200.0), "h2o2.yaml")
    other.setup_case()
    other.run_case()
    with open("0.h5", "rb") as f:
        stale = f.read()
    for left in [b"", content[:100], content[: len(content) // 2], content[:-1], stale, b"garbage"]:
        restore({"0.h5": left})
        o = mc.outcome(lambda: sampling.sample("h2o2.yaml", [case]))
        ctx.evaluated(("h5", len(left)))
        ctx.state(("h5", len(left)))
        ctx.transition()
        ok = o[0] == "ok" and np.array_equal(o[1][0], ref[1][0]) and np.array_equal(o[1][1], ref[1][1])
        ctx.check(ok, "leftover intermediate file", f"a leftover 0.h5 of {len(left)} bytes changes the samples: {str(o)[:200]}", {"bytes": len(left)})
