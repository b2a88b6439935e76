import gc
import itertools
import contextlib
import multiprocessing
import os
import threading
import time

import numpy as np

import env
import mc
import toys
from env import sampling

ID = "C16"
LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of all completion orders of the real worker pool under a controlling scheduler"
NOTE = ("The real multiprocessing pool runs gated stub simulations; a controller decides which of the running workers completes next, and "
        "all such schedules are enumerated, for every failing condition; every schedule's result is compared with the serial run.")
RULE = ("depth-first exploration of every completion order of n conditions on w workers (n, w up to 4, thorough 5) x phenomenon x "
        "{sampling, candidate} x failing condition (none or each); thread number zero for 1, 2, 4 cores; a case is one complete schedule, "
        "non-trivial if more than one worker was running")
ASSUMPTIONS = ["simulations are replaced by chosen metrics and states that block until the controller lets them complete",
               "workers are forked processes (the platform's default here)"]
BOUNDS = "up to 5 conditions and workers; one failing condition, and pairs of them"
MAX_JOBS = 8

KINDS = ["ign", "psr", "flame"]
MAKE = {"ign": env.ign, "psr": env.psr, "flame": env.flame}
FILES = ["ignition_data.dat", "ignition_output.txt", "psr_data.dat", "psr_output.txt", "laminarflame_data.dat", "laminarflame_output.txt"]


def scenarios(tier, seed):
    S = []
    th = tier == "thorough"
    sizes = [(2, 2), (3, 2), (3, 3), (4, 2), (4, 3), (4, 4)] + ([(5, 2), (5, 3), (5, 4), (5, 5)] if th else [])
    for n, w in sizes[::-1]:
        for kind in KINDS:
            for path in ("sample", "metric"):
                if not th and n * w > 8 and path == "metric" and kind != "psr":
                    continue
                S.append(dict(n=n, w=w, kind=kind, path=path, fail=[]))
    for n, w in [(3, 2), (3, 3), (2, 2)] + ([(4, 2), (4, 3)] if th else []):
        for kind in KINDS:
            for fail in [[i] for i in range(n)] + ([[0, n - 1]] if n > 2 else []):
                for path in ("sample", "metric"):
                    S.append(dict(n=n, w=w, kind=kind, path=path, fail=fail))
    for cores in (1, 2, 4):
        for path in ("sample", "metric"):
            S.append(dict(n=5, w=0, cores=cores, kind=KINDS[cores % 3], path=path, fail=[], once=True))
    for w in (2, 3):
        S.append(dict(mixed=[2, 2, 2], w=w, path="sample", fail=[]))
        S.append(dict(mixed=[2, 2, 2], w=w, path="metric", fail=[]))
    return S


def value(kind, idx):
    v = 10.0 * (1 + KINDS.index(kind)) + idx + 1.0 / 3.0
    return [v, v + 100.0, v + 200.0] if kind == "psr" else v


def rows(kind, names, idx):
    return [[1000.0 + 100 * idx + r, 101325.0 + idx, 0.5, 0.25 + idx / 7.0, 0.25] for r in range(20)]


class Gate:
    """Blocks the jobs; a controller thread releases one running job at a time."""

    def __init__(self, n, workers, choose):
        self.n, self.workers, self._choose = n, workers, choose
        self.changed = False
        self.r, self.w = os.pipe()
        self.rel = [os.pipe() for _ in range(n)]
        self.order, self.most, self.wide = [], 0, 0
        self.stop = False
        self.extra = False

    def choose(self, n):
        try:
            return self._choose(n)
        except RuntimeError:  # another number of running workers than in the run this one branched off
            self.changed = True
            return 0

    def job(self, k):
        os.write(self.w, f"{k} {os.getpid()}\n".encode())
        os.read(self.rel[k][0], 1)

    def controller(self):
        os.set_blocking(self.r, False)
        running, started, buf = {}, 0, b""

        def poll():
            nonlocal started, buf
            try:
                buf += os.read(self.r, 4096)
            except BlockingIOError:
                return
            *lines, buf2 = buf.split(b"\n")
            buf = buf2
            for l in lines:
                k, pid = map(int, l.split())
                running[k] = pid
                started += 1

        first = True
        while not self.stop and len(self.order) < self.n:
            t_end = time.time() + 4.0
            want = min(self.workers, self.n - len(self.order))
            while not self.stop and len(running) < want and (time.time() < t_end or not running):
                poll()
                time.sleep(0.0005)
            if self.stop:
                break
            if first:
                time.sleep(0.02)
                poll()
                first = False
            self.most = max(self.most, len(running))
            if len(running) > 1:
                self.wide += 1
            ks = sorted(running)
            k = ks[self.choose(len(ks))]
            pid = running.pop(k)
            self.order.append(k)
            os.write(self.rel[k][1], b"x")
            self.settle(pid)
        # anything else (a job run twice) is let through
        for k in range(self.n):
            os.write(self.rel[k][1], b"xxxx")

    def settle(self, pid):
        """Waits until the released worker sleeps again (its result is delivered)."""
        if pid == os.getpid():
            return
        quiet = 0
        for _ in range(400):
            try:
                with open(f"/proc/{pid}/stat") as f:
                    s = f.read().rsplit(")", 1)[1].split()[0]
            except OSError:
                return
            quiet = quiet + 1 if s in "SZ" else 0
            if quiet >= 3:
                return
            time.sleep(0.0005)

    def close(self):
        for fd in [self.r, self.w] + [x for p in self.rel for x in p]:
            os.close(fd)


def run(scn, ctx):
    mc.fresh_dir()
    toys.write(toys.toy(["T", "A", "B"], [toys.rxn("T => A", 1.0), toys.rxn("A => B", 1.0)]), "toy.yaml")
    num = scn.get("mixed") or [scn["n"] if k == scn["kind"] else 0 for k in KINDS]
    C = [[MAKE[k](i) for i in range(n)] for k, n in zip(KINDS, num)]
    offset = {"ign": 0, "psr": num[0], "flame": num[0] + num[1]}
    total = sum(num)
    cores = scn.get("cores")
    workers = scn["w"] or max(1, cores - 1)
    fail = set(scn["fail"])

    def clean():
        for f in os.listdir("."):
            if f != "toy.yaml":
                os.remove(f)

    def one(threads, gate=None):
        def metric(kind, idx, baseline):
            if gate is not None:
                gate.job(offset[kind] + idx)
            if idx in fail:
                if baseline:
                    raise RuntimeError(f"injected failure of case {idx}")
                return 0.0
            return value(kind, idx)

        clean()
        with env.cores(cores) if cores else contextlib.nullcontext():
            with env.StubEnv(lambda kind, sp, idx, p: metric(kind, idx, False), states=rows,
                             baseline=lambda kind, idx: metric(kind, idx, True)):
                if scn["path"] == "sample":
                    return mc.outcome(lambda: sampling.sample("toy.yaml", *C, num_threads=threads), wall=60)
                return mc.outcome(lambda: sampling.sample_metrics("toy.yaml", *C, num_threads=threads), wall=60)

    def result(o):
        files = {}
        for f in FILES:
            if os.path.isfile(f):
                with open(f, "rb") as fh:
                    files[f] = fh.read()
        if o[0] == "ok":
            r = tuple(np.asarray(x).tolist() for x in (o[1] if isinstance(o[1], tuple) else (o[1],)))
            return ("ok", r, files)
        return (*o[:2], files)

    serial = result(one(1))
    if not fail or scn["path"] == "metric":
        ctx.check(serial[0] == "ok", "serial run", f"the serial run ended in {str(serial)[:300]}", scn)
    else:
        ctx.check(serial[0] == "exc" and not serial[2], "serial run", f"with a failing condition: {str(serial)[:300]}", scn)

    def execute(ch):
        gates = [Gate(n, workers, ch.choose) for n in num if n] if scn.get("mixed") else [Gate(total, workers, ch.choose)]
        if scn.get("mixed"):
            return execute_mixed(ch)
        g = gates[0]
        t = threading.Thread(target=g.controller, daemon=True)
        t.start()
        o = one(scn["w"], g)
        g.stop = True
        t.join(20)
        if g.changed:
            ctx.complete = False
            ctx.count("schedules_not_reproduced")
        alone = result(o)
        order, most, wide = list(g.order), g.most, g.wide
        finish(o, alone, order, most, wide)
        del o
        g.close()

    def finish(o, got, order, most, wide):
        d = {"scenario": scn, "order": order, "got": str(got)[:400], "serial": str(serial)[:400]}
        ctx.transition(len(order))
        ctx.trace()
        ctx.evaluated((str(scn), tuple(order)), nontrivial=wide > 0)
        for i in range(len(order) + 1):
            ctx.state((str(scn), tuple(order[:i])))
        ctx.sample({"n": num, "workers": workers, "order": order})
        ctx.check(got == serial, "differs from serial", f"completion order {order} on {workers} workers gives {str(got)[:200]}, the serial "
                  f"run {str(serial)[:200]}", d)
        ctx.check(most <= workers, "too many workers", f"{most} conditions at a time with {workers} workers", d)
        if cores:
            ctx.check(most == min(workers, total), "thread number zero", f"{most} conditions at a time on {cores} cores", d)
        # the pool is gone
        gc.collect()
        t_end = time.time() + 10
        while multiprocessing.active_children() and time.time() < t_end:
            time.sleep(0.002)
        ctx.check(not multiprocessing.active_children(), "pool left", f"{len(multiprocessing.active_children())} worker processes remain", d)

    def execute_mixed(ch):
        # one gate over all phenomena, which are evaluated one after another
        class Phased(Gate):
            pass
        g = Gate(total, workers, ch.choose)
        phases = [n for n in num if n]

        def controller():
            # the number running is limited by the phase
            done = 0
            for n in phases:
                sub = Gate.__new__(Gate)
                sub.__dict__.update(g.__dict__)
                sub.n = done + n
                g_controller(sub, n)
                g.order = sub.order
                g.most = max(g.most, sub.most)
                g.wide += sub.wide
                done += n

        def g_controller(sub, n):
            os.set_blocking(sub.r, False)
            running, buf, left = {}, b"", n
            while left and not g.stop:
                want = min(workers, left)
                t_end = time.time() + 4.0
                while not g.stop and len(running) < want and (time.time() < t_end or not running):
                    try:
                        buf += os.read(sub.r, 4096)
                    except BlockingIOError:
                        time.sleep(0.0005)
                        continue
                    *lines, buf = buf.split(b"\n")
                    for l in lines:
                        k, pid = map(int, l.split())
                        running[k] = pid
                if g.stop:
                    return
                sub.most = max(sub.most, len(running))
                sub.wide += len(running) > 1
                ks = sorted(running)
                k = ks[g.choose(len(ks))]
                pid = running.pop(k)
                sub.order.append(k)
                os.write(sub.rel[k][1], b"x")
                sub.settle(pid)
                left -= 1

        t = threading.Thread(target=controller, daemon=True)
        t.start()
        o = one(scn["w"], g)
        g.stop = True
        t.join(20)
        finish(o, result(o), list(g.order), g.most, g.wide)
        g.close()

    if scn.get("once"):
        execute(mc.Chooser([]))
    else:
        ctx.explore(execute)
