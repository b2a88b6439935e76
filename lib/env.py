"""Imports pyMARS from the working tree, and an environment of stub simulations.

Only the simulations themselves (the class-level methods every simulation type
has) are replaced: everything that decides, reduces, writes and compares is the
real code.  A stub simulation reads the species of the model it is given and
answers with a metric that the explorer chose for that set of species.
"""
import logging
import os
import sys
import tempfile

import mc

_cwd = os.getcwd()
_tmp = tempfile.mkdtemp(prefix="verif-imp-")
sys.dont_write_bytecode = True
sys.pycache_prefix = _tmp
os.chdir(_tmp)
sys.path.insert(0, os.path.join(mc.REPO, "src"))
import numpy as np  # noqa
import cantera as ct  # noqa
import scipy.optimize as _so  # noqa

#: called before every use of scipy.optimize.root (if not None); true: report no convergence,
#: or a result to be given instead
root_hook = None
_real_root = _so.root


def _root(fun, x0, *a, **kw):
    injected = root_hook(fun, x0) if root_hook is not None else None
    if isinstance(injected, _so.OptimizeResult):
        return injected
    if injected:
        return _so.OptimizeResult(x=np.array(x0, dtype=float), success=False, status=4, message="injected",
                                  fun=np.full(len(x0), 1.0), nfev=1)
    return _real_root(fun, x0, *a, **kw)


_so.root = _root
import pymars  # noqa
from pymars import drg, drgep, pfa, psr_solver, reduce_model, sampling, sensitivity_analysis  # noqa
from pymars import simulation, soln2ck, soln2yaml, tools  # noqa
import pymars.pymars as driver  # noqa

assert os.path.realpath(pymars.__file__).startswith(os.path.realpath(mc.REPO) + "/"), pymars.__file__
os.chdir(_cwd)
import shutil  # noqa

shutil.rmtree(_tmp, ignore_errors=True)
logging.disable(logging.CRITICAL)
ct.suppress_thermo_warnings()
np.seterr(all="ignore")
import warnings  # noqa

warnings.filterwarnings("ignore")

BASE = 8.0
LIMIT = 12.5
#: answers of candidate simulations and their exact errors against BASE
ANSWERS = {"same": 8.0, "low": 8.5, "edge": 7.0, "edge+": 9.0, "above": 9.000000001, "dead": 0.0}


def err_of(value):
    """Error of a single metric against the baseline (independent of the code)."""
    if value == 0.0:
        return 100.0
    return 100.0 * abs(BASE - value) / BASE


def ign(i=0, **kw):
    d = dict(kind="constant volume", temperature=1000.0 + i, pressure=1.0, reactants={"T": 1.0})
    d.update(kw)
    return sampling.InputIgnition(**d)


def psr(i=0, **kw):
    d = dict(temperature=300.0 + i, pressure=1.0, reactants={"T": 1.0})
    d.update(kw)
    return sampling.InputPSR(**d)


def flame(i=0, **kw):
    d = dict(temperature=300.0 + i, pressure=1.0, reactants={"T": 1.0})
    d.update(kw)
    return sampling.InputLaminarFlame(**d)


class StubEnv:
    """Replaces the simulations.  ``answer(kind, species, idx, properties)`` gives the
    metric of a candidate; ``states(kind, species)`` the sampled states (rows)."""

    MAX_SIMS = 5000

    def __init__(self, answer, states=None, baseline=None, log_files=False):
        self.answer = answer
        self.states = states
        self.baseline = baseline or (lambda kind, idx: BASE)
        self.log = []  # one entry per simulation started
        self.n = 0

    # -- bookkeeping
    def _start(self, sim, kind):
        self.n += 1
        if self.n > self.MAX_SIMS:
            raise mc.Hang("more simulations than any terminating run needs")
        gas = ct.Solution(sim.model, sim.phase_name)
        names = frozenset(gas.species_names)
        p = sim.properties
        sim._species = names
        sim._order = tuple(gas.species_names)
        entry = {"kind": kind, "species": names, "order": sim._order, "model": sim.model,
                 "phase": sim.phase_name, "path": sim.path, "idx": sim.idx, "props": p,
                 "min_flame_speed": getattr(sim, "min_flame_speed", None), "mode": None,
                 "nrxn": gas.n_reactions, "pid": os.getpid()}
        sim._entry = entry
        self.log.append(entry)
        for sp in list(p.fuel) + list(p.oxidizer) + list(p.reactants):
            if sp not in names:
                raise ct.CanteraError(f"unknown species {sp} in initial composition")

    def _rows(self, sim, kind):
        n = type(sim).num_sample_points
        names = sim._order
        if self.states is not None:
            rows = self.states(kind, names, sim.idx)
            return np.array([rows[i % len(rows)] for i in range(n)], dtype=float)
        y = np.full(len(names), 1.0 / len(names))
        return np.array([[1000.0 + 10 * i, 101325.0, *y] for i in range(n)])

    def _metric(self, sim, kind, baseline):
        sim._entry["mode"] = "sample" if baseline else "metric"
        if baseline:
            v = self.baseline(kind, sim.idx)
        else:
            v = self.answer(kind, sim._species, sim.idx, sim.properties)
        if kind == "psr":
            return np.array(v if isinstance(v, (list, tuple, np.ndarray)) else [BASE, v, BASE], dtype=float) \
                if not (np.isscalar(v) and v == 0.0) else np.zeros(3)
        return float(v)

    # -- installation
    def __enter__(self):
        env = self
        self.saved = []

        def patch(cls, name, fn):
            self.saved.append((cls, name, cls.__dict__[name]))
            setattr(cls, name, fn)

        I, P, F = simulation.IgnitionSimulation, simulation.PSRSimulation, simulation.FlameSimulation

        def setup(kind):
            def setup_case(sim):
                env._start(sim, kind)
                if kind == "ign":
                    sim.save_file = os.path.join(sim.path, str(sim.idx) + ".h5")
            return setup_case

        def ign_run(sim, stop_at_ignition=False, restart=False):
            sim._value = env._metric(sim, "ign", True)
            with open(os.path.join(sim.path, str(sim.idx) + ".h5"), "w") as f:
                f.write("stub")
            return sim._value

        def ign_process(sim, skip_data=False):
            if not os.path.isfile(os.path.join(sim.path, str(sim.idx) + ".h5")):
                raise FileNotFoundError("results of ignition case not there")
            return sim._value if skip_data else (sim._value, env._rows(sim, "ign"))

        def run(kind):
            def run_case(sim, restart=False):
                return env._metric(sim, kind, True)
            return run_case

        def process(kind):
            def process_results(sim, skip_data=False):
                v = env._metric(sim, kind, True)
                return v if skip_data else (v, env._rows(sim, kind))
            return process_results

        def calc(kind):
            def calculate(sim):
                return env._metric(sim, kind, False)
            return calculate

        patch(I, "setup_case", setup("ign"))
        patch(I, "run_case", ign_run)
        patch(I, "process_results", ign_process)
        patch(I, "calculate", calc("ign"))
        for cls, kind in ((P, "psr"), (F, "flame")):
            patch(cls, "setup_case", setup(kind))
            patch(cls, "run_case", run(kind))
            patch(cls, "process_results", process(kind))
            patch(cls, "calculate", calc(kind))
        return self

    def __exit__(self, *exc):
        for cls, name, fn in reversed(self.saved):
            setattr(cls, name, fn)
        return False


# ----------------------------------------------------- machine and process pools
class replaced:
    """Replaces objects of the standard library for the code under test, however it refers to them."""

    def __init__(self, pairs):
        self.pairs = list(pairs)  # (module, name, replacement)

    def __enter__(self):
        self.saved = []
        swap = {}
        for module, name, new in self.pairs:
            old = getattr(module, name, None)
            if old is None:
                continue
            swap[id(old)] = (old, new)
            self.saved.append((module, name, old))
            setattr(module, name, new)
        for m in [m for n, m in list(sys.modules.items()) if n == "pymars" or n.startswith("pymars.")]:
            for name, value in list(vars(m).items()):
                if not name.startswith("__") and id(value) in swap:
                    self.saved.append((m, name, value))
                    setattr(m, name, swap[id(value)][1])
        return self

    def __exit__(self, *exc):
        for module, name, old in reversed(self.saved):
            setattr(module, name, old)
        return False


def cores(n):
    """A machine with n cores."""
    import multiprocessing

    return replaced([(multiprocessing, "cpu_count", lambda: n), (os, "cpu_count", lambda: n), (os, "process_cpu_count", lambda: n),
                     (os, "sched_getaffinity", lambda pid=0: set(range(n)))])


def _done(v):
    import argparse

    return argparse.Namespace(get=lambda timeout=None: v, result=lambda timeout=None: v, wait=lambda timeout=None: None, ready=lambda: True,
                              successful=lambda: True, done=lambda: True, exception=lambda timeout=None: None)


def inline_pools(asked):
    """Process pools of any kind record the number of processes in ``asked`` and run their jobs here."""
    import concurrent.futures
    import multiprocessing
    import multiprocessing.pool

    class Pool:
        def __init__(self, processes=None, initializer=None, initargs=(), *a, **kw):
            asked.append(processes)
            if initializer:
                initializer(*initargs)

        def map(self, f, jobs, *a, **kw):
            return [f(j) for j in jobs]

        imap = imap_unordered = map

        def starmap(self, f, jobs, *a, **kw):
            return [f(*j) for j in jobs]

        def apply(self, f, args=(), kwds={}):
            return f(*args, **kwds)

        def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
            v = f(*args, **kwds)
            if callback:
                callback(v)
            return _done(v)

        def map_async(self, f, jobs, *a, **kw):
            return _done(self.map(f, jobs))

        def starmap_async(self, f, jobs, *a, **kw):
            return _done(self.starmap(f, jobs))

        def close(self):
            pass

        join = terminate = close

        def __enter__(self):
            return self

        def __exit__(self, *exc):
            return False

    class Executor(concurrent.futures.Executor):
        def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
            asked.append(max_workers)
            if initializer:
                initializer(*initargs)

        def submit(self, f, *a, **kw):
            future = concurrent.futures.Future()
            try:
                future.set_result(f(*a, **kw))
            except BaseException as e:  # noqa
                future.set_exception(e)
            return future

        def map(self, f, *jobs, timeout=None, chunksize=1):
            return iter([f(*j) for j in zip(*jobs)])

        def shutdown(self, *a, **kw):
            pass

    real = multiprocessing.get_context

    class Context:
        def __init__(self, inner):
            self.inner = inner

        def Pool(self, *a, **kw):
            return Pool(*a, **kw)

        def __getattr__(self, name):
            return getattr(self.inner, name)

    return replaced([(multiprocessing, "Pool", Pool), (multiprocessing.pool, "Pool", Pool),
                     (multiprocessing, "get_context", lambda method=None: Context(real(method))),
                     (concurrent.futures.process, "ProcessPoolExecutor", Executor), (concurrent.futures, "ProcessPoolExecutor", Executor)])
