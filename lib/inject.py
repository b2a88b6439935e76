"""Fault injection below pyMARS: the integrator, the flame solver and the root finder.

The Cantera / SciPy entry points are replaced by subclasses or wrappers of
themselves, so the code under test is exactly that of the working tree.
"""
import contextlib

import env
from env import ct, psr_solver, simulation

_REAL_NET = ct.ReactorNet
_REAL_FLAME = ct.FreeFlame


class Integrator:
    """Counts steps per reactor (identified by its initial temperature) and fails at
    the chosen ones."""

    def __init__(self, fail=None):
        self.fail = fail or (lambda T0, n: False)
        self.steps = {}
        self.ignited = {}  # T0 -> step of the first temperature 400 K above
        self.fired = {}    # T0 -> step of the (first) injected failure
        self.nets = 0

    def __enter__(self):
        outer = self

        class Net(_REAL_NET):
            def __init__(self, reactors=(), **kw):
                super().__init__(reactors, **kw)
                self._r = list(reactors)[0]
                self._T0 = round(self._r.T, 6)
                self._n = 0
                outer.nets += 1
                outer.steps[self._T0] = 0

            def step(self):
                self._n += 1
                outer.steps[self._T0] = self._n
                if outer.fail(self._T0, self._n):
                    outer.fired.setdefault(self._T0, self._n)
                    raise ct.CanteraError("injected integrator failure")
                t = super().step()
                if self._r.T >= self._T0 + 400.0:
                    outer.ignited.setdefault(self._T0, self._n)
                return t

        ct.ReactorNet = Net
        return self

    def __exit__(self, *exc):
        ct.ReactorNet = _REAL_NET
        return False


class Flames:
    """Flames with a chosen result: a speed, or None for a solver failure."""

    def __init__(self, result, profile=None):
        self.result = result  # (unburned temperature) -> speed or None
        self.profile = profile  # () -> temperatures, mass fractions [species, point]
        self.solved = []

    def __enter__(self):
        outer = self

        class Flame(_REAL_FLAME):
            def __init__(self, gas, grid=None, width=None):
                super().__init__(gas, grid=grid, width=width)
                self._T0 = round(gas.T, 6)
                self._w = width
                self._done = False

            def solve(self, *a, **kw):
                outer.solved.append(self._T0)
                v = outer.result(self._T0)
                if v is None:
                    raise ct.CanteraError("injected flame failure")
                self._v = v
                self._done = True

            @property
            def velocity(self):
                assert self._done, "flame was not solved"
                n = len(self.grid)
                return env.np.array([self._v * (1 + i) for i in range(n)])

            @property
            def T(self):
                if outer.profile:
                    return outer.profile()[0]
                n = len(self.grid)
                return env.np.array([self._T0 + 150.0 * i for i in range(n)])

            @property
            def Y(self):
                if outer.profile:
                    return outer.profile()[1]
                n, k = len(self.grid), self.gas.n_species
                return env.np.array([[(j + 1) * 0.01 + 0.001 * i for i in range(n)] for j in range(k)])

        ct.FreeFlame = Flame
        return self

    def __exit__(self, *exc):
        ct.FreeFlame = _REAL_FLAME
        return False


class RootFinder:
    """Wraps the corrector of the PSR solver.  ``fault(T_inlet, call)`` gives None, 'raise'
    (a CanteraError) or 'noconv' (neither corrector converges)."""

    def __init__(self, fault=None):
        self.fault = fault or (lambda T, n: None)
        self.calls = {}
        self.fired = {}
        self.T = None
        self.now = None
        self.log = []

    def __enter__(self):
        outer = self
        real_trace = simulation.trace_extinction_curve
        real_newton = psr_solver._damped_newton
        self.saved = (real_trace, real_newton)

        def trace(gas, *a, **kw):
            outer.T = round(gas.T, 6)
            outer.calls[outer.T] = 0
            outer.now = None
            return real_trace(gas, *a, **kw)

        def before(*a, **kw):
            outer.calls[outer.T] = n = outer.calls.get(outer.T, 0) + 1
            outer.now = outer.fault(outer.T, n)
            if outer.now:
                outer.fired.setdefault(outer.T, n)
            if outer.now == "raise":
                raise ct.CanteraError("injected evaluation failure")
            return outer.now == "noconv"

        def newton(residual, x0, *a, **kw):
            if outer.now == "noconv":
                return x0, False
            return real_newton(residual, x0, *a, **kw)

        simulation.trace_extinction_curve = trace
        psr_solver._damped_newton = newton
        env.root_hook = before
        return self

    def __exit__(self, *exc):
        simulation.trace_extinction_curve, psr_solver._damped_newton = self.saved
        env.root_hook = None
        return False
