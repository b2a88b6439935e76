import os

import numpy as np

import env
import mc
import ref
import toys
from env import ct, sampling, simulation

ID = "C12"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of all bounded integrator trajectories fed to the real simulation code"
NOTE = ("Every sequence of per-step (time, temperature, steady) outcomes up to the bound, through sampling and candidate evaluation; "
        "plus real integrations against independent ones on a grid of conditions.")
RULE = ("every step of a scripted integrator chooses a temperature from {initial, just below +400 K, exactly +400 K, above, final, "
        "falling back} and a time (before / exactly at / after the end time) or whether steady state is reached, up to 4-5 steps "
        "(thorough 5-7), for all step limits and both reactor kinds; a state is a trajectory prefix; trivial if it never ignites")
ASSUMPTIONS = ["the integrator's steps are replaced by chosen outcomes (scripted part)", "Cantera integrates correctly (real part)"]
BOUNDS = "trajectories of up to 5 (thorough 7) steps; 24 real conditions"

T0 = 1000.0
TEMPS = [1000.0, float(np.nextafter(1400.0, 0)), 1400.0, 2000.0, 900.0]
_REAL_NET = ct.ReactorNet


class Script:
    """A trajectory, chosen step by step and then repeated identically."""

    def __init__(self, ch, end, depth, temps):
        self.ch, self.end, self.depth, self.temps = ch, end, depth, temps
        self.steps = []  # (time, T, steady)

    def get(self, n):
        while len(self.steps) < n:
            i = len(self.steps) + 1
            t_prev = self.steps[-1][0] if self.steps else 0.0
            if i > self.depth:  # closed without choices: ends, or is steady, at the last temperature
                T = self.steps[-1][1] if self.steps else T0
                self.steps.append((max(t_prev, self.end) + 1.0, T, True))
                continue
            T = self.temps[self.ch.choose(len(self.temps))]
            if self.end:
                c = self.ch.choose(3) if i < self.depth else 1 + self.ch.choose(2)
                t = [t_prev + (self.end - t_prev) / 4, self.end, self.end + 0.5][c]
                if t_prev >= self.end:
                    t = t_prev + 1.0
                self.steps.append((t, T, False))
            else:
                self.steps.append((t_prev + 0.25 + 0.125 * i, T, bool(self.ch.choose(2)) if i < self.depth else True))
        return self.steps[n - 1]


def row(n, T):
    """Pressure and composition of the n-th point of a scripted trajectory."""
    y = np.array([1.0 + n, 2.0, 3.0 * (n % 3)])
    return 101325.0 + 1000.0 * n, y / y.sum()


def install(script):
    class Net(_REAL_NET):
        def __init__(self, reactors=(), **kw):
            super().__init__(reactors, **kw)
            self._r = list(reactors)[0]
            self._n = 0
            self._x = 1.0
            script.taken = 0
            script.kind = type(self._r).__name__

        def step(self):
            self._n += 1
            if self._n > 200:
                raise mc.Hang("more steps than the trajectory allows")
            script.taken = self._n
            t, T, steady = script.get(self._n)
            P, y = row(self._n, T)
            self._r.phase.TPY = T, P, y
            self._r.syncState()
            if not steady:
                self._x *= 10.0
            return t

        @property
        def time(self):
            return script.get(self._n)[0] if self._n else 0.0

        def reinitialize(self):
            pass

        @property
        def n_vars(self):
            return 4

        def get_state(self):
            return np.full(4, self._x)

        def initialize(self):
            pass

    ct.ReactorNet = Net


def scenarios(tier, seed):
    S = []
    th = tier == "thorough"
    for kind in ("constant volume", "constant pressure"):
        for end in (0.0, 2.0):
            depth = 5 if th else 4
            for first in range(len(TEMPS)):
                for second in range(3 if end else 2):
                    if end:
                        S.append(dict(part="script", kind=kind, end=end, depth=depth, first=[first, second], max_steps=None))
                    else:
                        for m in (None, 1, 2, 3) + (4,) + ((5, 6) if th else ()):
                            S.append(dict(part="script", kind=kind, end=end, depth=depth, first=[first, second], max_steps=m))
    # longer trajectories over fewer temperatures
    for end in (0.0, 2.0):
        for first in range(3):
            for second in range(3 if end else 2):
                for m in ((None,) if end else (None, 4, 5, 6)):
                    S.append(dict(part="script", kind="constant volume", end=end, depth=7 if th else 5, first=[first, second], max_steps=m,
                                  temps=[1300.0, 1400.0, 1380.0]))
    for kind in ("constant volume", "constant pressure"):
        for T in (1000.0, 1150.0, 1400.0) if not th else (950.0, 1000.0, 1100.0, 1150.0, 1300.0, 1400.0):
            for P in (1.0, 10.0):
                for end in (0.0, 2e-3):
                    S.append(dict(part="real", kind=kind, T=T, P=P, end=end))
    return S


def run(scn, ctx):
    {"script": run_script, "real": run_real}[scn["part"]](scn, ctx)


class Prefixed:
    """Chooser whose first choices are fixed by the scenario."""

    def __init__(self, ch, fixed):
        self.ch, self.fixed, self.n = ch, fixed, 0

    def choose(self, k):
        self.n += 1
        if self.n <= len(self.fixed):
            return self.fixed[self.n - 1] % k
        return self.ch.choose(k)


def run_script(scn, ctx):
    mc.fresh_dir()
    toys.write(toys.toy(["T", "A", "B"], [toys.rxn("T => A", 1.0)]), "toy.yaml")
    end = scn["end"]
    kw = {} if scn["max_steps"] is None else {"max_steps": scn["max_steps"]}
    limit = scn["max_steps"] or 50
    kw.setdefault("max_steps", 50)
    case = sampling.InputIgnition(kind=scn["kind"], temperature=T0, pressure=1.0, end_time=end, reactants={"T": 1.0, "A": 1.0}, **kw)
    temps = scn.get("temps", TEMPS)

    def execute(ch):
        s = Script(Prefixed(ch, scn["first"]), end, scn["depth"], temps)
        for f in os.listdir("."):
            if f != "toy.yaml":
                os.remove(f)
        install(s)
        try:
            osample = mc.outcome(lambda: sampling.sample("toy.yaml", [case]))
            n_sample = s.taken
            ometric = mc.outcome(lambda: sampling.sample_metrics("toy.yaml", [case]))
            n_metric = s.taken
        finally:
            ct.ReactorNet = _REAL_NET
        # -- reference
        n, N, reached = 0, None, True
        while True:
            n += 1
            t, T, steady = s.get(n)
            if end and t >= end or not end and steady:
                N = n
                break
            if not end and n >= limit:
                N, reached = n, False
                break
        ign = next((i for i in range(1, N + 1) if s.get(i)[1] >= T0 + 400.0), None)
        # a candidate is integrated until ignition, at most to the end time or the step limit
        hist = [list(x) for x in s.steps]
        d = {"kind": scn["kind"], "end_time": end, "max_steps": scn["max_steps"], "trajectory (time, T, steady)": hist}
        ctx.evaluated((scn["kind"], end, scn["max_steps"], str(hist)), nontrivial=ign is not None)
        ctx.transition(len(hist))
        ctx.trace()
        for i in range(len(hist)):
            ctx.state((scn["kind"], end, scn["max_steps"], str(hist[: i + 1])))
        ctx.sample(d)
        if ign is None or not reached:
            ctx.check(osample[0] == "exc", "no error", f"{'no ignition' if reached else 'step limit exhausted'}, but sampling gave "
                      f"{str(osample)[:200]}", d)
        else:
            want = s.get(ign)[0]
            ok = osample[0] == "ok" and list(osample[1][0]) == [want]
            ctx.check(ok, "sampled delay", f"ignition delay {str(osample)[:200]}; first step at 400 K rise is at {want}", d)
            ctx.check(n_sample == N, "integration length", f"{n_sample} steps taken while sampling, {N} expected", d)
            Ts = [T0] + [x[1] for x in s.steps[:N]]
            if Ts[-1] > T0:
                data = osample[1][1]
                allowed = ref.profile_samples(Ts)
                pts = [(T0, 101325.0, np.array(case_y))] + [(x[1], *row(i + 1, x[1])) for i, x in enumerate(s.steps[:N])]
                good = data.shape == (20, 5) and all(
                    any(np.allclose(r, [pts[i][0], pts[i][1], *pts[i][2]], rtol=1e-9, atol=1e-12) for i in a)
                    for r, a in zip(data, allowed))
                ctx.check(good, "sampled data", f"sampled temperatures {list(data[:, 0])} do not come from the recorded trajectory {Ts}", d)
        ignm = ign
        if ign is None and not end:
            # integrated on beyond steady state, within the step limit: any later rise counts
            later = [i for i in range(N + 1, min(limit, len(s.steps)) + 1) if s.get(i)[1] >= T0 + 400.0]
            allowed = {0.0} | ({s.get(later[0])[0]} if later else set())
        else:
            allowed = {s.get(ignm)[0] if ignm else 0.0}
        ok = ometric[0] == "ok" and len(ometric[1]) == 1 and float(ometric[1][0]) in allowed
        ctx.check(ok, "candidate delay", f"candidate ignition delay {str(ometric)[:200]}, expected {allowed}", d)
        want_kind = "ConstPressure" in s.kind
        ctx.check(want_kind == (scn["kind"] == "constant pressure"), "reactor kind", f"{s.kind} used for {scn['kind']}", d)

    # composition of the initial state (mass fractions of equal moles of species with equal weights)
    case_y = [0.5, 0.5, 0.0]
    ctx.explore(execute)


def run_real(scn, ctx):
    mc.fresh_dir()
    case = sampling.InputIgnition(kind=scn["kind"], temperature=scn["T"], pressure=scn["P"], end_time=scn["end"], equivalence_ratio=1.0,
                                  fuel={"H2": 1.0}, oxidizer={"O2": 1.0, "N2": 3.76})
    gas = ct.Solution("h2o2.yaml")
    gas.TP = scn["T"], scn["P"] * 101325.0
    gas.set_equivalence_ratio(1.0, "H2", "O2:1,N2:3.76")
    R = ct.IdealGasReactor if scn["kind"] == "constant volume" else ct.IdealGasConstPressureReactor
    r = R(gas, clone=True)
    net = ct.ReactorNet([r])
    net.rtol, net.atol = 1e-10, 1e-18
    t, T, t_prev, T_prev = 0.0, scn["T"], 0.0, scn["T"]
    while T < scn["T"] + 400.0 and t < 1.0:
        t_prev, T_prev = t, T
        t = net.step()
        T = r.T
    want = t_prev + (t - t_prev) * (scn["T"] + 400.0 - T_prev) / (T - T_prev)
    d = dict(scn, independent=want)
    ctx.evaluated(("real", str(scn)))
    ctx.state(("real", str(scn)))
    ctx.transition()
    ctx.trace()
    o = mc.outcome(lambda: sampling.sample("h2o2.yaml", [case]))
    c = mc.outcome(lambda: sampling.sample_metrics("h2o2.yaml", [case]))
    if scn["end"] and want > scn["end"]:
        ctx.check(o[0] == "exc" and c[0] == "ok" and c[1][0] == 0.0, "real no ignition", f"{str(o)[:100]} {str(c)[:100]}", d)
        return
    for x in (o, c):
        v = float(np.ravel(x[1][0])[0]) if x[0] == "ok" else None
        ctx.check(v is not None and want * 0.998 <= v <= want * 1.01, "real delay",
                  f"ignition delay {str(x)[:200]}; an independent integration crosses +400 K at {want}", d)
    ctx.check(abs(o[1][0][0] - c[1][0]) <= 1e-6 * want, "real delay", f"sampled {o[1][0][0]}, candidate {c[1][0]}", d)
    data = o[1][1]
    ctx.check(data.shape == (20, 12) and np.all(data[:, 0] > scn["T"]) and data[-1, 0] > 2000 and np.allclose(data[:, 2:].sum(axis=1), 1, atol=1e-6),
              "real data", f"sampled temperatures {list(data[:, 0])}", d)
