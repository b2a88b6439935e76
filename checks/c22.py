"""C22: simulations start from exactly the specified initial state."""
import itertools
import os

import numpy as np

import env
import mc
import toys
from env import ct, reduce_model, sampling, simulation, soln2yaml

ID = "C22"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the lattice of initial conditions on the real simulation classes, observed where the integration, flame or tracing starts"
NOTE = ("The state is read from the reactor, flame or stirred reactor at the moment its solution is started; expected compositions are computed from the "
        "atoms and weights of the species. Constant volume and pressure are observed along real runs.")
RULE = ("temperature x pressure x composition (equivalence ratio x fuel blend x oxidizer blend; reactants by mole and mass, and with all defaults) x kind of "
        "simulation x model (original, three candidates, two phases of one file) x way of use (sampling, candidate metric, metric calculated again); "
        "kind of reactor x composition in real runs; a case is one started simulation")
ASSUMPTIONS = ["Cantera sets the state it is given"]
BOUNDS = "3 temperatures, 3 pressures, 40 compositions, 4 simulation kinds, 5 models; whole numbers and fractions"

NAMES = ["H2", "H", "O", "O2", "OH", "H2O", "HO2", "CH4", "CH3", "CO", "CO2", "CH2O", "CH3OH", "N2", "AR", "HCN", "N2O"]
REMOVED = {"full": [], "one": ["HCN"], "some": ["H", "CH3", "N2O", "CO2"], "bare": ["H", "O", "OH", "HO2", "CH3", "CO2", "HCN", "N2O", "CH2O"]}
PHIS = [0.25, 1, 2.75]
FUELS = [{"H2": 1}, {"CH4": 1.0, "H2": 3.0}, {"CH3OH": 2.0, "CO": 0.5}]
OXIDIZERS = [{"O2": 1.0}, {"O2": 1, "N2": 3.76}, {"AR": 2.0, "O2": 0.4, "H2O": 0.125}]
REACTANTS = [{"H2": 1}, {"H2": 2, "O2": 1, "N2": 3.76}, {"CH4": 0.05518632, "O2": 0.22014867, "N2": 0.724665}, {"AR": 97.0, "CH3OH": 1e-3, "O2": 2.5, "H2O": 1e-12}]
TEMPERATURES = [300.5, 1000, 1725.0]
PRESSURES = [0.125, 1, 12.5]
KINDS = ["constant volume", "constant pressure", "psr", "flame"]


class Started(BaseException):
    """The simulation has started: there is nothing more to see."""


def compositions():
    out = [dict(equivalence_ratio=p, fuel=f, oxidizer=o) for p, f, o in itertools.product(PHIS, FUELS, OXIDIZERS)]
    out += [dict(reactants=r, composition_type=t) for r in REACTANTS for t in ("mole", "mass")]
    out += [dict(reactants=REACTANTS[1])]
    # the kind of amounts concerns reactants only
    out += [dict(equivalence_ratio=p, fuel=FUELS[1], oxidizer=OXIDIZERS[1], composition_type="mass") for p in PHIS]
    # a mixture given both ways: the equivalence ratio counts
    out += [dict(equivalence_ratio=0.5, fuel=FUELS[0], oxidizer=OXIDIZERS[1], reactants=REACTANTS[2])]
    return out


def expected(c, comp, weight):
    """Mole fractions from atoms and weights."""
    if c.get("equivalence_ratio"):
        def norm(m):
            t = sum(m.values())
            return {k: v / t for k, v in m.items()}

        def demand(m):
            """Moles of O needed to burn to CO2 and H2O."""
            return sum(x * (2 * comp[s].get("C", 0) + 0.5 * comp[s].get("H", 0) - comp[s].get("O", 0)) for s, x in m.items())

        f, o = norm(c["fuel"]), norm(c["oxidizer"])
        nf = c["equivalence_ratio"] * -demand(o)
        no = demand(f)
        n = {}
        for m, k in ((f, nf), (o, no)):
            for s, x in m.items():
                n[s] = n.get(s, 0.0) + k * x
    else:
        n = dict(c["reactants"])
        if c.get("composition_type") == "mass":
            n = {s: v / weight[s] for s, v in n.items()}
    t = sum(n.values())
    return {s: v / t for s, v in n.items()}


def prepare(base):
    d = os.path.join(base, "models")
    os.makedirs(d)
    gri = ct.Solution("gri30.yaml")
    sp = [gri.species(s) for s in NAMES]
    rx = [r for r in gri.reactions() if {*r.reactants, *r.products} <= set(NAMES) and not (r.third_body and r.third_body.efficiencies)]
    full = ct.Solution(thermo="ideal-gas", kinetics="gas", transport_model="mixture-averaged", species=sp, reactions=rx, name="gas")
    full.TPX = 777.0, 3e5, {"N2O": 1.0}
    full.write_yaml(os.path.join(d, "full.yaml"))
    cwd = os.getcwd()
    os.chdir(d)
    for n, gone in REMOVED.items():
        if gone:
            soln2yaml.write(reduce_model.trim("full.yaml", gone, n + ".yaml", phase_name="gas"), n + ".yaml")
    # two phases in one file
    with open("full.yaml") as f:
        import yaml
        doc = yaml.safe_load(f)
    p = dict(doc["phases"][0])
    p.update(name="small", species=[s for s in NAMES if s not in REMOVED["some"]], kinetics="gas", reactions="declared-species")
    p.pop("explicit-third-body-duplicates", None)
    p["state"] = {"T": 555.0, "P": 2e5, "X": {"N2": 1.0}}
    doc["phases"].append(p)
    with open("two.yaml", "w") as f:
        yaml.safe_dump(doc, f, sort_keys=False)
    os.chdir(cwd)


def scenarios(tier, seed):
    S = []
    n = len(compositions())
    models = [("full", ""), ("one", ""), ("some", ""), ("bare", ""), ("two", "small"), ("two", "gas")]
    for (model, phase), kind in itertools.product(models, KINDS):
        S.append(dict(part="lattice", model=model, phase=phase, kind=kind))
    for kind in KINDS[:2]:
        for i in range(n):
            S.append(dict(part="reactor", kind=kind, composition=i, states=[(1725.0, 0.125), (1400, 1), (1400.0, 12.5), (1725, 2.0)]))
    S.append(dict(part="lists"))
    return S


def props(kind, T, P, c):
    c = {k: dict(v) if isinstance(v, dict) else v for k, v in c.items()}
    if kind == "psr":
        return sampling.InputPSR(temperature=T, pressure=P, **c)
    if kind == "flame":
        return sampling.InputLaminarFlame(temperature=T, pressure=P, width=0.0375, **c)
    return sampling.InputIgnition(kind=kind, temperature=T, pressure=P, **c)


class Watch:
    """Records the state from which solutions start."""

    def __init__(self, stop=True):
        self.seen = []
        self.stop = stop
        self.steps = []

    def put(self, kind, gas, **kw):
        self.seen.append(dict(kind=kind, T=gas.T, P=gas.P, X=dict(zip(gas.species_names, gas.X.tolist())), names=list(gas.species_names), **kw))
        if self.stop:
            raise Started

    def __enter__(self):
        w = self
        net, flame, trace = self.saved = ct.ReactorNet, ct.FreeFlame, simulation.trace_extinction_curve

        class Net(net):
            def __init__(self, reactors=(), **kw):
                super().__init__(reactors, **kw)
                self._r = list(reactors)
                self._new = True

            def _first(self):
                if self._new:
                    self._new = False
                    r = self._r[0]
                    if len(self._r) != 1:
                        raise RuntimeError("several reactors")
                    w.put("reactor", r.phase, time=self.time, pressure="ConstPressure" in type(r).__name__, energy=getattr(r, "energy_enabled", True))

            def step(self):
                self._first()
                t = super().step()
                p = self._r[0].phase
                w.steps.append((t, p.T, p.P, p.density))
                return t

            def advance(self, *a, **kw):
                self._first()
                return super().advance(*a, **kw)

        class Flame(flame):
            def solve(self, *a, **kw):
                g = self.gas
                g.TPX = self.inlet.T, self.P, self.inlet.X
                w.put("flame", g, width=float(self.grid[-1] - self.grid[0]))
                return super().solve(*a, **kw)

        def traced(gas, *a, **kw):
            w.put("psr", gas)
            gas.TPX = 2222.0, 5e5, np.ones(gas.n_species)  # scratch space of the tracer
            raise RuntimeError("chosen")

        ct.ReactorNet, ct.FreeFlame, simulation.trace_extinction_curve = Net, Flame, traced
        return self

    def __exit__(self, *exc):
        ct.ReactorNet, ct.FreeFlame, simulation.trace_extinction_curve = self.saved
        return False


def simulate(kind, p, model, phase, use):
    cls = {"psr": simulation.PSRSimulation, "flame": simulation.FlameSimulation}.get(kind, simulation.IgnitionSimulation)
    sim = cls(0, p, model, phase_name=phase)
    with Watch() as w:
        sim.setup_case()
        for again in range(2 if use == "again" else 1):
            w.stop = not (use == "again" and not again)
            try:
                if use == "sample":
                    sim.run_case()
                elif use == "delay only":
                    sim.run_case(stop_at_ignition=True)
                else:
                    sim.calculate()
            except Started:
                pass
    return w.seen


def judge(ctx, where, kind, c, T, P, names, seen, atoms, weight):
    d = {"condition": c, "T": T, "P": P, "seen": seen}
    ctx.check(len(seen) == 1 or (len(seen) == 2 and kind == "psr"), "not started", f"{where}: {len(seen)} simulations were started", d)
    for s in seen:
        want = expected(c, atoms, weight)
        ctx.check(abs(s["T"] - T) <= 1e-9 * T, "temperature", f"{where}: starts at {s['T']} K, not {T}", d)
        ctx.check(abs(s["P"] - P * 101325.0) <= 1e-9 * P * 101325.0, "pressure", f"{where}: starts at {s['P']} Pa, not {P} atm", d)
        ctx.check(s["names"] == names, "model", f"{where}: simulates {s['names']}, not {names}", d)
        bad = {n: (x, want.get(n, 0.0)) for n, x in s["X"].items() if abs(x - want.get(n, 0.0)) > 1e-9 * max(want.get(n, 0.0), 1e-6)}
        ctx.check(not bad, "composition", f"{where}: mole fractions (found, expected) {bad}", d)
        ctx.check(set(want) <= set(s["X"]), "composition", f"{where}: {set(want) - set(s['X'])} missing", d)
        if s["kind"] == "reactor":
            ctx.check(kind in KINDS[:2] and s["time"] == 0.0 and s["energy"], "reactor", f"{where}: {s}", d)
        if s["kind"] == "flame":
            ctx.check(abs(s["width"] - 0.0375) < 1e-12, "width", f"{where}: domain of {s['width']} m", d)


def model_names(model, phase):
    gone = REMOVED["some"] if phase == "small" else REMOVED.get(model, [])
    return [s for s in NAMES if s not in gone]


def tables():
    gas = ct.Solution("gri30.yaml")
    return ({s: dict(gas.species(s).composition) for s in NAMES}, {s: gas.molecular_weights[gas.species_index(s)] for s in NAMES})


def lattice_part(scn, ctx):
    models = os.path.join(os.path.dirname(mc.scratch()), "models")
    mc.fresh_dir()
    atoms, weight = tables()
    kind, phase = scn["kind"], scn["phase"]
    names = model_names(scn["model"], phase)
    uses = {"psr": ["sample", "metric", "again"], "flame": ["sample", "metric"]}.get(kind, ["sample", "metric", "delay only"])
    for c in compositions():
        for T, P in itertools.product(TEMPERATURES, PRESSURES):
            for use in uses:
                if ctx.out_of_time():
                    return
                p = props(kind, T, P, c)
                out = mc.outcome(lambda: simulate(kind, p, os.path.join(models, scn["model"] + ".yaml"), phase, use), limit=60.0)
                where = f"{kind} simulation ({use}) of model {scn['model']} {phase} at {T} K, {P} atm, {c}"
                ctx.evaluated((scn["model"], phase, kind, str(c), T, P, use))
                ctx.transition()
                ctx.trace()
                # every species of the composition is in every one of these models
                ctx.check(out[0] == "ok", "set-up fails", f"{where}: {out}", {"condition": c, "outcome": out})
                if out[0] == "ok":
                    judge(ctx, where, kind, c, T, P, names, out[1], atoms, weight)
                    ctx.state((kind, scn["model"], phase, str(c)))
    ctx.sample({"scenario": scn, "compositions": len(compositions()), "uses": uses})


def reactor_part(scn, ctx):
    """Real runs: what stays constant."""
    models = os.path.join(os.path.dirname(mc.scratch()), "models")
    mc.fresh_dir()
    c = compositions()[scn["composition"]]
    for T, P in scn["states"]:
        one_reactor(scn, ctx, models, c, T, P)


def one_reactor(scn, ctx, models, c, T, P):
    p = props(scn["kind"], T, P, c)._replace(max_steps=1500)
    sim = simulation.IgnitionSimulation(0, p, os.path.join(models, "full.yaml"), phase_name="gas")
    with Watch(stop=False) as w:
        sim.setup_case()
        mc.outcome(sim.run_case, limit=60.0)
    steps = np.array(w.steps)
    ctx.evaluated((scn["kind"], scn["composition"], T, P))
    ctx.transition(len(steps))
    ctx.trace()
    ctx.check(len(steps) >= 1, "not started", f"{scn} {T} {P}: {len(steps)} steps", {})
    pr, rho = steps[:, 2], steps[:, 3]
    moved = lambda x: float(np.ptp(x) / x[0])
    d = {"condition": c, "pressures": pr[::10].tolist(), "densities": rho[::10].tolist(), "temperatures": steps[::10, 1].tolist()}
    const, other = (rho, pr) if scn["kind"] == "constant volume" else (pr, rho)
    ctx.check(moved(const) < 1e-6, "kind of reactor", f"{scn['kind']} run from {T} K, {P} atm, {c}: density varies by {moved(rho):.2e}, pressure by {moved(pr):.2e}", d)
    if np.ptp(steps[:, 1]) > 100:
        ctx.count("runs with heat release")
        ctx.check(moved(other) > 1e-2, "kind of reactor", f"{scn['kind']} run from {T} K, {P} atm, {c}: density varies by {moved(rho):.2e}, pressure by {moved(pr):.2e}", d)
    ctx.state(("reactor", scn["kind"], len(steps)))


def lists_part(scn, ctx):
    """Through the sampling functions: each condition of each list, in its own state."""
    models = os.path.join(os.path.dirname(mc.scratch()), "models")
    atoms, weight = tables()
    comps = compositions()
    pick = [comps[i] for i in (0, 10, 29, 30, 35)]
    for kind, order in itertools.product(KINDS, itertools.permutations(range(3))):
        conds = [(TEMPERATURES[i], PRESSURES[-1 - i], pick[i + (order[0])]) for i in order]
        for func in ("sample", "sample_metrics"):
            mc.fresh_dir()
            P = [props(kind, *x) for x in conds]
            lists = [P if kind in KINDS[:2] else [], P if kind == "psr" else [], P if kind == "flame" else []]
            with Watch(stop=False) as w:
                real = w.put

                def put(k, gas, **kw):
                    real(k, gas, **kw)
                    if k == "reactor":
                        raise ct.CanteraError("chosen")
                    if k == "flame":
                        raise ct.CanteraError("chosen")

                w.put = put
                out = mc.outcome(lambda: getattr(sampling, func)(os.path.join(models, "full.yaml"), *lists, phase_name="gas"), limit=60.0)
            ctx.evaluated((kind, order, func))
            ctx.transition(len(w.seen))
            ctx.trace()
            # the first failing original ends the sampling
            ctx.check(1 <= len(w.seen) <= 3, "not started", f"{func} of {kind}: {len(w.seen)} simulations, {out}", {"outcome": out})
            for s, (T, pr, c) in zip(w.seen, conds):
                judge(ctx, f"{func} of {kind} conditions {order}", kind, c, T, pr, NAMES, [s], atoms, weight)


def run(scn, ctx):
    {"lattice": lattice_part, "reactor": reactor_part, "lists": lists_part}[scn["part"]](scn, ctx)
