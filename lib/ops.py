"""Operations of pyMARS with fixed arguments, and what each of them gives.

Each operation runs in a clean working directory that always has the same path.
Two different models go by the same file name in different operations, so
anything remembered by file name shows.
"""
import copy
import json
import os

import numpy as np
import yaml

import env
import mc
import toys
from env import ct, driver, drg, drgep, pfa, reduce_model, sampling, sensitivity_analysis, soln2yaml, tools

R = toys.rxn
#: ties: A, B, C, D have the same coefficient; E, F hang on them
TIE = toys.toy(["T", "U", "A", "B", "C", "D", "E", "F"], [
    R("T => A", 0.05), R("T => B", 0.05), R("T => C", 0.05), R("T => D", 0.05), R("T => U", 0.8), R("U => T", 0.5), R("U => E", 0.25),
    R("U => F", 0.25), R("A => E", 0.5), R("B => E", 0.5), R("C => F", 0.5), R("D => F", 0.5), R("E => T", 1.0), R("F => T", 1.0)])
#: same species, other rates and order
VAR = toys.toy(["T", "U", "F", "E", "D", "C", "B", "A"], [
    R("T => A", 0.3), R("T => B", 0.02), R("T => C", 0.12), R("T => U", 0.56), R("U => T", 0.3), R("U => E", 0.06), R("U => F", 0.64),
    R("A => E", 0.5), R("B => E", 0.5), R("C => F", 0.2), R("D => F", 0.5), R("E => T", 1.0), R("F => T", 1.0), R("C => D", 0.7)])
MODELS = {"TIE": TIE, "VAR": VAR}
LIMIT = 4.5
#: deviation per removed species; equal ones are ties
WEIGHTS = {"TIE": dict(T=50, U=30, A=1.0, B=1.0, C=1.0, D=1.0, E=2.0, F=2.0),
           "VAR": dict(T=50, U=30, A=2.0, B=2.0, C=1.0, D=2.0, E=1.0, F=4.0)}


def write_model(model):
    """All models have the same name, and the same size too."""
    text = toys.yaml_text(MODELS[model])
    with open("m.yaml", "w") as f:
        f.write(text + "#" * (8000 - len(text)) + "\n")


def stub(model):
    w = WEIGHTS[model]
    full = set(MODELS[model]["species"])

    def value(kind, sp, idx, p):
        v = 8.0 * (1 + sum(w[s] for s in full - set(sp)) / 100.0)
        return v if kind != "psr" else [8.0, v, 8.0]

    return env.StubEnv(value, states=lambda kind, names, idx: [[1000.0 + idx, 101325.0, *(np.full(len(names), 1.0 / len(names)))]],
                       baseline=lambda kind, idx: 8.0 if kind != "psr" else [8.0, 8.0, 8.0])


def conds(n=1, psr=False, flame=False):
    a = [sampling.InputIgnition(kind=["constant volume", "constant pressure"][i % 2], temperature=1000.0 + i, pressure=1.0 + i,
                                reactants={"T": 1.0, "A": 0.5} if i else {"T": 1.0}) for i in range(n)]
    b = [sampling.InputPSR(temperature=300.0, pressure=1.0, fuel={"T": 1.0}, oxidizer={"U": 1.0, "A": 0.25}, equivalence_ratio=0.5)] if psr else []
    c = [sampling.InputLaminarFlame(temperature=310.0, pressure=1.0, reactants={"T": 2.0}, composition_type="mass")] if flame else []
    return a, b, c


def graph(f, model, **kw):
    """A graph-based reduction by its function."""
    def args():
        a, b, c = conds(2, psr=True)
        return ["m.yaml", a, b, c, LIMIT, ["T", "A"], ["U"]], dict(kw)

    def go(a, k):
        return f(*a, **k)

    return dict(model=model, args=args, go=go)


def main(model, **kw):
    def args():
        a, b, c = conds(1, flame=True)
        return ["m.yaml", LIMIT, a, b, c], dict(target_species=["T"], safe_species=["A", "U"], **kw)

    return dict(model=model, args=args, go=lambda a, k: driver.main(*a, **k))


def main_bare(model, **kw):
    """The optional arguments are left to their defaults."""
    return dict(model=model, args=lambda: (["m.yaml", LIMIT, conds(1)[0]], copy.deepcopy(kw)), go=lambda a, k: driver.main(*a, **k))


def sa(model, kind, limbo):
    def args():
        a, b, c = conds(1)
        k = dict(algorithm_type=kind)
        if limbo:
            k["species_limbo"] = list(limbo)
        return ["m.yaml", 0.5, a, b, c, LIMIT, ["T", "A"]], k

    return dict(model=model, args=args, go=lambda a, k: sensitivity_analysis.run_sa(*a, **k))


INPUT = {"model": "m.yaml", "targets": ["T", "B"], "retained-species": ["E"], "method": "DRGEP", "error": LIMIT, "sensitivity-analysis": True,
         "sensitivity-type": "greedy", "upper-threshold": 0.5,
         "autoignition-conditions": [{"kind": "constant volume", "temperature": 1000.0, "pressure": 1.0, "reactants": {"T": 1.0, "B": 1.0}},
                                     {"kind": "constant pressure", "temperature": 1100.0, "pressure": 2.0, "equivalence-ratio": 1.0,
                                      "fuel": {"T": 1.0}, "oxidizer": {"U": 1.0}}],
         "psr-conditions": [{"temperature": 300.0, "pressure": 1.0, "reactants": {"T": 1.0}}],
         "laminar-flame-conditions": [{"temperature": 300.0, "pressure": 1.0, "reactants": {"B": 1.0}}]}


def parsed(model, change):
    def args():
        d = copy.deepcopy(INPUT)
        d.update(copy.deepcopy(change))
        return [{k: v for k, v in d.items() if v is not None}], {}

    def go(a, k):
        return driver.parse_inputs(*a, **k)

    return dict(model=model, args=args, go=go)


def cli(model, change, *argv):
    def args():
        d = copy.deepcopy(INPUT)
        d.update(copy.deepcopy(change))
        return [["-i", "in.yaml", *argv]], {"content": d}

    def go(a, k):
        with open("in.yaml", "w") as f:
            yaml.safe_dump(k["content"], f)
        return driver.pymars(*a)

    return dict(model=model, args=args, go=go)


def real(f, **kw):
    """A reduction with real simulations."""
    def args():
        a = [sampling.InputIgnition(kind="constant volume", temperature=1300.0, pressure=1.0, reactants={"H2": 2.0, "O2": 1.0, "N2": 3.76})]
        return ["h2o2.yaml", a, [], [], 20.0, ["H2"], ["N2", "O2"]], dict(kw)

    return dict(model=None, args=args, go=lambda a, k: f(*a, **k), real=True)


def to_chemkin(name):
    return dict(model=None, args=lambda: ([ct.Solution(name), "c.inp"], {}), go=lambda a, k: env.soln2ck.write(*a, **k))


def from_chemkin():
    def go(a, k):
        env.soln2ck.write(ct.Solution("h2o2.yaml"), "c.inp")
        return tools.convert(*a, **k)

    return dict(model=None, args=lambda: (["c.inp", "c_thermo.dat", "c_transport.dat"], {}), go=go)


def compare(x, y):
    return dict(model=None, args=lambda: ([ct.Solution(x), ct.Solution(y)], {}), go=lambda a, k: tools.compare_models(*a, **k))


def trim(model):
    return dict(model=model, args=lambda: (["m.yaml", ["B", "D"], "trimmed.yaml"], {}), go=lambda a, k: reduce_model.trim(*a, **k))


def pieces(f, model, method):
    """The steps of a graph-based reduction, called one by one with lists and arrays of the caller."""
    def args():
        a, b, c = conds(1)
        rows = np.array([[1000.0, 101325.0, *np.full(8, 0.125)], [1500.0, 101325.0, *(np.arange(1, 9) / 36.0)]])
        return [a, b, c, rows, ["T", "A"], ["F"], np.array([8.0])], {}

    def go(args, k):
        a, b, c, rows, targets, safe, metrics = args
        gas = ct.Solution("m.yaml")
        names = gas.species_names
        make = {"DRG": drg.create_drg_matrix, "DRGEP": drgep.create_drgep_matrix, "PFA": pfa.create_pfa_matrix}[method]
        M = [make((r[0], r[1], r[2:]), gas) for r in rows]
        keep = [m.copy() for m in M], list(names)
        if method == "DRGEP":
            co = drgep.get_importance_coeffs(names, targets, M)
            kc = dict(co)
            r = drgep.reduce_drgep("m.yaml", safe, 0.06, co, a, metrics, b, c)
            assert kc == co, "importance coefficients changed"
        else:
            t = drg.trim_drg if method == "DRG" else pfa.trim_pfa
            [t(m, names, targets, 0.06) for m in M]
            r = (drg.reduce_drg if method == "DRG" else pfa.reduce_pfa)("m.yaml", targets, safe, 0.06, M, a, metrics, b, c, threshold_upper=0.3)
        assert all((x == y).all() for x, y in zip(keep[0], M)) and keep[1] == list(names), "matrices or names changed"
        return r

    return dict(model=model, args=args, go=go)


def metrics_of(model, which):
    def args():
        a, b, c = conds(2, psr=True, flame=True)
        return ["m.yaml", a, b, c], {}

    return dict(model=model, args=args, go=lambda a, k: getattr(sampling, which)(*a, **k))


def set_up(cls, conditions):
    """Initial states of simulations (of the same condition objects)."""
    def go(a, k):
        out = []
        for i, c in enumerate(a[0]):
            sim = getattr(env.simulation, cls)(i, c, "h2o2.yaml", path=".")
            sim.setup_case()
            out.append([sim.gas.T, sim.gas.P, sim.gas.X.tolist()])
        return out

    return dict(model=None, args=lambda: ([conditions()], {}), go=go, real=True)


BLENDS = [dict(equivalence_ratio=0.5, fuel={"H2": 2.0, "H": 0.5}, oxidizer={"O2": 2.0, "N2": 7.5}),
          dict(reactants={"H2": 4.0, "O2": 2.0, "AR": 9.0}), dict(reactants={"H2": 4.0, "O2": 2.0, "AR": 9.0}, composition_type="mass")]


def few_steps():
    def args():
        return ["h2o2.yaml", [sampling.InputIgnition(kind="constant pressure", temperature=1300.0, pressure=1.0, max_steps=8, end_time=1e-6,
                                                     reactants={"H2": 2.0, "O2": 1.0, "N2": 3.76})]], {}
    return dict(model=None, args=args, go=lambda a, k: sampling.sample(*a, **k), real=True)


OPS = {
    "drg": graph(drg.run_drg, "TIE"),
    "drg-var": graph(drg.run_drg, "VAR", threshold_upper=0.3),
    "drgep": graph(drgep.run_drgep, "TIE"),
    "drgep-var": graph(drgep.run_drgep, "VAR", threshold_upper=0.3),
    "pfa": graph(pfa.run_pfa, "TIE", threshold_upper=0.3),
    "pfa-var": graph(pfa.run_pfa, "VAR"),
    "drg-sa": main("TIE", method="DRG", run_sensitivity_analysis=True, upper_threshold=0.9, sensitivity_type="greedy"),
    "pfa-sa": main("TIE", method="PFA", run_sensitivity_analysis=True, upper_threshold=0.9, sensitivity_type="initial"),
    "drgep-sa": main("VAR", method="DRGEP", run_sensitivity_analysis=True, upper_threshold=0.9, min_flame_speed=0.25),
    "sa-bare": main_bare("TIE", run_sensitivity_analysis=True, safe_species=["T"]),
    "drg-bare": main_bare("VAR", method="DRG", target_species=["T"]),
    "sa-greedy": sa("VAR", "greedy", []),
    "sa-limbo": sa("TIE", "initial", ["F", "D", "C", "B", "A", "E"]),
    "parse": parsed("TIE", {}),
    "parse-bad": parsed("VAR", {"targets": ["T", "X"]}),
    "parse-few": parsed("VAR", {"retained-species": None, "psr-conditions": None, "laminar-flame-conditions": None, "sensitivity-analysis": None,
                                "sensitivity-type": None, "upper-threshold": None}),
    "cli": cli("TIE", {}, "--path", "."),
    "cli-drg": cli("VAR", {"method": "DRG", "sensitivity-type": "initial"}),
    "impossible": main("VAR", method="DRG", phase_name="none"),
    "unreachable": dict(model="TIE", args=lambda: (["m.yaml", conds(1)[0], [], [], 1e-9, ["T"], []], {}), go=lambda a, k: pfa.run_pfa(*a, **k)),
    "to-chemkin": to_chemkin("h2o2.yaml"),
    "from-chemkin": from_chemkin(),
    "compare": compare("h2o2.yaml", "h2o2.yaml"),
    "compare-not": compare("h2o2.yaml", "ohn.yaml"),
    "trim": trim("TIE"),
    "pieces-drg": pieces(None, "VAR", "DRG"),
    "pieces-drgep": pieces(None, "TIE", "DRGEP"),
    "pieces-pfa": pieces(None, "TIE", "PFA"),
    "sample": metrics_of("VAR", "sample"),
    "metrics": metrics_of("TIE", "sample_metrics"),
    "set-up-ignition": set_up("IgnitionSimulation", lambda: [sampling.InputIgnition(kind=k, temperature=900.0, pressure=2.0, **copy.deepcopy(b))
                                                             for k in ("constant volume", "constant pressure") for b in BLENDS]),
    "set-up-psr": set_up("PSRSimulation", lambda: [sampling.InputPSR(temperature=400.0, pressure=3.0, **copy.deepcopy(b)) for b in BLENDS]),
    "set-up-flame": set_up("FlameSimulation", lambda: [sampling.InputLaminarFlame(temperature=500.0, pressure=4.0, **copy.deepcopy(b)) for b in BLENDS]),
    "real-few": few_steps(),
    "real-drgep": real(drgep.run_drgep),
    "real-pfa": real(pfa.run_pfa),
}


# ------------------------------------------------------------------ what is compared
def gas_data(gas):
    return {"name": gas.name, "T": gas.T, "P": gas.P, "species": [s.input_data for s in gas.species()], "reactions": [r.input_data for r in gas.reactions()],
            "X": gas.X.tolist(), "transport": gas.transport_model, "factors": [gas.multiplier(i) for i in range(gas.n_reactions)]}


def plain(x):
    """The value of an argument or result as plain data."""
    if isinstance(x, ct.Solution):
        return gas_data(x)
    if isinstance(x, np.ndarray):
        return ["array", x.tolist()]
    if isinstance(x, np.generic):
        return x.item()
    if hasattr(x, "_asdict"):
        d = {k: plain(v) for k, v in x._asdict().items()}
        return [type(x).__name__, d]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return ["set", sorted(map(str, x))]
    if hasattr(x, "__dict__") and not callable(x):
        return [type(x).__name__, {k: plain(v) for k, v in vars(x).items()}]
    return x


def text(x):
    return json.dumps(mc.jsonable(plain(x)), sort_keys=True, default=str)


def files():
    out = {}
    for root, dirs, names in os.walk("."):
        for n in names:
            p = os.path.relpath(os.path.join(root, n), ".")
            if p == "info.log":
                continue
            with open(p, errors="replace") as f:
                lines = f.readlines()
            out[p] = "".join(l for l in lines if not l.startswith(("date:", "cantera-version:", "git-commit:")))
    return out


def execute(name, args=None):
    """Runs an operation in a clean directory; returns what it gave."""
    op = OPS[name]
    a, k = args if args is not None else op["args"]()
    before = text([a, k])
    cwd = mc.fresh_dir("h")
    if op["model"]:
        write_model(op["model"])
    e = stub(op["model"] or "TIE")
    import contextlib
    with contextlib.nullcontext() if op.get("real") else e:
        out = mc.outcome(lambda: op["go"](a, k), limit=120.0)
    moved = os.getcwd() != cwd
    os.chdir(cwd)
    F = files()
    res = {"outcome": out[0] if out[0] != "ok" else "ok", "value": json.loads(text(out[1:])),
           "files": F,
           "models": {f: text(ct.Solution(f)) for f in F if f.endswith((".yaml",)) and f not in ("in.yaml", "m.yaml")},
           "sequence": [[x["kind"], x["idx"], list(x["order"]), x["mode"], x["min_flame_speed"]] for x in e.log]}
    return {"result": res, "object": out[1] if out[0] == "ok" else None, "arguments": (before, text([a, k])), "moved": moved}


def outcome_only(res):
    """Without the order of evaluation: the result a user gets."""
    v = res["value"]
    if v and isinstance(v[0], list) and len(v[0]) == 2 and v[0][0] == "ReducedModel":
        v = [["ReducedModel", dict(v[0][1], limbo_species=sorted(v[0][1]["limbo_species"]))]]
    return {"outcome": res["outcome"], "value": v, "files": res["files"], "models": res["models"]}


def difference(a, b):
    """A short description of the first difference."""
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                for f in sorted(set(a[k]) | set(b[k])):
                    if a[k].get(f) != b[k].get(f):
                        return f"{k} {f}: {str(a[k].get(f))[:300]} / {str(b[k].get(f))[:300]}"
            return f"{k}: {str(a[k])[:400]} / {str(b[k])[:400]}"
    return ""
