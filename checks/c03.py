import itertools

import numpy as np

import env
import mc
import ref
import toys
from env import ct

ID = "C03"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small mechanisms and states against the published definitions"
NOTE = ("Every mechanism built from the listed reactions with every combination of rate magnitudes, at several states, plus two real "
        "mechanisms; net rates of progress are Cantera's.")
RULE = ("all assignments of {absent, fast, slow} to the reactions of a pool with autocatalytic, third-body, reversible, catalytic and "
        "duplicate members x states (equal, skewed, zero species) x three methods; a state is one (mechanism, thermochemical state); "
        "trivial if all net rates are zero")
ASSUMPTIONS = ["Cantera's net rates of progress are right", "agreement to 1e-9 relative to the largest entry"]
BOUNDS = "mechanisms of 5 species and up to 8 of 11 reactions; h2o2 and gri30 at sampled states"

SPECIES = ["N", "T", "A", "B", "D"]  # N takes part in nothing but third bodies, D has two atoms
POOL = [
    [toys.rxn("T => A", 1.0)],
    [toys.rxn("A => B", 1.0)],
    [toys.rxn("B => T", 1.0)],
    [toys.rxn("2 T <=> A + B", 1e5)],
    [toys.rxn("A + B => 2 B", 1e5)],
    [toys.rxn("T + A => A + B", 1e5)],
    [toys.rxn("2 A <=> D", 1e5)],
    [toys.rxn("T + M => A + M", 1e5, type="three-body", efficiencies="{N: 2.0, D: 0.0}")],
    [toys.rxn("B => A", 0.5, duplicate="true"), toys.rxn("B => A", 0.7, duplicate="true")],
    [toys.rxn("T + N => B + N", 1e5)],
    [toys.rxn("D + T => 3 B", 1e5)],
]
STATES = [
    [0.2, 0.2, 0.2, 0.2, 0.2],
    [0.3, 0.5, 0.15, 0.05, 0.0],
    [0.0, 0.0, 0.3, 0.7, 0.0],
    [0.1, 0.0, 0.0, 0.6, 0.3],
    [1.0, 0.0, 0.0, 0.0, 0.0],
]


def scenarios(tier, seed):
    n = len(POOL)
    S = []
    # all subsets of the pool at full rate
    S += [dict(part="subsets", first=f) for f in range(16)]
    # all rate magnitudes over groups of reactions
    groups = list(itertools.combinations(range(n), 6))
    groups = groups if tier == "thorough" else groups[::23]
    for g in groups:
        for f in range(3):
            S.append(dict(part="rates", group=list(g), first=f))
    for mech in ("h2o2.yaml", "gri30.yaml"):
        for i in range(4):
            S.append(dict(part="real", mech=mech, i=i))
    return S


def mechanism(levels):
    """levels: reaction index -> factor"""
    rx = []
    for i, f in levels:
        for r in POOL[i]:
            rx.append(dict(r, k=r["k"] * f))
    t = toys.toy(SPECIES, rx)
    t["atoms"] = {"D": 2}
    return t


FNS = [("DRG", lambda *a: env.drg.create_drg_matrix(*a)), ("DRGEP", lambda *a: env.drgep.create_drgep_matrix(*a)),
       ("PFA", lambda *a: env.pfa.create_pfa_matrix(*a))]


def compare(ctx, gas, other, row, label):
    """gas is given to the code; other is an independent object for the reference."""
    T, P, Y = row[0], row[1], np.array(row[2:])
    other.TPY = T, P, Y
    q = other.net_rates_of_progress.tolist()
    nu_r, nu_p = other.reactant_stoich_coeffs.tolist(), other.product_stoich_coeffs.tolist()
    for name, fn in FNS:
        gas.TPX = 700.0, 2e5, np.ones(gas.n_species)  # the object's own state must not matter
        o = mc.outcome(lambda: fn((T, P, Y), gas), limit=60)
        d = lambda: dict(label=label, state=list(row)[:8], method=name, q=q[:20])  # noqa
        if o[0] != "ok":
            ctx.violation("matrix-fails", f"{name}: {o}", d())
        m = np.asarray(o[1], dtype=float)
        want = np.array(ref.MATRIX[name](nu_r, nu_p, q))
        ctx.check(m.shape == want.shape, "shape", f"{name}: shape {m.shape}", d)
        ctx.check(bool(np.all(np.isfinite(m)) and np.all(m >= 0)), "not-finite", f"{name}: not finite and non-negative", d)
        ctx.check(bool(np.all(np.diag(m) == 0)), "diagonal", f"{name}: diagonal is not zero", d)
        bad = np.argwhere(np.abs(m - want) > 1e-9 * max(1.0, want.max()))
        if len(bad):
            i, j = bad[0]
            names = other.species_names
            ctx.violation("coefficient", f"{name}: coefficient {names[i]} -> {names[j]} is {m[i, j]!r}, definition gives {want[i, j]!r}",
                          d())
        ctx.transition()
    key = (label, tuple(row[:6]))
    ctx.state(key)
    ctx.evaluated(key, nontrivial=any(q))
    ctx.trace()


def toy_case(ctx, levels):
    t = mechanism(levels)
    mc.fresh_dir()
    text = toys.yaml_text(t)
    gas, other = ct.Solution(yaml=text), ct.Solution(yaml=text)
    for y in STATES:
        compare(ctx, gas, other, [1000.0, 101325.0, *y], str(levels))


def run(scn, ctx):
    if scn["part"] == "subsets":
        for rest in itertools.product((0, 1), repeat=len(POOL) - 4):
            bits = [(scn["first"] >> k) & 1 for k in range(4)] + list(rest)
            toy_case(ctx, [(i, 1.0) for i, b in enumerate(bits) if b])
            if ctx.out_of_time():
                return
    elif scn["part"] == "rates":
        for rest in itertools.product((0.0, 1.0, 0.01), repeat=5):
            f = [(0.0, 1.0, 0.01)[scn["first"]], *rest]
            toy_case(ctx, [(i, x) for i, x in zip(scn["group"], f) if x])
            if ctx.out_of_time():
                return
        ctx.sample({"reactions": [POOL[i][0]["eq"] for i in scn["group"]], "factors": f})
    else:
        gas, other = ct.Solution(scn["mech"]), ct.Solution(scn["mech"])
        comp = "H2:2,O2:1,AR:4" if scn["mech"] == "h2o2.yaml" else "CH4:1,O2:2,N2:7.52"
        g = ct.Solution(scn["mech"])
        g.TPX = 1300.0 + 100 * scn["i"], ct.one_atm * (1 + 9 * (scn["i"] % 2)), comp
        if scn["i"] == 0:
            pass  # the unreacted mixture: most rates are zero
        elif scn["i"] == 3:
            g.equilibrate("HP")
        else:
            r = ct.IdealGasReactor(g, clone=False)
            net = ct.ReactorNet([r])
            for _ in range(150 * scn["i"]):
                net.step()
        compare(ctx, gas, other, [g.T, g.P, *g.Y], (scn["mech"], scn["i"]))
        ctx.sample({"mechanism": scn["mech"], "T": g.T, "P": g.P})
