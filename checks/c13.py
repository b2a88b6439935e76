import itertools
import os

import numpy as np

import env
import inject
import mc
import ref
from env import sampling, simulation

ID = "C13"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of short temperature profiles against the definition of the sampled points"
NOTE = ("All profiles of up to 6 points (thorough 7) over ten temperatures that lie on, between, below and above the fractions, directly, "
        "through flames and (in C12) through ignition runs; plus a grid of end points for roundoff of the last fraction.")
RULE = ("all temperature sequences with fixed end points and up to 4 (thorough 5) inner points from {below initial, initial, between and "
        "exactly on fractions, last before final, final, above final} x offsets of the temperature scale; every sampled row compared with "
        "the recorded point; a state is one profile, non-trivial if it has inner points")
ASSUMPTIONS = ["profiles rise overall", "where a point lies on a fraction to within roundoff, it or the next may be sampled"]
BOUNDS = "profiles of up to 7 points"

INNER = [-0.05, 0.0, 0.025, 0.05, 0.075, 0.25, 0.5, 0.975, 1.0, 1.1]


def scenarios(tier, seed):
    S = []
    n = 5 if tier == "thorough" else 4
    for T0, rise in ((1000.0, 2000.0), (298.15, 1953.7), (1234.5, 0.5)):
        for k in range(n):
            S.append(dict(part="profile", T0=T0, rise=rise, k=k, first=None))
        for f in range(len(INNER)):
            for g in range(len(INNER)):
                S.append(dict(part="profile", T0=T0, rise=rise, k=n, first=[f, g]))
    for T0 in (298.15, 300.0, 300.15, 850.3, 999.9, 1000.0, 1023.7, 1350.01):
        S.append(dict(part="ends", T0=T0, n=3000 if tier == "quick" else 60000))
    for k in range(1, 4 if tier == "thorough" else 3):
        S.append(dict(part="flame", k=k))
    return S


def run(scn, ctx):
    {"profile": run_profile, "ends": run_ends, "flame": run_flame}[scn["part"]](scn, ctx)


def judge(ctx, T, P, Y, got, what):
    allowed = ref.profile_samples(list(T))
    ok = np.shape(got) == (20, 2 + Y.shape[1])
    bad = None
    if ok:
        for k, (row, a) in enumerate(zip(got, allowed)):
            if not any(row[0] == T[i] and row[1] == P[i] and np.array_equal(row[2:], Y[i]) for i in a):
                bad = (k + 1, list(row), sorted(a))
                break
    ctx.check(ok and bad is None, what, f"profile {list(T)}: sample {bad and bad[0]} is {bad and bad[1] or np.shape(got)}, expected the state of "
              f"point {bad and bad[2]}", {"temperatures": list(T), "sampled": None if not ok else list(np.asarray(got)[:, 0])})


def fields(n):
    P = np.array([101325.0 * (1 + i) for i in range(n)])
    Y = np.array([[0.1 + 0.01 * i, 0.5 - 0.01 * i, 0.001 * i] for i in range(n)])
    return P, Y


def run_profile(scn, ctx):
    k = scn["k"]
    spaces = [INNER] * k
    if scn["first"]:
        spaces = [[INNER[i]] for i in scn["first"]] + [INNER] * (k - 2)
    P, Y = fields(k + 2)
    for inner in itertools.product(*spaces):
        T = np.array([scn["T0"]] + [scn["T0"] + x * scn["rise"] for x in inner] + [scn["T0"] + scn["rise"]])
        o = mc.outcome(lambda: simulation.IgnitionSimulation._sample_profile(T, P, Y))
        ctx.evaluated((scn["T0"], inner), nontrivial=k > 0)
        ctx.state((scn["T0"], inner))
        ctx.transition()
        ctx.check(o[0] == "ok", "failure", f"profile {list(T)}: {o}", {"temperatures": list(T)})
        judge(ctx, T, P, Y, o[1], "profile")
    ctx.sample({"T0": scn["T0"], "rise": scn["rise"], "inner_points": k})


def run_ends(scn, ctx):
    P, Y = fields(3)
    for i in range(scn["n"]):
        T1 = scn["T0"] + 400.0 + i * 2200.0 / scn["n"]
        T = np.array([scn["T0"], scn["T0"] + 1.0, T1])
        got = simulation.FlameSimulation._sample_profile(T, P, Y)
        ctx.evaluated((scn["T0"], T1))
        ctx.state((scn["T0"], T1))
        ctx.transition()
        judge(ctx, T, P, Y, got, "end points")


def run_flame(scn, ctx):
    mc.fresh_dir()
    n = scn["k"] + 2
    Y = np.array([[0.1 + 0.01 * i, 0.5 - 0.01 * i, 0.001 * i, *[0.01 * j for j in range(7)]] for i in range(n)])
    P = np.full(n, 2.0 * 101325.0)
    for inner in itertools.product(INNER, repeat=scn["k"]):
        T = np.array([300.0] + [300.0 + x * 1800.0 for x in inner] + [2100.0])
        for f in os.listdir("."):
            os.remove(f)
        case = sampling.InputLaminarFlame(temperature=300.0, pressure=2.0, reactants={"H2": 1.0, "O2": 1.0})
        with inject.Flames(lambda T0: 0.4, lambda: (T, Y.T)):
            o = mc.outcome(lambda: sampling.sample("h2o2.yaml", [], [], [case, case]))
        ctx.evaluated(("flame", inner))
        ctx.state(("flame", inner))
        ctx.transition()
        ctx.trace()
        ctx.check(o[0] == "ok" and np.shape(o[1][1]) == (40, 12), "failure", f"flame profile {list(T)}: {str(o)[:200]}", {"T": list(T)})
        Pf = np.full(n, o[1][1][0, 1])
        ctx.check(np.allclose(Pf, P, rtol=1e-12), "flame pressure", f"sampled pressure {Pf[0]}", {"T": list(T)})
        judge(ctx, T, Pf, Y, o[1][1][:20], "flame profile")
        judge(ctx, T, Pf, Y, o[1][1][20:], "flame profile")
