import itertools
import os

import numpy as np

import env
import inject
import mc
from env import ct, sampling

ID = "C11"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive fault injection: every step of every condition of the real simulations fails, in both paths"
NOTE = ("Real ignition and PSR simulations (Cantera's h2o2 model) with a failure injected below pyMARS at every integration step / "
        "corrector call of every condition; flames are real set-ups with an injected solver result.")
RULE = ("ignition: {failure at step k, for all k up to the end} x condition x {sampling, candidate}, all step limits around ignition and "
        "steady state, mixtures that do not ignite; PSR: {solver error, no convergence} from corrector call k on, for all k; flames: "
        "all assignments of {solver failure, speeds below / at / just above the minimum, ordinary} to 2-3 conditions x minima; a case "
        "is one failure placement, trivial if it is never reached")
ASSUMPTIONS = ["failures appear as Cantera errors raised by a step, a flame solution or an evaluation, or as a corrector without convergence",
               "a failure after the 400 K rise has been seen is not required to change a candidate's metric"]
BOUNDS = "two ignition conditions (up to ~900 steps each), two PSR inlets (~45 corrector calls each), three flames"

H2 = dict(equivalence_ratio=1.0, fuel={"H2": 1.0}, oxidizer={"O2": 1.0, "N2": 3.76})
MODEL = "h2o2.yaml"


def ign_conds(which):
    a = dict(kind="constant volume", temperature=1200.0, pressure=1.0, **H2)
    b = dict(kind="constant pressure", temperature=1400.0, pressure=2.0, end_time=2e-4, **H2)
    c = dict(kind="constant pressure", temperature=1100.0, pressure=5.0, **H2)
    d = dict(kind="constant volume", temperature=1300.0, pressure=1.0, end_time=4e-4, **H2)
    return [sampling.InputIgnition(**x) for x in {"ab": [a, b], "cd": [c, d], "dca": [d, c, a]}[which]]


def psr_conds():
    return [sampling.InputPSR(temperature=300.0, pressure=1.0, **H2), sampling.InputPSR(temperature=600.0, pressure=5.0, **H2)]


def flame_conds(n):
    return [sampling.InputLaminarFlame(temperature=300.0 + 50 * i, pressure=1.0, **H2) for i in range(n)]


def scenarios(tier, seed):
    S = []
    sets = ["ab", "dca"] if tier == "thorough" else ["ab", "cd"]
    stride = 1
    for which in sets:
        for i in range(len(ign_conds(which))):
            for part in range(8):
                S.append(dict(part="ign", which=which, cond=i, residue=part, stride=8 * stride))
    for which in ["ab", "dca"]:
        for i in range(len(ign_conds(which))):
            S.append(dict(part="limit", which=which, cond=i, thorough=tier == "thorough"))
    S.append(dict(part="noign"))
    for cond in range(2):
        for kind in ("raise", "noconv"):
            for part in range(4):
                S.append(dict(part="psr", cond=cond, kind=kind, residue=part, stride=4))
    S = [dict(part="noext", case=b, pos=pos) for b in range(5) for pos in ((None, 0, 1) if b in (0, 3) or tier == "thorough" else (None,))] + S
    for m in (None, 0.0, 0.01, 0.3):
        for n in ((1, 2, 3) if tier == "thorough" else (1, 2)):
            S.append(dict(part="flame", min=m, n=n))
    S.append(dict(part="mixed"))
    return S


def run(scn, ctx):
    globals()["run_" + scn["part"]](scn, ctx)


def samples_left(kind):
    key = {"ign": "ignition", "psr": "psr", "flame": "laminarflame"}[kind]
    return sorted(f for f in os.listdir(".") if key in f or f.endswith((".dat", ".txt", ".tmp")))


def do_sample(kind, C, inj, model=MODEL, **kw):
    mc.fresh_dir()
    a = {"ign": (C, [], []), "psr": ([], C, []), "flame": ([], [], C)}[kind]
    with inj:
        return mc.outcome(lambda: sampling.sample(model, *a, **kw), limit=60)


def do_metric(kind, C, inj, model=MODEL, **kw):
    mc.fresh_dir()
    a = {"ign": (C, [], []), "psr": ([], C, []), "flame": ([], [], C)}[kind]
    with inj:
        return mc.outcome(lambda: sampling.sample_metrics(model, *a, **kw), limit=60)


def must_fail(ctx, kind, o, what, d):
    ctx.check(o[0] == "exc", "baseline failure not reported", f"{what}: generating the samples ended with {str(o)[:200]} instead of an error", d)
    left = samples_left(kind)
    ctx.check(not left, "samples of a failed run", f"{what}: saved samples are left: {left}", d)


def must_be(ctx, o, want, what, d):
    ok = o[0] == "ok" and np.shape(o[1]) == np.shape(want) and np.array_equal(o[1], want)
    ctx.check(ok, "candidate metric", f"{what}: candidate metrics {str(o)[:200]}, expected {list(want)}", d)


def clean(kind, C, inj, **kw):
    s = do_sample(kind, C, inj, **kw)
    m = do_metric(kind, C, inj, **kw)
    return s, m


def run_ign(scn, ctx):
    C = ign_conds(scn["which"])
    i = scn["cond"]
    T0 = C[i].temperature
    inj = inject.Integrator()
    ref = do_sample("ign", C, inj)
    total = inj.steps[T0]
    ctx.check(ref[0] == "ok", "clean run", f"sampling without failures ended in {str(ref)[:300]}", scn)
    inj = inject.Integrator()
    base = do_metric("ign", C, inj)
    ctx.check(base[0] == "ok" and np.allclose(base[1], ref[1][0], rtol=1e-6, atol=0), "clean run",
              f"metrics {str(base)[:200]} evaluated for the original model differ from the sampled ones {ref[1][0]}", scn)
    ign = inj.ignited[T0]
    for k in range(1 + scn["residue"], total + 2, scn["stride"]):
        d = {"conditions": scn["which"], "failing": i, "step": k}
        inj = inject.Integrator(lambda T, n: T == T0 and n == k)
        o = do_sample("ign", C, inj)
        fired = T0 in inj.fired
        ctx.evaluated(("ign", scn["which"], i, k, "sample"), nontrivial=fired)
        ctx.state(("ign", scn["which"], i, k, "sample"))
        ctx.transition(k)
        if fired:
            must_fail(ctx, "ign", o, f"integrator failure at step {k} of condition {i}", d)
        else:
            ctx.check(o[0] == "ok" and np.array_equal(o[1][0], ref[1][0]), "clean run", f"without failure: {str(o)[:200]}", d)
        if k > ign + 10:
            continue
        inj = inject.Integrator(lambda T, n: T == T0 and n == k)
        o = do_metric("ign", C, inj)
        fired = T0 in inj.fired and k <= ign
        ctx.evaluated(("ign", scn["which"], i, k, "metric"), nontrivial=fired)
        ctx.state(("ign", scn["which"], i, k, "metric"))
        if fired or T0 not in inj.fired:
            want = np.array(base[1])
            if fired:
                want[i] = 0.0
            must_be(ctx, o, want, f"integrator failure at step {k} of condition {i}", d)
    ctx.sample({"conditions": scn["which"], "failing": i, "steps": total, "ignition_step": ign})


def run_limit(scn, ctx):
    """Step limits around ignition and around steady state."""
    C = [c._replace(end_time=0.0) for c in ign_conds(scn["which"])]
    i = scn["cond"]
    T0 = C[i].temperature
    inj = inject.Integrator()
    ref = do_sample("ign", C, inj)
    total, ign = inj.steps[T0], inj.ignited[T0]
    inj = inject.Integrator()
    base = do_metric("ign", C, inj)
    ctx.check(ref[0] == base[0] == "ok", "clean run", f"{str(ref)[:200]} {str(base)[:200]}", scn)
    ignm = inj.ignited[T0]
    near = range(-12, 13) if scn["thorough"] else range(-4, 5)
    for k in sorted({1, 2, 3, 10, 100} | {ign + j for j in near} | {ignm + j for j in near} | {total + j for j in near}):
        D = list(C)
        D[i] = C[i]._replace(max_steps=k)
        d = {"conditions": scn["which"], "limited": i, "max_steps": k, "steps": total, "ignition_step": ign}
        o = do_sample("ign", D, inject.Integrator())
        ctx.evaluated(("limit", scn["which"], i, k))
        ctx.state(("limit", scn["which"], i, k))
        ctx.transition(k)
        if k < total:
            must_fail(ctx, "ign", o, f"step limit {k} of condition {i}", d)
        else:
            ctx.check(o[0] == "ok" and np.array_equal(o[1][0], ref[1][0]), "step limit", f"{k} steps suffice: {str(o)[:200]}", d)
        o = do_metric("ign", D, inject.Integrator())
        want = np.array(base[1])
        if k < ignm:
            want[i] = 0.0
        must_be(ctx, o, want, f"step limit {k} of condition {i}", d)
    ctx.sample({"steps": total, "ignition_step": ign})


def run_noign(scn, ctx):
    """Mixtures that do not ignite, at every position among up to three conditions."""
    good = ign_conds("ab")[0]
    bad = [sampling.InputIgnition(kind="constant volume", temperature=400.0, pressure=1.0, end_time=1e-3, **H2),
           sampling.InputIgnition(kind="constant pressure", temperature=450.0, pressure=1.0, max_steps=30, **H2),
           sampling.InputIgnition(kind="constant volume", temperature=1210.0, pressure=1.0, reactants={"N2": 1.0}, max_steps=200),
           sampling.InputIgnition(kind="constant volume", temperature=1220.0, pressure=1.0, reactants={"N2": 1.0}, end_time=1e-4),
           sampling.InputIgnition(kind="constant volume", temperature=1230.0, pressure=1.0, end_time=1e-6, **H2)]
    inj = inject.Integrator()
    m0 = float(do_metric("ign", [good], inj)[1][0])
    for n in (1, 2, 3):
        for pat in itertools.product(range(len(bad) + 1), repeat=n):
            if n == 3 and sum(p > 0 for p in pat) > 1:
                continue
            C = [good._replace(temperature=1200.0) if not p else bad[p - 1] for p in pat]
            ctx.evaluated(("noign", pat), nontrivial=any(pat))
            ctx.state(("noign", pat))
            ctx.transition()
            d = {"pattern": pat}
            o = do_sample("ign", C, inject.Integrator())
            if any(pat):
                must_fail(ctx, "ign", o, f"conditions {pat} (0 ignites)", d)
            must_be(ctx, do_metric("ign", C, inject.Integrator()), np.array([0.0 if p else m0 for p in pat]), f"conditions {pat}", d)


def run_psr(scn, ctx):
    C = psr_conds()
    i = scn["cond"]
    T0 = C[i].temperature
    inj = inject.RootFinder()
    ref = do_sample("psr", C, inj)
    total = inj.calls[T0]
    ctx.check(ref[0] == "ok" and total > 3, "clean run", f"sampling without failures ended in {str(ref)[:300]}", scn)
    inj = inject.RootFinder()
    base = do_metric("psr", C, inj)
    ctx.check(base[0] == "ok" and np.allclose(base[1], ref[1][0], rtol=1e-9), "clean run", f"{base} / {ref[1][0]}", scn)
    for k in range(1 + scn["residue"], total + 2, scn["stride"]):
        d = {"failing": i, "call": k, "kind": scn["kind"]}
        fault = lambda T, n: scn["kind"] if T == T0 and n >= k else None  # noqa
        inj = inject.RootFinder(fault)
        o = do_sample("psr", C, inj)
        fired = T0 in inj.fired
        ctx.evaluated(("psr", i, scn["kind"], k), nontrivial=fired)
        ctx.state(("psr", i, scn["kind"], k))
        ctx.transition()
        if fired:
            must_fail(ctx, "psr", o, f"{scn['kind']} from corrector {k} of condition {i} on", d)
        inj = inject.RootFinder(fault)
        o = do_metric("psr", C, inj)
        want = np.array(base[1])
        if T0 in inj.fired:
            want[3 * i: 3 * i + 3] = 0.0
        ok = o[0] == "ok" and np.shape(o[1]) == np.shape(want) and np.allclose(o[1], want, rtol=1e-9, atol=0)
        ctx.check(ok, "candidate metric", f"{scn['kind']} from corrector {k} of condition {i} on: {str(o)[:200]}, expected {list(want)}", d)
    ctx.sample({"failing": i, "kind": scn["kind"], "corrector_calls": total})


def run_noext(scn, ctx):
    """Inlets without a burning branch."""
    bad = [sampling.InputPSR(temperature=300.0, pressure=1.0, reactants={"N2": 1.0}),
           sampling.InputPSR(temperature=400.0, pressure=1.0, reactants={"N2": 0.5, "AR": 0.5}),
           sampling.InputPSR(temperature=310.0, pressure=1.0, reactants={"H2O": 1.0}),
           sampling.InputPSR(temperature=300.0, pressure=1.0, reactants={"H2": 0.02, "O2": 0.01, "N2": 0.97}),
           sampling.InputPSR(temperature=350.0, pressure=1.0, reactants={"H2": 1.0})]
    good = psr_conds()[1]
    m0 = do_metric("psr", [good], inject.RootFinder())[1]
    for pos in (scn["pos"],):
        for b, case in [(scn["case"], bad[scn["case"]])]:
            C = [case] if pos is None else [good, case] if pos else [case, good]
            d = {"position": pos, "case": b}
            ctx.evaluated(("noext", pos, b))
            ctx.state(("noext", pos, b))
            ctx.transition()
            o = do_sample("psr", C, inject.RootFinder())
            must_fail(ctx, "psr", o, f"inlet {case.reactants} has no extinction curve", d)
            z = np.zeros(3)
            want = z if pos is None else np.concatenate([m0, z] if pos else [z, m0])
            must_be(ctx, do_metric("psr", C, inject.RootFinder()), want, f"inlet {case.reactants}", d)


def run_flame(scn, ctx):
    floor = 0.05 if scn["min"] is None else scn["min"]
    values = [None, -1.0, 0.0, np.nextafter(floor, -1), floor, np.nextafter(floor, 1), 0.04 if floor != 0.04 else 0.03, 0.06, 0.9]
    C = flame_conds(scn["n"])
    if scn["n"] == 3:
        values = [None, 0.0, floor, np.nextafter(floor, 1), 0.9]
    for assign in itertools.product(values, repeat=scn["n"]):
        res = {c.temperature: v for c, v in zip(C, assign)}
        dead = [v is None or v <= floor for v in assign]
        d = {"speeds": assign, "minimum": scn["min"]}
        ctx.evaluated(("flame", scn["min"], assign), nontrivial=any(dead))
        ctx.state(("flame", scn["min"], assign))
        ctx.transition()
        o = do_sample("flame", C, inject.Flames(res.get), min_flame_speed=scn["min"])
        if any(dead):
            must_fail(ctx, "flame", o, f"flame results {assign} with minimum {floor}", d)
        else:
            ctx.check(o[0] == "ok" and np.array_equal(o[1][0], assign), "flame speed", f"{str(o)[:200]} for {assign}, minimum {floor}", d)
        o = do_metric("flame", C, inject.Flames(res.get), min_flame_speed=scn["min"])
        must_be(ctx, o, np.array([0.0 if x else v for x, v in zip(dead, assign)]), f"flame results {assign} with minimum {floor}", d)
    ctx.sample({"minimum": scn["min"], "conditions": scn["n"], "values": values})


def run_mixed(scn, ctx):
    """Failures of one phenomenon when all three are requested."""
    I, P, F = ign_conds("ab"), psr_conds()[1:], flame_conds(2)
    for fi, fp, ff in itertools.product([None, 0, 1], [None, 0], [None, 0, 1]):
        mc.fresh_dir()
        a = inject.Integrator(lambda T, n: fi is not None and T == I[fi].temperature and n == 7)
        b = inject.RootFinder(lambda T, n: "noconv" if fp is not None and n >= 6 else None)
        c = inject.Flames(lambda T: None if ff is not None and T == F[ff].temperature else 0.7)
        d = {"failing": [fi, fp, ff]}
        with a, b, c:
            o = mc.outcome(lambda: sampling.sample(MODEL, I, P, F), limit=60)
        ctx.evaluated(("mixed", fi, fp, ff))
        ctx.state(("mixed", fi, fp, ff))
        ctx.transition()
        failing = [k for k, f in (("ignition", fi), ("psr", fp), ("laminarflame", ff)) if f is not None]
        if not failing:
            ctx.check(o[0] == "ok", "clean run", str(o)[:300], d)
        else:
            ctx.check(o[0] == "exc", "baseline failure not reported", str(o)[:200], d)
            left = [f for f in os.listdir(".") if any(f.startswith(k) for k in failing)]
            ctx.check(not left, "samples of a failed run", f"saved samples are left: {left}", d)
        with a, b, c:
            o = mc.outcome(lambda: sampling.sample_metrics(MODEL, I, P, F), limit=60)
        dead = [fi == 0, fi == 1, *[fp is not None] * 3, ff == 0, ff == 1]
        ok = o[0] == "ok" and len(o[1]) == 7 and [bool(x == 0.0) for x in o[1]] == dead
        ctx.check(ok, "candidate metric", f"failing {failing}: metrics {str(o)[:200]}", d)
