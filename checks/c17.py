import itertools
import os

import numpy as np

import env
import inject
import mc
import psrtoy
import toys
from env import ct, psr_solver, sampling, simulation

ID = "C17"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive exploration of a kinetic/inlet lattice and of all placements of corrector failures on the real solver, "
             "against analytic response curves and independent time integration")
NOTE = ("Every returned point is compared with the analytic curve of one-step reactors (or, for real mechanisms, with independently time-integrated "
        "reactors); every placement of one or two corrector failures along the continuation is explored.")
RULE = ("one-step toys: order x activation energy x heat release x inlet temperature x inlet composition x extinction time; inlets of real mechanisms: "
        "fuel x equivalence ratio x temperature x pressure; faults: mode x every corrector call and every pair of calls; "
        "a case is one traced curve, non-trivial if a curve was returned")
ASSUMPTIONS = ["Cantera's thermodynamics and net production rates are right",
               "a continuation that gives up with an error is allowed except for the listed ordinary inlets (stoichiometric and moderately lean and rich "
               "mixtures at 300 K, 1 atm) and at most 10 % of the toys with high heat release"]
BOUNDS = "432 (thorough 1440) toys, 60 (thorough 192) inlets, up to 2 corrector failures"

EA, DT, TIN, YIN = (120e3, 180e3), (1500, 2200, 2800), (300, 600, 1000), (1.0, 0.9, 0.6)
TE = (1e-5, 1e-3, 0.02, 0.05, 0.2, 0.45, 0.6, 0.75, 0.95, 2.0)
REAL = [("h2o2.yaml", "H2"), ("gri30.yaml", "CH4"), ("gri30.yaml", "H2:1,CO:1"), ("gri30.yaml", "C2H6")]


def scenarios(tier, seed):
    th = tier == "thorough"
    S = []
    for m in (0, 1, 2, 3):
        for phi in ((0.3, 0.5, 1.0, 2.0, 3.0, 5.0) if th else (0.5, 1.0, 2.0, 5.0)):
            for T in (300, 500, 800, 1100) if th else (300, 800):
                for P in (0.5, 1, 20):
                    if not th and m > 0 and (P == 0.5 or (P == 20 and T == 800)):
                        continue
                    S.append(dict(real=m, phi=phi, T=T, P=P))
    S.sort(key=lambda s: s["real"] == 0)
    for order in (1, 2):
        for P in (1.0, 20.0) if th else (1.0,):
            for Ea in EA + ((80e3, 240e3) if th else ()):
                for Tin in TIN:
                    S.append(dict(toy=[order, Ea, Tin, P]))
    for order in (1, 2):
        S.append(dict(easy=order))
        for Tin in (1000, 1200):
            S.append(dict(full=[order, Tin]))
    n = 48
    for k in range(8):
        S.append(dict(faults=1, part=[k, 8]))
        S.append(dict(faults=2, part=[k, 8], every=1 if th else 3))
    S.append(dict(sim=1))
    S += [dict(newton=k) for k in range(4)]
    S += [dict(steps=o) for o in (1, 2)]
    return S


# ------------------------------------------------------------------ toys
def build(order, Ea, dT, Tin, yin, te, P, yb=0.0):
    o = psrtoy.OneStep(order, 1.0, Ea, dT, Tin, P * 101325.0, yin, yb)
    f = o.folds()
    if f is None:
        # monotone: no turning point to find
        o.A0 = 1.0 / 0.1 * float(o.tau(0.5 * (o.Tin + o.Tad)))
        return o, None
    o.A0 = f[0][1] / te
    return o, o.folds()


def gas_of(o):
    toys.write(o.mech(), "psr.yaml")
    g = ct.Solution("psr.yaml")
    o.inlet(g)
    return g


def on_curve(o, tau, T):
    """Whether (tau, T) lies on the analytic curve, to within the solver's tolerance."""
    if not (np.isfinite(tau) and np.isfinite(T)) or T < o.Tin - 1e-3 or T > o.Tad + 1e-3:
        return False
    # the residual of the species equation at this point
    Y = o.yin - (T - o.Tin) / o.dT
    k = o.A0 * np.exp(-o.Ea / (psrtoy.R * T))
    w = o.order * k * (max(Y, 0.0) * o.P / (psrtoy.R * T)) ** (o.order - 1) * Y
    res = abs((Y - o.yin) + tau * w)
    # d res / d(Y) amplifies the rounding of T near complete burn-out
    slop = tau * o.order * o.order * k * (max(Y, 1e-9) * o.P / (psrtoy.R * T)) ** (o.order - 1) * 1e-9
    return res < 1e-6 + slop


def judge_toy(ctx, key, o, folds, r, ds=0.4, cut=True):
    b = np.asarray(r["branch"])
    pts = r["points"]
    ctx.check(folds is not None, key + ":spurious", "an extinction point was reported on a curve that has none",
              lambda: dict(branch=b[-5:].tolist()))
    Text, text = folds[0]
    for tau, T in b:
        ctx.transition()
        ctx.check(on_curve(o, tau, T), key + ":off", f"the traced point tau={tau}, T={T} is no steady state (analytic tau {o.tau(T)})",
                  lambda: dict(branch=b.tolist()))
    if not cut:
        # the first turning point of the full march
        rise = np.where(np.diff(b[:, 0]) > 0)[0]
        i = int(rise[0]) if len(rise) else len(b) - 1
    else:
        i = int(np.argmin(b[:, 0]))
    ctx.check(bool((b[:i, 1] >= Text * (1 - 1e-9)).all()), key + ":middle", "the points before the extinction point are not on the burning branch",
              lambda: dict(Text=Text, T=b[: i + 1, 1].tolist()))
    ctx.check(b[0, 1] > Text, key + ":start", "the curve does not start on the burning branch")
    ctx.check(i + 1 < len(b) and b[i + 1, 1] <= Text * (1 + 1e-9) and b[i, 0] <= b[:, 0][: i + 2].min(), key + ":notfold",
              "the curve ends before its turning point", lambda: dict(Text=Text, tau_ext=text, end=b[-4:].tolist()))
    ctx.check(text * (1 - 1e-6) <= b[i, 0] <= text * np.exp(ds) * 1.01, key + ":far",
              f"the extinction time {b[i, 0]} is not next to the turning point at {text}")
    judge_points(ctx, key, b, i, pts)
    for name, (tau, T, Y) in pts.items():
        ctx.check(np.allclose(Y, o.Y(T), atol=1e-6), key + ":Y:" + name, f"the mass fractions of point {name} do not belong to its temperature",
                  lambda: dict(Y=list(map(float, Y)), expected=o.Y(T).tolist()))


def judge_points(ctx, key, b, i, pts):
    """The three points, from the branch rows up to the extinction point."""
    ctx.check(set(pts) >= {"extinction", "near_0.1s", "log_mid"}, key + ":names", f"points {sorted(pts)}")
    up = b[: i + 1, 0]
    rows = {"extinction": [i]}
    d = np.abs(up - 0.1)
    rows["near_0.1s"] = [int(j) for j in np.where(d <= d.min() * (1 + 1e-9))[0]]
    ok = []
    for j in rows["near_0.1s"]:
        m = np.abs(up - np.sqrt(up[i] * up[j]))
        ok += [int(q) for q in np.where(m <= m.min() * (1 + 1e-9))[0]]
    rows["log_mid"] = ok
    for name, js in rows.items():
        tau, T, _ = pts[name]
        ctx.check(any(abs(tau - b[j, 0]) <= 1e-12 * tau and abs(T - b[j, 1]) <= 1e-9 * T for j in js), key + ":point:" + name,
                  f"point {name} is ({tau}, {T}), not one of the rows {js}", lambda: dict(branch=b.tolist()))


def run_toy(s, ctx):
    order, Ea, Tin, P = s["toy"]
    mc.fresh_dir()
    for dT, yin, te in itertools.product(DT, YIN, TE):
        if te > 0.5 and yin == 0.9:
            continue
        o, folds = build(order, Ea, dT, Tin, yin, te, P, yb=0.05 if yin == 0.9 else 0.0)
        if folds is None and te != 1e-3:
            continue
        g = gas_of(o)
        key = f"toy:{order}:{Ea:g}:{dT}:{Tin}:{yin}:{te:g}:{P:g}"
        out = mc.outcome(lambda: psr_solver.trace_extinction_curve(g, max_steps=300), 60)
        ctx.evaluated(key, out[0] == "ok")
        ctx.state((key, out[0]))
        ctx.trace()
        verdict(ctx, key, out)
        if out[0] == "ok":
            judge_toy(ctx, key, o, folds, out[1])
        ctx.sample(dict(case=key, outcome=out[0], points=None if out[0] != "ok" else len(out[1]["branch"])))


def verdict(ctx, key, out):
    if out[0] == "ok" or (out[0] == "exc" and out[1] in ("RuntimeError", "CanteraError")):
        ctx.count("curves" if out[0] == "ok" else "gave_up")
        return
    ctx.violation(key + ":crash", f"tracing ended with {out[1:]}", out)


def run_easy(s, ctx):
    """High heat release, nearly pure reactant: tracing may give up only exceptionally."""
    order = s["easy"]
    mc.fresh_dir()
    n = bad = 0
    fails = []
    for Ea, dT, Tin, yin, te in itertools.product(EA, (2200, 2800), TIN, (1.0, 0.9), TE[:6]):
        o, folds = build(order, Ea, dT, Tin, yin, te, 1.0)
        if folds is None:
            continue
        out = mc.outcome(lambda: psr_solver.trace_extinction_curve(gas_of(o), max_steps=300), 60)
        key = f"easy:{order}:{Ea:g}:{dT}:{Tin}:{yin}:{te:g}"
        ctx.evaluated(key, out[0] == "ok")
        ctx.trace()
        verdict(ctx, key, out)
        n += 1
        if out[0] == "ok":
            judge_toy(ctx, key, o, folds, out[1])
        else:
            bad += 1
            fails.append(key)
    ctx.check(bad <= 0.1 * n, f"easy:{order}", f"{bad} of {n} ordinary curves could not be traced", fails[:20])


def run_steps(s, ctx):
    """Other step sizes and seeds: the rows fall elsewhere, the three points must follow."""
    mc.fresh_dir()
    for yin, te in ((1.0, 1e-3), (0.9, 0.02)):
        o, folds = build(s["steps"], 120e3, 2200, 600, yin, te, 1.0)
        g = gas_of(o)
        for ds0, dmax, t1, t2 in itertools.product((0.05, 0.08, 0.09, 0.11, 0.13, 0.17, 0.2), (0.2, 0.3, 0.4), (1.0, 2.0), (0.5, 0.47, 0.9)):
            o.inlet(g)
            key = f"steps:{s['steps']}:{yin}:{ds0}:{dmax}:{t1}:{t2}"
            out = mc.outcome(lambda: psr_solver.trace_extinction_curve(g, ds0=ds0, ds_max=dmax, tau_start=t1, tau_second=t2, max_steps=300), 60)
            ctx.evaluated(key, out[0] == "ok")
            ctx.trace()
            verdict(ctx, key, out)
            if out[0] == "ok":
                b = out[1]["branch"]
                judge_toy(ctx, key, o, folds, out[1], ds=max(dmax, ds0))
                ctx.check(abs(b[0, 0] / t1 - 1) < 1e-9 and abs(b[1, 0] / t2 - 1) < 1e-9, key + ":seed", f"the curve starts at {b[:2, 0]}")


def newton_cases():
    """Residual maps with and without roots, with singular and badly scaled Jacobians."""
    yield "linear", lambda u: np.array([2 * u[0] - u[1], u[1] + 3 * u[0] - 1])
    yield "none", lambda u: np.array([u[0] ** 2 + 1e-4, u[1]])
    yield "none2", lambda u: np.array([np.exp(u[0]) + 1e-5, u[1]])
    yield "singular", lambda u: np.array([u[0] + u[1] - 1, 2 * u[0] + 2 * u[1] - 2.001])
    yield "flat", lambda u: np.array([0 * u[0] + 1e-3, u[1]])
    yield "slow", lambda u: np.array([u[0] ** 5, u[1] ** 3])
    yield "slower", lambda u: np.array([u[0] ** 25, u[1]])
    yield "penalty", lambda u: np.full(2, 1e3) if u[0] <= 0 else np.array([np.log(u[0]), u[1] - u[0]])
    yield "valley", lambda u: np.array([10 * (u[1] - u[0] ** 2), 1 - u[0]])
    yield "atan", lambda u: np.array([np.arctan(10 * u[0]), u[1]])
    yield "kink", lambda u: np.array([abs(u[0]) + 1e-6, u[1]])
    yield "tiny", lambda u: np.array([1e-8 * (u[0] - 1) + 1e-5, u[1]])


def run_newton(s, ctx):
    """The fallback corrector reports convergence only at a root."""
    sol = psr_solver._damped_newton
    for name, f in newton_cases():
        for x0 in itertools.product((-2.0, -0.3, 0.0, 0.7, 5.0), repeat=2):
            for kw in ({}, dict(maxit=s["newton"]), dict(maxit=10 * s["newton"] + 5), dict(tol=10.0 ** -(4 + 2 * s["newton"]))):
                key = f"newton:{name}:{x0}:{kw}"
                out = mc.outcome(lambda: sol(f, np.array(x0), **kw), 20)
                ctx.evaluated(key)
                ctx.trace()
                if out[0] != "ok":
                    ctx.violation(key + ":crash", "the fallback corrector failed", out)
                u, ok = out[1]
                res = float(np.linalg.norm(f(u)))
                ctx.check(not ok or res <= 100 * kw.get("tol", 1e-9), key, f"reported convergence with a residual of {res}")
                if name in ("linear", "valley") and not kw:
                    ctx.check(ok, key + ":fails", "no convergence on an easy problem")


def run_full(s, ctx):
    order, Tin = s["full"]
    mc.fresh_dir()
    for Ea, dT, yin, te in itertools.product(EA, DT, (1.0, 0.9), (1e-5, 1e-3, 0.05, 0.2)):
        o, folds = build(order, Ea, dT, Tin, yin, te, 1.0)
        if folds is None:
            continue
        key = f"full:{order}:{Ea:g}:{dT}:{Tin}:{yin}:{te:g}"
        out = mc.outcome(lambda: psr_solver.trace_extinction_curve(gas_of(o), stop_at_extinction=False, max_steps=1500), 120)
        ctx.evaluated(key, out[0] == "ok")
        ctx.trace()
        verdict(ctx, key, out)
        ref = mc.outcome(lambda: psr_solver.trace_extinction_curve(gas_of(o), max_steps=300), 60)
        ctx.check((out[0] == "ok") == (ref[0] == "ok"), key + ":differs", "the full march finds an extinction point and the other not, or vice versa",
                  lambda: [str(out)[:300], str(ref)[:300]])
        if out[0] != "ok":
            continue
        judge_toy(ctx, key, o, folds, out[1], cut=False)
        for name in ref[1]["points"]:
            a, c = out[1]["points"][name], ref[1]["points"][name]
            ctx.check(a[0] == c[0] and a[1] == c[1] and np.array_equal(a[2], c[2]), key + ":other:" + name,
                      f"point {name} of the full march differs from that of the march to extinction", [a[:2], c[:2]])
        b = out[1]["branch"]
        (Tex, _), (Tig, tig) = folds
        if b[-1, 0] < b[-2, 0] and b[-2, 1] < Tex:  # turned around a second time
            t = b[-3:, 1]
            ctx.check(tig * np.exp(-0.2) <= b[-2, 0] <= tig * (1 + 1e-6) and t.min() <= Tig <= t.max(), key + ":ignition",
                      "the full march does not end around the ignition turning point", lambda: dict(tig=tig, Tig=Tig, end=b[-4:].tolist()))
            ctx.count("full_curves")


# ------------------------------------------------------- real mechanisms
NEW = hasattr(ct.Reactor, "phase")


class Reference:
    """The same reactor, integrated in time at constant pressure and enthalpy."""

    def __init__(self, gas):
        self.g = ct.Solution(thermo="ideal-gas", kinetics="gas", species=gas.species(), reactions=gas.reactions())
        self.P, self.h, self.Yin, self.Tin = gas.P, gas.enthalpy_mass, gas.Y.copy(), gas.T

    def residual(self, tau, T, Y):
        g = self.g
        g.set_unnormalized_mass_fractions(Y)
        g.TP = T, self.P
        r = (Y - self.Yin) - tau * g.net_production_rates * g.molecular_weights / g.density
        return float(np.abs(r).max()), float(abs(g.enthalpy_mass - self.h) / g.cp_mass / T)

    def steady(self, tau, Y, times=40.0):
        g = self.g
        g.TPY = self.Tin, self.P, self.Yin
        inlet = ct.Reservoir(g, clone=True) if NEW else ct.Reservoir(g)
        g.set_unnormalized_mass_fractions(np.clip(Y, 0, None) / np.clip(Y, 0, None).sum())
        g.HP = self.h, self.P
        kw = dict(clone=True) if NEW else {}
        r = ct.IdealGasConstPressureReactor(g, **kw)
        out = ct.Reservoir(g, **kw)
        m = r.mass
        flows = [ct.MassFlowController(inlet, r, mdot=m / tau), ct.MassFlowController(r, out, mdot=m / tau)]
        net = ct.ReactorNet([r])
        net.rtol, net.atol = 1e-9, 1e-16
        net.max_steps = 100000
        net.advance(times * tau)
        return float(r.T), np.array(r.phase.Y if NEW else r.thermo.Y)


    def newton(self, tau0, tau1, Y):
        """The steady state followed from tau0 to tau1 by small steps of Newton's method in Y."""
        from scipy.optimize import fsolve

        g, W = self.g, self.g.molecular_weights

        def res(y, tau):
            try:
                g.set_unnormalized_mass_fractions(y)
                g.HP = self.h, self.P
            except ct.CanteraError:
                return np.full(len(y), 1e3)
            return (y - self.Yin) - tau * g.net_production_rates * W / g.density

        for f in np.linspace(0, 1, 21)[1:]:
            Y, _, ok, _ = fsolve(res, Y, args=(tau0 * (tau1 / tau0) ** f,), full_output=True, xtol=1e-11)
        g.set_unnormalized_mass_fractions(Y)
        try:
            g.HP = self.h, self.P
        except ct.CanteraError:
            return np.nan, Y
        return float(g.T), Y


def real_gas(s):
    mech, fuel = REAL[s["real"]]
    g = ct.Solution(mech)
    g.TP = s["T"], s["P"] * 101325.0
    g.set_equivalence_ratio(s["phi"], fuel, "O2:1,N2:3.76")
    return g


def judge_real(ctx, key, ref, r, Yeq, rows=True):
    b = np.asarray(r["branch"])
    pts = r["points"]
    i = int(np.argmin(b[:, 0]))
    judge_points(ctx, key, b, i, pts)
    ctx.check(i + 1 < len(b), key + ":notfold", "the curve ends before its turning point")
    for name, (tau, T, Y) in pts.items():
        r1, r2 = ref.residual(tau, T, Y)
        ctx.check(r1 < 1e-6 and r2 < 1e-6, key + ":residual:" + name,
                  f"point {name} (tau={tau}, T={T}) violates the steady reactor equations by {r1} (species), {r2} (energy)")
    # the burning branch: followed from equilibrium in time at every residence time
    y = Yeq
    tol = 0.5
    for j in range(i):
        if not rows and j not in (0, 1, i // 2):
            continue
        if j > 1:  # slowly, not to leave the basin of attraction of the burning state
            for f in np.linspace(0, 1, 9)[1:-1] if last / b[j, 0] > 1.05 else ():
                _, y = ref.steady(last * (b[j, 0] / last) ** f, y, 8.0)
        y0 = y
        T, y = ref.steady(b[j, 0], y0)
        if j and abs(T - b[j, 1]) > tol:  # steady, but perhaps not a stable state (oscillating flames of rich mixtures)
            T2, y2 = ref.newton(last, b[j, 0], prev)
            if abs(T2 - b[j, 1]) < tol:
                T, y = T2, y2
                ctx.count("unstable_rows")
        last, prev = b[j, 0], y
        ctx.transition()
        # next to the turning point the approach to the steady state is slow
        ctx.check(abs(T - b[j, 1]) < (tol if j < i - 2 else 30.0), key + ":branch",
                  f"at tau={b[j, 0]} the burning reactor has {T} K, the traced point {b[j, 1]} K", lambda: dict(branch=b.tolist(), row=j))
    ext = pts["extinction"]
    T, _ = ref.steady(ext[0] / 1.5, ext[2])
    ctx.check(T < b[i, 1] - 100, key + ":early", f"at 1/1.5 of the extinction time {ext[0]} the reactor still burns ({T} K)")
    ctx.transition()


def run_real(s, ctx):
    mc.fresh_dir()
    g = real_gas(s)
    ref = Reference(g)
    out = mc.outcome(lambda: psr_solver.trace_extinction_curve(g, max_steps=400), 300)
    key = f"real:{s['real']}:{s['phi']}:{s['T']}:{s['P']}"
    ctx.evaluated(key, out[0] == "ok")
    ctx.state((key, out[0]))
    ctx.trace()
    verdict(ctx, key, out)
    if s["T"] == 300 and s["P"] == 1 and 0.5 <= s["phi"] <= 2:
        ctx.check(out[0] == "ok", key + ":fails", "the extinction curve of an ordinary inlet could not be traced", out)
    if out[0] == "ok":
        g2 = real_gas(s)
        g2.equilibrate("HP")
        judge_real(ctx, key, ref, out[1], g2.Y.copy(), rows=s["real"] == 0 or ctx.tier == "thorough")
        ctx.sample(dict(case=key, extinction=out[1]["points"]["extinction"][:2]))


# ------------------------------------------------------------ corrector failures
def fault_case():
    o, folds = build(2, 120e3, 2200, 600, 1.0, 1e-3, 1.0)
    return o, folds


MODES = ["noconv", "root", "raise", "lie"]


def traced(plan, o):
    """One trace with faults at the given corrector calls: {call: mode}."""
    g = gas_of(o)
    n = [0]
    now = [None]
    real = psr_solver._damped_newton

    def hook(fun, x0):
        n[0] += 1
        now[0] = plan.get(n[0])
        if now[0] == "raise":
            raise ct.CanteraError("injected evaluation failure")
        if now[0] == "lie":
            # the root finder claims success, as its test is on the change of x, away from a root
            x = np.array(x0, dtype=float) * (1.0 + 1e-3 * (-1.0) ** np.arange(len(x0)))
            return env._so.OptimizeResult(x=x, success=True, status=1, message="injected", fun=fun(x), nfev=1)
        return now[0] is not None

    def newton(residual, x0, *a, **kw):
        if now[0] == "noconv":
            bad = np.array(x0, dtype=float)
            bad[0] += 0.01
            return bad, False
        return real(residual, x0, *a, **kw)

    psr_solver._damped_newton = newton
    env.root_hook = hook
    try:
        return mc.outcome(lambda: psr_solver.trace_extinction_curve(g, max_steps=300), 60), n[0]
    finally:
        psr_solver._damped_newton = real
        env.root_hook = None


def run_faults(s, ctx):
    mc.fresh_dir()
    o, folds = fault_case()
    out, n = traced({}, o)
    ctx.check(out[0] == "ok", "faults:base", "the curve of the reference case could not be traced", out)
    judge_toy(ctx, "faults:base", o, folds, out[1])
    plans = []
    if s["faults"] == 1:
        plans = [{i: m} for i in range(1, n + 1) for m in MODES]
        plans += [{i + k: m for k in range(c)} for i in range(1, n + 1) for m in ("noconv", "root", "lie") for c in (2, 3, 5, 8, 12)]
    else:
        plans = [{i: a, j: b} for i in range(1, n + 2) for j in range(i + 1, n + 4) for a, b in (("noconv", "noconv"), ("root", "noconv"), ("lie", "noconv"))]
    k, parts = s["part"]
    every = s.get("every", 1)
    for p in plans[::every][k::parts]:
        out, used = traced(p, o)
        key = "faults:" + ",".join(f"{i}{m}" for i, m in sorted(p.items()))
        fired = any(i <= used for i in p)
        ctx.evaluated(key, fired)
        ctx.state((key, out[0]))
        ctx.trace()
        verdict(ctx, key, out)
        if out[0] == "ok":
            judge_toy(ctx, key, o, folds, out[1])
        elif list(p.values()) == ["noconv"] and 2 < list(p)[0] <= n:
            ctx.violation(key + ":norecovery", "a single corrector failure was not recovered from with a smaller step", out)
        elif set(p.values()) <= {"root", "lie"}:
            ctx.violation(key + ":nofallback", "the fallback corrector did not take over", out)
        ctx.sample(dict(case=key, outcome=out[0]))


# ----------------------------------------------------------------- simulations
def run_sim(s, ctx):
    """Metrics and sampled states of PSR simulations are those of the traced curve."""
    for n, (T, P, phi) in enumerate(itertools.product((300, 400), (1.0, 2.0), (0.7, 1.0))):
        mc.fresh_dir()
        g = ct.Solution("h2o2.yaml")
        g.TP = T, P * 101325.0
        g.set_equivalence_ratio(phi, "H2", "O2:1,N2:3.76")
        r = psr_solver.trace_extinction_curve(g)["points"]
        want = [r["extinction"][0], r["log_mid"][1], r["near_0.1s"][1]]
        c = sampling.InputPSR(temperature=T, pressure=P, equivalence_ratio=phi, fuel={"H2": 1.0}, oxidizer={"O2": 1.0, "N2": 3.76})
        key = f"sim:{T}:{P}:{phi}"
        got = []
        for how in ("run", "calc", "process", "skip", "again"):
            sim = simulation.PSRSimulation(n, c, "h2o2.yaml", "", ".")
            sim.setup_case()
            if how == "run":
                got.append(sim.run_case())
            elif how == "calc":
                got.append(sim.calculate())
            elif how == "process":
                m, data = sim.process_results()
                got.append(m)
                rows = {(float(x[0]), float(x[1])) for x in data}
                ctx.check(data.shape == (3, 2 + g.n_species), key + ":shape", f"sampled states have shape {data.shape}")
                for nm, (tau, Tp, Y) in r.items():
                    near = [x for x in data if abs(x[0] - Tp) < 1e-6 * Tp and abs(x[1] / (P * 101325.0) - 1) < 1e-9]
                    ctx.check(any(np.allclose(x[2:], Y, atol=1e-9) for x in near), key + ":state:" + nm,
                              f"the state of point {nm} is not among the sampled states", rows)
            elif how == "skip":
                sim.run_case()
                got.append(sim.process_results(skip_data=True))
            else:
                sim.calculate()
                got.append(sim.calculate())
            ctx.evaluated((key, how))
            ctx.check(np.allclose(got[-1], want, rtol=1e-9), key + ":" + how, f"metrics {list(got[-1])} instead of {want}")
        ctx.trace()


def run(s, ctx):
    for k in ("real", "toy", "easy", "full", "faults", "sim", "newton", "steps"):
        if k in s:
            return globals()["run_" + k](s, ctx)
