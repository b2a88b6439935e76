"""C20: conversion to Chemkin and back preserves the model."""
import contextlib
import io
import itertools
import json
import math
import os

import numpy as np
import yaml

import env
import mc
from env import ct, reduce_model, soln2ck, soln2yaml, tools

ID = "C20"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of reaction, species and model forms, each converted by the real code and read back"
NOTE = ("Rates of progress of the model read back are compared with the original's at a grid of temperatures, pressures and compositions; parameters "
        "that the written precision holds exactly must come back exactly, others within it.")
RULE = ("reactions: type (elementary, third-body, explicit collider, falloff with every function, with explicit collider, chemically activated, PLOG, "
        "Chebyshev) x reactants and products of molecularity 1 to 3 x reversibility x efficiencies x orders x parameters (signs, zero, size, digits) "
        "x duplicates, alone and together; species: names x compositions x coefficients x ranges, transport: geometry x values; models: bundled mechanisms "
        "and those with one species removed, converted twice; a case is one reaction, species or model read back")
ASSUMPTIONS = ["cantera.ck2yaml reads Chemkin files as specified"]
BOUNDS = "up to 3 reactant molecules, 4 efficiencies, 2 parameter sets per limit from 6, 4 PLOG pressures, Chebyshev up to 4 x 5"
BUDGET = {"quick": 400.0, "thorough": 2600.0}

SPECIES = ["H2", "H", "O", "O2", "OH", "H2O", "HO2", "H2O2", "AR", "N2"]
HEAD = """
units: {length: cm, quantity: mol, activation-energy: cal/mol}
phases:
- name: gas
  thermo: ideal-gas
  elements: [H, O, N, Ar]
  species: [{h2o2.yaml/species: [%s]}]
  kinetics: gas
  transport: mixture-averaged
  reactions: all
reactions:
""" % ", ".join(SPECIES)

#: equations by molecularity (without third body): reactants, products
EQUATIONS = ["H2O2 => 2 OH", "H2 => 2 H", "HO2 => H + O2", "H + O2 => OH + O", "2 OH => H2O + O", "2 H => H2", "H + O2 => HO2", "2 H + O => H2O",
             "H + O2 + H2 => H2O + OH", "3 OH => H2O + HO2", "H + 0.5 O2 => OH", "HO2 + H => 0.5 H2 + 0.5 H2 + O2", "H2 + 2 O => 2 OH"]
COLLIDERS = ["AR", "H2O", "H2"]
#: A (mol, cm, s), b, Ea (cal/mol): exactly held by the written form; the last two are not
PARAMS = [(1.2345e12, 0.0, 0.0), (7.5e3, 2.125, -1250.0), (3.3e20, -1.5, 45120.0), (2.5e-31, 12.25, 3.0), (1.23456789e13, -0.123456, 4567.8912),
          (9.9999e59, -9.999, 99990.0)]
EXACT = [True, True, True, True, False, True]
EFFS = [None, {"AR": 0.75}, {"H2O": 12.0, "N2": 0.0}, {"AR": 0.5, "H2": 2.5, "H2O": 6.0, "O2": 1.0}, {"H2": 0.0}]
FUNCTIONS = [None, ("Troe", dict(A=0.75, T3=94.5, T1=1756.0)), ("Troe", dict(A=0.5, T3=1e-30, T1=1e30)),
             ("Troe", dict(A=-0.25, T3=94.0, T1=1756.25, T2=5182.0)), ("Troe", dict(A=1.5, T3=1e-30, T1=300.0, T2=-250.0)),
             ("SRI", dict(A=0.5, B=94.0, C=1756.0)), ("SRI", dict(A=0.5, B=-94.0, C=1756.0, D=1.25, E=0.125))]


def rate(p, **kw):
    return dict(A=p[0], b=p[1], Ea=p[2], **kw)


def balanced_eq(eq, reversible):
    return eq.replace("=>", "<=>") if reversible else eq


def with_collider(eq, m):
    a, b = eq.split("=>")
    return f"{a.strip()} + {m} => {b.strip()} + {m}"


def with_falloff(eq, m):
    a, b = eq.split("=>")
    return f"{a.strip()} (+{m}) => {b.strip()} (+{m})"


def order_of(eq):
    return sum(float(t.split()[0]) if " " in t.strip() else 1.0 for t in eq.split("=>")[0].strip().split("+"))


def variants(tier):
    """(description, YAML entry, exact?) of every reaction."""
    out = []
    deep = tier == "thorough"

    def add(kind, d, exact=True, **kw):
        out.append((dict(kind=kind, **kw), d, exact))

    for eq, rev in itertools.product(EQUATIONS, (True, False)):
        e = balanced_eq(eq, rev)
        for p, x in zip(PARAMS, EXACT):
            add("elementary", {"equation": e, "rate-constant": rate(p)}, x, eq=e, p=p)
            for eff in EFFS:
                d = {"equation": balanced_eq(with_collider(eq, "M"), rev), "type": "three-body", "rate-constant": rate(p)}
                if eff:
                    d["efficiencies"] = eff
                add("three-body", d, x, eq=d["equation"], p=p, eff=eff)
            for m in COLLIDERS:
                if m in eq.replace("+", " ").split():
                    continue  # the same species is already in the equation
                d = {"equation": balanced_eq(with_collider(eq, m), rev), "rate-constant": rate(p)}
                add("collider", d, x, eq=d["equation"], p=p)
        # every default efficiency
        for default, eff in itertools.product([0.5, 2.0], EFFS):
            d = {"equation": balanced_eq(with_collider(eq, "M"), rev), "type": "three-body", "rate-constant": rate(PARAMS[0]), "default-efficiency": default}
            if eff:
                d["efficiencies"] = eff
            add("three-body default", d, True, eq=d["equation"], default=default, eff=eff)
        pairs = list(itertools.product(range(len(PARAMS)), repeat=2)) if deep else [(0, 1), (1, 0), (2, 0), (4, 2), (3, 4), (5, 1)]
        for fn, (i, j), eff in itertools.product(FUNCTIONS, pairs, EFFS if deep else EFFS[:4]):
            for kind, m in (("falloff", "M"), ("chemically-activated", "M"), ("falloff", "AR")):
                if m != "M" and eff:
                    continue
                d = {"equation": balanced_eq(with_falloff(eq, m), rev), "type": kind, "low-P-rate-constant": rate(PARAMS[i]),
                     "high-P-rate-constant": rate(PARAMS[j])}
                if fn:
                    d[fn[0]] = dict(fn[1])
                if eff:
                    d["efficiencies"] = eff
                add(kind, d, EXACT[i] and EXACT[j], eq=d["equation"], function=fn, low=PARAMS[i], high=PARAMS[j], eff=eff)
        for pressures in ([1.0], [0.1, 10.0], [0.01, 1.0, 1.0, 100.0], [0.125, 0.25, 7.3]):
            for shift in range(3):
                ps = [PARAMS[(k + shift) % 3] for k in range(len(pressures))]
                d = {"equation": e, "type": "pressure-dependent-Arrhenius",
                     "rate-constants": [dict(P=f"{q} atm", **rate(p)) for q, p in zip(pressures, ps)]}
                add("PLOG", d, True, eq=e, pressures=pressures, shift=shift)
        for nt, np_ in itertools.product((1, 2, 4), (1, 3, 5)):
            data = [[round((8.25 if (a, b) == (0, 0) else 0.0) + ((-1) ** (a + b)) * (1.125 + a) / (1 + 2 * b), 5) for b in range(np_)] for a in range(nt)]
            for tr, pr in (((300.0, 2000.0), (0.01, 100.0)), ((500.5, 1250.25), (1.0, 2.5))):
                d = {"equation": e, "type": "Chebyshev", "temperature-range": list(tr), "pressure-range": [f"{q} atm" for q in pr], "data": data}
                add("Chebyshev", d, True, eq=e, shape=(nt, np_), ranges=(tr, pr))
        # orders (irreversible only)
        if not rev:
            first = [t.split()[-1] for t in eq.split("=>")[0].strip().split(" + ")]
            for orders in ({first[0]: 0.5}, {first[0]: 2.25}, {first[-1]: 1.5, "AR": 1.0}, {"AR": -0.5}, {first[0]: 0.0}, {"OH": 1.0, first[0]: 1.0}):
                for p in PARAMS[:3]:
                    add("orders", {"equation": e, "rate-constant": rate(p), "orders": orders, "nonreactant-orders": True, "negative-orders": True}, True,
                        eq=e, orders=orders)
            for orders in ({first[0]: 0.5}, {first[-1]: 1.5, "AR": 1.0}):
                if not all(s in e.replace("+", " ").split() or s == "AR" for s in orders):
                    continue
                extra = {"orders": orders, "nonreactant-orders": True}
                p, q = PARAMS[0], PARAMS[1]
                for d in ({"equation": with_collider(eq, "M"), "type": "three-body", "rate-constant": rate(p), "efficiencies": {"H2O": 3.0}},
                          {"equation": with_falloff(eq, "M"), "type": "falloff", "low-P-rate-constant": rate(p), "high-P-rate-constant": rate(q)},
                          {"equation": with_falloff(eq, "M"), "type": "chemically-activated", "low-P-rate-constant": rate(p), "high-P-rate-constant": rate(q)},
                          {"equation": e, "type": "pressure-dependent-Arrhenius", "rate-constants": [dict(P="0.5 atm", **rate(p)), dict(P="5.0 atm", **rate(q))]},
                          {"equation": e, "type": "Chebyshev", "temperature-range": [300.0, 2500.0], "pressure-range": ["0.1 atm", "10.0 atm"],
                           "data": [[3.5, 0.25], [0.5, -0.125]]}):
                    add("orders of others", dict(d, **extra), True, eq=d["equation"], orders=orders, type=d["type"])
    for eq in EQUATIONS:
        # explicit colliders with a factor
        for m, f, rev in itertools.product(COLLIDERS, (0.5, 2.0, 6.25), (True, False)):
            if m in eq.replace("+", " ").split():
                continue
            d = {"equation": balanced_eq(with_collider(eq, m), rev), "rate-constant": rate(PARAMS[2]), "efficiencies": {m: f}}
            add("collider factor", d, False, eq=d["equation"], factor=f)
            d = {"equation": balanced_eq(with_falloff(eq, m), rev), "type": "falloff", "low-P-rate-constant": rate(PARAMS[0]),
                 "high-P-rate-constant": rate(PARAMS[1]), "efficiencies": {m: f}}
            add("falloff collider factor", d, True, eq=d["equation"], factor=f)
        # no efficiency but for those given
        for eff in EFFS[1:4]:
            d = {"equation": with_collider(eq, "M"), "type": "three-body", "rate-constant": rate(PARAMS[0]), "efficiencies": eff, "default-efficiency": 0.0}
            add("only colliders", d, True, eq=d["equation"], eff=eff)
            d = {"equation": with_falloff(eq, "M"), "type": "falloff", "low-P-rate-constant": rate(PARAMS[0]), "high-P-rate-constant": rate(PARAMS[1]),
                 "efficiencies": eff, "default-efficiency": 0.0}
            add("only colliders", d, True, eq=d["equation"], eff=eff)
        # negative pre-exponential factors
        for p in PARAMS[:3]:
            n = rate((-p[0], *p[1:]))
            for d in ({"equation": eq, "rate-constant": n}, {"equation": with_collider(eq, "M"), "type": "three-body", "rate-constant": n},
                      {"equation": with_falloff(eq, "M"), "type": "falloff", "low-P-rate-constant": n, "high-P-rate-constant": rate((-1e10, 0.0, 0.0))},
                      {"equation": eq, "type": "pressure-dependent-Arrhenius", "rate-constants": [dict(P="0.5 atm", **rate((2.5e30, 0.0, 0.0))), dict(P="0.5 atm", **n), dict(P="5.0 atm", **rate((2.5e30, 0.0, 0.0)))]}):
                add("negative", dict(d, **{"negative-A": True}), True, eq=d["equation"], p=p, type=d.get("type", ""))
    return out


def duplicates():
    """Pairs of reactions with the same equation."""
    out = []
    forms = {
        "elementary": lambda eq, p: {"equation": eq, "rate-constant": rate(p)},
        "three-body": lambda eq, p: {"equation": with_collider(eq.replace("<=>", "=>"), "M").replace("=>", "<=>" if "<=>" in eq else "=>"), "type": "three-body",
                                     "rate-constant": rate(p), "efficiencies": {"AR": 0.5}},
        "falloff": lambda eq, p: {"equation": with_falloff(eq.replace("<=>", "=>"), "M").replace("=>", "<=>" if "<=>" in eq else "=>"), "type": "falloff",
                                  "low-P-rate-constant": rate(p), "high-P-rate-constant": rate(PARAMS[0])},
        "PLOG": lambda eq, p: {"equation": eq, "type": "pressure-dependent-Arrhenius",
                               "rate-constants": [dict(P="0.5 atm", **rate(p)), dict(P="5.0 atm", **rate(PARAMS[0]))]},
        "Chebyshev": lambda eq, p: {"equation": eq, "type": "Chebyshev", "temperature-range": [300.0, 2500.0], "pressure-range": ["0.1 atm", "10.0 atm"],
                                    "data": [[3.5, 0.25], [0.5, -0.125]]},
    }
    for eq, rev in itertools.product(EQUATIONS[:9], (True, False)):
        e = balanced_eq(eq, rev)
        for a, b in itertools.combinations_with_replacement(forms, 2):
            x, y = forms[a](e, PARAMS[0]), forms[b](e, PARAMS[1])
            out.append((dict(kind="duplicates", eq=e, forms=(a, b)), [dict(x, duplicate=True), dict(y, duplicate=True)]))
        out.append((dict(kind="duplicates", eq=e, forms="opposed"),
                    [dict(forms["elementary"](e, PARAMS[0]), duplicate=True),
                     dict(forms["elementary"](e, (-PARAMS[1][0], *PARAMS[1][1:])), duplicate=True, **{"negative-A": True})]))
        out.append((dict(kind="duplicates", eq=e, forms="three"), [dict(forms["elementary"](e, p), duplicate=True) for p in PARAMS[:3]]))
    return out


# ------------------------------------------------------------------ conversion
class Lost(Exception):
    pass


def there_and_back(model, transport=True):
    """Converts model (a file) to Chemkin and back; the Solution and the Chemkin files."""
    with contextlib.redirect_stdout(io.StringIO()):
        out = mc.outcome(lambda: tools.convert(model, path="ck"), limit=60.0)
        if out[0] != "ok":
            raise Lost(f"conversion to Chemkin: {out[1:]}")
        files = list(out[1])
        missing = [f for f in files if not os.path.isfile(f)]
        if missing:
            raise Lost(f"files {missing} were not written")
        inp = [f for f in files if f.endswith(".inp")]
        th = [f for f in files if "thermo" in f] or [None]
        tr = [f for f in files if "transport" in f] or [None]
        if not inp:
            raise Lost(f"no .inp file among {files}")
        out = mc.outcome(lambda: tools.convert(inp[0], th[0], tr[0], path="back"), limit=60.0)
        if out[0] != "ok":
            raise Lost(f"conversion back: {out[1:]}")
        try:
            return ct.Solution(out[1]), files
        except Exception as e:  # noqa
            raise Lost(f"model read back cannot be loaded: {str(e)[:300]}")


def states(n):
    comps = [np.ones(n)] + [np.ones(n) * 0.25 + 2.0 * np.eye(n)[k] for k in (0, n // 2, n - 2 if n > 1 else 0, n - 1)]
    return [(T, P, x) for T in (400.0, 1000.0, 2400.0) for P in (2e3, 101325.0, 8e6) for x in comps]


def slack(kind, params):
    """Relative difference of the rate the written precision allows."""
    t = 2e-5
    for A, b, Ea in params:
        t = max(t, 1.1e-4 + 5.5e-4 * math.log(2400.0) + (0.006 + 5.5e-4 * abs(Ea)) / (1.987 * 400.0))
    return t


def compare_reactions(ctx, where, a, b, tolerances, d=None):
    """The rates of a and b, reaction by reaction."""
    ctx.check(a.n_reactions == b.n_reactions, "reactions", f"{where}: {a.n_reactions} reactions became {b.n_reactions}", d)
    order = [a.species_index(s) for s in b.species_names]
    for i in range(a.n_reactions):
        r, s = a.reaction(i), b.reaction(i)
        w = f"{where}: reaction {r.equation} became {s.equation}"
        # a species on both sides can be taken for a third body (which gives the same rate)
        ctx.check(everything(r) == everything(s), "equation", w, d)
        ctx.check(r.reversible == s.reversible, "reversibility", w, d)
        ctx.check(bool(r.duplicate) == bool(s.duplicate), "duplicate flag", f"{w}: duplicate {r.duplicate} became {s.duplicate}", d)
        same = r.reaction_type == s.reaction_type or {r.reaction_type, s.reaction_type} == {"Arrhenius", "three-body-Arrhenius"}
        same = same or (r.reaction_type.startswith("falloff") and s.reaction_type.startswith("falloff") and "Lindemann" in r.reaction_type + s.reaction_type)
        ctx.check(same, "reaction type", f"{w}: {r.reaction_type} became {s.reaction_type}", d)
        ctx.check(r.orders == s.orders, "orders", f"{w}: orders {r.orders} became {s.orders}", d)
    worst = {}
    for T, P, x in states(a.n_species):
        a.TPX = T, P, x
        b.TPX = T, P, x[order]
        for name in ("forward_rates_of_progress", "reverse_rates_of_progress"):
            u, v = getattr(a, name), getattr(b, name)
            scale = np.maximum(np.abs(u), np.abs(v))
            with np.errstate(all="ignore"):
                err = np.where((scale > 1e-290) & np.isfinite(scale), np.abs(u - v) / scale, 0.0)
            bad = np.where(err > tolerances + (2e-5 if name[0] == "r" else 0.0))[0]
            for i in bad:
                worst.setdefault(int(i), (float(err[i]), name, T, P, float(u[i]), float(v[i])))
    for i, v in worst.items():
        ctx.check(False, "rate", f"{where}: {a.reaction(i).equation} ({a.reaction(i).reaction_type}): {v[1]} at {v[2]} K, {v[3]} Pa: {v[4]:.6e} became "
                  f"{v[5]:.6e}", d)


def everything(r):
    """All that takes part, colliders included."""
    lhs, rhs = dict(r.reactants), dict(r.products)
    tb = r.third_body
    if tb is not None and tb.name != "M":
        if not r.reaction_type.startswith(("falloff", "chem")):
            for side in (lhs, rhs):
                side[tb.name] = side.get(tb.name, 0.0) + 1.0
    return lhs, rhs


def compare_species(ctx, where, a, b, d=None, transport=True):
    ctx.check(list(a.species_names) == list(b.species_names), "species", f"{where}: {a.species_names} became {b.species_names}", d)
    ctx.check(set(a.element_names) == set(b.element_names), "elements", f"{where}: {a.element_names} became {b.element_names}", d)
    for s in a.species_names:
        x, y = a.species(s), b.species(s)
        ctx.check(abs(x.molecular_weight - y.molecular_weight) < 1e-9 * abs(x.molecular_weight), "molecular weight",
                  f"{where}: molecular weight of {s} {x.molecular_weight} became {y.molecular_weight}", d)
        w = f"{where}: species {s}"
        ctx.check({k: v for k, v in x.composition.items() if v} == {k: v for k, v in y.composition.items() if v}, "composition",
                  f"{w}: {x.composition} became {y.composition}", d)
        p, q = x.thermo, y.thermo
        ctx.check(abs(p.min_temp - q.min_temp) < 1e-3 and abs(p.max_temp - q.max_temp) < 1e-3, "temperature range",
                  f"{w}: {p.min_temp}-{p.max_temp} became {q.min_temp}-{q.max_temp}", d)
        if hasattr(p, "coeffs") and len(p.coeffs) == 15 and len(q.coeffs) == 15 and list(p.coeffs[1:8]) != list(p.coeffs[8:15]):
            ctx.check(abs(p.coeffs[0] - q.coeffs[0]) < 5.1e-3, "temperature range", f"{w}: {p.coeffs[0]} between the ranges became {q.coeffs[0]}", d)
        lo, hi = p.min_temp, min(p.max_temp, 6000.0)
        for T in np.linspace(lo, hi, 9):
            for name in ("cp", "h", "s"):
                u, v = getattr(p, name)(T), getattr(q, name)(T)
                size = max(abs(u), ct.gas_constant * (T if name == "h" else 1.0))
                ctx.check(abs(u - v) < 5e-7 * size, "thermodynamics", f"{w}: {name} at {T:.1f} K: {u} became {v}", d)
        t, z = x.transport, y.transport
        if transport and all(a.species(k).transport for k in a.species_names):
            ctx.check(z is not None, "transport", f"{w}: transport data are lost", d)
            for name, unit, tol in (("well_depth", ct.boltzmann, 6e-4), ("diameter", 1e-10, 6e-4), ("dipole", 3.33564e-30, 6e-4),
                                    ("polarizability", 1e-30, 6e-4), ("rotational_relaxation", 1.0, 6e-4)):
                u, v = getattr(t, name) / unit, getattr(z, name) / unit
                ctx.check(abs(u - v) < tol + 1e-5 * abs(u), "transport", f"{w}: {name} {u} became {v}", d)
            ctx.check(t.geometry == z.geometry, "transport", f"{w}: {t.geometry} became {z.geometry}", d)


# ------------------------------------------------------------------ parts
def parameters(d):
    out = []
    for k in ("rate-constant", "low-P-rate-constant", "high-P-rate-constant"):
        if k in d:
            out.append((d[k]["A"], d[k]["b"], d[k]["Ea"]))
    return out


def model_of(entries):
    text = HEAD + yaml.safe_dump(entries, sort_keys=False, width=1000)
    with open("m.yaml", "w") as f:
        f.write(text)
    try:
        return ct.Solution("m.yaml")
    except ct.CanteraError as e:
        return str(e)


def one(ctx, descr, entries, exact, where):
    mc.fresh_dir()
    os.makedirs("ck")
    os.makedirs("back")
    a = model_of(entries)
    if isinstance(a, str):
        ctx.count("forms Cantera does not accept")
        return False
    d = {"reaction": descr, "entries": entries}
    try:
        b, files = there_and_back("m.yaml")
    except Lost as e:
        with contextlib.suppress(OSError):
            d["chemkin"] = open("ck/m.inp").read()[:3000]
        ctx.check(False, "conversion fails", f"{where}: {e}", d)
        return True
    with open(files[0]) as f:
        d["chemkin"] = f.read()[-3000:]
    tol = np.array([2e-5 if x else slack("", parameters(e)) for e, x in zip(entries, exact)])
    compare_species(ctx, where, a, b, d)
    compare_reactions(ctx, where, a, b, tol, d)
    return True


SIZE = 20


def batches(V, size=SIZE):
    """Groups of variants without two of the same equation."""
    def key(e):
        """Reactions that Cantera takes for duplicates."""
        a, b = e["equation"].replace("<=>", "=>").split("=>")
        return frozenset([a.strip(), b.strip()])

    keys = {}
    for v in V:
        keys.setdefault(key(v[1]), []).append(v)
    out = []
    while keys:
        # one of each of those with the most left
        g = [keys[k].pop() for k in sorted(keys, key=lambda k: (-len(keys[k]), sorted(k)))[:size]]
        keys = {k: v for k, v in keys.items() if v}
        out.append(g)
    return out


def scenarios(tier, seed):
    V = variants(tier)
    S = []
    n = 60
    for i in range(0, len(V), n):
        S.append(dict(part="alone", first=i, last=min(len(V), i + n)))
    m = len(batches(V))
    for i in range(0, m, 12):
        S.append(dict(part="together", first=i, last=min(m, i + 12)))
    m = len(duplicates())
    for i in range(0, m, 30):
        S.append(dict(part="duplicates", first=i, last=min(m, i + 30)))
    for k in ("names", "compositions", "elements", "coefficients", "kinds", "transport", "lines"):
        S.append(dict(part="species", what=k))
    S.append(dict(part="paths"))
    for model in ("h2o2.yaml", "ohn.yaml", "gri30.yaml", "nDodecane_Reitz.yaml:nDodecane_IG"):
        S.append(dict(part="model", model=model))
    for s in SPECIES:
        S.append(dict(part="reduced", model="h2o2.yaml", gone=[s]))
    if tier == "thorough":
        for s in ct.Solution("gri30.yaml").species_names:
            S.append(dict(part="reduced", model="gri30.yaml", gone=[s]))
        for p in itertools.combinations(SPECIES, 2):
            S.append(dict(part="reduced", model="h2o2.yaml", gone=list(p)))
    return S


def alone_part(scn, ctx, tier):
    V = variants(tier)
    for n in range(scn["first"], scn["last"]):
        if ctx.out_of_time():
            return
        descr, e, exact = V[n]
        if one(ctx, descr, [e], [exact], f"{descr} alone"):
            ctx.evaluated(("alone", str(descr)))
            ctx.transition()
            ctx.trace()
            ctx.state((descr["kind"], e["equation"]))
        if n == scn["first"]:
            ctx.sample({"reaction": e})


def together_part(scn, ctx, tier):
    B = batches(variants(tier))
    for g in B[scn["first"]:scn["last"]]:
        if ctx.out_of_time():
            return
        # what Cantera does not accept alone is left out
        g = [v for v in g if not isinstance(model_in_scratch([v[1]]), str)]
        if not g:
            continue
        ok = one(ctx, [v[0] for v in g], [v[1] for v in g], [v[2] for v in g], f"{[v[0]['eq'] for v in g]} together")
        if not ok:
            raise RuntimeError(f"these cannot be put together: {[v[1] for v in g]}")
        for v in g:
            ctx.evaluated(("together", str(v[0])))
        ctx.transition(len(g))
        ctx.trace()


def model_in_scratch(entries):
    mc.fresh_dir()
    return model_of(entries)


def duplicates_part(scn, ctx, tier):
    for descr, entries in duplicates()[scn["first"]:scn["last"]]:
        if ctx.out_of_time():
            return
        if one(ctx, descr, entries, [True] * len(entries), f"{descr}"):
            ctx.evaluated(("duplicates", str(descr)))
            ctx.transition()
            ctx.trace()
            ctx.state(("duplicates", str(descr["forms"]), descr["eq"]))


def nasa(Tmin=200.0, Tmid=1000.0, Tmax=3500.0, low=None, high=None):
    low = low or [2.5, 0.001, -2e-6, 3e-10, -4e-14, -745.0, 4.25]
    high = high or [3.5, 0.0005, -1e-7, 1e-11, -4e-16, -1045.5, 2.125]
    return {"model": "NASA7", "temperature-ranges": [Tmin, Tmid, Tmax], "data": [low, high]}


def species_part(scn, ctx):
    what = scn["what"]
    base = dict(composition={"O": 1}, thermo=nasa(), transport=dict(model="gas", geometry="atom", **{"well-depth": 80.0, "diameter": 2.75}))
    cases, customs = [], {}

    def case(label, *species):
        cases.append((label, [dict(base, **s) for s in species]))

    if what == "names":
        names = ["A", "H2O2", "CH2(S)", "C3H6-1", "O(1D)", "N*", "C2H5+", "H3O-", "2BUTENE", "nC7H16", "C6H5CH2OO", "A1-", "O_2", "iso_octane", "E", "M1", "END1", "ABCDEFGHIJKLMNOP",
                 "ABCDEFGHIJKLMNOPQR", "ABCDEFGHIJKLMNOPQRS", "ABCDEFGHIJKLMNOPQRSTUVW", "N-C3H5COCH2OOH-TRANS", "x", "ar", "1-C4H8", "C#C", "CH3.CO", "AC3H5OOH,a", "T1CH2'"]
        for n in names:
            case(n, dict(name=n))
            case((n, "B"), dict(name="B"), dict(name=n))
    elif what == "compositions":
        E = [("C", 12), ("H", 26), ("O", 2), ("N", 3), ("Ar", 1)]
        for k in range(1, 6):
            for sub in itertools.combinations(E, k):
                case(sub, dict(name="X", composition=dict(sub)))
        case("large", dict(name="X", composition={"C": 100, "H": 202}))
        case("all of one", dict(name="X", composition={"H": 999}))
    elif what == "elements":
        # (custom) elements: names of their own, isotopes, standard names with other weights, electrons
        for sym, w in (("O", None), ("Xx", 10.0), ("C13", 13.00335483507), ("D", None), ("Tr", 3.5), ("N", 15.0), ("H", 1.00784), ("O", 15.9994), ("U", None)):
            own = [] if w is None else [{"symbol": sym, "atomic-weight": w}]
            for n in (1, 2, 12, 120):
                for more in ({}, {"Ar": 1}, {"Ar": 11, "Fe": 2}, {"Ar": 1, "Fe": 200, "S": 3}, {"Ar": 1, "Fe": 2, "S": 3, "P": 4}):
                    for charge in ({}, {"E": 1}, {"E": -1}):
                        label = (sym, w, n, tuple(more.items()), charge.get("E", 0))
                        case(label, dict(name="X", composition={sym: n, **more, **charge}), dict(name="Y", composition={sym: n, **more, **charge}))
                        customs[label] = own
        for n in (0.5, 1.5, 2.25, 1e-3):
            case(("part of an atom", n), dict(name="X", composition={"O": n}, transport=None))
            case(("part of an atom", n, "H"), dict(name="Y"), dict(name="X", composition={"O": 1, "H": n}, transport=None))
    elif what == "coefficients":
        for v in (0.0, -1.0, 1e-5, -1e-30, 1.23456789e-16, -9.87654321e4, 3e10, 1.5e-100):
            for k in range(7):
                c = [2.5, 0.001, -2e-6, 3e-10, -4e-14, -745.0, 4.25]
                if k < 5 and abs(v) > 10:
                    continue
                c[k] = v
                case(("low", k, v), dict(name="X", thermo=nasa(low=c)))
                case(("high", k, v), dict(name="X", thermo=nasa(high=list(c))))
        for T in itertools.product((200.0, 298.15, 300.0), (1000.0, 1382.0, 1000.25), (2500.0, 5000.0, 6000.5)):
            case(T, dict(name="X", thermo=nasa(*T)))
            case((T, "other"), dict(name="X", thermo=nasa(*T)), dict(name="Y"))
    elif what == "kinds":
        piece = [22103.715, -381.846182, 6.08273836, -0.00853091441, 1.384646189e-05, -9.62579362e-09, 2.519705809e-12, 710.846086, -10.76003744]
        kinds = {"NASA9": {"model": "NASA9", "temperature-ranges": [200.0, 1000.0], "data": [piece]},
                 "NASA9 of 2": {"model": "NASA9", "temperature-ranges": [200.0, 1000.0, 6000.0], "data": [piece, piece]},
                 "Shomate": {"model": "Shomate", "temperature-ranges": [298.0, 1300.0, 6000.0],
                             "data": [[25.56759, 6.09613, 4.054656, -2.671301, 0.131021, -118.0089, 227.3665], [35.1507, 1.300095, -0.205921, 0.01355, -3.28278, -127.8375, 231.712]]},
                 "constant-cp": {"model": "constant-cp", "h0": 100.0, "s0": 5.0, "cp0": 29.0},
                 "piecewise-Gibbs": {"model": "piecewise-Gibbs", "h0": -230.0, "dimensionless": True, "data": {298.15: -174.5, 333.15: -170.1}},
                 "NASA7 of 1": {"model": "NASA7", "temperature-ranges": [300.0, 3000.0], "data": [[2.5, 0.001, -2e-6, 3e-10, -4e-14, -745.0, 4.25]]},
                 "NASA7": nasa()}
        for (n, k), place in itertools.product(kinds.items(), (0, 1)):
            pair = [dict(name="Y"), dict(name="X", thermo=k)]
            case((n, place), *(pair if place else pair[::-1]))
    elif what == "transport":
        for g, comp in (("atom", {"O": 1}), ("linear", {"O": 2}), ("nonlinear", {"H": 2, "O": 1})):
            for depth, dia, dip, pol, rot in itertools.product((0.125, 97.537, 1234.5), (2.05, 6.123), (0.0, 1.844), (0.0, 1.604), (0.0, 3.875)):
                case((g, depth, dia, dip, pol, rot), dict(name="X", composition=comp, transport={
                    "model": "gas", "geometry": g, "well-depth": depth, "diameter": dia, "dipole": dip, "polarizability": pol, "rotational-relaxation": rot}))
        case("none", dict(name="X", transport=None))
        case("only one", dict(name="X"), dict(name="Y", transport=None))
        case("long name", dict(name="ABCDEFGHIJKLMNOP"), dict(name="Y"))
    elif what == "lines":
        for n, width in itertools.product((1, 2, 9, 10, 40, 120), (1, 5, 11, 16)):
            case((n, width, "-"), *[dict(name="1" + "-A" * (width // 2) + "-%d" % i) for i in range(n)])
            case((n, width), *[dict(name=("S%d" % i).ljust(width, "x")) for i in range(n)])
    for _, species in cases:
        for s in species:
            if what in ("compositions", "elements") and s["transport"]:
                n = sum(n for e, n in s["composition"].items() if e != "E")
                s["transport"] = dict(base["transport"], geometry="atom" if n == 1 else "linear" if n == 2 else "nonlinear")
    for label, species in cases:
        if ctx.out_of_time():
            return
        mc.fresh_dir()
        os.makedirs("ck")
        os.makedirs("back")
        S = [{k: v for k, v in s.items() if v is not None} for s in species]
        has = all("transport" in s for s in S)
        doc = {"phases": [{"name": "gas", "thermo": "ideal-gas", "elements": sorted({e for s in S for e in s["composition"]}),
                           "species": [s["name"] for s in S], "kinetics": "gas", "reactions": "all"}], "species": S,
               "reactions": [] if len(S) < 2 or S[0]["composition"] != S[1]["composition"] else
               [{"equation": f"{S[0]['name']} <=> {S[1]['name']}", "rate-constant": {"A": 1.25e4, "b": 0.5, "Ea": 0.0}},
                {"equation": f"2 {S[0]['name']} + {S[1]['name']} => 3 {S[1]['name']}", "rate-constant": {"A": 1.25e4, "b": 0.5, "Ea": 0.0}}]}
        if customs.get(label):
            doc["elements"] = customs[label]
        if has:
            doc["phases"][0]["transport"] = "mixture-averaged"
        with open("m.yaml", "w") as f:
            yaml.safe_dump(doc, f, sort_keys=False)
        try:
            a = ct.Solution("m.yaml")
        except ct.CanteraError as e:
            raise RuntimeError(f"{label}: {e}")
        where = f"species ({what}) {label}"
        d = {"model": doc if len(S) < 5 else label}
        ctx.evaluated((what, str(label)))
        ctx.transition()
        ctx.trace()
        ctx.state((what, str(label)))
        try:
            b, files = there_and_back("m.yaml")
        except Lost as e:
            if (what == "kinds" and "NASA7" not in label[0] or label[0] == "part of an atom") and "NotImplementedError" in str(e):
                ctx.count("refused for want of a Chemkin form")
                continue
            for f in ("ck/m.inp", "ck/m_thermo.dat"):
                with contextlib.suppress(OSError):
                    d[f] = open(f).read()[:3000]
            ctx.check(False, f"conversion fails ({what}) {label}"[:70], f"{where}: {e}", d)
            continue
        ctx.check(any("transport" in f for f in files) == has, "transport file", f"{where}: files {files}", d)
        compare_species(ctx, where, a, b, d)
        compare_reactions(ctx, where, a, b, np.full(a.n_reactions, 2e-5), d)
    ctx.sample({"species": what, "cases": len(cases)})


def model_part(scn, ctx):
    mc.fresh_dir()
    os.makedirs("ck")
    os.makedirs("back")
    try:
        gas = ct.Solution(*scn["model"].split(":"))
    except ct.CanteraError:
        ctx.count("mechanisms not present")
        return
    if scn["part"] == "reduced":
        gas = reduce_model.trim(scn["model"], scn["gone"], "m.yaml")
    soln2yaml.write(gas, "m.yaml")
    where = f"{scn['model']} without {scn.get('gone', [])}"
    a = ct.Solution("m.yaml")
    tol = []
    for r in a.reactions():
        ps = []
        for name in ("low_rate", "high_rate"):
            if hasattr(r.rate, name):
                x = getattr(r.rate, name)
                ps.append((x.pre_exponential_factor, x.temperature_exponent, x.activation_energy / 4184.0))
        if hasattr(r.rate, "activation_energy"):
            ps.append((0.0, 0.0, r.rate.activation_energy / 4184.0))
        if hasattr(r.rate, "rates"):
            ps += [(0.0, 0.0, x.activation_energy / 4184.0) for _, x in r.rate.rates]
        tol.append(slack("", ps or [(0.0, 0.0, 0.0)]))
    d = {"scenario": scn}
    ctx.evaluated(("model", str(scn)))
    ctx.transition(a.n_reactions)
    ctx.trace()
    ctx.state(("model", str(scn)))
    try:
        b, files = there_and_back("m.yaml")
    except Lost as e:
        ctx.check(False, "conversion fails", f"{where}: {e}", d)
        return
    compare_species(ctx, where, a, b, d)
    compare_reactions(ctx, where, a, b, np.array(tol), d)
    # a second time: nothing more is lost
    first = [open(f).read() for f in files]
    os.rename("back", "again")
    os.makedirs("back")
    try:
        c, files2 = there_and_back("again/m.yaml")
    except Lost as e:
        ctx.check(False, "conversion fails", f"{where}, a second time: {e}", d)
        return
    compare_species(ctx, where + " (second conversion)", b, c, d)
    compare_reactions(ctx, where + " (second conversion)", b, c, np.array(tol), d)
    ctx.sample({"model": scn, "reactions": a.n_reactions})


def paths_part(scn, ctx):
    """Where the files go, and what they are called."""
    for where, path, name, transport, back in itertools.product(("", "in", "in/deeper", "abs"), ("", "out", "out/deeper", "in", "abs"),
                                                                ("m.yaml", "m.yml", "my.model-2.yaml", "m m.yaml"), (True, False), ("all", "no transport")):
        d = {"where": where, "path": path, "name": name, "transport": transport, "back": back}
        mc.fresh_dir()
        for f in ("in/deeper", "out/deeper", "abs", "back"):
            os.makedirs(f)
        source = os.path.join(os.path.abspath("abs") if where == "abs" else where, name)
        target = os.path.abspath("abs") if path == "abs" else path
        if " " in name and back != "all":
            continue
        text = HEAD + yaml.safe_dump([{"equation": "H + O2 <=> OH + O", "rate-constant": rate(PARAMS[0])}])
        if not transport:
            doc = yaml.safe_load(text)
            del doc["phases"][0]["transport"]
            doc["phases"][0]["species"] = ["H2", "H", "O2", "OH", "O"]
            doc["species"] = [{"name": s, "composition": c, "thermo": nasa()} for s, c in
                              (("H2", {"H": 2}), ("H", {"H": 1}), ("O2", {"O": 2}), ("OH", {"O": 1, "H": 1}), ("O", {"O": 1}))]
            text = yaml.safe_dump(doc, sort_keys=False)
        with open(source, "w") as f:
            f.write(text)
        before = tree()
        out = mc.outcome(lambda: tools.convert(source, path=target), limit=60.0)
        w = f"convert({source!r}, path={target!r})"
        ctx.evaluated(str(d))
        ctx.transition()
        ctx.trace()
        ctx.state(("paths", str(d)))
        ctx.check(out[0] == "ok", "conversion fails", f"{w}: {out[1:]}", d)
        base = os.path.join(target, os.path.splitext(name)[0])
        expected = [base + ".inp", base + "_thermo.dat"] + ([base + "_transport.dat"] if transport else [])
        ctx.check(list(out[1]) == expected, "names", f"{w} returned {out[1]}, not {expected}", d)
        after = tree()
        new = {k for k in after if k not in before}
        ctx.check(new == {os.path.relpath(f) for f in expected}, "files", f"{w} wrote {sorted(new)}, not {expected}", d)
        ctx.check(all(after.get(k) == before[k] for k in before), "files", f"{w} changed files that were there", d)
        # over what is there: the same
        out = mc.outcome(lambda: tools.convert(source, path=target), limit=60.0)
        ctx.check(out[0] == "ok" and tree() == after, "files", f"{w} a second time: {out}, files differ: {tree() != after}", d)
        # and back
        with contextlib.redirect_stdout(io.StringIO()):
            given = expected if back == "all" else expected[:2]
            out = mc.outcome(lambda: tools.convert(*given, path="back"), limit=60.0)
        result = os.path.join("back", os.path.splitext(name)[0] + ".yaml")
        ctx.check(out == ("ok", result), "names", f"convert({given}) returned {out}, not {result}", d)
        last = tree()
        ctx.check({k for k in last if k not in after} == {result} and all(last[k] == after[k] for k in after), "files",
                  f"convert({given}) left {sorted(set(last) ^ set(after))}", d)
        a, b = ct.Solution(source), ct.Solution(result)
        if back != "all" and transport:
            ctx.check(all(s.transport is None for s in b.species()), "transport", f"{w} and back without the transport file: there are transport data", d)
        compare_species(ctx, w, a, b, d, transport=back == "all")
        compare_reactions(ctx, w, a, b, np.full(a.n_reactions, 2e-5), d)


def tree():
    out = {}
    for root, _, files in os.walk("."):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as g:
                out[os.path.relpath(p)] = g.read()
    return out


def run(scn, ctx):
    part = scn["part"]
    if part in ("alone", "together", "duplicates"):
        {"alone": alone_part, "together": together_part, "duplicates": duplicates_part}[part](scn, ctx, "thorough" if ctx.tier == "thorough" else "quick")
    elif part == "species":
        species_part(scn, ctx)
    elif part == "paths":
        paths_part(scn, ctx)
    else:
        model_part(scn, ctx)
