"""C21: comparing models is true exactly for equivalent models."""
import copy
import itertools
import json

import numpy as np
import yaml

import c20
import env
import mc
from env import ct, tools

ID = "C21"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of pairs of models differing in a single attribute, or in order and notation only, compared by the real code in both orders"
NOTE = ("All pairs of reactions of one equation from the space of C20; every single change of every attribute of one representative of each kind of reaction and species; "
        "every order of species and reactions of small models.")
RULE = ("pairs: reactions of one equation (all kinds x parameters x efficiencies x functions x orders); changes: every number (sign, zero, larger, slightly, by roundoff), "
        "flag, name, key of every kind of reaction and species, at every place in the model; equivalent: order of species, reactions, reactants, efficiencies, "
        "pressures, units, notes; a case is one ordered pair of models")
ASSUMPTIONS = ["relative differences below 1e-12 are roundoff and those above 1e-4 are not; in between either answer is accepted"]
BOUNDS = "models of up to 8 species and 8 reactions (changes and orders), single reactions (pairs)"
BUDGET = {"quick": 400.0, "thorough": 2600.0}

P0, P1, P2 = c20.PARAMS[0], c20.PARAMS[1], c20.PARAMS[2]
rate = c20.rate
GAS = ["H2", "H", "O", "O2", "OH", "H2O", "HO2", "AR"]

#: one of each kind of reaction
KINDS = {
    "elementary": {"equation": "H + O2 => OH + O", "rate-constant": rate(P2)},
    "reversible": {"equation": "H2 + O <=> H + OH", "rate-constant": rate(P1)},
    "orders": {"equation": "H2 + O => H + OH", "rate-constant": rate(P1), "orders": {"H2": 0.75, "AR": 0.25}, "nonreactant-orders": True, "negative-orders": True},
    "negative": {"equation": "H + O2 => OH + O", "rate-constant": rate((-1.5e12, 0.5, 250.0)), "negative-A": True},
    "tiny": {"equation": "H2 + 2 O => 2 OH", "rate-constant": rate((2.5e-31, 12.25, 3.0))},
    "coefficients": {"equation": "6 O => 2 O2 + 2 O", "rate-constant": rate(P0)},
    "coefficients back": {"equation": "2 O2 + 2 O => 6 O", "rate-constant": rate(P0)},
    "three-body": {"equation": "H + O2 + M <=> HO2 + M", "type": "three-body", "rate-constant": rate(P2), "efficiencies": {"AR": 0.75, "H2O": 11.5}},
    "three-body default": {"equation": "H + O2 + M <=> HO2 + M", "type": "three-body", "rate-constant": rate(P2), "efficiencies": {"AR": 0.75}, "default-efficiency": 0.5},
    "collider": {"equation": "H + O2 + AR <=> HO2 + AR", "rate-constant": rate(P2)},
    "lindemann": {"equation": "H + O2 (+M) <=> HO2 (+M)", "type": "falloff", "low-P-rate-constant": rate(P1), "high-P-rate-constant": rate(P2), "efficiencies": {"AR": 0.75}},
    "falloff collider": {"equation": "H + O2 (+AR) <=> HO2 (+AR)", "type": "falloff", "low-P-rate-constant": rate(P1), "high-P-rate-constant": rate(P2)},
    "troe": {"equation": "H + O2 (+M) <=> HO2 (+M)", "type": "falloff", "low-P-rate-constant": rate(P1), "high-P-rate-constant": rate(P2),
             "Troe": dict(A=0.75, T3=94.5, T1=1756.0), "efficiencies": {"AR": 0.75, "H2": 2.0}},
    "troe4": {"equation": "H + O2 (+M) <=> HO2 (+M)", "type": "falloff", "low-P-rate-constant": rate(P1), "high-P-rate-constant": rate(P2),
              "Troe": dict(A=0.75, T3=94.5, T1=1756.0, T2=5182.0)},
    "sri3": {"equation": "H + O2 (+M) <=> HO2 (+M)", "type": "falloff", "low-P-rate-constant": rate(P1), "high-P-rate-constant": rate(P2), "SRI": dict(A=0.5, B=94.0, C=1756.0)},
    "sri5": {"equation": "H + O2 (+M) <=> HO2 (+M)", "type": "falloff", "low-P-rate-constant": rate(P1), "high-P-rate-constant": rate(P2),
             "SRI": dict(A=0.5, B=94.0, C=1756.0, D=1.25, E=0.125)},
    "tsang": {"equation": "H + O2 (+M) <=> HO2 (+M)", "type": "falloff", "low-P-rate-constant": rate(P1), "high-P-rate-constant": rate(P2), "Tsang": dict(A=0.95, B=-1e-4)},
    "activated": {"equation": "H + O2 (+M) <=> OH + O (+M)", "type": "chemically-activated", "low-P-rate-constant": rate(P1), "high-P-rate-constant": rate(P2),
                  "Troe": dict(A=0.75, T3=94.5, T1=1756.0)},
    "plog": {"equation": "H + O2 <=> OH + O", "type": "pressure-dependent-Arrhenius",
             "rate-constants": [dict(P="0.1 atm", **rate(P0)), dict(P="1.0 atm", **rate(P1)), dict(P="10.0 atm", **rate(P2))]},
    "three-body blowers": {"equation": "H + O2 + M <=> HO2 + M", "type": "three-body-Blowers-Masel", "efficiencies": {"AR": 0.75, "H2O": 11.5},
                           "rate-constant": {"A": 3.87e4, "b": 2.7, "Ea0": 6260.0, "w": 1e5}},
    "chebyshev": {"equation": "H + O2 <=> OH + O", "type": "Chebyshev", "temperature-range": [300.0, 2500.0], "pressure-range": ["0.1 atm", "10.0 atm"],
                  "data": [[8.5, 0.25, -0.125], [0.5, -0.125, 0.75]]},
    "blowers": {"equation": "H + O2 <=> OH + O", "type": "Blowers-Masel", "rate-constant": {"A": 3.87e4, "b": 2.7, "Ea0": 6260.0, "w": 1e5}},
}
FILLER = {"equation": "O + OH <=> HO2", "rate-constant": rate(P2)}
#: other equations, and the same equation written in other ways
ALTERNATIVES = {"coefficients": ["6 O => 1.5 O2 + 3 O"], "coefficients back": ["1.5 O2 + 3 O => 6 O"],
                "tiny": ["2 H2 + 4 O => 4 OH", "H2 + 2 O => O2 + H2", "H2 + O2 => 2 OH", "H2 + 2 O => H + HO2"],
                "elementary": ["H + O2 => HO2", "HO2 => OH + O", "2 H + 2 O2 => 2 OH + 2 O", "H + O2 <=> OH + O", "H + OH => H2 + O", "H2 + O => OH + H", "2 H => H2"], "reversible": ["2 H2 + 2 O <=> 2 H + 2 OH", "H2 + O <=> H2O", "H2 + O <=> 2 H + O", "H2O <=> H + OH", "H2 + O => H + OH", "H + OH <=> H2 + O", "H2 + O2 <=> 2 OH"],
                "three-body": ["H + O2 + M <=> OH + O + M", "OH + O + M <=> HO2 + M", "H + O2 + M => HO2 + M", "HO2 + M <=> H + O2 + M", "2 H + M <=> H2 + M", "H + O2 + H2 <=> HO2 + H2"],
                "collider": ["H + O2 + H2O <=> HO2 + H2O", "H + O2 + AR => HO2 + AR", "H + O2 + M <=> HO2 + M"],
                "lindemann": ["H + O2 (+M) <=> OH + O (+M)", "OH + O (+M) <=> HO2 (+M)", "H + O2 (+M) => HO2 (+M)", "HO2 (+M) <=> H + O2 (+M)", "2 H (+M) <=> H2 (+M)"],
                "falloff collider": ["H + O2 (+H2O) <=> HO2 (+H2O)", "H + O2 (+M) <=> HO2 (+M)"],
                "plog": ["H + O2 <=> HO2", "HO2 <=> OH + O", "H + O2 => OH + O", "OH + O <=> H + O2"], "chebyshev": ["H + O2 <=> HO2", "HO2 <=> OH + O", "H + O2 => OH + O", "OH + O <=> H + O2"], "activated": ["H + O2 (+M) => OH + O (+M)"],
                "blowers": ["H + O2 => OH + O"]}
SAME = {"elementary": ["O2 + H => O + OH"], "reversible": ["O + H2 <=> OH + H", "O + H2 = OH + H"], "three-body": ["O2 + H + M <=> HO2 + M", "H + M + O2 <=> HO2 + M"],
        "collider": ["O2 + H + AR <=> HO2 + AR"], "lindemann": ["O2 + H (+M) <=> HO2 (+M)", "H + O2 (+ M) <=> HO2 (+ M)"], "tiny": ["O + H2 + O => OH + OH"],
        "plog": ["O2 + H <=> O + OH"], "chebyshev": ["O2 + H <=> O + OH"], "blowers": ["O2 + H <=> O + OH"]}


# ------------------------------------------------------------------ models
def nasa(a=2.5, h=-745.0, s=4.25, mid=1000.0, lo=200.0, hi=3500.0):
    return {"model": "NASA7", "temperature-ranges": [lo, mid, hi],
            "data": [[a, 1e-3, -2e-7, 3e-10, -4e-14, h, s], [a + 1.0, 5e-4, -1e-7, 1e-11, -4e-15, h - 300.0, s - 2.0]]}


COMPOSITIONS = {"H2": {"H": 2}, "H": {"H": 1}, "O": {"O": 1}, "O2": {"O": 2}, "OH": {"O": 1, "H": 1}, "H2O": {"H": 2, "O": 1}, "HO2": {"H": 1, "O": 2}, "AR": {"Ar": 1}}


def species_entries():
    out = []
    for k, (s, c) in enumerate(COMPOSITIONS.items()):
        n = sum(c.values())
        out.append({"name": s, "composition": c, "thermo": nasa(2.5 + 0.125 * k, -745.0 + 1000.0 * k, 4.25 + 0.5 * k),
                    "transport": {"model": "gas", "geometry": "atom" if n == 1 else "linear" if n == 2 else "nonlinear", "well-depth": 80.0 + k, "diameter": 2.75 + 0.125 * k,
                                  "dipole": 0.5 + 0.25 * k, "polarizability": 0.25 + 0.5 * k, "rotational-relaxation": 1.0 + k}})
    return out


def document(reactions, species=None, units=None, **phase):
    S = species if species is not None else species_entries()
    doc = {"units": units or {"length": "cm", "quantity": "mol", "activation-energy": "cal/mol"},
           "phases": [dict({"name": "gas", "thermo": "ideal-gas", "elements": ["H", "O", "Ar", "N"], "species": [s["name"] for s in S], "kinetics": "gas", "reactions": "all"},
                           **phase)],
           "species": S, "reactions": reactions}
    if all("transport" in s for s in S):
        doc["phases"][0].setdefault("transport", "mixture-averaged")
    return doc


def load(doc):
    return ct.Solution(yaml=json.dumps(doc))


def leaves(x, path=()):
    """All places in a nested entry."""
    yield path, x
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))


def replaced(entry, path, value):
    new = copy.deepcopy(entry)
    at = new
    for k in path[:-1]:
        at = at[k]
    if value is DROP:
        del at[path[-1]]
    else:
        at[path[-1]] = value
    return new


DROP = object()


def number_changes(x, size=1.0):
    """(changed value, is it different?)"""
    yield x * 1.001 if x else 1e-3 * size, True
    yield x * 0.9 - (0.0 if x else 0.5 * size), True
    yield x * 2.0 + (0.0 if x else 7.0 * size), True
    if x:
        yield -x, True
        yield 0.0, True
        yield x * (1 + 4e-14), False
        yield x * (1 - 4e-14), False


def reaction_changes(name, e):
    """(description, changed entry, different?)"""
    for path, v in leaves(e):
        if not path or path[0] in ("equation", "negative-A", "nonreactant-orders", "negative-orders"):
            continue
        where = ".".join(map(str, path))
        if isinstance(v, bool):
            continue
        if isinstance(v, float):
            for w, different in number_changes(v):
                if path[-1] == "A" and w == 0.0 and path[0] not in ("Troe", "SRI", "Tsang"):
                    continue
                if not different and path[0] in ("efficiencies", "orders", "default-efficiency"):
                    continue  # no conversion of units, hence no roundoff
                yield f"{where}: {v} -> {w}", dict(replaced(e, path, w), **({"negative-A": True} if path[-1] == "A" and w < 0 else {})), different
        elif isinstance(v, str) and "atm" in v:
            x = float(v.split()[0])
            for f, different in ((1.001, True), (0.9, True), (1 + 4e-14, False)):
                yield f"{where}: x {f}", replaced(e, path, f"{x * f!r} atm"), different
        if path[:1] == ("efficiencies",):
            if len(path) == 1:
                for s in GAS:
                    if s not in v:
                        # an efficiency of 1 that is not the default, or another
                        yield f"efficiency of {s}", replaced(e, path, dict(v, **{s: 1.75})), True
                yield "no efficiencies", replaced(e, path, DROP), True
                # other species have them
                yield "efficiencies of others", replaced(e, path, {{"AR": "H", "H2O": "O2"}.get(k, k + ""): x for k, x in v.items()}), True
                yield "order of efficiencies", replaced(e, path, dict(reversed(list(v.items())))), False
            else:
                yield f"without {where}", replaced(e, path, DROP), True
        if path[:1] == ("orders",) and len(path) == 1:
            yield "no orders", replaced(e, path, DROP), True
            yield "order of another", replaced(e, path, dict(v, O2=1.0)), True
            yield "order of orders", replaced(e, path, dict(reversed(list(v.items())))), False
            for k in v:
                yield f"without order of {k}", replaced(e, path + (k,), DROP), True
    if "default-efficiency" not in e and "efficiencies" in e:
        for d in (0.0, 0.5, 2.0):
            yield f"default efficiency {d}", dict(e, **{"default-efficiency": d}), True
        yield "default efficiency 1", dict(e, **{"default-efficiency": 1.0}), False
    if "efficiencies" not in e and "M" in e["equation"]:
        yield "efficiency", dict(e, efficiencies={"AR": 0.5}), True
    for q in ALTERNATIVES.get(name, ()):
        new = dict(e, equation=q)
        if "M" not in q and "type" in new and "M" in e["equation"] and name == "three-body":
            new.pop("efficiencies", None)
        if "M" in q and "M" not in e["equation"] and name == "collider":
            new["type"] = "three-body"
        yield f"equation {q}", new, True
    for q in SAME.get(name, ()):
        yield f"equation {q}", dict(e, equation=q), False
    if "orders" not in e and name not in ("reversible",) and "<=>" not in e["equation"]:
        yield "an order", dict(e, orders={"H" if "H " in e["equation"] else "H2": 1.5}), True
    yield "note", dict(e, note="from somewhere"), False
    yield "id", dict(e, id="R17"), False
    # functions
    for fn in ("Troe", "SRI", "Tsang"):
        if fn in e:
            yield f"without {fn}", replaced(e, (fn,), DROP), True
            for other, value in (("Troe", dict(A=0.5, T3=94.0, T1=1756.0)), ("SRI", dict(A=0.5, B=94.0, C=1756.0))):
                if other != fn:
                    yield f"{other} for {fn}", dict(replaced(e, (fn,), DROP), **{other: value}), True
    if name == "troe":
        yield "4 parameters", replaced(e, ("Troe", "T2"), 5182.0), True
    if name == "troe4":
        yield "3 parameters", replaced(e, ("Troe", "T2"), DROP), True
    if name == "sri3":
        yield "5 parameters", dict(e, SRI=dict(e["SRI"], D=1.25, E=0.125)), True
    if name == "lindemann":
        yield "Troe", dict(e, Troe=dict(A=0.75, T3=94.5, T1=1756.0)), True
        yield "SRI", dict(e, SRI=dict(A=0.5, B=94.0, C=1756.0)), True
    if "low-P-rate-constant" in e:
        yield "limits exchanged", dict(e, **{"low-P-rate-constant": e["high-P-rate-constant"], "high-P-rate-constant": e["low-P-rate-constant"]}), True
        other = {"falloff": "chemically-activated", "chemically-activated": "falloff"}[e["type"]]
        if "AR)" not in e["equation"]:
            yield f"type {other}", dict(e, type=other), True
    if name == "plog":
        R = e["rate-constants"]
        for k in range(3):
            yield f"without pressure {k}", dict(e, **{"rate-constants": R[:k] + R[k + 1:]}), True
            yield f"pressure {k} twice", dict(e, **{"rate-constants": R[:k + 1] + R[k:]}), True
        yield "pressures exchanged", dict(e, **{"rate-constants": [dict(r, P=s["P"]) for r, s in zip(R, R[::-1])]}), True
        for p in itertools.permutations(R):
            yield "order of pressures", dict(e, **{"rate-constants": list(p)}), False
        yield "bar", dict(e, **{"rate-constants": [dict(r, P=f"{float(r['P'].split()[0]) * 1.01325!r} bar") for r in R]}), False
    if name == "chebyshev":
        D = e["data"]
        yield "transposed", dict(e, data=[list(x) for x in zip(*D)]), True
        yield "fewer temperatures", dict(e, data=D[:1]), True
        yield "fewer pressures", dict(e, data=[x[:2] for x in D]), True
        yield "more pressures", dict(e, data=[x + [0.0625] for x in D]), True
        yield "more temperatures", dict(e, data=D + [[0.5, 0.5, 0.5]]), True
        yield "rows exchanged", dict(e, data=D[::-1]), True
    # of another kind
    if name in ("elementary", "reversible"):
        yield "PLOG", {"equation": e["equation"], "type": "pressure-dependent-Arrhenius", "rate-constants": [dict(P="1.0 atm", **e["rate-constant"])]}, True
        yield "Chebyshev", dict(KINDS["chebyshev"], equation=e["equation"]), True
        yield "Blowers-Masel", dict(KINDS["blowers"], equation=e["equation"]), True
    if name == "three-body":
        yield "falloff", dict(KINDS["lindemann"], efficiencies=e["efficiencies"]), True
        yield "without M", {"equation": "H + O2 <=> HO2", "rate-constant": e["rate-constant"]}, True
        yield "fixed collider", {"equation": "H + O2 + AR <=> HO2 + AR", "rate-constant": e["rate-constant"]}, True
    if name == "collider":
        yield "factor", dict(e, efficiencies={"AR": 2.0}), True


TEMPERATURES = (500.0, 1000.0, 2000.0)


def values(t):
    out = []
    for T in TEMPERATURES:
        out += [t.cp(T) / ct.gas_constant, t.h(T) / ct.gas_constant / T, t.s(T) / ct.gas_constant]
    return np.array(out)


def species_changes(s):
    """(description, changed entry, different? (None: see the thermodynamic values))"""
    for path, v in leaves(s):
        where = ".".join(map(str, path))
        if isinstance(v, float) and path[0] == "thermo":
            for w, different in number_changes(v):
                if path[1] == "temperature-ranges" and (w <= 0 or w in (v * 2,)):
                    continue
                if not different and path[1] == "temperature-ranges":
                    continue  # the two ranges give different values at their common end
                yield f"{where}: {v} -> {w}", replaced(s, path, w), None if different else False
        elif isinstance(v, float) and path[0] == "transport":
            for w in (v * 1.001, v * 0.9, 0.0):
                if w == 0.0 and path[1] in ("well-depth", "diameter"):
                    continue
                yield f"{where}: {v} -> {w}", replaced(s, path, w), True
        elif isinstance(v, int) and not isinstance(v, bool) and path[0] == "composition":
            pass  # together with the geometry, below
    for e in ("H", "O", "Ar", "N"):
        for k in (0, 1, 2):
            if s["composition"].get(e, 0) != k:
                c = {**s["composition"], e: k}
                c = {a: b for a, b in c.items() if b}
                if c:
                    yield f"{k} {e}", dict(s, composition=c, transport=dict(s["transport"], geometry=geometry(c))), True
    yield "order of composition", dict(s, composition=dict(reversed(list(s["composition"].items())))), False
    n = sum(s["composition"].values())
    if n > 2:
        pass
    yield "note", dict(s, note="from somewhere"), False
    yield "transport note", dict(s, transport=dict(s["transport"], note="from elsewhere")), False
    t = s["thermo"]
    yield "thermo note", dict(s, thermo=dict(t, note="measured")), False
    yield "ranges exchanged", dict(s, thermo=dict(t, data=t["data"][::-1])), None
    yield "another kind of data", dict(s, thermo={"model": "constant-cp", "h0": "-1.0 kJ/mol", "s0": "50.0 J/mol/K", "cp0": "29.0 J/mol/K"}), None
    yield "one range", dict(s, thermo={"model": "NASA7", "temperature-ranges": [200.0, 3500.0], "data": t["data"][:1]}), None
    yield "acentric factor", dict(s, transport=dict(s["transport"], **{"acentric-factor": 0.25})), True
    yield "dispersion coefficient", dict(s, transport=dict(s["transport"], **{"dispersion-coefficient": 2.5})), True
    yield "quadrupole polarizability", dict(s, transport=dict(s["transport"], **{"quadrupole-polarizability": 0.5})), True


def geometry(c):
    n = sum(c.values())
    return "atom" if n == 1 else "linear" if n == 2 else "nonlinear"


# ------------------------------------------------------------------ comparing
def compare(ctx, a, b, expected, where, detail):
    """Compares both ways."""
    out = []
    for x, y, w in ((a, b, ""), (b, a, ", the other way")):
        r = mc.outcome(lambda: tools.compare_models(x, y), limit=20.0)
        ctx.check(r[0] == "ok", "comparison fails", f"{where}{w}: {r[1:]}", detail)
        out.append(bool(r[1]))
        ctx.transition()
    ctx.check(out[0] == out[1], "symmetry", f"{where}: {out[0]} one way, {out[1]} the other", detail)
    if expected is not None:
        ctx.check(out[0] == expected, "equal models" if expected else "different models", f"{where}: comparison is {out[0]}, not {expected}", detail)
    ctx.trace()
    return out[0]


def mixed_model():
    """Many kinds of reactions in one model."""
    own = {"elementary": "H + OH => H2 + O", "reversible": "H2 + O <=> H + OH", "collider": "2 H + AR <=> H2 + AR"}
    out = [dict(KINDS["reversible"]), dict(KINDS["three-body"], equation="2 H + M <=> H2 + M"), dict(KINDS["troe"]), dict(KINDS["plog"]),
           dict(KINDS["chebyshev"], equation="H2 + O2 <=> 2 OH"), dict(KINDS["elementary"], equation="HO2 + H => 2 OH")]
    return out


def reaction_part(scn, ctx):
    name = scn["kind"]
    e = KINDS[name]
    here = e["equation"].replace("<=>", "=>")
    rest = [r for r in mixed_model() if r["equation"].replace("<=>", "=>") != here and
            r["equation"].replace(" (+M)", "").replace("<=>", "=>") != here.replace(" (+M)", "").replace(" (+AR)", "").replace(" + M", "").replace(" + AR", "")]
    rest = [r for r in rest if sorted(r["equation"].replace("<=>", "=>").split(" => ")) != sorted(here.split(" => "))]
    settings = [("alone", [], 0)] + [(f"at {k}", rest, k) for k in ((0, len(rest)) if ctx.tier != "thorough" else range(len(rest) + 1))]
    for label, others, k in settings:
        def model(x):
            return load(document(others[:k] + [x] + others[k:]))

        base = model(e)
        again = model(e)
        compare(ctx, base, base, True, f"{name} {label} with itself", {"reaction": e})
        compare(ctx, base, again, True, f"{name} {label} with itself", {"reaction": e})
        for what, changed, different in reaction_changes(name, e):
            if ctx.out_of_time():
                return
            try:
                other = model(changed)
            except ct.CanteraError:
                ctx.count("changes Cantera does not accept")
                continue
            compare(ctx, base, other, not different, f"{name} {label}: {what}", {"one": e, "other": changed, "others": others})
            ctx.evaluated((name, label, what))
            ctx.state((name, what))
        # flagged as a duplicate (which Cantera only accepts with another one when loading)
        for i in range(base.n_reactions):
            again.reaction(i).duplicate = not again.reaction(i).duplicate
            compare(ctx, base, again, False, f"{name} {label}: reaction {i} flagged as a duplicate", {"reaction": e})
            again.reaction(i).duplicate = not again.reaction(i).duplicate
        compare(ctx, base, again, True, f"{name} {label} with itself", {"reaction": e})
        # with less and more
        R = others[:k] + [e] + others[k:]
        for j in range(len(R)):
            compare(ctx, base, load(document(R[:j] + R[j + 1:])), False, f"{name} {label}: without reaction {j}", {"reactions": R})
        compare(ctx, base, load(document(R + [FILLER])), False, f"{name} {label}: with another reaction", {"reactions": R})
        compare(ctx, base, load(document([dict(FILLER, equation="2 AR => 2 AR")] + R)), False, f"{name} {label}: with another reaction", {"reactions": R})
        # among other reactions: the same with both orders of the list, gone, and twice
        if others:
            compare(ctx, base, load(document((others[:k] + [e] + others[k:])[::-1])), True, f"{name} {label}: reactions the other way around", {"reaction": e})
            compare(ctx, base, load(document(others)), False, f"{name} {label}: without it", {"reaction": e})
            for j in range(len(others)):
                compare(ctx, base, load(document(others[:j] + others[j + 1:] + [e, FILLER])), False, f"{name} {label}: reaction {j} replaced", {"reaction": e})
    ctx.sample({"kind": name})


def species_part(scn, ctx):
    S = species_entries()
    R = mixed_model() if scn["reactions"] else []
    k = scn["species"]
    base = load(document(R, S))
    for what, changed, different in species_changes(S[k]):
        if ctx.out_of_time():
            return
        if R and "composition" in changed and {a: b for a, b in changed["composition"].items() if b} != S[k]["composition"]:
            continue  # the reactions are balanced
        if "constant-cp" == changed["thermo"]["model"] and not R:
            pass
        try:
            other = load(document(R, S[:k] + [changed] + S[k + 1:]))
        except ct.CanteraError:
            ctx.count("changes Cantera does not accept")
            continue
        if different is None:
            u, v = values(base.species(k).thermo), values(other.species(k).thermo)
            err = np.max(np.abs(u - v) / np.maximum(np.abs(u), 1e-3))
            different = None if 1e-12 < err < 1e-3 else bool(err >= 1e-3)
            if err == 0.0:
                # at other temperatures they may differ
                different = None
                ctx.count("changes without effect at the temperatures compared")
        compare(ctx, base, other, None if different is None else not different, f"species {S[k]['name']}: {what}", {"species": changed})
        ctx.evaluated((k, bool(R), what))
        ctx.state((k, what))
    if not R:
        # another name, or the data of another species
        compare(ctx, base, load(document(R, S[:k] + [dict(S[k], name="X")] + S[k + 1:])), False, f"species {S[k]['name']} called X", {"species": k})
        for j in range(len(S)):
            if j != k:
                T = copy.deepcopy(S)
                T[j]["name"], T[k]["name"] = T[k]["name"], T[j]["name"]
                compare(ctx, base, load(document(R, T)), False, f"names of {S[k]['name']} and {S[j]['name']} exchanged", {"species": (k, j)})
                for part in ("thermo", "transport"):
                    T = copy.deepcopy(S)
                    T[j][part], T[k][part] = T[k][part], T[j][part]
                    if part == "transport":
                        T[j][part]["geometry"], T[k][part]["geometry"] = T[k][part]["geometry"], T[j][part]["geometry"]
                    compare(ctx, base, load(document(R, T)), False, f"{part} of {S[k]['name']} and {S[j]['name']} exchanged", {"species": (k, j)})
        compare(ctx, base, load(document(R, S[:k] + S[k + 1:])), False, f"without species {S[k]['name']}", {"species": k})
        compare(ctx, base, load(document(R, S + [dict(S[k], name="X")])), False, f"with a species like {S[k]['name']}", {"species": k})
    # without the transport data of this species, or of all
    one = load(document(R, S[:k] + [{a: b for a, b in S[k].items() if a != "transport"}] + S[k + 1:]))
    none = load(document(R, [{a: b for a, b in s.items() if a != "transport"} for s in S]))
    for x, y, w in ((base, one, "one species"), (base, none, "all species"), (one, none, "all but one species")):
        compare(ctx, x, y, True, f"no transport data of {w}", {"species": k})
    for x, w in ((one, "one species"), (none, "all species")):
        compare(ctx, x, x, True, f"itself without transport data of {w}", {"species": k})
    T = [{a: b for a, b in s.items() if a != "transport"} for s in S]
    T[k] = dict(T[k], thermo=nasa(5.0))
    compare(ctx, none, load(document(R, T)), False, f"species {S[k]['name']} without transport data: thermo", {"species": k})


def order_part(scn, ctx):
    """Every order of species and reactions."""
    S = species_entries()[:scn["n"]]
    names = {s["name"] for s in S}
    pool = [{"equation": "2 H <=> H2", "rate-constant": rate(P0)}, {"equation": "2 H + M <=> H2 + M", "type": "three-body", "rate-constant": rate(P1), "efficiencies": {"H": 2.0}},
            {"equation": "2 O <=> O2", "type": "pressure-dependent-Arrhenius", "rate-constants": KINDS["plog"]["rate-constants"]},
            {"equation": "2 O (+M) <=> O2 (+M)", "type": "falloff", "low-P-rate-constant": rate(P1), "high-P-rate-constant": rate(P2), "Troe": dict(A=0.75, T3=94.5, T1=1756.0)}]
    dup = [[dict(pool[0], duplicate=True), dict(pool[0], duplicate=True, **{"rate-constant": rate(p)})] for p in ((P0[0], 0.5, 0.0), (9.99999e11, 0.0, 0.0), P2)]
    three = [dict(pool[0], duplicate=True, **{"rate-constant": rate(p)}) for p in (P0, P1, P2)]
    chem = [[*pool[:4]], [*dup[0], pool[3]], [*dup[1], pool[2]], [*dup[2], pool[1]], three,
            [dict(x, duplicate=True) for x in (pool[3], dict(pool[3], **{"low-P-rate-constant": rate(P0)}), dict(pool[3], Troe=dict(A=0.5, T3=94.5, T1=1756.0)))],
            [dict(x, duplicate=True) for x in (pool[2], dict(pool[2], **{"rate-constants": KINDS["plog"]["rate-constants"][:2]}))] + [pool[0]],
            [dict(x, duplicate=True) for x in (pool[1], dict(pool[1], efficiencies={"O": 2.0}), dict(pool[1], efficiencies={"H": 2.0, "O": 2.0}))],
            [dict(x, duplicate=True) for x in (KINDS["chebyshev"], dict(KINDS["chebyshev"], data=[[3.5, 0.25]]))] + [pool[0]],
            [dict(x, duplicate=True) for x in (dict(KINDS["orders"], equation="2 H => H2", orders={"H": 1.5}), dict(KINDS["orders"], equation="2 H => H2", orders={"H": 0.5}))]]
    R = chem[scn["chemistry"]]
    if any(not set(r["equation"].replace("(+M)", "").replace("<=>", "").replace("=>", "").replace("+", "").split()) - {"2", "M"} <= names for r in R):
        S = species_entries()
        S = [S[i] for i in (0, 1, 2, 3, 4)]
    base = load(document(R, S))
    for p in itertools.permutations(range(len(S))):
        if p[0] != scn["first"]:
            continue
        for q in itertools.permutations(range(len(R))):
            if ctx.out_of_time():
                return
            if ctx.tier != "thorough" and sum(p) and p != tuple(sorted(p)) and q != tuple(range(len(R))) and (p[-1] + q[-1]) % 3:
                continue
            other = load(document([R[i] for i in q], [S[i] for i in p]))
            compare(ctx, base, other, True, f"chemistry {scn['chemistry']}: species {p}, reactions {q}", {"reactions": R})
            ctx.evaluated((scn["chemistry"], p, q))
            ctx.state((p, q))
    # roundoff must not matter for the order of duplicates
    for f in (1 + 4e-14, 1 - 4e-14):
        T = json.loads(json.dumps(R))
        for r in T:
            for c in [r[k] for k in ("rate-constant", "low-P-rate-constant", "high-P-rate-constant") if k in r] + r.get("rate-constants", []):
                c["A"] *= f
        for q in itertools.permutations(range(len(R))):
            compare(ctx, base, load(document([T[i] for i in q], S)), True, f"chemistry {scn['chemistry']}: reactions {q}, factors x {f!r}", {"reactions": R})
    # one of them differs
    for i, r in enumerate(R):
        for k in ("rate-constant", "low-P-rate-constant", "high-P-rate-constant"):
            if k in r:
                for what in ("A", "b", "Ea"):
                    T = R[:i] + [dict(r, **{k: dict(r[k], **{what: r[k][what] * 1.01 + (0.0 if what == "A" else 0.125)})})] + R[i + 1:]
                    for q in itertools.permutations(range(len(R))):
                        compare(ctx, base, load(document([T[j] for j in q], S)), False, f"chemistry {scn['chemistry']}: {k}.{what} of reaction {i} changed, reactions {q}",
                                {"reactions": R})
    ctx.sample({"chemistry": R})


def notation_part(scn, ctx):
    """The same model in other units and files."""
    R, S = mixed_model(), species_entries()
    base = load(document(R, S))
    factor = {"cm": 1.0, "m": 1e-2}
    for length, quantity, energy in itertools.product(("cm", "m"), ("mol", "kmol"), ("cal/mol", "kcal/mol", "J/kmol", "K")):
        T = []
        f = 1.0
        for r in R:
            r = json.loads(json.dumps(r))
            n = sum(float(t.split()[0]) if " " in t.strip() else 1.0 for t in r["equation"].replace("(+M)", "").replace("<=>", "=>").split("=>")[0].strip().split(" + "))
            unit = (1e-6 if length == "m" else 1.0) * (1e3 if quantity == "kmol" else 1.0)
            ratio = {"cal/mol": 1.0, "kcal/mol": 1e-3, "J/kmol": 4184.0, "K": 4184.0 / ct.gas_constant}[energy]
            for k in ("rate-constant", "high-P-rate-constant", "low-P-rate-constant"):
                if k in r:
                    m = n - 1 + (k[:3] == "low")
                    r[k] = dict(r[k], A=r[k]["A"] * unit ** m, Ea=r[k]["Ea"] * ratio)
            for c in r.get("rate-constants", []):
                c.update(A=c["A"] * unit ** (n - 1), Ea=c["Ea"] * ratio)
            if "data" in r:
                r["units"] = {"length": "cm", "quantity": "mol"}
            T.append(r)
        try:
            other = load(document(T, S, units={"length": length, "quantity": quantity, "activation-energy": energy}))
        except ct.CanteraError as err:
            raise RuntimeError(f"{length} {quantity} {energy}: {err}")
        compare(ctx, base, other, True, f"units {length} {quantity} {energy}", {"reactions": T})
        ctx.evaluated(("units", length, quantity, energy))
    compare(ctx, base, load(document(R, S, name="other")), True, "name of the phase", {})
    compare(ctx, base, load(document(R, S, state={"T": 1500.0, "P": 5e5, "X": {"AR": 1.0}})), True, "state of the phase", {})
    compare(ctx, base, load(document(R, S, transport="multicomponent")), True, "transport model", {})
    # neither model is changed
    other = load(document(R, S))
    for g in (base, other):
        g.TPX = 1234.0, 5e5, "H2:1, O2:2, AR:3"
        g.set_multiplier(0.5, 1)
    before = [(g.state.tolist(), [g.multiplier(i) for i in range(g.n_reactions)]) for g in (base, other)]
    compare(ctx, base, other, True, "at another state", {})
    ctx.check(before == [(g.state.tolist(), [g.multiplier(i) for i in range(g.n_reactions)]) for g in (base, other)], "state", "comparing changed the state of a model", {})
    for a, b in itertools.product(("h2o2.yaml", "gri30.yaml", "ohn.yaml"), repeat=2):
        compare(ctx, ct.Solution(a), ct.Solution(b), a == b, f"{a} and {b}", {})
        ctx.evaluated(("mechanisms", a, b))
    ctx.state("notation")


def pairs_of(tier, equation):
    """Reactions of one equation."""
    out = []
    for descr, e, _ in c20.variants(tier):
        if e["equation"].replace("<=>", "=>").replace(" (+M)", "").replace(" (+AR)", "").replace(" + M", "") != equation:
            continue
        if tier == "thorough" or keep(descr):
            out.append(e)
    return out


def keep(d):
    """A part of the falloff reactions, all others."""
    if d["kind"] in ("falloff", "chemically-activated"):
        return d["low"] in (c20.PARAMS[0], c20.PARAMS[4]) and d["eff"] in (None, c20.EFFS[2])
    return True


def pairs_part(scn, ctx):
    V = pairs_of("quick", scn["equation"])
    models = []
    for e in V:
        try:
            models.append((e, ct.Solution(yaml=c20.HEAD + " " + json.dumps([e]))))
        except ct.CanteraError:
            ctx.count("reactions Cantera does not accept")
    n = len(models)
    if n < 0.8 * len(V):
        raise RuntimeError(f"{len(V) - n} of {len(V)} reactions are not accepted")
    ctx.count("models", n if scn["part_no"] == 0 else 0)
    for i in range(scn["part_no"], n, scn["parts"]):
        for j in range(i, n):
            if ctx.out_of_time():
                return
            a, b = models[i], models[j]
            compare(ctx, a[1], b[1], a[0] == b[0] or equivalent(a[0], b[0]), f"{a[0]} and {b[0]}", {"one": a[0], "other": b[0]})
        ctx.evaluated((scn["equation"], i))
        ctx.state((scn["equation"], i))


def equivalent(a, b):
    """None if these may be taken for the same reaction or not."""
    def normal(e):
        e = json.loads(json.dumps(e))
        if e.get("default-efficiency") == 1.0:
            del e["default-efficiency"]
        for k in ("negative-A", "nonreactant-orders", "negative-orders"):
            e.pop(k, None)
        return e

    x, y = normal(a), normal(b)
    return True if x == y else False


def scenarios(tier, seed):
    S = [dict(part="reaction", kind=k) for k in KINDS]
    S += [dict(part="species", species=k, reactions=r) for k in range(len(GAS)) for r in (False, True)]
    S += [dict(part="order", n=4, chemistry=c, first=f) for c in range(10) for f in range(4)]
    S += [dict(part="notation")]
    eqs = c20.EQUATIONS if tier == "thorough" else ["2 OH => H2O + O"]
    for e in eqs:
        S += [dict(part="pairs", equation=e, part_no=k, parts=32) for k in range(32)]
    return S


def run(scn, ctx):
    {"reaction": reaction_part, "species": species_part, "order": order_part, "notation": notation_part, "pairs": pairs_part}[scn["part"]](scn, ctx)
