import itertools
import os

import numpy as np

import env
import mc
from env import ct

ID = "C01"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of reaction forms x removal subsets (and removal sequences) on the real code"
NOTE = ("Every subset of species is removed from mechanisms containing each reaction form alone, all forms together and pairs of forms; "
        "the result in memory and re-read from its file is compared with the declared structure and, numerically, with the original's rates.")
RULE = ("reaction forms x all proper subsets of the six species removed, plus all two-step removal sequences on the complete mechanism; "
        "a state is one (mechanism, removed set); trivial if nothing is removed")
ASSUMPTIONS = ["Cantera evaluates rates rightly", "agreement of rates to 1e-9 relative (1e-7 after re-reading the written file)"]
BOUNDS = "six species, one reaction per form"

SP = ["A", "B", "C", "D", "E", "N"]
TR = """  transport:
    model: gas
    geometry: linear
    diameter: {d}
    well-depth: {w}
    polarizability: {p}
    rotational-relaxation: {r}
"""

K = "{A: 1.2e+10, b: 0.5, Ea: 1200.0}"
K2 = "{A: 3.4e+12, b: -0.3, Ea: 800.0}"
# (name, yaml lines, species it needs, colliders (explicit) or None, efficiencies)
FORMS = [
    ("elementary", ["equation: A + B <=> C + D", f"rate-constant: {K}"], "ABCD", None, None),
    ("irreversible", ["equation: A => B", "rate-constant: {A: 1.0e+3, b: 0, Ea: 0}"], "AB", None, None),
    ("third-body", ["equation: A + M <=> B + M", f"rate-constant: {K}", "type: three-body",
                    "efficiencies: {C: 2.5, N: 0.0, E: 0.3}"], "AB", None, {"C": 2.5, "N": 0.0, "E": 0.3}),
    ("third-body-one", ["equation: C + M <=> D + M", f"rate-constant: {K}", "type: three-body",
                        "efficiencies: {E: 6.0}"], "CD", None, {"E": 6.0}),
    ("third-body-plain", ["equation: C + M <=> B + M", f"rate-constant: {K}", "type: three-body"], "BC", None, {}),
    ("third-body-default", ["equation: D + M <=> B + M", f"rate-constant: {K}", "type: three-body", "default-efficiency: 0.5",
                            "efficiencies: {A: 2.0, C: 1.0}"], "BD", None, {"A": 2.0, "C": 1.0}),
    ("collider", ["equation: A + N <=> C + N", f"rate-constant: {K}"], "AC", "N", None),
    ("collider-factor", ["equation: A + M <=> D + M", f"rate-constant: {K}", "type: three-body", "default-efficiency: 0.0",
                         "efficiencies: {N: 1.5, E: 2.0}"], "AD", "NE", None),
    ("falloff", ["equation: A + C (+M) <=> D (+M) + B", "type: falloff", f"low-P-rate-constant: {K2}", f"high-P-rate-constant: {K}",
                 "Troe: {A: 0.6, T3: 100.0, T1: 1500.0, T2: 5000.0}", "efficiencies: {N: 0.7, E: 5.0}"], "ABCD", None,
     {"N": 0.7, "E": 5.0}),
    ("falloff-lindemann", ["equation: B (+M) <=> E (+M)", "type: falloff", f"low-P-rate-constant: {K2}", f"high-P-rate-constant: {K}",
                           "efficiencies: {A: 0.5}"], "BE", None, {"A": 0.5}),
    ("falloff-collider", ["equation: B (+N) <=> D (+N)", "type: falloff", f"low-P-rate-constant: {K2}",
                          f"high-P-rate-constant: {K}", "SRI: {A: 0.5, B: 200.0, C: 900.0}"], "BD", "N", None),
    ("activated", ["equation: A + E (+M) <=> C + D (+M)", "type: chemically-activated", f"low-P-rate-constant: {K}",
                   f"high-P-rate-constant: {K2}", "efficiencies: {B: 3.0}"], "ACDE", None, {"B": 3.0}),
    ("plog", ["equation: B + C <=> D + E", "type: pressure-dependent-Arrhenius", "rate-constants:",
              "- {P: 0.1 atm, A: 1.0e+10, b: 0.1, Ea: 100.0}", "- {P: 1.0 atm, A: 5.0e+10, b: 0.2, Ea: 300.0}",
              "- {P: 10.0 atm, A: 9.0e+10, b: 0.3, Ea: 500.0}"], "BCDE", None, None),
    ("chebyshev", ["equation: E <=> A", "type: Chebyshev", "temperature-range: [300.0, 2000.0]", "pressure-range: [0.01 atm, 100 atm]",
                   "data: [[4.0, -0.3, 0.05], [0.6, 0.2, -0.01]]"], "AE", None, None),
    ("duplicate", ["equation: D => E", "rate-constant: {A: 5.0e+2, b: 0, Ea: 10.0}", "duplicate: true"], "DE", None, None),
    ("duplicate-2", ["equation: D => E", "rate-constant: {A: 7.0e+2, b: 0.1, Ea: 20.0}", "duplicate: true"], "DE", None, None),
    ("duplicate-3", ["equation: D => E", "rate-constant: {A: 5.0e+2, b: 0, Ea: 10.0}", "duplicate: true"], "DE", None, None),
    ("order", ["equation: A + D => B + E", f"rate-constant: {K}", "orders: {A: 0.5, D: 1.5}"], "ABDE", None, None),
    ("order-other", ["equation: C => E", f"rate-constant: {K}", "orders: {B: 0.5}", "nonreactant-orders: true"], "BCE", None, None),
    ("negative-order", ["equation: C + E => B + D", f"rate-constant: {K}", "orders: {C: -0.5, E: 1.0}", "negative-orders: true"],
     "BCDE", None, None),
    ("negative-A", ["equation: A + A => E + B", "rate-constant: {A: -3.0e+8, b: 0.2, Ea: 5.0}", "negative-A: true"], "ABE", None, None),
    ("autocatalytic", ["equation: B + E => E + E", f"rate-constant: {K}"], "BE", None, None),
    ("blowers-masel", ["equation: C + D <=> A + E", "type: Blowers-Masel",
                       "rate-constant: {A: 3.87e+04, b: 2.7, Ea0: 6260.0, w: 1.0e+9}"], "ACDE", None, None),
]
#: (two of the three duplicates are identical)
PAIRED = {f"duplicate{a}": [f"duplicate{b}" for b in ("", "-2", "-3") if b != a] for a in ("", "-2", "-3")}


#: thermodynamic data of other kinds than two-range NASA polynomials
THERMO = {
    "C": ["    model: NASA9", "    temperature-ranges: [200.0, 1000.0, 3500.0]", "    data:",
          "    - [1.0e+3, -10.0, 3.6, -2.0e-03, 8.0e-06, -7.0e-09, 2.0e-12, -1000.0, 3.5]",
          "    - [2.0e+3, -20.0, 3.4, 1.2e-03, -6.0e-07, 1.5e-10, -1.0e-14, -1000.0, 5.0]"],
    "D": ["    model: Shomate", "    temperature-ranges: [200.0, 1000.0, 3500.0]", "    data:",
          "    - [25.6, 6.1, 4.1, -2.7, 0.13, -118.0, 227.4]", "    - [35.2, 1.3, -0.2, 0.01, -3.3, -127.8, 231.7]"],
    "E": ["    model: constant-cp", "    T0: 298.15", "    h0: -3.0 kcal/mol", "    s0: 40.0 cal/mol/K", "    cp0: 8.0 cal/mol/K"],
    "N": ["    model: NASA7", "    temperature-ranges: [200.0, 3500.0]", "    data:",
          "    - [3.5, 1.0e-04, 0.0, 0.0, 0.0, -1020.0, 4.0]"],
}


def mechanism(forms, transport=True, phases=("gas",), thermo=""):
    L = ["units: {length: cm, quantity: mol, activation-energy: cal/mol}", "phases:"]
    for ph in phases:
        L += [f"- name: {ph}", "  thermo: ideal-gas", "  elements: [O]", "  species: [" + ", ".join(SP) + "]",
              "  kinetics: gas", "  reactions: all" if ph == phases[0] else "  reactions: none",
              "  state: {T: %s, P: %s atm}" % ((650.0, 2.0) if ph == phases[0] else (400.0, 3.0))]
        if transport:
            L.append(f"  transport: {'mixture-averaged' if transport is True else transport}")
    L.append("species:")
    for i, s in enumerate(SP):
        L += [f"- name: {s}", "  composition: {O: 2}", "  thermo:"]
        L += THERMO[s] if thermo and s in THERMO else ["    model: NASA7",
              "    temperature-ranges: [200.0, 1000.0, 3500.0]", "    data:",
              f"    - [{3.5 + 0.1 * i}, -2.9e-03, 9.8e-06, -9.6e-09, 3.2e-12, {-1063.9 + 50 * i}, {3.6 + 0.2 * i}]",
              f"    - [{3.2 + 0.1 * i}, 1.4e-03, -7.5e-07, 2.0e-10, -2.1e-14, {-1088.4 + 50 * i}, {5.4 + 0.2 * i}]"]
        if transport:
            L += TR.format(d=3.0 + 0.1 * i, w=100.0 + 5 * i, p=1.6 + i / 10, r=3.8 + i).rstrip().split("\n")
    L.append("reactions:" if forms else "reactions: []")
    for f in forms:
        for n, line in enumerate(f[1]):
            L.append(("- " if n == 0 else "  ") + line)
    return "\n".join(L) + "\n"


def by_name(name):
    return next(f for f in FORMS if f[0] == name)


def combos(tier):
    out = [["all"]]
    done = set()
    for f in FORMS:
        g = [f[0]] + PAIRED.get(f[0], [])
        if frozenset(g) not in done:
            done.add(frozenset(g))
            out.append(g)
    return out


def scenarios(tier, seed):
    S = [dict(part="subsets", forms=c, transport=tr) for c in combos(tier) for tr in ((True, False) if c == ["all"] else (True,))]
    S.append(dict(part="subsets", forms=[], transport=True))
    S += [dict(part="subsets", forms=["all"], transport=True, phases=["gas", "other"], phase=p) for p in ("gas", "other")]
    S += [dict(part="subsets", forms=["all"], transport=tr) for tr in ("multicomponent", "unity-Lewis-number", "none", "multicomponent-CK")]
    S.append(dict(part="subsets", forms=["all"], transport="none", thermo="mixed"))
    S += [dict(part="elements", element=e, custom=c) for e, c in (("own-name", True), ("other-weight", True), ("other-weight", False))]
    subsets = [list(c) for k in range(1, 4 if tier == "quick" else 5) for c in itertools.combinations(SP, k)]
    for i in range(0, len(subsets), 4):
        S.append(dict(part="sequence", subsets=subsets[i:i + 4]))
    if tier == "thorough":
        names = [c for c in combos(tier) if c != ["all"]]
        for a, b in itertools.combinations(names, 2):
            S.append(dict(part="subsets", forms=a + b, transport=False))
    return S


#: species of several elements, one of them custom: with a name of its own, or a standard one with another weight
ELEMENTS = {"own-name": ("Xx", 10.0), "other-weight": ("N", 15.0)}


def part_elements(scn, ctx):
    """Atomic weights are part of the model: removing species keeps the molecular weights of the others."""
    symbol, weight = ELEMENTS[scn["element"]]
    made_of = dict(zip(SP, ("{O: 2}", "{O: 1, %s: 1}" % symbol, "{%s: 2}" % symbol, "{H: 2}", "{O: 1, H: 2}", "{%s: 1, H: 1}" % symbol)))
    text = mechanism([])
    text = text.replace("elements: [O]", f"elements: [O, H, {symbol}]")
    for s in SP:
        text = text.replace(f"- name: {s}\n  composition: {{O: 2}}", f"- name: {s}\n  composition: {made_of[s]}")
    if scn["custom"]:
        text = f"elements:\n- {{symbol: {symbol}, atomic-weight: {weight}}}\n" + text
    mc.fresh_dir()
    with open("orig.yaml", "w") as f:
        f.write(text)
    original = ct.Solution("orig.yaml")
    for k in range(len(SP)):
        for removed in itertools.combinations(SP, k):
            d = dict(element=[symbol, weight], removed=removed, custom=scn["custom"])
            names = [s for s in SP if s not in removed]
            custom = scn["custom"] and any(symbol in made_of[s] for s in names)
            o = mc.outcome(lambda: env.reduce_model.trim("orig.yaml", list(removed), "new.yaml"))
            if o[0] != "ok":
                ctx.violation("trim-fails-custom-element" if custom and symbol == "Xx" and "element not found: Xx" in str(o) else "trim-fails",
                              str(o), d, stop=False)
                continue
            f = mc.outcome(lambda: ct.Solution(env.soln2yaml.write(o[1], "written.yaml")))
            if f[0] != "ok":
                ctx.violation("unloadable", f"the written model cannot be loaded: {f}", d)
            for where, m in (("in memory", o[1]), ("re-read", f[1])):
                ctx.check(m.species_names == names, "species", f"{where}: species {m.species_names}, expected {names}", d)
                want = [original.molecular_weights[original.species_index(s)] for s in names]
                if not np.allclose(m.molecular_weights, want, rtol=1e-10):
                    standard = [sum(n * (ct.Element(e).weight) for e, n in original.species(s).composition.items()) for s in names]
                    replaced = custom and np.allclose(m.molecular_weights, standard, rtol=1e-10)
                    ctx.violation("custom-weight-replaced" if replaced else "molecular-weight",
                                  f"{where}: molecular weights {m.molecular_weights}, expected {want}", d, stop=not replaced)
                for s in names:
                    ctx.check(m.species(s).composition == original.species(s).composition, "composition", f"{where}: {s}", d)
                ctx.transition()
            key = (scn["element"], scn["custom"], removed)
            ctx.state(key)
            ctx.evaluated(key, nontrivial=bool(removed))
    ctx.trace()


def survivors(forms, removed):
    keep = []
    for i, f in enumerate(forms):
        if set(f[2]) & removed:
            continue
        if f[3] and set(f[3]) <= removed:
            continue
        keep.append(i)
    return keep


def states(names):
    n = len(names)
    out = []
    for T, P in ((500.0, 2e4), (1100.0, 101325.0), (1900.0, 4e6)):
        for k in range(2):
            x = np.array([1.0 + (i * (k + 1)) % 3 for i in range(n)])
            out.append((T, P, dict(zip(names, x / x.sum()))))
    return out


def compare(ctx, original, forms, removed, model, where, tol, d, in_memory):
    names = [s for s in SP if s not in removed]
    ctx.check(np.allclose(model.molecular_weights, [original.molecular_weights[original.species_index(s)] for s in names], rtol=1e-10),
              "molecular-weight", f"{where}: molecular weights {model.molecular_weights}", d)
    ctx.check(model.species_names == names, "species", f"{where}: species {model.species_names}, expected {names}", d)
    keep = survivors(forms, removed)
    want = [original.reaction(i) for i in keep]
    got = model.reactions()
    ctx.check(len(got) == len(want), "reaction-set",
              f"{where}: reactions {[r.equation for r in got]}, expected {[forms[i][0] + ': ' + r.equation for i, r in zip(keep, want)]}", d)
    for i, r0, r1 in zip(keep, want, got):
        label = forms[i][0]
        ctx.check((r0.reactants, r0.products) == (r1.reactants, r1.products) and r0.reaction_type == r1.reaction_type
                  and type(r0.rate) is type(r1.rate), "reaction", f"{where}: {label}: {r1.equation} {r1.reaction_type}", d)
        ctx.check(r0.reversible == r1.reversible and r0.duplicate == r1.duplicate, "flags", f"{where}: {label}: flags changed", d)
        ctx.check({k: v for k, v in r0.orders.items()} == {k: v for k, v in r1.orders.items()}, "orders",
                  f"{where}: {label}: orders {r1.orders}", d)
        t0, t1 = r0.third_body, r1.third_body
        ctx.check((t0 is None) == (t1 is None), "third-body", f"{where}: {label}: third body lost", d)
        if t0 is not None:
            eff = {s: v for s, v in t0.efficiencies.items() if s not in removed}
            ctx.check(t1.default_efficiency == t0.default_efficiency and dict(t1.efficiencies) == eff, "efficiencies",
                      f"{where}: {label}: efficiencies {t1.efficiencies} default {t1.default_efficiency}, expected {eff}", d)
    for s in names:
        a, b = original.species(s), model.species(s)
        ctx.check(a.composition == b.composition and a.charge == b.charge, "composition", f"{where}: {s}", d)
        ctx.check(type(a.thermo) is type(b.thermo) and np.allclose(a.thermo.coeffs, b.thermo.coeffs, rtol=tol, atol=1e-30)
                  and a.thermo.min_temp == b.thermo.min_temp and a.thermo.max_temp == b.thermo.max_temp, "thermo",
                  f"{where}: thermo of {s}", d)
        ctx.check((a.transport is None) == (b.transport is None), "transport", f"{where}: transport of {s}", d)
        if a.transport is not None:
            for attr in ("geometry", "diameter", "well_depth", "dipole", "polarizability", "rotational_relaxation", "acentric_factor"):
                x, y = getattr(a.transport, attr), getattr(b.transport, attr)
                ok = x == y if isinstance(x, str) else np.isclose(x, y, rtol=1e-6, atol=1e-40)
                ctx.check(bool(ok), "transport", f"{where}: transport {attr} of {s}: {y}, expected {x}", d)
    ctx.check(model.transport_model == original.transport_model, "transport-model", f"{where}: {model.transport_model}", d)
    if keep and names:
        for T, P, X in states(names):
            original.TPX = T, P, X
            model.TPX = T, P, X
            for attr in ("forward_rates_of_progress", "reverse_rates_of_progress"):
                x, y = getattr(original, attr)[keep], getattr(model, attr)
                if not np.allclose(x, y, rtol=tol, atol=0):
                    k = int(np.argmax(np.abs(x - y) / np.maximum(np.abs(x), 1e-300)))
                    ctx.violation("rate", f"{where}: {attr} of {forms[keep[k]][0]} at T={T}, P={P} is {y[k]!r}, originally {x[k]!r}", d())
            ctx.transition()


def pick(forms):
    return FORMS if forms == ["all"] else [by_name(n) for n in forms]


def run(scn, ctx):
    if scn["part"] == "sequence":
        return sequence(scn, ctx)
    if scn["part"] == "elements":
        return part_elements(scn, ctx)
    forms = pick(scn["forms"])
    phases = scn.get("phases", ["gas"])
    phase = scn.get("phase", "")
    d0 = mc.fresh_dir()
    text = mechanism(forms, scn["transport"], phases, scn.get("thermo", ""))
    with open("orig.yaml", "w") as f:
        f.write(text)
    original = ct.Solution("orig.yaml", phase)
    T0, P0 = original.TP
    if phase == "other":
        forms = []
    for k in range(len(SP)):
        for removed in itertools.combinations(SP, k):
            # the order of the list must not matter, nor names that are not in the model
            for ex in ([list(removed)[::-1]] if k % 2 else [list(removed) + (["XYZ"] if k == 2 else [])]):
                d = lambda: dict(forms=scn["forms"], removed=ex, phase=phase)  # noqa
                arg = list(ex)
                o = mc.outcome(lambda: env.reduce_model.trim("orig.yaml", arg, "new.yaml", phase_name=phase))
                if o[0] != "ok":
                    ctx.violation("trim-fails", f"{o}", d())
                ctx.check(arg == ex, "list-modified", "the list of species was modified", d)
                m = o[1]
                original.TP = T0, P0
                ctx.check(np.allclose(m.TP, (T0, P0), rtol=1e-12), "state", f"T, P = {m.TP}, originally {(T0, P0)}", d)
                ctx.check(m.name == (phase or "new"), "name", f"phase is called {m.name}", d)
                o = mc.outcome(lambda: env.soln2yaml.write(m, "written.yaml", path=""))
                if o[0] != "ok":
                    ctx.violation("write-fails", f"{o}", d())
                compare(ctx, original, forms, set(removed), m, "in memory", 1e-9, d, True)
                o2 = mc.outcome(lambda: ct.Solution(o[1], phase))
                if o2[0] != "ok":
                    ctx.violation("unloadable", f"the written model cannot be loaded: {o2}", d())
                ctx.check(np.allclose(o2[1].TP, (T0, P0), rtol=1e-9), "state-re-read", f"T, P = {o2[1].TP}", d)
                compare(ctx, original, forms, set(removed), o2[1], "re-read", 1e-7, d, False)
                key = (tuple(scn["forms"]), removed, phase, scn["transport"], scn.get("thermo"))
                ctx.state(key)
                ctx.evaluated(key, nontrivial=bool(removed))
                ctx.trace()
        if ctx.out_of_time():
            return
    with open("orig.yaml") as f:
        ctx.check(f.read() == text, "input-changed", "the original model file was changed", dict(forms=scn["forms"]))
    ctx.sample({"forms": [f[0] for f in forms], "removed": removed, "left": m.species_names})


def sequence(scn, ctx):
    """Removing species one after another (re-reading in between) equals removing them at once."""
    mc.fresh_dir()
    with open("orig.yaml", "w") as f:
        f.write(mechanism(FORMS))
    original = ct.Solution("orig.yaml")
    for sub in scn["subsets"]:
        for perm in itertools.permutations(sub):
            d = lambda: dict(order=perm)  # noqa
            cur = "orig.yaml"
            for n, s in enumerate(perm):
                o = mc.outcome(lambda: env.soln2yaml.write(env.reduce_model.trim(cur, [s], f"step{n}.yaml"), f"step{n}.yaml", path=""))
                if o[0] != "ok":
                    ctx.violation("sequence-fails", f"removing {s}: {o}", d())
                cur = o[1]
                ctx.transition()
            o = mc.outcome(lambda: ct.Solution(cur))
            if o[0] != "ok":
                ctx.violation("unloadable", f"after removing {perm}: {o}", d())
            compare(ctx, original, FORMS, set(perm), o[1], "after a sequence", 1e-6, d, False)
            ctx.state(("seq", perm))
            ctx.evaluated(("seq", perm))
            ctx.trace()
        if ctx.out_of_time():
            return
