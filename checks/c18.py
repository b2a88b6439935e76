import copy
import itertools
import os

import env
import mc
import toys
from env import ct, driver, sampling

ID = "C18"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the products of valid and invalid field values on the real parsers, against a written-down predicate"
NOTE = "Every input of the bounded product is given to the real parser; acceptance and every returned field are compared with the specification."
RULE = ("per phenomenon: full product of composition fields (equivalence ratio x fuel x oxidizer x reactants x composition type), full product of the state "
        "fields x representative compositions, every position of an invalid case in a list of up to 3; whole inputs: product of model, error, method, "
        "sensitivity analysis, targets, retained species, phase, condition lists (one and two sections deviating from a valid input, full products of "
        "the interacting sections); a case is one input, non-trivial if it has at least one given field")
ASSUMPTIONS = ["rejection means any exception or exit before a result is returned"]
BOUNDS = "3 phenomena; compositions of up to 2 species; condition lists of up to 3 cases"

ABSENT = "__absent__"
NAMES = ["A", "B", "C", "D"]


def prepare(base):
    t = toys.toy(NAMES, [toys.rxn("A => B", 1.0), toys.rxn("B => C", 1.0), toys.rxn("C => D", 1.0)])
    toys.write(t, os.path.join(base, "one.yaml"))
    t = dict(t, more_phases=["small"], second_phase_species=2)
    t["reactions"] = [toys.rxn("A => B", 1.0)]
    toys.write(t, os.path.join(base, "two.yaml"))


#: species of (model, phase); None if it cannot be loaded
def species_of(model, phase):
    if model == "one.yaml":
        return {"": NAMES, "gas": NAMES}.get(phase)
    if model == "two.yaml":
        return {"": NAMES, "gas": NAMES, "small": NAMES[:2]}.get(phase)
    return None


PHI = [ABSENT, 0.0, 1.0, 0.25, -1.0]
MIX = [ABSENT, {}, {"A": 1.0}, {"A": 0.5, "C": 3}, {"A": 0.0}, {"A": -1.0}, {"X": 1.0}, {"A": 1.0, "X": 1.0}, {"B": 1.0, "C": 0}]
CTYPE = [ABSENT, "mole", "mass", "volume"]
KIND = {"ign": [ABSENT, "constant volume", "constant pressure", "constant", ""], "psr": [ABSENT], "flame": [ABSENT]}
TEMP = [ABSENT, 1000.0, 300, 0.0, -5.0]
PRES = [ABSENT, 1.0, 20, 0.0, -1.0]
EXTRA = {"ign": [{}, {"end-time": 0.5}, {"max-steps": 50}, {"end-time": 2, "max-steps": 7}], "psr": [{}],
         "flame": [{}, {"width": 0.03}, {"width": 0.0}, {"width": -0.1}, {"width": 2}]}
PARSE = {"ign": "parse_ignition_inputs", "psr": "parse_psr_inputs", "flame": "parse_flame_inputs"}
BASECASE = {"ign": {"kind": "constant volume", "temperature": 1000.0, "pressure": 1.0},
            "psr": {"temperature": 300.0, "pressure": 1.0}, "flame": {"temperature": 300.0, "pressure": 1.0}}
SECTION = {"ign": "autoignition-conditions", "psr": "psr-conditions", "flame": "laminar-flame-conditions"}
FIELD = {"ign": "ignition_conditions", "psr": "psr_conditions", "flame": "flame_conditions"}


def mix_ok(m, names):
    return bool(m) and all(v > 0 for v in m.values()) and all(s in names for s in m)


def case_ok(kind, c, names):
    """The specification of a valid condition."""
    if kind == "ign" and c.get("kind") not in ("constant volume", "constant pressure"):
        return False
    if not c.get("temperature", 0) > 0 or not c.get("pressure", 0) > 0:
        return False
    if kind == "flame" and not c.get("width", 0.1) > 0:
        return False
    phi, fuel, ox, rea = (c.get(k) for k in ("equivalence-ratio", "fuel", "oxidizer", "reactants"))
    by_ratio, by_reactants = bool(phi or fuel or ox), bool(rea)
    if by_ratio == by_reactants:
        return False
    if by_ratio and not (phi and phi > 0 and mix_ok(fuel, names) and mix_ok(ox, names)):
        return False
    if by_reactants and not mix_ok(rea, names):
        return False
    ct_ = c.get("composition-type", "mole")
    return ct_ in ("mole", "mass") and not (ct_ == "mass" and by_ratio)


KEYS = {"kind": "kind", "temperature": "temperature", "pressure": "pressure", "end-time": "end_time", "max-steps": "max_steps", "width": "width",
        "equivalence-ratio": "equivalence_ratio", "fuel": "fuel", "oxidizer": "oxidizer", "reactants": "reactants",
        "composition-type": "composition_type"}
DEFAULT = {"end-time": 0.0, "max-steps": 10000, "width": 0.1, "equivalence-ratio": 0.0, "composition-type": "mole"}


def same_case(kind, c, got):
    """Fields of an accepted case that differ from what was given."""
    bad = []
    for k, attr in KEYS.items():
        if not hasattr(got, attr):
            if k in c and k in BASECASE[kind]:
                bad.append((k, "missing"))
            continue
        v = getattr(got, attr)
        if k in c:
            if v != c[k] and not (not c[k] and not v):
                bad.append((k, c[k], v))
        elif k in DEFAULT:
            if v != DEFAULT[k]:
                bad.append((k, DEFAULT[k], v))
        elif v:
            bad.append((k, None, v))
    return bad


def build(**kw):
    return {k: v for k, v in kw.items() if v != ABSENT or not isinstance(v, str)}


def fill(kind, d):
    return {k: v for k, v in d.items() if not (isinstance(v, str) and v == ABSENT)}


def try_parse(ctx, kind, cases, model="one.yaml", phase=""):
    names = species_of(model, phase)
    want = all(case_ok(kind, c, names) for c in cases)
    path = os.path.join("..", model)
    given = copy.deepcopy(cases)
    out = mc.outcome(lambda: getattr(sampling, PARSE[kind])(path, given, phase), 20)
    key = f"{kind}:{model}:{phase}:{cases}"
    ctx.evaluated(key)
    ctx.state(key)
    ctx.transition()
    ctx.count("accepted" if want else "rejected")
    ctx.check(out[0] != "hang", key, "parsing did not end")
    ctx.check((out[0] == "ok") == want, key, f"a condition that is {'valid' if want else 'invalid'} was {'accepted' if out[0] == 'ok' else 'rejected'}",
              lambda: dict(cases=cases, outcome=str(out)[:300]))
    ctx.check(given == cases, key + ":mutated", "the given conditions were modified", lambda: dict(before=cases, after=given))
    if want:
        got = out[1]
        ctx.check(len(got) == len(cases), key, f"{len(got)} conditions instead of {len(cases)}")
        for c, g in zip(cases, got):
            bad = same_case(kind, c, g)
            ctx.check(not bad, key, f"accepted with other values than given: {bad}", lambda: dict(given=c, got=str(g)))


def run_comp(s, ctx):
    kind, phi = s["comp"], s["phi"]
    for fuel, ox, rea, ctype in itertools.product(MIX, MIX, s["rea"], CTYPE):
        c = fill(kind, dict(BASECASE[kind], **{"equivalence-ratio": phi, "fuel": fuel, "oxidizer": ox, "reactants": rea, "composition-type": ctype}))
        try_parse(ctx, kind, [c])
    ctx.trace()
    ctx.sample(c)


COMPS = [{"reactants": {"A": 1.0, "C": 2.0}}, {"equivalence-ratio": 1.0, "fuel": {"A": 1.0}, "oxidizer": {"B": 1.0}},
         {"reactants": {"A": 1.0}, "composition-type": "mass"}, {"reactants": {"C": 1.0}, "equivalence-ratio": 1.0}, {}]


def run_state(s, ctx):
    kind = s["state"]
    for k, T, P, e, comp in itertools.product(KIND[kind], TEMP, PRES, EXTRA[kind], COMPS):
        c = fill(kind, dict({"kind": k, "temperature": T, "pressure": P}, **e, **comp))
        for model, phase in (("one.yaml", ""), ("two.yaml", "gas"), ("two.yaml", "small")):
            try_parse(ctx, kind, [c], model, phase)
    ctx.trace()


BAD = [{"temperature": -1.0}, {"pressure": 0.0}, {"reactants": {"X": 1.0}}, {"reactants": {}}, {"composition-type": "x"}, {"reactants": {"A": 1.0, "B": -2.0}},
       {"equivalence-ratio": 1.0}]


def run_lists(s, ctx):
    kind = s["lists"]
    ok = [dict(BASECASE[kind], **COMPS[i]) for i in range(3)]
    bads = [dict(BASECASE[kind], **dict(COMPS[0], **b)) for b in BAD]
    for n in (0, 1, 2, 3):
        for base in itertools.product(ok, repeat=n):
            try_parse(ctx, kind, list(base))
            for pos in range(n):
                for b in bads:
                    cases = list(base)
                    cases[pos] = b
                    try_parse(ctx, kind, cases)
    ctx.trace()


# ----------------------------------------------------------- whole inputs
FIELDS = {
    "model": ["one.yaml", "two.yaml", ABSENT, "", "nothere.yaml"],
    "error": [5.0, ABSENT, 0.0, 100],
    "method": ["DRGEP", "DRG", "PFA", ABSENT, "", "drg", "XYZ", None],
    "sensitivity-analysis": [ABSENT, False, True],
    "targets": [["A"], ABSENT, [], ["A", "D"], ["D", "A"], ["X"], ["A", "X"]],
    "retained-species": [ABSENT, [], ["D"], ["D", "B"], ["X"], ["B", "X"]],
    "phase-name": [ABSENT, "", "gas", "small", "nophase"],
    "upper-threshold": [ABSENT, 0.3],
    "sensitivity-type": [ABSENT, "initial", "greedy"],
    "min-flame-speed": [ABSENT, 0.01],
    "autoignition-conditions": ["v0", ABSENT, "none", "v1", "v2", "bad", "v0+v1", "v0+bad"],
    "psr-conditions": [ABSENT, "none", "v0", "v1", "v2", "bad", "v1+v2", "v0+bad"],
    "laminar-flame-conditions": [ABSENT, "none", "v0", "v1", "v2", "bad", "v2+v0", "v0+bad"],
}
VALID = {k: v[0] for k, v in FIELDS.items()}


def conditions(kind, code):
    if code == "none":
        return []
    out = []
    for p in code.split("+"):
        c = dict(BASECASE[kind])
        if p == "bad":
            c.update(reactants={"A": 1.0}, temperature=-1.0)
        elif p == "v0":
            c.update(reactants={"A": 1.0, "B": 2.0})
        elif p == "v1":
            c.update(fuel={"A": 1.0}, oxidizer={"C": 1.0, "D": 3.0}, **{"equivalence-ratio": 0.5})
        elif p == "v2":
            c.update(fuel={"C": 1.0}, oxidizer={"B": 1.0}, **{"equivalence-ratio": 2.0})
        out.append(c)
    return out


def input_ok(d):
    names = species_of(d.get("model", ""), d.get("phase-name", ""))
    if not d.get("model") or not d.get("error") or names is None:
        return False
    method = d.get("method")
    if not method and not d.get("sensitivity-analysis"):
        return False
    if method and (method not in ("DRG", "DRGEP", "PFA") or not d.get("targets")):
        return False
    if any(s not in names for s in list(d.get("targets", [])) + list(d.get("retained-species", []))):
        return False
    conds = [(k, c) for k in SECTION for c in d.get(SECTION[k], [])]
    return bool(conds) and all(case_ok(k, c, names) for k, c in conds)


def try_input(ctx, sel):
    d = {}
    for k, v in sel.items():
        if isinstance(v, str) and v == ABSENT:
            continue
        kind = next((q for q in SECTION if SECTION[q] == k), None)
        d[k] = conditions(kind, v) if kind else copy.deepcopy(v)
    want = input_ok(d)
    given = copy.deepcopy(d)
    if given.get("model"):
        given["model"] = os.path.join("..", given["model"])
    before = copy.deepcopy(given)
    out = mc.outcome(lambda: driver.parse_inputs(given), 20)
    key = "input:" + ",".join(f"{k}={v}" for k, v in sel.items() if v != VALID[k])
    ctx.evaluated(key)
    ctx.state(key)
    ctx.transition()
    ctx.count("accepted" if want else "rejected")
    ctx.check(out[0] != "hang", key, "parsing did not end")
    ctx.check((out[0] == "ok") == want, key, f"an input that is {'consistent' if want else 'inconsistent'} was {'accepted' if out[0] == 'ok' else 'rejected'}",
              lambda: dict(input=d, outcome=str(out)[:300]))
    ctx.check(given == before, key + ":mutated", "the given input was modified", lambda: dict(before=before, after=given))
    if not want:
        return
    r = out[1]
    sa = bool(d.get("sensitivity-analysis"))
    expect = {"model": before["model"], "error": d["error"], "method": d.get("method") or "", "phase_name": d.get("phase-name", ""),
              "target_species": d.get("targets", []), "min_flame_speed": d.get("min-flame-speed"), "sensitivity_analysis": sa,
              "upper_threshold": d.get("upper-threshold", 0.1 if sa else None), "sensitivity_type": d.get("sensitivity-type", "initial")}
    for k, v in expect.items():
        g = getattr(r, k)
        ctx.check(g == v or (k == "method" and not g and not v), key + ":" + k, f"{k} is {g!r} instead of {v!r}", lambda: dict(input=d))
    for q in SECTION:
        got = getattr(r, FIELD[q])
        cs = d.get(SECTION[q], [])
        ctx.check(len(got) == len(cs), key + ":" + q, f"{len(got)} conditions instead of {len(cs)}")
        for c, g in zip(cs, got):
            bad = same_case(q, c, g)
            ctx.check(not bad, key + ":" + q, f"condition accepted with other values: {bad}")
    need = []
    for q in SECTION:
        for c in d.get(SECTION[q], []):
            need += [*c.get("fuel", {}), *c.get("oxidizer", {}), *c.get("reactants", {})]
    ret = d.get("retained-species", [])
    extra = set(need) - set(d.get("targets", [])) - set(ret)
    got = list(r.safe_species)
    ctx.check(got[: len(ret)] == ret and sorted(got[len(ret):]) == sorted(extra), key + ":retained",
              f"retained species {got} instead of {ret} and {sorted(extra)}", lambda: dict(input=d))


def run_input(s, ctx):
    mc.fresh_dir("d")
    fixed, free = s["input"], s["free"]
    for vals in itertools.product(*(FIELDS[k] for k in free)):
        sel = dict(VALID, **fixed)
        sel.update(zip(free, vals))
        try_input(ctx, sel)
    ctx.trace()


def scenarios(tier, seed):
    th = tier == "thorough"
    S = []
    for kind in PARSE:
        for phi in PHI:
            for r in range(0, len(MIX), 3):
                S.append(dict(comp=kind, phi=phi, rea=MIX[r:r + 3]))
        S.append(dict(state=kind))
        S.append(dict(lists=kind))
    keys = list(FIELDS)
    for a, b in itertools.combinations(keys, 2):
        S.append(dict(input={}, free=[a, b]))
    S.append(dict(input={"autoignition-conditions": ABSENT}, free=["psr-conditions", "laminar-flame-conditions", "targets"]))
    for code in FIELDS["autoignition-conditions"]:
        S.append(dict(input={"autoignition-conditions": code}, free=["psr-conditions", "laminar-flame-conditions", "retained-species"]))
    for m in FIELDS["method"]:
        S.append(dict(input={"method": m}, free=["sensitivity-analysis", "targets", "retained-species", "phase-name"]))
        S.append(dict(input={"method": m}, free=["sensitivity-analysis", "upper-threshold", "sensitivity-type", "error", "min-flame-speed"]))
        S.append(dict(input={"method": m, "model": "two.yaml"}, free=["phase-name", "targets", "retained-species", "psr-conditions"]))
    if th:
        for a, b, c in itertools.combinations(keys, 3):
            S.append(dict(input={}, free=[a, b, c]))
            S.append(dict(input={"model": "two.yaml", "sensitivity-analysis": True, "autoignition-conditions": "v0+v1"}, free=[a, b, c]))
        for kind in PARSE:
            for model, phase in (("two.yaml", "small"), ("two.yaml", "gas")):
                for phi in PHI:
                    S.append(dict(comp2=kind, phi=phi, model=model, phase=phase))
    return S


def run(s, ctx):
    mc.fresh_dir("d")
    for f in ("one.yaml", "two.yaml"):
        if not os.path.exists(os.path.join("..", f)):
            os.symlink(os.path.join(mc.scratch(), "..", f), os.path.join("..", f))
    if "comp" in s:
        run_comp(s, ctx)
    elif "comp2" in s:
        for fuel, ox, rea, ctype in itertools.product(MIX, MIX, MIX, CTYPE):
            c = fill(s["comp2"], dict(BASECASE[s["comp2"]], **{"equivalence-ratio": s["phi"], "fuel": fuel, "oxidizer": ox, "reactants": rea,
                                                                "composition-type": ctype}))
            try_parse(ctx, s["comp2"], [c], s["model"], s["phase"])
    elif "state" in s:
        run_state(s, ctx)
    elif "lists" in s:
        run_lists(s, ctx)
    else:
        run_input(s, ctx)
