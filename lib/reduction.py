"""Runs complete reductions of toy mechanisms under chosen simulation outcomes."""
import os
import tempfile

import env
import mc
import toys
from env import ct, driver

R = toys.rxn


def toy_library():
    t = {}
    t["star3"] = toys.star({"A": 0.015, "B": 0.025, "C": 0.045})
    t["star2"] = toys.star({"A": 0.015, "B": 0.035})
    # coefficients that are exactly representable decimals at multiples of the step
    t["ties"] = toys.star({"A": 0.05, "B": 0.07, "C": 0.07})
    # everything goes far below the first threshold
    t["low"] = toys.toy(["T", "U", "A", "B", "C"],
                        [R("T => A", 0.0005), R("T => B", 0.003), R("T => U", 0.9965),
                         R("U => C", 0.015), R("U => T", 0.985)])
    t["verylow"] = toys.toy(["T", "U", "A", "B"],
                            [R("T => A", 0.000004), R("T => B", 0.004), R("T => U", 0.995996), R("U => T", 1.0)])
    t["chain"] = toys.toy(["T", "A", "B", "C", "U"],
                          [R("T => A", 0.3), R("T => U", 0.7), R("A => B", 0.2), R("A => T", 0.8),
                           R("B => C", 0.1), R("B => T", 0.9), R("U => T", 1.0)])
    # groups of species that come and go together
    t["groups"] = toys.toy(["A", "B", "T", "C", "D", "U"],
                           [R("T => A", 0.04), R("A => B", 1.0), R("B => A", 0.7), R("T => C", 0.09),
                            R("C => D", 1.0), R("D => C", 1.0), R("T => U", 0.87), R("U => T", 2.0)])
    # an inert species first in the order, and one species disconnected but reacting
    t["island"] = toys.toy(["N", "T", "A", "X", "Y", "U"],
                           [R("T => A", 0.04), R("T => U", 0.96), R("U => T", 1.0), R("X => Y", 1.0)])
    t["inert"] = toys.toy(["T", "A", "B"], [])
    t["single"] = toys.toy(["T"], [])
    t["pair"] = toys.toy(["T", "A"], [R("T => A", 1.0)])
    # coefficients of exactly 1 (and, for PFA, above)
    t["ones"] = toys.toy(["T", "A", "B"], [R("T => A", 1.0), R("A => B", 1.0), R("B => T", 1.0)])
    return t


TOYS = toy_library()


def states_for(t, kind):
    """State generators: 'even' (all species equal), 'two' (a second state in which only
    later species are present), 'dark' (no reactant has any mass)."""
    n = len(t["species"])

    def even(_kind, names, idx):
        return [[1000.0, 101325.0, *([1.0 / n] * n)]]

    def two(_kind, names, idx):
        a = [1.0 / n] * n
        b = [0.0] * (n // 2) + [1.0 / (n - n // 2)] * (n - n // 2)
        return [[1000.0, 101325.0, *a], [1200.0, 101325.0, *b]]

    def dark(_kind, names, idx):
        y = [0.0] * n
        y[0] = 1.0  # only meaningful for toys whose first species does not react
        return [[1000.0, 101325.0, *y]]

    return {"even": even, "two": two, "dark": dark}[kind]


#: number of zero metrics etc. are chosen by label
def value_for(label):
    return env.ANSWERS[label]


class Record:
    pass


def conditions_of(scn, t):
    """Input-file entries of the scenario's conditions."""
    comp = scn.get("composition") or {"reactants": {t["species"][t["species"].index("T")]: 1.0}}
    out = {"autoignition-conditions": [], "psr-conditions": [], "laminar-flame-conditions": []}
    for i, kind in enumerate(scn.get("conds", ["psr"])):
        c = dict(comp[i % len(comp)] if isinstance(comp, list) else comp)
        c.update(temperature=1000.0 + i, pressure=1.0)
        if kind == "ign":
            c["kind"] = "constant volume"
        out[{"ign": "autoignition-conditions", "psr": "psr-conditions",
             "flame": "laminar-flame-conditions"}[kind]].append(c)
    return {k: v for k, v in out.items() if v}


def snapshot(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def execute(scn, ch):
    """One reduction; the outcome of every new candidate is a choice of ``ch``."""
    t = TOYS[scn["toy"]]
    full = frozenset(t["species"])
    d = mc.fresh_dir()
    model = os.path.join(d, "toy.yaml") if scn.get("absolute") else "toy.yaml"
    toys.write(t, model)
    path = scn.get("path", "")
    if path:
        os.makedirs(path)
    rec = Record()
    rec.answers = {}
    rec.order = []
    rec.dir = d
    rec.scn = scn
    rec.full = full
    labels = scn["answers"]
    kinds = scn.get("conds", ["psr"])
    carry = scn.get("carry", 0) % len(kinds)
    # (kind, number within the kind) of the condition that carries the deviation
    ck = kinds[carry]
    ci = kinds[:carry].count(ck)

    def label_of(species):
        if species == full:
            return "same"
        if species not in rec.answers:
            if not rec.answers and "first" in scn:
                rec.answers[species] = scn["first"]
            else:
                rec.answers[species] = labels[ch.choose(len(labels))]
            rec.order.append(species)
        return rec.answers[species]

    def answer(kind, species, idx, props):
        lab = label_of(species)
        if (kind, idx) == (ck, ci):
            return value_for(lab)
        return env.BASE

    inp = {"model": model, "error": scn["limit"], "targets": list(scn["targets"]),
           "retained-species": list(scn.get("safe", []))}
    if scn.get("method"):
        inp["method"] = scn["method"]
    if scn.get("sa"):
        inp["sensitivity-analysis"] = True
        inp["sensitivity-type"] = scn["sa"]
    if scn.get("upper"):
        inp["upper-threshold"] = scn["upper"]
    inp.update(conditions_of(scn, t))
    rec.inputs = inp
    rec.before = snapshot(d)
    e = env.StubEnv(answer, states=states_for(t, scn.get("states", "even")))

    def go():
        i = driver.parse_inputs(inp)
        rec.parsed = i
        return driver.main(
            i.model, i.error, i.ignition_conditions, i.psr_conditions, i.flame_conditions,
            method=i.method, target_species=i.target_species, safe_species=i.safe_species,
            phase_name=i.phase_name, run_sensitivity_analysis=i.sensitivity_analysis,
            upper_threshold=i.upper_threshold, sensitivity_type=i.sensitivity_type,
            path=path, num_threads=1, min_flame_speed=i.min_flame_speed)

    with e:
        rec.outcome = mc.outcome(go, limit=60.0)
    os.chdir(d)
    rec.log = e.log
    rec.after = snapshot(d)
    rec.temp = [f for f in os.listdir(tempfile.gettempdir()) if f != "w"] if \
        os.path.realpath(tempfile.gettempdir()) == os.path.realpath(mc.scratch()) else []
    for f in rec.temp:  # do not blame later runs
        p = os.path.join(mc.scratch(), f)
        import shutil

        shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.remove(p)
    # candidates in the order of their first simulation in the metric path
    seen, evals, prev = set(), [], None
    for s in e.log:
        if s["mode"] == "metric":
            sp = s["species"]
            if sp != prev:
                evals.append(sp)
            prev = sp
    rec.evals = evals
    rec.err = lambda species: env.err_of(value_for("same" if species == full else rec.answers[species]))
    prot = set(scn["targets"]) | set(scn.get("safe", []))
    for key in ("autoignition-conditions", "psr-conditions", "laminar-flame-conditions"):
        for c in inp.get(key, []):
            for part in ("fuel", "oxidizer", "reactants"):
                prot |= set(c.get(part, {}))
    rec.protected = frozenset(prot)
    return rec


def history_key(rec):
    return (rec.scn["toy"], rec.scn.get("method"), rec.scn.get("sa"),
            tuple((tuple(sorted(s)), rec.answers[s]) for s in rec.order))


def account(rec, ctx):
    """Counts what this execution covered (histories as states, evaluations as transitions)."""
    ctx.trace()
    ctx.transition(len(rec.evals))
    h = ()
    base = (rec.scn["toy"], rec.scn.get("method"), rec.scn.get("sa"), rec.scn["limit"],
            tuple(rec.scn["targets"]), tuple(rec.scn.get("safe", [])), rec.scn.get("upper"), rec.scn.get("states"),
            str(rec.scn.get("composition")), tuple(rec.scn.get("conds", ())))
    ctx.state((base, h))
    for s in rec.order:
        h = h + ((tuple(sorted(s)), rec.answers[s]),)
        ctx.state((base, h))
    ctx.evaluated((base, h), nontrivial=bool(h))
    ctx.sample({"toy": rec.scn["toy"], "method": rec.scn.get("method"), "sa": rec.scn.get("sa"),
                "outcomes": [[sorted(s), rec.answers[s]] for s in rec.order],
                "result": describe(rec)})


def describe(rec):
    o = rec.outcome
    if o[0] == "ok":
        m = o[1]
        try:
            return {"species": sorted(m.model.species_names), "error": m.error, "file": m.filename}
        except AttributeError:
            return repr(m)
    return list(o)


def detail(rec):
    return {"scenario": rec.scn, "outcomes": [[sorted(s), rec.answers[s]] for s in rec.order],
            "evaluated": [sorted(s) for s in rec.evals], "result": describe(rec),
            "files": sorted(rec.after)}


# ----------------------------------------------------------------- scenarios
def scenarios(tier):
    """Configurations x outcome alphabets.  Each is explored completely."""
    S = []
    methods = ["DRG", "DRGEP", "PFA"]
    four = ["low", "edge", "above", "dead"]
    three = ["edge+", "above", "low"]
    thorough = tier == "thorough"

    def add(toy, method, answers, limit=env.LIMIT, **kw):
        base = dict(toy=toy, method=method, limit=limit, answers=answers,
                    targets=kw.pop("targets", ["T"]), safe=kw.pop("safe", []), **kw)
        for a in answers:
            S.append(dict(base, first=a))

    for m in methods:
        add("star3", m, four)
        add("star3", m, four, states="two", targets=["T", "M"])
        add("star3", m, three, safe=["B"], path="out")
        add("ties", m, four)
        add("low", m, four, targets=["T", "U"])
        add("low", m, three, targets=["T"], safe=["U"], conds=["ign", "psr", "flame"], carry=2, absolute=True)
        add("verylow", m, four, targets=["T", "U"])
        add("chain", m, four, targets=["T"])
        add("groups", m, four, targets=["T"])
        add("groups", m, three, targets=["U", "T"], safe=["D"], conds=["flame"], path="out")
        add("island", m, four)
        add("island", m, three, safe=["N", "Y"], conds=["ign"])
        add("island", m, three, targets=["X"], safe=["T"])
        add("island", m, three, targets=["N"], states="dark")
        add("island", m, three, targets=["T"], states="dark", safe=["N"])
        for toy in ("inert", "pair", "ones"):
            add(toy, m, four)
        add("inert", m, three, safe=["A"])
        add("single", m, ["low"])
        add("ones", m, three, targets=["A"], states="two")
        add("star3", m, three, targets=["T", "A", "B", "C", "M"])
        add("star2", m, three, targets=["T"], safe=["A", "B", "M"])
        for toy in ("star3", "low", "groups", "island", "ones", "inert", "chain"):
            add(toy, m, ["above", "dead", "low"] if toy != "chain" else ["dead"], limit=150.0)
    # sensitivity analysis after a method, and alone
    for sa in ("initial", "greedy"):
        for m in methods:
            add("star2", m, ["low", "edge", "above"], sa=sa, upper=0.5)
            add("star2", m, ["low", "above"], sa=sa, upper=0.03, path="out")
            add("island", m, ["low", "above"], sa=sa, upper=0.5, safe=["N"])
            add("star2", m, ["low", "above"], sa=sa, upper=0.5, targets=["T", "A", "B", "M"])
            if thorough:
                add("star3", m, ["low", "above"], sa=sa, upper=0.5)
                add("groups", m, ["low", "above"], sa=sa, upper=0.5)
        add("pair", None, four, sa=sa, targets=[])
        add("inert", None, four, sa=sa, targets=["T"])
        add("star2", None, ["low", "above"], sa=sa, targets=[], safe=["M"])
        add("single", None, ["low"], sa=sa, targets=["T"])
        add("ones", None, ["low", "edge", "above"], sa=sa, targets=[], safe=[], path="out", conds=["flame"])
        add("inert", None, ["above", "dead"], sa=sa, limit=150.0, targets=[])
    if thorough:
        six = ["same", "low", "edge", "edge+", "above", "dead"]
        for m in methods:
            for toy in ("star3", "ties", "groups", "chain", "low"):
                add(toy, m, six, targets=["T"])
            add("star3", m, four, targets=["T"], conds=["ign", "psr", "psr", "flame", "flame"], carry=4)
            add("star3", m, four, targets=["T"], conds=["ign", "ign", "psr", "flame"], carry=1)
    for i, s in enumerate(S):
        s["space"] = i
    return S
