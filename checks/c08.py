import os

import env
import mc
import reduction as red
import ref
import toys
from env import ct

ID = "C08"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state model of sensitivity analysis, every trace replayed on the real code (all outcome assignments)"
NOTE = ("The real procedure is run under every assignment of errors to the candidate subsets it meets and must end in a result the "
        "reference model allows (ties open); bounds: up to three (thorough: four) considered species, error alphabets of 3-4 values.")
RULE = ("all assignments of errors (from an alphabet around the limit and the starting error) to the subsets met, for both types, "
        "limbo lists (with protected and reordered entries, empty), protected lists, starting errors; plus, after graph methods, all "
        "toy mechanisms x upper thresholds; a case is one complete assignment met, non-trivial if a candidate was evaluated")
ASSUMPTIONS = ["simulations are replaced by chosen outcomes that depend only on the candidate's set of species",
               "the order among species with equal distance to the current error is not specified"]

VALUES = {"A3": [8.25, 9.0, 9.5], "B3": [8.5, 7.0, 0.0], "A4": [8.0, 8.5, 7.0, 10.0]}


def scenarios(tier, seed):
    S = []
    thorough = tier == "thorough"

    def add(alphabet, split, **kw):
        vals = VALUES[alphabet]
        if split == 0:
            S.append(dict(part="sa", alphabet=alphabet, root=[], **kw))
        elif split == 1:
            S.extend(dict(part="sa", alphabet=alphabet, root=[i], **kw) for i in range(len(vals)))
        else:
            S.extend(dict(part="sa", alphabet=alphabet, root=[i, j], **kw) for i in range(len(vals)) for j in range(len(vals)))

    for kind in ("initial", "greedy"):
        for start in (0.0, 10.0):
            add("A3", 2, kind=kind, species=["T", "A", "B", "C"], limbo=["C", "A", "B"], safe=["T"], start=start)
        add("B3", 2, kind=kind, species=["T", "A", "B", "C"], limbo=["A", "B", "C"], safe=["T"], start=6.25)
        add("A4", 1, kind=kind, species=["T", "A", "B"], limbo=[], safe=["T"], start=6.25)
        # limbo list naming protected species, and only part of the species
        add("A4", 1, kind=kind, species=["T", "A", "B", "C"], limbo=["T", "B", "A"], safe=["T", "C"], start=3.0)
        add("A3", 1, kind=kind, species=["A", "B", "T"], limbo=["T", "B", "A"], safe=["B"], start=12.5)
        add("A3", 0, kind=kind, species=["T", "A"], limbo=["T", "A"], safe=["T", "A"], start=5.0)
        add("A3", 1, kind=kind, species=["T", "A", "B"], limbo=[], safe=["T"], start=0.0, limit=18.75)
        if thorough:
            add("A4", 2, kind=kind, species=["T", "A", "B", "C"], limbo=["A", "B", "C"], safe=["T"], start=6.25)
            add("A3", 2, kind=kind, species=["T", "A", "B", "C", "D"], limbo=[], safe=["T", "D"], start=6.25)
            if kind == "initial":
                add("A3", 2, kind=kind, species=["T", "A", "B", "C", "D"], limbo=[], safe=["T"], start=10.0)
    # limbo species of the graph-based methods
    for toy in red.TOYS:
        if toy == "single":
            continue
        for method in ("DRG", "DRGEP", "PFA"):
            for states in ("even", "two"):
                variants = [(["T"], [])]
                if toy in ("star3", "groups", "chain", "island"):
                    variants += [(["T", "U"] if "U" in red.TOYS[toy]["species"] else ["T", "C"], ["A"])]
                for targets, safe in variants:
                    for answers in (["low", "above"],):
                        S.append(dict(part="limbo", toy=toy, method=method, states=states, targets=targets, safe=safe,
                                      answers=answers, uppers=[None, 0.02, 0.06, 0.25, 0.75, 0.95] if toy != "ones" else
                                      [0.5, 0.999]))
    # complete runs of a method followed by sensitivity analysis
    for sa in ("initial", "greedy"):
        for method in ("DRG", "DRGEP", "PFA"):
            for toy, targets, safe, upper in (("star2", ["T"], [], 0.5), ("star2", ["T"], ["A"], 0.5), ("star2", ["T"], [], 0.025),
                                              ("island", ["T"], ["N"], 0.5), ("star2", ["T", "A", "B", "M"], [], 0.5),
                                              ("pair", ["T"], [], 0.5)):
                S.append(dict(part="both", toy=toy, method=method, sa=sa, targets=targets, safe=safe, upper=upper,
                              limit=env.LIMIT, answers=["low", "edge", "above"] if toy == "star2" else ["low", "above"]))
    return S


def run(scn, ctx):
    {"sa": run_sa, "limbo": run_limbo, "both": run_both}[scn["part"]](scn, ctx)


def run_sa(scn, ctx):
    t = toys.toy(scn["species"], [toys.rxn(f"{a} => {b}", 1.0) for a, b in zip(scn["species"], scn["species"][1:])])
    vals = VALUES[scn["alphabet"]]
    full = frozenset(scn["species"])
    limit = scn.get("limit", env.LIMIT)
    root = scn["root"]

    def execute(ch):
        mc.fresh_dir()
        toys.write(t, "toy.yaml")
        table, order = {}, []

        def value(species):
            if species == full:
                return env.BASE
            if species not in table:
                i = len(order)
                table[species] = vals[root[i]] if i < len(root) else vals[ch.choose(len(vals))]
                order.append(species)
            return table[species]

        e = env.StubEnv(lambda kind, species, idx, p: value(species))
        with e:
            o = mc.outcome(lambda: env.sensitivity_analysis.run_sa(
                "toy.yaml", scn["start"], [], [], [env.flame(reactants={scn["safe"][0]: 1.0})], limit, list(scn["safe"]),
                algorithm_type=scn["kind"], species_limbo=list(scn["limbo"])))
        hist = [[sorted(s), env.err_of(table[s])] for s in order]
        d = lambda: {"scenario": scn, "errors": hist, "result": str(o[1:2])}  # noqa
        if o[0] != "ok":
            ctx.violation("sa-fails", f"sensitivity analysis ended in {o}", d())
        m = o[1]
        got = (frozenset(m.model.species_names), float(m.error))
        allowed = ref.sensitivity(full, scn["start"], lambda s: env.err_of(value(s)), limit, list(scn["limbo"]),
                                  set(scn["safe"]), scn["kind"])
        ctx.trace()
        ctx.transition(len(order))
        h = ()
        key = (scn["kind"], scn["start"], limit, tuple(scn["limbo"]), tuple(scn["safe"]), tuple(scn["species"]))
        for s in order:
            h += ((tuple(sorted(s)), table[s]),)
            ctx.state((key, h))
        ctx.evaluated((key, h), nontrivial=bool(h))
        ctx.sample({"type": scn["kind"], "limbo": scn["limbo"], "start": scn["start"], "errors": hist, "left": sorted(got[0])})
        if got not in allowed:
            ctx.violation("not-allowed", f"result {sorted(got[0])} with error {got[1]}; the documented procedure gives "
                          f"{[(sorted(s), x) for s, x in allowed]}", d())

    ctx.explore(execute)


def matrices(toy, method, states, kind="psr"):
    t = red.TOYS[toy]
    nu_r, nu_p = ref.toy_stoich(t)
    rows = red.states_for(t, states)("psr", t["species"], 0)
    return [ref.MATRIX[method](nu_r, nu_p, ref.toy_rates(t, row[2:], row[0], row[1])) for row in rows]


FN = {"DRG": lambda *a, **k: env.drg.run_drg(*a, **k), "DRGEP": lambda *a, **k: env.drgep.run_drgep(*a, **k),
      "PFA": lambda *a, **k: env.pfa.run_pfa(*a, **k)}


def near(matrices_, upper):
    return any(abs(x - upper) < 1e-6 for m in matrices_ for r in m for x in r)


def run_limbo(scn, ctx):
    t = red.TOYS[scn["toy"]]
    ms = matrices(scn["toy"], scn["method"], scn["states"])
    full = frozenset(t["species"])
    for upper in scn["uppers"]:
        if upper and near(ms, upper):
            continue

        def execute(ch):
            mc.fresh_dir()
            toys.write(t, "toy.yaml")
            table = {}

            def answer(kind, species, idx, p):
                if species == full:
                    return env.BASE
                if species not in table:
                    table[species] = scn["answers"][ch.choose(len(scn["answers"]))]
                return env.ANSWERS[table[species]]

            with env.StubEnv(answer, states=red.states_for(t, scn["states"])):
                o = mc.outcome(lambda: FN[scn["method"]](
                    "toy.yaml", [], [env.psr(reactants={"T": 1.0})], [], env.LIMIT, list(scn["targets"]), list(scn["safe"]),
                    threshold_upper=upper), limit=60)
            ctx.trace()
            ctx.transition(len(table))
            ctx.state((scn["toy"], scn["method"], scn["states"], upper, tuple(sorted((tuple(sorted(s)), a) for s, a in table.items()))))
            if o[0] != "ok":
                return
            m = o[1]
            prot = set(scn["targets"]) | set(scn["safe"])
            keep = ref.retained(scn["method"], ms, t["species"], scn["targets"], upper) if upper else full
            want = {s for s in m.model.species_names if s not in keep and s not in prot}
            got = list(m.limbo_species)
            ctx.evaluated((scn["toy"], scn["method"], upper, frozenset(m.model.species_names)), nontrivial=bool(want))
            ctx.sample({"toy": scn["toy"], "method": scn["method"], "upper": upper, "limbo": sorted(want)})
            if set(got) != want or len(got) != len(set(got)):
                ctx.violation("limbo", f"limbo species {sorted(got)} of {sorted(m.model.species_names)}, expected {sorted(want)}",
                              {"scenario": scn, "upper": upper})

        ctx.explore(execute)


def run_both(scn, ctx):
    t = red.TOYS[scn["toy"]]
    ms = matrices(scn["toy"], scn["method"], "even")

    def execute(ch):
        rec = red.execute(scn, ch)
        red.account(rec, ctx)
        if rec.outcome[0] != "ok":
            return
        m = rec.outcome[1]
        first = dict(rec.answers)

        def value(species):
            if species == rec.full:
                return env.BASE
            if species not in rec.answers:
                rec.answers[species] = scn["answers"][ch.choose(len(scn["answers"]))]
            return env.ANSWERS[rec.answers[species]]

        # the graph-based stage alone, under the same outcomes
        mc.fresh_dir()
        toys.write(t, "toy.yaml")
        comp = [env.psr(reactants={"T": 1.0})]
        with env.StubEnv(lambda kind, species, idx, p: value(species), states=red.states_for(t, "even")):
            g = FN[scn["method"]]("toy.yaml", [], comp, [], scn["limit"], list(scn["targets"]), sorted(rec.protected))
        G = frozenset(g.model.species_names)
        keep = ref.retained(scn["method"], ms, t["species"], scn["targets"], scn["upper"])
        limbo = [s for s in g.model.species_names if s not in keep and s not in rec.protected]
        allowed = ref.sensitivity(G, env.err_of(value(G)), lambda s: env.err_of(value(s)), scn["limit"], limbo,
                                  rec.protected, scn["sa"])
        got = (frozenset(m.model.species_names), float(m.error))
        if got not in allowed:
            ctx.violation("not-allowed-after-method", f"{sorted(got[0])} with error {got[1]} after {scn['method']} gave "
                          f"{sorted(G)} with limbo species {limbo}; allowed: {[(sorted(s), x) for s, x in allowed]}",
                          red.detail(rec))

    ctx.explore(execute)
