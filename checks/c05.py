import itertools

import env  # noqa
import mc
import reduction as red
import toys

ID = "C05"
LEVEL = "model_checking"
TECHNIQUE = 'explicit-state exploration of all outcome histories of the real reduction driver'
NOTE = 'Exhaustive over the listed roles of species, methods, sensitivity types and all outcome assignments; assumes that nothing in the selection depends on more species than the toys have.'
RULE = ("stateless exploration of the real reduction from the parsed input on: all methods and sensitivity types x which species are "
        "targets, retained, fuel, oxidizer or reactants (of one to three phenomena) x every assignment of outcomes to the candidates "
        "met; a case is one complete history of (candidate, outcome) pairs, non-trivial if at least one candidate was evaluated")
ASSUMPTIONS = ["simulations are replaced by chosen outcomes that depend only on the candidate's set of species",
               "toy mechanisms of up to 6 species, with inert, unreached and strongly coupled protected species"]

COMPS = [
    {"reactants": {"T": 1.0}},
    {"reactants": {"N": 1.0, "Y": 1e-9}},
    {"equivalence-ratio": 1.0, "fuel": {"A": 1e-6}, "oxidizer": {"X": 1e-12, "N": 3.76}},
    {"equivalence-ratio": 0.5, "fuel": {"T": 1.0, "Y": 1e-7}, "oxidizer": {"N": 1.0}},
    [{"reactants": {"A": 1.0}, "composition-type": "mass"}, {"reactants": {"X": 1.0}},
     {"equivalence-ratio": 2.0, "fuel": {"Y": 1.0}, "oxidizer": {"U": 1.0}}],
]


def scenarios(tier, seed):
    S = []
    for method in ("DRG", "DRGEP", "PFA", None):
        for sa in (None, "initial", "greedy"):
            if not method and not sa:
                continue
            for targets, safe in ((["T"], []), (["T", "X"], ["N"]), (["U"], ["A", "Y"])):
                if not method and safe == []:
                    safe = ["X", "N"]  # keeps the number of histories of sensitivity analysis alone manageable
                for ci, comp in enumerate(COMPS):
                    conds = ["ign", "psr", "flame"] if isinstance(comp, list) else [["ign"], ["psr"], ["flame"]][ci % 3]
                    for limit in (env.LIMIT, 150.0):
                        if sa and limit == 150.0 and tier == "quick" and ci % 2:
                            continue
                        S.append(dict(toy="island", method=method, sa=sa, targets=targets, safe=safe, composition=comp,
                                      conds=conds, limit=limit, answers=["low", "above"] if limit < 100 else ["low"],
                                      upper=0.99 if sa else None))
            if method or tier == "thorough":
                S.append(dict(toy="groups", method=method, sa=sa, targets=["T"], safe=["D"], composition={"reactants": {"B": 1.0}},
                              conds=["psr"], limit=env.LIMIT, answers=["low", "above"], upper=0.5 if sa else None))
            S.append(dict(toy="inert", method=method, sa=sa, targets=["T"], safe=["B"], composition={"reactants": {"T": 1.0}},
                          conds=["flame"], limit=150.0, answers=["low"], upper=0.5 if sa else None))
    # sensitivity analysis called with its own list of species to consider, which may name protected species
    names = ["T", "A", "B", "C"]
    subsets = [list(x) for n in range(5) for x in itertools.combinations(names, n)]
    for sa in ("initial", "greedy"):
        for safe in subsets[1:]:
            for limbo in subsets:
                S.append(dict(part="sa", sa=sa, species=names, safe=safe, limbo=limbo[::-1] if len(safe) % 2 else limbo))
    return S


def run_sa(scn, ctx):
    t = toys.toy(scn["species"], [toys.rxn(f"{a} => {b}", 1.0) for a, b in zip(scn["species"], scn["species"][1:])])
    full, safe = frozenset(scn["species"]), frozenset(scn["safe"])
    considered = set(scn["limbo"] or full) - safe

    def execute(ch):
        mc.fresh_dir()
        toys.write(t, "toy.yaml")
        table, order = {}, []

        def value(species):
            if species == full:
                return env.BASE
            if species not in table:
                table[species] = ["low", "above"][ch.choose(2)]
                order.append(species)
            return env.ANSWERS[table[species]]

        with env.StubEnv(lambda kind, species, idx, p: value(species)):
            o = mc.outcome(lambda: env.sensitivity_analysis.run_sa(
                "toy.yaml", 0.0, [], [], [env.flame(reactants={scn["safe"][0]: 1.0})], env.LIMIT, list(scn["safe"]),
                algorithm_type=scn["sa"], species_limbo=list(scn["limbo"])))
        h = tuple((tuple(sorted(s)), table[s]) for s in order)
        key = ("sa", scn["sa"], tuple(scn["safe"]), tuple(scn["limbo"]))
        ctx.trace()
        ctx.transition(len(order))
        for i in range(len(h)):
            ctx.state((key, h[:i + 1]))
        ctx.evaluated((key, h), nontrivial=bool(h))
        d = lambda: {"scenario": scn, "candidates": [[sorted(s), table[s]] for s in order], "result": str(o[1:2])}  # noqa
        for s in order:
            ctx.check(safe <= s, "candidate-without-protected",
                      f"a candidate without the protected species {sorted(safe - s)} was evaluated", d)
        ctx.check(o[0] == "ok", "sa-fails", f"sensitivity analysis ended in {o}", d)
        S = frozenset(o[1].model.species_names)
        ctx.check(safe <= S, "result-without-protected", f"the returned model lacks the protected species {sorted(safe - S)}", d)
        names = set(env.ct.Solution(o[1].filename).species_names)
        ctx.check(safe <= names, "file-without-protected", f"{o[1].filename} lacks {sorted(safe - names)}", d)
        if all(table[s] == "low" for s in order):
            ctx.check(S == full - considered, "unprotected-kept",
                      f"every candidate was acceptable but of {sorted(considered)} {sorted(S & considered)} were kept", d)

    ctx.explore(execute)


def run(scn, ctx):
    if scn.get("part") == "sa":
        return run_sa(scn, ctx)

    def execute(ch):
        rec = red.execute(scn, ch)
        red.account(rec, ctx)
        d = lambda: red.detail(rec)  # noqa
        for s in rec.log:
            missing = rec.protected - s["species"]
            ctx.check(not missing, "candidate-without-protected",
                      f"a candidate without the protected species {sorted(missing)} was evaluated", d)
        if rec.outcome[0] != "ok":
            return
        m = rec.outcome[1]
        S = frozenset(m.model.species_names)
        ctx.check(rec.protected <= S, "result-without-protected",
                  f"the returned model lacks the protected species {sorted(rec.protected - S)}", d)
        for f, content in rec.after.items():
            if f.endswith(".yaml"):
                names = set(env.ct.Solution(f, rec.parsed.phase_name).species_names)
                ctx.check(rec.protected <= names, "file-without-protected", f"{f} lacks {sorted(rec.protected - names)}", d)
        # with every candidate acceptable, exactly the protected species remain
        if scn["limit"] > 100 and (scn["method"] or not scn["sa"]):
            ctx.check(S == rec.protected, "unprotected-kept",
                      f"every candidate was acceptable but {sorted(S - rec.protected)} were kept", d)

    ctx.explore(execute)
