import itertools

import networkx
import numpy as np

import env
import mc
import reduction as red
import ref
import toys

ID = "C02"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small weighted digraphs against a brute-force reference; exhaustive run exploration"
NOTE = ("All weighted digraphs of up to 4 species over the listed weight alphabets are decided against brute-force reachability and "
        "path enumeration; complete runs are checked to evaluate only threshold sets of reference coefficients.")
RULE = ("all digraphs (3 species: weights 0, 1/4, 1/2, 1, nearly equal ones, and tiny ones and ones above 1; 4 species: weights 0, 1/2 and, for the product search, 0, 1/2, 3/4 or 1) x target "
        "sets x thresholds including ties x pairs of sampled states; states are (graph, targets, threshold) triples; trivial if the "
        "graph has no edge")
ASSUMPTIONS = ["weights are exactly representable, so that products and ties are exact",
               "complete runs: stub simulations, rates of the toys from their stated rate constants"]
BOUNDS = "up to 4 species and 2 sampled states for the searches; toys of up to 6 species and h2o2 (10 species) for complete runs"


def scenarios(tier, seed):
    S = [dict(part="three", a=a, b=b, weights=w) for w in (WEIGHTS, NEAR, LARGE) for a in range(4) for b in range(4)]
    S += [dict(part="four", fixed=list(f), weights=[0.0, 0.5]) for f in itertools.product(range(2), repeat=3)]
    alph = [[0.0, 0.5, 1.0], [0.0, 0.5, 0.75], [0.0, 0.5, NEAR[2]]] if tier == "thorough" else [[0.0, 0.5, 0.75]]
    for w in alph:
        S += [dict(part="four_imp", fixed=list(f), weights=w, stride=1 if tier == "thorough" else 1)
              for f in itertools.product(range(3), repeat=4)]
    S += [dict(part="pairs", first=i) for i in range(64)]
    S += [dict(part="reduce", method=m, first=i) for m in ("DRG", "DRGEP", "PFA") for i in range(0, 64, 3)]
    S += [dict(part="border", method=m, threshold=t) for m in ("DRG", "DRGEP", "PFA") for t in (0.01, 0.05, 0.13, 0.5, 1e-3, 3e-6)]
    for toy in red.TOYS:
        for m in ("DRG", "DRGEP", "PFA"):
            for states in ("even", "two"):
                S.append(dict(part="run", toy=toy, method=m, states=states, targets=["T"], safe=[], limit=env.LIMIT,
                              answers=["low", "above"]))
                if "U" in red.TOYS[toy]["species"]:
                    S.append(dict(part="run", toy=toy, method=m, states=states, targets=["U", "T"], safe=["A"], limit=150.0,
                                  answers=["low"]))
    for m in ("DRG", "DRGEP", "PFA"):
        for targets in (["H2"], ["H2", "O2"], ["H2O2", "H2O"]):
            S.append(dict(part="h2o2", method=m, targets=targets))
    return S


WEIGHTS = [0.0, 0.25, 0.5, 1.0]
#: paths whose products are nearly, but not exactly, equal
NEAR = [0.0, 0.5, 0.5 + 2.0 ** -20, 1.0]
#: coefficients above 1 (PFA) and tiny ones
LARGE = [0.0, 2.0 ** -40, 1.0, 3.0]
NAMES3, NAMES4 = ["A", "B", "C"], ["A", "B", "C", "D"]
EDGES3 = [(i, j) for i in range(3) for j in range(3) if i != j]
EDGES4 = [(i, j) for i in range(4) for j in range(4) if i != j]


def matrix(n, edges, weights):
    m = [[0.0] * n for _ in range(n)]
    for (i, j), w in zip(edges, weights):
        m[i][j] = w
    return m


def expect(ctx, key, got, want, **kw):
    if got != want:
        ctx.violation(key, f"got {mc.jsonable(got)}, expected {mc.jsonable(want)}", dict(kw, got=got, want=want))


def expect_close(ctx, key, got, want, **kw):
    if set(got) != set(want) or any(abs(got[k] - want[k]) > 1e-12 for k in want):
        ctx.violation(key, f"got {mc.jsonable(got)}, expected {mc.jsonable(want)}", dict(kw, got=got, want=want))


def check_reach(ctx, m, names, targets, threshold):
    want = ref.reachable(m, names, targets, threshold)
    arr = np.array(m)
    for mod, fn in ((env.drg, "trim_drg"), (env.pfa, "trim_pfa")):
        o = mc.outcome(lambda: getattr(mod, fn)(arr, list(names), list(targets), threshold))
        if o[0] != "ok":
            ctx.violation(fn, f"{o}", dict(matrix=m, targets=targets, threshold=threshold))
        expect(ctx, fn, set(o[1]), want, matrix=m, targets=targets, threshold=threshold)
    ctx.transition(2)


def check_importance(ctx, m, names, targets):
    want = ref.importance(m, names, targets)
    o = mc.outcome(lambda: env.drgep.get_importance_coeffs(list(names), list(targets), [np.array(m)]))
    if o[0] != "ok":
        ctx.violation("importance", f"{o}", dict(matrix=m, targets=targets))
    expect_close(ctx, "importance", {k: float(v) for k, v in o[1].items()}, want, matrix=m, targets=targets)
    ctx.transition()


def run(scn, ctx):
    globals()["part_" + scn["part"]](scn, ctx)


def part_three(scn, ctx):
    W = scn["weights"]
    thresholds = sorted({0.25, 0.3, 0.5, 1.0, 1.01, *W[1:]})
    for rest in itertools.product(W, repeat=4):
        m = matrix(3, EDGES3, [W[scn["a"]], W[scn["b"]], *rest])
        for targets in (["A"], ["B"], ["C", "A"], ["A", "B", "C"]):
            if max(W) <= 1.0:
                check_importance(ctx, m, NAMES3, targets)
            for thr in thresholds:
                check_reach(ctx, m, NAMES3, targets, thr)
            ctx.state((3, str(m), str(targets)))
            ctx.evaluated((3, str(m), str(targets)), nontrivial=any(map(any, m)))
        # the searches on graphs, as the public functions take them
        g = networkx.relabel_nodes(networkx.DiGraph(np.array(m)), dict(enumerate(NAMES3)))
        for mod in (env.drg, env.pfa):
            expect(ctx, "graph_search", set(mod.graph_search(g, ["A"])), ref.reachable(m, NAMES3, ["A"], 0.0), matrix=m)
        if max(W) > 1.0:
            continue
        imp = ref.importance(m, NAMES3, ["B"])
        got = env.drgep.graph_search_drgep(g, ["B"])
        expect_close(ctx, "graph_search_drgep", {k: float(v) for k, v in got.items() if v}, {k: v for k, v in imp.items() if v}, matrix=m)
    ctx.sample({"last_matrix": m})
    ctx.trace()


def part_four(scn, ctx):
    W = scn["weights"]
    fixed = [W[i] for i in scn["fixed"]]
    for rest in itertools.product(W, repeat=12 - len(fixed)):
        m = matrix(4, EDGES4, [*fixed, *rest])
        check_reach(ctx, m, NAMES4, ["A"], 0.5)
        check_reach(ctx, m, NAMES4, ["D", "B"], 0.5)
        ctx.state((4, str(m), "reach"))
        ctx.evaluated((4, str(m), "reach"), nontrivial=any(map(any, m)))
        if ctx.out_of_time():
            return
    ctx.trace()


def part_four_imp(scn, ctx):
    W = scn["weights"]
    fixed = [W[i] for i in scn["fixed"]]
    # all graphs up to renaming of B, C, D with respect to the row of the target
    if sorted(fixed[:3]) != fixed[:3]:
        check = False
    else:
        check = True
    if not check and ctx.tier == "quick":
        return
    for rest in itertools.product(W, repeat=12 - len(fixed)):
        m = matrix(4, EDGES4, [*fixed, *rest])
        check_importance(ctx, m, NAMES4, ["A"])
        ctx.state((4, str(m), "imp"))
        ctx.evaluated((4, str(m), "imp"), nontrivial=any(map(any, m)))
        if ctx.out_of_time():
            return
    ctx.trace()


def graphs3(weights):
    return [matrix(3, EDGES3, w) for w in itertools.product(weights, repeat=6)]


def part_pairs(scn, ctx):
    """Two sampled states: the maximum over the states."""
    first = graphs3([0.0, 0.5])[scn["first"]]
    for second in graphs3([0.0, 0.75]):
        ms = [first, second]
        want = {s: max(ref.importance(m, NAMES3, ["A"])[s] for m in ms) for s in NAMES3}
        for order in (ms, ms[::-1]):
            got = env.drgep.get_importance_coeffs(NAMES3, ["A"], [np.array(m) for m in order])
            expect_close(ctx, "importance-states", {k: float(v) for k, v in got.items()}, want, matrices=order)
            ctx.transition()
        ctx.state(("pair", str(ms)))
        ctx.evaluated(("pair", str(ms)))
    ctx.trace()


def part_reduce(scn, ctx):
    """One reduction step: species of the candidate for a threshold, states and protected list."""
    method = scn["method"]
    t = toys.toy(NAMES3, [toys.rxn("A => B", 1.0), toys.rxn("B => C", 1.0), toys.rxn("C => A", 1.0)])
    mc.fresh_dir()
    toys.write(t, "toy.yaml")
    first = graphs3([0.0, 0.5])[scn["first"]]
    others = [None, matrix(3, EDGES3, [0, .75, 0, 0, 0, 0]), matrix(3, EDGES3, [.75, 0, 0, .75, 0, 0]),
              matrix(3, EDGES3, [0, 0, .75, 0, 0, .75])]
    conds = [env.psr(reactants={"A": 1.0})]
    with env.StubEnv(lambda kind, sp, idx, p: env.BASE):
        for second in others:
            ms = [first] + ([second] if second else [])
            for targets in (["A"], ["C", "B"]):
                for safe in ([], ["B"]):
                    for thr in (0.3, 0.5, 0.375, 1.0, 1.5):
                        prot = set(targets) | set(safe)
                        arr = [np.array(m) for m in ms]
                        if method == "DRGEP":
                            imp = env.drgep.get_importance_coeffs(NAMES3, targets, arr)
                            fn = lambda: env.drgep.reduce_drgep(  # noqa
                                "toy.yaml", sorted(prot), thr, imp, [], np.array([env.BASE] * 3), psr_conditions=[env.psr(reactants={})])
                        else:
                            mod, name = ((env.drg, "reduce_drg") if method == "DRG" else (env.pfa, "reduce_pfa"))
                            fn = lambda: getattr(mod, name)(  # noqa
                                "toy.yaml", list(targets), list(safe), thr, arr, [], np.array([env.BASE] * 3),
                                psr_conditions=[env.psr(reactants={})])
                        o = mc.outcome(fn)
                        d = dict(matrices=ms, targets=targets, safe=safe, threshold=thr, method=method)
                        if o[0] != "ok":
                            ctx.violation("reduce-step", str(o), d)
                        want = ref.retained(method, ms, NAMES3, targets, thr) | prot
                        expect(ctx, "reduce-step", set(o[1].model.species_names), want, **d)
                        ctx.transition()
                        ctx.state(("reduce", method, str(ms), str(targets), str(safe), thr))
                        ctx.evaluated(("reduce", method, str(ms), str(targets), str(safe), thr))
    ctx.sample(d)
    ctx.trace()


def part_border(scn, ctx):
    """Coefficients that differ from the threshold in the last place only."""
    method, thr = scn["method"], scn["threshold"]
    t = toys.toy(NAMES3, [toys.rxn("A => B", 1.0), toys.rxn("B => C", 1.0), toys.rxn("C => A", 1.0)])
    mc.fresh_dir()
    toys.write(t, "toy.yaml")
    below, above = float(np.nextafter(thr, 0.0)), float(np.nextafter(thr, 9.0))
    values = [below, thr, above, thr * (1 - 1e-12), thr * (1 - 1e-8), thr * (1 - 1e-5), thr * (1 + 1e-5)]
    conds = [env.psr(reactants={})]
    with env.StubEnv(lambda kind, sp, idx, p: env.BASE):
        for x, y in itertools.product(values, repeat=2):
            if method == "DRGEP":
                want = {"A"} | {s for s, v in (("B", x), ("C", y)) if v >= thr}
                o = mc.outcome(lambda: env.drgep.reduce_drgep("toy.yaml", ["A"], thr, {"A": 1.0, "B": x, "C": y}, [],
                                                              np.array([env.BASE] * 3), psr_conditions=conds))
            else:
                m = matrix(3, EDGES3, [0.0] * 6)
                m[0][1], m[1][2] = x, y
                want = ref.reachable(m, NAMES3, ["A"], thr)
                mod, name, trim = ((env.drg, "reduce_drg", "trim_drg") if method == "DRG" else (env.pfa, "reduce_pfa", "trim_pfa"))
                expect(ctx, trim, set(getattr(mod, trim)(np.array(m), list(NAMES3), ["A"], thr)), want, matrix=m, threshold=thr)
                o = mc.outcome(lambda: getattr(mod, name)("toy.yaml", ["A"], [], thr, [np.array(m)], [],
                                                          np.array([env.BASE] * 3), psr_conditions=conds))
            d = dict(method=method, threshold=repr(thr), coefficients=[repr(x), repr(y)])
            if o[0] != "ok":
                ctx.violation("border", str(o), d)
            expect(ctx, "border", set(o[1].model.species_names), want, **d)
            ctx.transition()
            ctx.state(("border", method, thr, x, y))
            ctx.evaluated(("border", method, thr, x, y))
    ctx.trace()


def family(method, ms, names, targets, prot):
    """Threshold sets as pairs (kept for sure, possibly kept): coefficients that are equal up to
    rounding may be told apart by the code."""
    if method == "DRGEP":
        imp = {}
        for m in ms:
            for s, v in maxprod(m, names, targets).items():
                imp[s] = max(imp.get(s, 0.0), v)
        values = sorted({v for v in imp.values() if v > 0}) + [1e9]

        def at(v):
            return frozenset({s for s in names if imp[s] >= v} | set(targets) | prot)
    else:
        values = sorted({x for m in ms for r in m for x in r if x > 0}) + [1e9]

        def at(v):
            return frozenset(set().union(*(ref.reachable(m, names, targets, v) for m in ms)) | prot)
    return [(at(v * (1 + 1e-9)), at(v * (1 - 1e-9))) for v in values]


def member(s, fam):
    return any(hi <= s <= lo for hi, lo in fam)


def maxprod(m, names, targets):
    best = {s: (1.0 if s in targets else 0.0) for s in names}
    for _ in names:
        for i, a in enumerate(names):
            for j, b in enumerate(names):
                if i != j and best[a] * m[i][j] > best[b]:
                    best[b] = best[a] * m[i][j]
    return best


def part_run(scn, ctx):
    t = red.TOYS[scn["toy"]]
    nu_r, nu_p = ref.toy_stoich(t)
    rows = red.states_for(t, scn["states"])("psr", t["species"], 0)
    ms = [ref.MATRIX[scn["method"]](nu_r, nu_p, ref.toy_rates(t, r[2:], r[0], r[1])) for r in rows]

    def execute(ch):
        rec = red.execute(scn, ch)
        red.account(rec, ctx)
        fam = family(scn["method"], ms, t["species"], scn["targets"], set(rec.protected))
        for s in list(rec.order) + ([frozenset(rec.outcome[1].model.species_names)] if rec.outcome[0] == "ok" else []):
            if s != rec.full and not member(s, fam):
                ctx.violation("run-candidate", f"{sorted(s)} is not the set of species kept at any threshold",
                              dict(red.detail(rec), family=fam))

    ctx.explore(execute)


def part_h2o2(scn, ctx):
    import shutil

    ct = env.ct
    gas = ct.Solution("h2o2.yaml")
    names = gas.species_names
    rows = []
    for T, comp in ((1100.0, "H2:2,O2:1,N2:4,H:0.01,OH:0.02"), (1600.0, "H2:1,O2:1,H2O:2,O:.1,H:.1,OH:.1,N2:4"),
                    (2200.0, "H2:.1,O2:.1,H2O:2,O:.02,H:.02,OH:.1,HO2:.001,H2O2:.0001,N2:4")):
        gas.TPX = T, ct.one_atm, comp
        rows.append([gas.T, gas.P, *gas.Y])
    ms = []
    for r in rows:
        gas.TPY = r[0], r[1], r[2:]
        ms.append(ref.MATRIX[scn["method"]](gas.reactant_stoich_coeffs.tolist(), gas.product_stoich_coeffs.tolist(),
                                            gas.net_rates_of_progress.tolist()))
    mc.fresh_dir()
    shutil.copyfile(_h2o2(), "h2o2.yaml")
    seen = []

    def answer(kind, species, idx, p):
        seen.append(species)
        return 8.5

    prot = set(scn["targets"])
    fam = family(scn["method"], ms, names, scn["targets"], prot)
    with env.StubEnv(answer, states=lambda kind, nm, idx: rows):
        fn = {"DRG": env.drg.run_drg, "DRGEP": env.drgep.run_drgep, "PFA": env.pfa.run_pfa}[scn["method"]]
        o = mc.outcome(lambda: fn("h2o2.yaml", [], [env.psr(reactants={})], [], env.LIMIT, list(scn["targets"]), []), limit=120)
    if o[0] == "ok":
        for s in seen:
            if not member(s, fam):
                ctx.violation("run-candidate-h2o2", f"{sorted(s)} is not the set of species kept at any threshold",
                              dict(scn=scn, family=fam))
        ctx.state(("h2o2", scn["method"], str(scn["targets"])))
        ctx.transition(len(seen))
        ctx.evaluated(("h2o2", scn["method"], str(scn["targets"])))
        ctx.trace()


def _h2o2():
    import os

    return os.path.join(os.path.dirname(env.ct.__file__), "data", "h2o2.yaml")
