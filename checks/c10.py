import itertools

import numpy as np

import env
import mc
import toys
from env import sampling

ID = "C10"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of condition combinations and metric values on the real sampling and error functions"
NOTE = ("All combinations of 0-3 conditions per phenomenon with distinct metrics and data rows per condition, and all assignments of "
        "metric values to up to four metrics; simulations are replaced by chosen metrics.")
RULE = ("order: all numbers of conditions (0..2, thorough 0..3) of each phenomenon x {first sampling, second sampling, read back, "
        "baseline metrics, candidate}; error: all assignments of {zero, tiny, lower, equal, within rounding, higher, far higher} to up to "
        "3 (thorough 4) metrics of different magnitude, and through complete reductions; trivial if there is no metric")
ASSUMPTIONS = ["simulations are replaced by chosen metrics; original metrics are positive"]
BOUNDS = "up to 3 conditions per phenomenon; up to 4 metrics in the error enumeration"

BASES = [8.0, 2.5e-7, 1250.0, 0.375]
FACTORS = [0.0, 1e-3, 0.5, 0.875, 1.0, 1.125, 1.5, 3.0, 1e4]


def scenarios(tier, seed):
    n = 4 if tier == "thorough" else 3
    S = [dict(part="order", n=list(c), threads=1) for c in itertools.product(range(n), repeat=3) if sum(c)]
    if tier == "thorough":
        S += [dict(part="order", n=list(c), threads=2) for c in itertools.product(range(3), repeat=3) if sum(c)]
    for k in range(1, 4):
        for b in itertools.permutations(range(len(BASES)), k):
            S.append(dict(part="error", bases=list(b)))
    if tier == "thorough":
        for i in range(len(FACTORS)):
            S.append(dict(part="error", bases=[0, 1, 2, 3], first=i))
    # the error of a complete reduction with several conditions
    for n in itertools.product(range(3), repeat=3):
        if 2 <= sum(n) <= (4 if tier == "thorough" else 3):
            S.append(dict(part="driver", n=list(n), method=["DRG", "DRGEP", "PFA"][sum(n) % 3], sa=[None, "initial", "greedy"][n[0] % 3]))
    return S


def run(scn, ctx):
    {"order": run_order, "error": run_error, "driver": run_driver}[scn["part"]](scn, ctx)


def conds(n):
    return ([env.ign(i) for i in range(n[0])], [env.psr(i) for i in range(n[1])], [env.flame(i) for i in range(n[2])])


def base_metric(kind, idx):
    """Distinct for every metric of every condition."""
    if kind == "psr":
        return [1000.0 + 10 * idx + j + 0.1 for j in range(3)]
    return {"ign": 1e-5, "flame": 0.3}[kind] * (1 + idx)


def cand_metric(kind, species, idx, p):
    v = base_metric(kind, idx)
    return [x * 1.125 for x in v] if kind == "psr" else v * 1.25


def rows_of(kind, names, idx):
    c = {"ign": 1, "psr": 2, "flame": 3}[kind]
    return [[1000.0 * c + 100 * idx + r, 101325.0 + r, *[0.01 * (j + 1) + r / 3 for j in range(len(names))]] for r in range(20)]


def flat(values):
    return np.concatenate([np.atleast_1d(np.array(v, dtype=float)) for v in values]) if values else np.array([])


def run_order(scn, ctx):
    mc.fresh_dir()
    t = toys.toy(["T", "A", "B"], [toys.rxn("T => A", 1.0), toys.rxn("A => B", 1.0)])
    toys.write(t, "toy.yaml")
    toys.write(toys.toy(["T", "A"], [toys.rxn("T => A", 1.0)]), "cand.yaml")
    n = scn["n"]
    C = conds(n)
    kinds = ["ign"] * n[0] + ["psr"] * n[1] + ["flame"] * n[2]
    idxs = list(range(n[0])) + list(range(n[1])) + list(range(n[2]))
    want = flat([base_metric(k, i) for k, i in zip(kinds, idxs)])
    wantc = flat([cand_metric(k, None, i, None) for k, i in zip(kinds, idxs)])
    wantd = np.array([r for k, i in zip(kinds, idxs) for r in rows_of(k, t["species"], i)[:3 if k == "psr" else 20]])
    e = env.StubEnv(lambda kind, sp, idx, p: cand_metric(kind, sp, idx, p) if "B" not in sp else base_metric(kind, idx),
                    states=rows_of, baseline=base_metric)
    nt = scn["threads"]

    def step(name, fn, expect):
        ctx.evaluated((tuple(n), nt, name))
        ctx.state((tuple(n), nt, name))
        ctx.transition()
        ctx.trace()
        o = mc.outcome(fn)
        ok = o[0] == "ok"
        if ok:
            got = o[1] if isinstance(o[1], tuple) else (o[1],)
            ok = len(got) == len(expect) and all(np.shape(g) == np.shape(x) and np.array_equal(np.asarray(g), x) for g, x in zip(got, expect))
        ctx.check(ok, name, f"{name} of {n} conditions (ignition, PSR, flame) is not in the documented order or not what was simulated",
                  lambda: {"n": n, "got": str(o)[:600], "expected": str(expect)[:600]})

    with e:
        step("sample", lambda: sampling.sample("toy.yaml", *C, num_threads=nt), (want, wantd))
        step("sample again", lambda: sampling.sample("toy.yaml", *C, num_threads=nt), (want, wantd))
        step("read_metrics", lambda: sampling.read_metrics(*C), (want,))
        step("baseline metrics", lambda: sampling.sample_metrics("toy.yaml", *C, reuse_saved=True, num_threads=nt), (want,))
        step("candidate metrics", lambda: sampling.sample_metrics("cand.yaml", *C, num_threads=nt), (wantc,))
        step("original metrics", lambda: sampling.sample_metrics("toy.yaml", *C, num_threads=nt), (want,))
    ctx.sample({"n": n, "metrics": want, "data_rows": len(wantd)})


def ref_error(orig, test):
    err = max(100.0 * (abs(o - x) / o) for o, x in zip(orig, test))
    return max(err, 100.0) if any(x == 0 for x in test) else err


def run_error(scn, ctx):
    bases = [BASES[i] for i in scn["bases"]]
    fs = [FACTORS] * len(bases)
    if "first" in scn:
        fs[0] = [FACTORS[scn["first"]]]
    for f in itertools.product(*fs):
        test = [b * x for b, x in zip(bases, f)]
        o = mc.outcome(lambda: sampling.calculate_error(np.array(bases), np.array(test)))
        want = ref_error(bases, test)
        ctx.evaluated(("err", tuple(scn["bases"]), f))
        ctx.state(("err", tuple(scn["bases"]), f))
        ctx.transition()
        ctx.check(o[0] == "ok" and np.ndim(o[1]) == 0 and abs(float(o[1]) - want) <= 1e-9 * max(want, 1.0), "error value",
                  f"error {o[1]} of metrics {test} against {bases}; the largest relative deviation is {want}",
                  {"original": bases, "tested": test})
    ctx.sample({"original": bases, "assignments": int(np.prod([len(x) for x in fs]))})


def run_driver(scn, ctx):
    """The error a reduction reports is the one over all metrics, whichever of them deviates."""
    n = scn["n"]
    t = toys.star({"A": 0.05, "B": 0.5})
    where = [("ign", i, 0) for i in range(n[0])] + [("psr", i, j) for i in range(n[1]) for j in range(3)] + [("flame", i, 0) for i in range(n[2])]
    fn = {"DRG": env.drg.run_drg, "DRGEP": env.drgep.run_drgep, "PFA": env.pfa.run_pfa}[scn["method"]]
    for dev in where:
        for factor in (0.9375, 1.0625, 0.0):
            if factor == 0.0 and dev[0] == "psr" and dev[2]:
                continue
            mc.fresh_dir()
            toys.write(t, "toy.yaml")

            def answer(kind, sp, idx, p):
                v = base_metric(kind, idx)
                if len(sp) < len(t["species"]) and (kind, idx) == dev[:2]:
                    if kind == "psr":
                        v = [x * factor if j == dev[2] or factor == 0.0 else x for j, x in enumerate(v)]
                    else:
                        v = v * factor
                return v

            want = 0.0 if factor == 0.0 else ref_error(
                flat([base_metric(*w[:2]) for w in where if w[2] == 0]),
                flat([base_metric(*w[:2]) if w[:2] != dev[:2] else answer(w[0], "", w[1], None) for w in where if w[2] == 0]))
            with env.StubEnv(answer, states=lambda kind, names, idx: [[1000.0, 101325.0, *([1 / len(names)] * len(names))]],
                             baseline=base_metric):
                def reduce():
                    m = fn("toy.yaml", *conds(n), 20.0, ["T"], [])
                    if scn["sa"]:
                        m = env.sensitivity_analysis.run_sa(m.filename, m.error, *conds(n), 20.0, ["T"], algorithm_type=scn["sa"],
                                                            species_limbo=["B"])
                    return m
                o = mc.outcome(reduce)
            ctx.evaluated(("driver", tuple(n), dev, factor))
            ctx.state(("driver", tuple(n), dev, factor))
            ctx.transition()
            ctx.trace()
            d = {"conditions": n, "deviating": dev, "factor": factor, "outcome": str(o)[:300]}
            if factor == 0.0:
                ctx.check(o[0] == "exit" or o[0] == "ok" and o[1].model.n_species == 4, "dead metric accepted", f"all candidates have a zero metric in {dev} but the reduction "
                          f"ended with {str(o)[:100]}", d)
            else:
                ctx.check(o[0] == "ok" and o[1].model.n_species < 4 and abs(o[1].error - want) < 1e-9, "reported error",
                          f"the only deviation is {want:.4f}% in {dev}, the reduction reports {getattr(o[1], 'error', o)}", d)
    ctx.sample({"conditions": n, "deviations": len(where) * 3})
