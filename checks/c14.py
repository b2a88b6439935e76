import itertools
import os

import numpy as np

import env
import mc
import toys
from env import sampling

ID = "C14"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state model of the saved samples, explored breadth-first with every transition replayed on the real code"
NOTE = ("All reachable states of the sample directory under sampling requests, baseline / candidate metrics, reductions and deletions: to "
        "the fixpoint for single phenomena and (thorough) for all three together, to depth 4 in the quick tier.")
RULE = ("breadth-first search over directory states; every operation (sampling with each of three models x numbers of conditions, "
        "baseline metrics with reuse, candidate metrics, a reduction, deleting any saved file) is applied to every state reached, on the "
        "real code, and compared with the model (who is simulated, returned metrics and data, files afterwards)")
ASSUMPTIONS = ["simulations are replaced by chosen metrics and states", "saved samples are identified by number of conditions and of species, "
               "as documented; conditions themselves are not stored"]
BOUNDS = "three models (two with equally many species), two phases of one file, up to 3 conditions, three phenomena"

MODELS = {"a3": ["T", "A", "B"], "b3": ["T", "A", "C"], "a4": ["T", "A", "B", "C"], "p4": ["T", "A", "B", "C"], "p3": ["T", "A", "B"]}
#: p4 and p3 are two phases of one file
FILE = {m: f"m_{m}.yaml" for m in ("a3", "b3", "a4")} | {"p4": "m_p.yaml", "p3": "m_p.yaml"}
PHASE = {"p4": "gas", "p3": "small"}
KINDS = ["ign", "psr", "flame"]
FILES = {"ign": ("ignition_data.dat", "ignition_output.txt"), "psr": ("psr_data.dat", "psr_output.txt"),
         "flame": ("laminarflame_data.dat", "laminarflame_output.txt")}
ROWS = {"ign": 20, "psr": 3, "flame": 20}
MAKE = {"ign": env.ign, "psr": env.psr, "flame": env.flame}


def scenarios(tier, seed):
    S = []
    for kind in KINDS:
        S.append(dict(part="single", kind=kind, space=kind, models=["a3", "b3", "a4"]))
        S.append(dict(part="single", kind=kind, space=kind + " phases", models=["p4", "p3"]))
    combos = [[1, 1, 1], [2, 1, 0], [0, 1, 2], [1, 0, 1]]
    for c, m in itertools.product(range(len(combos)), ["a3", "a4"]):
        S.append(dict(part="multi", combos=combos, root=["sample", m, combos[c]], depth=4 if tier == "quick" else 6, space="multi"))
    if tier == "thorough":
        combos = [[1, 1, 0], [2, 0, 1], [0, 2, 2], [1, 1, 1], [1, 2, 0]]
        for c, m in itertools.product(range(len(combos)), ["a3", "b3", "a4"]):
            S.append(dict(part="multi", combos=combos, models=["a3", "b3", "a4"], root=["sample", m, combos[c]], depth=4, space="multi2"))
    return S


def rxns(sp):
    return [toys.rxn(f"{a} => {b}", 1.0) for a, b in zip(sp, sp[1:])]


def metric(kind, model, n, idx):
    v = 10.0 * (1 + KINDS.index(kind)) + list(MODELS).index(model) + 0.1 * n + 0.01 * idx + 1.0 / 3.0
    return [v, v + 100.0, v + 200.0] if kind == "psr" else v


def rows(kind, model, n, idx):
    out = []
    for r in range(3 if kind == "psr" else 20):
        out.append([1000.0 + 100 * idx + r + KINDS.index(kind) / 7.0, 101325.0 + n, *[(list(MODELS).index(model) + 1) * 0.1 + j / 3.0
                                                                                  for j in range(len(MODELS[model]))]])
    return out


def metrics_of(kind, model, n):
    return [x for i in range(n) for x in np.atleast_1d(metric(kind, model, n, i))]


def rows_of(kind, model, n):
    return [r for i in range(n) for r in rows(kind, model, n, i)]


def ops_of(scn):
    ops = []
    if scn["part"] == "single":
        k = KINDS.index(scn["kind"])
        combos = [[0] * k + [n] + [0] * (2 - k) for n in (1, 2, 3)]
        models = scn["models"]
        kinds = [scn["kind"]]
    else:
        combos, models, kinds = scn["combos"], scn.get("models", ["a3", "a4"]), KINDS
    for m in models:
        for c in combos:
            ops.append(["sample", m, c])
            ops.append(["baseline", m, c])
        ops.append(["candidate", m, combos[-1]])
        ops.append(["reduce", m, combos[0]])
    for k in kinds:
        ops += [["delete", FILES[k][0]], ["delete", FILES[k][1]]]
    if scn["part"] == "single":
        # files with too few or too many rows for a whole number of conditions
        k, R = kinds[0], ROWS[kinds[0]]
        ops += [["resize", FILES[k][0], x] for x in sorted({1, R - 1, -1, -(R - 1), -R})]
        ops += [["resize", FILES[k][1], x] for x in (1, -1)]
    return ops


def resized(rows, x):
    return rows[:x] if x < 0 else rows + rows[:1] * x


def count(kind, saved, rows=None):
    """Number of conditions whose samples a (possibly resized) file holds."""
    per = rows or (3 if kind == "psr" else 1)
    return saved[1] + (saved[2] / per if len(saved) > 2 else 0)


def content(make, kind, saved):
    out = list(make(kind, *saved[:2]))
    return resized(out, saved[2]) if len(saved) > 2 else out


# the model: per phenomenon (data, output), each None or (model, n) or (model, n, rows too many)
def model_step(state, op):
    """Returns (new state, kinds simulated, returned metrics, returned data)."""
    state = dict(state)
    if op[0] == "delete":
        for k, (d, o) in FILES.items():
            if op[1] == d:
                state[k] = (None, state[k][1])
            if op[1] == o:
                state[k] = (state[k][0], None)
        return state, [], None, None
    if op[0] == "resize":
        for k, (d, o) in FILES.items():
            if op[1] == d:
                state[k] = (state[k][0] + (op[2],), state[k][1])
            if op[1] == o:
                state[k] = (state[k][0], state[k][1] + (op[2],))
        return state, [], None, None
    _, m, c = op
    sims, mets, data = [], [], []
    for k, n in zip(KINDS, c):
        if not n:
            continue
        D, O = state[k]
        if op[0] in ("sample", "reduce"):
            fits = D and O and count(k, O) == n and count(k, D, ROWS[k]) == n and len(MODELS[D[0]]) == len(MODELS[m])
        else:
            fits = op[0] == "baseline" and O and count(k, O) == n
        if not fits:
            sims += [(k, i) for i in range(n)]
            D = O = (m, n)
            if op[0] in ("sample", "reduce"):
                state[k] = (D, O)
        mets += content(metrics_of, k, O)
        if D:
            data += content(rows_of, k, D)
    return state, sims, mets, data


def files_of(state):
    out = {}
    for k, (d, o) in FILES.items():
        D, O = state[k]
        if D:
            out[d] = np.array(content(rows_of, k, D))
        if O:
            out[o] = np.array(content(metrics_of, k, O))
    return out


def load():
    out = {}
    for f in os.listdir("."):
        if f.endswith((".dat", ".txt", ".tmp")):
            with open(f, "rb") as fh:
                out[f] = fh.read()
    return out


def restore(files):
    for f in os.listdir("."):
        if os.path.isfile(f) and not f.startswith("m_"):
            os.remove(f)
    for f, b in files.items():
        with open(f, "wb") as fh:
            fh.write(b)


def apply(op):
    """Applies the operation to the real code; returns (outcome, simulations of the full model)."""
    if op[0] == "delete":
        if os.path.isfile(op[1]):
            os.remove(op[1])
        return ("ok", None), [], []
    if op[0] == "resize":
        with open(op[1]) as fh:
            lines = fh.readlines()
        with open(op[1], "w") as fh:
            fh.writelines(resized(lines, op[2]))
        return ("ok", None), [], []
    _, m, c = op
    C = [[MAKE[k](i) for i in range(n)] for k, n in zip(KINDS, c)]
    num = dict(zip(KINDS, c))
    full, ph = frozenset(MODELS[m]), PHASE.get(m, "")
    e = env.StubEnv(lambda kind, sp, idx, p: metric(kind, m, num[kind], idx) if sp == full else 0.0,
                    states=lambda kind, names, idx: rows(kind, m, num[kind], idx),
                    baseline=lambda kind, idx: metric(kind, m, num[kind], idx))
    with e:
        if op[0] == "sample":
            o = mc.outcome(lambda: sampling.sample(FILE[m], *C, phase_name=ph))
        elif op[0] == "baseline":
            o = mc.outcome(lambda: sampling.sample_metrics(FILE[m], *C, reuse_saved=True, phase_name=ph))
        elif op[0] == "candidate":
            o = mc.outcome(lambda: sampling.sample_metrics(FILE[m], *C, phase_name=ph))
        else:
            o = mc.outcome(lambda: env.drgep.run_drgep(FILE[m], *C, 10.0, ["T"], [], phase_name=ph))
    sims = [(x["kind"], x["idx"]) for x in e.log if x["species"] == full and (op[0] != "reduce" or x["mode"] == "sample")]
    cands = [(x["kind"], x["idx"]) for x in e.log if x["species"] != full]
    return o, sims, cands


def freeze(state):
    return tuple((k, state[k]) for k in KINDS)


def run(scn, ctx):
    mc.fresh_dir()
    for m, sp in MODELS.items():
        t = toys.toy(sp, rxns(sp))
        if m == "p4":
            t.update(more_phases=["small"], second_phase_species=3)
        if m != "p3":
            toys.write(t, FILE[m])
    ops = ops_of(scn)
    start = {k: (None, None) for k in KINDS}
    frontier = [(start, {}, [])]
    seen = {freeze(start)}
    ctx.state(freeze(start))
    depth = 0
    while frontier and (scn["part"] == "single" or depth < scn["depth"]):
        nxt = []
        for state, files, hist in frontier:
            if ctx.out_of_time():
                return
            for op in (ops if depth or "root" not in scn else [scn["root"]]):
                if op[0] in ("delete", "resize") and op[1] not in files:
                    continue
                if op[0] == "resize":
                    whole = [x for k in KINDS for x, f in zip(state[k], FILES[k]) if f == op[1]][0]
                    if len(whole) > 2:  # only whole files are resized
                        continue
                    if files[op[1]].count(b"\n") + op[2] < 0:
                        continue
                restore(files)
                want, sims, mets, data = model_step(state, op)
                o, rsims, cands = apply(op)
                after = load()
                ctx.transition()
                ctx.trace()
                ctx.evaluated((freeze(state), str(op)))
                d = {"history": hist + [op], "state": str(state), "simulated": rsims, "result": str(o)[:400]}
                if op[0] not in ("delete", "resize"):
                    good = o[0] == "ok" if op[0] != "reduce" else o[0] in ("ok", "exit")
                    ctx.check(good, "failure", f"after {hist}, {op} ended in {str(o)[:200]}", d)
                    if op[0] != "reduce":
                        ctx.check(sorted(rsims) == sorted(sims), "reuse", f"after {hist}, {op} simulated {rsims}, expected {sims}", d)
                    else:
                        # the baseline may also be a candidate of the reduction (then evaluated, not sampled)
                        ctx.check(sorted(rsims) == sorted(sims), "reuse", f"after {hist}, {op} sampled {rsims}, expected {sims}", d)
                    if op[0] == "sample":
                        ok = np.array_equal(o[1][0], mets) and np.array_equal(o[1][1], np.array(data))
                        ctx.check(ok, "returned samples", f"after {hist}, {op} returned metrics {list(o[1][0])}, expected {mets}, or other data", d)
                    elif op[0] in ("baseline", "candidate"):
                        ctx.check(np.array_equal(o[1], mets), "returned metrics", f"after {hist}, {op} returned {list(o[1])}, expected {mets}", d)
                expected = files_of(want)
                ok = set(after) == set(expected)
                if ok:
                    ok = all(np.array_equal(np.genfromtxt(f, delimiter=",").reshape(expected[f].shape)
                                            if np.genfromtxt(f, delimiter=",").size == expected[f].size else None, expected[f])
                             for f in after if f in expected)
                ctx.check(ok, "files", f"after {hist}, {op} left {sorted(after)} with other contents than the new samples; expected "
                          f"{sorted(expected)}", d)
                key = freeze(want)
                if key not in seen:
                    seen.add(key)
                    ctx.state(key)
                    nxt.append((want, after, hist + [op]))
                    ctx.sample({"history": hist + [op], "simulated": rsims})
        frontier = nxt
        depth += 1
    ctx.count("fixpoint" if not frontier else "depth_limited")
