import copy
import itertools
import json
import os
import subprocess
import sys

import numpy as np
import yaml

import env
import inject
import mc
import toys
from env import ct, driver, drg, drgep, pfa, sampling, sensitivity_analysis

ID = "C19"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the deviations of up to two (thorough: three) options on the real entry points, with monitored simulations"
NOTE = ("Every run goes through a real entry point (command line, module main, driver, method functions); every simulation it starts is observed, and "
        "candidates and result are compared with those of the method functions given the options explicitly.")
RULE = ("options method, sensitivity analysis, error limit, targets, retained species, upper threshold, phase, conditions, minimum flame speed, output "
        "directory, thread number: all combinations deviating in at most two options (thorough: three) from the default case (quick: one from each of the other base cases) x entry point; "
        "flame floor x recorded speeds; Chemkin files: full product of inline / separate thermodynamic data, transport data, output directory, file "
        "name extension and entry point; a case is one run")
ASSUMPTIONS = ["simulations are replaced by chosen outcomes that depend on the candidate's set of species (except in the flame floor and subprocess parts)",
               "the method functions, called with explicit arguments, are decided by C02 to C08"]
BOUNDS = "toy mechanism of 7 species in two phases; up to 5 conditions of three phenomena"
BUDGET = {"quick": 400.0, "thorough": 2600.0}

SPECIES = ["T", "U", "A", "B", "C", "D", "E"]
SMALL = 6
R = toys.rxn
TOY = dict(toys.toy(SPECIES, [
    R("T => A", 0.06), R("T => B", 0.03), R("T => U", 0.91), R("U => T", 0.5), R("U => C", 0.035), R("U => E", 0.465), R("A => B", 0.5),
    R("A => D", 0.25), R("B => A", 0.3), R("C => D", 0.4), R("D => T", 0.2), R("B + C => B + D", 0.1)]),
    more_phases=["small"], second_phase_species=SMALL)
#: deviations in percent: one per removed species, and more for pairs
WEIGHT = {"T": 40.0, "U": 9.0, "A": 5.0, "B": 1.5, "C": 2.5, "D": 1.0, "E": 3.5}
PAIR = {("A", "D"): 4.5, ("B", "C"): -2.0, ("D", "E"): 2.75, ("C", "D"): 1.125}

CASES = {
    "ign": {"autoignition-conditions": [{"kind": "constant volume", "temperature": 1000.0, "pressure": 1.0, "reactants": {"T": 1.0}}]},
    "psr": {"psr-conditions": [{"temperature": 310.0, "pressure": 3.0, "reactants": {"T": 1.0}, "composition-type": "mass"},
                               {"temperature": 320.0, "pressure": 1.5, "reactants": {"T": 0.25}}]},
    "many": {"autoignition-conditions": [{"kind": "constant volume", "temperature": 1000.0 + 50.0 * i, "pressure": 1.0, "reactants": {"T": 1.0}}
                                         for i in range(5)]},
    "flame": {"laminar-flame-conditions": [{"temperature": 400.0, "pressure": 2.0, "width": 0.03, "reactants": {"T": 1.0}}]},
    "all": {"autoignition-conditions": [{"kind": "constant pressure", "temperature": 1100.0, "pressure": 4.0, "end-time": 0.25, "max-steps": 77,
                                         "equivalence-ratio": 0.5, "fuel": {"T": 1.0}, "oxidizer": {"T": 2.0}},
                                        {"kind": "constant volume", "temperature": 1200.0, "pressure": 0.5, "reactants": {"T": 1.0}}],
            "psr-conditions": [{"temperature": 500.0, "pressure": 7.0, "reactants": {"T": 1.0}}],
            "laminar-flame-conditions": [{"temperature": 350.0, "pressure": 1.0, "reactants": {"T": 1.0}},
                                         {"temperature": 360.0, "pressure": 9.0, "width": 0.5, "reactants": {"T": 1.0}}]},
}
OPTIONS = {
    "method": ["DRGEP", "DRG", "PFA", None],
    "sa": [None, "greedy", "initial"],
    "limit": [9.0, 4.0, 40.0],
    "targets": [["T"], ["T", "C"], ["A"]],
    "safe": [[], ["B"]],
    "upper": [None, 0.2, 0.5],
    "phase": ["gas", "", "small"],
    "conds": ["all", "ign", "psr", "flame", "many"],
    "mfs": [None, 0.01, 0.4],
    "path": ["", "out"],
    "threads": [1, 3, 0],
}
ENTRIES = ["function", "main", "cli", "cli-long", "module", "argv"]


def valid(o):
    return o["method"] is not None or o["sa"] is not None


def configurations(tier):
    base0 = {k: v[0] for k, v in OPTIONS.items()}
    bases = [base0]
    for m in ("DRG", "PFA"):
        bases.append(dict(base0, method=m, sa="greedy", upper=0.5, phase="small", path="out", threads=3))
    bases.append(dict(base0, method="DRGEP", sa="initial", upper=0.5, limit=40.0, mfs=0.01))
    bases.append(dict(base0, method=None, sa="greedy", limit=4.0, conds="psr"))
    seen, out = set(), []
    for b in bases:
        depth = 4 if tier == "thorough" else 3 if b is base0 else 2
        for k in range(depth):
            for names in itertools.combinations(OPTIONS, k):
                for vals in itertools.product(*[[v for v in OPTIONS[n] if v != b[n]] for n in names]):
                    o = dict(b, **dict(zip(names, vals)))
                    key = json.dumps(o, sort_keys=True)
                    if valid(o) and key not in seen:
                        seen.add(key)
                        out.append(o)
    return out


def scenarios(tier, seed):
    conf = configurations(tier)
    S = []
    n = 24
    for i in range(0, len(conf), n):
        S.append(dict(part="options", confs=conf[i:i + n], entries=None if tier == "thorough" else 2, first=i))
    S.append(dict(part="distinct"))
    for entry in ENTRIES:
        S.append(dict(part="floor", entry=entry))
    for thermo, transport, path, ext in itertools.product(["inline", "file"], [False, True], ["", "out"], [".inp", ".dat", ".chem"]):
        S.append(dict(part="chemkin", thermo=thermo, transport=transport, path=path, ext=ext))
    for path, ext in itertools.product(["", "out"], [".yaml", ".yml"]):
        S.append(dict(part="to-chemkin", path=path, ext=ext))
    for k in range(2):
        S.append(dict(part="process", variant=k))
    return S


def deviation(species, full):
    gone = set(full) - set(species)
    err = sum(WEIGHT[s] for s in gone) + sum(v for p, v in PAIR.items() if set(p) <= gone)
    return abs(err)


def metric(kind, idx, err):
    base = 8.0 + idx + (0.5 if kind == "psr" else 0.0)
    v = base * (1 + err / 100.0) if idx == 0 else base
    return [base, v, base] if kind == "psr" else v


def full_of(o):
    return SPECIES[:SMALL] if o["phase"] == "small" else SPECIES


DEFAULTS = {"equivalence-ratio": 0.0, "composition-type": "mole", "end-time": 0.0, "max-steps": 10000, "width": 0.1}


def same_case(kind, given, props):
    """The properties of a simulation are those given (documented defaults elsewhere)."""
    want = {"temperature": given["temperature"], "pressure": given["pressure"]}
    for k in ("equivalence-ratio", "composition-type") + {"ign": ("end-time", "max-steps"), "psr": (), "flame": ("width",)}[kind]:
        want[k.replace("-", "_")] = given.get(k, DEFAULTS[k])
    if kind == "ign":
        want["kind"] = given["kind"]
    ok = all(getattr(props, k) == v for k, v in want.items())
    return ok and all(dict(getattr(props, k) or {}) == given.get(k, {}) for k in ("fuel", "oxidizer", "reactants"))


def input_dict(o, model):
    d = {"model": model, "error": o["limit"]}
    if o["targets"]:
        d["targets"] = o["targets"]
    if o["method"]:
        d["method"] = o["method"]
    if o["sa"]:
        d["sensitivity-analysis"] = True
        d["sensitivity-type"] = o["sa"]
    if o["safe"]:
        d["retained-species"] = o["safe"]
    if o["upper"] is not None:
        d["upper-threshold"] = o["upper"]
    if o["phase"]:
        d["phase-name"] = o["phase"]
    if o["mfs"] is not None:
        d["min-flame-speed"] = o["mfs"]
    d.update(copy.deepcopy(CASES[o["conds"]]))
    return d


def conditions(o):
    out = []
    for key, cls in (("autoignition-conditions", sampling.InputIgnition), ("psr-conditions", sampling.InputPSR),
                     ("laminar-flame-conditions", sampling.InputLaminarFlame)):
        out.append([cls(**{k.replace("-", "_"): copy.deepcopy(v) for k, v in c.items()}) for c in CASES[o["conds"]].get(key, [])])
    return out


def call_functions(o, model):
    """The reduction written out with the method functions."""
    C = conditions(o)
    upper = o["upper"] if o["upper"] or not o["sa"] else 0.1
    targets = list(o["targets"])
    safe = list(o["safe"])
    for s in ("T",):  # the species of the conditions
        if s not in targets and s not in safe:
            safe.append(s)
    kw = dict(phase_name=o["phase"], num_threads=o["threads"], path=o["path"], min_flame_speed=o["mfs"])
    res = None
    file, err, limbo = model, 0.0, []
    if o["method"]:
        f = {"DRG": drg.run_drg, "DRGEP": drgep.run_drgep, "PFA": pfa.run_pfa}[o["method"]]
        res = f(model, *C, o["limit"], targets, safe, threshold_upper=upper, **kw)
        file, err, limbo = res.filename, res.error, res.limbo_species
    if o["sa"]:
        res = sensitivity_analysis.run_sa(file, err, *C, o["limit"], targets + safe, algorithm_type=o["sa"], species_limbo=list(limbo), **kw)
    return res


def call_main(o, model):
    C = conditions(o)
    upper = o["upper"] if o["upper"] or not o["sa"] else 0.1
    return driver.main(model, o["limit"], *C, method=o["method"], target_species=list(o["targets"]),
                       safe_species=list(o["safe"]) + (["T"] if "T" not in o["targets"] else []), phase_name=o["phase"],
                       run_sensitivity_analysis=bool(o["sa"]), upper_threshold=upper, sensitivity_type=o["sa"] or "greedy", path=o["path"],
                       num_threads=o["threads"], min_flame_speed=o["mfs"])


def arguments(o, entry):
    argv = ["-i", "in.yaml"] if entry in ("cli", "argv") else ["--input=in.yaml"]
    if o["path"]:
        argv += ["--path", o["path"]] if entry != "cli-long" else ["--path=" + o["path"]]
    if o["threads"] == 0:
        argv += ["--num_threads"]
    elif o["threads"] != 1:
        argv += ["--num_threads", str(o["threads"])] if entry != "cli-long" else [f"--num_threads={o['threads']}"]
    if entry == "cli-long":
        argv = argv[1:] + argv[:1]
        if argv[0] == "--num_threads" and len(argv) > 1:  # optional value: must not be followed by ...
            argv = argv[1:] + argv[:1]
    return argv


def call(entry, o, model):
    if entry == "function":
        return call_functions(o, model)
    if entry == "main":
        return call_main(o, model)
    with open("in.yaml", "w") as f:
        yaml.safe_dump(input_dict(o, model), f)
    argv = arguments(o, entry)
    if entry in ("cli", "cli-long"):
        return driver.pymars(argv)
    from pymars import __main__ as m
    if entry == "module":
        return m.main(argv)
    saved = sys.argv
    sys.argv = ["pymars"] + argv
    try:
        return m.main()
    finally:
        sys.argv = saved


def listing():
    out = set()
    for root, dirs, files in os.walk("."):
        for f in files:
            out.add(os.path.relpath(os.path.join(root, f), "."))
    return out


SAMPLES = {"ignition_data.dat", "ignition_output.txt", "psr_data.dat", "psr_output.txt", "laminarflame_data.dat", "laminarflame_output.txt"}


def run_one(entry, o):
    mc.fresh_dir()
    toys.write(TOY, "toy.yaml")
    if o["path"]:
        os.makedirs(o["path"])
    full = frozenset(full_of(o))
    e = env.StubEnv(lambda kind, sp, idx, p: metric(kind, idx, deviation(sp, full)),
                    states=lambda kind, names, idx: [[1000.0 + 100 * idx, 101325.0, *(np.arange(1, len(names) + 1) / sum(range(len(names) + 1)))]],
                    baseline=lambda kind, idx: metric(kind, idx, 0.0))
    asked = []
    start = listing()
    with env.cores(5), env.inline_pools(asked), e:
        out = mc.outcome(lambda: call(entry, o, "toy.yaml"), limit=60.0)
    new = listing() - start - {"in.yaml", "info.log"}
    seq, prev = [], None
    for x in e.log:
        k = (x["mode"], x["species"])
        if k != prev:
            seq.append(k)
        prev = k
    models = {}
    for f in new:
        if f.endswith(".yaml"):
            try:
                models[f] = frozenset(ct.Solution(f, o["phase"]).species_names)
            except Exception as exc:  # noqa
                models[f] = frozenset({f"not loadable as {o['phase']!r}: {str(exc)[:200]}"})
    return dict(out=out, log=e.log, seq=seq, new=new, models=models, asked=asked)


def judge(entry, o, r, ref, ctx):
    d = lambda: {"entry": entry, "options": o, "outcome": str(r["out"])[:300], "new": sorted(r["new"]), "expected": str(ref["out"])[:300],
                 "sequence": [[m, sorted(s)] for m, s in r["seq"]][:40], "expected sequence": [[m, sorted(s)] for m, s in ref["seq"]][:40],
                 "pools": r["asked"]}
    where = f"{entry} with {[(k, v) for k, v in o.items()]}"
    kinds = {"ign": "autoignition-conditions", "psr": "psr-conditions", "flame": "laminar-flame-conditions"}
    full = frozenset(full_of(o))
    ctx.check(r["out"][0] in ("ok", "exit") and r["out"][0] == ref["out"][0], "outcome", f"{where}: {str(r['out'])[:200]}, expected {str(ref['out'])[:200]}", d)
    if r["out"][0] == "ok" and not r["log"] and not r["asked"] and o["threads"] != 1:
        # the simulations ran where they cannot be observed
        ctx.count("unobserved")
        r = dict(r, seq=ref["seq"])
    else:
        ctx.check(bool(r["log"]), "no simulations", where, d)
        judge_log(o, r, full, kinds, where, d, ctx)
    for f in r["new"]:
        if f in SAMPLES:
            continue
        ctx.check(os.path.dirname(f) == o["path"], "path", f"{where}: file {f} is not in {o['path'] or '.'}", d)
    ctx.check(r["models"] == ref["models"], "result files", f"{where}: {[(f, sorted(s)) for f, s in sorted(r['models'].items())]}, expected "
              f"{[(f, sorted(s)) for f, s in sorted(ref['models'].items())]}", d)
    ctx.check(r["seq"] == ref["seq"], "candidates", f"{where}: other candidates than the method functions called with these options", d)
    if r["out"][0] == "ok" and entry == "main":
        a, b = r["out"][1], ref["out"][1]
        ctx.check(a.error == b.error and a.filename == b.filename and a.model.species_names == b.model.species_names, "result",
                  f"{where}: {a.filename} {a.error}, expected {b.filename} {b.error}", d)


def judge_log(o, r, full, kinds, where, d, ctx):
    seen = set()
    for x in r["log"]:
        given = CASES[o["conds"]].get(kinds[x["kind"]], [])
        ctx.check(x["idx"] < len(given) and same_case(x["kind"], given[x["idx"]], x["props"]), "conditions",
                  f"{where}: {x['kind']} simulation {x['idx']} of {sorted(x['species'])} with {x['props']}", d)
        ctx.check(x["species"] <= full and (x["model"] != "toy.yaml" or x["species"] == full), "phase",
                  f"{where}: simulation of {sorted(x['species'])} of {x['model']} phase {x['phase']!r}; the phase has {sorted(full)}", d)
        seen.add((x["kind"], x["idx"]))
        if x["kind"] == "flame":
            want = o["mfs"] if o["mfs"] is not None else 0.05
            ctx.check(x["min_flame_speed"] == want, "flame floor", f"{where}: flame simulation of {sorted(x['species'])} with minimum speed "
                      f"{x['min_flame_speed']}", d)
    every = {(k, i) for k, key in kinds.items() for i in range(len(CASES[o["conds"]].get(key, [])))}
    ctx.check(seen == every, "conditions", f"{where}: simulated only {sorted(seen)} of {sorted(every)}", d)
    # every candidate is evaluated in every condition
    for sp in {x["species"] for x in r["log"]}:
        got = {(x["kind"], x["idx"]) for x in r["log"] if x["species"] == sp}
        ctx.check(got == every, "conditions", f"{where}: candidate {sorted(sp)} evaluated only in {sorted(got)}", d)
    if all(x["pid"] == os.getpid() for x in r["log"]):
        # (no more processes than there are simulations are needed)
        want = {1: 1, 3: 3, 0: 4}[o["threads"]]
        jobs = {len(v) for k, v in CASES[o["conds"]].items() if k in kinds.values()}
        allowed = {want} | {n for n in jobs if n < want}
        few = all(n == 1 for n in jobs)
        ctx.check(set(r["asked"]) <= allowed and (want == 1 or few or bool(r["asked"])) and (want == 1 or max(jobs) < want or want in r["asked"]),
                  "threads", f"{where}: pools of {sorted(set(map(str, r['asked'])))} processes, expected {want}", d)



def options_part(scn, ctx):
    for n, o in enumerate(scn["confs"]):
        if ctx.out_of_time():
            return
        ref = run_one("function", o)
        judge("function", o, ref, ref, ctx)
        ctx.evaluated(("function", json.dumps(o, sort_keys=True)))
        entries = ENTRIES[1:]
        if scn["entries"]:  # main, and one of the others in turn
            k = (scn["first"] + n) % (len(entries) - 1)
            entries = [entries[0], entries[1 + k]]
        for entry in entries:
            r = run_one(entry, o)
            judge(entry, o, r, ref, ctx)
            ctx.evaluated((entry, json.dumps(o, sort_keys=True)))
            ctx.trace()
            ctx.transition(len(r["log"]))
        ctx.state(tuple(ref["seq"]))
        if n == 0:
            ctx.sample({"options": o, "candidates": [sorted(s) for _, s in ref["seq"]], "files": sorted(ref["new"])})


def distinct_part(scn, ctx):
    """The options change what happens here (otherwise the comparison would be void)."""
    base = dict({k: v[0] for k, v in OPTIONS.items()}, sa="greedy", upper=0.5)
    for name in ("method", "sa", "limit", "targets", "safe", "upper", "phase"):
        got = {}
        for v in OPTIONS[name]:
            o = dict(base, **{name: v})
            if not valid(o) or (name == "phase" and v == ""):
                continue
            r = run_one("function", o)
            got[json.dumps(v)] = tuple(r["seq"]) + (tuple(sorted(r["models"].items(), key=str)),)
            ctx.evaluated(("distinct", name, json.dumps(v)))
        if len(set(got.values())) != len(got):
            raise RuntimeError(f"values of option {name} cannot be told apart: {[(k, [sorted(s) for _, s in w[:-1]]) for k, w in got.items()]}"[:3000])
        ctx.count("options told apart")


# ------------------------------------------------------------------ minimum flame speed
def floor_part(scn, ctx):
    """Real flame simulations with chosen speeds: one baseline, then one speed for all candidates."""
    entry = scn["entry"]
    cond = [{"temperature": 300.0, "pressure": 1.0, "reactants": {"H2": 2.0, "O2": 1.0, "N2": 3.76}}]
    for mfs, base, cand in itertools.product([None, 0.01, 0.4], [0.02, 0.3, 1.0], [0.02, 0.3, 1.0]):
        mc.fresh_dir()
        n = [0]

        def speed(T0):
            n[0] += 1
            return base if n[0] == 1 else cand

        floor = 0.05 if mfs is None else mfs
        prof = (np.linspace(300.0, 2200.0, 30), np.full((10, 30), 0.1))
        o = dict({k: v[0] for k, v in OPTIONS.items()}, limit=1e6, targets=["H2"], mfs=mfs, method="DRGEP")
        d = {"entry": entry, "mfs": mfs, "baseline": base, "candidates": cand}

        def go():
            saved = dict(CASES)
            CASES["one"] = {"laminar-flame-conditions": cond}
            try:
                oo = dict(o, conds="one", phase="", safe=["O2", "N2"], limit=99.9)
                if entry == "function":
                    C = conditions(oo)
                    return drgep.run_drgep("h2o2.yaml", *C, 99.9, ["H2"], ["O2", "N2"], min_flame_speed=mfs)
                if entry == "main":
                    C = conditions(oo)
                    return driver.main("h2o2.yaml", 99.9, *C, method="DRGEP", target_species=["H2"], safe_species=["O2", "N2"], min_flame_speed=mfs)
                return call(entry, oo, "h2o2.yaml")
            finally:
                CASES.clear()
                CASES.update(saved)

        with inject.Flames(speed, lambda: prof):
            out = mc.outcome(go, limit=60.0)
        ctx.evaluated(("floor", entry, mfs, base, cand))
        ctx.trace()
        ctx.transition(n[0])
        if base <= floor:
            ctx.check(out[0] == "exc", "flame floor", f"{entry}: original with speed {base} m/s was accepted with the minimum {floor}: {str(out)[:200]}", d)
            continue
        # candidates deviate by |cand - base| / base, by 100 % if below the floor
        err = 100.0 if cand <= floor else 100 * abs(cand - base) / base
        good = out[0] == "ok" if err <= 99.9 else out[0] == "exit"
        ctx.check(good, "flame floor", f"{entry}: minimum {floor}, original {base}, candidates {cand} m/s (error {err:.1f} %, limit 99.9) "
                  f"ended in {str(out)[:200]}", d)


# ------------------------------------------------------------------ Chemkin files
KEEP = ["H2", "H", "O2", "OH", "H2O", "N2"]
CK_REACTIONS = ["H2+O2=OH+OH  1.0E+13 0.0 15000.0", "OH+H2=H2O+H  2.0E+08 1.5 3400.0", "H+OH+M=H2O+M  1.0E+22 -2.0 0.0", "H2O/6.0/"]


def nasa7(sp, factor):
    """Chemkin lines of a species, by column (factor changes the enthalpy)."""
    c = list(sp.thermo.coeffs)
    mid, hi, lo = c[0], c[1:8], c[8:15]
    hi[5] *= factor
    lo[5] *= factor
    atoms = "".join(f"{e:<2}{int(n):>3}" for e, n in sp.composition.items()).ljust(20)
    out = [f"{sp.name:<18}{'':6}{atoms}G{200.0:10.3f}{3500.0:10.3f}{mid:8.2f}      1"]
    v = hi + lo
    out.append("".join(f"{x:15.8E}" for x in v[:5]) + "    2")
    out.append("".join(f"{x:15.8E}" for x in v[5:10]) + "    3")
    out.append("".join(f"{x:15.8E}" for x in v[10:14]) + " " * 19 + "4")
    return out


def write_chemkin(name, thermo, transport, factor, depth):
    gas = ct.Solution("h2o2.yaml")
    th = ["THERMO", "   200.000  1000.000  5000.000"]
    for s in KEEP:
        th += nasa7(gas.species(s), factor)
    th.append("END")
    L = ["ELEMENTS", "H O N", "END", "SPECIES", " ".join(KEEP), "END"]
    if thermo == "inline":
        L += [th[0] + " ALL"] + th[1:]
    L += ["REACTIONS", *CK_REACTIONS, "END"]
    os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
    with open(name, "w") as f:
        f.write("\n".join(L) + "\n")
    if thermo == "file":
        with open("t.dat", "w") as f:
            f.write("\n".join(th) + "\n")
    if transport:
        geo = {"atom": 0, "linear": 1, "nonlinear": 2}
        with open("tr.dat", "w") as f:
            for s in KEEP:
                t = gas.species(s).transport
                f.write(f"{s:<16}{geo[t.geometry]:4d}{depth:10.3f}{t.diameter * 1e10:10.3f}{0.0:10.3f}{0.0:10.3f}{t.rotational_relaxation:10.3f}\n")


def chemkin_part(scn, ctx):
    for entry, model_dir in itertools.product(["convert", "input", "input-long", "tools"], ["", "mech"]):
        for factor, depth in ((1.0, 50.0), (1.25, 75.0)):
            mc.fresh_dir()
            if scn["path"]:
                os.makedirs(scn["path"])
            name = os.path.join(model_dir, "m" + scn["ext"])
            write_chemkin(name, scn["thermo"], scn["transport"], factor, depth)
            opts = (["--thermo", "t.dat"] if scn["thermo"] == "file" else []) + (["--transport=tr.dat"] if scn["transport"] else []) + \
                (["--path", scn["path"]] if scn["path"] else [])
            with open("in.yaml", "w") as f:
                yaml.safe_dump({"model": name, "error": 99.0, "method": "DRG", "targets": ["H2"],
                                "autoignition-conditions": [{"kind": "constant volume", "temperature": 1000.0, "pressure": 1.0,
                                                             "reactants": {"H2": 2.0, "O2": 1.0}}]}, f)
            start = listing()
            e = env.StubEnv(lambda *a: 9.0)
            want_file = os.path.join(scn["path"], "m.yaml")

            def go():
                if entry == "tools":
                    return env.tools.convert(name, "t.dat" if scn["thermo"] == "file" else None, "tr.dat" if scn["transport"] else None, scn["path"])
                if entry == "convert":
                    return driver.pymars(["--convert", "-m", name] + opts)
                if entry == "input":
                    return driver.pymars(["-i", "in.yaml"] + opts)
                return driver.pymars(opts + ["--input=in.yaml"])

            with e:
                out = mc.outcome(go, limit=60.0)
            new = listing() - start - {"info.log"}
            d = {"scenario": scn, "entry": entry, "model": name, "outcome": str(out)[:400], "new": sorted(new)}
            where = f"{entry} {scn} {name}"
            ctx.evaluated((entry, name, str(scn), factor))
            ctx.trace()
            ctx.transition(1 + len(e.log))
            ctx.check(out[0] == "ok", "conversion fails", f"{where}: {str(out)[:300]}", d)
            ctx.check(want_file in new, "converted file", f"{where}: no {want_file}, but {sorted(new)}", d)
            if entry == "tools":
                ctx.check(out[1] == want_file, "converted file", f"{where}: returned {out[1]!r}", d)
            for f in new - SAMPLES:
                ctx.check(os.path.dirname(f) == scn["path"], "path", f"{where}: file {f}", d)
            gas = ct.Solution(want_file)
            ctx.check(set(gas.species_names) == set(KEEP) and gas.n_reactions == 3, "converted model",
                      f"{where}: {gas.species_names}, {gas.n_reactions} reactions", d)
            orig = ct.Solution("h2o2.yaml")
            for s in KEEP:
                a6 = gas.species(s).thermo.coeffs[6]
                w6 = orig.species(s).thermo.coeffs[6] * factor
                ctx.check(abs(a6 - w6) <= 1e-6 * abs(w6), "thermo file", f"{where}: thermodynamic data of {s} are not those given", d)
                t = gas.species(s).transport
                ctx.check((t is not None) == scn["transport"] and (t is None or abs(t.well_depth / ct.boltzmann - depth) < 1e-3), "transport file",
                          f"{where}: transport data of {s}: {t}", d)
            if entry.startswith("input"):
                ctx.check(bool(e.log) and all(x["model"] == want_file for x in e.log if x["mode"] == "sample"), "converted model used",
                          f"{where}: simulated {sorted({x['model'] for x in e.log})}", d)
            else:
                ctx.check(not e.log, "conversion only", f"{where}: simulations were run", d)


def to_chemkin_part(scn, ctx):
    import shutil
    src = os.path.join(os.path.dirname(ct.__file__), "data", "h2o2.yaml")
    for entry, model_dir in itertools.product(["convert", "tools", "argv"], ["", "mech"]):
        mc.fresh_dir()
        for p in (scn["path"], model_dir):
            if p:
                os.makedirs(p, exist_ok=True)
        name = os.path.join(model_dir, "m" + scn["ext"])
        shutil.copy(src, name)
        start = listing()

        def go():
            if entry == "tools":
                return env.tools.convert(name, path=scn["path"])
            argv = ["--convert", "--model", name] + (["--path", scn["path"]] if scn["path"] else [])
            if entry == "convert":
                return driver.pymars(argv)
            from pymars import __main__ as m
            return m.main(argv)

        out = mc.outcome(go, limit=60.0)
        new = listing() - start - {"info.log"}
        want = {os.path.join(scn["path"], "m" + x) for x in (".inp", "_thermo.dat", "_transport.dat")}
        d = {"scenario": scn, "entry": entry, "model": name, "outcome": str(out)[:300], "new": sorted(new)}
        ctx.evaluated((entry, name, str(scn)))
        ctx.trace()
        ctx.transition()
        ctx.check(out[0] == "ok" and new == want, "files of the conversion", f"{entry} {name} {scn}: {str(out)[:200]} wrote {sorted(new)}, expected "
                  f"{sorted(want)}", d)
        if entry == "tools":
            ctx.check(set(out[1]) == want, "files of the conversion", f"{entry} {name}: returned {out[1]}", d)


# ------------------------------------------------------------------ separate process
def process_part(scn, ctx):
    """A real reduction of a small real mechanism as its own process, and in this one."""
    v = scn["variant"]
    inp = {"model": "h2o2.yaml", "error": [5.0, 20.0][v], "method": ["DRGEP", "DRG"][v], "targets": ["H2", "O2"], "retained-species": ["N2"],
           "autoignition-conditions": [{"kind": ["constant volume", "constant pressure"][v], "temperature": 1200.0 + 100 * v, "pressure": 1.0,
                                        "reactants": {"H2": 2.0, "O2": 1.0, "N2": 3.76}},
                                       {"kind": "constant volume", "temperature": 1100.0, "pressure": 2.0, "reactants": {"H2": 1.0, "O2": 1.0, "N2": 3.76}}]}
    if v:
        inp.update({"sensitivity-analysis": True, "sensitivity-type": "greedy", "upper-threshold": 0.5})
    argv = ["-i", "in.yaml", "--path", "out"] + [[], ["--num_threads", "2"]][v]
    got = []
    for where in ("process", "here"):
        d0 = mc.fresh_dir(where)
        os.makedirs("out")
        with open("in.yaml", "w") as f:
            yaml.safe_dump(inp, f)
        if where == "process":
            e = dict(os.environ, PYTHONPATH=os.path.join(mc.REPO, "src"), PYTHONDONTWRITEBYTECODE="1")
            p = subprocess.run([sys.executable, "-m", "pymars"] + argv, env=e, capture_output=True, text=True, timeout=300)
            ctx.check(p.returncode == 0, "process", f"python -m pymars {argv} ended with {p.returncode}: {p.stderr[-300:]}", {"stderr": p.stderr[-2000:]})
        else:
            o = mc.outcome(lambda: driver.pymars(argv), limit=200.0, wall=250.0)
            ctx.check(o[0] == "ok", "process", f"pymars({argv}) ended in {str(o)[:300]}", {"outcome": str(o)})
        files = listing() - {"in.yaml", "info.log"}
        data = {}
        for f in sorted(files):
            ctx.check(f in SAMPLES or os.path.dirname(f) == "out", "path", f"{where}: file {f} outside the output directory", {"files": sorted(files)})
            if f in SAMPLES:
                data[f] = np.genfromtxt(f, delimiter=",").tolist()
            else:
                g = ct.Solution(f)
                data[f] = [g.species_names, g.n_reactions]
        got.append(data)
        ctx.transition()
    ctx.evaluated(("process", v))
    ctx.trace()
    a, b = got
    ctx.check(set(a) == set(b), "process", f"files {sorted(a)} of the process, {sorted(b)} here", {})
    for f in a:
        same = a[f] == b[f] if f not in SAMPLES else np.allclose(a[f], b[f], rtol=1e-6, atol=1e-12)
        ctx.check(same, "process", f"{f} differs between the process and the call", {"process": str(a[f])[:300], "here": str(b[f])[:300]})
    ctx.sample({"argv": argv, "files": sorted(a)})


def run(scn, ctx):
    {"options": options_part, "distinct": distinct_part, "floor": floor_part, "chemkin": chemkin_part, "to-chemkin": to_chemkin_part,
     "process": process_part}[scn["part"]](scn, ctx)
