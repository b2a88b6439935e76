"""C09: runs are isolated and deterministic."""
import itertools
import json
import os
import subprocess
import sys

import env
import mc
import ops
import toys
from env import ct, driver, drg, drgep, pfa, sampling, sensitivity_analysis
from ops import OPS, execute, outcome_only, difference

ID = "C09"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operation histories, of the orderings of names (hash seeds) and of the permutations of the lists, on the real code"
NOTE = ("Each operation of a history is compared with the same operation in a fresh process: outcome, returned models, files, order of the simulations; "
        "arguments and earlier results must stay as they were.")
RULE = ("all ordered histories of two operations, and of three operations of a core set (thorough: of all but the slowest); hash seeds that together realise "
        "all orderings of the sets of names (one scenario per seed, all operations); all permutations of three targets and three retained species; "
        "a case is one history prefix, (seed, operation), or permutation")
ASSUMPTIONS = ["simulations are replaced by chosen outcomes depending on the set of species, except in the operations with real simulations of a small mechanism",
               "every operation starts in a clean working directory"]
BOUNDS = f"{len(OPS)} operations, histories up to length 3; two toy mechanisms with ties that share a file name, h2o2"
BUDGET = {"quick": 400.0, "thorough": 3000.0}

CORE = ["drgep-sa", "drg-var", "drgep", "sa-bare", "sa-limbo", "cli", "set-up-psr", "pieces-drg", "to-chemkin", "metrics"]
SLOW = {"real-drgep", "real-pfa", "from-chemkin", "pfa", "pfa-var", "pfa-sa"}
#: sets whose orderings the hash seeds must realise
NAMES = [("A", "B", "C"), ("A", "B", "C", "D"), ("T", "A", "F"), ("E", "F")]
PERM = ["drg", "drgep", "pfa", "drg-sa", "pfa-sa", "drgep-sa", "sa-greedy", "sa-initial", "cli"]


def in_child(fn, timeout=None):
    """The JSON value of fn() computed in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = {"ok": fn()}
        except BaseException as e:  # noqa
            import traceback
            out = {"error": traceback.format_exc()[-2000:] + repr(e)}
        with os.fdopen(w, "w") as f:
            f.write(json.dumps(out))
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    out = json.loads(data) if data else {"error": "no answer"}
    if "error" in out:
        raise RuntimeError("in a forked process: " + out["error"])
    return out["ok"]


def prepare(base):
    """What each operation gives in a fresh process."""
    import concurrent.futures
    mc._scratch = os.path.join(base, "prepare")
    os.makedirs(mc._scratch)

    def one(name):
        def fn():
            mc._scratch = os.path.join(base, "prepare", name)
            os.makedirs(mc._scratch)
            r = execute(name)
            return [r["result"], list(r["arguments"]), r["moved"]]
        return in_child(fn)

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        found = dict(zip(OPS, ex.map(one, OPS)))
    with open(os.path.join(base, "fresh.json"), "w") as f:
        json.dump(found, f)
    with open(os.path.join(base, "seeds.json"), "w") as f:
        json.dump(find_seeds(), f)


def find_seeds():
    """Hash seeds that together give every iteration order of the sets of names."""
    code = "import json; print(json.dumps([list(set(n)) for n in json.loads('%s')]))" % json.dumps(NAMES)
    need = {(i, p) for i, n in enumerate(NAMES) for p in itertools.permutations(n)}
    # not every permutation is reachable by a small set (order is by slot); all found in the first seeds must be covered
    found = {}
    for seed in range(0, 240):
        e = dict(os.environ, PYTHONHASHSEED=str(seed))
        got = json.loads(subprocess.run([sys.executable, "-S", "-E" if False else "-s", "-c", code], env=e, capture_output=True, text=True).stdout)
        for i, order in enumerate(got):
            found.setdefault((i, tuple(order)), seed)
        if len(found) == len(need):
            break
    cover, left = [], set(found)
    by_seed = {}
    for k, s in found.items():
        by_seed.setdefault(s, set()).add(k)
    for s in sorted(by_seed):
        if by_seed[s] & left:
            cover.append(s)
            left -= by_seed[s]
    return {"seeds": cover, "orderings": len(found), "possible": len(need)}


def scenarios(tier, seed):
    S = [dict(part="history", first=a, third=None) for a in OPS]
    third = CORE if tier == "quick" else [o for o in OPS if o not in SLOW]
    S += [dict(part="history", first=a, third=third) for a in third]
    S += [dict(part="seed", k=k) for k in range(26)]
    S += [dict(part="permutations", config=c) for c in PERM]
    S.sort(key=lambda s: s["part"] != "seed")
    return S


def base_dir():
    return os.path.dirname(mc.scratch())


def load(name):
    with open(os.path.join(base_dir(), name)) as f:
        return json.load(f)


# ------------------------------------------------------------------ histories
def judge(name, r, fresh, history, report):
    want, (before, after), moved = fresh[name]
    where = f"{name} after {list(history)}" if history else f"{name} in a fresh process"
    b, a = r["arguments"]
    if b != a:
        report("arguments", f"{where}: arguments changed from {b[:1500]} to {a[:1500]}")
    if r["moved"]:
        report("working directory", f"{where}: the working directory was changed")
    d = difference(want, r["result"])
    if d:
        report("history", f"{where}: fresh / here: {d}")


def history_part(scn, ctx):
    fresh = load("fresh.json")
    first, third = scn["first"], scn["third"]
    seconds = third if third else list(OPS)

    def run():
        found = []
        count = [0, 0]

        def report(kind, text):
            found.append([kind, text])

        args = {n: OPS[n]["args"]() for n in seconds}  # the same argument objects in all operations of a history
        args[first] = OPS[first]["args"]()

        def step(name, history, results):
            r = execute(name, args[name])
            judge(name, r, fresh, history, report)
            return results + [(name, r["object"], ops.text(r["object"]))]

        def settle(results, history):
            for n, o, t in results:
                if ops.text(o) != t:
                    report("earlier result", f"the result of {n} was changed by later operations: {history}: {t[:300]} / {ops.text(o)[:300]}")

        res = step(first, [], [])
        for second in seconds:
            if ctx.out_of_time():
                return found, count

            def two():
                found.clear()
                n = [1, 0]
                res2 = step(second, [first], res)
                settle(res2, [first, second])
                for t in third or []:
                    def three():
                        found.clear()
                        res3 = step(t, [first, second], res2)
                        settle(res3, [first, second, t])
                        return found
                    f = in_child(three)
                    n[1] += 1
                    found.extend(x for x in f if x not in found)
                    if f:
                        break
                return [found, n]

            f, n = in_child(two)
            found.extend(f)
            count[0] += n[0]
            count[1] += n[1]
            if f:
                break
        return found, count

    found, count = in_child(run)
    for second in seconds:
        ctx.evaluated((first, second, bool(third)))
    ctx.count("histories of two", count[0])
    ctx.count("histories of three", count[1])
    ctx.trace(count[0] + count[1])
    ctx.transition(1 + count[0] + count[1])
    ctx.state((first, bool(third)))
    for kind, text in found:
        ctx.check(False, kind, text, {"first": first, "found": found})
    ctx.sample({"first": first, "followed by": seconds if not third else "pairs of the core set", "histories": count})


# ------------------------------------------------------------------ hash seeds
def seed_part(scn, ctx):
    S = load("seeds.json")
    if scn["k"] >= len(S["seeds"]):
        return
    seed = S["seeds"][scn["k"]]
    d = mc.fresh_dir("seed")
    e = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1")
    out = os.path.join(d, "out.json")
    p = subprocess.run([sys.executable, os.path.join(mc.VERIF, "lib", "ops_process.py"), os.path.join(d, "s"), out], env=e, capture_output=True, text=True,
                       timeout=600)
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    with open(out) as f:
        got = json.load(f)
    fresh = load("fresh.json")
    for name in OPS:
        ctx.evaluated((seed, name))
        ctx.transition()
        d = difference(outcome_only(fresh[name][0]), outcome_only(got[name]))
        ctx.check(not d, "hash seed", f"{name} with PYTHONHASHSEED={seed}: {d}", {"seed": seed, "operation": name, "difference": d})
    ctx.trace()
    ctx.count("hash seeds")
    ctx.state(("seed", seed))
    if scn["k"] == 0:
        ctx.sample({"seeds": S})


# ------------------------------------------------------------------ permutations
def permutations_part(scn, ctx):
    config = scn["config"]
    three = ["T", "A", "C"], ["F", "B", "D"]
    for model in ("TIE", "VAR"):
        first = None
        for t, s in itertools.product(itertools.permutations(three[0]), itertools.permutations(three[1])):
            if ctx.out_of_time():
                return
            t, s = list(t), list(s)
            a, b, c = ops.conds(1)
            b = [sampling.InputPSR(temperature=300.0, pressure=1.0, reactants={"T": 1.0})]
            mc.fresh_dir("h")
            ops.write_model(model)
            if config in ("drg", "drgep", "pfa"):
                f = {"drg": drg.run_drg, "drgep": drgep.run_drgep, "pfa": pfa.run_pfa}[config]
                go = lambda: f("m.yaml", a, b, c, ops.LIMIT, t, s, threshold_upper=0.5)
            elif config in ("drg-sa", "pfa-sa", "drgep-sa"):
                go = lambda: driver.main("m.yaml", ops.LIMIT, a, b, c, method=config[:-3].upper(), target_species=t[:2], safe_species=s[:2] + [t[2]],
                                         run_sensitivity_analysis=True, upper_threshold=0.9, sensitivity_type="greedy")
            elif config.startswith("sa-"):
                go = lambda: sensitivity_analysis.run_sa("m.yaml", 0.25, a, b, c, ops.LIMIT, t + s[:1], algorithm_type=config[3:])
            else:
                import yaml
                d = dict(ops.INPUT, targets=t, **{"retained-species": s})
                with open("in.yaml", "w") as f:
                    yaml.safe_dump(d, f)
                go = lambda: driver.pymars(["-i", "in.yaml"])
            with ops.stub(model) as e:
                out = mc.outcome(go, limit=60.0)
            F = ops.files()
            F.pop("in.yaml", None)
            r = {"outcome": out[0], "value": json.loads(ops.text(out[1:])), "files": F,
                 "models": {f: ops.text(ct.Solution(f)) for f in F if f.endswith(".yaml") and f != "m.yaml"}, "sequence": []}
            r = outcome_only(r)
            # what is the same for all: target sets that depend on the permutation are told apart
            key = (tuple(sorted(t[:2])), tuple(sorted(s[:2]))) if config in ("drg-sa", "pfa-sa", "drgep-sa") else (s[0],) if config.startswith("sa-") else ()
            first = first or {}
            ctx.evaluated((config, model, tuple(t), tuple(s)))
            ctx.count("reduced" if out[0] == "ok" else "other outcomes")
            ctx.trace()
            ctx.transition(len(e.log))
            if key not in first:
                first[key] = (r, t, s)
                ctx.state((config, model, key))
                continue
            d = difference(first[key][0], r)
            ctx.check(not d, "order of names", f"{config} of {model} with targets {t}, retained {s} differs from targets {first[key][1]}, retained "
                      f"{first[key][2]}: {d}", {"config": config, "model": model, "targets": t, "retained": s, "difference": d})
    ctx.sample({"config": config, "permutations of": three})


def run(scn, ctx):
    {"history": history_part, "seed": seed_part, "permutations": permutations_part}[scn["part"]](scn, ctx)
