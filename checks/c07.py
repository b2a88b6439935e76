import os

import env
import reduction as red
from env import ct

ID = "C07"
LEVEL = "model_checking"
TECHNIQUE = 'explicit-state exploration of all outcome histories of the real reduction driver with directory-tree invariants'
NOTE = 'Exhaustive over all outcome assignments on the listed toy mechanisms, methods and output directories; the file system is the real one in a scratch directory.'
RULE = ("stateless exploration of the real reduction driver, as for C04, comparing the directory tree before and after every run; "
        "a case is one complete history of (candidate, outcome) pairs, non-trivial if at least one candidate was evaluated")
ASSUMPTIONS = ["simulations are replaced by chosen outcomes that depend only on the candidate's set of species (the stub "
               "autoignition simulation writes its intermediate file as the real one does)",
               "the input model is not itself called reduced_<n>.yaml"]


def scenarios(tier, seed):
    return red.scenarios(tier)


def describe(gas):
    return (gas.species_names, [r.equation for r in gas.reactions()],
            [(r.rate.input_data, r.reversible, r.duplicate) for r in gas.reactions()])


def expected(t, species):
    names = [s for s in t["species"] if s in species]
    rx = []
    for r in t["reactions"]:
        left, right = r["eq"].replace("<=>", "=>").split("=>")
        used = {x.strip() for side in (left, right) for x in side.split("+")}
        if used <= set(species):
            rx.append(r["eq"])
    return names, rx


def judge(rec, ctx):
    scn, o = rec.scn, rec.outcome
    if o[0] not in ("ok", "exit"):
        return
    d = lambda: red.detail(rec)  # noqa
    path = scn.get("path", "")
    ctx.check(rec.after.get("toy.yaml") == rec.before["toy.yaml"], "input-changed", "the original model file was changed", d)
    ctx.check(not rec.temp, "temporary-left", f"temporary files or directories left: {rec.temp}", d)
    data = set(env.sampling.data_files.values())
    new = {f for f in rec.after if f not in rec.before and os.path.basename(f) not in data}
    if o[0] == "exit":
        ctx.check(not new, "leftover-after-exit", f"files left behind after the documented exit: {sorted(new)}", d)
        return
    m = o[1]
    ctx.check(os.path.isfile(m.filename), "reported-file-missing", f"reported file {m.filename} does not exist", d)
    rel = os.path.relpath(os.path.abspath(m.filename), rec.dir)
    ctx.check(os.path.dirname(rel) == path, "wrong-directory", f"{rel} is not in the requested directory {path!r}", d)
    ctx.check(os.path.basename(rel) == f"reduced_{m.model.n_species}.yaml", "wrong-name",
              f"{rel} is not named after the number of species {m.model.n_species}", d)
    out = env.mc.outcome(lambda: ct.Solution(m.filename, rec.parsed.phase_name))
    ctx.check(out[0] == "ok", "unloadable", f"the delivered file cannot be loaded: {out}", d)
    ctx.check(describe(out[1]) == describe(m.model), "file-differs", "the delivered file is not the returned model", d)
    names, rx = expected(red.TOYS[scn["toy"]], set(m.model.species_names))
    ctx.check(m.model.species_names == names and [r.equation for r in m.model.reactions()] == rx, "not-restricted",
              "the returned model is not the original restricted to its species", d)
    rest = {f for f in new if f != rel}
    if scn.get("sa") and scn.get("method"):
        # the graph-based method's own final model may remain
        for f in sorted(rest):
            if os.path.dirname(f) == path and os.path.basename(f).startswith("reduced_"):
                g = ct.Solution(os.path.join(rec.dir, f), rec.parsed.phase_name)
                s = frozenset(g.species_names)
                if (s == rec.full or s in rec.answers) and set(m.model.species_names) < s and rec.err(s) <= scn["limit"]:
                    rest.discard(f)
                    break
    ctx.check(not rest, "leftover", f"files left behind: {sorted(rest)}", d)


def run(scn, ctx):
    def execute(ch):
        rec = red.execute(scn, ch)
        red.account(rec, ctx)
        judge(rec, ctx)

    ctx.explore(execute)
