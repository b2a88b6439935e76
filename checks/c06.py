import env  # noqa
import reduction as red

ID = "C06"
LEVEL = "model_checking"
TECHNIQUE = 'explicit-state exploration of all outcome histories of the real reduction driver with a termination watchdog'
NOTE = 'Exhaustive over all outcome assignments on ordinary and degenerate toy mechanisms; non-termination is judged by a CPU-time and simulation-count bound.'
RULE = ("stateless exploration of the real reduction driver, as for C04, on ordinary and degenerate mechanisms (no reactions, one "
        "species, all species protected, no rates, error limits no candidate exceeds); a case is one complete history of "
        "(candidate, outcome) pairs, non-trivial if at least one candidate was evaluated")
ASSUMPTIONS = ["simulations are replaced by chosen outcomes that depend only on the candidate's set of species",
               "a run that uses 60 s of CPU time or 5000 simulations (ordinary ones: below 0.5 s, 300) is judged not to terminate"]


def scenarios(tier, seed):
    return red.scenarios(tier)


def judge(rec, ctx):
    scn, o = rec.scn, rec.outcome
    if o[0] == "hang":
        ctx.violation("no-termination", "the reduction does not end: " + o[1], red.detail(rec))
    if o[0] == "exc":
        ctx.violation(f"exception:{o[1]}", "the reduction ended in " + " ".join(map(str, o[1:])), red.detail(rec))
    if o[0] == "exit":
        ctx.check(bool(scn.get("method")), "exit-from-sa", "sensitivity analysis exited", lambda: red.detail(rec))
        ctx.check("viable reduced model" in o[1], "undocumented-exit", "exited without the documented message: " + o[1],
                  lambda: red.detail(rec))
        ctx.check(bool(rec.order), "exit-without-candidate", "exited although no candidate was evaluated",
                  lambda: red.detail(rec))
        ctx.check(all(rec.err(s) > scn["limit"] for s in rec.order), "exit-despite-viable",
                  "exited although an acceptable candidate had been found", lambda: red.detail(rec))
    if o[0] == "ok":
        ctx.check(hasattr(o[1], "model") and getattr(o[1].model, "n_species", 0) > 0, "no-model",
                  "ended without returning a model", lambda: red.detail(rec))


def run(scn, ctx):
    def execute(ch):
        rec = red.execute(scn, ch)
        red.account(rec, ctx)
        ctx.count("ended_by_exit", rec.outcome[0] == "exit")
        judge(rec, ctx)

    ctx.explore(execute)
