import env  # noqa
import reduction as red

ID = "C04"
LEVEL = "model_checking"
TECHNIQUE = 'explicit-state exploration of all outcome histories of the real reduction driver'
NOTE = 'Exhaustive over all outcome assignments to the candidates met on the listed toy mechanisms, methods and options; trusts that simulations depend only on the candidate model, and says nothing about mechanisms whose threshold structure is not among the toys.'
RULE = ("stateless exploration of the real reduction driver: every assignment of outcomes (deviation below the limit, exactly "
        "at it from either side, just above, dead) to the candidate models a run meets; a case is one complete history of "
        "(candidate, outcome) pairs, non-trivial if at least one candidate was evaluated")
ASSUMPTIONS = ["simulations are replaced by chosen outcomes that depend only on the candidate's set of species",
               "toy mechanisms of up to 6 species with the threshold structures listed in lib/reduction.py"]


def scenarios(tier, seed):
    return red.scenarios(tier)


def judge(rec, ctx):
    scn = rec.scn
    if rec.outcome[0] != "ok":
        return
    model = rec.outcome[1]
    limit = scn["limit"]
    S = frozenset(model.model.species_names)
    ctx.check(S == rec.full or S in rec.answers, "unevaluated-model",
              "the returned model was never evaluated", lambda: red.detail(rec))
    true = rec.err(S)
    ctx.check(model.error == true, "wrong-error",
              f"reported error {model.error}, re-simulating the returned model gives {true}", lambda: red.detail(rec))
    ctx.check(true <= limit, "error-above-limit", f"error {true} of the returned model above the limit {limit}",
              lambda: red.detail(rec))
    if scn.get("sa"):
        return
    accepted = [s for s in rec.evals if rec.err(s) <= limit]
    ctx.check(all(len(s) >= len(S) for s in accepted), "smaller-accepted",
              "a smaller acceptable model had been found but a larger one is returned", lambda: red.detail(rec))
    rejected = [s for s in rec.evals if rec.err(s) > limit and s < S]
    ctx.check(bool(rejected) or S <= rec.protected, "stopped-early",
              "the reduction stopped though no smaller candidate exceeded the limit and species remain removable",
              lambda: red.detail(rec))


def run(scn, ctx):
    def execute(ch):
        rec = red.execute(scn, ch)
        red.account(rec, ctx)
        judge(rec, ctx)

    ctx.explore(execute)
