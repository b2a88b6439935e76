"""Writes /verif/properties.jsonl (the properties are edited here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": ["src/pymars/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Removing species yields exactly the sub-mechanism of what remains",
 "Removing any list of species from a model gives a model with exactly the remaining species (same order, thermodynamics, transport and transport model) and exactly those reactions all of whose reactants, products, explicit reaction-order species and, for an explicit collider, collider remain, each with its rate parameters, reversibility, duplicate flag and orders unchanged and its third-body efficiencies restricted to the remaining species. "
 "Its phase keeps the given phase name and the state's temperature and pressure, and at any state containing only remaining species every kept reaction has the same rate as in the original. "
 "Written to YAML, it always loads again as the same model.",
 ["inputs"], "every subset of species removed, for every form of reaction (elementary, third-body with default or explicit efficiencies, explicit colliders, falloff, chemically activated, PLOG, Chebyshev, orders, duplicates, irreversible)",
 "Tests trim a handful of subsets of gri30 and a few artificial reactions; the subsets x reaction forms that decide which reactions and efficiencies survive are not enumerated, nor is the written file re-read.",
 ["reduce_model.py", "soln2yaml.py"], [("exclusion test per reaction and efficiency filter", "reduce_model.trim"), ("YAML writer", "soln2yaml.write")],
 observe=["ct.Solution returned by trim", "the written YAML file"])

prop("C02", "Graph searches keep exactly the species the methods define",
 "For DRG and PFA, at a given threshold exactly the species reachable from some target along edges whose coefficient is at or above the threshold are retained (plus protected species), taken as the union over all sampled states. "
 "For DRGEP, a species' importance is the maximum over sampled states, targets and paths of the product of the coefficients along the path (1 for targets, 0 if unreachable), and a species is removed exactly if its importance is below the threshold and it is not protected.",
 ["inputs"], "every directed weighted graph (coefficients in [0,1] including 0, 1 and ties with the threshold), target set, protected set, threshold and list of sampled states, up to 4 species",
 "Tests use four or five small graphs; the search is a modified Dijkstra and a DFS union whose mistakes show only on particular topologies (diamonds, cycles through the target, ties, several states or targets).",
 ["drg.py", "drgep.py", "pfa.py"], [("DFS reachability", "drg.graph_search, drg.trim_drg, pfa.trim_pfa"), ("max-product Dijkstra", "drgep.mod_dijkstra, graph_search_drgep, get_importance_coeffs"), ("selection of removed species", "drg.reduce_drg, drgep.reduce_drgep, pfa.reduce_pfa")],
 observe=["return values of the searches", "species of the produced models"])

prop("C03", "Direct interaction coefficients follow their published definitions",
 "At any thermochemical state the DRG, DRGEP and PFA matrices equal the published definitions evaluated from the model's stoichiometry and net rates of progress: DRG sums |nu_A q| of reactions involving B over all reactions; DRGEP takes |sum nu_A q over reactions involving B| over max(production, consumption); PFA adds first- and second-generation production and consumption fluxes over max(production, consumption). "
 "The diagonal is zero, a species with no flux (or a model with no net rates) has a zero row, and all entries are finite and non-negative. "
 "A species that is both reactant and product (third body or autocatalyst) counts as involved in the reaction even if its net coefficient is zero.",
 ["inputs"], "every small mechanism built from a finite set of reactions (including autocatalytic, reversible, inert and duplicate ones) and every combination of rate magnitudes, including zero rates, plus real mechanisms at sampled states",
 "Tests evaluate one artificial mechanism per method at one or two states; they cannot cover the interplay of zero rates, reverse net rates, shared species and inert species.",
 ["drg.py", "drgep.py", "pfa.py"], [("coefficient matrices", "drg.create_drg_matrix, drgep.create_drgep_matrix, pfa.create_pfa_matrix")],
 observe=["returned adjacency matrix"])

prop("C04", "The final model satisfies the error limit, with its true error reported",
 "Whenever a graph-based reduction (DRG, DRGEP or PFA), with or without sensitivity analysis, returns a model, re-simulating that model on the given conditions gives exactly the reported error, and that error is at most the limit. "
 "The model is the smallest one that was found to be acceptable during the graph-based stage, and the stage only stops there because a smaller candidate exceeded the limit or nothing more could be removed. "
 "Candidates whose error equals the limit are acceptable.",
 ["inputs", "histories"], "every assignment of simulation outcomes (far below, exactly at, just above the limit, dead) to the candidate models met along the reduction, for every method, on mechanisms with different threshold structures",
 "Tests run a few complete reductions whose candidate errors happen to increase smoothly; rejection at the first threshold, ties, non-monotone errors and rejection just after a plateau are histories that no test drives.",
 ["drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py", "sampling.py", "pymars.py"],
 [("threshold iteration and roll-back to the accepted threshold", "drg.run_drg, drgep.run_drgep, pfa.run_pfa"), ("error", "sampling.calculate_error"), ("accept / reject of a removal", "sensitivity_analysis.run_sa")],
 state=[("threshold, threshold_accepted, error_current, previous_model", "iteration state of the threshold search", "run_drg / run_drgep / run_pfa")],
 observe=["ReducedModel returned by run_* and main"])

prop("C05", "Targets, retained species and initial-condition species are never removed",
 "Every candidate model that is simulated and every model that is written or returned, by any method and by sensitivity analysis, contains all target species, all retained species and every fuel, oxidizer and reactant species of the conditions given in the input file. "
 "Species protected this way are kept even if they are disconnected from the reaction graph, at any threshold. "
 "No other species is kept on account of protection.",
 ["inputs", "histories"], "all methods x sensitivity types x choices of targets, retained species and conditions (fuel/oxidizer or reactants, of all three phenomena) x outcomes of the candidate simulations, over small mechanisms",
 "Tests check final models of a few runs; a protected species only goes missing for particular combinations (unreached safe species, thresholds above 1, limbo lists naming a protected species).",
 ["pymars.py", "drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py"], [("automatic retention", "pymars.parse_inputs"), ("protected list", "reduce_drg, reduce_drgep, reduce_pfa, run_sa")],
 observe=["model file of each simulation", "final model"])

prop("C06", "A reduction always terminates with a model or the documented error",
 "For any model, targets, retained species, conditions and simulation outcomes, a reduction ends: it returns a reduced model, or exits with the documented message that no viable reduced model was found. "
 "That exit happens only if every candidate evaluated exceeded the error limit (and at least one was evaluated). "
 "It never ends in any other exception and never repeats forever, even if nothing can be removed, everything can be removed, the graph has no edges, or the limit is so large that every candidate is accepted.",
 ["inputs", "histories"], "all candidate outcome assignments for all methods and sensitivity types on small mechanisms, including degenerate ones (no reactions, single species, all species targets, zero rates, huge error limits)",
 "Non-termination and crashes of the search loop appear only for mechanisms and outcomes that tests, being finite runs on real mechanisms, do not have.",
 ["drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py", "pymars.py"], [("loop conditions and SystemExit", "run_drg, run_drgep, run_pfa"), ("removal loop", "run_sa")],
 observe=["outcome of run_* / main"])

prop("C07", "The delivered file is the returned model, and nothing else is left behind",
 "After a reduction ends, the file name reported with the returned model exists in the requested output directory, loads, and is the returned model (same species and reactions, restricted from the original), named after its number of species. "
 "Besides it, only the saved samples (and, with sensitivity analysis after a graph-based method, that method's own final model) remain: no file of a rejected or superseded candidate, temporary directory or intermediate simulation file. "
 "The original model file is unchanged.",
 ["histories", "inputs"], "all candidate outcome assignments, methods and sensitivity types, with and without an output directory, ended normally or by the documented exit",
 "Which candidate files are left over depends on the history of acceptances and rejections; tests look only at the final species of some runs.",
 ["drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py", "soln2yaml.py", "simulation.py"], [("os.remove of superseded candidates", "run_drg, run_drgep, run_pfa"), ("temporary directories", "sensitivity_analysis"), ("final write", "run_*; soln2yaml.write"), ("clean", "simulation.BaseSimulation.clean")],
 observe=["directory contents", "ReducedModel.filename"])

prop("C08", "Sensitivity analysis removes only limbo species, in the documented order",
 "Sensitivity analysis removes one species at a time, always the considered species whose induced error is closest to the current error (induced errors evaluated once for the initial type, and re-evaluated after every removal for the greedy type), keeps every removal whose error is within the limit, and stops at the first one exceeding it (greedy: also when every remaining induced error exceeds it) or when no species is left to consider. "
 "The considered species are the unprotected ones of the given limbo list (all unprotected ones if the list is empty). "
 "After a graph-based method the limbo species are exactly the unprotected species of its final model that the method would remove at the upper threshold.",
 ["histories", "inputs"], "all outcome assignments (with ties) to all subsets of limbo species up to four species, both types, all starting errors, limbo lists and protected lists in the bound; for the limbo list, all methods and small graphs and upper thresholds",
 "The order depends on the errors of every subset met; the tests have one or two real runs.",
 ["sensitivity_analysis.py", "drg.py", "drgep.py", "pfa.py", "pymars.py"], [("argmin selection, re-evaluation and stop conditions", "sensitivity_analysis.run_sa, evaluate_species_errors"), ("limbo species", "run_drg, run_drgep, run_pfa")],
 state=[("species_limbo, species_errors, current_model", "remaining candidates, their induced errors, last accepted model", "run_sa")],
 observe=["sequence of simulated models", "returned model"])

prop("C09", "Runs are isolated and deterministic",
 "A reduction's result depends only on its inputs: not on reductions or conversions run earlier in the same process (given a clean working directory), not on the hash seed, and not on the order of the target or retained species lists. "
 "No call modifies the lists, dictionaries or condition objects passed to it, nor the model object it is given to compare or convert.",
 ["histories", "inputs", "configurations"], "all sequences up to length 2-3 of operations from a set covering all methods, sensitivity analysis, parsing and conversion; hash seeds realising every ordering of small name sets; all permutations of targets and retained species",
 "Shared mutable defaults and aliasing show only in the second call of a history, set-order dependence only under another hash seed; each test starts from fresh state under one seed.",
 ["drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py", "pymars.py", "sampling.py", "tools.py", "soln2ck.py"], [("copying of input lists", "parse_inputs, run_drgep, run_sa"), ("mutable defaults", "ReducedModel, run_*, main")],
 observe=["returned models and files", "caller's arguments after the call"])

prop("C10", "The error is the largest relative deviation over all metrics, dead ones included",
 "The error between two models is 100 times the largest relative deviation of any metric (ignition delays, PSR extinction time and temperatures, flame speeds) from the original model's, and at least 100 if any metric of the tested model is zero. "
 "Metrics are always ordered ignition, PSR, flame, each in the order of the given conditions, equally when sampled, evaluated for a candidate or read back, and the sampled states are those of all conditions in the same order.",
 ["inputs", "configurations"], "every combination of up to three conditions of each phenomenon and every assignment of metric values (lower, equal, higher, zero) to them",
 "Tests use a few fixed arrays and mostly a single phenomenon; a misaligned or dropped metric of one phenomenon shows only for particular combinations.",
 ["sampling.py"], [("error", "sampling.calculate_error"), ("concatenation", "sampling.sample, sample_metrics, read_metrics")],
 observe=["return values of sample, sample_metrics, read_metrics, calculate_error"])

prop("C11", "A failing baseline stops the run; a failing candidate is only rejected",
 "If the original model fails in any condition while its samples are generated (integrator failure at any step, no ignition, step limit, no flame or a flame speed at or below the minimum, no extinction curve), generating the samples ends with an error and leaves no saved samples of that phenomenon. "
 "If a candidate model fails in the same ways, its metric is exactly zero, so that it is rejected; the failure never ends the reduction and never yields a nonzero metric.",
 ["fault_sequences", "inputs"], "every failure kind at every step (bounded) of every condition, for ignition, PSR and flames, in the sampling path and in the candidate path; flame speeds below, at and above the minimum for default and given minima",
 "Tests inject a failure at one step of one case; the outcome must not depend on when or in which of several cases the failure strikes.",
 ["simulation.py", "sampling.py", "psr_solver.py"], [("exception translation", "IgnitionSimulation.run_case, calculate; FlameSimulation._flame_detected; PSRSimulation._detect"), ("metric floor", "FlameSimulation.min_flame_speed")],
 observe=["metrics / exceptions of sample and sample_metrics"])

prop("C12", "The ignition delay is the first time temperature has risen by 400 K",
 "For an autoignition condition the metric is the time of the first integration step at which the temperature is at least 400 K above the initial one, the same whether computed while sampling or for a candidate model. "
 "With an end time given, integration continues until that time; otherwise to steady state or until the step limit, and reaching steady state in the last allowed step is not an error, while exhausting the limit is. "
 "The sampled data come from the whole recorded trajectory starting from the initial state.",
 ["inputs", "histories"], "every bounded sequence of per-step (time, temperature) outcomes of the integrator, around the 400 K boundary, the end time and the step limit",
 "Tests integrate two or three real mixtures that ignite in the middle of the run; boundary positions (ignition in the first or last step, exactly 400 K, temperature falling again) are not reachable that way.",
 ["simulation.py"], [("integration loops", "IgnitionSimulation.run_case, calculate"), ("delay from the stored profile", "IgnitionSimulation.process_results")],
 observe=["ignition delay, sampled data, raised errors"])

prop("C13", "Profile samples are the first crossings of evenly spaced temperature fractions",
 "From any temperature profile, exactly 20 states are sampled: the k-th is the first point of the profile whose temperature has reached k/20 of the total rise from the first to the last point, with that point's own pressure and mass fractions. "
 "No sample is a blank row and sample temperatures never come from before the crossing, however steep, flat or non-monotone the profile is (as long as it rises overall).",
 ["inputs"], "all profiles of up to 6 points over a grid of temperatures including values exactly on and between the fractions, and steep jumps across several fractions",
 "Tests use one smooth profile.",
 ["simulation.py"], [("crossing search", "BaseSimulation._sample_profile")],
 observe=["sampled rows"])

prop("C14", "Saved samples are reused exactly when they fit the request",
 "Saved samples of a phenomenon are reused only if both the metrics and the states are present and fit the requested number of conditions and the model's number of species; otherwise that phenomenon is simulated anew and both files are replaced by the new samples. "
 "Reused samples give the same metrics and states, in the same order, as the run that wrote them, and each phenomenon is decided independently of the others. "
 "The baseline metrics for sensitivity analysis are reused by the same count rule, and candidates' metrics never are.",
 ["histories"], "all sequences up to length 3-4 of sampling requests over models of different size, numbers of conditions and phenomena, and file deletions, from the empty directory",
 "Tests exercise single reuse steps from hand-written files; staleness and mixing arise in histories.",
 ["sampling.py"], [("existence and shape checks", "sampling.sample, sample_metrics"), ("saving", "sampling._save_samples")],
 state=[("*_data.dat, *_output.txt", "saved states and metrics per phenomenon", "working directory")],
 observe=["returned metrics and data", "simulations started", "files"])

prop("C15", "An interruption never leaves saved samples that corrupt a later run",
 "If the process dies at any moment while samples are generated or saved (including in the middle of writing a file, with old samples present or not), a later run in the same directory either reuses one complete, matching set of metrics and states or simulates anew. "
 "It never fails because of the leftover files, and never combines metrics and states of different runs.",
 ["crash_points"], "every file operation boundary of the saving sequence and every prefix truncation (bounded) of the file being written, for each phenomenon, from the empty directory and over older samples of the same or another shape",
 "Tests never crash the process between two file operations.",
 ["sampling.py"], [("write to temporary files, remove old metrics first, rename metrics last", "sampling._save_samples")],
 state=[("*_data.dat, *_output.txt", "saved states and metrics", "working directory")],
 observe=["metrics and data returned by the run after the crash"])

prop("C16", "Parallel evaluation gives the serial result for every completion order",
 "Evaluating conditions with any number of worker processes gives the same metrics, states, errors and files as evaluating them one after another, in whatever order the workers complete. "
 "The failure of a condition in a worker has the same effect as serially, and the pool ends in either case. "
 "A thread number of zero means all cores but one (at least one).",
 ["schedules", "configurations"], "every completion order of up to four conditions on up to four workers, every failing condition, for all phenomena, in the sampling and the candidate path",
 "Tests run a pool on real cases and see whichever order the machine happens to produce.",
 ["sampling.py"], [("pool and keyed merge", "sampling._run_workers, _run_sampling_jobs, _run_metric_jobs")],
 observe=["metrics and data"])

prop("C17", "PSR metrics come from converged points on the burning branch and its true fold",
 "Every point of a traced PSR response curve satisfies the steady reactor equations (species and energy) at the inlet enthalpy, and with tracing up to extinction the reported extinction point is the smallest residence time of the burning branch, next to the curve's true turning point. "
 "The other two sampled points are the branch points nearest 0.1 s and nearest the geometric mean of that time and the extinction time. "
 "If correctors fail to converge, steps are retried smaller, so that the result either still satisfies this or an error is raised; unconverged points are never returned.",
 ["inputs", "fault_sequences"], "one-step reactors on a grid of kinetics and inlet states with analytic response curves, real mechanisms on a grid of inlets, and every placement of up to 2 corrector failures along the continuation",
 "Tests trace a few real inlets without failures and check coarse values.",
 ["psr_solver.py", "simulation.py"], [("residual, Jacobian, corrector, step control, fold detection", "psr_solver"), ("metrics", "PSRSimulation._metrics, process_results")],
 observe=["branch and points of the traced curve", "PSR metrics"])

prop("C18", "Input validation accepts exactly the consistent inputs",
 "An input is accepted exactly if it names a model with the given phase, a nonzero error, a known method (or sensitivity analysis only), targets for a method, targets and retained species that are in the model, and at least one condition, and every condition is valid: positive temperature and pressure (and flame width), known kind, either an equivalence ratio with fuel and oxidizer or reactants but not both, positive amounts of species in the model, and a known composition type (mole when an equivalence ratio is given). "
 "An accepted input is returned with every given value unchanged and documented defaults elsewhere, and retained species extended by exactly the species of the conditions that are not already protected.",
 ["inputs"], "the product of valid and invalid values of every field (one or two fields deviating at a time, and full products within each composition group) for all three phenomena",
 "Tests check some invalid fields one at a time, mostly for ignition.",
 ["pymars.py", "sampling.py"], [("assertions", "pymars.parse_inputs, sampling.parse_ignition_inputs, parse_psr_inputs, parse_flame_inputs")],
 observe=["accepted / rejected, resulting inputs"])

prop("C19", "Every option given by the user reaches the computation it governs",
 "In every run, from the command line or the programming interface, each simulation of the original and of every candidate uses the given phase, conditions, minimum flame speed, number of threads and output directory, and the reduction uses the given method, error limit, targets, retained species, upper threshold and sensitivity type. "
 "A Chemkin model is converted (with the given thermodynamic and transport files) before it is used, and the conversion command writes the converted files to the given directory.",
 ["configurations"], "the product of option values over methods, sensitivity types, phenomena, entry points (command line, module, function) and command-line spellings",
 "Options pass through three to five layers with defaults, so that a dropped one is silently replaced by the default; tests check few of the combinations.",
 ["pymars.py", "__main__.py", "drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py", "sampling.py", "tools.py"], [("forwarding of keyword arguments", "pymars.pymars, main, run_*, reduce_*, sample, sample_metrics, evaluate_species_errors")],
 observe=["options of each simulation", "outputs"])

prop("C20", "Conversion to Chemkin and back preserves the model",
 "Converting a model to Chemkin format and back gives the same species, elements, thermodynamics and transport data and the same reactions with the same rates at all temperatures and pressures, reversibility, duplicate flags, orders and third-body efficiencies, to the written precision. "
 "This holds for every supported reaction type (elementary, third-body, explicit collider, Lindemann/Troe/SRI falloff, chemically activated, PLOG, Chebyshev) and for reactions of every molecularity.",
 ["inputs"], "all combinations of reaction types, molecularities, reversibility, efficiencies, orders, duplicates and parameter signs in the bound, converted alone and together",
 "Tests convert gri30 and a few single reactions; unit factors and keywords depend on type x molecularity.",
 ["soln2ck.py", "tools.py"], [("writer", "soln2ck.write and its helpers"), ("reader", "cantera.ck2yaml through tools.convert")],
 observe=["the model read back"])

prop("C21", "Model comparison is true exactly for equivalent models",
 "Comparing two models is true if they have the same species and reactions in whatever order, and false if any one species name, composition, thermodynamic value, transport parameter (where both have transport data), reaction equation, type, rate parameter, falloff or pressure-dependence parameter, efficiency, order, reversibility or duplicate flag differs by more than rounding. "
 "It is symmetric and reflexive and never fails.",
 ["inputs"], "every single-attribute mutation of every reaction type and species attribute, all permutations of species and reactions of small models, both argument orders",
 "Tests compare a dozen pairs.",
 ["tools.py"], [("attribute comparison", "tools.compare_models")],
 observe=["return value"])

prop("C22", "Simulations start from exactly the specified initial state",
 "Each simulation of any phenomenon starts at the given temperature, pressure (in atmospheres) and composition: the mixture of the given equivalence ratio of the given fuel and oxidizer, or the given reactants by mole or by mass, normalised. "
 "It uses the given model and phase, constant-volume or constant-pressure reactor as specified, and is the same for the original and every candidate model.",
 ["inputs"], "the lattice of temperatures, pressures, composition specifications (fuel blends, oxidizer blends, reactants by mole/mass) and kinds, for three phenomena and several models and candidate sub-models",
 "Tests check the initial state of a few ignition cases.",
 ["simulation.py"], [("state set-up", "BaseSimulation._setup_gas; setup_case of each simulation")],
 observe=["state of the gas after set-up", "kind of reactor"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
