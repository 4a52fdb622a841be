"""writes /verif/properties.jsonl (the single source of the property texts)"""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=None)))


B = "bayes_optim/"
prop("C01", "Every suggested point is a legal point of the search space",
     "Every point an optimizer suggests, in the initial design and after any history of observations, assigns each declared variable exactly one admissible value: reals finite, within their bounds and on their declared decimal precision, integers within their range and on their step grid, and categorical, ordinal, Boolean and subset values equal to a declared level, each with its native type. This holds for single-point, batch, annealing, noisy, multi-acquisition and multi-objective optimizers, for list and dictionary candidates, and whatever surrogate model or inner optimizer is used.",
     ["inputs", "histories", "configurations"], "all search spaces over the six variable types, all optimizers/models/inner optimizers, all ask/tell histories",
     "The tests run a handful of fixed spaces for a few iterations and never look at the suggested values; illegal values appear only for particular mixtures of types, precisions, steps, scales and histories.",
     [B+"base.py", B+"bayes_opt.py", B+"mobo.py", B+"search_space/search_space.py", B+"search_space/samplers.py", B+"acquisition/optim/mies.py", B+"acquisition/optim/one_plus_one_cma_es.py", B+"acquisition/optim/__init__.py"],
     [("ask / create_DoE / arg_max_acquisition", B+"base.py"), ("box handling and rounding in the inner optimizers", B+"acquisition/optim")],
     ["return value of ask", "arguments the objective function receives"])
prop("C02", "Fixed variables keep their given value in every suggestion",
     "When variables are fixed in a request for candidates, every returned point carries exactly the given values for those variables and legal values for all the others, in the right positions, both for the initial design and for model-based suggestions, with and without constraints. A fixed request leaves no trace: later requests without it again range over the whole space.",
     ["inputs", "histories", "configurations"], "all subsets of fixed variables, values, spaces, models and points in the history",
     "Two tests fix one or two variables of one space; the interplay with variable order, gradients, constraints, categorical values and later requests is never observed.",
     [B+"base.py", B+"utils/utils.py", B+"mobo.py"],
     [("fixed-value fill-in and partial evaluation", B+"utils/utils.py"), ("ask(fixed=...)", B+"base.py")],
     ["return value of ask(fixed=...)", "arguments passed to the constraint functions"])
prop("C03", "Suggestions respect the declared constraints",
     "With inequality constraints every suggested point satisfies all of them exactly, with equality constraints every suggested point satisfies all of them within the documented tolerance (0.1), and the constraint functions are evaluated on complete points of the search space. When no feasible point can be found the request fails with the documented empty-suggestion error, and a constraint that raises is reported as a constraint-evaluation error; an infeasible point is never returned.",
     ["inputs", "histories", "configurations"], "all constraint functions (scalar or vector valued, list or dict arguments), spaces and histories",
     "The tests check only the final incumbent of three fixed problems.",
     [B+"base.py", B+"search_space/search_space.py", B+"search_space/samplers.py", B+"acquisition/optim/__init__.py", B+"utils/utils.py"],
     [("feasibility filter of the sampler", B+"search_space/search_space.py"), ("feasibility test after the inner optimization", B+"acquisition/optim/__init__.py")],
     ["return value of ask", "arguments and values of the constraint functions"])
prop("C04", "Batches have the requested size and never repeat a point",
     "Outside the noisy setting, a suggested batch contains no point that was already observed and no point twice; it has exactly the requested number of points as long as enough unseen points exist, and never more. When a finite space is exhausted the request raises the documented empty-suggestion error instead of repeating points.",
     ["inputs", "histories", "configurations"], "all spaces (in particular small finite ones), batch sizes and histories up to exhaustion",
     "No test looks for repeated points; exhaustion of a finite space and replacement of duplicates need specific histories.",
     [B+"bayes_opt.py", B+"base.py"], [("duplicate filter", B+"bayes_opt.py"), ("random replacement of dropped candidates", B+"base.py")],
     ["return value of ask"])
prop("C05", "Observations are recorded completely, in order and correctly paired",
     "After any sequence of observations the recorded data set contains exactly the points told with finite objective values, in the order told, each paired with its own objective value and variable names, whatever form (lists, arrays, dictionaries in any key order, recorded solutions) they were told in. Failed evaluations (NaN or infinite) count as evaluations but never enter the data set, the model or the incumbent, and evaluation and iteration counters equal what was told.",
     ["histories", "inputs", "fault_sequences"], "all tell histories, forms of input and patterns of failed evaluations",
     "Tests only run the closed loop with well-formed finite values and never compare the recorded data with what was told.",
     [B+"base.py", B+"solution.py", B+"mobo.py", B+"extension.py"], [("tell / post_eval_check", B+"base.py"), ("Solution concatenation and slicing", B+"solution.py")],
     ["optimizer data, fitness, counters after each tell", "data file"], [("data", "recorded observations", B+"base.py")])
prop("C06", "The incumbent is always the best observation so far",
     "At every moment the reported best solution and recommendation is a recorded point whose objective value is the best (minimum or maximum, as configured) of all finite observations so far, paired with that very value. From the first finite observation on, the recorded history of best values grows by one entry per iteration and never worsens; before any observation, asking for a recommendation raises the documented error.",
     ["histories", "inputs", "configurations"], "all observation histories with ties, negative and huge values, failures, both directions",
     "Tests only print the final incumbent.",
     [B+"_base.py", B+"base.py"], [("incumbent selection", B+"_base.py"), ("best-value history", B+"base.py")],
     ["incumbent, recommendation and best-value history after each tell", "result of run"])
prop("C07", "Runs stop exactly when the budget or the target is reached",
     "A run evaluates the objective in whole suggested batches and stops at the first moment the number of evaluations reaches the budget or the incumbent becomes better than the target, in either optimization direction, never earlier and never later. The reported stop reason is true, the evaluation counter equals the number of actual objective calls, and the returned solution and value are the incumbent's.",
     ["histories", "inputs", "configurations"], "all budgets, targets, batch sizes, design sizes, directions",
     "Tests never count objective calls nor use a target.",
     [B+"_base.py", B+"base.py", B+"mobo.py"], [("check_stop / run", B+"_base.py")],
     ["objective call log", "return value of run"])
prop("C08", "Checkpoints restore the optimizer exactly and saving has no side effect",
     "A loaded checkpoint is observably equal to the optimizer that was saved: same data, values, counters, incumbent and settings, and given the same random state and later observations it makes the same suggestions. Saving leaves the live optimizer unchanged and usable, and if saving fails part-way the live optimizer is still intact and a previously written checkpoint is still loadable.",
     ["histories", "crash_points", "fault_sequences"], "every point of the ask/tell loop at which a checkpoint is taken and every failing write or serialization step",
     "The tests save only a fresh optimizer without data and never fail a write.",
     [B+"base.py", B+"utils/logger.py", B+"solution.py"], [("save / load", B+"base.py")],
     ["optimizer before/after save", "loaded optimizer", "the checkpoint file"])
prop("C09", "Maximizing a function mirrors minimizing its negation",
     "Run with the same random state, an optimizer maximizing a function and one minimizing its negation suggest the same points, report the same incumbents with negated values and stop at the same moment. For multi-objective problems the same holds per objective.",
     ["inputs", "histories", "configurations"], "all objectives, spaces, models and acquisition functions",
     "Only minimization is tested.",
     [B+"_base.py", B+"base.py", B+"bayes_opt.py", B+"acquisition/acquisition_fun.py", B+"mobo.py"], [("direction handling in incumbent, plug-in value and acquisition", B+"acquisition/acquisition_fun.py")],
     ["suggestion traces of the two runs"])
prop("C10", "Equal seeds give equal runs",
     "Two optimizers built with the same configuration and the same non-zero seed and fed the same observations make the same suggestions at every step; different seeds give different designs. Sampling repeated from the same random state returns the same points, while consecutive samples and consecutive restarts differ from each other.",
     ["histories", "configurations"], "all optimizers, models, spaces and seeds",
     "No test compares two runs.",
     [B+"_base.py", B+"search_space/search_space.py", B+"acquisition/optim/one_plus_one_cma_es.py"], [("seed handling", B+"_base.py"), ("seed handling of spaces", B+"search_space/search_space.py")],
     ["suggestion traces"])
prop("C11", "Optimizers leave their inputs and each other untouched",
     "Creating, running, asking or telling an optimizer never modifies objects the caller passed in: the search space, option dictionaries, fixed values, candidate lists, objective values or warm-start data. Settings adapted by one optimizer during its run never leak into another optimizer, created before or after it.",
     ["histories", "inputs", "configurations"], "all interleavings of several optimizers and all kinds of caller-owned inputs",
     "Tests never look at their inputs after the call.",
     [B+"base.py", B+"bayes_opt.py", B+"extension.py", B+"search_space/search_space.py"], [("copying of caller-owned data", B+"base.py")],
     ["deep snapshots of the inputs before/after each call"])
prop("C12", "Sampling returns the requested number of legal, well-spread points",
     "Sampling a search space returns exactly the requested number of legal points of that space for every method, every mixture of variable types, scales and precisions; Latin hypercube designs place exactly one point in each equal slice of every real variable on its scale, and every level and every region of the range can be drawn. Sampling under constraints returns only legal points that satisfy every inequality and every equality within the tolerance, and never more than requested.",
     ["inputs", "configurations"], "all spaces, sample sizes, methods and constraints",
     "Tests check shapes and a few ranges of fixed spaces.",
     [B+"search_space/search_space.py", B+"search_space/samplers.py", B+"search_space/variable.py"], [("sample", B+"search_space/search_space.py"), ("constrained sampler", B+"search_space/samplers.py")],
     ["return value of sample"])
prop("C13", "Search-space operations keep variables, names and indices consistent",
     "Adding, subtracting, multiplying, slicing, filtering, removing, popping, renaming and updating search spaces yields exactly the variables the operation describes, in order, with unique names and unchanged ranges, types, precisions, scales and steps, and with names, types, bounds, per-type indices, masks and levels that agree with the variables. Operations that return a new space leave their operands unchanged and share no mutable state with them; membership tests agree with the declared ranges.",
     ["inputs", "histories"], "all sequences of operations on all spaces",
     "Tests exercise single operations on fixed spaces and rarely look at the operands afterwards.",
     [B+"search_space/search_space.py", B+"search_space/variable.py", B+"search_space/node.py"], [("space algebra", B+"search_space/search_space.py")],
     ["public attributes of every space after each operation"])
prop("C14", "Space descriptions round-trip through dictionaries and JSON",
     "A search space created from a description has exactly the described variables: names, types, ranges, defaults, precisions, scales and steps, with repeated variables numbered; the description itself is not modified and a malformed entry raises instead of silently losing a variable. Exporting a space to a dictionary or JSON file and reading it back yields an equal space.",
     ["inputs"], "all descriptions and all spaces",
     "One description is tested and export is never read back.",
     [B+"search_space/search_space.py"], [("from_dict / to_dict / to_json / from_json", B+"search_space/search_space.py")],
     ["variables of the resulting space", "exported description"])
prop("C15", "Conditional spaces only activate variables whose conditions hold",
     "For a conditional search space the unconditional subspaces enumerate exactly the combinations of branches the conditions describe, each with exactly the variables active under it and without changing the space. The conditional optimizer's suggestions give legal values to the condition variables and to every active variable and no value to inactive ones, its recorded data pairs each suggestion with its own objective value whatever the values are, and every branch combination keeps being proposed.",
     ["inputs", "histories", "configurations"], "all condition trees, values (including zero and false) and histories",
     "One fixed tree is run without inspecting the suggestions.",
     [B+"search_space/node.py", B+"search_space/search_space.py", B+"extension.py"], [("condition tree", B+"search_space/node.py"), ("subspace enumeration", B+"search_space/search_space.py"), ("conditional optimizer", B+"extension.py")],
     ["subspaces", "ask/tell of the conditional optimizer"])
prop("C16", "Solution tables keep rows, names and attributes aligned",
     "Through any sequence of constructing, slicing, concatenating, repeating, assigning, de-duplicating, pickling and exporting solution tables, every row keeps its own variable values, objective values, evaluation count, index and variable names. Dictionary and CSV exports contain exactly the table's values under the right names, importing a dictionary export restores the table for any key order, and assigning attributes through a slice changes exactly the addressed rows.",
     ["inputs", "histories"], "all tables (types, shapes, objectives) and operation sequences",
     "The tests check single operations on one small table.",
     [B+"solution.py"], [("attribute slicing and concatenation", B+"solution.py")],
     ["tables after each operation", "exported dict and CSV"])
prop("C17", "Gaussian-process predictions and gradients match kriging theory",
     "For any training data, kernel and fitted hyper-parameters (noise share and constant or linear trend included), predictions equal the kriging equations evaluated with those hyper-parameters, predictive variances are never negative, a noiseless model reproduces its training values with (almost) zero variance, and predictions do not depend on how test points are batched. Returned gradients of mean and variance agree with numerical differentiation, kernel matrices are symmetric positive semi-definite with unit diagonal, and fitted hyper-parameters stay within their bounds and never have a lower likelihood than the start.",
     ["inputs", "configurations"], "all data sets, kernels, trends, nuggets and test points",
     "The only test fits and predicts without looking at the numbers.",
     [B+"surrogate/gaussian_process/gpr.py", B+"surrogate/gaussian_process/kernel.py", B+"surrogate/gaussian_process/trend.py", B+"surrogate/gaussian_process/__init__.py"], [("predict / gradient / likelihood", B+"surrogate/gaussian_process/gpr.py"), ("kernels", B+"surrogate/gaussian_process/kernel.py")],
     ["predict, gradient and fitted parameters"])
prop("C18", "Random-forest predictions are the ensemble mean and spread of legal inputs",
     "The random-forest surrogate predicts the mean of its trees' predictions and the (sample) variance between them as uncertainty, never negative, within the range of the training values, independent of how test points are batched and of the order of categorical levels' appearance. Categorical inputs of every level, seen in training or not, are accepted and distinguished, and a weighted aggregation of surrogates predicts the weighted sum of means and squared-weighted sum of variances.",
     ["inputs", "configurations"], "all mixed-type data sets, levels, numbers of outputs",
     "One fixed data set is predicted without checking the numbers.",
     [B+"surrogate/random_forest.py"], [("categorical encoding, prediction and variance", B+"surrogate/random_forest.py")],
     ["predict"])
prop("C19", "Acquisition functions equal their definitions and gradients",
     "For any surrogate prediction the acquisition functions return their defining closed forms: expected improvement, probability of improvement (with margin), confidence bound and moment-generating function of improvement with respect to the incumbent in the configured direction, non-negative where defined so. A better predicted value never reduces them, nor does larger uncertainty reduce expected improvement or the confidence bound anywhere, or the others where the prediction is no better than the incumbent. Returned gradients match numerical differentiation, and the value is the same with and without gradient.",
     ["inputs", "configurations"], "all predictions (mean, deviation), incumbents, parameters, directions",
     "Acquisition functions are only exercised indirectly.",
     [B+"acquisition/acquisition_fun.py"], [("closed forms and gradients", B+"acquisition/acquisition_fun.py")],
     ["values and gradients of the acquisition functions"])
prop("C20", "Inner optimizers stay in bounds, on budget and report the best point seen",
     "The inner optimizers evaluate only legal points of their search space, stop within one generation (or line search) of their evaluation budget, and count evaluations truthfully. The point and value they report belong together, were actually evaluated, and no feasible point evaluated by the evolution strategies, nor any starting point of the gradient search, was better, for minimization and maximization, with and without constraints and restarts.",
     ["inputs", "configurations", "histories"], "all objective functions, spaces, budgets, directions, constraints, restarts",
     "Tests only check that some stop criterion fired.",
     [B+"acquisition/optim/mies.py", B+"acquisition/optim/one_plus_one_cma_es.py", B+"acquisition/optim/__init__.py", B+"utils/utils.py"], [("MIES", B+"acquisition/optim/mies.py"), ("(1+1)-CMA-ES", B+"acquisition/optim/one_plus_one_cma_es.py"), ("restart driver", B+"acquisition/optim/__init__.py")],
     ["objective call log", "returned point/value/stop reasons"])
prop("C21", "Pareto sets, hypervolumes and their expected improvement are exact",
     "Non-dominated filtering returns exactly the points no other point dominates, hypervolume equals the volume dominated with respect to the reference point, independent of order and duplicates (and, in two and three objectives, of dominated points), and the cell partitioning of the non-dominated space covers it without overlap. The expected hypervolume improvement equals the expectation of the hypervolume gain under independent normal predictions, so it is non-negative.",
     ["inputs"], "all finite sets of objective vectors in two to four objectives, with ties and duplicates",
     "No test computes any of these quantities.",
     [B+"utils/multi_objective/pareto.py", B+"utils/multi_objective/hypervolume.py", B+"utils/multi_objective/box_decompositions/non_dominated.py", B+"utils/multi_objective/box_decompositions/utils.py", B+"multi_objective/analytic.py", B+"utils/utils.py"], [("hypervolume", B+"utils/multi_objective/hypervolume.py"), ("partitioning", B+"utils/multi_objective/box_decompositions"), ("EHVI", B+"multi_objective/analytic.py")],
     ["returned masks, volumes, cells, values"])
prop("C22", "Multi-objective optimizers record all objectives and recommend the Pareto set",
     "After any history the multi-objective optimizer's data pairs every point with all its objective values in order, and its recommendation consists of recorded points that are exactly the non-dominated ones for the configured directions (one representative per equal objective vector suffices). Points with any failed objective are dropped, evaluations are counted once per point and objective, every objective is evaluated on every suggested point exactly once, and runs stop at the budget.",
     ["histories", "inputs", "configurations", "fault_sequences"], "all objective histories, numbers of objectives, direction vectors, failure patterns",
     "Tests run fixed problems and only check that a recommendation exists.",
     [B+"mobo.py", B+"utils/multi_objective/pareto.py"], [("tell / incumbent of the multi-objective optimizer", B+"mobo.py")],
     ["data, recommendation, counters after each tell", "objective call logs"])
prop("C23", "Parallel evaluation is indistinguishable from sequential evaluation",
     "With several workers, or with a user-supplied batch objective, every suggested point is evaluated exactly once and its value is attributed to that point, whatever the completion order or delays of the evaluations. Recorded data, counters and incumbent are consistent with those evaluations, and for single-point suggestions the whole run equals that of a sequential run from the same random state.",
     ["schedules", "histories"], "all completion orders and delays of parallel evaluations, worker counts and batch sizes",
     "No test runs with several workers.",
     [B+"_base.py", B+"mobo.py", B+"bayes_opt.py"], [("evaluate", B+"_base.py"), ("parallel evaluation of several objectives", B+"mobo.py")],
     ["per-evaluation event log with delays injected", "recorded data"])
prop("C24", "Warm starts and the one-call interface report consistent results",
     "Warm-start data are taken over completely and in order, do not count as evaluations or iterations, replace the initial design, and are accepted for every variable type. The one-call minimizer evaluates the objective exactly as often as it reports, only inside the given bounds, passes extra arguments through, and returns the best point and value over all given and evaluated points together with the per-iteration trial points in order.",
     ["inputs", "histories", "configurations"], "all warm data sets, bounds forms, budgets, batch sizes, extra arguments",
     "Two warm starts and three one-call runs are tested for sizes only.",
     [B+"__init__.py", B+"base.py"], [("warm data", B+"base.py"), ("fmin", B+"__init__.py")],
     ["objective call log", "return value", "optimizer data"])

prop("C25", "Suggestions maximize the acquisition of a model of the recorded observations",
     "After any history, every model-based suggestion comes from a surrogate fitted on exactly the recorded points and their objective values (scaled by one common positive linear map), and the candidate proposed is the best one the acquisition search found: its acquisition value, recomputed from the surrogate's predictions and the configured criterion, incumbent and direction, is not lower than that of any restart result discarded, the search only considers points that honour the fixed variables, and over many requests suggestions are clearly better than random points. The same holds for each member's criterion in batches and for multi-objective suggestions.",
     ["histories", "inputs", "configurations"], "all observation histories, surrogates, acquisition functions, directions, fixed variables, batch sizes",
     "Tests never compare a suggestion with the surrogate or the acquisition it should maximize.",
     [B+"base.py", B+"bayes_opt.py", B+"mobo.py", B+"acquisition/optim/__init__.py"], [("model update and acquisition search", B+"base.py"), ("restarts", B+"acquisition/optim/__init__.py")],
     ["recorded fits and predictions of the surrogate", "suggestions"])
prop("C26", "Optimization in principal components stays consistent with the original space",
     "The PCA-assisted optimizer only suggests and evaluates points of the original box, its data, incumbent, counters and history refer to the original points and values told, the reduced box contains the image of every admissible point, saved optimizers resume, and the linear transformation maps points to components and back consistently (exactly when all components are kept). The penalized acquisition equals the acquisition at points whose pre-image is inside the original box and is a negative out-of-box distance elsewhere, with matching gradient.",
     ["histories", "inputs", "configurations"], "all boxes, data sets, numbers of components, acquisition optimizers, failure patterns",
     "One run is tested for termination.",
     [B+"extension.py"], [("PCABO, LinearTransform, penalized_acquisition", B+"extension.py")],
     ["suggestions, records and transformations"])
prop("C27", "Constraint penalties, box repair and partial arguments equal their definitions",
     "The penalty of a point is zero exactly if every equality value is within its tolerance and every inequality value is at most zero; otherwise it equals (C*t)^alpha times the sum of the violating equality magnitudes and of the violated inequality values to the power beta, summed over all components, positive when minimizing and negative when maximizing, hence growing with the iteration number, the same for a point alone or in a batch, and failures of constraint functions are raised. Box repair maps any point into the box by reflection at the sides, leaves inner points and coordinates with infinite sides alone, and a function with fixed arguments is evaluated at exactly the completed point, returning the gradient entries of the free variables only.",
     ["inputs"], "all points, constraint functions, iteration numbers and exponents, boxes, fixed subsets",
     "None of these helpers has a test.",
     [B+"utils/utils.py"], [("dynamic_penalty, handle_box_constraint, partial_argument, set_bounds", B+"utils/utils.py")],
     ["returned penalties, repaired points, completed arguments"])
prop("C28", "Inner searches make progress and keep reaching the whole space",
     "On smooth landscapes, minimized or maximized, with and without elitism, constraints and restarts, the evolution strategies and the restarted searches end at points clearly better than random feasible points, the later part of an evolution-strategy search is better than random points, feasible points are found if a good part of the space is feasible, optima at the sides of the box as well as inside are approached, every restart is a search of its own from a new random point that makes progress, restarts are given up only when the budget, their number or the patience is used up, and every level of a categorical, ordinal or Boolean variable keeps being tried by the mixed-integer search.",
     ["inputs", "configurations", "schedules"], "all landscapes, spaces, directions, random seeds",
     "Tests only run the optimizers to termination.",
     [B+"acquisition/optim/mies.py", B+"acquisition/optim/one_plus_one_cma_es.py", B+"acquisition/optim/__init__.py"], [("selection, mutation, step-size adaptation", B+"acquisition/optim")],
     ["sequence of evaluated values over independent searches"])
prop("C29", "Equivalent formulations of a problem give the same optimization",
     "Two optimizations from the same seed make the same suggestions and recommend the same point if one of them has the objective in another unit (scaled by a power of two, however small or large), the variables under other names, points as dictionaries instead of lists, run() instead of the ask/tell loop, or logging, data file and console output switched on; for several objectives likewise (each in its own unit), and negating objectives together with their directions leaves the recommended front as it is.",
     ["configurations", "histories"], "all optimizers, spaces, objectives, units, names and run modes",
     "Tests run one formulation of each problem.",
     [B+"base.py", B+"_base.py", B+"extension.py"], [("update_model, ask, tell, run, logging", B+"base.py")],
     ["traces of suggestions and incumbents of the twin runs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
