"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SOLV = ["src/solver/solver.cpp", "include/solver/solver.h"]
SEARCH = SOLV + ["src/solver/terminal_solver.cpp", "src/solver/cost_storage.cpp", "src/solver/cost_combiner.cpp", "src/solver/counter.cpp",
          "src/solver/cache.cpp", "src/solver/branch_cache.cpp", "src/solver/dataset_cache.cpp", "src/solver/similarity_lowerbound.cpp",
          "src/solver/data_splitter.cpp", "include/solver/optimization_utils.h"]
SMECH = [("recursive search with bounds", "src/solver/solver.cpp SolveSubTreeGeneralCase"),
         ("depth-two solver", "src/solver/terminal_solver.cpp"), ("caches", "src/solver/cache.cpp, branch_cache.cpp, dataset_cache.cpp"),
         ("bounds", "src/solver/solver.cpp ComputeLowerBound/SubtractUBs, similarity_lowerbound.cpp")]
FIT = ["fit() result: fitted tree, feasibility flag, reported score"]
WHYOPT = "The one test program fixes one seed, a handful of benchmark files and the default search options, and compares only a scalar against a recorded number; it cannot range over data sets, depth/node/leaf-size limits and search options, nor compare with an independent optimum."

prop("P01", "Accuracy trees make the fewest possible training mistakes",
 "A tree fitted with the accuracy objective that is reported as optimal makes the minimum number of training misclassifications among all trees within the requested depth, number of branching nodes and minimum leaf size. A feasible fit is reported exactly when at least one such tree exists.",
 ["inputs", "configurations"], "All binary-feature data sets with any number of classes, all depth/node/leaf-size limits, all search options.", WHYOPT,
 SEARCH + ["src/tasks/accuracy/accuracy.cpp"], SMECH, FIT)
prop("P02", "Cost-complex accuracy trees minimise error plus size penalty",
 "A tree fitted with the cost-complex-accuracy objective and reported as optimal minimises (training misclassifications / number of training instances) + cost_complexity x (number of branching nodes) over all trees within the depth and leaf-size limits.",
 ["inputs", "configurations"], "All binary data sets, all cost_complexity values, depth and leaf-size limits, all search options including the task's own lower bound.", WHYOPT,
 SEARCH + ["src/tasks/accuracy/cost_complex_accuracy.cpp"], SMECH + [("equivalent-points lower bound", "src/tasks/accuracy/cost_complex_accuracy.cpp")], FIT)
prop("P03", "Regression trees minimise squared error (plus size penalty)",
 "A tree fitted with the regression objective minimises the training sum of squared errors over all trees within the depth, node and leaf-size limits, and with cost-complex-regression it minimises that sum plus cost_complexity x (total sum of squares around the mean) per branching node. Every leaf predicts the mean target of the training instances that reach it.",
 ["inputs", "configurations"], "All binary data sets with real targets (including repeated feature vectors), all limits, penalties, bounds and search options.", WHYOPT,
 SEARCH + ["src/tasks/regression/regression.cpp", "src/tasks/regression/cost_complex_regression.cpp", "src/tasks/regression/ckmeans/Ckmeans.1d.dp.cpp"],
 SMECH + [("merging of equal feature vectors into weighted instances and k-means bound", "src/tasks/regression/cost_complex_regression.cpp")], FIT)
prop("P04", "Cost-sensitive trees minimise misclassification plus test costs",
 "A tree fitted with the cost-sensitive objective minimises the total of the misclassification costs of the training instances and the costs of the feature tests those instances undergo, where a test is free when the same original feature was tested earlier on the path, and discounted when another feature of its group was. The optimum is over all trees within the depth, node and leaf-size limits.",
 ["inputs", "configurations"], "All data sets, cost matrices, feature costs, groupings and discounts, limits and supported search options.", WHYOPT,
 SEARCH + ["src/tasks/cost_sensitive.cpp", "include/tasks/cost_sensitive.h", "pystreed/cost_sensitive_classification.py"],
 SMECH + [("path dependent test costs", "src/tasks/cost_sensitive.cpp")], FIT)
prop("P05", "Instance-cost and policy trees choose minimum total cost labels",
 "A tree fitted with the instance-cost-sensitive objective minimises the sum, over training instances, of the cost that instance attaches to the label it receives; a prescriptive policy tree maximises the summed estimated outcome of the prescribed treatments under the selected teacher method (direct, inverse propensity weighting or doubly robust). Both optima are over all trees within the depth, node and leaf-size limits.",
 ["inputs", "configurations"], "All cost vectors, outcomes, propensities and predictions, all three teacher methods, limits and search options.", WHYOPT,
 SEARCH + ["src/tasks/instance_cost_sensitive.cpp", "src/tasks/prescriptive_policy.cpp", "pystreed/prescriptive_policy_generation.py", "pystreed/instance_cost_sensitive_classification.py"],
 SMECH, FIT)
prop("P06", "Survival trees minimise the proportional-hazards loss",
 "A fitted survival tree minimises the training negative log-likelihood loss (relative to the saturated model) of a full-likelihood tree whose leaves scale the Nelson-Aalen baseline hazard of the training data, over all trees within the depth, node and leaf-size limits. Each leaf's factor is observed events (one half if none) divided by expected events.",
 ["inputs", "configurations"], "All censored and uncensored data sets, ties, limits and search options.", WHYOPT,
 SEARCH + ["src/tasks/survival_analysis.cpp", "pystreed/survival_analysis.py"], SMECH + [("hazard estimation and leaf factor", "src/tasks/survival_analysis.cpp")], FIT)
prop("P07", "F1 trees reach the highest attainable training F1 score",
 "A tree fitted with the f1-score objective attains the maximum training F1 score among all trees within the depth, node and leaf-size limits.",
 ["inputs", "configurations"], "All binary classification data sets, limits and search options; the search keeps sets of incomparable partial solutions.", WHYOPT,
 SEARCH + ["src/tasks/f1score.cpp", "include/model/container.h"], SMECH + [("Pareto front containers and merging", "include/model/container.h, src/solver/solver.cpp Merge")], FIT)
prop("P08", "Fair trees respect the discrimination limit and are the best such trees",
 "A tree fitted for group fairness (demographic parity) or equality of opportunity has training discrimination at most the requested limit and, among all trees within the depth, node and leaf-size limits that satisfy the limit and never test the sensitive feature, makes the fewest training mistakes. If a single-label tree meets the leaf-size limit, the fit is feasible.",
 ["inputs", "configurations"], "All data sets with two groups, all limits and search options.", WHYOPT,
 SEARCH + ["src/tasks/group_fairness.cpp", "src/tasks/eq_opp.cpp", "include/model/container.h", "pystreed/group_fair.py"],
 SMECH + [("constraint check and root relaxation", "src/tasks/group_fairness.cpp, src/tasks/eq_opp.cpp")], FIT)
prop("P09", "Linear-leaf regression trees are optimal for the elastic-net leaf models",
 "A tree fitted with the piecewise-linear or simple-linear regression objective minimises training squared error plus coefficient penalties plus cost_complexity x (total sum of squares) per branching node, over all trees within the depth and leaf-size limits, up to the convergence tolerance of the leaf fits. Leaf predictions evaluate the exposed intercept and coefficients on the instance's continuous features.",
 ["inputs", "configurations"], "All data sets with continuous leaf features, penalties, limits and search options.", WHYOPT,
 SOLV + ["src/tasks/regression/piecewise_linear_regression.cpp", "src/tasks/regression/piecewise_simple_linear_regression.cpp", "pystreed/regression.py"],
 [("leaf model fitting", "src/tasks/regression/*linear_regression.cpp")], FIT + ["leaf models, predict()"])
prop("P10", "Fitted trees obey every requested structural limit",
 "Every fitted tree has depth at most max_depth, at most max_num_nodes branching nodes and at least min_leaf_node_size training instances in every leaf, repeats no feature on a path, and tests only existing features (never the sensitive one). The reported depth, node count and leaf count are those of the returned tree.",
 ["inputs", "configurations", "fault_sequences"], "All tasks, data sets, limits and search options, including searches cut off by the time limit and trees chosen by hyper-tuning.",
 "The test never inspects the returned tree.", SEARCH + ["include/solver/tree.h", "pystreed/base.py"],
 [("leaf-size checks", "src/solver/solver.cpp SatisfiesMinimumLeafNodeSize, src/solver/terminal_solver.cpp"), ("node budget distribution", "src/solver/solver.cpp"), ("tree reconstruction", "src/solver/solver.cpp ConstructOptimalTree")],
 ["returned tree, tree_depth(), tree_nodes(), get_n_leaves(), get_depth()"])
prop("P11", "Search options never change the quality of the result",
 "For fixed data, objective and limits, the objective value of the returned tree is the same for every choice of caching strategy, bound usage, depth-two solver usage, feature ordering, size-ordered search, supplied lower-bound method, column order and row order.",
 ["configurations", "inputs"], "All combinations of the documented performance options and presentation orders of the data.",
 "The tests run one option set per task; disagreement between options only shows on particular data.", SEARCH + ["src/solver/feature_selector_gini.cpp", "src/solver/define_parameters.cpp"], SMECH,
 ["fit() results under different option sets"])
prop("P12", "Reported scores are the returned tree's true scores",
 "The training score of a fit and the score computed for any data set equal the objective's documented metric recomputed from the returned tree and that data set. The reported question length equals the average number of nodes, the leaf included, on the root-to-leaf paths of the instances.",
 ["inputs", "configurations", "histories"], "All tasks, training sets, evaluation sets (including sets with missing classes and unseen feature combinations) and sequences of evaluations.",
 "Tests only look at the training objective, never at a test score or path length.", ["src/solver/result.cpp", "include/solver/result.h", "include/solver/tree.h", "src/solver/solver.cpp", "src/bindings.cpp", "src/tasks"],
 [("test leaf costs and score conversion", "include/solver/result.h, include/solver/tree.h, src/tasks/*")], ["fit_result.score(), score(), get_question_length()"])
prop("P13", "Predictions are what the returned tree says, in any call order",
 "The prediction for an instance is the label (or leaf model value) of the leaf it reaches by following the returned tree, taking the second branch exactly when the tested feature holds, and depends only on that instance's features and the fit. This holds for any sequence of predict and score calls, batch sizes and batch contents, and likewise the survival and cumulative hazard curves of survival trees follow from the leaf's hazard factor and the Nelson-Aalen baseline of the training data.",
 ["histories", "inputs"], "All tasks and all sequences of prediction and scoring calls on one fitted model.",
 "No test calls predict at all; state kept between calls is only exercised by sequences.", ["src/bindings.cpp", "src/solver/solver.cpp", "include/solver/tree.h", "src/model/data.cpp", "pystreed/base.py"],
 [("test-data reuse check", "src/solver/solver.cpp InitializeTest, src/model/data.cpp operator=="), ("feature flipping and unflipping", "src/solver/solver.cpp PreprocessData, include/solver/tree.h FlipFlippedFeatures")],
 ["predict(), tree accessors"], state=[("last test data", "the data view of the previous evaluation call", "include/solver/solver.h org_test_data")])
prop("P14", "A time limit never yields an untrue or malformed result",
 "Whenever the time limit expires during a fit, the result is either reported as infeasible or is a tree that satisfies all structural limits and constraints and whose reported score is its true score. Only a fit whose tree attains the optimum is reported as optimal.",
 ["fault_sequences", "inputs", "configurations"], "Every point during the search at which the clock may pass the limit, for all tasks and options.",
 "Tests never hit the limit; expiry points cannot be chosen with a wall clock.", SOLV + ["include/utils/stopwatch.h", "src/solver/terminal_solver.cpp"],
 [("expiry polls and is_proven_optimal", "src/solver/solver.cpp Solve")], ["fit() results with expiry injected at the k-th clock query"],
 state=[("stopwatch", "start time and limit", "include/utils/stopwatch.h")])
prop("P15", "A supplied upper bound only filters results",
 "With a user supplied upper bound, a fit returns an optimal tree exactly when some tree within the limits has objective value not above the bound; otherwise it reports that no feasible tree was found. Trees worse than the bound are never returned.",
 ["inputs", "configurations"], "All objectives with a numeric value, all bound values around the optimum, all limits and options.",
 "Tests never set the parameter.", SOLV + ["src/solver/define_parameters.cpp"], [("global upper bound", "src/solver/solver.cpp Solve")], FIT)
prop("P16", "Hyper-tuning returns the optimal tree for the best validated setting",
 "With hyper-tuning on, the selected setting is one of the candidate settings within the user's limits, no candidate has a better average validation score over the folds (each fold scored by a tree trained without it), and the returned tree is optimal for the full training data under the selected setting. The data used for the final fit is exactly the user's data.",
 ["inputs", "configurations", "histories"], "All tasks, data sets, limits and seeds.",
 "Tests never enable hyper-tuning.", SOLV + ["src/tasks/optimization_task.cpp", "include/tasks/optimization_task.h", "src/model/data.cpp", "include/solver/tuning.h"],
 [("k-fold loop and selection", "src/solver/solver.cpp HyperSolve"), ("candidate settings", "include/tasks/*.h GetTuneRunConfiguration")],
 ["fit() result and selected solver parameters"])
prop("P17", "Every fit is independent of what happened before",
 "The result of fitting depends only on the training data, the parameters and the random seed: refitting the same or another estimator after any sequence of fits (successful, infeasible or timed out), predictions and parameter changes gives the same objective value as a fresh estimator, and repeating a fit reproduces the same tree. Fitting, predicting and scoring leave the caller's arrays and frames unchanged.",
 ["histories", "inputs", "configurations"], "All sequences of estimator operations over several estimators in one process.",
 "Tests create one solver per case.", SOLV + ["src/bindings.cpp", "pystreed", "src/tasks", "src/model/data.cpp"],
 [("solver re-initialisation", "src/solver/solver.cpp InitializeSolver, ResetCache"), ("estimator re-initialisation", "pystreed/base.py fit")], ["fit/predict/score sequences"],
 state=[("solver caches and task state", "results kept from earlier solves", "include/solver/solver.h, include/tasks/*.h")])
prop("P18", "Binarisation encodes the documented predicates",
 "For numeric columns each generated feature holds exactly when the value is at most its named threshold, with at most n_thresholds distinct thresholds per column chosen by the documented strategy; for categorical columns the n_categories-1 most common categories get their own feature and the remaining categories share one. Lists of sizes apply to the columns of their kind in order; a list that does not fit them is rejected. Transforming new data uses the training thresholds and categories, keeps row order, and already-binary columns pass through unchanged.",
 ["inputs", "configurations"], "All mixes of binary, numeric and categorical columns, arrays and frames, strategies and sizes, on training and new data.",
 "There is no test of the Python layer.", ["pystreed/binarizer.py", "pystreed/base.py"],
 [("column typing, thresholds and categories", "pystreed/binarizer.py")], ["feature names, trees and predictions of estimators fitted on raw data; binarizer transform"])
prop("P19", "Subproblem answers and lower bounds stay sound over any call history",
 "On one solver, any sequence of subproblem queries (branch, depth, node budget, upper bound) answers with the subproblem's optimum whenever that is below the given upper bound and never with a value below the optimum or a value no tree attains, also after queries that the time limit interrupted. Any lower bound reported for a subproblem is at most its optimum.",
 ["histories", "inputs", "configurations"], "All sequences of queries with varying branches, budgets and upper bounds against one shared cache state, for each task and option set.",
 "Tests only issue the one query sequence a default fit produces.", SEARCH, SMECH, ["public solver class: sub-tree solve and lower-bound queries"],
 state=[("cache", "optimal solutions and lower bounds per subproblem", "include/solver/cache.h"), ("similarity archive", "recent data sets per depth", "include/solver/similarity_lowerbound.h")])
prop("P20", "Estimator life cycle and input errors are well behaved",
 "Using an estimator that has no current successful fit raises the not-fitted error; an infeasible fit warns and leaves the estimator unfitted; out-of-range parameters and malformed data raise a Python exception. No sequence of public calls terminates the interpreter, and a failed call leaves the estimator usable for a later fit.",
 ["histories", "inputs", "configurations"], "All sequences of constructor, parameter change, fit, predict, score and inspection calls with valid and invalid arguments.",
 "There is no test of the Python layer.", ["pystreed", "src/bindings.cpp", "src/utils/parameter_handler.cpp"],
 [("fitted-state checks", "pystreed/base.py"), ("parameter validation", "pystreed/base.py, src/utils/parameter_handler.cpp")], ["Python API"])
prop("P21", "Tree exports and class probabilities describe the fitted tree",
 "The printed tree, the exported dot file and the string of the tree contain exactly the branching predicates, branch directions and leaf labels of the fitted tree, with the supplied names; sizes, best labels and average costs shown at branching nodes are those of the training instances that reach them. Predicted class probabilities are the training class frequencies of the leaf an instance reaches.",
 ["inputs", "configurations"], "All fitted trees, with and without feature and label names.",
 "There is no test of the Python layer.", ["pystreed/base.py", "pystreed/classification.py", "pystreed/utils.py", "include/solver/tree.h"],
 [("recursive printing", "pystreed/base.py"), ("leaf frequencies", "pystreed/classification.py predict_proba")], ["print_tree(), export_dot(), predict_proba()"])
prop("P22", "Command-line runs on files agree with the data in the files",
 "Running the command-line program on a data file uses exactly the instances, labels and extra columns in the file (limited to the requested numbers of features and instances), and reports an optimal tree for that data together with its true training and test scores. A train/test split partitions the instances into disjoint sets of the requested sizes.",
 ["inputs", "configurations"], "All data files in the documented format, for all tasks and reading/splitting options.",
 "The test program reads fixed benchmark files and checks one scalar per task.", ["src/main.cpp", "src/utils/file_reader.cpp", "include/utils/file_reader.h", "src/model/data.cpp", "src/solver/define_parameters.cpp"],
 [("file parsing", "src/utils/file_reader.cpp"), ("splitting", "src/model/data.cpp")], ["program output"])
pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
import re
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    n = len(re.findall(r"[.](\s|$)", p["statement"])); assert n <= 3, (p["id"], n)
    for f in p["anchors"]["files"]:
        assert pathlib.Path("/repo", f).exists(), f
print(len(P))
