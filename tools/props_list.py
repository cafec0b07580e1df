prop("C01", "A run follows the boosting protocol",
     "Running a booster prepares it exactly once, then performs rounds numbered 1, 2, 3, ... without gap or repetition until the first round that asks to stop, and "
     "then performs the final step exactly once and returns its result. Every round gets the weak learner supplied by the caller, and an observed run (research logger) "
     "performs the same sequence of preparation, rounds and final step and returns the same combined hypothesis.",
     ["histories", "programs"], "every booster, every weak learner, every number of rounds at which a stop is requested, with or without logging",
     TESTS + "no sequence of rounds is observed at all, and a booster supplied by a user cannot be sampled.",
     ["src/booster/core.rs", "src/research/logger.rs"],
     [("provided run method of the booster trait", "src/booster/core.rs: Booster::run"), ("observed run", "src/research/logger.rs: Logger::run")],
     technique="event-order analysis on the typed IR (effects of the drivers, inlined helpers, loop recurrences)")

prop("C02", "Reweighting boosters apply the published update",
     "After a round of AdaBoost, AdaBoostV, MadaBoost or SmoothBoost the weight of the new hypothesis and the example weights used in the next round are the closed-form "
     "functions of the labels, the new hypothesis' predictions and the previous state that the published algorithm prescribes, the example weights being renormalised to sum to one; the "
     "first round uses the uniform distribution. A hypothesis with perfect weighted edge ends the run as the algorithm's single (signed) member, and the weak learner and the edge use the same distribution.",
     ["inputs", "histories"], "every binary sample, every sequence of hypotheses the weak learner returns, every parameter value",
     TESTS + "no update is compared with its formula for any input.",
     [B + "adaboost/adaboost_algorithm.rs", B + "adaboostv/adaboostv_algorithm.rs", B + "madaboost/madaboost_algorithm.rs", B + "smoothboost/smoothboost_algorithm.rs"],
     [("round functions and their private helpers", "boost / update_params in the four files"), ("edge and margin helpers", "src/common/utils.rs")],
     observe=["the distribution handed to the weak learner", "the weights of the combined hypothesis"])

prop("C03", "A run does not depend on earlier runs of the same booster",
     "Preparing a booster for a run resets everything the rounds, the final step and the observation between rounds read: a second run of the same object on the same sample gives the same "
     "sequence of distributions, hypotheses and weights and the same result as a fresh object with the same configuration. The cached size and iteration limit are derived again from the sample and the current configuration.",
     ["histories"], "every sequence of configuration calls and runs on one booster object, whether an earlier run finished or was cut short",
     TESTS + "no test runs one booster twice.",
     [B + "*/*_algorithm.rs", B + "gradient_boost/gbm.rs"],
     [("preprocess of each booster", B), ("per-run state fields", "struct definitions of each booster")],
     technique="effect analysis (read/write sets of state fields, must-overwrite before read) on the typed IR")

prop("C04", "The combined hypothesis holds the produced hypotheses with their weights",
     "The result of a run consists of exactly the hypotheses the weak learner produced in that run, in order, each paired with the weight computed for it (normalised as documented, and for gradient boosting the raw coefficients), "
     "with non-contributing hypotheses left out only when their weight is zero. The combined hypothesis observed between rounds is built from the state by the same rule as the final one, and every produced hypothesis is "
     "recorded together with a weight.",
     ["inputs", "histories"], "every booster, sample, weak learner and stopping round",
     TESTS + "the pairing of weights and hypotheses is never checked.",
     [B, "src/hypothesis/weighted_majority.rs", "src/hypothesis/naive_aggregation.rs"],
     [("postprocess and current_hypothesis of each booster", B), ("constructors of the combined hypotheses", "src/hypothesis/")])

prop("C05", "The documented round limit ends a run",
     "Every booster with an iteration bound derives, when it is prepared, a limit that is the documented bound for the sample size and the configured accuracy (or the caller's own limit where it can be set), never asks the weak learner for a hypothesis "
     "in a round beyond it, and stops there; the round at which the run stopped, where it is recorded, is the round that stopped it.",
     ["inputs", "histories"], "every booster, sample size, accuracy parameter, weak learner and round",
     TESTS + "no test runs to a limit.",
     [B + "*/*_algorithm.rs", B + "gradient_boost/gbm.rs"],
     [("limit computation in preprocess and the entry of each round", "preprocess / boost of each booster")],
     technique="guard and value analysis on the typed IR (path condition of the weak-learner call against the stored limit)")

prop("C06", "Inadmissible configurations and samples are rejected, admissible ones are not",
     "Each configuration method or preparation step that documents a range refuses exactly the values outside it: margin guesses outside [0, 1/2), capping parameters outside [1, n], depths of zero, split ratios outside (0, 1), "
     "tolerances that make no sense. Preparing a booster for binary classification refuses exactly the samples without a target, with non-integral targets or with other than two distinct labels.",
     ["inputs", "configurations"], "every parameter value and every sample",
     TESTS + "no rejection is tested.",
     [B, "src/weak_learner/", "src/sample/", "src/research/"],
     [("checking helpers", "src/common/checker.rs"), ("assertions in setters and preprocess", B)],
     technique="panic-condition analysis on the typed IR (disjunction of the conditions of every abort reachable from the method)")

prop("C07", "Rounds of the LP/QP boosters follow the published algorithms",
     "In each round of LPBoost, ERLPBoost, SoftBoost, TotalBoost, MLPBoost and CERLPBoost the upper estimate of the edge is the least edge seen, the termination test compares it with the published lower estimate and tolerance, "
     "the run ends exactly when that test or a documented failure of the step says so, and the weights and the next distribution come from the published subproblem, projection or Frank-Wolfe step applied to all hypotheses so far. The weak learner is always given the "
     "current distribution, and running into the round limit ends the run.",
     ["inputs", "histories"], "every binary sample, weak learner, tolerance, capping parameter and round",
     TESTS + "the termination test and the order of the steps are never observed.",
     [B + x for x in ("lpboost/lpboost_algorithm.rs", "erlpboost/erlpboost_algorithm.rs", "softboost/softboost_algorithm.rs", "totalboost/totalboost_algorithm.rs", "mlpboost/mlpboost_algorithm.rs", "cerlpboost/cerlpboost_algorithm.rs")],
     [("round functions", "boost and helpers in the listed files")])

prop("C23", "Losses, activations and gradients match their definitions",
     "The gradient and Hessian statistics of the regression losses are the derivatives of the loss, the loss value is its definition, and the coefficient chosen for a hypothesis minimises the loss along it. The network's activation functions, "
     "their derivatives, its losses and their gradients, its label encodings and its conversion of outputs to a prediction or confidence match their mathematical definitions.",
     ["inputs"], "all predictions, targets, weights and network outputs",
     TESTS + "a derivative that is wrong for some argument range cannot be seen by a sample of points.",
     ["src/common/loss_functions.rs", "src/weak_learner/neural_network/activation.rs", "src/weak_learner/neural_network/nn_loss.rs", "src/weak_learner/neural_network/nn_hypothesis.rs"],
     [("loss type", "src/common/loss_functions.rs: GBMLoss"), ("activations", "activation.rs"), ("network losses", "nn_loss.rs")])

prop("C25", "Edges, margins and combined predictions match their definitions",
     "Edge, margin and distribution helpers compute their defining formulas: margins are label times confidence, edges their weighted sums, exponential weights are normalised, entropies relative to uniform, and projection yields the capped-simplex distribution of "
     "the published sorting procedure. A weighted majority's confidence is the weighted sum of its members' confidences and its label the sign of it, with non-negative sums meaning +1; building one from lists drops only zero weights and normalisation divides by the sum of absolute values.",
     ["inputs"], "all distributions, samples, hypotheses, weights and capping parameters",
     TESTS + "the helpers are exercised by no stable test.",
     ["src/common/utils.rs", "src/hypothesis/weighted_majority.rs", "src/hypothesis/hypothesis_traits.rs", "src/hypothesis/naive_aggregation.rs"],
     [("helpers", "src/common/utils.rs"), ("combined hypotheses", "src/hypothesis/")])

prop("C27", "The research log records every round truthfully",
     "An observed run writes one record per round, whose columns are, in the order of the header, the objective value on the training sample, the training loss, the test loss of the combined hypothesis of that round, and the accumulated time. "
     "Configuration given to the logger builder reaches the logger, the time limit ends the run after the round that exceeds it, and the printed round interval does not change what is recorded.",
     ["histories", "configurations"], "every booster, sample pair, loss, print interval, time limit and number of rounds",
     TESTS + "the logger is not exercised.",
     ["src/research/logger.rs", "src/research/logger_builder.rs"],
     [("observed run and record writer", "src/research/logger.rs"), ("builder", "src/research/logger_builder.rs")],
     technique="event-order and argument-provenance analysis on the typed IR")

prop("C28", "Configuration methods take effect and touch nothing else",
     "Every public configuration method of boosters, weak-learner builders, loggers, cross validation and sample readers stores the documented value for its argument, leaves every other setting as it was, and the last call wins whatever the order of calls. "
     "Defaults of a new object are the documented ones, and the parameters reported by a booster are the configured ones.",
     ["configurations"], "all orders and repetitions of configuration calls with any accepted argument",
     TESTS + "the space of call orders is unbounded and untested.",
     [B, "src/weak_learner/", "src/research/", "src/sample/sample_reader.rs"],
     [("setters, constructors, info", "impl blocks of the listed types")],
     technique="field-effect analysis on the typed IR (object returned by each setter compared field by field with the receiver)")

prop("C29", "Objective functions evaluate their definition",
     "The exponential loss objective is the mean exponential of minus the label times the predicted label, the hard-margin objective the smallest margin, and the soft-margin objective the smallest margin average over distributions capped by 1/nu. All are evaluated on the sample and hypothesis they are given.",
     ["inputs"], "all samples, hypotheses and capping parameters",
     TESTS + "no objective is evaluated.",
     ["src/research/objective_functions.rs"],
     [("objective implementations", "src/research/objective_functions.rs")])

prop("C08", "The programs handed to the solver are the published ones",
     "The linear and quadratic programs solved by LPBoost, ERLPBoost, SoftBoost and MLPBoost have the published objective, the margin, sum-to-one, capping and nonnegativity constraints over all examples and all hypotheses so far, "
     "and the capping value of the caller. The hypothesis weights, the distribution and the edge are read from the parts of the primal and dual solution that stand for them, also after any number of rounds; the sequential programs "
     "start at the documented point, linearise at the last distribution and stop when the objective no longer improves.",
     ["inputs", "histories"], "every sample size, number of hypotheses, margin matrix, capping and regularisation parameter",
     TESTS + "an index that is off in one block of a constraint matrix only shows for some sizes and optima.",
     [B + "lpboost/lp_model.rs", B + "erlpboost/qp_model.rs", B + "softboost/qp_model.rs", B + "mlpboost/perturbed_lp_model.rs"],
     [("model builders", "init / update / build_* in the listed files")],
     technique="symbolic evaluation of the matrix builders on the typed IR for symbolic sizes (append loops as closed-form sequences)")

prop("C21", "Frank-Wolfe steps compute the published step and keep a convex combination",
     "The secondary update of MLPBoost and the update of CERLPBoost move the weights towards the new hypothesis (or, in the pairwise rule, from the worst to the best member) by the published step size of the configured rule: "
     "2/(k+1), the clipped short step, or a line search on the smoothed objective that halves the interval on the sign of the directional derivative. The result is a convex combination again, and the pairwise rule never makes a weight negative.",
     ["inputs"], "every sample, list of hypotheses, current weights, round, eta and nu, for each of the four step rules",
     TESTS + "no step rule is executed.",
     ["src/common/frank_wolfe.rs"],
     [("step rules", "src/common/frank_wolfe.rs: FrankWolfe::next_iterate and private helpers")],
     technique="value-graph analysis with partial evaluation on the step rule; loop-recurrence matching for the bisections")

prop("C26", "Gradient boosting fits residuals and keeps the running prediction",
     "In each round of gradient boosting the weak learner gets the running prediction of the combined hypothesis on the training sample, the coefficient of the new hypothesis is the one the loss computes for the residuals (target minus running prediction) "
     "along the new hypothesis, and the running prediction moves by coefficient times the new hypothesis' predictions. A zero coefficient ends the run without recording the hypothesis; the running prediction starts at zero.",
     ["inputs", "histories"], "every sample, loss, weak learner and round",
     TESTS + "the running prediction is never compared with the combined hypothesis.",
     [B + "gradient_boost/gbm.rs"], [("round", B + "gradient_boost/gbm.rs: boost / preprocess")])

prop("C15", "Column statistics are those of the full column",
     "A feature column answers the same whether it is stored densely or sparsely: reading row i gives the stored value, or zero for an absent row; the weighted mean and variance, overall and restricted to one label, are the weighted moments "
     "over all rows with absent rows counted as zeros carrying their weight; the number of distinct values counts a value of zero for absent rows; a column turned into targets lists the value of every row in order; appending keeps row order. "
     "Asking a column in one form is answered by that form.",
     ["inputs"], "every column, weight vector, label vector and row index, in either storage form",
     TESTS + "no statistic is compared with its definition, and sparse and dense storage are never compared.",
     ["src/sample/feature_struct.rs"],
     [("dense and sparse columns", "src/sample/feature_struct.rs: DenseFeature, SparseFeature"), ("dispatch", "src/sample/feature_struct.rs: Feature")])

prop("C13", "Splits of decision trees optimise the configured criterion",
     "For every feature and every criterion (edge, entropy, Gini, twoing) the split search looks at every boundary between bins, scores it with the published criterion on the label weights left and right of the boundary "
     "(each candidate with the weights that are really on its sides), and returns the best score with the threshold at which it is reached. Among features the best one is chosen, in the direction (maximise or minimise) of the criterion. "
     "The criterion configured on the builder is the one used.",
     ["inputs"], "all weight distributions over bins and labels, any number of bins, labels and features",
     TESTS + "no criterion is evaluated.",
     ["src/weak_learner/decision_tree/criterion.rs", "src/weak_learner/decision_tree/"],
     [("split search", "src/weak_learner/decision_tree/criterion.rs: Criterion::best_split and the private split functions")],
     technique="recurrence analysis of loops on the typed IR (one-step values of two open accumulators against the criterion's definition)")

prop("C14", "Splits and leaves of regression trees follow the second-order gain",
     "The split search of regression trees looks at every boundary between bins, scores it with the second-order gain of gradient and hessian sums on both sides under the configured regularisation, and returns the best threshold; "
     "among features the best score wins. A leaf's prediction is the minimiser of the regularised second-order approximation (gradient sum over hessian sum plus lambda) and its loss value the matching minimum.",
     ["inputs"], "all gradients, hessians, regularisation parameters, numbers of bins and features",
     TESTS + "no regression tree is built.",
     ["src/weak_learner/regression_tree/"],
     [("gain scan and leaf formulas", "src/weak_learner/regression_tree/")],
     technique="recurrence analysis of loops and value-graph comparison on the typed IR")

prop("C12", "Binning covers every value and conserves weight",
     "Cutting a column gives adjacent, non-empty bins of equal width between its smallest and largest value (implicit zeros of sparse columns included), the first open to the left and the last to the right, as many as configured for that column. "
     "Packing adds each row of the node exactly once, to the bin that contains its value (start included, end excluded), under its label or as gradient and hessian. Merging bins without weight keeps the bins adjacent, puts the edge in the middle of the gap, "
     "keeps the weights of every other bin (decision trees: divided by the total weight) and never loses the first or last bin.",
     ["inputs"], "all columns, dense or sparse, numbers of bins, subsets of rows, weights and labels",
     TESTS + "no tree is built.",
     ["src/weak_learner/decision_tree/bin.rs", "src/weak_learner/regression_tree/bin.rs", "src/weak_learner/decision_tree/builder.rs", "src/weak_learner/regression_tree/builder.rs"],
     [("binning", "Bins::cut, Bins::pack and the merging of empty bins in both bin.rs"), ("bins per column", "build() of both tree builders")],
     technique="closed forms of sequence builders and loop recurrences on the typed IR, with case analysis on the position of a bin")

T = "src/weak_learner/"
prop("C10", "Trees grow within their limits and leaves carry what their rows say",
     "A tree node becomes a leaf exactly when nothing is left to learn (decision tree: no training loss; regression tree: all gradients zero), the depth is used up, or the best split leaves one side empty; otherwise it becomes a branch "
     "whose children are grown on exactly the rows each side of its own split receives, with one level of depth less. A leaf predicts the weighted majority label (decision tree) or the second-order optimum (regression tree) of the rows it got. "
     "The root starts from every row that carries weight (decision tree) or every row, with gradients and hessians of the configured loss at the given predictions. Pruning only ever replaces a branch by a leaf with that branch's own values.",
     ["inputs"], "every sample, distribution or vector of predictions, depth, criterion, loss and regularisation",
     TESTS + "no tree is grown.",
     [T + "decision_tree/decision_tree_algorithm.rs", T + "decision_tree/train_node.rs", T + "regression_tree/regression_tree_algorithm.rs", T + "regression_tree/train_node.rs"],
     [("growth and leaves", "produce / full_tree and the train_node constructors"), ("pruning", T + "decision_tree/train_node.rs")],
     technique="value-graph analysis of recursive constructors on the typed IR, case split over leaf and branch")

prop("C11", "A trained tree answers by following its split rules",
     "Predicting with a decision or regression tree walks from the root: at a branch the row goes left exactly when its value of the branch's feature is below the threshold, else right, and the answer is the prediction of the leaf reached. "
     "The rule, threshold, children and prediction chosen in training are the ones in the trained tree: the conversion from training nodes to the final tree changes nothing.",
     ["inputs"], "every tree, sample and row",
     TESTS + "no tree is grown or asked.",
     [T + "common/split_rule.rs", T + "decision_tree/node.rs", T + "regression_tree/node.rs", T + "decision_tree/decision_tree_classifier.rs", T + "regression_tree/regression_tree_regressor.rs"],
     [("walk", "Classifier / Regressor of the node types"), ("split rule", "Splitter::split")],
     technique="value-graph analysis of recursive functions on the typed IR, case split over leaf and branch")

prop("C32", "The exported drawing of a tree is the tree",
     "Writing a decision or regression tree to a DOT file writes a complete graph: a head, one node statement per leaf or branch with its own number and label (prediction, or feature and threshold), one edge from every branch to each of its two children "
     "marked with the side it stands for, and a tail. Numbers are unique within the file.",
     ["inputs"], "every tree",
     TESTS + "no tree is exported.",
     [T + "decision_tree/node.rs", T + "regression_tree/node.rs", T + "decision_tree/decision_tree_classifier.rs", T + "regression_tree/regression_tree_regressor.rs"],
     [("dot export", "to_dot_info, to_dot_file")],
     technique="value-graph analysis of format templates and written text on the typed IR")

prop("C16", "A sample's names, columns, counts and labels always agree",
     "Whatever is done to a sample - built from a data frame or as a dummy, choosing the label column, renaming columns, dropping empty ones, appending rows, splitting into two parts - its name index maps every column name to that column, "
     "its row and column counts are those of the data, every row keeps its own values and its own label together, and untouched columns and rows stay as they were and in order. "
     "Reading a row or a column by name returns exactly that row or column. A split puts the rows at the given positions start..end of the order into one part and all others into the other.",
     ["inputs", "histories"], "every sample, dense or sparse columns, names, row orders and sequences of operations (column names distinct)",
     TESTS + "columns are never dropped, renamed or split in a test.",
     ["src/sample/sample_struct.rs", "src/sample/feature_struct.rs"],
     [("operations on a sample", "src/sample/sample_struct.rs: impl Sample, Index"), ("columns", "src/sample/feature_struct.rs: new, append, rename")],
     technique="value-graph analysis of constructors and mutators on the typed IR, loops as closed forms or one-step recurrences")


prop("C17", "Reading a file gives exactly the data written in it",
     "A CSV or svmlight file is turned into the sample it spells: one row per line and in the order of the lines, the k-th cell of a line (or the word with index k) is the value of column k in that row, "
     "columns carry the names of the header (or `Feat. [k]` without one), the label is the first word of an svmlight line or the chosen CSV column, columns without any value are dropped, and counts and name index are those of what was read. "
     "A file that cannot be opened, a line that cannot be read, and a CSV line of another width come back as errors of `read`; a configured reader does not reject a well-formed file, and the extension alone decides which format is assumed.",
     ["inputs", "faults"], "every well-formed file with any number of lines and columns, sparse or dense, with or without header; read errors at any line",
     TESTS + "one file is read, with a header.",
     ["src/sample/sample_struct.rs", "src/sample/sample_reader.rs", "src/sample/feature_struct.rs"],
     [("CSV", "src/sample/sample_struct.rs: from_csv"), ("svmlight", "src/sample/sample_struct.rs: from_svmlight, index_and_feature, remove_allzero_features"), ("dispatch", "src/sample/sample_reader.rs: read")],
     technique="value-graph analysis of both readers on the typed IR: the loop over the lines as a one-step recurrence, its exits as path conditions")

prop("C18", "Cross validation splits the sample into complementary folds",
     "The k-th fold tests exactly the rows at positions k*w .. min((k+1)*w, n) of the fold order, where w = n - floor(ratio*n) (ratio 0.8 unless set), and trains on all others; the order is that of the sample, or a permutation of it drawn only from the seed after `shuffle`. "
     "The iterator yields fold 0, 1, 2, ... and ends exactly when the requested number of folds was given (5 by default) or no row is left; taking a fold changes nothing but the position, so that test parts never overlap and together cover a prefix of the order. "
     "It prints only when asked to.",
     ["inputs", "histories"], "every sample, ratio, number of folds, seed and number of calls",
     TESTS + "cross validation is never run.",
     ["src/research/cross_validation.rs"],
     [("folds", "src/research/cross_validation.rs: new, shuffle, fold_at, Iterator::next")],
     technique="value-graph analysis of the iterator on the typed IR; the split it calls is judged by C16")

prop("C24", "Gaussian naive Bayes is the Gaussian naive Bayes model",
     "Trained on a sample with a distribution, the classifier has one class per label of the sample, with the weight of its rows as prior and the weighted means and variances of its own rows as parameters; "
     "a row scores prior * exp(log density under the class - log density under all rows), with log density -1/2 (d ln 2pi + sum((x-m)^2/v + ln v)), and the label with the largest score is answered.",
     ["inputs"], "every sample (dense or sparse columns, any labels), every distribution, every row",
     TESTS + "the one stable test trains on seven rows under the uniform distribution and asserts nothing about the answers.",
     [T + "naive_bayes/nbayes.rs", T + "naive_bayes/nbayes_classifier.rs", T + "naive_bayes/probability.rs", "src/sample/sample_struct.rs"],
     [("learner", T + "naive_bayes/nbayes.rs: produce"), ("classifier", T + "naive_bayes/nbayes_classifier.rs: probabilities, confidence"), ("density", T + "naive_bayes/probability.rs: log_probability"),
      ("column moments", "src/sample/sample_struct.rs: weighted_mean*")],
     technique="value-graph equality on the typed IR with closed forms")

prop("C31", "Graph separation boosting separates the labels and aggregates by lookup",
     "A run starts with an edge between every two rows of different label and nothing else; a round gives the weak learner the share of edges at every row as distribution, keeps its hypothesis, and removes exactly the edges between rows it predicts differently, at both ends; "
     "the run ends exactly when no edge is left before a round or a round removed none. The aggregate - final or observed between rounds - holds all hypotheses in order and, for every positive training example, the predictions of all of them, and answers +1 exactly on rows whose predictions equal one of these.",
     ["inputs", "histories"], "every sample, weak learner, number of rounds and row (predictions +1/-1)",
     TESTS + "graph separation boosting has no stable test.",
     [B + "graph_separation_boosting/graph_separation_algorithm.rs", "src/hypothesis/naive_aggregation.rs"],
     [("booster", B + "graph_separation_boosting/graph_separation_algorithm.rs: preprocess, boost, update_params, postprocess, current_hypothesis"), ("aggregate", "src/hypothesis/naive_aggregation.rs: new, from_slice, confidence")],
     technique="one-step recurrences over pairs of rows and value-graph equality on the typed IR")

prop("C30", "The worst-case learner answers with the best of its class",
     "Built for n examples with capping parameter nu and tolerance t, the learner owns exactly the n/2+1 hypotheses of the worst-case construction (kinds, positions, shifts ceil(nu), gaps growing by two, eps = t/2n), each answers relative to the label of the row with the value of its kind on every region of rows, "
     "and `produce` answers a copy of the hypothesis of greatest edge under the given distribution, every hypothesis competing.",
     ["inputs"], "every sample size, tolerance, admissible capping parameter, distribution and row",
     TESTS + "the learner is used in no stable test.",
     [T + "bad_learner/builder.rs", T + "bad_learner/worstcase_classifier.rs", T + "bad_learner/worstcase_lpboost.rs"],
     [("class", T + "bad_learner/worstcase_lpboost.rs: new"), ("answers", T + "bad_learner/worstcase_classifier.rs: confidence"), ("choice", T + "bad_learner/worstcase_lpboost.rs: produce")],
     technique="value-graph equality on the typed IR, region by region")

prop("C33", "Neural networks compute their layers and descend their loss",
     "A layer with weights W (outputs x inputs) and biases b answers f(Wz + b) with its own activation f; a network built with sizes d0..dL maps the l-th size to the next with the l-th activation and feeds every layer with the output of the one before; fresh parameters are drawn around zero with a positive spread. "
     "A training step on a batch of rows is one gradient step of the loss: every row of the batch goes forward, the loss gradient at its output is taken against the row's own label, it is carried back through the weights as they were before the step and the slopes of the layer below, "
     "and every layer moves against the batch sum of its gradients times the given rate. Building the learner's hypothesis draws one batch per epoch over all rows with the weights of the distribution, takes the declared number of steps on it with the declared rate divided by the batch size, and continues from the network of the previous epoch; predictions are read off the output at the row as the task says.",
     ["inputs", "histories"], "every network shape, sample, distribution, batch and configuration; real-number semantics",
     TESTS + "no stable test trains a network, and its outcome is random.",
     [T + "neural_network/layer.rs", T + "neural_network/nn_hypothesis.rs", T + "neural_network/nn_weak_learner.rs"],
     [("layer", T + "neural_network/layer.rs: new, affine, forward, backward, matrix_product, matrix_inner_product, column_sum"), ("network", T + "neural_network/nn_hypothesis.rs: new, eval, train, confidence, predict"), ("schedule", T + "neural_network/nn_weak_learner.rs: init, append, produce")],
     technique="value-graph equality and recurrence comparison on the typed IR")

prop("C20", "A hypothesis written with serde and read back is the same hypothesis",
     "Decision trees, regression trees, naive Bayes classifiers and weighted combinations can be written and read with serde, and everything they consist of survives: every field is written unconditionally and with its own value, and is read back into the same field from the entry (in formats with names) or the position (in formats without) it was written to; "
     "every tree node is written under a variant number and name that read back as the same kind of node with the same contents.",
     ["inputs"], "every hypothesis these types can hold and every data format which returns the values it was given",
     TESTS + "no test writes or reads a hypothesis.",
     ["src/hypothesis/weighted_majority.rs", T + "decision_tree/node.rs", T + "regression_tree/node.rs", T + "naive_bayes/nbayes_classifier.rs", T + "naive_bayes/probability.rs", T + "common/type_and_struct.rs", T + "common/split_rule.rs"],
     [("combination", "src/hypothesis/weighted_majority.rs: WeightedMajority"), ("trees", T + "decision_tree/node.rs, regression_tree/node.rs: Node, BranchNode, LeafNode"), ("naive Bayes", T + "naive_bayes/nbayes_classifier.rs: NBayesClassifier")],
     technique="value-graph analysis of the macro-expanded (de)serializers, reachability over field types")

prop("C22", "Results depend on the inputs alone",
     "What the boosters, learners, hypotheses, sample operations, cross validation and objective functions answer is a function of their inputs, configured seeds included: running the same thing twice, in the same process or in another, gives the same answer. "
     "Nothing but the construction and training of a neural network draws unseeded random numbers; nothing but the file readers, the drawing of a tree and the research log touches files, and only the log reads a clock. Learners and hypotheses keep nothing between calls. "
     "Where several candidates are equally good, which one is taken does not depend on the iteration order of a hash map or set, or on the scheduling of threads. (Rounding of sums taken in a different order is not meant.)",
     ["inputs", "schedules", "histories"], "every input, process (hash seed) and thread schedule",
     TESTS + "a test observes one hash seed and one schedule, and ties are rare in it.",
     [T + "decision_tree/decision_tree_algorithm.rs", T + "decision_tree/criterion.rs", T + "decision_tree/bin.rs", T + "regression_tree/regression_tree_algorithm.rs", T + "naive_bayes/nbayes.rs", T + "bad_learner/worstcase_lpboost.rs", "src/sample/sample_struct.rs", "src/research/cross_validation.rs", "src/hypothesis/weighted_majority.rs", B + "core.rs"],
     [("ties", T + "decision_tree/decision_tree_algorithm.rs: confidence_and_loss"), ("seed", "src/research/cross_validation.rs: CrossValidation"), ("entries", "every public function")],
     technique="effect inference over the call graph of the typed IR, order-dependence lint over unordered iterations, interior-mutability check on types")
