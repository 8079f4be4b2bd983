"""The properties (one dict each); gen.py turns them into properties.jsonl and
MANIFEST.json."""

TESTS = ("The repository's only reliable test trains a naive Bayes classifier on one toy table; the other tests need data "
         "files that are not there. ")


def P(id, title, statement, bounds, why, files, mech, over=("inputs",), note=None, observe=()):
    return dict(id=id, title=title, statement=statement, bounds=bounds, why=TESTS + why, files=files, mech=mech,
                over=list(over), note=note, observe=list(observe))

CLARABEL = ("The clarabel solver is not executed: it is modelled by its contract (an exact primal-dual optimum, or an "
            "infeasibility certificate).")


PROPS = [
    P("S01", "A dense sample is exactly the table it was built from",
      "Building a sample from a data frame or from a CSV file (with or without a header line, any column chosen as the "
      "target) keeps every value: row i of the sample is row i of the table without the target column, its label is the "
      "target value of that row, columns keep their order and names, and lookups by position and by name agree. Renaming "
      "the columns changes the names only, and the list of distinct target values is strictly increasing and complete.",
      "Every real value in every cell, every choice of the target column, three spellings of the separator; tables up to "
      "4x4 and 5x3 (thorough: 6x5), one 1x12 and one 300-row table (a few cells arbitrary).",
      "Values are arbitrary reals and the target column is arbitrary; no test reads a table back.",
      ["src/sample/sample_struct.rs", "src/sample/sample_reader.rs", "src/sample/feature_struct.rs"],
      [("Sample::from_dataframe / from_csv / set_target", "src/sample/sample_struct.rs"),
       ("SampleReader", "src/sample/sample_reader.rs")], over=("inputs", "configurations")),
    P("S02", "An SVMlight file and the sparse sample read from it agree",
      "Reading an SVMlight file yields one row per line with that line's label; every listed entry has its value, every "
      "entry that is not listed is zero, and features that never occur do not exist. Lookups by row, by column and by "
      "name agree, and the number of implicit zeros of a feature is the number of rows that do not list it.",
      "Every real value, every pattern of listed entries, indices from 0 or 1; up to 3 rows x 3 features and 2 x 4 "
      "(thorough: 4x3, 3x4); explicitly listed zeros, indices up to 40 and one 300-row file with a few arbitrary values.",
      "The set of listed entries and their values are arbitrary; no test reads a sparse file.",
      ["src/sample/sample_struct.rs", "src/sample/sample_reader.rs", "src/sample/feature_struct.rs"],
      [("Sample::from_svmlight", "src/sample/sample_struct.rs"), ("SparseFeature", "src/sample/feature_struct.rs")]),
    P("S03", "Weighted means and variances equal their definitions, dense or sparse",
      "For every feature and every weighting of the rows, the weighted mean is the weighted sum of the values and the "
      "variance the weighted sum of the squared deviations, counting the zeros a sparse feature does not store. Restricted "
      "to one label, both are taken over the rows with that label with the weights renormalised (zero if these rows have "
      "no weight); variances are never negative.",
      "Every real value, every probability vector (per label: every non-negative weighting), every labelling, every zero "
      "pattern; 1 to 4 rows (thorough: 5); labels -1/1, 0/1 and 1/2.5.",
      "The identity has to hold for all values and weights; tests compute no statistics of sparse data.",
      ["src/sample/feature_struct.rs", "src/sample/sample_struct.rs"],
      [("weighted_mean, weighted_mean_and_variance, *_for_label", "src/sample/feature_struct.rs")]),
    P("S04", "Every cross-validation fold is an exact partition of the rows",
      "In every fold each row of the sample is either in the training or in the test part, exactly once, with its own "
      "values and label and with the columns in their original order, for dense and sparse data; both parts are non-empty. "
      "The training part has the requested share of the rows (rounded down), unless the last fold is cut short. No row is tested twice over the whole validation, at most the requested number of folds is produced, and the "
      "iteration ends; if it ends early every row has been tested.",
      "Every real value, every outcome of the shuffle, 3 to 6 and 11 rows with five default folds, 3 and 4 rows with one "
      "to four folds and training ratios 1/4, 1/2, 3/4 (thorough: up to six folds); 25 to 130 rows in original order.",
      "It must hold for every shuffle and every number of rows, folds and ratio; no test splits a sample.",
      ["src/research/cross_validation.rs", "src/sample/sample_struct.rs", "src/sample/feature_struct.rs"],
      [("CrossValidation::next", "src/research/cross_validation.rs"), ("Sample::split", "src/sample/sample_struct.rs"),
       ("SparseFeature::split", "src/sample/feature_struct.rs")], over=("inputs", "configurations")),
    P("H01", "The combined hypothesis is the normalised weighted vote",
      "The confidence of a weighted majority vote in a row is the sum of weight times confidence of its members divided by "
      "the sum of the absolute weights, whatever the signs of the weights; its weights then have absolute sum one. Adding "
      "a member, normalising and taking the vote apart keep the members with their weights, and the predicted label of "
      "any classifier is plus or minus one with the sign of its confidence.",
      "Every weight and every confidence in [-1,1]; one to four members (thorough: five), two rows.",
      "Weights and confidences are arbitrary reals; tests never look at a combined hypothesis.",
      ["src/hypothesis/weighted_majority.rs", "src/hypothesis/hypothesis_traits.rs"],
      [("WeightedMajority::from_slices/push/normalize/decompose", "src/hypothesis/weighted_majority.rs"),
       ("Classifier::predict", "src/hypothesis/hypothesis_traits.rs")]),
    P("H02", "Naive aggregation repeats the votes seen on positive rows",
      "The aggregated classifier says +1 on an instance exactly if the signs of all member hypotheses on it coincide with "
      "their signs on some positive training row, and -1 otherwise; in particular every positive training row is "
      "classified correctly. Both ways to construct it agree.",
      "Every confidence in [-1,1] on training rows and on a new instance, every labelling; up to three members on two rows, "
      "two on three (thorough: four members, three on three rows, one on four).",
      "The sign patterns are arbitrary; no test builds the aggregation.",
      ["src/hypothesis/naive_aggregation.rs"], [("NaiveAggregation", "src/hypothesis/naive_aggregation.rs")]),
    P("L01", "Loss functions: gradients, curvatures and best coefficients are right",
      "The squared and the absolute loss average the pointwise losses over the rows; the gradient of the squared loss is "
      "prediction minus target with curvature one, the gradient of the absolute loss is a subgradient of it with curvature "
      "zero. The best coefficient for given predictions minimises the loss to the given residuals and is finite even if "
      "all predictions are zero.",
      "Every real prediction, target and residual; one to four rows (thorough: five).",
      "Optimality quantifies over every alternative coefficient and all data; no test touches the losses.",
      ["src/common/loss_functions.rs"], [("LossFunction for GBMLoss", "src/common/loss_functions.rs")]),
    P("G01", "Gradient boosting fits the stagewise additive model",
      "Every round asks the weak learner with the current predictions (zero at the start), adds the hypothesis with the "
      "coefficient that minimises the loss along it, and thereby never increases the training loss. The returned model "
      "predicts exactly the sum that was fitted, a hypothesis that predicts zero everywhere ends the run, which otherwise makes a "
      "hundred rounds, and a second run starts afresh.",
      "Every real target and every real-valued hypothesis; up to three rows and one round, two rows and three rounds "
      "(squared), two rows and one round (absolute); thorough: three rows, two rounds.",
      "The targets, hypotheses and coefficients are arbitrary reals; no test runs gradient boosting without data files.",
      ["src/booster/gradient_boost/gbm.rs", "src/common/loss_functions.rs",
       "src/hypothesis/weighted_majority.rs"],
      [("GBM::boost / postprocess", "src/booster/gradient_boost")], over=("inputs", "histories")),
    P("B01", "AdaBoost follows its update rule and votes with its weights",
      "AdaBoost hands the weak learner the uniform distribution first and then, after a hypothesis with edge e, the "
      "distribution multiplied by exp(-w * label * confidence) and renormalised, with w half the logarithm of (1+e)/(1-e); "
      "the output votes with these weights. It does not stop before its round limit of ln(n)/tolerance^2 (or the requested "
      "number of rounds) unless a hypothesis is right, or wrong, on every row with full confidence, which then alone "
      "(negated if wrong) is the output; a second run of the same booster repeats the first.",
      "Every labelling with both classes; every real-valued hypothesis in [-1,1] for one round on two and three rows and "
      "two rounds on two rows, every sign-valued hypothesis for two rounds on three rows and one on four (thorough: more).",
      "The update has to hold for all hypotheses and histories; tests see at most a training error.",
      ["src/booster/adaboost/adaboost_algorithm.rs", "src/hypothesis/weighted_majority.rs", "src/common/utils.rs"],
      [("AdaBoost::boost / update_params / postprocess", "src/booster/adaboost/adaboost_algorithm.rs")],
      over=("inputs", "histories", "configurations")),
    P("B02", "AdaBoostV follows its update rule and votes with its weights",
      "AdaBoostV is AdaBoost with the weight of a round reduced by half the logarithm of (1+r)/(1-r), where r is the "
      "smallest edge of any round so far minus the tolerance; distribution update, vote, stop on a hypothesis that is "
      "right or wrong everywhere, and repeatability are as for AdaBoost. It runs for at most 2 ln(n)/tolerance^2 rounds, "
      "or exactly as many as requested.",
      "Every labelling with both classes; real-valued hypotheses for one round on two and three rows and for the second "
      "round on three rows, every sign-valued hypothesis for two and three rounds on three rows, two on four (thorough: more).",
      "The weights depend on the whole history of edges, which tests never inspect.",
      ["src/booster/adaboostv/adaboostv_algorithm.rs"],
      [("AdaBoostV::boost / update_params", "src/booster/adaboostv/adaboostv_algorithm.rs")],
      over=("inputs", "histories", "configurations")),
    P("B03", "MadaBoost caps its weights at the initial weight",
      "In MadaBoost the weight of a row is the product over the rounds of beta^(label * confidence), but never more than its "
      "initial weight, and the weak learner receives these weights normalised (uniform at first); beta is the square root "
      "of q/(1-q) with q the square root of half the weighted error. So rows with a non-positive margin weigh the same "
      "after the first round and correctly classified rows less; a hypothesis right on every row ends the run and alone is "
      "the output. Otherwise the vote of a hypothesis is proportional to ln(1/beta), negative if it is wrong more often than "
      "right.",
      "Every labelling with both classes; real-valued hypotheses with positive or negative edge for one round on two and three "
      "rows, every sign-valued hypothesis for two rounds on three rows and one on four, the votes of "
      "two sign-valued hypotheses that need not be better than guessing.",
      "The capping shows only for particular margins over several rounds; no test looks at the weights.",
      ["src/booster/madaboost/madaboost_algorithm.rs"],
      [("MadaBoost::boost / update_params", "src/booster/madaboost/madaboost_algorithm.rs")],
      over=("inputs", "histories", "configurations")),
    P("B04", "SmoothBoost: smooth distributions, stopping rule, averaged output",
      "SmoothBoost gives a row weight 1 while its cumulative margin (label * confidence minus theta per round, starting at "
      "zero, theta = gamma/(2+gamma)) is at most zero and (1-gamma)^(half the cumulative margin) otherwise, and hands the "
      "normalised weights to the weak learner, so no row ever gets more than 1/(kappa*n). It stops as soon as the total "
      "weight is below kappa*n, then fewer than a kappa fraction of the rows have margin below theta under the output, "
      "which is the plain average of all hypotheses; at most 2/(kappa*gamma^2*sqrt(1-gamma)) rounds are made.",
      "Every labelling with both classes, every hypothesis with confidences in [-1,1], three settings of gamma and kappa; "
      "two and three rows for one round, two rows for two rounds and for the guarantee, averages over up to four rounds.",
      "Smoothness and the final guarantee quantify over all hypotheses and histories; tests check neither.",
      ["src/booster/smoothboost/smoothboost_algorithm.rs"],
      [("SmoothBoost::boost / postprocess", "src/booster/smoothboost/smoothboost_algorithm.rs")],
      over=("inputs", "histories", "configurations")),
    P("B05", "Graph separation boosting separates every pair it claims to",
      "Graph separation boosting hands the weak learner, for every row, mass proportional to the number of rows with the "
      "other label that no hypothesis so far has separated from it. It ends when every pair is separated, or when a "
      "hypothesis separates no further pair, and when all pairs are separated the output has no training error.",
      "Every labelling with both classes and every hypothesis; three rows for three rounds, four for two, five for one (signs), "
      "three rows for two rounds (real-valued); thorough: one more.",
      "The separated pairs depend on all votes so far; no test runs this booster.",
      ["src/booster/graph_separation_boosting/graph_separation_algorithm.rs",
       "src/hypothesis/naive_aggregation.rs"],
      [("GraphSepBoost::boost / update_distribution", "src/booster/graph_separation_boosting")],
      over=("inputs", "histories")),
    P("B06", "LPBoost: capped distributions of least edge, optimal soft margin",
      "LPBoost hands the weak learner the uniform distribution first and afterwards a distribution with no entry above "
      "1/nu that minimises the largest edge of the hypotheses of this run among all such distributions. It goes on exactly "
      "while that least edge is below the smallest edge the weak learner has achieved minus the tolerance; the output is "
      "the convex combination of the hypotheses with the largest soft margin (the mean of its nu smallest margins), within "
      "the tolerance of the smallest edge. A second run of the same booster starts afresh.",
      "Every labelling with both classes up to row order; sign-valued hypotheses for two rounds on two and three rows (three "
      "rounds, also hypotheses in halves, on two) and real-valued ones for one round on two rows, nu in {1, 1.5, 2, 3} (thorough: three rounds, four rows).",
      "Optimality quantifies over all capped distributions, all combinations and all hypotheses; tests need data files and "
      "look at most at a training error.",
      ["src/booster/lpboost/lpboost_algorithm.rs", "src/booster/lpboost/lp_model.rs"],
      [("LPBoost::boost / postprocess", "src/booster/lpboost/lpboost_algorithm.rs"),
       ("LPModel::init / update", "src/booster/lpboost/lp_model.rs")],
      over=("inputs", "histories", "configurations"),
      note=CLARABEL),
    P("B07", "SoftBoost: capped distributions of largest entropy, optimal soft margin",
      "SoftBoost hands the weak learner the uniform distribution first and afterwards distributions with no entry above "
      "1/nu under which every hypothesis so far has an edge of at most the smallest edge the weak learner achieved minus "
      "the tolerance; after one hypothesis no such distribution has a larger entropy. It stops only when no such "
      "distribution exists (or after its 2 ln(n/nu)/tolerance^2 rounds, but at least one); the output is the convex "
      "combination with the largest soft margin and, unless the limit ended the run, within the tolerance of the smallest "
      "edge. TotalBoost is SoftBoost with nu = 1; a second run of the same booster starts afresh.",
      "Every labelling with both classes up to row order; sign-valued hypotheses for two rounds on two and three rows, "
      "hypotheses in halves for one round, real-valued ones for one round on two rows with at most two inner solver calls "
      "(thorough: three rounds, four rows). Entropy optimality: one sign-valued hypothesis.",
      "The constraints must hold for every history of hypotheses; tests need data files and look at a training error.",
      ["src/booster/softboost/softboost_algorithm.rs", "src/booster/softboost/qp_model.rs",
       "src/booster/totalboost/totalboost_algorithm.rs"],
      [("SoftBoost::boost / postprocess", "src/booster/softboost"), ("TotalBoost", "src/booster/totalboost")],
      over=("inputs", "histories", "configurations"), note=CLARABEL),
    P("B08", "ERLPBoost: capped distributions of least regularised edge, soft margin guarantee",
      "ERLPBoost hands the weak learner the uniform distribution first and afterwards a distribution with no entry above "
      "1/nu whose largest edge over the hypotheses so far plus its relative entropy divided by eta, eta = max(1/2, "
      "2 ln(n/nu)/tolerance), is the least possible up to a fraction of the tolerance. It goes on exactly while the smallest "
      "regularised edge the weak learner achieved exceeds that least value by more than half the tolerance; the soft margin "
      "of the output is then at least the smallest edge minus the tolerance. A second run starts afresh, and the run "
      "ends after max(8/tolerance, 32 ln(n/nu)/tolerance^2) rounds, rounded up, but not before unless that rule says so.",
      "Every labelling with both classes up to row order; sign-valued hypotheses for two rounds on two and three rows, "
      "hypotheses in halves for one round, real-valued ones for one round on two rows with at most two inner solver calls, "
      "not for the optimality claim (thorough: three rounds, four rows).",
      "Optimality quantifies over all capped distributions and hypotheses; tests look at a training error at most.",
      ["src/booster/erlpboost/erlpboost_algorithm.rs", "src/booster/erlpboost/qp_model.rs"],
      [("ERLPBoost::boost / postprocess", "src/booster/erlpboost")],
      over=("inputs", "histories", "configurations"), note=CLARABEL),
    P("B09", "MLPBoost: the better of a Frank-Wolfe and a linear programming step",
      "MLPBoost hands the weak learner the distribution closest (in relative entropy) to exp(-eta * margin) under its current "
      "combination among those with no entry above 1/nu, uniform at first, with eta = max(1/2, 2 ln(n/nu)/tolerance). The "
      "combination is always a convex one, at first the first hypothesis alone. After a round its smoothed objective (least "
      "edge plus relative entropy over eta) is at least that of the selected Frank-Wolfe step and, up to half the tolerance "
      "and the random perturbation, at least the optimal soft margin of the hypotheses so far. It stops exactly when the "
      "smallest edge exceeds the smoothed objective by at most half the tolerance (or after 32 ln(n/nu)/tolerance^2 rounds, "
      "at least one); the soft margin of the output is then at least the smallest edge minus the tolerance. A second run "
      "starts afresh.",
      "Every labelling with both classes up to row order; sign-valued hypotheses for two rounds on two and three rows with "
      "every Frank-Wolfe rule and three rounds on two rows, real-valued ones for one round on two and three rows; the "
      "perturbation zero, or arbitrary for two rounds on two rows (weights and stopping rule only).",
      "The choice between the two steps and the guarantee depend on the whole history; tests look at a training error.",
      ["src/booster/mlpboost/mlpboost_algorithm.rs", "src/booster/mlpboost/perturbed_lp_model.rs",
       "src/common/frank_wolfe.rs"],
      [("MLPBoost::boost / better_weight / objval", "src/booster/mlpboost/mlpboost_algorithm.rs"),
       ("LPModel::update", "src/booster/mlpboost/perturbed_lp_model.rs")],
      over=("inputs", "histories", "configurations"), note=CLARABEL),
    P("B10", "CERLPBoost: exponential weights, Frank-Wolfe steps, soft margin guarantee",
      "CERLPBoost hands the weak learner the distribution closest (in relative entropy) to exp(-eta * margin) under its "
      "current combination among those with no entry above 1/nu, uniform at first, with eta = 2 ln(n/nu)/tolerance. The "
      "combination is always a convex one; the first hypothesis alone is the first combination, and every later round moves "
      "it by the selected rule: towards the new hypothesis by 2/(t+1) (classic), by the step minimising the smoothness bound "
      "(short step), by the step maximising the smoothed objective (line search), or, if that promises at least as much, by "
      "moving weight optimally from the worst to the best hypothesis in use (blended pairwise). It stops exactly when the "
      "edge of the new hypothesis exceeds that of the combination by at most half the tolerance (or after its round limit, "
      "at least one round); the soft margin of the output is then at least the smallest edge minus the tolerance.",
      "Every labelling with both classes up to row order; all four rules. Sign-valued hypotheses for two rounds on two and "
      "three rows (blended pairwise and classic also three), hypotheses in halves for two rounds on two rows, real-valued "
      "ones for one round on two rows and, for the classic and short-step rules, one on three (thorough: more).",
      "The step rules and guarantees quantify over all hypotheses and histories; tests look at a training error at most.",
      ["src/booster/cerlpboost/cerlpboost_algorithm.rs", "src/common/frank_wolfe.rs", "src/common/utils.rs"],
      [("CERLPBoost::boost", "src/booster/cerlpboost/cerlpboost_algorithm.rs"),
       ("FrankWolfe::next_iterate", "src/common/frank_wolfe.rs"),
       ("project_log_distribution_to_capped_simplex", "src/common/utils.rs")],
      over=("inputs", "histories", "configurations")),
    P("T01", "Decision trees split optimally and vote for the weighted majority",
      "A decision tree grown for a distribution over the examples gives every example of positive weight the confidence "
      "(mass of the positives - mass of the negatives)/mass of the leaf it falls into. The leaves are those of a tree of at "
      "most the selected depth in which every inner node is split at a threshold on one feature that is best for the selected "
      "criterion (smallest training error, Gini index, entropy, largest twoing value) among all thresholds on all features "
      "and not splitting at all; pure nodes and nodes at the depth limit are leaves. Unseen rows get the answer of a "
      "neighbouring training value; examples of weight zero have no influence.",
      "Every labelling of 3 or 4 rows and every probability vector over them, for fixed layouts of one or two features with "
      "values spaced evenly (so that the bins separate them), depths 1 to 3 (depth 3 and the XOR layout for the uniform "
      "distribution; thorough: for all); strictly positive weights for entropy and for depth 2; one unseen row with an arbitrary value.",
      "The split scores and leaf masses are functions of arbitrary weights; tests run one distribution on one data set.",
      ["src/weak_learner/decision_tree/decision_tree_algorithm.rs", "src/weak_learner/decision_tree/criterion.rs",
       "src/weak_learner/decision_tree/train_node.rs", "src/weak_learner/decision_tree/node.rs", "src/weak_learner/common/split_rule.rs"],
      [("DecisionTree::produce, full_tree, confidence_and_loss", "src/weak_learner/decision_tree/decision_tree_algorithm.rs"),
       ("Criterion::best_split", "src/weak_learner/decision_tree/criterion.rs"),
       ("Node::confidence", "src/weak_learner/decision_tree/node.rs")],
      over=("inputs", "configurations"),
      note="Whether nodes whose split does not change the training error are kept or pruned is not claimed beyond the stated optimality."),
    P("T02", "Regression trees minimise the regularised second-order objective",
      "A regression tree of max_depth d predicts -G/(H + lambda) on every training row, G and H being the sums of the first and "
      "second derivatives of the loss (at the given predictions) over the rows sharing its leaf; the leaves are those of a tree "
      "with at most d-1 levels of splits, each node being split by the threshold on one feature that maximises "
      "G_left^2/(H_left+lambda) + G_right^2/(H_right+lambda), unless not splitting (G^2/(H+lambda)) is at least as good. In "
      "particular nodes whose derivatives cancel out are still split, and the loss never increases to second order.",
      "L1 and L2 losses at arbitrary predictions and targets, and a loss with derivatives of its own (arbitrary gradients; arbitrary "
      "Hessians for two rows, three values for three rows), 2 to 4 rows in fixed layouts of one or two features, max_depth 1 to 3, "
      "lambda 0 (L2), 0.01 and 1.",
      "Gradient boosting quantifies over all residual vectors; tests run one data set.",
      ["src/weak_learner/regression_tree/regression_tree_algorithm.rs", "src/weak_learner/regression_tree/bin.rs",
       "src/weak_learner/regression_tree/node.rs", "src/common/loss_functions.rs"],
      [("RegressionTree::produce, full_tree, best_split_at", "src/weak_learner/regression_tree/regression_tree_algorithm.rs"),
       ("Bins::pack", "src/weak_learner/regression_tree/bin.rs")],
      over=("inputs", "configurations")),
    P("T03", "Bins of the trees cover all values and separate rows a bin apart",
      "Decision and regression trees can be built and grown for every feature column with finite values (up to 1e9 in size), "
      "however close together the values are, with any selected number of bins. Rows of equal value always share their "
      "leaf; rows more than one bin width ((max - min)/number of bins, by default the number of distinct values up to 255) "
      "apart are told apart if that is better; leaves are intervals of the value, the outer ones being unbounded, so that "
      "unseen values outside of the training range fall into the outer leaves. Sparse and dense representations of the same "
      "column give the same trees.",
      "2 or 3 rows (thorough: 4), one column of arbitrary values in [-1e9, 1e9], default or 1 to 5 bins, depth 1 and 2; sparse "
      "columns with every zero pattern, and columns of 3 and 4 rows which also list a zero. Exact real arithmetic: loss of precision by rounding is outside.",
      "Equal values, tiny ranges, boundaries of bins and zeros of sparse columns are measure-zero inputs that tests miss.",
      ["src/weak_learner/decision_tree/bin.rs", "src/weak_learner/regression_tree/bin.rs", "src/weak_learner/decision_tree/builder.rs",
       "src/weak_learner/regression_tree/builder.rs", "src/sample/feature_struct.rs"],
      [("Bins::cut, Bins::pack", "src/weak_learner/decision_tree/bin.rs"),
       ("Bins::cut, Bins::pack", "src/weak_learner/regression_tree/bin.rs"),
       ("distinct_value_count", "src/sample/feature_struct.rs")]),
    P("N01", "Gaussian naive Bayes predicts the class of largest posterior",
      "GaussianNB, trained on rows weighted by a distribution, predicts for every row the class that maximises the weight of the "
      "class times the product over the features of the normal density with the weighted mean and variance of the feature within "
      "the class. The probabilities it reports lie between zero and one, sum to one, and the predicted class is a most probable "
      "one. A feature that is constant has no influence, classes of weight zero are never predicted, and the sparse and the dense "
      "representation of the same data give the same answers.",
      "Three classes on six rows or two on four rows of fixed feature values with an arbitrary row to be classified (values in "
      "[-20, 20], one or two arbitrary features); arbitrary weights (each at least 0.01) on four rows, or arbitrary feature values "
      "in [-20, 20] (0.01 apart within a class), with the training rows classified; sparse columns of 4 rows with every pattern of "
      "three values. Ties up to 1e-6 in log likelihood.",
      "The decision boundary is a quadratic in the query; the tests look at four fixed rows.",
      ["src/weak_learner/naive_bayes/nbayes.rs", "src/weak_learner/naive_bayes/nbayes_classifier.rs",
       "src/weak_learner/naive_bayes/probability.rs", "src/sample/feature_struct.rs"],
      [("GaussianNB::produce", "src/weak_learner/naive_bayes/nbayes.rs"),
       ("NBayesClassifier::confidence / probabilities", "src/weak_learner/naive_bayes/nbayes_classifier.rs")],
      over=("inputs",)),
    P("N02", "Neural networks compute the layers and train by gradient descent",
      "The answer of a neural network is the composition of its layers, each an affine map followed by its activation function "
      "(identity, rectifier, sigmoid, softmax), turned into a confidence: 2p - 1 for a single output p, and the larger of two outputs, "
      "with the sign of its class. Training takes, in every iteration of every epoch, one step of gradient descent with the rate of "
      "the learner on the mean loss of a minibatch, i.e. of rows of the sample; the gradient is the exact derivative through all layers. "
      "A step on one example never moves the answer away from its label, and without iterations the initial weights are kept.",
      "Networks of up to 3 layers, at most 2 units wide. Forward pass: every weight, bias and input in [-4, 4]. Training: one step from "
      "arbitrary weights on one or two arbitrary rows (identity and rectifier layers), up to four steps from fixed weights with an "
      "arbitrary query or an arbitrary bias (also sigmoid and softmax layers). Normal draws of the initial weights are arbitrary. Softmax "
      "below the last layer only with fixed weights, as networks up to 4 units wide; inputs exactly at the threshold of the rectifier are left out. Task: binary classification.",
      "The gradients are polynomials of all weights and inputs; tests run no training at all.",
      ["src/weak_learner/neural_network/nn_hypothesis.rs", "src/weak_learner/neural_network/layer.rs",
       "src/weak_learner/neural_network/activation.rs", "src/weak_learner/neural_network/nn_weak_learner.rs",
       "src/weak_learner/neural_network/nn_loss.rs", "src/common/task.rs"],
      [("NNHypothesis::train, eval, confidence", "src/weak_learner/neural_network/nn_hypothesis.rs"),
       ("Layer::forward, backward", "src/weak_learner/neural_network/layer.rs"),
       ("Activation::eval, diff", "src/weak_learner/neural_network/activation.rs"),
       ("binarize, vectorize", "src/common/task.rs")],
      over=("inputs", "histories")),
    P("N03", "The worst-case weak learner is a weak learner and the worst case",
      "BadBaseLearner returns, for every distribution, the hypothesis of largest edge among all those it can return; their confidences "
      "lie in [-1, 1] on every row. It can be built for every capping parameter nu in [1, n]. LPBoost of the same tolerance "
      "trained with it does not stop before round n/2.",
      "n = 2, 3, 4 rows (thorough: up to 6), every pair of distributions, tolerances in (0, 0.5], nu 1 and 1.5 for the edges, any for the "
      "construction; LPBoost with tolerance 1/4 on 2, 4 and 6 rows (thorough: 8).",
      "The lower-bound construction is about all distributions and rounds; no test runs it.",
      ["src/weak_learner/bad_learner/builder.rs", "src/weak_learner/bad_learner/worstcase_lpboost.rs",
       "src/weak_learner/bad_learner/worstcase_classifier.rs"],
      [("BadBaseLearner::produce", "src/weak_learner/bad_learner/worstcase_lpboost.rs"),
       ("BadBaseLearnerBuilder::build", "src/weak_learner/bad_learner/builder.rs"),
       ("BadClassifier::confidence", "src/weak_learner/bad_learner/worstcase_classifier.rs")],
      over=("inputs", "histories", "configurations")),
    P("S05", "Binary boosters accept exactly the samples with two classes",
      "is_valid_binary_instance accepts a sample, and preprocess of every booster for binary classification starts on it, if and only if all targets "
      "are integers and they take exactly two values, of whatever magnitude; otherwise they panic before training.",
      "2 or 3 rows (thorough: 4); targets arbitrary reals in [-2.5, 2.5], also shifted by 3e9; for each of eleven boosters 3 rows with targets in [-1.5, 1.5].",
      "The check separates measure-zero inputs (integers) from all the others and guards every booster.",
      ["src/sample/sample_struct.rs"],
      [("Sample::is_valid_binary_instance", "src/sample/sample_struct.rs")]),
    P("O01", "Objective functions measure the margins of the combined hypothesis",
      "SoftMarginObjective(nu) is the smallest mean margin sum d_i y_i H(x_i) over all distributions d with d_i <= 1/nu, for every "
      "nu in [1, n]; HardMarginObjective is the smallest margin, and so the soft margin for nu = 1. ExponentialLoss of a hypothesis with "
      "labels as predictions is the mean of exp(-y_i H(x_i)). All use the confidences of the given hypothesis, normalised for a weighted majority.",
      "2 to 4 rows (thorough: 5), every labelling with both classes, every vector of confidences in [-1, 1]; nu in {1, 1.5, 2, 2.75, 4, 5}, and any "
      "nu in [1, n] for constant margins.",
      "The soft margin is the value of a linear program; no test evaluates it.",
      ["src/research/objective_functions.rs", "src/common/checker.rs"],
      [("SoftMarginObjective::eval", "src/research/objective_functions.rs"),
       ("HardMarginObjective::eval", "src/research/objective_functions.rs"),
       ("ExponentialLoss::eval", "src/research/objective_functions.rs")]),
    P("R01", "The logger runs the booster faithfully and records every round",
      "Logger::run prepares the booster once, runs its rounds with iterations 1, 2, ... until the booster stops or the accumulated "
      "running time of the rounds (however short each of them is) exceeds the time limit, and returns the output of the booster. The file starts with the header and then "
      "has one line per round with the objective value and the training loss on the training sample, the test loss on the test "
      "sample, all of the combined hypothesis after that round, and the accumulated time of the rounds in milliseconds (not including the evaluation). "
      "Limits in seconds and minutes are converted, Logger and LoggerBuilder agree, a file that cannot be created is an error. For each of the "
      "boosters for classification current_hypothesis is at any stage the combined hypothesis which the booster would return.",
      "A scripted booster of up to 4 rounds (thorough: 6) with arbitrary values of hypotheses, samples and objectives, every stopping "
      "round and every schedule of three durations per round (0, below and above a third of the limit), with and without a limit of 2 ms, 1 s or 1 min; "
      "six rounds of 0.3 to 0.9 ms with limit 0. Each of the eleven boosters on three rows with every pair of imperfect sign-valued hypotheses (MLPBoost: one) before a "
      "perfect one, after one to three rounds.",
      "Schedules of running times and stopping rounds multiply; no test runs the logger.",
      ["src/research/logger.rs", "src/research/logger_builder.rs", "src/booster/core.rs"],
      [("Logger::run", "src/research/logger.rs"),
       ("LoggerBuilder::build", "src/research/logger_builder.rs"),
       ("Research::current_hypothesis", "src/booster")],
      over=("inputs", "histories", "schedules")),
    P("H03", "Saved hypotheses give the same answers",
      "Decision trees, regression trees, naive Bayes classifiers and weighted majorities of trees that are written to JSON and read "
      "back give the same answers on every row, seen or unseen. The graph that to_dot_file writes for a tree is a tree of questions "
      "which leads every row to the answer of the tree (thresholds and the leaves of regression trees rounded to two decimals).",
      "Trees of depth 1 to 3 for any weights or targets on three rows (thorough: four) of two fixed features whose bin boundaries are exact floats, all four "
      "criteria; arbitrary weights of two members; output of AdaBoost on four rows; naive Bayes on four rows with three weightings; one arbitrary unseen row, not within "
      "0.01 of a threshold for the drawings. Rounding of numbers by the JSON library is outside.",
      "Which tree is saved depends on arbitrary weights; no test saves a hypothesis.",
      ["src/weak_learner/decision_tree/node.rs", "src/weak_learner/decision_tree/decision_tree_classifier.rs",
       "src/weak_learner/regression_tree/node.rs", "src/weak_learner/regression_tree/regression_tree_regressor.rs",
       "src/weak_learner/common/split_rule.rs", "src/weak_learner/common/type_and_struct.rs",
       "src/weak_learner/naive_bayes/nbayes_classifier.rs", "src/hypothesis/weighted_majority.rs"],
      [("Node::to_dot_info", "src/weak_learner/decision_tree/node.rs"),
       ("DecisionTreeClassifier::to_dot_file", "src/weak_learner/decision_tree/decision_tree_classifier.rs"),
       ("Serialize/Deserialize of WeightedMajority", "src/hypothesis/weighted_majority.rs")]),
    P("P01", "Parameters are accepted exactly in their range",
      "The capping parameter nu is accepted by LPBoost, SoftBoost, ERLPBoost, MLPBoost, CERLPBoost, the builder of the worst-case weak "
      "learner and SoftMarginObjective (on evaluation) if and only if it lies in [1, number of rows], and these boosters can then start to train whatever the tolerance; "
      "SmoothBoost accepts gamma exactly in [0, 1/2) and starts exactly for kappa in (0, 1); cross validation accepts a training "
      "ratio exactly in (0, 1), trees exactly positive depths. Other values panic.",
      "Samples of 2, 3 and 4 rows (thorough: 5); nu any real number from -2 to n + 2, gamma from -1 to 1, kappa (not in (0, 1/4)) "
      "and the ratio from -1 to 2; depths 0 to 3; starting to train with four values of nu including 1 and n, three tolerances and both orders of selecting them, and with six values of kappa for any gamma in [3/8, 1/2) and 0.",
      "The ranges are bounded by particular real numbers; no test selects a parameter at or beyond them.",
      ["src/common/checker.rs", "src/booster/lpboost/lpboost_algorithm.rs", "src/booster/softboost/softboost_algorithm.rs",
       "src/booster/erlpboost/erlpboost_algorithm.rs", "src/booster/mlpboost/mlpboost_algorithm.rs",
       "src/booster/cerlpboost/cerlpboost_algorithm.rs", "src/booster/smoothboost/smoothboost_algorithm.rs",
       "src/weak_learner/bad_learner/builder.rs", "src/research/cross_validation.rs",
       "src/weak_learner/decision_tree/builder.rs", "src/weak_learner/regression_tree/builder.rs"],
      [("checker::check_nu", "src/common/checker.rs"),
       ("MLPBoost::nu", "src/booster/mlpboost/mlpboost_algorithm.rs"),
       ("SmoothBoost::check_preconditions", "src/booster/smoothboost/smoothboost_algorithm.rs"),
       ("CrossValidation::train_ratio", "src/research/cross_validation.rs")],
      over=("configurations",)),
]

NOT_APPLICABLE = {}
