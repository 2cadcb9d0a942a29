#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'observe_at': observe} if observe else {}))))

L = 'src/core/loss/'; M = 'src/core/math/'; O = 'src/core/optimizer/'; LM = 'src/methods/linear_model/'
prop('C01', 'Every loss returns the exact gradient of its own objective',
 'For every loss function, the vector or matrix returned as the gradient at given data and weights is the derivative of the value the same object returns for the same data and weights, regularisation term included, at every point where the objective is differentiable.',
 ['inputs', 'configurations'], 'all design matrices, targets, weights, regularisation strengths, thresholds',
 'The tests evaluate value and gradient on one data set and print them; nothing relates one to the other.',
 [L+'log_loss.hpp', L+'mean_squared_error.hpp', L+'softmax_loss.hpp', L+'hinge_loss.hpp', L+'huber_loss.hpp'],
 [('evaluate / gradient pair', L+'*.hpp')])
prop('C02', 'Every loss value is its documented objective',
 'The log, squared, softmax, hinge and Huber losses return exactly their documented data term (mean cross-entropy, half mean squared error, mean negative log-softmax of the true class, sum of hinge terms, mean of the Huber terms of the residuals) plus lambda/(2n) times the sum of squared weights. With lambda zero only the data term remains.',
 ['inputs', 'configurations'], 'all data, weights, lambda, threshold, delta',
 'The tests print one value and compare it with nothing.',
 [L+'log_loss.hpp', L+'mean_squared_error.hpp', L+'softmax_loss.hpp', L+'hinge_loss.hpp', L+'huber_loss.hpp'],
 [('evaluate', L+'*.hpp')])
prop('C03', 'Axis-wise reductions compute the documented statistic along that axis',
 'Sum, mean, variance, norm, median, cumulative sum, mode, covariance, centring, row norms, maximum/minimum position, stacking, repetition and flattening return the documented statistic: axis 0 reduces over rows giving one entry per column, axis 1 reduces over columns giving one entry per row, and axis -1 treats the matrix as one row-major sequence.',
 ['inputs', 'configurations'], 'all matrices of all sizes and every accepted axis value',
 'No test calls most of these helpers; those that do use one matrix and one axis.',
 [M+'ops.hpp', M+'extmath.hpp', 'src/core/common.hpp'],
 [('axis branches', M+'ops.hpp'), ('argmax/argmin/repeat/hstack/vstack/flatten', 'src/core/common.hpp')])
prop('C04', 'Probability helpers never overflow and equal the textbook function',
 'The sigmoid, softmax and log-sum-exp helpers and the losses built on them only exponentiate non-positive numbers, whatever the magnitude of the scores, and return mathematically the sigmoid, softmax and log-sum-exp of their argument.',
 ['inputs'], 'all finite score vectors and matrices, every axis',
 'Tests use small scores; overflow needs large ones, and the printed output is not compared with a reference.',
 [M+'extmath.hpp', M+'linalg.hpp', L+'softmax_loss.hpp', L+'log_loss.hpp'],
 [('max-shift before exp', M+'extmath.hpp softmax, '+M+'linalg.hpp logsumexp'), ('clamped exponent', M+'extmath.hpp sigmoid')])
prop('C05', 'Predicted class probabilities are distributions',
 'For every classifier or mixture that reports class probabilities, each row of the result belongs to the sample in that row, has one entry per class, is non-negative and sums to one.',
 ['inputs', 'histories'], 'all fitted models and all query matrices',
 'Tests print probabilities of one data set without checking row sums.',
 [LM+'logistic_regression.hpp', LM+'softmax_regression.hpp', 'src/methods/naive_bayes/base.hpp', 'src/methods/mixture/gaussian_mixture.hpp', 'src/methods/tree/decision_tree_classifier.hpp'],
 [('predict_prob', 'each classifier')])
prop('C06', 'An optimizer that returns normally publishes its final iterate',
 'Whenever an optimizer finishes without throwing, the coefficients it exposes are the iterate it last reached; when the iteration budget is exhausted without convergence, the stochastic optimizers throw instead of returning unusable coefficients.',
 ['inputs', 'configurations', 'histories'], 'all data, start points, tolerances, budgets, every exit of the optimisation loop',
 'Tests exercise one converging run per optimizer; early exits and exhausted budgets are never taken.',
 [O+'base.hpp', O+'sgd/sgd.hpp', O+'sgd/sag.hpp', O+'sgd/tg.hpp', O+'sgd/scd.hpp', O+'lbfgs/lbfgs.hpp'],
 [('published coefficient assigned on each exit', O)])
prop('C07', 'Updates step against the gradient by the scheduled learning rate',
 'Each stochastic update moves the weights by minus the scheduled learning rate times the (clipped, averaged or momentum-combined) gradient at the current weights on the current mini-batch, and with decay factors in their documented range the schedules start at the base rate and never increase from one epoch to the next.',
 ['inputs', 'configurations', 'histories'], 'all gradients, rates, decay parameters, epochs',
 'A wrong sign, stale gradient or rising schedule still terminates on the tests and they check no value.',
 [O+'sgd/sgd.hpp', O+'sgd/sag.hpp', O+'sgd/tg.hpp', O+'sgd/update_policies/vanilla_update.hpp', O+'sgd/update_policies/momentum_update.hpp', O+'sgd/update_policies/nesterov_momentum_update.hpp', O+'sgd/decay_policies/step_decay.hpp', O+'sgd/decay_policies/exponential_decay.hpp'],
 [('update policies', O+'sgd/update_policies'), ('decay policies', O+'sgd/decay_policies'), ('mini-batch step', O+'sgd/*.hpp')])
prop('C08', 'Samples stay paired with their targets through shuffling and batching',
 'Shuffling permutes the rows of the data and the targets by one and the same permutation, and every mini-batch handed to a loss consists of the same rows of data and targets; within an epoch the batches are consecutive, non-overlapping, in range and of the configured size.',
 ['inputs', 'configurations', 'schedules'], 'all data, batch sizes and random permutations',
 'Tests cannot see which rows reach the loss, and the permutation is random.',
 [M+'shuffle.hpp', O+'sgd/sgd.hpp', O+'sgd/sag.hpp', O+'sgd/tg.hpp', O+'sgd/scd.hpp'],
 [('one permutation applied to both', M+'shuffle.hpp'), ('equal row ranges', O+'sgd/*.hpp')])
prop('C09', 'Line searches accept only steps meeting their decrease condition',
 'Both line searches, for every loss and start point, report success only for a step that satisfies the sufficient-decrease test (and, when configured, the weak or strong curvature test) with the value and gradient recomputed at that very step, evaluate at most the configured number of trial points, and reject non-positive steps and ascent directions; after a failed search the quasi-Newton optimizer goes back to the previous point.',
 ['inputs', 'configurations', 'histories'], 'all losses, points, directions, steps and line-search parameters',
 'The L-BFGS test follows one trajectory with default parameters.',
 [O+'lbfgs/lbfgs.hpp', O+'lbfgs/search_policies/backtracking.hpp', O+'lbfgs/search_policies/bracketing.hpp'],
 [('trial loop', O+'lbfgs/search_policies/*.hpp'), ('restore on failure', O+'lbfgs/lbfgs.hpp')])
prop('C10', 'Training without shuffling or random start is deterministic',
 'Loss evaluation, every inference call, the deterministic estimators, and every optimizer run with shuffling disabled consume no entropy: no random device, clock or global random state influences their results; inference never draws randomness.',
 ['inputs', 'configurations', 'schedules'], 'all inputs, with shuffling off',
 'Two runs agreeing on a sample does not show that no entropy source is reachable.',
 [M+'random.hpp', M+'shuffle.hpp', O+'sgd/sgd.hpp', O+'sgd/sag.hpp', O+'sgd/tg.hpp', O+'sgd/scd.hpp', O+'lbfgs/lbfgs.hpp', LM, 'src/methods'],
 [('shuffle guard', O+'sgd/*.hpp'), ('entropy only in random/shuffle helpers', M)])
prop('C11', 'Refitting forgets the previous training data',
 'Fitting an estimator a second time on new data leaves it in the same state as a fresh estimator with the same options fitted on that data: nothing learned from an earlier call enters the new model or accumulates in what it reports.',
 ['histories', 'inputs'], 'all sequences of fit calls on all data sets',
 'Every test fits each estimator object once.',
 ['src/methods'],
 [('fit', 'each estimator')])
prop('C12', 'Inference is read-only',
 'Prediction, probability, transform, scoring and query calls do not change the fitted model or the caller\'s data: repeating a call, or interleaving it with other such calls, returns the same answer.',
 ['histories', 'inputs'], 'all sequences of inference calls after a fit',
 'Tests call each inference method at most once per model.',
 ['src/methods', 'src/core/tree/kd_tree.hpp'],
 [('predict / predict_prob / transform / score / query', 'each estimator')])
prop('C13', 'Each sample is predicted independently of the rest of the batch',
 'Row i of every prediction, probability, transform or query result depends only on row i of the query matrix and on the fitted model, never on the other rows or on the number of rows in the batch.',
 ['inputs', 'histories'], 'all fitted models and all query batches',
 'Tests predict one batch only.',
 ['src/methods', 'src/core/tree/kd_tree.hpp'],
 [('predict / predict_prob / transform / query', 'each estimator')])
prop('C14', 'Unknown option values are rejected, not silently ignored',
 'Whenever a method is given an option value outside its documented set (solver, penalty, metric, criterion, initialisation, covariance type, line-search policy, normaliser, axis), it throws before delivering a result; documented values are never rejected.',
 ['configurations'], 'every string or axis value of every option of every component',
 'Tests use valid options only.',
 ['src/methods', 'src/core'],
 [('option dispatch chains', 'each component')])
prop('C15', 'Nearest-neighbour classification votes over the nearest training rows',
 'A fitted k-nearest-neighbours classifier answers every query row with a label that occurs most often among the labels of the requested number of nearest training rows in the requested metric, with either solver, and keeps nothing of an earlier fit; the mode helper returns a value of highest frequency together with that frequency.',
 ['inputs', 'configurations', 'histories'], 'all training sets, labels, queries, neighbour counts up to the training size, both solvers and metrics',
 'The test fits one data set with one solver and discards the prediction.',
 ['src/methods/neighbors/k_nearest_neighbors.hpp', M+'ops.hpp'],
 [('fit/predict/brute_force', 'src/methods/neighbors/k_nearest_neighbors.hpp'), ('mode', M+'ops.hpp')])
prop('C16', 'No result depends on uninitialised memory',
 'Every scalar, matrix or vector element, pointer and model field is written before it is read on every path, for every constructor and option combination for which the path is legal.',
 ['inputs', 'configurations', 'histories'], 'all paths, constructors and sizes',
 'Reading indeterminate memory usually yields zeros or old values under test; it neither crashes nor prints a diagnostic.',
 ['src/core', 'src/methods'],
 [('local and field initialisation', 'all functions')])
prop('C17', 'Sorting, ranking and selection helpers order correctly',
 'Sorting and argsorting along an axis return, for every input and direction, a true permutation in the requested order with ties kept in input order for argsort; comparators are strict weak orders; unique values come out sorted without duplicates; selection masks return exactly the positions whose entry is nonzero.',
 ['inputs', 'configurations'], 'all matrices and vectors of all sizes including one and two elements, both directions, both axes',
 'Tests sort one small matrix; ties, single elements and descending order are not covered.',
 ['src/core/common.hpp'],
 [('argsort / sort / sortrows / unique / where', 'src/core/common.hpp')])
prop('C18', 'Linear models solve the documented normal equations and predict with them',
 'Ordinary and ridge regression return the solution of the (lambda-regularised) normal equations of the data augmented with a ones column exactly when an intercept is requested; every linear model predicts with the same column layout it was fitted with, adding the intercept weight exactly once.',
 ['inputs', 'configurations'], 'all data, lambda, with and without intercept',
 'Tests fit one data set with intercept and print coefficients.',
 [LM+'base.hpp', LM+'linear_regression.hpp', LM+'ridge_regression.hpp', LM+'lasso_regression.hpp', LM+'perceptron.hpp', LM+'logistic_regression.hpp', LM+'softmax_regression.hpp'],
 [('ones column appended last', LM+'*.hpp fit_data'), ('intercept split', LM+'base.hpp predict_label')])
prop('C19', 'Binary classifiers decide on the side their training targets mean',
 'Logistic regression predicts class 1 exactly when the modelled probability of target 1 exceeds one half, reports probabilities with column k for class k, and its labels agree with its probabilities; the perceptron maps positive scores to the class whose training loss pulls scores positive.',
 ['inputs', 'histories'], 'all fitted models and queries',
 'The printed test output is not compared with the true labels.',
 [LM+'logistic_regression.hpp', LM+'perceptron.hpp', L+'log_loss.hpp', M+'extmath.hpp'],
 [('thresholding', LM+'logistic_regression.hpp predict'), ('probability columns', LM+'logistic_regression.hpp predict_label_prob')])
prop('C20', 'Classifiers choose the class with the highest score',
 'Every multi-class classifier returns for each sample the class whose score, likelihood, posterior or vote count is largest for that sample, with classes listed in ascending label order; a decision made on probabilities and one made on the underlying scores are the same class.',
 ['inputs', 'histories'], 'all fitted models, label sets and queries',
 'Predictions are printed, not checked, and labels in the tests are already 0..k-1.',
 ['src/methods/naive_bayes/base.hpp', 'src/methods/tree/decision_tree_classifier.hpp', LM+'softmax_regression.hpp', 'src/methods/mixture/gaussian_mixture.hpp', 'src/methods/neighbors/k_nearest_neighbors.hpp'],
 [('row-wise argmax', 'each classifier')])
prop('C21', 'K-means assigns to the nearest centroid and moves centroids to means',
 'In every iteration each sample is assigned to the centroid at smallest Euclidean distance, each non-empty cluster\'s centroid becomes the mean of exactly its samples, iteration stops when the total centroid movement is below the tolerance or the budget ends, and prediction uses the same nearest-centroid rule as training; initial centroids are samples.',
 ['inputs', 'histories', 'configurations'], 'all data, cluster counts, iterations',
 'The k-means test has one random start and checks nothing.',
 ['src/methods/cluster/kmeans.hpp'],
 [('assignment/mean loop', 'src/methods/cluster/kmeans.hpp kmeans_lloyd'), ('prediction', 'predict_label')])
prop('C22', 'Decision-tree splits partition the samples and prediction follows them',
 'Every split sends each training sample to exactly one of two complementary children by comparing one feature with one threshold, the split evaluated during search is the split applied, a node has either two children or none, growth respects the depth, split-size, leaf-size and impurity limits, and prediction descends by the same comparison that built the children.',
 ['inputs', 'configurations'], 'all data sets, labels and stopping parameters',
 'The tree tests fit one data set with default limits.',
 ['src/methods/tree/base.hpp', 'src/methods/tree/decision_tree_classifier.hpp', 'src/methods/tree/decision_tree_regressor.hpp', 'src/core/data/split.hpp'],
 [('best_split', 'src/methods/tree/base.hpp'), ('build_tree', 'src/methods/tree/*.hpp')])
prop('C23', 'KD-tree queries miss no neighbour',
 'A k-nearest or radius query never prunes a subtree that can hold a qualifying point: node boxes enclose the points below them, the pruning distance is the distance from the query to the box in the same metric as point distances, boundary ties are kept, every training row is stored in exactly one leaf with its original row number, and neighbours are reported in ascending distance.',
 ['inputs', 'configurations', 'histories'], 'all data sets, leaf sizes, metrics, query points, k and radii',
 'The test queries one small data set and prints the result.',
 ['src/core/tree/kd_tree.hpp', 'src/core/metric.hpp', 'src/core/common.hpp'],
 [('box construction', 'src/core/tree/kd_tree.hpp build_tree'), ('pruning', 'check_intersection'), ('candidate heap', 'query_single_data')])
prop('C24', 'Association rules report exact supports and confidences',
 'Every reported frequent itemset meets the minimum support with its true transaction count, every reported rule splits such an itemset into a non-empty antecedent and the complementary consequent, and its confidence is support(itemset)/support(antecedent) and at least the requested minimum; counting an itemset touches exactly the entry of that itemset.',
 ['inputs', 'configurations', 'histories'], 'all transaction lists and thresholds',
 'The test mines one list and prints the rules.',
 ['src/methods/rule_model/apriori.hpp', 'src/core/tree/hash_tree.hpp', 'src/core/preprocessing/transaction_encoder.hpp', 'src/core/common.hpp'],
 [('fit_data/transform_data', 'src/methods/rule_model/apriori.hpp'), ('insert/add_support/dfs', 'src/core/tree/hash_tree.hpp')])
prop('C25', 'Loading a text file yields every row, or an error',
 'Loading throws when the file cannot be opened; otherwise every line becomes one row in file order with the last column as target and all earlier columns as features, identically for the matrix and the vector forms, and no element outside the parsed data is ever read.',
 ['inputs', 'fault_sequences'], 'all file contents, including missing, empty and ragged files',
 'Tests load one well-formed file.',
 ['src/core/data/load.hpp'],
 [('loadtxt overloads', 'src/core/data/load.hpp')])
prop('C26', 'Data splitting is a partition',
 'Splitting into train and test sets puts each sample with its target into exactly one side, the train side holding the requested fraction of rows in order; splitting on a feature puts each row index into exactly one of the two sides, the first side holding exactly the rows not above the threshold.',
 ['inputs', 'configurations'], 'all data, fractions, thresholds',
 'No test checks the union or disjointness of the parts.',
 ['src/core/data/split.hpp'],
 [('train_test_split / divide_on_feature', 'src/core/data/split.hpp')])
prop('C27', 'Hyper-parameters reach the component they configure',
 'Each constructor argument of an estimator, optimizer, loss, policy or tree ends up, unmodified, in the role its position in the public interface names: regularisation strength in the loss, tolerances, budgets, batch sizes, mixing ratios and switches in the optimizer, options in the algorithm; defaults equal the published ones and no two are exchanged.',
 ['configurations'], 'all values of all constructor arguments',
 'Two exchanged numeric arguments compile and converge on the tests\' defaults.',
 ['src/methods', 'src/core/optimizer', 'src/core/loss', 'src/core/tree'],
 [('constructor initialisers', 'each class'), ('component construction inside fit', LM+'*.hpp')])
prop('C28', 'Decompositions reproduce their documented factors and ratios',
 'PCA components are the right singular vectors of the centred training data in order of decreasing singular value with variance s^2/(n-1) and ratios relative to the total variance, sign flipping multiplies paired left and right vectors by the same sign, and transforming applies to any query the training centring and the stored components; truncated SVD projects on its components without centring.',
 ['inputs', 'configurations'], 'all data, component counts',
 'Tests print one decomposition.',
 ['src/methods/decomposition/pca.hpp', 'src/methods/decomposition/truncated_svd.hpp', M+'linalg.hpp', M+'extmath.hpp'],
 [('fit_data/transform_data', 'src/methods/decomposition'), ('svd_flip', M+'extmath.hpp')])
prop('C29', 'Gaussian mixtures apply the EM equations and keep the best start',
 'Responsibilities are the normalised weighted densities, the M-step recomputes weights, means and (full or tied) covariances from them by the documented weighted formulas with the regulariser on the diagonal, densities use the Cholesky factor of the precision with its log-determinant, and after several starts the parameters reported together all come from the start with the highest bound.',
 ['inputs', 'configurations', 'histories'], 'all data, component counts, starts, covariance types',
 'The test has a random start and compares nothing.',
 ['src/methods/mixture/gaussian_mixture.hpp', M+'linalg.hpp'],
 [('e_step/m_step', 'src/methods/mixture/gaussian_mixture.hpp'), ('best snapshot', 'fit_data')])
prop('C30', 'Naive Bayes scores are log prior plus log likelihood',
 'For each sample and class the score is the log of the class\'s training frequency plus the class-conditional log likelihood: the normal log density with that class\'s feature means and smoothed variances, or the count-weighted log of the smoothed relative feature frequencies.',
 ['inputs', 'histories'], 'all training sets, label sets, smoothing values and queries',
 'The tests print results only.',
 ['src/methods/naive_bayes/base.hpp', 'src/methods/naive_bayes/gaussian_naive_bayes.hpp', 'src/methods/naive_bayes/multinomial_naive_bayes.hpp'],
 [('joint_log_likelihood', 'src/methods/naive_bayes'), ('per-class statistics', 'src/methods/naive_bayes')])
prop('C31', 'All public headers can be used together, in any order, in many units',
 'Any set of the library\'s usable public headers can be included in one translation unit in any order and in several units of one program, and every public class template in them can be instantiated.',
 ['programs'], 'every ordered pair of headers, several translation units',
 'Each test includes a single component in a single unit.',
 ['src'],
 [('include guards and inline definitions', 'all headers')])
prop('C32', 'Container helpers stay inside their arguments',
 'For every argument that satisfies their checks (nested vectors rectangular with non-empty rows, fractions and column numbers in their documented range), the vector helpers, distance functions, slicing, merging and conversion helpers read and write only elements that exist, and every value-returning helper returns a value on every path.',
 ['inputs'], 'all vector lengths including empty and unequal ones, all index ranges',
 'Out-of-range reads rarely crash and the tests use well-formed equal-length data.',
 ['src/core/common.hpp', 'src/core/metric.hpp'],
 [('argument checks', 'src/core/common.hpp, src/core/metric.hpp')])
prop('C33', 'Impurity and split gain follow their definitions',
 'Gini impurity and entropy are computed from the weighted class frequencies of exactly the given labels, and a candidate split is scored by the sample-weighted impurity of its children so that a purer split never scores lower than a less pure one of the same node, for classification and regression criteria alike.',
 ['inputs', 'configurations'], 'all label and target vectors, weights, splits, criteria',
 'Tests never compute an impurity.',
 [M+'extmath.hpp', 'src/methods/tree/decision_tree_classifier.hpp', 'src/methods/tree/decision_tree_regressor.hpp', 'src/methods/tree/base.hpp'],
 [('gini/entropy', M+'extmath.hpp'), ('compute_impurity', 'src/methods/tree')])
prop('C34', 'Metrics, distances and densities equal their definitions',
 'Euclidean, Manhattan, Minkowski (orders 1, 2, infinity) distances, mean error, explained variance, matrix norms by order, the Gaussian log density, log-determinant, pseudo-inverse and factorisation helpers return the documented quantity with operands in the documented roles.',
 ['inputs', 'configurations'], 'all vectors and matrices, every accepted order',
 'No test compares a metric with a reference value.',
 ['src/core/metric.hpp', M+'proba.hpp', M+'linalg.hpp', 'src/core/common.hpp'],
 [('formulas', 'src/core/metric.hpp, '+M+'linalg.hpp')])
prop('C35', 'Quasi-Newton directions use the two-loop recursion on stored pairs',
 'The L-BFGS optimizer stores, for each accepted step, the difference of points and of gradients with their inner product in a ring of the configured size, and each new direction is the two-loop recursion over exactly the stored pairs from newest to oldest and back, starting from the negative current gradient.',
 ['inputs', 'histories', 'configurations'], 'all losses, start points, memory sizes, iteration counts including wrap-around',
 'The test runs fewer iterations than the memory size needs to wrap.',
 [O+'lbfgs/lbfgs.hpp'],
 [('history ring and two loops', O+'lbfgs/lbfgs.hpp')])
prop('C36', 'L1 optimizers apply the exact shrinkage step',
 'Stochastic coordinate descent changes exactly one coordinate per iteration, the one with the largest predicted decrease, by the soft-threshold step of the current gradient; truncated gradient never moves a weight across zero and shrinks by the accumulated penalty.',
 ['inputs', 'histories', 'configurations'], 'all gradients, weights, penalties',
 'Tests print final weights of one run.',
 [O+'sgd/scd.hpp', O+'sgd/tg.hpp'],
 [('coordinate choice and step', O+'sgd/scd.hpp'), ('truncate', O+'sgd/tg.hpp')])
prop('C40', 'Optimizers converge to a minimiser of convex losses',
 'On a convex objective with suitable step sizes, every optimizer\'s published coefficients approach a minimiser as the iteration budget grows.',
 ['inputs', 'histories'], 'all convex data sets', 'Convergence is a limit statement; tests check one run.',
 [O], [('optimize', O)])
prop('C41', 'EM and k-means objectives improve monotonically',
 'The mixture log-likelihood never decreases and the k-means distortion never increases from one iteration to the next.',
 ['inputs', 'histories'], 'all data and starts', 'Tests do not track the objective.',
 ['src/methods/mixture/gaussian_mixture.hpp', 'src/methods/cluster/kmeans.hpp'], [('iteration', 'src/methods')])
prop('C42', 'Factorisations are numerically accurate',
 'Reconstructing a matrix from its LU, QR, SVD or eigen factors reproduces it up to rounding, and randomized SVD approximates the leading singular triplets.',
 ['inputs'], 'all matrices', 'Tests print one factorisation.',
 [M+'linalg.hpp'], [('factorisation wrappers', M+'linalg.hpp')])
prop('C43', 'Random draws are uniform and permutations unbiased',
 'Random matrices follow the requested distribution and shuffles are uniform over permutations.',
 ['schedules'], 'all seeds', 'A statistical statement; tests draw once.',
 [M+'random.hpp', M+'shuffle.hpp'], [('generators', M)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
