"""known_findings.json from the two tables below: repaired defects (suppress nothing) and listed findings."""
import json, os, subprocess
FIXED = [
 ('C01', '67c4669', 'softmax loss value used (sum W)^2 instead of sum W^2, so the gradient was not its derivative'),
 ('C01', '47c32d0', 'hinge gradient accumulated into uninitialised memory'),
 ('C01', 'e67a37e', 'Huber loss did not compile and compared the whole residual vector with delta'),
 ('C17', '5950509', 'matrix argsort reused the permutation of the previous row or column and produced an index one past the end'),
 ('C17', '3fbee71', 'sortrows comparators fell off the end for equal rows'),
 ('C32', '21e2a85', '2d slice read past the end for ranges longer than the data'),
 ('C32', '82a7b97', '1d slice copied from begin+start to end+end+1'),
 ('C32', '49399aa', 'vector argsort wrote into an empty vector'),
 ('C32', '16f1cac', 'is_equal read past the shorter vector'),
 ('C14', '07d1e2d', 'axis and order values outside the documented set returned empty or uninitialised results'),
 ('C14', '111a67f', 'shuffle_data assigned the axis instead of comparing it, accepting every axis'),
 ('C34', 'c8e462c', 'mean absolute error averaged squared errors'),
 ('C32', '0718d05', 'vector distances read past the end of the shorter vector'),
 ('C31', '65ec00b', 'entropy and gini did not compile when instantiated'),
 ('C31', '2eb24a6', 'eig did not compile when instantiated'),
 ('C31', '804e213', 'exact_svd did not compile for float matrices'),
 ('C28', '5ec0540', 'randomized_svd flipped full factors whose columns do not pair up'),
 ('C16', '1e597dd', 'string_to_integer returned an uninitialised number for an empty string'),
]
FIXED_BY_SUBJECT = [
    ('C31', 'k-nearest neighbours compiles', 'the class template could not be instantiated; votes were counted per column of the query batch'),
    ('C23', 'the root of the KD-tree bounds its children', 'the root boxes were split along another axis than the data: queries skipped subtrees that hold the nearest rows'),
    ('C23', 'KD-tree queries keep boxes that touch', 'a box with a row exactly at the radius was skipped'),
    ('C23', 'KD-tree radius queries answer every query row', 'only the first query row was answered'),
    ('C14', 'perceptron rejects unknown penalties', 'any penalty string was accepted and ignored'),
    ('C14', 'softmax regression rejects unknown solvers', 'any solver and penalty string was accepted and ignored'),
    ('C14', 'the KD-tree rejects unknown metrics', 'an unknown metric left the norm order uninitialised'),
    ('C14', 'line searches reject unknown conditions', 'an unknown condition was treated as STRONG_WOLFE'),
    ('C14', 'randomized_svd rejects unknown normalizers', 'with zero power iterations an unknown normalizer was accepted'),
    ('C14', 'decision trees reject unknown criteria', 'an unknown criterion was accepted when the tree is a single leaf'),
    ('C13', 'softmax accepts a single row', 'softmax regression threw for a query of one row that it answers within a larger batch'),
    ('C25', 'loading rejects empty files', 'loadtxt of an empty file read stdmat[0], and rows shorter than the first were read beyond their end'),
    ('C25', 'loading into vectors replaces', 'loadtxt into vectors appended to their previous contents (X and y of different lengths)'),
 ('C21', 'k-means moves a centroid to the mean row of its cluster', 'a 1 x p centroid row was assigned a p x 1 transposed mean: aborts on every fit with assertions enabled'),
 ('C14', 'k-means rejects unknown initialisation methods', 'an unknown init left the centroids uninitialised'),
 ('C21', 'random k-means starts need at least as many samples as clusters', 'fewer samples than clusters selected rows that do not exist'),
 ('C32', 'max_element of an empty container throws', 'max_element dereferenced end() of an empty map'),
 ('C33', 'entropy and gini normalise the class frequencies', 'weighted class frequencies were divided by the number of samples and did not sum to one'),
 ('C22', 'a decision tree node gets both children or none', 'a node could get one child only and prediction followed the missing one'),
 ('C33', 'the gini criterion scores a split by its impurity decrease', 'the gini score was 1 - impurity, so every split passed the minimum decrease'),
 ('C33', 'the squared error criterion weights the child variances', 'child variances were weighted by sample counts, the parent by one'),
 ('C33', 'the absolute error criterion averages absolute deviations', 'signed deviations from the median were summed'),
 ('C22', 'the regression tree stops on the standard deviation', 'the node standard deviation was sqrt(norm/n)'),
 ('C11', 'refitting a decision tree classifier forgets', 'label counts accumulated over fits'),
 ('C20', 'the decision tree classifier predicts class labels', 'predict returned class positions'),
 ('C34', 'lu returns factors whose product', 'lu returned the inverse row permutation and dropped the column permutation'),
    ('C31', 'lasso_regression.hpp has its own include guard', 'lasso_regression.hpp shared the include guard of ridge_regression.hpp'),
    ('C18', 'lasso regression trains on the data with the intercept', 'training ignored the ones column, prediction used the last weight as intercept'),
    ('C18', 'the perceptron trains on the data with the intercept', 'training ignored the ones column, prediction used the last weight as intercept'),
    ('C19', 'the perceptron trains with targets -1 and 1', 'targets 0 gave the hinge loss no direction for class 0'),
    ('C18', 'softmax regression trains on the data with the intercept', 'training ignored the ones column'),
    ('C18', 'softmax regression adds the intercept weights', 'the intercept row was never added to the scores'),
    ('C20', 'softmax regression accepts any label values', 'labels indexed the weight columns directly and predict returned positions'),
    ('C19', 'logistic regression predicts class 1 when', 'predictions and probability columns were swapped'),
    ('C16', 'every logistic regression constructor initialises', 'options not listed in a constructor were indeterminate'),
    ('C38', 'optimizers and line searches owned through their base', 'deleted through a base class without virtual destructor'),
    ('C16', 'every optimizer constructor initialises all options', 'multi_class_ and other switches were indeterminate'),
    ('C06', 'lbfgs publishes the start point', 'returned without publishing any coefficients'),
    ('C16', 'lbfgs with past = 0 skips the objective test', 'iteration modulo past divided by zero'),
    ('C07', 'exponential decay lowers the learning rate', 'the rate grew exponentially'),
    ('C07', 'momentum updates keep their velocity', 'the velocity was reset at every update'),
    ('C07', 'Nesterov momentum compiles and keeps its velocity', 'did not compile, velocity was reset'),
    ('C07', 'sag averages the stored gradients', 'divided by the batch size instead of the number of stored gradients'),
    ('C36', 'truncated gradient remembers the penalty', 'the applied penalty was reset after every call'),
    ('C11', 'refitting naive Bayes forgets the labels', 'label counts accumulated over fits'),
    ('C20', 'naive Bayes predicts class labels, not class positions', 'predict returned class positions'),
    ('C30', 'Gaussian naive Bayes adds the prior of the class', 'the whole prior matrix was added to one column'),
    ('C30', 'Gaussian naive Bayes returns all class means', 'a matrix was returned as a vector'),
    ('C30', 'multinomial naive Bayes stores feature counts as a column', 'a row was assigned to a column'),
    ('C32', 'naive Bayes selects only existing columns', 'single feature data read a column past the end'),
 ('C12', 'PCA transform and score centre queries', 'queries were centred with their own mean: the result for a row depended on the other rows'),
 ('C28', 'PCA covariance subtracts the noise', 'the noise variance was subtracted from every entry'),
 ('C12', 'PCA precision and score no longer depend', 'results depended on an earlier get_covariance call'),
 ('C14', 'PCA rejects an unknown solver', 'an unknown solver silently produced an empty model'),
 ('C14', 'TruncatedSVD rejects an unknown solver', 'an unknown solver silently produced an empty model'),
 ('C11', 'refitting a Gaussian mixture forgets', 'precisions of an earlier fit were kept and appended to'),
 ('C29', 'tied Gaussian mixtures use the shared log', 'the log determinant of the shared covariance was used for one component only'),
 ('C14', 'Gaussian mixtures reject unknown', 'unknown covariance types and initialisations were accepted and produced empty parameters'),
]
KNOWN = [
 dict(property='C31', obligation='header methods/cluster/spectral_clustering.hpp is self-contained', where='methods/cluster/spectral_clustering.hpp', what='unfinished: predict names an undeclared type, has no return value, and nothing is fitted; any unit that includes the header fails to compile',
      line='KNOWN-FINDING: property=C31 methods/cluster/spectral_clustering.hpp does not compile (unfinished class)'),
 dict(property='C27', obligation='cluster::KMeans: option num_init is used', where='cluster::KMeans::KMeans', what='KMeans stores num_init and never reads it: one start is made whatever value is given (repair would add a feature: restarts and a choice among them)',
      line='KNOWN-FINDING: property=C27 KMeans(init, num_init, ...): num_init is stored and never used'),
]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
extra = os.path.join(V, 'tools', 'findings_extra.json')
X = json.load(open(extra)) if os.path.exists(extra) else {'fixed': [], 'known': []}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
rows = list(FIXED)
for p, s, w in FIXED_BY_SUBJECT + [tuple(x) for x in X['fixed']]:
    h = [l.split()[0] for l in log if s in l]
    assert len(h) == 1, (s, h)
    rows.append((p, h[0], w))
out = [dict(status='fixed', property=p, commit=h, what=w, line='fixed: property=%s %s %s' % (p, h, w)) for p, h, w in rows]
out += [dict(status='known', **k) for k in KNOWN + X['known']]
json.dump(out, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(rows), 'fixed', len(out) - len(rows), 'known')
