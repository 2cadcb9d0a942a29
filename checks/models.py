"""Every estimator and query structure with its inference calls, for the properties that quantify over all of them."""
from .est import *
from oml.values import veq

NQ = sym('nq', 'Z', 'dim')
VOID = lambda *a: OpqV('void')


class Model:
    """one class with its inference methods; state: 'sym' = arbitrary fitted state, 'fit' = state left by fit"""
    def __init__(self, tu, q, infer, state='sym', args=(), fit=None, hooks=None, label=None, extra=()):
        self.tu, self.q, self.infer, self.state, self.args, self.fit, self.hooks = tu, q, infer, state, list(args), fit, hooks or {}
        self.name = q.split('::')[-1]
        self.label = label or self.name
        self.extra = extra              # further read-only calls (getters) used as witnesses
        self.rec = []

    def start(self, an, state=None):
        """a model in its state"""
        self.rec = []
        h = opt_hooks(self.rec)
        h.update(self.hooks)
        an.new(h)
        ci = klass(an, self.q)['idx']
        if (state or self.state) == 'sym':
            return an.symobj(ci)
        o = an.obj(ci, self.args)
        if self.dofit(an, o, '').dead:
            raise Dead('fit always throws')
        return o

    def data(self, an, sfx=''):
        n, p = (R_, C_) if not sfx else (sym('n' + sfx, 'Z', 'dim'), sym('p' + sfx, 'Z', 'dim'))
        return an.mat('X' + sfx, n, p), an.vec('y' + sfx, n)

    def dofit(self, an, o, sfx):
        X, y = self.data(an, sfx)
        return an.call(o, 'fit', [X, y] if self.fit == 'xy' else [X])

    def align(self, an):
        """give the next call the same internal numbering in every run that is compared"""
        an.e.cnt = max(an.e.cnt, 10 ** 6)

    def call(self, an, o, m, Q):
        name, args = m
        return an.call(o, name, [Q if a == 'Q' else a for a in args])

    def fn(self, an, m):
        return method(an, klass(an, self.q)['idx'], m[0], len(m[1]))


def P(*names):
    return [(n, ['Q']) for n in names]


LMQ, NBQ, DT = 'openml::linear_model::', 'openml::naive_bayes::', 'openml::decision_tree::'
TH = {'build_tree()': VOID}


def all_models():
    return [
        Model('linear', LMQ + 'LinearRegression', P('predict'), fit='xy', args=[TRUE], extra=['get_coef']),
        Model('linear', LMQ + 'RidgeRegression', P('predict'), fit='xy', args=[SYM['lambda'], TRUE], extra=['get_coef']),
        Model('lasso', LMQ + 'LassoRegression', P('predict'), fit='xy', extra=['get_coef']),
        Model('linear', LMQ + 'LogisticRegression', P('predict', 'predict_prob'), fit='xy', extra=['get_coef']),
        Model('linear', LMQ + 'SoftmaxRegression', P('predict', 'predict_prob'), fit='xy'),
        Model('linear', LMQ + 'Perceptron', P('predict'), fit='xy', extra=['get_coef']),
        Model('nb', NBQ + 'GaussianNB', P('predict', 'predict_prob', 'predict_log_prob'), fit='xy', extra=['get_mean', 'get_var', 'get_prior_prob', 'get_classes']),
        Model('nb', NBQ + 'MultinomialNB', P('predict', 'predict_prob', 'predict_log_prob'), fit='xy', extra=['get_features_count', 'get_prior_prob', 'get_classes']),
        Model('gmm', 'openml::mixture_model::GaussianMixture', P('predict', 'predict_prob'), fit='x', extra=['get_weights', 'get_means', 'get_covariance', 'get_precisions_cholesky']),
        Model('decomp', 'openml::decomposition::PCA', P('transform') + [('score', ['Q']), ('get_covariance', []), ('get_precision', [])], state='fit', args=[S('svd'), sym('nc', 'Z', 'dim')], fit='x',
              extra=['get_components', 'get_explained_var', 'get_explained_var_ratio', 'get_singular_values']),
        Model('decomp', 'openml::decomposition::TruncatedSVD', P('transform'), fit='x', extra=['get_components', 'get_explained_var', 'get_explained_var_ratio', 'get_singular_values']),
        Model('kmeans', 'openml::cluster::KMeans', P('predict'), fit='x'),
        Model('tree', DT + 'DecisionTreeClassifier', P('predict', 'predict_prob'), fit='xy', hooks=TH),
        Model('tree', DT + 'DecisionTreeRegressor', P('predict'), fit='xy', hooks=TH),
        Model('structs', 'openml::tree::KDTree', [('query', ['Q', sym('k', 'Z', 'dim')]), ('query_radius', ['Q', sym('rad', 'R', 'pos')])]),
    ]


def parts(v, pre=''):
    """the matrices / lists / scalars of an answer"""
    if isinstance(v, TupV):
        out = []
        for i, x in enumerate(v.xs):
            out += parts(x, '%s<%d>' % (pre, i))
        return out
    return [(pre, v)]


def same_value(a, b, cfg, unknown_ok=False):
    """verdict of value equality: element-wise at arbitrary positions"""
    if veq(a, b):
        return Verdict('same', 'identical values')
    if isinstance(a, MatV) and isinstance(b, MatV):
        for x, y in ((a.r, b.r), (a.c, b.c)):
            v = equal(x, y, cfg, unknown_ok)
            if v.kind != 'same':
                return v
        i, j = idx('i*', a.r), idx('j*', a.c)
        return equal(a.at(i, j), b.at(i, j), cfg, unknown_ok)
    if isinstance(a, ListV) and isinstance(b, ListV):
        v = equal(a.n, b.n, cfg, unknown_ok)
        if v.kind != 'same':
            return v
        k = idx('k*', a.n)
        return same_value(a.at(k), b.at(k), cfg, unknown_ok)
    if isinstance(a, TupV) and isinstance(b, TupV) and len(a.xs) == len(b.xs):
        for x, y in zip(a.xs, b.xs):
            v = same_value(x, y, cfg, unknown_ok)
            if v.kind != 'same':
                return v
        return Verdict('same', 'component-wise')
    if isinstance(a, MapV) and isinstance(b, MapV):
        k = a.k
        v = equal(b2t(a.has(k)), b2t(b.has(k)), cfg, unknown_ok)
        if v.kind != 'same' or a.val is None or b.val is None:
            return v
        x, y = a.get(k) if hasattr(a, 'get') else None, b.get(k) if hasattr(b, 'get') else None
        return same_value(x, y, cfg, unknown_ok) if x is not None else Verdict('unknown', 'map values')
    if isinstance(a, T) and isinstance(b, T):
        f = lambda t: b2t(t) if srt(t) == 'B' else t
        return equal(f(a), f(b), cfg, unknown_ok)
    return Verdict('unknown', 'values of kind %s / %s' % (type(a).__name__, type(b).__name__))
