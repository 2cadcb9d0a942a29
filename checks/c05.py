"""C05: predicted class probabilities are distributions.

The result of every probability method is extracted as an element function of the query, the fitted state and (where the
statement depends on it) the training data; its row sum must normalise to 1, every entry must be non-negative, the column
count must be the number of classes."""
from .models import *
from . import c30
LABD = ('choice', [-3.0, 0.5, 2.0, 7.0])


def dist(c, an, m, meth, state, nclass, dom, modes=(2, 0), assume=()):
    nm = '%s::%s' % (m.label, meth)
    o = m.start(an, state)
    Q = an.mat('Q', NQ, C_)
    w = c.loc(m.fn(an, (meth, ['Q'])))
    r = an.call(o, meth, [Q])
    if r.dead:
        return c.ob(nm, w, 'diff', 'accepted', 'always throws')
    P = r.val()
    cfg = Cfg(dict(dims(), nq=('int', 1, 3), **dom), modes=modes, assume=list(assume), trials=c.trials(32, 128))
    if not isinstance(P, MatV):
        return c.undecided(nm, w, 'not a matrix value')
    c.eq(nm + ': one row per sample', w, P.r, NQ, cfg, 'row count of the result = row count of the query')
    row_sums(c, nm, w, P, cfg, nclass(an, o) if nclass else None)


def tree(c, an, m):
    """a leaf built from any subset of the training labels"""
    nm = m.label + '::predict_prob'
    no = lambda *a: TupV([ZERO, num(2 ** 64 - 1), ZERO])
    an.new({'best_split()': no})
    cl = klass(an, m.q)
    o = an.obj(cl['idx'], [])
    X, y = an.mat('X', R_, C_), an.vec('y', R_)
    if an.call(o, 'fit', [X, y]).dead:
        return c.ob(nm, c.loc(method(an, cl['idx'], 'fit', 2)), 'diff', 'accepted', 'fit always throws')
    from .c22 import node_type
    rf, ti = node_type(an, cl)
    K, key, pos = labels_of(y, R_)
    ns = sym('m', 'Z', 'dim')
    Xs, ys = an.mat('Xs', ns, C_), an.vec('ys', ns)
    nd = PtrV(an.root(an.e.default(ti, an.st, 'nd'), 'nd'))
    an.call(o, 'build_tree', [Xs, ys, nd, ONE])
    an.e.write(o.step('f', rf), nd, an.st)
    Q = an.mat('Q', NQ, C_)
    w = c.loc(method(an, cl['idx'], 'predict_prob', 1))
    P = an.call(o, 'predict_prob', [Q])
    if P.dead:
        return c.ob(nm, w, 'diff', 'accepted', 'always throws on a leaf')
    P = P.val()
    a, b = fresh('a'), fresh('b')
    sub_ = eq(sum_(ns, a, b2t(not_(any_(R_, b, eq(y.at(b, ZERO), ys.at(a, ZERO)))))), ZERO)
    cfg = Cfg(dict(dims(), n=('int', 3, 6), m=('int', 1, 3), nq=('int', 1, 3), y=('choice', [-3.0, 0.5, 2.0]), ys=('choice', [-3.0, 0.5, 2.0])), assume=[sub_], modes=(0,), trials=c.trials(60, 240))
    i, k = idx('i*', NQ), idx('k*', K)
    c.eq(nm + ': one row per sample', w, P.r, NQ, cfg, 'row count of the result = row count of the query')
    row_sums(c, nm, w, P, cfg, K)
    t = fresh('t')
    c.eq(nm + ': column k is the share of the k-th smallest label among the samples of the leaf', w, P.at(i, k), div(sum_(ns, t, b2t(eq(ys.at(t, ZERO), key(k)))), ns), cfg,
         'element function = count of the label in the leaf / leaf size')


def run(c):
    c.prefetch('linear', 'nb', 'gmm', 'tree')
    ms = {m.name: m for m in all_models()}
    lab = lambda an, o: labels_of(an.vec('y', R_), R_)[0]
    g = c.guarded
    g('LogisticRegression', dist, c, c.an('linear'), ms['LogisticRegression'], 'predict_prob', 'sym', lambda an, o: num(2), {})
    g('SoftmaxRegression', dist, c, c.an('linear'), ms['SoftmaxRegression'], 'predict_prob', 'fit', lab, {'n': ('int', 2, 6), 'y': LABD}, (0,))
    pos = {'X': ('real', 0.0, 3.0), 'Q': ('real', 0.0, 3.0)}
    g('GaussianNB', dist, c, c.an('nb'), ms['GaussianNB'], 'predict_prob', 'fit', lab, {'n': ('int', 3, 6), 'y': c30.DOM['y']}, (0,))
    g('MultinomialNB', dist, c, c.an('nb'), ms['MultinomialNB'], 'predict_prob', 'fit', lab, dict(pos, n=('int', 3, 6), y=c30.DOM['y']), (0,))
    g('GaussianMixture', dist, c, c.an('gmm'), ms['GaussianMixture'], 'predict_prob', 'sym', None, {}, (2,))
    g('DecisionTreeClassifier', tree, c, c.an('tree'), ms['DecisionTreeClassifier'])
