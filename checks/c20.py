"""Multi-class decisions: the class with the highest score, classes in ascending label order."""
from .est import *
from . import c30
VOID = lambda e, f, this, args, st, node: OpqV('void')
LABD = ('choice', [-3.0, 0.5, 2.0, 7.0])


def best(K, key, sc):
    k = fresh('k')
    return lambda i: key(bind('argmax', K, k, sc(i, k)))


def softmax(c, an, args):
    nm = conf_name('SoftmaxRegression', args)
    t = Fitted(c, an, 'SoftmaxRegression', args)
    if t.r.dead:
        return c.ob(nm + ': fit', t.where, 'diff', 'accepted', 'fit always throws for a documented configuration')
    if len(t.rec) != 1:
        return c.undecided(nm, t.where, '%d optimizer runs found' % len(t.rec))
    r = t.rec[0]
    K, key, pos = labels_of(t.y, R_)
    cfg = Cfg(dict(dims(), n=('int', 2, 6), y=LABD), modes=(0,), trials=c.trials(40, 160))
    c.eqmat(nm + ': training targets are positions in ascending label order', r['where'], r['y'], R_, ONE, lambda i, j: pos(t.y.at(i, ZERO)), cfg, 'class k of the loss is the k-th smallest label')
    c.eq(nm + ': one weight column per class', r['where'], r['coef'].c, K, cfg, 'class count equals the number of distinct labels')
    nq = sym('nq', 'Z', 'dim')
    Q = an.mat('Q', nq, C_)
    sc = score(Q, r['coef'], C_, True)
    o, w = t.query('predict', [Q], c)
    c.eqmat(nm + ': predicts the label of the largest score', w, o.val(), nq, ONE, lambda i, j: best(K, key, sc)(i), cfg, 'decision is the row-wise argmax of the scores')


def nb(c, an, q, args, jll, xdom):
    cl, o, X, y, r, w = c30.fitted(c, an, q, args)
    if r.dead:
        return c.ob(q + ': fit', w, 'diff', 'accepted', 'fit always throws')
    Q = an.mat('Q', sym('nq', 'Z', 'dim'), C_)
    K, S_ = jll(X, y, Q)
    _, key, _ = labels_of(y, R_)
    cfg = Cfg(dict(c30.DOM, **xdom), modes=(0,), trials=c.trials(40, 160))
    P, w = c30.query(c, an, cl, o, 'predict', [Q])
    c.eqmat(q + ': predicts the label of the largest joint log likelihood', w, P.val(), Q.r, ONE, lambda i, j: best(K, key, S_)(i), cfg, 'decision is the row-wise argmax of the scores')


def tree(c, an):
    q = 'openml::decision_tree::DecisionTreeClassifier'
    cl = klass(an, q)
    P = {}

    def prob(e, f, this, args, st, node):
        x = e.read(args[0], st) if e._is_lv(args[0]) else args[0]
        return MatV(x.r, P['K'], el(ten('P'), I, J))
    an.new({'build_tree()': VOID, q + '::predict_prob': prob})
    o = an.obj(cl['idx'], [])
    X, y = an.mat('X', R_, C_), an.vec('y', R_)
    r = an.call(o, 'fit', [X, y])
    K, key, _ = labels_of(y, R_)
    P['K'] = K
    Q = an.mat('Q', sym('nq', 'Z', 'dim'), C_)
    w = c.loc(method(an, cl['idx'], 'predict', 1))
    v = an.call(o, 'predict', [Q])
    cfg = Cfg(dict(dims(), n=('int', 2, 6), y=LABD), modes=(0, 1), trials=c.trials(40, 160))
    c.eqmat('DecisionTreeClassifier: predicts the label with the largest leaf probability', w, v.val(), Q.r, ONE,
            lambda i, j: best(K, key, lambda i, k: el(ten('P'), i, k))(i), cfg, 'decision is the row-wise argmax of the probabilities')
    # class counts of a node line up with the ascending labels of the training set
    an.new({'build_tree()': VOID})
    o = an.obj(cl['idx'], [])
    an.call(o, 'fit', [X, y])
    m = sym('m', 'Z', 'dim')
    z = an.vec('z', m)
    f = method(an, cl['idx'], 'compute_node_value', 1)
    v = an.run(f, [z], o).val()
    i = fresh('i')
    cnt = lambda c_: sum_(m, i, b2t(eq(z.at(i, ZERO), key(c_))))
    if not isinstance(v, TupV):
        return c.undecided('DecisionTreeClassifier: node counts', c.loc(f), 'not a tuple')
    c.eqmat('DecisionTreeClassifier: node counts are listed in ascending label order', c.loc(f), v.xs[0], K, ONE, lambda i, j: cnt(i),
            Cfg(dict(dims(), n=('int', 2, 6), m=('int', 1, 6), y=LABD, z=LABD), modes=(0,), trials=c.trials(40, 160)), 'count k belongs to the k-th smallest label')


def run(c):
    c.prefetch('linear', 'nb', 'tree')
    an = c.an('linear')
    for args, icpt, _, roles in CONF['SoftmaxRegression']:
        c.guarded('SoftmaxRegression', softmax, c, an, args)
    an = c.an('nb')
    s, a = sym('s', 'R', 'pos'), sym('a', 'R', 'pos')
    c.guarded('GaussianNB', nb, c, an, 'GaussianNB', [s], lambda X, y, Q: c30.gaussian_jll(X, y, Q, s), {'s': ('real', 0.05, 0.5)})
    c.guarded('MultinomialNB', nb, c, an, 'MultinomialNB', [a], lambda X, y, Q: c30.multinomial_jll(X, y, Q, a), {'X': ('real', 0.0, 3.0), 'Q': ('real', 0.0, 3.0), 'a': ('real', 0.1, 2.0)})
    c.guarded('DecisionTreeClassifier', tree, c, c.an('tree'))
