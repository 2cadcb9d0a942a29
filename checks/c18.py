"""Linear models: normal equations, column layout of training and prediction, intercept added once."""
from .est import *


def one(c, an, q, args, icpt, roles):
    nm = conf_name(q, args)
    t = Fitted(c, an, q, args)
    if t.r.dead:
        return c.ob(nm + ': fit', t.where, 'diff', 'accepted', 'fit always throws for a documented configuration')
    X, y = t.X, t.y
    pa, A = augmented(X, icpt)
    cfg = Cfg(dims(), modes=(0,), trials=c.trials(24, 96))
    k, k2 = fresh('k'), fresh('k')
    nq = sym('nq', 'Z', 'dim')
    Xq = an.mat('Q', nq, C_)
    if q in ('LinearRegression', 'RidgeRegression'):
        lam = roles.get('lambda', ZERO)
        M = mat(pa, pa, lambda i, j: add(sum_(R_, k, mul(A(k, i), A(k, j))), ite(eq(i, j), lam, ZERO)))
        inv = tapp('inv', 'R', toterm(M))
        w = lambda i, j: sum_(pa, k2, mul(el(inv, i, k2), sum_(R_, k, mul(A(k, k2), y.at(k, ZERO)))))
        g, _ = t.query('get_coef', [], c)
        c.eqmat(nm + ': coefficients solve the normal equations', t.where, g.val(), pa, ONE, w, cfg, 'value equals inv(A^T A + lambda I) A^T y')
        W = g.val()
        coef = MatV(pa, ONE, W.body) if isinstance(W, MatV) else None
    else:
        if len(t.rec) != 1:
            return c.undecided(nm, t.where, '%d optimizer runs found' % len(t.rec))
        r = t.rec[0]
        c.eqmat(nm + ': optimizer trains on X%s' % (' with a ones column last' if icpt else ''), r['where'], r['X'], R_, pa, A, cfg, 'training matrix has the prediction layout')
        if q == 'LassoRegression':
            c.eqmat(nm + ': optimizer trains on the targets', r['where'], r['y'], R_, ONE, lambda i, j: y.at(i, ZERO), cfg, 'targets unchanged')
        coef = r['coef']
        if q != 'SoftmaxRegression':
            g, w_ = t.query('get_coef', [], c)
            c.eqmat(nm + ': get_coef returns what the optimizer found', w_, g.val(), pa, ONE, lambda i, j: coef.at(i, ZERO), cfg, 'coefficients unchanged')
    sc = score(Xq, coef, C_, icpt)
    if q in ('LinearRegression', 'RidgeRegression', 'LassoRegression'):
        o, w_ = t.query('predict', [Xq], c)
        c.eqmat(nm + ': predict = X w%s' % (' + intercept' if icpt else ''), w_, o.val(), nq, ONE, lambda i, j: sc(i), cfg, 'prediction uses the training layout')
    elif q == 'Perceptron':
        o, w_ = t.query('predict', [Xq], c)
        c.eqmat(nm + ': predict thresholds X w%s' % (' + intercept' if icpt else ''), w_, o.val(), nq, ONE, lambda i, j: ite(lt(ZERO, sc(i)), ONE, ZERO), cfg.plus(), 'prediction uses the training layout')
    elif q == 'LogisticRegression':
        o, w_ = t.query('predict_prob', [Xq], c)
        sg = lambda x: div(ONE, add(ONE, fn('exp', neg(x))))
        c.eqmat(nm + ': probability of class 1 is the sigmoid of X w + intercept', w_, o.val(), nq, num(2), lambda i, j: ite(eq(j, ONE), sg(sc(i)), sub(ONE, sg(sc(i)))), cfg, 'prediction uses the training layout')
    elif q == 'SoftmaxRegression':
        o, w_ = t.query('predict_prob', [Xq], c)
        kk = fresh('c')
        E = lambda i, j: fn('exp', sc(i, j))
        c.eqmat(nm + ': probabilities are the softmax of X W + intercept', w_, o.val(), nq, coef.c, lambda i, j: div(E(i, j), sum_(coef.c, kk, E(i, kk))), cfg, 'prediction uses the training layout')


def run(c):
    c.prefetch('linear', 'lasso')
    for q, confs in CONF.items():
        an = c.an('lasso' if q == 'LassoRegression' else 'linear')
        for args, icpt, _, roles in confs:
            c.guarded(conf_name(q, args), one, c, an, q, args, icpt, roles)
