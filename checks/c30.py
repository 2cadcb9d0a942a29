"""Naive Bayes: normalised log prior plus class-conditional log likelihood."""
from .est import *
NB = 'openml::naive_bayes::'
HALF = num(Fraction(1, 2))


def fitted(c, an, q, args):
    an.new()
    cl = klass(an, NB + q)
    o = an.obj(cl['idx'], args)
    X, y = an.mat('X', R_, C_), an.vec('y', R_)
    r = an.call(o, 'fit', [X, y])
    return cl, o, X, y, r, c.loc(method(an, cl['idx'], 'fit', 2))


def query(c, an, cl, o, name, args):
    f = method(an, cl['idx'], name, len(args))
    return an.call(o, name, args), c.loc(f)


def stats(X, y):
    """class count, key, and per-class statistics of the training data"""
    K, key, _ = labels_of(y, R_)
    i, f = fresh('i'), fresh('f')
    m = lambda t, c: b2t(eq(y.at(t, ZERO), key(c)))
    cnt = lambda c: sum_(R_, i, m(i, c))
    fsum = lambda c, j: sum_(R_, i, mul(m(i, c), X.at(i, j)))
    mean = lambda c, j: div(fsum(c, j), cnt(c))
    var = lambda c, j: div(sum_(R_, i, mul(m(i, c), (lambda d: mul(d, d))(sub(X.at(i, j), mean(c, j))))), cnt(c))
    tot = lambda c: sum_(R_, i, sum_(C_, f, mul(m(i, c), X.at(i, f))))
    return K, key, cnt, fsum, mean, var, tot


def gaussian_jll(X, y, Q, s):
    K, key, cnt, fsum, mean, var, tot = stats(X, y)
    a, b, f = fresh('a'), fresh('b'), fresh('f')
    mx = bind('rmax', K, a, bind('rmax', C_, b, var(a, b)))
    v = lambda c, j: add(var(c, j), mul(s, mx))
    pi2 = mul(num(2), sym('pi'))
    two_pi = num(Fraction(repr(__import__('math').pi * 2)))
    return K, lambda i, c: add(fn('log', div(cnt(c), R_)), neg(mul(HALF, sum_(C_, f, fn('log', mul(two_pi, v(c, f)))))),
                               neg(mul(HALF, sum_(C_, f, div((lambda d: mul(d, d))(sub(Q.at(i, f), mean(c, f))), v(c, f))))))


def multinomial_jll(X, y, Q, al):
    K, key, cnt, fsum, mean, var, tot = stats(X, y)
    f = fresh('f')
    return K, lambda i, c: add(fn('log', div(cnt(c), R_)), sum_(C_, f, mul(Q.at(i, f), fn('log', div(add(fsum(c, f), al), add(tot(c), mul(al, C_)))))))


DOM = dict(n=('int', 3, 6), p=('int', 1, 3), nq=('int', 1, 3), y=('choice', [-1.0, 2.0, 5.0]))


def one(c, an, q, args, jll, xdom, hyper):
    nm = '%s(%s)' % (q, 'given ' + hyper if args else 'defaults')
    cl, o, X, y, r, w = fitted(c, an, q, args)
    if r.dead:
        return c.ob(nm + ': fit', w, 'diff', 'accepted', 'fit always throws')
    nq = sym('nq', 'Z', 'dim')
    Q = an.mat('Q', nq, C_)
    K, S_ = jll(X, y, Q)
    cfg = Cfg(dict(DOM, **xdom), modes=(0,), trials=c.trials(40, 160))
    k = fresh('k')
    P, w = query(c, an, cl, o, 'predict_log_prob', [Q])
    lse = lambda i: fn('log', sum_(K, k, fn('exp', S_(i, k))))
    c.eqmat(nm + ': log posterior is log prior + log likelihood, normalised', w, P.val(), nq, K, lambda i, j: sub(S_(i, j), lse(i)), cfg, 'scores equal the definition')
    P, w = query(c, an, cl, o, 'predict_prob', [Q])
    c.eqmat(nm + ': posterior is exp of the log posterior', w, P.val(), nq, K, lambda i, j: fn('exp', sub(S_(i, j), lse(i))), cfg, 'scores equal the definition')
    K2, key, cnt, fsum, mean, var, tot = stats(X, y)
    P, w = query(c, an, cl, o, 'get_prior_prob', [])
    c.eqmat(nm + ': prior is the training frequency', w, P.val(), K, ONE, lambda i, j: div(cnt(i), R_), cfg, 'statistics equal the definition')
    P, w = query(c, an, cl, o, 'get_classes', [])
    c.eqmat(nm + ': classes are the distinct labels in ascending order', w, P.val(), K, ONE, lambda i, j: key(i), cfg, 'statistics equal the definition')
    if q == 'GaussianNB':
        P, w = query(c, an, cl, o, 'get_mean', [])
        c.eqmat(nm + ': class means', w, P.val(), K, C_, lambda i, j: mean(i, j), cfg, 'statistics equal the definition')
    else:
        P, w = query(c, an, cl, o, 'get_features_count', [])
        c.eqmat(nm + ': per-class feature totals', w, P.val(), K, C_, lambda i, j: fsum(i, j), cfg, 'statistics equal the definition')


def run(c):
    an = c.an('nb')
    s, a = sym('s', 'R', 'pos'), sym('a', 'R', 'pos')
    pos = {'X': ('real', 0.0, 3.0), 'Q': ('real', 0.0, 3.0), 'a': ('real', 0.1, 2.0)}
    real = {'s': ('real', 0.05, 0.5)}
    for args in ([s], []):
        sv = args[0] if args else num(Fraction(1, 10 ** 9))
        if args:
            c.guarded('GaussianNB', one, c, an, 'GaussianNB', args, lambda X, y, Q: gaussian_jll(X, y, Q, sv), real, 'smoothing')
    for args in ([a], []):
        av = args[0] if args else num(10)
        c.guarded('MultinomialNB', one, c, an, 'MultinomialNB', args, lambda X, y, Q: multinomial_jll(X, y, Q, av), pos, 'alpha')
