"""Metrics, distances, densities and matrix functions equal their definitions."""
from .corefn import *
from fractions import Fraction

H = Fraction(1, 2)
NINF = neg(INF)
DEC = 'the factor with the documented role is returned (factors of Eigen decompositions are uninterpreted functions of their argument)'


def go1(c, an, name, q, args, spec, cfg, first=None, rule='value equals its definition', cond=None):
    def body():
        o, w = runf(c, an, q, args, first=first)
        if o.dead:
            return c.ob(name, w, 'diff', 'accepted', 'never returns')
        v = o.val()
        if isinstance(v, MatV):
            v = v.at(ZERO, ZERO)
        c.eq(name, w, v, spec, cfg.plus(assume=[o.pc]), rule)
    c.guarded(name, body)


def metrics(c, an):
    a, b = an.vec('a', R_), an.vec('b', R_)
    A, B = (lambda s: a.at(s, ZERO)), (lambda s: b.at(s, ZERO))
    k = fresh('k')
    cfg = Cfg(dims(), modes=(0, 1), trials=c.trials(32, 120))
    mean = lambda f: div(sum_(R_, k, f(k)), R_)
    go1(c, an, 'mean_absolute_error', 'metric::mean_absolute_error', [a, b], mean(lambda s: abs_(sub(A(s), B(s)))), cfg)
    var = lambda f: sub(mean(lambda s: powr(f(s), 2)), powr(mean(f), 2))
    go1(c, an, 'explained_variance_score: 1 - Var(pred - true)/Var(true)', 'metric::explained_variance_score', [a, b],
        sub(ONE, div(var(lambda s: sub(B(s), A(s))), var(A))), Cfg(dims(2), trials=c.trials(32, 120)))
    la, lb = an.lst('a', R_), an.lst('b', R_)
    d = lambda s: sub(app('a', 'R', s), app('b', 'R', s))
    go1(c, an, 'euclidean_distance', 'metric::euclidean_distance', [la, lb], sqrt(sum_(R_, k, powr(d(k), 2))), cfg, first='list')
    go1(c, an, 'manhattan_distance', 'metric::manhattan_distance', [la, lb], sum_(R_, k, abs_(d(k))), cfg, first='list')
    X, Y = X_(an), X_(an, 'Y')
    s = fresh('s')
    D = lambda i, j: sub(X.at(i, j), Y.at(i, j))
    S = lambda f: sum_(R_, s, sum_(C_, k, f(s, k)))
    go1(c, an, 'minkowski_distance, order 1', 'metric::minkowski_distance', [X, Y, ONE], S(lambda i, j: abs_(D(i, j))), cfg)
    go1(c, an, 'minkowski_distance, order 2', 'metric::minkowski_distance', [X, Y, num(2)], sqrt(S(lambda i, j: powr(D(i, j), 2))), cfg)
    go1(c, an, 'minkowski_distance, order infinity', 'metric::minkowski_distance', [X, Y, num(-1)],
        bind('rmax', R_, s, bind('rmax', C_, k, abs_(D(s, k)))), cfg)


def density(c, an):
    x, u, v = sym('x', 'R'), sym('u', 'R'), sym('v', 'R', 'pos')
    go1(c, an, 'gaussian_fn: log density of the normal distribution with mean u and variance v', 'math::gaussian_fn', [x, u, v],
        sub(neg(div(powr(sub(x, u), 2), mul(num(2), v))), scale(fn("log", mul(mul(num(2), sym_pi(an)), v)), H)), Cfg({'v': ('real', 0.2, 3.0)}, trials=c.trials(32, 120)))


def sym_pi(an):
    import math
    return num(math.pi)


def factors(c, an):
    X = X_(an)
    S = MatV(R_, R_, el(ten('X'), I, J))
    cfg = Cfg(dims(), trials=c.trials(16, 64))
    mn = min_(R_, C_)

    def tup(name, q, args, specs, cf=cfg):
        def body():
            o, w = runf(c, an, q, args)
            v = o.val()
            xs = v.xs if isinstance(v, TupV) else [v]
            for (nm, r, cc, f), x in zip(specs, xs):
                x = an.e.read(x, o.st) if an.e._is_lv(x) else x
                c.eqmat('%s: %s' % (name, nm), w, x, r, cc, f, cf.plus(assume=[o.pc]), DEC)
        c.guarded(name, body)
    mx = max_(R_, C_)
    P = toterm(MatV(mx, mx, ite(and_(lt(I, R_), lt(J, C_)), X.at(I, J), ZERO)))
    lu = lambda i, j: el(tapp('pplu.LU', 'R', P), i, j)
    pt = lambda i, j: el(tapp('pplu.P', 'R', P), j, i)
    low = lambda i, j: ite(eq(i, j), ONE, ite(lt(j, i), lu(i, j), ZERO))
    up = lambda i, j: ite(le(i, j), lu(i, j), ZERO)
    k = fresh('k')
    tup('lu', 'math::lu', [X, FALSE], [('P undoes the row pivoting', R_, R_, pt), ('L is unit lower triangular', R_, mn, low), ('U is upper triangular', mn, C_, up)])
    tup('lu with permute_l', 'math::lu', [X, TRUE], [('P*L undoes the row pivoting', R_, mn, lambda i, j: sum_(R_, k, mul(pt(i, k), low(k, j)))),
                                                    ('L is unit lower triangular', R_, mn, low), ('U is upper triangular', mn, C_, up)])
    tX = toterm(X)
    Q = lambda i, j: el(tapp('hqr.Q', 'R', tX), i, j)
    Rr = lambda i, j: ite(le(i, j), el(tapp('hqr.QR', 'R', tX), i, j), ZERO)
    tup('qr full', 'math::qr', [X, TRUE], [('Q is the orthogonal factor', R_, R_, Q), ('R is the upper triangle', R_, C_, Rr)])
    tup('qr thin', 'math::qr', [X, FALSE], [('Q has min(m,n) columns of the orthogonal factor', R_, mn, Q), ('R is the upper triangle', mn, C_, Rr)])
    U, V, s = (lambda i, j: el(tapp('svd.U', 'R', tX), i, j)), (lambda i, j: el(tapp('svd.V', 'R', tX), i, j)), (lambda i, j: el(tapp('svd.S', 'R', tX), i, ZERO))
    for full in (FALSE, TRUE):
        tup('exact_svd %s' % ('full' if full is TRUE else 'thin'), 'math::exact_svd', [X, full],
            [('left singular vectors', R_, R_ if full is TRUE else mn, U), ('singular values', mn, ONE, s), ('right singular vectors', C_, C_ if full is TRUE else mn, V)])
    tol = sym('tol', 'R', 'nn')
    tup('pinv', 'math::pinv', [X, tol], [('V * S^+ * U^T, singular values above the cutoff inverted', C_, R_,
        lambda i, j: sum_(mn, k, ite(lt(tol, s(k, ZERO)), div(mul(V(i, k), U(j, k)), s(k, ZERO)), ZERO)))], Cfg(dict(dims(), tol=('real', 0.0, 0.6)), trials=c.trials(32, 120)))
    tS = toterm(S)
    L = lambda i, j: ite(le(j, i), el(tapp('llt.L', 'R', tS), i, j), ZERO)
    tup('cholesky lower', 'math::cholesky', [S, TRUE], [('lower factor', R_, R_, L)])
    tup('cholesky upper', 'math::cholesky', [S, FALSE], [('upper factor', R_, R_, lambda i, j: L(j, i))])

    def ld():
        o, w = runf(c, an, 'math::logdet', [S])
        d = lambda i: el(tapp('pplu.LU', 'R', tS), i, i)
        x = o.val()
        c.eq('logdet: sum of log|diagonal| of the LU factor where it is finite', w,
             ite(eq(x, NINF), sum_(R_, k, fn('log', abs_(d(k)))), x), sum_(R_, k, fn('log', abs_(d(k)))), cfg, DEC)
    c.guarded('logdet', ld)

    def eig():
        o, w = runf(c, an, 'math::eig', [S])
        a, b = o.val().xs
        c.eqmat('eig: eigenvalues', w, a, R_, ONE, lambda i, j: el(tapp('eig.vals', 'R', tS), i, ZERO), cfg, DEC)
        c.eqmat('eig: eigenvectors', w, b, R_, R_, lambda i, j: el(tapp('eig.vecs', 'R', tS), i, j), cfg, DEC)
    c.guarded('eig', eig)


def run(c):
    an = c.an('core')
    metrics(c, an)
    density(c, an)
    factors(c, an)
