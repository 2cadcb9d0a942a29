"""Axis-wise reductions and rearrangements against their textbook definitions."""
from .corefn import *

H = Fr(1, 2)


def cell(n, s, body):
    return sum_(n, s, body)


def sumspec(f, wr):
    """f(n, g): statistic of the sequence g(0..n-1); per axis, the matrix of results"""
    def spec(X, ax):
        if ax == 0:
            return (ONE, C_, lambda i, j: f(R_, lambda k: X.at(k, j)))
        if ax == 1:
            return (R_, ONE, lambda i, j: f(C_, lambda k: X.at(i, k)))
        return (ONE, ONE, lambda i, j: f(mul(R_, C_), lambda k: flat(X, k)))
    return spec


def st_sum(n, g):
    k = fresh('k')
    return sum_(n, k, g(k))


def st_mean(n, g):
    return div(st_sum(n, g), n)


def st_var(n, g):
    m = st_mean(n, g)
    k = fresh('k')
    return div(sum_(n, k, powr(sub(g(k), m), 2)), n)


def st_norm(n, g):
    k = fresh('k')
    return sqrt(sum_(n, k, powr(g(k), 2)))


def st_median(n, g):
    k = fresh('k')
    m = idiv(n, num(2))
    s = lambda q: rawbind('srt', n, k, g(k), q)
    return ite(eq(imod(n, num(2)), ZERO), scale(add(s(m), s(sub(m, ONE))), H), s(m))


def ends(op):
    def f(n, g):
        k = fresh('k')
        return bind(op, n, k, g(k))
    return f


def ext(op):
    def f(n, g):
        k = fresh('k')
        return bind(op, n, k, g(k))
    return f


def column(spec):
    """the same statistic delivered as a column vector on either axis"""
    def s(X, ax):
        r, c, f = spec(X, ax)
        if ax == 0:
            return (C_, ONE, lambda i, j: f(ZERO, i))
        return (r, c, f)
    return s


AXIS = [
    ('math::sum', st_sum, (0, 1, -1), False),
    ('math::mean', st_mean, (0, 1, -1), False),
    ('math::var', st_var, (0, 1, -1), False),
    ('math::median', st_median, (0, 1, -1), True),
    ('math::norm2', st_norm, (0, 1), True),
    ('common::argmax', ends('argmax'), (0, 1, -1), True),
    ('common::argmin', ends('argmin'), (0, 1, -1), True),
]


def axis_one(c, an, q, f, ax, col):
    o, w = runf(c, an, q, [X_(an), num(ax)])
    X = X_(an)
    sp = sumspec(f, None)
    r, cc, fs = (column(sp) if col else sp)(X, ax)
    nm = '%s axis %d' % (q.split('::')[1], ax)
    if o.dead:
        return c.ob(nm, w, 'diff', 'documented axis is accepted', 'throws for axis %d' % ax)
    cfg = Cfg(dims(), assume=[o.pc], modes=(1, 0, 2), trials=c.trials(36, 120))
    c.eqmat(nm + ': statistic along the axis', w, o.val(), r, cc, fs, cfg)


def default_axis(c, an, q, want):
    f = fun(an, q)
    if f is None or len(f['ps']) < 2:
        raise KeyError(q)


def cumsum(c, an, ax):
    o, w = runf(c, an, 'math::cumsum', [X_(an), num(ax)])
    X = X_(an)
    k = fresh('k')
    if ax == 0:
        sp = (R_, C_, lambda i, j: sum_(add(i, ONE), k, X.at(k, j)))
    elif ax == 1:
        sp = (R_, C_, lambda i, j: sum_(add(j, ONE), k, X.at(i, k)))
    else:
        sp = (mul(R_, C_), ONE, lambda i, j: sum_(add(i, ONE), k, flat(X, k)))
    c.eqmat('cumsum axis %d: partial sums along the axis' % ax, w, o.val(), *sp, Cfg(dims(), trials=c.trials(24, 96)))


def mode(c, an, ax):
    o, w = runf(c, an, 'math::mode', [X_(an), num(ax)])
    X = X_(an)
    m, n = o.val().xs
    g = (lambda k, q: X.at(k, q)) if ax == 0 else (lambda k, q: X.at(q, k))
    N = R_ if ax == 0 else C_
    shape = (ONE, C_) if ax == 0 else (R_, ONE)
    k, s, u = fresh('k'), fresh('s'), fresh('u')
    freq = lambda q, x: sum_(N, k, b2t(eq(g(k, q), x)))
    best = lambda q: bind('rmax', N, s, freq(q, g(s, q)))
    # the value itself: one of the most frequent ones (ties are resolved by first reached count)
    cfg = Cfg(dims(), assume=[o.pc], modes=(1, 0, 2), trials=c.trials(40, 120))
    c.eqmat('mode axis %d: reported count is the largest frequency' % ax, w, n, *shape, lambda i, j: best(j if ax == 0 else i), cfg)
    q = idx('q*', shape[1] if ax == 0 else shape[0])
    got = m.at(ZERO, q) if ax == 0 else m.at(q, ZERO)
    c.eq('mode axis %d: reported value occurs that often' % ax, w, freq(q, got), best(q), cfg, 'value equals its definition')
    c.eq('mode axis %d: all values distinct gives the smallest' % ax, w, ite(eq(best(q), ONE), got, ZERO), ite(eq(best(q), ONE), bind('rmin', N, u, g(u, q)), ZERO), cfg)


def simple(c, an):
    X, Y = X_(an), an.mat('Y')
    k, s = fresh('k'), fresh('s')
    mean = lambda j: div(sum_(R_, s, X.at(s, j)), R_)
    cfg = Cfg(dims(), trials=c.trials(24, 96))

    def go(name, q, args, r, cc, f, rule='matrix equals its definition', first=None, cf=None):
        def body():
            o, w = runf(c, an, q, args, first=first)
            if o.dead:
                return c.ob(name, w, 'diff', rule, 'never returns')
            v = o.val()
            k2 = (cf or cfg).plus(assume=[o.pc])
            c.eqmat(name, w, v, r, cc, f, k2, rule)
        c.guarded(name, body)
    go('cov: sample covariance of the columns', 'math::cov', [X], C_, C_,
       lambda i, j: div(sum_(R_, k, mul(sub(X.at(k, i), mean(i)), sub(X.at(k, j), mean(j)))), sub(R_, ONE)), cf=Cfg(dims(2), trials=c.trials(24, 96)))
    go('center: subtracts the column means', 'math::center', [X], R_, C_, lambda i, j: sub(X.at(i, j), mean(j)))
    go('row_norms: Euclidean norm of each row', 'math::row_norms', [X, FALSE], R_, ONE, lambda i, j: sqrt(sum_(C_, k, powr(X.at(i, k), 2))))
    go('row_norms squared: squared norm of each row', 'math::row_norms', [X, TRUE], R_, ONE, lambda i, j: sum_(C_, k, powr(X.at(i, k), 2)))
    go('abs: absolute value of each entry', 'math::abs', [X], R_, C_, lambda i, j: abs_(X.at(i, j)))
    go('sign: sign of each entry', 'math::sign', [X], R_, C_, lambda i, j: sign_(X.at(i, j)), cf=Cfg(dims(), modes=(1, 0, 2)))
    e = sym('e', 'R')
    go('power: entrywise power', 'math::power', [X, num(3)], R_, C_, lambda i, j: powr(X.at(i, j), 3))
    hi, lo = sym('hi', 'R'), sym('lo', 'R')
    go('clip: entries limited to [min, max]', 'common::clip', [X, hi, lo], R_, C_, lambda i, j: max_(min_(X.at(i, j), hi), lo), cf=Cfg(dims(), assume=[le(lo, hi)]))
    go('fmin: entrywise minimum with a number', 'common::fmin', [X, hi], R_, C_, lambda i, j: min_(X.at(i, j), hi), cf=Cfg(dims(), modes=(1, 0, 2)))
    Yr, Yc = Y.r, Y.c
    dy = dict(dims(), **{'Y.r': ('int', 1, 4), 'Y.c': ('int', 1, 4)})
    Yh, Yv = an.mat('Y', R_, sym('Y.c', 'Z', 'dim')), an.mat('Y', sym('Y.r', 'Z', 'dim'), C_)
    go('hstack: columns of the first then of the second', 'common::hstack', [X, Yh], R_, add(C_, Yc), lambda i, j: ite(lt(j, C_), X.at(i, j), Yh.at(i, sub(j, C_))), cf=Cfg(dy))
    go('vstack: rows of the first then of the second', 'common::vstack', [X, Yv], add(R_, Yr), C_, lambda i, j: ite(lt(i, R_), X.at(i, j), Yv.at(sub(i, R_), j)), cf=Cfg(dy))
    m = sym('m', 'Z', 'dim')
    go('repeat axis 0: row blocks repeated downwards', 'common::repeat', [X, m, ZERO], mul(R_, m), C_, lambda i, j: X.at(imod(i, R_), j), cf=Cfg(dict(dims(), m=('int', 1, 3))))
    go('repeat axis 1: column blocks repeated sideways', 'common::repeat', [X, m, ONE], R_, mul(C_, m), lambda i, j: X.at(i, imod(j, C_)), cf=Cfg(dict(dims(), m=('int', 1, 3))))
    go('flatten: row-major sequence', 'common::flatten', [X], mul(R_, C_), ONE, lambda i, j: flat(X, i), first='mat')
    for ax in (0, 1):
        n, g = (R_, lambda i, j: (lambda q: X.at(q, j))) if ax == 0 else (C_, lambda i, j: (lambda q: X.at(i, q)))
        shp = (ONE, C_) if ax == 0 else (R_, ONE)
        for od, nm, st in ((2, 'Euclidean', lambda a: sqrt(sum_(n, k, powr(a(k), 2)))), (1, 'absolute sum', lambda a: sum_(n, k, abs_(a(k)))),
                           (-1, 'maximum', lambda a: bind('rmax', n, k, abs_(a(k))))):
            go('norm axis %d: %s norm' % (ax, nm), 'common::norm', [X, num(ax), num(od)], shp[0], shp[1], lambda i, j, g=g, st=st: st(g(i, j)), cf=Cfg(dims(), modes=(1, 0, 2)))
    v = an.vec('v', R_)
    go('diagmat: square matrix with the vector on its diagonal', 'math::diagmat', [v], R_, R_, lambda i, j: ite(eq(i, j), v.at(i, ZERO), ZERO), cf=Cfg(dims(), modes=(1, 0, 2)))


def lists(c, an):
    o, w = runf(c, an, 'common::flatten', [an.lst2('v')], first='list')
    v, x = o.val(), an.lst2('v')
    if isinstance(v, ListV):
        k, b = fresh('k'), fresh('b')
        len_ = lambda i: x.at(i).n
        S = lambda y: sum_(y, b, len_(b))
        c.eq('flatten (nested lists): total length', w, v.n, sum_(x.n, k, len_(k)), Cfg({'v.n': ('int', 0, 4), 'v.len': ('int', 0, 3)}))
        i = idx('i*', x.n)
        j = idx('j*', len_(i))
        c.eq('flatten (nested lists): entry j of list i comes after the lists before it', w, v.at(add(S(i), j)), x.at(i).at(j),
             Cfg({'v.n': ('int', 1, 4), 'v.len': ('int', 0, 3)}))
    else:
        c.undecided('flatten (nested lists)', w, repr(v)[:80])


def vec2mat(c, an):
    n, p = R_, C_
    k, j = fresh('k'), fresh('j')
    lv = ListV(n, k, ListV(p, j, app('v', 'R', k, j)))
    o, w = runf(c, an, 'common::vec2mat', [lv])
    f0 = fun(an, 'common::vec2mat')
    c.eqmat('vec2mat: row i is list i', w, o.val(), n, p, lambda i, q: app('v', 'R', i, q), Cfg(dims(), assume=[o.pc]))
    for f in an.fns('openml::common::vec2mat'):
        if f is f0:
            continue
        an.new()
        o = an.run(f, [ListV(n, k, app('v', 'R', k))])
        c.eqmat('vec2mat: entry i is list entry i', c.loc(f), o.val(), n, ONE, lambda i, q: app('v', 'R', i), Cfg(dims(), assume=[o.pc]))


def run(c):
    an = c.an('core')
    for q, f, axes, col in AXIS:
        for ax in axes:
            c.guarded('%s axis %d' % (q, ax), axis_one, c, an, q, f, ax, col)
    for ax in (0, 1, -1):
        c.guarded('cumsum axis %d' % ax, cumsum, c, an, ax)
    for ax in (0, 1):
        c.guarded('mode axis %d' % ax, mode, c, an, ax)
    simple(c, an)
    c.guarded('flatten lists', lists, c, an)
    c.guarded('vec2mat', vec2mat, c, an)
