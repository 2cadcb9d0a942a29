"""C15: nearest-neighbour classification votes over the nearest training rows.

The k-d tree is opaque here (C23 decides it): a query is known only to return a distance and a training row number per
query row and rank.  The answer must be a label of maximal frequency among those rows, for either solver and each metric;
`mode` itself must return a value of maximal frequency together with that frequency."""
from .est import *
from .corefn import runf, X_
KNN, KD = 'openml::neighbors::KNearestNeighbors', 'openml::tree::KDTree'
NQ, KK = sym('nq', 'Z', 'dim'), sym('kk', 'Z', 'dim')
LAB = ('choice', [-3.0, 0.5, 2.0])
FEW = ('choice', [1.0, 2.0, 5.0])


def freq(n, lab, v):
    k = fresh('k')
    return sum_(n, k, b2t(eq(lab(k), v)))


def most(n, lab):
    k = fresh('k')
    return rawbind('rmax', n, k, freq(n, lab, lab(k)))


def val(e, a, st):
    return e.read(a, st) if e._is_lv(a) else a


def mode(c, an, ax):
    X = X_(an)
    o, w = runf(c, an, 'math::mode', [X, num(ax)])
    nm = 'mode axis %d' % ax
    cfg = Cfg(dict(dims(), n=('int', 1, 5), p=('int', 1, 5), X=FEW), modes=(0,), trials=c.trials(60, 240))
    v = o.val()
    if not isinstance(v, TupV) or len(v.xs) != 2:
        return c.undecided(nm, w, 'no pair of arrays')
    m, k = v.xs
    r, cc, N = (ONE, C_, R_) if ax == 0 else (R_, ONE, C_)
    for x, l in ((m, 'values'), (k, 'counts')):
        c.holds('%s: one row or column of %s' % (nm, l), w, and_(eq(x.r, r), eq(x.c, cc)), cfg, 'shape of the answer')
    i, j = idx('i*', r), idx('j*', cc)
    lab = (lambda s: X.at(s, j)) if ax == 0 else (lambda s: X.at(i, s))
    c.eq(nm + ': the count is the highest frequency', w, k.at(i, j), most(N, lab), cfg)
    c.eq(nm + ': the value occurs that often', w, freq(N, lab, m.at(i, j)), most(N, lab), cfg)


def tree(c, an):
    seen = {}

    def query(e, f, this, args, st, node):
        x, k = val(e, args[0], st), val(e, args[1], st)
        seen['q'] = (x, k)
        if not isinstance(x, MatV):
            return NotImplemented
        return TupV([MatV(x.r, k, el(ten('D'), I, J)), MatV(x.r, k, app('nb', 'Z', I, J))])

    def ctor(e, t, args, st, node):
        seen['c'] = [val(e, a, st) for a in args]
        return OpqV('tree')
    for m in ('euclidean', 'manhattan'):
        nm = 'k-d tree solver, %s' % m
        seen.clear()
        cl = klass(an, KNN)
        an.new({KD + '::query': query, 'ctor:' + KD: ctor})
        o = an.obj(cl['idx'], [sym('leaf', 'Z', 'dim'), KK, S('kdtree'), S(m)])
        X, y, Q = an.mat('X', R_, C_), an.vec('y', R_), an.mat('Q', NQ, C_)
        an.call(o, 'fit', [an.mat('X0', sym('n0', 'Z', 'dim'), C_), an.vec('y0', sym('n0', 'Z', 'dim'))])      # an earlier fit leaves nothing behind
        an.call(o, 'fit', [X, y])
        w0, w = c.loc(method(an, cl['idx'], 'fit', 2)), c.loc(method(an, cl['idx'], 'predict', 1))
        v = an.call(o, 'predict', [Q]).val()
        cfg = Cfg(dict(dims(), n=('int', 1, 5), kk=('int', 1, 5), nq=('int', 1, 3), y=LAB, **{'fn:nb': nb}), modes=(0,), trials=c.trials(60, 240))
        a, q = seen.get('c'), seen.get('q')
        if not a or not q or not isinstance(v, MatV):
            c.undecided(nm, w, 'no tree built or queried')
            continue
        mats = [x for x in a if isinstance(x, MatV)]
        strs = [x for x in a if isinstance(x, T) and x.op == 'str']
        if len(mats) == 1:
            c.eqmat(nm + ': the tree holds the training rows', w0, mats[0], R_, C_, lambda i, j: X.at(i, j), cfg)
        if len(a) > 2:
            c.ob(nm + ': the tree measures with the requested metric', w0, 'same' if len(strs) == 1 and strs[0] is S(m) else 'diff', 'constructor argument of the tree', str(strs))
        c.eqmat(nm + ': the query rows are looked up', w, q[0], NQ, C_, lambda i, j: Q.at(i, j), cfg)
        c.eq(nm + ': as many neighbours as requested', w, q[1], KK, cfg)
        i = idx('i*', NQ)
        lab = lambda s: y.at(app('nb', 'Z', i, s), ZERO)
        c.holds(nm + ': one label per query row', w, and_(eq(v.r, NQ), eq(v.c, ONE)), cfg, 'shape of the answer')
        c.eq(nm + ': the label occurs most often among the neighbours', w, freq(KK, lab, v.at(i, ZERO)), most(KK, lab), cfg)


def nb(it, key, h):
    return int(h * 997) % max(1, it.ev(R_))


def brute(c, an):
    for m in ('euclidean', 'manhattan'):
        nm = 'exhaustive solver, %s' % m
        cl = klass(an, KNN)
        an.new({})
        o = an.obj(cl['idx'], [sym('leaf', 'Z', 'dim'), KK, S('brute'), S(m)])
        X, y, Q = an.mat('X', R_, C_), an.vec('y', R_), an.mat('Q', NQ, C_)
        an.call(o, 'fit', [an.mat('X0', sym('n0', 'Z', 'dim'), C_), an.vec('y0', sym('n0', 'Z', 'dim'))])
        an.call(o, 'fit', [X, y])
        w = c.loc(method(an, cl['idx'], 'predict', 1))
        r = an.call(o, 'predict', [Q])
        v = r.val()
        if not isinstance(v, MatV):
            c.undecided(nm, w, 'no vector')
            continue
        i, k = idx('i*', NQ), fresh('k')

        def dist(s):
            f = fresh('f')
            d = sub(X.at(s, f), Q.at(i, f))
            return sum_(C_, f, mul(d, d)) if m == 'euclidean' else sum_(C_, f, fn('abs', d))
        s = fresh('s')
        lab = lambda b: y.at(rawbind('rank', R_, s, dist(s), b), ZERO)
        # distinct distances, no more neighbours than training rows
        cfg = Cfg(dict(dims(), n=('int', 1, 5), kk=lambda it, key, h: 1 + int(h * 997) % max(1, it.ev(R_)), nq=('int', 1, 3), y=LAB), assume=[r.pc], modes=(0,), trials=c.trials(60, 240))
        c.holds(nm + ': accepted', w, r.pc, Cfg(cfg.dom, modes=(0,), trials=c.trials(40, 160)), 'a documented configuration is not rejected')
        c.holds(nm + ': one label per query row', w, and_(eq(v.r, NQ), eq(v.c, ONE)), cfg, 'shape of the answer')
        c.eq(nm + ': the label occurs most often among the nearest training rows', w, freq(KK, lab, v.at(i, ZERO)), most(KK, lab), cfg)
        one = Cfg(dict(dims(), n=('int', 2, 5), kk=('const', 1), nq=('int', 1, 2)), assume=[r.pc], modes=(0,), trials=c.trials(120, 400))
        c.eq(nm + ': one neighbour: the label of the nearest training row', w, v.at(i, ZERO), lab(ZERO), one)


def run(c):
    an = c.an('knn')
    for ax in (0, 1):
        c.guarded('mode axis %d' % ax, mode, c, c.an('core'), ax)
    c.guarded('k-d tree solver', tree, c, an)
    c.guarded('exhaustive solver', brute, c, an)
