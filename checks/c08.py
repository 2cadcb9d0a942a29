"""Samples stay paired with their targets: one permutation for both, batches take the same rows of both."""
from .opt import *


def coupled(t, xs, ys, Hn):
    """replace every data array by row(I) + column and every target array by row(I), for an arbitrary row labelling"""
    h = lambda i: el(ten(Hn), i, ZERO)
    m = {}
    for nm in xs:
        m[nm] = ((I, J), add(h(I), mul(J, num(Fraction(17, 16)))))
    for nm in ys:
        m[nm] = ((I, J), h(I))
    return rewrite_phi(t, m)


def col(t, j):
    return sub(t, mul(j, num(Fraction(17, 16))))


def once(row, n, v):
    s = fresh('s')
    return eq(sum_(n, s, b2t(eq(row(s), v))), ONE)


def perm_ob(c, name, w, row, cfg):
    c.holds(name, w, once(row, R_, idx('v*', R_)), cfg, 'every original row occurs exactly once', unknown_ok=True)


def shuffle(c, an):
    for q, arity in (('random::shuffle_data', 4),):
        an.new()
        f = fun(an, q, arity)
        w = c.loc(f)
        for alias in (False, True):
            an.new()
            X, y = an.mat('X', R_, C_), an.vec('y', R_)
            if alias:
                a, b = an.root(X), an.root(y)
                args = [a, b, a, b]
            else:
                a, b = an.root(an.mat('A0')), an.root(an.vec('b0'))
                args = [X, y, a, b]
            o = an.run(f, args)
            nm = 'shuffle_data' + (' in place' if alias else '')
            SX, Sy = o.val(a), o.val(b)
            cfg = Cfg(dims(), trials=c.trials(24, 96))
            k = 1
            i, j = idx('i*', R_), idx('j*', C_)
            m = lambda t: coupled(t, ['X'], ['y'], 'h')
            sx = {'X': ((I, J), add(el(ten('h'), I, ZERO), mul(J, num(Fraction(17, 16)))))}
            c.eq(nm + ': rows and targets are permuted alike', w, col(replace_ten(SX.at(i, j), 'X', 'y'), j), replace_ten(Sy.at(i, ZERO), 'X', 'y'), cfg,
                 'data row and target at the same position come from the same original position')
            c.eq(nm + ': shape of the data', w, SX.r, R_, cfg, 'row count unchanged')
            c.eq(nm + ': shape of the targets', w, Sy.r, R_, cfg, 'row count unchanged')
            row = lambda s: rownum(SX.at(s, ZERO), 'X')
            perm_ob(c, nm + ': a permutation of the rows', w, row, cfg)


def replace_ten(t, X, y):
    """entries of the symbolic inputs X[a,b] -> h(a) + b*17/16, y[a,_] -> h(a)"""
    h = lambda a: el(ten('h'), a, ZERO)
    return rewrite_ten(t, {X: lambda a, b: add(h(a), mul(b, num(Fraction(17, 16)))), y: lambda a, b: h(a)})


def rownum(t, X):
    return rewrite_ten(t, {X: lambda a, b: a})


def rewrite_ten(t, m):
    return rewrite_phi(t, {k: ((I, J), f(I, J)) for k, f in m.items()})


def batches(c, an, cls):
    R = Run(c, an, cls)
    w = R.where
    gr = []
    for l, z in R.leaves():
        for g in tapps(z.raw, 'Loss.gradient'):
            gr.append((l, z, g))
    if not gr:
        return c.undecided(cls, w, 'gradient evaluation not found')
    it = R.iterate()
    l, z, g = next(((l, z, g) for l, z, g in gr if it and z.name == it[1].name), gr[-1])
    A, B = g.a[2], g.a[3]
    out = R.outer(l)
    ep = out[0] if out else l
    names = lambda t: {leafname(y) for y in walk(t) if leafname(y)}
    nx = {z.name: z for z in ep.leaves if hasattr(z, 'nxt') and len(z.idx) == 2}
    xs, ys = sorted(names(A) & set(nx)), sorted(names(B) & set(nx))
    inp = not xs and not ys
    i, j = idx('i*', BATCH if cls != 'SCD' else R_), idx('j*', C_)
    cfg = R.cfg.plus()
    rows = BATCH if cls != 'SCD' else R_
    if cls != 'SCD':
        cfg.assume = cfg.assume + [lt(l.t, NB)]
    a, b = elt(A, i, j), elt(B, i, ZERO)
    if A.op in ('mat', 'mt'):
        c.eq(cls + ': batch size', w, A.a[0], rows, cfg, 'rows of the data handed to the gradient', unknown_ok=True)
        c.eq(cls + ': batch width', w, A.a[1], C_, cfg, 'columns of the data handed to the gradient', unknown_ok=True)
    if B.op in ('mat', 'mt'):
        c.eq(cls + ': batch size of the targets', w, B.a[0], rows, cfg, 'rows of the targets handed to the gradient', unknown_ok=True)
    cp = lambda t: replace_ten(coupled(t, xs, ys, 'H'), 'X', 'y') if not inp else replace_ten(t, 'X', 'y')
    c.eq(cls + ': batch data and targets are the same rows', w, col(cp(a), j), cp(b), cfg, 'data row and target at the same position of the batch come from the same sample', unknown_ok=True)
    if not inp and len(xs) == 1 and len(ys) == 1:
        zx, zy = nx[xs[0]], nx[ys[0]]
        r0 = idx('r*', R_)
        c.eq(cls + ': data and targets start paired', w, col(replace_ten(subst(zx.init, {I: r0, J: j}), 'X', 'y'), j), replace_ten(subst(zy.init, {I: r0, J: ZERO}), 'X', 'y'), cfg, 'working copies entering the epoch loop', unknown_ok=True)
        c.eq(cls + ': an epoch keeps data and targets paired', w, col(coupled(subst(zx.raw, {I: r0, J: j}), xs, ys, 'H'), j), coupled(subst(zy.raw, {I: r0, J: ZERO}), xs, ys, 'H'), cfg,
             'inductive invariant: row r of both working copies is the same sample', unknown_ok=True)
        num_ = lambda t: rewrite_phi(t, {xs[0]: ((I, J), I)})
        perm_ob(c, cls + ': an epoch permutes the samples', w, lambda s: num_(subst(zx.raw, {I: s, J: ZERO})), cfg)
        if cls != 'SCD':
            # position of the batch inside the array of this epoch
            cur = lambda r: subst(zx.raw, {I: r, J: j})
            c.eq(cls + ': batch number b is the rows b*size .. b*size+size-1 of the epoch', w, a, cur(add(mul(BATCH, l.t), i)), cfg, 'consecutive, non-overlapping slices', unknown_ok=True)
            c.holds(cls + ': batches stay in range', w, lt(add(mul(BATCH, l.t), i), R_), cfg, 'last row of the batch is a row of the data')
        else:
            c.eq(cls + ': the gradient sees the whole data', w, a, subst(zx.raw, {I: i, J: j}), cfg, 'data handed to the gradient', unknown_ok=True)
        off = Run(c, an, cls, shuffle=FALSE)
        o2 = [(l2, z2, g2) for l2, z2 in off.leaves() for g2 in tapps(z2.raw, 'Loss.gradient')]
        oit = off.iterate()
        l2, z2, g2 = next((x for x in o2 if oit and x[1].name == oit[1].name), o2[-1])
        i2 = i
        pos = add(mul(BATCH, l2.t), i2) if cls != 'SCD' else i2
        cfg2 = cfg.plus()
        if cls != 'SCD':
            cfg2.assume = off.cfg.assume + [lt(l2.t, NB)]
        c.eq(cls + ': without shuffling batches follow the row order', w, elt(g2.a[2], i2, j), off.X.at(pos, j), cfg2, 'data handed to the gradient with shuffling off', unknown_ok=True)
        c.eq(cls + ': without shuffling targets follow the row order', w, elt(g2.a[3], i2, ZERO), off.y.at(pos, ZERO), cfg2, 'targets handed to the gradient with shuffling off', unknown_ok=True)
    else:
        c.undecided(cls + ': epoch', w, 'working copies not identified: %s %s' % (xs, ys))
    ev = [(l3, z3, v) for l3, z3 in R.leaves() for v in tapps(z3.raw, 'Loss.evaluate') if l3 is l]
    for l3, z3, v in ev[:1]:
        c.eq(cls + ': the reported loss is taken on the same data', w, elt(v.a[2], i, j), a, cfg, 'data handed to the loss', unknown_ok=True)
        c.eq(cls + ': the reported loss is taken on the same targets', w, elt(v.a[3], i, ZERO), b, cfg, 'targets handed to the loss', unknown_ok=True)


def run(c):
    c.prefetch('opt', 'core')
    an = c.an('opt')
    c.guarded('shuffle_data', shuffle, c, c.an('core'))
    for k in ('SGD', 'SAG', 'TruncatedGradient', 'SCD'):
        c.guarded(k, batches, c, an, k)
