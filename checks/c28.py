"""PCA and truncated SVD: factors, ratios, centring, sign pairing."""
from .est import *
DQ = 'openml::decomposition::'
K = sym('K', 'Z', 'dim')
ISQ = lambda t: mul(t, t)


def svd(M):
    t = toterm(M)
    return (lambda i, j: el(tapp('svd.U', 'R', t), lift(i), lift(j))), (lambda i: el(tapp('svd.S', 'R', t), lift(i), ZERO)), (lambda i, j: el(tapp('svd.V', 'R', t), lift(i), lift(j)))


def matof(r, c, f):
    return MatV(r, c, f(I, J))


def small(a, b):
    return ite(lt(a, b), a, b)


def pca(c, an, args, nm, Kt):
    q = DQ + 'PCA'
    cl = klass(an, q)
    pin, lds = [], []

    def pinv(e, f, this, args, st, node):
        m = e.read(args[0], st) if e._is_lv(args[0]) else args[0]
        pin.append((m, '%s:%s' % (rel(e.stack[-1].f['file']), node.get('l'))))
        return MatV(m.c, m.r, el(ten('PINV'), I, J))

    def logdet(e, f, this, args, st, node):
        m = e.read(args[0], st) if e._is_lv(args[0]) else args[0]
        lds.append((m, '%s:%s' % (rel(e.stack[-1].f['file']), node.get('l'))))
        return sym('LOGDET', 'R')
    an.new({'openml::math::pinv': pinv, 'openml::math::logdet': logdet})
    o = an.obj(cl['idx'], args)
    X = an.mat('X', R_, C_)
    wf = c.loc(method(an, cl['idx'], 'fit_data', 1))
    r = an.call(o, 'fit', [X])
    if r.dead:
        return c.ob(nm + ': fit', wf, 'diff', 'accepted', 'fit always throws for the documented solver')
    a, b = fresh('a'), fresh('b')
    cfg = Cfg(dict(n=('int', 4, 7), p=('int', 3, 6), K=('int', 1, 3), nq=('int', 1, 3)), (le(Kt, R_), le(Kt, C_), ), (0,), c.trials(12, 48))
    mu = lambda j: div(sum_(R_, a, X.at(a, j)), R_)
    cen = matof(R_, C_, lambda i, j: sub(X.at(i, j), mu(j)))
    U, s, V = svd(cen)
    mn = small(R_, C_)
    var = lambda i: div(ISQ(s(i)), sub(R_, ONE))
    g = lambda name: an.call(o, name, []).val()
    w = lambda name: c.loc(method(an, cl['idx'], name, 0))
    comp = g('get_components')
    wc = wf
    if not isinstance(comp, MatV):
        return c.undecided(nm, wf, 'components are not a matrix value')
    j2 = idx('j2*', C_)
    c.eqmat(nm + ': components are right singular vectors of the centred data', wc, MatV(comp.r, comp.c, mul(comp.at(I, J), comp.at(I, j2))), Kt, C_,
            lambda i, j: mul(V(j, i), V(j2, i)), cfg, 'row i equals singular vector i up to one sign for the whole row')
    c.eqmat(nm + ': singular values of the centred data', wf, g('get_singular_values'), Kt, ONE, lambda i, j: s(i), cfg, 'singular values in decreasing order, first K')
    c.eqmat(nm + ': explained variance is s^2/(n-1)', wf, g('get_explained_var'), Kt, ONE, lambda i, j: var(i), cfg, 'variance equals its definition')
    t = fresh('t')
    tot = sum_(mn, t, var(t))
    c.eqmat(nm + ': explained ratio is relative to the total variance', wf, g('get_explained_var_ratio'), Kt, ONE, lambda i, j: div(var(i), tot), cfg, 'ratio denominator is the sum over all components')
    Q = an.mat('Q', sym('nq', 'Z', 'dim'), C_)
    k = fresh('k')
    f = method(an, cl['idx'], 'transform_data', 1)
    tq = an.call(o, 'transform', [Q]).val()
    c.eqmat(nm + ': transform applies the training centring and the stored components', c.loc(f), tq, Q.r, Kt,
            lambda i, m: sum_(C_, k, mul(sub(Q.at(i, k), mu(k)), comp.at(m, k))), cfg, 'projection of the query centred by the training mean')
    # probabilistic model
    noise = ite(lt(Kt, mn), div(sum_(sub(mn, Kt), t, var(add(Kt, t))), sub(mn, Kt)), ZERO)
    pos = lambda x: ite(lt(x, ZERO), ZERO, x)
    h = fresh('h')
    cov = lambda i, j: add(sum_(Kt, h, mul(comp.at(h, i), mul(pos(sub(var(h), noise)), comp.at(h, j)))), mul(noise, b2t(eq(i, j))))
    gc = g('get_covariance')
    c.eqmat(nm + ': covariance is components^T diag(var - noise) components + noise I', w('get_covariance'), gc, C_, C_, cov, cfg, 'covariance of the generative model')
    P = g('get_precision')
    c2 = Cfg(cfg.dom, cfg.assume, (0,), c.trials(8, 24))
    if not pin:
        c.undecided(nm + ': precision', w('get_precision'), 'no pseudo-inverse found')
    for m, wp in pin[-1:]:
        c.eqmat(nm + ': precision is computed from the covariance of the same fit', wp, m, C_, C_, lambda i, j: gc.at(i, j), c2, 'argument of the pseudo-inverse')
    PV = lambda i, j: el(ten('PINV'), lift(i), lift(j))
    if pin:
        c.eqmat(nm + ': precision is the pseudo-inverse of the covariance', w('get_precision'), P, C_, C_, PV, c2, 'precision matrix')
    Z = an.call(o, 'score', [Q]).val()
    fs = c.loc(method(an, cl['idx'], 'score', 1))
    if pin and lds:
        d = lambda i, j: sub(Q.at(i, j), mu(j))
        i, u, v = fresh('i'), fresh('u'), fresh('v')
        c.eqmat(nm + ': score normalises by the determinant of the precision', lds[-1][1], lds[-1][0], C_, C_, PV, c2, 'argument of the log-determinant')
        quad = div(sum_(Q.r, i, sum_(C_, u, sum_(C_, v, mul(d(i, u), mul(PV(v, u), d(i, v)))))), Q.r)
        two_pi = num(Fraction(repr(__import__('math').pi * 2)))
        c.eq(nm + ': score is the mean Gaussian log likelihood of the centred query', fs, Z,
             mul(num(Fraction(-1, 2)), add(quad, sub(mul(C_, fn('log', two_pi)), sym('LOGDET', 'R')))), c2, 'average log density under the fitted model')
    else:
        c.undecided(nm + ': score', fs, 'no precision or log-determinant found')


def tsvd(c, an, args, nm, spec):
    q = DQ + 'TruncatedSVD'
    cl = klass(an, q)
    rec = []
    Kt = spec[0]

    def rs(e, f, this, a, st, node):
        a = [e.read(x, st) if e._is_lv(x) else x for x in a]
        rec.append((a, '%s:%s' % (rel(e.stack[-1].f['file']), node.get('l'))))
        X, k = a[0], a[1]
        from oml.values import TupV
        return TupV([MatV(X.r, k, el(ten('rs.U'), I, J)), MatV(k, ONE, el(ten('rs.S'), I, J)), MatV(k, X.c, el(ten('rs.Vt'), I, J))])
    an.new({'openml::math::randomized_svd': rs})
    o = an.obj(cl['idx'], args)
    X = an.mat('X', R_, C_)
    wf = c.loc(method(an, cl['idx'], 'fit_data', 1))
    r = an.call(o, 'fit', [X])
    if r.dead:
        return c.ob(nm + ': fit', wf, 'diff', 'accepted', 'fit always throws for the documented solver')
    if len(rec) != 1:
        return c.undecided(nm, wf, '%d randomized SVDs found' % len(rec))
    a, w = rec[0]
    cfg = Cfg(dict(n=('int', 4, 7), p=('int', 3, 6), K=('int', 1, 3), nq=('int', 1, 3)), (le(Kt, R_), le(Kt, C_)), (0,), c.trials(16, 48))
    c.eqmat(nm + ': factors the training matrix itself', w, a[0], R_, C_, lambda i, j: X.at(i, j), cfg, 'no centring before the factorisation')
    for k, (what, v) in enumerate(zip(('components', 'oversamples', 'iterations', 'normaliser'), spec)):
        if len(a) > k + 1:
            c.eq(nm + ': %s reach the randomised SVD' % what, w, a[k + 1], v, cfg, 'option in its documented role')
    Vt = lambda i, j: el(ten('rs.Vt'), lift(i), lift(j))
    g = lambda name: an.call(o, name, []).val()
    c.eqmat(nm + ': components are the right factors', wf, g('get_components'), Kt, C_, Vt, cfg, 'stored components')
    c.eqmat(nm + ': singular values', wf, g('get_singular_values'), Kt, ONE, lambda i, j: el(ten('rs.S'), i, ZERO), cfg, 'stored singular values')
    i1, i2, h = fresh('i'), fresh('i'), fresh('h')

    def var(f):
        m = lambda j: div(sum_(R_, i1, f(i1, j)), R_)
        return lambda j: div(sum_(R_, i2, ISQ(sub(f(i2, j), m(j)))), R_)
    Z = var(lambda i, m: sum_(C_, h, mul(X.at(i, h), Vt(m, h))))
    FV = var(lambda i, j: X.at(i, j))
    t = fresh('t')
    ev = g('get_explained_var')
    er = g('get_explained_var_ratio')
    c.eqmat(nm + ': explained variance is the variance of the projected training data', wf, ev, Kt, ONE, lambda i, j: Z(i), cfg, 'population variance along axis 0')
    c.eqmat(nm + ': explained ratio is relative to the total variance of the data', wf, er, Kt, ONE, lambda i, j: div(Z(i), sum_(C_, t, FV(t))), cfg, 'ratio denominator sums the feature variances')
    Q = an.mat('Q', sym('nq', 'Z', 'dim'), C_)
    k = fresh('k')
    c.eqmat(nm + ': transform projects without centring', c.loc(method(an, cl['idx'], 'transform_data', 1)), an.call(o, 'transform', [Q]).val(), Q.r, Kt,
            lambda i, m: sum_(C_, k, mul(Q.at(i, k), Vt(m, k))), cfg, 'projection on the stored components')


def flip(c, an):
    q = 'openml::math::svd_flip'
    f = an.fns(q)[0]
    w = c.loc(f)
    n, p, k = sym('n', 'Z', 'dim'), sym('p', 'Z', 'dim'), sym('k', 'Z', 'dim')
    cfg = Cfg(dict(n=('int', 1, 5), p=('int', 1, 5), k=('int', 1, 4)), (), (0,), c.trials(24, 96))
    for ub in (True, False):
        an.new()
        U, V = an.mat('U', n, k), an.mat('V', k, p)
        out = an.run(f, [U, V, TRUE if ub else FALSE])
        v = out.val()
        nm = 'svd_flip(%s based)' % ('U' if ub else 'V')
        if out.dead or not hasattr(v, 'xs'):
            c.undecided(nm, w, type(v).__name__)
            continue
        u2, v2 = [an.e.read(x, an.st) if an.e._is_lv(x) else x for x in (v.xs)]
        m, i, j = idx('m*', k), idx('i*', n), idx('j*', p)
        c.eq(nm + ': paired vectors get the same sign', w, mul(u2.at(i, m), v2.at(m, j)), mul(U.at(i, m), V.at(m, j)), cfg, 'every rank-one term is unchanged')
        c.eq(nm + ': only signs change', w, ISQ(u2.at(i, m)), ISQ(U.at(i, m)), cfg, 'magnitudes are unchanged')
        b = fresh('b')
        if ub:
            g = u2.at(bind('argmax', n, b, fn('abs', U.at(b, m))), m)
        else:
            g = v2.at(m, bind('argmax', p, b, fn('abs', V.at(m, b))))
        c.holds(nm + ': the entry of largest magnitude becomes non-negative', w, le(ZERO, g), cfg, 'deterministic sign rule')


def rsvd(c, an):
    q = 'openml::math::randomized_svd'
    f = an.fns(q)[0]
    w = c.loc(f)
    n, p = R_, C_
    for nz in ('LU', 'QR', 'None'):
        an.new()
        X = an.mat('X', n, p)
        IT, OS = sym('IT', 'Z', 'dim'), sym('OS', 'Z', 'dim')
        out = an.run(f, [X, K, OS, IT, S(nz), FALSE])
        nm = 'randomized_svd(%s)' % nz
        if out.dead:
            c.ob(nm, w, 'diff', 'accepted', 'always throws for a documented normaliser')
            continue
        v = out.val()
        yield_ = v.xs
        u2, s2, v2 = [an.e.read(x, an.st) if an.e._is_lv(x) else x for x in yield_]
        cfg = Cfg(dict(n=('int', 3, 6), p=('int', 3, 6), K=('int', 1, 2), OS=('int', 1, 1)), (), (0,), c.trials(12, 40))
        for what, g, a, b in (('U', u2, n, K), ('s', s2, K, ONE), ('Vt', v2, K, p)):
            for d, x, y in (('rows', g.r, a), ('columns', g.c, b)):
                c.eq('%s: %s of %s' % (nm, d, what), w, x, y, cfg, 'factors are cut to the requested components')


def power(c, an):
    """the randomised range finder on explicit iteration counts, inner factorisations uninterpreted"""
    q = 'openml::math::randomized_svd'
    f = an.fns(q)[0]
    w = c.loc(f)
    cfg = Cfg(dict(n=('int', 3, 5), p=('int', 3, 5), K=('int', 1, 2), OS=('int', 1, 1)), (), (0,), c.trials(12, 40))
    for nz in ('LU', 'QR', 'None'):
        for it in (0, 1):
            log = []

            def rd(name, k, shape):
                def h(e, f, this, args, st, node):
                    if e.stack and e.stack[-1].f['q'] != q:
                        return NotImplemented
                    m = e.read(args[0], st) if args and e._is_lv(args[0]) else (args[0] if args else None)
                    n = len(log)
                    log.append((name, m, n))
                    return shape(m, n, args)
                return h
            A = lambda nm, n: el(ten('%s@%d' % (nm, n)), I, J)
            an.new({'openml::math::qr': rd('qr', 2, lambda m, n, a: TupV([MatV(m.r, m.c, A('qr', n)), MatV(m.c, m.c, A('qr.R', n))])),
                    'openml::math::lu': rd('lu', 3, lambda m, n, a: TupV([MatV(m.r, m.c, A('lu', n)), MatV(m.r, m.c, A('lu.L', n)), MatV(m.c, m.c, A('lu.U', n))])),
                    'openml::math::exact_svd': rd('svd', 3, lambda m, n, a: TupV([MatV(m.r, m.r, A('U', n)), MatV(m.r, ONE, A('S', n)), MatV(m.c, m.r, A('V', n))]))})
            OS = sym('OS', 'Z', 'dim')
            X = an.mat('X', R_, C_)
            out = an.run(f, [X, K, OS, num(it), S(nz), FALSE])
            nm = 'randomized_svd(%s, %d iterations)' % (nz, it)
            if out.dead or not log or log[-1][0] != 'svd' or len(log) < 2 or log[-2][0] != 'qr':
                c.undecided(nm, w, 'shape of the range finder not recognised')
                continue
            v = out.val()
            u2, s2, v2 = [an.e.read(x, an.st) if an.e._is_lv(x) else x for x in v.xs]
            B, nB = log[-1][1], log[-1][2]
            G, nG = log[-2][1], log[-2][2]
            at = lambda name, n: (lambda i, j: el(ten('%s@%d' % (name, n)), lift(i), lift(j)))
            h = fresh('h')
            kk = add(K, OS)
            Q = at('qr', nG)
            c.eqmat(nm + ': projects the data on the range basis', w, B, kk, C_, lambda i, j: sum_(R_, h, mul(Q(h, i), X.at(h, j))), cfg, 'B = Q^T X')
            c.eqmat(nm + ': left factor is lifted back', w, u2, R_, K, lambda i, j: sum_(kk, h, mul(Q(i, h), at('U', nB)(h, j))), cfg, 'U = Q Uhat')
            c.eqmat(nm + ': right factor', w, v2, K, C_, lambda i, j: at('V', nB)(j, i), cfg, 'Vt is the transposed right factor of B')
            c.eqmat(nm + ': singular values', w, s2, K, ONE, lambda i, j: at('S', nB)(i, ZERO), cfg, 'singular values of B')
            # the argument of the last QR is X times the result of the iterations
            XT = lambda g: (lambda i, j: sum_(R_, h2, mul(X.at(h2, i), g(h2, j))))
            XM = lambda g: (lambda i, j: sum_(C_, h1, mul(X.at(i, h1), g(h1, j))))
            if nz != 'None':
                # follow the chain of bases backwards through the data flow
                nme, cur, n_ = nz.lower(), G, 0
                while n_ <= 2 * it:
                    ks = sorted({k for k in range(len(log)) if log[k][0] == nme and occurs(cur.at(idx('i*', cur.r), idx('j*', cur.c)), '%s@%d' % (nme, k))})
                    if not ks:
                        break
                    h1, h2 = fresh('h'), fresh('h')
                    g = at(nme, ks[-1])
                    sp = XT(g) if n_ % 2 else XM(g)
                    c.eqmat('%s: basis %d from the end' % (nm, n_), w, cur, C_ if n_ % 2 else R_, kk, sp, cfg, 'alternates X and its transpose on the last basis')
                    cur = log[ks[-1]][1]
                    n_ += 1
                if n_ != 2 * it:
                    c.undecided(nm + ': power iterations', w, '%d factorisations in %d iterations' % (n_, it))


def occurs(t, name):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            if id(x) in seen:
                continue
            seen.add(id(x))
            todo.extend(x.a)
        elif isinstance(x, tuple):
            todo.extend(x)
        elif x == name:
            return True
    return False


def run(c):
    an = c.an('decomp')
    c.guarded('PCA', pca, c, an, [S('svd'), K], 'PCA(svd, K)', K)
    c.guarded('PCA defaults', pca, c, an, [], 'PCA(defaults)', num(2))
    OS, IT = sym('OS', 'Z', 'dim'), sym('IT', 'Z', 'dim')
    for nz in ('LU', 'QR', 'None'):
        c.guarded('TSVD ' + nz, tsvd, c, an, [K, OS, IT, S('randomized'), S(nz)], 'TruncatedSVD(%s)' % nz, [K, OS, IT, S(nz)])
    c.guarded('TSVD defaults', tsvd, c, an, [], 'TruncatedSVD(defaults)', [num(2), num(2), num(4), S('LU')])
    core = c.an('core')
    c.guarded('svd_flip', flip, c, core)
    c.guarded('randomized_svd', rsvd, c, core)
    c.guarded('power iterations', power, c, core)
