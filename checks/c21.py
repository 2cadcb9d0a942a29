"""C21: k-means assigns to the nearest centroid and moves centroids to means.

The iteration is interpreted on arbitrary data and arbitrary current centroids: the transition of the loop-carried centroid
matrix, the stopping condition and the predicted labels are extracted as terms and compared with the definition (nearest
centroid, first one on ties; mean of exactly the assigned samples; centroids of empty clusters stay)."""
from .models import *
KM = 'openml::cluster::KMeans'
K, MI, TOL_ = sym('K', 'Z', 'dim'), sym('max iter', 'Z', 'dim'), sym('tol', 'R', 'pos')
DOM = dict(n=('int', 2, 5), p=('int', 1, 2), K=('int', 1, 3), nq=('int', 1, 3))


def args(init):
    return [S(init), num(1), K, MI, TOL_]


def dist2(A, i, C, k, p):
    f = fresh('f')
    return sum_(p, f, (lambda d: mul(d, d))(sub(A(i, f), C(k, f))))


def nearest(A, C, p):
    k = fresh('k')
    return lambda i: bind('argmin', K, k, dist2(A, i, C, k, p))


def carried(an, init=None):
    """(loop, leaf) of a loop-carried matrix of centroids whose transition refers to itself and to X"""
    out = []
    for l in an.e.loops:
        if getattr(l, 'outer', ()):
            continue
        for z in l.leaves:
            if getattr(z, 'raw', None) is not None and isinstance(z.raw, T) and srt(z.raw) == 'R' and any(leafname(y) == z.name for y in walk(z.raw)) and any(leafname(y) == 'X' for y in walk(z.raw)):
                out.append((l, z))
    return out


def leafname(y):
    if y.op == 'el' and y.a[0].op in ('ten', 'tapp'):
        return y.a[0].a[0]
    if y.op in ('ten', 'sym', 'app', 'tapp'):
        return y.a[0]
    return None


def iteration(c, an):
    an.new()
    cl = klass(an, KM)
    o = an.obj(cl['idx'], args('random'))
    X = an.mat('X', R_, C_)
    C0 = MatV(K, C_, el(ten('C0'), I, J))
    done = []

    def init(e, f, this, a, st, node):
        if done:
            return OpqV('void')
        done.append(1)
        for k, v in e.read(this, st).f.items():
            if isinstance(v, MatV):
                e.write(this.step('f', k), C0, st)
        return OpqV('void')
    an.e.hooks['init_centroid()'] = init
    w = c.loc(method(an, cl['idx'], 'fit', 1))
    r = an.call(o, 'fit', [X])
    if r.dead:
        return c.ob('fit', w, 'diff', 'accepted', 'fit always throws')
    hits = [(l, z) for l, z in carried(an) if z.path[-1][0] == 'f' or True]
    hits = [(l, z) for l, z in hits if isinstance(z.path[-1], tuple) and z.path[-1][0] == 'f']
    if len(hits) != 1:
        return c.undecided('KMeans::fit: centroid iteration', w, '%d loop-carried centroid matrices' % len(hits))
    l, z = hits[0]
    wl = '%s:%s %s' % (rel(l.file), l.line, short(l.fn))
    PH = ten('P')
    ph = lambda k, f: el(PH, k, f)
    raw = rewrite_phi(z.raw, {z.name: ((I, J), ph(I, J))})
    i, b, f = idx('i*', K), fresh('b'), idx('f*', C_)
    cfg = Cfg(dict(DOM, p=('choice', [1, 2, 2])), modes=(0, 1), trials=c.trials(80, 300))
    near_ = nearest(X.at, ph, C_)
    mine = lambda b: b2t(eq(near_(b), i))
    cnt = sum_(R_, b, mine(b))
    mean = div(sum_(R_, b, mul(mine(b), X.at(b, f))), cnt)
    got = subst(raw, {I: i, J: f})
    c.eq('KMeans::fit: a centroid with samples becomes the mean of exactly the samples nearest to it', wl, ite(lt(ZERO, cnt), got, ZERO), ite(lt(ZERO, cnt), mean, ZERO), cfg,
         'transition of the centroid matrix = mean of {b : argmin_k |x_b - c_k| = i}')
    c.eq('KMeans::fit: a centroid without samples stays', wl, ite(lt(ZERO, cnt), ZERO, got), ite(lt(ZERO, cnt), ZERO, ph(i, f)), cfg, 'transition of the centroid matrix for empty clusters = identity')
    # stopping
    k, f2 = fresh('k'), fresh('f')
    move = lambda k: (lambda n_, kk=k: n_)(None)
    mine_k = lambda k, b: b2t(eq(near_(b), k))
    cn = lambda k: sum_(R_, b, mine_k(k, b))
    mn = lambda k, f: div(sum_(R_, b, mul(mine_k(k, b), X.at(b, f))), cn(k))
    mv = sum_(K, k, ite(lt(ZERO, cn(k)), sqrt(sum_(C_, f2, (lambda d: mul(d, d))(sub(mn(k, f2), ph(k, f2))))), ZERO))
    if len(l.brk) == 1 and not l.ret:
        pc, ss = l.brk[0]
        pc = rewrite_phi(pc, {z.name: ((I, J), ph(I, J))})
        c.eq('KMeans::fit: iteration stops when the total movement is below the tolerance', wl, b2t(pc), b2t(lt(mv, TOL_)), Cfg(dict(DOM, tol=('real', 0.2, 2.5)), modes=(0, 1), trials=c.trials(60, 240)),
             'condition of the loop exit = sum of centroid movements < tol')
        v = an.e.read(LV(z.path[0], z.path[1:]), St(ss, TRUE)) if False else None
        s = ss.get(z.path[0])
        for st in z.path[1:]:
            s = s.f[st[1]] if isinstance(s, ObjV) else s
        if isinstance(s, MatV):
            c.eq('KMeans::fit: stopping keeps the moved centroids', wl, rewrite_phi(s.at(i, f), {z.name: ((I, J), ph(I, J))}), got, cfg, 'centroids on the loop exit = centroids after the step')
    else:
        c.undecided('KMeans::fit: iteration stops when the total movement is below the tolerance', wl, '%d loop exits' % len(l.brk))
    # the first iteration starts from the chosen centroids
    a = an.e.read(o, an.st)
    cen = next((v for v in a.f.values() if isinstance(v, MatV)), None)
    if cen is not None and z.init is not None:
        c.eq('KMeans::fit: the iteration starts from the initial centroids', wl, z.init if isinstance(z.init, T) else z.init.body, C0.body, Cfg(DOM, modes=(0,)), 'initial value of the loop-carried centroid matrix')
    # budget
    if unknowns(l.N):
        c.undecided('KMeans::fit: at most max_iter iterations', wl, 'iteration bound not derived')
    else:
        c.eq('KMeans::fit: at most max_iter iterations', wl, l.N, MI, Cfg(dict(DOM, **{'max iter': ('int', 1, 6)}), modes=(0,)), 'iteration bound of the loop = max_iter')


def prediction(c, an):
    m = next(m for m in all_models() if m.name == 'KMeans')
    an.new()
    cl = klass(an, KM)
    st = an.e.sym_value
    o = an.obj(cl['idx'], args('random'))
    for k, v in an.e.read(o, an.st).f.items():
        if isinstance(v, MatV):
            an.e.write(o.step('f', k), MatV(K, C_, el(ten('P'), I, J)), an.st)
    Q = an.mat('Q', NQ, C_)
    w = c.loc(method(an, cl['idx'], 'predict', 1))
    r = an.call(o, 'predict', [Q])
    ne = nearest(Q.at, lambda k, f: el(ten('P'), k, f), C_)
    c.eqmat('KMeans::predict: the label is the index of the nearest centroid', w, r.val(), NQ, ONE, lambda i, j: ne(i), Cfg(dict(DOM, p=('int', 1, 3), K=('int', 1, 4)), modes=(0, 1), trials=c.trials(300, 900)), 'label = argmin_k |q - c_k|, first on ties, as in training')


def initial(c, an, init):
    an.new()
    cl = klass(an, KM)
    o = an.obj(cl['idx'], args(init))
    X = an.mat('X', R_, C_)
    f = method(an, cl['idx'], 'init_centroid', 2)
    w = c.loc(f)
    r = an.run(f, [X, MatV(ZERO, ONE, ZERO)], o)
    if r.dead:
        return c.ob('KMeans(%s): initial centroids' % init, w, 'diff', 'accepted', 'always throws')
    cen = next(v for v in an.e.read(o, an.st).f.values() if isinstance(v, MatV))
    b, g = fresh('b'), fresh('g')
    some = lambda row: lt(ZERO, sum_(R_, b, b2t(eq(sum_(C_, g, (lambda d: mul(d, d))(sub(row(g), X.at(b, g)))), ZERO))))
    i = idx('i*', K)
    ok = le(K, R_)
    cfg = Cfg(DOM, modes=(0,), trials=c.trials(40, 160), assume=[ok])
    nm = 'KMeans(%s): ' % init
    c.eq(nm + 'one initial centroid per cluster', w, cen.r, K, cfg, 'row count of the initial centroids')
    c.eq(nm + 'initial centroids have the columns of the data', w, cen.c, C_, cfg, 'column count of the initial centroids')
    hits = carried(an)
    if not hits:
        return c.holds(nm + 'every initial centroid is a sample', w, some(lambda g: cen.at(i, g)), cfg, 'row i of the initial centroids equals some row of the data')
    # seeding one centroid after another: the row added in an iteration, and the rows kept
    names = {}
    loops = {l.id for l, _ in hits}
    l = hits[0][0]
    zs = [z for z in l.leaves if getattr(z, 'raw', None) is not None]
    cz = [z for z in zs if isinstance(z.init, (T, MatV)) and any(leafname(y) == z.name and len(y.a) == 3 and y.a[1] is I and y.a[2] is J for y in walk(z.raw))]
    wl = '%s:%s %s' % (rel(l.file), l.line, short(l.fn))
    dom = dict(DOM, **{'?': ('real', 0, 1)})
    sz = [z for z in zs if z.name.endswith('.r')]
    ren = {}
    for z in zs:
        if z.name.endswith('.r'):
            ren[z.name] = ((), R_)
        elif srt(z.raw) == 'R' and any(y.op == 'el' and leafname(y) == z.name for y in walk(z.raw)):
            ren[z.name] = ((I, J), el(ten('phi:' + z.name[1:]), I, J))
        elif srt(z.raw) == 'R':
            ren[z.name] = ((), sym('phi:' + z.name[1:], 'R', 'pos'))
    rw = lambda t: rewrite_phi(t, ren)
    for z in zs:
        if z.name.endswith('.centers') or (z.path and z.path[-1] and False):
            pass
    cand = None
    for z in zs:
        r0 = rw(z.raw)
        t1 = add(l.t, ONE)
        if not (isinstance(z.raw, T) and any(y.op == 'ite' and l.t in list(walk(y.a[0])) and I in list(walk(y.a[0])) for y in walk(z.raw))):
            continue
        cand = z
        row = lambda g, r0=r0: subst(r0, {I: t1, J: g})
        dd = {k: v for k, v in DOM.items()}
        for nm_, (_, t) in ren.items():
            if t.op == 'el':
                dd[t.a[0].a[0]] = ('real', 0.0, 2.0)
        cf = Cfg(dd, modes=(0,), trials=c.trials(60, 240), assume=[ok, lt(t1, K)])
        c.holds(nm + 'every further centroid is a sample', wl, some(row), cf, 'the row written in an iteration equals some row of the data')
        keep = idx('i*', t1)
        c.eq(nm + 'centroids chosen before stay', wl, subst(r0, {I: keep, J: idx('j*', C_)}), subst(ren[z.name][1], {I: keep, J: idx('j*', C_)}), cf, 'rows up to the current one are not rewritten')
        i0 = subst(z.init.body if isinstance(z.init, MatV) else z.init, {I: ZERO})
        c.holds(nm + 'the first centroid is a sample', wl, some(lambda g: subst(i0, {J: g})), cf, 'row 0 before the loop equals some row of the data')
        for q in zs:
            if q is z or srt(q.raw) != 'R' or ren.get(q.name, (None, ZERO))[1].op != 'el' or not any(leafname(y) == 'X' for y in walk(q.raw)):
                continue
            s = idx('s*', R_)
            new = subst(rw(q.raw), {I: s, J: ZERO})
            old = subst(ren[q.name][1], {I: s, J: ZERO})
            d = sum_(C_, g, (lambda d: mul(d, d))(sub(X.at(s, g), row(g))))
            c.eq(nm + 'the distance kept per sample is the one to the nearest chosen centroid', wl, new, ite(lt(d, old), d, old), cf, 'carried distances = min(previous, squared distance to the new centroid)')
            qi = subst(q.init.body if isinstance(q.init, MatV) else q.init, {I: s, J: ZERO})
            d0 = sum_(C_, g, (lambda d: mul(d, d))(sub(X.at(s, g), subst(i0, {J: g}))))
            c.eq(nm + 'the distances start from the first centroid', wl, qi, d0, cf, 'initial distances = squared distance to the first centroid')
    if cand is None:
        c.undecided(nm + 'every initial centroid is a sample', wl, 'no centroid matrix found in the seeding loop')


def run(c):
    c.prefetch('kmeans')
    an = c.an('kmeans')
    c.guarded('KMeans::fit', iteration, c, an)
    c.guarded('KMeans::predict', prediction, c, an)
    for s in ('random', 'kmeans++'):
        c.guarded('KMeans(%s)' % s, initial, c, an, s)
