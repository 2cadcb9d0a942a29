"""Gaussian mixtures: E-step, M-step, precision factors, convergence and best-start protocol."""
from .est import *
from oml.values import TupV, ListV, veq
from oml.terms import fresh
QG = 'openml::mixture_model::GaussianMixture'
K = sym('K', 'Z', 'dim')
MI, NI = sym('MI', 'Z', 'dim'), sym('NI', 'Z', 'dim')
TOL, REG = sym('tol', 'R', 'pos'), sym('reg', 'R', 'pos')
DOM = dict(n=('int', 3, 5), p=('int', 1, 3), K=('int', 1, 3), nq=('int', 1, 2), reg=('real', 0.2, 1.0), L=('real', -2.0, 0.0), W=('real', 0.1, 0.9), tol=('real', 0.01, 0.5),
           MI=('int', 1, 3), NI=('int', 1, 3), PC=lambda it, key, h: 0.3 + (h % 1000) / 1000.0)
GET = ('get_weights', 'get_means', 'get_covariance', 'get_precisions_cholesky')


def ctor(ct):
    return [MI, NI, K, S('random'), S(ct), TOL, REG]


def roles(an, cl):
    """which fields hold what the getters report, found by matching values after an M-step"""
    an.new()
    o = an.obj(cl['idx'], ctor('full'))
    an.call(o, 'm_step', [an.mat('X', R_, C_), an.mat('L', R_, K)])
    ob = an.e.read(o, an.st)
    out = {}
    for g in GET:
        v = an.call(o, g, []).val()
        for k, x in ob.f.items():
            if veq(x, v):
                out[g] = k
    return out


def lat(v, k):
    return v.at(k)


def mstep(c, an, cl, ct):
    an.new()
    o = an.obj(cl['idx'], ctor(ct))
    X, L = an.mat('X', R_, C_), an.mat('L', R_, K)
    f = method(an, cl['idx'], 'm_step', 2)
    w = c.loc(f)
    an.call(o, 'm_step', [X, L])
    g = lambda n: an.call(o, n, []).val()
    nm = 'M-step(%s)' % ct
    cfg = Cfg(DOM, (), (0,), c.trials(12, 48))
    a, b, h, m = (fresh(x) for x in 'abhm')
    r = lambda i, k: fn('exp', L.at(i, k))
    nk = lambda k: sum_(R_, a, r(a, k))
    mean = lambda k, j: div(sum_(R_, b, mul(r(b, k), X.at(b, j))), nk(k))
    c.eqmat(nm + ': weights are mean responsibilities', w, g('get_weights'), K, ONE, lambda k, j: div(nk(k), R_), cfg, 'weights equal sum of responsibilities over n')
    c.eqmat(nm + ': means are responsibility-weighted', w, g('get_means'), K, C_, mean, cfg, 'means equal the weighted averages')
    cov = g('get_covariance')
    pc = g('get_precisions_cholesky')
    kk = idx('k*', K)
    if ct == 'full':
        spec = lambda i, j: add(div(sum_(R_, h, mul(r(h, kk), mul(sub(X.at(h, i), mean(kk, i)), sub(X.at(h, j), mean(kk, j))))), nk(kk)), ite(eq(i, j), REG, ZERO))
        cnt, ix = K, kk
    else:
        spec = lambda i, j: add(div(sub(sum_(R_, h, mul(X.at(h, i), X.at(h, j))), sum_(K, m, mul(nk(m), mul(mean(m, i), mean(m, j))))), sum_(K, m, nk(m))), ite(eq(i, j), REG, ZERO))
        cnt, ix = ONE, ZERO
    if not isinstance(cov, ListV) or not isinstance(pc, ListV):
        return c.undecided(nm + ': covariances', w, 'not lists')
    c.eq(nm + ': number of covariances', w, cov.n, cnt, cfg, 'one per component, or one shared')
    c.eqmat(nm + ': covariance', w, cov.at(ix), C_, C_, spec, cfg, 'weighted scatter plus regulariser on the diagonal')
    c.eq(nm + ': number of precision factors', w, pc.n, cnt, cfg, 'one per covariance')
    P, cv = pc.at(ix), cov.at(ix)
    wp = w
    try:
        wp = c.loc(method(an, cl['idx'], 'compute_precision_cholesky', 1))
    except KeyError:
        pass
    from oml.eigen import inv
    if isinstance(P, MatV) and isinstance(cv, MatV):
        iv = inv(MatV(C_, C_, cv.body))
        # resp below one keep covariances well conditioned in the interpretations
        c.eqmat(nm + ': precision factor', wp, MatV(P.r, P.c, sum_(C_, h, mul(P.at(I, h), P.at(J, h)))), C_, C_, lambda i, j: iv.at(i, j), cfg, 'P P^T is the inverse covariance')
        i, j = idx('i*', C_), idx('j*', C_)
        c.holds(nm + ': precision factor is upper triangular', wp, or_(le(i, j), eq(P.at(i, j), ZERO)), cfg, 'entries below the diagonal vanish')
        c.holds(nm + ': precision factor has a positive diagonal', wp, lt(ZERO, P.at(i, i)), cfg, 'its log-determinant is defined')


def state(an, cl, ro, ct):
    """an estimator with arbitrary parameters"""
    o = an.obj(cl['idx'], ctor(ct))
    ob = an.e.read(o, an.st)
    k = fresh('k')
    W, MU = MatV(K, ONE, el(ten('W'), I, J)), MatV(K, C_, el(ten('MU'), I, J))
    n = K if ct == 'full' else ONE
    PC = ListV(n, k, MatV(C_, C_, el(tapp('PC', 'R', k), I, J)))
    CV = ListV(n, k, MatV(C_, C_, el(tapp('CV', 'R', k), I, J)))
    new = ObjV(ob.cls, dict(ob.f))
    for g, v in zip(GET, (W, MU, CV, PC)):
        new.f[ro[g]] = v
    an.e.write(o, new, an.st, {'l': 0})
    return o, W, MU, PC


def density(Q, W, MU, PC, ct):
    h, j, d = fresh('h'), fresh('j'), fresh('d')
    P = lambda k: PC.at(k if ct == 'full' else ZERO)
    two_pi = num(Fraction(repr(__import__('math').pi * 2)))
    sq = lambda t: mul(t, t)
    return lambda i, k: add(fn('log', W.at(k, ZERO)), sum_(C_, d, fn('log', P(k).at(d, d))), mul(num(Fraction(-1, 2)), mul(C_, fn('log', two_pi))),
                            mul(num(Fraction(-1, 2)), sum_(C_, j, sq(sum_(C_, h, mul(sub(Q.at(i, h), MU.at(k, h)), P(k).at(h, j)))))))


def estep(c, an, cl, ro, ct):
    an.new()
    o, W, MU, PC = state(an, cl, ro, ct)
    nq = sym('nq', 'Z', 'dim')
    Q = an.mat('Q', nq, C_)
    D = density(Q, W, MU, PC, ct)
    cfg = Cfg(dict(DOM, **{'fn:PC': ('real', 0.3, 1.3)}), (), (0,), c.trials(12, 48))
    a, b = fresh('a'), fresh('b')
    lse = lambda i: fn('log', sum_(K, a, fn('exp', D(i, a))))
    nm = '%s covariances' % ct
    f = method(an, cl['idx'], 'predict_prob', 1)
    r = an.call(o, 'predict_prob', [Q])
    if r.dead:
        return c.ob(nm + ': probabilities', c.loc(f), 'diff', 'computed', 'predict_prob always fails')
    c.eqmat(nm + ': probabilities are normalised weighted densities', c.loc(f), r.val(), nq, K, lambda i, k: fn('exp', sub(D(i, k), lse(i))), cfg, 'responsibility equals weighted density over their sum')
    f = method(an, cl['idx'], 'predict', 1)
    r = an.call(o, 'predict', [Q])
    c.eqmat(nm + ': predicts the component of highest weighted density', c.loc(f), r.val(), nq, ONE, lambda i, j: bind('argmax', K, b, D(i, b)), cfg, 'row-wise argmax')
    f = method(an, cl['idx'], 'e_step', 1)
    r = an.call(o, 'e_step', [Q])
    v = r.val()
    if isinstance(v, TupV) and len(v.xs) == 2:
        lb, lr = (an.e.read(x, an.st) if an.e._is_lv(x) else x for x in v.xs)
        c.eq(nm + ': bound is the mean log likelihood', c.loc(f), lb, div(sum_(nq, b, lse(b)), nq), cfg, 'mean of the log normalisers')
        c.eqmat(nm + ': log responsibilities', c.loc(f), lr, nq, K, lambda i, k: sub(D(i, k), lse(i)), cfg, 'weighted log density minus the log normaliser')
    for ev in an.events('shape'):
        pass


def initial(c, an, cl, ct):
    rec = []

    def est(e, f, this, args, st, node):
        av = [e.read(x, st) if e._is_lv(x) else x for x in args]
        rec.append((av, '%s:%s' % (rel(e.stack[-1].f['file']), node.get('l'))))
        return NotImplemented
    an.new({'estimate_gaussian_parameters()': est})
    o = an.obj(cl['idx'], ctor(ct))
    X = an.mat('X', R_, C_)
    f = method(an, cl['idx'], 'initialize_parameters', 1)
    an.call(o, 'initialize_parameters', [X])
    nm = 'initialisation(%s)' % ct
    if len(rec) != 1:
        return c.undecided(nm, c.loc(f), '%d parameter estimates' % len(rec))
    (av, w) = rec[0]
    R = av[1]
    cfg = Cfg(DOM, (), (2,), c.trials(12, 48))
    k = fresh('k')
    i = idx('i*', R_)
    c.eq(nm + ': initial responsibilities sum to one', w, sum_(R.c, k, R.at(i, k)), ONE, cfg, 'rows are normalised')
    c.eq(nm + ': one responsibility per component', w, R.c, K, cfg, 'columns')
    c.eq(nm + ': one row per sample', w, R.r, R_, cfg, 'rows')
    g = lambda n: an.call(o, n, []).val()
    a, b = fresh('a'), fresh('b')
    nk = lambda q: sum_(R_, a, R.at(a, q))
    c.eqmat(nm + ': weights', c.loc(f), g('get_weights'), K, ONE, lambda q, j: div(nk(q), R_), cfg, 'M-step of the initial responsibilities')
    c.eqmat(nm + ': means', c.loc(f), g('get_means'), K, C_, lambda q, j: div(sum_(R_, b, mul(R.at(b, q), X.at(b, j))), nk(q)), cfg, 'M-step of the initial responsibilities')


def protocol(c, an, cl, ro):
    fw, fm, fc, fp = (ro[g] for g in GET)

    def upd(tag):
        def h(e, f, this, args, st, node):
            ob = e.read(this, st)
            ks = [toterm(ob.f[fw]), toterm(ob.f[fm])] + [toterm(x) for x in (e.read(y, st) if e._is_lv(y) else y for y in args) if isinstance(x, MatV)]
            new = ObjV(ob.cls, dict(ob.f))
            new.f[fw] = MatV(K, ONE, el(tapp(tag + '.w', 'R', *ks), I, J))
            new.f[fm] = MatV(K, C_, el(tapp(tag + '.m', 'R', *ks), I, J))
            for nm in (fc, fp):
                k = fresh('k')
                new.f[nm] = ListV(K, k, MatV(C_, C_, el(tapp(tag + '.' + ('c' if nm == fc else 'p'), 'R', k, *ks), I, J)))
            e.write(this, new, st, node)
            return OpqV('void')
        return h

    def estep(e, f, this, args, st, node):
        ob = e.read(this, st)
        ks = [toterm(ob.f[fw]), toterm(ob.f[fm])]
        return TupV([app('lb', 'R', *ks), MatV(R_, K, el(tapp('resp', 'R', *ks), I, J))])
    an.new({'initialize_parameters()': upd('init'), 'm_step()': upd('m'), 'e_step()': estep})
    o = an.obj(cl['idx'], ctor('full'))
    X = an.mat('X', R_, C_)
    f = method(an, cl['idx'], 'fit_data', 1)
    w = c.loc(f)
    r = an.call(o, 'fit', [X])
    if r.dead:
        return c.ob('fit', w, 'diff', 'accepted', 'fit always throws')
    loops = an.e.loops
    em = [l for l in loops if any(hasattr(z, 'raw') and isinstance(z.raw, T) and z.raw.op == 'app' and z.raw.a[0] == 'lb' for z in l.leaves)]
    if not em:
        return c.undecided('EM iteration', w, 'no loop evaluates the bound')
    em = em[0]
    cfg = Cfg(DOM, (), (0,), c.trials(40, 200))
    lead = {z.path[-1][1] if z.path[-1][0] == 'f' else z.path[-1][0]: z for z in em.leaves if hasattr(z, 'raw') and not z.name.endswith(('.n', '.r', '.c'))}
    zl = next(z for z in em.leaves if hasattr(z, 'raw') and isinstance(z.raw, T) and z.raw.op == 'app' and z.raw.a[0] == 'lb')
    ph = lambda n: lead[n].ph if n in lead else None
    if any(ph(n) is None for n in (fw, fm, fc, fp)):
        return c.undecided('EM iteration', w, 'parameters not carried by the iteration')
    # state at iteration entry
    pw, pm = MatV(K, ONE, lead[fw].ph), MatV(K, C_, lead[fm].ph)
    ks = [toterm(pw), toterm(pm)]
    resp = MatV(R_, K, el(tapp('resp', 'R', *ks), I, J))
    ks2 = ks + [toterm(X), toterm(resp)]
    lw = '%s:%s' % (w.split(':')[0], em.line)
    c.eq('EM iteration: the bound is that of the current parameters', lw, zl.raw, app('lb', 'R', *ks), cfg, 'E-step precedes the M-step', unknown_ok='phi')
    for n, tag in ((fw, 'w'), (fm, 'm')):
        z = lead[n]
        c.eq('EM iteration: %s come from the M-step on the current responsibilities' % {'w': 'weights', 'm': 'means'}[tag], lw, z.raw, el(tapp('m.' + tag, 'R', *ks2), I, J), cfg, 'M-step uses this iteration\'s responsibilities', unknown_ok='phi')
    prev = zl.ph
    d = sub(app('lb', 'R', *ks), prev)
    conv = lt(ite(lt(d, ZERO), neg(d), d), TOL)
    if em.brk:
        c.holds('EM iteration: stops exactly when the bound changes by less than the tolerance', lw,
                (lambda x: or_(and_(x, conv), and_(not_(x), not_(conv))))(or_(*[and_(b[0]) for b in em.brk])), cfg, 'stopping condition', unknown_ok='phi')
    else:
        c.undecided('EM iteration: stopping', lw, 'no early exit found')
    # best start
    outer = [l for l in loops if l is not em and l.id == em.outer] if isinstance(getattr(em, 'outer', None), int) else [l for l in loops if l is getattr(em, 'outer', None)]
    outer = outer or [l for l in loops if l is not em and any(x is NI for x in (l.N,))]
    if not outer:
        return c.undecided('best start', w, 'no loop over starts found')
    ol = outer[0]
    ow = '%s:%s' % (w.split(':')[0], ol.line)
    byname = {}
    for z in ol.leaves:
        if hasattr(z, 'raw'):
            byname[z.name[1:]] = z

    def leaf(v):
        """the leaf of the loop over starts a reported value is the final value of"""
        t = v.body if isinstance(v, MatV) else v
        h = t.a[0] if isinstance(t, T) else None
        h = h.a[0] if isinstance(h, T) else h
        if isinstance(h, str) and h.startswith('?') and h.endswith('@'):
            return byname.get(h[1:-1])
        return None
    g = lambda n: an.call(o, n, []).val()
    zb = leaf(g('get_lower_bound'))
    if zb is None:
        return c.undecided('best start', ow, 'the reported bound is not carried by the loop over starts')
    ninf = neg(mk('inf'))
    improved = lt(zb.ph, zb.raw)
    kk = sym('k*', 'Z')
    c.holds('best start: the reported bound never decreases over the starts', ow, not_(lt(zb.raw, zb.ph)), cfg, 'maximum over starts', unknown_ok='phi')
    # the bound of a start is the last one its iterations computed
    fin = [z for z in ol.leaves if hasattr(z, 'raw') and z.path[-1] == ('f', fw) and not z.name.endswith(('.r', '.c', '.n'))]
    first_only = {zb.ph: ninf}
    for gname, field in zip(GET, (fw, fm, fc, fp)):
        v = g(gname)
        lst = isinstance(v, ListV)
        body = v.at(kk).body if lst else v.body if isinstance(v, MatV) else None
        z = leaf(MatV(ONE, ONE, body)) if body is not None else None
        end = [y for y in ol.leaves if hasattr(y, 'raw') and y.path[-1] == ('f', field) and not y.name.endswith(('.r', '.c', '.n'))]
        what = {fw: 'weights', fm: 'means', fc: 'covariances', fp: 'precision factors'}[field]
        if z is None and end and not lst and end[0].closed is not None:
            # the parameter itself is reported: whatever the last start left behind
            z = end[0]
        if z is None or not end:
            c.undecided('best start: ' + what, ow, 'not carried by the loop over starts')
            continue
        al = lambda t: subst(t, dict(zip(end[0].idx, z.idx))) if end[0].idx != z.idx else t
        cur = al(end[0].raw)
        c.eq('best start: %s are kept unless this start improves the bound' % what, ow, ite(improved, ZERO, z.raw), ite(improved, ZERO, z.ph), cfg, 'snapshot unchanged without improvement', unknown_ok='phi')
        c.eq('best start: %s are those of the improving start' % what, ow, ite(improved, z.raw, ZERO), ite(improved, cur, ZERO), cfg, 'snapshot taken with the bound', unknown_ok='phi')
        c.eq('best start: %s of the first start are taken' % what, ow, subst(z.raw, first_only), cur if not lst else cur, cfg, 'first start always recorded', unknown_ok='phi')
    P, PCv = g('get_precisions'), g('get_precisions_cholesky')
    h = fresh('h')
    if isinstance(P, ListV) and isinstance(PCv, ListV):
        c.eqmat('reported precisions', w, P.at(kk), C_, C_, lambda i, j: sum_(C_, h, mul(PCv.at(kk).at(i, h), PCv.at(kk).at(j, h))), cfg, 'precision is the factor times its transpose', unknown_ok='phi')
        c.eq('number of reported precisions', w, P.n, PCv.n, cfg, 'one per factor, nothing from earlier fits', unknown_ok='phi')


def run(c):
    an = c.an('gmm')
    cl = klass(an, QG)
    for ct in ('full', 'tied'):
        c.guarded('M-step ' + ct, mstep, c, an, cl, ct)
    try:
        ro = roles(an, cl)
    except (KeyError, Unsupported, Dead):
        ro = {}
    if len(ro) != len(GET):
        c.undecided('parameters', '?', 'fields behind the getters not identified')
        return
    for ct in ('full', 'tied'):
        c.guarded('E-step ' + ct, estep, c, an, cl, ro, ct)
        c.guarded('initial ' + ct, initial, c, an, cl, ct)
    c.guarded('protocol', protocol, c, an, cl, ro)
