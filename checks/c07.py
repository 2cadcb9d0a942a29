"""Stochastic updates: gradient at the current weights on the batch, scheduled rate, step direction, policies and schedules."""
from .opt import *

BIG = num(10 ** 10)


def clipped(g):
    return ite(lt(BIG, g), BIG, ite(lt(g, neg(BIG)), neg(BIG), g))


def grads(t):
    """gradient evaluations inside a term (outermost function application terms)"""
    return tapps(t, 'Loss.gradient')


def update(c, an, cls):
    R = Run(c, an, cls)
    w = R.where
    it = R.iterate()
    if it is None:
        return c.ob(cls + ': weights are updated in the training loop', w, 'diff', 'the update policy is applied to loop-carried weights', 'no loop-carried weights receive the update')
    l, z, u = it
    outs = R.outer(l)
    W, G, lr = u.a[2], u.a[3], u.a[4]
    Wm = z.ph
    cfg = R.cfg.plus()
    cfg.assume = cfg.assume + [lt(l.t, NB)]
    i, j = idx('i*', C_), (idx('j*', R.K) if cls == 'SGD' else ZERO)
    at = elt
    cur = subst(Wm, {I: i, J: j})
    c.eq(cls + ': the update starts from the current weights', w, at(W, i, j), cur, cfg, 'first argument of the update policy', unknown_ok=True)
    if len(outs) == 1:
        c.eq(cls + ': the rate is the schedule at the number of finished epochs', w, lr, app('Decay.compute', 'R', outs[0].t), cfg, 'third argument of the update policy', unknown_ok=True)
    else:
        c.undecided(cls + ': rate', w, 'epoch loop not identified')
    gs = grads(G)
    if not gs:
        return c.ob(cls + ': the update uses the gradient', w, 'diff', 'second argument of the update policy', 'no gradient of the loss in the step')
    if len(gs) > 1:
        return c.undecided(cls + ': step', w, '%d gradients in one step' % len(gs))
    g = gs[0]
    c.eq(cls + ': the gradient is taken at the current weights', w, at(g.a[4], i, j), cur, cfg, 'weights argument of the gradient', unknown_ok=True)
    ge = at(g, i, j)
    if cls != 'SAG':
        c.eq(cls + ': the step is the clipped gradient', w, at(G, i, j), clipped(ge), cfg, 'second argument of the update policy', unknown_ok=True)
        huge(c, cls, w, at(G, i, j), ge, clipped, cfg)
    else:
        average(c, R, l, z, G, g, cfg)
    # the loop-carried weights are the result of the update (truncation is the subject of C36)
    if cls != 'TruncatedGradient':
        c.eq(cls + ': the weights become the result of the update', w, subst(z.raw, {I: i, J: j}), at(u, i, j), cfg, 'next value of the weights', unknown_ok=True)
    c.eq(cls + ': one update per batch of the epoch', w, l.N, NB, cfg, 'trip count of the batch loop equals floor(samples / batch size)', unknown_ok=True)
    if outs:
        c.eq(cls + ': at most max_iter epochs', w, outs[0].N, MAXIT, cfg, 'trip count of the epoch loop', unknown_ok=True)
        z0 = next((q for q in outs[0].leaves if hasattr(q, 'nxt') and q.path == z.path and len(q.idx) == len(z.idx)), None)
        if z0 is not None:
            c.eq(cls + ': each epoch continues from the weights of the one before', w, subst(z.init, {I: i, J: j}), subst(z0.ph, {I: i, J: j}), cfg, 'weights entering the batch loop', unknown_ok=True)
            c.eq(cls + ': training starts at the given weights', w, subst(z0.init, {I: i, J: j}), R.x0.at(i, j), cfg, 'weights entering the epoch loop', unknown_ok=True)


def huge(c, cls, w, got, ge, spec, cfg):
    from oml.stmts import _replace
    b = mul(sym('huge', 'R'), num(10 ** 14))
    c.eq(cls + ': huge gradients are clipped to the documented range', w, _replace(got, {ge: b}), spec(b), cfg, 'step for gradients beyond the clipping range', unknown_ok=True)


def average(c, R, l, z, G, g, cfg):
    """the averaged gradient stays the mean of the most recent gradient of every batch"""
    w = R.where
    i, b = idx('i*', C_), fresh('b')
    hist = [q for q in l.leaves if hasattr(q, 'nxt') and len(q.idx) == 2 and q.name != z.name and grads(q.raw) and q.raw.op == 'ite' and restrict(q.raw, eq(J, l.t), False) is q.ph]
    avg = [q for q in l.leaves if hasattr(q, 'nxt') and len(q.idx) == 2 and q.name != z.name and any(leafname(y) == q.name for y in walk(G))]
    avg = [q for q in avg if q not in hist]
    if len(hist) != 1 or len(avg) != 1:
        return c.undecided('SAG: averaged gradient', w, 'history and average not identified (%d, %d)' % (len(hist), len(avg)))
    H, A = hist[0], avg[0]
    c.eq('SAG: the history keeps the newest gradient of each batch', w, subst(H.raw, {I: i, J: idx('b*', NB)}),
         ite(eq(idx('b*', NB), l.t), clipped(elt(g, i, ZERO)), subst(H.ph, {I: i, J: idx('b*', NB)})), cfg, 'next value of the gradient history', unknown_ok=True)
    mean = lambda e: div(sum_(NB, b, subst(e, {I: i, J: b})), NB)
    inv = {A.name: (A.idx, div(sum_(NB, b, subst(H.ph, {J: b})), NB))}
    c.eq('SAG: the step is the mean of the stored gradients', w, rewrite_phi(elt(G, i, ZERO), inv), mean(H.raw), cfg,
         'inductive invariant: average = mean of the history (assumed before the batch, shown after it)', unknown_ok=True)
    c.eq('SAG: the average carried over is the one stepped with', w, subst(A.raw, {I: i, J: ZERO}), elt(G, i, ZERO), cfg, 'next value of the average', unknown_ok=True)
    out = R.outer(l)
    if out:
        oh = [q for q in out[0].leaves if hasattr(q, 'nxt') and q.path == H.path and len(q.idx) == 2]
        oa = [q for q in out[0].leaves if hasattr(q, 'nxt') and q.path == A.path and len(q.idx) == 2]
        if oh and oa:
            c.eq('SAG: the average starts as the mean of the history', w, subst(oa[0].init, {I: i, J: ZERO}), mean(oh[0].init), cfg, 'state entering the epoch loop', unknown_ok=True)
            c.eq('SAG: history carried across epochs', w, subst(H.init, {I: i}), subst(oh[0].ph, {I: i}), cfg, 'state entering the batch loop', unknown_ok=True)
            c.eq('SAG: average carried across epochs', w, subst(A.init, {I: i, J: ZERO}), subst(oa[0].ph, {I: i, J: ZERO}), cfg, 'state entering the batch loop', unknown_ok=True)


def policies(c, an):
    n, K, mu, lr = sym('n', 'Z', 'dim'), sym('K', 'Z', 'dim'), sym('mu', 'R', 'nn'), sym('lr', 'R', 'pos')
    for nm, args, an in (('VanillaUpdate', [], an), ('MomentumUpdate', [mu], an), ('NesterovMomentumUpdate', [mu], c.an('opt2'))):
        an.new()
        cl = klass(an, OP + nm)
        o = an.obj(cl['idx'], args)
        W, G = an.mat('W', n, K), an.mat('G', n, K)
        W2, G2 = an.mat('W2', n, K), an.mat('G2', n, K)
        f = method(an, cl['idx'], 'update', 3)
        w = c.loc(f)
        cfg = Cfg({'n': ('int', 1, 4), 'K': ('int', 1, 3)}, modes=(0,), trials=c.trials(24, 96))
        r1 = an.run(f, [W, G, lr], o).val()
        lr2 = sym('lr2', 'R', 'pos')
        r2 = an.run(f, [W2, G2, lr2], o).val()
        g1 = lambda i, j: mul(lr, G.at(i, j))
        if nm == 'VanillaUpdate':
            s1 = lambda i, j: sub(W.at(i, j), g1(i, j))
            s2 = lambda i, j: sub(W2.at(i, j), mul(lr2, G2.at(i, j)))
        else:
            v2 = lambda i, j: add(mul(mu, g1(i, j)), mul(lr2, G2.at(i, j)))
            if nm == 'MomentumUpdate':
                s1 = lambda i, j: sub(W.at(i, j), g1(i, j))
                s2 = lambda i, j: sub(W2.at(i, j), v2(i, j))
            else:
                s1 = lambda i, j: sub(W.at(i, j), add(g1(i, j), mul(mu, g1(i, j))))
                s2 = lambda i, j: sub(W2.at(i, j), add(v2(i, j), mul(mu, sub(v2(i, j), g1(i, j)))))
        c.eqmat(nm + ': first step from rest', w, r1, n, K, s1, cfg, 'step from zero velocity')
        c.eqmat(nm + ': second step carries the velocity', w, r2, n, K, s2, cfg, 'step with the velocity of the step before')


def schedules(c, an):
    b, gm, e = sym('b', 'R', 'pos'), sym('gm', 'R', 'pos'), sym('e', 'Z', 'nn')
    st = sym('st', 'Z', 'dim')
    cases = [('StepDecay', [b, gm, st], [lt(gm, ONE), le(num(2), st)]), ('StepDecay', [b, gm], [lt(gm, ONE)]), ('StepDecay', [b], []), ('StepDecay', [], []),
             ('ExponentialDecay', [b, gm], []), ('ExponentialDecay', [b], []), ('ExponentialDecay', [], [])]
    for nm, args, pre in cases:
        an.new()
        cl = klass(an, OP + nm)
        o = an.obj(cl['idx'], args)
        f = method(an, cl['idx'], 'compute', 1)
        w = c.loc(f)
        base = args[0] if args else num(Fraction(1, 10))
        g = args[1] if len(args) > 1 else num(Fraction(1, 2))
        n = '%s(%d arguments)' % (nm, len(args))
        v0 = an.run(f, [ZERO], o).val()
        v = an.run(f, [e], o).val()
        v1 = an.run(f, [add(e, ONE)], o).val()
        cfg = Cfg({'e': ('int', 0, 40), 'st': ('int', 1, 12)}, assume=pre, modes=(0,), trials=c.trials(60, 240))
        c.eq(n + ': the first epoch uses the base rate', w, v0, base, cfg, 'schedule at epoch 0')
        c.holds(n + ': the rate never increases', w, le(v1, v), cfg, 'schedule at epoch e+1 is at most the schedule at e')
        c.holds(n + ': the rate stays positive', w, lt(ZERO, v), Cfg({'e': ('int', 0, 12), 'st': ('int', 1, 12)}, assume=pre, modes=(0,), trials=40), 'schedule is positive')
        if nm == 'ExponentialDecay':
            c.eq(n + ': documented schedule', w, v, mul(base, fn('exp', neg(mul(g, e)))), cfg, 'base * exp(-gamma * epoch)')
        elif len(args) != 3:
            # the documented step schedule, up to where within a period the drop happens
            c.eq(n + ': one period later the rate is gamma times smaller', w, an.run(f, [add(e, num(10))], o).val(), mul(v, g), cfg, 'rate(e + step_size) = gamma * rate(e)')
        else:
            c.eq(n + ': one period later the rate is gamma times smaller', w, an.run(f, [add(e, st)], o).val(), mul(v, g), cfg, 'rate(e + step_size) = gamma * rate(e)')


def run(c):
    c.prefetch('opt', 'opt2')
    an = c.an('opt')
    for k in ('SGD', 'SAG', 'TruncatedGradient'):
        c.guarded(k, update, c, an, k)
    c.guarded('policies', policies, c, an)
    c.guarded('schedules', schedules, c, an)
