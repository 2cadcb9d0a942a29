"""L1 optimizers: the exact soft-threshold coordinate step and the exact truncation."""
from .opt import *


def absd(x):
    return ite(lt(x, ZERO), neg(x), x)


def scd(c, an):
    R = Run(c, an, 'SCD')
    w = R.where
    its = [(l, z) for l, z in R.leaves() if len(z.idx) == 2 and z.path[0][0] == 'obj' and not getattr(l, 'outer', ())]
    if len(its) != 1:
        return c.undecided('SCD', w, 'weights not identified (%d)' % len(its))
    l, z = its[0]
    gs = tapps(z.raw, 'Loss.gradient')
    if len(gs) != 1:
        return c.undecided('SCD', w, '%d gradients' % len(gs))
    g = gs[0]
    x = lambda j: subst(z.ph, {I: j, J: ZERO})
    G = lambda j: elt(g, j, ZERO)
    be, la = L1R, ALPHA
    u = lambda j: sub(x(j), div(G(j), be))
    th = div(la, be)
    new = lambda j: ite(lt(th, u(j)), sub(u(j), th), ite(lt(u(j), neg(th)), add(u(j), th), ZERO))
    eta = lambda j: sub(new(j), x(j))
    pred = lambda j: add(neg(mul(eta(j), G(j))), neg(mul(div(be, num(2)), mul(eta(j), eta(j)))), neg(mul(la, absd(new(j)))), mul(la, absd(x(j))))
    s = fresh('s')
    best = bind('argmax', C_, s, pred(s))
    i = idx('i*', C_)
    cfg = Cfg(dims(), modes=(0,), trials=c.trials(40, 160))
    c.eq('SCD: the gradient is taken at the current weights', w, elt(g.a[4], i, ZERO), x(i), cfg, 'weights argument of the gradient', unknown_ok=True)
    c.eq('SCD: only the best coordinate moves, by its soft-threshold step', w, subst(z.raw, {I: i, J: ZERO}), ite(eq(i, best), new(i), x(i)), cfg,
         'next weights = soft threshold of w - g/beta at the coordinate of largest predicted decrease, unchanged elsewhere', unknown_ok=True)
    c.eq('SCD: the budget is max_iter coordinate steps', w, l.N, MAXIT, cfg, 'trip count of the iteration loop', unknown_ok=True)
    c.eq('SCD: starts at the given weights', w, subst(z.init, {I: i, J: ZERO}), R.x0.at(i, ZERO), cfg, 'weights entering the loop')


def truncated(c, an):
    R = Run(c, an, 'TruncatedGradient')
    w = R.where
    it = R.iterate()
    if it is None:
        return c.undecided('TruncatedGradient', w, 'weights not identified')
    l, z, u = it
    i = idx('i*', C_)
    W = elt(u, i, ZERO)
    nw = subst(z.raw, {I: i, J: ZERO})
    cfg = R.cfg.plus()
    cfg.assume = cfg.assume + [lt(l.t, NB)]
    # the state the truncation reads besides the weights
    sc = [q for q in l.leaves if hasattr(q, 'raw') and not q.idx and any(leafname(y) == q.name for y in walk(nw)) and srt(q.ph) == 'R']
    ve = [q for q in l.leaves if hasattr(q, 'raw') and len(q.idx) == 2 and q.name != z.name and any(leafname(y) == q.name for y in walk(nw))]
    if len(sc) != 1 or len(ve) != 1:
        return c.undecided('TruncatedGradient: shrinkage', w, 'accumulated penalty not identified (%d, %d)' % (len(sc), len(ve)))
    U, Q = sc[0], ve[0]
    lr = u.a[4]
    pen = mul(L1R, mul(lr, ALPHA))
    tot = add(U.ph, pen)
    q = subst(Q.ph, {I: i, J: ZERO})
    mx = lambda a, b: ite(lt(a, b), b, a)
    mn = lambda a, b: ite(lt(a, b), a, b)
    spec = ite(lt(ZERO, W), mx(ZERO, sub(W, add(tot, q))), ite(lt(W, ZERO), mn(ZERO, add(W, sub(tot, q))), W))
    from oml.stmts import _replace
    # the updated weight as one number, so that both signs are covered
    v = sym('v', 'R')
    r = lambda t: _replace(t, {W: v})
    c.eq('TruncatedGradient: weights shrink by the accumulated penalty, at most to zero', w, r(nw), r(spec), cfg, 'next weights: max(0, w-(u+q)) for w>0, min(0, w+(u-q)) for w<0', unknown_ok=True)
    c.holds('TruncatedGradient: no weight crosses zero', w, and_(or_(le(v, ZERO), le(ZERO, r(nw))), or_(le(ZERO, v), le(r(nw), ZERO))), cfg, 'sign of the truncated weight', unknown_ok=True)
    c.eq('TruncatedGradient: the penalty accumulates l1_ratio * rate * alpha per update', w, U.raw, tot, cfg, 'next value of the accumulated penalty', unknown_ok=True)
    c.eq('TruncatedGradient: what each weight has received is remembered', w, r(subst(Q.raw, {I: i, J: ZERO})), r(add(q, sub(nw, W))), cfg, 'next value of the received penalty', unknown_ok=True)
    outs = R.outer(l)
    if len(outs) == 1:
        for nm, a in (('accumulated penalty', U), ('received penalty', Q)):
            o = next((b for b in outs[0].leaves if hasattr(b, 'raw') and b.path == a.path and len(b.idx) == len(a.idx)), None)
            if o is None:
                c.undecided('TruncatedGradient: ' + nm, w, 'not carried by the epoch loop')
                continue
            sb = lambda t: subst(t, {I: i, J: ZERO}) if a.idx else t
            c.eq('TruncatedGradient: the %s starts at zero' % nm, w, sb(o.init), ZERO, cfg, 'state entering the epoch loop', unknown_ok=True)
            c.eq('TruncatedGradient: the %s is carried across epochs' % nm, w, sb(a.init), sb(o.ph), cfg, 'state entering the batch loop', unknown_ok=True)


def run(c):
    c.prefetch('opt')
    an = c.an('opt')
    c.guarded('SCD', scd, c, an)
    c.guarded('TruncatedGradient', truncated, c, an)
