"""Optimizers publish the iterate they reached, or throw."""
from .opt import *

RULE = 'value of the published coefficients at every normal return equals the loop-carried weights there'


def first_epoch(R, rec, t):
    """a condition on the state at the start of an iteration, taken at iteration 0"""
    t = subst(t, {rec.t: ZERO})
    m = {}
    for z in rec.leaves:
        if hasattr(z, 'nxt') and not z.idx and z.closed is None:
            m['?' + z.name[1:] + '@'] = z.init
    rep = {y: m[y.a[0]] for y in walk(t) if y.op in ('app', 'sym') and y.a[0] in m}
    from oml.stmts import _replace
    return _replace(t, rep) if rep else t


def stochastic(c, an, cls):
    R = Run(c, an, cls, verbose=sym('verbose', 'B'))
    w = R.where
    if R.r.dead:
        return c.ob(cls + ': can return', w, 'diff', 'some run returns', 'optimize never returns normally')
    it = R.iterate()
    if it is None:
        return c.ob(cls + ': weights are updated in the training loop', w, 'diff', 'the update policy is applied to loop-carried weights', 'no loop-carried weights receive the update')
    l, z, u = it
    cfg = R.cfg.plus()
    cfg.assume = cfg.assume + [R.r.pc]
    try:
        last = at_path(R.an.st.s, z.path)
    except (KeyError, AttributeError, TypeError):
        last = None
    g = R.published()
    if isinstance(last, MatV):
        c.eqmat(cls + ': get_coef after optimize is the last iterate', w, g, C_, R.K, lambda i, j: last.at(i, j), cfg, RULE, unknown_ok=True)
    else:
        c.undecided(cls + ': get_coef after optimize is the last iterate', w, 'the weights are not part of the object')
    outs = R.outer(l)
    if len(outs) != 1:
        return c.undecided(cls + ': budget', w, 'epoch loop not identified')
    rec = outs[0]
    E = or_(*[x[0] for x in rec.exits]) if rec.exits else FALSE
    s = fresh('s')
    c.holds(cls + ': a normal return means the stopping test fired', w, implies_(R.r.pc, any_(MAXIT, s, subst(E, {rec.t: s}))), R.cfg,
            'path condition of the normal return implies the exit condition of some epoch', unknown_ok=True)
    c.holds(cls + ': the first epoch alone never exhausts the patience', w, implies_(first_epoch(R, rec, E), le(PAT, ONE)), R.cfg,
            'exit condition at the state entering the first epoch', unknown_ok=True)
    R0 = Run(c, an, cls, max_iter=ZERO, verbose=sym('verbose', 'B'))
    c.ob(cls + ': an empty budget is reported', w, 'same' if R0.r.dead or R0.r.pc is FALSE else 'diff', 'with no epochs allowed optimize throws',
         None if R0.r.dead or R0.r.pc is FALSE else 'optimize returns normally without any epoch')


def implies_(a, b):
    return or_(not_(a), b)


def scd(c, an):
    R = Run(c, an, 'SCD', verbose=sym('verbose', 'B'))
    g = R.published()
    its = [(l, z) for l, z in R.leaves() if z.path[0][0] == 'obj' and len(z.idx) == 2 and any(y.op in ('tapp', 'app') and str(y.a[0]).startswith('Loss.gradient') for y in walk(z.raw))]
    its = its or [(l, z) for l, z in R.leaves() if len(z.idx) == 2 and len(z.path) > 1]
    if not its:
        return c.undecided('SCD', R.where, 'weights not identified')
    last = at_path(R.an.st.s, its[-1][1].path)
    c.eqmat('SCD: get_coef after optimize is the last iterate', R.where, g, C_, ONE, lambda i, j: last.at(i, j), R.cfg, RULE, unknown_ok=True)


def lbfgs(c, an):
    for pol in ('backtracking', 'bracketing'):
        Q = Newton(c, an, pol)
        nm = 'LBFGS(%s)' % pol
        if not Q.call or Q.loop is None:
            return c.undecided(nm, Q.where, 'search loop not identified')
        for k, (what, pc, ss) in enumerate(Q.ends()):
            got, want = Q.point(ss)
            cfg = Cfg(dims(), assume=[pc], modes=(0,), trials=c.trials(24, 96))
            c.eqmat('%s: %s %d keeps the point of the last successful search' % (nm, what, k), Q.where, got, None, None, lambda i, j: want.at(i, j), cfg,
                    'point at the end of an iteration is the point of its search, or the point before a failed search', unknown_ok=True)
        fin = Q.an.e.read(Q.call['args'][0], Q.an.st)
        cfg = Cfg(dims(), assume=[Q.r.pc], modes=(0,), trials=c.trials(16, 64))
        c.eqmat(nm + ': get_coef after optimize is the point reached', Q.where, Q.published(), C_, ONE, lambda i, j: fin.at(i, j), cfg, RULE, unknown_ok=True)


def run(c):
    c.prefetch('opt')
    an = c.an('opt')
    for k in ('SGD', 'SAG', 'TruncatedGradient'):
        c.guarded(k, stochastic, c, an, k)
    c.guarded('SCD', scd, c, an)
    c.guarded('LBFGS', lbfgs, c, an)
