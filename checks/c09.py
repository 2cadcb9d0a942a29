"""Line searches: acceptance conditions, trial budget, rejected directions; the caller restores after failure."""
from .opt import *

FT, WO, MAXLS = sym('ftol', 'R', 'pos'), sym('wolfe', 'R', 'pos'), sym('max_ls', 'Z', 'dim')


class Search:
    def __init__(self, c, an, cls, cond):
        an.new()
        self.an = an
        self.cl = next(k for k in an.p.classes if k['q'] == OP + cls)
        ls = next(k for k in an.p.classes if k['q'] == OP + 'LineSearchParams')
        prm = an.obj(ls['idx'], [FT, WO, MAXLS, mk('str', cond)])
        self.X, self.y = an.mat('X', R_, C_), an.vec('y', R_)
        self.o = an.obj(self.cl['idx'], [self.X, self.y, OpqV('Loss'), prm])
        n = C_
        V = lambda s: an.root(an.vec(s, n))
        self.a = dict(x=V('x'), fx=an.root(sym('fx0', 'R')), g=V('g'), d=V('d'), step=an.root(sym('step0', 'R')), xp=V('xp'), gp=V('gp'))
        self.f = method(an, self.cl['idx'], 'search', 7)
        self.where = c.loc(self.f)
        self.init = {k: an.e.read(v, an.st) for k, v in self.a.items()}
        self.r = an.run(self.f, [self.a[k] for k in ('x', 'fx', 'g', 'd', 'step', 'xp', 'gp')], self.o)
        self.fin = {k: self.r.val(v) for k, v in self.a.items()}
        self.ret = self.r.val()

    def dot(self, a, b):
        k = fresh('k')
        return sum_(C_, k, mul(a.at(k, ZERO), b.at(k, ZERO)))


def one(c, an, cls, cond):
    S = Search(c, an, cls, cond)
    nm = '%s, %s' % (cls[10:].lower(), {'ARMIJO': 'sufficient decrease', 'WOLFE': 'weak curvature', 'STRONG_WOLFE': 'strong curvature'}[cond])
    w = S.where
    ok = lt(ZERO, S.ret)
    base = Cfg(dims(), assume=[S.r.pc], modes=(0,), trials=c.trials(30, 120))
    acc = base.plus()
    acc.assume = base.assume + [ok]
    F, I0 = S.fin, S.init
    dg0 = S.dot(I0['d'], I0['g'])
    c.eqmat(nm + ': the accepted point is start + step * direction', w, F['x'], C_, ONE, lambda i, j: add(I0['xp'].at(i, ZERO), mul(F['step'], I0['d'].at(i, ZERO))), acc,
            'point returned with success, against the returned step', unknown_ok=True)
    X, y = toterm(S.X), toterm(mat(R_, ONE, lambda i, j: S.y.at(i, ZERO)))
    c.eq(nm + ': the reported value is the loss at the accepted point', w, F['fx'], app('Loss.evaluate', 'R', X, y, toterm(F['x'])), acc, 'value returned with success', unknown_ok=True)
    c.eqmat(nm + ': the reported gradient is the gradient at the accepted point', w, F['g'], C_, ONE, lambda i, j: el(tapp('Loss.gradient', 'R', X, y, toterm(F['x'])), i, j), acc,
            'gradient returned with success', unknown_ok=True)
    c.eqmat(nm + ': the direction is left alone', w, F['d'], C_, ONE, lambda i, j: I0['d'].at(i, j), acc, 'direction after the search', unknown_ok=True)
    fx = app('Loss.evaluate', 'R', X, y, toterm(F['x']))
    c.holds(nm + ': accepted steps decrease sufficiently', w, le(fx, add(I0['fx'], mul(F['step'], mul(FT, dg0)))), acc, 'f(x) <= f(x0) + ftol * step * d.g0', unknown_ok=True)
    gx = MatV(C_, ONE, el(tapp('Loss.gradient', 'R', X, y, toterm(F['x'])), I, J))
    dg = S.dot(I0['d'], gx)
    if cond != 'ARMIJO':
        c.holds(nm + ': accepted steps meet the curvature test', w, le(mul(WO, dg0), dg), acc, 'd.g(x) >= wolfe * d.g0', unknown_ok=True)
    if cond == 'STRONG_WOLFE':
        c.holds(nm + ': accepted steps meet the upper curvature test', w, le(dg, neg(mul(WO, dg0))), acc, 'd.g(x) <= -wolfe * d.g0', unknown_ok=True)
    c.holds(nm + ': at most the configured number of trial points', w, le(S.ret, MAXLS), acc, 'returned trial count is within the budget', unknown_ok=True)
    c.holds(nm + ': a non-positive initial step is rejected', w, or_(lt(ZERO, I0['step']), lt(S.ret, ZERO)), base, 'result for step <= 0 is a failure code', unknown_ok=True)
    c.holds(nm + ': an ascent direction is rejected', w, or_(le(dg0, ZERO), lt(S.ret, ZERO)), base, 'result for d.g > 0 is a failure code', unknown_ok=True)
    c.holds(nm + ': the result is success or failure', w, or_(lt(ZERO, S.ret), lt(S.ret, ZERO)), base, 'returned code is never zero', unknown_ok=True)
    ev = [e for e in S.an.events('extern') if e.data['q'].endswith('evaluate')]
    lp = next((l for l in S.an.e.loops if l.exits), None)
    if lp is not None:
        E = or_(*[x[0] for x in lp.exits])
        big = le(MAXLS, add(lp.t, ONE))
        c.holds(nm + ': the search ends when the budget is used up', w, or_(not_(big), subst(E, {lp.t: lp.t})), Cfg(dims(), modes=(0,), trials=c.trials(24, 96)),
                'exit condition of the trial loop holds once the trial count reaches the budget', unknown_ok=True)


def caller(c, an):
    for pol in ('backtracking', 'bracketing'):
        Q = Newton(c, an, pol)
        nm = 'LBFGS(%s)' % pol
        if not Q.call or Q.loop is None:
            return c.undecided(nm, Q.where, 'search loop not identified')
        want = {'backtracking': 'LineSearchBacktracking', 'bracketing': 'LineSearchBracketing'}[pol]
        got = {an.p.classes[d['obj'].cls]['q'].split('::')[-1] for d in Q.calls}
        c.ob(nm + ': the configured search is used', Q.where, 'same' if got == {want} else 'diff', 'class of the object the search is called on', None if got == {want} else str(got))
        failed = lt(Q.call['ret'], ZERO)
        for k, (what, pc, ss) in enumerate(Q.ends()):
            got, _ = Q.point(ss)
            cfg = Cfg(dims(), assume=[pc, failed], modes=(0,), trials=c.trials(24, 96))
            if valid(not_(and_(pc, failed)), Cfg(dims(), modes=(0,), trials=30), True).kind == 'same':
                c.ob('%s: %s %d is not taken after a failed search' % (nm, what, k), Q.where, 'same', 'path condition excludes a failed search')
                continue
            before = Q.call['vals'][0]
            c.eqmat('%s: %s %d after a failed search goes back to the previous point' % (nm, what, k), Q.where, got, None, None, lambda i, j: before.at(i, j), cfg,
                    'point after a failed search is the point before it', unknown_ok=True)
        # what the search is given
        v = Q.call['vals']
        xp, gp = v[5], v[6]
        c.eqmat(nm + ': the search starts from the current point', Q.where, xp, None, None, lambda i, j: v[0].at(i, j), Cfg(dims(), modes=(0,), trials=20), 'previous point handed to the search', unknown_ok=True)
        c.eqmat(nm + ': the search starts from the current gradient', Q.where, gp, None, None, lambda i, j: v[2].at(i, j), Cfg(dims(), modes=(0,), trials=20), 'previous gradient handed to the search', unknown_ok=True)
        o = Q.call['obj']
        mats = [x for x in o.f.values() if isinstance(x, MatV)]
        for x in mats:
            if equal(x.c, ONE, Cfg(dims(), trials=12)).kind == 'same':
                c.eqmat(nm + ': the search evaluates on the training targets', Q.where, x, R_, ONE, lambda i, j: Q.y.at(i, ZERO), Cfg(dims(), trials=20), 'targets held by the search')
            else:
                c.eqmat(nm + ': the search evaluates on the training data', Q.where, x, R_, C_, lambda i, j: Q.X.at(i, j), Cfg(dims(), trials=20), 'data held by the search')


def run(c):
    c.prefetch('opt')
    an = c.an('opt')
    for cls in ('LineSearchBacktracking', 'LineSearchBracketing'):
        for cond in ('ARMIJO', 'WOLFE', 'STRONG_WOLFE'):
            c.guarded(cls + ' ' + cond, one, c, an, cls, cond)
    c.guarded('LBFGS', caller, c, an)
