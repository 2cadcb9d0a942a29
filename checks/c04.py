"""Exponentials only ever see non-positive arguments; helpers equal their textbook functions."""
from .corefn import *
from . import losses


def exps(c, an, name, cfg, where):
    """every exponential recorded in the current engine has a non-positive argument on its path"""
    seen = set()
    for ev in an.events('exp'):
        a = ev.data['arg']
        r, cc = ev.data.get('r'), ev.data.get('c')
        if r is not None:
            a = subst(a, {I: idx('i*', r), J: idx('j*', cc)})
        g = or_(not_(ev.pc), le(a, ZERO))
        key = (ev.fn, ev.line, g)
        if key in seen:
            continue
        seen.add(key)
        c.fns.add(ev.fn)
        c.holds('%s: exponent at %s is never positive' % (name, short(ev.fn)), '%s:%s %s' % (rel(ev.file), ev.line, short(ev.fn)), g, cfg,
                'argument of exp is <= 0 on every path')
    return len(seen)


def body(c, an):
    X = X_(an)
    k, s = fresh('k'), fresh('s')
    big = dict(dims(2), X=('real', -30.0, 30.0))
    base = Cfg(dims(2), modes=(0, 1), trials=c.trials(32, 120))

    def sig():
        o, w = runf(c, an, 'math::sigmoid', [X])
        c.eqmat('sigmoid: 1/(1+exp(-x))', w, o.val(), R_, C_, lambda i, j: div(ONE, add(ONE, fn('exp', neg(X.at(i, j))))), base)
        exps(c, an, 'sigmoid', Cfg(big, modes=(0, 1), trials=c.trials(32, 120)), w)
    c.guarded('sigmoid', sig)
    for ax in (0, 1, -1):
        def sm(ax=ax):
            o, w = runf(c, an, 'math::softmax', [X, num(ax)])
            E = lambda i, j: fn('exp', X.at(i, j))
            tot = {0: lambda i, j: sum_(R_, k, E(k, j)), 1: lambda i, j: sum_(C_, k, E(i, k)), -1: lambda i, j: sum_(R_, s, sum_(C_, k, E(s, k)))}[ax]
            if o.dead:
                return c.ob('softmax axis %d' % ax, w, 'diff', 'accepted', 'always throws')
            c.eqmat('softmax axis %d: exp(x)/sum exp(x) along the axis' % ax, w, o.val(), R_, C_, lambda i, j: div(E(i, j), tot(i, j)), base.plus(assume=[o.pc]))
            exps(c, an, 'softmax axis %d' % ax, Cfg(big, modes=(0, 1), trials=c.trials(32, 120)), w)
        c.guarded('softmax axis %d' % ax, sm)

        def ls(ax=ax):
            o, w = runf(c, an, 'math::logsumexp', [X, num(ax)])
            if o.dead:
                return c.ob('logsumexp axis %d' % ax, w, 'diff', 'accepted', 'always throws')
            E = lambda i, j: fn('exp', X.at(i, j))
            r, f = {0: (C_, lambda i, j: fn('log', sum_(R_, k, E(k, i)))), 1: (R_, lambda i, j: fn('log', sum_(C_, k, E(i, k)))),
                    -1: (ONE, lambda i, j: fn('log', sum_(R_, s, sum_(C_, k, E(s, k)))))}[ax]
            c.eqmat('logsumexp axis %d: log of the sum of exponentials along the axis' % ax, w, o.val(), r, ONE, f, base)
            exps(c, an, 'logsumexp axis %d' % ax, Cfg(big, modes=(0, 1), trials=c.trials(32, 120)), w)
        c.guarded('logsumexp axis %d' % ax, ls)


def loss_one(c, an, cl):
    name, o, S, ev = losses.setup(an, cl)
    dom = losses.domain(name, S['k'])
    for v in ('X', 'W'):
        dom[v] = ('real', -6.0, 6.0)
    cfg = Cfg(dom, modes=(0, 1), trials=c.trials(32, 120))
    for m in ('evaluate', 'gradient'):
        an.call(o, m, [S['X'], S['y'], S['W']])
    n = exps(c, an, name, cfg, c.loc(ev))
    if n == 0 and name in ('LogLoss', 'SoftmaxLoss'):
        c.undecided(name + ': exponentials', c.loc(ev), 'no exponential was reached')


def run(c):
    an = c.an('core')
    body(c, an)
    for cl in losses.loss_classes(an):
        c.guarded(cl['q'], loss_one, c, an, cl)
