"""Loss values equal their documented objectives."""
from .losses import *


def dot(S, i, q=ZERO):
    k = fresh('k')
    return sum_(S['p'], k, mul(S['X'].at(i, k), S['W'].at(k, q)))


def reg(S):
    a, b = fresh('a'), fresh('b')
    return div(mul(S['lambda'], sum_(S['p'], a, sum_(S['k'], b, powr(S['W'].at(a, b), 2)))), mul(num(2), S['n']))


def sigm(x):
    return div(ONE, add(ONE, fn('exp', neg(x))))


def data_term(name, S):
    i = fresh('i')
    n = S['n']
    y = S['y'].at(i, ZERO)
    if name == 'LogLoss':
        s = sigm(dot(S, i))
        return div(neg(sum_(n, i, add(mul(y, fn('log', s)), mul(sub(ONE, y), fn('log', sub(ONE, s)))))), n)
    if name == 'MSE':
        return div(sum_(n, i, powr(sub(y, dot(S, i)), 2)), mul(num(2), n))
    if name == 'SoftmaxLoss':
        q = fresh('q')
        lse = fn('log', sum_(S['k'], q, fn('exp', dot(S, i, q))))
        return div(neg(sum_(n, i, sub(dot(S, i, fn('trunc', y)), lse))), n)
    if name == 'HingeLoss':
        return sum_(n, i, max_(ZERO, sub(S['threshold'], mul(dot(S, i), y))))
    if name == 'HuberLoss':
        r = sub(y, dot(S, i))
        d = S['delta']
        return div(sum_(n, i, ite(le(abs_(r), d), scale(powr(r, 2), Fr(1, 2)), mul(d, sub(abs_(r), scale(d, Fr(1, 2)))))), n)
    return None


def one(c, an, cl):
    name, o, S, ev = setup(an, cl)
    f = an.call(o, 'evaluate', [S['X'], S['y'], S['W']]).val()
    where = c.loc(ev)
    sp = data_term(name, S)
    if sp is None:
        return c.undecided(name + ': value', where, 'no definition recorded for this loss')
    cfg = Cfg(domain(name, S['k']), modes=(0, 2), trials=c.trials(32, 120))
    c.eq(name + ': value = data term + lambda/(2n) * sum of squared weights', where, f, add(sp, reg(S)), cfg, 'value equals the documented objective')
    # default construction: no regularisation
    an.new()
    o = an.obj(cl['idx'], [])
    dflt = {'HingeLoss': {'threshold': ONE}, 'HuberLoss': {'delta': ONE}}.get(name, {})
    S2 = dict(S, **dflt)
    f2 = an.call(o, 'evaluate', [S['X'], S['y'], S['W']]).val()
    c.eq(name + ': default construction evaluates the data term only', where, f2, data_term(name, S2), cfg, 'value equals the documented objective')


def run(c):
    an = c.an('core')
    for cl in loss_classes(an):
        c.guarded(cl['q'], one, c, an, cl)
