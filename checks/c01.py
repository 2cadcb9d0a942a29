"""Gradient = derivative of the value (symbolic differentiation of the extracted value term)."""
from .losses import *
from oml.diff import D, NoDiff


def one(c, an, cl):
    name, o, S, ev = setup(an, cl)
    f = an.call(o, 'evaluate', [S['X'], S['y'], S['W']]).val()
    g = an.call(o, 'gradient', [S['X'], S['y'], S['W']]).val()
    gf = [x for x in an.p.fns if x.get('cls') == cl['idx'] and x['q'].endswith('::gradient')][0]
    c.loc(ev)
    where = c.loc(gf)
    if not isinstance(g, MatV) or not isinstance(f, T):
        return c.undecided(name + ': gradient = d value', where, 'no closed form')
    p, q = idx('p*', S['p']), idx('q*', S['k']) if S['k'] is not ONE else ZERO
    cfg = Cfg(domain(name, S['k']), modes=(0, 2), trials=c.trials(32, 120))
    try:
        d = D(f, 'W', p, q)
    except NoDiff as ex:
        return c.undecided(name + ': gradient = d value', where, 'cannot differentiate: %s' % ex)
    c.eq(name + ': gradient has one row per weight', where, g.r, S['p'], cfg, 'shape of the gradient')
    c.eq(name + ': gradient has one column per weight column', where, g.c, S['k'], cfg, 'shape of the gradient')
    c.eq(name + ': gradient = d value', where, g.at(p, q), d, cfg, 'symbolic derivative of evaluate() equals gradient()')


def run(c):
    an = c.an('core')
    for cl in loss_classes(an):
        c.guarded(cl['q'], one, c, an, cl)
