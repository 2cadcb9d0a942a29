"""Impurity functions and split gain."""
from .corefn import *
from .c03 import st_mean, st_var, st_median

NL, NR = sym('nl', 'Z', 'dim'), sym('nr', 'Z', 'dim')


def wtot(n, w):
    s = fresh('s')
    return sum_(n, s, w(s))


def share(n, y, w, i):
    """weighted share of the class of sample i"""
    s = fresh('s')
    return div(sum_(n, s, mul(b2t(eq(y(s), y(i))), w(s))), wtot(n, w))


def gini(n, y, w=lambda s: ONE):
    i = fresh('i')
    return sub(ONE, sum_(n, i, mul(div(w(i), wtot(n, w)), share(n, y, w, i))))


def entropy(n, y, w=lambda s: ONE):
    i = fresh('i')
    return neg(sum_(n, i, mul(div(w(i), wtot(n, w)), div(fn('log', share(n, y, w, i)), fn('log', num(2))))))


def mad(n, y):
    m = st_median(n, y)
    i = fresh('i')
    return div(sum_(n, i, abs_(sub(y(i), m))), n)


LAB = {'n': ('int', 1, 6), 'nl': ('int', 1, 5), 'nr': ('int', 1, 5), 'y': ('int', 0, 3), 'yl': ('int', 0, 3), 'yr': ('int', 0, 3), 'w': ('real', 0.3, 2.0)}
NUM = {'n': ('int', 1, 6), 'nl': ('int', 1, 5), 'nr': ('int', 1, 5)}


def functions(c, an):
    y, w = an.vec('y', R_), an.vec('w', R_)
    W = lambda s: w.at(s, ZERO)
    Y = lambda s: y.at(s, ZERO)
    cfg = Cfg(LAB, modes=(0, 1), trials=c.trials(40, 160))
    for q, f in (('gini', gini), ('entropy', entropy)):
        def go(q=q, f=f):
            o, wh = runf(c, an, 'math::' + q, [y, MatV(ZERO, ONE, ZERO)])
            c.eq(q + ': from the class frequencies of the labels', wh, o.val(), f(R_, Y), cfg)
            o, wh = runf(c, an, 'math::' + q, [y, w])
            c.eq(q + ': from the weighted class frequencies', wh, o.val(), f(R_, Y, W), cfg.plus(assume=[o.pc]))
        c.guarded(q, go)


def trees(an):
    out = []
    for cl in an.p.classes:
        m = [f for f in an.p.fns if f.get('cls') == cl['idx'] and f.get('virt') and len(f['ps']) == 3 and f.get('body') is not None]
        if cl['q'].startswith('openml::') and m:
            out.append((cl, m[0]))
    return out


def gain(c, an, cl, f, crit, imp, dom):
    an.new()
    ar = max(len(g['ps']) for g in an.p.fns if g.get('ctor') and g.get('cls') == cl['idx'] and not g.get('cp'))
    args = [mk('str', crit), num(2), num(1), num(4), num(0), num(0)][:ar]
    o = an.obj(cl['idx'], args)
    y, yl, yr = an.vec('y', add(NL, NR)), an.vec('yl', NL), an.vec('yr', NR)
    r = an.run(f, [y, yl, yr], o)
    n = add(NL, NR)
    g = lambda m: (lambda s: m.at(s, ZERO))
    spec = sub(imp(n, g(y)), add(mul(div(NL, n), imp(NL, g(yl))), mul(div(NR, n), imp(NR, g(yr)))))
    cfg = Cfg(dom, modes=(0, 1), trials=c.trials(40, 160))
    nm = '%s, %s: score is the decrease of sample-weighted impurity' % (cl['q'].split('::')[-1], crit)
    if r.dead:
        return c.ob(nm, c.loc(f), 'diff', 'accepted', 'documented criterion always throws')
    c.eq(nm, c.loc(f), r.val(), spec, cfg)


def search(c, an, cl, f):
    """the split chosen is one with the largest score, and the score reported is that of the split reported"""


def run(c):
    an = c.an('core')
    functions(c, an)
    an = c.an('tree')
    for cl, f in trees(an):
        crit = [('gini', gini, LAB), ('entropy', entropy, LAB)] if 'Classif' in cl['q'] else [
            ('squared_error', lambda n, y: st_var(n, y), NUM), ('absolute_error', mad, NUM)]
        for q, imp, dom in crit:
            c.guarded('%s %s' % (cl['q'], q), gain, c, an, cl, f, q, imp, dom)
