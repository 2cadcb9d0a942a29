"""Sorting, ranking and selection helpers."""
from .corefn import *


def swo(c, an, name, cfg):
    """comparators handed to sort are strict weak orders; returns the sort events"""
    out = []
    for ev in an.events('sort'):
        cmp, a, b = ev.data['cmp']
        w = '%s:%s %s' % (rel(ev.file), ev.line, short(ev.fn))
        c.fns.add(ev.fn)
        out.append(ev)
        if cmp is None:
            c.undecided(name + ': comparator', w, 'comparison not interpreted')
            continue
        n = ev.data['n']
        x, y, z = (mk('sym', q, 'Z', n) for q in ('x*', 'y*', 'z*'))
        L = lambda u, v: subst(cmp, {a: u, b: v})
        inc = lambda u, v: and_(not_(L(u, v)), not_(L(v, u)))
        g = lambda t: or_(not_(ev.pc), not_(lt(ZERO, n)), t)
        c.holds(name + ': comparator is irreflexive', w, g(not_(L(x, x))), cfg, 'comparator is a strict weak order')
        c.holds(name + ': comparator is asymmetric', w, g(not_(and_(L(x, y), L(y, x)))), cfg, 'comparator is a strict weak order')
        c.holds(name + ': comparator is transitive', w, g(or_(not_(and_(L(x, y), L(y, z))), L(x, z))), cfg, 'comparator is a strict weak order')
        c.holds(name + ': incomparability is transitive', w, g(or_(not_(and_(inc(x, y), inc(y, z))), inc(x, z))), cfg, 'comparator is a strict weak order')
    return out


def stable(c, name, evs, cfg):
    for ev in evs:
        cmp, a, b = ev.data['cmp']
        w = '%s:%s %s' % (rel(ev.file), ev.line, short(ev.fn))
        if ev.data['stable']:
            c.ob(name + ': ties keep input order', w, 'same', 'stable algorithm, or an order that is total on positions')
        elif cmp is not None:
            n = ev.data['n']
            x, y = (mk('sym', q, 'Z', n) for q in ('x*', 'y*'))
            t = or_(not_(lt(x, y)), not_(lt(ZERO, n)), subst(cmp, {a: x, b: y}), subst(cmp, {a: y, b: x}))
            c.holds(name + ': ties keep input order', w, t, cfg, 'stable algorithm, or an order that is total on positions')


def noret(c, an, name, cfg):
    for ev in an.events('noreturn'):
        c.fns.add(ev.fn)
        c.holds(name + ': returns a value on every path', '%s:%s %s' % (rel(ev.file), ev.line, short(ev.fn)), not_(ev.pc), cfg, 'no path falls off the end of a value-returning function')


def argsort(c, an, ax, rev):
    X = X_(an)
    o, w = runf(c, an, 'common::argsort', [X, num(ax), TRUE if rev else FALSE], first='mat')
    nm = 'argsort axis %d %s' % (ax, 'descending' if rev else 'ascending')
    s = fresh('s')
    key = (lambda i, j: X.at(s, j)) if ax == 0 else (lambda i, j: X.at(i, s))
    sg = neg if rev else (lambda t: t)
    N = R_ if ax == 0 else C_
    cfg = Cfg(dims(), modes=(1, 0, 2), trials=c.trials(40, 160))
    c.eqmat(nm + ': stable rank of every entry', w, o.val(), R_, C_, lambda i, j: rawbind('rank', N, s, sg(key(i, j)), i if ax == 0 else j), cfg.plus(assume=[o.pc]))
    stable(c, nm, swo(c, an, nm, cfg), cfg)
    noret(c, an, nm, cfg)


def vargsort(c, an, rev):
    v = an.lst('v')
    o, w = runf(c, an, 'common::argsort', [v, TRUE if rev else FALSE], first='list')
    nm = 'argsort of a vector %s' % ('descending' if rev else 'ascending')
    s = fresh('s')
    cfg = Cfg({'v.n': ('int', 0, 6)}, modes=(1, 0, 2), trials=c.trials(40, 160))
    r = o.val()
    i = idx('i*', v.n)
    c.eq(nm + ': one index per element', w, r.n, v.n, cfg)
    c.eq(nm + ': stable rank of every entry', w, r.at(i), rawbind('rank', v.n, s, (neg if rev else (lambda t: t))(v.at(s)), i), Cfg({'v.n': ('int', 1, 6)}, modes=(1, 0, 2), trials=c.trials(40, 160)))
    stable(c, nm, swo(c, an, nm, cfg), cfg)


def msort(c, an, ax, rev):
    X = X_(an)
    o, w = runf(c, an, 'common::sort', [X, num(ax), TRUE if rev else FALSE], first='mat')
    nm = 'sort axis %d %s' % (ax, 'descending' if rev else 'ascending')
    s = fresh('s')
    key = (lambda i, j: X.at(s, j)) if ax == 0 else (lambda i, j: X.at(i, s))
    N = R_ if ax == 0 else C_
    cfg = Cfg(dims(), modes=(1, 0, 2), trials=c.trials(40, 160))

    def spec(i, j):
        p = i if ax == 0 else j
        if rev:
            return neg(rawbind('srt', N, s, neg(key(i, j)), p))
        return rawbind('srt', N, s, key(i, j), p)
    c.eqmat(nm + ': the values in order', w, o.val(), R_, C_, spec, cfg.plus(assume=[o.pc]))
    swo(c, an, nm, cfg)


def lsort(c, an, ax, rev):
    v = an.lst2('v', None, sym('p', 'Z', 'dim'))
    o, w = runf(c, an, 'common::sort', [v, num(ax), TRUE if rev else FALSE], first='list')
    nm = 'sort of nested lists axis %d %s' % (ax, 'descending' if rev else 'ascending')
    cfg = Cfg({'v.n': ('int', 1, 5), 'p': ('int', 1, 5)}, assume=[o.pc], modes=(1, 0, 2), trials=c.trials(40, 160))
    swo(c, an, nm, cfg)
    r = o.val()
    i, j = idx('i*', v.n), idx('j*', sym('p', 'Z', 'dim'))
    s = fresh('s')
    if ax == 1:
        N, key, p = sym('p', 'Z', 'dim'), v.at(i).at(s), j
    else:
        N, key, p = v.n, v.at(s).at(j), i
    sp = neg(rawbind('srt', N, s, neg(key), p)) if rev else rawbind('srt', N, s, key, p)
    c.eq(nm + ': the values in order', w, r.at(i).at(j), sp, cfg)


def sortrows(c, an, rev):
    p = sym('p', 'Z', 'dim')
    v = an.lst2('v', None, p)
    o, w = runf(c, an, 'common::sortrows', [v, TRUE if rev else FALSE])
    nm = 'sortrows %s' % ('descending' if rev else 'ascending')
    cfg = Cfg({'v.n': ('int', 1, 5), 'p': ('int', 1, 3)}, assume=[o.pc], modes=(1, 0, 2), trials=c.trials(60, 200))
    evs = swo(c, an, nm, cfg)
    noret(c, an, nm, cfg)
    live = [e for e in evs if valid(not_(e.pc), cfg).kind != 'same']
    if len(live) == 1 and live[0].data['cmp'][0] is not None:
        cmp, a, b = live[0].data['cmp']
        x, y = mk('sym', 'x*', 'Z', v.n), mk('sym', 'y*', 'Z', v.n)
        k, q = fresh('k'), fresh('q')
        d = (lambda u, t: lt(t, u)) if rev else lt
        lex = any_(p, k, and_(d(v.at(x).at(k), v.at(y).at(k)), all_(k, q, eq(v.at(x).at(q), v.at(y).at(q)))))
        c.holds(nm + ': rows ordered by first differing column', w, eq(b2t(subst(cmp, {a: x, b: y})), b2t(lex)), cfg, 'comparator equals the lexicographic order')
    else:
        c.undecided(nm + ': rows ordered by first differing column', w, '%d sorts reached' % len(live))
    r = o.val()
    i, j = idx('i*', v.n), idx('j*', p)
    t = r.at(i).at(j)
    ps = [y for y in walk(t) if y.op == 'app' and y.a[0] in ('?perm',)] or [y for y in walk(t) if y.op == 'rank']
    if ps:
        c.eq(nm + ': result rows are a rearrangement of the input rows', w, t, v.at(ps[0]).at(j), cfg, unknown_ok=True)
    else:
        c.undecided(nm + ': result rows are a rearrangement of the input rows', w, 'no sort result found')


def lex2(x, y, p, cmpd):
    k, q = fresh('k'), fresh('q')
    return any_(p, k, and_(cmpd(x(k), y(k)), all_(k, q, eq(x(q), y(q)))))


def unique(c, an):
    x = an.vec('x', R_)
    o, w = runf(c, an, 'common::unique', [x])
    vals = o.val().xs[0]
    cfg = Cfg({'n': ('int', 1, 6)}, assume=[o.pc], modes=(1, 0, 2), trials=c.trials(60, 200))
    s, k = fresh('s'), fresh('k')
    # number of values without an equal one before them
    dist = sum_(R_, s, b2t(not_(any_(s, k, eq(x.at(k, ZERO), x.at(s, ZERO))))))
    c.eq('unique: as many values as there are distinct entries', w, vals.r, dist, cfg)
    i = idx('i*', sub(vals.r, ONE))
    c.holds('unique: values strictly ascending', w, or_(not_(lt(add(i, ONE), vals.r)), lt(vals.at(i, ZERO), vals.at(add(i, ONE), ZERO))), cfg)
    j = idx('j*', vals.r)
    c.holds('unique: every value occurs in the input', w, any_(R_, s, eq(x.at(s, ZERO), vals.at(j, ZERO))), cfg)
    swo(c, an, 'unique', cfg)


def where(c, an):
    x = an.vec('x', R_)
    o, w = runf(c, an, 'common::where', [x])
    s = fresh('s')
    nz = lambda t: not_(eq(x.at(t, ZERO), ZERO))
    cfg = Cfg({'n': ('int', 0, 6)}, assume=[o.pc], modes=(1, 2), trials=c.trials(60, 200))
    r = o.val()
    c.eq('where: as many positions as nonzero entries', w, r.r, sum_(R_, s, b2t(nz(s))), cfg)
    i = idx('i*', r.r)
    ok = lt(ZERO, r.r)
    c.holds('where: every position holds a nonzero entry', w, or_(not_(ok), nz(r.at(i, ZERO))), cfg)
    c.holds('where: positions ascend', w, or_(not_(lt(add(i, ONE), r.r)), lt(r.at(i, ZERO), r.at(add(i, ONE), ZERO))), cfg)


def maxel(c, an):
    f = fun(an, 'common::max_element')
    q, K = fresh('q'), fresh('K', 'R')
    an.new()
    key = lambda i: app('key', 'R', i)
    v = MapV(K, any_(R_, q, eq(key(q), K)), app('count', 'R', K), True, [(R_, q, TRUE, key(q))])
    o = an.run(f, [v])
    r = o.val()
    w = c.loc(f)
    if not (isinstance(r, TupV) and isinstance(v, MapV)):
        return c.undecided('max_element: entry with the largest value', w, repr(r)[:80])
    s = fresh('s')
    n = v.size()
    best = bind('rmax', n, s, v.get(v.kth(s)))
    cfg = Cfg({'n': ('int', 1, 5)}, assume=[o.pc, lt(ZERO, n)], modes=(1, 0, 2), trials=c.trials(40, 100))
    c.eq('max_element: entry with the largest value', w, an.e.read(r.xs[1], o.st) if an.e._is_lv(r.xs[1]) else r.xs[1], best, cfg)


def lists(c, an):
    v, u = an.lst('v'), an.lst('w')
    dom = {'v.n': ('int', 0, 4), 'w.n': ('int', 0, 4), 'm': ('int', 0, 4)}
    cfg = Cfg(dom, modes=(1, 0, 2), trials=c.trials(60, 200))
    a, b = fresh('a'), fresh('b')

    def contains_():
        o, w = runf(c, an, 'common::contains', [v, u])
        c.holds('contains: every element of the first list occurs in the second', w,
                eq(b2t(t2b(o.val())), b2t(all_(v.n, a, any_(u.n, b, eq(v.at(a), u.at(b)))))), cfg.plus(assume=[o.pc]))
    c.guarded('contains', contains_)

    def is_eq():
        o, w = runf(c, an, 'common::is_equal', [v, u])
        c.holds('is_equal: same length and entries', w, eq(b2t(t2b(o.val())), b2t(and_(eq(v.n, u.n), all_(v.n, a, eq(v.at(a), u.at(a)))))), cfg.plus(assume=[o.pc]))
    c.guarded('is_equal', is_eq)

    def merge():
        o, w = runf(c, an, 'common::merge', [v, u])
        r = o.val()
        i, x = idx('i*', r.n), sym('val', 'R')
        c.eq('merge: total length', w, r.n, add(v.n, u.n), cfg)
        c.eq('merge: every value as often as in both lists together', w, sum_(r.n, a, b2t(eq(r.at(a), x))), add(sum_(v.n, a, b2t(eq(v.at(a), x))), sum_(u.n, a, b2t(eq(u.at(a), x)))),
             cfg.plus(modes=(1,)))
        m = min_(v.n, u.n)
        sp = ite(lt(i, scale(m, 2)), ite(eq(imod(i, num(2)), ZERO), v.at(idiv(i, num(2))), u.at(idiv(i, num(2)))), ite(lt(m, v.n), v.at(sub(i, m)), u.at(sub(i, m))))
        c.eq('merge: alternates while both last', w, ite(lt(ZERO, r.n), r.at(i), ZERO), ite(lt(ZERO, r.n), sp, ZERO), cfg)
    c.guarded('merge', merge)
    for srtd in (TRUE, FALSE):
        def diff(srtd=srtd):
            o, w = runf(c, an, 'common::difference', [v, u, srtd])
            r = o.val()
            asc = lambda l: all_(sub(l.n, ONE), a, le(l.at(a), l.at(add(a, ONE))))
            cf = cfg.plus(assume=[o.pc] + ([asc(v), asc(u)] if srtd is FALSE else []), modes=(1,))
            nm = 'difference (%s inputs)' % ('unsorted' if srtd is TRUE else 'sorted')
            d = sum_(v.n, a, b2t(and_(not_(any_(a, b, eq(v.at(b), v.at(a)))), not_(any_(u.n, b, eq(u.at(b), v.at(a)))))))
            c.eq(nm + ': number of distinct values of the first list absent from the second', w, r.n, d, cf, unknown_ok=True)
            i = idx('i*', r.n)
            c.holds(nm + ': results come from the first list only', w, or_(not_(lt(ZERO, r.n)), and_(any_(v.n, a, eq(v.at(a), r.at(i))), not_(any_(u.n, b, eq(u.at(b), r.at(i)))))), cf)
        c.guarded('difference', diff)

    def slice1():
        o, w = runf(c, an, 'common::slice', [an.lst2('v', None, sym('p', 'Z', 'dim'))] + [sym(q, 'Z', 'nn') for q in ('r0', 'r1', 'c0', 'c1')])
        x = an.lst2('v', None, sym('p', 'Z', 'dim'))
        r = o.val()
        r0, r1, c0, c1 = (sym(q, 'Z', 'nn') for q in ('r0', 'r1', 'c0', 'c1'))
        cf = Cfg({'v.n': ('int', 1, 4), 'p': ('int', 1, 4), 'r0': ('int', 0, 3), 'r1': ('int', 0, 3), 'c0': ('int', 0, 3), 'c1': ('int', 0, 3)}, assume=[o.pc], modes=(0,), trials=c.trials(40, 120))
        i, j = idx('i*', r.n), idx('j*', add(sub(c1, c0), ONE))
        c.eq('slice: rows start..end inclusive', w, r.n, add(sub(r1, r0), ONE), cf)
        c.eq('slice: columns start..end inclusive', w, r.at(i).n, add(sub(c1, c0), ONE), cf)
        c.eq('slice: entries copied', w, r.at(i).at(j), x.at(add(r0, i)).at(add(c0, j)), cf)
    c.guarded('slice', slice1)


def slice2(c):
    an = c.an('core2')
    v = an.lst('v')
    a, b = sym('a', 'Z', 'nn'), sym('b', 'Z', 'nn')
    o, w = runf(c, an, 'common::slice', [v, a, b])
    r = o.val()
    cf = Cfg({'v.n': ('int', 1, 5), 'a': ('int', 0, 4), 'b': ('int', 0, 4)}, assume=[o.pc], modes=(0,), trials=c.trials(40, 120))
    i = idx('i*', r.n)
    c.eq('slice 1d: start..end inclusive', w, r.n, add(sub(b, a), ONE), cf)
    c.eq('slice 1d: entries copied', w, r.at(i), v.at(add(a, i)), cf)


def run(c):
    c.prefetch('core', 'core2')
    an = c.an('core')
    for ax in (0, 1):
        for rev in (False, True):
            c.guarded('argsort', argsort, c, an, ax, rev)
            c.guarded('sort', msort, c, an, ax, rev)
            c.guarded('sort lists', lsort, c, an, ax, rev)
    for rev in (False, True):
        c.guarded('vector argsort', vargsort, c, an, rev)
        c.guarded('sortrows', sortrows, c, an, rev)
    c.guarded('unique', unique, c, an)
    c.guarded('where', where, c, an)
    c.guarded('max_element', maxel, c, an)
    lists(c, an)
    c.guarded('slice 1d', slice2, c)
