"""C11: refitting forgets the previous training data.

Every estimator is interpreted twice: fit on arbitrary data after a fit on other arbitrary data (of another shape), and
fit on the same data by a fresh estimator with the same options.  What is handed to the optimizers and every answer
(inference calls and getters) must be equal as terms over the two data sets; fields left different are reported when they
reach an answer."""
from .models import *
from . import c29
VOIDQ = VOID


def runs(c, an, m, first):
    """state after fit (optionally preceded by a fit on other data)"""
    m.rec = []
    h = opt_hooks(m.rec)
    h.update(m.hooks)
    an.new(h)
    ci = klass(an, m.q)['idx']
    o = an.obj(ci, m.args)
    if first:
        if m.dofit(an, o, '1').dead:
            return None
        del m.rec[:]
    m.align(an)
    if m.dofit(an, o, '').dead:
        return None
    return o


def answers(c, an, m, o):
    out = []
    Q = an.mat('Q', NQ, C_)
    for meth in m.infer:
        an.e.cnt += 1000
        r = m.call(an, o, meth, Q)
        if not r.dead:
            out += [(meth[0] + pa, v, c.loc(m.fn(an, meth))) for pa, v in parts(r.val())]
        else:
            out.append((meth[0], None, c.loc(m.fn(an, meth))))
    for g in m.extra:
        r = an.call(o, g, [])
        if not r.dead:
            out.append((g, r.val(), c.loc(method(an, klass(an, m.q)['idx'], g, 0))))
    return out


def one(c, an, m):
    ci = klass(an, m.q)['idx']
    w = c.loc(method(an, ci, 'fit', 2 if m.fit == 'xy' else 1))
    got = []
    for first in (False, True):
        o = runs(c, an, m, first)
        if o is None:
            return c.ob(m.label + ': accepts a fit' + (' after a fit' if first else ''), w, 'diff' if first else 'unknown', 'fit does not always throw')
        got.append((dict(an.e.read(o, an.st).f), list(m.rec), answers(c, an, m, o)))
    dom = dict(dims(), n=('int', 3, 5), n1=('int', 2, 4), p1=('int', 1, 3), nq=('int', 1, 2), nc=('int', 1, 3), y=('choice', [0, 1, 3]), y1=('choice', [-1, 1, 2]))
    if m.name == 'MultinomialNB':
        dom.update(X=('real', 0.0, 3.0), X1=('real', 0.0, 3.0), Q=('real', 0.0, 3.0))
    cfg = Cfg(dom, modes=(0, 1), trials=c.trials(24, 96))
    (f0, r0, a0), (f1, r1, a1) = got
    c.ob(m.label + ': same number of optimizer runs', w, 'same' if len(r0) == len(r1) else 'diff', 'optimizer runs in fit')
    for x, y in zip(r0, r1):
        for k in ('X', 'y'):
            c.verdict('%s: optimizer %s independent of the earlier fit' % (m.label, 'data' if k == 'X' else 'targets'), x['where'], same_value(x[k], y[k], cfg, 'phi'), 'optimizer input after two fits = optimizer input of a fresh fit')
        for k in x['obj'].f:
            if k in y['obj'].f and not isinstance(x['obj'].f[k], (OpqV,)):
                v = same_value(x['obj'].f[k], y['obj'].f[k], cfg, 'phi') if not isinstance(x['obj'].f[k], ObjV) else (Verdict('same', '') if veq(x['obj'].f[k], y['obj'].f[k]) else Verdict('unknown', 'component'))
                if v.kind == 'diff' and isinstance(x['obj'].f[k], MatV) and any('rand@' in str(t.a[0]) for t in walk(x['obj'].f[k].body) if t.a):
                    v = Verdict('unknown', 'random start')
                if v.kind != 'same':
                    c.verdict('%s: optimizer %s independent of the earlier fit' % (m.label, k), x['where'], v, 'optimizer configuration after two fits = that of a fresh fit')
    for (nm, x, wh), (_, y, _) in zip(a0, a1):
        if x is None or y is None:
            c.ob('%s: %s forgets the earlier fit' % (m.label, nm), wh, 'same' if x is None and y is None else 'diff', 'answer exists')
            continue
        c.verdict('%s: %s forgets the earlier fit' % (m.label, nm), wh, same_value(x, y, cfg, 'phi'), 'answer after two fits = answer after a fresh fit on the second data')
    for k in f0:
        v = Verdict('same', '') if veq(f0[k], f1[k]) else same_value(f0[k], f1[k], cfg, 'phi') if not isinstance(f0[k], PtrV) else Verdict('unknown', 'pointer')
        if v.kind != 'same':
            c.notes.append('%s.%s differs after a refit (%s)' % (m.label, k, v.kind))


def mixture(c, an, m):
    """a mixture is fitted in three parts: starting parameters, M-step, and the protocol around them"""
    cl = klass(an, m.q)
    ro = c29.roles(an, cl)
    cfg = Cfg(dict(c29.DOM, n1=('int', 3, 5), p1=('int', 1, 3), L1=('real', -2.0, 0.0)), (), (0,), c.trials(12, 48))
    for ct in ('full', 'tied'):
        for part in ('m_step', 'initialize_parameters'):
            f = method(an, cl['idx'], part, 2 if part == 'm_step' else 1)
            if f is None:
                c.undecided('GaussianMixture(%s): %s' % (ct, part), c.loc(cl), 'no such part')
                continue
            got = []
            for first in (False, True):
                an.new()
                o = an.obj(cl['idx'], c29.ctor(ct))
                go = lambda sfx: an.call(o, part, [m.data(an, sfx)[0]] + ([an.mat('L' + sfx, dim(R_, sfx), c29.K)] if part == 'm_step' else []))
                if first:
                    go('1')
                m.align(an)
                go('')
                got.append([an.call(o, g, []).val() for g in c29.GET])
            for g, x, y in zip(c29.GET, *got):
                c.verdict('GaussianMixture(%s): %s after %s forgets the earlier parameters' % (ct, g, part), c.loc(f), same_value(x, y, cfg, 'phi'), 'parameters are those computed from the present data')
    # the protocol: states are opaque functions of the data and of what each step is given
    fw, fm, fc, fp = (ro[g] for g in c29.GET)

    def upd(tag, start):
        def h(e, f, this, args, st, node):
            ob = e.read(this, st)
            ks = [] if start else [toterm(ob.f[fw]), toterm(ob.f[fm])]
            ks += [toterm(x) for x in (e.read(y, st) if e._is_lv(y) else y for y in args) if isinstance(x, MatV)]
            new = ObjV(ob.cls, dict(ob.f))
            new.f[fw] = MatV(c29.K, ONE, el(tapp(tag + '.w', 'R', *ks), I, J))
            new.f[fm] = MatV(c29.K, C_, el(tapp(tag + '.m', 'R', *ks), I, J))
            for nm in (fc, fp):
                k = fresh('k')
                new.f[nm] = ListV(c29.K, k, MatV(C_, C_, el(tapp(tag + '.' + nm, 'R', k, *ks), I, J)))
            e.write(this, new, st, node)
            return OpqV('void')
        return h

    def estep(e, f, this, args, st, node):
        ob = e.read(this, st)
        ks = [toterm(ob.f[fw]), toterm(ob.f[fm])]
        return TupV([app('lb', 'R', *ks), MatV(R_, c29.K, el(tapp('resp', 'R', *ks), I, J))])
    runs_ = []
    for first in (False, True):
        an.new({'initialize_parameters()': upd('init', True), 'm_step()': upd('m', False), 'e_step()': estep})
        o = an.obj(cl['idx'], c29.ctor('full'))
        if first:
            an.call(o, 'fit', [an.mat('X1', R_, C_)])
        m.align(an)
        del an.e.loops[:]
        if an.call(o, 'fit', [an.mat('X', R_, C_)]).dead:
            return c.undecided('GaussianMixture: fit protocol', c.loc(cl), 'fit always throws')
        lv = [z for l in an.e.loops for z in l.leaves if isinstance(getattr(z, 'raw', None), T)]
        read = set()
        for l in an.e.loops:
            for t in [z.raw for z in l.leaves if isinstance(getattr(z, 'raw', None), T) and z.raw is not z.ph] + [x for b in (l.brk or []) for x in b if isinstance(x, T)]:
                read |= {x for x in walk(t)}
        runs_.append(([(z.name, z.init) for z in lv if z.ph in read], [an.call(o, g, []).val() for g in c29.GET + ('get_lower_bound',)]))
    f = method(an, cl['idx'], 'fit', 1)
    (i0, g0), (i1, g1) = runs_
    short = lambda a: a.split('@')[0].split('.', 1)[-1].lstrip('?')
    left = [(short(a), x) for a, x in i1]
    for a, x in i0:
        a = short(a)
        k = next((k for k, (b, _) in enumerate(left) if a == b), None)
        if k is None:
            c.undecided('GaussianMixture: %s starts afresh' % a, c.loc(f), 'read at the start of the iterations of a fresh fit only')
            continue
        y = left.pop(k)[1]
        v = Verdict('same', '') if veq(x, y) else same_value(x, y, cfg, 'phi') if isinstance(x, T) else Verdict('unknown', '')
        c.verdict('GaussianMixture: %s starts afresh' % a, c.loc(f), v, 'what the iterations read at their start does not depend on the earlier fit')
    for a, _ in left:
        c.undecided('GaussianMixture: %s starts afresh' % a, c.loc(f), 'read at the start of the iterations of a refit only')
    for g, x, y in zip(c29.GET + ('get_lower_bound',), g0, g1):
        c.verdict('GaussianMixture: %s forgets the earlier fit' % g, c.loc(f), same_value(x, y, cfg, 'phi'), 'answer after two fits = answer after a fresh fit')


def dim(d, sfx):
    return d if not sfx else sym(d.a[0] + sfx, 'Z', 'dim')


def run(c):
    c.prefetch('linear', 'lasso', 'nb', 'gmm', 'decomp', 'kmeans', 'tree')
    for m in all_models():
        if m.fit:
            if m.name == 'GaussianMixture':
                c.guarded(m.label, mixture, c, c.an(m.tu), m)
                continue
            if m.name == 'KMeans':
                # the start is compared as the answers it gives (Lloyd's steps see the data and the start only: C21)
                m.hooks = {'kmeans_lloyd()': lambda *a: None}
                m.args = [S('random'), num(1), sym('K', 'Z', 'dim'), num(1), sym('tol', 'R', 'pos')]
            c.guarded(m.label, one, c, c.an(m.tu), m)
