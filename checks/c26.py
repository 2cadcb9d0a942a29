"""C26: train/test splits and feature splits are partitions."""
from .corefn import *
from .c08 import coupled, col, replace_ten, rownum, once
TS = sym('ts', 'R')


def tts(c, an, sh):
    an.new()
    f = fun(an, 'data::train_test_split', 4)
    w = c.loc(f)
    X, y = an.mat('X', R_, C_), an.vec('y', R_)
    o = an.run(f, [X, y, TS, TRUE if sh else FALSE])
    nm = 'train_test_split' + (' shuffled' if sh else ' in order')
    Xa, Xb, ya, yb = o.val().xs
    cfg = Cfg(dict(dims(), ts=('real', 0.0, 1.0), n=('int', 1, 7), p=('int', 1, 3)), trials=c.trials(40, 200))
    nt = fn('trunc', mul(R_, TS))
    i, j = idx('i*', nt), idx('j*', C_)
    rest = sub(R_, nt)
    k = idx('k*', rest)
    c.eq(nm + ': train rows', w, Xa.r, nt, cfg, 'the train side holds the requested fraction of rows')
    c.eq(nm + ': train targets', w, ya.r, nt, cfg, 'one target per train row')
    c.eq(nm + ': test rows', w, Xb.r, rest, cfg, 'the test side holds the other rows')
    c.eq(nm + ': test targets', w, yb.r, rest, cfg, 'one target per test row')
    for a, b in ((Xa, 'train'), (Xb, 'test')):
        c.eq(nm + ': %s columns' % b, w, a.c, C_, cfg, 'all features kept')
    ne = cfg.plus(assume=[lt(ZERO, nt)])
    me = cfg.plus(assume=[lt(ZERO, rest)])
    if not sh:
        c.eq(nm + ': train rows are the first rows', w, Xa.at(i, j), X.at(i, j), ne, 'order kept')
        c.eq(nm + ': train targets are the first targets', w, ya.at(i, ZERO), y.at(i, ZERO), ne, 'order kept')
        c.eq(nm + ': test rows are the remaining rows', w, Xb.at(k, j), X.at(add(nt, k), j), me, 'order kept')
        c.eq(nm + ': test targets are the remaining targets', w, yb.at(k, ZERO), y.at(add(nt, k), ZERO), me, 'order kept')
        return
    rp = lambda t: replace_ten(t, 'X', 'y')
    c.eq(nm + ': train rows keep their targets', w, col(rp(Xa.at(i, j)), j), rp(ya.at(i, ZERO)), ne, 'row and target come from the same sample', unknown_ok=True)
    c.eq(nm + ': test rows keep their targets', w, col(rp(Xb.at(k, j)), j), rp(yb.at(k, ZERO)), me, 'row and target come from the same sample', unknown_ok=True)
    v = idx('v*', R_)
    s, u = fresh('s'), fresh('s')
    cnt = add(sum_(nt, s, b2t(eq(rownum(Xa.at(s, ZERO), 'X'), v))), sum_(rest, u, b2t(eq(rownum(Xb.at(u, ZERO), 'X'), v))))
    c.holds(nm + ': every sample is on exactly one side', w, eq(cnt, ONE), cfg, 'every original row occurs exactly once in train and test together', unknown_ok=True)


def dof(c, an):
    an.new()
    f = fun(an, 'data::divide_on_feature', 3)
    w = c.loc(f)
    X = an.mat('X', R_, C_)
    F, TH = idx('F', C_), sym('th', 'R')
    o = an.run(f, [X, F, TH])
    a, b = o.val().xs
    nm = 'divide_on_feature'
    cfg = Cfg(dict(dims(), th=('choice', [-1, 0, 1])), modes=(1, 0), trials=c.trials(40, 200))
    s = fresh('s')
    for l, nme, cond in ((a, 'first side', lambda r: le(X.at(r, F), TH)), (b, 'second side', lambda r: lt(TH, X.at(r, F)))):
        n = sum_(R_, s, b2t(cond(s)))
        c.eq(nm + ': size of the %s' % nme, w, l.n, n, cfg, 'exactly the qualifying rows')
        k = idx('k*', n)
        c.eq(nm + ': rows of the %s' % nme, w, l.at(k), rawbind('sel', R_, s, cond(s), k), cfg.plus(assume=[lt(ZERO, n)]), 'k-th qualifying row, in order')
    noev(c, an, nm, cfg)


def noev(c, an, nm, cfg):
    for ev in an.events('noreturn') + an.events('throw'):
        c.holds(nm + ': returns a result', '%s:%s %s' % (rel(ev.file), ev.line, short(ev.fn)), not_(ev.pc), cfg, 'no throw and no missing return for admissible arguments')


def run(c):
    an = c.an('core')
    for sh in (False, True):
        c.guarded('train_test_split', tts, c, an, sh)
    c.guarded('divide_on_feature', dof, c, an)
