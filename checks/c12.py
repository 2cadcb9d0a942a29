"""C12: inference is read-only.

Every inference method of every model is interpreted on an arbitrary fitted state: (1) no field of the model may change;
(2) the answer to a query after any other inference call on another query must be the answer without it (this also covers
state kept outside the object, e.g. function-local statics); (3) arguments passed by mutable reference keep their value."""
from .models import *


def one(c, an, m, meth):
    nm = '%s::%s' % (m.label, meth[0])
    f = m.fn(an, meth)
    w = c.loc(f)
    cfg = Cfg(dict(dims(), nq=('int', 1, 3), m1=('int', 1, 3), k=('int', 1, 3)), modes=(2, 0, 1), trials=c.trials(16, 64))
    o = m.start(an)
    pre = an.e.read(o, an.st)
    Q = an.mat('Q', NQ, C_)
    q = an.root(Q, 'query')
    nunk = len(an.e.unk)
    m.align(an)
    base = an.call(o, meth[0], [q if a == 'Q' else a for a in meth[1]])
    if base.dead:
        return c.undecided(nm + ': leaves the model unchanged', w, 'always throws on the abstract state')
    base = base.val()
    post = an.e.read(o, an.st)
    chg = []
    und = []
    for k in pre.f:
        if not veq(pre.f[k], post.f[k]):
            v = same_value(pre.f[k], post.f[k], cfg)
            if v.kind != 'same':
                (chg if v.kind == 'diff' else und).append(k)
    # a changed field is a violation only if some answer changes: caches are allowed
    aft = an.e.read(q, an.st)
    c.ob(nm + ': leaves the query unchanged', w, 'same' if veq(aft, Q) else ('diff' if same_value(aft, Q, cfg).kind == 'diff' else 'unknown'), 'argument value after the call')
    if not chg and not und:
        c.ob(nm + ': leaves the model unchanged', w, 'same', 'every field keeps its value on every path')
    # answers do not depend on earlier inference calls
    for other in m.infer:
        o = m.start(an)
        Q2 = an.mat('Q2', sym('m1', 'Z', 'dim'), C_)
        r = m.call(an, o, other, Q2)
        if r.dead:
            continue
        q2 = an.root(Q, 'query')
        m.align(an)
        got = an.call(o, meth[0], [q2 if a == 'Q' else a for a in meth[1]]).val()
        v = Verdict('same', '')
        for (pa, x), (_, y) in zip(parts(base), parts(got)):
            v = same_value(x, y, cfg, 'phi')
            if v.kind != 'same':
                break
        c.verdict('%s: same answer after %s' % (nm, other[0]), w, v, 'answer to a query equals the answer given by the same model before another inference call')
    if chg or und:
        ok = all(x['verdict'] == 'discharged' for x in c.obs if x['name'].startswith(nm + ': same answer') or any(x['name'] == '%s::%s: same answer after %s' % (m.label, z[0], meth[0]) for z in m.infer))
        c.notes.append('%s changes %s' % (nm, chg or und))
        c.ob(nm + ': leaves the model unchanged', w, 'same' if ok and m.state == 'fit' else 'unknown', 'changed fields do not change any answer', 'fields %s' % (chg or und))


def run(c):
    c.prefetch('linear', 'lasso', 'nb', 'gmm', 'decomp', 'kmeans', 'tree', 'structs')
    for m in all_models():
        an = c.an(m.tu)
        for meth in m.infer:
            c.guarded('%s::%s' % (m.label, meth[0]), one, c, an, m, meth)
