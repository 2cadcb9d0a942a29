"""C13: each sample is predicted independently of the rest of the batch.

Every inference method is interpreted twice on the same arbitrary fitted state: on a query matrix Q, and on another matrix
with another number of rows that agrees with Q only in one arbitrary row i*.  The answers for row i* must be equal."""
from .models import *
ISTAR = sym('i*', 'Z', 'nn')


def sizes(c, nm, w, pc, cfg):
    """if batches of some number of rows are answered, batches of every number of rows are"""
    if unknowns(pc) or not any(x is NQ for x in walk(pc)):
        return
    k = {n: valid(not_(subst(pc, {NQ: num(n)})), Cfg(cfg.dom, modes=cfg.modes, trials=24), True).kind for n in (1, 2, 3, 4)}
    no = [n for n in k if k[n] == 'same']
    rule = 'no batch size is refused'
    if 'diff' in k.values() and no:
        c.ob(nm + ': answers batches of every size', w, 'diff', rule, 'a batch of %d rows is refused' % no[0])
    elif 'diff' in k.values() and not no:
        c.ob(nm + ': answers batches of every size', w, 'same', rule)


def one(c, an, m, meth):
    nm = '%s::%s' % (m.label, meth[0])
    f = m.fn(an, meth)
    w = c.loc(f)
    n2 = sym('m2', 'Z', 'dim')
    cfg = Cfg(dict(dims(), nq=('int', 1, 4), m2=('int', 1, 4), k=('int', 1, 3), **{'i*': ('int', 0, 2)}), assume=[lt(ISTAR, NQ), lt(ISTAR, n2)], modes=(2, 2, 0, 1), trials=c.trials(48, 160))
    q0 = an.mat('Q', NQ, C_)
    alt = an.mat('Q2', n2, C_)
    q1 = MatV(n2, C_, ite(eq(I, ISTAR), q0.at(I, J), alt.at(I, J)))
    outs = []
    for q in (q0, q1):
        o = m.start(an)
        r = an.root(q, 'query')
        m.align(an)
        out = an.call(o, meth[0], [r if a == 'Q' else a for a in meth[1]])
        outs.append(None if out.dead else out.val())
        if q is q0:
            loops = list(an.e.loops)
            if not out.dead:
                sizes(c, nm, w, out.pc, cfg)
    if outs[0] is None or outs[1] is None:
        return c.undecided(nm, w, 'always throws on the abstract state')
    # descents: the query is read in the row of the enclosing row loop only
    inner = [z for z in loops if z.line and any(isinstance(v, IteV) and an.e.pointee(v) is not None for v in z.phs.values())]
    tied = bool(inner)
    for z in inner:
        outer = [l.t for l in loops if l.id in getattr(z, 'outer', ())]
        rd = set()
        for x in [z.cond] + [z.end.s[k] for k, v in z.phs.items() if z.end is not None and isinstance(v, IteV) and k in z.end.s]:
            for t in deep(x):
                if t.op == 'el' and t.a[0].op == 'ten' and t.a[0].a[0] == 'Q':
                    rd.add(t.a[1])
        bad = [t for t in rd if outer and t not in outer]
        if not outer:
            tied = False
            continue
        if any(not unknowns(t) and equal(t, outer[0], cfg).kind == 'diff' for t in bad):
            c.ob(nm + ': the descent of a sample reads only its own row', '%s:%s %s' % (rel(z.file), z.line, short(z.fn)), 'diff', 'row index of query reads in the descent = index of the sample loop', 'row %s' % show(bad[0])[:200])
        elif not bad:
            c.ob(nm + ': the descent of a sample reads only its own row', '%s:%s %s' % (rel(z.file), z.line, short(z.fn)), 'same', 'row index of query reads in the descent = index of the sample loop')
    for (pa, a), (_, b) in zip(parts(outs[0]), parts(outs[1])):
        tag = nm + (' ' + pa if pa else '')
        if isinstance(a, MatV) and isinstance(b, MatV):
            ra, rb = equal(a.r, NQ, cfg), equal(b.r, n2, cfg)
            c.verdict(tag + ': one row per query row', w, ra if ra.kind != 'same' else rb, 'row count of the answer = row count of the query')
            if ra.kind != 'same' or rb.kind != 'same':
                continue
            c.eq(tag + ': same number of entries whatever the batch', w, a.c, b.c, cfg, 'column count does not depend on the batch')
            j = idx('j*', a.c)
            v = equal(a.at(ISTAR, j), b.at(ISTAR, j), cfg, 'phi' if tied else False)
            c.verdict(tag + ': entry depends on its own row only', w, v, 'answers for row i* of two batches agreeing in row i* are equal')
        elif isinstance(a, ListV) and isinstance(b, ListV):
            ra, rb = equal(a.n, NQ, cfg), equal(b.n, n2, cfg)
            c.verdict(tag + ': one answer per query row', w, ra if ra.kind != 'same' else rb, 'length of the answer = row count of the query')
            if ra.kind != 'same' or rb.kind != 'same':
                continue
            c.verdict(tag + ': entry depends on its own row only', w, same_value(a.at(ISTAR), b.at(ISTAR), cfg), 'answers for row i* of two batches agreeing in row i* are equal')
        elif isinstance(a, T):
            continue
        else:
            c.undecided(tag, w, 'answer of kind ' + type(a).__name__)


def deep(v):
    if isinstance(v, T):
        yield from walk(v)
    elif isinstance(v, IteV):
        yield from deep(v.c)
        yield from deep(v.a)
        yield from deep(v.b)
    elif isinstance(v, MatV):
        yield from deep(v.body)
    elif isinstance(v, ObjV):
        for x in v.f.values():
            yield from deep(x)
    elif isinstance(v, TupV):
        for x in v.xs:
            yield from deep(x)


def run(c):
    c.prefetch('linear', 'lasso', 'nb', 'gmm', 'decomp', 'kmeans', 'tree', 'structs')
    for m in all_models():
        an = c.an(m.tu)
        for meth in m.infer:
            if 'Q' in meth[1] and meth[0] != 'score':
                c.guarded('%s::%s' % (m.label, meth[0]), one, c, an, m, meth)
