"""C25: loading a text file yields every row, or an error."""
from .corefn import *
FP = sym('fp', 'S')
L = app('file.line.n', 'Z', FP)
OPEN = app('openable', 'B', FP)
line = lambda i: app('file.line', 'S', FP, lift(i))
ntok = lambda i: app('text.tok.n', 'Z', line(i))
tok = lambda i, j: app('text.tok', 'R', line(i), lift(j))


def rect():
    s = fresh('s')
    return and_(lt(ZERO, L), lt(ZERO, ntok(ZERO)), not_(any_(L, s, not_(eq(ntok(s), ntok(ZERO))))))


def one(c, an, f, form):
    an.new()
    w = c.loc(f)
    mk_ = {'eig': lambda p, i: an.mat('X0', R_, C_) if kind(an, p['t']).get('cc') == -1 else an.vec('y0', R_),
           'rec': lambda p, i: an.lst2('L0', R_, C_) if i == 0 else an.lst('l0', R_)}
    args = [an.root(mk_[kind(an, p['t'])['c']](p, i)) for i, p in enumerate(f['ps'][1:])]
    o = an.run(f, [FP] + args)
    xs = [o.val(a) for a in args]
    nm = 'loadtxt(%s)' % form
    full = len(xs) == 2
    base = dict(dims(), openable=('choice', [True, False]))
    lines = {'fn:file.line.n': ('int', 0, 4), 'fn:openable': ('choice', [True, True, False])}
    free = Cfg(dict(base, **dict(lines, **{'fn:text.tok.n': ('choice', [1, 2, 2, 2, 2, 0])})), trials=c.trials(120, 400))
    same = [Cfg(dict(base, **dict(lines, **{'fn:text.tok.n': ('const', q), 'fn:file.line.n': ('int', 1, 4)})), trials=c.trials(20, 60)) for q in (1, 2, 3)]
    c.holds(nm + ': a file that cannot be opened is an error', w, or_(not_(o.pc), OPEN), free, 'returns only if the file was opened')
    if full:
        ok = rect()
        c.holds(nm + ': a file without rows, or with rows of different lengths, is an error', w, or_(not_(o.pc), ok), free, 'returns only if the rows form a table')
    else:
        ok = TRUE
    for cf in same:
        c.holds(nm + ': a table is loaded', w, or_(not_(OPEN), not_(ok), o.pc), cf, 'no error for a readable table')
    i = idx('i*', L)
    for q, cf in zip((1, 2, 3), same):
        cf = cf.plus(assume=[OPEN])
        cf.dom['fn:openable'] = ('const', True)
        t = ' (%d columns)' % q
        nc = num(q - 1) if full else num(q)
        X = xs[0]
        if isinstance(X, MatV):
            c.eq(nm + ': one row per line' + t, w, X.r, L, cf)
            c.eq(nm + ': columns' + t, w, X.c, nc, cf)
            at = X.at
        else:
            X = an.e.listify(X)
            c.eq(nm + ': one row per line' + t, w, X.n, L, cf)
            row = an.e.listify(X.at(i))
            if not isinstance(row, ListV):
                c.undecided(nm + ': rows' + t, w, 'rows not interpreted')
                continue
            c.eq(nm + ': columns' + t, w, row.n, nc, cf)
            at = lambda a, b: an.e.listify(X.at(a)).at(b)
        if q > 1 or not full:
            j = idx('j*', nc)
            c.eq(nm + ': entries in file order' + t, w, at(i, j), tok(i, j), cf, 'entry (i,j) is the j-th number of line i')
        if full:
            y = xs[1]
            if isinstance(y, MatV):
                c.eq(nm + ': one target per line' + t, w, y.r, L, cf)
                yi = y.at(i, ZERO)
            else:
                y = an.e.listify(y)
                c.eq(nm + ': one target per line' + t, w, y.n, L, cf)
                yi = y.at(i)
            c.eq(nm + ': targets are the last column' + t, w, yi, tok(i, num(q - 1)), cf, 'target i is the last number of line i')
    for ev in an.events('bounds') + an.events('shape'):
        d = ev.data.get('cond')
        if d is not None:
            c.holds(nm + ': element access', '%s:%s' % (rel(ev.file), ev.line), or_(not_(ev.pc), d), free, 'every element read exists')


def run(c):
    an = c.an('core')
    fs = an.fns('openml::data::loadtxt')
    seen = set()
    for f in fs:
        ks = [kind(an, p['t'])['c'] for p in f['ps'][1:]]
        form = 'matrix' if ks[0] == 'eig' else 'vectors' if len(ks) == 2 else 'rows only'
        if form in seen:
            continue
        seen.add(form)
        c.guarded('loadtxt(%s)' % form, one, c, an, f, form)
    if len(seen) < 3:
        c.undecided('loadtxt', '?', 'forms found: %s' % sorted(seen))
