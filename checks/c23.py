"""C23: k-d tree queries miss no neighbour.

The construction loop is interpreted as a transition over an arbitrary work list and node array; the tree invariant (rows
stored with their numbers, boxes enclosing the rows below them, every row in exactly one pending or finished leaf, children
linked once) is established on entry and preserved by one arbitrary iteration.  The pruning test accepts every box that
holds a point within the radius, in the metric of the point distances.  The search loops push exactly the children whose
boxes pass, report every qualifying row of a leaf with its own number, and keep the k smallest in ascending order."""
from .est import *
from oml.terms import rewrite_phi
from oml.values import vmapt

KD = 'openml::tree::KDTree'
LEAF = sym('leaf', 'Z', 'dim')
METRICS = ('manhattan', 'euclidean', 'chebyshev')


def rmin_(n, f):
    k = fresh('k')
    return rawbind('rmin', n, k, f(k))


def rmax_(n, f):
    k = fresh('k')
    return rawbind('rmax', n, k, f(k))


def nm(v):
    while v.op in ('el', 'nat'):
        v = v.a[0]
    return v.a[0] if v.op in ('app', 'tapp', 'sym', 'ten') else None


def has(v, *fs):
    return isinstance(v, ListV) and isinstance(v.e, ObjV) and all(f in v.e.f for f in fs)


def axis_(e, f, this, args, st, node):
    """any axis will do: the one with the largest spread is only a heuristic"""
    if len(args) != 1:
        return NotImplemented
    v = e.read(args[0], st) if e._is_lv(args[0]) else args[0]
    if not isinstance(v, MatV):
        return NotImplemented
    return imod(app('axis', 'Z', toterm(v)), v.c)


class Build:
    def __init__(self, c, an):
        self.c, self.an = c, an
        self.cl = next(k for k in an.p.classes if k['q'] == KD)
        an.new({'find_partition_axis()': axis_})
        self.X = an.mat('X', R_, C_)
        self.ctor = next(f for f in an.p.fns if f.get('ctor') and f['cls'] == self.cl['idx'] and len(f['ps']) == 3)
        self.o = an.obj(self.cl['idx'], [self.X, LEAF, S('euclidean')])
        self.loop = None
        for l in an.e.loops:
            items = [k for k, v in l.phs.items() if has(v, 'is_left', 'index', 'indices', 'data')]
            nodes = [k for k, v in l.phs.items() if has(v, 'left', 'right', 'indices', 'data', 'left_hyper_rect', 'right_hyper_rect')]
            if items and nodes and l.end is not None:
                self.loop, self.ks, self.kn = l, items[0], nodes[0]
        if self.loop is None:
            return
        l = self.loop
        self.where = '%s:%s %s' % (rel(l.file), l.line, short(l.fn))
        self.S0, self.T0 = self.at(l.entry, self.ks), self.at(l.entry, self.kn)
        self.S, self.T = self.at(l.store, self.ks), self.at(l.store, self.kn)
        self.S1, self.T1 = self.at(l.end.s, self.ks), self.at(l.end.s, self.kn)
        self.lists = all(isinstance(x, ListV) for x in (self.S0, self.T0, self.S, self.T, self.S1, self.T1))

    def at(self, st, path):
        v = st.get(path)
        for _, k in (() if v is not None else path[1:]):
            v = v.f[k]
        return self.an.e.listify(v)

    def assumptions(self):
        """substitution turning the arbitrary stack and nodes into ones satisfying the invariant"""
        X, S, T = self.X, self.S, self.T
        e, w = S.e.f, T.e.f
        N = T.n
        pend = sym('pending', 'Z', 'dim')
        top = sub(pend, ONE)
        side_ = lambda k: app('side', 'B', k)
        K, M = sym('K!', 'Z'), sym('M!', 'Z')
        rows = lambda k: add(ONE, imod(app('rows', 'Z', k), num(5)))
        ind = lambda k, i: imod(app('row', 'Z', k, i), R_)
        dat = lambda k, i, j: X.at(ind(k, i), j)
        mp = {}

        def put(term, ixs, val):
            name = nm(term)
            if name is not None:
                mp[name] = (ixs, val)
        put(S.n, (), pend)
        put(e['is_left'], (K,), side_(K))
        put(e['data'].r, (K,), rows(K))
        put(e['data'].c, (K,), C_)
        put(e['indices'].r, (K,), rows(K))
        put(e['data'].body, (K, I, J), dat(K, I, J))
        put(e['indices'].body, (K, I, J), ind(K, I))
        put(e['index'], (K,), imod(app('parent', 'Z', K), N))
        lo = lambda j: rmin_(rows(top), lambda i: dat(top, i, j))
        hi = lambda j: rmax_(rows(top), lambda i: dat(top, i, j))
        left = side_(top)
        for s in ('left_hyper_rect', 'right_hyper_rect'):
            b = w[s].f['v']
            mine = left if s[0] == 'l' else not_(left)
            other = app('other.' + s, 'R', M, I, J)
            slack = lambda r: powr(app('slack.' + s, 'R', M, J, num(r)), 2)
            put(b.r, (M,), num(2))
            put(b.c, (M,), C_)
            put(b.body, (M, I, J), ite(mine, ite(eq(I, ZERO), sub(lo(J), slack(0)), add(hi(J), slack(1))), other))
            put(w[s].f['null'], (M,), FALSE)
        put(w['indices'].f['null'], (M,), TRUE)
        put(w['data'].f['null'], (M,), TRUE)
        return mp


def enclosed(box_, d, i, j):
    return and_(le(box_.at(ZERO, j), d.at(i, j)), le(d.at(i, j), box_.at(ONE, j)))


def side(node, left):
    return mergev(left, node.f['left_hyper_rect'].f['v'], node.f['right_hyper_rect'].f['v'])


def build(c, an):
    b = Build(c, an)
    if b.loop is None:
        return c.undecided('KD-tree construction', c.loc(b.ctor), 'construction loop not recognised')
    if not b.lists:
        return c.undecided('KD-tree construction', b.where, 'work list or node array not tracked')
    w = b.where
    mp = b.assumptions()
    X = b.X
    fix = lambda v: vmapt(v, lambda t: rewrite_phi(t, mp))
    t_ = b.loop.t
    dom = dict(dims(), n=('int', 2, 6), p=('int', 1, 3), leaf=('int', 1, 3))
    dom[t_.a[0]] = ('int', 0, 3)
    dom['pending'] = ('int', 1, 3)
    dom['pick'] = ('int', 0, 4)
    dom['pi'] = ('int', 0, 5)
    dom['pj'] = ('int', 0, 2)
    P, i, j = sym('pick', 'Z'), sym('pi', 'Z'), sym('pj', 'Z')
    pc = rewrite_phi(b.loop.end.pc, mp)

    def cfg(*a):
        return Cfg(dom, assume=[x for x in a if x is not TRUE], modes=(0, 1, 2), trials=c.trials(60, 240))
    g = lambda x: app('g', 'R', x)

    def state(tag, S, T, first, upto, total, pc):
        """invariant of the items first <= k < S.n over nodes T; total: sum of g over their row numbers"""
        it = S.at(P)
        inr = [pc, le(first, P), lt(P, S.n)]
        d, x = it.f['data'], it.f['indices']
        c.eq(tag + ': an item has one row number per row', w, d.r, x.r, cfg(*inr), 'rows of the data = number of row numbers')
        c.eq(tag + ': items keep all columns', w, d.c, C_, cfg(*inr), 'columns of the data = columns of the training data')
        row = inr + [lt(i, d.r), lt(j, C_)]
        c.holds(tag + ': row numbers exist', w, and_(le(ZERO, x.at(i, ZERO)), lt(x.at(i, ZERO), R_)), cfg(*row), 'row number within the training data')
        c.eq(tag + ': the rows of an item are the training rows of their numbers', w, d.at(i, j), X.at(x.at(i, ZERO), j), cfg(*row), 'data(i, .) = X(indices(i), .)')
        node = T.at(it.f['index'])
        c.holds(tag + ': the parent of an item exists and is not a leaf', w, and_(le(ZERO, it.f['index']), lt(it.f['index'], T.n), node.f['indices'].f['null'], not_(node.f['left_hyper_rect'].f['null']), not_(node.f['right_hyper_rect'].f['null'])), cfg(*inr), 'parent is an inner node with both boxes')
        bx = side(node, it.f['is_left'])
        c.holds(tag + ': the box of an item encloses its rows', w, enclosed(bx, d, i, j), cfg(*row), 'lower bound <= every entry <= upper bound')
        q, r = fresh('q'), fresh('r')
        got = sum_(sub(S.n, first), q, sum_(S.at(add(first, q)).f['data'].r, r, g(S.at(add(first, q)).f['indices'].at(r, ZERO))))
        return got

    # entry
    S0, T0 = b.S0, b.T0
    pc0 = TRUE
    got = state('root', S0, T0, ZERO, S0.n, None, pc0)
    q = fresh('q')
    c.eq('root: every training row is pending exactly once', w, got, sum_(R_, q, g(q)), cfg(), 'sum of an arbitrary function over the pending row numbers = sum over all rows')
    sib = lambda S, a, z: and_(eq(S.at(a).f['index'], S.at(z).f['index']), not_(beq(S.at(a).f['is_left'], S.at(z).f['is_left'])))
    c.holds('root: one pending item per side', w, and_(eq(S0.n, num(2)), eq(T0.n, ONE), sib(S0, ZERO, ONE)), cfg(), 'two items, both sides of the root')
    # one arbitrary iteration
    S, T, S1, T1 = (fix(x) for x in (b.S, b.T, b.S1, b.T1))
    top = sub(S.n, ONE)
    it = S.at(top)
    N = T.n
    new = T1.at(N)
    leafy = not_(new.f['indices'].f['null'])
    got = state('split', S1, T1, top, S1.n, None, pc)
    r = fresh('r')
    all_ = sum_(it.f['data'].r, r, g(it.f['indices'].at(r, ZERO)))
    stored = ite(leafy, sum_(new.f['indices'].f['v'].r, r, g(new.f['indices'].f['v'].at(r, ZERO))), ZERO)
    c.eq('split: every row of the item is stored or pending exactly once', w, add(got, stored), all_, cfg(pc), 'sum of an arbitrary function over stored and pending row numbers is unchanged')
    c.eq('split: one node per item', w, T1.n, add(N, ONE), cfg(pc), 'node array grows by one')
    lv, ix = new.f['data'].f['v'], new.f['indices'].f['v']
    row = [pc, leafy, lt(i, lv.r), lt(j, C_)]
    c.eq('leaf: one row number per stored row', w, lv.r, ix.r, cfg(pc, leafy), 'rows of the leaf = number of row numbers')
    c.eq('leaf: stored rows are the training rows of their numbers', w, lv.at(i, j), X.at(ix.at(i, ZERO), j), cfg(*row), 'data(i, .) = X(indices(i), .)')
    c.holds('leaf: rows and numbers are stored together', w, beq(new.f['data'].f['null'], new.f['indices'].f['null']), cfg(pc), 'both or neither')
    c.holds('split: an inner node has both sides pending', w, or_(leafy, and_(eq(S1.n, add(S.n, ONE)), eq(S1.at(top).f['index'], N), sib(S1, top, S.n))), cfg(pc), 'two items for the new node, one per side')
    c.holds('leaf: nothing else becomes pending', w, or_(not_(leafy), eq(S1.n, top)), cfg(pc), 'the item is consumed')
    m = sym('pick', 'Z')
    par, isl = it.f['index'], it.f['is_left']
    link = lambda s, on: eq(T1.at(par).f[s], ite(on, N, T.at(par).f[s]))
    c.holds('split: the parent links the new node on the side of the item', w, and_(link('left', isl), link('right', not_(isl))), cfg(pc), 'left or right child = number of the new node')
    old = [pc, lt(m, N)]
    for s in ('left', 'right'):
        c.eq('split: other %s links are kept' % s, w, T1.at(m).f[s], T.at(m).f[s], cfg(*old, not_(eq(m, par))), 'unchanged')
    for s in ('left_hyper_rect', 'right_hyper_rect'):
        for a in (ZERO, ONE):
            c.eq('split: %s of other nodes is kept (%s)' % (s, 'lower' if a is ZERO else 'upper'), w, T1.at(m).f[s].f['v'].at(a, j), T.at(m).f[s].f['v'].at(a, j), cfg(*old, lt(j, C_)), 'unchanged')
    for s in ('indices', 'data'):
        c.holds('split: %s of other nodes stay' % s, w, beq(T1.at(m).f[s].f['null'], T.at(m).f[s].f['null']), cfg(*old), 'unchanged')
    for s in ('index', 'is_left'):
        a, z = S1.at(m).f[s], S.at(m).f[s]
        f_ = beq(a, z) if s == 'is_left' else eq(a, z)
        c.holds('split: %s of other items is kept' % s, w, f_, cfg(pc, lt(m, top)), 'unchanged')
    for s in ('indices', 'data'):
        c.eq('split: %s of other items are kept' % s, w, S1.at(m).f[s].at(i, j if s == 'data' else ZERO), S.at(m).f[s].at(i, j if s == 'data' else ZERO), cfg(pc, lt(m, top), lt(i, S.at(m).f[s].r), lt(j, C_)), 'unchanged')


def beq(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))


def norm_(metric, n, f):
    k = fresh('k')
    if metric == 'manhattan':
        return sum_(n, k, fn('abs', f(k)))
    if metric == 'euclidean':
        return sqrt(sum_(n, k, powr(f(k), 2)))
    return rmax_(n, lambda k: fn('abs', f(k)))


def tree(c, an, metric, hooks=None):
    h = {'build_tree()': lambda *a: OpqV('void')}
    h.update(hooks or {})
    an.new(h)
    cl = next(k for k in an.p.classes if k['q'] == KD)
    o = an.obj(cl['idx'], [an.mat('X', R_, C_), LEAF, S(metric)])
    return cl, o


def pruning(c, an, metric):
    cl, o = tree(c, an, metric)
    f = method(an, cl['idx'], 'check_intersection', 3)
    w = c.loc(f)
    B, q, r = an.mat('box', num(2), C_), an.mat('q', ONE, C_), sym('radius', 'R', 'nn')
    res = an.call(o, 'check_intersection', [B, q, r])
    nm_ = 'pruning (%s)' % metric
    if res.dead:
        return c.ob(nm_, w, 'diff', 'accepted', 'always throws for a documented metric')
    Z = an.mat('pt', ONE, C_)
    # a point of the box, arbitrary: the box bounds are the point widened by squares
    lo = lambda j: sub(Z.at(ZERO, j), powr(app('below', 'R', j), 2))
    hi = lambda j: add(Z.at(ZERO, j), powr(app('above', 'R', j), 2))
    got = an.e.scalar(res.val())
    got = got if srt(got) == 'B' else t2b(got)
    dist = norm_(metric, C_, lambda k: sub(Z.at(ZERO, k), q.at(ZERO, k)))
    got = subst(got, {ten('box'): toterm(mat(num(2), C_, lambda i, j: ite(eq(i, ZERO), lo(j), hi(j))))})
    cf = lambda r_: Cfg(dict(dims(), p=('int', 1, 4), **{'fn:above': ('choice', [0, 1, 2, 0.5]), 'fn:below': ('choice', [0, 1, 2, 0.5])}), modes=(0, 1, 2), trials=c.trials(80, 320))
    for nm2, rad in (('keeps a box with a point within the radius', add(dist, powr(sym('more', 'R'), 2))), ('keeps a box with a point exactly at the radius', dist)):
        t = subst(got, {r: rad})
        c.holds(nm_ + ': ' + nm2, w, t, cf(rad), 'box holds a point with distance <= radius in the metric of the point distances => box is searched')


def leafs(c, an, metric):
    cl, o = tree(c, an, metric)
    f = method(an, cl['idx'], 'compute_distance', 4)
    w = c.loc(f)
    m, k = sym('m', 'Z', 'dim'), sym('k', 'Z', 'dim')
    L, q = an.mat('L', m, C_), an.mat('q', ONE, C_)
    ix = MatV(m, ONE, el(ten('num', 'Z'), I, J))
    res = an.call(o, 'compute_distance', [q, L, ix, k])
    nm_ = 'leaf candidates (%s)' % metric
    if res.dead:
        return c.ob(nm_, w, 'diff', 'accepted', 'always throws for a documented metric')
    v = an.e.listify(res.val())
    if not isinstance(v, ListV) or not isinstance(v.e, TupV):
        return c.undecided(nm_, w, 'answer of kind ' + type(v).__name__)
    d = lambda i: norm_(metric, C_, lambda t: sub(L.at(i, t), q.at(ZERO, t)))
    a = fresh('a')
    rk = lambda t: rawbind('rank', m, a, d(a), t)
    cf = Cfg(dict(dims(), m=('int', 1, 4), k=('int', 1, 5), p=('int', 1, 3), pick=('int', 0, 3)), modes=(0, 2), trials=c.trials(40, 160))
    P = sym('pick', 'Z')
    n = ite(lt(k, m), k, m)
    c.eq(nm_ + ': the k nearest, or all', w, v.n, n, cf, 'number of candidates = min(k, rows of the leaf)')
    cf2 = Cfg(cf.dom, assume=[lt(P, n)], modes=(0, 2), trials=c.trials(60, 200))
    r = v.at(P)
    c.eq(nm_ + ': candidates carry their distance', w, an.e.scalar(r.xs[0]), d(rk(P)), cf2, 't-th smallest distance of the leaf')
    c.eq(nm_ + ': candidates carry their row number', w, an.e.scalar(r.xs[1]), ix.at(rk(P), ZERO), cf2, 'row number of the t-th nearest row')


def nodes_(e, f, this, args, st, node):
    """arbitrary node array"""
    fi = [x for x in e.p.classes[f['cls']]['fields'] if 'vector' in str(e.p.ty(e.p.targ(e.p.ty(x['t']), 0) if e.p.ty(x['t']).get('q') == 'std::shared_ptr' else x['t']).get('q'))]
    if len(fi) != 1:
        return NotImplemented
    ti = e.p.ty(fi[0]['t'])
    if ti.get('q') == 'std::shared_ptr':
        lv = e.root('tree', st, e.sym_value(e.p.targ(ti, 0), 'tree'))
        e.write(e.step(this, 'f', fi[0]['n']), PtrV(lv), st, node)
    else:
        lv = e.step(this, 'f', fi[0]['n'])
        e.write(lv, e.sym_value(fi[0]['t'], 'tree'), st, node)
    e.kdtree = lv
    return None


class Search:
    """one query: the loop over pending nodes"""

    def __init__(self, c, an, metric, name, arg):
        self.c, self.an = c, an
        self.cands = []

        def passes(e, f, this, args, st, node):
            v = [e.read(a, st) if e._is_lv(a) else a for a in args]
            if len(v) != 3:
                return NotImplemented
            return le(app('boxdist', 'R', toterm(v[0]), toterm(v[1])), e.scalar(v[2]))

        def leafc(e, f, this, args, st, node):
            v = [e.read(a, st) if e._is_lv(a) else a for a in args]
            if len(v) != 4:
                return NotImplemented
            self.cands.append(v)
            k = fresh('k')
            return ListV(sym('found', 'Z', 'nn'), k, TupV([app('fd', 'R', k), app('fi', 'Z', k)]))
        self.cl, self.o = tree(c, an, metric, {'build_tree()': nodes_, 'check_intersection()': passes, 'compute_distance()': leafc})
        self.tree = an.e.listify(an.e.read(an.e.kdtree, an.st))
        self.q = an.mat('q', ONE, C_)
        f = [f for f in an.p.fns if f.get('cls') == self.cl['idx'] and f['q'].endswith('::' + name)]
        self.f = f[0] if f else None
        self.loop = None
        if self.f is None:
            return
        self.res = an.call(self.o, name, [self.q, arg])
        for l in an.e.loops:
            for k, v in l.phs.items():
                if has(v, 'left', 'right', 'indices', 'data', 'left_hyper_rect', 'right_hyper_rect') and l.end is not None:
                    self.loop, self.ks = l, k
        if self.loop is None:
            return
        self.where = '%s:%s %s' % (rel(self.loop.file), self.loop.line, short(self.loop.fn))

    def at(self, st, k):
        return self.an.e.listify(st.get(k))

    def same(self, a, b):
        """the fields of two nodes that a query reads agree"""
        n = fresh('x')
        out = [eq(a.f['left'], b.f['left']), eq(a.f['right'], b.f['right']), beq(a.f['indices'].f['null'], b.f['indices'].f['null'])]
        x, y = sym('pi', 'Z'), sym('pj', 'Z')
        for s in ('data', 'indices', 'left_hyper_rect', 'right_hyper_rect'):
            out += [eq(a.f[s].f['v'].r, b.f[s].f['v'].r), eq(a.f[s].f['v'].at(x, y if s != 'indices' else ZERO), b.f[s].f['v'].at(x, y if s != 'indices' else ZERO))]
        return and_(*out)


KQ = sym('k', 'Z', 'dim')


def walk_(c, an, s, tag, radius, keep):
    """entry and one arbitrary iteration of the loop over pending nodes; radius: the largest distance that must be kept"""
    l, w = s.loop, s.where
    S0, S, S1 = s.at(l.entry, s.ks), s.at(l.store, s.ks), s.at(l.end.s, s.ks)
    mp = {}
    pend = sym('pending', 'Z', 'dim')
    for v, z in ((S.n, pend),):
        if nm(v) is not None:
            mp[nm(v)] = ((), z)
    K = sym('K!', 'Z')

    def put(t, z):
        if nm(t) is not None:
            mp[nm(t)] = z
    e = S.e.f
    for k_ in ('left', 'right'):
        put(e[k_], ((K,), app('st.' + k_, 'Z', K)))
    for k_ in ('data', 'indices', 'left_hyper_rect', 'right_hyper_rect'):
        put(e[k_].f['null'], ((K,), app('st.%s.null' % k_, 'B', K)))
        b = e[k_].f['v']
        put(b.r, ((K,), app('st.rows', 'Z', K) if k_ in ('data', 'indices') else num(2)))
        put(b.c, ((K,), C_))
        put(b.body, ((K, I, J) if k_ != 'indices' else (K, I), app('st.' + k_, 'Z' if k_ == 'indices' else 'R', K, I, J) if k_ != 'indices' else app('st.' + k_, 'Z', K, I)))
    for k_, v in l.phs.items():
        if k_ != s.ks and isinstance(v, ListV) and isinstance(v.e, TupV):
            mp.update(rn(s.at(l.store, k_).e.xs, 'kept'))
    fix = lambda v: vmapt(v, lambda t: rewrite_phi(t, mp))
    S, S1 = fix(S), fix(S1)
    pc = rewrite_phi(l.end.pc, mp)
    dom = dict(dims(), p=('int', 1, 3), pending=('int', 1, 3), pick=('int', 0, 4), pi=('int', 0, 3), pj=('int', 0, 2), k=('int', 1, 4))
    dom['fn:st.rows'] = ('int', 1, 3)
    dom[l.t.a[0]] = ('int', 0, 3)
    for f_ in ('st.left', 'st.right', 'tree.left', 'tree.right'):
        dom['fn:' + f_] = ('int', 0, 4)
    cfg = lambda *a: Cfg(dom, assume=[x for x in a if x is not TRUE], modes=(0, 1), trials=c.trials(60, 240))
    top = sub(pend, ONE)
    node = S.at(top)
    inner = node.f['indices'].f['null']
    if keep is None:
        return mp, fix, pc, node, inner, cfg, dom
    P = sym('pick', 'Z')
    c.holds(tag + ': starts at the root', w, and_(eq(S0.n, ONE), s.same(S0.at(ZERO), s.tree.at(ZERO))), cfg(), 'the root is pending')
    c.holds(tag + ': goes on while nodes are pending', w, beq(rewrite_phi(l.cond, mp), lt(ZERO, pend)), Cfg(dict(dom, pending=('int', 0, 3)), modes=(0,), trials=c.trials(40, 160)), 'loop condition = a node is pending')
    if any(x[1] != 'cond' for x in l.exits):
        c.undecided(tag + ': leaves only when nothing is pending', w, 'loop left in the middle')
    rad = rewrite_phi(radius(l.store), mp)
    for s_, b_ in (('left', 'left_hyper_rect'), ('right', 'right_hyper_rect')):
        k = fresh('k')
        child = s.tree.at(node.f[s_])
        pushed = any_(sub(S1.n, top), k, s.same(S1.at(add(top, k)), child))
        bd = app('boxdist', 'R', toterm(node.f[b_].f['v']), toterm(s.q))
        c.holds(tag + ': a %s box within the radius is searched' % s_, w, or_(not_(and_(inner, lt(bd, rad))), pushed), cfg(pc), 'inner node, box nearer than the radius => its child is pending')
        c.holds(tag + ': a %s box touching the radius is searched' % s_, w, or_(not_(and_(inner, eq(bd, rad))), pushed) if tag.startswith('radius') else TRUE, Cfg(dict(dom, **{'fn:boxdist': ('choice', [0, 1, 2]), 'radius': ('choice', [0, 1, 2])}), assume=[pc], modes=(1,), trials=c.trials(60, 240)), 'inner node, box at the radius => its child is pending')
    c.holds(tag + ': nothing but the children becomes pending', w, or_(le(S1.n, P), lt(P, top), and_(inner, or_(s.same(S1.at(P), s.tree.at(node.f['left'])), s.same(S1.at(P), s.tree.at(node.f['right']))))), cfg(pc), 'pushed nodes are the children of the node')
    c.holds(tag + ': no child is searched twice', w, le(S1.n, add(top, ite(inner, num(2), ZERO))), cfg(pc), 'at most one push per side')
    c.holds(tag + ': other pending nodes stay', w, or_(le(top, P), and_(le(top, S1.n), s.same(S1.at(P), S.at(P)))), cfg(pc), 'work list below the node unchanged')
    return mp, fix, pc, node, inner, cfg, dom


def knn(c, an):
    s = Search(c, an, 'euclidean', 'query_single_data', KQ)
    tag = 'nearest'
    if s.loop is None:
        return c.undecided(tag, c.loc(s.f) if s.f else KD, 'search loop not recognised')
    l, w = s.loop, s.where
    heaps = [k for k, v in l.phs.items() if isinstance(v, ListV) and isinstance(v.e, TupV)]
    if len(heaps) != 1:
        return c.undecided(tag, w, 'list of neighbours not recognised')
    kh = heaps[0]
    H0, H, H1 = s.at(l.entry, kh), s.at(l.store, kh), s.at(l.end.s, kh)
    G = sym('G!', 'Z')
    i_ = fresh('i')
    key = lambda k: sum_(sub(KQ, k), i_, powr(app('gap', 'R', add(k, i_)), 2))
    heapmp = {}
    for t, z in ((H.e.xs[0], key(G)), (H.e.xs[1], app('hnum', 'Z', G))):
        if nm(t) is not None:
            heapmp[nm(t)] = ((G,), z)
    got = walk_(c, an, s, tag, lambda st: s.at(st, kh).at(ZERO).xs[0], True)
    mp, fix, pc, node, inner, cfg, dom = got
    if s.cands:
        v = s.cands[-1]
        for nm2, a, b in (('query', v[0], s.q), ('rows', v[1], node.f['data'].f['v']), ('numbers', v[2], node.f['indices'].f['v'])):
            c.holds(tag + ': a leaf offers its own ' + nm2, w, or_(inner, eq(fix(a).at(sym('pi', 'Z'), sym('pj', 'Z') if nm2 != 'numbers' else ZERO), b.at(sym('pi', 'Z'), sym('pj', 'Z') if nm2 != 'numbers' else ZERO))), cfg(pc, le(ZERO, sym('pi', 'Z')), lt(sym('pi', 'Z'), ONE if nm2 == 'query' else node.f['data'].f['v'].r), lt(sym('pj', 'Z'), C_)), 'candidates are computed from the leaf')
        c.eq(tag + ': a leaf offers its k nearest', w, an.e.scalar(v[3]), KQ, cfg(pc), 'k candidates')
    c.eq(tag + ': an inner node keeps the neighbours', w, ite(inner, fix(H1).n, KQ), KQ, cfg(pc), 'size unchanged')
    P = sym('pick', 'Z')
    for t in (0, 1):
        c.eq(tag + ': an inner node keeps the neighbours (%s)' % ('distance', 'number')[t], w, ite(inner, fix(H1).at(P).xs[t], fix(H).at(P).xs[t]), fix(H).at(P).xs[t], cfg(pc, lt(P, KQ)), 'unchanged')
    # initial contents
    if H0.n is not KQ:
        return c.undecided(tag + ': neighbours', w, 'list of neighbours starts with %s entries' % str(H0.n)[:60])
    start = [x for x in an.e.loops if x is not l and kh in x.phs and (nm(H0.e.xs[0]) or '').rstrip('@') in [z.name for z in x.leaves]]
    if start:
        x = start[0]
        w0 = '%s:%s %s' % (rel(x.file), x.line, short(x.fn))
        V1, V = s.at(x.end.s, kh), s.at(x.store, kh)
        c.eq(tag + ': start is empty', w0, s.at(x.entry, kh).n, ZERO, cfg(), 'no entry')
        c.eq(tag + ': start is filled up', w0, x.N, KQ, cfg(), 'k steps')
        inf = {nm(V.e.xs[0]): ((G,), INF)} if nm(V.e.xs[0]) else {}
        c.eq(tag + ': start holds no neighbour', w0, rewrite_phi(V1.at(P).xs[0], inf), INF, cfg(lt(P, add(x.t, ONE))), 'every entry infinitely far')
        c.eq(tag + ': start grows by one entry', w0, sub(V1.n, V.n), ONE, cfg(), 'one entry per step')
    elif H0.at(P).xs[0] is not INF:
        c.undecided(tag + ': start', w, 'initial neighbours not recognised')
    # one candidate
    ins = [x for x in an.e.loops if x is not l and kh in x.phs and x not in start and x.end is not None and x.cond is not None and any(has_(z, 'fd') for z in leafterms(x))]
    if not ins:
        return c.undecided(tag + ': candidates', w, 'loop over the candidates of a leaf not recognised')
    x = ins[0]
    w1 = '%s:%s %s' % (rel(x.file), x.line, short(x.fn))
    V0, V, V1 = s.at(x.entry, kh), s.at(x.store, kh), s.at(x.end.s, kh)
    hm = {}
    for t, z in ((V.e.xs[0], key(G)), (V.e.xs[1], app('hnum', 'Z', G))):
        if nm(t) is not None:
            hm[nm(t)] = ((G,), z)
    if nm(V.n) is not None:
        hm[nm(V.n)] = ((), KQ)
    fx = lambda v: vmapt(v, lambda t: rewrite_phi(t, hm))
    A, B = fx(V), fx(V1)
    d2 = dict(dom, **{x.t.a[0]: ('int', 0, 3), 'found': ('int', 4, 5), 'fn:gap': ('choice', [0, 1, 0.5, 1.25]), 'fn:fd': ('choice', [0, 0.5, 1, 1.75, 2.5, 9]), 'u': ('choice', [0.25, 0.6, 1.2, 2, 2.6, 10])})
    cf = lambda *a: Cfg(d2, assume=list(a), modes=(0,), trials=c.trials(120, 480))
    c.eq(tag + ': candidates are offered to the neighbours', w1, V0.n, H.n if H.n is KQ else rewrite_phi(H.n, {}), cf(), 'the loop over candidates starts with the current neighbours')
    for t in (0, 1):
        c.eq(tag + ': candidates start from the current neighbours (%s)' % ('distance', 'number')[t], w1, V0.at(P).xs[t], H.at(P).xs[t], cf(lt(P, KQ)), 'unchanged')
    c.eq(tag + ': every candidate is offered', w1, x.N, sym('found', 'Z', 'nn'), cf(), 'number of steps = number of candidates')
    c.eq(tag + ': k neighbours are kept', w1, B.n, KQ, cf(), 'size k')
    u, k = sym('u', 'R'), fresh('k')
    cand = app('fd', 'R', x.t)
    less = lambda L: sum_(L.n, k, b2t(lt(L.at(k).xs[0], u)))
    have = add(less(A), b2t(lt(cand, u)))
    c.eq(tag + ': the nearest are kept', w1, less(B), ite(lt(KQ, have), KQ, have), cf(), 'below any threshold: min(k, kept before + candidate)')
    c.holds(tag + ': the farthest kept is at the front', w1, le(B.at(P).xs[0], B.at(ZERO).xs[0]), cf(lt(P, KQ)), 'no entry is farther than the first')
    src = lambda L, e_: any_(L.n, k, and_(eq(L.at(k).xs[0], e_.xs[0]), eq(L.at(k).xs[1], e_.xs[1])))
    c.holds(tag + ': distances stay with their row numbers', w1, or_(and_(eq(B.at(P).xs[0], cand), eq(B.at(P).xs[1], app('fi', 'Z', x.t))), src(A, B.at(P))), cf(lt(P, KQ)), 'every kept entry is the candidate or was kept before')
    # answer
    out = [y for y in an.e.loops if y is not l and y is not x and kh in y.phs and y not in start and any(isinstance(v, ListV) and isinstance(v.e, TupV) and k2 != kh for k2, v in y.phs.items())]
    R = an.e.listify(s.res.val())
    wr = c.loc(s.f)
    if not out or not isinstance(R, ListV):
        return c.undecided(tag + ': answer', wr, 'loop over the answer not recognised')
    y = out[0]
    ka = [k2 for k2, v in y.phs.items() if isinstance(v, ListV) and isinstance(v.e, TupV) and k2 != kh][0]
    w2 = '%s:%s %s' % (rel(y.file), y.line, short(y.fn))
    B0, B, B1, Y, Y1 = s.at(y.entry, kh), s.at(y.store, kh), s.at(y.end.s, kh), s.at(y.store, ka), s.at(y.end.s, ka)
    d3 = dict(dom, **{y.t.a[0]: ('int', 0, 3)})
    cf = lambda *a: Cfg(d3, assume=[lt(y.t, KQ)] + list(a), modes=(0,), trials=c.trials(80, 320))
    fy = lambda v: vmapt(v, lambda t: rewrite_phi(t, {**({nm(B.n): ((), sub(KQ, y.t))} if nm(B.n) else {}), **rn(B.e.xs, 'h'), **rn(Y.e.xs, 'y')}))
    B, B1, Y, Y1 = fy(B), fy(B1), fy(Y), fy(Y1)
    c.eq(tag + ': one step per neighbour', w2, y.N, KQ, Cfg(d3, modes=(0,), trials=c.trials(40, 160)), 'k steps')
    c.eq(tag + ': the answer has k entries', wr, R.n, KQ, Cfg(d3, modes=(0,), trials=c.trials(40, 160)), 'k entries')
    pos = sub(sub(KQ, ONE), y.t)
    for t in (0, 1):
        c.eq(tag + ': answers are ascending (%s)' % ('distance', 'number')[t], w2, Y1.at(pos).xs[t], B.at(ZERO).xs[t], cf(), 'step t writes the farthest remaining neighbour at k - 1 - t')
        c.eq(tag + ': written answers stay (%s)' % ('distance', 'number')[t], w2, Y1.at(P).xs[t], Y.at(P).xs[t], cf(lt(pos, P), lt(P, KQ)), 'entries behind are unchanged')
        c.eq(tag + ': the written neighbour is consumed (%s)' % ('distance', 'number')[t], w2, B1.at(P).xs[t], B.at(add(P, ONE)).xs[t], cf(lt(P, pos)), 'the rest moves up')
        c.eq(tag + ': answers come from the search (%s)' % ('distance', 'number')[t], w2, unphi(B0.at(P).xs[t]), unphi(H.at(P).xs[t]), cf(lt(P, KQ)), 'the kept neighbours are answered')


def rn(xs, p):
    G = sym('G!', 'Z')
    return {nm(t): ((G,), app('%s.%d' % (p, i), srt(t), G)) for i, t in enumerate(xs) if nm(t) is not None}


def unphi(t):
    """a loop result up to the iteration it is taken from"""
    n = nm(t)
    return app('of.' + n.split('@')[0].strip('?'), srt(t)) if n is not None else t


def leafterms(l):
    return [z.raw for z in l.leaves if getattr(z, 'raw', None) is not None]


def has_(t, name):
    return any(x.op in ('app', 'tapp') and x.a[0] == name for x in walk(t))


def radius_query(c, an, metric):
    RAD = sym('radius', 'R', 'nn')
    s = Search(c, an, metric, 'query_radius_single_data', RAD)
    tag = 'radius (%s)' % metric
    if s.loop is None:
        return c.undecided(tag, c.loc(s.f) if s.f else KD, 'search loop not recognised')
    l, w = s.loop, s.where
    outs = [k for k, v in l.phs.items() if isinstance(v, ListV) and isinstance(v.e, TupV)]
    if len(outs) != 1:
        return c.undecided(tag, w, 'list of answers not recognised')
    ko = outs[0]
    mp, fix, pc, node, inner, cfg, dom = walk_(c, an, s, tag, lambda st: RAD, True if metric == 'euclidean' else None)
    A0, A, A1 = s.at(l.entry, ko), s.at(l.store, ko), s.at(l.end.s, ko)
    mp2 = dict(mp)
    if nm(A.n) is not None:
        mp2[nm(A.n)] = ((), sym('had', 'Z', 'nn'))
    mp2.update(rn(A.e.xs, 'a'))
    f2 = lambda v: vmapt(v, lambda t: rewrite_phi(t, mp2))
    A, A1 = f2(A), f2(A1)
    D, N = node.f['data'].f['v'], node.f['indices'].f['v']
    i, k = fresh('i'), fresh('k')
    dist = lambda r: norm_(metric, C_, lambda t: sub(D.at(r, t), s.q.at(ZERO, t)))
    P = sym('pick', 'Z')
    d2 = dict(dom, had=('int', 0, 3), radius=('choice', [0.5, 1, 1.5, 2, 3]))
    d2['fn:st.data'] = ('choice', [0, 1, 2, 3, 0.5])
    d2['ten:q'] = ('choice', [0, 1, 2])
    cf = lambda *a: Cfg(d2, assume=[pc] + list(a), modes=(0, 1), trials=c.trials(80, 320))
    c.eq(tag + ': the answer starts empty', w, A0.n, ZERO, cf(), 'no entry')
    c.eq(tag + ': an inner node answers nothing', w, ite(inner, A1.n, A.n), A.n, cf(), 'size unchanged')
    c.eq(tag + ': a leaf answers its rows within the radius', w, ite(inner, ZERO, sub(A1.n, A.n)), ite(inner, ZERO, sum_(D.r, i, b2t(le(dist(i), RAD)))), cf(), 'number of answers = rows with distance <= radius')
    g = lambda x, y: app('g2', 'R', x, y)
    c.eq(tag + ': answers carry their distance and row number', w, ite(inner, ZERO, sum_(sub(A1.n, A.n), k, g(A1.at(add(A.n, k)).xs[0], A1.at(add(A.n, k)).xs[1]))), ite(inner, ZERO, sum_(D.r, i, ite(le(dist(i), RAD), g(dist(i), N.at(i, ZERO)), ZERO))), cf(), 'sum of an arbitrary function of (distance, number)')
    for t in (0, 1):
        c.eq(tag + ': earlier answers stay (%s)' % ('distance', 'number')[t], w, A1.at(P).xs[t], A.at(P).xs[t], cf(lt(P, A.n)), 'unchanged')
    R = an.e.listify(s.res.val())
    if isinstance(R, ListV):
        for nm2, a, b in (('size', R.n, s.at(l.store, ko).n), ('distance', R.at(P).xs[0], s.at(l.store, ko).at(P).xs[0]), ('number', R.at(P).xs[1], s.at(l.store, ko).at(P).xs[1])):
            c.eq(tag + ': all answers are returned (%s)' % nm2, c.loc(s.f), unphi(a), unphi(b), cf(), 'the answers of the search are returned')
    else:
        c.undecided(tag + ': all answers are returned', c.loc(s.f), 'answer of kind ' + type(R).__name__)


def public(c, an):
    qrow = lambda v: toterm(v)

    def one(e, f, this, args, st, node):
        v = [e.read(a, st) if e._is_lv(a) else a for a in args]
        k = fresh('k')
        return ListV(e.num_(e.scalar(v[1])), k, TupV([app('nd', 'R', qrow(v[0]), k), app('ni', 'Z', qrow(v[0]), k)]))

    def rad(e, f, this, args, st, node):
        v = [e.read(a, st) if e._is_lv(a) else a for a in args]
        k = fresh('k')
        return ListV(imod(app('rn', 'Z', qrow(v[0]), e.scalar(v[1])), num(3)), k, TupV([app('rd', 'R', qrow(v[0]), k), app('ri', 'Z', qrow(v[0]), k)]))
    cl, o = tree(c, an, 'euclidean', {'query_single_data()': one, 'query_radius_single_data()': rad})
    Q = an.mat('Q', sym('m', 'Z', 'dim'), C_)
    m = Q.r
    rowt = lambda i: toterm(mat(ONE, C_, lambda a, j: Q.at(i, j)))
    cf = Cfg(dict(dims(), m=('int', 1, 4), k=('int', 1, 3), p=('int', 1, 3)), trials=c.trials(40, 160))
    f = method(an, cl['idx'], 'query', 2)
    res = an.call(o, 'query', [Q, KQ])
    w = c.loc(f)
    if res.dead or not isinstance(res.val(), TupV):
        c.undecided('query', w, 'answer not recognised')
    else:
        for t, nm2, fn_ in ((0, 'distances', 'nd'), (1, 'row numbers', 'ni')):
            c.eqmat('query: %s of every query row' % nm2, w, an.e.to_mat(res.val().xs[t]) if not isinstance(res.val().xs[t], MatV) else res.val().xs[t], m, KQ, lambda i, j, fn_=fn_: app(fn_, 'R' if fn_ == 'nd' else 'Z', rowt(i), j), cf, 'entry (i, t) = t-th neighbour of query row i')
    cl, o = tree(c, an, 'euclidean', {'query_single_data()': one, 'query_radius_single_data()': rad})
    Q = an.mat('Q', m, C_)
    RAD = sym('radius', 'R', 'nn')
    f = method(an, cl['idx'], 'query_radius', 2)
    w = c.loc(f)
    res = an.call(o, 'query_radius', [Q, RAD])
    v = an.e.listify(res.val()) if not res.dead else None
    if not isinstance(v, ListV):
        return c.undecided('query_radius', w, 'answer not recognised')
    P, i = sym('pick', 'Z'), sym('pi', 'Z')
    d = dict(cf.dom, pick=('int', 0, 3), pi=('int', 0, 2))
    c.eq('query_radius: one answer per query row', w, v.n, m, Cfg(d, trials=c.trials(40, 160)), 'as many answers as query rows')
    e = an.e.listify(v.at(P))
    c2 = Cfg(d, assume=[lt(P, m)], trials=c.trials(40, 160))
    c.eq('query_radius: answers of every query row (size)', w, e.n, imod(app('rn', 'Z', rowt(P), RAD), num(3)), c2, 'i-th answer belongs to query row i and the given radius')
    c3 = Cfg(d, assume=[lt(P, m), lt(i, e.n)], trials=c.trials(40, 160))
    c.eq('query_radius: answers of every query row (distance)', w, e.at(i).xs[0], app('rd', 'R', rowt(P), i), c3, 'i-th answer belongs to query row i')
    c.eq('query_radius: answers of every query row (number)', w, e.at(i).xs[1], app('ri', 'Z', rowt(P), i), c3, 'i-th answer belongs to query row i')


def run(c):
    c.prefetch('structs')
    an = c.an('structs')
    c.guarded('construction', build, c, an)
    for m in METRICS:
        c.guarded('pruning ' + m, pruning, c, an, m)
        c.guarded('leaf ' + m, leafs, c, an, m)
    c.guarded('nearest', knn, c, an)
    for m in METRICS:
        c.guarded('radius ' + m, radius_query, c, an, m)
    c.guarded('queries', public, c, an)
