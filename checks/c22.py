"""C22: decision-tree splits partition the samples and prediction follows them.

build_tree is interpreted with an arbitrary answer of the split search (impurity BI, feature BF, threshold BV) and an
arbitrary node value; its recursive calls are recorded with path condition and arguments.  The split search is
interpreted with arbitrary candidate thresholds and an arbitrary impurity function.  Prediction is interpreted from an
arbitrary node: the transition relation of the descent is compared with the relation that built the children."""
from .est import *
Q = 'openml::decision_tree::'
BI, BF, BV = sym('BI', 'R'), sym('BF', 'Z', 'nn'), sym('BV', 'R')
MSS, MSL, MD, MID, DEP = (sym('min split', 'Z', 'nn'), sym('min leaf', 'Z', 'nn'), sym('max depth', 'Z', 'nn'), sym('min decrease', 'R', 'nn'), sym('depth', 'Z', 'nn'))
SDV, MSD = sym('node stdev', 'R', 'nn'), sym('min stdev', 'R', 'nn')
MAXI = num(2 ** 64 - 1)


def conf(**k):
    d = dict(dims(2))
    d.update({'BF': ('choice', [0, 0, 0, 1, 1, 1, 2 ** 64 - 1]), 'min split': ('int', 1, 5), 'min leaf': ('choice', [0, 0, 0, 1, 2]), 'max depth': ('choice', [1, 2, 2, 3]), 'depth': ('choice', [0, 1, 1, 2]),
              'BI': ('choice', [Fraction(1, 4), Fraction(1, 2), 1, 2]), 'min decrease': ('choice', [0, Fraction(1, 4), Fraction(1, 2)]),
              'node stdev': ('choice', [0, Fraction(1, 4), Fraction(1, 2)]), 'min stdev': ('choice', [0, Fraction(1, 4)]),
              'BV': ('choice', [0, 1, 2]), 'X': ('int', 0, 2), 'y': ('int', 0, 2), 'Q': ('int', 0, 2)})
    d.update(k)
    return d


def le_rows(X):
    return lambda b: le(X.at(b, BF), BV)


class Tree:
    def __init__(self, c, an, name):
        self.c, self.an, self.name = c, an, name
        self.cl = klass(an, Q + name)
        self.reg = name.endswith('Regressor')
        self.args = [S('squared_error' if self.reg else 'gini'), MSS, MSL, MD, MID] + ([MSD] if self.reg else [])

    def has(self, n, k):
        try:
            return method(self.an, self.cl['idx'], n, k)
        except KeyError:
            return None

    def fresh(self, hooks):
        an = self.an
        an.new(hooks)
        self.X, self.y = an.mat('X', R_, C_), an.vec('y', R_)
        self.o = an.obj(self.cl['idx'], self.args)


def node_type(an, cl):
    """class index of the node and its type"""
    for f in an.p.all_fields(cl['idx']):
        t = an.p.ty(f['t'])
        if t.get('q') in ('std::shared_ptr', 'std::unique_ptr'):
            ti = an.p.targ(t, 0)
            return f['n'], ti
    raise KeyError('no root pointer')


def growth(c, an, T_):
    """returns the roles of the node fields"""
    nm = T_.name
    PV, NC = sym('PV'), sym('NC', 'Z', 'dim')
    hk = {'best_split()': lambda *a: TupV([BI, BF, BV]),
          'compute_node_value()': lambda *a: TupV([PV, SDV] if T_.reg else [MatV(NC, ONE, el(ten('NV'), I, ZERO)), PV])}
    f = T_.has('build_tree', 4)
    cfg = Cfg(conf(), trials=c.trials(300, 1200), assume=[or_(eq(BF, MAXI), lt(BF, C_))])
    roles = {}

    def start():
        got = []

        def bt(e, g, this, args, st, node):
            got.append([e.read(a, st) if e._is_lv(a) else a for a in args])
            return OpqV('void')
        T_.fresh({'build_tree()': bt})
        an.call(T_.o, 'fit', [T_.X, T_.y])
        w = c.loc(method(an, T_.cl['idx'], 'fit', 2))
        if len(got) != 1:
            return c.undecided(nm + ': fit builds one tree', w, '%d builds' % len(got))
        a = got[0]
        c.eqmat(nm + ': the root holds all samples', w, a[0], R_, C_, lambda i, j: T_.X.at(i, j), cfg, 'fit passes X unchanged to the builder')
        c.eqmat(nm + ': the root holds all targets', w, a[1], R_, ONE, lambda i, j: T_.y.at(i, ZERO), cfg, 'fit passes y unchanged to the builder')
        c.eq(nm + ': the root has depth 0', w, a[3], ZERO, cfg, 'depth argument of the first call')
        rf, _ = node_type(an, T_.cl)
        root = an.e.read(T_.o, an.st).f[rf]
        c.ob(nm + ': fit installs a new root', w, 'same' if isinstance(root, PtrV) and root.lv is not None and isinstance(a[2], PtrV) and a[2].lv == root.lv else 'diff',
             'root pointer after fit is the node passed to the builder')
    c.guarded(nm + ': start of the build', start)

    def grow():
        T_.fresh(hk)
        _, ti = node_type(an, T_.cl)
        nd = PtrV(an.root(an.e.default(ti, an.st, 'nd'), 'nd'))
        an.call(T_.o, 'build_tree', [T_.X, T_.y, nd, DEP])
        w = c.loc(f)
        rec = [e for e in an.e.events if e.kind == 'recurse']
        if len(rec) != 2:
            return c.undecided(nm + ': two recursive calls', w, '%d recursive calls' % len(rec))
        X, y = T_.X, T_.y
        b = fresh('b')
        lo = le_rows(X)
        cnt = {True: sum_(R_, b, b2t(lo(b))), False: sum_(R_, b, b2t(not_(lo(b))))}
        spec = and_(le(MSS, R_), le(DEP, MD), not_(eq(BF, MAXI)), lt(MID, BI), le(MSL, cnt[True]), le(MSL, cnt[False]))
        if T_.reg:
            spec = and_(spec, lt(MSD, SDV))
        c2 = Cfg(cfg.dom, trials=cfg.trials, assume=[lt(BF, C_)])
        # the two children
        side = []
        for k, ev in enumerate(rec):
            c.eq('%s: recursion %d happens exactly when the limits allow a split' % (nm, k + 1), w, b2t(ev.pc), b2t(spec), cfg,
                 'path condition of the recursive call = sample count, depth, impurity decrease and leaf size limits')
            c.eq('%s: recursion %d is one level deeper' % (nm, k + 1), w, ev.data['args'][3], add(DEP, ONE), cfg, 'depth argument')
            gx, gy = ev.data['args'][:2]
            s = None
            for lf in (True, False):
                cond = (lambda i, lf=lf: bind('sel', R_, b, lo(b) if lf else not_(lo(b)), i))
                if isinstance(gx, MatV) and equal(gx.at(idx('i*', gx.r), ZERO), X.at(cond(idx('i*', gx.r)), ZERO), Cfg(c2.dom, trials=24, assume=c2.assume)).kind == 'same':
                    s = lf
            side.append(s)
        want = [True, False]
        if side == [False, True]:
            want = [False, True]
        for k, (ev, lf) in enumerate(zip(rec, want)):
            gx, gy = ev.data['args'][:2]
            pick = (lambda i, lf=lf: bind('sel', R_, b, lo(b) if lf else not_(lo(b)), i))
            tag = 'not above' if lf else 'above'
            ca = Cfg(c2.dom, trials=c2.trials, assume=c2.assume + [lt(ZERO, cnt[lf])])
            c.eqmat('%s: one child gets the samples %s the threshold' % (nm, tag), w, gx, cnt[lf], C_, lambda i, j: X.at(pick(i), j), ca,
                    'rows of the recursive call = rows i with X(i, feature) %s threshold, each once, in order' % ('<=' if lf else '>'))
            c.eqmat('%s: their targets go with the samples %s the threshold' % (nm, tag), w, gy, cnt[lf], ONE, lambda i, j: y.at(pick(i), ZERO), ca,
                    'targets of the recursive call = targets of the same rows')
        # the node
        N = an.e.read(nd.lv, an.st)
        ptrs = {}
        for fn, v in N.f.items():
            if isinstance(v, (PtrV, IteV)) and an.e.ptrlike(v):
                nn = an.e.boolv(v)
                c.eq('%s: node pointer %s is set exactly when the node splits' % (nm, fn), w, b2t(nn), b2t(spec), cfg, 'a node has two children or none')
                ptrs[fn] = v
            elif isinstance(v, T) or isinstance(v, (IteV, UninitV)):
                t = an.e.scalar(v)
                t = b2t(t) if srt(t) == 'B' else t
                one = Cfg(cfg.dom, trials=40, assume=[lt(BF, C_), rec[0].pc])
                for role, sp in (('feature', BF), ('threshold', BV), ('split', None)):
                    if sp is not None and equal(t, sp, one).kind == 'same':
                        roles[role] = fn
                for role, sp in (('leaf', b2t(not_(spec))), ('inner', b2t(spec))):
                    if equal(t, sp, cfg).kind == 'same':
                        roles[role] = fn
                if equal(t, PV, cfg).kind == 'same':
                    roles['value'] = fn
            elif isinstance(v, MatV) and equal(v.at(idx('i*', v.r), ZERO), el(ten('NV'), idx('i*', v.r), ZERO), cfg).kind == 'same':
                roles['counts'] = fn
        for role, what in (('feature', 'the split feature'), ('threshold', 'the split threshold')) + ((('value', 'the mean target'),) if T_.reg else (('counts', 'the class counts'),)):
            if role in roles:
                c.ob('%s: the node stores %s' % (nm, what), w, 'same', 'field %s equals the searched value whenever the node splits' % roles[role])
            else:
                c.undecided('%s: the node stores %s' % (nm, what), w, 'no field holds it')
        # which pointer leads where
        for k, (ev, lf) in enumerate(zip(rec, want)):
            p = ev.data['args'][2]
            hit = [fn for fn, v in ptrs.items() if isinstance(p, PtrV) and p.lv is not None and target(v, p)]
            if len(hit) == 1:
                roles['le' if lf else 'gt'] = hit[0]
            elif isinstance(p, PtrV):
                c.ob('%s: the child built for the samples %s the threshold is linked to the node' % (nm, 'not above' if lf else 'above'), w, 'diff' if len(ptrs) == 2 and len(hit) != 1 else 'unknown',
                     'the node passed to the recursive call is one of the two children', '%d links' % len(hit))
        if 'le' in roles and 'gt' in roles:
            c.ob(nm + ': the two recursions build the two children of the node', w, 'same' if roles['le'] != roles['gt'] else 'diff', 'pointer arguments = child fields')
    c.guarded(nm + ': growth', grow)
    return roles


def target(v, p):
    if isinstance(v, IteV):
        return target(v.a, p) or target(v.b, p)
    return isinstance(v, PtrV) and v.lv is not None and v.lv == p.lv


def descent(c, an, T_, roles):
    nm = T_.name
    if not {'feature', 'threshold', 'le', 'gt'} <= set(roles):
        return c.undecided(nm + ': prediction descends by the split comparison', '?', 'node fields not identified')
    hk = {'build_tree()': lambda *a: OpqV('void')}
    T_.fresh(hk)
    an.call(T_.o, 'fit', [T_.X, T_.y])
    rf, ti = node_type(an, T_.cl)
    ob = an.e.read(T_.o, an.st)
    f = dict(ob.f)
    f[rf] = PtrV(LV(('sym', 'rootnode', ti)))
    an.e.write(T_.o, ObjV(ob.cls, f), an.st, {'l': 0})
    an.e.loops.clear()
    qn = sym('q', 'Z', 'dim')
    Qm = an.mat('Q', qn, C_)
    top = 'predict' if T_.reg else 'predict_prob'
    fq = method(an, T_.cl['idx'], top, 1)
    out = an.call(T_.o, top, [Qm]).val()
    recs = [z for z in an.e.loops if any(isinstance(v, IteV) and an.e.pointee(v) == ti for v in z.phs.values())]
    if len(recs) != 1:
        return c.undecided(nm + ': prediction descends by the split comparison', c.loc(fq), '%d descent loops' % len(recs))
    z = recs[0]
    w = '%s:%s %s' % (rel(z.file), z.line, short(z.fn))
    path, ph = [(k, v) for k, v in z.phs.items() if isinstance(v, IteV) and an.e.pointee(v) == ti][0]
    base = [x for x in (ph.a, ph.b) if isinstance(x, PtrV) and x.lv is not None][0].lv.root[1]
    null = {k: sym(base + '.' + roles[k] + '.null', 'B') for k in ('le', 'gt')}
    inner = not_(null['le'])

    def inv(t):
        m = {null['gt']: null['le']}
        if 'leaf' in roles:
            m[sym(base + '.' + roles['leaf'], 'B')] = null['le']
        if 'inner' in roles:
            m[sym(base + '.' + roles['inner'], 'B')] = inner
        return subst(t, m)
    cfg = Cfg(conf(**{base + '.' + roles['feature']: ('int', 0, 1), base + '.' + roles['threshold']: ('int', 0, 2)}), trials=c.trials(40, 160))
    c.eq(nm + ': prediction stops exactly at the leaves', w, b2t(inv(z.cond)), b2t(inner), cfg, 'loop condition of the descent = the node has children', unknown_ok=True)
    nx = z.end.s.get(path)
    # where the descent goes: condition under which the pointer becomes the child of each side
    go = {k: reach(nx, base + '.' + roles[k]) for k in ('le', 'gt')}
    feat = [t for t in walk_terms(go['le'], go['gt']) if t.op == 'el' and t.a[0].a[0] == 'Q']
    ft, th = base + '.' + roles['feature'], base + '.' + roles['threshold']
    if not feat:
        return c.undecided(nm + ': prediction descends by the split comparison', w, 'the descent does not read the query')
    row = feat[0].a[1]
    fsym = sym(ft, 'Z')
    tsym = sym(th, 'R')
    for t in walk_terms(go['le'], go['gt']):
        if t.op == 'sym' and t.a[0] == ft:
            fsym = t
        if t.op == 'sym' and t.a[0] == th:
            tsym = t
    spec = le(el(ten('Q'), row, fsym), tsym)
    c3 = Cfg(cfg.dom, trials=cfg.trials, assume=[inner])
    for k, tag in (('le', 'not above'), ('gt', 'above')):
        c.eq('%s: queries %s the threshold reach the child built from samples %s it' % (nm, tag, tag), w,
             b2t(inv(go[k])), b2t(spec if k == 'le' else not_(spec)), c3, 'transition of the descent loop agrees with the comparison that built the children', unknown_ok=True)
    # answer at the leaf
    if not isinstance(out, MatV):
        return c.undecided(nm + ': the answer is the leaf value', c.loc(fq), 'not a matrix')
    i = idx('i*', qn)
    if T_.reg:
        if 'value' in roles:
            c.eq(nm + ': the prediction is the value stored in the leaf', c.loc(fq), out.at(i, ZERO), sym(base + '.' + roles['value'], 'R'), cfg, 'predicted entry = leaf value', unknown_ok=True)
    elif 'counts' in roles:
        k = fresh('k')
        cn = lambda j: el(ten(base + '.' + roles['counts']), j, ZERO)
        nc = [t for t in walk_terms(out.at(i, J)) if t.op == 'sym' and t.a[0] == base + '.' + roles['counts'] + '.r']
        n = nc[0] if nc else out.c
        j = idx('j*', n)
        cc = Cfg(dict(cfg.dom, **{n.a[0] if n.op == 'sym' else '-': ('int', 1, 4), base + '.' + roles['counts']: ('int', 1, 4)}), trials=cfg.trials)
        c.eq(nm + ': the probabilities are the class counts of the leaf over their sum', c.loc(fq), out.at(i, j), div(cn(j), sum_(n, k, cn(k))), cc, 'predicted entry = count / total count', unknown_ok=True)


def reach(v, name):
    if isinstance(v, IteV):
        return or_(and_(v.c, reach(v.a, name)), and_(not_(v.c), reach(v.b, name)))
    if isinstance(v, PtrV) and v.lv is not None and v.lv.root[0] == 'sym' and v.lv.root[1] == name and not v.lv.path:
        return TRUE
    return FALSE


def walk_terms(*ts):
    for t in ts:
        yield from walk(t)


def search(c, an, T_):
    """best_split: the candidate returned is a best one, over all features and thresholds with two non-empty sides"""
    nm = T_.name
    f = T_.has('best_split', 2)
    if f is None:
        return c.undecided(nm + ': split search', '?', 'no best_split')
    w = c.loc(f)

    def cft(e, g, this, args, st, node):
        x = e.read(args[0], st) if e._is_lv(args[0]) else args[0]
        x0 = x.at(ZERO, ZERO)
        col = x0.a[2] if x0.op == 'el' and x0.a[0].a[0] == 'X' else None
        if col is None:
            return NotImplemented
        k = fresh('r')
        if not x.at(k, ZERO) is el(ten('X'), k, col):
            return NotImplemented
        return MatV(app('NT', 'Z', col), ONE, app('TH', 'R', col, I))

    def imp(e, g, this, args, st, node):
        a = [e.read(x, st) if e._is_lv(x) else x for x in args]
        k = fresh('k')
        tot = lambda v: sum_(v.r, k, mul(v.at(k, ZERO), add(k, ONE)))
        return app('IMP', 'R', a[0].r, tot(a[0]), a[1].r, tot(a[1]), a[2].r, tot(a[2]))
    T_.fresh({'choose_feature_threshold()': cft, 'compute_impurity()': imp})
    r = an.call(T_.o, 'best_split', [T_.X, T_.y]).val()
    if not isinstance(r, TupV) or len(r.xs) != 3:
        return c.undecided(nm + ': split search', w, 'not a triple')
    gi, gf, gv = [an.e.scalar(x) for x in r.xs]
    X, y = T_.X, T_.y
    k, b = fresh('k'), fresh('b')

    def sc(fi, t):
        lo = lambda i: le(X.at(i, fi), app('TH', 'R', fi, t))
        cn = lambda cond: sum_(R_, b, b2t(cond(b)))
        hi = lambda i: not_(lo(i))
        tot = lambda cond: sum_(cn(cond), k, mul(y.at(bind('sel', R_, b, cond(b), k), ZERO), add(k, ONE)))
        return and_(lt(ZERO, cn(lo)), lt(ZERO, cn(hi))), app('IMP', 'R', R_, sum_(R_, k, mul(y.at(k, ZERO), add(k, ONE))), cn(lo), tot(lo), cn(hi), tot(hi))
    d = conf()
    d.update({'fn:NT': ('int', 0, 3), 'fn:TH': ('int', 0, 2), 'fn:IMP': ('choice', [-1, 0, Fraction(1, 4), Fraction(1, 2), 1])})
    d['n'] = ('int', 2, 4)
    d['p'] = ('int', 1, 3)
    cfg = Cfg(d, trials=c.trials(500, 2000))
    fi, t = fresh('f'), fresh('t')
    tiny = num(Fraction(1, 100))       # stands for the smallest positive double: scores of the interpretations are 0 or at least 1/4
    ok, val = sc(fi, t)
    found = any_(C_, fi, any_(app('NT', 'Z', fi), t, and_(ok, lt(tiny, val))))
    c.eq(nm + ': the search finds a split exactly when some candidate improves and has two non-empty sides', w, b2t(lt(gf, C_)), b2t(found), cfg, 'feature index returned is a column iff a candidate qualifies')
    hit = any_(C_, fi, any_(app('NT', 'Z', fi), t, and_(ok, eq(val, gi), eq(fi, gf), eq(app('TH', 'R', fi, t), gv))))
    c.holds(nm + ': score, feature and threshold returned belong to one candidate with two non-empty sides', w, or_(not_(found), hit), cfg, 'returned triple = (impurity, feature, threshold) of one candidate')
    better = any_(C_, fi, any_(app('NT', 'Z', fi), t, and_(ok, lt(gi, val))))
    c.holds(nm + ': no candidate scores higher than the split returned', w, or_(not_(found), not_(better)), cfg, 'every feature and every threshold is compared')


def candidates(c, an, T_):
    """thresholds between consecutive values of the feature: each separates, and every separable partition is offered"""
    nm = T_.name
    f = T_.has('choose_feature_threshold', 1)
    if f is None:
        return c.undecided(nm + ': candidate thresholds', '?', 'no choose_feature_threshold')
    w = c.loc(f)
    T_.fresh({})
    v = an.vec('v', R_)
    out = an.call(T_.o, 'choose_feature_threshold', [v]).val()
    if not isinstance(out, MatV):
        return c.undecided(nm + ': candidate thresholds', w, 'not a vector')
    cfg = Cfg({'n': ('int', 2, 6), 'v': ('int', 0, 6)}, trials=c.trials(60, 240))
    a, b, t = idx('a*', R_), idx('b*', R_), fresh('t')
    x, z = v.at(a, ZERO), v.at(b, ZERO)
    sep = any_(out.r, t, and_(le(x, out.at(t, ZERO)), lt(out.at(t, ZERO), z)))
    c.holds(nm + ': any two different feature values are separated by a candidate threshold', w, or_(not_(lt(x, z)), sep), cfg, 'x < z implies a candidate t with x <= t < z')
    u = idx('u*', out.r)
    s1, s2 = fresh('s'), fresh('s')
    mid = any_(R_, s1, any_(R_, s2, and_(le(v.at(s1, ZERO), v.at(s2, ZERO)), eq(scale(out.at(u, ZERO), 2), add(v.at(s1, ZERO), v.at(s2, ZERO))))))
    c.holds(nm + ': every candidate is the midpoint of two feature values', w, or_(le(out.r, ZERO), mid), Cfg(cfg.dom, trials=cfg.trials, assume=[lt(ZERO, out.r)]), 'candidate = (v_a + v_b) / 2')


def values(c, an, T_):
    nm = T_.name
    T_.fresh({'build_tree()': lambda *a: OpqV('void')})
    an.call(T_.o, 'fit', [T_.X, T_.y])
    f = T_.has('compute_node_value', 1)
    w = c.loc(f) if f else '?'
    m = sym('m', 'Z', 'dim')
    yn = an.vec('yn', m)
    out = an.call(T_.o, 'compute_node_value', [yn]).val()
    if not isinstance(out, TupV):
        return c.undecided(nm + ': node value', w, 'not a pair')
    b = fresh('b')
    cfg = Cfg({'n': ('int', 1, 5), 'm': ('int', 1, 5), 'y': ('int', 0, 2), 'yn': ('int', 0, 2)}, trials=c.trials(40, 160))
    if T_.reg:
        mean = div(sum_(m, b, yn.at(b, ZERO)), m)
        c.eq(nm + ': the node value is the mean target', w, an.e.scalar(out.xs[0]), mean, cfg, 'node value = mean of the targets of the node')
        d = fresh('d')
        var = div(sum_(m, d, mul(sub(yn.at(d, ZERO), mean), sub(yn.at(d, ZERO), mean))), m)
        c.eq(nm + ': the node deviation is the standard deviation of its targets', w, mul(an.e.scalar(out.xs[1]), an.e.scalar(out.xs[1])), var, cfg, 'square of the second value = variance of the targets')
    else:
        nl, kth, _ = labels_of(T_.y, R_)
        c.eqmat(nm + ': the node value counts its samples per class of the training labels', w, out.xs[0], nl, ONE,
                lambda i, j: sum_(m, b, b2t(eq(yn.at(b, ZERO), kth(i)))), cfg, 'entry k = number of targets equal to the k-th training label')


def run(c):
    an = c.an('tree')
    seen = set()
    for name in ('DecisionTreeClassifier', 'DecisionTreeRegressor'):
        T_ = Tree(c, an, name)
        roles = growth(c, an, T_)
        c.guarded(name + ': descent', descent, c, an, T_, roles)
        for g, fn, what in (('best_split', search, 'split search'), ('choose_feature_threshold', candidates, 'candidate thresholds')):
            h = T_.has(g, 2 if fn is search else 1)
            key = (h or {}).get('file'), (h or {}).get('line')
            if key not in seen:             # both trees inherit the search: one definition is interpreted once
                seen.add(key)
                c.guarded('%s: %s' % (name, what), fn, c, an, T_)
        c.guarded(name + ': node value', values, c, an, T_)
