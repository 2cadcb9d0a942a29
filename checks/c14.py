"""C14: option values outside the documented set are rejected.

Each dispatcher is analysed with its option held as an arbitrary string (or integer axis): the path condition under which
a result is delivered must be unsatisfiable together with "the option is none of the documented values", and satisfiable
for every documented value.  Heavy stages below the dispatch (optimizer runs, recursion, EM steps) are abstracted."""
from .models import *
from . import c29, c30, opt
OPTS = sym('opt', 'S')
AX = sym('axis', 'Z')
AXD = ('int', -3, 4)
ALLAX, TWO = (-1, 0, 1), (0, 1)
NOT = lambda o, doc: [not_(eq(o, d)) for d in doc]


def options(c, name, where, o, doc, go, dom=None, unknown_ok=False):
    """go(value) -> path condition under which a result is delivered (FALSE when never)"""
    pc = go(o)
    if pc is None:
        return c.undecided(name, where, 'not modelled')
    cfg = lambda *a: Cfg(dict(dict(dims(), axis=AXD), **(dom or {})), assume=list(a), modes=(0, 1, 2), trials=c.trials(36, 150))
    rule = 'no result is delivered when the option is outside its documented set'
    c.holds(name + ': unknown values are rejected', where, not_(pc), cfg(*NOT(o, doc)), rule, unknown_ok)
    for d in doc:
        p = go(d)
        nm = name + ': %s is accepted' % (d.a[0] if d.op == 'str' else d)
        if p is None:
            c.undecided(nm, where, 'not modelled')
        elif p is FALSE:
            c.ob(nm, where, 'diff', 'a documented value is not rejected', 'always throws')
        else:
            v = valid(not_(p), cfg(), True)
            c.ob(nm, where, 'same' if v.kind == 'diff' else 'unknown', 'a documented value is not rejected', None if v.kind == 'diff' else 'acceptance not reached')


def pcs(*outs):
    return FALSE if any(o.dead for o in outs) else and_(*[o.pc for o in outs])


def guard(f):
    def g(v):
        try:
            return f(v)
        except Dead:
            return FALSE
    return g


# ---- axes of the numeric helpers
def axes(c, an):
    one = lambda a: [X_(an), a]
    for q, doc, mk_ in (('common::repeat', TWO, lambda a: [X_(an), sym('reps', 'Z', 'dim'), a]), ('common::argmax', ALLAX, one), ('common::argmin', ALLAX, one),
                        ('common::argsort', TWO, lambda a: [X_(an), a, sym('rev', 'B')]), ('common::sort', TWO, lambda a: [X_(an), a, sym('rev', 'B')]),
                        ('common::norm', TWO, lambda a: [X_(an), a, num(2)]), ('math::softmax', ALLAX, one), ('math::logsumexp', ALLAX, one),
                        ('math::var', ALLAX, one), ('math::sum', ALLAX, one), ('math::mean', ALLAX, one), ('math::median', ALLAX, one), ('math::norm2', TWO, one),
                        ('math::cumsum', ALLAX, one), ('math::mode', TWO, one)):
        f = fun(an, q, len(mk_(AX)), 'mat')
        if f is None:
            c.undecided(q, '?', 'function not found')
            continue
        w = c.loc(f)
        go = guard(lambda a, q=q, mk_=mk_: pcs(runf(c, an, q, mk_(a), first='mat')[0]))
        c.guarded(q, options, c, q + ' axis', w, AX, [num(x) for x in doc], go, {'n': ('int', 2, 4), 'p': ('int', 2, 4)})
    f = fun(an, 'common::norm')                  # Eigen::Infinity is -1
    go = guard(lambda o: pcs(runf(c, an, 'common::norm', [X_(an), ONE, o])[0]))
    c.guarded('norm order', options, c, 'common::norm order', c.loc(f), sym('ord', 'Z'), [num(1), num(2), num(-1)], go, {'ord': ('choice', [-2, -1, 0, 1, 2, 3, 4])})
    f = fun(an, 'random::shuffle_data', arity=3)
    if f:
        go = guard(lambda a: pcs(runf(c, an, 'random::shuffle_data', [X_(an), an.mat('Z', R_, C_), a])[0]))
        c.guarded('shuffle axis', options, c, 'random::shuffle_data axis', c.loc(f), AX, [num(0), num(1)], go)


# ---- estimators
def linear(c, an):
    P = lambda q, args: guard(lambda v: pcs(Fitted(c, an, q, args(v)).r))
    a, l, t = SYM['alpha'], SYM['lambda'], SYM['tol']
    for nm, q, doc, args in (
            ('LogisticRegression penalty (sag)', 'LogisticRegression', ('l2', 'None'), lambda v: [a, l, t, num(4), num(50), num(5), S('sag'), v, TRUE, FALSE]),
            ('LogisticRegression penalty (scd)', 'LogisticRegression', ('l1',), lambda v: [l, num(1), num(50), S('scd'), v, TRUE, FALSE]),
            ('LogisticRegression solver (l2)', 'LogisticRegression', ('sgd', 'sag', 'lbfgs'), lambda v: [a, l, t, num(4), num(50), num(5), v, S('l2'), TRUE, FALSE]),
            ('LogisticRegression solver (None)', 'LogisticRegression', ('sgd', 'sag', 'lbfgs'), lambda v: [a, l, t, num(4), num(50), num(5), v, S('None'), TRUE, FALSE]),
            ('LogisticRegression solver (l1)', 'LogisticRegression', ('scd',), lambda v: [l, num(1), num(50), v, S('l1'), TRUE, FALSE]),
            ('SoftmaxRegression solver', 'SoftmaxRegression', ('sgd',), lambda v: [a, l, t, num(4), num(50), num(5), v, S('l2'), TRUE, FALSE]),
            ('SoftmaxRegression penalty', 'SoftmaxRegression', ('l2', 'None'), lambda v: [a, l, t, num(4), num(50), num(5), S('sgd'), v, TRUE, FALSE]),
            ('Perceptron penalty', 'Perceptron', ('l2', 'None'), lambda v: [a, l, t, num(4), num(50), num(5), v, TRUE, TRUE, FALSE])):
        w = c.loc(method(an, klass(an, LM + q)['idx'], 'fit_data', 2))
        c.guarded(nm, options, c, nm, w, OPTS, [S(x) for x in doc], P(q, args), {'lambda': ('real', 0.1, 2.0), 'y': ('choice', [0, 1])})


def decomposition(c, an):
    for q, doc, args in (('PCA', ('svd',), lambda v: [v, sym('k', 'Z', 'dim')]),):
        cl = klass(an, 'openml::decomposition::' + q)

        def go(v):
            an.new()
            o = an.obj(cl['idx'], args(v))
            return pcs(an.call(o, 'fit', [an.mat('X', R_, C_)]))
        c.guarded(q, options, c, q + ' solver', c.loc(method(an, cl['idx'], 'fit', 1)), OPTS, [S(x) for x in doc], guard(go), {'n': ('int', 3, 6), 'p': ('int', 3, 6), 'k': ('int', 1, 3)})
    cl = klass(an, 'openml::decomposition::TruncatedSVD')
    rs = lambda *a: TupV([an.mat('U', R_, sym('k', 'Z', 'dim')), an.vec('s', sym('k', 'Z', 'dim')), an.mat('Vt', sym('k', 'Z', 'dim'), C_)])
    k, ov, ni = sym('k', 'Z', 'dim'), sym('ov', 'Z', 'nn'), sym('ni', 'Z', 'nn')

    def fit(hooks, a):
        def go(v):
            an.new(hooks)
            o = an.obj(cl['idx'], a(v))
            return pcs(an.call(o, 'fit', [an.mat('X', R_, C_)]))
        return guard(go)
    w = c.loc(method(an, cl['idx'], 'fit', 1))
    c.guarded('TruncatedSVD', options, c, 'TruncatedSVD solver', w, OPTS, [S('randomized')], fit({'randomized_svd()': rs}, lambda v: [k, ni, ov, v, S('LU')]))
    f = fun(an, 'math::randomized_svd')
    if f is None:
        return c.undecided('randomized_svd', '?', 'not found')
    stub = {'lu()': lambda e, f, this, args, st, node: TupV([MatV(C_, k, el(ten('lu'), I, J))] * 3), 'svd_flip()': lambda e, f, this, args, st, node: TupV([an.mat('U', R_, k), an.mat('Vt', k, C_)]),
            'qr()': lambda e, f, this, args, st, node: TupV([MatV(R_, k, el(ten('q'), I, J)), MatV(k, k, el(ten('r'), I, J))]),
            'exact_svd()': lambda e, f, this, args, st, node: TupV([an.mat('U', k, k), an.vec('s', k), an.mat('Vt', C_, k)])}
    for it in (sym('iters', 'Z', 'nn'), ZERO, num(1)):
        def go(v):
            an.new(stub)
            return pcs(an.run(f, [an.mat('X', R_, C_), k, ZERO, it, v, TRUE]))
        c.guarded('randomized_svd', options, c, 'randomized_svd normalizer (%s power iterations)' % ('any number of' if it.op == 'sym' else it), c.loc(f), OPTS, [S('None'), S('LU'), S('QR')], guard(go),
                  {'n': ('int', 4, 6), 'p': ('int', 4, 6), 'k': ('int', 1, 3)})


def arg_names(an, cl):
    f = max((f for f in an.p.fns if f.get('ctor') and f['cls'] == cl['idx']), key=lambda f: len(f['ps']))
    return [x['n'] for x in f['ps']]


def trees(c, an):
    I_ = ten('pick', 'Z')
    for q, doc, extra in (('DecisionTreeClassifier', ('gini', 'entropy'), []), ('DecisionTreeRegressor', ('squared_error', 'absolute_error'), [sym('sd', 'R', 'pos')])):
        cl = klass(an, 'openml::decision_tree::' + q)

        def go(v):
            depth = [0]

            def bt(e, f, this, args, st, node):
                depth[0] += 1
                return OpqV('void')
            an.new({'build_tree()': bt})
            o = an.obj(cl['idx'], [v, num(2), ZERO, num(4), sym('mi', 'R', 'pos')] + extra)
            a = an.call(o, 'fit', [an.mat('X', R_, C_), an.vec('y', R_)])
            return pcs(a)

        def imp(v):
            an.new()
            o = an.obj(cl['idx'], [v, num(2), ZERO, num(4), sym('mi', 'R', 'pos')] + extra)
            return pcs(an.call(o, 'compute_impurity', [an.vec('y', R_), an.vec('yl', sym('nl', 'Z', 'dim')), an.vec('yr', sym('nr', 'Z', 'dim'))]))
        dom = {'y': ('choice', [0, 1]), 'yl': ('choice', [0, 1]), 'yr': ('choice', [0, 1])}
        c.guarded(q, options, c, q + ' criterion', c.loc(method(an, cl['idx'], 'fit', 2)), OPTS, [S(x) for x in doc], guard(go), dom)
        c.guarded(q, options, c, q + ' impurity criterion', c.loc(method(an, cl['idx'], 'compute_impurity', 3)), OPTS, [S(x) for x in doc], guard(imp), dom)


def mixture(c, an):
    cl = klass(an, 'openml::mixture_model::GaussianMixture')
    X = lambda: an.mat('X', R_, C_)
    w = c.loc(method(an, cl['idx'], 'initialize_parameters', 1))

    def go(i):
        def g(v):
            an.new()
            a = c29.ctor('full')
            ps = arg_names(an, cl)
            a[ps.index('init_params' if i == 0 else 'covariance_type')] = v
            o = an.obj(cl['idx'], a)
            return pcs(an.call(o, 'initialize_parameters', [X()]))
        return guard(g)
    c.guarded('GaussianMixture', options, c, 'GaussianMixture init', w, OPTS, [S('random')], go(0), c29.DOM, True)
    c.guarded('GaussianMixture', options, c, 'GaussianMixture covariance', w, OPTS, [S('full'), S('tied')], go(1), c29.DOM, True)


def cluster(c, an):
    cl = klass(an, 'openml::cluster::KMeans')

    def go(v):
        an.new({'kmeans_lloyd()': lambda *a: None})
        ct = max((f for f in an.p.fns if f.get('ctor') and f['cls'] == cl['idx']), key=lambda f: len(f['ps']))
        a = []
        for x in ct['ps']:
            t = kind(an, x['t'])
            a.append(v if x['n'] == 'init' else {'int': num(2), 'bool': FALSE}.get(t['c']) or sym(x['n'], 'R', 'pos'))
        o = an.obj(cl['idx'], a)
        return pcs(an.call(o, 'fit', [an.mat('X', R_, C_)]))
    c.guarded('KMeans', options, c, 'KMeans init', c.loc(method(an, cl['idx'], 'fit', 1)), OPTS, [S('random'), S('kmeans++')], guard(go), {'n': ('int', 3, 5), 'p': ('int', 1, 3)}, True)


def lbfgs(c, an):
    w = c.loc(method(an, next(k for k in an.p.classes if k['q'] == opt.OP + 'LBFGS')['idx'], 'optimize', 2))

    def pol(v):
        return opt_pc(opt.Newton(c, an, v))
    def opt_pc(n):
        return FALSE if n.r.dead else n.r.pc
    # Newton builds strings itself: give it terms
    c.guarded('LBFGS policy', options, c, 'LBFGS line search policy', w, OPTS, [S('backtracking'), S('bracketing')], guard(pol), {'max_iter': ('int', 1, 2)}, True)
    ls = next(k for k in an.p.classes if k['q'] == opt.OP + 'LineSearchParams')
    for q in ('LineSearchBacktracking', 'LineSearchBracketing'):
        cl = next(k for k in an.p.classes if k['q'] == opt.OP + q)

        def cond(v):
            an.new()
            prm = an.obj(ls['idx'], [sym('ftol', 'R', 'pos'), sym('wolfe', 'R', 'pos'), sym('max_ls', 'Z', 'dim'), v])
            an.obj(cl['idx'], [an.mat('X', R_, C_), an.vec('y', R_), OpqV('Loss'), prm])
            return an.st.pc
        c.guarded(q, options, c, q + ' condition', c.loc(next(f for f in an.p.fns if f.get('ctor') and f['cls'] == cl['idx'] and len(f['ps']) == 4)), OPTS, [S(x) for x in ('ARMIJO', 'WOLFE', 'STRONG_WOLFE')], guard(cond))


def kdtree(c, an):
    cl = next(k for k in an.p.classes if k['q'] == 'openml::tree::KDTree')

    def go(v):
        an.new({'build_tree()': lambda e, f, this, args, st, node: OpqV('void')})
        an.obj(cl['idx'], [an.mat('X', R_, C_), num(10), v])
        return an.st.pc
    ct = next(f for f in an.p.fns if f.get('ctor') and f['cls'] == cl['idx'] and len(f['ps']) == 3)
    c.guarded('KDTree', options, c, 'KDTree metric', c.loc(ct), OPTS, [S(x) for x in ('manhattan', 'euclidean', 'chebyshev')], guard(go))


def run(c):
    c.prefetch('core', 'linear', 'decomp', 'tree', 'gmm', 'kmeans', 'opt', 'structs')
    for f, tu in ((axes, 'core'), (linear, 'linear'), (decomposition, 'decomp'), (trees, 'tree'), (mixture, 'gmm'), (cluster, 'kmeans'), (lbfgs, 'opt'), (kdtree, 'structs')):
        c.guarded(f.__name__, f, c, c.an(tu))
