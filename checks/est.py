"""Estimators: construction, optimizer interception, canonical specifications."""
from fractions import Fraction
from .corefn import *

LM = 'openml::linear_model::'


def coef_shape(obj, rows):
    for v in obj.f.values():
        if isinstance(v, MatV) and v.c is not ONE and equal(v.r, rows, Cfg(dims(), trials=12)).kind == 'same':
            return v.c
    return ONE


def opt_hooks(rec):
    """replace optimizer runs by an arbitrary result: what they are given is recorded"""
    def optimize(e, f, this, args, st, node):
        if 'optimizer::' not in f['q']:
            return NotImplemented
        obj = e.read(this, st)
        X, y = (e.read(a, st) if e._is_lv(a) else a for a in args[:2])
        d = dict(obj=obj, cls=obj.cls, X=X, y=y, where='%s:%s %s' % (rel(e.stack[-1].f['file']), node.get('l'), short(e.stack[-1].f['q'])) if e.stack else '?',
                 pc=and_(*(list(e.ctx) + [st.pc])), node=node)
        d['coef'] = MatV(X.c, coef_shape(obj, X.c), el(ten('coef'), I, J))
        rec.append(d)
        return OpqV('void')

    def get_coef(e, f, this, args, st, node):
        if 'optimizer::' not in f['q'] or not rec:
            return NotImplemented
        return rec[-1]['coef']
    return {'optimize()': optimize, 'get_coef()': get_coef}


def klass(an, q):
    cs = an.cls(q)
    if not cs:
        raise KeyError('no class ' + q)
    return cs[0]


def method(an, ci, name, arity):
    for c in an.p.mro(ci):
        for m in an.p.classes[c].get('methods') or []:
            if m['n'] == name and m.get('id') is not None and len(an.p.fns[m['id']]['ps']) == arity:
                return an.p.fns[m['id']]
    raise KeyError('no method %s/%d' % (name, arity))


def augmented(X, icpt):
    """X with a ones column appended exactly when an intercept is fitted: (cols, element function)"""
    if not icpt:
        return X.c, lambda i, j: X.at(i, j)
    return add(X.c, ONE), lambda i, j: ite(lt(j, X.c), X.at(i, j), ONE)


def score(Xq, w, p, icpt, c=ZERO):
    k = fresh('k')
    return lambda i, c=c: add(sum_(p, k, mul(Xq.at(i, k), w.at(k, c))), w.at(p, c) if icpt else ZERO)


# constructors of the public interface, by position
S = lambda x: mk('str', x)
SYM = {'alpha': sym('alpha', 'R', 'pos'), 'lambda': sym('lambda', 'R', 'nn'), 'tol': sym('tol', 'R', 'pos')}
CONF = {
    'LinearRegression': [([TRUE], True, 'linear', {}), ([FALSE], False, 'linear', {}), ([], True, 'linear', {})],
    'RidgeRegression': [([SYM['lambda'], TRUE], True, 'linear', {'lambda': SYM['lambda']}), ([SYM['lambda'], FALSE], False, 'linear', {'lambda': SYM['lambda']}),
                        ([], True, 'linear', {'lambda': num(Fraction(1, 2))})],
    'LassoRegression': [([num(50), SYM['lambda'], num(1), TRUE, FALSE, TRUE], True, 'lasso', {}), ([num(50), SYM['lambda'], num(1), TRUE, FALSE, FALSE], False, 'lasso', {}), ([], True, 'lasso', {})],
    'Perceptron': [([SYM['alpha'], ZERO, SYM['tol'], num(4), num(50), num(5), S('None'), TRUE, TRUE, FALSE], True, 'linear', {}),
                   ([SYM['alpha'], ZERO, SYM['tol'], num(4), num(50), num(5), S('None'), FALSE, TRUE, FALSE], False, 'linear', {}), ([], True, 'linear', {})],
    'SoftmaxRegression': [([], True, 'linear', {}), ([SYM['alpha'], ZERO, SYM['tol'], num(4), num(50), num(5), S('sgd'), S('None'), TRUE, FALSE], True, 'linear', {})],
    'LogisticRegression': [([], True, 'linear', {})] + [
        ([SYM['alpha'], SYM['lambda'], SYM['tol'], num(4), num(50), num(5), S(s), S(pn), TRUE, FALSE], True, 'linear', {}) for s in ('sgd', 'sag') for pn in ('l2', 'None')] + [
        ([SYM['lambda'], num(1), num(50), S('scd'), S('l1'), TRUE, FALSE], True, 'linear', {}),
        ([SYM['tol'], num(Fraction(1, 10000)), SYM['tol'], num(Fraction(9, 10)), num(50), num(8), num(3), num(40), S('lbfgs'), S('None'), S('backtracking'), S('WOLFE'), TRUE, FALSE], True, 'linear', {})],
}


def conf_name(q, args):
    ss = [a.a[0] for a in args if isinstance(a, T) and a.op == 'str' and a.a[0] not in ('WOLFE', 'backtracking')]
    bs = [x for x in (('intercept' if args[-1] is TRUE else 'no intercept') if q in ('LinearRegression', 'RidgeRegression', 'LassoRegression') and args else
          ('intercept' if args[7] is TRUE else 'no intercept') if q == 'Perceptron' and args else None,) if x]
    return '%s(%s)' % (q, ', '.join(ss + bs) if args else 'defaults')


class Fitted:
    """an estimator after fit(X, y), with optimizer runs abstracted"""
    def __init__(self, c, an, q, args, y=None, hooks=None, ydom=None):
        self.rec = []
        h = opt_hooks(self.rec)
        h.update(hooks or {})
        an.new(h)
        self.an = an
        self.cl = klass(an, LM + q)
        self.o = an.obj(self.cl['idx'], args)
        self.X, self.y = an.mat('X', R_, C_), y or an.vec('y', R_)
        self.f = method(an, self.cl['idx'], 'fit', 2)
        self.r = an.call(self.o, 'fit', [self.X, self.y])
        self.where = c.loc(method(an, self.cl['idx'], 'fit_data', 2)) if self._has('fit_data', 2) else c.loc(self.f)

    def _has(self, n, k):
        try:
            method(self.an, self.cl['idx'], n, k)
            return True
        except KeyError:
            return False

    def query(self, name, args, c):
        f = method(self.an, self.cl['idx'], name, len(args))
        return self.an.call(self.o, name, args), c.loc(f)


def labels_of(y, n):
    """(count, k-th smallest, position of a value) of the distinct entries of a vector"""
    i = fresh('i')
    ks = mk('kset', rawbind('vec', n, i, mk('tup', TRUE, y.at(i, ZERO))))
    return mk('ksize', ks), (lambda k: mk('kth', ks, lift(k))), (lambda v: mk('kidx', ks, v))


def row_sums(c, name, where, P, cfg, nclass=None):
    """each row non-negative and summing to one"""
    if not isinstance(P, MatV):
        return c.undecided(name, where, 'not a matrix value')
    i, j, k = idx('i*', P.r), idx('j*', P.c), fresh('k')
    if nclass is not None:
        c.eq(name + ': one column per class', where, P.c, nclass, cfg, 'column count equals the number of classes')
    c.eq(name + ': every row sums to one', where, sum_(P.c, k, P.at(i, k)), ONE, cfg, 'row sum of the extracted element function is 1')
    c.holds(name + ': no entry is negative', where, le(ZERO, P.at(i, j)), cfg, 'extracted element function is >= 0')
