"""Optimizers over arbitrary losses, update policies and schedules (uninterpreted pure functions)."""
from .est import *

OP = 'openml::optimizer::'
MAXIT, BATCH, PAT, TOL = sym('max_iter', 'Z', 'nn'), sym('batch', 'Z', 'dim'), sym('patience', 'Z', 'dim'), sym('tol', 'R', 'nn')
SHUF, MULTI = sym('shuffle', 'B'), sym('multi', 'B')
ALPHA, L1R = sym('alpha', 'R', 'nn'), sym('l1', 'R', 'pos')
NB = fn('idiv', R_, BATCH)
PART = ('Loss.', 'Update.', 'Decay.')


class Run:
    """optimize(X, y) of one optimizer on an arbitrary problem"""
    def __init__(self, c, an, cls, shuffle=SHUF, max_iter=MAXIT, patience=PAT, verbose=FALSE, hooks=None, extra=None):
        an.new(hooks)
        self.an, self.c = an, c
        self.cl = next(k for k in an.p.classes if k['q'] == OP + cls)
        self.K = sym('K', 'Z', 'dim') if cls == 'SGD' else ONE
        self.x0 = an.mat('x0', C_, self.K) if cls == 'SGD' else an.vec('x0', C_)
        L = [OpqV(n) for n in ('Loss', 'Update', 'Decay')]
        if cls == 'SGD':
            a = [self.x0] + L + [max_iter, BATCH, patience, TOL, shuffle, verbose, MULTI]
        elif cls == 'SAG':
            a = [self.x0] + L + [max_iter, BATCH, patience, TOL, shuffle, verbose]
        elif cls == 'TruncatedGradient':
            a = [self.x0] + L + [max_iter, BATCH, patience, TOL, ALPHA, L1R, shuffle, verbose]
        elif cls == 'SCD':
            a = [self.x0, L[0], max_iter, L1R, ALPHA, shuffle, verbose]
        self.o = an.obj(self.cl['idx'], a)
        self.X, self.y = an.mat('X', R_, C_), an.vec('y', R_)
        self.f = method(an, self.cl['idx'], 'optimize', 2)
        self.where = c.loc(self.f)
        self.r = an.run(self.f, [self.X, self.y], self.o)
        self.e = an.e
        self.cfg = Cfg(dims(), assume=[le(ONE, NB)], modes=(0,), trials=c.trials(24, 96))

    def leaves(self):
        for l in self.e.loops:
            for z in l.leaves:
                if hasattr(z, 'nxt'):
                    yield l, z

    def iterate(self):
        """(loop, leaf, update term) of the loop-carried weights"""
        hit = None
        for l, z in self.leaves():
            us = [u for u in walk(z.raw) if u.op == 'tapp' and str(u.a[0]) == 'Update.update']
            for u in us:
                if any(leafname(y) == z.name for y in walk(u.a[2])):
                    return l, z, u
                hit = hit or (l, z, u)
        return hit

    def outer(self, l):
        ids = getattr(l, 'outer', ())
        return [k for k in self.e.loops if k.id in ids]

    def published(self):
        return self.an.call(self.o, 'get_coef', []).val()


def leafname(y):
    if y.op == 'el' and y.a[0].op in ('ten', 'tapp'):
        return y.a[0].a[0]
    if y.op in ('ten', 'sym', 'app', 'tapp'):
        return y.a[0]
    return None


def tapps(t, name):
    out = []
    for y in walk(t):
        if y.op in ('tapp', 'app') and str(y.a[0]) == name and y not in out:
            out.append(y)
    return out


def at_path(st, path):
    v = st[path[0]]
    for _, k in path[1:]:
        v = v.f[k] if isinstance(v, ObjV) else v.xs[k]
    return v


class Newton:
    """LBFGS over an arbitrary loss with an arbitrary line search (any outcome, any point)"""
    def __init__(self, c, an, policy, max_iter=MAXIT, mem=sym('mem', 'Z', 'dim'), past=sym('past', 'Z', 'nn'), cond='WOLFE'):
        self.calls = []
        self.an, self.c = an, c

        def search(e, f, this, args, st, node):
            if 'LineSearch' not in f['q']:
                return NotImplemented
            vs = [e.read(a, st) if e._is_lv(a) else a for a in args]
            key = tuple(toterm(v) if isinstance(v, MatV) else v for v in vs[:5])
            d = dict(args=args, vals=vs, key=key, cls=f['q'], st=dict(st.s), obj=e.read(this, st))
            x, g = vs[0], vs[2]
            d['x'] = MatV(x.r, x.c, el(tapp('LS.x', 'R', *key), I, J))
            d['g'] = MatV(g.r, g.c, el(tapp('LS.g', 'R', *key), I, J))
            d['fx'], d['step'], d['ret'] = app('LS.fx', 'R', *key), app('LS.step', 'R', *key), sub(app('LS.ret', 'Z', *key), num(2))
            for a, v in ((args[0], d['x']), (args[1], d['fx']), (args[2], d['g']), (args[4], d['step'])):
                e.write(a, v, st)
            self.calls.append(d)
            return d['ret']
        an.new({'search()': search})
        self.e = an.e
        self.cl = next(k for k in an.p.classes if k['q'] == OP + 'LBFGS')
        ls = next(k for k in an.p.classes if k['q'] == OP + 'LineSearchParams')
        self.x0 = an.vec('x0', C_)
        prm = an.obj(ls['idx'], [sym('ftol', 'R', 'pos'), sym('wolfe', 'R', 'pos'), sym('max_ls', 'Z', 'dim'), (cond if isinstance(cond, T) else mk('str', cond))])
        self.mem, self.past = mem, past
        self.delta = sym('delta', 'R', 'nn')
        self.o = an.obj(self.cl['idx'], [self.x0, OpqV('Loss'), prm, max_iter, mem, past, TOL, self.delta, (policy if isinstance(policy, T) else mk('str', policy)), FALSE, FALSE])
        self.X, self.y = an.mat('X', R_, C_), an.vec('y', R_)
        self.f = method(an, self.cl['idx'], 'optimize', 2)
        self.where = c.loc(self.f)
        self.r = an.run(self.f, [self.X, self.y], self.o)
        self.loop = next((l for l in reversed(self.e.loops) if l.brk or l.ret or l.exits), None)
        self.call = self.calls[-1] if self.calls else None

    def published(self):
        return self.an.call(self.o, 'get_coef', []).val()

    def ends(self):
        """raw ends of one iteration of the search loop: (kind, path condition, store)"""
        l = self.loop
        out = [('exit', pc, ss) for pc, ss in l.brk] + [('exit', pc, ss) for pc, _, ss in l.ret]
        if l.end is not None:
            out.append(('iteration end', l.end.pc, l.end.s))
        return out

    def point(self, ss):
        """(point at the end of the iteration, point it has to be)"""
        a = self.call['args'][0]
        got = self.e.read(a, St(ss, TRUE))
        before = self.call['vals'][0]
        failed = lt(self.call['ret'], ZERO)
        x = self.call['x']
        return got, MatV(x.r, x.c, ite(failed, before.body, x.body))


def elt(t, i, j):
    return mat_at(t, i, j) if t.op in ('mat', 'mt') else el(t, i, j)
