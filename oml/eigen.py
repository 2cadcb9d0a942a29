"""Abstract semantics of the Eigen operations (index notation)."""
from .calls import *
from fractions import Fraction as Fr

LISTS = ('std::vector', 'std::deque', 'std::list', 'std::initializer_list', 'std::stack', 'std::priority_queue', 'std::queue')


def sum2(m):
    i, j = fresh('i'), fresh('j')
    return sum_(m.r, i, sum_(m.c, j, m.at(i, j)))


def red2(op, m):
    i, j = fresh('i'), fresh('j')
    if m.c is ONE:
        return bind(op, m.r, i, m.at(i, ZERO))
    if m.r is ONE:
        return bind(op, m.c, j, m.at(ZERO, j))
    return bind(op, m.r, i, bind(op, m.c, j, m.at(i, j)))


def any2(m):
    i, j = fresh('i'), fresh('j')
    b = m.at(i, j)
    b = b if srt(b) == 'B' else t2b(b)
    return any_(m.r, i, any_(m.c, j, b))


def prod2(m):
    i, j = fresh('i'), fresh('j')
    if m.c is ONE:
        return bind('prod', m.r, i, m.at(i, ZERO))
    if m.r is ONE:
        return bind('prod', m.c, j, m.at(ZERO, j))
    return bind('prod', m.r, i, bind('prod', m.c, j, m.at(i, j)))


def matmul(a, b):
    k = fresh('k')
    return MatV(a.r, b.c, sum_(a.c, k, mul(_n(a.at(I, k)), _n(b.at(k, J)))))


def _n(t):
    return b2t(t) if srt(t) == 'B' else t


def transpose(m):
    return MatV(m.c, m.r, m.at(J, I))


def mmap(m, f):
    return MatV(m.r, m.c, f(m.body))


def tmap(name, *ms, r, c):
    return MatV(r, c, el(tapp(name, 'R', *[toterm(m) for m in ms]), I, J))


def inv(m):
    return tmap('inv', m, r=m.r, c=m.c)


def tri_mask(m, mode):
    lower, unit, zero = bool(mode & 1), bool(mode & 4), bool(mode & 8)
    b = ite(lt(J, I), m.body, ZERO) if lower else ite(lt(I, J), m.body, ZERO)
    d = ONE if unit else (ZERO if zero else m.body)
    return MatV(m.r, m.c, ite(eq(I, J), d, b))


class EigenSem(Calls):
    def isarr(self, ti):
        t = self.p.ty(ti)
        return t['c'] == 'eig' and t.get('arr')

    def M(self, v, st):
        """value -> MatV or None"""
        if self._is_lv(v):
            v = self.read(v, st)
        if isinstance(v, MatV):
            return v
        if isinstance(v, TriV):
            m = self.M(v.m, st)
            return tri_mask(m, v.kind) if m is not None else None
        if isinstance(v, IteV):
            a, b = self.M(v.a, st), self.M(v.b, st)
            if a is not None and b is not None:
                return mergev(v.c, a, b)
        if isinstance(v, PermV):
            m = self.M(v.m, st)
            if m is not None:
                return MatV(m.r, m.r, b2t(eq(m.at(I, ZERO), J)))
        return None

    def shape_eq(self, st, node, what, *pairs):
        c = and_(*[eq(a, b) for a, b in pairs])
        self.event('shape', st, node, cond=c, what=what)

    def to_mat(self, v, t, st, src=None, node=None):
        m = self.M(v, st)
        if m is None:
            if isinstance(v, T):
                if t.get('r') == 1 and t.get('cc') == 1:
                    return MatV(ONE, ONE, v)
                return MatV(ONE, ONE, v)
            return v
        r, c = t.get('r', -1), t.get('cc', -1)
        sr, sc = (src.get('r', -1), src.get('cc', -1)) if src and src['c'] == 'eig' else (-1, -1)
        if src is not None:
            if (r == 1 and sc == 1 and c != 1) or (c == 1 and sr == 1 and r != 1):
                m = transpose(m)
        if c == 1 and m.c is not ONE:
            if m.r is ONE and src is None:
                return transpose(m)
            if node is not None:
                self.shape_eq(st, node, 'matrix assigned to a column vector', (m.c, ONE))
            m = MatV(m.r, ONE, m.at(I, ZERO))
        if r == 1 and m.r is not ONE:
            if node is not None:
                self.shape_eq(st, node, 'matrix assigned to a row vector', (m.r, ONE))
            m = MatV(ONE, m.c, m.at(ZERO, J))
        s = self.p.scal(t)
        if s != 'B' and srt(m.body) == 'B':
            m = mmap(m, b2t)
        return m

    # ------------------------------------------------------------ construction
    def eig_ctor(self, t, e, st, fr):
        if t['n'] == 'Map' or t['n'] == 'Ref':
            return self.eig_map(t, e, st, fr)
        a = e['a']
        a = [x for x in a if not x.get('defarg')]
        if not a:
            return self.default(e['t'], st, 'mat')
        t0 = self.p.ty(a[0]['t'])
        if len(a) == 1:
            v = self.ev(a[0], st, fr)
            if isinstance(v, (MatV, TriV, PermV)):
                return self.to_mat(v, t, st, t0, e)
            if isinstance(v, IteV) and self.M(v, st) is not None:
                return self.to_mat(v, t, st, t0, e)
            if isinstance(v, ListV):
                if isinstance(v.e, ListV) or isinstance(v.at(ZERO), ListV):
                    row = v.at(I)
                    return MatV(v.n, row.n, row.at(J))
                return MatV(v.n, ONE, v.at(I))
            if t0['c'] in ('int', 'enum'):
                n = self.scalar(v)
                und = el(ten('undef:mat@%d' % self.uid(), self.p.scal(t)), I, J)
                if t.get('cc') == 1:
                    return MatV(n, ONE, und)
                if t.get('r') == 1:
                    return MatV(ONE, n, und)
            return OpqV('?matrix', deps_of(v)[:4])
        if len(a) >= 2:
            t1 = self.p.ty(a[1]['t'])
            if t0['c'] in ('int', 'enum') and t1['c'] in ('int', 'enum'):
                r, c = self.scalar(self.ev(a[0], st, fr)), self.scalar(self.ev(a[1], st, fr))
                und = el(ten('undef:mat@%d' % self.uid(), self.p.scal(t)), I, J)
                return MatV(r, c, und)
        return OpqV('?matrixctor')

    def eig_map(self, t, e, st, fr):
        a = [x for x in e['a'] if not x.get('defarg') and self.p.rec(x['t']) != 'Eigen::Stride']
        if len(a) == 1:
            return self.evx(a[0], st, fr)
        p = self.ev(a[0], st, fr)
        dims = [self.num_(self.scalar(self.ev(x, st, fr))) for x in a[1:]]
        return self.mk_map(t, p, dims, st, e)

    def mk_map(self, t, p, dims, st, e):
        if not isinstance(p, IterV) or not isinstance(p.i, T):
            return OpqV('?map')
        base = self.read(p.lv, st)
        n = dims[0] if len(dims) == 1 else mul(dims[0], dims[1])
        self.event('bounds', st, e, cond=le(add(p.i, n), self.length(base)), what='Map beyond the end')
        if t.get('cc') == 1 or (len(dims) == 1 and t.get('r') != 1):
            r, c, lin = n if len(dims) == 1 else dims[0], ONE, I
        elif t.get('r') == 1:
            r, c, lin = ONE, n if len(dims) == 1 else dims[1], J
        else:
            r, c = dims[0], dims[1] if len(dims) > 1 else ONE
            lin = add(I, mul(J, r))
        k = add(p.i, lin)
        if isinstance(base, MatV):
            i, j = self.unlin(base, k)
            # whole matrix viewed with its own shape
            if p.i is ZERO and r is base.r and c is base.c:
                return LV(p.lv.root, p.lv.path) if isinstance(p.lv, LV) else base
            return MatV(r, c, base.at(i, j))
        if isinstance(base, AppV):
            base = self.flatten_app(base)
        if isinstance(base, (ListV, PhiL)):
            x = base.at(k)
            return MatV(r, c, self.scalar(x))
        return OpqV('?map')

    # ------------------------------------------------------------ operators
    def eig_op(self, op, q, args, e, st, fr):
        a = e['a']
        ts = [self.p.ty(x.get('t')) for x in a]
        if op in ('()', '[]') and len(args) >= 2:
            base = args[0]
            m = self.M(base, st)
            if m is None:
                return OpqV('?index')
            vals = ['all' if t.get('n') == 'all_t' or str(t.get('q', '')).endswith('all_t') else self.read(x, st) if self._is_lv(x) else x
                    for x, t in zip(args[1:], ts[1:])]
            if 'all' in vals or any(isinstance(v, (ListV, AppV, PhiL)) or isinstance(v, MatV) and not (v.r is ONE and v.c is ONE) for v in vals):
                return self.gather(m, vals, ts[0], st, e)
            idx = [self.num_(self.scalar(v)) for v in vals]
            if len(idx) == 2:
                i, j = idx
            elif ts[0].get('cc') == 1:
                i, j = idx[0], ZERO
            elif ts[0].get('r') == 1:
                i, j = ZERO, idx[0]
            else:
                i, j = self.unlin(m, idx[0])
            if len(idx) == 1 and not (ts[0].get('cc') == 1 or ts[0].get('r') == 1):
                c = and_(le(ZERO, idx[0]), lt(idx[0], mul(m.r, m.c)))
            else:
                c = and_(le(ZERO, i), lt(i, m.r), le(ZERO, j), lt(j, m.c))
            self.event('bounds', st, e, cond=c, what='matrix element')
            if self._is_lv(base):
                return self.step(base, 'el', i, j)
            return m.at(i, j)
        if op in ('=', '+=', '-=', '*=', '/='):
            return self.eig_assign(op, args, ts, e, st)
        if op == '<<' and ts[0]['c'] == 'eig':
            if 'ostream' in q or self.p.rec(a[0]['t']).endswith('ostream'):
                return OpqV('ostream')
            c = CommaV(args[0], [ZERO, ZERO, ZERO])
            return self.comma(c, args[1], ts[1], st, e)
        if op == ',':
            c = args[0]
            if self._is_lv(c):
                c = self.read(c, st)
            if isinstance(c, CommaV):
                return self.comma(c, args[1], ts[1], st, e)
            return OpqV('?comma')
        if op == '-' and len(args) == 1 or op == '!' and len(args) == 1:
            m = self.M(args[0], st)
            if m is None:
                return OpqV('?neg')
            return mmap(m, (lambda b: neg(_n(b))) if op == '-' else (lambda b: not_(t2b(b))))
        if len(args) == 2:
            return self.eig_bin(op, args[0], args[1], ts, e, st)
        return OpqV('?eigop' + op)

    def gather(self, m, vals, t, st, e):
        """m(rows, cols) with index lists"""
        def sel(v, dim):
            if isinstance(v, str):
                return dim, (lambda i: i)
            if isinstance(v, MatV):
                n, f = mul(v.r, v.c), (lambda i: v.at(i, ZERO) if v.c is ONE else v.at(ZERO, i) if v.r is ONE else None)
            elif isinstance(v, (ListV, AppV, PhiL)):
                v = flat_list(v) if isinstance(v, AppV) else v
                n, f = self.length(v), (lambda i: self.item_at(v, i, st))
            elif isinstance(v, OpqV):
                return None
            else:
                k = self.num_(self.scalar(v))
                n, f = ONE, (lambda i: k)
            g = fresh('g')
            x = f(g)
            if not isinstance(x, T):
                return None
            self.event('bounds', st, e, cond=all_(n, g, and_(le(ZERO, x), lt(x, dim))), what='indexed view')
            return n, f
        if len(vals) == 1:
            vals = [vals[0], ZERO] if t.get('cc') == 1 else [ZERO, vals[0]]
        a, b = sel(vals[0], m.r), sel(vals[1], m.c)
        if a is None or b is None:
            return OpqV('?gather')
        return mat(a[0], b[0], lambda i, j: m.at(a[1](i), b[1](j)))

    def comma(self, c, v, t, st, e):
        row, col, h = c.parts
        dst = self.M(c.lv, st)
        if self._is_lv(v):
            v = self.read(v, st)
        m = self.M(v, st)
        if m is None:
            m = MatV(ONE, ONE, self.num_(self.scalar(v)))
        if dst is None:
            return OpqV('?comma')
        if h is not ZERO and col is dst.c:
            row, col, h = add(row, h), ZERO, m.r
        if h is ZERO:
            h = m.r
        self.event('shape', st, e, cond=and_(le(add(row, m.r), dst.r), le(add(col, m.c), dst.c)), what='comma initialiser')
        self.write(self.step(c.lv, 'blk', row, col, m.r, m.c), m, st, e)
        return CommaV(c.lv, [row, add(col, m.c), h])

    def eig_assign(self, op, args, ts, e, st):
        dst, src = args[0], args[1]
        sv = self.read(src, st) if self._is_lv(src) else src
        cur = self.read(dst, st) if self._is_lv(dst) else dst
        if isinstance(cur, AxisV):
            return self.axis_assign(op, cur, sv, e, st)
        if isinstance(sv, AxisV):
            return OpqV('?axis')
        isscal = isinstance(sv, T)
        if op == '=':
            if isscal:
                if isinstance(cur, MatV):
                    self.write(dst, MatV(cur.r, cur.c, sv), st, e)
                return dst
            m = self.M(sv, st)
            if m is None:
                if isinstance(dst, LV):
                    if not dst.path or dst.path[-1][0] in ('f', 'i', 'key'):
                        self.write(dst, sv if isinstance(sv, V) else OpqV('?m'), st, e)
                    else:
                        self.write(dst, sv, st, e)
                return dst
            if isinstance(dst, LV) and (ts[0].get('n') in ('Matrix', 'Array', 'NoAlias') or not (dst.path and dst.path[-1][0] in ('blk', 'tr', 'diag'))) and not (dst.path and dst.path[-1][0] in ('blk', 'diag')):
                tt = ts[0] if ts[0].get('c') == 'eig' else {'r': -1, 'cc': -1}
                m = self.to_mat(m, tt, st, ts[1] if len(ts) > 1 else None, e)
                self.write(dst, m, st, e)
                return dst
            if isinstance(cur, MatV):
                m = self.to_mat(m, ts[0], st, ts[1], e)
                self.shape_eq(st, e, 'assignment to a block', (cur.r, m.r), (cur.c, m.c))
                m = MatV(cur.r, cur.c, m.body)
            self.write(dst, m, st, e)
            return dst
        if not isinstance(cur, MatV):
            self.write(dst, OpqV('?m'), st, e)
            return dst
        if op in ('*=', '/=') and (isscal or isinstance(sv, (UninitV,))):
            x = self.num_(self.scalar(sv))
            if op == '/=':
                self.event('div', st, e, den=x, isint=False)
            self.write(dst, mmap(cur, lambda b: mul(_n(b), x) if op == '*=' else div(_n(b), x)), st, e)
            return dst
        m = self.M(sv, st)
        if m is None:
            if isscal or isinstance(sv, (UninitV, OpqV)):
                x = self.num_(self.scalar(sv))
                m = MatV(cur.r, cur.c, x)
            else:
                self.write(dst, OpqV('?m'), st, e)
                return dst
        else:
            if op == '*=' and not ts[0].get('arr'):
                m2 = matmul(cur, m)
                self.shape_eq(st, e, 'matrix product', (cur.c, m.r))
                self.write(dst, m2, st, e)
                return dst
            m = self.to_mat(m, {'r': ts[0].get('r', -1), 'cc': ts[0].get('cc', -1), 'c': 'eig'}, st, ts[1]) if ts[0]['c'] == 'eig' and (ts[0].get('r') == 1) != (ts[1].get('r') == 1) and ts[1]['c'] == 'eig' else m
            self.shape_eq(st, e, 'operator' + op, (cur.r, m.r), (cur.c, m.c))
        f = {'+=': add, '-=': sub, '*=': mul, '/=': div}[op]
        self.write(dst, MatV(cur.r, cur.c, f(_n(cur.body), _n(m.body))), st, e)
        return dst

    def axis_assign(self, op, ax, sv, e, st):
        cur = self.M(ax.m, st)
        v = self.M(sv, st)
        if cur is None or v is None or not self._is_lv(ax.m):
            return OpqV('?axisassign')
        x = self.axis_bcast(ax, cur, v, e, st)
        if op == '=':
            nb = x
        else:
            nb = {'+=': add, '-=': sub, '*=': mul, '/=': div}[op](_n(cur.body), _n(x))
        self.write(ax.m, MatV(cur.r, cur.c, nb), st, e)
        return ax.m

    def axis_bcast(self, ax, m, v, e, st):
        if ax.row:
            self.shape_eq(st, e, 'row-wise broadcast', (v.c, m.c), (v.r, ONE))
            return v.at(ZERO, J)
        self.shape_eq(st, e, 'column-wise broadcast', (v.r, m.r), (v.c, ONE))
        return v.at(I, ZERO)

    def eig_bin(self, op, a, b, ts, e, st):
        av = self.read(a, st) if self._is_lv(a) else a
        bv = self.read(b, st) if self._is_lv(b) else b
        if isinstance(av, AxisV):
            m, v = self.M(av.m, st), self.M(bv, st)
            if m is None:
                return OpqV('?axisop')
            if v is None:
                x = self.num_(self.scalar(bv))
            else:
                x = _n(self.axis_bcast(av, m, v, e, st))
            f = {'+': add, '-': sub, '*': mul, '/': div}.get(op)
            return MatV(m.r, m.c, f(_n(m.body), x)) if f else OpqV('?axisop')
        # permutations
        if op == '*' and ts[0]['c'] == 'rec' and 'Perm' in ts[0].get('q', '') or isinstance(av, PermV):
            return self.perm_apply(av, self.M(bv, st), st, left=True)
        if op == '*' and ts[1]['c'] == 'rec' and 'Perm' in ts[1].get('q', '') or isinstance(bv, PermV):
            return self.perm_apply(bv, self.M(av, st), st, left=False)
        if ts[0]['c'] == 'rec' and 'HouseholderSequence' in ts[0].get('q', ''):
            pass
        am, bm = self.M(av, st), self.M(bv, st)
        arr = (ts[0]['c'] == 'eig' and ts[0].get('arr')) or (ts[1]['c'] == 'eig' and ts[1].get('arr'))
        if op in CMP or op in ('&&', '||'):
            if am is not None and bm is not None:
                self.shape_eq(st, e, 'operator' + op, (am.r, bm.r), (am.c, bm.c))
                if not arr and op in ('==', '!='):
                    r = not_(any2(MatV(am.r, am.c, not_(eq(am.body, bm.body)))))
                    return r if op == '==' else not_(r)
                x, y = am.body, bm.body
            elif am is not None:
                x, y = am.body, self.scalar(bv)
            elif bm is not None:
                x, y = self.scalar(av), bm.body
            else:
                return OpqV('?cmp')
            s = am or bm
            if op == '&&':
                return MatV(s.r, s.c, and_(t2b(x), t2b(y)))
            if op == '||':
                return MatV(s.r, s.c, or_(t2b(x), t2b(y)))
            if srt(x) != srt(y):
                x, y = _n(x), _n(y)
            return MatV(s.r, s.c, cmp_(op, x, y))
        f = {'+': add, '-': sub, '*': mul, '/': div}.get(op)
        if f is None:
            return OpqV('?eigop' + op)
        if am is not None and bm is not None:
            if op == '*' and not arr:
                self.shape_eq(st, e, 'matrix product', (am.c, bm.r))
                # contract over whichever dimension is explicit
                return matmul(am, bm)
            self.shape_eq(st, e, 'operator' + op, (am.r, bm.r), (am.c, bm.c))
            if op == '/':
                self.event('div', st, e, den=_n(bm.body), isint=False)
            return MatV(am.r, am.c, f(_n(am.body), _n(bm.body)))
        if am is not None:
            y = self.num_(self.scalar(bv))
            if op == '/':
                isint = self.p.scal(ts[0]) == 'Z' if ts[0]['c'] == 'eig' else False
                self.event('div', st, e, den=y, isint=isint)
                if isint:
                    return mmap(am, lambda x: fn('idiv', x, y))
            return mmap(am, lambda x: f(_n(x), y))
        if bm is not None:
            x = self.num_(self.scalar(av))
            if op == '/':
                self.event('div', st, e, den=_n(bm.body), isint=False)
            return mmap(bm, lambda y: f(x, _n(y)))
        return OpqV('?eigop' + op, deps_of(av)[:3] + deps_of(bv)[:3])

    def perm_apply(self, p, m, st, left):
        inverse = False
        if isinstance(p, PermV):
            inverse = True
            p = p.m
        ix = self.M(p, st)
        if ix is None or m is None:
            return OpqV('?perm')
        # (P x)(idx(i)) = x(i)   ;   (P^T x)(i) = x(idx(i))
        fwd = inverse if left else not inverse
        t = toterm(ix)

        def at(s):
            if fwd:
                return ix.at(s, ZERO)
            return self.perm_inv(ix, s)
        if left:
            return MatV(m.r, m.c, m.at(at(I), J))
        return MatV(m.r, m.c, m.at(I, at(J)))

    def perm_inv(self, ix, s):
        return app('perminv', 'Z', toterm(ix), s)

    # ------------------------------------------------------------ methods
    def eig_method(self, name, fnr, base, e, st, fr):
        m = self.read(base, st) if self._is_lv(base) else base
        if isinstance(m, IteV) and not isinstance(m, MatV):
            mm = self.M(m, st)
            if mm is not None:
                m = mm
        ot = self.p.ty(e['obj'].get('t'))
        lv = base if self._is_lv(base) else None
        args = [self.evx(a, st, fr) for a in e['a'] if not (a.get('defarg') and name not in ('lpNorm',))]
        A = [self.read(a, st) if self._is_lv(a) else a for a in args]
        if isinstance(m, AxisV):
            return self.axis_method(name, fnr, m, args, A, e, st)
        if isinstance(m, TriV):
            return self.tri_method(name, fnr, m, A, e, st)
        if isinstance(m, DecV):
            return self.dec_method(name, fnr, m, A, e, st)
        if isinstance(m, PermV):
            return OpqV('?perm')
        if not isinstance(m, MatV):
            if isinstance(m, T) and name in ('value', 'eval', 'operator-conv'):
                return m
            self.unknown('Eigen method %s on %s' % (name, type(m).__name__), e)
            t = self.p.ty(e['t'])
            if t['c'] in ('int', 'float', 'bool'):
                return app('?' + name, {'int': 'Z', 'float': 'R', 'bool': 'B'}[t['c']], *deps_of(m)[:4])
            return OpqV('?' + name, deps_of(m)[:4])
        S = lambda k: self.num_(self.scalar(A[k]))
        # shape queries
        if name in ('rows', 'outerSize'):
            return m.r
        if name == 'cols':
            return m.c
        if name == 'size':
            return mul(m.r, m.c)
        # views
        if name in ('array', 'matrix', 'noalias', 'derived', 'const_cast_derived'):
            return base
        if name in ('eval', 'template'):
            return m
        if name == 'value' or name == 'operator-conv':
            self.shape_eq(st, e, 'conversion to scalar', (m.r, ONE), (m.c, ONE))
            return m.at(ZERO, ZERO)

        def view(*s):
            return self.step(lv, *s) if lv is not None else self.rstep(m, s, st)

        def rng(o, n, full, what):
            self.event('bounds', st, e, cond=and_(le(ZERO, o), le(ZERO, n), le(add(o, n), full)), what=what)
        if name in ('transpose', 'adjoint'):
            return view('tr')
        if name == 'row':
            self.event('bounds', st, e, cond=and_(le(ZERO, S(0)), lt(S(0), m.r)), what='row')
            return view('blk', S(0), ZERO, ONE, m.c)
        if name == 'col':
            self.event('bounds', st, e, cond=and_(le(ZERO, S(0)), lt(S(0), m.c)), what='col')
            return view('blk', ZERO, S(0), m.r, ONE)
        ta = [x.get('I') for x in (fnr.get('ta') or []) if 'I' in x]
        if name == 'block' and len(A) == 4:
            rng(S(0), S(2), m.r, 'block rows')
            rng(S(1), S(3), m.c, 'block columns')
            return view('blk', S(0), S(1), S(2), S(3))
        if name in ('topRows', 'bottomRows', 'middleRows', 'leftCols', 'rightCols', 'middleCols', 'head', 'tail', 'segment'):
            if not A and not ta:
                return OpqV('?' + name)
            if A:
                n = S(len(A) - 1)
            else:
                n = num(ta[0])
            isrow = (name in ('head', 'tail', 'segment') and (ot.get('r') != 1 and m.r is not ONE or m.c is ONE)) or name.endswith('Rows')
            full = m.r if isrow else m.c
            if name in ('topRows', 'leftCols', 'head'):
                o = ZERO
            elif name in ('bottomRows', 'rightCols', 'tail'):
                o = sub(full, n)
            else:
                o = S(0)
            rng(o, n, full, name)
            return view('blk', o, ZERO, n, m.c) if isrow else view('blk', ZERO, o, m.r, n)
        if name in ('topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner') and len(A) == 2:
            r0 = ZERO if name.startswith('top') else sub(m.r, S(0))
            c0 = ZERO if 'Left' in name else sub(m.c, S(1))
            return view('blk', r0, c0, S(0), S(1))
        if name == 'diagonal':
            return view('diag')
        if name == 'rowwise':
            return AxisV(lv if lv is not None else m, True)
        if name == 'colwise':
            return AxisV(lv if lv is not None else m, False)
        if name in ('data', 'begin', 'cbegin'):
            return IterV(lv if lv is not None else self.root('tmp', st, m), ZERO, 'vec')
        if name in ('end', 'cend'):
            return IterV(lv if lv is not None else self.root('tmp', st, m), mul(m.r, m.c), 'vec')
        if name in ('coeff', 'coeffRef'):
            if len(A) == 2:
                return view('el', S(0), S(1))
            i, j = (S(0), ZERO) if m.c is ONE else ((ZERO, S(0)) if m.r is ONE else self.unlin(m, S(0)))
            return view('el', i, j)
        # reductions
        if name == 'sum':
            return sum2(mmap(m, _n))
        if name == 'mean':
            return div(sum2(mmap(m, _n)), mul(m.r, m.c))
        if name == 'prod':
            return prod2(m)
        if name == 'norm':
            return sqrt(sum2(mmap(m, lambda b: mul(b, b))))
        if name == 'squaredNorm':
            return sum2(mmap(m, lambda b: mul(b, b)))
        if name == 'trace':
            i = fresh('i')
            return sum_(m.r, i, m.at(i, i))
        if name == 'lpNorm':
            return self.lp(m, ta[-1] if ta else 2, sum2, lambda x: red2('rmax', x))
        if name in ('maxCoeff', 'minCoeff'):
            op = 'rmax' if name[:3] == 'max' else 'rmin'
            v = red2(op, m)
            aop = 'argmax' if op == 'rmax' else 'argmin'
            ptrs = [a for a in A if isinstance(a, (PtrV, IterV))]
            if ptrs:
                def lvof(p):
                    return self.deref(p, st, e)
                i, j = fresh('i'), fresh('j')
                if len(ptrs) == 1:
                    if m.c is ONE or ot.get('cc') == 1:
                        ix = bind(aop, m.r, i, m.at(i, ZERO))
                    else:
                        ix = bind(aop, m.c, j, m.at(ZERO, j))
                    self.write(lvof(ptrs[0]), ix, st, e)
                else:
                    ri = bind(aop, m.r, i, bind(op, m.c, j, m.at(i, j)))
                    cj = bind(aop, m.c, j, bind(op, m.r, i, m.at(i, j)))
                    self.write(lvof(ptrs[0]), ri, st, e)
                    self.write(lvof(ptrs[1]), cj, st, e)
            return v
        if name == 'dot':
            b = self.M(A[0], st)
            if b is not None:
                x = m if m.c is ONE else transpose(m)
                y = b if b.c is ONE else transpose(b)
                self.shape_eq(st, e, 'dot product', (x.r, y.r))
                k = fresh('k')
                return sum_(x.r, k, mul(x.at(k, ZERO), y.at(k, ZERO)))
        if name == 'any':
            return any2(m)
        if name == 'all':
            return not_(any2(mmap(m, lambda b: not_(t2b(b)))))
        if name == 'count':
            return sum2(mmap(m, lambda b: b2t(t2b(b))))
        # element-wise
        un = self.elementwise(name)
        if un is not None and not A:
            if name == 'inverse' and not ot.get('arr'):
                return inv(m)
            if name in ('exp', 'exp2'):
                self.event('exp', st, e, arg=m.body, r=m.r, c=m.c)
            if name in ('log', 'log2', 'log10'):
                self.event('log', st, e, arg=m.body, r=m.r, c=m.c)
            return mmap(m, lambda b: un(_n(b)))
        if name in ('pow',):
            x = S(0)
            return mmap(m, lambda b: self.power(_n(b), x))
        if name in ('min', 'max', 'cwiseMin', 'cwiseMax') and A:
            f = min_ if 'in' in name else max_
            b = self.M(A[0], st)
            if b is not None:
                self.shape_eq(st, e, name, (m.r, b.r), (m.c, b.c))
                return MatV(m.r, m.c, f(_n(m.body), _n(b.body)))
            x = S(0)
            return mmap(m, lambda y: f(_n(y), x))
        if name in ('cwiseProduct', 'cwiseQuotient'):
            b = self.M(A[0], st)
            if b is not None:
                self.shape_eq(st, e, name, (m.r, b.r), (m.c, b.c))
                return MatV(m.r, m.c, (mul if name.endswith('Product') else div)(_n(m.body), _n(b.body)))
        if name == 'real' and not A:
            return m          # eigenvalue/eigenvector atoms stand for their real part; other data is real
        if name == 'imag' and not A:
            return tmap('imag', m, r=m.r, c=m.c)
        if name == 'cast':
            t = self.p.ty(e['t'])
            s = self.p.scal(t)
            if s == 'Z':
                return mmap(m, lambda b: fn('trunc', _n(b)))
            if s == 'B':
                return mmap(m, t2b)
            return mmap(m, _n)
        if name == 'select':
            x = self.M(A[0], st)
            y = self.M(A[1], st)
            c = m.body if srt(m.body) == 'B' else t2b(m.body)
            return MatV(m.r, m.c, ite(c, _n(x.body) if x is not None else S(0), _n(y.body) if y is not None else S(1)))
        if name == 'unaryExpr' and A:
            return mmap(m, lambda b: self.scalar(self.applyv(A[0], [b], st, e)))
        if name == 'binaryExpr' and len(A) == 2:
            b = self.M(A[0], st)
            if b is not None:
                return MatV(m.r, m.c, self.scalar(self.applyv(A[1], [m.body, b.body], st, e)))
        if name == 'replicate' and len(A) == 2:
            return MatV(mul(m.r, S(0)), mul(m.c, S(1)), m.at(fn('imod', I, m.r), fn('imod', J, m.c)))
        if name == 'reverse':
            return MatV(m.r, m.c, m.at(ZERO if m.r is ONE else sub(sub(m.r, ONE), I), ZERO if m.c is ONE else sub(sub(m.c, ONE), J)))
        if name == 'asDiagonal':
            n = m.r if m.c is ONE else m.c
            v = m if m.c is ONE else transpose(m)
            return MatV(n, n, ite(eq(I, J), v.at(I, ZERO), ZERO))
        if name == 'normalized':
            n = sqrt(sum2(mmap(m, lambda b: mul(b, b))))
            return mmap(m, lambda b: div(b, n))
        if name == 'triangularView' or name == 'selfadjointView':
            return TriV(lv if lv is not None else m, ta[0] if ta else 1)
        if name == 'toDenseMatrix':
            return m
        if name == 'determinant':
            if ot['c'] == 'rec' and 'Perm' in ot.get('q', ''):
                return app('perm.det', 'R', toterm(m))
            return app('det', 'R', toterm(m))
        if name in ('llt', 'ldlt', 'lu', 'partialPivLu', 'fullPivLu', 'colPivHouseholderQr', 'householderQr', 'jacobiSvd', 'bdcSvd', 'completeOrthogonalDecomposition', 'fullPivHouseholderQr'):
            return DecV({'partialPivLu': 'pplu', 'lu': 'pplu', 'fullPivLu': 'fplu'}.get(name, name), m, tuple(A))
        if name in ('isZero', 'hasNaN', 'allFinite', 'isApprox'):
            return app('?' + name, 'B', toterm(m))
        # mutators
        if lv is not None:
            if name in ('setZero', 'setOnes', 'setConstant', 'fill', 'setIdentity', 'setRandom', 'setLinSpaced'):
                r, c = m.r, m.c
                dimargs = A
                if name in ('setConstant', 'fill'):
                    val = S(len(A) - 1)
                    dimargs = A[:-1]
                if len(dimargs) == 1 and name not in ('setLinSpaced',):
                    r, c = (S(0), ONE) if ot.get('cc') == 1 else ((ONE, S(0)) if ot.get('r') == 1 else (S(0), S(0)))
                elif len(dimargs) == 2:
                    r, c = S(0), S(1)
                if name == 'setRandom':
                    self.event('entropy', st, e, what='Eigen setRandom (std::rand)')
                    body = el(ten('rand@%d' % self.uid()), I, J)
                elif name == 'setIdentity':
                    if ot['c'] == 'rec' and 'Perm' in ot.get('q', ''):
                        self.write(lv, MatV(r, ONE, I), st, e)
                        return lv
                    body = b2t(eq(I, J))
                elif name == 'setLinSpaced':
                    return OpqV('?setLinSpaced')
                else:
                    body = {'setZero': ZERO, 'setOnes': ONE}.get(name)
                    if body is None:
                        body = val
                    if ot['c'] == 'eig' and self.p.scal(ot) == 'B':
                        body = t2b(body)
                self.write(lv, MatV(r, c, body), st, e)
                return lv
            if name in ('resize', 'conservativeResize'):
                if len(A) == 1:
                    if ot.get('r') == 1:
                        r, c = ONE, S(0)
                    else:
                        r, c = S(0), ONE
                elif len(A) == 2:
                    r = m.r if not isinstance(A[0], T) else S(0)
                    c = m.c if not isinstance(A[1], T) else S(1)
                else:
                    return OpqV('?resize')
                und = el(ten('undef:resize@%d' % self.uid(), srt(m.body) if srt(m.body) in 'ZB' else 'R'), I, J)
                if name == 'resize':
                    if r is m.r and c is m.c:
                        return lv
                    body = und
                    same = and_(eq(r, m.r), eq(c, m.c))
                    if same is not FALSE and not (m.r is ZERO and m.c is ZERO):
                        body = und
                else:
                    cs = []
                    if r is not m.r:
                        cs.append(lt(I, m.r))
                    if c is not m.c:
                        cs.append(lt(J, m.c))
                    body = ite(and_(*cs), m.body, und)
                self.write(lv, MatV(r, c, body), st, e)
                return lv
            if name == 'transposeInPlace':
                self.write(lv, transpose(m), st, e)
                return lv
            if name in ('swap',):
                if self._is_lv(args[0]):
                    self.write(lv, A[0], st, e)
                    self.write(args[0], m, st, e)
                    return None
            if name == 'normalize':
                n = sqrt(sum2(mmap(m, lambda b: mul(b, b))))
                self.write(lv, mmap(m, lambda b: div(b, n)), st, e)
                return None
        if name == 'indices':
            return base
        if name == 'isInvertible':
            return app('?inv', 'B', toterm(m))
        self.unknown('Eigen method ' + name, e)
        return self.unknown_value(e['t'], name, st)

    def lp(self, m, p, sumf, maxf):
        if p == -1:
            return maxf(mmap(m, abs_))
        if p == 1:
            return sumf(mmap(m, abs_))
        if p == 2:
            return sqrt(sumf(mmap(m, lambda b: mul(b, b))))
        s = sumf(mmap(m, lambda b: powr(abs_(b), p)))
        return powr(s, Fr(1, p))

    def elementwise(self, name):
        return {
            'exp': lambda x: fn('exp', x), 'log': lambda x: fn('log', x), 'log1p': lambda x: fn('log', add(ONE, x)),
            'abs': abs_, 'cwiseAbs': abs_, 'abs2': lambda x: mul(x, x), 'cwiseAbs2': lambda x: mul(x, x),
            'square': lambda x: mul(x, x), 'cube': lambda x: powr(x, 3), 'sqrt': sqrt, 'cwiseSqrt': sqrt, 'sign': sign_, 'cwiseSign': sign_,
            'inverse': lambda x: powr(x, -1), 'cwiseInverse': lambda x: powr(x, -1), 'floor': lambda x: fn('floor', x),
            'ceil': lambda x: fn('ceil', x), 'round': lambda x: fn('round', x), 'tanh': lambda x: fn('tanh', x),
            'log10': lambda x: div(fn('log', x), fn('log', num(10))), 'rsqrt': lambda x: powr(x, Fr(-1, 2)),
            'isNaN': lambda x: FALSE, 'isFinite': lambda x: TRUE, 'isInf': lambda x: isinf_(x),
        }.get(name)

    def power(self, b, x):
        if x.op == 'num' and abs(x.a[0]) <= 8:
            return powr(b, x.a[0])
        return mk('fn', 'pow', b, x)

    def axis_method(self, name, fnr, ax, args, A, e, st):
        m = self.M(ax.m, st)
        if m is None:
            return OpqV('?axis', deps_of(ax)[:3])
        row = ax.row
        n = m.c if row else m.r
        k = fresh('k')
        at = (lambda f=None: m.at(I, k)) if row else (lambda f=None: m.at(k, J))
        shp = (lambda b: MatV(m.r, ONE, b)) if row else (lambda b: MatV(ONE, m.c, b))
        x = at()
        if name == 'sum':
            return shp(sum_(n, k, _n(x)))
        if name == 'mean':
            return shp(div(sum_(n, k, _n(x)), n))
        if name == 'prod':
            return shp(bind('prod', n, k, x))
        if name in ('maxCoeff', 'minCoeff'):
            return shp(bind('rmax' if name[:3] == 'max' else 'rmin', n, k, x))
        if name == 'norm':
            return shp(sqrt(sum_(n, k, mul(x, x))))
        if name == 'squaredNorm':
            return shp(sum_(n, k, mul(x, x)))
        if name == 'lpNorm':
            p = [y.get('I') for y in (fnr.get('ta') or []) if 'I' in y]
            if not p:
                # the exponent is a class-level argument of the result type
                p = [2]
            p = p[-1]
            if p == -1:
                return shp(bind('rmax', n, k, abs_(x)))
            if p == 1:
                return shp(sum_(n, k, abs_(x)))
            if p == 2:
                return shp(sqrt(sum_(n, k, mul(x, x))))
            return shp(powr(sum_(n, k, powr(abs_(x), p)), Fr(1, p)))
        if name == 'any':
            return shp(any_(n, k, t2b(x)))
        if name == 'all':
            return shp(not_(any_(n, k, not_(t2b(x)))))
        if name == 'count':
            return shp(sum_(n, k, b2t(t2b(x))))
        if name == 'replicate' and A:
            f = self.num_(self.scalar(A[0]))
            if row:
                return MatV(m.r, mul(m.c, f), m.at(I, fn('imod', J, m.c) if m.c is not ONE else ZERO))
            return MatV(mul(m.r, f), m.c, m.at(fn('imod', I, m.r) if m.r is not ONE else ZERO, J))
        if name == 'normalized':
            s = sqrt(sum_(n, k, mul(x, x)))
            return MatV(m.r, m.c, div(m.body, s))
        if name == 'reverse':
            return MatV(m.r, m.c, m.at(I, sub(sub(m.c, ONE), J)) if row else m.at(sub(sub(m.r, ONE), I), J))
        if name in ('begin', 'cbegin'):
            return IterV(self.root('axis', st, ax), ZERO, 'axis')
        if name in ('end', 'cend'):
            return IterV(self.root('axis', st, ax), m.r if row else m.c, 'axis')
        self.unknown('axis method ' + name, e)
        return self.unknown_value(e['t'], name, st)

    def tri_method(self, name, fnr, tr, A, e, st):
        m = self.M(tr.m, st)
        if m is None:
            return OpqV('?tri')
        if name in ('toDenseMatrix', 'eval'):
            return tri_mask(m, tr.kind)
        if name == 'transpose':
            k = tr.kind
            k2 = (k & ~3) | ({1: 2, 2: 1}.get(k & 3, k & 3))
            return TriV(transpose(m), k2)
        if name == 'solve':
            b = self.M(A[0], st)
            if b is not None:
                d = tri_mask(m, tr.kind)
                self.shape_eq(st, e, 'triangular solve', (m.r, b.r))
                return matmul(tmap('trinv', d, r=m.r, c=m.r), b)
        return self.unknown_value(e['t'], name, st)

    def dec_method(self, name, fnr, d, A, e, st):
        m = self.M(d.m, st)
        if m is None:
            return self.unknown_value(e['t'], name, st)
        k = d.kind
        mn = min_(m.r, m.c)
        if name == 'info':
            return ite(app(k + '.ok', 'B', toterm(m)), ZERO, ONE)
        if name == 'compute' and A:
            return d
        if name == 'solve' and A:
            b = self.M(A[0], st)
            if b is not None:
                self.shape_eq(st, e, 'solve', (m.r, b.r))
                if k in ('llt', 'ldlt', 'pplu', 'fplu'):
                    return matmul(inv(m), b)
                if m.r is m.c:
                    return matmul(inv(m), b)
                return tmap('lsq', m, b, r=m.c, c=b.c)
        if name == 'inverse':
            return inv(m)
        if name == 'determinant':
            return app('det', 'R', toterm(m))
        if k == 'svd':
            full = d.extra[0] if d.extra else FALSE
            if name == 'matrixU':
                return tmap('svd.U', m, r=m.r, c=ite(full, m.r, mn))
            if name == 'matrixV':
                return tmap('svd.V', m, r=m.c, c=ite(full, m.c, mn))
            if name == 'singularValues':
                return tmap('svd.S', m, r=mn, c=ONE)
        if k == 'llt':
            if name == 'matrixL':
                return MatV(m.r, m.r, ite(le(J, I), el(tapp('llt.L', 'R', toterm(m)), I, J), ZERO))
            if name == 'matrixU':
                return MatV(m.r, m.r, ite(le(I, J), el(tapp('llt.L', 'R', toterm(m)), J, I), ZERO))
        if k in ('pplu', 'fplu'):
            if name == 'matrixLU':
                return tmap(k + '.LU', m, r=m.r, c=m.c)
            if name == 'permutationP':
                return tmap(k + '.P', m, r=m.r, c=m.r)
            if name == 'permutationQ':
                return tmap(k + '.Q', m, r=m.c, c=m.c)
        if k == 'hqr':
            if name == 'householderQ':
                return tmap('hqr.Q', m, r=m.r, c=m.r)
            if name == 'matrixQR':
                return tmap('hqr.QR', m, r=m.r, c=m.c)
        if k == 'eig':
            if name == 'eigenvalues':
                return tmap('eig.vals', m, r=m.r, c=ONE)
            if name == 'eigenvectors':
                return tmap('eig.vecs', m, r=m.r, c=m.r)
        self.unknown('decomposition ' + k + '.' + name, e)
        return self.unknown_value(e['t'], name, st)

    # ------------------------------------------------------------ static members of dense types
    def eig_static(self, name, fnr, args, e, st):
        t = self.p.ty(e['t'])
        A = [self.read(a, st) if self._is_lv(a) else a for a in args]

        def dims(k):
            xs = [self.num_(self.scalar(a)) for a in A[:k]]
            if len(xs) == 0:
                return num(max(t.get('r', 1), 1)), num(max(t.get('cc', 1), 1))
            if len(xs) == 1:
                return (ONE, xs[0]) if t.get('r') == 1 else (xs[0], ONE)
            return xs[0], xs[1]
        if name in ('Zero', 'Ones', 'Identity', 'Random'):
            r, c = dims(len(A))
            if name == 'Random':
                self.event('entropy', st, e, what='Eigen Random (std::rand)')
                return MatV(r, c, el(ten('rand@%d' % self.uid()), I, J))
            return MatV(r, c, {'Zero': ZERO, 'Ones': ONE, 'Identity': b2t(eq(I, J))}[name])
        if name == 'Constant':
            r, c = dims(len(A) - 1)
            return MatV(r, c, self.num_(self.scalar(A[-1])))
        if name == 'LinSpaced':
            xs = [self.num_(self.scalar(a)) for a in A[-3:]]
            if len(A) >= 3:
                n, lo, hi = xs
                isint = self.p.scal(t) == 'Z'
                ix = J if t.get('r') == 1 else I
                self.event('linspaced', st, e, n=n, lo=lo, hi=hi, isint=isint)
                if isint:
                    d = sub(hi, lo)
                    if sub(n, ONE) is d:
                        body = add(lo, ix)
                    else:
                        # Eigen's linspaced_op for integers (ascending range)
                        body = ite(and_(lt(ONE, n), lt(add(d, ONE), n)), add(lo, fn('idiv', ix, fn('idiv', add(n, d), add(d, ONE)))),
                                   add(lo, mul(ix, fn('idiv', d, ite(le(n, ONE), ONE, sub(n, ONE))))))
                else:
                    body = add(lo, mul(ix, div(sub(hi, lo), sub(n, ONE))))
                return MatV(n if ix is I else ONE, ONE if ix is I else n, body)
        if name == 'NullaryExpr':
            r, c = dims(len(A) - 1)
            f = A[-1]
            s2 = st
            try:
                nps = self.lam_arity(f)
            except AttributeError:
                nps = 0
            self.event('nullary', st, e)
            if nps == 0:
                v = self.scalar(self.applyv(f, [], st, e))
                # a draw per element
                ents = [x for x in walk(v) if x.op == 'sym' and str(x.a[0]).startswith(('rand', 'drawn'))]
                for x in ents:
                    v = subst(v, {x: el(ten(x.a[0] + '.m', x.a[1]), I, J)})
                for x in [x for x in walk(v) if x.op == 'app' and len(x.a) == 4 and str(x.a[0]).startswith(('rand@', 'drawn@'))]:
                    v = subst(v, {x: app(x.a[0], x.a[1], x.a[2], x.a[3], I, J)})
            elif nps == 1:
                v = self.scalar(self.applyv(f, [J if t.get('r') == 1 else I], st, e))
            else:
                v = self.scalar(self.applyv(f, [I, J], st, e))
            return MatV(r, c, v)
        if name == 'Map':
            return self.mk_map(t, A[0], [self.num_(self.scalar(a)) for a in A[1:]], st, e)
        self.unknown('Eigen static ' + name, e)
        return self.unknown_value(e['t'], name, st)

    def lam_arity(self, f):
        n = f.node
        if 'specs' in n:
            return len(n['specs'][0]['ps'])
        return len(n['ps'])

    def dec_ctor(self, q, e, st, fr):
        kind = {'JacobiSVD': 'svd', 'BDCSVD': 'svd', 'FullPivLU': 'fplu', 'PartialPivLU': 'pplu', 'LLT': 'llt', 'LDLT': 'ldlt',
                'HouseholderQR': 'hqr', 'ColPivHouseholderQR': 'cpqr', 'EigenSolver': 'eig', 'SelfAdjointEigenSolver': 'saeig'}.get(q.split('::')[-1])
        args = [self.ev(a, st, fr) for a in e['a'] if not a.get('defarg')]
        if kind is None or not args:
            return OpqV('?dec')
        m = self.M(args[0], st)
        extra = ()
        if kind == 'svd':
            o = self.num_(self.scalar(args[1])) if len(args) > 1 else ZERO
            # ComputeFullU 0x04 ComputeThinU 0x08 ComputeFullV 0x10 ComputeThinV 0x20
            full = ite(eq(o, num(0x14)), TRUE, FALSE)
            extra = (full, o)
        return DecV(kind, m if m is not None else args[0], extra)
