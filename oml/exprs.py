"""Expression evaluation."""
from .interp import *
from .interp import sub_
from fractions import Fraction as Fr

CMP = {'<', '>', '<=', '>=', '==', '!='}


def cmp_(op, a, b):
    if op == '<':
        return lt(a, b)
    if op == '>':
        return lt(b, a)
    if op == '<=':
        return le(a, b)
    if op == '>=':
        return le(b, a)
    if op == '==':
        return eq(a, b)
    return not_(eq(a, b))


def parse_float(e):
    s = e.get('src') or e['v']
    s = s.rstrip('fFlL')
    try:
        return Fr(s)
    except ValueError:
        try:
            return Fr(float(s)).limit_denominator(10 ** 12)
        except (ValueError, OverflowError):
            return None


class Exprs(EngineBase):
    def ev(self, e, st, fr):
        """rvalue"""
        v = self.evx(e, st, fr)
        if self._is_lv(v):
            return self.read(v, st)
        return v

    def evlv(self, e, st, fr):
        """lvalue (temporaries are materialised)"""
        v = self.evx(e, st, fr)
        if self._is_lv(v):
            return v
        return self.root('tmp', st, v)

    def cond(self, e, st, fr):
        return self.boolv(self.ev(e, st, fr))

    def evx(self, e, st, fr):
        self.tick()
        if e is None:
            return None
        m = getattr(self, 'x_' + e['k'], None)
        if m is None:
            self.unknown('expr ' + e['k'], e)
            return OpqV('?' + e['k'])
        return m(e, st, fr)

    # ---- leaves
    def x_int(self, e, st, fr):
        v = int(e['v'])
        t = self.p.ty(e.get('t'))
        return num(v)

    def x_flt(self, e, st, fr):
        v = parse_float(e)
        if v is None:
            return OpqV('flt')
        # pi spelled out
        if abs(v - Fr('3.14159265358979323846')) < Fr(1, 10 ** 12):
            return mk('fn', 'pi', ZERO)
        return num(v)

    def x_bool(self, e, st, fr):
        return TRUE if e['v'] else FALSE

    def x_str(self, e, st, fr):
        return mk('str', e.get('v', ''))

    def x_null(self, e, st, fr):
        return NULL

    def x_zero(self, e, st, fr):
        return self.default(e['t'], st, 'z', True)

    def x_var(self, e, st, fr):
        lv = fr.env.get(e['id'])
        if lv is None:
            self.unknown('unbound variable ' + e['n'], e)
            return OpqV('?var:' + e['n'])
        z = fr.lazy.get(e['id'])
        if z is not None and isinstance(lv, LV):
            # an unevaluated Eigen expression sees later changes of the matrices it refers to
            ch = [r for r, v in z[1].items() if st.s.get(r) is not v and not isinstance(v, T)]
            if ch:
                s2 = St(dict(st.s), st.pc)
                for r, v in z[1].items():
                    if isinstance(v, T):
                        s2.s[r] = v
                x = self.evx(z[0], s2, fr)
                if self._is_lv(x):
                    x = self.read(x, s2)
                return self.root('lazy', st, x)
        return lv

    def x_gvar(self, e, st, fr):
        if 'v' in e:
            return num(int(e['v']))
        if 'fv' in e:
            try:
                return num(Fr(e['fv']))
            except ValueError:
                pass
        return OpqV('gvar:' + e['q'])

    def x_fref(self, e, st, fr):
        return FnV(e['fn'])

    def x_this(self, e, st, fr):
        return PtrV(fr.this)

    def x_err(self, e, st, fr):
        self.unknown('does not compile', e)
        for a in e.get('a', []):
            try:
                self.ev(a, st, fr)
            except Unsupported:
                pass
        return OpqV('?err')

    def x_unk(self, e, st, fr):
        self.unknown('expr ' + e.get('cls', ''), e)
        return OpqV('?unk')

    # ---- members
    def deref(self, v, st, node):
        """pointer value -> lvalue"""
        if isinstance(v, LV):
            v = self.read(v, st)
        if isinstance(v, IteV):
            a, b = v.a, v.b
            if isinstance(a, PtrV) and a.lv is None:
                self.event('deref', st, node, cond=not_(v.c))
                return self.deref(b, st, node)
            if isinstance(b, PtrV) and b.lv is None:
                self.event('deref', st, node, cond=v.c)
                return self.deref(a, st, node)
            x, y = self.deref(a, st, node), self.deref(b, st, node)
            return IteV(v.c, x, y) if not (isinstance(x, LV) and x == y) else x
        if isinstance(v, PtrV):
            if v.lv is None:
                self.event('deref', st, node, cond=FALSE)
                raise Dead()
            return v.lv
        if isinstance(v, IterV):
            return self.iter_lv(v, st, node)
        if isinstance(v, UninitV):
            self.event('undefptr', st, node)
            return OpqV('?uninitptr')
        return OpqV('?deref')

    def iter_lv(self, it, st, node):
        if it.kind == 'vec':
            lst = self.read(it.lv, st)
            self.event('bounds', st, node, cond=and_(le(ZERO, it.i), lt(it.i, self.length(lst))), what='iterator')
            if isinstance(lst, MatV):
                i, j = self.unlin(lst, it.i)
                return self.step(it.lv, 'el', i, j)
            return self.step(it.lv, 'i', it.i)
        if it.kind == 'mapidx':
            m = self.read(it.lv, st)
            if isinstance(m, MapV):
                k = m.kth(it.i)
                if m.val is None:
                    return k
                return TupV([k, self.step(it.lv, 'key', k)])
        if it.kind == 'mapkey':
            m = self.read(it.lv, st)
            if isinstance(m, MapV):
                self.event('bounds', st, node, cond=m.has(it.i), what='map end dereference')
                if m.val is None:
                    return it.i
                return TupV([it.i, self.step(it.lv, 'key', it.i)])
        if it.kind == 'axis':
            m = self.read(it.lv, st)
            if isinstance(m, AxisV):
                return self.axis_elem(m, it.i, st)
        return OpqV('?iter')

    def axis_elem(self, ax, i, st):
        m = self.read(ax.m, st) if self._is_lv(ax.m) else ax.m
        if not isinstance(m, MatV):
            return OpqV('?axis')
        if self._is_lv(ax.m):
            return self.step(ax.m, 'blk', i, ZERO, ONE, m.c) if ax.row else self.step(ax.m, 'blk', ZERO, i, m.r, ONE)
        return MatV(ONE, m.c, m.at(i, J)) if ax.row else MatV(m.r, ONE, m.at(I, i))

    def step(self, lv, *s):
        if isinstance(lv, IteV):
            return IteV(lv.c, self.step(lv.a, *s), self.step(lv.b, *s))
        if isinstance(lv, LV):
            return lv.step(*s)
        return lv

    def length(self, v):
        if isinstance(v, IteV):
            return ite(v.c, self.length(v.a), self.length(v.b))
        if isinstance(v, (ListV, PhiL)):
            return v.n
        if isinstance(v, AppV):
            f = self.flatten_app(v)
            if f is not None:
                return f.n
        if isinstance(v, MatV):
            return mul(v.r, v.c)
        if isinstance(v, MapV):
            return v.size()
        if isinstance(v, AxisV):
            m = v.m
            return self.length(m)
        return app('?len', 'Z', *deps_of(v)[:4])

    def x_mem(self, e, st, fr):
        if e.get('ar'):
            b = self.deref(self.ev(e['b'], st, fr), st, e)
        else:
            b = self.evx(e['b'], st, fr)
        if self._is_lv(b):
            return self.step(b, 'f', e['f'])
        if isinstance(b, TupV):
            ix = {'first': 0, 'second': 1}.get(e['f'])
            if ix is not None and ix < len(b.xs):
                return b.xs[ix]
        if isinstance(b, V):
            return self.rstep(b, ('f', e['f']), st)
        return OpqV('?mem')

    # ---- operators
    def x_cast(self, e, st, fr):
        v = self.ev(e['e'], st, fr)
        ck = e['ck']
        if ck == 'FloatingToIntegral':
            x = self.scalar(v)
            return fn('trunc', self.num_(x))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.boolv(v)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast'):
            if isinstance(v, T):
                return self.num_(v) if self.p.ty(e['t'])['c'] != 'bool' else v
            if isinstance(v, (UninitV, IteV, OpqV, MatV)):
                return self.num_(self.scalar(v))
            return v
        return v

    def x_un(self, e, st, fr):
        op = e['op']
        if op in ('++', '--'):
            lv = self.evx(e['e'], st, fr)
            old = self.read(lv, st)
            d = ONE if op == '++' else num(-1)
            if isinstance(old, IterV):
                new = IterV(old.lv, add(old.i, d), old.kind)
            else:
                new = add(self.num_(self.scalar(old)), d)
            self.write(lv, new, st, e)
            return old if e.get('post') else lv
        if op == '*':
            v = self.ev(e['e'], st, fr)
            return self.deref(v, st, e)
        if op == '&':
            lv = self.evx(e['e'], st, fr)
            if self._is_lv(lv):
                # address of an element is an iterator into its container
                if isinstance(lv, LV) and lv.path and lv.path[-1][0] in ('i', 'el', 'lin'):
                    base = LV(lv.root, lv.path[:-1])
                    s = lv.path[-1]
                    if s[0] == 'i' or s[0] == 'lin':
                        return IterV(base, s[1], 'vec')
                    m = self.read(base, st)
                    if isinstance(m, MatV):
                        k = s[1] if m.c is ONE else (s[2] if m.r is ONE else add(s[1], mul(s[2], m.r)))
                        return IterV(base, k, 'vec')
                return PtrV(lv)
            return PtrV(self.root('tmp', st, lv))
        v = self.ev(e['e'], st, fr)
        if op == '!':
            return not_(self.boolv(v))
        x = self.num_(self.scalar(v))
        if op == '-':
            return neg(x)
        if op == '+':
            return x
        return OpqV('?un' + op)

    def unsigned(self, e):
        while e and e['k'] == 'cast' and e.get('impl'):
            t = self.p.ty(e.get('t'))
            if t['c'] == 'int' and not t.get('sg'):
                return True
            e = e['e']
        t = self.p.ty(e.get('t'))
        return t['c'] == 'int' and not t.get('sg')

    def x_bin(self, e, st, fr):
        op = e['op']
        if op == ',':
            self.ev(e['a'], st, fr)
            return self.evx(e['b'], st, fr)
        if op in ('&&', '||'):
            a = self.cond(e['a'], st, fr)
            if a is (FALSE if op == '&&' else TRUE):
                return a
            if a is (TRUE if op == '&&' else FALSE):
                return self.cond(e['b'], st, fr)
            s2 = st.clone()
            g = a if op == '&&' else not_(a)
            s2.pc = and_(st.pc, g)
            try:
                b = self.cond(e['b'], s2, fr)
            except Dead:
                st.pc = and_(st.pc, not_(g))
                return a
            pc = or_(and_(st.pc, not_(g)), s2.pc) if s2.pc is not and_(st.pc, g) else st.pc
            self.merge_into(st, g, s2, St(dict(st.s), st.pc))
            st.pc = pc
            return and_(a, b) if op == '&&' else or_(a, b)
        a, b = self.ev(e['a'], st, fr), self.ev(e['b'], st, fr)
        return self.binop(op, a, b, e, st)

    def binop(self, op, a, b, e, st):
        # pointers / iterators
        if op in ('==', '!='):
            r = self.ptr_eq(a, b, st)
            if r is not None:
                return r if op == '==' else not_(r)
        if isinstance(a, IterV) or isinstance(b, IterV):
            return self.iter_arith(op, a, b, st)
        if isinstance(a, MatV) or isinstance(b, MatV):
            # built-in operator on a 1x1 product
            pass
        x, y = self.scalar(a), self.scalar(b)
        if op in CMP:
            if srt(x) == 'B' and srt(y) != 'B':
                x = b2t(x)
            if srt(y) == 'B' and srt(x) != 'B':
                y = b2t(y)
            if srt(x) == 'B' and op not in ('==', '!='):
                x, y = b2t(x), b2t(y)
            if e.get('k') == 'bin' and op in ('<', '>=', '>', '<='):
                # unsigned values are never negative
                if self.unsigned(e['a']):
                    if op in ('<', '>=') and y is ZERO:
                        return FALSE if op == '<' else TRUE
                    if op in ('>', '<=') and x is ZERO:
                        return FALSE if op == '>' else TRUE
            return cmp_(op, x, y)
        x, y = self.num_(x), self.num_(y)
        return self.arith(op, x, y, e, st)

    def arith(self, op, x, y, e, st, isint=None):
        if op == '+':
            return add(x, y)
        if op == '-':
            return sub(x, y)
        if op == '*':
            return mul(x, y)
        if op == '/':
            if isint is None:
                isint = self.p.ty(e.get('ct') if 'ct' in e else e.get('t'))['c'] in ('int', 'bool', 'enum')
            self.event('div', st, e, den=y, isint=isint)
            return fn('idiv', x, y) if isint else div(x, y)
        if op == '%':
            self.event('div', st, e, den=y, isint=True)
            return fn('imod', x, y)
        if op in ('|', '&', '^', '<<', '>>'):
            if x.op == 'num' and y.op == 'num':
                a, b = int(x.a[0]), int(y.a[0])
                return num({'|': a | b, '&': a & b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op])
            return mk('fn', 'bit' + op, x, y)
        return OpqV('?op' + op)

    def ptr_eq(self, a, b, st):
        if isinstance(a, IteV) and (self.ptrlike(a) or self.ptrlike(b)):
            x, y = self.ptr_eq(a.a, b, st), self.ptr_eq(a.b, b, st)
            return ite(a.c, x, y) if x is not None and y is not None else None
        if isinstance(b, IteV) and (self.ptrlike(a) or self.ptrlike(b)):
            return self.ptr_eq(b, a, st)
        if isbox(b) and not isbox(a):
            a, b = b, a
        if isbox(a) and isinstance(b, PtrV) and b.lv is None:
            return a.f['null']
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.lv is None or b.lv is None:
                return TRUE if a.lv is None and b.lv is None else FALSE
            if a.lv == b.lv:
                return TRUE
            return FALSE
        if isinstance(a, IterV) and isinstance(b, IterV):
            if a.kind == 'mapkey' or b.kind == 'mapkey':
                m = self.read(a.lv, st)
                if a.kind == 'mapend' and b.kind == 'mapkey':
                    a, b = b, a
                if a.kind == 'mapkey' and b.kind in ('mapend', 'mapidx') and isinstance(m, MapV):
                    return not_(m.has(a.i))
                return None
            ai = self.iter_idx(a, st)
            bi = self.iter_idx(b, st)
            if ai is not None and bi is not None:
                return eq(ai, bi)
        return None

    def iter_idx(self, a, st):
        if a.kind == 'mapend':
            return self.length(self.read(a.lv, st))
        if a.kind == 'mapkey':
            m = self.read(a.lv, st)
            return ite(m.has(a.i), m.kidx(a.i), m.size()) if isinstance(m, MapV) and isinstance(a.i, T) else None
        return a.i if isinstance(a.i, T) else None

    def ptrlike(self, v):
        if isinstance(v, IteV):
            return self.ptrlike(v.a) or self.ptrlike(v.b)
        return isinstance(v, (PtrV, IterV))

    def iter_arith(self, op, a, b, st):
        if isinstance(a, IteV) or isinstance(b, IteV):
            c = a if isinstance(a, IteV) else b
            x = self.iter_arith(op, a.a if c is a else a, b.a if c is b else b, st)
            y = self.iter_arith(op, a.b if c is a else a, b.b if c is b else b, st)
            return mergev(c.c, x, y)
        if isinstance(a, IterV) and isinstance(b, IterV):
            ai, bi = self.iter_idx(a, st), self.iter_idx(b, st)
            if ai is None or bi is None:
                return OpqV('?iter')
            if op == '-':
                return sub(ai, bi)
            if op in CMP:
                return cmp_(op, ai, bi)
        if op in '+-' and isinstance(a, IterV):
            y = self.num_(self.scalar(b))
            ai = self.iter_idx(a, st)
            if ai is None:
                return OpqV('?iter')
            return IterV(a.lv, add(ai, y) if op == '+' else sub(ai, y), 'mapidx' if a.kind == 'mapend' else a.kind)
        if op == '+' and isinstance(b, IterV):
            return self.iter_arith(op, b, a, st)
        return OpqV('?iterop')

    def x_asg(self, e, st, fr):
        v = self.ev(e['b'], st, fr)
        lv = self.evx(e['a'], st, fr)
        if isinstance(v, MatV) and self.p.ty(e['a'].get('t'))['c'] in ('int', 'float'):
            v = self.scalar(v)
        self.write(lv, self.coerce(v, e['a'].get('t')), st, e)
        return lv

    def coerce(self, v, ti):
        """scalar conversions that the AST leaves implicit"""
        c = self.p.ty(ti)['c']
        if isinstance(v, T):
            if c == 'bool' and srt(v) not in ('B', 'S'):
                return t2b(v)
            if c in ('int', 'float') and srt(v) == 'B':
                return b2t(v)
        return v

    def x_casg(self, e, st, fr):
        b = self.ev(e['b'], st, fr)
        lv = self.evx(e['a'], st, fr)
        a = self.read(lv, st)
        op = e['op']
        tgt = self.p.ty(e['a'].get('t'))
        if isinstance(a, (IterV,)):
            v = self.iter_arith(op, a, b, st)
        else:
            x, y = self.num_(self.scalar(a)), self.num_(self.scalar(b))
            v = self.arith(op, x, y, e, st)
            if tgt['c'] in ('int',) and isinstance(v, T) and self.p.ty(e.get('ct'))['c'] == 'float':
                v = fn('trunc', v)
            v = self.coerce(v, e['a'].get('t'))
        self.write(lv, v, st, e)
        return lv

    def x_cond(self, e, st, fr):
        c = self.cond(e['c'], st, fr)
        if c is TRUE:
            return self.evx(e['a'], st, fr)
        if c is FALSE:
            return self.evx(e['b'], st, fr)
        s1, s2 = st.clone(), st.clone()
        s1.pc, s2.pc = and_(st.pc, c), and_(st.pc, not_(c))
        a = b = None
        d1 = d2 = False
        try:
            a = self.evx(e['a'], s1, fr)
        except Dead:
            d1 = True
        try:
            b = self.evx(e['b'], s2, fr)
        except Dead:
            d2 = True
        if d1 and d2:
            raise Dead()
        if d1 or d2:
            s = s2 if d1 else s1
            st.s, st.pc = s.s, s.pc
            return b if d1 else a
        la, lb = self._is_lv(a), self._is_lv(b)
        if la and lb and e.get('lv'):
            r = IteV(c, a, b)
        else:
            r = mergev(c, self.read(a, s1) if la else a, self.read(b, s2) if lb else b)
        self.merge_into(st, c, s1, s2)
        st.pc = or_(s1.pc, s2.pc)
        return r

    def x_idx(self, e, st, fr):
        a = self.evx(e['a'], st, fr)
        i = self.num_(self.scalar(self.ev(e['b'], st, fr)))
        v = self.read(a, st) if self._is_lv(a) else a
        if isinstance(v, IterV):
            return self.iter_lv(IterV(v.lv, add(v.i, i), v.kind), st, e)
        if self._is_lv(a):
            return self.step(a, 'i', i)
        return OpqV('?idx')

    def x_lambda(self, e, st, fr):
        env = dict(fr.env)
        for c in e.get('caps', []):
            if not c.get('ref') and 'id' in c and c['id'] in fr.env and not c.get('this'):
                v = fr.env[c['id']]
                if self._is_lv(v):
                    env[c['id']] = self.root('cap:' + c.get('n', ''), st, self.read(v, st))
            if 'init' in c and 'id' in c and c['id'] not in fr.env:
                env[c['id']] = self.root('cap', st, self.ev(c['init'], st, fr))
        return LamV(e, env, fr.this)

    def x_throw(self, e, st, fr):
        msg = ''
        if e.get('e'):
            try:
                v = self.ev(e['e'], st, fr)
            except Dead:
                v = None
        self.event('throw', st, e)
        raise Dead()

    def x_ilist(self, e, st, fr):
        t = self.p.ty(e.get('t'))
        xs = [self.ev(a, st, fr) for a in e['a']]
        if t['c'] == 'rec' and t.get('cls') is not None:
            fs = self.p.classes[t['cls']].get('fields') or []
            d = {}
            for f, x in zip(fs, xs):
                d[f['n']] = x
            return ObjV(t['cls'], d)
        if t['c'] in ('int', 'float', 'bool', 'ptr') and len(xs) == 1:
            return xs[0]
        if t['c'] in ('int', 'float', 'bool', 'ptr') and not xs:
            return self.default(e['t'], st, 'z', True)
        return self.list_of(xs)

    def list_of(self, xs):
        k = fresh('k')
        if not xs:
            return ListV(ZERO, k, ZERO)
        e = xs[-1]
        for i in range(len(xs) - 2, -1, -1):
            e = mergev(eq(k, num(i)), xs[i], e)
        return ListV(num(len(xs)), k, e)

    def x_new(self, e, st, fr):
        t = self.p.ty(e['t'])
        if e.get('e'):
            v = self.ev(e['e'], st, fr)
        else:
            v = self.default(t.get('to', -1), st, 'new')
        return PtrV(self.root('new', st, v))

    def x_delete(self, e, st, fr):
        v = self.ev(e['e'], st, fr)
        self.event('delete', st, e, value=v, type=e['e'].get('t'))
        return None
