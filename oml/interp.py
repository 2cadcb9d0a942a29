"""Abstract interpreter over the extracted syntax: builds, for every function, the terms its results
denote (global value numbering with gated merges and closed-form loop summaries)."""
import sys
from .terms import *
from .values import *
from .prog import Prog

sys.setrecursionlimit(20000)


class Dead(Exception):
    """no path continues"""


class Unsupported(Exception):
    pass


class St:
    __slots__ = ('s', 'pc')

    def __init__(self, s, pc):
        self.s, self.pc = s, pc

    def clone(self):
        return St(dict(self.s), self.pc)


class Frame:
    def __init__(self, f, env, this, cls=None):
        self.f, self.env, self.this, self.cls = f, env, this, cls
        self.returns = []
        self.brk = None
        self.cont = None
        self.retref = False
        self.lazy = {}


class Ev:
    """a recorded obligation or effect"""
    def __init__(self, kind, pc, data, fn, line, file, stack=()):
        self.kind, self.pc, self.data, self.fn, self.line, self.file, self.stack = kind, pc, data, fn, line, file, stack
        self.loops = ()

    def loc(self):
        return '%s:%s (%s)' % (self.file, self.line, self.fn)

    def __repr__(self):
        return 'Ev(%s @%s pc=%s %s)' % (self.kind, self.loc(), self.pc, self.data)


class LoopRec:
    def __init__(self, **kw):
        self.__dict__.update(kw)


NULL = PtrV(None)


def box(null, v):
    """a shared_ptr to a matrix that is never written through: null flag and pointee, held by value"""
    return ObjV('box', {'null': null, 'v': v})


def isbox(v):
    return isinstance(v, ObjV) and v.cls == 'box'


class EngineBase:
    MAXDEPTH = 40

    def __init__(self, prog, hooks=None, trace=False):
        self.p = prog
        self.hooks = hooks or {}
        self.events = []
        self.loops = []
        self.smode = {}
        self.ctx = []
        self.stack = []
        self.rec = True
        self.cnt = 0
        self.statics = {}
        self.unk = []
        self.analysed = set()
        self.recursion = {}
        self.budget = 400000
        self.inline_depth = {}

    # ------------------------------------------------------------ helpers
    def uid(self):
        self.cnt += 1
        return self.cnt

    def root(self, name, st, v):
        r = (name, self.uid())
        st.s[r] = v
        return LV(r)

    def tmp(self, v, st):
        if isinstance(v, LV):
            return v
        return self.root('tmp', st, v)

    def fname(self):
        return self.stack[-1].f['q'] if self.stack else '?'

    def event(self, kind, st, node, **data):
        if not self.rec:
            return
        pc = and_(*(self.ctx + [st.pc]))
        if pc is FALSE:
            return
        f = self.stack[-1].f if self.stack else {'q': '?', 'file': '?'}
        line = node.get('l', 0) if isinstance(node, dict) else 0
        self.events.append(Ev(kind, pc, data, f['q'], line, f.get('file', '?'), tuple(fr.f['q'] for fr in self.stack)))

    def unknown(self, why, node=None):
        f = self.stack[-1].f if self.stack else {'q': '?', 'file': '?'}
        self.unk.append((why, f.get('file'), node.get('l') if isinstance(node, dict) else None, f['q']))

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Unsupported('analysis budget exhausted')

    # ------------------------------------------------------------ symbolic values by type
    def sym_value(self, ti, name, idx=(), depth=0, const=False):
        t = self.p.ty(ti)
        c = t['c']
        if c in ('int', 'enum', 'bool', 'float'):
            s = {'int': 'Z', 'enum': 'Z', 'bool': 'B', 'float': 'R'}[c]
            info = ('nn',) if c == 'int' and not t.get('sg') else ()
            return app(name, s, *idx) if idx else sym(name, s, *info)
        if c == 'eig':
            r = num(t['r']) if t.get('r', -1) >= 0 else (app(name + '.r', 'Z', *idx) if idx else sym(name + '.r', 'Z', 'dim'))
            k = num(t['cc']) if t.get('cc', -1) >= 0 else (app(name + '.c', 'Z', *idx) if idx else sym(name + '.c', 'Z', 'dim'))
            s = self.p.scal(t)
            b = el(tapp(name, s, *idx) if idx else ten(name, s), I, J)
            return MatV(r, k, b)
        if c == 'rec':
            q = t['q']
            if q in ('std::vector', 'std::deque', 'std::list'):
                et = self.p.targ(t, 0)
                n = app(name + '.n', 'Z', *idx) if idx else sym(name + '.n', 'Z', 'dim')
                if et is None:
                    return OpqV(name)
                k = fresh('k')
                return ListV(n, k, self.sym_value(et, name, idx + (k,), depth + 1))
            if q in ('std::map', 'std::unordered_map', 'std::set'):
                kt = self.p.targ(t, 0)
                ks = {'int': 'Z', 'bool': 'B', 'float': 'R', 'enum': 'Z'}.get(self.p.ty(kt)['c'])
                if ks is None:
                    return OpqV(name)
                k = fresh('K', ks)
                v = self.sym_value(self.p.targ(t, 1), name, idx + (k,), depth + 1) if q != 'std::set' else None
                has = app(name + '.has', 'B', *(idx + (k,)))
                if v is not None:
                    # invariant: the value outside the domain is the value-initialised one
                    v = mergev(has, v, self.zero_like(v))
                m = MapV(k, has, v)
                return m
            if q == 'std::pair':
                return TupV([self.sym_value(self.p.targ(t, i), name + '.%d' % i, idx, depth + 1) for i in (0, 1)])
            if q == 'std::tuple':
                ts = [x.get('T') for x in (t.get('ta') or [{}])[0].get('P', [])]
                return TupV([self.sym_value(x, name + '.%d' % i, idx, depth + 1) for i, x in enumerate(ts)])
            if q == 'std::basic_string':
                return app(name, 'S', *idx) if idx else sym(name, 'S')
            if q in ('std::shared_ptr', 'std::unique_ptr'):
                if self.boxed(t):
                    return box(app(name + '.null', 'B', *idx) if idx else sym(name + '.null', 'B'), self.sym_value(self.p.targ(t, 0), name, idx, depth + 1))
                if idx:
                    return OpqV(name, idx)
                return IteV(sym(name + '.null', 'B'), NULL, PtrV(LV(('sym', name, self.p.targ(t, 0)))))
            if t.get('cls') is not None:
                if depth > 4:
                    return OpqV(name, idx)
                return ObjV(t['cls'], {f['n']: self.sym_value(f['t'], name + '.' + f['n'], idx, depth + 1) for f in self.p.all_fields(t['cls'])})
        if c == 'ptr':
            if idx:
                return OpqV(name, idx)
            return IteV(sym(name + '.null', 'B'), NULL, PtrV(LV(('sym', name, t['to']))))
        return OpqV(name, idx)

    def unknown_value(self, ti, name, st, deps=()):
        n = '?%s#%d' % (name, self.uid())
        t = self.p.ty(ti)
        if t['c'] == 'void':
            return None
        return self.sym_value(ti, n)

    def boxed(self, t):
        x = self.p.targ(t, 0)
        return x is not None and self.p.ty(x)['c'] == 'eig'

    def nullbox(self, t):
        return box(TRUE, self.zero_like(self.sym_value(self.p.targ(t, 0), 'nothing')))

    def default(self, ti, st, name='v', init=False):
        """default-initialised value (init: value-initialised)"""
        t = self.p.ty(ti)
        c = t['c']
        if c in ('int', 'enum', 'float'):
            return ZERO if init else UninitV('%s@%d' % (name, self.uid()))
        if c == 'bool':
            return FALSE if init else UninitV('%s@%d' % (name, self.uid()))
        if c == 'eig':
            r, k = t.get('r', -1), t.get('cc', -1)
            R, K = num(max(r, 0)), num(max(k, 0))
            return MatV(R, K, el(ten('undef:%s@%d' % (name, self.uid()), self.p.scal(t)), I, J))
        if c == 'rec':
            q = t['q']
            if q in ('std::less', 'std::greater', 'std::less_equal', 'std::greater_equal', 'std::equal_to', 'std::plus', 'std::minus', 'std::multiplies'):
                return FnV({'functor': q})
            if q in ('std::vector', 'std::deque', 'std::list'):
                return ListV(ZERO, fresh('k'), ZERO)
            if q in ('std::map', 'std::unordered_map', 'std::set', 'std::multiset'):
                kt = self.p.ty(self.p.targ(t, 0))
                ks = {'int': 'Z', 'bool': 'B', 'float': 'R', 'enum': 'Z'}.get(kt['c'], 'R')
                vt = self.p.targ(t, 1) if q in ('std::map', 'std::unordered_map') else None
                m = MapV(fresh('K', ks), FALSE, self.default(vt, st, name, True) if vt is not None else None, q != 'std::unordered_map')
                return m
            if q in ('std::shared_ptr', 'std::unique_ptr'):
                return self.nullbox(t) if self.boxed(t) else NULL
            if q == 'std::basic_string':
                return mk('str', '')
            if q == 'std::pair':
                return TupV([self.default(self.p.targ(t, i), st, name, True) for i in (0, 1)])
            if q == 'std::tuple':
                return TupV([self.default(x.get('T'), st, name, True) for x in (t.get('ta') or [{}])[0].get('P', [])])
            if q in ('std::stack', 'std::queue', 'std::priority_queue'):
                return ListV(ZERO, fresh('k'), ZERO)
            if t.get('cls') is not None:
                lv = self.construct(t['cls'], None, [], st, {'l': 0})
                return self.read(lv, st)
            return OpqV(q)
        if c == 'ptr':
            return NULL if init else UninitV('%s@%d' % (name, self.uid()))
        return OpqV('other')

    # ------------------------------------------------------------ store access
    def read(self, lv, st):
        if not isinstance(lv, LV):
            if isinstance(lv, IteV) and self._is_lv(lv):
                return mergev(lv.c, self.read(lv.a, st), self.read(lv.b, st))
            return lv
        v = st.s.get(lv.root)
        if v is None:
            if lv.root[0] == 'sym':
                v = self.sym_value(lv.root[2], lv.root[1])
                st.s[lv.root] = v
            else:
                v = OpqV('missing:%s' % (lv.root,))
        for i, stp in enumerate(lv.path):
            v = self.rstep(v, stp, st)
        return v

    def _is_lv(self, v):
        if isinstance(v, LV):
            return True
        if isinstance(v, IteV):
            return self._is_lv(v.a) or self._is_lv(v.b)
        return False

    def rstep(self, v, stp, st):
        k = stp[0]
        if isinstance(v, IteV):
            return mergev(v.c, self.rstep(v.a, stp, st), self.rstep(v.b, stp, st))
        if isinstance(v, LV):
            v = self.read(v, st)
        if k == 'f':
            if isinstance(v, ObjV):
                if stp[1] in v.f:
                    return v.f[stp[1]]
                return UninitV('%s@%d' % (stp[1], self.uid()))
            if isinstance(v, TupV):
                ix = {'first': 0, 'second': 1}.get(stp[1], stp[1])
                if isinstance(ix, int) and ix < len(v.xs):
                    x = v.xs[ix]
                    return self.read(x, st) if isinstance(x, LV) else x
        elif k == 'i':
            if isinstance(v, AppV):
                v = flat_list(v)
            if isinstance(v, (ListV, PhiL)):
                return v.at(stp[1])
            if isinstance(v, AppV):
                f = self.flatten_app(v)
                if f is not None:
                    return f.at(stp[1])
        elif k == 'el':
            if isinstance(v, MatV):
                return v.at(stp[1], stp[2])
        elif k == 'blk':
            if isinstance(v, MatV):
                _, r0, c0, nr, nc = stp
                return MatV(nr, nc, v.at(r0 if nr is ONE else add(I, r0), c0 if nc is ONE else add(J, c0)))
        elif k == 'tr':
            if isinstance(v, MatV):
                return MatV(v.c, v.r, v.at(J, I))
        elif k == 'diag':
            if isinstance(v, MatV):
                return MatV(min_(v.r, v.c), ONE, v.at(I, I))
        elif k == 'key':
            if isinstance(v, MapV):
                return v.get(stp[1])
        elif k == 'lin':
            if isinstance(v, MatV):
                i, j = self.unlin(v, stp[1])
                return v.at(i, j)
        elif k == 'tri':
            return TriV(v, stp[1])
        elif k == 'axis':
            return AxisV(v, stp[1])
        if isinstance(v, OpqV):
            return OpqV(v.name + '.' + str(k), v.deps)
        self.unknown('read %s of %s' % (k, type(v).__name__))
        return OpqV('?' + str(k), deps_of(v)[:6])

    def flatten_app(self, v):
        """list with appended items over a phi list"""
        b = v.base
        if isinstance(b, PhiL):
            k = fresh('k')
            b = ListV(b.n, k, b.at(k))
        elif isinstance(b, AppV):
            b = self.flatten_app(b)
        if not isinstance(b, ListV):
            return None
        return flat_list(AppV(b, v.items))

    def unlin(self, m, k):
        if m.c is ONE:
            return k, ZERO
        if m.r is ONE:
            return ZERO, k
        return fn('imod', k, m.r), fn('idiv', k, m.r)

    def write(self, lv, v, st, node=None):
        if isinstance(lv, IteV):
            s1, s2 = st.clone(), st.clone()
            self.write(lv.a, v, s1, node)
            self.write(lv.b, v, s2, node)
            self.merge_into(st, lv.c, s1, s2)
            return
        if not isinstance(lv, LV):
            return
        if isinstance(v, PtrV) and v.lv is None:
            o = self.read(lv, st)
            if isbox(o):
                v = box(TRUE, self.zero_like(o.f['v']))
        if not lv.path:
            st.s[lv.root] = v
            return
        old = st.s.get(lv.root)
        if old is None:
            old = self.read(LV(lv.root), st)
        st.s[lv.root] = self.wpath(old, lv.path, v, st)

    def wpath(self, old, path, new, st):
        if not path:
            return new
        stp = path[0]
        k = stp[0]
        if isinstance(old, IteV):
            return mergev(old.c, self.wpath(old.a, path, new, st), self.wpath(old.b, path, new, st))
        if isinstance(old, LV):
            self.write(LV(old.root, old.path + tuple(path)), new, st)
            return old
        if k == 'f':
            if isinstance(old, ObjV):
                sub = new if len(path) == 1 else self.wpath(self.rstep(old, stp, st), path[1:], new, st)
                return old.with_(stp[1], sub)
            if isinstance(old, TupV):
                ix = {'first': 0, 'second': 1}.get(stp[1], stp[1])
                xs = list(old.xs)
                if isinstance(ix, int) and ix < len(xs):
                    xs[ix] = new if len(path) == 1 else self.wpath(xs[ix], path[1:], new, st)
                    return TupV(xs)
        if k == 'i':
            if isinstance(old, AppV):
                o2 = flat_list(old)
                if isinstance(o2, AppV):
                    o2 = self.flatten_app(o2)
                old = o2
            if isinstance(old, PhiL):
                kk = fresh('k')
                old = ListV(old.n, kk, old.at(kk))
            if isinstance(old, ListV):
                sub = new if len(path) == 1 else self.wpath(old.at(stp[1]), path[1:], new, st)
                kk = fresh('k')
                e0 = old.at(kk)
                return ListV(old.n, kk, mergev(eq(kk, stp[1]), sub, e0))
        if isinstance(old, MatV):
            if k in ('el', 'lin'):
                i, j = (stp[1], stp[2]) if k == 'el' else self.unlin(old, stp[1])
                if not isinstance(new, T):
                    new = self.scalar(new)
                conds = []
                if old.r is not ONE:
                    conds.append(eq(I, i))
                if old.c is not ONE:
                    conds.append(eq(J, j))
                return MatV(old.r, old.c, self.item(and_(*conds), new, old.body))
            if k in ('blk', 'tr', 'diag'):
                sub = new if len(path) == 1 else self.wpath(self.rstep(old, stp, st), path[1:], new, st)
                if isinstance(sub, MatV):
                    if k == 'tr':
                        return MatV(old.r, old.c, sub.at(J, I))
                    if k == 'diag':
                        return MatV(old.r, old.c, self.item(eq(I, J), sub.at(I, ZERO), old.body))
                    _, r0, c0, nr, nc = stp
                    conds = self.inblk(I, r0, nr, old.r) + self.inblk(J, c0, nc, old.c)
                    i2 = ZERO if nr is ONE else sub_(I, r0)
                    j2 = ZERO if nc is ONE else sub_(J, c0)
                    return MatV(old.r, old.c, self.item(and_(*conds), sub.at(i2, j2), old.body))
            if k == 'tri':
                return OpqV('triwrite')
        if k == 'key':
            if isinstance(old, MapV):
                key = stp[1]
                cur = old.get(key)
                sub = new if len(path) == 1 else self.wpath(cur, path[1:], new, st)
                c = eq(old.k, key)
                srcs = old.srcs if old.has(key) is TRUE else old.srcs + [(None, None, TRUE, key)]
                return MapV(old.k, or_(old.dom, c), mergev(c, sub, old.val), old.ordered, srcs)
        self.unknown('write %s to %s' % (k, type(old).__name__))
        return OpqV('?w' + str(k))

    def item(self, c, a, b):
        if (srt(a) == 'B') != (srt(b) == 'B'):
            a = b2t(a) if srt(a) == 'B' else a
            b = b2t(b) if srt(b) == 'B' else b
        return ite(c, a, b)

    def inblk(self, ix, o, n, full):
        out = []
        if n is ONE:
            if full is not ONE:
                out.append(eq(ix, o))
            return out
        if o is not ZERO:
            out.append(le(o, ix))
        if add(o, n) is not full:
            out.append(lt(ix, add(o, n)))
        return out

    def merge_into(self, st, c, s1, s2):
        """st := c ? s1 : s2 (stores only)"""
        a, b = s1.s, s2.s
        out = {}
        for r, va in a.items():
            vb = b.get(r)
            if vb is None:
                out[r] = va
            elif va is vb:
                out[r] = va
            else:
                out[r] = mergev(c, va, vb)
        for r, vb in b.items():
            if r not in out:
                out[r] = vb
        st.s = out

    # ------------------------------------------------------------ scalars
    def scalar(self, v):
        """abstract value -> term"""
        if isinstance(v, T):
            return v
        if isinstance(v, UninitV):
            return sym('undef:' + v.name)
        if isinstance(v, MatV):
            if v.r is ONE and v.c is ONE:
                return v.at(ZERO, ZERO)
            return v.at(ZERO, ZERO)
        if isinstance(v, IteV):
            return ite(v.c, self.num_(self.scalar(v.a)), self.num_(self.scalar(v.b)))
        if isinstance(v, PtrV):
            return FALSE if v.lv is None else TRUE
        if isinstance(v, OpqV):
            return app('?' + v.name, 'R', *v.deps)
        if isinstance(v, IterV) and isinstance(v.i, T):
            return v.i
        return app('?scalar', 'R', *deps_of(v)[:6])

    def num_(self, t):
        return b2t(t) if srt(t) == 'B' else t

    def boolv(self, v):
        """abstract value -> boolean term"""
        if isinstance(v, IteV):
            return ite(v.c, self.boolv(v.a), self.boolv(v.b))
        if isinstance(v, PtrV):
            return TRUE if v.lv is not None else FALSE
        if isbox(v):
            return not_(v.f['null'])
        if isinstance(v, UninitV):
            return sym('undef:' + v.name, 'B')
        t = self.scalar(v)
        return t2b(t) if srt(t) != 'B' else t


def sub_(a, b):
    return sub(a, b)
