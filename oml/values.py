"""Abstract values: matrices in index notation, lists, maps, objects, pointers."""
from .terms import *
from . import terms as _t


class V:
    __slots__ = ()


class MatV(V):
    """rows x cols, element (I,J) given by body"""
    __slots__ = ('r', 'c', 'body')

    def __init__(self, r, c, body):
        self.r, self.c, self.body = r, c, body

    def at(self, i, j):
        if i is I and j is J:
            return self.body
        return subst(self.body, {I: i, J: j})

    def __repr__(self):
        return 'Mat(%s x %s: %s)' % (self.r, self.c, self.body)


def mat(r, c, f):
    return MatV(r, c, f(I, J))


class ListV(V):
    """std::vector & friends: length and element (over its own index symbol k)"""
    __slots__ = ('n', 'k', 'e')

    def __init__(self, n, k, e):
        self.n, self.k, self.e = n, k, e

    def at(self, i):
        return vsubst(self.e, {self.k: i})

    def __repr__(self):
        return 'List(%s; %s: %s)' % (self.n, self.k, self.e)


def lst(n, f):
    k = fresh('k')
    return ListV(n, k, f(k))


class PhiL(V):
    """unknown list at loop entry"""
    __slots__ = ('name', 'n', 'mk')

    def __init__(self, name, n, mkelem):
        self.name, self.n, self.mk = name, n, mkelem

    def at(self, i):
        return self.mk(i)

    def __repr__(self):
        return 'PhiL(%s)' % self.name


class AppV(V):
    """base list with items appended: items = [(cond, value)]"""
    __slots__ = ('base', 'items')

    def __init__(self, base, items):
        self.base, self.items = base, items

    def __repr__(self):
        return 'App(%s, %s)' % (self.base, self.items)


class BlkV(V):
    """a run of appended items"""
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l

    def __repr__(self):
        return 'Blk(%r)' % (self.l,)


class ObjV(V):
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def with_(self, k, v):
        d = dict(self.f)
        d[k] = v
        return ObjV(self.cls, d)

    def __repr__(self):
        return 'Obj<%s>{%s}' % (self.cls if not isinstance(self.cls, dict) else self.cls.get('q'), ', '.join('%s=%r' % kv for kv in self.f.items()))


class TupV(V):
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = tuple(xs)

    def __repr__(self):
        return 'Tup%r' % (self.xs,)


class MapV(V):
    """map/set with scalar (or term-encodable) keys: dom over K, val over K (default outside dom)"""
    __slots__ = ('k', 'dom', 'val', 'ordered', 'srcs')

    def __init__(self, k, dom, val, ordered=True, srcs=None):
        self.k, self.dom, self.val, self.ordered = k, dom, val, ordered
        # finite sources of keys: (count, index symbol or None, guard, key); None = not enumerable
        self.srcs = srcs if srcs is not None else ([] if dom is FALSE else [None])

    def keyset(self):
        if any(x is None or x[0] == 'phi' for x in self.srcs):
            return None
        out = []
        for n, s, g, k in self.srcs:
            if s is None:
                n, s = ONE, fresh('o')
            x = rawbind('vec', n, s, mk('tup', g, k))
            if x not in out:
                out.append(x)
        return mk('kset', *out)

    def size(self):
        ks = self.keyset()
        nm = self.symname()
        if nm is not None:
            return app(nm + '.size', 'Z', *self.dom.a[2:-1])
        return mk('ksize', ks) if ks is not None else app('?mapsize', 'Z', self.dom)

    def symname(self):
        """name of an arbitrary (input) map: its keys are arbitrary too"""
        d = self.dom
        if d.op == 'app' and str(d.a[0]).endswith('.has') and d.a[-1] is self.k and any(x is None for x in self.srcs):
            return str(d.a[0])[:-4]
        return None

    def kth(self, j):
        ks = self.keyset()
        nm = self.symname()
        if nm is not None:
            return app(nm + '.key', 'R', *(self.dom.a[2:-1] + (lift(j),)))
        return mk('kth', ks, j) if ks is not None else app('?mapkey', 'R', self.dom, j)

    def kidx(self, key):
        """position of a key in ascending key order"""
        ks = self.keyset()
        return mk('kidx', ks, key) if ks is not None else app('?mapidx', 'Z', self.dom, key)

    def has(self, key):
        return subst(self.dom, {self.k: key})

    def get(self, key):
        return vsubst(self.val, {self.k: key}) if self.val is not None else None

    def __repr__(self):
        return 'Map(%s: %s -> %s)' % (self.k, self.dom, self.val)


class LV(V):
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def step(self, *s):
        return LV(self.root, self.path + (s,))

    def __eq__(self, o):
        return isinstance(o, LV) and o.root == self.root and o.path == self.path

    def __hash__(self):
        return hash((self.root, self.path))

    def __repr__(self):
        return 'LV(%s%s)' % (self.root, ''.join('.' + '/'.join(map(str, p)) for p in self.path))


class PtrV(V):
    """pointer to an lvalue (lv None = null)"""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def __repr__(self):
        return 'Ptr(%r)' % (self.lv,)


class IterV(V):
    __slots__ = ('lv', 'i', 'kind')

    def __init__(self, lv, i, kind='vec'):
        self.lv, self.i, self.kind = lv, i, kind

    def __repr__(self):
        return 'Iter(%r,%s)' % (self.lv, self.i)


class IteV(V):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Ite(%s ? %r : %r)' % (self.c, self.a, self.b)


class LamV(V):
    __slots__ = ('node', 'env', 'this')

    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class FnV(V):
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref


class AxisV(V):
    """x.rowwise() / x.colwise()"""
    __slots__ = ('m', 'row', 'lv')

    def __init__(self, m, row, lv=None):
        self.m, self.row, self.lv = m, row, lv


class CommaV(V):
    __slots__ = ('lv', 'parts')

    def __init__(self, lv, parts):
        self.lv, self.parts = lv, parts


class DecV(V):
    """a matrix decomposition object: kind and the operand"""
    __slots__ = ('kind', 'm', 'extra')

    def __init__(self, kind, m, extra=()):
        self.kind, self.m, self.extra = kind, m, extra


class PermV(V):
    """Eigen permutation: index vector"""
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m


class TriV(V):
    __slots__ = ('m', 'kind')

    def __init__(self, m, kind):
        self.m, self.kind = m, kind


class OpqV(V):
    """unmodelled value; deps are the terms it may depend on"""
    __slots__ = ('name', 'deps')

    def __init__(self, name, deps=()):
        self.name, self.deps = name, tuple(deps)

    def __repr__(self):
        return 'Opq(%s)' % self.name


class UninitV(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Uninit(%s)' % self.name


def vsubst(v, m):
    if not m:
        return v
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, MatV):
        return MatV(subst(v.r, m), subst(v.c, m), subst(v.body, m))
    if isinstance(v, ListV):
        return ListV(subst(v.n, m), v.k, vsubst(v.e, m))
    if isinstance(v, PhiL):
        def mk2(i, f=v.mk, m=m):
            return vsubst(f(i), m)
        return PhiL(v.name, subst(v.n, m), mk2)
    if isinstance(v, AppV):
        return AppV(vsubst(v.base, m), [(subst(c, m), vsubst(x, m)) for c, x in v.items])
    if isinstance(v, ObjV):
        return ObjV(v.cls, {k: vsubst(x, m) for k, x in v.f.items()})
    if isinstance(v, TupV):
        return TupV([vsubst(x, m) for x in v.xs])
    if isinstance(v, MapV):
        return MapV(v.k, subst(v.dom, m), vsubst(v.val, m) if v.val is not None else None, v.ordered, [x if x is None or x[0] == 'phi' else (subst(x[0], m) if x[0] is not None else None, x[1], subst(x[2], m), subst(x[3], m)) for x in v.srcs])
    if isinstance(v, IteV):
        return mergev(subst(v.c, m), vsubst(v.a, m), vsubst(v.b, m))
    if isinstance(v, IterV):
        return IterV(v.lv, vsubst(v.i, m) if v.i is not None else None, v.kind)
    if isinstance(v, LV):
        return LV(v.root, tuple(tuple(subst(x, m) if isinstance(x, T) else x for x in p) for p in v.path))
    if isinstance(v, PtrV):
        return PtrV(vsubst(v.lv, m) if v.lv is not None else None)
    if isinstance(v, OpqV):
        return OpqV(v.name, [subst(d, m) for d in v.deps])
    if isinstance(v, BlkV):
        return BlkV(vsubst(v.l, m))
    if isinstance(v, (PermV,)):
        return PermV(vsubst(v.m, m))
    if isinstance(v, DecV):
        return DecV(v.kind, vsubst(v.m, m), v.extra)
    if isinstance(v, TriV):
        return TriV(vsubst(v.m, m), v.kind)
    if isinstance(v, AxisV):
        return AxisV(vsubst(v.m, m), v.row, v.lv)
    return v


def flat_list(v):
    """AppV over a concrete list -> ListV when possible"""
    if isinstance(v, AppV):
        b = flat_list(v.base)
        if isinstance(b, ListV):
            for c, x in v.items:
                n0 = b.n
                if c is FALSE:
                    continue
                k = fresh('k')
                if isinstance(x, BlkV):
                    e = mergev(lt(k, n0), b.at(k), x.l.at(sub(k, n0))) if n0 is not ZERO else x.l.at(k)
                    b = ListV(add(n0, mul(b2t(c), x.l.n)), k, e)
                    continue
                e = mergev(eq(k, n0), x, b.at(k)) if n0 is not ZERO else x
                b = ListV(add(n0, b2t(c)), k, e)
            return b
    return v


def veq(a, b):
    """identical abstract values?"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, T):
        return False
    if isinstance(a, MatV):
        return a.r is b.r and a.c is b.c and a.body is b.body
    if isinstance(a, ListV):
        return a.n is b.n and veq(a.e, b.at(a.k))
    if isinstance(a, ObjV):
        return a.cls == b.cls and a.f.keys() == b.f.keys() and all(veq(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, TupV):
        return len(a.xs) == len(b.xs) and all(veq(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, MapV):
        return a.dom is subst(b.dom, {b.k: a.k}) and ((a.val is None and b.val is None) or (a.val is not None and b.val is not None and veq(a.val, b.get(a.k))))
    if isinstance(a, PtrV):
        return a.lv == b.lv
    if isinstance(a, LV):
        return a == b
    if isinstance(a, IterV):
        return a.lv == b.lv and a.i is b.i
    if isinstance(a, PhiL):
        return a.name == b.name and a.n is b.n
    if isinstance(a, AppV):
        return veq(a.base, b.base) and len(a.items) == len(b.items) and all(c1 is c2 and veq(x1, x2) for (c1, x1), (c2, x2) in zip(a.items, b.items))
    if isinstance(a, OpqV):
        return a.name == b.name and a.deps == b.deps
    if isinstance(a, BlkV):
        return veq(a.l, b.l)
    if isinstance(a, UninitV):
        return a.name == b.name
    if isinstance(a, IteV):
        return a.c is b.c and veq(a.a, b.a) and veq(a.b, b.b)
    if isinstance(a, PermV):
        return veq(a.m, b.m)
    if isinstance(a, DecV):
        return a.kind == b.kind and veq(a.m, b.m)
    if isinstance(a, FnV):
        return a.ref.get('q') == b.ref.get('q')
    if isinstance(a, LamV):
        return a.node is b.node
    return False


def vrestrict(v, c, val):
    if isinstance(v, T):
        return restrict(v, c, val)
    if isinstance(v, MatV):
        return MatV(restrict(v.r, c, val), restrict(v.c, c, val), restrict(v.body, c, val))
    return v


def deps_of(v, out=None):
    if out is None:
        out = []
    if isinstance(v, T):
        if v.op not in ('num', 'tru', 'fls', 'str'):
            out.append(v)
    elif isinstance(v, MatV):
        for x in (v.r, v.c, v.body):
            deps_of(x, out)
    elif isinstance(v, ListV):
        deps_of(v.n, out)
        deps_of(v.e, out)
    elif isinstance(v, AppV):
        deps_of(v.base, out)
        for c, x in v.items:
            deps_of(c, out)
            deps_of(x, out)
    elif isinstance(v, PhiL):
        deps_of(v.n, out)
    elif isinstance(v, ObjV):
        for x in v.f.values():
            deps_of(x, out)
    elif isinstance(v, TupV):
        for x in v.xs:
            deps_of(x, out)
    elif isinstance(v, MapV):
        deps_of(v.dom, out)
        if v.val is not None:
            deps_of(v.val, out)
    elif isinstance(v, IteV):
        deps_of(v.c, out)
        deps_of(v.a, out)
        deps_of(v.b, out)
    elif isinstance(v, OpqV):
        out.extend(v.deps)
    elif isinstance(v, BlkV):
        deps_of(v.l, out)
    elif isinstance(v, (PermV, DecV, TriV, AxisV)):
        deps_of(v.m, out)
    elif isinstance(v, IterV):
        if v.i is not None:
            deps_of(v.i, out)
    return out


def _sc(x):
    return b2t(x) if srt(x) == 'B' else x


def mergev(c, a, b):
    """value equal to a when c holds and to b otherwise"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b or veq(a, b):
        return a
    if isinstance(a, T) and isinstance(b, T):
        if (srt(a) == 'B') != (srt(b) == 'B'):
            a, b = _sc(a), _sc(b)
        return ite(c, a, b)
    if isinstance(a, UninitV) and isinstance(b, T):
        return ite(c, sym('undef:' + a.name, srt(b)), b)
    if isinstance(b, UninitV) and isinstance(a, T):
        return ite(c, a, sym('undef:' + b.name, srt(a)))
    if isinstance(a, MatV) and isinstance(b, MatV):
        return MatV(ite(c, a.r, b.r), ite(c, a.c, b.c), ite(c, a.body, b.body))
    if isinstance(a, ObjV) and isinstance(b, ObjV) and a.f.keys() == b.f.keys():
        return ObjV(a.cls, {k: mergev(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, TupV) and isinstance(b, TupV) and len(a.xs) == len(b.xs):
        return TupV([mergev(c, x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, (AppV, PhiL)) or isinstance(b, (AppV, PhiL)):
        ba, ia = (a.base, a.items) if isinstance(a, AppV) else (a, [])
        bb, ib = (b.base, b.items) if isinstance(b, AppV) else (b, [])
        if veq(ba, bb):
            if len(ia) <= 1 and len(ib) <= 1 and not any(isinstance(x, BlkV) for _, x in ia + ib):
                if not ib:
                    return AppV(ba, [(and_(c, ia[0][0]), ia[0][1])])
                if not ia:
                    return AppV(ba, [(and_(not_(c), ib[0][0]), ib[0][1])])
                return AppV(ba, [(or_(and_(c, ia[0][0]), and_(not_(c), ib[0][0])), mergev(c, ia[0][1], ib[0][1]))])
            # common prefix
            k = 0
            while k < len(ia) and k < len(ib) and ia[k][0] is ib[k][0] and veq(ia[k][1], ib[k][1]):
                k += 1
            items = list(ia[:k]) + [(and_(c, q), x) for q, x in ia[k:]] + [(and_(not_(c), q), x) for q, x in ib[k:]]
            return AppV(ba, items)
        fa, fb = flat_list(a), flat_list(b)
        if isinstance(fa, ListV) and isinstance(fb, ListV):
            return mergev(c, fa, fb)
        return IteV(c, a, b)
    if isinstance(a, ListV) and isinstance(b, ListV):
        k = fresh('k')
        if a.n is ZERO:
            return ListV(ite(c, ZERO, b.n), b.k, b.e)
        if b.n is ZERO:
            return ListV(ite(c, a.n, ZERO), a.k, a.e)
        return ListV(ite(c, a.n, b.n), k, mergev(c, a.at(k), b.at(k)))
    if isinstance(a, MapV) and isinstance(b, MapV):
        k = a.k
        def gs(xs, g):
            return [x if x is None or x[0] == 'phi' else (x[0], x[1], and_(g, x[2]), x[3]) for x in xs]

        def same(x, y):
            return x is y or (x is not None and y is not None and all(p is q for p, q in zip(x, y)))
        pre = []
        for x, y in zip(a.srcs, b.srcs):
            if not same(x, y):
                break
            pre.append(x)
        srcs = pre + gs(a.srcs[len(pre):], c) + gs(b.srcs[len(pre):], not_(c))
        return MapV(k, ite(c, a.dom, b.has(k)), mergev(c, a.val, b.get(k)) if a.val is not None and b.val is not None else None, a.ordered, srcs)
    if isinstance(a, PermV) and isinstance(b, PermV):
        return PermV(mergev(c, a.m, b.m))
    return IteV(c, a, b)


def vmap_ite(v, f):
    """distribute f over gated values"""
    if isinstance(v, IteV):
        return mergev(v.c, vmap_ite(v.a, f), vmap_ite(v.b, f))
    return f(v)


def toterm(v):
    """encode a value as one term (argument of unknown functions)"""
    if isinstance(v, T):
        return v
    if isinstance(v, MatV):
        s1, s2 = fresh('o'), fresh('o')
        return matT(v.r, v.c, s1, s2, subst(v.body, {I: s1, J: s2}))
    if isinstance(v, ListV):
        s = fresh('o')
        return rawbind('vec', v.n, s, toterm(v.at(s)))
    if isinstance(v, AppV):
        f = flat_list(v)
        if isinstance(f, ListV):
            return toterm(f)
        return mk('tup', toterm(v.base), *[x for c, y in v.items for x in (c, toterm(y))])
    if isinstance(v, ObjV):
        return mk('tup', *[toterm(x) for k, x in sorted(v.f.items())])
    if isinstance(v, TupV):
        return mk('tup', *[toterm(x) for x in v.xs])
    if isinstance(v, IteV):
        return mk('ite', v.c, toterm(v.a), toterm(v.b))
    if isinstance(v, MapV):
        s = fresh('o', 'R')
        return rawbind('vec', ZERO, s, mk('tup', subst(v.dom, {v.k: s}), toterm(v.get(s)) if v.val is not None else ZERO))
    if isinstance(v, PermV):
        return toterm(v.m)
    if isinstance(v, BlkV):
        return toterm(v.l)
    if isinstance(v, OpqV):
        return app('?' + v.name, 'R', *v.deps)
    if isinstance(v, UninitV):
        return sym('undef:' + v.name)
    if isinstance(v, PtrV):
        return mk('str', repr(v))
    if isinstance(v, PhiL):
        return sym('?' + v.name)
    return app('?val', 'R', *deps_of(v))


def vmapt(v, f):
    """apply a term transformer to every term inside a value"""
    if isinstance(v, T):
        return f(v)
    if isinstance(v, MatV):
        return MatV(f(v.r), f(v.c), f(v.body))
    if isinstance(v, ListV):
        k = fresh('k')
        return ListV(f(v.n), k, vmapt(v.at(k), f))
    if isinstance(v, PhiL):
        def mk2(i, g=v.mk):
            return vmapt(g(i), f)
        return PhiL(v.name, f(v.n), mk2)
    if isinstance(v, AppV):
        return AppV(vmapt(v.base, f), [(f(c), vmapt(x, f)) for c, x in v.items])
    if isinstance(v, BlkV):
        return BlkV(vmapt(v.l, f))
    if isinstance(v, ObjV):
        return ObjV(v.cls, {k: vmapt(x, f) for k, x in v.f.items()})
    if isinstance(v, TupV):
        return TupV([vmapt(x, f) for x in v.xs])
    if isinstance(v, MapV):
        return MapV(v.k, f(v.dom), vmapt(v.val, f) if v.val is not None else None, v.ordered,
                    [x if x is None or x[0] == 'phi' else (f(x[0]) if x[0] is not None else None, x[1], f(x[2]), f(x[3])) for x in v.srcs])
    if isinstance(v, IteV):
        return mergev(f(v.c), vmapt(v.a, f), vmapt(v.b, f))
    if isinstance(v, IterV):
        return IterV(vmapt(v.lv, f), f(v.i) if v.i is not None else None, v.kind)
    if isinstance(v, LV):
        return LV(v.root, tuple(tuple(f(x) if isinstance(x, T) else x for x in p) for p in v.path))
    if isinstance(v, PtrV):
        return PtrV(vmapt(v.lv, f) if v.lv is not None else None)
    if isinstance(v, OpqV):
        return OpqV(v.name, [f(d) for d in v.deps])
    if isinstance(v, PermV):
        return PermV(vmapt(v.m, f))
    if isinstance(v, DecV):
        return DecV(v.kind, vmapt(v.m, f), v.extra)
    if isinstance(v, TriV):
        return TriV(vmapt(v.m, f), v.kind)
    if isinstance(v, AxisV):
        return AxisV(vmapt(v.m, f), v.row, v.lv)
    if isinstance(v, (list, tuple)):
        return type(v)(vmapt(x, f) for x in v)
    return v
