"""Hash-consed first-order terms with binders: the abstract values of the analysis.

Scalars are polynomials with rational coefficients over atoms (symbols, tensor elements, function
applications, gated values, bounded sums ...).  Binders are stored with canonical levels, so two
alpha-equivalent terms are the same object.  Nothing in here executes the analysed program.
"""
from fractions import Fraction as Fr
import math

_tab = {}
_next = [0]
EMPTY = frozenset()
BINDERS = {'sum', 'prod', 'rmax', 'rmin', 'argmax', 'argmin', 'any', 'first', 'sel', 'vec', 'usum', 'nth', 'srt', 'rank'}


class T:
    __slots__ = ('op', 'a', 'id', 'fs', 'lvl', '_srt', 'bvs', '_h')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    # arithmetic sugar used by the specifications
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return neg(self)
    def __pow__(self, e): return powr(self, Fr(e))


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, Fr)):
        return num(x)
    if isinstance(x, str):
        return mk('str', x)
    raise TypeError(x)


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op = op
    t.a = a
    t.id = _next[0]
    _next[0] += 1
    t._h = hash((op, t.id))
    t._srt = None
    if op == 'sym' or op == 'ten':
        t.fs = frozenset((t,))
        t.lvl = 0
        t.bvs = EMPTY
    elif op == 'bv':
        t.fs = EMPTY
        t.lvl = 0
        t.bvs = frozenset((a[0],))
    else:
        fs = EMPTY
        lvl = 0
        bvs = EMPTY
        for x in _kids(t):
            if x.fs is not fs:
                fs = fs | x.fs if fs else x.fs
            if x.lvl > lvl:
                lvl = x.lvl
            if x.bvs:
                bvs = bvs | x.bvs
        if op in BINDERS:
            L = a[-1]
            bvs = bvs - frozenset((L,))
            if L > lvl:
                lvl = L
        elif op == 'mat':
            L = a[-1]
            bvs = bvs - frozenset((L, L + 1))
            if L + 1 > lvl:
                lvl = L + 1
        t.fs = fs
        t.lvl = lvl
        t.bvs = bvs
    _tab[key] = t
    return t


def _kids(t):
    if t.op == 'poly':
        out = []
        for m, c in t.a:
            for at, e in m:
                out.append(at)
        return out
    return [x for x in t.a if isinstance(x, T)]


def num(x):
    return mk('num', Fr(x))


def sym(name, sort='R', *info):
    return mk('sym', name, sort, *info)


def ten(name, sort='R', *info):
    """tensor symbol: an unknown matrix"""
    return mk('ten', name, sort, *info)


_fresh = [0]


def fresh(prefix, sort='Z', *info):
    _fresh[0] += 1
    return sym('%s#%d' % (prefix, _fresh[0]), sort, *info)


TRUE = mk('tru')
FALSE = mk('fls')
ZERO = num(0)
ONE = num(1)
INF = mk('inf')
I = sym('I', 'Z')
J = sym('J', 'Z')

Z_OPS = {'idiv', 'imod', 'trunc', 'floor', 'ceil', 'nat', 'len', 'size', 'first', 'sel', 'argmax', 'argmin', 'rank', 'round', 'ksize', 'kidx'}


def srt(t):
    """'Z' integer valued, 'B' boolean, 'S' string, 'R' otherwise"""
    s = t._srt
    if s is not None:
        return s
    op = t.op
    if op == 'num':
        s = 'Z' if t.a[0].denominator == 1 else 'R'
    elif op == 'sym':
        s = t.a[1]
    elif op == 'bv':
        s = 'Z'
    elif op == 'poly':
        s = 'Z'
        for m, c in t.a:
            if c.denominator != 1:
                s = 'R'
                break
            for at, e in m:
                if e.denominator != 1 or e < 0 or srt(at) != 'Z':
                    s = 'R'
                    break
    elif op == 'el':
        s = srt_ten(t.a[0])
    elif op == 'fn':
        s = 'Z' if t.a[0] in Z_OPS else 'R'
    elif op in ('argmax', 'argmin', 'first', 'sel', 'rank', 'ksize', 'kidx'):
        s = 'Z'
    elif op == 'kth':
        s = t.a[0].a[0].a[1].a[1] if t.a[0].a else t
        s = srt(s) if isinstance(s, T) else 'R'
    elif op in ('sum', 'rmax', 'rmin', 'prod', 'usum'):
        s = srt(t.a[1])
    elif op == 'ite':
        s1, s2 = srt(t.a[1]), srt(t.a[2])
        s = s1 if s1 == s2 else 'R'
    elif op in ('tru', 'fls', 'lt0', 'eq0', 'not', 'and', 'or', 'any', 'seq', 'bapp'):
        s = 'B'
    elif op == 'str':
        s = 'S'
    elif op == 'app':
        s = t.a[1]
    else:
        s = 'R'
    t._srt = s
    return s


def srt_ten(t):
    if t.op == 'ten':
        return t.a[1]
    if t.op == 'tapp':
        return t.a[1]
    return 'R'


# ---------------------------------------------------------------- polynomials
def pd(t):
    """term -> {mono: coef}"""
    if t.op == 'poly':
        return dict(t.a)
    if t.op == 'num':
        return {(): t.a[0]} if t.a[0] else {}
    return {((t, Fr(1)),): Fr(1)}


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def unpd(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _mkey(mc[0]))
    return mk('poly', *items)


def add(*ts):
    d = {}
    inf = None
    for t in ts:
        if t is INF or (t.op == 'poly' and _hasinf(t)):
            inf = t if inf is None else inf
        for m, c in pd(t).items():
            d[m] = d.get(m, 0) + c
            if not d[m]:
                del d[m]
    return unpd(d)


def _hasinf(t):
    return False


def neg(t):
    return scale(t, -1)


def scale(t, c):
    c = Fr(c)
    if c == 1:
        return t
    return unpd({m: k * c for m, k in pd(t).items()})


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def _norm_mono(fs):
    """combine factor list [(atom, exp)] -> (coef, mono, extra polys to multiply)"""
    d = {}
    coef = Fr(1)
    exparg = None
    extra = []
    for at, e in fs:
        if not e:
            continue
        if at.op == 'num':
            if e.denominator == 1:
                v = at.a[0]
                if v == 0 and e < 0:
                    d[at] = d.get(at, 0) + e
                    continue
                coef *= v ** int(e)
                continue
        if at.op == 'fn' and at.a[0] == 'exp':
            x = scale(at.a[1], e)
            exparg = x if exparg is None else add(exparg, x)
            continue
        d[at] = d.get(at, Fr(0)) + e
    out = []
    for at, e in d.items():
        if not e:
            continue
        if at.op == 'num':
            if e.denominator == 1 and not (at.a[0] == 0):
                coef *= at.a[0] ** int(e)
                continue
            # c^(p/q): pull out the integer part
            k = math.floor(e)
            if k and at.a[0] > 0:
                coef *= at.a[0] ** k
                e = e - k
                if not e:
                    continue
        if at.op == 'poly' and e.denominator == 1 and 0 < e <= 4:
            extra.append((at, int(e)))
            continue
        if at.op == 'ite' and e != 1 and e > 0 and at.a[1] is ONE and at.a[2] is ZERO:
            e = Fr(1)
        out.append((at, e))
    if exparg is not None and exparg is not ZERO:
        out.append((fn('exp', exparg), Fr(1)))
    out.sort(key=lambda ae: (ae[0].id, ae[1]))
    # mutually exclusive iversons
    if len(out) > 1:
        conds = [at.a[0] for at, e in out if at.op == 'ite' and at.a[1] is ONE and at.a[2] is ZERO]
        if len(conds) > 1:
            s = set(conds)
            for c in conds:
                if not_(c) in s:
                    return Fr(0), (), []
    return coef, tuple(out), extra


_mulmemo = {}


def mul(a, b):
    if a.op == 'num':
        return scale(b, a.a[0]) if a.a[0] else ZERO
    if b.op == 'num':
        return scale(a, b.a[0]) if b.a[0] else ZERO
    k = (a, b) if a.id <= b.id else (b, a)
    r = _mulmemo.get(k)
    if r is not None:
        return r
    d = {}
    rest = ZERO
    for m1, c1 in pd(a).items():
        for m2, c2 in pd(b).items():
            co, m, extra = _norm_mono(m1 + m2)
            co = co * c1 * c2
            if not co:
                continue
            if extra:
                t = unpd({m: co})
                for p, e in extra:
                    for _ in range(e):
                        t = mul(t, p)
                rest = add(rest, t)
            else:
                d[m] = d.get(m, Fr(0)) + co
    r = unpd(d)
    if rest is not ZERO:
        r = add(r, rest)
    _mulmemo[k] = r
    return r


def isqrt_exact(x):
    if x < 0:
        return None
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if n * n == x.numerator and d * d == x.denominator:
        return Fr(n, d)
    return None


def powr(t, e):
    e = Fr(e)
    if e == 1:
        return t
    if e == 0:
        return ONE
    if t.op == 'num':
        v = t.a[0]
        if e.denominator == 1 and (v != 0 or e > 0):
            return num(v ** int(e))
        if e == Fr(1, 2):
            r = isqrt_exact(v)
            if r is not None:
                return num(r)
        return unpd({((t, e),): Fr(1)})
    if t.op == 'ite' and e.denominator == 1 and e > 0:
        return ite(t.a[0], powr(t.a[1], e), powr(t.a[2], e))
    d = pd(t)
    if len(d) == 1:
        (m, c), = d.items()
        if e.denominator == 1 and (c != 0):
            co, m2, ex = _norm_mono(tuple((at, x * e) for at, x in m))
            r = unpd({m2: co * c ** int(e)})
            for p, k in ex:
                for _ in range(k):
                    r = mul(r, p)
            return r
        if len(m) == 1 and m[0][0].op == 'fn' and m[0][0].a[0] == 'exp':
            return mul(powr(num(c), e), fn('exp', scale(m[0][0].a[1], m[0][1] * e)))
        if all(nonneg(at) for at, x in m) and c > 0:
            co, m2, ex = _norm_mono(tuple((at, x * e) for at, x in m))
            r = unpd({m2: co})
            for p, k in ex:
                for _ in range(k):
                    r = mul(r, p)
            return mul(r, powr(num(c), e))
        if c != 1 and c > 0:
            return mul(powr(num(c), e), powr(unpd({m: Fr(1)}), e))
        return unpd({((t, e),): Fr(1)})
    if e.denominator == 1 and 0 < e <= 4:
        r = t
        for _ in range(int(e) - 1):
            r = mul(r, t)
        return r
    # primitive part
    items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
    lead = items[0][1]
    if e.denominator == 1:
        if lead != 1:
            return mul(num(lead ** int(e)), powr(scale(t, 1 / lead), e))
    else:
        l = abs(lead)
        if l != 1:
            return mul(powr(num(l), e), powr(scale(t, 1 / l), e))
    return unpd({((t, e),): Fr(1)})


def div(a, b):
    return mul(a, powr(b, -1))


def sqrt(t):
    return powr(t, Fr(1, 2))


def nonneg(t):
    if t.op == 'num':
        return t.a[0] >= 0
    if t.op == 'fn':
        return t.a[0] in ('exp', 'abs', 'nat', 'len', 'size')
    if t.op == 'sym':
        return 'pos' in t.a or 'dim' in t.a or 'nn' in t.a or (len(t.a) > 2 and isinstance(t.a[2], T))
    if t.op == 'poly':
        for m, c in t.a:
            if c < 0:
                return False
            for at, e in m:
                if not (e.denominator == 1 and int(e) % 2 == 0) and not nonneg(at):
                    return False
        return True
    if t.op == 'ite':
        return nonneg(t.a[1]) and nonneg(t.a[2])
    if t.op in ('sum', 'rmax', 'rmin', 'prod'):
        return nonneg(t.a[1])
    if t.op in ('argmax', 'argmin', 'first', 'sel', 'bv', 'rank', 'ksize', 'kidx'):
        return True
    if t.op == 'app' and t.a[1] == 'Z':
        return t.a[0].endswith('.n')
    return False


# ---------------------------------------------------------------- functions
def fn(name, *args):
    if name == 'exp':
        x = args[0]
        if x is ZERO:
            return ONE
        if x.op == 'ite':
            return ite(x.a[0], fn('exp', x.a[1]), fn('exp', x.a[2]))
        if x.op == 'fn' and x.a[0] == 'log':
            return x.a[1]
    elif name == 'log':
        x = args[0]
        if x is ONE:
            return ZERO
        if x.op == 'fn' and x.a[0] == 'exp':
            return x.a[1]
        d = pd(x)
        if len(d) == 1:
            (m, c), = d.items()
            if m and c > 0 and all(nonneg(at) for at, e in m) and (len(m) > 1 or m[0][1] != 1 or c != 1):
                r = fn('log', num(c)) if c != 1 else ZERO
                for at, e in m:
                    r = add(r, scale(fn('log', at), e))
                return r
    elif name in ('trunc', 'floor', 'ceil', 'round'):
        x = args[0]
        if srt(x) == 'Z':
            return x
        if x.op == 'num':
            v = x.a[0]
            return num({'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil, 'round': round}[name](v))
        if x.op == 'ite':
            return ite(x.a[0], fn(name, x.a[1]), fn(name, x.a[2]))
    elif name == 'idiv':
        a, b = args
        if b is ONE:
            return a
        if a.op == 'num' and b.op == 'num' and b.a[0]:
            q = abs(a.a[0]) // abs(b.a[0])
            return num(q if (a.a[0] >= 0) == (b.a[0] > 0) else -q)
        if a is ZERO:
            return ZERO
    elif name == 'imod':
        a, b = args
        if a.op == 'num' and b.op == 'num' and b.a[0]:
            return num(int(math.fmod(int(a.a[0]), int(b.a[0]))))
        if b is ONE or a is ZERO or a is b:
            return ZERO
    elif name == 'nat':
        x = args[0]
        if nonneg(x):
            return x
        if x.op == 'num':
            return ZERO
    elif name == 'abs':
        x = args[0]
        return abs_(x)
    return mk('fn', name, *args)


def abs_(x):
    if nonneg(x):
        return x
    if x.op == 'num':
        return num(abs(x.a[0]))
    # canonical sign
    d = pd(x)
    items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
    if items and items[0][1] < 0:
        x = neg(x)
    return mk('fn', 'abs', x)


def sign_(x):
    return ite(lt(ZERO, x), ONE, ite(lt(x, ZERO), num(-1), ZERO))


def max_(a, b):
    if a is b:
        return a
    return ite(lt(a, b), b, a)


def min_(a, b):
    if a is b:
        return a
    return ite(lt(b, a), b, a)


def app(name, sort, *args):
    return mk('app', name, sort, *args)


def tapp(name, sort, *args):
    return mk('tapp', name, sort, *args)


def el(t, i, j):
    return mk('el', t, i, j)


# ---------------------------------------------------------------- booleans
def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.a[0]
    if c.op == 'and':
        return or_(*[not_(x) for x in c.a])
    if c.op == 'or':
        return and_(*[not_(x) for x in c.a])
    if c.op == 'lt0' and srt(c.a[0]) == 'Z':
        return lt0(sub(neg(c.a[0]), ONE))
    return mk('not', c)


def and_(*cs):
    out = []
    seen = set()
    st = list(cs)
    st.reverse()
    while st:
        c = st.pop()
        if c is TRUE or c in seen:
            continue
        if c is FALSE:
            return FALSE
        if c.op == 'and':
            st.extend(reversed(c.a))
            continue
        seen.add(c)
        out.append(c)
    for c in out:
        if not_(c) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    # absorb: a ∧ (a ∨ b) = a ; a ∧ (¬a ∨ b) = a ∧ b
    ch = False
    res = []
    for c in out:
        if c.op == 'or':
            if any(x in seen for x in c.a):
                ch = True
                continue
            ks = [x for x in c.a if not_(x) not in seen]
            if len(ks) != len(c.a):
                ch = True
                res.append(or_(*ks))
                continue
        res.append(c)
    if ch:
        return and_(*res)
    out.sort(key=lambda x: x.id)
    return mk('and', *out)


def or_(*cs):
    out = []
    seen = set()
    st = list(cs)
    st.reverse()
    while st:
        c = st.pop()
        if c is FALSE or c in seen:
            continue
        if c is TRUE:
            return TRUE
        if c.op == 'or':
            st.extend(reversed(c.a))
            continue
        seen.add(c)
        out.append(c)
    for c in out:
        if not_(c) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    ch = False
    res = []
    for c in out:
        if c.op == 'and':
            if any(x in seen for x in c.a):
                ch = True
                continue
            ks = [x for x in c.a if not_(x) not in seen]
            if len(ks) != len(c.a):
                ch = True
                res.append(and_(*ks))
                continue
        res.append(c)
    if ch:
        return or_(*res)
    # factor common conjuncts: (a∧b)∨(a∧¬b) = a
    if len(out) == 2 and all(c.op == 'and' for c in out):
        s1, s2 = set(out[0].a), set(out[1].a)
        com = s1 & s2
        if com:
            r = or_(and_(*(s1 - com)), and_(*(s2 - com)))
            return and_(*com, r)
    out.sort(key=lambda x: x.id)
    return mk('or', *out)


def lt0(p):
    if p.op == 'num':
        return TRUE if p.a[0] < 0 else FALSE
    if p is INF:
        return FALSE
    if p.op == 'ite':
        a, b = p.a[1], p.a[2]
        if a.op == 'num' or b.op == 'num':
            return or_(and_(p.a[0], lt0(a)), and_(not_(p.a[0]), lt0(b)))
    if nonneg(p):
        return FALSE
    d = pd(p)
    if p.op == 'poly':
        lead = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
        # skip the constant when choosing the scale
        k = next((c for m, c in lead if m), None)
        if k is not None and abs(k) != 1 and srt(p) != 'Z':
            p = scale(p, 1 / abs(k))
    return mk('lt0', p)


def lt(a, b):
    if a is b:
        return FALSE
    if b is INF:
        return not_(isinf_(a))
    if a is INF:
        return FALSE
    if a.op == 'ite' and (a.a[1] is INF or a.a[2] is INF):
        return or_(and_(a.a[0], lt(a.a[1], b)), and_(not_(a.a[0]), lt(a.a[2], b)))
    return lt0(sub(a, b))


def isinf_(a):
    if a is INF:
        return TRUE
    if a.op == 'ite':
        return or_(and_(a.a[0], isinf_(a.a[1])), and_(not_(a.a[0]), isinf_(a.a[2])))
    if 'fin' in str(a.op):
        return FALSE
    if INF_possible(a):
        return mk('bapp', 'isinf', a)
    return FALSE


_infm = {}


def INF_possible(a):
    r = _infm.get(a)
    if r is None:
        r = a is INF or (a.op == 'sym' and 'inf' in a.a) or any(INF_possible(x) for x in _kids(a))
        _infm[a] = r
    return r


def le(a, b):
    return not_(lt(b, a))


def eq0(p):
    if p.op == 'num':
        return TRUE if p.a[0] == 0 else FALSE
    if p is INF:
        return FALSE
    if p.op == 'ite' and (p.a[1].op == 'num' or p.a[2].op == 'num'):
        return or_(and_(p.a[0], eq0(p.a[1])), and_(not_(p.a[0]), eq0(p.a[2])))
    if p.op == 'poly':
        items = sorted(p.a, key=lambda mc: _mkey(mc[0]))
        k = next((c for m, c in items if m), None)
        if k is not None and k != 1:
            p = scale(p, 1 / k)
        # an integer combination equal to a fraction is impossible
        cst = dict(p.a).get((), Fr(0)) if p.op == 'poly' else Fr(0)
        if cst.denominator != 1 and srt(sub(p, num(cst))) == 'Z':
            return FALSE
    return mk('eq0', p)


def eq(a, b):
    if a is b:
        return TRUE
    sa, sb = srt(a), srt(b)
    if sa == 'S' or sb == 'S':
        return seq(a, b)
    if sa == 'B' and sb == 'B':
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a is INF or b is INF:
        return isinf_(b if a is INF else a)
    return eq0(sub(a, b))


def seq(a, b):
    if a is b:
        return TRUE
    if a.op == 'str' and b.op == 'str':
        return FALSE
    if a.op == 'ite':
        return or_(and_(a.a[0], seq(a.a[1], b)), and_(not_(a.a[0]), seq(a.a[2], b)))
    if b.op == 'ite':
        return seq(b, a)
    if a.id > b.id:
        a, b = b, a
    return mk('seq', a, b)


def b2t(c):
    """boolean -> 0/1"""
    return ite(c, ONE, ZERO)


def t2b(t):
    if srt(t) == 'B':
        return t
    if t.op == 'num':
        return TRUE if t.a[0] else FALSE
    if t.op == 'ite':
        return or_(and_(t.a[0], t2b(t.a[1])), and_(not_(t.a[0]), t2b(t.a[2])))
    return not_(eq(t, ZERO))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return ite(c.a[0], b, a)
    a = restrict(a, c, True)
    b = restrict(b, c, False)
    if a is b:
        return a
    if srt(a) == 'B' and srt(b) == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    # canonical polarity for integer comparisons is not unique: order by id
    n = not_(c)
    if n.op != 'not' and n.id < c.id:
        c, a, b = n, b, a
    # nested same branch
    if b.op == 'ite' and b.a[1] is a:
        return ite(or_(c, b.a[0]), a, b.a[2])
    if b.op == 'ite' and b.a[2] is a:
        return ite(and_(not_(c), b.a[0]), b.a[1], a)
    if a.op == 'ite' and a.a[2] is b:
        return ite(and_(c, a.a[0]), a.a[1], b)
    if a.op == 'ite' and a.a[1] is b:
        return ite(and_(c, not_(a.a[0])), a.a[2], b)
    return mk('ite', c, a, b)


_rm = {}


def restrict(t, c, val, depth=6):
    """simplify t knowing the condition c is val"""
    if depth == 0 or t.op in ('num', 'sym', 'ten', 'str', 'tru', 'fls', 'bv'):
        return t
    facts = {}
    cc = c if val else not_(c)
    if cc.op == 'and':
        for x in cc.a:
            facts[x] = TRUE
            facts[not_(x)] = FALSE
    facts[cc] = TRUE
    facts[not_(cc)] = FALSE
    # equality lets us substitute an index symbol
    return _restrict(t, facts, frozenset(facts), {})


def _restrict(t, facts, key, memo):
    if t in facts:
        return facts[t]
    if t.op in ('num', 'sym', 'ten', 'str', 'tru', 'fls', 'bv'):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'ite':
        c = _restrict(t.a[0], facts, key, memo)
        if c is TRUE:
            r = _restrict(t.a[1], facts, key, memo)
        elif c is FALSE:
            r = _restrict(t.a[2], facts, key, memo)
        else:
            r = rebuild(t, lambda x: _restrict(x, facts, key, memo))
    elif t.op in BINDERS or t.op == 'mat':
        r = t
    else:
        r = rebuild(t, lambda x: _restrict(x, facts, key, memo))
    memo[t] = r
    return r


def rebuild(t, f):
    """apply f to children, re-normalising"""
    op = t.op
    if op == 'poly':
        ch = False
        new = []
        for m, c in t.a:
            for at, e in m:
                n = f(at)
                if n is not at:
                    ch = True
                new.append(n)
        if not ch:
            return t
        r = ZERO
        it = iter(new)
        for m, c in t.a:
            x = num(c)
            for at, e in m:
                x = mul(x, powr(next(it), e))
            r = add(r, x)
        return r
    ks = [f(x) if isinstance(x, T) else x for x in t.a]
    if all(x is y for x, y in zip(ks, t.a)):
        return t
    return make(op, ks)


def make(op, ks):
    if op == 'fn':
        return fn(*ks)
    if op == 'ite':
        return ite(*ks)
    if op == 'not':
        return not_(ks[0])
    if op == 'and':
        return and_(*ks)
    if op == 'or':
        return or_(*ks)
    if op == 'lt0':
        return lt0(ks[0])
    if op == 'eq0':
        return eq0(ks[0])
    if op == 'seq':
        return eq(ks[0], ks[1])
    if op == 'bapp' and ks[0] == 'isinf':
        return isinf_(ks[1])
    if op == 'el':
        if ks[0].op == 'mat':
            return mat_at(ks[0], ks[1], ks[2])
        if ks[0].op == 'vec':
            return open1(ks[0], ks[1])
    if op == 'nthel':
        pass
    return mk(op, *ks)


# ---------------------------------------------------------------- substitution and binders
def subst(t, m, memo=None):
    """simultaneous substitution {sym/bv/ten: term}"""
    if not m:
        return t
    if memo is None:
        memo = {}
        m = dict(m)
    keys_fs = [k for k in m if k.op != 'bv']
    keys_bv = frozenset(k.a[0] for k in m if k.op == 'bv')
    return _subst(t, m, frozenset(keys_fs), keys_bv, memo)


_pool = {}


def _poolsym(l):
    s = _pool.get(l)
    if s is None:
        s = _pool[l] = sym('@b%d' % l, 'Z')
    return s


def _subst(t, m, kf, kb, memo):
    if t in m:
        return m[t]
    if kf.isdisjoint(t.fs) and kb.isdisjoint(t.bvs):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BINDERS:
        s = fresh('o')
        body = subst(t.a[1], {mk('bv', t.a[-1]): s})
        hi = _subst(t.a[0], m, kf, kb, memo)
        body = _subst(body, m, kf, kb, {})
        rest = [_subst(x, m, kf, kb, memo) if isinstance(x, T) else x for x in t.a[2:-1]]
        r = bind(t.op, hi, s, body, *rest)
    elif t.op == 'mat':
        s1, s2 = fresh('o'), fresh('o')
        body = subst(t.a[2], {mk('bv', t.a[-1]): s1, mk('bv', t.a[-1] + 1): s2})
        r = matT(_subst(t.a[0], m, kf, kb, memo), _subst(t.a[1], m, kf, kb, memo), s1, s2, _subst(body, m, kf, kb, {}))
    else:
        r = rebuild(t, lambda x: _subst(x, m, kf, kb, memo))
    memo[t] = r
    return r


def rawbind(op, hi, s, body, *rest):
    L = body.lvl + 1
    b = subst(body, {s: mk('bv', L)})
    while b.lvl + 1 != L:   # substitution never changes levels here, but be safe
        L = b.lvl + 1
        b = subst(body, {s: mk('bv', L)})
    return mk(op, hi, b, *rest, L)


def open1(t, x):
    """body of a one-variable binder at x"""
    return subst(t.a[1], {mk('bv', t.a[-1]): x})


def matT(r, c, s1, s2, body):
    L = body.lvl + 1
    b = subst(body, {s1: mk('bv', L), s2: mk('bv', L + 1)})
    # eta
    if b.op == 'el' and b.a[1] is mk('bv', L) and b.a[2] is mk('bv', L + 1) and L not in b.a[0].bvs and (L + 1) not in b.a[0].bvs and b.a[0].op in ('ten', 'tapp'):
        return mk('mt', r, c, b.a[0])
    return mk('mat', r, c, b, L)


def mat_at(m, i, j):
    if m.op == 'mt':
        return el(m.a[2], i, j)
    return subst(m.a[2], {mk('bv', m.a[-1]): i, mk('bv', m.a[-1] + 1): j})


def linear_in(p, s):
    """p = c*s + rest with c a nonzero rational and rest free of s, else None"""
    c = Fr(0)
    rest = {}
    for m, k in pd(p).items():
        if len(m) == 1 and m[0][0] is s and m[0][1] == 1:
            c += k
        else:
            for at, e in m:
                if s in at.fs:
                    return None
            rest[m] = k
    if not c:
        return None
    return c, unpd(rest)


def bind(op, hi, s, body, *rest):
    """binder over 0 <= s < hi with algebraic simplification"""
    if op == 'sum':
        return sum_(hi, s, body)
    if op == 'any':
        return any_(hi, s, body)
    if op in ('rmax', 'rmin'):
        if s not in body.fs:
            return body
        # max_i (c + x_i)
        if body.op == 'poly':
            d = pd(body)
            out = {m: c for m, c in d.items() if all(s not in at.fs for at, e in m)}
            ins = {m: c for m, c in d.items() if m not in out}
            if out and ins:
                return add(unpd(out), bind(op, hi, s, unpd(ins)))
            if len(ins) == 1:
                (m, c), = ins.items()
                if c != 1 and c > 0:
                    return scale(bind(op, hi, s, unpd({m: Fr(1)})), c)
                if c < 0:
                    return scale(bind('rmin' if op == 'rmax' else 'rmax', hi, s, unpd({m: Fr(1)})), c)
    if op in ('argmax', 'argmin'):
        if s not in body.fs:
            return ZERO
        if body.op == 'poly':
            d = pd(body)
            ins = {m: c for m, c in d.items() if any(s in at.fs for at, e in m)}
            if len(ins) < len(d):
                return bind(op, hi, s, unpd(ins))
            items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
            k = items[0][1]
            if k < 0:
                return bind('argmin' if op == 'argmax' else 'argmax', hi, s, scale(body, 1 / k))
            if k != 1:
                return bind(op, hi, s, scale(body, 1 / k))
    if op == 'first':
        if body is TRUE:
            return ZERO
        if body is FALSE:
            return hi
    if op == 'sel':
        if body is TRUE:
            return rest[0]
    if op == 'prod':
        if s not in body.fs and hi.op == 'num' and hi.a[0].denominator == 1:
            return powr(body, hi.a[0])
    return rawbind(op, hi, s, body, *rest)


def in_range(e, hi):
    """0 <= e < hi"""
    if e.op == 'sym' and len(e.a) > 2 and e.a[2] is hi:
        return TRUE
    lo = TRUE if nonneg(e) else le(ZERO, e)
    if e.op == 'sym' and len(e.a) > 2 and isinstance(e.a[2], T):
        lo = TRUE
    return and_(lo, lt(e, hi))


def sum_(hi, s, body):
    if body is ZERO or hi is ZERO:
        return ZERO
    if s not in body.fs:
        return mul(hi, body)
    if hi is ONE:
        return subst(body, {s: ZERO})
    if hi.op == 'sum':
        r = _filter_sum(hi, s, body)
        if r is not None:
            return r
    tot = ZERO
    d = pd(body)
    if len(d) > 1:
        for m, c in d.items():
            tot = add(tot, sum_(hi, s, unpd({m: c})))
        return tot
    (m, c), = d.items()
    out = [(at, e) for at, e in m if s not in at.fs]
    ins = [(at, e) for at, e in m if s in at.fs]
    k = unpd({tuple(out): c}) if out else num(c)
    # Kronecker delta
    for at, e in ins:
        if at.op == 'ite' and at.a[2] is ZERO:
            cs = at.a[0].a if at.a[0].op == 'and' else (at.a[0],)
            for q in cs:
                if q.op == 'eq0' and s in q.a[0].fs and srt(q.a[0]) == 'Z':
                    l = linear_in(q.a[0], s)
                    if l and abs(l[0]) == 1:
                        v = scale(l[1], -1 / l[0])
                        b = unpd({tuple(ins): Fr(1)})
                        b = subst(b, {s: v})
                        return mul(k, ite(in_range(v, hi), b, ZERO))
    b = unpd({tuple(ins): Fr(1)})
    if b.op == 'ite':
        # conditions free of s float out; split so each branch is normalised
        if s not in b.a[0].fs:
            return mul(k, ite(b.a[0], sum_(hi, s, b.a[1]), sum_(hi, s, b.a[2])))
    return mul(k, rawbind('sum', hi, s, b))


def _filter_sum(hi, s, body):
    """sum_{k < #{t<N: g}} f(sel_t g (k))  =  sum_{t<N} [g] f(t)"""
    g = hi.a[1]
    if g.op != 'ite':
        return None
    flip = g.a[1] is ZERO and g.a[2] is ONE
    if not flip and not (g.a[1] is ONE and g.a[2] is ZERO):
        return None
    sels = [x for x in walk(body) if x.op == 'sel' and s in x.fs]
    if len(sels) != 1 or sels[0].a[2] is not s:
        return None
    x = sels[0]
    t = fresh('o')
    gt = open1(hi, t)
    if gt.op != 'ite':
        return None
    gc = not_(gt.a[0]) if flip else gt.a[0]
    if x.a[0] is not hi.a[0] or open1(x, t) is not gc:
        return None
    b = _swap(body, x, t)
    if s in b.fs:
        return None
    return sum_(hi.a[0], t, ite(gc, b, ZERO))


def _swap(t, old, new, memo=None):
    if memo is None:
        memo = {}
    if t is old:
        return new
    if t in memo:
        return memo[t]
    if not _kids(t):
        return t
    if t.op in BINDERS:
        s = fresh('o')
        body = _swap(subst(t.a[1], {mk('bv', t.a[-1]): s}), old, new, {})
        r = bind(t.op, _swap(t.a[0], old, new, memo), s, body, *[_swap(y, old, new, memo) if isinstance(y, T) else y for y in t.a[2:-1]])
    elif t.op == 'mat':
        r = t
    else:
        r = rebuild(t, lambda y: _swap(y, old, new, memo))
    memo[t] = r
    return r


def any_(hi, s, body):
    if body is FALSE or hi is ZERO:
        return FALSE
    if s not in body.fs:
        return and_(lt(ZERO, hi), body)
    if body.op == 'or':
        return or_(*[any_(hi, s, x) for x in body.a])
    cs = body.a if body.op == 'and' else (body,)
    for q in cs:
        if q.op == 'eq0' and s in q.a[0].fs and srt(q.a[0]) == 'Z':
            l = linear_in(q.a[0], s)
            if l and abs(l[0]) == 1:
                v = scale(l[1], -1 / l[0])
                return and_(in_range(v, hi), subst(body, {s: v}))
    out = [c for c in cs if s not in c.fs]
    if out:
        ins = [c for c in cs if s in c.fs]
        return and_(*out, any_(hi, s, and_(*ins)))
    return rawbind('any', hi, s, body)


def all_(hi, s, body):
    return not_(any_(hi, s, not_(body)))


# ---------------------------------------------------------------- traversal / printing
def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(_kids(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def unknowns(t):
    return [x for x in walk(t) if (x.op in ('app', 'tapp', 'bapp') and str(x.a[0]).startswith('?')) or (x.op in ('sym', 'ten') and str(x.a[0]).startswith('?'))]


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    op, a = t.op, t.a
    if d > 40:
        return '..'
    n = d + 1
    if op == 'num':
        return str(a[0])
    if op == 'str':
        return '"%s"' % a[0]
    if op in ('sym', 'ten'):
        return a[0]
    if op == 'bv':
        return 'b%d' % a[0]
    if op == 'tru':
        return 'true'
    if op == 'fls':
        return 'false'
    if op == 'inf':
        return 'inf'
    if op == 'poly':
        out = []
        for m, c in a:
            fs = []
            for at, e in m:
                x = show(at, n)
                if at.op == 'poly':
                    x = '(' + x + ')'
                fs.append(x if e == 1 else '%s^%s' % (x, e if e > 0 and e.denominator == 1 else '(%s)' % e))
            mm = '*'.join(fs)
            if not mm:
                out.append(str(c))
            elif c == 1:
                out.append(mm)
            elif c == -1:
                out.append('-' + mm)
            else:
                out.append('%s*%s' % (c, mm))
        return ' + '.join(out).replace('+ -', '- ')
    if op == 'el':
        return '%s[%s,%s]' % (show(a[0], n), show(a[1], n), show(a[2], n))
    if op == 'fn' or op in ('app', 'tapp', 'bapp'):
        xs = a[1:] if op in ('fn', 'bapp') else a[2:]
        return '%s(%s)' % (a[0], ', '.join(show(x, n) for x in xs))
    if op == 'lt0':
        return '(%s < 0)' % show(a[0], n)
    if op == 'eq0':
        return '(%s == 0)' % show(a[0], n)
    if op == 'seq':
        return '(%s == %s)' % (show(a[0], n), show(a[1], n))
    if op == 'not':
        return '!%s' % show(a[0], n)
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(show(x, n) for x in a) + ')'
    if op == 'ite':
        return '[%s ? %s : %s]' % tuple(show(x, n) for x in a)
    if op in BINDERS:
        ex = ''.join(', ' + show(x, n) for x in a[2:-1])
        return '%s{b%d<%s%s}(%s)' % (op, a[-1], show(a[0], n), ex, show(a[1], n))
    if op == 'mat':
        return 'mat{b%d<%s,b%d<%s}(%s)' % (a[-1], show(a[0], n), a[-1] + 1, show(a[1], n), show(a[2], n))
    if op == 'mt':
        return show(a[2], n)
    return '%s(%s)' % (op, ', '.join(show(x, n) for x in a))


def rewrite_phi(t, mp, memo=None):
    """replace phi functions: mp[name] = (index symbols, term)"""
    if memo is None:
        memo = {}
    names = frozenset(mp)

    hm = {}

    def has(x):
        r = hm.get(x)
        if r is None:
            r = _pname(x) in names or any(has(k) for k in _kids(x))
            hm[x] = r
        return r

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = go1(x)
        memo[x] = r
        return r

    def go1(x):
        op = x.op
        if op == 'sym':
            m = mp.get(x.a[0])
            return m[1] if m is not None and not m[0] else x
        if op in ('num', 'str', 'bv', 'tru', 'fls', 'inf', 'ten'):
            return x
        if not has(x):
            return x
        if op == 'el':
            b = x.a[0]
            if b.op in ('ten', 'tapp') and b.a[0] in names:
                idx = [go(y) for y in (b.a[2:] if b.op == 'tapp' else ())] + [go(x.a[1]), go(x.a[2])]
                m = mp[b.a[0]]
                return subst(m[1], dict(zip(m[0], idx)))
        if op in ('app',) and x.a[0] in names:
            m = mp[x.a[0]]
            return subst(m[1], dict(zip(m[0], [go(y) for y in x.a[2:]])))
        if op == 'mt':
            b = x.a[2]
            s1, s2 = fresh('o'), fresh('o')
            return matT(go(x.a[0]), go(x.a[1]), s1, s2, go1(el(b, s1, s2)))
        if op in BINDERS:
            s = fresh('o')
            body = go(subst(x.a[1], {mk('bv', x.a[-1]): s}))
            rest = [go(y) if isinstance(y, T) else y for y in x.a[2:-1]]
            return bind(op, go(x.a[0]), s, body, *rest)
        if op == 'mat':
            s1, s2 = fresh('o'), fresh('o')
            body = go(subst(x.a[2], {mk('bv', x.a[-1]): s1, mk('bv', x.a[-1] + 1): s2}))
            return matT(go(x.a[0]), go(x.a[1]), s1, s2, body)
        return rebuild(x, go)
    return go(t)


def _pname(y):
    if y.op in ('sym', 'ten', 'app', 'tapp'):
        return y.a[0]
    return None


def mentions(t, names):
    names = frozenset(names)
    hm = {}

    def has(x):
        r = hm.get(x)
        if r is None:
            r = _pname(x) in names or any(has(k) for k in _kids(x))
            hm[x] = r
        return r
    return has(t)
