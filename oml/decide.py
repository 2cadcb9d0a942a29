"""Deciding equality / implication between extracted terms.

Stage 1: identity of normal forms.  Stage 2 (only when stage 1 fails): random interpretation of the two
*terms* (Gulwani & Necula 2003, Schwartz-Zippel): symbols, tensors and unknown functions get random
values, and a separating interpretation refutes the equation.  A difference is reported only with such a
separating interpretation, so an incomplete normal form can never raise an alarm.
"""
import hashlib, math, struct, time
from fractions import Fraction as Fr
from .terms import *
from .terms import _kids

class Skip(Exception):
    pass


def _h(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), 'big')


def canon(v):
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        if v != v:
            return 'nan'
        if math.isinf(v):
            return 'inf' if v > 0 else '-inf'
        r = round(v, 7)
        if abs(v) > 1e3:
            r = float('%.8g' % v)
        if r == int(r) and abs(r) < 1e15:
            return int(r)
        return r
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    return v


def near(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    a = float(a); b = float(b)
    if a != a or b != b:
        return (a != a) == (b != b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def lin_inv(n, v):
    """inverse of a small matrix by elimination; badly conditioned interpretations are skipped"""
    m = [[float(v[i * n + j]) for j in range(n)] + [1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    big = max([abs(float(x)) for x in v] + [1e-300])
    for k in range(n):
        p = max(range(k, n), key=lambda r: abs(m[r][k]))
        if not abs(m[p][k]) > 1e-3 * big:
            return False
        m[k], m[p] = m[p], m[k]
        d = m[k][k]
        m[k] = [x / d for x in m[k]]
        for r in range(n):
            if r != k and m[r][k]:
                f = m[r][k]
                m[r] = [x - f * y for x, y in zip(m[r], m[k])]
    return [r[n:] for r in m]


def lin_chol(n, v):
    """lower Cholesky factor (reads the lower triangle, as the library does)"""
    a = [[float(v[i * n + j]) for j in range(n)] for i in range(n)]
    big = max([abs(float(x)) for x in v] + [1e-300])
    L = [[0.0] * n for _ in range(n)]
    for j in range(n):
        d = a[j][j] - sum(L[j][k] ** 2 for k in range(j))
        if not d > 1e-3 * big:
            return False
        L[j][j] = d ** 0.5
        for i in range(j + 1, n):
            L[i][j] = (a[i][j] - sum(L[i][k] * L[j][k] for k in range(j))) / L[j][j]
    return L


CONCRETE = {'inv': lin_inv, 'trinv': lin_inv, 'llt.L': lin_chol}


class Interp:
    """mode: 0 reals, 1 small integers (ties happen), 2 reals in (0,1), 3 large magnitude reals"""
    def __init__(self, seed, dom=None, mode=0, strs=(), undef_seed=0):
        self.seed = seed
        self.dom = dom or {}
        self.mode = mode
        self.strs = list(strs)
        self.vals = {}
        self.memo = {}
        self.undef_seed = undef_seed
        self.pins = {}

    def _real(self, key):
        h = _h(self.seed, key)
        if self.mode == 1:
            return float((h % 4) - 1)
        u = (h % 100003) / 100003.0
        if self.mode == 2:
            return 0.02 + 0.96 * u
        if self.mode == 3:
            return (u - 0.5) * 60
        return round((u - 0.5) * 4, 6)

    def _spec(self, spec, key):
        h = _h(self.seed, 'sp', key)
        if callable(spec):
            return spec(self, key, h)
        k = spec[0]
        if k == 'int':
            return spec[1] + h % (spec[2] - spec[1] + 1)
        if k == 'real':
            return spec[1] + (spec[2] - spec[1]) * ((h % 100003) / 100003.0)
        if k == 'choice':
            return spec[1][h % len(spec[1])]
        if k == 'const':
            return spec[1]
        raise ValueError(spec)

    def value(self, s):
        if s in self.vals:
            return self.vals[s]
        name, sort = s.a[0], s.a[1]
        d = self.dom.get(s) or self.dom.get(name)
        if d is None and len(s.a) > 2 and isinstance(s.a[2], T):
            hi = self.ev(s.a[2])
            if hi <= 0:
                raise Skip('empty index')
            v = _h(self.seed, name) % int(hi)
        elif d is not None:
            v = self._spec(d, name)
        elif sort == 'Z':
            if 'dim' in s.a:
                v = 1 + _h(self.seed, name) % 4
            else:
                v = _h(self.seed, name) % 4
        elif sort == 'B':
            v = bool(_h(self.seed, name) & 1)
        elif sort == 'S':
            c = self.strs + ['\0other']
            v = c[_h(self.seed, name) % len(c)]
        else:
            v = self._real((name, self.undef_seed) if name.startswith('undef') else name)
            if 'pos' in s.a:
                v = abs(v) + 0.05
            elif 'nn' in s.a:
                v = abs(v)
        self.vals[s] = v
        return v

    def elem(self, t, i, j, env):
        if t.op == 'ten':
            name = t.a[0]
            d = self.dom.get(t) or self.dom.get(name)
            key = (name, i, j)
            if name.startswith('undef'):
                return self._real((key, self.undef_seed))
            if d is not None:
                return self._spec(d, key)
            if t.a[1] == 'Z':
                return _h(self.seed, key) % 4
            if t.a[1] == 'B':
                return bool(_h(self.seed, key) & 1)
            if t.a[1] == 'S':
                c = self.strs + ['\0other']
                return c[_h(self.seed, key) % len(c)]
            return self._real(key)
        if t.op == 'tapp':
            raw = [self.arg(x, env) for x in t.a[2:]]
            args = tuple(canon(x) for x in raw)
            if t.a[0] in CONCRETE and len(raw) == 1 and isinstance(raw[0], tuple) and len(raw[0]) == 3 and isinstance(raw[0][2], tuple) and 0 < raw[0][0] == raw[0][1] <= 8 and 0 <= i < raw[0][0] and 0 <= j < raw[0][0]:
                k = ('lin', t.a[0], args)
                v = self.memo.get(k)
                if v is None:
                    v = self.memo[k] = CONCRETE[t.a[0]](raw[0][0], raw[0][2])
                if v is False:
                    raise Skip('singular')
                return v[i][j]
            d = self.dom.get('fn:' + t.a[0])
            key = (t.a[0], args, i, j)
            if d is not None:
                return self._spec(d, key)
            if t.a[1] == 'Z':
                return _h(self.seed, key) % 4
            if t.a[1] == 'B':
                return bool(_h(self.seed, key) & 1)
            if t.a[1] == 'S':
                c = self.strs + ['\0other']
                return c[_h(self.seed, key) % len(c)]
            return self._real(key)
        if t.op in ('mat', 'mt'):
            return self.ev(mat_at(t, num(i), num(j)), env)
        raise Skip(t.op)

    def arg(self, x, env):
        if not isinstance(x, T):
            return x
        if x.op in ('mat', 'mt'):
            r, c = int(self.ev(x.a[0], env)), int(self.ev(x.a[1], env))
            if r * c > 400:
                raise Skip('big')
            out = []
            for i in range(r):
                for j in range(c):
                    if x.op == 'mt':
                        out.append(self.elem(x.a[2], i, j, env))
                    else:
                        e = dict(env or {})
                        e[x.a[-1]] = i
                        e[x.a[-1] + 1] = j
                        out.append(self.ev(x.a[2], e))
            return (r, c, tuple(out))
        if x.op == 'ten':
            return ('ten', x.a[0])
        if x.op == 'tapp':
            return ('tapp', x.a[0]) + tuple(canon(self.arg(y, env)) for y in x.a[2:])
        return self.ev(x, env)

    def ev(self, t, env=None):
        if not t.bvs:
            v = self.memo.get(t)
            if v is None:
                v = self._ev(t, env)
                self.memo[t] = v
            return v
        return self._ev(t, env)

    def rng(self, t, env):
        hi = self.ev(t.a[0], env)
        if hi > 200:
            raise Skip('big range')
        L = t.a[-1]
        e = dict(env or {})
        for i in range(max(0, int(hi))):
            e[L] = i
            yield i, e

    def junct(self, a, env, absorb):
        """and / or: a deciding argument decides even where another has no value (arguments are in canonical, not source order)"""
        skip = None
        for x in a:
            try:
                if bool(self.ev(x, env)) == absorb:
                    return absorb
            except Skip as ex:
                skip = ex
        if skip is not None:
            raise skip
        return not absorb

    def _ev(self, t, env):
        op, a = t.op, t.a
        if op == 'num':
            return int(a[0]) if a[0].denominator == 1 else float(a[0])
        if op == 'sym':
            return self.value(t)
        if op == 'bv':
            return env[a[0]]
        if op == 'poly':
            tot = 0
            for m, c in a:
                x = int(c) if c.denominator == 1 else float(c)
                for at, e in m:
                    v = self.ev(at, env)
                    if isinstance(v, str):
                        raise Skip('str')
                    if e == 1:
                        x = x * v
                    else:
                        if e < 0 and abs(v) < 1e-12:
                            raise Skip('div0')
                        if e.denominator != 1 and v < 0:
                            if v > -1e-9:
                                v = 0.0
                            else:
                                raise Skip('neg root')
                        try:
                            x = x * (v ** int(e) if e.denominator == 1 and e > 0 else float(v) ** float(e))
                        except (OverflowError, ZeroDivisionError):
                            raise Skip('ovf')
                tot = tot + x
            if isinstance(tot, float) and (tot != tot):
                raise Skip('nan')
            return tot
        if op == 'el':
            return self.elem(a[0], int(self.ev(a[1], env)), int(self.ev(a[2], env)), env)
        if op == 'ite':
            return self.ev(a[1], env) if self.ev(a[0], env) else self.ev(a[2], env)
        if op == 'tru':
            return True
        if op == 'fls':
            return False
        if op == 'lt0':
            v = self.ev(a[0], env)
            return v < -1e-9 if isinstance(v, float) else v < 0
        if op == 'eq0':
            v = self.ev(a[0], env)
            return abs(v) <= 1e-9
        if op == 'not':
            return not self.ev(a[0], env)
        if op == 'and':
            return self.junct(a, env, False)
        if op == 'or':
            return self.junct(a, env, True)
        if op == 'seq':
            return self.ev(a[0], env) == self.ev(a[1], env)
        if op == 'str':
            return a[0]
        if op == 'inf':
            return float('inf')
        if op == 'fn':
            return self.func(a[0], [self.ev(x, env) for x in a[1:]])
        if op == 'sum':
            s = 0
            for i, e in self.rng(t, env):
                s += self.ev(a[1], e)
            return s
        if op == 'prod':
            s = 1
            for i, e in self.rng(t, env):
                s *= self.ev(a[1], e)
            return s
        if op in ('rmax', 'rmin', 'argmax', 'argmin'):
            best = None
            bi = 0
            mx = op in ('rmax', 'argmax')
            for i, e in self.rng(t, env):
                v = self.ev(a[1], e)
                if best is None or (v > best + 1e-9 if mx else v < best - 1e-9):
                    best, bi = v, i
            if best is None:
                raise Skip('empty reduction')
            return best if op[0] == 'r' else bi
        if op == 'any':
            for i, e in self.rng(t, env):
                if self.ev(a[1], e):
                    return True
            return False
        if op == 'first':
            n = 0
            for i, e in self.rng(t, env):
                if self.ev(a[1], e):
                    return i
                n = i + 1
            return n
        if op == 'sel':
            k = self.ev(a[2], env)
            c = 0
            for i, e in self.rng(t, env):
                if self.ev(a[1], e):
                    if c == k:
                        return i
                    c += 1
            raise Skip('sel range')
        if op == 'usum':
            # sum over distinct values: a = (n, key(i), body(keysym as bv L+1?)) encoded by caller
            raise Skip('usum')
        if op == 'srt':
            # k-th smallest of body(i), i<n
            vals = [self.ev(a[1], e) for i, e in self.rng(t, env)]
            k = self.ev(a[2], env)
            if not 0 <= k < len(vals):
                raise Skip('srt range')
            return sorted(vals)[int(k)]
        if op == 'rank':
            # index of the k-th smallest (stable)
            vals = [(self.ev(a[1], e), i) for i, e in self.rng(t, env)]
            k = self.ev(a[2], env)
            if not 0 <= k < len(vals):
                raise Skip('rank range')
            return sorted(((round(v, 9) if isinstance(v, float) else v), i) for v, i in vals)[int(k)][1]
        if op == 'vec':
            return tuple(self.ev(a[1], e) for i, e in self.rng(t, env))
        if op == 'tup':
            return tuple(self.ev(x, env) for x in a)
        if op in ('ksize', 'kth', 'kidx'):
            keys = set()
            for src in a[0].a:
                for i, e in self.rng(src, env):
                    g, k = self.ev(src.a[1].a[0], e), self.ev(src.a[1].a[1], e)
                    if g:
                        keys.add(round(k, 9) if isinstance(k, float) else k)
            if op == 'ksize':
                return len(keys)
            if op == 'kidx':
                v = self.ev(a[1], env)
                return sum(1 for x in keys if x < (round(v, 9) if isinstance(v, float) else v))
            j = int(self.ev(a[1], env))
            ks = sorted(keys)
            if not 0 <= j < len(ks):
                raise Skip('kth')
            return ks[j]
        if op == 'app':
            args = tuple(canon(self.arg(x, env)) for x in a[2:])
            d = self.dom.get('fn:' + a[0])
            key = (a[0], args)
            if d is not None:
                return self._spec(d, key)
            if 'perm@' in a[0][:10] and len(args) == 2:
                # an arbitrary permutation of 0..n-1
                n, k = args
                if isinstance(n, int) and isinstance(k, int) and 0 <= k < n <= 64:
                    p = self.pins.get((a[0], n))
                    if p is None:
                        p = self.pins[(a[0], n)] = sorted(range(n), key=lambda q: _h(self.seed, a[0], n, q))
                    return p[k]
            if a[0].startswith(('rand@', 'drawn@')):
                lo, hi = args[0], args[1]
                if all(isinstance(x, (int, float, Fr)) for x in (lo, hi)) and lo <= hi:
                    return int(lo) + _h(self.seed, key) % (int(hi) - int(lo) + 1) if a[1] == 'Z' else float(lo) + float(hi - lo) * ((_h(self.seed, key) % 100003) / 100003.0)
            if a[0] == 'perminv' and isinstance(args[0], tuple) and len(args[0]) == 3 and isinstance(args[0][2], tuple) and args[1] in args[0][2]:
                return args[0][2].index(args[1])
            if a[1] == 'Z':
                return _h(self.seed, key) % 5
            if a[1] == 'S':
                return 's%d' % (_h(self.seed, key) % 5)
            if a[1] == 'B':
                return bool(_h(self.seed, key) & 1)
            return self._real(key)
        if op == 'bapp':
            args = tuple(canon(self.arg(x, env)) for x in a[1:])
            if a[0] == 'isinf':
                v = args[0]
                return v in ('inf', '-inf')
            return bool(_h(self.seed, (a[0], args)) & 1)
        if op in ('mat', 'mt'):
            return self.arg(t, env)
        raise Skip('op ' + op)

    def func(self, n, xs):
        try:
            x = xs[0]
            if n == 'exp':
                if x > 300:
                    raise Skip('exp')
                return math.exp(x)
            if n == 'log':
                if x <= 1e-300:
                    raise Skip('log')
                return math.log(x)
            if n == 'abs':
                return abs(x)
            if n == 'trunc':
                return math.trunc(x + (1e-9 if x >= 0 else -1e-9)) if not math.isinf(x) else x
            if n == 'floor':
                return math.floor(x + 1e-9)
            if n == 'ceil':
                return math.ceil(x - 1e-9)
            if n == 'round':
                return round(x)
            if n == 'idiv':
                if xs[1] == 0:
                    raise Skip('div0')
                q = abs(int(x)) // abs(int(xs[1]))
                return q if (x >= 0) == (xs[1] > 0) else -q
            if n == 'imod':
                if xs[1] == 0:
                    raise Skip('div0')
                return int(math.fmod(int(x), int(xs[1])))
            if n == 'nat':
                return max(0, x)
            if n == 'pow':
                if x < 0 and xs[1] != int(xs[1]):
                    raise Skip('pow')
                if x == 0 and xs[1] < 0:
                    raise Skip('pow')
                return float(x) ** xs[1]
            if n == 'pi':
                return math.pi
            if n in ('sin', 'cos', 'tanh', 'atan'):
                return getattr(math, n)(x)
        except (OverflowError, ValueError, ZeroDivisionError):
            raise Skip(n)
        return self._real((n, tuple(canon(v) for v in xs)))


class Bound(Interp):
    """an interpretation near the constants the compared terms branch on"""
    LIMIT = 150000

    def __init__(self, seed, dom, mode, strs, ints, scl):
        super().__init__(seed, dom, mode, strs)
        self.ints = [v for c in ints for v in (c - 1, c, c + 1, 2 * c + 1) if 0 < v <= 190]
        self.scl = scl
        self.steps = 0

    def _ev(self, t, env):
        self.steps += 1
        if self.steps > self.LIMIT:
            raise Skip('cost')
        return super()._ev(t, env)

    def _real(self, key):
        v = super()._real(key)
        return v * self.scl if self.scl and self.mode != 1 and _h(self.seed, 'b', key) & 1 else v

    def _spec(self, spec, key):
        if self.ints and not callable(spec) and spec[0] == 'int' and spec[2] > 2 and spec[1] >= 0 and _h(self.seed, 'b', key) % 3:
            return max(spec[1], self.ints[_h(self.seed, 'c', key) % len(self.ints)])
        return super()._spec(spec, key)

    def value(self, s):
        if s not in self.vals and self.ints and s.a[1] == 'Z' and ('dim' in s.a or 'nn' in s.a) and s not in self.dom and s.a[0] not in self.dom and _h(self.seed, 'b', s.a[0]) % 3:
            self.vals[s] = self.ints[_h(self.seed, 'c', s.a[0]) % len(self.ints)]
        return super().value(s)


def landmarks(*ts):
    """constants in the branching conditions of terms: integers for sizes, magnitudes for data"""
    ints, reals = set(), set()
    for t in ts:
        for x in walk(t):
            if x.op in ('lt0', 'eq0'):
                d = pd(x.a[0])
                k = d.get((), 0)
                if not k:
                    continue
                z = srt(x.a[0]) == 'Z'
                for m, c in d.items():
                    if m:
                        v = abs(k / c)
                        if z and v.denominator == 1 and 5 <= v <= 180:
                            ints.add(int(v))
                        elif not z and (3 < v <= 10 ** 6 or 10 ** -12 <= v < 10 ** -2):
                            reals.add(float(v))
            elif x.op == 'fn' and x.a[0] in ('idiv', 'imod') and len(x.a) > 2 and x.a[2].op == 'num' and 5 <= x.a[2].a[0] <= 180:
                ints.add(int(x.a[2].a[0]))
    return sorted(ints)[:4], sorted(reals)[:4]


def near_landmarks(cfg, ts, strs):
    ints, reals = landmarks(*ts)
    if not ints and not reals:
        return
    t0 = time.time()
    cases = [(ints, 0)] * (8 if ints else 0) + [([], r) for r in reals for _ in range(4)]
    for k, (zs, r) in enumerate(cases):
        if time.time() - t0 > 4:
            return
        it = Bound((SEED, 'bound', k), cfg.dom, cfg.modes[k % len(cfg.modes)], list(cfg.strs) + [s for s in strs if s not in cfg.strs], zs, r)
        try:
            if all(it.ev(c) for c in cfg.assume):
                yield it
        except (Skip, TypeError, ValueError, OverflowError):
            continue


class Cfg:
    """domain for random interpretation"""
    def __init__(self, dom=None, assume=(), modes=(0, 1, 2), trials=24, strs=(), need=4):
        self.dom = dict(dom or {})
        self.assume = list(assume)
        self.modes = modes
        self.trials = trials
        self.strs = strs
        self.need = need

    def plus(self, dom=None, assume=(), **kw):
        d = dict(self.dom)
        d.update(dom or {})
        c = Cfg(d, self.assume + list(assume), kw.get('modes', self.modes), kw.get('trials', self.trials), kw.get('strs', self.strs), self.need)
        return c


import os
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def interps(cfg, strs=(), extra=()):
    got = 0
    for k in range(cfg.trials * 12):
        it = Interp((SEED, k), cfg.dom, cfg.modes[k % len(cfg.modes)], list(cfg.strs) + [s for s in strs if s not in cfg.strs])
        ok = True
        try:
            for c in cfg.assume:
                if not it.ev(c):
                    ok = False
                    break
        except Skip:
            ok = False
        if ok:
            got += 1
            yield it
            if got >= cfg.trials:
                return


def strings_in(*ts):
    out = []
    for t in ts:
        for x in walk(t):
            if x.op == 'str' and x.a[0] not in out:
                out.append(x.a[0])
    return out


class Verdict:
    def __init__(self, kind, how='', wit=None, n=0):
        self.kind = kind      # 'same', 'diff', 'unknown'
        self.how = how
        self.wit = wit
        self.n = n

    def __repr__(self):
        return 'Verdict(%s,%s,%s)' % (self.kind, self.how, self.wit)


def witness(it):
    return {s.a[0]: (v if not isinstance(v, float) else round(v, 6)) for s, v in list(it.vals.items())[:12]}


def known_part(un, mode):
    """with mode 'phi', loop-carried state counts as an arbitrary input, not as something unmodelled"""
    return [u for u in un if not str(u.a[0]).startswith('?phi')] if mode == 'phi' else un


def equal(a, b, cfg=None, unknown_ok=False):
    """are two terms equal for every interpretation allowed by cfg?"""
    if a is b:
        return Verdict('same', 'nf')
    cfg = cfg or Cfg()
    un = known_part(unknowns(a) + unknowns(b), unknown_ok)
    unknown_ok = unknown_ok is True
    n = 0
    for it in interps(cfg, strings_in(a, b)):
        try:
            x, y = it.ev(a), it.ev(b)
        except Skip:
            continue
        except (TypeError, ValueError, OverflowError):
            continue
        n += 1
        if not near(x, y):
            if un and not unknown_ok:
                return Verdict('unknown', 'term contains unmodelled parts: ' + ', '.join(sorted({str(u.a[0]) for u in un})[:4]))
            return Verdict('diff', 'ri', dict(witness(it), lhs=str(x)[:80], rhs=str(y)[:80]), n)
    if n < cfg.need:
        return Verdict('unknown', 'too few interpretations (%d)' % n)
    for it in near_landmarks(cfg, (a, b), strings_in(a, b)):
        try:
            x, y = it.ev(a), it.ev(b)
        except (Skip, TypeError, ValueError, OverflowError):
            continue
        n += 1
        if not near(x, y):
            if un and not unknown_ok:
                return Verdict('unknown', 'term contains unmodelled parts')
            return Verdict('diff', 'ri', dict(witness(it), lhs=str(x)[:80], rhs=str(y)[:80]), n)
    return Verdict('same', 'ri', None, n)


def valid(c, cfg=None, unknown_ok=False):
    """does boolean term c hold under every interpretation allowed by cfg?"""
    if c is TRUE:
        return Verdict('same', 'nf')
    cfg = cfg or Cfg()
    un = known_part(unknowns(c), unknown_ok)
    unknown_ok = unknown_ok is True
    n = 0
    for it in interps(cfg, strings_in(c)):
        try:
            x = it.ev(c)
        except (Skip, TypeError, ValueError, OverflowError):
            continue
        n += 1
        if not x:
            if un and not unknown_ok:
                return Verdict('unknown', 'unmodelled parts: ' + ', '.join(sorted({str(u.a[0]) for u in un})[:4]))
            return Verdict('diff', 'ri', witness(it), n)
    if n < cfg.need:
        return Verdict('unknown', 'too few interpretations (%d)' % n)
    for it in near_landmarks(cfg, (c,), strings_in(c)):
        try:
            x = it.ev(c)
        except (Skip, TypeError, ValueError, OverflowError):
            continue
        n += 1
        if not x:
            if un and not unknown_ok:
                return Verdict('unknown', 'unmodelled parts')
            return Verdict('diff', 'ri', witness(it), n)
    return Verdict('same', 'ri', None, n)


def implies(a, b, cfg=None, unknown_ok=False):
    return valid(or_(not_(a), b), cfg, unknown_ok)
