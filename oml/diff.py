"""Symbolic differentiation of extracted terms with respect to one entry of a matrix symbol."""
from .terms import *


class NoDiff(Exception):
    pass


def has(t, w):
    return contains(t, lambda x: x.op == 'ten' and x.a[0] == w)


def D(t, w, p, q, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        r = _D(t, w, p, q, memo)
        memo[t] = r
    return r


def _D(t, w, p, q, memo):
    if not has(t, w):
        return ZERO
    op = t.op
    d = lambda x: D(x, w, p, q, memo)
    if op == 'el':
        T_ = t.a[0]
        if T_.op == 'ten' and T_.a[0] == w:
            return ite(and_(eq(t.a[1], p), eq(t.a[2], q)), ONE, ZERO)
        raise NoDiff('element of ' + T_.op)
    if op == 'poly':
        r = ZERO
        for m, c in t.a:
            for k, (at, e) in enumerate(m):
                da = d(at)
                if da is ZERO:
                    continue
                x = mul(num(c * e), powr(at, e - 1))
                for l, (bt, f) in enumerate(m):
                    if l != k:
                        x = mul(x, powr(bt, f))
                r = add(r, mul(x, da))
        return r
    if op == 'fn':
        n, x = t.a[0], t.a[1]
        if n == 'exp':
            return mul(t, d(x))
        if n == 'log':
            return div(d(x), x)
        if n == 'abs':
            return mul(sign_(x), d(x))
        raise NoDiff(n)
    if op == 'ite':
        return ite(t.a[0], d(t.a[1]), d(t.a[2]))
    if op == 'sum':
        s = fresh('dk')
        hi = t.a[0]
        if has(hi, w):
            raise NoDiff('summation bound depends on the variable')
        return sum_(hi, s, D(open1(t, s), w, p, q))
    if op in ('rmax', 'rmin'):
        # arbitrary derivative: must cancel
        return app('dext', 'R', t, p, q)
    raise NoDiff(op)
