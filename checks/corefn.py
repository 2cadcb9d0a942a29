"""Common access to the free helper functions."""
from .base import *

R_, C_ = sym('n', 'Z', 'dim'), sym('p', 'Z', 'dim')


def idiv(a, b):
    return fn('idiv', a, lift(b))


def imod(a, b):
    return fn('imod', a, lift(b))


def dims(lo=1):
    return {'n': ('int', lo, 5), 'p': ('int', lo, 5)}


def kind(an, t):
    t = an.p.ty(t)
    while t['c'] == 'ref':
        t = an.p.ty(t['to'])
    return t


def fun(an, q, arity=None, first=None):
    """the instantiation of q with that arity whose first parameter is of that kind (mat, vec2, vec)"""
    fs = an.fns('openml::' + q)
    fs = sorted(fs, key=lambda f: 0 if f['ps'] and kind(an, f['ps'][0]['t']).get('cc', -1) == -1 else 1)
    for f in fs:
        if arity is not None and len(f['ps']) != arity:
            continue
        if first is not None:
            s = json.dumps(kind(an, f['ps'][0]['t']))
            k = 'mat' if 'Eigen' in s or '"eig' in s else 'list'
            if k != first:
                continue
        return f
    return None


def X_(an, name='X'):
    return an.mat(name, R_, C_)


def runf(c, an, q, args, hooks=None, first=None):
    """fresh engine, abstract run of q(args); returns (Out, where)"""
    an.new(hooks)
    f = fun(an, q, len(args), first)
    if f is None:
        raise KeyError('no function ' + q)
    o = an.run(f, args)
    return o, c.loc(f)


def flat(X, k):
    """k-th entry of the matrix read row by row"""
    return X.at(idiv(k, C_), imod(k, C_))


def retcfg(o, dom=None, **kw):
    return Cfg(dom or {}, assume=[o.pc], **kw)
