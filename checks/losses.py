from .base import *


def loss_classes(an):
    out = []
    for c in an.p.classes:
        if c['q'].startswith('openml::loss::') and {'evaluate', 'gradient'} <= {m['n'] for m in c.get('methods') or []}:
            out.append(c)
    return out


def ctor_arity(an, c):
    return max([len(f['ps']) for f in an.p.fns if f.get('ctor') and f.get('cls') == c['idx'] and not f.get('cp')] or [0])


ROLE = {'LogLoss': ['lambda'], 'MSE': ['lambda'], 'SoftmaxLoss': ['lambda'], 'HingeLoss': ['lambda', 'threshold'], 'HuberLoss': ['lambda', 'delta']}


def setup(an, c):
    """a loss object built by its widest public constructor, symbolic data"""
    an.new()
    name = c['q'].split('::')[-1].split('<')[0]
    roles = ROLE.get(name) or ['p%d' % k for k in range(ctor_arity(an, c))]
    cname = {r: sym(r, 'R', 'nn') for r in roles}
    args = [cname[r] for r in roles]
    o = an.obj(c['idx'], args)
    n, p = sym('n', 'Z', 'dim'), sym('p', 'Z', 'dim')
    X = an.mat('X', n, p)
    y = an.vec('y', n)
    ev = [f for f in an.p.fns if f['q'] == c['q'] + '::evaluate' or (f.get('cls') == c['idx'] and f['q'].endswith('::evaluate'))][0]
    tw = an.p.ty(ev['ps'][2]['t'])
    while tw['c'] == 'ref':
        tw = an.p.ty(tw['to'])
    k = sym('k', 'Z', 'dim') if tw.get('cc', -1) != 1 else ONE
    W = MatV(p, k, el(ten('W'), I, J)) if k is not ONE else an.vec('W', p)
    return name, o, dict(n=n, p=p, k=k, X=X, y=y, W=W, **cname), ev


def domain(name, k):
    dom = {'lambda': ('real', 0.05, 2.0), 'threshold': ('real', 0.3, 1.5), 'delta': ('real', 0.3, 2.0)}
    if name == 'LogLoss':
        dom['y'] = ('choice', [0.0, 1.0])
        dom['X'] = ('real', -1.2, 1.2)
        dom['W'] = ('real', -1.2, 1.2)
    if name == 'SoftmaxLoss':
        dom['y'] = ('choice', [0, 1])
        dom['k'] = ('int', 2, 4)
    if name == 'HingeLoss':
        dom['y'] = ('choice', [-1.0, 1.0])
    return dom
