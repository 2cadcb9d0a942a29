"""C10: training without shuffling or random start is deterministic.

Effect analysis over the abstract interpretation: every value drawn from a random device, a clock, std::rand, an engine
seeded from one of these, or a generator shared between calls is a named entropy term.  Answers of inference calls, the
state left by deterministic fits, losses, and what an optimizer with shuffling disabled publishes (including everything
carried round its loops) must contain no such term, on any path."""
from .models import *
from . import losses, opt
from oml.graph import Graph, nodes
import re
ENT = re.compile(r'(rand|perm)@')


def entropy_in(an, v, seen=None, depth=0):
    """an entropy term inside a value (following pointers and loop-carried values), or None"""
    seen = set() if seen is None else seen
    stack, done = [v], set()
    leaves, keep = {}, []
    for l in an.e.loops:
        for z in l.leaves:
            leaves.setdefault(z.name, []).append(z)
    while stack:
        x = stack.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        keep.append(x)
        if isinstance(x, PtrV) and x.lv is not None:
            stack.append(x.lv)
            continue
        if isinstance(x, IteV):
            stack += [x.c, x.a, x.b]
            continue
        if isinstance(x, ObjV):
            stack += list(x.f.values())
            continue
        if isinstance(x, TupV):
            stack += list(x.xs)
            continue
        if an.e._is_lv(x):
            if isinstance(x, LV) and (x.root in done or x.root not in an.st.s):
                continue                        # an arbitrary object of the input state
            if isinstance(x, LV):
                done.add(x.root)
                stack.append(an.st.s[x.root])
            continue
        if isinstance(x, ListV) and not isinstance(x.e, T):
            stack += [x.n, x.e]
            continue
        ts = [x] if isinstance(x, T) else deps_of(x)
        for t in ts:
            if id(t) in seen and t is not x:
                continue
            seen.add(id(t))
            for y in walk(t):
                nm = y.a[0] if y.a and isinstance(y.a[0], str) else None
                if nm is None:
                    continue
                if ENT.match(nm):
                    return nm
                base = nm.lstrip('?').split('@(')[0].rstrip('@')
                for z in leaves.get('?' + base, []) + leaves.get(base, []) + leaves.get(nm, []):
                    if id(z) not in seen:
                        seen.add(id(z))
                        stack += [getattr(z, 'raw', None), getattr(z, 'init', None)]
        if isinstance(x, OpqV) and ('random_device' in x.name or 'rand@' in x.name):
            return x.name
    return None


def events(an, cfg):
    return [e for e in an.e.events if e.kind in ('entropy', 'draw', 'shuffle') and e.data.get('random', True)]


def judge(c, an, nm, w, vals, cfg, rule):
    evs = events(an, cfg)
    hit = [x for x in (entropy_in(an, v) for v in vals) if x]
    if not evs and not hit:
        return c.ob(nm, w, 'same', rule, 'no entropy source on any path')
    if hit:
        e = next((e for e in evs), None)
        return c.ob(nm, '%s:%s %s' % (rel(e.file), e.line, short(e.fn)) if e else w, 'diff', rule, 'result contains a value from %s' % (e.data.get('what', e.kind) if e else hit[0]))
    # control dependence: an entropy value in a path condition of a throw
    return c.ob(nm, w, 'same', rule, 'entropy is read but does not reach the result')


def state(an, o):
    return list(an.e.read(o, an.st).f.values())


def inference(c, an, m, meth):
    nm = '%s::%s' % (m.label, meth[0])
    f = m.fn(an, meth)
    o = m.start(an)
    an.e.events.clear()
    Q = an.mat('Q', NQ, C_)
    r = m.call(an, o, meth, Q)
    if r.dead:
        return c.undecided(nm, c.loc(f), 'always throws on the abstract state')
    judge(c, an, nm + ': draws nothing', c.loc(f), [r.val()] + state(an, o), None, 'answer and model after the call contain no entropy term')


DET = ('LinearRegression', 'RidgeRegression', 'SoftmaxRegression', 'GaussianNB', 'MultinomialNB', 'PCA')
# recursive or pointer-building trainers: effects of everything reachable in the call graph
REACH = [('tree', 'openml::decision_tree::DecisionTreeClassifier', 'fit'), ('tree', 'openml::decision_tree::DecisionTreeRegressor', 'fit'), ('structs', 'openml::tree::KDTree', None),
         ('rule', 'openml::rule_model::Apriori', 'fit_transform'), ('rule', 'openml::rule_model::Apriori', None)]
RNG = re.compile(r'^(std::random_device|rand$|std::rand$|random$|drand48|.*::setRandom$|.*::Random$)')
CLOCK = re.compile(r'^(time$|std::time$|clock$|std::clock$|std::chrono::.*::now$|gettimeofday)')


def reach(c, an, q, meth):
    cl = klass(an, q)
    g = Graph(an.p)
    fs = [f for f in an.p.fns if f.get('cls') in an.p.mro(cl['idx']) and f.get('body') is not None and
          ((meth is None and f.get('ctor')) or (meth and f['q'].split('::')[-1] == meth))]
    nm = '%s::%s' % (short(q).split('::')[-1], meth or 'constructors')
    if not fs:
        return c.undecided(nm + ': draws nothing', short(q), 'no such function')
    seen, bad, clk = set(), None, None
    for f in fs:
        par = g.reach(f['idx'])
        for j in par:
            seen.add(j)
            for qq, n in g.callees(j)[1]:
                if RNG.match(qq):
                    bad = bad or (qq, n, j, g.path(par, j))
                elif CLOCK.match(qq):
                    clk = clk or (qq, n, j, g.path(par, j))
            for n in nodes(an.p.fns[j].get('body')):
                if n.get('k') == 'decl' and any(v.get('static') and any(w in an.p.rec(v['t']) for w in ('engine', 'random')) for v in n.get('v') or []):
                    bad = bad or ('generator shared between calls', n, j, g.path(par, j))
    for j in seen:
        c.fns.add(an.p.fns[j]['q'])
    rule = 'no entropy source among the %d functions reachable in the call graph' % len(seen)
    b = bad or clk
    if not b:
        return c.ob(nm + ': draws nothing', c.loc(fs[0]), 'same', rule)
    f = an.p.fns[b[2]]
    c.ob(nm + ': draws nothing', '%s:%s %s' % (rel(f['file']), b[1].get('l', f['line']), short(f['q'])), 'diff' if bad else 'unknown', rule, '%s reached: %s' % (b[0], b[3]))


def training(c, an, m):
    m.hooks = {}
    o = m.start(an, 'fit')
    w = c.loc(method(an, klass(an, m.q)['idx'], 'fit', 2 if m.fit == 'xy' else 1))
    extra = [v for r in m.rec for v in (r.get('X'), r.get('y'), r.get('obj'))]
    judge(c, an, m.label + '::fit: draws nothing', w, state(an, o) + extra, None, 'fitted state and the optimizer input contain no entropy term')


def linear(c, an, q, args):
    """estimators whose documented start is random: only the start"""
    nm = conf_name(q, args)
    t = Fitted(c, an, q, args)
    for r in t.rec:
        if args and args[-1] is not TRUE:
            judge(c, an, nm + ': data handed to the optimizer', r['where'], [r['X'], r['y']] + ([r['obj']] if q == 'LassoRegression' else []), None, 'training data and targets contain no entropy term')


def optimizer(c, an, cls):
    r = opt.Run(c, an, cls, shuffle=FALSE, verbose=sym('verbose', 'B'))
    w = r.where
    vals = [r.published()] if not r.r.dead else []
    st = an.st
    vals += state(an, r.o)
    for e in an.e.events:
        if e.kind == 'throw':
            vals.append(e.pc)
    judge(c, an, cls + ' without shuffling: draws nothing', w, vals, r.cfg, 'published coefficients, optimizer state and exit conditions contain no entropy term')
    r = opt.Run(c, an, cls, shuffle=TRUE)
    c.ob(cls + ' with shuffling: the data order is random', w, 'same' if events(an, r.cfg) else 'unknown', 'a shuffle is reached when shuffling is requested (the analysis is not vacuous)')


def loss(c, an, k):
    name, o, d, ev = losses.setup(an, k)
    for meth in ('evaluate', 'gradient'):
        r = an.call(o, meth, [d['X'], d['y'], d['W']])
        judge(c, an, '%s::%s: draws nothing' % (name, meth), c.loc(method(an, k['idx'], meth, 3)), [r.val()] + state(an, o), None, 'value contains no entropy term')


def newton(c, an, pol):
    r = opt.Newton(c, an, pol)
    judge(c, an, 'LBFGS(%s): draws nothing' % pol, r.where, ([r.published()] if not r.r.dead else []) + state(an, r.o), None, 'published coefficients and state contain no entropy term')


def run(c):
    c.prefetch('linear', 'lasso', 'nb', 'gmm', 'decomp', 'kmeans', 'tree', 'structs', 'rule', 'opt', 'core')
    ms = all_models()
    for m in ms:
        for meth in m.infer:
            c.guarded('%s::%s' % (m.label, meth[0]), inference, c, c.an(m.tu), m, meth)
    for m in ms:
        if m.name in DET:
            c.guarded(m.label + '::fit', training, c, c.an(m.tu), m)
    for tu, q, meth in REACH:
        c.guarded(q, reach, c, c.an(tu), q, meth)
    for q in ('LassoRegression', 'Perceptron', 'LogisticRegression'):
        for args, *_ in CONF[q]:
            c.guarded(conf_name(q, args), linear, c, c.an('lasso' if q == 'LassoRegression' else 'linear'), q, args)
    an = c.an('opt')
    for cls in ('SGD', 'SAG', 'TruncatedGradient', 'SCD'):
        c.guarded(cls, optimizer, c, an, cls)
    for pol in ('backtracking', 'bracketing'):
        c.guarded('LBFGS', newton, c, an, pol)
    for k in losses.loss_classes(an):
        c.guarded(k['q'], loss, c, an, k)
