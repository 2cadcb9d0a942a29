"""C27: hyper-parameters reach the component they configure.

Estimators: built with one distinct symbol per public constructor position, fitted with the optimizer run recorded; the
optimizer found there must equal, field for field, one built directly (by position in the optimizers' public constructors)
from the same symbols.  All classes: no field named after one option holds another; options are stored unmodified;
every stored option is read by some member function; default construction equals construction from the published values."""
from .est import *
from oml.graph import nodes, Graph

F_ = Fraction
A, LAM, TOL, FT, WO, DE, L1 = (sym(n, 'R', 'pos') for n in ('alpha', 'lambda', 'tol', 'ftol', 'wolfe', 'delta', 'l1_ratio'))
BS, MI, PA, MEM, PAST, MLS = (sym(n, 'Z', 'dim') for n in ('batch', 'max_iter', 'patience', 'mem', 'past', 'max_ls'))
SH, VB, IC = (sym(n, 'B') for n in ('shuffle', 'verbose', 'intercept'))

# estimator, constructor arguments by position -> optimizer class, role of every optimizer argument by position
STEP = lambda lr: ('StepDecay', [lr])


def gd(cls, loss, lr=A, **k):
    d = dict(mi=MI, bs=BS, pa=PA, tol=TOL, sh=SH, vb=VB)
    d.update(k)
    k.setdefault('more', [FALSE] if cls == 'SGD' else [])
    return dict(cls=cls, loss=loss, decay=STEP(lr), pos=[d['mi'], d['bs'], d['pa'], d['tol'], d['sh'], d['vb']] + k.get('more', []))


def table():
    out = []
    for s in ('sgd', 'sag'):
        for pn in ('l2', 'None'):
            out.append(('LogisticRegression', 'linear', [A, LAM, TOL, BS, MI, PA, S(s), S(pn), SH, VB], gd(s.upper(), ('LogLoss', [LAM]))))
    out.append(('LogisticRegression', 'linear', [LAM, L1, MI, S('scd'), S('l1'), SH, VB], dict(cls='SCD', loss=('LogLoss', [LAM]), pos=[MI, L1, LAM, SH, VB])))
    for pol in ('backtracking', 'bracketing'):
        for cond in ('ARMIJO', 'WOLFE', 'STRONG_WOLFE'):
            out.append(('LogisticRegression', 'linear', [TOL, FT, DE, WO, MI, MEM, PAST, MLS, S('lbfgs'), S('None'), S(pol), S(cond), SH, VB],
                        dict(cls='LBFGS', loss=('LogLoss', None), ls=[FT, WO, MLS, S(cond)], pos=[MI, MEM, PAST, TOL, DE, S(pol), SH, VB])))
    out.append(('LogisticRegression', 'linear', [], gd('SAG', ('LogLoss', [ZERO]), num(F_(1, 10)), mi=num(2000), bs=num(16), pa=num(5), tol=num(F_('0.0001')), sh=TRUE, vb=TRUE)))
    for pn in ('l2', 'None'):
        out.append(('SoftmaxRegression', 'linear', [A, LAM, TOL, BS, MI, PA, S('sgd'), S(pn), SH, VB], gd('SGD', ('SoftmaxLoss', [LAM]), more=[TRUE])))
        out.append(('Perceptron', 'linear', [A, LAM, TOL, BS, MI, PA, S(pn), IC, SH, VB], gd('SGD', ('HingeLoss', [LAM, ZERO]))))
    out.append(('SoftmaxRegression', 'linear', [], gd('SGD', ('SoftmaxLoss', [ZERO]), num(F_(1, 100)), mi=num(2000), bs=num(4), pa=num(5), tol=num(F_('0.0001')), sh=TRUE, vb=TRUE, more=[TRUE])))
    # the default perceptron is compared up to its rejected default (penalty l2 with coefficient 0): see C12
    out.append(('LassoRegression', 'lasso', [MI, LAM, L1, SH, VB, IC], dict(cls='SCD', loss=('MSE', []), pos=[MI, L1, LAM, SH, VB])))
    out.append(('LassoRegression', 'lasso', [], dict(cls='SCD', loss=('MSE', []), pos=[num(5000), ONE, num(F_('0.001')), TRUE, TRUE])))
    return out


def differ(c, an, a, b, cfg, path=''):
    """(path, verdict) of the fields in which two objects differ"""
    out = []
    if isinstance(a, ObjV) and isinstance(b, ObjV):
        for k in a.f:
            out += differ(c, an, a.f[k], b.f.get(k), cfg, path + '.' + k)
        return out
    if veq(a, b) or isinstance(a, (OpqV, UninitV)) or isinstance(b, (OpqV, UninitV)):
        return out
    if isinstance(a, MatV) or isinstance(b, MatV):
        return out
    if isinstance(a, T) and isinstance(b, T):
        v = equal(a, b, cfg)
        return [(path, v)] if v.kind != 'same' else out
    return [(path, Verdict('unknown', type(a).__name__))]


def fitted(c, an, q, args, exp):
    fit = Fitted(c, an, q, args)
    nm = conf_name(q, args) + (' %s' % args[-4].a[0] + '/' + args[-3].a[0] if exp['cls'] == 'LBFGS' else '')
    w = fit.where
    rec = [r for r in fit.rec]
    if not rec:
        return c.undecided(nm, w, 'no optimizer run in fit')
    cfg = Cfg(dict(dims(), y=('choice', [0, 1])), trials=c.trials(24, 96))
    for r in rec:
        got = r['obj']
        cls = an.p.classes[got.cls]['q'].rsplit('::', 1)[-1]
        if cls != exp['cls']:
            c.ob(nm + ': the requested optimizer runs', r['where'], 'diff', 'solver option selects the optimizer', 'runs %s, expected %s' % (cls, exp['cls']))
            continue
        c.ob(nm + ': the requested optimizer runs', r['where'], 'same', 'solver option selects the optimizer')
        comp = {an.p.classes[v.cls]['q'].rsplit('::', 1)[-1]: v for v in got.f.values() if isinstance(v, ObjV)}
        x0 = an.vec('x0', C_) if cls != 'SGD' else an.mat('x0', C_, sym('Kx', 'Z', 'dim'))
        args2 = [x0]
        ln, la = exp['loss']
        if ln not in comp:
            c.ob(nm + ': the documented loss is minimised', r['where'], 'diff', 'estimator minimises its loss', 'loss is one of %s' % sorted(comp))
            continue
        ref = an.e.read(an.obj(comp[ln].cls, la), an.st) if la is not None else comp[ln]
        args2.append(ref)
        if 'decay' in exp:
            up = next((v for k, v in comp.items() if 'Update' in k), None)
            dn, da = exp['decay']
            if dn not in comp or up is None:
                c.undecided(nm + ': components', r['where'], 'components %s' % sorted(comp))
                continue
            args2 += [up, an.e.read(an.obj(comp[dn].cls, da), an.st)]
        if 'ls' in exp:
            args2.append(an.e.read(an.obj(comp['LineSearchParams'].cls, exp['ls']), an.st))
        pos = list(exp['pos'])
        refo = an.e.read(an.obj(got.cls, args2 + pos), an.st)
        ds = differ(c, an, got, refo, cfg)
        if not ds:
            c.ob(nm + ': every option reaches the optimizer', r['where'], 'same', 'optimizer in fit = optimizer built from the same options by position')
        for p, v in ds:
            c.verdict(nm + ': option%s reaches the optimizer' % p.replace('.', ' '), r['where'], v, 'optimizer in fit = optimizer built from the same options by position')


# ---- constructors of all classes
SKIPQ = ('Node', 'Base')


def stem(f):
    return f.strip('_').lower()


def stored(c, an, done):
    p = an.p
    for f in p.fns:
        if not (f.get('ctor') and f.get('insrc') and not f.get('impl') and not f.get('cp') and f.get('ps')) or f.get('body') is None:
            continue
        ci = f['cls']
        q = p.classes[ci]['q']
        key = (q, len(f['ps']), tuple(x['n'] for x in f['ps']))
        if key in done or not q.startswith('openml::') or 'Line' in q.rsplit('::', 1)[-1] and 'Params' not in q:
            continue
        done.add(key)
        an.new()
        args, syms = [], {}
        for x in f['ps']:
            t = kind(an, x['t'])
            srtn = {'int': 'Z', 'float': 'R', 'bool': 'B'}.get(t['c'], 'S' if t.get('q') == 'std::basic_string' else None)
            if srtn is None:
                args.append(an.e.sym_value(x['t'], 'arg.' + x['n']) if t['c'] != 'eig' else an.mat(x['n'], R_, C_) if t.get('cc') == -1 else an.vec(x['n'], R_))
            else:
                s = syms[x['n']] = sym('arg.' + x['n'], srtn, *(('nn',) if srtn == 'Z' else ()))
                args.append(s)
        try:
            lv = an.e.construct(ci, f, [an.root(a) for a in args], an.st, {'l': 0})
        except (Unsupported, Dead, Skip) as ex:
            c.undecided('%s(%s)' % (short(q), ', '.join(x['n'] for x in f['ps'])), c.loc(f), type(ex).__name__)
            continue
        ob = an.e.read(lv, an.st)
        if not isinstance(ob, ObjV):
            continue
        w = c.loc(f)
        nm = '%s(%s)' % (short(q), ', '.join(x['n'] for x in f['ps']))
        cfg = Cfg({}, trials=24)
        c.fns.add(f['q'])
        byname = {stem(k): k for k in ob.f}
        for n, s in syms.items():
            k = byname.get(stem(n))
            if k is None:
                continue
            v = ob.f[k]
            if not isinstance(v, T):
                c.undecided('%s: %s is stored' % (nm, n), w, type(v).__name__)
                continue
            c.verdict('%s: %s is stored unmodified' % (nm, n), w, Verdict('same', '') if v is s else equal(v, s, cfg), 'the field named after an option holds exactly that option')


def read_somewhere(c, an, done):
    """options set by constructors that no member function (or friend component) ever reads"""
    p = an.p
    reads, inits = {}, {}
    for f in p.fns:
        ci = f.get('cls')
        own = p.classes[ci]['q'] if ci is not None else None
        for part in ([f.get('body')] if not f.get('ctor') else [f.get('body')]):
            asg = set()
            for n in nodes(part):
                if n.get('k') == 'bin' and n.get('op') == '=' and isinstance(n.get('a'), dict) and n['a'].get('k') == 'mem':
                    asg.add(id(n['a']))
                if n.get('k') == 'mem' and id(n) not in asg:
                    reads.setdefault(n.get('f'), set()).add(f['q'])
        for i in f.get('inits') or []:
            for n in nodes(i.get('e')):
                if n.get('k') == 'mem':
                    reads.setdefault(n.get('f'), set()).add(f['q'])
    for f in p.fns:
        if not (f.get('ctor') and f.get('insrc') and not f.get('impl') and not f.get('cp') and f.get('ps')) or not p.classes[f['cls']]['q'].startswith('openml::') or p.classes[f['cls']]['q'].rsplit('::', 1)[0] in {x['q'] for x in p.classes}:
            continue
        ps = {x['id']: x['n'] for x in f['ps']}
        for i in f.get('inits') or []:
            if not i.get('w') or not i.get('f'):
                continue
            ids = {n.get('id') for n in nodes(i['e']) if n.get('k') == 'var'}
            hit = [n for k, n in ps.items() if k in ids]
            used = {n.get('id') for n in nodes(f.get('body')) if n.get('k') == 'var'}
            other = any(k in used for k in ps if k in ids)
            key = (p.classes[f['cls']]['q'], i['f'])
            if hit and key not in done:
                done[key] = (other or bool(reads.get(i['f'])), c.loc(f), hit[0])
            elif hit and (other or reads.get(i['f'])):
                done[key] = (True,) + done[key][1:]


# published default construction of the classes without an optimizer
DEFAULTS = [
    ('nb', 'naive_bayes::GaussianNB', [num(F_('1e-9'))]), ('nb', 'naive_bayes::MultinomialNB', [num(10)]),
    ('kmeans', 'cluster::KMeans', [S('kmeans++'), num(10), num(3), num(300), num(F_('1e-4'))]),
    ('gmm', 'mixture_model::GaussianMixture', [num(100), num(1), num(3), S('random'), S('full'), num(F_('1e-3')), num(F_('1e-6'))]),
    ('linear', 'linear_model::LinearRegression', [TRUE]), ('linear', 'linear_model::RidgeRegression', [num(F_('0.5')), TRUE]),
    ('linear', 'linear_model::Perceptron', [num(F_('0.001')), ZERO, num(F_('0.0001')), num(32), num(2000), num(5), S('l2'), TRUE, TRUE, TRUE]),
    ('linear', 'linear_model::SoftmaxRegression', [num(F_('0.01')), ZERO, num(F_('0.0001')), num(4), num(2000), num(5), S('sgd'), S('None'), TRUE, TRUE]),
    ('linear', 'linear_model::LogisticRegression', [num(F_('0.1')), ZERO, num(F_('0.0001')), num(16), num(2000), num(5), S('sag'), S('None'), TRUE, TRUE]),
    ('lasso', 'linear_model::LassoRegression', [num(5000), num(F_('0.001')), ONE, TRUE, TRUE, TRUE]),
]


def defaults(c, an, q, args):
    ci = klass(an, 'openml::' + q)['idx']
    an.new()
    a, b = an.e.read(an.obj(ci, []), an.st), an.e.read(an.obj(ci, args), an.st)
    w = c.loc(next(f for f in an.p.fns if f.get('ctor') and f.get('cls') == ci and not f['ps']))
    ds = differ(c, an, a, b, Cfg({}, trials=12))
    nm = short(q) + ': published defaults'
    if not ds:
        c.ob(nm, w, 'same', 'default construction = construction from the published default values')
    for p, v in ds:
        c.verdict(nm + ' (%s)' % p[1:], w, v, 'default construction = construction from the published default values')


def run(c):
    tus = ('linear', 'lasso', 'opt', 'opt2', 'nb', 'kmeans', 'gmm', 'tree', 'decomp', 'structs', 'rule')
    c.prefetch(*tus)
    for q, tu, args, exp in table():
        c.guarded(conf_name(q, args), fitted, c, c.an(tu), q, args, exp)
    done, opts = set(), {}
    for tu in tus:
        c.guarded('constructors in ' + tu, stored, c, c.an(tu), done)
        c.guarded('options in ' + tu, read_somewhere, c, c.an(tu), opts)
    for (q, f), (ok, w, n) in sorted(opts.items()):
        if stem(n) == stem(f) or not ok:
            c.ob('%s: option %s is used' % (short(q), n), w, 'same' if ok else 'diff', 'some member function reads the stored option', None if ok else '%s is stored in %s and never read' % (n, f))
    for tu, q, args in DEFAULTS:
        c.guarded(short(q) + ': published defaults', defaults, c, c.an(tu), q, args)
