"""C16: no result depends on uninitialised memory.

Storage without an initial value is a distinguished atom of the term domain.  Every interpretation the other checks make
(functions on symbolic arguments, models constructed, fitted and queried, optimizer steps ...) is repeated here and each
answer is compared with itself under a renaming of those atoms: an answer that differs depends on memory nobody wrote.
Loop-carried variables are decided on the first iteration, where they hold what was there before the loop."""
import importlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from .models import *
from . import base, opt
from oml.api import An
from oml.terms import walk, rewrite_phi, subst, unknowns
from oml.decide import Interp, interps, strings_in, near, Skip, witness, Verdict
from oml.values import UninitV

MODS = ['infer', 'fits', 'c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c14', 'c17', 'c18', 'c19', 'c20', 'c21', 'c22', 'c23', 'c25', 'c28', 'c29', 'c30', 'c33', 'c34', 'c35', 'c36']
DOM = dict(dims(), nq=('int', 1, 2), m=('int', 1, 2), k=('int', 1, 2), p=('int', 2, 3), n=('int', 2, 3))


def ncomp(it, key, h):
    """legal component counts"""
    return 1 + int(h * 997) % max(1, min(it.ev(R_), it.ev(C_)))


DOM.update(nc=ncomp, K=ncomp, k=ncomp)
BUDGET = 4.0


def name_of(x):
    return x.a[0] if x.op in ('sym', 'ten', 'app', 'tapp', 'bapp') and x.a and isinstance(x.a[0], str) else None


def undefs(t):
    return {name_of(x) for x in walk(t) if (name_of(x) or '').startswith('undef')}


def terms(v, out=None, depth=0):
    out = [] if out is None else out
    if isinstance(v, T):
        out.append(v)
    elif isinstance(v, MatV):
        out += [v.r, v.c, v.body]
    elif isinstance(v, ListV):
        out.append(v.n)
        terms(v.e, out, depth + 1)
    elif isinstance(v, TupV):
        for x in v.xs:
            terms(x, out, depth + 1)
    elif isinstance(v, IteV):
        out.append(v.c)
        terms(v.a, out, depth + 1)
        terms(v.b, out, depth + 1)
    elif isinstance(v, MapV) and v.val is not None:
        terms(v.val, out, depth + 1)
    return out


def differs(t, cfg, base=None):
    """an interpretation in which two contents of unwritten memory give two values (and, with base, t is not just base)"""
    if not undefs(t):
        return None
    f = b2t(t) if srt(t) == 'B' else t
    hit = None
    t0 = time.time()
    for it in interps(cfg, strings_in(t)):
        if time.time() - t0 > BUDGET:
            break
        jt = Interp(it.seed, it.dom, it.mode, it.strs, undef_seed=1)
        try:
            x, y = it.ev(f), jt.ev(f)
            if near(x, y):
                continue
            if base is not None and near(x, it.ev(base)):
                continue
        except (Skip, OverflowError, ZeroDivisionError, ValueError):
            continue
        hit = (it, x, y)
        break
    return hit


def value_parts(v, pre='', assume=()):
    """(label, term, assumptions) of every scalar an answer consists of, at arbitrary positions in range"""
    if isinstance(v, T):
        return [(pre, v, list(assume))]
    if isinstance(v, MatV):
        i, j = idx('i*', v.r), idx('j*', v.c)
        return [(pre + '.rows', v.r, list(assume)), (pre + '.cols', v.c, list(assume)), (pre, v.at(i, j), list(assume) + [lt(ZERO, v.r), lt(ZERO, v.c)])]
    if isinstance(v, ListV):
        k = idx('k*', v.n)
        return [(pre + '.size', v.n, list(assume))] + value_parts(v.at(k), pre + '[]', list(assume) + [lt(ZERO, v.n)])
    if isinstance(v, TupV):
        return [z for n, x in enumerate(v.xs) for z in value_parts(x, '%s<%d>' % (pre, n), assume)]
    if isinstance(v, IteV):
        return [(pre + '?', v.c, list(assume))] + value_parts(v.a, pre, list(assume) + [v.c]) + value_parts(v.b, pre, list(assume) + [not_(v.c)])
    if isinstance(v, MapV) and v.val is not None:
        return value_parts(v.val, pre + '{}', list(assume) + [v.has(v.k)])
    return []


class Quiet(base.Check):
    """replays another check's interpretations without its obligations"""

    def ob(self, *a, **k):
        return 'same'

    def eq(self, *a, **k):
        return 'same'

    def holds(self, *a, **k):
        return 'same'

    def eqmat(self, *a, **k):
        return 'same'

    def undecided(self, *a, **k):
        return 'same'

    def verdict(self, *a, **k):
        return 'same'

    def trials(self, *a, **k):
        return 1


class Infer:
    """every inference call of every model on its state"""
    @staticmethod
    def run(c):
        for m in all_models():
            for meth in [x for x in m.infer if x[0] != 'score']:      # C28 interprets score
                def go(m=m, meth=meth):
                    an = c.an(m.tu)
                    m.call(an, m.start(an), meth, an.mat('Q', NQ, C_))
                c.guarded(m.label, go)


class Fits:
    """training of every model and optimizer"""
    @staticmethod
    def run(c):
        for m in all_models():
            if m.fit and m.name not in ('GaussianMixture', 'DecisionTreeClassifier', 'DecisionTreeRegressor'):      # in parts: C29, C22
                c.guarded(m.label, lambda: m.start(c.an(m.tu), 'fit'))
        for q in CONF:
            for args, *_ in CONF[q]:
                c.guarded(q, Fits.linear, c, q, args)
        for cls in ('SGD', 'SAG', 'TruncatedGradient', 'SCD'):
            for s in (TRUE, FALSE):
                c.guarded(cls, lambda: opt.Run(c, c.an('opt'), cls, shuffle=s))
        for pol in ('ARMIJO', 'WOLFE', 'STRONG_WOLFE'):
            c.guarded(pol, lambda: opt.Newton(c, c.an('opt'), pol))

    @staticmethod
    def linear(c, q, args):
        t = Fitted(c, c.an('lasso' if q == 'LassoRegression' else 'linear'), q, args)
        for r in t.rec:
            for k, v in [('data', r.get('X')), ('targets', r.get('y'))] + [('start ' + k, v) for k, v in (r['obj'].f.items() if isinstance(r.get('obj'), ObjV) else ())]:
                if isinstance(v, MatV):
                    c.look('openml::linear_model::' + q + '::fit', r['where'], 'optimizer ' + k, v)


RANK = {'same': 0, 'unknown': 1, 'diff': 2}


def work(mod):
    res, cache = {}, {}
    run0 = An.run
    cfg = Cfg(DOM, modes=(0, 2, 1), trials=8)

    def note(q, where, what, kind, detail=''):
        k = (q, what)
        old = res.get(k)
        if old is None or RANK[kind] > RANK[old[1]]:
            res[k] = (where, kind, detail, (old[3] if old else 0) + 1)
        else:
            res[k] = old[:3] + (old[3] + 1,)

    def run_(self, f, args, this=None):
        n0 = len(self.e.loops)
        o = run0(self, f, args, this)
        try:
            look(self, f, o, this, self.e.loops[n0:])
        except (RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError) as ex:
            note(f['q'], where(f), 'answer', 'unknown', '%s: %s' % (type(ex).__name__, str(ex)[:80]))
        return o

    def where(f):
        return '%s:%s %s' % (rel(f.get('file', '?')), f.get('line', '?'), short(f['q']))

    def decide(q, w, what, t, cf, base=None):
        if not undefs(t):
            return note(q, w, what, 'same')
        k = (t, tuple(cf.assume), base)
        if k not in cache:
            h = differs(t, cf, base)
            cache[k] = None if h is None else ('unknown' if unknowns(t) else 'diff', '%s and %s for two contents of %s; %s' % (h[1], h[2], ', '.join(sorted(undefs(t))[:2]), str(witness(h[0]))[:160]))
        r = cache[k]
        note(q, w, what, *(r if r else ('same',)))

    def look(an, f, o, this, loops):
        if o.dead:
            return
        w = where(f)
        v = o.val()
        vals = [('answer', v)] if v is not None else []
        if this is not None and an.e._is_lv(this) and not f.get('cm'):
            ob = an.e.read(this, an.st)
            if isinstance(ob, ObjV):
                vals += [('field ' + k, x) for k, x in ob.f.items() if isinstance(x, (MatV, ListV, TupV, MapV))]
        for k, x in vals:
            for lab, t, asm in value_parts(x):
                decide(f['q'], w, k, t, cfg.plus({}, [a for a in asm if a is not TRUE]))
        first(loops)

    def first(loops):
        """variables carried around loops hold what was there before in the first iterations"""
        mp, tz, lv = {}, {}, []
        for l in loops:
            if isinstance(l.t, T):
                tz[l.t] = ZERO
            for z in l.leaves:
                if not (isinstance(getattr(z, 'raw', None), T) and isinstance(z.init, T)):
                    continue
                ph = z.ph
                ix = [I, J] if ph.op == 'el' else []
                while ph.op in ('el', 'nat'):
                    ph = ph.a[0]
                ix = [x for x in ph.a[1:] if isinstance(x, T)] + ix if ph.op in ('app', 'tapp', 'bapp') else ix
                if all(x.op == 'sym' for x in ix):
                    mp[z.name.rstrip('@')] = (tuple(ix), z.init)
                lv.append((l, z))

        def start(t):
            for _ in range(5):
                u = rewrite_phi(t, mp)
                if u is t:
                    break
                t = u
            return subst(t, tz)
        for l, z in lv:
            lw = '%s:%s %s' % (rel(l.file), l.line, short(l.fn))
            base = start(z.init)
            if not undefs(base):
                note(l.fn, lw, 'loop-carried variables', 'same')
                continue
            asm = [start(l.cond)] if isinstance(l.cond, T) else []
            v = l.store.get(z.path[0])
            for st_ in z.path[1:]:
                v = v.f.get(st_[1]) if isinstance(v, ObjV) else (v.xs[st_[1]] if isinstance(v, TupV) else None)
            if isinstance(v, MatV):
                asm += [le(ZERO, I), le(ZERO, J), lt(I, start(v.r)), lt(J, start(v.c))]
            asm = [a for a in asm if not undefs(a) and a is not TRUE]
            decide(l.fn, lw, 'loop-carried ' + z.name.split('.', 1)[-1], start(z.raw), cfg.plus({}, asm), base)
    An.run = run_
    m = {'infer': Infer, 'fits': Fits}.get(mod) or importlib.import_module('checks.' + mod)
    same = lambda *a, **k: Verdict('same', '')
    for nm_, md in list(sys.modules.items()):
        if nm_.startswith('checks.') and nm_ not in ('checks.c16', 'checks.base'):
            for g in ('equal', 'valid', 'same_value', 'implies'):
                if hasattr(md, g):
                    setattr(md, g, same)
    c = Quiet('C16', 'quick')

    def seen(q, w, what, v):
        for lab, t, asm in value_parts(v):
            decide(q, w, what, t, cfg.plus({}, [a for a in asm if a is not TRUE]))
    c.look = seen
    m.run(c)
    return [[q, what, *r] for (q, what), r in res.items()]


def run(c):
    c.prefetch('core', 'core2', 'opt', 'opt2', 'linear', 'lasso', 'nb', 'kmeans', 'gmm', 'tree', 'decomp', 'structs')
    code = "import sys,threading,json;sys.path.insert(0,%r);threading.stack_size(512*1024*1024);import checks.c16 as z\ndef go():\n    r=z.work(sys.argv[1]);print('\\n@@'+json.dumps(r),flush=True)\nt=threading.Thread(target=go);t.start();t.join()" % os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

    def one(mod):
        try:
            p = subprocess.run([sys.executable, '-c', code, mod], capture_output=True, text=True, timeout=500)
        except subprocess.TimeoutExpired:
            return mod, None
        for l in p.stdout.splitlines():
            if l.startswith('@@'):
                return mod, json.loads(l[2:])
        if os.environ.get('OML_DEBUG'):
            print(mod, p.stderr[-1500:])
        return mod, None
    tot = {}
    with ThreadPoolExecutor(max(2, (os.cpu_count() or 4) - 1)) as ex:
        for mod, r in ex.map(one, MODS):
            if r is None:
                c.undecided('interpretations of ' + mod, mod, 'no result')
                continue
            for q, what, where, kind, detail, n in r:
                k = (q, what)
                old = tot.get(k)
                if old is None or RANK[kind] > RANK[old[1]]:
                    tot[k] = [where, kind, detail, n + (old[3] if old else 0)]
                else:
                    old[3] += n
    for (q, what), (where, kind, detail, n) in sorted(tot.items()):
        c.fns.add(q)
        c.ob('%s: %s' % (short(q), what), where, kind, 'the value is the same for any contents of memory nobody wrote (%d interpretations)' % n, detail)
