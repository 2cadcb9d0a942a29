"""Shared by all checks: source extraction, obligations, verdict reporting, evidence."""
import concurrent.futures, hashlib, json, os, subprocess, sys, time
sys.setrecursionlimit(20000)
VDIR = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OML_REPO', '/repo')
BUILD = os.path.join(VDIR, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
sys.path.insert(0, VDIR)
from oml.api import *                       # noqa
from oml.decide import equal, valid, implies, Cfg, Verdict, interps, strings_in, near, unknowns, Interp, Skip


def _hash_tree(*roots):
    h = hashlib.sha256()
    for r in roots:
        if os.path.isfile(r):
            h.update(open(r, 'rb').read())
            continue
        for d, dn, fn in sorted(os.walk(r)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.hpp', '.h', '.cpp', '.cc', '.hh')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def extractor():
    x = os.path.join(BUILD, 'oml-extract')
    s = os.path.join(VDIR, 'extract', 'extract.cpp')
    if not os.path.exists(x) or os.path.getmtime(x) < os.path.getmtime(s):
        subprocess.run(['bash', os.path.join(VDIR, 'extract', 'build.sh')], check=True, stdout=subprocess.DEVNULL)
    return x


_P = {}


def extract(tus):
    """typed trees of the current sources of /repo, one per instantiation unit (cached by content)"""
    x = extractor()
    key = _hash_tree(os.path.join(REPO, 'src'), os.path.join(VDIR, 'tu'), os.path.join(VDIR, 'extract', 'extract.cpp'))
    d = os.path.join(BUILD, 'x', key)
    os.makedirs(d, exist_ok=True)

    def one(tu):
        out = os.path.join(d, tu + '.json')
        if not os.path.exists(out):
            tmp = out + '.%d' % os.getpid()
            r = subprocess.run([x, os.path.join(REPO, 'src'), os.path.join(VDIR, 'tu', tu + '.cpp'), tmp, '--', '-std=c++17',
                                '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VDIR, 'tu'), '-w'],
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
            if not os.path.exists(tmp):
                raise RuntimeError('extraction of %s failed: %s' % (tu, r.stderr.decode()[-400:]))
            os.replace(tmp, out)
        return out
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return dict(zip(tus, ex.map(one, tus)))


def prog(tu):
    if tu not in _P:
        _P[tu] = Prog(extract([tu])[tu])
    return _P[tu]


class Check:
    def __init__(self, pid, tier, level='other'):
        self.pid, self.tier, self.level = pid, tier, level
        self.thorough = tier == 'thorough'
        self.obs = []
        self.fns = set()
        self.t0 = time.time()
        self.notes = []
        self.extra = {}

    # ---- analysis
    def an(self, tu, hooks=None):
        return An(prog(tu), hooks)

    def prefetch(self, *tus):
        extract(list(tus))

    def trials(self, q=24, t=96):
        return t if self.thorough else q

    # ---- obligations
    def ob(self, name, where, kind, rule, detail=None, fp=None):
        """kind: 'same' (discharged), 'diff' (violated), 'unknown' (undecided)"""
        self.obs.append(dict(name=name, where=where, verdict={'same': 'discharged', 'diff': 'violated', 'unknown': 'undecided'}[kind],
                             rule=rule, **({'detail': detail} if detail else {}), **({'fp': fp} if fp else {})))
        return kind

    def verdict(self, name, where, v, rule, fp=None):
        d = v.how if v.kind == 'unknown' else (v.wit if v.kind == 'diff' else None)
        return self.ob(name, where, v.kind, rule, d, fp)

    def loc(self, f):
        f = f if isinstance(f, dict) else None
        if not f:
            return '?'
        self.fns.add(f['q'])
        return '%s:%s %s' % (rel(f.get('file', '?')), f.get('line', '?'), short(f['q']))

    def eq(self, name, where, got, spec, cfg=None, rule='value equals its definition', unknown_ok=False):
        cfg = cfg or Cfg()
        if self.thorough:
            cfg = cfg.plus()
            cfg.trials = max(cfg.trials, 96)
        try:
            v = equal(got, spec, cfg, unknown_ok)
        except RecursionError:
            v = Verdict('unknown', 'term too deep')
        return self.verdict(name, where, v, rule, fingerprint(got, cfg) if v.kind == 'diff' else None)

    def holds(self, name, where, cond, cfg=None, rule='condition holds', unknown_ok=False):
        cfg = cfg or Cfg()
        try:
            v = valid(cond, cfg, unknown_ok)
        except RecursionError:
            v = Verdict('unknown', 'term too deep')
        return self.verdict(name, where, v, rule)

    def eqmat(self, name, where, got, r, c, fspec, cfg=None, rule='matrix equals its definition', unknown_ok=False):
        """got: MatV; r, c expected shape terms (or None); fspec(i, j) expected element"""
        if not isinstance(got, MatV):
            return self.ob(name, where, 'unknown', rule, 'not a matrix value: %s' % type(got).__name__)
        cfg = cfg or Cfg()
        k = None
        for nm, g, s in (('rows', got.r, r), ('cols', got.c, c)):
            if s is None:
                continue
            v = equal(g, lift(s), cfg, unknown_ok)
            if v.kind != 'same':
                k = k or v
                if v.kind == 'diff':
                    return self.verdict(name + ' [%s]' % nm, where, v, rule)
        i, j = idx('i*', got.r), idx('j*', got.c)
        v = equal(got.at(i, j), fspec(i, j), cfg, unknown_ok)
        if v.kind == 'same' and k is not None:
            v = k
        return self.verdict(name, where, v, rule, fingerprint(got.at(i, j), cfg) if v.kind == 'diff' else None)

    def undecided(self, name, where, why, rule=''):
        return self.ob(name, where, 'unknown', rule, why)

    def guarded(self, name, fn, *a, **k):
        """run one obligation builder; engine limits become 'undecided', never an alarm"""
        try:
            return fn(*a, **k)
        except (Unsupported, Dead, Skip, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, ZeroDivisionError, AssertionError, NotImplementedError, OverflowError) as ex:
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            self.undecided(name, '?', '%s: %s @%s:%d' % (type(ex).__name__, str(ex)[:120], os.path.basename(tb.filename), tb.lineno))
            if os.environ.get('OML_DEBUG'):
                traceback.print_exc()

    # ---- result
    def finish(self):
        kf = known()
        viol, listed, und, dis = [], [], [], []
        for o in self.obs:
            if o['verdict'] == 'violated':
                k = next((x for x in kf if x.get('property') == self.pid and x.get('status') == 'known' and x['obligation'] == o['name']
                          and x['where'] == o['where'].split(' ')[-1] and (x.get('fp') is None or x.get('fp') == o.get('fp'))), None)
                (listed if k else viol).append((o, k))
            elif o['verdict'] == 'undecided':
                und.append(o)
            else:
                dis.append(o)
        ev = os.path.join(VDIR, 'evidence')
        os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
        cov = dict(explanation='obligations enumerated from the current source and decided by term equality / implication or by the stated syntactic rule; '
                               'undecided ones lie outside the interpreted fragment and are not claimed',
                   obligations=len(self.obs), discharged=len(dis), undecided=len(und), violated=len(viol), known=len(listed),
                   functions_analysed=sorted(short(x) for x in self.fns),
                   rules=sorted({o['rule'] for o in self.obs if o['rule']}),
                   samples=[dict(name=o['name'], where=o['where'], verdict=o['verdict']) for o in self.obs[:400]],
                   undecided_list=[dict(name=o['name'], where=o['where'], why=str(o.get('detail'))[:200]) for o in und], **self.extra)
        doc = dict(property=self.pid, tier=self.tier, seed=SEED, level=self.level, coverage=cov, wall_s=round(time.time() - self.t0, 2))
        json.dump(doc, open(os.path.join(ev, self.pid + '.json'), 'w'), indent=1)
        for o, k in listed:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, o['where'], k['what']))
        n = 0
        for o, _ in viol:
            rp = os.path.join(ev, 'replay', '%s-%d.json' % (self.pid, n))
            n += 1
            json.dump(dict(property=self.pid, **o), open(rp, 'w'), indent=1, default=str)
            print('violated: %s at %s: %s' % (o['name'], o['where'], json.dumps(o.get('detail'), default=str)[:600]))
            if os.environ.get('OML_DEBUG') and o.get('fp'):
                print('   fp', o['fp'])
        if viol:
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.join(ev, 'replay', self.pid + '-0.json')))
        print('%s %s: %d obligations, %d discharged, %d known, %d violated, %d undecided (%.1fs)' % (
            self.pid, self.tier, len(self.obs), len(dis), len(listed), len(viol), len(und), time.time() - self.t0))
        if os.environ.get('OML_DEBUG'):
            for o in und:
                print('  undecided', o['name'], o['where'], str(o.get('detail'))[:300])
        if viol:
            return 1
        if not dis and not listed:
            print('no obligation could be decided: the anchors of this property were not found')
            return 2
        return 0


def known():
    p = os.path.join(VDIR, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def rel(p):
    for r in (REPO + '/', '/repo/'):
        if p.startswith(r):
            return p[len(r):]
    return p


def short(q):
    return q[8:] if q.startswith('openml::') else q


def idx(name, n):
    return mk('sym', name, 'Z', n) if isinstance(n, T) else sym(name, 'Z')


def fingerprint(t, cfg=None):
    """semantic fingerprint of a term: its values under fixed interpretations (used to identify a listed finding)"""
    cfg = cfg or Cfg()
    c2 = Cfg(cfg.dom, cfg.assume, cfg.modes, 8, cfg.strs)
    h = hashlib.sha256()
    for k in range(40):
        it = Interp((7, k), c2.dom, c2.modes[k % len(c2.modes)], list(c2.strs) + [s for s in strings_in(t) if s not in c2.strs])
        try:
            if not all(it.ev(c) for c in c2.assume):
                continue
            v = it.ev(t)
        except Exception:
            v = 'skip'
        if isinstance(v, float):
            v = '%.4g' % v
        h.update(repr(v).encode())
    return h.hexdigest()[:12]
