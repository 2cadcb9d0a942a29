"""Models of the standard library parts the library uses."""
from .eigen import *
from .eigen import _n
from fractions import Fraction as Fr

EXC = ('std::invalid_argument', 'std::runtime_error', 'std::out_of_range', 'std::logic_error', 'std::exception', 'std::domain_error')
STREAMS = ('std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_istringstream', 'std::basic_ifstream', 'std::basic_ofstream')
INSTREAMS = ('std::basic_stringstream', 'std::basic_istringstream', 'std::basic_ifstream')


def instream(v):
    return isinstance(v, TupV) and len(v.xs) == 3 and isinstance(v.xs[0], T) and v.xs[0].op == 'str' and v.xs[0].a[0] in ('file', 'text')



class Stdlib(EigenSem):
    # an input stream is (what it reads and how, source, units consumed); it is good until a read past the last unit was tried
    def stream_ok(self, v):
        kind, src, pos = v.xs
        op = app('openable', 'B', src) if kind.a[0] == 'file' else TRUE
        u = self.smode.get((kind, src))
        return and_(op, le(pos, app(u + '.n', 'Z', src))) if u else op

    def stream_read(self, lv, v, unit, s, st, e):
        """the next line / token; None when lines and tokens are mixed"""
        kind, src, pos = v.xs
        u = kind.a[0] + unit
        if self.smode.setdefault((kind, src), u) != u:
            return None
        self.write(lv, TupV([kind, src, add(pos, ONE)]), st, e)
        return app(u, s, src, pos)

    # ------------------------------------------------------------ constructors
    def std_ctor(self, t, e, st, fr):
        if t.get('q') in FUNCTORS and not e['a']:
            return FnV({'functor': t['q']})
        q = t['q']
        al = [a for a in e['a'] if not a.get('defarg')]
        if q in EXC or q in STREAMS or q == 'std::allocator':
            xs = [self.ev(a, st, fr) for a in al]
            if q in INSTREAMS and xs and isinstance(xs[0], T) and srt(xs[0]) == 'S':
                return TupV([mk('str', 'file' if q == 'std::basic_ifstream' else 'text'), xs[0], ZERO])
            return OpqV(q)
        if q in ('std::vector', 'std::deque', 'std::list', 'std::stack', 'std::queue', 'std::priority_queue', 'std::initializer_list'):
            return self.vec_ctor(t, e, al, st, fr)
        if q in ('std::map', 'std::unordered_map', 'std::set'):
            if len(al) >= 1:
                xs = [self.evx(a, st, fr) for a in al]
                xs = [self.read(x, st) if self._is_lv(x) and not isinstance(x, (IterV, IteV)) else x for x in xs]
                if isinstance(xs[0], MapV) or len(al) == 1 and not isinstance(xs[0], (ListV, AppV, PhiL)):
                    return xs[0]
                l = self.range_list(xs[0], xs[1], st, e) if len(xs) > 1 and isinstance(xs[0], (IterV, IteV)) else xs[0]
                return self.keyed(l, q, st, e)
            return self.default(e['t'], st, 'm')
        if q in ('std::pair', 'std::tuple'):
            xs = [self.ev(a, st, fr) for a in al]
            if len(xs) == 1 and isinstance(xs[0], (TupV, IteV)):
                return xs[0]
            n = 2 if q == 'std::pair' else len((t.get('ta') or [{}])[0].get('P', []))
            if not xs and n:
                return self.default(e['t'], st, 'tup')
            return TupV(xs)
        if q in ('std::shared_ptr', 'std::unique_ptr'):
            bx = q == 'std::shared_ptr' and self.boxed(t)
            if not al:
                return self.nullbox(t) if bx else NULL
            v = self.ev(al[0], st, fr)
            return self.nullbox(t) if bx and isinstance(v, PtrV) and v.lv is None else v
        if q == 'std::basic_string':
            if not al:
                return mk('str', '')
            v = self.ev(al[0], st, fr)
            return v
        if q in ('std::random_device',):
            self.event('entropy', st, e, what='std::random_device')
            return OpqV(q)
        if q.startswith('Eigen::PermutationMatrix'):
            if not al:
                return MatV(ZERO, ONE, el(ten('undef:perm@%d' % self.uid(), 'Z'), I, J))
            v = self.ev(al[0], st, fr)
            if isinstance(v, MatV):
                return v
            return MatV(self.num_(self.scalar(v)), ONE, el(ten('undef:perm@%d' % self.uid(), 'Z'), I, J))
        if q.startswith('Eigen::') and 'iterator' in q and len(al) == 1:
            return self.ev(al[0], st, fr)
        if q.startswith('Eigen::'):
            r = self.dec_ctor(q, e, st, fr)
            return r
        if q.startswith('std::') or q.startswith('__gnu_cxx'):
            xs = [self.ev(a, st, fr) for a in al]
            if len(xs) == 1 and isinstance(xs[0], (IterV, IteV)):
                return xs[0]
            d = []
            if 'distribution' in q and len(xs) == 2:
                return OpqV(q, [self.num_(self.scalar(x)) for x in xs])
            for x in xs:
                deps_of(x, d)
            if q.startswith('std::seed_seq') or 'engine' in q:
                self.event('rng', st, e, what=q, args=xs)
            return OpqV(q, d[:6])
        if len(al) == 1:
            return self.ev(al[0], st, fr)
        self.unknown('constructor ' + q, e)
        for a in al:
            self.evx(a, st, fr)
        return OpqV('?' + q)

    def keyed(self, l, q, st, e):
        """set (or map) holding the elements of a list"""
        if isinstance(l, AppV):
            l = flat_list(l)
        if not isinstance(l, ListV):
            return OpqV('?keys', deps_of(l)[:4])
        i, k = fresh('i'), fresh('key')
        x = l.at(i)
        if isinstance(x, T) and q == 'std::set':
            return MapV(k, any_(l.n, i, eq(k, x)), None, True, [(l.n, i, TRUE, x)])
        if isinstance(x, TupV) and len(x.xs) == 2 and isinstance(x.xs[0], T):
            hit = eq(k, x.xs[0])
            val = l.at(bind('first', l.n, i, hit)).xs[1]
            return MapV(k, any_(l.n, i, hit), val, 'unordered' not in q, [(l.n, i, TRUE, x.xs[0])])
        return OpqV('?keys', deps_of(l)[:4])

    def vec_ctor(self, t, e, al, st, fr):
        et = self.p.targ(t, 0)
        if not al:
            return ListV(ZERO, fresh('k'), ZERO)
        if e.get('il') or al[0]['k'] == 'ilist':
            v = self.ev(al[0], st, fr)
            if isinstance(v, (ListV, IteV)):
                return v
            return self.list_of([v])
        xs = [self.evx(a, st, fr) for a in al]
        v0 = self.read(xs[0], st) if self._is_lv(xs[0]) else xs[0]
        if isinstance(v0, (ListV, AppV, PhiL)):
            return v0
        if isinstance(v0, IterV) and len(xs) > 1:
            v1 = self.read(xs[1], st) if self._is_lv(xs[1]) else xs[1]
            return self.range_list(v0, v1, st, e)
        if isinstance(v0, IteV) and len(xs) == 1:
            return v0
        n = self.num_(self.scalar(v0))
        if len(xs) > 1:
            v = self.read(xs[1], st) if self._is_lv(xs[1]) else xs[1]
        else:
            v = self.default(et, st, 'elem', True)
        return ListV(n, fresh('k'), self.coerce(v, et))

    def range_list(self, a, b, st, e):
        """values in an iterator range"""
        if isinstance(a, IteV) or isinstance(b, IteV):
            c = a if isinstance(a, IteV) else b
            x = self.range_list(a.a if c is a else a, b.a if c is b else b, st, e)
            y = self.range_list(a.b if c is a else a, b.b if c is b else b, st, e)
            return mergev(c.c, x, y)
        if isinstance(a, IterV) and isinstance(b, IterV):
            ai, bi = self.iter_idx(a, st), self.iter_idx(b, st)
            c = self.read(a.lv, st)
            if isinstance(c, MapV):
                if ai is ZERO and bi is not None:
                    k = fresh('k')
                    key = c.kth(k)
                    return ListV(c.size(), k, key if c.val is None else TupV([key, c.get(key)]))
                return OpqV('?range')
            if ai is None or bi is None:
                return OpqV('?range')
            self.event('bounds', st, e, cond=and_(le(ZERO, ai), le(ai, bi), le(bi, self.length(c))), what='iterator range')
            k = fresh('k')
            x = self.item_at(c, add(ai, k), st)
            if x is None:
                return OpqV('?range')
            return ListV(sub(bi, ai), k, x)
        return OpqV('?range')

    def item_at(self, c, i, st):
        if isinstance(c, MapV):
            k = c.kth(i)
            return k if c.val is None else TupV([k, c.get(k)])
        if isinstance(c, MatV):
            a, b = self.unlin(c, i)
            return c.at(a, b)
        if isinstance(c, AppV):
            f = flat_list(c)
            c = f if isinstance(f, ListV) else self.flatten_app(f)
        if isinstance(c, (ListV, PhiL)):
            return c.at(i)
        if isinstance(c, AxisV):
            x = self.axis_elem(c, i, st)
            return self.read(x, st) if self._is_lv(x) else x
        if isinstance(c, IteV):
            a, b = self.item_at(c.a, i, st), self.item_at(c.b, i, st)
            return mergev(c.c, a, b) if a is not None and b is not None else None
        return None

    # ------------------------------------------------------------ ordering
    def order_key(self, comp, at, st, e, n=None):
        """comparator over elements at(i): a term key f(i) such that the order is by increasing f, or None"""
        a, b = (fresh('oa'), fresh('ob')) if n is None else (fresh('oa', 'Z', n), fresh('ob', 'Z', n))
        x, y = at(a), at(b)
        if comp is None:
            c = self.less(x, y)
        else:
            c = self.boolv(self.applyv(comp, [x, y], st.clone(), e))
        self.lastcmp = (c, a, b)
        if c is None:
            return None
        return self.match_less(c, a, b)

    def less(self, x, y):
        if isinstance(x, T) and isinstance(y, T):
            if srt(x) == 'S' or srt(y) == 'S':
                return mk('bapp', 'strless', x, y)
            return lt(_n(x), _n(y))
        if isinstance(x, TupV) and isinstance(y, TupV):
            r = FALSE
            for p, q in reversed(list(zip(x.xs, y.xs))):
                l1, l2 = self.less(p, q), self.less(q, p)
                if l1 is None or l2 is None:
                    return None
                r = or_(l1, and_(not_(l2), r))
            return r
        if isinstance(x, (ListV, ObjV)):
            return None
        return None

    def match_less(self, c, a, b):
        """c(a,b) is lt(f(a), f(b))?"""
        if c.op == 'lt0':
            d = pd(c.a[0])
            fa = {m: k for m, k in d.items() if any(a in at.fs for at, e in m)}
            fb = {m: k for m, k in d.items() if any(b in at.fs for at, e in m)}
            co = {m: k for m, k in d.items() if m not in fa and m not in fb}
            if set(fa) & set(fb) or co:
                return None
            f, g = unpd(fa), unpd(fb)
            if subst(f, {a: b}) is neg(g):
                return lambda i: subst(f, {a: i})
            return None
        # lexicographic comparison of two keys
        if c.op == 'or' and len(c.a) == 2:
            for p, q in (c.a, c.a[::-1]):
                f = self.match_less(p, a, b) if p.op == 'lt0' else None
                if f is not None:
                    rest = restrict(q, p, False)
                    inv_ = self.swap_syms(p, a, b)
                    rest = restrict(rest, inv_, False)
                    rest = restrict(rest, eq(f(a), f(b)), True)
                    g = self.match_less(rest, a, b)
                    if g is not None:
                        return lambda i, f=f, g=g: mk('tup', f(i), g(i))
        return None

    def swap_syms(self, t, a, b):
        c = fresh('sw')
        return subst(subst(subst(t, {a: c}), {b: a}), {c: b})

    def sorted_list(self, c, comp, st, e, lo=ZERO, hi=None, stable=False):
        n = self.length(c) if hi is None else sub(hi, lo)
        at = lambda i: self.item_at(c, add(lo, i), st)
        if self.item_at(c, ZERO, st) is None:
            return None
        f = self.order_key(comp, at, st, e, n)
        self.event('sort', st, e, cmp=self.lastcmp, n=n, stable=stable, total=f is not None)
        if isinstance(c, MapV):
            return None
        s = fresh('s')
        k = fresh('k')
        x0 = at(ZERO)
        if f is None:
            # an unknown order: some permutation determined by the elements
            p = app('?perm', 'Z', toterm(self.listify(c)) if not isinstance(c, MatV) else toterm(c), k)
            return ListV(n, k, at(p))
        fs = f(s)
        if isinstance(x0, T) and fs.op != 'tup' and fs is at(s):
            fs = self.unperm(n, s, fs)
            r = rawbind('srt', n, s, fs, k)
            return ListV(n, k, r)
        r = rawbind('rank', n, s, fs, k)
        return ListV(n, k, at(r))

    def unperm(self, n, s, body):
        """an element expression that merely rearranges n elements (after a partial selection): the original elements"""
        while body.op == 'ite' and body.a[1].op == 'srt' and body.a[2].op == 'srt':
            x, y = body.a[1], body.a[2]
            if not (y.a[2].op == 'app' and y.a[2].a[0] == '?nthperm'):
                x, y = y, x
            if not (y.a[2].op == 'app' and y.a[2].a[0] == '?nthperm') or y.a[0] is not n or x.a[0] is not n or s not in y.a[2].fs:
                return body
            u = fresh('u')
            if open1(x, u) is not open1(y, u):
                return body
            body = open1(y, s)
        return body

    def listify(self, c):
        if isinstance(c, AppV):
            f = flat_list(c)
            return f if isinstance(f, ListV) else (self.flatten_app(f) or c)
        return c

    def write_range(self, lv, c, lo, hi, new, st, e):
        """container c (at lv) with positions lo..hi-1 replaced by list new"""
        n = self.length(c)
        full = lo is ZERO and hi is n
        if isinstance(c, MatV):
            lin = I if c.c is ONE else (J if c.r is ONE else add(I, mul(J, c.r)))
            x = new.at(sub(lin, lo))
            body = x if full else ite(and_(le(lo, lin), lt(lin, hi)), x, c.body)
            self.write(lv, MatV(c.r, c.c, body), st, e)
        else:
            if full:
                self.write(lv, ListV(n, new.k, new.e), st, e)
            else:
                k = fresh('k')
                old = self.item_at(c, k, st)
                self.write(lv, ListV(n, k, mergev(and_(le(lo, k), lt(k, hi)), new.at(sub(k, lo)), old)), st, e)

    # ------------------------------------------------------------ free functions
    def std_call(self, fnr, args, st, e, fr):
        q = fnr.get('q', '?')
        n = q.split('::')[-1]
        if q.startswith('Eigen::'):
            if fnr.get('st') or q.startswith('Eigen::DenseBase') or q.startswith('Eigen::PlainObjectBase') or q.startswith('Eigen::MatrixBase'):
                return self.eig_static(n, fnr, args, e, st)
        if n in ('move', 'forward', 'ref', 'cref') and q.startswith('std::'):
            return args[0]
        A = [self.read(a, st) if self._is_lv(a) else a for a in args]
        m = getattr(self, 'sf_' + n, None) if args or not q.startswith('std::numeric_limits') else None
        if m is not None:
            r = m(A, args, st, e, fnr)
            if r is not NotImplemented:
                return r
        M1 = {'exp': 'exp', 'log': 'log', 'sin': 'sin', 'cos': 'cos', 'tanh': 'tanh', 'floor': 'floor', 'ceil': 'ceil', 'round': 'round'}
        if n in M1:
            x = self.num_(self.scalar(A[0]))
            if n == 'exp':
                self.event('exp', st, e, arg=x)
            if n == 'log':
                self.event('log', st, e, arg=x)
            return fn(M1[n], x)
        if n in ('log2', 'log10'):
            x = self.num_(self.scalar(A[0]))
            self.event('log', st, e, arg=x)
            return div(fn('log', x), fn('log', num(2 if n == 'log2' else 10)))
        if n == 'pow':
            b, x = self.num_(self.scalar(A[0])), self.num_(self.scalar(A[1]))
            return self.power(b, x)
        if n == 'sqrt':
            return sqrt(self.num_(self.scalar(A[0])))
        if n in ('abs', 'fabs'):
            return abs_(self.num_(self.scalar(A[0])))
        if n in ('isnan', 'isinf', 'isfinite'):
            x = self.num_(self.scalar(A[0]))
            if n == 'isinf':
                return isinf_(x)
            return FALSE if n == 'isnan' else not_(isinf_(x))
        if q.startswith('std::numeric_limits'):
            return self.limits(n, e)
        self.unknown('call ' + q, e)
        d = []
        for a in A:
            deps_of(a, d)
        for a, p in zip(args, fnr.get('ps') or []):
            if p == 'r' and self._is_lv(a):
                self.havoc(a, st, n)
        v = self.unknown_value(e['t'], 'call.' + n, st)
        return v

    def limits(self, n, e):
        t = self.p.ty(e['t'])
        if n == 'infinity':
            return INF
        if n == 'max':
            return INF if t['c'] == 'float' else num(2 ** 31 - 1 if t.get('sg') else 2 ** 64 - 1)
        if n == 'lowest':
            return neg(INF)
        if n == 'min':
            return num(Fr(1, 2 ** 1022)) if t['c'] == 'float' else num(-(2 ** 31) if t.get('sg') else 0)
        if n == 'epsilon':
            return num(Fr(1, 2 ** 52))
        if n == 'quiet_NaN':
            return sym('nan')
        return OpqV('limits.' + n)

    def sf_min(self, A, args, st, e, fnr):
        if isinstance(A[0], T) and len(A) == 2:
            return min_(self.num_(A[0]), self.num_(self.scalar(A[1])))
        return NotImplemented

    def sf_max(self, A, args, st, e, fnr):
        if len(A) == 2:
            return max_(self.num_(self.scalar(A[0])), self.num_(self.scalar(A[1])))
        return NotImplemented

    def sf_make_pair(self, A, args, st, e, fnr):
        return TupV(A)

    sf_make_tuple = sf_make_pair

    def sf_tie(self, A, args, st, e, fnr):
        return TupV(args)

    def sf_get(self, A, args, st, e, fnr):
        ta = fnr.get('ta') or []
        i = None
        for x in ta:
            if isinstance(x, dict) and 'I' in x:
                i = int(x['I'])
                break
            if isinstance(x, dict) and 'V' in x:
                i = int(x['V'])
                break
        if i is None:
            return NotImplemented
        if self._is_lv(args[0]):
            return self.step(args[0], 'f', i)
        if isinstance(A[0], TupV):
            return A[0].xs[i]
        return NotImplemented

    def sf_make_shared(self, A, args, st, e, fnr):
        t = self.p.ty(fnr['ta'][0]['T'])
        if t.get('cls') is not None:
            h = self.hooks.get('ctor:' + t['q'])
            if h is not None:
                r = h(self, t, args, st, e)
                if r is not NotImplemented:
                    return PtrV(self.tmp(r, st))
            if len(A) == 1 and isinstance(A[0], ObjV) and A[0].cls == t['cls']:
                return PtrV(self.root('new', st, A[0]))
            lv = self.construct(t['cls'], None, args, st, e)
            return PtrV(lv)
        x = A[0] if A else self.default(fnr['ta'][0]['T'], st, 'new', True)
        if t['c'] == 'eig' and fnr.get('q', '').endswith('make_shared'):
            return box(FALSE, x)
        return PtrV(self.root('new', st, x))

    sf_make_unique = sf_make_shared

    def sf_begin(self, A, args, st, e, fnr):
        return self.mkiter(args[0], A[0], ZERO, st)

    def sf_end(self, A, args, st, e, fnr):
        return self.mkend(args[0], A[0], st)

    def mkiter(self, base, v, i, st):
        lv = base if self._is_lv(base) else self.root('tmp', st, v)
        return self.iter_on(lv, v, i)

    def iter_on(self, lv, v, i):
        if isinstance(lv, IteV):
            return IteV(lv.c, self.iter_on(lv.a, v, i), self.iter_on(lv.b, v, i))
        return IterV(lv, i, 'mapidx' if isinstance(v, MapV) else ('axis' if isinstance(v, AxisV) else 'vec'))

    def mkend(self, base, v, st):
        lv = base if self._is_lv(base) else self.root('tmp', st, v)
        if isinstance(v, MapV):
            return IterV(lv, None, 'mapend')
        if isinstance(lv, IteV):
            return IteV(lv.c, self.mkend(lv.a, self.read(lv.a, st), st), self.mkend(lv.b, self.read(lv.b, st), st))
        return IterV(lv, self.length(v), 'vec')

    def rng2(self, A, st, maps=False):
        """(lv, container, lo, hi) for an iterator range"""
        a, b = A[0], A[1]
        if isinstance(a, IterV) and isinstance(b, IterV):
            lo, hi = self.iter_idx(a, st), self.iter_idx(b, st)
            c = self.read(a.lv, st)
            if lo is not None and hi is not None and (maps or not isinstance(c, MapV)):
                return a.lv, self.listify(c), lo, hi
        return None

    def rel(self, c, lo, st):
        return lambda i: self.item_at(c, add(lo, i), st)

    def sf_sort(self, A, args, st, e, fnr, stable=False):
        r = self.rng2(A, st)
        if r is None:
            self.unknown('sort', e)
            if isinstance(A[0], IterV):
                self.havoc(A[0].lv, st, 'sort')
            return None
        lv, c, lo, hi = r
        self.event('bounds', st, e, cond=and_(le(ZERO, lo), le(lo, hi), le(hi, self.length(c))), what='sort range')
        new = self.sorted_list(c, A[2] if len(A) > 2 else None, st, e, lo, hi, stable)
        if new is None:
            self.havoc(lv, st, 'sort')
            return None
        self.write_range(lv, c, lo, hi, new, st, e)
        return None

    def sf_stable_sort(self, A, args, st, e, fnr):
        return self.sf_sort(A, args, st, e, fnr, True)

    def sf_nth_element(self, A, args, st, e, fnr):
        r = self.rng2([A[0], A[2]], st)
        if r is None or not isinstance(A[1], IterV):
            self.unknown('nth_element', e)
            return None
        lv, c, lo, hi = r
        nth = self.iter_idx(A[1], st)
        self.event('bounds', st, e, cond=and_(le(ZERO, lo), le(lo, nth), le(nth, hi), le(hi, self.length(c))), what='nth_element')
        s = fresh('s')
        src = self.item_at(c, add(lo, s), st)
        if isinstance(src, T):
            src = self.unperm(sub(hi, lo), s, src)
        v = rawbind('srt', sub(hi, lo), s, src, sub(nth, lo))
        # the other positions hold an unspecified arrangement of the same multiset: keep the sorted one
        # at nth, and name the arrangement elsewhere
        k = fresh('k')
        snap = toterm(c)
        other = rawbind('srt', sub(hi, lo), s, src, app('?nthperm', 'Z', snap, sub(nth, lo), k, sub(hi, lo)))
        new = ListV(sub(hi, lo), k, ite(eq(k, sub(nth, lo)), v, other))
        self.write_range(lv, c, lo, hi, new, st, e)
        return None

    def sf_max_element(self, A, args, st, e, fnr, op='argmax'):
        r = self.rng2(A, st, True)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        at = self.rel(c, lo, st)
        f = self.order_key(A[2] if len(A) > 2 else None, at, st, e, sub(hi, lo))
        self.event('bounds', st, e, cond=lt(lo, hi), what='max_element of an empty range')
        if f is None:
            return NotImplemented
        s = fresh('s')
        return IterV(lv, add(lo, bind(op, sub(hi, lo), s, f(s))), A[0].kind)

    def sf_min_element(self, A, args, st, e, fnr):
        return self.sf_max_element(A, args, st, e, fnr, 'argmin')

    def eqv(self, x, y):
        if isinstance(x, T) and isinstance(y, T):
            if srt(x) == 'S' or srt(y) == 'S':
                return seq(x, y)
            return eq(_n(x), _n(y))
        return None

    def sf_find(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        s = fresh('s')
        x = self.eqv(self.item_at(c, add(lo, s), st), A[2])
        if x is None:
            return NotImplemented
        return IterV(lv, add(lo, bind('first', sub(hi, lo), s, x)), 'vec')

    def sf_lower_bound(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        s = fresh('s')
        x, y = self.item_at(c, add(lo, s), st), A[2]
        if not (isinstance(x, T) and isinstance(y, T)) or len(A) > 3:
            return NotImplemented
        return IterV(lv, add(lo, bind('first', sub(hi, lo), s, not_(lt(x, y)))), 'vec')

    def sf_upper_bound(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        s = fresh('s')
        x, y = self.item_at(c, add(lo, s), st), A[2]
        if not (isinstance(x, T) and isinstance(y, T)) or len(A) > 3:
            return NotImplemented
        return IterV(lv, add(lo, bind('first', sub(hi, lo), s, lt(y, x))), 'vec')

    def sf_unique(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        s = fresh('s')
        x = self.item_at(c, add(lo, s), st)
        pv = self.item_at(c, add(lo, sub(s, ONE)), st)
        q = self.eqv(x, pv)
        if q is None:
            return NotImplemented
        keep = or_(eq(s, ZERO), not_(q))
        s2 = fresh('s')
        cnt = sum_(sub(hi, lo), s2, b2t(subst(keep, {s: s2})))
        k = fresh('k')
        new = ListV(sub(hi, lo), k, ite(lt(k, cnt), self.item_at(c, add(lo, bind('sel', sub(hi, lo), s, keep, k)), st), app('?uniqtail', 'R', k)))
        self.write_range(lv, c, lo, hi, new, st, e)
        return IterV(lv, add(lo, cnt), 'vec')

    def sf_accumulate(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        x0 = self.item_at(c, ZERO, st)
        s = fresh('s')
        if isinstance(x0, T):
            if len(A) == 3:
                return add(self.num_(self.scalar(A[2])), sum_(sub(hi, lo), s, _n(self.item_at(c, add(lo, s), st))))
            ph = fresh('acc', 'R')
            r = self.scalar(self.applyv(A[3], [ph, self.item_at(c, add(lo, s), st)], st, e))
            d = sub(r, ph)
            if ph not in d.fs:
                return add(self.num_(self.scalar(A[2])), sum_(sub(hi, lo), s, d))
        if isinstance(x0, (ListV, AppV, PhiL)) and len(A) == 4:
            # concatenation through the accumulator
            inner = self.listify(self.item_at(c, add(lo, s), st))
            init = self.listify(A[2]) if not self._is_lv(A[2]) else self.listify(self.read(A[2], st))
            an = '?acc%d' % self.uid()
            ph = PhiL(an, sym(an + 'n', 'Z', 'nn'), lambda i: app(an, 'R', i))
            acc = self.root('acc', st, ph)
            src = self.root('src', st, inner)
            r = self.apply(A[3], [acc, src], st, e)
            if isinstance(r, (LV, IteV)):
                r = self.read(r, st)
            if isinstance(init, ListV) and init.n is ZERO and isinstance(r, AppV) and isinstance(r.base, PhiL) and r.base.name == an:
                cnt, k = sub(hi, lo), fresh('k')
                if len(r.items) == 1 and r.items[0][0] is TRUE and isinstance(r.items[0][1], BlkV) and s not in r.items[0][1].l.n.fs:
                    L = r.items[0][1].l
                    return ListV(mul(cnt, L.n), k, vsubst(L.at(fn('imod', k, L.n)), {s: fn('idiv', k, L.n)}))
                n, x = self.segments(s, r.items, k, lambda v, y: vsubst(v, {s: y}))
                return ListV(subst(n, {s: cnt}), k, vsubst(x, {s: cnt}))
        return NotImplemented

    def sf_partial_sum(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None or not isinstance(A[2], IterV) or len(A) > 3:
            return NotImplemented
        lv, c, lo, hi = r
        dlv = A[2].lv
        d = self.listify(self.read(dlv, st))
        o = A[2].i
        k, s = fresh('k'), fresh('s')
        new = ListV(sub(hi, lo), k, sum_(add(k, ONE), s, self.item_at(c, add(lo, s), st)))
        self.event('bounds', st, e, cond=and_(le(ZERO, o), le(add(o, sub(hi, lo)), self.length(d))), what='partial_sum output')
        self.write_range(dlv, d, o, add(o, sub(hi, lo)), new, st, e)
        return IterV(dlv, add(o, sub(hi, lo)), 'vec')

    def sf_back_inserter(self, A, args, st, e, fnr):
        return IterV(args[0], ZERO, 'back')

    def require(self, ok, st, e):
        """the call throws unless ok: continue on the non-throwing path"""
        for c in list(self.ctx) + [st.pc]:
            for x in (c.a if c.op == 'and' else (c,)):
                ok = restrict(ok, x, True)
        if ok is TRUE:
            return
        pc = st.pc
        st.pc = and_(pc, not_(ok))
        self.event('throw', st, e)
        st.pc = and_(pc, ok)
        if st.pc is FALSE:
            raise Dead()

    def append_list(self, lv, new, st, e):
        c = self.read(lv, st)
        if isinstance(c, (PhiL, AppV)) and isinstance(new, ListV):
            items = c.items if isinstance(c, AppV) else []
            self.write(lv, AppV(c.base if isinstance(c, AppV) else c, list(items) + [(TRUE, BlkV(new))]), st, e)
            return
        c = self.listify(c)
        if isinstance(c, ListV):
            k = fresh('k')
            if c.n is ZERO:
                self.write(lv, ListV(new.n, new.k, new.e), st, e)
            elif new.n is ZERO:
                pass
            else:
                self.write(lv, ListV(add(c.n, new.n), k, mergev(lt(k, c.n), c.at(k), new.at(sub(k, c.n)))), st, e)
            return
        self.unknown('append to list', e)
        self.havoc(lv, st, 'append')

    def out_iter(self, it, new, st, e):
        if not isinstance(it, IterV):
            self.unknown('output iterator', e)
            return None
        if it.kind == 'back':
            self.append_list(it.lv, new, st, e)
            return it
        d = self.listify(self.read(it.lv, st))
        self.event('bounds', st, e, cond=and_(le(ZERO, it.i), le(add(it.i, new.n), self.length(d))), what='output range')
        self.write_range(it.lv, d, it.i, add(it.i, new.n), new, st, e)
        return IterV(it.lv, add(it.i, new.n), 'vec')

    def sf_transform(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        k = fresh('k')
        n = sub(hi, lo)
        if len(A) == 5 and isinstance(A[2], IterV):
            d = self.listify(self.read(A[2].lv, st))
            self.event('bounds', st, e, cond=and_(le(ZERO, A[2].i), le(add(A[2].i, n), self.length(d))), what='second range of transform')
            x = self.applyv(A[4], [self.item_at(c, add(lo, k), st), self.item_at(d, add(A[2].i, k), st)], st, e)
            return self.out_iter(A[3], ListV(n, k, x), st, e)
        if len(A) == 4:
            x = self.applyv(A[3], [self.item_at(c, add(lo, k), st)], st, e)
            return self.out_iter(A[2], ListV(n, k, x), st, e)
        return NotImplemented

    def sf_copy(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        k = fresh('k')
        return self.out_iter(A[2], ListV(sub(hi, lo), k, self.item_at(c, add(lo, k), st)), st, e)

    def sf_fill(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        self.write_range(lv, c, lo, hi, ListV(sub(hi, lo), fresh('k'), A[2]), st, e)
        return None

    def sf_iota(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        k = fresh('k')
        self.write_range(lv, c, lo, hi, ListV(sub(hi, lo), k, add(self.num_(self.scalar(A[2])), k)), st, e)
        return None

    def sf_reverse(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        k = fresh('k')
        self.write_range(lv, c, lo, hi, ListV(sub(hi, lo), k, self.item_at(c, sub(sub(hi, ONE), k), st)), st, e)
        return None

    def sf_count(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        s = fresh('s')
        x = self.eqv(self.item_at(c, add(lo, s), st), A[2])
        return sum_(sub(hi, lo), s, b2t(x)) if x is not None else NotImplemented

    def sf_count_if(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        s = fresh('s')
        return sum_(sub(hi, lo), s, b2t(self.boolv(self.applyv(A[2], [self.item_at(c, add(lo, s), st)], st, e))))

    def sf_any_of(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        s = fresh('s')
        return any_(sub(hi, lo), s, self.boolv(self.applyv(A[2], [self.item_at(c, add(lo, s), st)], st, e)))

    def sf_none_of(self, A, args, st, e, fnr):
        r = self.sf_any_of(A, args, st, e, fnr)
        return not_(r) if isinstance(r, T) else r

    def sf_all_of(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        s = fresh('s')
        return not_(any_(sub(hi, lo), s, not_(self.boolv(self.applyv(A[2], [self.item_at(c, add(lo, s), st)], st, e)))))

    def sf_swap(self, A, args, st, e, fnr):
        self.write(args[0], A[1], st, e)
        self.write(args[1], A[0], st, e)
        return None

    def sf_set_difference(self, A, args, st, e, fnr):
        r1, r2 = self.rng2(A[:2], st), self.rng2(A[2:4], st)
        if r1 is None or r2 is None:
            return NotImplemented
        lv, c, lo, hi = r1
        lv2, c2, lo2, hi2 = r2
        s, u = fresh('s'), fresh('u')
        self.event('setdiff', st, e, a=(c, lo, hi), b=(c2, lo2, hi2))
        x = self.item_at(c, add(lo, s), st)
        q = self.eqv(x, self.item_at(c2, add(lo2, u), st))
        if q is None:
            return NotImplemented
        keep = not_(any_(sub(hi2, lo2), u, q))
        k, s2 = fresh('k'), fresh('s')
        n = sub(hi, lo)
        # multiset semantics coincide with this when the first range has no duplicates
        new = ListV(sum_(n, s2, b2t(subst(keep, {s: s2}))), k, self.item_at(c, add(lo, bind('sel', n, s, keep, k)), st))
        return self.out_iter(A[4], new, st, e)

    def sf_mismatch(self, A, args, st, e, fnr):
        r = self.rng2(A[:2], st)
        if r is None or not isinstance(A[2], IterV):
            return NotImplemented
        lv, c, lo, hi = r
        d = self.listify(self.read(A[2].lv, st))
        o = A[2].i
        n = sub(hi, lo)
        end = None
        if len(A) > 3 and isinstance(A[3], IterV):
            end = self.iter_idx(A[3], st)
        if end is None:
            self.event('bounds', st, e, cond=le(add(o, n), self.length(d)), what='second range of mismatch')
        else:
            n = min_(n, sub(end, o))
        s = fresh('s')
        q = self.eqv(self.item_at(c, add(lo, s), st), self.item_at(d, add(o, s), st))
        if q is None:
            return NotImplemented
        f = bind('first', n, s, not_(q))
        return TupV([IterV(lv, add(lo, f), 'vec'), IterV(A[2].lv, add(o, f), 'vec')])

    def sf_equal(self, A, args, st, e, fnr):
        r = self.rng2(A[:2], st)
        if r is None or not isinstance(A[2], IterV):
            return NotImplemented
        lv, c, lo, hi = r
        d = self.listify(self.read(A[2].lv, st))
        s = fresh('s')
        q = self.eqv(self.item_at(c, add(lo, s), st), self.item_at(d, add(A[2].i, s), st))
        if q is None:
            return NotImplemented
        if len(A) == 3:
            self.event('bounds', st, e, cond=le(add(A[2].i, sub(hi, lo)), self.length(d)), what='second range of equal')
            return not_(any_(sub(hi, lo), s, not_(q)))
        return NotImplemented

    def sf_distance(self, A, args, st, e, fnr):
        return self.iter_arith('-', A[1], A[0], st)

    def rng_random(self, v, arg):
        """is the state of this generator unpredictable: seeded from entropy, or shared between calls"""
        if self._is_lv(arg) and isinstance(arg, LV) and any(isinstance(x, LV) and x.root == arg.root for x in self.statics.values()):
            return True
        if not isinstance(v, OpqV) or v.name.startswith('?') or 'random_device' in v.name or 'rand@' in v.name:
            return True
        for d in v.deps:
            for x in walk(d):
                if isinstance(x.a[0] if x.a else None, str) and ('rand@' in x.a[0] or x.a[0].startswith('?') or x.a[0].startswith('undef')):
                    return True
        return False

    def sf_shuffle(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        rnd = self.rng_random(A[2], args[2])
        self.event('shuffle', st, e, rng=A[2], random=rnd)
        k = fresh('k')
        n = sub(hi, lo)
        p = app(('perm@%d' if rnd else 'fixedperm@%d') % self.uid(), 'Z', n, k)
        self.event('permapp', st, e, name=p.a[0], n=n)
        self.write_range(lv, c, lo, hi, ListV(n, k, self.item_at(c, add(lo, p), st)), st, e)
        return None

    def sf_prev_permutation(self, A, args, st, e, fnr):
        r = self.rng2(A, st)
        if r is None:
            return NotImplemented
        lv, c, lo, hi = r
        self.event('prevperm', st, e)
        snap = toterm(self.listify(c))
        k = fresh('k')
        self.write_range(lv, c, lo, hi, ListV(sub(hi, lo), k, app('prevperm', 'Z', snap, k)), st, e)
        return app('prevperm.more', 'B', snap)

    sf_next_permutation = sf_prev_permutation

    def sf_getline(self, A, args, st, e, fnr):
        if instream(A[0]) and self._is_lv(args[0]):
            unit = '.line' if len(A) == 2 else '.field%s' % (A[2].a[0] if isinstance(A[2], T) and A[2].op in ('num', 'str') else None)
            r = self.stream_read(args[0], A[0], unit, 'S', st, e) if 'None' not in unit else None
            if r is not None:
                self.write(args[1], r, st, e)
                self.event('getline', st, e)
                return args[0]
        self.write(args[1], sym('?line#%d' % self.uid(), 'S'), st, e)
        self.event('getline', st, e)
        return sym('?getline#%d' % self.uid(), 'B')

    def sf___assert_fail(self, A, args, st, e, fnr):
        self.event('assert', st, e)
        raise Dead()

    def sf_exit(self, A, args, st, e, fnr):
        self.event('exit', st, e)
        raise Dead()

    sf_abort = sf_exit

    def sf_rand(self, A, args, st, e, fnr):
        self.event('entropy', st, e, what='rand()')
        return sym('rand@%d' % self.uid(), 'Z', 'nn')

    def sf_srand(self, A, args, st, e, fnr):
        self.event('srand', st, e)
        return None

    def sf_time(self, A, args, st, e, fnr):
        self.event('entropy', st, e, what='time()')
        return sym('rand@%d' % self.uid(), 'Z', 'nn')

    def sf_now(self, A, args, st, e, fnr):
        self.event('entropy', st, e, what=fnr.get('q', 'clock'))
        return OpqV('rand@%d' % self.uid())

    def sf_is_same(self, A, args, st, e, fnr):
        return NotImplemented

    def sf_to_string(self, A, args, st, e, fnr):
        return app('to_string', 'S', toterm(A[0]))

    def sf_stod(self, A, args, st, e, fnr):
        return app('stod', 'R', toterm(A[0]))

    def sf_stoi(self, A, args, st, e, fnr):
        return app('stoi', 'Z', toterm(A[0]))

    # ------------------------------------------------------------ methods
    def foreign_method(self, name, fnr, base, e, st, fr):
        q = fnr.get('q', '?')
        cls = q.rsplit('::', 1)[0]
        if cls.startswith('Eigen::'):
            return self.eig_method(name, fnr, base, e, st, fr)
        v = self.read(base, st) if self._is_lv(base) else base
        if isinstance(v, PtrV) and v.lv is not None and cls in ('std::vector', 'std::map', 'std::stack', 'std::priority_queue', 'std::set', 'std::list', 'std::deque'):
            base = v.lv                             # through a smart pointer's operator->
            v = self.read(base, st) if self._is_lv(base) else base
        args = [self.evx(a, st, fr) for a in e['a']]
        if q.startswith('sym::'):
            return self.extern({'q': q, 'ret': e.get('t', -1), 'ps': []}, base, args, st, e)
        A = [self.read(a, st) if self._is_lv(a) else a for a in args]
        if isinstance(v, IteV) and isinstance(base, LV) and not self.ptrlike(v):
            # operate on each alternative in place
            s1, s2 = st.clone(), st.clone()
            self.write(base, v.a, s1)
            self.write(base, v.b, s2)
            r1 = self.std_method(name, q, cls, base, v.a, args, A, e, s1)
            r2 = self.std_method(name, q, cls, base, v.b, args, A, e, s2)
            self.merge_into(st, v.c, s1, s2)
            if r1 is None or r2 is None:
                return None
            if self._is_lv(r1) and self._is_lv(r2) and r1 == r2:
                return r1
            return mergev(v.c, self.read(r1, s1) if self._is_lv(r1) else r1, self.read(r2, s2) if self._is_lv(r2) else r2)
        return self.std_method(name, q, cls, base, v, args, A, e, st)

    def std_method(self, name, q, cls, base, v, args, A, e, st):
        if name == 'operator-conv' or name.startswith('operator bool') or 'operator-conv' in name:
            if cls == 'std::_Bit_reference':
                return self.boolv(v)
            if instream(v):
                return self.stream_ok(v)
            if 'ios' in cls:
                return sym('?streamok#%d' % self.uid(), 'B')
            return self.boolv(v) if isinstance(v, (PtrV, IteV, T)) else sym('?conv#%d' % self.uid(), 'B')
        if cls in ('std::map', 'std::unordered_map', 'std::set', 'std::multiset'):
            return self.map_method(name, base, v, args, A, e, st)
        if isinstance(v, (ListV, AppV, PhiL)):
            return self.list_method(name, cls, base, v, args, A, e, st)
        if cls in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'):
            if name == 'get':
                return v
            if name == 'reset':
                self.write(base, A[0] if A else NULL, st, e)
                return None
        if cls == 'std::basic_string':
            if name in ('size', 'length'):
                return app('strlen', 'Z', self.scalar(v))
            if name == 'empty':
                return seq(self.scalar(v), mk('str', ''))
            if name in ('c_str', 'str', 'data'):
                return v
            if name == 'compare' and len(A) == 1:
                return ite(seq(self.scalar(v), self.scalar(A[0])), ZERO, ONE)
        if name in ('str', 'time_since_epoch', 'count', 'what', 'close', 'is_open', 'open', 'seed', 'precision'):
            if instream(v) and name != 'str':
                return app('openable', 'B', v.xs[1]) if name == 'is_open' else None
            if name in ('is_open',):
                return sym('?streamok#%d' % self.uid(), 'B')
            if name == 'str' and A:
                return None
            if isinstance(v, OpqV):
                return OpqV(v.name, v.deps)
        self.unknown('method ' + q, e)
        d = deps_of(v)
        for a in A:
            deps_of(a, d)
        if self._is_lv(base) and isinstance(v, OpqV):
            pass
        t = self.p.ty(e['t'])
        if t['c'] == 'void':
            return None
        return self.unknown_value(e['t'], 'm.' + name, st)

    def list_method(self, name, cls, base, v, args, A, e, st):
        lv = base if self._is_lv(base) else self.root('tmp', st, v)
        et = None
        if name in ('size', 'length'):
            return self.length(v)
        if name == 'empty':
            return eq(self.length(v), ZERO)
        if name in ('begin', 'cbegin', 'data'):
            return self.iter_on(lv, v, ZERO)
        if name in ('end', 'cend'):
            return self.mkend(lv, v, st)
        if name == 'at':
            i = self.num_(self.scalar(A[0]))
            ok = and_(TRUE if nonneg(i) or self.nn_index(i) else le(ZERO, i), lt(i, self.length(v)))
            self.require(ok, st, e)
            return self.step(lv, 'i', i)
        if name == 'front' or (name == 'top' and cls == 'std::queue'):
            self.event('bounds', st, e, cond=lt(ZERO, self.length(v)), what=name)
            return self.step(lv, 'i', ZERO)
        if name == 'back' or (name == 'top' and cls == 'std::stack'):
            n = self.length(v)
            self.event('bounds', st, e, cond=lt(ZERO, n), what=name)
            return self.step(lv, 'i', sub(n, ONE))
        if name in ('push_back', 'emplace_back', 'push', 'emplace'):
            if cls == 'std::priority_queue':
                self.event('pqpush', st, e, value=A, lv=lv)
            x = self.elem_value(cls, A, e, v, st)
            if cls == 'std::priority_queue':
                self.write(lv, self.pq_push(self.listify(v), x, e, st), st, e)
                return None
            if isinstance(v, (PhiL, AppV)):
                items = v.items if isinstance(v, AppV) else []
                b = v.base if isinstance(v, AppV) else v
                self.write(lv, AppV(b, list(items) + [(TRUE, x)]), st, e)
            else:
                self.write(lv, flat_list(AppV(v, [(TRUE, x)])), st, e)
            return None
        if name in ('pop_back', 'pop'):
            w = self.listify(v)
            self.event('bounds', st, e, cond=lt(ZERO, self.length(w)), what=name)
            if cls in ('std::priority_queue', 'std::queue'):
                self.event('pqpop', st, e, lv=lv)
                if isinstance(w, (ListV, PhiL)):
                    k = fresh('k')
                    self.write(lv, ListV(sub(w.n, ONE), k, w.at(add(k, ONE))), st, e)
                return None
            if isinstance(w, (ListV, PhiL)):
                k = fresh('k')
                self.write(lv, ListV(sub(w.n, ONE), k, w.at(k)), st, e)
            return None
        if name == 'top':
            self.event('bounds', st, e, cond=lt(ZERO, self.length(v)), what=name)
            self.event('pqtop', st, e, lv=lv)
            return self.step(lv, 'i', ZERO)
        if name == 'clear':
            self.write(lv, ListV(ZERO, fresh('k'), ZERO), st, e)
            return None
        if name in ('reserve', 'shrink_to_fit'):
            return None
        if name == 'resize':
            w = self.listify(v)
            n = self.num_(self.scalar(A[0]))
            k = fresh('k')
            if isinstance(w, ListV):
                if w.n is ZERO:
                    x = A[1] if len(A) > 1 else self.zero_elem(lv, st)
                    self.write(lv, ListV(n, k, x), st, e)
                else:
                    x = A[1] if len(A) > 1 else self.zero_elem(lv, st)
                    self.write(lv, ListV(n, k, mergev(lt(k, w.n), w.at(k), x)), st, e)
                return None
        if name == 'assign':
            if isinstance(A[0], (IterV, IteV)):
                self.write(lv, self.range_list(A[0], A[1], st, e), st, e)
            else:
                self.write(lv, ListV(self.num_(self.scalar(A[0])), fresh('k'), A[1]), st, e)
            return None
        if name == 'insert' and len(A) == 3 and isinstance(A[0], IterV):
            w = self.listify(v)
            pos = self.iter_idx(A[0], st)
            new = self.range_list(A[1], A[2], st, e)
            if isinstance(new, ListV) and pos is not None and pos is self.length(w):
                self.append_list(lv, new, st, e)
                return None
        if name == 'erase' and isinstance(A[0], IterV):
            w = self.listify(v)
            a = self.iter_idx(A[0], st)
            b = self.iter_idx(A[1], st) if len(A) > 1 and isinstance(A[1], IterV) else add(a, ONE)
            if a is not None and b is not None and isinstance(w, (ListV, PhiL)):
                n = self.length(w)
                k = fresh('k')
                if b is n:
                    x = w.at(k)
                    if isinstance(x, T):
                        x = restrict(x, lt(k, a), True)       # only the kept prefix is ever read
                    self.write(lv, ListV(a, k, x), st, e)
                else:
                    self.write(lv, ListV(sub(n, sub(b, a)), k, mergev(lt(k, a), w.at(k), w.at(add(k, sub(b, a))))), st, e)
                return IterV(lv, a, 'vec')
        self.unknown('list method ' + name, e)
        if name in ('insert', 'erase', 'resize'):
            self.havoc(lv, st, name)
        t = self.p.ty(e['t'])
        return None if t['c'] == 'void' else self.unknown_value(e['t'], 'm.' + name, st)

    def zero_elem(self, lv, st):
        return ZERO

    def pq_push(self, w, x, e, st):
        """priority queues are kept in pop order: insert behind everything that does not order before x"""
        t = self.p.ty(e['obj'].get('t')) if 'obj' in e else {}
        ci = self.p.targ(t, 2) if t.get('c') == 'rec' else None
        cmp = self.p.ty(ci) if ci is not None else {}
        k = fresh('k')
        y = w.at(k)
        c = None
        if cmp.get('cls') is not None:
            f = next((g for g in self.p.fns if g.get('cls') == cmp['cls'] and g['q'].endswith('::operator()') and len(g['ps']) == 2 and g.get('body')), None)
            if f is not None:
                s2 = st.clone()
                r = self.call_fn_static(f['idx'], self.root('cmp', s2, self.default(ci, s2, 'cmp', True)), [self.root('a', s2, y), self.root('b', s2, x)], s2, e)
                c = self.boolv(self.read(r, s2) if self._is_lv(r) else r)
        elif cmp.get('q') == 'std::less':
            c = self.less(y, x)
        elif cmp.get('q') == 'std::greater':
            c = self.less(x, y)
        if c is None or c.op in ('?',):
            self.unknown('priority queue order', e)
            return ListV(add(w.n, ONE), k, self.like(x, '?pq%d' % self.uid(), (k,)))
        p = sum_(w.n, k, b2t(not_(c)))
        return ListV(add(w.n, ONE), k, mergev(lt(k, p), w.at(k), mergev(eq(k, p), x, w.at(sub(k, ONE)))))

    def elem_value(self, cls, A, e, v, st):
        et = None
        try:
            t = self.p.ty(e['obj'].get('t')) if 'obj' in e else {}
            if t.get('c') == 'rec':
                et = self.p.ty(self.p.targ(t, 0))
        except (KeyError, TypeError, AttributeError):
            et = None
        if et and et.get('c') == 'rec' and et.get('q') in ('std::vector', 'std::deque', 'std::list'):
            if len(A) == 2 and isinstance(A[0], (IterV, IteV)):
                return self.range_list(A[0], A[1], st, e)
            if len(A) == 2:
                return ListV(self.num_(self.scalar(A[0])), fresh('k'), A[1])
            if not A:
                return ListV(ZERO, fresh('k'), ZERO)
        if len(A) == 1:
            return A[0]
        if len(A) > 1:
            return TupV(A)
        return ZERO

    def keyterm(self, x):
        if isinstance(x, T):
            return x
        if isinstance(x, (ListV, AppV, TupV)):
            return toterm(x)
        return self.scalar(x)

    def map_method(self, name, base, v, args, A, e, st):
        lv = base if self._is_lv(base) else self.root('tmp', st, v)
        if not isinstance(v, MapV):
            self.unknown('map method on ' + type(v).__name__, e)
            t = self.p.ty(e['t'])
            if t['c'] == 'void':
                return None
            return OpqV('?map', deps_of(v)[:4]) if t['c'] == 'rec' else self.unknown_value(e['t'], 'map', st)
        if name == 'size':
            return v.size()
        if name == 'empty':
            s = v.size()
            return eq(s, ZERO)
        if name in ('begin', 'cbegin'):
            self.event('mapiter', st, e, ordered=v.ordered)
            return IterV(lv, ZERO, 'mapidx')
        if name in ('end', 'cend'):
            return IterV(lv, None, 'mapend')
        if name == 'find':
            return IterV(lv, self.keyterm(A[0]), 'mapkey')
        if name == 'count':
            return b2t(v.has(self.keyterm(A[0])))
        if name == 'contains':
            return v.has(self.keyterm(A[0]))
        if name == 'clear':
            self.write(lv, MapV(v.k, FALSE, self.zero_like(v.val) if v.val is not None else None, v.ordered, []), st, e)
            return None
        if name == 'at':
            k = self.keyterm(A[0])
            self.event('bounds', st, e, cond=v.has(k), what='map.at', throws=True)
            return self.step(lv, 'key', k)
        if name in ('insert', 'emplace'):
            if v.val is None:
                k = self.keyterm(A[0])
                m = MapV(v.k, or_(v.dom, eq(v.k, k) if srt(k) != 'S' else seq(v.k, k)), None, v.ordered, v.srcs + [(None, None, TRUE, k)])
                had = v.has(k)
                self.write(lv, m, st, e)
                return TupV([IterV(lv, k, 'mapkey'), not_(had)])
            x = A[0] if len(A) == 1 else TupV(A)
            if isinstance(x, TupV) and len(x.xs) == 2:
                k = self.keyterm(x.xs[0])
                has = v.has(k)
                cur = v.get(k)
                val = mergev(has, cur, x.xs[1])
                m = MapV(v.k, or_(v.dom, eq(v.k, k)), mergev(eq(v.k, k), val, v.val), v.ordered, v.srcs + [(None, None, TRUE, k)])
                self.write(lv, m, st, e)
                return TupV([IterV(lv, k, 'mapkey'), not_(has)])
        if name == 'erase':
            if isinstance(A[0], T):
                k = A[0]
                m = MapV(v.k, and_(v.dom, not_(eq(v.k, k))), mergev(eq(v.k, k), self.zero_like(v.val), v.val) if v.val is not None else None, v.ordered, [x if x is None or x[0] == 'phi' else (x[0], x[1], and_(x[2], not_(eq(x[3], k))), x[3]) for x in v.srcs])
                self.write(lv, m, st, e)
                return None
        self.unknown('map method ' + name, e)
        self.write(lv, OpqV('?map', deps_of(v)[:4]), st, e)
        t = self.p.ty(e['t'])
        return None if t['c'] == 'void' else self.unknown_value(e['t'], 'map', st)

    # ------------------------------------------------------------ operators
    def foreign_op(self, op, q, args, e, st, fr):
        if q.startswith('Eigen::') or q.startswith('operator') or '::internal::' in q:
            return self.eig_op(op, q, args, e, st, fr)
        A = [self.read(a, st) if self._is_lv(a) else a for a in args]
        if any(isinstance(a, (MatV, AxisV, TriV, CommaV, DecV)) for a in A[:1]) and op not in ('<<', '->') and not q.startswith('std::'):
            return self.eig_op(op, q, args, e, st, fr)
        if op == '[]':
            v = A[0]
            if isinstance(v, MapV):
                k = self.keyterm(A[1])
                lv = args[0] if self._is_lv(args[0]) else self.root('tmp', st, v)
                # operator[] inserts a value-initialised element
                if v.val is not None:
                    has = v.has(k)
                    if has is not TRUE:
                        c = eq(v.k, k) if srt(k) != 'S' else seq(v.k, k)
                        m = MapV(v.k, or_(v.dom, c), v.val, v.ordered, v.srcs + [(None, None, TRUE, k)])
                        self.write(lv, m, st, e)
                return self.step(lv, 'key', k)
            if isinstance(v, IterV):
                return self.iter_lv(IterV(v.lv, add(v.i, self.num_(self.scalar(A[1]))), v.kind), st, e)
            i = self.num_(self.scalar(A[1]))
            if isinstance(v, (ListV, AppV, PhiL)):
                self.event('bounds', st, e, cond=and_(le(ZERO, i), lt(i, self.length(v))), what='operator[]')
            lv = args[0] if self._is_lv(args[0]) else self.root('tmp', st, v)
            if isinstance(v, OpqV):
                return OpqV('?idx', v.deps + tuple(deps_of(i)))
            return self.step(lv, 'i', i)
        if op == '=':
            v = A[1]
            lv = args[0]
            if isinstance(A[0], TupV) and not self._is_lv(lv) or (isinstance(lv, TupV)):
                tgt = lv if isinstance(lv, TupV) else A[0]
                self.tie_assign(tgt, v, st, e)
                return lv
            if self._is_lv(lv):
                t = self.p.ty(e['a'][0].get('t'))
                self.write(lv, v, st, e)
                return lv
            if isinstance(lv, V):
                self.unknown('assignment to ' + type(lv).__name__, e)
            return lv
        if op in ('->',):
            v = A[0]
            if isinstance(v, IterV):
                x = self.iter_lv(v, st, e)
                if self._is_lv(x):
                    return PtrV(x)
                return PtrV(self.root('tmp', st, x))
            if isbox(v):
                self.event('deref', st, e, cond=not_(v.f['null']))
                return PtrV(self.step(args[0], 'f', 'v') if self._is_lv(args[0]) else self.root('tmp', st, v.f['v']))
            return v
        if op == '*' and len(args) == 1:
            v = A[0]
            if isinstance(v, IterV) and v.kind == 'back':
                return v
            if isbox(v):
                self.event('deref', st, e, cond=not_(v.f['null']))
                return self.step(args[0], 'f', 'v') if self._is_lv(args[0]) else v.f['v']
            return self.deref(v, st, e)
        if op in ('++', '--'):
            v = A[0]
            d = ONE if op == '++' else num(-1)
            post = len(args) > 1
            if isinstance(v, IterV) and v.kind == 'back':
                return v
            if isinstance(v, IterV) and v.i is not None and v.kind in ('vec', 'mapidx', 'axis'):
                self.write(args[0], IterV(v.lv, add(v.i, d), v.kind), st, e)
                return v if post else args[0]
            if isinstance(v, IteV):
                nv = vmap_ite(v, lambda x: IterV(x.lv, add(x.i, d), x.kind) if isinstance(x, IterV) and x.i is not None else OpqV('?it'))
                self.write(args[0], nv, st, e)
                return v if post else args[0]
            self.unknown('iterator increment', e)
            return args[0]
        if op in ('+', '-', '==', '!=', '<', '>', '<=', '>=', '+=', '-='):
            return self.std_binop(op, q, A, args, e, st)
        if op in ('<<', '>>'):
            if op == '>>' and self._is_lv(args[1]) and instream(A[0]) and self._is_lv(args[0]):
                t = self.p.ty(e['a'][1]['t'])
                while t['c'] == 'ref':
                    t = self.p.ty(t['to'])
                srtn = {'int': 'Z', 'float': 'R'}.get(t['c'], 'S' if t.get('q') == 'std::basic_string' else None)
                r = self.stream_read(args[0], A[0], '.tok' if srtn != 'S' else '.word', srtn, st, e) if srtn else None
                if r is not None:
                    self.write(args[1], r, st, e)
                    return args[0]
            if op == '>>' and self._is_lv(args[1]):
                self.havoc(args[1], st, 'in')
            return args[0]
        if op == '()':
            v = A[0]
            if isinstance(v, OpqV):
                if 'random_device' in v.name:
                    self.event('entropy', st, e, what='std::random_device()')
                    return sym('rand@%d' % self.uid(), 'Z', 'nn')
                if 'distribution' in v.name:
                    rnd = len(A) < 2 or self.rng_random(A[1], args[1])
                    self.event('draw', st, e, what=v.name, rng=A[1] if len(A) > 1 else None, random=rnd)
                    s = 'Z' if 'int' in v.name else 'R'
                    if 'uniform' in v.name and len(v.deps) == 2 and all(srt(x) in ('Z', 'R') for x in v.deps):
                        return app(('rand@%d' if rnd else 'drawn@%d') % self.uid(), s, *v.deps)
                    return sym(('rand@%d' if rnd else 'drawn@%d') % self.uid(), s)
                if 'engine' in v.name:
                    if not self.rng_random(v, args[0]):
                        return sym('drawn@%d' % self.uid(), 'Z', 'nn')
                    return sym('rand@%d' % self.uid(), 'Z', 'nn')
            self.unknown('call of ' + type(v).__name__, e)
            return self.unknown_value(e['t'], 'callop', st)
        if op == '!':
            v = A[0]
            if isinstance(v, (PtrV, IteV)):
                return not_(self.boolv(v))
            if instream(v):
                return not_(self.stream_ok(v))
            return sym('?streambad#%d' % self.uid(), 'B')
        if op == '|':
            return OpqV('flags')
        self.unknown('operator ' + op + ' ' + q, e)
        return self.unknown_value(e['t'], 'op', st) if self.p.ty(e['t'])['c'] != 'void' else None

    def zero_like(self, v):
        if isinstance(v, T):
            return {'B': FALSE, 'S': mk('str', '')}.get(srt(v), ZERO)
        if isinstance(v, UninitV):
            return ZERO
        if isinstance(v, (ListV, AppV, PhiL)):
            return ListV(ZERO, fresh('k'), ZERO)
        if isinstance(v, MatV):
            return MatV(ZERO if v.r.op != 'num' else v.r, ZERO if v.c.op != 'num' else v.c, ZERO)
        if isinstance(v, TupV):
            return TupV([self.zero_like(x) for x in v.xs])
        if isinstance(v, (PtrV,)):
            return NULL
        if isinstance(v, MapV):
            return MapV(v.k, FALSE, self.zero_like(v.val) if v.val is not None else None, v.ordered, [])
        if isinstance(v, ObjV):
            return ObjV(v.cls, {k: self.zero_like(x) for k, x in v.f.items()})
        return v

    def tie_assign(self, tgt, v, st, e):
        if isinstance(v, IteV):
            s1, s2 = st.clone(), st.clone()
            self.tie_assign(tgt, v.a, s1, e)
            self.tie_assign(tgt, v.b, s2, e)
            self.merge_into(st, v.c, s1, s2)
            return
        xs = v.xs if isinstance(v, TupV) else [OpqV('?tie', deps_of(v)[:4])] * len(tgt.xs)
        xs = [self.read(x, st) if self._is_lv(x) else x for x in xs]
        for l, x in zip(tgt.xs, xs):
            if self._is_lv(l):
                if isinstance(x, OpqV) and x.name.startswith('?'):
                    self.havoc(l, st, 'tie')
                else:
                    self.write(l, x, st, e)

    def std_binop(self, op, q, A, args, e, st):
        a, b = A[0], A[1] if len(A) > 1 else None
        if op in ('==', '!='):
            r = self.ptr_eq(a, b, st)
            if r is None and isinstance(a, T) and isinstance(b, T):
                r = seq(a, b) if 'S' in (srt(a), srt(b)) else eq(_n(a), _n(b))
            if r is None and isinstance(a, IteV):
                r1, r2 = self.std_binop('==', q, [a.a, b], args, e, st), self.std_binop('==', q, [a.b, b], args, e, st)
                r = ite(a.c, r1, r2)
            if r is None:
                la, lb = self.listify(a), self.listify(b)
                if isinstance(la, ListV) and isinstance(lb, ListV):
                    s = fresh('s')
                    x = self.eqv(la.at(s), lb.at(s))
                    if x is not None:
                        r = and_(eq(la.n, lb.n), not_(any_(la.n, s, not_(x))))
            if r is None:
                self.unknown('comparison', e)
                r = sym('?cmp#%d' % self.uid(), 'B')
            return r if op == '==' else not_(r)
        if op in ('+=', '-='):
            if isinstance(a, (IterV, IteV)):
                v = self.iter_arith(op[0], a, b, st)
                self.write(args[0], v, st, e)
                return args[0]
            if isinstance(a, T) and srt(a) == 'S':
                self.write(args[0], app('strcat', 'S', a, self.scalar(b)), st, e)
                return args[0]
        if isinstance(a, (IterV, IteV)) or isinstance(b, (IterV, IteV)):
            return self.iter_arith(op, a, b, st)
        if isinstance(a, T) and isinstance(b, T):
            if 'S' in (srt(a), srt(b)):
                if op == '+':
                    return app('strcat', 'S', a, b)
                return mk('bapp', 'str' + op, a, b)
            return self.binop(op, a, b, e, st)
        if isinstance(a, OpqV) or isinstance(b, OpqV):
            return OpqV('op' + op, (deps_of(a) + deps_of(b))[:4])
        self.unknown('operator ' + op + ' ' + q, e)
        return self.unknown_value(e['t'], 'op', st)
