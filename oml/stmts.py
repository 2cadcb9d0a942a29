"""Statements and loop summaries (closed forms of the loop-carried values)."""
from .stdlib import *


class Leaf:
    """one loop-carried scalar function: placeholder term ph over idx, entry value, next value"""
    def __init__(self, ph, idx, init, nxt, path):
        self.ph, self.idx, self.init, self.nxt, self.path = ph, idx, init, nxt, path
        if ph.op == 'el':
            self.name = ph.a[0].a[0]
        else:
            self.name = ph.a[0]
        self.closed = None
        self.raw = nxt


class AppLeaf:
    def __init__(self, ph, idx, init, post, path):
        self.ph, self.idx, self.init, self.post, self.path = ph, idx, init, post, path
        self.name = ph.name
        self.closed = None          # function t -> ListV


class Stmts(Stdlib):
    def exec(self, s, st, fr):
        """returns the state at normal completion or None"""
        if s is None:
            return st
        if st is None or st.pc is FALSE:
            return None
        self.tick()
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            if s['k'] in ('unks',):
                self.unknown('statement', s)
                return st
            self.unknown('statement ' + s['k'], s)
            return st
        try:
            return m(s, st, fr)
        except Dead:
            return None

    def s_blk(self, s, st, fr):
        for x in s['b']:
            st = self.exec(x, st, fr)
            if st is None:
                return None
        return st

    def s_nop(self, s, st, fr):
        return st

    def s_expr(self, s, st, fr):
        self.evx(s['e'], st, fr)
        return st

    def s_decl(self, s, st, fr):
        for v in s['v']:
            if v.get('static'):
                key = ('static', v['id'], v.get('l'))
                if key in self.statics:
                    fr.env[v['id']] = self.statics[key]
                    continue
            isref = self.p.is_ref(v['t'])
            fr.lazy.pop(v['id'], None)
            if v.get('init') is not None:
                x = self.evx(v['init'], st, fr)
                ty = self.p.ty(v['t'])
                lazy = not isref and ty['c'] == 'eig' and not ty.get('plain') and ty.get('n') not in ('Map', 'Ref')
                if isref and self._is_lv(x):
                    fr.env[v['id']] = x
                elif lazy and isinstance(x, LV) and ty.get('n') in ('Block', 'VectorBlock', 'Transpose', 'Diagonal', 'IndexedView'):
                    # a view: reads and writes go to the viewed object
                    fr.env[v['id']] = x
                elif lazy and self.lazy_init(v['init'], fr) is not None:
                    if self._is_lv(x):
                        x = self.read(x, st)
                    fr.env[v['id']] = self.root(v['n'] or 'v', st, x)
                    fr.lazy[v['id']] = (v['init'], {r: st.s.get(r) for r in self.lazy_init(v['init'], fr)})
                else:
                    if self._is_lv(x):
                        x = self.read(x, st)
                    if x is None:
                        x = OpqV('?void')
                    x = self.convert(x, v['t'], st)
                    fr.env[v['id']] = self.root(v['n'] or 'v', st, x)
            else:
                fr.env[v['id']] = self.root(v['n'] or 'v', st, self.default(v['t'], st, v['n']))
            if v.get('bind'):
                base = fr.env[v['id']]
                for i, b in enumerate(v['bind']):
                    fr.env[b['id']] = self.step(base, 'f', i)
                    if b.get('hold') is not None:
                        fr.env[b['hold']] = self.step(base, 'f', i)
            if v.get('static'):
                self.statics[('static', v['id'], v.get('l'))] = fr.env[v['id']]
        return st

    def lazy_init(self, node, fr):
        """roots an unevaluated Eigen expression refers to (None if it calls code that would run only once)"""
        out, stack = set(), [node]
        while stack:
            n = stack.pop()
            if isinstance(n, list):
                stack += n
            elif isinstance(n, dict):
                f = n.get('fn')
                if isinstance(f, dict) and (f.get('id') is not None or not str(f.get('q', '')).startswith('Eigen')):
                    if f.get('q', '').split('::')[-1] not in ('rows', 'cols', 'size'):
                        return None
                if n.get('k') in ('lambda', 'asg', 'casg'):
                    return None
                if n.get('k') == 'var':
                    lv = fr.env.get(n['id'])
                    if n['id'] in fr.lazy:
                        out |= set(fr.lazy[n['id']][1])
                    elif isinstance(lv, LV):
                        out.add(lv.root)
                elif n.get('k') == 'this' and isinstance(fr.this, LV):
                    out.add(fr.this.root)
                stack += [x for k, x in n.items() if k not in ('fn', 't') and isinstance(x, (dict, list))]
        return out

    def s_ret(self, s, st, fr):
        v = None
        if s.get('e') is not None:
            v = self.evx(s['e'], st, fr)
            if self._is_lv(v) and not fr.retref:
                v = self.read(v, st)
            if not fr.retref and v is not None:
                v = self.convert(v, fr.f.get('ret', -1), st)
        fr.returns.append((st.pc, v, st.s))
        return None

    def s_brk(self, s, st, fr):
        if fr.brk is not None:
            fr.brk.append((st.pc, st.s))
        return None

    def s_cont(self, s, st, fr):
        if fr.cont is not None:
            fr.cont.append((st.pc, st.s))
        return None

    def s_try(self, s, st, fr):
        return self.exec(s['body'], st, fr)

    def under(self, c, pc):
        """c simplified under the path condition"""
        if pc is TRUE or c is TRUE or c is FALSE:
            return c
        return restrict(c, pc, True)

    def s_if(self, s, st, fr):
        if s.get('init') is not None:
            st = self.exec(s['init'], st, fr)
            if st is None:
                return None
        if s.get('cv') is not None:
            st = self.s_decl({'k': 'decl', 'v': s['cv'] if isinstance(s['cv'], list) else [s['cv']]}, st, fr)
        c = self.under(self.cond(s['c'], st, fr), st.pc)
        if c is TRUE:
            return self.exec(s['a'], st, fr)
        if c is FALSE:
            return self.exec(s.get('b'), st, fr) if s.get('b') else st
        s1, s2 = st.clone(), st.clone()
        s1.pc, s2.pc = and_(st.pc, c), and_(st.pc, not_(c))
        if s1.pc is FALSE:
            return self.exec(s.get('b'), s2, fr) if s.get('b') else s2
        if s2.pc is FALSE:
            return self.exec(s['a'], s1, fr)
        a = self.exec(s['a'], s1, fr)
        b = self.exec(s['b'], s2, fr) if s.get('b') else s2
        return self.join(c, a, b, st)

    def join(self, c, a, b, st):
        if a is None or a.pc is FALSE:
            return b if b is not None and b.pc is not FALSE else None
        if b is None or b.pc is FALSE:
            return a
        out = St({}, TRUE)
        self.merge_into(out, c, a, b)
        out.pc = or_(a.pc, b.pc)
        return out

    def s_switch(self, s, st, fr):
        v = self.scalar(self.ev(s['c'], st, fr))
        body = s['body']
        items = body['b'] if body['k'] == 'blk' else [body]
        old, fr.brk = fr.brk, []
        flat = []
        for x in items:
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x)
                x = x.get('s')
            flat.append((labels, x))
        seen = FALSE
        conds = []
        for labels, x in flat:
            c = FALSE
            for l in labels:
                if l['k'] == 'case':
                    c = or_(c, eq(v, self.scalar(self.ev(l['v'], st, fr))))
            conds.append(c)
            seen = or_(seen, c)
        cur = None
        for (labels, x), c in zip(flat, conds):
            if labels:
                if any(l['k'] == 'default' for l in labels):
                    c = or_(c, not_(seen))
                e = st.clone()
                e.pc = and_(st.pc, c)
                cur = e if cur is None or cur.pc is FALSE else self.join(c, e, cur, st)
            if cur is not None and cur.pc is not FALSE:
                cur = self.exec(x, cur, fr)
        d = any(l['k'] == 'default' for ls, x in flat for l in ls)
        outs = fr.brk
        fr.brk = old
        if not d:
            e = st.clone()
            e.pc = and_(st.pc, not_(seen))
            outs = outs + [(e.pc, e.s)]
        if cur is not None:
            outs = outs + [(cur.pc, cur.s)]
        return self.merge_list(outs)

    def merge_list(self, outs):
        outs = [o for o in outs if o[0] is not FALSE]
        if not outs:
            return None
        pc, s = outs[-1]
        acc = St(s, pc)
        for pc2, s2 in reversed(outs[:-1]):
            m = St({}, TRUE)
            self.merge_into(m, pc2, St(s2, pc2), acc)
            m.pc = or_(pc2, acc.pc)
            acc = m
        return acc

    # ------------------------------------------------------------ loops
    def s_for(self, s, st, fr):
        if s.get('init') is not None:
            st = self.exec(s['init'], st, fr)
            if st is None:
                return None
        return self.loop(s, st, fr,
                         (lambda x: self.cond(s['c'], x, fr)) if s.get('c') is not None else None,
                         lambda x, t: self.exec(s['body'], x, fr),
                         (lambda x: self.evx(s['inc'], x, fr)) if s.get('inc') is not None else None)

    def s_while(self, s, st, fr):
        return self.loop(s, st, fr, lambda x: self.cond(s['c'], x, fr), lambda x, t: self.exec(s['body'], x, fr), None)

    def s_do(self, s, st, fr):
        # the first iteration is unconditional: peel it
        ob, oc = fr.brk, fr.cont
        fr.brk, fr.cont = [], []
        base = st.pc
        end = self.exec(s['body'], st, fr)
        outs = ([(end.pc, end.s)] if end is not None else []) + fr.cont
        brk = fr.brk
        fr.brk, fr.cont = ob, oc
        nx = self.merge_list(outs)
        if nx is not None:
            nx = self.loop(s, nx, fr, lambda x: self.cond(s['c'], x, fr), lambda x, t: self.exec(s['body'], x, fr), None)
        outs = list(brk) + ([(nx.pc, nx.s)] if nx is not None else [])
        return self.merge_list(outs)

    def s_rfor(self, s, st, fr):
        if s.get('init') is not None:
            st = self.exec(s['init'], st, fr)
            if st is None:
                return None
        r = self.evx(s['range'], st, fr)
        lv = r if self._is_lv(r) else self.root('range', st, r)
        v = self.read(lv, st)
        if isinstance(lv, IteV):
            lv = self.root('range', st, v)
        var = s['var']
        isref = self.p.is_ref(var['t'])
        if isinstance(v, MapV):
            self.event('mapiter', st, s, ordered=v.ordered)
            n = v.size()
        elif isinstance(v, AxisV):
            m = self.M(v.m, st)
            n = (m.r if v.row else m.c) if m is not None else self.length(v)
        else:
            n = self.length(v)

        def bindvar(x, t):
            cur = self.read(lv, x)
            if isinstance(cur, MapV):
                k = cur.kth(t)
                if cur.val is None:
                    el_ = k
                else:
                    el_ = TupV([k, lv.step('key', k) if isref else cur.get(k)])
            elif isinstance(cur, MatV):
                i, j = self.unlin(cur, t)
                el_ = lv.step('el', i, j)
            elif isinstance(cur, AxisV):
                el_ = self.axis_elem(cur, t, x)
            elif isinstance(cur, (ListV, PhiL, AppV)):
                el_ = lv.step('i', t)
            else:
                el_ = self.unknown_value(var['t'], 'rangeelem', x)
            if self._is_lv(el_) and not isref and not (isinstance(cur, AxisV) and not self.p.ty(var['t']).get('plain')):
                el_ = self.read(el_, x)
            if self._is_lv(el_):
                fr.env[var['id']] = el_
            else:
                fr.env[var['id']] = self.root(var['n'] or 'x', x, el_)
            if var.get('bind'):
                b0 = fr.env[var['id']]
                bv = self.read(b0, x)
                for i, b in enumerate(var['bind']):
                    y = bv.xs[i] if isinstance(bv, TupV) and i < len(bv.xs) else OpqV('?bind')
                    fr.env[b['id']] = y if self._is_lv(y) else self.step(b0, 'f', i)
                    if b.get('hold') is not None:
                        fr.env[b['hold']] = fr.env[b['id']]

        def body(x, t):
            bindvar(x, t)
            return self.exec(s['body'], x, fr)
        return self.loop(s, st, fr, None, body, None, trip=n)

    # -- one abstract iteration
    def iterate(self, s, st0, fr, condf, bodyf, incf, t, store, rec, pc0):
        """run one iteration from store; returns dict"""
        oldret, ob, oc = fr.returns, fr.brk, fr.cont
        fr.returns, fr.brk, fr.cont = [], [], []
        orec = self.rec
        self.rec = self.rec and rec
        self.ctx.append(pc0)
        self.tstack.append(t)
        try:
            x = St(dict(store), TRUE)
            c = TRUE
            head = None
            if condf is not None:
                try:
                    c = condf(x)
                except Dead:
                    c = FALSE
            head = St(dict(x.s), TRUE)
            x.pc = TRUE
            end = None
            if c is not FALSE:
                end = bodyf(x, t)
            outs = ([(end.pc, end.s)] if end is not None and end.pc is not FALSE else []) + [q for q in fr.cont if q[0] is not FALSE]
            nx = self.merge_list(outs)
            if nx is not None and incf is not None:
                try:
                    incf(nx)
                except Dead:
                    nx = None
            return dict(c=c, head=head, end=nx, brk=[b for b in fr.brk if b[0] is not FALSE], ret=[r for r in fr.returns if r[0] is not FALSE])
        finally:
            self.ctx.pop()
            self.tstack.pop()
            self.rec = orec
            fr.returns, fr.brk, fr.cont = oldret, ob, oc

    def assigned_vars(self, node):
        """local variables syntactically stepped in the loop (++, --, op=, =)"""
        key = id(node)
        r = self._asg.get(key)
        if r is not None:
            return r
        out = set()

        def w(n):
            if isinstance(n, dict):
                k = n.get('k')
                if k in ('casg', 'asg') and n['a'].get('k') == 'var':
                    out.add(n['a']['id'])
                if k == 'un' and n.get('op') in ('++', '--') and n['e'].get('k') == 'var':
                    out.add(n['e']['id'])
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        w(v)
            elif isinstance(n, list):
                for v in n:
                    w(v)
        for part in ('c', 'inc', 'body'):
            if node.get(part) is not None:
                w(node[part])
        self._asg[key] = out
        return out

    def loop(self, s, st, fr, condf, bodyf, incf, trip=None):
        lid = self.uid()
        S0 = dict(st.s)
        pc0 = st.pc
        t = sym('t!%d' % lid, 'Z', 'nn')
        chg = {}            # path -> last post value seen
        for vid in self.assigned_vars(s):
            lv = fr.env.get(vid)
            if isinstance(lv, LV) and lv.root in S0 and not lv.path:
                v = S0[lv.root]
                if isinstance(v, T):
                    chg.setdefault((lv.root,), None)
        # does the loop run at all?
        if condf is not None:
            try:
                orec, self.rec = self.rec, False
                x = st.clone()
                c0 = self.under(condf(x), pc0)
            except Dead:
                c0 = TRUE
            finally:
                self.rec = orec
            if c0 is FALSE:
                try:
                    condf(st)
                except Dead:
                    return None
                return st
        if trip is ZERO:
            return st
        ivs = {}
        res = None
        modes = {}
        nunk = len(self.unk)
        nloops = len(self.loops)
        for rnd in range(14):
            del self.unk[nunk:]
            del self.loops[nloops:]
            store, phs = self.placeholders(S0, chg, lid, modes, ivs, t)
            res = self.iterate(s, st, fr, condf, bodyf, incf, t, store, False, pc0)
            if res['end'] is None:
                more = False
            else:
                more = self.collect(S0, store, res['end'].s, chg, modes)
            for b in res['brk']:
                pass
            if not more:
                # linear induction variables first: they make the conditions of the body concrete
                niv = False
                if res['end'] is not None:
                    for lf in self.leaves(phs, S0, res['end'].s, lid):
                        if isinstance(lf, Leaf) and lf.name not in ivs and not lf.idx and srt(lf.init) != 'B':
                            d = sub(lf.nxt, lf.ph) if srt(lf.nxt) != 'B' else None
                            if d is not None and (d.op == 'num' or (srt(d) == 'Z' and self.invariant(d, t, phs, S0, res['end'].s, lid))):
                                ivs[lf.name] = add(lf.init, mul(t, d))
                                niv = True
                if not niv:
                    break
        else:
            self.unknown('loop did not stabilise', s)
        del self.unk[nunk:]
        del self.loops[nloops:]
        nev = len(self.events)
        store, phs = self.placeholders(S0, chg, lid, modes, ivs, t)
        res = self.iterate(s, st, fr, condf, bodyf, incf, t, store, True, pc0)
        lvs = self.leaves(phs, S0, res['end'].s, lid) if res['end'] is not None else []
        self.solve(lvs, t, ivs)
        return self.finish_loop(s, st, fr, lid, t, S0, store, phs, lvs, res, ivs, trip, nev, nloops, pc0, condf)

    def invariant(self, d, t, phs, S0, S1, lid):
        """the term has one value for all iterations of the loop"""
        own = {lf.name for lf in self.leaves(phs, S0, S1, lid)}
        for x in walk(d):
            if x is t or x.op in ('el', 'nat') or (x.a and isinstance(x.a[0], str) and x.op in ('sym', 'ten', 'app', 'tapp', 'bapp') and (x.a[0] in own or x.a[0].startswith(('?', 'undef')))):
                return False
        return True

    # -- placeholders
    def phname(self, lid, path):
        key = (lid, path)
        n = self._phn.get(key)
        if n is None:
            n = self._phn[key] = '?phi%d.%s' % (self.uid(), '.'.join(str(p[1]) if isinstance(p, tuple) and p and p[0] == 'f' else str(p[0] if isinstance(p, tuple) else p) for p in path))
        return n

    def placeholders(self, S0, chg, lid, modes, ivs, t):
        store = dict(S0)
        phs = {}
        byroot = {}
        for p in chg:
            byroot.setdefault(p[0], []).append(p)
        for r, ps in byroot.items():
            v = S0[r]
            nv = self.phv(v, (r,), set(ps), chg, lid, modes)
            phs[r] = nv
            store[r] = self.ivsub(nv, ivs)
        self._curlid = lid
        return store, phs

    def ivsub(self, v, ivs):
        if not ivs:
            return v
        mp = {k: ((), x) for k, x in ivs.items()}

        def f(x):
            if x.op == 'sym' and x.a[0] in mp:
                return mp[x.a[0]][1]
            return rewrite_phi(x, mp)
        return vmapt(v, f)

    def phv(self, v, path, ps, chg, lid, modes):
        if path in ps:
            return self.mkph(v, chg[path], self.phname(lid, path), (), modes.get(path, 'same'))
        if isinstance(v, ObjV):
            d = dict(v.f)
            for k, x in v.f.items():
                q = path + (('f', k),)
                if any(p[:len(q)] == q for p in ps):
                    d[k] = self.phv(x, q, ps, chg, lid, modes)
            return ObjV(v.cls, d)
        if isinstance(v, TupV):
            xs = list(v.xs)
            for i, x in enumerate(xs):
                q = path + (('f', i),)
                if any(p[:len(q)] == q for p in ps):
                    xs[i] = self.phv(x, q, ps, chg, lid, modes)
            return TupV(xs)
        return v

    def mkph(self, v, v1, name, idx, mode):
        """placeholder shaped like the entry value v / the post value v1 (may be None)"""
        if v1 is None:
            v1 = v
        if isinstance(v1, IteV) and not self.ptrlike(v1) and isinstance(v1.a, UninitV):
            v1 = v1.b
        if isinstance(v1, IteV) and not self.ptrlike(v1) and isinstance(v1.b, UninitV):
            v1 = v1.a
        if isinstance(v, UninitV) and not isinstance(v1, UninitV):
            v = v1
        if isinstance(v, T) or isinstance(v, UninitV):
            s = srt(v) if isinstance(v, T) else 'R'
            if isinstance(v1, T):
                s1 = srt(v1)
                s = s if s == s1 else ('R' if 'S' not in (s, s1) else 'S')
            elif isinstance(v1, (OpqV, IteV, UninitV)):
                s = 'R'
            return app(name, s, *idx) if idx else sym(name, s)
        if isinstance(v, MatV) and isinstance(v1, MatV):
            def dim(a, b, sfx):
                if a is b:
                    return a
                return app(name + sfx, 'Z', *idx) if idx else sym(name + sfx, 'Z', 'nn')
            s, s1 = srt(v.body), srt(v1.body)
            if v.body.op == 'el' and str(v.body.a[0].a[0]).startswith('undef'):
                s = s1
            s = s if s == s1 else 'R'
            return MatV(dim(v.r, v1.r, '.r'), dim(v.c, v1.c, '.c'), el(tapp(name, s, *idx) if idx else ten(name, s), I, J))
        if isinstance(v, (ListV, PhiL, AppV)) and isinstance(v1, (ListV, PhiL, AppV)):
            f0 = self.listify(v)
            if mode == 'app':
                src = v1
                it = None
                if isinstance(v1, AppV) and v1.items:
                    it = v1.items[0][1]
                elif isinstance(self.listify(v1), ListV):
                    it = self.listify(v1).at(ZERO)
                if isinstance(it, BlkV):
                    it = it.l.at(ZERO)
                skel = f0.at(ZERO) if isinstance(f0, (ListV, PhiL)) and not (isinstance(f0, ListV) and f0.n is ZERO) else it
                n = app(name + '.n', 'Z', *idx) if idx else sym(name + '.n', 'Z', 'nn')

                def mke(i, skel=skel, name=name, idx=idx):
                    return self.like(skel, name, idx + (i,)) if skel is not None else OpqV('?elem')
                return PhiL(name, n, mke)
            f1 = self.listify(v1)
            if isinstance(f1, (ListV, PhiL)) and isinstance(f0, (ListV, PhiL)):
                k = fresh('k')
                n0 = f0.n
                if mode == 'gen':
                    n0 = app(name + '.n', 'Z', *idx) if idx else sym(name + '.n', 'Z', 'nn')
                empty = isinstance(f0, ListV) and f0.n is ZERO
                return ListV(n0, k, self.mkph(f1.at(k) if empty else f0.at(k), f1.at(k), name, idx + (k,), 'same' if not self.islist(f1.at(k)) else 'gen'))
        if isinstance(v, MapV) and isinstance(v1, MapV):
            K = v.k
            val = None
            if v.val is not None:
                val = self.mkph(v.val, v1.get(K) if v1.val is not None else None, name + '.v', idx + (K,), 'app' if self.islist(v.val) else 'same')
            return MapV(K, app(name + '.dom', 'B', *(idx + (K,))), val, v.ordered, [('phi', name, None, None)])
        if isinstance(v, ObjV) and isinstance(v1, ObjV):
            return ObjV(v.cls, {k: self.mkph(x, v1.f.get(k), name + '.' + k, idx, 'gen' if self.islist(x) else 'same') for k, x in v.f.items()})
        if isinstance(v, TupV) and isinstance(v1, TupV) and len(v.xs) == len(v1.xs):
            return TupV([self.mkph(x, y, name + '.%d' % i, idx, 'gen' if self.islist(x) else 'same') for i, (x, y) in enumerate(zip(v.xs, v1.xs))])
        if isinstance(v, IterV) and isinstance(v1, IterV) and v.lv == v1.lv and isinstance(v.i, T) and v.kind == v1.kind:
            return IterV(v.lv, app(name, 'Z', *idx) if idx else sym(name, 'Z'), v.kind)
        if self.ptrlike(v) or self.ptrlike(v1):
            ti = self.pointee(v) or self.pointee(v1)
            if ti is not None and not idx:
                return IteV(sym(name + '.null', 'B'), NULL, PtrV(LV(('sym', name, ti))))
        return OpqV(name, idx)

    def islist(self, v):
        return isinstance(v, (ListV, PhiL, AppV))

    def pointee(self, v):
        if isinstance(v, IteV):
            return self.pointee(v.a) or self.pointee(v.b)
        if isinstance(v, PtrV) and v.lv is not None and isinstance(v.lv, LV) and not v.lv.path and v.lv.root[0] == 'sym':
            return v.lv.root[2]
        return None

    # -- what changed
    def collect(self, S0, store, post, chg, modes):
        more = False
        for r in S0:
            if r not in post:
                continue
            a, b = store.get(r), post[r]
            if a is b or a is None:
                continue
            if self.coll(S0[r], a, b, (r,), chg, modes):
                more = True
        return more

    def coll(self, v0, a, b, path, chg, modes):
        """a: value at iteration entry (placeholders inside), b: value after"""
        if a is b or veq(a, b):
            return False
        if path not in chg:
            if isinstance(a, ObjV) and isinstance(b, ObjV) and isinstance(v0, ObjV) and a.f.keys() == b.f.keys() == v0.f.keys():
                return any([self.coll(v0.f[k], a.f[k], b.f[k], path + (('f', k),), chg, modes) for k in a.f])
            if isinstance(a, TupV) and isinstance(b, TupV) and isinstance(v0, TupV) and len(a.xs) == len(b.xs) == len(v0.xs):
                return any([self.coll(v0.xs[i], a.xs[i], b.xs[i], path + (('f', i),), chg, modes) for i in range(len(a.xs))])
            # drop finer-grained records
            for q in [q for q in chg if q[:len(path)] == path]:
                del chg[q]
            chg[path] = b
            if self.islist(v0) and self.islist(b):
                f0, f1 = self.listify(v0), self.listify(b)
                if isinstance(f0, (ListV, PhiL)) and isinstance(f1, (ListV, PhiL)) and f0.n is f1.n:
                    modes[path] = 'same'
                else:
                    modes[path] = 'app'
            return True
        old = chg[path]
        # already a placeholder: does its shape still fit?
        new = False
        if isinstance(a, T) and isinstance(b, T):
            if srt(a) != srt(b) and srt(a) != 'R':
                chg[path] = b if srt(b) in ('R', 'S') else ite(sym('?j', 'B'), b2t(b) if srt(b) == 'B' else b, b2t(a) if srt(a) == 'B' else a)
                if srt(chg[path]) == srt(a):
                    return False
                return True
            if old is None:
                chg[path] = b
            return False
        if isinstance(a, MatV) and isinstance(b, MatV):
            if (a.r is not b.r and not self.isphi(a.r)) or (a.c is not b.c and not self.isphi(a.c)):
                chg[path] = b
                return True
            if srt(a.body) != srt(b.body) and srt(a.body) != 'R':
                chg[path] = MatV(b.r if self.isphi(a.r) else a.r, b.c if self.isphi(a.c) else a.c, b.body)
                # remember that dimensions vary
                return True
            return False
        if isinstance(b, IteV) and isinstance(a, PhiL) and modes.get(path) == 'app':
            # a whole list assigned under a condition: carry length and elements generally
            def leaf(v):
                if isinstance(v, IteV):
                    return leaf(v.a) or leaf(v.b)
                return v if isinstance(v, ListV) else None
            l = leaf(b)
            if l is not None:
                modes[path] = 'gen'
                chg[path] = l
                return True
        if self.islist(b):
            mode = modes.get(path, 'same')
            if mode == 'app':
                if isinstance(b, PhiL) and isinstance(a, PhiL) and b.name == a.name:
                    return False
                if isinstance(b, AppV) and isinstance(b.base, PhiL) and isinstance(a, PhiL) and b.base.name == a.name:
                    return False
                modes[path] = 'gen'
                chg[path] = b
                return True
            if mode == 'same':
                f1 = self.listify(b)
                if isinstance(a, ListV) and isinstance(f1, (ListV, PhiL)) and f1.n is a.n:
                    return self.coll_elem(a, f1, path, chg)
                modes[path] = 'app' if not self.touched(a, b) else 'gen'
                chg[path] = b
                return True
            f1 = self.listify(b)
            if isinstance(a, ListV) and isinstance(f1, ListV):
                return self.coll_elem(a, f1, path, chg)
            return False
        if type(a) is not type(b) and not (isinstance(a, OpqV)):
            if isinstance(a, IteV) and self.ptrlike(a):
                return False
            if isinstance(old, type(b)):
                return False
            chg[path] = b
            return True
        return False

    def coll_elem(self, a, b, path, chg):
        """element shapes inside a list placeholder"""
        k = fresh('k')
        x, y = a.at(k), b.at(k)
        if self.shape(x) != self.shape(y):
            key = ('shape', path)
            if self._asg.get(key) == self.shape(y):
                return False
            self._asg[key] = self.shape(y)
            chg[path] = b
            return True
        return False

    def shape(self, v):
        if isinstance(v, T):
            return srt(v)
        if isinstance(v, MatV):
            return ('M', v.r.id if not self.isphi(v.r) else 'phi', v.c.id if not self.isphi(v.c) else 'phi')
        if isinstance(v, TupV):
            return tuple(self.shape(x) for x in v.xs)
        return type(v).__name__

    def touched(self, a, b):
        return False

    def isphi(self, d):
        return d.op in ('sym', 'app') and str(d.a[0]).startswith('?phi')

    # -- leaves: parallel walk over placeholder, entry and post values
    def leaves(self, phs, S0, post, lid):
        out = []
        self._phn.cur = frozenset(v for k, v in self._phn.items() if k[0] == lid)
        self._ownset = Own(self._phn, phs)
        for r, ph in phs.items():
            self.lv_walk(ph, S0[r], post.get(r, ph), (), (r,), out)
        return out

    def tinit(self, v, ph):
        if isinstance(v, T):
            return v
        if isinstance(v, UninitV):
            return sym('undef:' + v.name, srt(ph))
        return None

    def lv_walk(self, ph, v0, v1, idx, path, out):
        if isinstance(ph, T):
            if self.isphi(ph) or (ph.op == 'el' and ph.a[0].op in ('ten', 'tapp') and str(ph.a[0].a[0]).startswith('?phi')):
                nm = ph.a[0].a[0] if ph.op == 'el' else ph.a[0]
                if nm not in self._own(path):
                    return
                i = self.tinit(v0, ph)
                if i is None:
                    i = sym('undef:mix', srt(ph))
                n = v1 if isinstance(v1, T) else self.tinit(v1, ph)
                if n is None and isinstance(v1, IteV):
                    n = self.scalar(v1)
                if n is None:
                    n = sym('?next%d' % self.uid(), srt(ph))
                out.append(Leaf(ph, idx, i, n, path))
            return
        if isinstance(ph, MatV):
            m0 = v0 if isinstance(v0, MatV) else MatV(ZERO, ZERO, sym('undef:mat', srt(ph.body)))
            m1 = v1 if isinstance(v1, MatV) else MatV(sym('?nextr', 'Z'), sym('?nextc', 'Z'), sym('?next', srt(ph.body)))
            self.lv_walk(ph.r, m0.r, m1.r, idx, path, out)
            self.lv_walk(ph.c, m0.c, m1.c, idx, path, out)
            self.lv_walk(ph.body, m0.body, m1.body, idx + (I, J), path, out)
            return
        if isinstance(ph, PhiL):
            if ph.name not in self._own(path):
                return
            out.append(AppLeaf(ph, idx, v0, v1, path))
            return
        if isinstance(ph, ListV):
            k = ph.k
            f0, f1 = self.listify(v0), self.listify(v1)
            e0 = f0.at(k) if isinstance(f0, (ListV, PhiL)) else UninitV('list')
            e1 = f1.at(k) if isinstance(f1, (ListV, PhiL)) else UninitV('list')
            n0 = f0.n if isinstance(f0, (ListV, PhiL)) else ZERO
            n1 = f1.n if isinstance(f1, (ListV, PhiL)) else sym('?nextn', 'Z')
            self.lv_walk(ph.n, n0, n1, idx, path, out)
            self.lv_walk(ph.e, e0, e1, idx + (k,), path, out)
            return
        if isinstance(ph, MapV):
            K = ph.k
            if isinstance(v0, MapV) and isinstance(v1, MapV):
                self.lv_walk(ph.dom, v0.has(K), v1.has(K), idx + (K,), path, out)
                if ph.val is not None and v0.val is not None and v1.val is not None:
                    self.lv_walk(ph.val, v0.get(K), v1.get(K), idx + (K,), path, out)
            return
        if isinstance(ph, ObjV):
            for k, x in ph.f.items():
                a = v0.f.get(k) if isinstance(v0, ObjV) else UninitV(k)
                b = v1.f.get(k) if isinstance(v1, ObjV) else UninitV(k)
                self.lv_walk(x, a, b, idx, path + (('f', k),), out)
            return
        if isinstance(ph, TupV):
            for i, x in enumerate(ph.xs):
                a = v0.xs[i] if isinstance(v0, TupV) and i < len(v0.xs) else UninitV('tup')
                b = v1.xs[i] if isinstance(v1, TupV) and i < len(v1.xs) else UninitV('tup')
                self.lv_walk(x, a, b, idx, path + (('f', i),), out)
            return
        if isinstance(ph, IterV):
            if isinstance(v0, IterV) and isinstance(v1, IterV):
                self.lv_walk(ph.i, v0.i, v1.i, idx, path, out)

    def _own(self, path):
        return self._ownset

    # -- recurrences
    def solve(self, lvs, t, ivs):
        names = {l.name for l in lvs}
        mp = {}
        for l in lvs:
            if isinstance(l, Leaf) and l.name in ivs:
                l.closed = ivs[l.name]
                mp[l.name] = (l.idx, l.closed)
        self.maxinfo = {}
        self.slice_reads(lvs, t)
        unsolved = [l for l in lvs if l.closed is None]
        progress = True
        while progress and unsolved:
            progress = False
            un = {l.name for l in unsolved}
            for l in list(unsolved):
                if isinstance(l, Leaf):
                    nx = rewrite_phi(l.nxt, mp) if mp else l.nxt
                    c = self.solve_leaf(l, nx, t, un)
                    if c is not None:
                        l.closed = c
                        mp[l.name] = (l.idx, c)
                else:
                    c = self.solve_app(l, t, un, mp)
                    if c is not None:
                        l.closed = c
                        self.app_mp(l, c, mp)
                if l.closed is not None:
                    unsolved.remove(l)
                    progress = True
        return mp

    def slice_reads(self, lvs, t):
        """cells written only in slice number t at iteration t still hold their entry value when slice t is read"""
        sl = {}
        for l in lvs:
            if not isinstance(l, Leaf) or l.closed is not None or not l.idx or l.nxt is l.ph:
                continue
            for k, ix in enumerate(l.idx):
                c = eq(ix, t)
                if c in (TRUE, FALSE) or t not in l.nxt.fs or restrict(l.nxt, c, False) is not l.ph:
                    continue
                sl[l.name] = (l, k, ix, c)
                break
        if len(sl) < 2:
            return
        for m in lvs:
            if not isinstance(m, Leaf) or m.closed is not None:
                continue
            own = sl.get(m.name)
            x = restrict(m.nxt, own[3], True) if own else m.nxt
            rep = {}
            for y in walk(x):
                e = sl.get(_pn(y)) if y.op in ('el', 'app') else None
                if e is None:
                    continue
                jx = ((y.a[0].a[2:] if y.a[0].op == 'tapp' else ()) + (y.a[1], y.a[2])) if y.op == 'el' else y.a[2:]
                l, k = e[0], e[1]
                if len(jx) == len(l.idx) and (jx[k] is t or own and jx[k] is own[2]):
                    rep[y] = rewrite_phi(y, {l.name: (l.idx, l.init)})
            if rep:
                x = _replace(x, rep)
                m.nxt = ite(own[3], x, m.ph) if own else x

    def app_mp(self, l, c, mp):
        """make the closed list available to rewrite_phi for every leaf of the list placeholder"""
        lst = c
        k = fresh('k')
        ph = l.ph.mk(k)
        mp_n = l.ph.n
        mp[mp_n.a[0]] = (tuple(l.idx), lst.n)
        pairs = []

        def w(p, v):
            if isinstance(p, T):
                if p.op == 'el':
                    if isinstance(v, T):
                        mp[p.a[0].a[0]] = (tuple(l.idx) + (k, I, J), v)
                elif p.op in ('app', 'sym') and isinstance(v, T):
                    mp[p.a[0]] = (tuple(l.idx) + (k,), v)
            elif isinstance(p, MatV) and isinstance(v, MatV):
                w(p.r, v.r)
                w(p.c, v.c)
                w(p.body, v.body)
            elif isinstance(p, TupV) and isinstance(v, TupV):
                for x, y in zip(p.xs, v.xs):
                    w(x, y)
            elif isinstance(p, ObjV) and isinstance(v, ObjV):
                for q in p.f:
                    if q in v.f:
                        w(p.f[q], v.f[q])
            elif isinstance(p, ListV) and isinstance(v, (ListV, PhiL)):
                w(p.n, v.n)
        w(ph, lst.at(k))

    def cases(self, x, g=TRUE, out=None):
        if out is None:
            out = []
        if x.op == 'ite' and len(out) < 12:
            self.cases(x.a[1], and_(g, x.a[0]), out)
            self.cases(x.a[2], and_(g, not_(x.a[0])), out)
        else:
            out.append((g, x))
        return out

    def localize(self, x, g, l):
        """occurrences of the cell at another index that the guard makes equal to this one"""
        if not l.idx:
            return x
        qs = set()
        for c in (g.a if g.op == 'and' else (g,)):
            if c.op == 'eq0':
                qs.add(c.a[0])
                qs.add(neg(c.a[0]))
        if not qs:
            return x
        rep = {}
        for y in walk(x):
            if _pn(y) == l.name and y.op in ('el', 'app') and y is not l.ph:
                ix = (y.a[0].a[2:] if y.a[0].op == 'tapp' else ()) + (y.a[1], y.a[2]) if y.op == 'el' else y.a[2:]
                if len(ix) == len(l.idx) and all(a is b or sub(a, b) in qs or eq0(sub(a, b)).a[0:1] and eq0(sub(a, b)) in (g.a if g.op == 'and' else (g,)) for a, b in zip(l.idx, ix)):
                    rep[y] = l.ph
        if not rep:
            return x
        return _replace(x, rep)

    def solve_leaf(self, l, nx, t, un):
        P = l.ph
        name = {l.name}
        others = un - name
        if nx is P:
            return l.init
        if others and mentions(nx, others):
            # an arg-companion of a solved maximum?
            return None
        if srt(P) == 'B':
            return self.solve_bool(l, nx, t)
        mm = self.solve_max(l, nx, t)
        if mm is not None:
            return mm
        pw = self.solve_pointwise(l, nx, t)
        if pw is not None:
            return pw
        cs = self.cases(nx)
        pieces = []
        for g, v in cs:
            if g is FALSE:
                continue
            v = self.localize(v, g, l)
            g2 = self.localize(g, g, l)
            if mentions(g2, name):
                ar = self.solve_arg(l, cs, t)
                return ar
            if v is P:
                pieces.append(('keep', g2, None))
                continue
            if not mentions(v, name):
                pieces.append(('set', g2, v))
                continue
            d = sub(v, P)
            if not mentions(d, name):
                pieces.append(('inc', g2, d))
                continue
            q = div(v, P)
            if not mentions(q, name):
                pieces.append(('mul', g2, q))
                continue
            return None
        kinds = {p[0] for p in pieces} - {'keep'}
        s = fresh('s')
        if not kinds:
            return l.init
        if kinds == {'inc'}:
            d = ZERO
            for k, g, x in pieces:
                if k == 'inc':
                    d = add(d, ite(g, x, ZERO))
            return add(l.init, sum_(t, s, subst(d, {t: s})))
        if kinds == {'mul'}:
            d = ONE
            for k, g, x in pieces:
                if k == 'mul':
                    d = mul(d, ite(g, x, ONE))
            if t not in d.fs:
                return mul(l.init, d ** t.a[0] if False else fn('pow', d, t)) if d.op != 'num' or d.a[0] != 0 else ite(eq(t, ZERO), l.init, ZERO)
            return mul(l.init, bind('prod', t, s, subst(d, {t: s})))
        if kinds == {'set'}:
            G = FALSE
            V = None
            for k, g, x in pieces:
                if k == 'set':
                    G = or_(G, g)
                    V = x if V is None else ite(g, x, V)
            return self.last_set(l.init, G, V, t, l.idx)
        if kinds == {'set', 'inc'} or kinds == {'set', 'inc', 'keep'}:
            # accumulation that (re)starts at the first iteration
            sets = [(g, x) for k, g, x in pieces if k == 'set']
            if len(sets) == 1 and sets[0][0] is eq(t, ZERO):
                d = ZERO
                for k, g, x in pieces:
                    if k == 'inc':
                        d = add(d, ite(g, x, ZERO))
                tot = add(subst(sets[0][1], {t: ZERO}), sum_(t, s, subst(ite(eq(t, ZERO), ZERO, d), {t: s})))
                return ite(eq(t, ZERO), l.init, tot)
        return None

    def solve_pointwise(self, l, nx, t):
        """in-place update that touches only the cells of slice number t at iteration t, reading only that slice"""
        if not l.idx or not mentions(nx, {l.name}):
            return None
        P = l.ph
        seen = set()
        for c in walk(nx):
            if c.op != 'eq0' or t not in c.a[0].fs or c in seen or srt(c.a[0]) != 'Z':
                continue
            seen.add(c)
            k = next((k for k, ix in enumerate(l.idx) if c is eq(ix, t)), None)
            if k is None:
                continue
            ix = l.idx[k]
            if restrict(nx, c, False) is not P:
                continue
            v = restrict(nx, c, True)
            ok = True
            for y in walk(v):
                if _pn(y) == l.name and y.op in ('el', 'app'):
                    jx = ((y.a[0].a[2:] if y.a[0].op == 'tapp' else ()) + (y.a[1], y.a[2])) if y.op == 'el' else y.a[2:]
                    if len(jx) != len(l.idx) or not (jx[k] is t or jx[k] is ix):
                        ok = False
            if not ok:
                continue
            v = rewrite_phi(v, {l.name: (l.idx, l.init)})
            if mentions(v, {l.name}):
                continue
            v = subst(v, {t: ix})
            return ite(lt(ix, t) if nonneg(ix) or self.nn_index(ix) or ix in (I, J) else and_(le(ZERO, ix), lt(ix, t)), v, l.init)
        return None

    def last_set(self, init, G, V, t, idx):
        if G is TRUE:
            return ite(eq(t, ZERO), init, subst(V, {t: sub(t, ONE)}))
        # write-once: an index equation determines the iteration
        for c in (G.a if G.op == 'and' else (G,)):
            if c.op == 'eq0' and t in c.a[0].fs and srt(c.a[0]) == 'Z':
                li = linear_in(c.a[0], t)
                if li and abs(li[0]) == 1 and t not in li[1].fs:
                    ts = scale(li[1], -1 / li[0])
                    rg = and_(le(ZERO, ts) if not self.nn_index(ts) else TRUE, lt(ts, t))
                    g2 = subst(G, {t: ts})
                    return ite(and_(rg, g2), subst(V, {t: ts}), init)
        if t not in G.fs:
            return ite(and_(G, lt(ZERO, t)), subst(V, {t: sub(t, ONE)}), init)
        s, u = fresh('s'), fresh('u')
        w = any_(t, s, subst(G, {t: s}))
        if t not in V.fs:
            return ite(w, V, init)
        rev = sub(sub(t, ONE), u)
        last = sub(sub(t, ONE), bind('first', t, u, subst(G, {t: rev})))
        return ite(w, subst(V, {t: last}), init)

    def nn_index(self, x):
        return x is I or x is J or nonneg(x) or (x.op == 'sym' and str(x.a[0]).startswith(('k#', 'o#')))

    def solve_bool(self, l, nx, t):
        P = l.ph
        name = {l.name}
        n1 = restrict(nx, P, True)
        n0 = restrict(nx, P, False)
        if mentions(n1, name) or mentions(n0, name):
            # pointwise over index conditions
            return None
        s = fresh('s')
        at = lambda x: subst(x, {t: s})
        if n1 is n0:
            return ite(eq(t, ZERO), l.init, subst(n1, {t: sub(t, ONE)}))
        if n1 is TRUE:
            return or_(l.init, any_(t, s, at(n0)))
        if n0 is FALSE:
            return and_(l.init, not_(any_(t, s, not_(at(n1)))))
        tog = and_(not_(n1), n0)
        if tog is FALSE or True:
            keep = and_(n1, not_(n0))
            G = not_(keep)
            if tog is FALSE:
                return self.last_set(l.init, G, n0, t, l.idx)
        return None

    def solve_max(self, l, nx, t):
        """nx = P < e ? e : P and the like (an extra P-free guard is allowed)"""
        P = l.ph
        if nx.op != 'ite':
            return None
        name = {l.name}
        g, a, b = nx.a
        if a is P:
            g, a, b = not_(g), b, a
        if b is not P or mentions(a, name):
            return None
        if not mentions(g, name):
            return None
        cs = list(g.a) if g.op == 'and' else [g]
        hit = [c for c in cs if mentions(c, name)]
        rest = and_(*[c for c in cs if c not in hit])
        if len(hit) != 1:
            return None
        c = hit[0]
        strict = True
        if c.op == 'not' and c.a[0].op == 'lt0':
            q = neg(c.a[0].a[0])
            strict = False
        elif c.op == 'lt0':
            q = c.a[0]
        else:
            return None
        d = sub(P, a)
        kind = None
        for k, dd in (('rmax', d), ('rmin', neg(d))):
            if lt0(dd) is lt0(q):
                kind = k
            elif srt(dd) == 'Z' and lt0(q) is not_(lt0(neg(dd))):
                kind, strict = k, False
        if kind is None:
            return None
        s = fresh('s')
        big = neg(INF) if kind == 'rmax' else INF
        e = a if rest is TRUE else ite(rest, a, big)
        es = subst(e, {t: s})
        m = bind(kind, t, s, es)
        self.maxinfo[l.name] = dict(kind=kind, guard=g, e=es, s=s, strict=strict, init=l.init, m=m, t=t)
        if l.init is big:
            return ite(eq(t, ZERO), l.init, m)
        upd = lt(l.init, m) if kind == 'rmax' else lt(m, l.init)
        return ite(eq(t, ZERO), l.init, ite(upd, m, l.init))

    def solve_arg(self, l, cs, t):
        """the position of the best key so far, compared through the position itself: p = key(p) < key(t) ? t : p"""
        P = l.ph
        if l.idx or P.op != 'sym':
            return None
        cs = [(g, v) for g, v in cs if g is not FALSE]
        sets = [(g, v) for g, v in cs if v is not P]
        if len(sets) != 1:
            return None
        g, v = sets[0]
        if P in v.fs or t not in v.fs or g.op != 'lt0':
            return None
        A, B = {}, {}
        for m, c in pd(g.a[0]).items():
            (A if any(P is at or P in at.fs for at, e in m) else B)[m] = c
        A, B = unpd(A), unpd(B)
        if t in A.fs or add(B, subst(A, {P: v})) is not ZERO:
            return None
        # key A: the new position is taken when A(P) < A(v)
        k = fresh('k')
        off = sub(v, t)
        if off.op == 'num' and sub(l.init, off) is num(-1):
            return add(l.init, bind('argmax', add(t, ONE), k, subst(A, {P: add(l.init, k)})))
        star = subst(v, {t: bind('argmax', t, k, subst(A, {P: subst(v, {t: k})}))})
        return ite(eq(t, ZERO), l.init, ite(lt(subst(A, {P: l.init}), subst(A, {P: star})), star, l.init))

    def solve_companions(self, lvs, t, mp):
        """values recorded when a running maximum/minimum is updated"""
        for l in lvs:
            if not isinstance(l, Leaf) or l.closed is not None:
                continue
            nx = rewrite_phi(l.raw, {k: v for k, v in mp.items() if k not in self.maxinfo})
            for nm, inf in self.maxinfo.items():
                cs = self.cases(nx)
                sets = [(g, v) for g, v in cs if v is not l.ph]
                keep = [(g, v) for g, v in cs if v is l.ph]
                if len(sets) == 1 and sets[0][0] is inf['guard'] and not mentions(sets[0][1], {l.name}):
                    V = sets[0][1]
                    # value at the winning iteration; V must not mention other unsolved cells
                    V = rewrite_phi(V, mp)
                    if any(str(_pn(y) or '').startswith('?phi') for y in walk(V)):
                        continue
                    t_ = inf['t']
                    op = 'argmax' if inf['kind'] == 'rmax' else 'argmin'
                    if inf['strict']:
                        star = bind(op, t_, inf['s'], inf['e'])
                    else:
                        u = fresh('u')
                        star = sub(sub(t_, ONE), bind(op, t_, u, subst(inf['e'], {inf['s']: sub(sub(t_, ONE), u)})))
                    big = neg(INF) if inf['kind'] == 'rmax' else INF
                    upd = TRUE if inf['init'] is big else (lt(inf['init'], inf['m']) if inf['kind'] == 'rmax' else lt(inf['m'], inf['init']))
                    l.closed = ite(eq(t_, ZERO), l.init, ite(upd, subst(V, {t: star}), l.init))
                    mp[l.name] = (l.idx, l.closed)
                    break

    def solve_app(self, l, t, un, mp):
        v1 = self.push_guard(l.post, l.name)
        if isinstance(v1, PhiL) and v1.name == l.name:
            return self.listify(l.init)
        if not (isinstance(v1, AppV) and isinstance(v1.base, PhiL) and v1.base.name == l.name):
            return None
        f = lambda x: rewrite_phi(x, mp) if mp else x
        items = []
        for c, x in v1.items:
            c, x = f(c), vmapt(x, f)
            if self.vmentions(x, un) or mentions(c, un):
                return None
            items.append((c, x))
        init = self.listify(l.init)
        if not isinstance(init, (ListV, PhiL)):
            return None
        n0 = init.n
        s = fresh('s')
        k = fresh('k')
        at = lambda x, y: vsubst(x, {t: y})
        u = sub(k, n0)
        if len(items) == 1:
            c, x = items[0]
            if isinstance(x, BlkV):
                L = x.l.n
                if t in L.fs or c is not TRUE:
                    cnt, e = self.segments(t, items, u, at)
                else:
                    cnt = mul(t, L)
                    e = at(x.l.at(fn('imod', u, L)), fn('idiv', u, L))
            elif c is TRUE:
                cnt = t
                e = at(x, u)
            else:
                cnt = sum_(t, s, subst(b2t(c), {t: s}))
                e = at(x, self.sel_at(t, s, subst(c, {t: s}), u))
        elif all(c is TRUE and not isinstance(x, BlkV) for c, x in items):
            m = num(len(items))
            cnt = mul(t, m)
            r = fn('imod', u, m)
            e = at(items[-1][1], fn('idiv', u, m))
            for i in range(len(items) - 2, -1, -1):
                e = mergev(eq(r, num(i)), at(items[i][1], fn('idiv', u, m)), e)
        else:
            cnt, e = self.segments(t, items, u, at)
        if n0 is ZERO:
            return ListV(cnt, k, e)
        return ListV(add(n0, cnt), k, mergev(lt(k, n0), init.at(k), e))

    def push_guard(self, v, name):
        """if c then (list + items) else list  ==  list + (items, each guarded by c)"""
        if isinstance(v, IteV):
            a, b = self.push_guard(v.a, name), self.push_guard(v.b, name)
            ok = lambda x: (isinstance(x, PhiL) and x.name == name) or (isinstance(x, AppV) and isinstance(x.base, PhiL) and x.base.name == name)
            if ok(a) and ok(b):
                ia = list(a.items) if isinstance(a, AppV) else []
                ib = list(b.items) if isinstance(b, AppV) else []
                base = a.base if isinstance(a, AppV) else (b.base if isinstance(b, AppV) else a)
                its = [(and_(v.c, g), x) for g, x in ia] + [(and_(not_(v.c), g), x) for g, x in ib]
                return AppV(base, its) if its else base
        return v

    def segments(self, t, items, u, at):
        """iteration t appends, for each (guard, x), nothing, one element or a block: length and u-th element"""
        ws = [ite(c, x.l.n if isinstance(x, BlkV) else ONE, ZERO) for c, x in items]
        W = add(*ws) if len(ws) > 1 else ws[0]
        s, b = fresh('s'), fresh('b')
        S = lambda y: sum_(y, s, subst(W, {t: s}))
        cnt = S(t)
        seg = sum_(t, b, b2t(le(S(add(b, ONE)), u)))
        r = sub(u, S(seg))
        val, off = None, ZERO
        for (c, x), w in zip(items, ws):
            w = subst(w, {t: seg})
            if isinstance(x, BlkV):
                e = vsubst(x.l.at(fn('?off', t) if False else sub(r, off)), {t: seg})
            else:
                e = at(x, seg)
            parts = (val or []) + [(lt(r, add(off, w)), e)]
            val = parts
            off = add(off, w)
        e = val[-1][1]
        for g, x in reversed(val[:-1]):
            e = mergev(g, x, e)
        return cnt, e

    def sel_at(self, t, s, c, u):
        return bind('sel', t, s, c, u)

    def vmentions(self, v, names):
        hit = []

        def f(x):
            if not hit and mentions(x, names):
                hit.append(x)
            return x
        vmapt(v, f)
        return bool(hit)

    # -- trip count
    def trips(self, c, t):
        """(N, residual condition): c holds for 0<=t<N as far as its linear part goes"""
        cs = list(c.a) if c.op == 'and' else [c]
        N = None
        rest = []
        for x in cs:
            n = self.trip1(x, t)
            if n is None:
                rest.append(x)
            else:
                N = n if N is None else min_(N, n)
        return N, and_(*rest)

    def trip1(self, c, t):
        if c.op == 'lt0' or (c.op == 'not' and c.a[0].op == 'lt0'):
            pos = c.op == 'lt0'
            p = c.a[0] if pos else c.a[0].a[0]
            li = linear_in(p, t)
            if li is None or t in li[1].fs:
                return None
            a, b = li
            if any(str(_pn(y) or '').startswith('?phi') and False for y in walk(b)):
                return None
            if pos and a > 0:
                x = scale(b, -1 / a)
                if srt(x) == 'Z':
                    return self.nat(x)
                return self.nat(fn('ceil', x)) if a != 1 else self.nat(fn('ceil', x))
            if not pos and a < 0:
                x = scale(b, -1 / a)
                return self.nat(add(fn('floor', x) if srt(x) != 'Z' else x, ONE))
            return None
        if c.op == 'not' and c.a[0].op == 'eq0':
            li = linear_in(c.a[0].a[0], t)
            if li is None or t in li[1].fs:
                return None
            x = scale(li[1], -1 / li[0])
            return self.nat(x)
        return None

    def nat(self, x):
        if nonneg(x):
            return x
        return fn('nat', x)

    # -- the state after the loop
    def finish_loop(self, s, st, fr, lid, t, S0, store, phs, lvs, res, ivs, trip, nev, nloops, pc0, condf):
        mp = {}
        for l in lvs:
            if l.closed is not None:
                if isinstance(l, Leaf):
                    mp[l.name] = (l.idx, l.closed)
                else:
                    self.app_mp(l, l.closed, mp)
        for k, x in ivs.items():
            mp.setdefault(k, ((), x))
        self.solve_companions(lvs, t, mp)
        solved = set(mp)
        unsolved = [l for l in lvs if l.closed is None]
        # unsolved cells become unknown functions of the iteration
        pm = {}

        def unk_map(tt, final=False):
            m = dict()
            for l in unsolved:
                ph = l.ph if isinstance(l, Leaf) else None
                if isinstance(l, Leaf):
                    s_ = srt(ph)
                    m[l.name] = (l.idx, app('?' + l.name[1:] + '@', s_, *(list(self.tstack) + [tt] + list(l.idx))))
                else:
                    m[l.ph.n.a[0]] = (tuple(l.idx), app('?' + l.name[1:] + '.n@', 'Z', *(list(self.tstack) + [tt] + list(l.idx))))
            return m

        def state_map(tt):
            m = {}
            for k, (ix, x) in mp.items():
                m[k] = (ix, subst(x, {t: tt}))
            um = unk_map(tt)
            # closed forms may still mention unsolved names
            if um:
                m = {k: (ix, rewrite_phi(x, um)) for k, (ix, x) in m.items()}
                m.update(um)
            return m

        m_t = state_map(t)
        R = (lambda x: rewrite_phi(x, m_t)) if m_t else (lambda x: x)
        # condition and exits as functions of t
        c = R(res['c'])
        N = trip
        rest = TRUE
        if N is None:
            N, rest = self.trips(c, t) if c is not TRUE else (None, TRUE)
        exits = []
        if rest is not TRUE:
            exits.append((not_(rest), 'cond', None, None))
        for pc, ss in res['brk']:
            exits.append((R(pc), 'brk', None, ss))
        for pc, v, ss in res['ret']:
            exits.append((R(pc), 'ret', v, ss))
        alive = res['end'].pc if res['end'] is not None else FALSE
        dead = not_(or_(*([alive] + [p for p, _ in res['brk']] + [p for p, _, _ in res['ret']])))
        dead = R(dead)
        if rest is not TRUE:
            dead = and_(rest, dead)
            exits = [exits[0]] + [(and_(rest, e[0]), e[1], e[2], e[3]) for e in exits[1:]]
        known = N is not None
        bad = lambda x: any(str(_pn(y) or '').startswith('?') for y in walk(x))
        if N is None and not exits:
            # no bound at all
            N = app('?N%d' % lid, 'Z', *self.tstack) if self.tstack else sym('?N%d' % lid, 'Z', 'nn')
        elif N is None:
            N = app('?N%d' % lid, 'Z', *self.tstack) if self.tstack else sym('?N%d' % lid, 'Z', 'nn')
        rec = LoopRec(id=lid, fn=self.fname(), line=s.get('l'), file=self.stack[-1].f.get('file', '?') if self.stack else '?', kind=s['k'],
                      t=t, N=N, leaves=lvs, solved=solved, cond=res['c'], entry=S0, phs=phs, store=store, end=res['end'], brk=res['brk'], ret=res['ret'],
                      exits=exits, pc=and_(*(self.ctx + [pc0])), node=s, closed=mp, dead=dead)
        self.loops.append(rec)
        E = or_(*[e[0] for e in exits])
        if E is FALSE:
            exits = []
        s_ = fresh('s')
        ended = TRUE
        if exits:
            first = bind('first', N, s_, subst(E, {t: s_}))
            hit = lt(first, N)
            if not known:
                ended = hit
            if not known and not bad(E):
                # unbounded search loop: the first exit
                hit = TRUE
            elif not known:
                hit = TRUE
        else:
            first, hit = N, FALSE
        # record events: bounded iteration symbol
        lim = N
        tb = sym('t!%d.b' % self.uid(), 'Z', lim)
        m_b = state_map(tb)
        RB = lambda x: rewrite_phi(subst(x, {t: tb}), m_b)
        guard = TRUE
        if self.rec:
            for e in self.events[nev:]:
                e.pc = RB(e.pc)
                if rest is not TRUE:
                    e.pc = and_(e.pc, RB(rest))
                e.data = {k: (vmapt(v, RB) if isinstance(v, (T, V, list, tuple)) else v) for k, v in e.data.items()}
                e.loops = e.loops + (lid,)
        # inner loop records keep their raw terms; remember the context map
        for r in self.loops[nloops:-1]:
            r.outer = getattr(r, 'outer', ()) + (lid,)
        # normal completion
        dany = FALSE
        if dead is not FALSE:
            s2 = fresh('s')
            upto = first if exits else N
            dany = any_(upto if not exits else min_(add(first, ONE), N) if first is not N else N, s2, subst(dead, {t: s2}))
        outs = []
        m_N = state_map(N)
        def close(m, tt, src):
            f = lambda x: rewrite_phi(subst(x, {t: tt}), m) if m else subst(x, {t: tt})
            out = {}
            for r, v in src.items():
                if r in S0 and v is S0[r]:
                    out[r] = v
                else:
                    out[r] = self.close_lists(vmapt(v, f), m, lvs, t, tt, r, S0, res)
            return out
        norm = dict(S0)
        for r, ph in phs.items():
            f = lambda x: rewrite_phi(x, m_N) if m_N else x
            norm[r] = self.close_lists(vmapt(ph, f), m_N, lvs, t, N, r, S0, res)
        # new objects created inside the body stay reachable
        if res['end'] is not None:
            for r, v in res['end'].s.items():
                if r not in norm and r[0] in ('new', 'obj'):
                    norm[r] = vmapt(v, lambda x: rewrite_phi(subst(x, {t: sub(N, ONE)}), m_N) if m_N else x)
        if res['head'] is not None:
            pass
        if hit is not TRUE:
            outs.append((not_(hit), norm))
        if exits:
            m_f = state_map(first)
            ff = lambda x: rewrite_phi(subst(x, {t: first}), m_f) if m_f else subst(x, {t: first})
            acc_prev = FALSE
            for e, kind, v, ss in exits:
                pe = subst(e, {t: first})
                if kind == 'cond':
                    src = {r: x for r, x in store.items()}
                    o = close(m_f, first, src)
                    outs.append((and_(hit, and_(pe, not_(acc_prev))) if len(exits) > 1 else hit, o))
                elif kind == 'brk':
                    o = close(m_f, first, ss)
                    outs.append((and_(hit, pe) if len(exits) > 1 else hit, o))
                else:
                    o = close(m_f, first, ss)
                    vv = None
                    if v is not None:
                        vv = vmapt(v, ff)
                    g = and_(hit, pe) if len(exits) > 1 else hit
                    fr.returns.append((and_(pc0, g, not_(dany), ended), vv, o))
        nx = self.merge_list(outs)
        if nx is None:
            return None
        live = nx.pc
        # drop the roots of the body
        nx.s = {r: v for r, v in nx.s.items() if r in S0 or r[0] in ('new', 'obj', 'static') or r[0] == 'sym'}
        has_ret = any(e[1] == 'ret' for e in exits)
        pc = pc0
        if has_ret:
            pc = and_(pc, live)
        if dany is not FALSE:
            pc = and_(pc, not_(dany))
        # a search loop without a bound has a state after it only if one of its exits is reached
        pc = and_(pc, ended)
        if pc is FALSE:
            return None
        nx.pc = pc
        return nx

    def close_lists(self, v, m, lvs, t, tt, r, S0, res):
        """replace list and map placeholders by their closed forms"""
        by = {l.name: l for l in lvs if isinstance(l, AppLeaf)}

        def w(x, idx=()):
            if isinstance(x, PhiL) and x.name in by:
                l = by[x.name]
                if l.closed is not None:
                    return vmapt(vsubst(l.closed, {t: tt}), lambda y: rewrite_phi(y, m) if m else y)
                # unknown list
                k = fresh('k')
                n = rewrite_phi(l.ph.n, m) if m else l.ph.n
                return ListV(n, k, vmapt(x.at(k), lambda y: self.hide(y, tt)))
            if isinstance(x, AppV):
                b = w(x.base)
                f = flat_list(AppV(b, x.items)) if isinstance(b, ListV) else AppV(b, [(c, w(y)) for c, y in x.items])
                return f
            if isinstance(x, ListV):
                return ListV(x.n, x.k, w(x.e))
            if isinstance(x, ObjV):
                return ObjV(x.cls, {k: w(y) for k, y in x.f.items()})
            if isinstance(x, TupV):
                return TupV([w(y) for y in x.xs])
            if isinstance(x, IteV):
                return mergev(x.c, w(x.a), w(x.b))
            if isinstance(x, MapV):
                srcs = []
                for q in x.srcs:
                    if q is not None and q[0] == 'phi':
                        srcs.extend(self.map_srcs(q[1], t, tt, m, lvs, S0, res))
                    else:
                        srcs.append(q)
                val = x.val
                if val is not None:
                    val = w(val)
                return MapV(x.k, x.dom, val, x.ordered, srcs)
            return x
        return w(v)

    def hide(self, y, tt):
        return y

    def map_srcs(self, name, t, tt, m, lvs, S0, res):
        """keys present after tt iterations: the initial ones and those added by each iteration"""
        # find entry and post map values by the placeholder name
        def find(v, out):
            if isinstance(v, MapV):
                out.append(v)
            elif isinstance(v, ObjV):
                for x in v.f.values():
                    find(x, out)
            elif isinstance(v, TupV):
                for x in v.xs:
                    find(x, out)
        if res['end'] is None:
            return [None]
        for r, pv in res['end'].s.items():
            if r not in S0:
                continue
            a, b = [], []
            find(S0[r], a)
            find(pv, b)
            if len(a) != len(b):
                continue
            for x, y in zip(a, b):
                if y.srcs and y.srcs[0] is not None and y.srcs[0][0] == 'phi' and y.srcs[0][1] == name:
                    out = list(x.srcs)
                    for q in y.srcs[1:]:
                        if q is None or q[0] == 'phi':
                            out.append(q)
                        elif q[1] is not None:
                            out.append(None)
                        else:
                            s = fresh('o')
                            f = lambda z: subst(rewrite_phi(z, {k: (ix, v) for k, (ix, v) in self._lastclosed(lvs, m, t).items()}), {t: s})
                            out.append((tt, s, f(q[2]), f(q[3])))
                    return out
                if y.srcs and y.srcs[0] is not None and y.srcs[0][0] != 'phi':
                    pass
        return [None]

    def _lastclosed(self, lvs, m, t):
        d = {}
        for l in lvs:
            if isinstance(l, Leaf) and l.closed is not None:
                d[l.name] = (l.idx, l.closed)
        return d


def _pn(y):
    if y.op == 'el':
        return y.a[0].a[0] if y.a[0].op in ('ten', 'tapp') else None
    if y.op in ('sym', 'app', 'ten', 'tapp'):
        return y.a[0]
    return None


def _replace(t, rep, memo=None):
    if memo is None:
        memo = {}
    r = rep.get(t)
    if r is not None:
        return r
    if t in memo:
        return memo[t]
    if t.op in BINDERS or t.op == 'mat' or not any(isinstance(x, T) for x in (t.a if t.op != 'poly' else ())) and t.op != 'poly':
        memo[t] = t
        return t
    r = rebuild(t, lambda x: _replace(x, rep, memo))
    memo[t] = r
    return r


class Own:
    """names of the placeholders of one loop"""
    def __init__(self, phn, phs):
        self.names = phn.cur

    def __contains__(self, x):
        return x in self.names or any(x.startswith(b + '.') for b in self.names)


class PhNames(dict):
    cur = frozenset()


class Engine(Stmts):
    def __init__(self, prog, hooks=None, trace=False):
        super().__init__(prog, hooks, trace)
        self.tstack = []
        self._asg = {}
        self._phn = PhNames()
        self._ownset = ()
        self.maxinfo = {}
