"""Calls: our functions are inlined, known foreign ones modelled, the rest havocs what it may write."""
from .exprs import *


FUNCTORS = {'std::less': '<', 'std::greater': '>', 'std::less_equal': '<=', 'std::greater_equal': '>=', 'std::equal_to': '==', 'std::plus': '+', 'std::minus': '-', 'std::multiplies': '*'}
MUTATORS = {'push_back', 'emplace_back', 'pop_back', 'push', 'emplace', 'pop', 'insert', 'erase', 'clear', 'resize', 'assign', 'reserve', 'setZero', 'setOnes', 'setConstant', 'push_front', 'pop_front', 'swap', 'reset'}

class Calls(Exprs):
    # ------------------------------------------------------------ our functions
    def bind_args(self, f, args, st):
        env = {}
        for i, p in enumerate(f['ps']):
            if i < len(args):
                v = args[i]
            elif p.get('def') is not None:
                v = self.ev(p['def'], st, Frame(f, {}, None))
            else:
                v = self.sym_value(p['t'], '?arg')
            isref = self.p.is_ref(p['t'])
            if isref and self._is_lv(v):
                env[p['id']] = v
            else:
                if self._is_lv(v):
                    v = self.read(v, st)
                if isinstance(v, AxisV) or isinstance(v, TriV):
                    pass
                v = self.convert(v, p['t'], st)
                env[p['id']] = self.root(p['n'] or 'arg', st, v)
        return env

    def convert(self, v, ti, st):
        t = self.p.ty(ti)
        if t['c'] == 'eig' and t.get('plain'):
            return self.to_mat(v, t, st)
        return self.coerce(v, ti)

    def call_fn(self, fid, this, args, st, node):
        """inline a function of the analysed program; returns value or lvalue"""
        f = self.p.fns[fid]
        q = f['q']
        h = self.hooks.get(q) or self.hooks.get(q.split('::')[-1] + '()')
        if h is not None:
            r = h(self, f, this, args, st, node)
            if r is not NotImplemented:
                return r
        if this is not None and f.get('virt'):
            obj = self.read(this, st)
            if isinstance(obj, ObjV) and isinstance(obj.cls, int):
                g = self.p.final_overrider(fid, obj.cls)
                if g != fid:
                    return self.call_fn_static(g, this, args, st, node)
        return self.call_fn_static(fid, this, args, st, node)

    def call_fn_static(self, fid, this, args, st, node):
        f = self.p.fns[fid]
        q = f['q']
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, f, this, args, st, node)
            if r is not NotImplemented:
                return r
        if f.get('body') is None:
            return self.extern(f, this, args, st, node)
        if f.get('insrc'):
            self.analysed.add((q, f['file'], f['line']))
        depth = sum(1 for fr in self.stack if fr.f is f)
        if depth >= self.inline_depth.get(q, 1) or len(self.stack) > self.MAXDEPTH:
            return self.recurse(f, this, args, st, node)
        env = self.bind_args(f, args, st)
        fr = Frame(f, env, this, f.get('cls'))
        fr.retref = self.p.is_ref(f.get('ret', -1))
        self.ctx.append(st.pc)
        self.stack.append(fr)
        try:
            s2 = St(st.s, TRUE)
            if f.get('ctor'):
                try:
                    self.ctor_inits(f, fr, s2)
                    end = self.exec(f['body'], s2, fr)
                except Dead:
                    end = None
            else:
                end = self.exec(f['body'], s2, fr)
            if end is not None:
                rt = self.p.tyraw(f.get('ret', -1))
                if rt['c'] != 'void' and not f.get('ctor') and not f.get('dtor') and q.split('::')[-1] != 'main':
                    self.event('noreturn', end, {'l': f.get('endline', f['line'])})
                    fr.returns.append((end.pc, UninitV('noreturn:%s@%d' % (q, self.uid())), end.s))
                else:
                    fr.returns.append((end.pc, None, end.s))
        finally:
            self.stack.pop()
            self.ctx.pop()
        return self.finish(fr, st)

    def finish(self, fr, st):
        rs = [r for r in fr.returns if r[0] is not FALSE]
        if not rs:
            st.pc = FALSE
            raise Dead()
        pc, v, s = rs[-1]
        tot = pc
        acc = St(s, TRUE)
        for pc2, v2, s2 in reversed(rs[:-1]):
            a = St(dict(s2), TRUE)
            m = St({}, TRUE)
            self.merge_into(m, pc2, a, acc)
            if v is not None or v2 is not None:
                if self._is_lv(v) and self._is_lv(v2):
                    v = v if v == v2 and isinstance(v, LV) else IteV(pc2, v2, v)
                else:
                    x = self.read(v2, a) if self._is_lv(v2) else v2
                    y = self.read(v, acc) if self._is_lv(v) else v
                    v = mergev(pc2, x, y) if x is not None and y is not None else (x if y is None else y)
            acc = m
            tot = or_(tot, pc2)
        st.s = acc.s
        st.pc = and_(st.pc, tot)
        return v

    def extern(self, f, this, args, st, node):
        """declared-only function (namespace sym): a pure uninterpreted function of its arguments"""
        q = f['q']
        ts = []
        for a in args:
            ts.append(toterm(self.read(a, st) if self._is_lv(a) else a))
        self.event('extern', st, node, q=q, args=ts)
        n = q.split('::')[-2] + '.' + q.split('::')[-1]
        r = self.p.ty(f.get('ret', -1))
        if r['c'] == 'eig':
            # same shape as the last matrix argument
            shp = None
            for a in reversed(args):
                v = self.read(a, st) if self._is_lv(a) else a
                if isinstance(v, MatV):
                    shp = v
                    break
            if shp is not None:
                return MatV(shp.r, shp.c, el(tapp(n, self.p.scal(r), *ts), I, J))
        if r['c'] in ('float', 'int', 'bool'):
            return app(n, {'float': 'R', 'int': 'Z', 'bool': 'B'}[r['c']], *ts)
        for i, p in enumerate(f['ps']):
            if self.p.is_ref(p['t']) and not self.p.is_cref(p['t']) and i < len(args) and self._is_lv(args[i]):
                v = self.read(args[i], st)
                if isinstance(v, MatV):
                    self.write(args[i], MatV(v.r, v.c, el(tapp(n + '.%d' % i, 'R', *ts), I, J)), st)
                else:
                    self.write(args[i], app(n + '.%d' % i, 'R', *ts), st)
        if r['c'] == 'void':
            return None
        return self.unknown_value(f.get('ret', -1), n, st)

    def recurse(self, f, this, args, st, node):
        q = f['q']
        vals = [self.read(a, st) if self._is_lv(a) else a for a in args]
        self.event('recurse', st, node, q=q, args=vals, lvs=list(args), store=dict(st.s), this=this)
        self.recursion[q] = self.recursion.get(q, 0) + 1
        h = self.hooks.get('rec:' + q)
        if h is not None:
            return h(self, f, this, args, st, node)
        for i, p in enumerate(f['ps']):
            if self.p.is_ref(p['t']) and not self.p.is_cref(p['t']) and i < len(args) and self._is_lv(args[i]):
                self.havoc(args[i], st, 'rec')
        if self.p.tyraw(f.get('ret', -1))['c'] == 'void':
            return None
        return self.unknown_value(f['ret'], 'rec:' + q.split('::')[-1], st)

    def havoc(self, lv, st, why):
        v = self.read(lv, st)
        n = '?%s#%d' % (why, self.uid())
        if isinstance(v, MatV):
            nv = MatV(sym(n + '.r', 'Z', 'dim'), ONE if v.c is ONE else sym(n + '.c', 'Z', 'dim'), el(ten(n), I, J))
        elif isinstance(v, T):
            nv = sym(n, srt(v))
        elif isinstance(v, UninitV):
            nv = sym(n)
        elif isinstance(v, (ListV, PhiL, AppV)):
            f = flat_list(v)
            if isinstance(f, ListV):
                k = fresh('k')
                nv = ListV(sym(n + '.n', 'Z', 'nn'), k, self.like(f.at(k), n, (k,)))
            else:
                nv = OpqV(n)
        else:
            nv = OpqV(n)
        self.write(lv, nv, st)

    def like(self, v, name, idx):
        """fresh value shaped like v, as a function of idx"""
        if isinstance(v, UninitV):
            return app(name, 'R', *idx) if idx else sym(name)
        if isinstance(v, T):
            return app(name, srt(v), *idx) if idx else sym(name, srt(v))
        if isinstance(v, MatV):
            def dim(d, s):
                if d.op == 'num':
                    return d
                return app(name + s, 'Z', *idx) if idx else sym(name + s, 'Z', 'nn')
            return MatV(dim(v.r, '.r'), dim(v.c, '.c'), el(tapp(name, srt(v.body), *idx) if idx else ten(name, srt(v.body)), I, J))
        if isinstance(v, TupV):
            return TupV([self.like(x, name + '.%d' % i, idx) for i, x in enumerate(v.xs)])
        if isinstance(v, ObjV):
            return ObjV(v.cls, {k: self.like(x, name + '.' + k, idx) for k, x in v.f.items()})
        if isinstance(v, (ListV, PhiL, AppV)):
            f = flat_list(v)
            if isinstance(f, AppV):
                f = self.flatten_app(f)
            if isinstance(f, (ListV, PhiL)):
                k = fresh('k')
                return ListV(app(name + '.n', 'Z', *idx) if idx else sym(name + '.n', 'Z', 'nn'), k, self.like(f.at(k), name, idx + (k,)))
        if isinstance(v, IteV) and not self.ptrlike(v):
            return self.like(v.a if not isinstance(v.a, UninitV) else v.b, name, idx)
        return OpqV(name, idx)

    # ------------------------------------------------------------ objects
    def class_default(self, ci, lv, st):
        pass

    def construct(self, ci, ctor, args, st, node, lv=None):
        """build an object of class ci; ctor = function record or None (pick by arity)"""
        if lv is None:
            lv = self.root('obj', st, ObjV(ci, {}))
        else:
            if not isinstance(self.read(lv, st), ObjV):
                self.write(lv, ObjV(ci, {}), st)
        if ctor is None:
            cs = [f for f in self.p.ctors(ci)]
            best = [f for f in cs if len(f['ps']) == len(args) and f.get('body') is not None]
            if not best:
                best = [f for f in cs if len(f['ps']) >= len(args) and all(p.get('def') is not None or p.get('hasdef') for p in f['ps'][len(args):]) and f.get('body') is not None]
            if len(best) > 1:
                def score(f):
                    s = 0
                    for p, a in zip(f['ps'], args):
                        v = self.read(a, st) if self._is_lv(a) else a
                        c = self.p.ty(p['t'])['c']
                        if isinstance(v, T):
                            ok = {'S': c == 'rec', 'B': c == 'bool', 'Z': c in ('int', 'float'), 'R': c == 'float'}[srt(v)]
                        elif isinstance(v, MatV):
                            ok = c == 'eig'
                        elif isinstance(v, ObjV):
                            ok = c == 'rec' and (self.p.ty(p['t']).get('cls') in self.p.mro(v.cls) if isinstance(v.cls, int) else True)
                        else:
                            ok = c == 'rec'
                        s += 1 if ok else 0
                    return s
                best.sort(key=lambda f: -score(f))
            ctor = best[0] if best else None
        if ctor is not None and ctor.get('body') is not None and (ctor.get('inits') is not None):
            self.call_fn_static(ctor['idx'], lv, args, st, node)
            return lv
        # implicit: default members
        fr = Frame({'q': self.p.classes[ci]['q'], 'file': '?', 'line': 0}, {}, lv, ci)
        for c in reversed(self.p.mro(ci)):
            for f in self.p.classes[c].get('fields') or []:
                v = self.ev(f['init'], st, fr) if f.get('init') else self.default(f['t'], st, f['n'])
                self.write(lv.step('f', f['n']), v, st)
        return lv

    def ctor_inits(self, f, fr, st):
        done = set()
        for i in f.get('inits') or []:
            if 'f' in i:
                done.add(i['f'])
                t = None
                for fl in self.p.classes[f['cls']].get('fields') or []:
                    if fl['n'] == i['f']:
                        t = fl['t']
                v = self.ev(i['e'], st, fr) if i.get('e') else self.default(t, st, i['f'])
                if v is None:
                    v = OpqV('?init')
                if t is not None:
                    v = self.convert(v, t, st)
                self.write(fr.this.step('f', i['f']), v, st)
            elif 'base' in i:
                t = self.p.ty(i['base'])
                if t.get('cls') is not None and i.get('e'):
                    self.ctor_into(i['e'], t['cls'], fr.this, st, fr)
            elif i.get('deleg') is not None or 'deleg' in i:
                self.ctor_into(i['e'], f['cls'], fr.this, st, fr)
                return
        for fl in self.p.classes[f['cls']].get('fields') or []:
            if fl['n'] not in done:
                v = self.ev(fl['init'], st, fr) if fl.get('init') else self.default(fl['t'], st, fl['n'])
                self.write(fr.this.step('f', fl['n']), v, st)

    def ctor_into(self, e, ci, lv, st, fr):
        if e['k'] == 'ctor':
            args = [self.evarg(a, st, fr) for a in e['a']]
            fid = e['fn'].get('id')
            if fid is not None and self.p.fns[fid].get('body') is not None and not self.p.fns[fid].get('impl'):
                self.call_fn_static(fid, lv, args, st, e)
                return
            # implicit base constructor: default members of that base
            fr2 = Frame({'q': self.p.classes[ci]['q'], 'file': '?', 'line': 0}, {}, lv, ci)
            for c in reversed(self.p.mro(ci)):
                for f in self.p.classes[c].get('fields') or []:
                    v = self.ev(f['init'], st, fr2) if f.get('init') else self.default(f['t'], st, f['n'])
                    self.write(lv.step('f', f['n']), v, st)

    def evarg(self, a, st, fr):
        """argument: keep lvalues (for reference parameters)"""
        return self.evx(a, st, fr)

    def x_ctor(self, e, st, fr):
        t = self.p.ty(e['t'])
        fnr = e.get('fn') or {}
        if t['c'] == 'eig':
            return self.eig_ctor(t, e, st, fr)
        if t['c'] == 'rec':
            if t.get('cls') is not None and fnr.get('id') is not None:
                if fnr.get('cp') and len(e['a']) == 1:
                    return self.ev(e['a'][0], st, fr)
                args = [self.evarg(a, st, fr) for a in e['a']]
                h = self.hooks.get('ctor:' + t['q'])
                if h is not None:
                    r = h(self, t, args, st, e)
                    if r is not NotImplemented:
                        return r
                f = self.p.fns[fnr['id']]
                lv = self.construct(t['cls'], f if f.get('body') is not None else None, args, st, e)
                return lv
            return self.std_ctor(t, e, st, fr)
        if e['a']:
            return self.ev(e['a'][0], st, fr)
        return self.default(e['t'], st, 'tmp')

    # ------------------------------------------------------------ lambdas and callables
    def apply(self, f, args, st, node, fr=None):
        """call a lambda / function value with abstract arguments"""
        if self._is_lv(f):
            f = self.read(f, st)
        if isinstance(f, FnV):
            if 'functor' in f.ref:
                x, y = [self.read(a, st) if self._is_lv(a) else a for a in args]
                q = f.ref['functor']
                if isinstance(x, TupV):
                    return self.less(x, y) if q == 'std::less' else (self.less(y, x) if q == 'std::greater' else OpqV('?callable'))
                return self.binop(FUNCTORS[q], x, y, node, st)
            if f.ref.get('id') is not None:
                r = self.call_fn(f.ref['id'], None, args, st, node)
                return self.read(r, st) if self._is_lv(r) else r
            return self.std_call(f.ref, [self.read(a, st) if self._is_lv(a) else a for a in args], st, node, None)
        if isinstance(f, LamV):
            node2 = f.node
            if 'specs' in node2:
                sp = [s for s in node2['specs'] if len(s['ps']) == len(args)]
                if not sp:
                    return OpqV('?lambda')
                c = sp[0]
                if len(sp) > 1:
                    # choose by scalar class of the first argument
                    v0 = self.read(args[0], st) if self._is_lv(args[0]) else args[0]
                    for s in sp:
                        tc = self.p.ty(s['ps'][0]['t'])['c']
                        if isinstance(v0, MatV) == (tc == 'eig'):
                            c = s
                            break
            elif 'generic_unresolved' in node2 or node2.get('body') is None:
                return OpqV('?lambda')
            else:
                c = node2
            ff = {'q': self.fname(), 'ps': c['ps'], 'ret': c.get('ret', -1), 'file': self.stack[-1].f.get('file', '?') if self.stack else '?', 'line': node2.get('l', 0)}
            env = dict(f.env)
            env.update(self.bind_args(ff, args, st))
            fr2 = Frame(ff, env, f.this)
            fr2.retref = self.p.is_ref(c.get('ret', -1))
            self.ctx.append(st.pc)
            self.stack.append(fr2)
            try:
                end = self.exec(c['body'], St(st.s, TRUE), fr2)
                if end is not None:
                    if self.p.tyraw(c.get('ret', -1))['c'] != 'void':
                        self.event('noreturn', end, {'l': c.get('body', {}).get('el', node2.get('l', 0))})
                        fr2.returns.append((end.pc, UninitV('noreturn:lambda@%d' % self.uid()), end.s))
                    else:
                        fr2.returns.append((end.pc, None, end.s))
            finally:
                self.stack.pop()
                self.ctx.pop()
            r = self.finish(fr2, st)
            return r
        return OpqV('?callable', deps_of(f)[:4])

    def applyv(self, f, args, st, node):
        r = self.apply(f, args, st, node)
        return self.read(r, st) if self._is_lv(r) else r

    # ------------------------------------------------------------ call expressions
    def split(self, v, st, f):
        """run f on every alternative of a gated value, merging effects"""
        if isinstance(v, IteV):
            s1, s2 = st.clone(), st.clone()
            s1.pc, s2.pc = and_(st.pc, v.c), and_(st.pc, not_(v.c))
            a = b = None
            d1 = d2 = False
            try:
                if s1.pc is FALSE:
                    raise Dead()
                a = self.split(v.a, s1, f)
            except Dead:
                d1 = True
            try:
                if s2.pc is FALSE:
                    raise Dead()
                b = self.split(v.b, s2, f)
            except Dead:
                d2 = True
            if d1 and d2:
                raise Dead()
            if d1 or d2:
                s = s2 if d1 else s1
                st.s, st.pc = s.s, s.pc
                return b if d1 else a
            if self._is_lv(a) and self._is_lv(b):
                r = a if isinstance(a, LV) and a == b else IteV(v.c, a, b)
            elif a is None or b is None:
                r = None
            else:
                r = mergev(v.c, self.read(a, s1) if self._is_lv(a) else a, self.read(b, s2) if self._is_lv(b) else b)
            self.merge_into(st, v.c, s1, s2)
            st.pc = or_(s1.pc, s2.pc)
            return r
        return f(v, st)

    def x_mcall(self, e, st, fr):
        fnr = e.get('fn') or {}
        name = fnr.get('q', '?').split('::')[-1]
        ob = e['obj']
        bt = self.p.tyraw(ob.get('t'))
        base = self.evx(ob, st, fr)
        if bt['c'] == 'ptr' or (isinstance(base, PtrV)) or (isinstance(base, IteV) and self.ptrlike(base)):
            pv = self.read(base, st) if self._is_lv(base) else base
            if isinstance(pv, (PtrV, IteV, UninitV, OpqV)) and (bt['c'] == 'ptr' or isinstance(pv, PtrV)) and fnr.get('id') is not None:
                base = self.deref(pv, st, e)
        if fnr.get('id') is not None:
            args = [self.evarg(a, st, fr) for a in e['a']]
            if not self._is_lv(base):
                base = self.root('tmp', st, base)
            return self.split(base, st, lambda b, s: self.call_fn(fnr['id'], b, args, s, e))
        if name in MUTATORS and isinstance(base, IteV) and self._is_lv(base):
            return self.split(base, st, lambda b, s: self.foreign_method(name, fnr, b, e, s, fr))
        return self.foreign_method(name, fnr, base, e, st, fr)

    def x_call(self, e, st, fr):
        fnr = e.get('fn')
        if fnr is None:
            f = self.ev(e['callee'], st, fr) if e.get('callee') else None
            args = [self.evarg(a, st, fr) for a in e['a']]
            return self.apply(f, args, st, e)
        if fnr.get('id') is not None:
            args = [self.evarg(a, st, fr) for a in e['a']]
            return self.call_fn(fnr['id'], None, args, st, e)
        args = [self.evx(a, st, fr) for a in e['a']]
        return self.std_call(fnr, args, st, e, fr)

    def x_opcall(self, e, st, fr):
        fnr = e.get('fn') or {}
        op = e['op']
        if fnr.get('id') is not None:
            args = [self.evarg(a, st, fr) for a in e['a']]
            f = self.p.fns[fnr['id']]
            if e.get('memop') and not f.get('st'):
                if f.get('impl') or f.get('body') is None:
                    if op == '=':
                        v = self.read(args[1], st) if self._is_lv(args[1]) else args[1]
                        self.write(args[0], v, st, e)
                        return args[0]
                b = args[0] if self._is_lv(args[0]) else self.root('tmp', st, args[0])
                return self.split(b, st, lambda bb, s: self.call_fn(fnr['id'], bb, args[1:], s, e))
            return self.call_fn(fnr['id'], None, args, st, e)
        q = fnr.get('q', '')
        args = [self.evx(a, st, fr) for a in e['a']]
        # lambda call
        if op == '()':
            f = self.read(args[0], st) if self._is_lv(args[0]) else args[0]
            if isinstance(f, (LamV, FnV)):
                return self.apply(f, args[1:], st, e)
        return self.foreign_op(op, q, args, e, st, fr)
