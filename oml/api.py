"""Entry points used by the checks: build symbolic arguments, run a function abstractly, query results."""
import json
from .stmts import *
from .prog import Prog


class Out:
    """result of an abstract run"""
    def __init__(self, e, st, ret, dead=False):
        self.e, self.st, self.ret, self.dead = e, st, ret, dead
        self.pc = st.pc

    def val(self, lv=None):
        v = self.ret if lv is None else lv
        return self.e.read(v, self.st) if self.e._is_lv(v) else v


class An:
    def __init__(self, path, hooks=None):
        self.p = path if isinstance(path, Prog) else Prog(path)
        self.hooks = hooks or {}
        self.new()

    def new(self, hooks=None):
        self.e = Engine(self.p, hooks if hooks is not None else self.hooks)
        self.st = St({}, TRUE)
        return self

    # ---- symbolic inputs
    def mat(self, name, r=None, c=None, sort='R'):
        r = lift(r) if r is not None else sym(name + '.r', 'Z', 'dim')
        c = lift(c) if c is not None else sym(name + '.c', 'Z', 'dim')
        return MatV(r, c, el(ten(name, sort), I, J))

    def vec(self, name, n=None, sort='R'):
        n = lift(n) if n is not None else sym(name + '.r', 'Z', 'dim')
        return MatV(n, ONE, el(ten(name, sort), I, ZERO))

    def row(self, name, n=None, sort='R'):
        n = lift(n) if n is not None else sym(name + '.c', 'Z', 'dim')
        return MatV(ONE, n, el(ten(name, sort), ZERO, J))

    def lst(self, name, n=None, sort='R'):
        n = lift(n) if n is not None else sym(name + '.n', 'Z', 'dim')
        k = fresh('k')
        return ListV(n, k, app(name, sort, k))

    def lst2(self, name, n=None, m=None, sort='R'):
        n = lift(n) if n is not None else sym(name + '.n', 'Z', 'dim')
        k, j = fresh('k'), fresh('k')
        mm = lift(m) if m is not None else app(name + '.len', 'Z', k)
        return ListV(n, k, ListV(mm, j, app(name, sort, k, j)))

    def root(self, v, name='in'):
        return self.e.root(name, self.st, v)

    # ---- lookup
    def fns(self, q, pred=None):
        out = [f for f in self.p.fns if f['q'] == q and f.get('body') is not None]
        return [f for f in out if pred is None or pred(f)]

    def cls(self, q, pred=None):
        out = [c for c in self.p.classes if c['q'] == q and (pred is None or pred(c))]
        return out

    # ---- runs
    def run(self, f, args, this=None):
        st = self.st
        node = {'l': f['line']}
        try:
            r = self.e.call_fn_static(f['idx'], this, [self.root(a) if not self.e._is_lv(a) else a for a in args], st, node)
        except Dead:
            return Out(self.e, St(st.s, FALSE), None, True)
        return Out(self.e, st, r)

    def obj(self, ci, args=None, ctor=None):
        """construct an object (default: constructor with the given arguments)"""
        lv = self.e.construct(ci, ctor, [self.root(a) if not self.e._is_lv(a) else a for a in (args or [])], self.st, {'l': 0})
        return lv

    def symobj(self, ci, name='self'):
        return self.root(ObjV(ci, {f['n']: self.e.sym_value(f['t'], name + '.' + f['n']) for f in self.p.all_fields(ci)}), name)

    def call(self, lv, name, args=(), pred=None):
        """call a member function by name (most derived), overload by arity and predicate"""
        v = self.e.read(lv, self.st)
        cands = []
        for c in self.p.mro(v.cls):
            for m in self.p.classes[c].get('methods') or []:
                if m['n'] != name or m.get('id') is None:
                    continue
                f = self.p.fns[m['id']]
                if len(f['ps']) == len(args) and f.get('body') is not None and (pred is None or pred(f)):
                    cands.append(f)
            if cands:
                break
        if not cands:
            raise KeyError('%s::%s/%d' % (self.p.classes[v.cls]['q'], name, len(args)))
        return self.run(cands[0], list(args), lv)

    def events(self, kind):
        return [e for e in self.e.events if e.kind == kind]
