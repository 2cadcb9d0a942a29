"""Program model built from the extractor's JSON."""
import json, os


class Prog:
    def __init__(self, path_or_obj):
        d = json.load(open(path_or_obj)) if isinstance(path_or_obj, str) else path_or_obj
        self.fns = d['functions']
        self.classes = d['classes']
        self.types = d['types']
        self.errors = d['errors']
        self.byq = {}
        for f in self.fns:
            self.byq.setdefault(f['q'], []).append(f)
        self.cbyq = {}
        for c in self.classes:
            self.cbyq.setdefault(c['q'], []).append(c)

    # ---- types
    def ty(self, i):
        if i is None or i < 0:
            return {'c': 'other'}
        t = self.types[i]
        while t['c'] == 'ref':
            t = self.types[t['to']]
        return t

    def tyraw(self, i):
        return self.types[i] if i is not None and i >= 0 else {'c': 'other'}

    def is_ref(self, i):
        return i is not None and i >= 0 and self.types[i]['c'] == 'ref'

    def is_cref(self, i):
        return self.is_ref(i) and self.types[i].get('cref')

    def scal(self, t):
        """element class of an Eigen type: 'R','Z','B'"""
        s = self.ty(t.get('sc', -1))
        return {'int': 'Z', 'bool': 'B', 'enum': 'Z'}.get(s['c'], 'R')

    def rec(self, i):
        t = self.ty(i)
        return t.get('q', '') if t['c'] == 'rec' else ''

    def targ(self, t, k):
        """k-th template type argument (type index)"""
        ta = t.get('ta') or []
        return ta[k].get('T') if k < len(ta) else None

    # ---- classes
    def bases(self, ci):
        c = self.classes[ci]
        out = []
        for b in c.get('bases') or []:
            t = self.types[b]
            if t.get('cls') is not None:
                out.append(t['cls'])
        return out

    def mro(self, ci):
        out = [ci]
        for b in self.bases(ci):
            out += [x for x in self.mro(b) if x not in out]
        return out

    def all_fields(self, ci):
        fs = []
        for c in reversed(self.mro(ci)):
            fs += self.classes[c].get('fields') or []
        return fs

    def methods(self, ci, name):
        """candidate function ids by name, most derived first, overridden ones removed"""
        out, dead = [], set()
        for c in self.mro(ci):
            for m in self.classes[c].get('methods') or []:
                if m['n'] == name and m['id'] not in dead:
                    out.append(m['id'])
                dead.update(m.get('ov') or [])
        # template member functions are only in the function table
        for f in self.fns:
            if f.get('cls') in self.mro(ci) and f['q'].split('::')[-1] == name and f['idx'] not in out and f['idx'] not in dead:
                out.append(f['idx'])
        return out

    def final_overrider(self, fid, ci):
        """the function that runs when fid is called on an object of dynamic class ci"""
        seen = {fid}
        best = None
        mro = self.mro(ci)
        # walk from base to derived collecting overriders
        ch = True
        while ch:
            ch = False
            for c in mro:
                for m in self.classes[c].get('methods') or []:
                    if m['id'] not in seen and any(o in seen for o in (m.get('ov') or [])):
                        seen.add(m['id'])
                        ch = True
        for c in mro:
            for m in self.classes[c].get('methods') or []:
                if m['id'] in seen:
                    return m['id']
        return fid

    def ctors(self, ci):
        q = self.classes[ci]['q']
        last = q.split('::')[-1]
        return [f for f in self.fns if f.get('ctor') and f.get('cls') == ci and not f.get('cp')]

    def find_class(self, q, ta=None):
        cs = self.cbyq.get(q) or []
        cs = [c for c in cs if not c.get('incomplete')]
        return cs[0]['idx'] if cs else None

    def fn(self, q, n=None, pred=None):
        fs = [f for f in self.byq.get(q, []) if f.get('body') is not None]
        if n is not None:
            fs = [f for f in fs if len(f['ps']) == n]
        if pred:
            fs = [f for f in fs if pred(f)]
        return fs
