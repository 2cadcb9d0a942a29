"""Call graph over the extracted program: syntactic walk of bodies, initialisers and lambdas."""


def nodes(x):
    """all AST nodes below x, in source order"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(reversed(list(y.values())))
        elif isinstance(y, list):
            st.extend(reversed(y))


def parts_of(f):
    return [f.get('body'), [i.get('e') for i in f.get('inits') or []]]


def calls(f):
    """(node, callee id or None, qualified name) of every call, construction and operator in a function"""
    for p in parts_of(f):
        for n in nodes(p):
            fn = n.get('fn')
            if isinstance(fn, dict):
                yield n, fn.get('id'), fn.get('q') or ''


class Graph:
    def __init__(self, prog):
        self.p = prog
        self.over = {}
        for c in prog.classes:
            for m in c.get('methods') or []:
                for o in m.get('ov') or []:
                    self.over.setdefault(o, set()).add(m['id'])
        self.memo = {}

    def targets(self, i):
        """functions a call to i can run (all overriders)"""
        out, st = set(), [i]
        while st:
            k = st.pop()
            if k in out or k is None:
                continue
            out.add(k)
            st += list(self.over.get(k, ()))
        return out

    def callees(self, i):
        if i not in self.memo:
            f = self.p.fns[i]
            ids, ext = set(), []
            for n, k, q in calls(f):
                if k is not None:
                    ids |= self.targets(k)
                else:
                    ext.append((q, n))
            self.memo[i] = (ids, ext)
        return self.memo[i]

    def reach(self, i, stop=()):
        """{function: caller} reachable from i"""
        par, st = {i: None}, [i]
        while st:
            k = st.pop()
            for j in self.callees(k)[0]:
                if j not in par and self.p.fns[j]['q'] not in stop:
                    par[j] = k
                    st.append(j)
        return par

    def path(self, par, j):
        out = []
        while j is not None:
            out.append(self.p.fns[j]['q'].split('::')[-1])
            j = par[j]
        return ' <- '.join(out)
