"""L-BFGS memory and two-loop recursion, as transitions of the search loop and of the two inner loops."""
from .opt import *


def vecs(l):
    return [z for z in l.leaves if hasattr(z, 'raw') and len(z.idx) == 2]


def scal(l):
    return [z for z in l.leaves if hasattr(z, 'raw') and not z.idx]


def at(t, i, j=ZERO):
    return subst(t, {I: i, J: j})


def memory(c, an):
    Q = Newton(c, an, 'backtracking')
    w, rec = Q.where, Q.loop
    if rec is None or not Q.call:
        return c.undecided('LBFGS', w, 'search loop not identified')
    m = Q.mem
    v = Q.call['vals']
    x0, g0, d0 = v[0], v[2], v[3]
    x1, g1 = Q.call['x'], Q.call['g']
    i, j, k = idx('i*', C_), idx('j*', m), fresh('k')
    good = le(ZERO, Q.call['ret'])
    cfg = Cfg(dict(dims(), mem=('int', 1, 4)), modes=(0,), trials=c.trials(24, 96))
    S = lambda a: sub(x1.at(a, ZERO), x0.at(a, ZERO))
    Y = lambda a: sub(g1.at(a, ZERO), g0.at(a, ZERO))
    # stored pairs: a matrix whose column `end` receives the difference
    def ring(diff):
        for z in vecs(rec):
            for q in scal(rec):
                if srt(q.ph) != 'Z':
                    continue
                e = eq(J, q.ph)
                if restrict(z.raw, e, False) is z.ph and equal(at(restrict(z.raw, e, True), i, q.ph), diff(i), cfg, True).kind == 'same':
                    return z, q
        return None, None
    ms, es = ring(S)
    my, ey = ring(Y)
    c.ob('LBFGS: the difference of points is stored in one column', w, 'same' if ms else 'diff', 'some matrix of the search loop gets x(k+1)-x(k) in the column of its write position and keeps the others', None if ms else 'no such store')
    c.ob('LBFGS: the difference of gradients is stored in one column', w, 'same' if my else 'diff', 'some matrix of the search loop gets g(k+1)-g(k) in the column of its write position and keeps the others', None if my else 'no such store')
    if not ms or not my:
        return
    c.ob('LBFGS: both differences share the write position', w, 'same' if es is ey else 'diff', 'write positions of the stored pairs', None if es is ey else 'different positions')
    end = es
    c.eq('LBFGS: the ring starts at its first column', w, end.init, ZERO, cfg, 'write position entering the loop')
    inr = Cfg(cfg.dom, assume=[lt(end.ph, m), le(ZERO, end.ph)], modes=(0,), trials=c.trials(40, 160))
    nxt = fn('imod', add(end.ph, ONE), m)
    c.eq('LBFGS: the write position advances around the ring', w, end.raw, nxt, inr, 'next write position', unknown_ok=True)
    for nm, z in (('points', ms), ('gradients', my)):
        c.eq('LBFGS: one row per weight in the stored %s' % nm, w, rowsof(rec, z, 0), C_, cfg, 'shape of the store', unknown_ok=True)
        c.eq('LBFGS: mem_size columns in the stored %s' % nm, w, rowsof(rec, z, 1), m, cfg, 'shape of the store', unknown_ok=True)
    # inner loops
    inner = [l for l in an.e.loops if rec.id in getattr(l, 'outer', ())]
    chain = []
    for l in inner:
        z = next((z for z in vecs(l) if any(mentions(z.raw, {ms.name}) or mentions(z.raw, {my.name}) for _ in (0,)) and mentions(z.raw, {z.name}) and not self_store(z)), None)
        if z is not None:
            chain.append((l, z))
    if len(chain) != 2:
        return c.undecided('LBFGS: two-loop recursion', w, '%d recursion loops found' % len(chain))
    (l1, q1), (l2, q2) = chain
    cnt = rec.t                                    # pairs stored before this one
    bound = ite(lt(add(cnt, ONE), m), add(cnt, ONE), m)
    for nm, l in (('first', l1), ('second', l2)):
        c.eq('LBFGS: the %s loop visits every stored pair once' % nm, w, l.N, bound, cfg, 'trip count equals min(mem_size, pairs stored)', unknown_ok=True)
    pos1 = [z for z in scal(l1) if srt(z.ph) == 'Z' and z.closed is None]
    pos2 = [z for z in scal(l2) if srt(z.ph) == 'Z' and z.closed is None]
    alp = [z for z in vecs(l1) if z is not q1 and self_store(z)]
    if len(pos1) != 1 or len(pos2) != 1 or len(alp) != 1:
        return c.undecided('LBFGS: two-loop recursion', w, 'positions and coefficients not identified (%d, %d, %d)' % (len(pos1), len(pos2), len(alp)))
    p1, p2, al = pos1[0], pos2[0], alp[0]
    SM = lambda a, b: ite(eq(b, end.ph), S(a), subst(ms.ph, {I: a, J: b}))
    YM = lambda a, b: ite(eq(b, end.ph), Y(a), subst(my.ph, {I: a, J: b}))
    dot = lambda f, g: sum_(C_, k, mul(f(k), g(k)))
    # the inner products, however they are kept
    ysv = [z for z in vecs(rec) if z is not ms and z is not my and any(mentions(q1.raw, {z.name}) for _ in (0,))]
    ysv = [z for z in ysv if self_store(z)]

    def yts(t):
        """replace the stored inner products by what they stand for, old pairs included"""
        if not ysv:
            return t
        z = ysv[0]
        a = fresh('a')
        return rewrite_phi(t, {z.name: ((I, J), sum_(C_, a, mul(subst(ms.ph, {I: a, J: I}), subst(my.ph, {I: a, J: I}))))})
    if ysv:
        z = ysv[0]
        c.eq('LBFGS: the stored inner product belongs to the stored pair', w, at(restrict(z.raw, eq(I, end.ph), True), end.ph), dot(S, Y), cfg, 'inner product stored at the write position', unknown_ok=True)
        c.ob('LBFGS: other inner products are kept', w, 'same' if restrict(z.raw, eq(I, end.ph), False) is z.ph else 'unknown', 'store at the write position only')
    ring_ = [lt(end.ph, m), le(ZERO, end.ph)]
    c1 = Cfg(cfg.dom, assume=ring_ + [lt(p1.ph, m), le(ZERO, p1.ph)], modes=(0,), trials=c.trials(40, 160))
    jj = p1.raw
    prev = fn('imod', add(p1.ph, m, num(-1)), m)
    c.eq('LBFGS: the first loop starts after the newest pair', w, fn('imod', add(p1.init, m, num(-1)), m), end.ph, inr, 'position before the first step of the first loop', unknown_ok=True)
    c.eq('LBFGS: the first loop goes back in time', w, jj, prev, c1, 'position of the next step of the first loop', unknown_ok=True)
    q = lambda a: at(q1.ph, a)
    alpha = div(dot(lambda a: SM(a, prev), q), dot(lambda a: SM(a, prev), lambda a: YM(a, prev)))
    c.eq('LBFGS: the first loop starts from the negative current gradient', w, at(q1.init, i), neg(g1.at(i, ZERO)), cfg, 'direction entering the first loop', unknown_ok=True)
    c.eq('LBFGS: first loop step', w, yts(at(q1.raw, i)), sub(q(i), mul(alpha, YM(i, prev))), c1, 'q - alpha y with alpha = s.q / s.y of the visited pair', unknown_ok=True)
    c.eq('LBFGS: first loop coefficients are kept per pair', w, yts(at(al.raw, j)), ite(eq(j, prev), alpha, at(al.ph, j)), c1, 'coefficient stored at the visited position', unknown_ok=True)
    # between the loops
    yy = dot(Y, Y)
    r1 = [z for z in walk(at(q2.init, i)) if z.op in ('app', 'el') and str(leafname(z)).startswith('?' + q1.name[1:])]
    fin = app('?' + q1.name[1:] + '@', 'R', rec.t, l1.N, i, ZERO)
    c.eq('LBFGS: scaling by s.y / y.y of the newest pair between the loops', w, at(q2.init, i), mul(fin, div(dot(S, Y), yy)), cfg, 'direction entering the second loop', unknown_ok=True)
    c2 = Cfg(cfg.dom, assume=ring_ + [lt(p2.ph, m), le(ZERO, p2.ph)], modes=(0,), trials=c.trials(40, 160))
    fin_p = app('?' + p1.name[1:] + '@', 'Z', rec.t, l1.N)
    c.eq('LBFGS: the second loop starts at the oldest pair', w, p2.init, fin_p, cfg, 'position entering the second loop is where the first loop ended', unknown_ok=True)
    c.eq('LBFGS: the second loop goes forward in time', w, p2.raw, fn('imod', add(p2.ph, ONE), m), c2, 'position of the next step of the second loop', unknown_ok=True)
    r = lambda a: at(q2.ph, a)
    b = p2.ph
    beta = div(dot(lambda a: YM(a, b), r), dot(lambda a: SM(a, b), lambda a: YM(a, b)))
    alf = app('?' + al.name[1:] + '@', 'R', rec.t, l1.N, b, ZERO)
    c.eq('LBFGS: second loop step', w, yts(at(q2.raw, i)), add(r(i), mul(sub(alf, beta), SM(i, b))), c2, 'r + (alpha - beta) s with beta = y.r / s.y of the visited pair', unknown_ok=True)
    # the direction of the next search
    dz = [z for z in vecs(rec) if z.path == tuple_path(Q)]
    dst = Q.call['args'][3]
    nd = Q.e.read(dst, St(rec.end.s, TRUE))
    fin2 = lambda a: app('?' + q2.name[1:] + '@', 'R', rec.t, l2.N, a, ZERO)
    nm = 'LBFGS: the next search direction is the result of the recursion'
    c.eqmat(nm, w, nd, None, None, lambda a, b: fin2(a), cfg, 'direction at the end of the iteration', unknown_ok=True)
    first = Q.e.read(dst, St(rec.entry, TRUE))
    X, y = toterm(Q.X), toterm(mat(R_, ONE, lambda a, b: Q.y.at(a, ZERO)))
    c.eqmat('LBFGS: the first direction is the negative gradient', w, first, None, None,
            lambda a, b: neg(el(tapp('Loss.gradient', 'R', X, y, toterm(mat(C_, ONE, lambda a, b: Q.x0.at(a, ZERO)))), a, ZERO)), cfg, 'direction entering the loop', unknown_ok=True)
    gf = Q.e.read(Q.call['args'][2], St(rec.entry, TRUE))
    c.eqmat('LBFGS: the first gradient is taken at the starting point', w, gf, None, None,
            lambda a, b: el(tapp('Loss.gradient', 'R', X, y, toterm(mat(C_, ONE, lambda a, b: Q.x0.at(a, ZERO)))), a, ZERO), cfg, 'gradient entering the loop', unknown_ok=True)
    sf = Q.e.read(Q.call['args'][4], St(rec.entry, TRUE))
    c.holds('LBFGS: the first trial step is positive', w, lt(ZERO, sf), cfg, 'step entering the loop')
    sn = Q.e.read(Q.call['args'][4], St(rec.end.s, TRUE))
    c.holds('LBFGS: later trial steps are positive', w, lt(ZERO, sn), cfg, 'step at the end of the iteration', unknown_ok=True)


def tuple_path(Q):
    return ()


def self_store(z):
    """a vector written at one position per iteration"""
    for c in walk(z.raw):
        if c.op == 'eq0' and (I in c.a[0].fs) and restrict(z.raw, c, False) is z.ph:
            return True
    return False


def rowsof(rec, z, k):
    v = rec.store.get(z.path[0]) if hasattr(rec.store, 'get') else None
    for _, f in z.path[1:]:
        v = v.f[f] if isinstance(v, ObjV) else v.xs[f]
    return (v.r, v.c)[k]


def run(c):
    c.prefetch('opt')
    an = c.an('opt')
    c.guarded('LBFGS', memory, c, an)
