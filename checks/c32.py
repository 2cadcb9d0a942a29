"""Container helpers read and write only existing elements and always return a value."""
from .corefn import *

NS = ('openml::common::', 'openml::math::', 'openml::metric::', 'openml::random::', 'openml::data::')


def targets(an):
    out, seen = [], set()
    for f in an.p.fns:
        if f.get('body') is None or f.get('cls') is not None or not f['q'].startswith(NS) or not f.get('insrc'):
            continue
        if any('lambda' in f['q'] for _ in (0,)):
            continue
        out.append(f)
    return out


def ints(an, f):
    """axis-like parameters are analysed per documented value"""
    opts = [[]]
    for p in f['ps']:
        t = kind(an, p['t'])
        if p['n'] in ('axis',) and t['c'] == 'int':
            ch = [num(0), num(1), num(-1)] if t.get('sg', True) else [num(0), num(1)]
        elif t['c'] == 'bool':
            ch = [TRUE, FALSE]
        elif p['n'] in ('ord', 'p') and t['c'] == 'int':
            ch = [num(1), num(2), num(-1)]
        else:
            ch = [None]
        opts = [o + [x] for o in opts for x in ch]
    return opts


DOM = {'train_size': ('real', 0.0, 1.0)}


def arg(an, p):
    t = kind(an, p['t'])
    if t['c'] == 'rec' and t['q'] == 'std::vector' and t.get('ta'):
        e = an.p.ty(t['ta'][0]['T'])
        if e['c'] == 'rec' and e['q'] == 'std::vector':
            return an.lst2(p['n'], sym(p['n'] + '.n', 'Z', 'nn'), sym(p['n'] + '.m', 'Z', 'dim'))     # rectangular
        return an.lst(p['n'], sym(p['n'] + '.n', 'Z', 'nn'))
    return an.e.sym_value(p['t'], p['n'])


def one(c, an, f, fixed):
    an.new()
    args = [x if x is not None else arg(an, p) for x, p in zip(fixed, f['ps'])]
    lab = short(f['q']) + ('(' + ','.join(show(x) for x in fixed if x is not None) + ')' if any(x is not None for x in fixed) else '')
    w = c.loc(f)
    o = an.run(f, args)
    names = {p['n']: a for p, a in zip(f['ps'], args)}
    asm = []
    if 'feature_index' in names and 'X' in names:
        asm.append(lt(names['feature_index'], names['X'].c))
    if 'X' in names and 'y' in names and f['q'].startswith(('openml::data::', 'openml::random::')) and isinstance(names['y'], MatV) and isinstance(names['X'], MatV):
        asm.append(eq(names['X'].r, names['y'].r))
    cfg = Cfg(DOM, assume=asm, modes=(1, 0, 2), trials=c.trials(30, 120))
    n = 0
    seen = set()
    for ev in an.e.events:
        if ev.kind == 'bounds':
            g = or_(not_(ev.pc), ev.data['cond'])
            what = 'element access (%s)' % ev.data.get('what', '')
        elif ev.kind == 'noreturn':
            g = not_(ev.pc)
            what = 'path without a returned value'
        else:
            continue
        if (g, ev.line, ev.fn) in seen:
            continue
        seen.add((g, ev.line, ev.fn))
        n += 1
        c.fns.add(ev.fn)
        c.holds('%s: %s' % (lab, what), '%s:%s %s' % (rel(ev.file), ev.line, short(ev.fn)), g, cfg, 'every element access is within its container on every path that reaches it' if ev.kind == 'bounds' else 'every path of a value-returning function returns')
    c.ob(lab + ': analysed', w, 'same' if not any(u for u in an.e.unk) else 'unknown', 'function fully interpreted', str(an.e.unk[:2]) if an.e.unk else None)


def run(c):
    c.prefetch('core', 'core2')
    for tu in ('core', 'core2'):
        an = c.an(tu)
        for f in targets(an):
            if f['q'].startswith('openml::data::loadtxt'):
                continue
            for fx in ints(an, f):
                c.guarded(short(f['q']), one, c, an, f, fx)
