"""Binary classifiers: training targets, decision side and probability columns agree."""
from .est import *


def one(c, an, q, args, icpt):
    nm = conf_name(q, args)
    t = Fitted(c, an, q, args)
    if t.r.dead:
        return c.ob(nm + ': fit', t.where, 'diff', 'accepted', 'fit always throws for a documented configuration')
    if len(t.rec) != 1:
        return c.undecided(nm, t.where, '%d optimizer runs found' % len(t.rec))
    r = t.rec[0]
    dom = dict(dims(), y=('choice', [0.0, 1.0]))
    cfg = Cfg(dom, modes=(0, 1), trials=c.trials(24, 96))
    nq = sym('nq', 'Z', 'dim')
    Xq = an.mat('Q', nq, C_)
    sc = score(Xq, r['coef'], C_, icpt)
    o, w = t.query('predict', [Xq], c)
    if q == 'Perceptron':
        for nmd, d in (('0 and 1', [0.0, 1.0]), ('-1 and 1', [-1.0, 1.0])):
            c.eqmat(nm + ': hinge loss sees +1 for class 1 and -1 otherwise (targets %s)' % nmd, r['where'], r['y'], R_, ONE, lambda i, j: ite(lt(ZERO, t.y.at(i, ZERO)), ONE, num(-1)),
                    Cfg(dict(dims(), y=('choice', d)), modes=(0,), trials=c.trials(24, 96)), 'training targets pull the score of class 1 positive')
        c.eqmat(nm + ': positive score means class 1', w, o.val(), nq, ONE, lambda i, j: ite(lt(ZERO, sc(i)), ONE, ZERO), cfg, 'decision side equals the side of the training targets')
        return
    c.eqmat(nm + ': log loss sees the 0/1 targets', r['where'], r['y'], R_, ONE, lambda i, j: t.y.at(i, ZERO), cfg, 'training target 1 is modelled by sigmoid(score)')
    sg = lambda x: div(ONE, add(ONE, fn('exp', neg(x))))
    half = num(Fraction(1, 2))
    c.eqmat(nm + ': predicts 1 exactly when P(target = 1) exceeds one half', w, o.val(), nq, ONE, lambda i, j: ite(lt(half, sg(sc(i))), ONE, ZERO), cfg, 'decision side equals the modelled probability')
    P, w = t.query('predict_prob', [Xq], c)
    c.eqmat(nm + ': column k holds the probability of class k', w, P.val(), nq, num(2), lambda i, j: ite(eq(j, ONE), sg(sc(i)), sub(ONE, sg(sc(i)))), cfg, 'probability columns in label order')


def run(c):
    an = c.an('linear')
    for q in ('LogisticRegression', 'Perceptron'):
        for args, icpt, _, roles in CONF[q]:
            c.guarded(conf_name(q, args), one, c, an, q, args, icpt)
