"""C31: the public headers can be used alone, together, in any order and in many units.

Decided by the type checker on units made for the purpose: each public header alone, twice; all of them in one order and
in the reverse order (every header stands before every other one in one of the two) with every public class template
explicitly instantiated; each public class template instantiated with nothing but its own header included; and by the
linkage of the definitions in the compiler's intermediate representation of the units that contain everything (a strong
definition is a duplicate symbol in the second unit of a program).  Thorough: also each header in front of all others."""
import os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import base

# headers reached only through core.hpp (they close an include cycle) - not usable on their own
INTERNAL = {'core/metric.hpp', 'core/math/extmath.hpp', 'core/math/ops.hpp', 'core/optimizer/base.hpp', 'core/optimizer/lbfgs/lbfgs.hpp',
            'core/optimizer/lbfgs/search_policies/base.hpp', 'core/optimizer/lbfgs/search_policies/backtracking.hpp',
            'core/optimizer/lbfgs/search_policies/bracketing.hpp', 'core/optimizer/sgd/decay_policies/step_decay.hpp',
            'core/optimizer/sgd/update_policies/vanilla_update.hpp'}
PUBLIC = '''core.hpp prereqs.hpp core/common.hpp core/data/load.hpp core/data/split.hpp core/loss/hinge_loss.hpp core/loss/huber_loss.hpp core/loss/log_loss.hpp
core/loss/mean_squared_error.hpp core/loss/softmax_loss.hpp core/math/linalg.hpp core/math/proba.hpp core/math/random.hpp core/math/shuffle.hpp
core/optimizer/lbfgs/params.hpp core/optimizer/sgd/decay_policies/exponential_decay.hpp core/optimizer/sgd/sag.hpp core/optimizer/sgd/scd.hpp
core/optimizer/sgd/sgd.hpp core/optimizer/sgd/tg.hpp core/optimizer/sgd/update_policies/momentum_update.hpp
core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp core/preprocessing.hpp core/preprocessing/transaction_encoder.hpp
core/tree/hash_tree.hpp core/tree/kd_tree.hpp methods/cluster/kmeans.hpp methods/cluster/spectral_clustering.hpp methods/decomposition/base.hpp
methods/decomposition/pca.hpp methods/decomposition/truncated_svd.hpp methods/linear_model/base.hpp methods/linear_model/lasso_regression.hpp
methods/linear_model/linear_regression.hpp methods/linear_model/logistic_regression.hpp methods/linear_model/perceptron.hpp
methods/linear_model/ridge_regression.hpp methods/linear_model/softmax_regression.hpp methods/mixture/gaussian_mixture.hpp methods/naive_bayes/base.hpp
methods/naive_bayes/gaussian_naive_bayes.hpp methods/naive_bayes/multinomial_naive_bayes.hpp methods/neighbors/base.hpp
methods/neighbors/k_nearest_neighbors.hpp methods/rule_model/apriori.hpp methods/tree/base.hpp methods/tree/decision_tree_classifier.hpp
methods/tree/decision_tree_regressor.hpp'''.split()
LOSSES = ['HingeLoss', 'HuberLoss', 'LogLoss', 'MSE', 'SoftmaxLoss']
# (class, header that is enough to use it, arguments)
INST = [('openml::loss::%s<double>' % l, 'core/loss/%s.hpp' % h) for l, h in zip(LOSSES, ['hinge_loss', 'huber_loss', 'log_loss', 'mean_squared_error', 'softmax_loss'])]
INST += [('openml::optimizer::%s<double, openml::loss::LogLoss<double>%s>' % (o, p), 'core.hpp')
         for o in ('SGD', 'SAG', 'TruncatedGradient') for p in
         [', openml::optimizer::%s<double>, openml::optimizer::%s<double>' % (u, d) for u in ('VanillaUpdate', 'MomentumUpdate') for d in ('StepDecay', 'ExponentialDecay')]]
INST += [('openml::optimizer::SCD<double, openml::loss::MSE<double>>', 'core.hpp'), ('openml::optimizer::LineSearchParams<double>', 'core/optimizer/lbfgs/params.hpp'),
         ('openml::optimizer::LBFGS<double, openml::loss::LogLoss<double>, openml::optimizer::LineSearchParams<double>>', 'core.hpp'),
         ('openml::optimizer::VanillaUpdate<double>', 'core.hpp'), ('openml::optimizer::MomentumUpdate<double>', 'core/optimizer/sgd/update_policies/momentum_update.hpp'),
         ('openml::optimizer::NesterovMomentumUpdate<double>', 'core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp'),
         ('openml::optimizer::StepDecay<double>', 'core.hpp'), ('openml::optimizer::ExponentialDecay<double>', 'core/optimizer/sgd/decay_policies/exponential_decay.hpp'),
         ('openml::preprocessing::TransactionEncoder<std::size_t>', 'core/preprocessing/transaction_encoder.hpp'), ('openml::preprocessing::TransactionEncoder<double>', 'core/preprocessing/transaction_encoder.hpp'),
         ('openml::tree::KDTree<double>', 'core/tree/kd_tree.hpp'), ('openml::cluster::KMeans<double>', 'methods/cluster/kmeans.hpp'),
         ('openml::cluster::SpectralClustering<double>', 'methods/cluster/spectral_clustering.hpp'),
         ('openml::decomposition::PCA<double>', 'methods/decomposition/pca.hpp'), ('openml::decomposition::TruncatedSVD<double>', 'methods/decomposition/truncated_svd.hpp'),
         ('openml::mixture_model::GaussianMixture<double>', 'methods/mixture/gaussian_mixture.hpp'), ('openml::naive_bayes::GaussianNB<double>', 'methods/naive_bayes/gaussian_naive_bayes.hpp'),
         ('openml::naive_bayes::MultinomialNB<double>', 'methods/naive_bayes/multinomial_naive_bayes.hpp'), ('openml::neighbors::KNearestNeighbors<double>', 'methods/neighbors/k_nearest_neighbors.hpp'),
         ('openml::rule_model::Apriori<std::size_t>', 'methods/rule_model/apriori.hpp'), ('openml::decision_tree::DecisionTreeClassifier<double>', 'methods/tree/decision_tree_classifier.hpp'),
         ('openml::decision_tree::DecisionTreeRegressor<double>', 'methods/tree/decision_tree_regressor.hpp')]
INST += [('openml::linear_model::%s<double>' % m, 'methods/linear_model/%s.hpp' % h) for m, h in
         [('LassoRegression', 'lasso_regression'), ('LinearRegression', 'linear_regression'), ('LogisticRegression', 'logistic_regression'), ('Perceptron', 'perceptron'),
          ('RidgeRegression', 'ridge_regression'), ('SoftmaxRegression', 'softmax_regression')]]
ORDERS = ('in order', 'in reverse order')
FLAGS = ['-std=c++17', '-w', '-ferror-limit=3', '-fno-color-diagnostics']


def error(out, src):
    """first error inside the library (file:line message), else the first error"""
    es = re.findall(r'^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$', out, re.M)
    # an error in a system header or in the unit: the innermost library line that led there
    for f, l, m in es:
        f = os.path.normpath(f)
        if f.startswith(src + '/'):
            return '%s:%s' % (f[len(src) + 1:], l), m
    for f, l, m in re.findall(r'^(\S+?):(\d+):\d+: note: (.*)$', out, re.M):
        f = os.path.normpath(f)
        if f.startswith(src + '/') and es:
            return '%s:%s' % (f[len(src) + 1:], l), es[0][2]
    return ('unit', es[0][2]) if es else ('unit', out[-200:])


def run(c):
    src = os.path.normpath(os.path.join(base.REPO, 'src'))
    tmp = tempfile.mkdtemp(prefix='c31.')

    def clang(name, text, *flags):
        p = os.path.join(tmp, name)
        open(p, 'w').write(text)
        return subprocess.run(['clang++', *FLAGS, *flags, '-I' + src, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    inc = lambda hs: ''.join('#include "%s"\n' % h for h in hs)
    here = sorted(os.path.relpath(os.path.join(d, f), src) for d, _, fs in os.walk(src) for f in fs if f.endswith('.hpp'))
    ob = c.ob
    c_ob = lambda name, at, *a: ob(name, at + ' ' + at.split(':')[0], *a)
    try:
        have = [h for h in PUBLIC if h in here]
        for h in PUBLIC:
            if h not in here:
                c_ob('header ' + h, h + ':1', 'diff', 'the public header exists', 'missing')
        extra = [h for h in here if h not in PUBLIC and h not in INTERNAL]

        def alone(k):
            h = have[k]
            return clang('alone%d.cpp' % k, inc([h, h]), '-fsyntax-only')

        def first(k):
            return clang('first%d.cpp' % k, inc(good[k:] + good[:k] + [good[k]]), '-fsyntax-only')

        groups = sorted({h for q, h in INST})

        def inst(h):
            return clang('inst%d.cpp' % groups.index(h), inc([h]) + ''.join('template class %s;\n' % q for q, g in INST if g == h), '-fsyntax-only')

        def every(order):
            return clang('every%s.cpp' % order[:3], inc(good if order == 'in order' else good[::-1]) + insts, '-fsyntax-only')
        with ThreadPoolExecutor(max(2, os.cpu_count() or 4)) as ex:
            res = list(ex.map(alone, range(len(have))))
            good = []
            for h, r in zip(have, res):
                at, m = error(r.stdout, src) if r.returncode else (h + ':1', '')
                c_ob('header %s is self-contained' % h, at, 'diff' if r.returncode else 'same', 'a unit that includes only this header, twice, is well formed', m)
                if not r.returncode:
                    good.append(h)
            bad = set(have) - set(good)
            for h, r in zip(good, ex.map(first, range(len(good)))) if c.tier == 'thorough' else ():
                at, m = error(r.stdout, src) if r.returncode else (h + ':1', '')
                c_ob('header %s before all others' % h, at, 'diff' if r.returncode else 'same', 'a unit with this header first, then each of the %d others, then this one again is well formed' % (len(good) - 1), m)
            insts = ''.join('template class %s;\n' % q for q, h in INST if h in good)
            for nm, r in zip(ORDERS, ex.map(every, ORDERS)):
                at, m = error(r.stdout, src) if r.returncode else ('core.hpp:1', '')
                c_ob('unit with every header %s and every class template' % nm, at, 'diff' if r.returncode and at != 'unit' else ('unknown' if r.returncode else 'same'), 'the unit is well formed', m)
            for h, r in zip(groups, ex.map(inst, groups)):
                if h in bad:
                    continue
                qs = [q for q, g in INST if g == h]
                c.fns.update(qs)
                at, m = error(r.stdout, src) if r.returncode else (h + ':1', '')
                unit = at == 'unit' and re.search(r'no (template|type|member) named|too (few|many) template arguments|explicit instantiation', m)
                c_ob('instantiation of ' + ', '.join(q.split('openml::', 1)[1] for q in qs[:2]) + (' and %d more' % (len(qs) - 2) if len(qs) > 2 else ''), at if at != 'unit' else h + ':1', 'same' if not r.returncode else ('unknown' if unit else 'diff'), 'every member of the class template is well formed with only this header included', m)
        out = os.path.join(tmp, 'all.ll')
        r = clang('all.cpp', inc(good), '-S', '-emit-llvm', '-femit-all-decls', '-g', '-O0', '-o', out)
        if r.returncode:
            c.undecided('linkage', 'core.hpp:1 core.hpp', 'the unit with every header does not compile')
        else:
            strong, total = linkage(open(out).read(), src)
            for s, at in strong:
                c_ob('linkage of ' + s, at, 'diff', 'a definition in a header is inline, a template or local to the unit', 'strong definition: two units that include the header do not link')
            c_ob('linkage of the definitions of the unit with every header', 'core.hpp:1', 'same', 'every definition of the library that the unit has to emit (%d) may be repeated in other units' % total)
        for h in extra:
            c.notes.append('header %s is not in the public list' % h)
    finally:
        shutil.rmtree(tmp)


def linkage(ll, src):
    """(demangled name, file:line) of every strong definition that comes from the library, and the number examined"""
    files, meta = {}, {}
    for i, b in re.findall(r'^(![0-9]+) = (?:distinct )?(!DI(?:File|Subprogram|GlobalVariable|GlobalVariableExpression|Namespace)\(.*\))$', ll, re.M):
        meta[i] = b

    def at(i):
        b = meta.get(i, '')
        if b.startswith('!DIGlobalVariableExpression'):
            return at(re.search(r'var: (![0-9]+)', b).group(1))
        f, l = re.search(r'file: (![0-9]+)', b), re.search(r'line: (\d+)', b)
        if not f:
            return None
        fb = meta.get(f.group(1), '')
        n, d = re.search(r'filename: "([^"]*)"', fb), re.search(r'directory: "([^"]*)"', fb)
        p = os.path.normpath(os.path.join(d.group(1) if d else '/', n.group(1)))
        return '%s:%s' % (p[len(src) + 1:], l.group(1) if l else 1) if p.startswith(src + '/') else None
    strong, total = [], 0
    weak = r'\b(linkonce_odr|linkonce|weak_odr|weak|internal|private|available_externally|common)\b'
    for l in ll.splitlines():
        if l.startswith('define '):
            m = re.match(r'define (.*?)@("[^"]*"|[\w.$]+)\(.*!dbg (![0-9]+)', l)
        elif l.startswith('@') and re.match(r'@("[^"]*"|[\w.$]+) = .*\b(global|constant)\b', l) and ' external ' not in l:
            g = re.match(r'@("[^"]*"|[\w.$]+) = (.*?)\b(?:global|constant)\b.*!dbg (![0-9]+)', l)
            m = g and re.match(r'(.*)\0(.*)\0(.*)', '%s\0%s\0%s' % (g.group(2), g.group(1), g.group(3)))
        else:
            continue
        if not m:
            continue
        w = at(m.group(3))
        if w is None:
            continue
        total += 1
        if not re.search(weak, m.group(1)):
            n = subprocess.run(['c++filt', m.group(2).strip('"')], stdout=subprocess.PIPE, text=True).stdout.strip()
            strong.append((n[:160], w))
    return strong, total
