"""Kernels always answer for their current parameters"""
import copy, pickle
import numpy as np
from hypothesis import strategies as st
import ref, gen, num, kernels
from harness import Component, need, sut
from props.C01 import simplified

JIT = True

ID = 'C14'
TITLE = 'Kernels always answer for their current parameters, and copies are independent'
RULE = ('Histories of up to 12 operations on an expression\'s or change kernel and its copies (setting one or all parameters, changing one (fixed or not) by as little as a billionth, randomising, model-level updates, fixing, copying, pickling, computing gradients), evaluating '
        'covariances and gradients in between on recurring inputs; each answer must be the one of the parameters shown at that moment. Non-trivial: two or more updates interleaved with evaluations.')
ASSUMPTIONS = ['Input arrays are not modified in place between evaluations (the results of plain arrays are cached by identity by the underlying library)']


def check(case):
    from GPy.models import GPRegression
    if case['kind'] == 'expr':
        k = simplified(gen.canonical(case['t']))
        what = str(k)
        with sut('to_kernel'): ker = k.to_kernel()
    else:
        what = str(case['k'])
        with sut('construction'): ker = kernels.make(case['k'])
    pool = [gen.col(p) for p in case['pool']]
    kers = [ker]
    shown = {}           # what a kernel has to keep showing
    updates, log, models = 0, [], {}

    def verify(i, x, y):
        k, X, X2 = kers[i], pool[x % len(pool)], None if y < 0 else pool[y % len(pool)]
        s = num.spec_of(k)
        R, M = num.ev(s, X, X2)
        with sut('covariance of %s after %s' % (what, log)): K = k.K(X, X2)
        need(num.close(K, R, M), what, 'after', log, ': covariance is not the one of the parameters shown,', s, 'on', X.ravel(), lambda: num.worst(K, R))
        if X2 is None:
            with sut('diagonal'): d = np.asarray(k.Kdiag(X)).ravel()
            need(num.close(d, np.diag(R), np.diag(M)), what, 'after', log, ': diagonal is not the one of the parameters shown,', s, lambda: num.worst(d, np.diag(R)))

    for op in case['ops']:
        name, i, a, b = op['op'], op['i'] % len(kers), op['a'], op['b']
        k = kers[i]
        if i in models and name in ('deepcopy', 'pickle'): name = 'copy'    # the library only supports the former for kernels of a model
        ps = num.leaf_params(k)
        before = [num.spec_of(o) for o in kers]
        log.append('%s %d' % (name, i))
        with sut('%s after %s' % (name, log)):
            if name == 'one': p = ps[a % len(ps)]; p[:] = num.value(p.name, b); updates += 1
            elif name in ('nudge', 'hold'):
                p = ps[a % len(ps)]
                if name == 'hold': p.fix(warning = False)
                p[:] = float(p[0]) * (1 + (1 + b % 9) * 10. ** - (3 + a % 7)); updates += 1
            elif name == 'all': num.set_params(k, [a, b]); updates += 1
            elif name == 'array': k.unfix(); k[:] = [num.value(n.split('.')[-1], (a + 31 * j) % 1000) for j, n in enumerate(k.parameter_names_flat())]; updates += 1
            elif name == 'randomize': np.random.seed(a); k.randomize(); updates += 1
            elif name == 'fix': ps[a % len(ps)].fix() if b % 2 else ps[a % len(ps)].unfix()
            elif name == 'optimiser':
                o = np.array(k.optimizer_array); o[:] = o + (a - 500) / 1000 * (1 + np.arange(len(o))) / (1 + len(o)); k.optimizer_array = o; updates += 1
            elif name == 'copy': kers.append(k.copy())
            elif name == 'deepcopy': kers.append(copy.deepcopy(k))
            elif name == 'pickle': kers.append(pickle.loads(pickle.dumps(k)))
            elif name == 'gradient':
                X = pool[a % len(pool)]
                W = np.ones((len(X), len(X))) * (1 + b % 7) / 4
                k.update_gradients_full(W, X)
                got = [float(np.asarray(p.gradient).ravel()[0]) for p in ps]
            elif name == 'model':
                if i not in models:
                    X = pool[a % len(pool)]
                    models[i] = GPRegression(X, np.sin(X), k)
                    need(models[i].kern is k, 'the model uses another kernel object')
                m = models[i]
                m.likelihood.variance[:] = 1 + b / 100
                log_lik = float(m.log_likelihood())
        if name == 'gradient':
            fresh = make_like(case, k)
            fresh.update_gradients_full(W, X.copy())
            want = [float(np.asarray(p.gradient).ravel()[0]) for p in num.leaf_params(fresh)]
            free = [not p.is_fixed for p in ps]      # the library skips fixed ones
            got, want = [[g for g, f in zip(gs, free) if f] for gs in (got, want)]
            need(np.allclose(got, want, rtol = 1e-6, atol = 1e-9 * (1 + max(map(abs, want), default = 0))), what, 'after', log, ': gradients', got, 'instead of', want, 'of a new kernel with the same parameters')
        if name in ('nudge', 'hold'):    # to the last digit, the answers of a new kernel
            fresh, X = make_like(case, k), pool[b % len(pool)]
            with sut('covariance after %s' % log): K, d = np.array(k.K(X)), np.array(k.Kdiag(X)).ravel()
            for g, w in ((K, fresh.K(X.copy())), (d, np.asarray(fresh.Kdiag(X.copy())).ravel())):
                need(np.allclose(g, w, rtol = 1e-13, atol = 1e-13 * (1 + np.max(np.abs(w)))), what, 'after', log, ': the covariance does not follow a small change of', p.name, ':', lambda: num.worst(g, w))
        if name == 'model':
            s = num.spec_of(k)
            R, M = num.ev(s, np.asarray(m.X))
            from props.C12 import loglik
            cond = 1 + float(np.max(M)) * len(R) / (1 + b / 100)
            want = loglik(R, np.asarray(m.Y), 1 + b / 100)
            need(abs(log_lik - want) <= 1e-7 * cond * (len(R) + abs(want)), 'model of', what, 'after', log, ': log-likelihood', log_lik, 'instead of', want, 'of the parameters shown')
        touched = {i} if name in ('one', 'nudge', 'hold', 'all', 'array', 'randomize', 'optimiser') else set()
        for j, s in enumerate(before):
            if j not in touched: need(num.spec_of(kers[j]) == s, what, 'after', log, ': the parameters of copy', j, 'changed from', s, 'to', lambda: num.spec_of(kers[j]))
        if name in ('copy', 'deepcopy', 'pickle'): need(num.spec_of(kers[-1]) == before[i], 'the copy of', what, 'after', log, 'has other parameters')
        if name == 'one': need(float(p[0]) == num.value(p.name, b) or abs(float(p[0]) - num.value(p.name, b)) < 1e-12 * abs(num.value(p.name, b)), 'setting', p.name, 'of', what, 'did not hold')
        if op['look'] >= 0:
            for j in range(len(kers)): verify(j, op['look'], op['y'])
    for j in range(len(kers)): verify(j, 0, -1)
    return {'copies:%d' % min(3, len(kers) - 1), 'updates:%d' % min(updates, 4), case['kind']} | ({'trivial'} if updates < 2 or len(case['ops']) < 3 else set())


def make_like(case, k):
    f = simplified(gen.canonical(case['t'])).to_kernel() if case['kind'] == 'expr' else kernels.make(case['k'])
    for p, q in zip(num.leaf_params(f), num.leaf_params(k)): p[:] = float(q[0])
    return f


@st.composite
def alike(draw):
    """Inputs which are easily taken for each other: same ends, same number, same values in another order, one of them another"""
    a = draw(gen.points(3, 5, 100))
    out = [a]
    for _ in range(draw(st.integers(1, 2))):
        how = draw(st.sampled_from(['inner', 'order', 'one', 'shift']))
        if how == 'inner': out.append(a[:1] + [v + draw(st.integers(1, 9)) for v in a[1:-1]] + a[-1:])
        elif how == 'order': out.append(draw(st.permutations(a)))
        elif how == 'one': i = draw(st.integers(0, len(a) - 1)); out.append(a[:i] + [a[i] + draw(st.integers(1, 40))] + a[i + 1:])
        else: out.append([v + 7 for v in a])
    return out


n3 = st.integers(0, 999)
op = st.fixed_dictionaries(dict(op = st.sampled_from(['one', 'one', 'one', 'nudge', 'nudge', 'hold', 'all', 'array', 'randomize', 'fix', 'optimiser', 'copy', 'deepcopy', 'pickle', 'gradient', 'model']),
                                i = st.integers(0, 3), a = n3, b = n3, look = st.integers(-1, 3), y = st.integers(-1, 2)))
common = dict(ops = st.lists(op, min_size = 4, max_size = 12), pool = st.lists(gen.points(1, 4, 100), min_size = 1, max_size = 3) | alike())
cases = st.fixed_dictionaries(dict(kind = st.just('expr'), t = gen.tree(3, 3, leaves = 6, root_composite = True, min_depth = 2), **common)) | \
        st.fixed_dictionaries(dict(kind = st.just('kernel'), k = kernels.change(['CP', 'CW', 'CWS'], kernels.inner | kernels.change(['CP', 'CW'])), **common))
COMPONENTS = [Component('histories', cases, check, 1500, 40000)]
