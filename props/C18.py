"""Scores and predictions of fitted models"""
import numpy as np
from scipy.stats import norm
from hypothesis import strategies as st
import ref, ke, gen, num
from harness import Component, need, sut
from props.C01 import simplified
from props.C06 import expected_size
from props.C12 import loglik
from parse import flat

ID = 'C18'
TITLE = 'Scores and predictions are those of the fitted Gaussian process'
RULE = ('Fitted models of generated expressions and data, at the optimiser\'s parameters or at generated ones; scores, predicted means, (co)variances and quantiles against an independently evaluated Gaussian process. '
        'Non-trivial: two or more data points and two or more parameters.')
ASSUMPTIONS = ['Compared where the covariance matrix has a condition number below 1e7 (noise variances .1 to 10) and no optimised parameter is extreme (scales between 1e-3 and 1e4); tolerance proportional to the condition number']


def model(case):
    from GPy_ABCD.Models.model import GPModel
    t = gen.canonical(case['t'])
    k = simplified(t)
    X = gen.col(case['X']) if isinstance(case['X'], list) else gen.sized(case['X'])
    if case['whole']: X = np.round(X).astype(int)    # whole numbers, held as such
    Y = np.array([((case['y'][i % len(case['y'])] * (3 + i)) % 401) / 100 - 2 for i in range(len(X))])[:, None] * case['scale']
    with sut('fit of %s' % k): m = GPModel(X, Y, k).fit(1, max_iters = 1 if case['v'] else 5)
    if case['v']:
        num.set_params(m.model.kern, case['v'])
        m.model.likelihood.variance[:] = num.value('variance', case['noise'], {'variance': ('log', .1, 10.)})
    m.held, m.optimised = 0, not case['v']
    if case['hold']:    # parameters the user fixes are not estimated
        ps = num.leaf_params(m.model.kern) + [m.model.likelihood.variance]
        for i in sorted({i % len(ps) for i in case['hold']}):
            ps[i].fix(warning = False)
            m.held += 1
    return t, k, X, Y, m


class Skip(Exception): pass


def gp(m, X, Y, t):
    s = num.spec_of(m.model.kern)
    need(num.structure(s, flat) == flat(t), 'the fitted kernel has structure', s)
    noise = float(m.model.likelihood.variance[0])
    K, M = num.ev(s, X)
    cond = 1 + float(np.max(M)) * len(X) / noise
    if not np.isfinite(cond) or cond > 1e7 or (m.optimised and not num.tame(s, np.max(np.abs(Y)))): raise Skip()
    return s, noise, K + (noise + 1e-8) * np.eye(len(X)), float(np.max(M)), cond


def scores(m, t, ll, n, k, size, cond, where):
    import GPy_ABCD as G
    aicc = n - k - 1
    want = {'BIC': -2 * ll + k * np.log(n), 'AIC': 2 * (k - ll), 'AICc': 2 * (k - ll) + (2 * k * (k + 1) / aicc if aicc else np.inf)}
    for name, w in want.items():
        if name == 'AICc' and aicc == 0: continue
        with sut(name): g = m.compute_utility(getattr(G, name))
        need(abs(g - w) <= 1e-8 * cond * size + 1e-7 * abs(w), name, 'of', where, 'is', g, 'instead of', w, ': log-likelihood', ll, 'of', n, 'points with', k, 'parameters')
        need(m.cached_utility_function == g and m.cached_utility_function_type == name, 'the model does not keep its last score', g, name, ': it has', m.cached_utility_function, m.cached_utility_function_type)
    def mine(mod, l, nn, kk):
        need(mod is m.model and nn == n and kk == k and abs(l - ll) <= 1e-8 * cond * size, 'scoring functions receive log-likelihood', l, ', points', nn, ', parameters', kk)
        return 42.5
    need(m.compute_utility(mine) == 42.5 and m.cached_utility_function == 42.5 and m.cached_utility_function_type == 'mine', 'a custom score is not kept')
    for v in (7., 8.):      # functions may share their name
        got = m.compute_utility(lambda *a: v)
        need(got == v == m.cached_utility_function, 'of two scoring functions of the same name, that giving', v, 'gives', got, 'and leaves the score', m.cached_utility_function)


def check_scores(case):
    t, k, X, Y, m = model(case)
    try: s, noise, A, top, cond = gp(m, X, Y, t)
    except Skip: return {'trivial', 'ill-conditioned'}
    ll = loglik(A - 1e-8 * np.eye(len(X)), Y, 0.)
    n, par = len(X), expected_size(flat(t)) + 1 - m.held
    size = abs(ll) + n
    scores(m, t, ll, n, par, size, cond, '%s with %s, noise %r on %s' % (k, s, noise, X.ravel()))
    import GPy_ABCD as G
    # Leave-one-out score: the average negative log density of each point given the others
    from GPy_ABCD.Util.modelUtil import LA_LOO
    if n > 1:
        tot = 0.
        for i in range(n):
            o = [j for j in range(n) if j != i]
            w = np.linalg.solve(A[np.ix_(o, o)], A[o, i])
            mu, var = float(w @ Y[o, 0]), float(A[i, i] - w @ A[o, i])
            tot -= norm.logpdf(Y[i, 0], mu, np.sqrt(var))
        with sut('LA_LOO'): g = float(m.compute_utility(LA_LOO))
        need(abs(g - tot / n) <= 1e-7 * cond * (1 + abs(tot)), 'the leave-one-out score of', k, 'with', s, 'is', g, 'instead of', tot / n)
    if not m.held:      # Scores follow the model as it is, also when the user alters its parameters
        m.compute_utility(G.BIC)
        with sut('a change of noise'): m.model.likelihood.variance[:] = noise * 2
        ll2 = loglik(A + (noise - 1e-8) * np.eye(len(X)), Y, 0.)
        with sut('BIC'): g = m.compute_utility(G.BIC)
        need(abs(g + 2 * ll2 - par * np.log(n)) <= 1e-8 * cond * (abs(ll2) + n) + 1e-7 * abs(g), 'BIC of', k, 'with', s, 'on', X.ravel(), 'is', g, 'instead of', par * np.log(n) - 2 * ll2, 'after its noise was set from', noise, 'to', noise * 2)
    return gen.labels(t, {'generated' if case['v'] else 'optimised', 'fixed parameters' if m.held else 'free parameters', 'whole inputs' if case['whole'] else 'any inputs', 'few points' if n <= par + 1 else 'many points'}) | ({'trivial'} if n < 2 or par + m.held < 3 else set())


def check_predictions(case):
    t, k, X, Y, m = model(case)
    try: s, noise, A, top, cond = gp(m, X, Y, t)
    except Skip: return {'trivial', 'ill-conditioned'}
    Z = X if case['Z'] == case['X'] else gen.col(case['Z']) if isinstance(case['Z'], list) else gen.sized(case['Z'])
    Kz, Mz = num.ev(s, Z)
    Kc, Mc = num.ev(s, Z, X)
    w = np.linalg.solve(A, Kc.T)
    mean, cov = w.T @ Y, Kz - Kc @ w
    top = max(top, float(np.max(Mz)), float(np.max(Mc)))
    tol = 1e-9 * cond * (1 + top / noise) * top + 1e-6 * top
    q = case['q']
    full, lik = case['full'], case['lik']
    lab = set()
    with sut('prediction'): p = m.predict(Z, quantiles = tuple(q), full_cov = full, include_likelihood = lik)
    where = ('of', k, 'with', s, 'noise', noise, 'data', X.ravel(), Y.ravel(), 'at', Z.ravel())
    need(set(p) == {'mean', 'covariance', 'low_quantile', 'high_quantile'}, 'prediction holds', set(p))
    tm = 1e-9 * cond * (1 + top / noise) * (10 + np.max(np.abs(Y))) + 1e-5 * top / noise * (1 + np.max(np.abs(Y)))
    need(p['mean'].shape == (len(Z), 1) and np.all(np.abs(p['mean'] - mean) <= tm), 'mean', *where, ':', lambda: num.worst(p['mean'], mean))
    C = cov + (noise * np.eye(len(Z)) if lik else 0)
    got = p['covariance'] if full else np.asarray(p['covariance']).ravel()
    want = C if full else np.diag(C)
    need(got.shape == want.shape and np.all(np.abs(got - want) <= tol), 'full covariance' if full else 'variance', *where, ':', lambda: num.worst(got, want))
    sd = np.sqrt(np.maximum(np.diag(cov), 0) + noise)[:, None]
    def quantiles(r, pcs, mu, var, nv, said):
        for name, pc in zip(('low_quantile', 'high_quantile'), pcs):
            wq = mu + norm.ppf(pc / 100) * np.sqrt(np.maximum(var, 0) + nv)[:, None]
            need(r[name].shape == (len(Z), 1) and np.all(np.abs(r[name] - wq) <= tm + tol / np.sqrt(nv) * (1 + abs(norm.ppf(pc / 100)))), said, name, pc, *where, ':', lambda: num.worst(r[name], wq))
    quantiles(p, q, mean, np.diag(cov), noise, '')
    with sut('prediction'): d = m.predict(Z)
    quantiles(d, (2.5, 97.5), mean, np.diag(cov), noise, 'default')
    need(np.all(np.abs(np.asarray(d['covariance']).ravel() - np.diag(cov) - noise) <= tol), 'default variance', *where)
    # By a part of the kernel, or with another noise
    parts = [x for x in getattr(m.model.kern, 'parts', [])] if s[0] in '+*' else []
    if parts and case['part'] is not None and case['part'] % (len(parts) + 1) < len(parts):
        part = parts[case['part'] % (len(parts) + 1)]
        sp = num.spec_of(part)
        (Kpz, _), (Kpc, Mp) = num.ev(sp, Z), num.ev(sp, Z, X)
        pm, pv = Kpc @ np.linalg.solve(A, Y), Kpz - Kpc @ np.linalg.solve(A, Kpc.T)
        if float(np.max(Mp)) <= 10 * top and s[0] == '+':
            with sut('prediction by a part'): r = m.predict(Z, quantiles = tuple(q), full_cov = full, kern = part, include_likelihood = lik)
            need(np.all(np.abs(r['mean'] - pm) <= tm), 'mean by the part', sp, *where, ':', lambda: num.worst(r['mean'], pm))
            wv = pv + (noise * np.eye(len(Z)) if lik else 0)
            got, want = (r['covariance'], wv) if full else (np.asarray(r['covariance']).ravel(), np.diag(wv))
            need(np.all(np.abs(got - want) <= tol), '(co)variance by the part', sp, *where, ':', lambda: num.worst(got, want))
            quantiles(r, q, pm, np.diag(pv), noise, 'by a part')
            lab.add('part')
    if case['other']:
        from GPy.likelihoods import Gaussian
        nv = case['other'] / 10
        with sut('prediction with another noise'): r = m.predict(Z, quantiles = tuple(q), full_cov = full, likelihood = Gaussian(variance = nv))
        need(np.all(np.abs(r['mean'] - mean) <= tm), 'mean with another noise', *where, ':', lambda: num.worst(r['mean'], mean))
        got, want = (r['covariance'], cov + nv * np.eye(len(Z))) if full else (np.asarray(r['covariance']).ravel(), np.diag(cov) + nv)
        need(np.all(np.abs(got - want) <= tol), '(co)variance with noise', nv, *where, ':', lambda: num.worst(got, want))
        quantiles(r, q, mean, np.diag(cov), nv, 'with noise %r' % nv)
        lab.add('other noise')
    need(np.array_equal(m.X, X) and np.array_equal(m.Y, Y), 'predicting changed the data')
    return lab | gen.labels(t, {'full' if full else 'diagonal', 'generated' if case['v'] else 'optimised'}) | ({'trivial'} if len(X) < 2 else set())


tr = gen.tree(3, 3, leaves = 6, root_composite = True, min_depth = 1)
v = gen.ints | gen.ints | gen.ints | st.just([])
body = dict(t = tr, v = v, y = gen.ints, X = gen.data_points(2, 10, 100), scale = gen.scales, whole = st.sampled_from([False, False, False, True]), hold = st.just([]) | st.just([]) | st.lists(st.integers(0, 11), min_size = 1, max_size = 3), noise = st.integers(0, 999))
pct = st.sampled_from([.5, 1, 2.5, 5, 10, 25, 40, 50, 60, 75, 90, 95, 97.5, 99, 99.5])
predicted = dict(Z = gen.points(1, 6, 120), q = st.tuples(pct, pct).map(list), full = st.booleans(), lik = st.booleans(), part = st.none() | st.integers(0, 5), other = st.none() | st.integers(1, 50), **body)
COMPONENTS = [
    Component('scores', st.fixed_dictionaries(body), check_scores, 1000, 20000),
    Component('predictions', gen.twin(st.fixed_dictionaries(predicted), 'Z'), check_predictions, 1000, 20000),
    Component('sized scores', st.fixed_dictionaries({**body, 'X': gen.data_sizes(30, 100, (4., 20.), (0.,)) | gen.data_sizes(100, 400, (4., 20.), (0.,)), 'noise': st.integers(500, 999)}), check_scores, 200, 4000),
    Component('sized predictions', st.fixed_dictionaries({**predicted, 'X': gen.data_sizes(30, 150, (4., 20.), (0.,)), 'Z': gen.data_sizes(1, 200, (4., 20.), (0.,)), 'noise': st.integers(500, 999)}), check_predictions, 250, 5000),
]
