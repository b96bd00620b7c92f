"""Gradients of kernels and of models"""
import numpy as np
from hypothesis import strategies as st
import ref, gen, num, kernels
from harness import Component, need, sut
from props.C01 import simplified

JIT = True

ID = 'C12'
TITLE = 'Parameter gradients are the derivatives of the covariance and of the likelihood'
RULE = ('Every kernel class, nested change kernels and whole expressions with generated parameters, inputs and (symmetric when one set of inputs is used) weightings of the covariance: each gradient against an '
        'extrapolated numeric derivative of an independently evaluated covariance, and of an independently evaluated Gaussian-process log-likelihood. Non-trivial: two or more parameters.')
ASSUMPTIONS = ['Diagonal-only gradients (not implemented for most kernels) and the three-part change window (documented as unfinished) are outside the claim, and so are non-symmetric weightings with a single set of inputs',
               'Agreement up to 1e-4 of the summed magnitudes; parameter ranges as in lib/num.py']


def weights(ints, n, m, sym):
    W = np.array([[((ints[(i * m + j) % len(ints)] * (7 + i + 3 * j)) % 997) / 250 - 2 for j in range(m)] for i in range(n)])
    return (W + W.T) / 2 if sym else W


def derivative(f, v, scale):
    """Richardson-extrapolated central difference of a list-valued function, and a bound of its error"""
    h = 2e-4 * scale
    d1 = (f(v + h) - f(v - h)) / (2 * h)
    d2 = (f(v + 2 * h) - f(v - 2 * h)) / (4 * h)
    d4 = (f(v + 4 * h) - f(v - 4 * h)) / (8 * h)
    a, b = (4 * d1 - d2) / 3, (4 * d2 - d4) / 3
    return a, np.abs(a - b), h



def bessel(p):
    """The periodic kernel uses a polynomial of 2e-7 accuracy for lengthscales below .516, which limits its derivative's"""
    return 2e-6 / float(p[0]) ** 2 if p.name == 'lengthscale' else 0.


def numeric(ker, d, p, X, X2, W, unit = 1.):
    """d sum(W * K) / dp from the reference evaluation, with its error bound"""
    v0 = float(p[0])
    def f(v):
        p[:] = v
        K, M = num.ev(kernels.spec(ker, d), X, X2)
        f.M = max(f.M, float(np.sum(np.abs(W) * M)))
        return K
    f.M = 0.
    scale = {'location': .3 * unit, 'offset': unit, 'stop_location': .3 * unit}.get(p.name, abs(v0))
    D, E, h = derivative(f, v0, scale)
    p[:] = v0
    g = float(np.sum(W * D))
    return g, float(np.sum(np.abs(W) * E)) * 4 + 1e-13 * f.M / h + 1e-4 * float(np.sum(np.abs(W * D))) + 1e-7 * f.M / max(scale, 1e-3 * unit) + bessel(p) * f.M


def compare(ker, d, X, X2, W, what, unit = 1., hold = ()):
    ps = num.leaf_params(ker)
    for i in {h % len(ps) for h in hold}: ps[i].fix(warning = False)
    with sut('gradients of %s' % (what,)): ker.update_gradients_full(W, X, X2)
    got = [(p, float(np.asarray(p.gradient).ravel()[0])) for p in num.leaf_params(ker)]
    s = kernels.spec(ker, d)
    for i, (p, g) in enumerate(got):
        if p.is_fixed: continue     # not asked for
        r, tol = numeric(ker, d, p, X, X2, W, unit)
        need(np.isfinite(g) and abs(g - r) <= tol, 'gradient', i, '(%s)' % p.name, 'of', s, 'on', X.ravel(), '' if X2 is None else X2.ravel(), 'weighted by', W.tolist(), 'is', g, 'instead of', r, '+/-', tol)
    return len(got)


def check_kernels(case):
    d = case['k']
    ker = num.set_params(kernels.make(d), case['v'])
    X, X2 = gen.pair(case) if case['two'] else (gen.col(case['X']), None)
    n = compare(ker, d, X, X2, weights(case['w'], len(X), len(X if X2 is None else X2), X2 is None), d, hold = case['hold'])
    return {'kind:' + k for k in kernels.kinds(d)} | {'fixed parameters' if case['hold'] else 'free parameters', 'two inputs' if case['two'] else 'one input'} | ({'trivial'} if n < 2 else set())


def check_units(case):
    """Inputs in any unit and pattern; weightings one after the other"""
    d = case['k']
    u = max(case['unit'], .01) if kernels.fixed(d) else case['unit']
    ker = kernels.rescale(num.set_params(kernels.make(d), case['v']), u)
    X, X2 = gen.any_column(case['X']) * u, gen.any_column(case['X2']) * u if case['two'] else None
    for w in (case['w'], case['w'][::-1] + [7]):
        n = compare(ker, d, X, X2, weights(w, len(X), len(X if X2 is None else X2), X2 is None), d, u)
    return {'kind:' + k for k in kernels.kinds(d)} | {'unit:%g' % u} | ({'trivial'} if n < 2 else set())


def check_expressions(case):
    t = gen.canonical(case['t'])
    k = simplified(t)
    ker = num.set_params(k.to_kernel(), case['v'])
    X, X2 = gen.pair(case) if case['two'] else (gen.col(case['X']), None)
    n = compare(ker, None, X, X2, weights(case['w'], len(X), len(X if X2 is None else X2), X2 is None), str(k))
    return gen.labels(t) | ({'trivial'} if n < 2 else set())


def loglik(K, Y, noise):
    A = K + (noise + 1e-8) * np.eye(len(Y))
    L = np.linalg.cholesky(A)
    a = np.linalg.solve(L, Y)
    return -.5 * float(np.sum(a ** 2)) - float(np.sum(np.log(np.diag(L)))) - .5 * len(Y) * np.log(2 * np.pi)


def check_models(case):
    """The gradient which the optimiser follows is the one of the log-likelihood, and the log-likelihood is the one of the covariance"""
    from GPy.models import GPRegression
    t = gen.canonical(case['t'])
    k = simplified(t)
    ker = num.set_params(k.to_kernel(), case['v'])
    X = gen.col(case['X']) if isinstance(case['X'], list) else gen.sized(case['X'])
    Y = np.array([((case['w'][i % len(case['w'])] * (3 + i)) % 401) / 100 - 2 for i in range(len(X))])[:, None]
    with sut('model of %s' % k): m = GPRegression(X, Y, ker)
    noise = num.value('variance', case['noise'], {'variance': ('log', .3, 10.)})
    m.likelihood.variance[:] = noise
    def ll(s, nz = noise):
        K, M = num.ev(s, X)
        return loglik(K, Y, nz), M
    s0 = num.spec_of(m.kern)
    L0, M = ll(s0)
    cond = 1 + float(np.max(M)) * len(X) / noise
    if cond > 1e7: return {'trivial', 'ill-conditioned'}
    size = abs(L0) + len(X)
    got_ll = float(m.log_likelihood())
    need(abs(got_ll - L0) <= 1e-7 * cond * size, 'log-likelihood of', s0, 'with noise', noise, 'on', X.ravel(), Y.ravel(), 'is', got_ll, 'instead of', L0)
    got = [(p, float(np.asarray(p.gradient).ravel()[0])) for p in num.leaf_params(m.kern)]
    gn = float(m.likelihood.variance.gradient[0])
    def test(name, g, f, v0, scale, extra = 0.):
        D, E, h = derivative(f, v0, scale)
        tol = 1e-4 * abs(D) + 4 * E + 1e-5 * size * cond ** .5 / scale * 1e-2 + 1e-13 * size * cond / h + extra * size * cond ** .5
        need(np.isfinite(g) and abs(g - D) <= tol, 'gradient of the log-likelihood by', name, 'of', s0, 'with noise', noise, 'on', X.ravel(), Y.ravel(), 'is', g, 'instead of', D, '+/-', tol)
    for i, (p, g) in enumerate(got):
        v0 = float(p[0])
        def f(v):
            p[:] = v
            return ll(num.spec_of(m.kern))[0]
        test('parameter %d (%s)' % (i, p.name), g, f, v0, {'location': .3, 'offset': 1.}.get(p.name, abs(v0)), bessel(p))
        p[:] = v0
    test('noise', gn, lambda v: ll(s0, v)[0], noise, noise)
    return gen.labels(t) | ({'trivial'} if len(got) < 2 else set())


def check_sizes(case):
    """Weightings of as many inputs as real data have"""
    d = case['k']
    ker = num.set_params(kernels.make(d), case['v'])
    X, X2 = gen.sized(case['X']), gen.sized(case['X2']) if case['two'] else None
    i, j = np.arange(len(X))[:, None], np.arange(len(X if X2 is None else X2))[None]
    a = 1 + case['w'] % 50
    W = np.cos(a * i + 3 * j) if X2 is not None else np.cos(a * (i + j)) + np.cos(i - j)
    n = compare(ker, d, X, X2, W, d)
    return {'kind:' + k for k in kernels.kinds(d)} | {'points:%d00+' % (len(X) // 100)} | ({'trivial'} if n < 2 else set())


body = dict(v = gen.ints, w = gen.ints, X = gen.points(2, 5, 100), X2 = gen.points(1, 5, 100), two = st.booleans())
tr = gen.tree(3, 3, leaves = 8, root_composite = True, min_depth = 2)
COMPONENTS = [
    Component('kernels', gen.twin(st.fixed_dictionaries(dict(k = kernels.kernel(('CP', 'CW', 'CWS')), hold = st.just([]) | st.lists(st.integers(0, 11), min_size = 1, max_size = 2), **body))), check_kernels, 2000, 60000),
    Component('units', st.fixed_dictionaries(dict(k = kernels.kernel(('CP', 'CW', 'CWS')), v = gen.ints, w = gen.ints, unit = st.sampled_from(kernels.UNITS), two = st.booleans(), X = gen.columns(2, 6), X2 = gen.columns(1, 5))), check_units, 600, 20000),
    Component('expressions', gen.twin(st.fixed_dictionaries(dict(t = tr, **body))), check_expressions, 1000, 30000),
    Component('deep', st.fixed_dictionaries(dict(t = gen.deep(6, 10), **body)), check_expressions, 80, 2000),
    Component('models', st.fixed_dictionaries(dict(t = tr, v = gen.ints, w = gen.ints, X = gen.points(3, 8, 100), noise = st.integers(0, 999))), check_models, 500, 12000),
    Component('sizes', st.fixed_dictionaries(dict(k = kernels.kernel(('CP', 'CW', 'CWS')), v = gen.ints, w = st.integers(0, 999), two = st.booleans(), X = gen.data_sizes(30, 150, (4., 20.), (0.,)), X2 = gen.data_sizes(20, 80, (4., 20.), (0.,)))), check_sizes, 120, 3000),
    Component('sized models', st.fixed_dictionaries(dict(t = gen.tree(3, 3, leaves = 5, root_composite = True, min_depth = 2), v = gen.ints, w = gen.ints, X = gen.data_sizes(30, 120, (4., 20.), (0.,)), noise = st.integers(500, 999))), check_models, 80, 2000),
]
