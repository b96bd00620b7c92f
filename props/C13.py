"""The periodic kernel over its whole range"""
import numpy as np
from hypothesis import strategies as st
import gen, num
from harness import Component, need, sut

JIT = True

ID = 'C13'
TITLE = 'The periodic kernel is purely periodic and well-behaved over its whole range'
RULE = ('Variances 1e-3 to 1e3, periods 1e-4 to 1e5, lengthscales .005 to 1e6 (dense around the switches between its numeric forms), inputs of any spacing (even, nearly even, repeated, unordered). '
        'Non-trivial: two or more inputs.')
ASSUMPTIONS = ['Values up to 1e-6 of the variance (its documented polynomial approximation is 2e-7 accurate); very long lengthscales are compared with their limit']


PERIODS = 1e-4, 1e5


def column(c, p):
    """Inputs in 64ths of the period, or of any pattern (evenly spaced, nearly so, repeated) in 8ths"""
    return np.array(c, float)[:, None] / 64 * p if isinstance(c, list) else gen.any_column(c) / 8 * p


def f(i, a, b): return float(np.exp(np.log(a) + (i + .5) / 100000 * (np.log(b) - np.log(a))))


def lengthscale(c):
    kind, i = c
    if kind == 'wide': return f(i, .005, 1e6)
    edge = {'bessel': 3.75 ** -.5, 'limit': 1e4}[kind]
    return edge * (1 + (i - 50000) / 50000 * .02)


def make(v, p, l):
    from GPy_ABCD.Kernels.periodicKernel import PureStdPeriodicKernel
    with sut('construction'): return PureStdPeriodicKernel(1, v, p, l)


def tol(v, l): return v * 1e-6


def check_values(case):
    v, p, l = f(case['v'], 1e-3, 1e3), f(case['p'], *PERIODS), lengthscale(case['l'])
    ker = make(v, p, l)
    X, X2 = column(case['X'], p), column(case['X2'], p)
    what = 'the periodic kernel with variance %r, period %r, lengthscale %r' % (v, p, l)
    t = v * 1e-6
    with sut(what): K, K2, Kd = np.asarray(ker.K(X)), np.asarray(ker.K(X, X2)), np.asarray(ker.Kdiag(X))
    need(np.all(np.isfinite(K)) and np.all(np.isfinite(K2)), what, 'is not finite on', X.ravel(), ':', K)
    R, R2 = v * num.per(X - X.T, p, l), v * num.per(X - X2.T, p, l)
    need(np.all(np.abs(K - R) <= t) and np.all(np.abs(K2 - R2) <= t), what, 'on', X.ravel(), X2.ravel(), lambda: num.worst(K2, R2) + ', ' + num.worst(K, R))
    need(np.all(np.abs(np.diag(K) - v) <= t) and np.all(np.abs(Kd - v) <= 1e-12 * v), what, 'has diagonal', np.diag(K), Kd)
    need(np.all(np.abs(K) <= v + t) and np.allclose(K, K.T, rtol = 0, atol = t), what, 'is not a bounded symmetric covariance')
    e = np.linalg.eigvalsh((K + K.T) / 2)
    need(e[0] >= -t * len(X) * 2, what, 'has the negative eigenvalue', e[0], 'on', X.ravel())
    with sut(what): S = np.asarray(ker.K(X + p * case['n'], X2))
    need(np.all(np.abs(S - K2) <= t * (1 + .01 * abs(case['n']) / l ** 2 * 1e-3)), what, 'changes by', np.max(np.abs(S - K2)), 'when shifted by', case['n'], 'periods')
    # no constant component: the mean over a whole period is 0
    n = 512 if l > .04 else 8192
    G = (np.arange(n) / n * p)[:, None] + X[0, 0]
    with sut(what): mean = float(np.mean(ker.K(G, X[:1])))
    need(abs(mean) <= t, what, 'has mean', mean, 'over a period')
    with sut(what): ker.update_gradients_full(np.ones_like(K), X)
    g = [float(np.asarray(q.gradient).ravel()[0]) for q in num.leaf_params(ker)]
    need(np.all(np.isfinite(g)), 'the gradients of', what, 'are', g)
    need(abs(g[0] - np.sum(R) / v) <= 1e-6 * len(X) ** 2 * 2, 'the variance gradient of', what, 'is', g[0], 'instead of', np.sum(R) / v)
    # (it is set to a small value, not the derivative, beyond the switch)
    if l > 1e4: need(abs(g[2]) <= 1e-3 / l * max(v, 1.) * len(X) ** 2, 'the lengthscale gradient of', what, 'is', g[2])
    return {'approximate' if l < 3.75 ** -.5 else 'limit' if l > 1e4 else 'exact', 'near switch' if case['l'][0] != 'wide' else 'wide'} | ({'trivial'} if len(X) < 2 else set())


def check_continuity(case):
    """Neither values nor gradients jump where the numeric form changes"""
    edge = {'bessel': 3.75 ** -.5, 'limit': 1e4}[case['edge']]
    v, p = f(case['v'], 1e-3, 1e3), f(case['p'], *PERIODS)
    X = column(case['X'], p)
    d = 1e-7
    a, b = make(v, p, edge * (1 - d)), make(v, p, edge * (1 + d))
    Ka, Kb = np.asarray(a.K(X)), np.asarray(b.K(X))
    need(np.all(np.abs(Ka - Kb) <= 2e-6 * v), 'the periodic kernel jumps by', np.max(np.abs(Ka - Kb)), 'of', v, 'at lengthscale', edge)
    W = np.ones_like(Ka)
    a.update_gradients_full(W, X); b.update_gradients_full(W, X)
    for n in ('variance', 'period') + (('lengthscale',) if case['edge'] == 'bessel' else ()):
        ga, gb = float(getattr(a, n).gradient[0]), float(getattr(b, n).gradient[0])
        scale = {'variance': 1, 'period': v * 2 * np.pi * np.max(np.abs(X - X.T)) / p ** 2 * 2, 'lengthscale': 4 * v}[n] * len(X) ** 2
        need(abs(ga - gb) <= 1e-5 * scale + 1e-12, 'the gradient by', n, 'jumps from', ga, 'to', gb, 'at lengthscale', edge)
    return {case['edge']}


big = st.integers(0, 99999)
pts = st.lists(st.integers(-640, 640), min_size = 1, max_size = 6, unique = True) | gen.columns()
ls = st.tuples(st.sampled_from(['wide', 'wide', 'wide', 'bessel', 'limit']), big).map(list)
COMPONENTS = [
    Component('values', st.fixed_dictionaries(dict(v = big, p = big, l = ls, X = pts, X2 = pts, n = st.integers(-20, 20))), check_values, 10000, 300000),
    Component('continuity', st.fixed_dictionaries(dict(v = big, p = big, edge = st.sampled_from(['bessel', 'limit']), X = pts)), check_continuity, 1500, 30000),
]
