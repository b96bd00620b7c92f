"""Formulas of the base, sigmoidal and change kernels"""
import numpy as np
from hypothesis import strategies as st
import gen, num, kernels
from harness import Component, need, sut

JIT = True

ID = 'C11'
TITLE = 'Base, sigmoidal and change kernels compute their documented covariances'
RULE = ('Every kernel class, alone and nested in change kernels (all change-window variants, fixed and free slopes), with generated parameters (set at construction or afterwards) and inputs, against independently '
        'evaluated formulas. Non-trivial: a change kernel, a sigmoid, or two or more distinct inputs.')
ASSUMPTIONS = ['One input dimension; parameter ranges as in lib/num.py (widths .05 to 20, slopes .05 to 5, lengthscales .05 to 50); compiled functions are exercised compiled']


def check(case):
    d = case['k']
    with sut('making %s' % d): ker = num.set_params(kernels.make(d), case['v'])
    s = kernels.spec(ker, d)
    X, X2 = gen.pair(case)
    with sut('covariances of %s' % (s,)): K, K12, Kd = ker.K(X), ker.K(X, X2), ker.Kdiag(X)
    R, M = num.ev(s, X)
    need(num.close(K, R, M), 'covariance', s, 'on', X.ravel(), lambda: num.worst(K, R))
    R2, M2 = num.ev(s, X, X2)
    need(num.close(K12, R2, M2), 'cross-covariance', s, 'on', X.ravel(), X2.ravel(), lambda: num.worst(K12, R2))
    need(num.close(np.asarray(Kd).ravel(), np.diag(R), np.diag(M)), 'diagonal', s, 'on', X.ravel(), lambda: num.worst(np.asarray(Kd).ravel(), np.diag(R)))
    e = np.linalg.eigvalsh((np.asarray(K) + np.asarray(K).T) / 2)
    need(e[0] >= -1e-6 * max(np.max(M), 1e-9) * len(X), 'the covariance', s, 'on', X.ravel(), 'has the negative eigenvalue', e[0])
    ks = kernels.kinds(d)
    return {'kind:' + k for k in ks} | ({'trivial'} if len(X) < 2 and isinstance(d, str) else set())


def check_built(case):
    """Parameters given at construction"""
    from GPy_ABCD.Kernels import linearOffsetKernel as lo, linearKernel as ln, periodicKernel as pk, sigmoidalKernels as s, changeOperators as c, changeWindowShiftedSides as w, changeWindowThreePart as w3, baseKernels as b
    v = lambda n, i: num.value(n, case['v'][i])
    va, lo_, ls, pe, of, wi, sl = v('variance', 0), v('location', 1), v('lengthscale', 2), v('period', 3), v('offset', 4), v('width', 5), v('slope', 6)
    rev, fx = case['rev'], case['fx']
    X, X2 = gen.pair(case)
    se, lin = b.SE(), b.LIN()
    sse, slin = num.spec_of(se), num.spec_of(lin)
    with sut('construction'):
        ks = [(lo.LinearWithOffset(1, va, of), ('LIN', {'variance': va, 'offset': of})), (ln.Linear(1, va), ('LINH', {'variance': va})),
              (pk.PureStdPeriodicKernel(1, va, pe, ls), ('PER', {'variance': va, 'period': pe, 'lengthscale': ls})),
              (s.SigmoidalKernel(1, rev, va, lo_, sl, fixed_slope = fx), ('Sr' if rev else 'S', {'variance': va, 'location': lo_, 'slope': sl})),
              (s.SigmoidalIndicatorKernel(1, rev, va, lo_, sl, wi, fixed_slope = fx), ('SIr' if rev else 'SI', {'variance': va, 'location': lo_, 'slope': sl, 'width': wi})),
              (c.ChangePointKernel(se, lin, lo_, sl, fixed_slope = fx), ('CP', {'location': lo_, 'slope': sl}, sse, slin)),
              (c.ChangeWindowKernel(se, lin, lo_, sl, wi, fixed_slope = fx), ('CW', {'location': lo_, 'slope': sl, 'width': wi}, sse, slin)),
              (w.ChangeWindowKernelShiftedSides(se, lin, location = lo_, slope = sl, width = wi, fixed_slope = fx), ('CW', {'location': lo_, 'slope': sl, 'width': wi, 'shift_variance': 0.}, sse, slin)),
              (w3.ChangeWindowKernelIndependent(se, lin, None, lo_, sl, wi, fixed_slope = fx), ('CWI', {'location': lo_, 'slope': sl, 'width': wi}, sse, slin, sse)),
              (w3.ChangeWindowKernelIndependent(se, lin, b.WN(), lo_, sl, wi, fixed_slope = fx), ('CWI', {'location': lo_, 'slope': sl, 'width': wi}, sse, slin, ('WN', {'variance': 1.})))]
    for ker, sp in ks:
        for A in (None, X2):
            with sut('K of %s' % (sp,)): K = ker.K(X, A)
            R, M = num.ev(sp, X, A)
            need(num.close(K, R, M), 'covariance of', sp, 'constructed with fixed slope' if fx else 'constructed', 'on', X.ravel(), lambda: num.worst(K, R))
    for name in ('S', 'Sr', 'SI', 'SIr'):
        with sut('making the base kernel %s' % name): ker = num.set_params(getattr(b, name)(), case['v'])
        sp = num.spec_of(ker)
        need(sp[0] == name, 'the base kernel', name, 'is', sp)
        sp = (name, {'slope': .2, **sp[1]})    # the documented slope when fixed
        with sut('K of %s' % (sp,)): K, K12 = ker.K(X), ker.K(X, X2)
        for got, A in ((K, None), (K12, X2)):
            R, M = num.ev(sp, X, A)
            need(num.close(got, R, M), 'covariance of the base kernel', name, sp, 'on', X.ravel(), lambda: num.worst(got, R))
    return {'fixed' if fx else 'free', 'reversed' if rev else 'ascending'}


def move(ker, by):
    """Put what a kernel does where the data are"""
    for p in num.leaf_params(ker):
        if p.name in ('location', 'stop_location', 'offset'): p[:] = float(p[0]) + by
    return ker


def compare(ker, d, X, X2, rtol = num.RTOL):
    s = kernels.spec(ker, d)
    for A in (None, X2):
        with sut('covariance of %s' % (s,)): K = ker.K(X, A)
        R, M = num.ev(s, X, A)
        need(num.close(K, R, M, rtol), 'covariance' if A is None else 'cross-covariance', s, 'on', X.ravel(), '' if A is None else A.ravel(), lambda: num.worst(K, R))
        if A is None:
            with sut('diagonal of %s' % (s,)): Kd = np.asarray(ker.Kdiag(X)).ravel()
            need(num.close(Kd, np.diag(R), np.diag(M), rtol), 'diagonal', s, 'on', X.ravel(), lambda: num.worst(Kd, np.diag(R)))


def check_offset(case):
    """Inputs far from zero, and second inputs as near to the first as can be"""
    d = case['k']
    X, X2 = gen.offset_columns(case['o'])
    ker = move(num.set_params(kernels.make(d), case['v']), case['o']['at'])
    # the squared distances of the library's stationary kernels cancel: 1e-15 of the squared inputs over the squared lengthscale
    ls = min([float(p[0]) for p in num.leaf_params(ker) if p.name in ('lengthscale', 'period')] or [1.])
    big = float(np.max(np.abs(X))) + 1
    compare(ker, d, X, X2, num.RTOL + 2e-15 * big ** 2 / ls ** 2 + 1e-14 * big / ls ** 2)
    return {'near:%s' % case['o']['near'], 'at:%d' % case['o']['at']} | {'kind:' + k for k in kernels.kinds(d)}


def check_sizes(case):
    """As many inputs as real data have"""
    d = case['k']
    X, X2 = gen.sized(case['X']), gen.sized(case['X2'])
    ker = move(num.set_params(kernels.make(d), case['v']), case['X']['at'])
    big = float(np.max(np.abs(X))) + 1
    ls = min([float(p[0]) for p in num.leaf_params(ker) if p.name in ('lengthscale', 'period')] or [1.])
    compare(ker, d, X, X2, num.RTOL + 2e-15 * big ** 2 / ls ** 2 + 1e-14 * big / ls ** 2)
    return {'points:%d00+' % (len(X) // 100), 'at:%d' % case['X']['at']} | {'kind:' + k for k in kernels.kinds(d)}


def check_units(case):
    """Inputs in any unit, from millionths to tens of thousands, evenly spaced or not"""
    d = case['k']
    u = max(case['unit'], .01) if kernels.fixed(d) else case['unit']
    ker = kernels.rescale(num.set_params(kernels.make(d), case['v']), u)
    X, X2 = gen.any_column(case['X']) * u, gen.any_column(case['X2']) * u
    compare(ker, d, X, X2)
    return {'unit:%g' % u} | {'kind:' + k for k in kernels.kinds(d)} | ({'trivial'} if len(X) < 2 else set())


def check_far(case):
    """Inputs as large as time stamps are, few or many: the kernels which take differences of inputs (or products of them) exactly"""
    d = case['k']
    at = case['at'] if kernels.kinds(d) <= {'+', '*', 'WN', 'C', 'LIN', 'LINH'} else np.clip(case['at'], -1e8, 1e8)     # a location and its sum with a width are no more exact than the inputs
    ker = move(num.set_params(kernels.make(d), case['v']), at)
    col = lambda x: gen.sized(x) if isinstance(x, dict) and 'span' in x else gen.any_column(x)
    X, X2 = col(case['X']) + at, col(case['X2']) + at
    compare(ker, d, X, X2, 2e-5)
    return {'at:%g' % at, 'many' if len(X) > 20 else 'few'} | {'kind:' + k for k in kernels.kinds(d)} | ({'trivial'} if len(X) < 2 else set())


def layout(X, kind):
    """The same numbers as other arrays: parts of wider ones, other orders in memory, other number types, read-only"""
    if kind == 'slice': return np.hstack([X, X + 1])[:, :1]
    if kind == 'fortran': return np.asfortranarray(np.hstack([X + 1, X]))[:, 1:]
    if kind == 'reversed': return np.ascontiguousarray(X[::-1])[::-1]
    if kind == 'strided': return np.repeat(X, 2, axis = 0)[::2]
    if kind == 'integers': return X.astype(int)
    if kind == 'float32': return X.astype(np.float32)
    X = X.copy()
    X.setflags(write = False)
    return X


def check_layouts(case):
    d = case['k']
    X, X2 = (np.array(case[x], float)[:, None] for x in ('X', 'X2'))   # whole numbers, exact in every type
    ker = num.set_params(kernels.make(d), case['v'])
    A, A2 = layout(X, case['l']), layout(X2, case['l2'])
    G, G2 = np.outer(np.cos(X), np.sin(X)) + 1, np.outer(np.cos(X), np.sin(X2)) + 1

    def all_of(X, X2):
        out = [np.array(ker.K(X)), np.array(ker.K(X, X2)), np.array(ker.Kdiag(X)).ravel()]
        for g, x2 in ((G, None), (G2, X2)) if 'CWI' not in kernels.kinds(d) else ():   # the three-part window bounds its own parameters by the data when asked for gradients
            ker.update_gradients_full(g, X, x2)
            out.append(ker.gradient.copy())
        return out
    with sut('covariances and gradients of %s' % d): R = all_of(X, X2)
    with sut('covariances and gradients of %s on inputs as %s and %s arrays' % (d, case['l'], case['l2'])): K = all_of(A, A2)
    for what, a, b in zip(('covariance', 'cross-covariance', 'diagonal', 'gradient', 'cross-gradient'), K, R):
        need(np.allclose(a, b, rtol = 1e-9, atol = 1e-9 * max(1, np.max(np.abs(b)))), 'the', what, 'of', d, 'with', lambda: num.spec_of(ker), 'differs for the same inputs as', case['l'], 'and', case['l2'], 'arrays:', a, b)
    return {case['l'], case['l2']} | {'kind:' + k for k in kernels.kinds(d)} | ({'trivial'} if len(X) < 2 else set())


def check_limits(case):
    """Far on either side of the change, a change kernel is the corresponding part; the two parts never mix"""
    kind, v = case['kind'], case['v']
    ker = num.set_params(kernels.make([kind, True, case['a'], case['b']]), v)
    s = num.spec_of(ker)
    l = s[1]['location']
    far = 1e7
    w = s[1].get('width', 0.)
    left, mid, right = np.array([[l - far]]), np.array([[l + w / 2]]), np.array([[l + w + far]])
    for x, sp in [(left, s[2]), (right, s[3] if kind == 'CP' else s[2])] + ([(mid, s[3])] if kind != 'CP' else []):
        R, M = num.ev(sp, x)
        with sut('K'): K = ker.K(x)
        need(num.close(K, R, M, 1e-5 if x is not mid else 2e-6), 'the covariance of', s, 'at', x, 'is', K, 'and not that of the part in force there,', R)
    with sut('K'): K = np.asarray(ker.K(left, right))
    R, M = num.ev(s[2], left, right)
    need(np.all(np.abs(K - (0 if kind == 'CP' else R)) <= 1e-5 * (M + num.ev(s[3], left, right)[1])), 'the two sides of', s, 'have covariance', K)
    return {kind}


layouts = st.sampled_from(['slice', 'fortran', 'reversed', 'strided', 'integers', 'float32', 'read-only'])
v7 = st.lists(st.integers(0, 999), min_size = 7, max_size = 7)
bounded = st.sampled_from(['WN', 'C', 'SE', 'PER', ['+', ['SE', 'C']], ['*', ['SE', 'PER']]])
exact = st.sampled_from(['WN', 'C', 'LIN', 'LINH']) | st.tuples(st.sampled_from('+*'), st.lists(st.sampled_from(['WN', 'C', 'LIN', 'LIN', 'LINH']), min_size = 2, max_size = 3)).map(list)
COMPONENTS = [
    Component('formulas', gen.twin(st.fixed_dictionaries(dict(k = kernels.kernel(), v = gen.ints, X = gen.points(1), X2 = gen.points()))), check, 4000, 100000),
    Component('constructed', gen.twin(st.fixed_dictionaries(dict(v = v7, rev = st.booleans(), fx = st.booleans(), X = gen.points(2), X2 = gen.points()))), check_built, 600, 12000),
    Component('layouts', st.fixed_dictionaries(dict(k = kernels.kernel(), v = gen.ints, X = st.lists(st.integers(-20, 20), min_size = 1, max_size = 5, unique = True), X2 = st.lists(st.integers(-20, 20), min_size = 1, max_size = 4, unique = True),
                                                    l = layouts, l2 = layouts)), check_layouts, 400, 10000),
    Component('offsets', st.fixed_dictionaries(dict(k = kernels.kernel(), v = gen.ints, o = gen.offset_points())), check_offset, 1200, 30000),
    Component('units', st.fixed_dictionaries(dict(k = kernels.kernel(), v = gen.ints, unit = st.sampled_from(kernels.UNITS), X = gen.columns(), X2 = gen.columns())), check_units, 1500, 40000),
    Component('far', st.fixed_dictionaries(dict(k = exact | kernels.change(['CP', 'CW', 'CWS'], exact), v = gen.ints, at = st.sampled_from([1e6, 1e8, 1.6e9, -3e9]), X = gen.columns(), X2 = gen.columns())), check_far, 800, 20000),
    Component('far sizes', st.fixed_dictionaries(dict(k = exact | kernels.change(['CP', 'CW', 'CWS'], exact), v = gen.ints, at = st.sampled_from([1e6, 1e8, 1.6e9, -3e9]), X = gen.data_sizes(20, 250, (4., 20.), (0.,)), X2 = gen.data_sizes(20, 150, (4., 20.), (0.,)))), check_far, 160, 4000),
    Component('sizes', st.fixed_dictionaries(dict(k = kernels.kernel(), v = gen.ints, X = gen.data_sizes(), X2 = gen.data_sizes(20, 120, offsets = (0., 1900.)))), check_sizes, 200, 5000),
    Component('limits', st.fixed_dictionaries(dict(kind = st.sampled_from(['CP', 'CW']), a = bounded, b = bounded, v = gen.ints)), check_limits, 1000, 20000),
]
