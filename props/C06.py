"""Kernel generation and composition"""
import numpy as np
from hypothesis import strategies as st
import ref, ke, gen, num, refgram
from parse import flat
from harness import Component, need, sut
from props.C01 import simplified

ID = 'C06'
TITLE = 'The covariance of an expression is the composition of its parts'
RULE = ('Canonical expressions (up to about 12 leaves) with generated parameter values and input locations; the generated kernel is compared with an independent evaluation of the expression, '
        'on one and on two sets of inputs and on the diagonal. Non-trivial: two or more leaves.')
ASSUMPTIONS = ['Parameter ranges: variances .01 to 100, periods .2 to 20, lengthscales .05 to 50, offsets -20 to 20, locations -10 to 10, widths .05 to 20; inputs -20 to 20',
               'Matrices are compared up to 2e-6 of the magnitudes combined (the periodic kernel is documented to use a polynomial approximation)']


def var_counts(ker, top = True):
    """Check that each product has exactly one linked variance among its base factors, and everything else its own; return the number of parameters"""
    own, subs = num.split(ker)
    kind = num.kname(ker)
    if kind == '*':
        bases = [s for s in subs if not num.split(s)[1]]
        vs = sum('variance' in num.split(b)[0] for b in bases)
        need(vs == min(1, len(bases)), 'a product of', [b.name for b in bases], 'has', vs, 'variances')
    elif kind in ('+', 'CP', 'CW'):
        for s in subs:
            if not num.split(s)[1]: need('variance' in num.split(s)[0], 'the term', s.name, 'of a', ker.name, 'has no variance')
    elif top: need('variance' in own, 'the lone kernel', ker.name, 'has no variance')
    for s in subs: var_counts(s, False)


def expected_size(t, in_prod = False):
    n = {'WN': 1, 'C': 1, 'LIN': 2, 'SE': 2, 'PER': 3}
    if ref.is_base(t): return n[t]
    if t[0] == 'CP': return 1 + expected_size(t[1]) + expected_size(t[2])
    if t[0] == 'CW': return 2 + expected_size(t[1]) + expected_size(t[2])
    bases = sum(ref.is_base(x) for x in t[1])
    return sum(expected_size(x) for x in t[1]) - (max(0, bases - 1) if t[0] == '*' else 0)


def compare(ker, spec, X, X2, what):
    with sut('covariance of %s' % (what,)): K, K12, Kd = ker.K(X), ker.K(X, X2), ker.Kdiag(X)
    R, M = num.ev(spec, X)
    need(num.close(K, R, M), 'covariance of', what, 'with', spec, 'on', X.ravel(), lambda: num.worst(K, R))
    R2, M2 = num.ev(spec, X, X2)
    need(num.close(K12, R2, M2), 'cross-covariance of', what, 'with', spec, 'on', X.ravel(), X2.ravel(), lambda: num.worst(K12, R2))
    need(num.close(Kd, np.diag(R), np.diag(M)), 'diagonal of', what, 'with', spec, 'on', X.ravel(), lambda: num.worst(Kd, np.diag(R)))
    return K, R, M


def check(case):
    t = gen.canonical(case['t'])
    k = simplified(t)
    before = ke.snapshot(k)
    with sut('to_kernel of %s' % k): ker = k.to_kernel()
    need(ke.snapshot(k) == before, 'to_kernel modified', k)
    st_ = num.structure(num.spec_of(ker), flat)
    need(st_ == flat(t), 'the kernel of', k, 'has the structure', st_)
    var_counts(ker)
    n = len(num.leaf_params(ker))
    need(n == expected_size(flat(t)), 'the kernel of', k, 'has', n, 'parameters instead of', expected_size(flat(t)))
    X, X2 = gen.pair(case)
    if case['default']: pass
    else: num.set_params(ker, case['v'])
    K, R, M = compare(ker, num.spec_of(ker), X, X2, str(k))
    need(np.array_equal(K, K.T) or num.close(K, K.T, M, 1e-12), 'the covariance of', k, 'is not symmetric')
    e = np.linalg.eigvalsh((K + K.T) / 2)
    need(e[0] >= -1e-6 * max(np.max(M), 1e-9) * len(X), 'the covariance of', k, 'with', lambda: num.spec_of(ker), 'has the negative eigenvalue', e[0])
    return gen.labels(t, {'points:%d' % len(X)}) | ({'trivial'} if ref.size(t) < 2 else set())


def check_sizes(case):
    """As many inputs as real data have, where they lie"""
    t = gen.canonical(case['t'])
    k = simplified(t)
    ker = num.set_params(k.to_kernel(), case['v'])
    at = case['X']['at']
    for p in num.leaf_params(ker):
        if p.name in ('location', 'stop_location', 'offset'): p[:] = float(p[0]) + at
    X, X2 = gen.sized(case['X']), gen.sized(case['X2'])
    s, big = num.spec_of(ker), float(np.max(np.abs(X))) + 1
    ls = min([float(p[0]) for p in num.leaf_params(ker) if p.name in ('lengthscale', 'period')] or [1.])
    for A in (None, X2):
        with sut('covariance of %s' % k): K = ker.K(X, A)
        R, M = num.ev(s, X, A)
        need(num.close(K, R, M, num.RTOL + 2e-15 * big ** 2 / ls ** 2 + 1e-14 * big / ls ** 2), 'covariance' if A is None else 'cross-covariance', 'of', k, 'with', s, 'on', len(X), 'inputs', lambda: num.worst(K, R))
    return gen.labels(t, {'points:%d00+' % (len(X) // 100), 'at:%d' % at}) | ({'trivial'} if ref.size(t) < 2 else set())


def check_unrefined(case):
    """The direct reading of the text form is the same composition, with every variance kept"""
    t = gen.canonical(case['t'])
    k = simplified(t)
    with sut('to_kernel_unrefined of %s' % k): ker = k.to_kernel_unrefined()
    need(num.structure(num.spec_of(ker), flat) == flat(t), 'the unrefined kernel of', k, 'has the structure', num.structure(num.spec_of(ker), flat))
    num.set_params(ker, case['v'])
    compare(ker, num.spec_of(ker), *gen.pair(case), str(k))
    return gen.labels(t) | ({'trivial'} if ref.size(t) < 2 else set())


def check_stationary(case):
    """Shifting all inputs leaves the covariance of an expression declared stationary unchanged"""
    t = gen.canonical(case['t'])
    k = simplified(t)
    if not k.is_stationary(): return {'trivial', 'not stationary'}
    ker = num.set_params(k.to_kernel(), case['v'])
    X, X2, s = gen.col(case['X']), gen.col(case['X2']), case['shift'] / 4
    M = num.ev(num.spec_of(ker), X, X2)[1]
    need(num.close(ker.K(X, X2), ker.K(X + s, X2 + s), M, 1e-5), k, 'is declared stationary but its covariance changes when the inputs are shifted by', s)
    return {'stationary'} | ({'trivial'} if ref.size(t) < 2 else set())


def check_history(case):
    """The kernel of an expression made from others that have had their kernels made is its own"""
    from GPy_ABCD.KernelExpansion.grammar import expand
    import GPy_ABCD as G
    by_name = {n: f for d in G.production_rules_by_type.values() for n, f in d.items()}
    k, out = simplified(gen.canonical(case['t'])), set()
    for rule, i in case['path']:
        t = gen.std(ref.norm(ke.tree(k)))
        ker = k.to_kernel()
        need(num.structure(num.spec_of(ker), flat) == flat(t), 'the kernel of', k, 'has the structure', num.structure(num.spec_of(ker), flat))
        n = len(num.leaf_params(ker))
        need(n == expected_size(flat(t)), 'the kernel of', k, 'has', n, 'parameters instead of', expected_size(flat(t)))
        num.set_params(ker, case['v'])
        compare(ker, num.spec_of(ker), *gen.pair(case), str(k))
        if ref.size(t) > 10: break
        with sut('expansion of %s' % k): ks = expand(k, [by_name[rule]])
        if not ks: continue
        out.add('rule:' + rule)
        for o in ks[::max(1, len(ks) // 3)]:
            got = num.structure(num.spec_of(o.to_kernel()), flat)
            need(got == flat(ke.tree(o)), o, 'expanded from', k, 'has the kernel', got)
        k = ks[i % len(ks)]
    return out | ({'trivial'} if not out else set())


body = dict(v = gen.ints, X = gen.points(2), X2 = gen.points())
tr = gen.tree(4, 3, leaves = 12, root_composite = True, min_depth = 2)
COMPONENTS = [
    Component('composition', gen.twin(st.fixed_dictionaries(dict(t = tr, default = st.sampled_from([False] * 5 + [True]), **body))), check, 3000, 60000),
    Component('unrefined', gen.twin(st.fixed_dictionaries(dict(t = tr, **body))), check_unrefined, 600, 12000),
    Component('many', st.fixed_dictionaries(dict(t = gen.many(), default = st.just(False), **body)), check, 60, 2000),
    Component('deep', st.fixed_dictionaries(dict(t = gen.deep(), default = st.just(False), **body)), check, 150, 4000),
    Component('history', st.fixed_dictionaries(dict(t = gen.tree(3, 3, leaves = 6), path = st.lists(st.tuples(st.sampled_from(sorted(refgram.rules(['WN', 'C', 'LIN', 'PER']))), st.integers(0, 60)).map(list), min_size = 1, max_size = 4), **body)), check_history, 600, 12000),
    Component('sizes', st.fixed_dictionaries(dict(t = gen.tree(3, 3, leaves = 8, root_composite = True, min_depth = 2), v = gen.ints, X = gen.data_sizes(), X2 = gen.data_sizes(20, 100, offsets = (0., 1900.)))), check_sizes, 300, 6000),
    Component('stationary', st.fixed_dictionaries(dict(t = gen.tree(3, 3, bases = ['PER', 'SE', 'PER', 'C', 'WN'], changes = False, leaves = 6, root_composite = True, min_depth = 2), shift = st.integers(-20, 20), **body)), check_stationary, 500, 10000),
]
