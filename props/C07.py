"""Absorbing fitted parameters"""
import copy
from hypothesis import strategies as st
import ref, ke, gen, num, annot
from parse import flat
from harness import Component, need, sut
from props.C01 import simplified

ID = 'C07'
TITLE = 'An expression absorbs the parameters of its fitted kernel in the right places'
RULE = ('Canonical expressions with generated distinct parameter values (equal sibling sub-expressions, equal branches and several sums/products/changes per node included); '
        'the annotated expression is read back and evaluated. Non-trivial: three or more parameters.')
ASSUMPTIONS = ['Base kernels of one kind in one sum or product are interchangeable', 'A product with base factors carries their one variance itself, as documented']


def annotated(k, ker):
    from GPy_ABCD.KernelExpansion.kernelOperations import get_param_dict
    with sut('absorbing the parameters of %s' % k): return copy.deepcopy(k).match_up_fit_parameters(get_param_dict(ker), '')


def compare(k, ker, a, X):
    t, spec = ke.tree(k), num.spec_of(ker)
    need(ke.tree(a) == t and not ke.links(a), 'absorbing parameters turned', k, 'into', a)
    got = annot.spec_of(a)
    need(num.structure(prune(got), flat) == flat(t), 'annotated structure')
    vs, ws = sorted(annot.values(got)), sorted(annot.values(spec))
    need(len(vs) == len(ws) and all(abs(x - y) <= 1e-12 * (1 + abs(y)) for x, y in zip(vs, ws)), 'the parameters of', k, 'are', ws, 'but it absorbed', vs)
    R, M = num.ev(spec, X)
    A, _ = num.ev(got, X)
    need(num.close(A, R, M), 'with the parameters absorbed by', k, got, 'its covariance on', X.ravel(), 'is wrong', lambda: num.worst(A, R), 'kernel parameters:', spec)


def prune(spec):
    """Without the constants that stand for the products' own variances"""
    if spec[0] == '*': return ('*', [prune(s) for s in (spec[1][1:] if spec[1] and spec[1][0][0] == 'C' else spec[1])])
    if spec[0] == '+': return ('+', [prune(s) for s in spec[1]])
    return spec[:2] + tuple(prune(s) for s in spec[2:])


def check(case):
    k = simplified(ref.fromjson(case['t']))
    ker = num.set_params(k.to_kernel(), case['v'])
    before = ke.snapshot(k)
    a = annotated(k, ker)
    compare(k, ker, a, gen.col(case['X']))
    need(ke.snapshot(k) == before, 'absorbing parameters into a copy modified the original')
    n = len(num.leaf_params(ker))
    kinds = [x[0] if not ref.is_base(x) else 'b' for x in (ke.tree(k)[1] if ke.tree(k)[0] in '+*' else ke.tree(k)[1:])]
    return gen.labels(ke.tree(k), {'params:' + ('1-2' if n < 3 else '3-7' if n < 8 else '8+')}) | ({'same-kind composites'} if any(kinds.count(x) > 1 for x in '+*' + 'CPCW' if x != 'b') else set()) | ({'trivial'} if n < 3 else set())


def check_model(case):
    """The same through a regression model, as done after every fit"""
    import numpy as np
    from GPy.models import GPRegression
    from GPy_ABCD.KernelExpansion.kernelOperations import fit_ker_to_kex_with_params
    k = simplified(ref.fromjson(case['t']))
    X = np.arange(5.)[:, None] / 2
    with sut('regression with %s' % k): m = GPRegression(X, np.sin(X) * 3, k.to_kernel())
    num.set_params(m.kern, case['v'])
    with sut('absorbing the fitted parameters of %s' % k): a = fit_ker_to_kex_with_params(m.kern, copy.deepcopy(k))
    compare(k, m.kern, a, gen.col(case['X']))
    return gen.labels(ke.tree(k)) | ({'trivial'} if ref.size(ke.tree(k)) < 2 else set())


def check_random(case):
    """An expression given random parameters: those of the kernel which the same draws randomise"""
    import numpy as np
    from GPy_ABCD.KernelExpansion.kernelOperations import init_rand_params
    k = simplified(ref.fromjson(case['t']))
    np.random.seed(case['s'])
    with sut('random parameters for %s' % k): a = init_rand_params(copy.deepcopy(k), False)
    np.random.seed(case['s'])
    ker = k.to_kernel()
    ker.randomize()
    compare(k, ker, a, gen.col(case['X']))
    return gen.labels(ke.tree(k)) | ({'trivial'} if len(num.leaf_params(ker)) < 3 else set())


def mild(name):
    return st.fixed_dictionaries(dict(t = gen.tree(4, 4, leaves = 14, root_composite = True, min_depth = 2), v = gen.ints, X = gen.points(2, 4)))

COMPONENTS = [Component('absorb', mild('absorb'), check, 2600, 80000), Component('model', mild('model'), check_model, 200, 4000),
              Component('random', st.fixed_dictionaries(dict(t = gen.tree(4, 4, leaves = 12, root_composite = True, min_depth = 2), s = st.integers(0, 10**6), X = gen.points(2, 4))), check_random, 200, 4000),
              Component('deep', st.fixed_dictionaries(dict(t = gen.deep(), v = gen.ints, X = gen.points(2, 3))), check, 150, 4000),
              Component('many', st.fixed_dictionaries(dict(t = gen.many(), v = gen.ints, X = gen.points(2, 3))), check, 60, 2500)]
