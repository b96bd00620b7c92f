"""Interpretations"""
import copy
import numpy as np
from hypothesis import strategies as st
import ref, ke, gen, num, annot, text
from harness import Component, need, sut
from props.C01 import simplified
from props.C07 import annotated

ID = 'C09'
TITLE = 'The text interpretation states exactly the components of the fitted model'
RULE = ('Canonical expressions with at most 40 product terms and generated parameter values; the text is read back component by component (kind, periods, lengthscales, offsets, intervals, variance) and '
        'matched one to one with the distributed terms of the kernel. Non-trivial: two or more leaves.')
ASSUMPTIONS = ['Numbers are read up to the two decimals printed; interval membership is judged at points at least .015 from every change location']


def check(case):
    k = simplified(ref.fromjson(case['t']))
    t = ke.tree(k)
    if annot.sop_count(t) > 40: return {'trivial', 'too many terms'}
    ker = num.set_params(k.to_kernel(), case['v'], num.WIDE if case.get('wide') else num.RANGES)
    vs = [p for p in num.leaf_params(ker) if p.name == 'variance']
    for i, z in case.get('none', []): vs[i % len(vs)][:] = z      # parts which contribute (next to) nothing are still parts of the model
    spec = num.spec_of(ker)
    a = annotated(k, ker)
    with sut('interpretation of %s with %s' % (k, spec)): s = a.get_interpretation()
    text.compare(s, spec, k)
    out = gen.labels(t)
    for v, f in text.sop(spec):
        d = text.describe(v, f)
        if d['where'] is not None: out.add('intervals:%d' % min(len(d['where']), 3))
        if len(d['per']) > 1: out.add('several periods')
        if len(d['lin']) > 1: out.add('polynomial')
    return out | ({'trivial'} if ref.size(t) < 2 else set())


def check_model(case):
    """Through the model object, as users do; the interpretation does not change the model and is repeatable"""
    from GPy.models import GPRegression
    from GPy_ABCD.Models.model import GPModel
    k = simplified(ref.fromjson(case['t']))
    t = ke.tree(k)
    if annot.sop_count(t) > 40: return {'trivial'}
    X = np.arange(6.)[:, None] / 2
    Y = np.cos(X) * 2
    m = GPModel(X, Y, k)
    try: m.interpret(); need(False, 'a model which has not been fitted was interpreted')
    except ValueError: pass
    with sut('regression with %s' % k): m.model = GPRegression(X, Y, k.to_kernel())   # what fitting sets, with generated instead of optimised parameters
    num.set_params(m.model.kern, case['v'])
    spec = num.spec_of(m.model.kern)
    snap = ke.snapshot(m.kernel_expression)
    with sut('interpret() of %s' % k): s, s2 = m.interpret(), m.interpret()
    text.compare(s, spec, k)
    need(s == s2, 'a second interpretation differs:', s, '|', s2)
    need(ke.snapshot(m.kernel_expression) == snap, 'interpreting modified the expression', k)
    need(num.spec_of(m.model.kern) == spec, 'interpreting modified the fitted kernel')
    from props.C08 import sop_spec
    A, MA = num.ev(sop_spec(m.sum_of_prods_kex, k), X)
    R, M = num.ev(spec, X)
    need(num.close(A, R, M + MA), 'after interpreting, the sum-of-products form of the model', k, 'has another covariance')
    return gen.labels(t) | ({'trivial'} if ref.size(t) < 2 else set())


@st.composite
def trees(draw):
    j = draw(gen.tree(4, 3, leaves = 12, root_composite = True, min_depth = 2))
    return j if annot.sop_count(ref.norm(ref.fromjson(j))) <= 40 else draw(gen.tree(2, 3, leaves = 7, root_composite = True))


def nested_changes(draw):
    """Change operators multiplied and nested, for intersections of intervals"""
    def ch(d):
        b = lambda: draw(st.sampled_from(['LIN', 'PER', 'C', 'WN']))
        return [draw(st.sampled_from(['CP', 'CW'])), ch(d - 1) if d and draw(st.booleans()) else b(), ch(d - 1) if d and draw(st.booleans()) else b()]
    n = draw(st.integers(1, 2))
    return ch(2) if n == 1 else ['*', [ch(1), ch(0)]]


from hypothesis.strategies import composite
cases = st.fixed_dictionaries(dict(t = st.one_of(trees(), trees(), composite(nested_changes)()), v = gen.ints))
COMPONENTS = [Component('text', cases, check, 3600, 100000), Component('negligible', st.fixed_dictionaries(dict(t = st.one_of(trees(), trees(), composite(nested_changes)()), v = gen.ints, none = st.lists(st.tuples(st.integers(0, 20), st.sampled_from([0., 0., 1e-12, 1e-300])), min_size = 1, max_size = 3))), check, 500, 12000), Component('model', cases, check_model, 250, 5000),
              Component('deep', st.fixed_dictionaries(dict(t = gen.deep(), v = gen.ints)), check, 150, 4000),
              Component('many', st.fixed_dictionaries(dict(t = gen.many(False), v = gen.ints)), check, 50, 2500),
              Component('wide', st.fixed_dictionaries(dict(t = st.one_of(trees(), composite(nested_changes)()), v = gen.ints, wide = st.just(True))), check, 700, 20000)]
