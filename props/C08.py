"""Sum-of-products form"""
import copy
from hypothesis import strategies as st
import ref, ke, gen, num, annot
from harness import Component, need, sut
from props.C01 import simplified
from props.C07 import annotated

ID = 'C08'
TITLE = 'The sum-of-products form has the covariance of the original expression'
RULE = ('Canonical expressions with at most 60 product terms after distribution and generated parameter values; the covariance denoted by the terms and their parameters is compared with that of the kernel, '
        'and the number and shape of the terms with the distributive law. Non-trivial: two or more terms or two or more leaves.')
ASSUMPTIONS = ['Change operators are read as sums of their branches times the two complementary sigmoidals (slope .5 when fixed)', 'White noise times anything is judged on distinct inputs, where it is a diagonal matrix']


def sops_of(k, ker):
    a = annotated(k, ker)
    with sut('sum-of-products form of %s' % k): return a.sum_of_prods_form()


def sop_spec(s, k):
    SumKE, ProductKE, ChangeKE = ke._K()
    need(isinstance(s, (SumKE, ProductKE)), 'the sum-of-products form of', k, 'is a', type(s).__name__)
    terms = [s] if isinstance(s, ProductKE) else list(s.composite_terms)
    if isinstance(s, SumKE): need(sum(s.base_terms.values()) == 0, 'the sum-of-products form of', k, 'has bare terms')
    for p in terms: need(isinstance(p, ProductKE) and not p.composite_terms, 'a term of the sum-of-products form of', k, 'is', p)
    return ('+', [annot.spec_of(p) for p in terms])


def check(case):
    k = simplified(ref.fromjson(case['t']))
    t = ke.tree(k)
    n = annot.sop_count(t)
    if n > case.get('most', 60): return {'trivial', 'too many terms'}
    ker = num.set_params(k.to_kernel(), case['v'])
    X, X2 = gen.pair(case)
    spec = num.spec_of(ker)
    got = sop_spec(sops_of(k, ker), k)
    need(len(got[1]) == n, 'the sum-of-products form of', k, 'has', len(got[1]), 'terms instead of', n)
    for x2 in (None, X2):
        R, M = num.ev(spec, X, x2)
        A, MA = num.ev(got, X, x2)
        need(num.close(A, R, M + MA), 'the sum-of-products form', got, 'of', k, 'with', spec, 'has another covariance on', X.ravel(), '' if x2 is None else X2.ravel(), lambda: num.worst(A, R))
    need(ke.tree(k) == t, 'the original was modified')
    return gen.labels(t, {'terms:' + ('1' if n == 1 else '2-4' if n < 5 else '5-15' if n < 16 else '16-60' if n < 61 else '61+')}) | ({'trivial'} if ref.size(t) < 2 else set())


@st.composite
def trees(draw):
    j = draw(gen.tree(4, 3, leaves = 12, root_composite = True, min_depth = 2))
    return j if annot.sop_count(ref.norm(ref.fromjson(j))) <= 60 else draw(gen.tree(2, 3, leaves = 7, root_composite = True))


@st.composite
def large(draw):
    """Products of sums, which have hundreds of terms after distribution"""
    n = draw(st.sampled_from([3, 2, 4, 3]))
    most = {2: 14, 3: 6, 4: 4}[n]
    kids = [['+', draw(st.lists(st.sampled_from(['PER', 'LIN', 'PER', 'SE', 'WN', ['*', ['PER', 'LIN']]]), min_size = most - 2, max_size = most))] for _ in range(n)]
    t = ['*', kids + draw(st.lists(st.sampled_from(['LIN', 'PER']), max_size = 1))]
    return draw(st.sampled_from([t, t, ['+', [t, 'C']], ['CP', t, 'LIN']]))


cases = st.fixed_dictionaries(dict(t = trees(), v = gen.ints, X = gen.points(2, 4), X2 = gen.points(1, 4)))
COMPONENTS = [Component('covariance', gen.twin(cases), check, 3200, 80000),
              Component('deep', st.fixed_dictionaries(dict(t = gen.deep(), v = gen.ints, X = gen.points(2, 3), X2 = gen.points(1, 3))), check, 150, 4000),
              Component('large', st.fixed_dictionaries(dict(t = large(), v = gen.ints, X = gen.points(2, 3), X2 = gen.points(1, 3), most = st.just(700))), check, 40, 1500),
              Component('many', st.fixed_dictionaries(dict(t = gen.many(False), v = gen.ints, X = gen.points(2, 3), X2 = gen.points(1, 3))), check, 60, 2500)]
