"""Structural queries"""
from hypothesis import strategies as st
import ref, ke, gen, refgram
from harness import Component, need, sut
from props.C01 import simplified

ID = 'C21'
TITLE = 'Structural queries agree with the structure of the expression'
RULE = 'Expressions as constructed and in canonical form, and products with sigmoidal factors as of sum-of-products forms; every node is queried. Non-trivial: two or more leaves.'
ASSUMPTIONS = ['Stationary means: no LIN and no change operator anywhere (documented sets of stationary kernels)', 'A base kernel directly inside a change counts as a one-element sum node in traversals and reductions, as documented']


def all_nodes(t): return [n for n, _ in refgram.positions(t)]


def check(case):
    t0 = ref.fromjson(case['t'])
    with sut('construction'): built = ke.build(t0)._initialise()
    for k in (built, simplified(t0)):
        t = ke.tree(k)
        for n in ke.nodes(k):
            nt = ke.tree(n)
            bases = set(ref.bases_in(nt))
            with sut('queries of %s' % n):
                for b in ref.BASES: need(bool(n.contains_base(b)) is (b in bases), 'contains_base(%s) of %s is %s' % (b, nt, n.contains_base(b)))
                need(bool(n.contains_base(case['bases'])) is bool(bases & set(case['bases'])), 'contains_base(%s) of %s is %s' % (case['bases'], nt, n.contains_base(case['bases'])))
                need(bool(n.is_stationary()) is (not ref.has_change(nt) and 'LIN' not in bases), 'is_stationary of', nt, 'is', n.is_stationary())
                seen = sorted(map(str, map(ke.tree, n.traverse())))
                need(seen == sorted(map(str, all_nodes(nt))), 'traversal of', nt, 'visits', seen)
                red = n.reduce(lambda x, acc: acc + [str(ke.tree(x))], [])
                need(sorted(red) == sorted(map(str, all_nodes(nt))), 'reduction of', nt, 'visits', red)
                if not isinstance(n, ke._K()[2]): need(n.term_count() == len(nt[1]), 'term_count of', nt, 'is', n.term_count())
                need(bool(n.is_root()) is (n is k), 'is_root of', nt, 'in', t)
            for x in n.traverse():
                need(x.root is k, 'a traversed node of', t, 'has another root')
                need(x is k or x.parent is not None, 'a traversed inner node has no parent')
        need(ke.tree(k) == t and not ke.links(k), 'queries modified', t)
    return gen.labels(t) | ({'trivial'} if ref.size(t) < 2 else {'stationary'} if k.is_stationary() else set())


SIGMOIDS = ['S', 'Sr', 'SI', 'SIr']


def check_sigmoids(case):
    """Sums and products holding sigmoidal base terms, as sum-of-products forms do"""
    SumKE, ProductKE, _ = ke._K()
    with sut('construction'): k = SumKE(case['own'], [ProductKE(bs, [SumKE(c) for c in cs]) for bs, cs in case['prods']]).set_root()
    t = ke.tree(k)
    for n in ke.nodes(k):
        nt = ke.tree(n)
        bases = set(ref.bases_in(nt))
        with sut('queries of %s' % n):
            for b in ref.BASES + tuple(SIGMOIDS): need(bool(n.contains_base(b)) is (b in bases), 'contains_base(%s) of %s is %s' % (b, nt, n.contains_base(b)))
            need(bool(n.contains_base(case['bases'])) is bool(bases & set(case['bases'])), 'contains_base(%s) of %s is %s' % (case['bases'], nt, n.contains_base(case['bases'])))
            need(bool(n.is_stationary()) is (not bases & {'LIN', *SIGMOIDS}), 'is_stationary of', nt, 'is', n.is_stationary())
            need(n.term_count() == len(nt[1]), 'term_count of', nt, 'is', n.term_count())
            need(sorted(str(ke.tree(x)) for x in n.traverse()) == sorted(map(str, all_nodes(nt))), 'traversal of', nt, 'visits', n.traverse())
    need(ke.tree(k) == t, 'queries modified', t)
    return {'sigmoidal' if set(ref.bases_in(t)) & set(SIGMOIDS) else 'plain'} | ({'trivial'} if ref.size(t) < 3 else set())


lst = st.lists(st.sampled_from(list(gen.ALL) + SIGMOIDS), max_size = 5)
COMPONENTS = [Component('sigmoidal', st.fixed_dictionaries({'own': lst, 'prods': st.lists(st.tuples(lst, st.lists(lst, max_size = 1)), max_size = 3), 'bases': st.lists(st.sampled_from(list(gen.ALL) + SIGMOIDS), max_size = 3)}), check_sigmoids, 3000, 60000),
    Component('deep', st.fixed_dictionaries({'t': gen.deep(), 'bases': st.lists(st.sampled_from(gen.ALL), max_size = 4)}), check, 800, 20000),
    Component('queries', st.fixed_dictionaries({'t': gen.tree(5, 4, leaves = 16, root_composite = True), 'bases': st.lists(st.sampled_from(gen.ALL), max_size = 4)}), check, 6000, 200000)]
