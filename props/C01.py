"""Simplification computes the canonical form"""
from hypothesis import strategies as st
import ref, ke, gen
from harness import Component, need, sut

ID = 'C01'
TITLE = 'Simplification computes one canonical form'
RULE = ('Kernel-expression trees written in any order, nesting and multiplicity (depth up to 5, up to about 20 leaves, one-element nodes and equal siblings included), '
        'pairs of differently ordered and bracketed writings of one tree, and trees with a node replaced. Non-trivial: the canonical form has at least two leaves or the tree as written was not canonical already.')
ASSUMPTIONS = ['The canonical form is the one of lib/ref.py (WN and C idempotent in sums, LIN absorbing C in sums, WN absorbing stationary factors, C identity and SE idempotent in products, nested sums/products flattened, one-element nodes unwrapped), taken from the documentation and comments of the simplification methods']


def simplified(t):
    from GPy_ABCD.KernelExpansion.grammar import make_simple_kexs
    with sut('make_simple_kexs of %r' % (t,)): return make_simple_kexs([t if ref.is_base(t) else ke.build(t)])[0]


def check_canonical(case):
    t = ref.fromjson(case)
    want = gen.std(ref.norm(t))
    k = simplified(t)
    got = ke.tree(k)
    need(got == want, 'simplified form of', t, 'is', got, 'instead of', want)
    need(not ke.links(k), lambda: ke.links(k))
    # the whole-tree initialisation alone may leave a one-element root, but nothing else
    with sut('_initialise of %r' % (t,)): k2 = ke.build(t)._initialise()
    need(gen.std(ke.unwrap(ke.tree(k2))) == want, '_initialise of', t, 'gives', ke.tree(k2), 'instead of', want)
    # idempotence
    with sut('second simplification of %s' % k): k3 = k.simplify()
    need(ke.tree(k3) == want, 'simplifying', k, 'again gives', ke.tree(k3))
    with sut('third simplification'): k4 = simplified(want)
    need(ke.tree(k4) == want, 'the canonical form', want, 'is re-simplified to', ke.tree(k4))
    out = gen.labels(want)
    if ref.size(want) < ref.size(t): out.add('reduced')
    if ref.size(want) < 2 and ref.is_base(t): out.add('trivial')
    return out


@st.composite
def writings(draw):
    j = draw(gen.tree(4, 4, leaves = 14, root_composite = True))
    return {'a': j, 'b': gen.shuffled(draw, ref.fromjson(j))}


def check_writings(case):
    a, b = (simplified(ref.fromjson(case[x])) for x in 'ab')
    need(ke.tree(a) == ke.tree(b), 'writings', case['a'], 'and', case['b'], 'of one expression simplify to', a, 'and', b)
    need(a == b and b == a and not (a != b), 'simplified forms of two writings compare different:', a, '|', b)
    return gen.labels(ke.tree(a), {'same text'} if case['a'] == case['b'] else {'rewritten'}) | ({'trivial'} if ref.size(ke.tree(a)) < 2 else set())


def check_partial(case):
    """Constructors simplify as they go: whatever they leave unsimplified has the same canonical form"""
    t = ref.fromjson(case)
    with sut('construction of %r' % (t,)): k = ke.build(t)
    need(ref.norm(ke.tree(k)) == ref.norm(t), 'constructing', t, 'gives', ke.tree(k), 'whose canonical form is', ref.norm(ke.tree(k)), 'instead of', ref.norm(t))
    return gen.labels(t) | ({'trivial'} if ref.size(t) < 2 else set())


def replaced(k, node, by):
    """The tree of the expression k with one of its nodes replaced"""
    if k is node: return by
    if isinstance(k, str): return k
    if hasattr(k, 'CP_or_CW'): return (k.CP_or_CW, replaced(k.left, node, by), replaced(k.right, node, by))
    op = ke.tree(k)[0]
    return (op, tuple(b for b in k.base_terms.elements()) + tuple(replaced(c, node, by) for c in k.composite_terms))


def check_replaced(case):
    """Simplification of a tree with a node replaced, as in every expansion step"""
    k = simplified(ref.fromjson(case['t']))
    ns = ke.nodes(k)
    node = ns[case['i'] % len(ns)]
    own = ke.nodes(node)[case['own'] % len(ke.nodes(node))] if case['own'] is not None else None      # a part of the replaced node, as when terms are removed
    by = ref.fromjson(case['by']) if own is None else ke.tree(own)
    t = replaced(k, node, by)
    want = ref.norm(t)
    before = ke.snapshot(k)
    with sut('replacement of %s in %s by %s' % (node, k, case['by'])): new = node.new_tree_with_self_replaced(ke.build(by) if own is None else own).root
    need(not ke.links(new), 'replacing', node, 'in', k, 'by', by, 'breaks links:', lambda: ke.links(new))
    need(ref.norm(ke.tree(new)) == want, 'replacing', node, 'in', k, 'by', by, 'gives', new)
    with sut('simplification of %s' % new): new = new.simplify()
    need(ke.unwrap(ke.tree(new)) == want, 'with', node, 'in', k, 'replaced by', by, 'it simplifies to', new, 'instead of', want)
    if new.parent is None: need(not ke.links(new), lambda: ke.links(new))
    need(ke.snapshot(k) == before, 'replacing', node, 'in', k, 'changed it')
    return gen.labels(gen.std(want), {'root' if node is k else 'in a change' if any(hasattr(n, 'CP_or_CW') for n in ns) else 'plain'}) | ({'trivial'} if node is k else set())


COMPONENTS = [
    Component('canonical', gen.tree(5, 4, leaves = 20), check_canonical, 6000),
    Component('deep', gen.deep(), check_canonical, 1200),
    Component('deep constructors', gen.deep(), check_partial, 600),
    Component('writings', writings(), check_writings, 3000),
    Component('constructors', gen.tree(5, 4, leaves = 20, root_composite = True), check_partial, 3000),
    Component('replaced', st.fixed_dictionaries(dict(t = gen.tree(4, 4, leaves = 14, root_composite = True, min_depth = 2), i = st.integers(0, 30), own = st.none() | st.none() | st.integers(0, 9), by = gen.tree(3, 3, leaves = 6))), check_replaced, 3000),
]
