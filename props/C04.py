"""Expansion computes the grammar at every position"""
from hypothesis import strategies as st
import ref, ke, gen, refgram
from harness import Component, need, sut
from props.C01 import simplified

ID = 'C04'
TITLE = 'Expansion is the grammar applied at every position'
RULE = ('Canonical expressions (up to about 12 leaves, change operators and equal siblings included) with one rule, a set of rules or a named group. '
        'Non-trivial: the expression has two or more leaves.')
ASSUMPTIONS = ['The production rules mean what their documentation strings and comments say (lib/refgram.py); SE is not introduced by rules in the default configuration',
               'Expansions are compared as sets of canonical forms: their order is not part of the property']
BASES = ['WN', 'C', 'LIN', 'PER']
R = refgram.rules(BASES)


@st.composite
def single(draw):
    return {'t': draw(gen.tree(4, 4, leaves = 12, root_composite = True)), 'rules': [draw(st.sampled_from(sorted(R)))], 'given': draw(st.sampled_from(['plain', 'nodes']))}


@st.composite
def several(draw):
    return {'t': draw(gen.tree(3, 3, leaves = 6, root_composite = True)),
            'rules': draw(st.one_of(st.lists(st.sampled_from(sorted(R)), min_size = 2, max_size = 4, unique = True), st.sampled_from(sorted(refgram.GROUPS) + ['All']))), 'given': draw(st.sampled_from(['plain', 'plain', 'own', 'twice']))}


def check(case):
    import GPy_ABCD as G
    from GPy_ABCD.KernelExpansion.grammar import expand
    t = gen.canonical(case['t'])
    by_name = {n: f for d in G.production_rules_by_type.values() for n, f in d.items()}
    if isinstance(case['rules'], str):
        names = sorted(R) if case['rules'] == 'All' else refgram.GROUPS[case['rules']]
        fs = G.production_rules[case['rules']]
    else:
        names = case['rules']
        fs = [by_name[n] for n in names]
    if case.get('given') == 'own': fs = [(lambda S, f = f: f(S)) for f in fs]       # rules of the user's own, all of one name
    if case.get('given') == 'twice': fs = fs + fs[:1]
    k = simplified(t)
    before = ke.snapshot(k)
    with sut('expanding %s by %s' % (k, case['rules'])): got = expand(k, fs)
    want = refgram.expand(t, [R[n] for n in names])
    trees = [ke.tree(g) for g in got]
    need(len(set(trees)) == len(trees), 'repeated expansions of', k, 'by', names, ':', lambda: [str(g) for g, x in zip(got, trees) if trees.count(x) > 1])
    missing, extra = want - set(trees), set(trees) - want
    need(not missing and not extra, 'expanding', k, 'by', names, ': missing', sorted(map(str, missing))[:5], ', unexpected', sorted(map(str, extra))[:5])
    if case.get('given') == 'nodes':     # node by node, what comes from equal ones included
        from GPy_ABCD.KernelExpansion.grammar import expand_node, standardise_singleton_root
        with sut('expanding the nodes of %s by %s' % (k, names)): each = [standardise_singleton_root(g.root) for n in k.traverse() for g in expand_node(n, fs)]
        need(set(map(ke.tree, each)) == want, 'expanding the nodes of', k, 'by', names, 'gives', lambda: set(map(ke.tree, each)) ^ want, 'more or less')
        got = got + each
    for g in got:
        bad = ke.links(g)
        need(not bad, 'expansion', g, 'of', k, 'has broken links:', bad)
    need(ke.snapshot(k) == before, 'expanding by', names, 'modified', k)
    ids = set(map(id, ke.nodes(k)))
    need(not any(id(n) in ids for g in got for n in ke.nodes(g)), 'an expansion shares nodes with the expanded expression', k)
    out = gen.labels(t, {'rule:' + (case['rules'] if isinstance(case['rules'], str) else names[0] if len(names) == 1 else 'several'), 'given:' + case.get('given', 'plain')})
    if any(t2[0] in ('CP', 'CW') and ref.is_base(t2[1]) for t2, _ in refgram.positions(t)): out.add('raw leaf')
    return out | ({'trivial'} if ref.size(t) < 2 else set())


def check_chain(case):
    """Expansions of expansions of ..., each of them complete: what a search expands has a history"""
    import GPy_ABCD as G
    from GPy_ABCD.KernelExpansion.grammar import expand
    by_name = {n: f for d in G.production_rules_by_type.values() for n, f in d.items()}
    t = gen.canonical(case['t'])
    k, out = simplified(t), set()
    for i, (name, j) in enumerate(case['steps']):
        before = ke.snapshot(k)
        with sut('expanding %s by %s after %s' % (k, name, case['steps'][:i])): got = expand(k, [by_name[name]])
        trees = [ke.tree(g) for g in got]
        want = refgram.expand(t, [R[name]])
        missing, extra = want - set(trees), set(trees) - want
        need(not missing and not extra and len(set(trees)) == len(trees), 'expanding', k, 'by', name, 'after', case['steps'][:i], 'from', case['t'], ': missing', sorted(map(str, missing))[:5], ', unexpected', sorted(map(str, extra))[:5])
        need(ke.snapshot(k) == before, 'expanding by', name, 'modified', k)
        for g in got: need(not ke.links(g), 'expansion', g, 'of', k, 'has broken links:', lambda: ke.links(g))
        out.add('steps:%d' % (i + 1))
        if not got: break
        k, t = sorted(zip(got, trees), key = lambda p: repr(p[1]))[j % len(got)]
        if ref.size(t) > 12: break
    return gen.labels(t, out) | ({'trivial'} if ref.size(gen.canonical(case['t'])) < 2 else set())


step = st.tuples(st.sampled_from(sorted(R) + ['remove_some_term', 'plus_base', 'replace_base', 'times_base']), st.integers(0, 60)).map(list)
COMPONENTS = [
    Component('chain', st.fixed_dictionaries(dict(t = gen.tree(3, 3, leaves = 5, root_composite = True), steps = st.lists(step, min_size = 2, max_size = 5))), check_chain, 1200, 30000),
    Component('many', st.builds(lambda t, r: {'t': t, 'rules': [r]}, gen.many(), st.sampled_from(sorted(R))), check, 120, 3000),
    Component('single', single(), check, 8000, 150000),
    Component('deep', st.builds(lambda t, r: {'t': t, 'rules': [r]}, gen.deep(6, 11), st.sampled_from(sorted(R))), check, 250, 6000),
    Component('several', several(), check, 560, 10000),
]
