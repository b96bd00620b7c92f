"""Operators on expressions denote what they say"""
from hypothesis import strategies as st
import ref, ke, gen, refgram
from harness import Component, need, sut

ID = 'C05'
TITLE = 'Expression operators denote what they say and modify nothing'
RULE = ('An operator with operands of every kind: base kernels, sums, products and changes, as constructed (not necessarily canonical), stand-alone or inside a larger expression. '
        'Non-trivial: at least one operand is not a base kernel.')
ASSUMPTIONS = ['Results are compared up to simplification (the canonical form of lib/ref.py); removal and higher-curve operators are only given expressions, not bare strings, as in all their callers']

BIN = ['add', 'multiply']
@st.composite
def cases(draw):
    op = draw(st.sampled_from(['add', 'multiply', 'add', 'multiply', 'swap_base', 'one_change', 'both_changes', 'replace_node', 'remove_a_term', 'higher_curves']))
    operand = gen.tree(3, 4, leaves = 8)
    if draw(st.integers(0, 3)) == 0: operand = st.sampled_from(gen.ALL)
    c = {'op': op, 'a': draw(gen.tree(3, 4, leaves = 9, root_composite = op not in BIN or draw(st.booleans())))}
    if op in BIN: c.update(b = draw(operand), nested = draw(st.booleans()))
    elif op == 'swap_base': c['b'] = draw(st.sampled_from(gen.ALL))
    elif op in ('one_change', 'both_changes'):
        c['b'] = draw(st.one_of(st.none(), operand))
        if op == 'one_change': c['c'] = draw(st.sampled_from(['CP', 'CW']))
    elif op == 'replace_node': c['b'] = draw(operand)
    c['inside'] = draw(st.sampled_from([None, None, '+', '*', 'CP', 'CW']))
    if 'b' in c and op != 'swap_base': c['share'] = draw(st.sampled_from(['', '', '', '', 'same', 'child', 'parent', 'equal']))
    return c


def operand(j, inside = None):
    """(object, its tree, the whole expression it belongs to)"""
    t = ref.fromjson(j)
    if ref.is_base(t): return t, t, None
    k = ke.build(t)
    if inside:      # the operand as a node of a larger expression, with the links set as in an expansion
        other = ke.build(('CP', 'PER', 'WN'))
        SumKE, ProductKE, ChangeKE = ke._K()
        whole = {'+': lambda: SumKE(['PER'], [k, other]), '*': lambda: ProductKE(['PER'], [k, other]), 'CP': lambda: ChangeKE('CP', k, other), 'CW': lambda: ChangeKE('CW', other, k)}[inside]()._initialise()
        want = ke.tree(k)
        for n in ke.nodes(whole):
            if ke.tree(n) == want: return n, want, whole
    return k, ke.tree(k), k


def check(case):
    from GPy_ABCD.KernelExpansion import kernelExpressionOperations as O
    op = case['op']
    with sut('construction'): a, ta, wa = operand(case['a'], case.get('inside'))
    b, tb, wb = operand(case['b']) if case.get('b') is not None else (None, None, None)
    share = case.get('share', '') if not isinstance(a, str) else ''
    if share == 'same': b, tb, wb = a, ta, wa           # the very same object
    elif share == 'equal': b, tb, wb = operand(case['a'], case.get('inside'))
    elif share == 'child':                              # one within the other
        below = ke.nodes(a)[1:] or [a]
        b, wb = below[len(below) // 2], wa
        tb = ke.tree(b)
    elif share == 'parent': b, tb, wb = wa, ke.tree(wa), wa
    f, g = getattr(O, op), getattr(refgram, op)
    before = [ke.snapshot(w) for w in (wa, wb) if w is not None]
    with sut('%s(%s, %s)' % (op, ta, tb)):
        if op in BIN: res, want = f(a, b, case['nested']), g(ta, tb, case['nested'])
        elif op == 'swap_base' or op == 'replace_node': res, want = f(a, b), g(ta, tb)
        elif op == 'one_change': res, want = (f(a, case['c']), g(ta, case['c'])) if b is None else (f(a, case['c'], b), g(ta, case['c'], tb))
        elif op == 'both_changes': res, want = (f(a), g(ta)) if b is None else (f(a, b), g(ta, tb))
        else: res, want = f(a), g(ta)
    if op in BIN and not case['nested']:
        need(not isinstance(res, list), op, 'without the nested case returned a list')
        res = [res]
    need(isinstance(res, list), op, 'returned', type(res))
    got = [ref.norm(ke.tree(r)) for r in res]
    want = [ref.norm(w) for w in want]
    need(set(got) == set(want), op, 'of', ta, 'and', tb, 'gives', sorted(set(map(str, got))), 'instead of', sorted(set(map(str, want))))
    if op in BIN: need(got[0] == want[0], 'the first result of', op, 'of', ta, 'and', tb, 'is', got[0], 'instead of', want[0])
    need(not any(isinstance(r, str) for r in res), op, 'returned a bare string')
    need([ke.snapshot(w) for w in (wa, wb) if w is not None] == before, op, 'modified an operand:', ta, tb)
    kind = lambda t: '-' if t is None else 'base' if ref.is_base(t) else {'+': 'sum', '*': 'product'}.get(t[0], 'change')
    return {'op:' + op, 'share:' + share, 'kinds:%s,%s' % (kind(ta), kind(tb))} | ({'trivial'} if kind(ta) == 'base' and kind(tb) in ('base', '-') else set())


@st.composite
def many(draw):
    """Operands with many equal terms"""
    a = draw(gen.many(prods = False, wide = True))
    op = draw(st.sampled_from(['add', 'multiply', 'remove_a_term', 'higher_curves', 'replace_node', 'one_change', 'both_changes', 'swap_base']))
    c = {'op': op, 'a': a, 'inside': draw(st.sampled_from([None, None, '+', '*', 'CP']))}
    if op in BIN: c.update(b = draw(gen.many(prods = False) | gen.tree(2, 3, leaves = 5)), nested = draw(st.booleans()))
    elif op == 'swap_base': c['b'] = draw(st.sampled_from(gen.ALL))
    elif op == 'replace_node': c['b'] = draw(gen.tree(2, 3, leaves = 4))
    elif op in ('one_change', 'both_changes'):
        c['b'] = draw(st.one_of(st.none(), gen.tree(2, 3, leaves = 4)))
        if op == 'one_change': c['c'] = draw(st.sampled_from(['CP', 'CW']))
    return c


COMPONENTS = [Component('operators', cases(), check, 12000, 300000), Component('many', many(), check, 300, 8000)]
