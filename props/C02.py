"""Equality, notation and copies of expressions"""
import copy, pickle
from hypothesis import strategies as st
import ref, ke, gen
from parse import parse, flat
from harness import Component, need, sut
from props.C01 import simplified

ID = 'C02'
TITLE = 'Expression equality, text forms and copies are faithful'
RULE = ('Pairs of trees that are re-orderings of each other, differ by one small edit, or are unrelated; lists of expressions with repeats. Non-trivial: the trees have two or more leaves (pairs), '
        'or the list has a repeat (lists).')
ASSUMPTIONS = ['Equality ignores tree links and parameters, as documented on the equality methods']


def edits(draw, t):
    """One small edit of a reference tree"""
    if ref.is_base(t): return draw(st.sampled_from([b for b in ref.BASES if b != t]))
    if t[0] in ('CP', 'CW'):
        c = draw(st.integers(0, 3))
        if c == 0: return ('CP' if t[0] == 'CW' else 'CW', t[1], t[2])
        if c == 1: return (t[0], t[2], t[1])
        return (t[0], edits(draw, t[1]), t[2]) if c == 2 else (t[0], t[1], edits(draw, t[2]))
    kids = list(t[1])
    c = draw(st.integers(0, 4))
    i = draw(st.integers(0, len(kids) - 1))
    if c == 0 and len(kids) > 1: return (t[0], tuple(kids[:i] + kids[i + 1:]))
    if c == 1: return (t[0], tuple(kids + [kids[i]]))
    if c == 2: return ('*' if t[0] == '+' else '+', t[1])
    kids[i] = edits(draw, kids[i])
    return (t[0], tuple(kids))


@st.composite
def pairs(draw):
    a = draw(gen.tree(4, 4, leaves = 14, root_composite = True))
    kind = draw(st.sampled_from(['shuffle', 'edit', 'edit', 'other']))
    if kind == 'shuffle': b = gen.shuffled(draw, ref.fromjson(a))
    elif kind == 'edit': b = ref.tojson(edits(draw, ref.norm(ref.fromjson(gen.shuffled(draw, ref.fromjson(a))))))
    else: b = draw(gen.tree(3, 3, leaves = 8, root_composite = True))
    return {'a': a, 'b': b}


def check_pairs(case):
    a, b = (simplified(ref.fromjson(case[x])) for x in 'ab')
    same = gen.std(ref.norm(ref.fromjson(case['a']))) == gen.std(ref.norm(ref.fromjson(case['b'])))
    need((a == b) is same and (b == a) is same and (a != b) is (not same), '%s and %s compare %s / %s / %s while they are %s' % (a, b, a == b, b == a, a != b, 'the same' if same else 'different'))
    for x, y in ((a, b), (b, a)):
        need((x in [y]) is same, 'membership disagrees with equality for', x, y)
    ra, rb = repr(a), repr(b)
    need(a == copy.deepcopy(a), 'a deep copy of', a, 'is not equal to it')
    need(not (a == ra) and not (a == 'LIN') and not (a == None), 'an expression equals something which is not one')
    return {'equal' if same else 'different'} | gen.labels(ke.tree(a)) | ({'trivial'} if ref.size(ke.tree(a)) < 2 else set())


def check_text(case):
    from GPy_ABCD import SumKE, ProductKE, ChangeKE
    t = ref.fromjson(case)
    with sut('construction'): raw = ke.build(t)
    for k in (raw, simplified(t)):
        tr = ke.tree(k)
        with sut('repr of %r' % (tr,)): r = repr(k)
        try: back = eval(r, {'SumKE': SumKE, 'ProductKE': ProductKE, 'ChangeKE': ChangeKE, '__builtins__': {}})
        except Exception as e: need(False, 'repr', r, 'cannot be evaluated:', e)
        if k is raw: need(ref.norm(ke.tree(back)) == ref.norm(tr), 'repr', r, 'evaluates to', ke.tree(back), 'instead of', tr)   # evaluating it may simplify further
        else: need(back == k and ke.tree(back) == tr, 'repr', r, 'evaluates to', ke.tree(back), 'instead of', tr)
        s = str(k)
        try: p = parse(s)
        except ValueError as e: need(False, 'text form', s, 'of', tr, 'cannot be read:', e)
        need(flat(p) == flat(tr), 'text form', s, 'reads as', flat(p), 'instead of', flat(tr))
    return gen.labels(tr) | ({'trivial'} if ref.size(tr) < 2 else set())


def check_copies(case):
    t = ref.fromjson(case)
    k = simplified(t)
    before = ke.tree(k)
    for name, f in (('deepcopy', copy.deepcopy), ('pickle', lambda x: pickle.loads(pickle.dumps(x)))):
        for node in k.traverse():
            if not any(node is n for n in ke.nodes(k)): continue   # leaves made up by the traversal
            with sut(name): c = f(node)
            need(c is not node and c == node and ke.tree(c) == ke.tree(node), name, 'of', node, 'is', c)
            with sut(name): whole = c.root
            need(whole is not k and whole == k and not ke.links(whole), name, 'of node', node, 'of', k, 'does not bring a sound copy of its whole tree:', lambda: (str(whole), ke.links(whole)))
            need(any(c is n for n in ke.nodes(whole)), name, 'of a node is not in its own tree')
            need(not set(map(id, ke.nodes(whole))) & set(map(id, ke.nodes(k))), name, 'shares nodes with the original')
    need(ke.tree(k) == before and not ke.links(k), 'copying changed the original')
    return gen.labels(before) | ({'trivial'} if ref.size(before) < 2 else set())


def check_fitted(case):
    """Copies of expressions with the parameters of a kernel"""
    import annot, num
    k = simplified(ref.fromjson(case['t']))
    from GPy_ABCD.KernelExpansion.kernelOperations import get_param_dict
    ker = num.set_params(k.to_kernel(), case['v'])
    with sut('absorbing parameters'): k = k.match_up_fit_parameters(get_param_dict(ker), '')
    spec = annot.spec_of(k)
    for name, f in (('deepcopy', copy.deepcopy), ('pickle', lambda x: pickle.loads(pickle.dumps(x))), ('deepcopy of a part', lambda x: copy.deepcopy(x.traverse()[-1]).root)):
        with sut(name): c = f(k)
        need(annot.spec_of(c) == spec, 'the parameters in a', name, 'of', k, 'are', lambda: annot.spec_of(c), 'instead of', spec)
        for node in ke.nodes(c):
            for ps in list(node.parameters.values()):
                for p in ps:
                    for n in p: p[n] = -1.
                ps.clear()
            node.parameters.clear()
        need(annot.spec_of(k) == spec, 'changing the parameters in a', name, 'of', k, 'changes the original')
    return gen.labels(ke.tree(k)) | ({'trivial'} if ref.size(ke.tree(k)) < 2 else set())


@st.composite
def lists(draw):
    base = draw(st.lists(gen.tree(3, 3, leaves = 6), min_size = 1, max_size = 5))
    idx = draw(st.lists(st.integers(0, len(base) - 1), min_size = 1, max_size = 9))
    return [gen.shuffled(draw, ref.fromjson(base[i])) for i in idx]


def check_lists(case):
    from GPy_ABCD.Util.genericUtil import unique, diff, eq_elems
    ks = [simplified(ref.fromjson(j)) for j in case]
    ts = [ke.tree(k) for k in ks]
    with sut('unique'): u = unique(ks)
    want = []
    for t in ts:
        if t not in want: want.append(t)
    need([ke.tree(k) for k in u] == want, 'unique of', list(map(str, ks)), 'is', list(map(str, u)))
    need(all(any(x is k for k in ks) for x in u), 'unique returned new objects')
    need(eq_elems(ks, list(reversed(ks))), 'a list and its reverse do not have equal elements')
    need(eq_elems(ks, u) is (len(ks) == len(u)), 'eq_elems of', list(map(str, ks)), list(map(str, u)))
    return {'repeats' if len(u) < len(ks) else 'trivial'}


COMPONENTS = [
    Component('pairs', pairs(), check_pairs, 4000),
    Component('text', gen.tree(5, 4, leaves = 18, root_composite = True), check_text, 2500),
    Component('many', gen.many(wide = True), check_text, 250, 5000),
    Component('deep', gen.deep(), check_text, 400, 10000),
    Component('deep copies', gen.deep(), check_copies, 150, 4000),
    Component('copies', gen.tree(4, 3, leaves = 12, root_composite = True), check_copies, 800),
    Component('fitted', st.fixed_dictionaries(dict(t = gen.tree(4, 3, leaves = 10, root_composite = True), v = gen.ints)), check_fitted, 250, 5000),
    Component('lists', lists(), check_lists, 1500),
]
