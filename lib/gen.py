"""Shared Hypothesis strategies. Every case is JSON-able, so that shrunk failures become replay files."""
from hypothesis import strategies as st
import ref

ALL = list(ref.BASES)


@st.composite
def tree(draw, max_depth = 4, max_kids = 4, bases = ALL, singletons = True, changes = True, root_composite = False, leaves = 14, min_depth = 1):
    """A kernel-expression tree (JSON form), as a user may write it: any nesting, any order, repeated sub-trees, one-element nodes"""
    budget = [leaves]

    def node(d, force = False):
        budget[0] -= 1
        kinds = ['b', '+', '*'] + (['CP', 'CW'] if changes else [])
        if d <= 0 or budget[0] <= 0: kind = 'b'
        else: kind = draw(st.sampled_from(kinds[1:] if force else ['b'] + kinds))
        if kind == 'b': return draw(st.sampled_from(bases))
        if kind in ('CP', 'CW'): return [kind, node(d - 1), node(d - 1)]
        n = draw(st.integers(1 if singletons else 2, max_kids))
        kids = []
        for _ in range(n):
            if kids and draw(st.integers(0, 9)) == 0: kids.append(kids[draw(st.integers(0, len(kids) - 1))])   # an equal sibling
            else: kids.append(node(d - 1))
        return [kind, kids]
    return node(draw(st.integers(min_depth, max_depth)), root_composite)


def canonical(j, lin_absorbs_c = True):
    """JSON tree -> canonical reference tree with a standard root (a base root is a one-element sum)"""
    return std(ref.norm(ref.fromjson(j), lin_absorbs_c))


def std(t): return ('+', (t,)) if ref.is_base(t) else t


def node_count(t): return 0 if ref.is_base(t) else 1 + sum(node_count(x) for x in (t[1] if t[0] in '+*' else t[1:]))


def labels(t, extra = ()):
    """Class labels of a reference tree"""
    s = ref.size(t)
    out = {'leaves:' + ('1' if s == 1 else '2-4' if s < 5 else '5-9' if s < 10 else '10+'), 'depth:%d' % min(ref.depth(t), 6)}
    if ref.has_change(t): out.add('change')
    return out | set(extra)


def shuffled(draw, t):
    """A differently ordered and differently bracketed writing of the same tree"""
    if ref.is_base(t): return t
    if t[0] in ('CP', 'CW'): return [t[0], shuffled(draw, t[1]), shuffled(draw, t[2])]
    kids = [shuffled(draw, x) for x in t[1]]
    kids = draw(st.permutations(kids)) if len(kids) > 1 else kids
    kids = list(kids)
    if len(kids) > 2 and draw(st.booleans()):
        i = draw(st.integers(1, len(kids) - 1))
        kids = draw(st.sampled_from([[[t[0], kids[:i]]] + kids[i:], kids[:i] + [[t[0], kids[i:]]]]))
    if draw(st.integers(0, 4)) == 0: kids = [[draw(st.sampled_from('+*')), [k]] if draw(st.integers(0, 2)) == 0 else k for k in kids]
    return [t[0], kids]


# --- numeric cases -------------------------------------------------------------------------------------------------------------
ints = st.lists(st.integers(0, 999), min_size = 1, max_size = 10)


def points(min_size = 1, max_size = 6, lim = 200):
    """Distinct inputs, as integers in tenths"""
    return st.lists(st.integers(-lim, lim), min_size = min_size, max_size = max_size, unique = True)


def data_points(min_size = 1, max_size = 6, lim = 200):
    """Inputs of data, which may repeat, as integers in tenths"""
    return points(min_size, max_size, lim) | st.lists(st.integers(-lim, lim), min_size = min_size, max_size = max_size) | st.lists(st.integers(-lim // 20, lim // 20), min_size = min_size, max_size = max_size)


scales = st.sampled_from([1, 1, 1, 100, .001, 10000])   # orders of magnitude of outputs


def col(pts):
    import numpy as np
    return sized(pts) if isinstance(pts, dict) else np.array(pts, float)[:, None] / 10


@st.composite
def many(draw, prods = True, wide = False):
    """A node with five to twelve equal terms, alone or inside another node. Without prods, products only have many base factors; wide ones have up to thirty terms or as many as a dozen different composites"""
    b = st.sampled_from(['LIN', 'PER', 'SE', 'LIN', 'PER'])
    op = draw(st.sampled_from('+*'))
    n = draw(st.sampled_from([5, 7, 11, 12] + [14, 30] * wide))
    kind = draw(st.sampled_from(['bases', 'bases', 'composites', 'changes', 'both'] + ['different'] * 2 * wide))
    if op == '*' and not prods: kind = 'bases'
    comp = lambda: draw(st.sampled_from([['*' if op == '+' else '+', ['LIN', 'PER']], ['*' if op == '+' else '+', ['PER', 'PER']], ['*' if op == '+' else '+', ['LIN', 'PER', 'LIN']]]))
    ch = lambda: [draw(st.sampled_from(['CP', 'CW'])), draw(b), draw(b)]
    kids = []
    if kind in ('bases', 'both'): kids += [draw(st.sampled_from(['LIN', 'PER'] + ['SE'] * (op == '+')))] * n
    if kind in ('composites', 'both'): kids += [comp()] * n
    if kind == 'changes': kids += [ch()] * n
    if kind == 'different': kids += [['*' if op == '+' else '+', ['LIN'] * i + ['PER'] * (i % 2)] for i in range(2, min(n, 12) + 2)]
    for _ in range(draw(st.integers(0, 2))): kids.insert(draw(st.integers(0, len(kids))), draw(b) if draw(st.booleans()) or (op == '*' and not prods) else ch())
    t = [op, kids]
    wrap = draw(st.sampled_from(['', '', 'CP', 'CW', 'other']))
    if wrap == 'other': return ['*' if op == '+' else '+', [draw(b), t]]
    if wrap: return [wrap, t, draw(b)] if draw(st.booleans()) else [wrap, draw(b), t]
    return t


# Real amounts of data, described by a few numbers: n inputs between lo and lo + span, scattered or evenly spaced, sorted or not
def data_sizes(lo = 30, hi = 250, spans = (4., 40., 400.), offsets = (0., 0., -150., 1900.)):
    return st.fixed_dictionaries(dict(n = st.integers(lo, hi), a = st.integers(1, 9972), at = st.sampled_from(offsets), span = st.sampled_from(spans), sorted = st.booleans()))


def sized(d, shift = 0):
    """The column of inputs described: all different"""
    import numpy as np
    i = np.arange(1, d['n'] + 1)
    f = (i * (d['a'] + shift) % 9973) / 9973 if d['a'] % 3 else i / d['n']
    x = d['at'] + d['span'] * (f - .5)
    return (np.sort(x) if d['sorted'] else x)[:, None]


@st.composite
def columns(draw, lo = 1, hi = 8):
    """Inputs of any pattern: unordered, evenly spaced, evenly spaced but for one, in pairs or repeated"""
    n = draw(st.integers(lo, hi))
    kind = draw(st.sampled_from(['any', 'even', 'nearly even', 'repeated', 'descending']))
    if kind == 'any': return {'kind': kind, 'x': [i / 8 for i in draw(st.lists(st.integers(-160, 160), min_size = n, max_size = n, unique = True))]}
    start, step = draw(st.integers(-40, 40)) / 4, draw(st.sampled_from([1, 2, 5, 8, 12, 36])) / 8
    x = [start + i * step for i in range(n)]
    if kind == 'nearly even': x[draw(st.integers(0, n - 1))] += step * draw(st.sampled_from([.5, .25, -.375, .0625]))
    if kind == 'repeated': x = [x[draw(st.integers(0, n - 1))] for _ in x]
    if kind == 'descending': x = x[::-1]
    return {'kind': kind, 'x': x}


def any_column(c):
    import numpy as np
    return np.array(c['x'], float)[:, None]


@st.composite
def offset_points(draw, max_size = 6):
    """Inputs far from 0 (years, say), and second ones which are the same, very near or others; in units, exactly as given"""
    at = draw(st.sampled_from([0., 1900., -750., 12000.]))
    X = draw(points(2, max_size, 60))
    near = draw(st.sampled_from([None, 0., 1e-1, 1e-2, 1e-3, 1e-4, 1e-5]))
    Y = X if near is not None else draw(points(1, max_size, 60))
    return {'at': at, 'X': X, 'X2': Y, 'near': near}


def offset_columns(o):
    X, X2 = col(o['X']) + o['at'], col(o['X2']) + o['at']
    return X, X2 + (o['near'] or 0.)


@st.composite
def deep(draw, lo = 6, hi = 14, singletons = True, changes = True, bases = ALL):
    """A chain of nested nodes with few leaves at each level"""
    t = draw(st.sampled_from(bases))
    above = None
    kinds = ['+', '*'] + (['CP', 'CW'] if changes else [])
    plan = draw(st.sampled_from(['mixed', 'mixed', 'arithmetic'] + (['changes'] if changes else [])))
    for i in range(draw(st.integers(lo, hi))):
        kind = {'mixed': draw(st.sampled_from(kinds)), 'arithmetic': '+*'[i % 2], 'changes': draw(st.sampled_from(kinds[-2:]))}[plan]
        if kind in ('CP', 'CW'):
            b = draw(st.sampled_from(bases))
            t = [kind, t, b] if draw(st.booleans()) else [kind, b, t]
        else:
            kids = [draw(st.sampled_from(bases)) for _ in range(draw(st.integers(0 if singletons else 1, 2)))]
            kids.insert(draw(st.integers(0, len(kids))), t)
            t = [kind, kids]
    return t


@st.composite
def twin(draw, cases, other = 'X2'):
    """Cases with inputs X and X2 (or another name), of which X2 is sometimes equal to X or overlaps with it"""
    c = draw(cases)
    how = draw(st.sampled_from(['', '', '', '', 'same', 'reversed', 'first', 'overlap']))
    X = c['X']
    if how: c = {**c, other: {'same': list(X), 'reversed': X[::-1], 'first': X[:1], 'overlap': list(dict.fromkeys(X[1:] + c[other]))}[how] or list(X)}
    return c


def pair(case):
    """The inputs of a case; equal ones are the same array or two arrays"""
    X = col(case['X'])
    return X, X if case['X2'] == case['X'] and len(X) % 2 == 0 else col(case['X2'])
