"""Generic helpers"""
import operator
from collections import Counter
from hypothesis import strategies as st
from harness import Component, need, sut

ID = 'C22'
TITLE = 'List and mapping helpers behave as documented on any elements'
RULE = ('Lists of hashable and of unhashable (compared by equality only) elements with frequent repeats, directed acyclic graphs, and mappings. Non-trivial: at least two elements.')
ASSUMPTIONS = ['Helpers are judged against their documentation strings and their names (deduplication, multiset equality and difference keep the order of first occurrences)']


class P(tuple):
    """An element of which the order says nothing"""
    def __new__(c, v): return tuple.__new__(c, (v,))
    __lt__ = __gt__ = __le__ = __ge__ = lambda s, o: False


class E:
    """An element which can only be compared"""
    __hash__ = None
    def __init__(self, v, tag = 0): self.v, self.tag = v, tag
    def __eq__(self, o): return isinstance(o, E) and self.v == o.v
    def __repr__(self): return 'E%s' % self.v


def U():
    import GPy_ABCD.Util.genericUtil as u
    return u


small = st.lists(st.integers(0, 5), max_size = 9)


def check_lists(case):
    u = U()
    pool = {v: float('nan') for v in case['xs']}      # elements which are only identical, never equal
    xs = [pool[v] for v in case['xs']]
    with sut('unique'): r = u.unique(xs)
    need([id(x) for x in r] == list(dict.fromkeys(map(id, xs))), 'unique keeps', len(r), 'of', len(set(map(id, xs))), 'objects given repeatedly')
    for wrap in (lambda l: list(l), lambda l: [E(v, i) for i, v in enumerate(l)], lambda l: [[v] for v in l], lambda l: [{v} for v in l], lambda l: [P(v) for v in l]):
        xs, ys = wrap(case['xs']), wrap(case['ys'])
        key = lambda x: x.v if isinstance(x, E) else x[0] if isinstance(x, (list, P)) else min(x) if isinstance(x, set) else x
        cx, cy = list(xs), list(ys)
        with sut('list helpers'):
            r = u.unique(xs)
            first = [i for i, v in enumerate(case['xs']) if v not in case['xs'][:i]]
            need(len(r) == len(first) and all(a is xs[i] for a, i in zip(r, first)), 'unique(%s) is %s' % (xs, r))
            need(u.eq_elems(xs, ys) is (Counter(case['xs']) == Counter(case['ys'])), 'eq_elems(%s, %s) is %s' % (xs, ys, u.eq_elems(xs, ys)))
            d = u.diff(xs, ys)
            want, left = [], Counter(case['ys'])
            for v in case['xs']:
                if left[v] > 0: left[v] -= 1
                else: want.append(v)
            need(Counter(map(key, d)) == Counter(want), 'diff(%s, %s) is %s' % (xs, ys, d))
            need([key(x) for x in d] == want, 'diff(%s, %s) is %s: not in the order of the first argument' % (xs, ys, d))
            yes, no = u.partition(lambda x: key(x) % 2 == 0, xs)
            need([key(x) for x in yes] == [v for v in case['xs'] if v % 2 == 0] and [key(x) for x in no] == [v for v in case['xs'] if v % 2], 'partition of', xs, 'is', yes, no)
            yes, no = u.partition(lambda x: key(x) % 3, xs)     # true is not only True
            need([key(x) for x in yes] == [v for v in case['xs'] if v % 3] and [key(x) for x in no] == [v for v in case['xs'] if v % 3 == 0], 'partition of', xs, 'by a number is', yes, no)
            yes, no = u.partition(lambda x: [None] * (key(x) // 2), xs)
            need([key(x) for x in yes] == [v for v in case['xs'] if v > 1] and [key(x) for x in no] == [v for v in case['xs'] if v < 2], 'partition of', xs, 'by lists is', yes, no)
            g = u.group_by(lambda x: key(x) % 3, xs)
            need({k: [key(x) for x in v] for k, v in g.items() if v} == {k: [v for v in case['xs'] if v % 3 == k] for k in {v % 3 for v in case['xs']}}, 'group_by of', xs, 'is', dict(g))
            need(u.flatten([xs, ys, xs]) == xs + ys + xs, 'flatten')
            f = u.first(lambda x: key(x) == 3, xs, 'none')
            need((f == 'none' and isinstance(f, str)) if 3 not in case['xs'] else f is xs[case['xs'].index(3)], 'first of', xs, 'is', f)
            for v in range(6):
                f = u.first(lambda x: key(x) == v, xs, 7)
                need(f == 7 if v not in case['xs'] else f is xs[case['xs'].index(v)], 'first of', xs, 'equal to', v, 'is', f)
                if v not in case['xs']: need(u.first(lambda x: key(x) == v, xs) is None, 'first without a default')
            for empty in ([], '', 0, False): need(u.first(lambda x: x == empty and type(x) is type(empty), [1, 'a', empty, [1]], 'none') is empty, 'first of an empty value', repr(empty))
            n = case['n']
            ch = list(u.chunk(xs, n))
            need([x for c in ch for x in c] == xs and all(len(c) == n for c in ch[:-1]) and all(0 < len(c) <= n for c in ch), 'chunk of', xs, 'by', n, 'is', ch)
            if len(xs) == len(ys) and xs: need(u.unzip(list(zip(xs, ys))) == [xs, ys], 'unzip')
            if all(isinstance(x, int) for x in xs + ys):
                need(u.unique_h(xs) == set(xs) and u.eq_elems_h(xs, ys) is (set(xs) == set(ys)) and u.diff_h(xs, ys) == set(xs) - set(ys), 'hashable versions')
            # generators are allowed as inputs
            need(u.eq_elems(iter(xs), iter(ys)) is u.eq_elems(xs, ys) and u.diff(iter(xs), iter(ys)) == d, 'iterators give another result than lists')
        need(xs == cx and ys == cy and all(a is b for a, b in zip(xs, cx)), 'a helper modified its arguments')
    return {'trivial'} if len(case['xs']) < 2 else {'repeats'} if len(set(case['xs'])) < len(case['xs']) else {'distinct'}


@st.composite
def dags(draw):
    n = draw(st.integers(1, 7))
    edges = [[j for j in range(i) if draw(st.integers(0, 2)) == 0] for i in range(n)]
    order = list(draw(st.permutations(range(n))))
    cyc = draw(st.integers(0, 3)) == 0
    if draw(st.integers(0, 2)) == 0: edges = [e + [draw(st.sampled_from(e))] * draw(st.integers(0, 2)) if e else e for e in edges]    # a dependency may be listed more than once
    return {'edges': edges, 'order': order, 'cycle': [draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))] if cyc else None}


def check_topo(case):
    u = U()
    deps = {i: list(ds) for i, ds in enumerate(case['edges'])}
    if case['cycle']: a, b = sorted(case['cycle']); deps[a] = deps[a] + [b]
    def cyclic():
        left = {k: set(v) for k, v in deps.items()}
        while True:
            free = [k for k, v in left.items() if not v]
            if not free: return bool(left)
            for k in free: del left[k]
            for v in left.values(): v.difference_update(free)
    inp = [('n%d' % i, ['n%d' % d for d in deps[i]]) for i in case['order']]
    copy = [(a, list(b)) for a, b in inp]
    if cyclic():
        try: r = u.topological_sort(inp)
        except ValueError: r = None
        except Exception as e: need(False, 'topological_sort of a cyclic graph raised', type(e).__name__)
        need(r is None, 'topological_sort of the cyclic graph', inp, 'is', r)
    else:
        with sut('topological_sort(%s)' % inp): r = u.topological_sort(inp)
        def ordered(r): need(sorted(r) == sorted(a for a, _ in inp) and all(r.index(d) < r.index(a) for a, ds in inp for d in ds), 'topological_sort(%s) is %s' % (inp, r))
        ordered(r)
        for given in (tuple(inp), iter(inp)):
            with sut('topological_sort(%s given as a %s)' % (inp, type(given).__name__)): ordered(u.topological_sort(given))
    need(inp == copy, 'topological_sort modified its argument')
    return {'cyclic' if cyclic() else 'acyclic'} | ({'repeated'} if any(len(set(d)) < len(d) for d in deps.values()) else set()) | ({'trivial'} if len(inp) < 2 else set())


def check_folds(case):
    from functools import reduce
    u, xs = U(), case['xs']
    with sut('foldq'):
        acc, rest = u.foldq(lambda acc, x: acc + [x], lambda acc, x, xs: xs, lambda x: True, xs, [])
        need((acc, list(rest)) == (xs, []), 'foldq with trivial condition and update is', acc, rest, 'instead of a fold')
        for empty in (None, 0, '', False):      # whatever an accumulator becomes, the fold continues, and elements may be anything
            acc, rest = u.foldq(lambda acc, x: empty, lambda acc, x, xs: xs, lambda x: True, xs + [empty] + xs, 5)
            need(acc == empty and type(acc) is type(empty) and list(rest) == [], 'foldq to', repr(empty), 'is', acc, rest)
            acc, rest = u.foldq(lambda acc, x: [x] if acc is empty else acc + [x], lambda acc, x, xs: xs, lambda x: True, xs + [empty] + xs, empty)
            need(list(map(repr, acc)) == list(map(repr, xs + [empty] + xs)) and list(rest) == [], 'foldq from', repr(empty), 'is', acc, rest)
        t = case['t']
        acc, rest = u.foldq(lambda acc, x: acc + [x], lambda acc, x, xs: [y - 1 for y in xs], (lambda x: x <= t) if t % 2 else (lambda x: [x] if x <= t else ''), xs, [])
        ra, rx = [], list(xs)      # by definition
        while True:
            i = next((i for i, x in enumerate(rx) if x <= t), None)
            if i is None: break
            x = rx.pop(i); ra.append(x); rx = [y - 1 for y in rx]
        need((acc, list(rest)) == (ra, rx), 'foldq(…, <= %d, %s) is %s instead of %s' % (t, xs, (acc, rest), (ra, rx)))
        try: s = u.foldq_(lambda acc, x: acc + [x], lambda acc, x, xs: [y - 1 for y in xs], lambda x: x <= t, xs, [])
        except ValueError: s = None
        need(s == (None if rx else ra), 'foldq_ is', s, 'while the left-over is', rx)
        d0, d1 = dict(case['d0']), dict(case['d1'])
        d = u.update_dict_with(dict(d0), d1, operator.add)
        need(d == {k: d0[k] + d1[k] if k in d0 and k in d1 else d0.get(k, d1.get(k)) for k in {**d0, **d1}}, 'update_dict_with(%s, %s) is %s' % (d0, d1, d))
        for name, f in (('maximum', max), ('product', operator.mul), ('difference', operator.sub), ('pair', lambda a, b: (a, b)), ('first', lambda a, b: a)):
            got, d = dict(d0), dict(d1)
            r = u.update_dict_with(got, d, f)
            need(r == {k: f(d0[k], d1[k]) if k in d0 and k in d1 else d0.get(k, d1.get(k)) for k in {**d0, **d1}} and r is got and d == d1, 'update_dict_with(%s, %s, %s) is %s' % (d0, d1, name, r))
        e0, e1 = {k: [None] * n for k, n in d0.items()}, {k: [1] * n for k, n in d1.items()}
        r = u.update_dict_with(dict(e0), e1, lambda a, b: [len(a), len(b)])
        need(r == {k: [d0[k], d1[k]] if k in d0 and k in d1 else (e0 if k in e0 else e1)[k] for k in {**e0, **e1}}, 'update_dict_with(%s, %s, lengths) is %s' % (e0, e1, r))
        z = dict(u.zip_maps(d0, d1))
        need(z == {k: (d0[k], d1[k]) for k in d0 if k in d1}, 'zip_maps(%s, %s) is %s' % (d0, d1, z))
        n0, n1 = {k: [None, False, '', n][n % 4] for k, n in d0.items()}, {k: [n, None, 0, ()][n % 4] for k, n in d1.items()}
        for maps in ((n0, n1), (n1, n0), (n0, d1, n1), (n0,)):
            z = list(u.zip_maps(*maps))
            need(len(dict(z)) == len(z) and dict(z) == {k: tuple(m[k] for m in maps) for k in maps[0] if all(k in m for m in maps)}, 'zip_maps of', maps, 'is', z)
        (a0, a1), (b0, b1) = case['a'], case['b']
        need(abs(u.interval_overlap((a0, a1), (b0, b1)) - sum(1 for i in range(-20, 60) if a0 <= i < a1 and b0 <= i < b1)) < 1e-9, 'interval_overlap', case['a'], case['b'])
        need(u.on(operator.gt, (xs, case['ys']), len) is (len(xs) > len(case['ys'])) and u.on_m(operator.eq, [xs, case['ys']], 'count', 1) is (xs.count(1) == case['ys'].count(1))
             and u.on_a(operator.eq, [1, 1.], '__class__') is False, 'on / on_m / on_a')
        need(u.fst((1, 2)) == 1 and u.snd((1, 2)) == 2, 'fst / snd')
    need(case['xs'] == xs, 'modified')
    return {'leftover' if rx else 'consumed'} | ({'trivial'} if len(xs) < 2 else set())


dct = st.dictionaries(st.sampled_from('abcde'), st.integers(0, 4), max_size = 4)
seg = st.tuples(st.integers(-10, 20), st.integers(0, 20)).map(lambda p: [p[0], p[0] + p[1]])
@st.composite
def long_lists(draw):
    """Lists of 30 to 150 elements, with repeats far apart"""
    n, a, m = draw(st.integers(30, 150)), draw(st.integers(1, 30)), draw(st.sampled_from([7, 31, 61, 101, 151]))
    xs = [(i * a + i // 3) % m for i in range(n)]
    ys = draw(st.sampled_from([xs[::-1], xs[n // 3:] + xs[:n // 3], xs[1:], xs + [xs[0]], [x + 1 for x in xs], xs[: n // 2] * 2]))
    return {'xs': xs, 'ys': list(ys), 'n': draw(st.integers(1, 40))}


COMPONENTS = [
    Component('long', long_lists(), check_lists, 200, 6000),
    Component('lists', st.fixed_dictionaries({'xs': small, 'ys': small, 'n': st.integers(1, 5)}) | small.flatmap(lambda xs: st.fixed_dictionaries({'xs': st.just(xs), 'ys': st.permutations(xs).map(list), 'n': st.integers(1, 5)})), check_lists, 8000, 200000),
    Component('topological', dags(), check_topo, 3000, 60000),
    Component('folds', st.fixed_dictionaries({'xs': small, 'ys': small, 't': st.integers(-1, 5), 'd0': dct, 'd1': dct, 'a': seg, 'b': seg}), check_folds, 3000, 60000),
]
