"""Search bookkeeping against a reference search"""
import io, contextlib
import numpy as np
from hypothesis import strategies as st
import ref, ke, gen, refgram, search
from harness import Component, need, sut
from props.C01 import simplified

ID = 'C15'
TITLE = 'A model search explores exactly its grammar\'s beam and reports it faithfully'
RULE = ('Searches with generated start expressions (names and expressions), rules, rounds, beams, scores (a pseudo-random likelihood per expression, supplied through the list-fitter argument) and scoring functions, compared '
        'with a reference search: what is fitted in each round, and all five outputs. Non-trivial: at least one round which tests a new expression.')
ASSUMPTIONS = ['Scores are pairwise different in the comparison with the reference search (ties are only checked for consistency)',
               'Fitting is replaced through the public list-fitter argument; real fits are the subject of C17 to C19']
BASES = ['WN', 'C', 'LIN', 'PER']
R = refgram.rules(BASES)


def by_name():
    import GPy_ABCD as G
    return {n: f for d in G.production_rules_by_type.values() for n, f in d.items()}


def given(case):
    """(package start kernels, their canonical trees, data)"""
    starts, trees = [], []
    for s in case['starts'] + [case['starts'][i % len(case['starts'])] for i in case.get('again', [])]:     # the same expression may be given more than once, or in several writings
        t = gen.canonical(s)
        if t not in trees: trees.append(t)
        starts.append(s if isinstance(s, str) else ke.build(ref.fromjson(s)))
    X = gen.col(case['X'])
    return starts, trees, X, np.sin(X)


def beams(case):
    b, r = case['beam'], case['rounds']
    if isinstance(b, int): return [b] * r
    return (b + [b[-1]] * r)[:r]


def quiet(f, *args, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out): res = f(*args, **kw)
    return res, out.getvalue()


def check(case):
    from GPy_ABCD.Models.modelSearch import explore_model_space
    starts, trees, X, Y = given(case)
    rules = case['rules']
    fs = [by_name()[n] for n in rules]
    u, value = search.utility(case['utility'], case['salt'], len(X))
    fit = search.Fitter(case['salt'], case['loses'])
    beam = list(case['beam']) if isinstance(case['beam'], list) else case['beam']
    s0, f0, b0 = list(starts), list(fs), list(beam) if isinstance(beam, list) else beam
    with sut('search %s' % case):
        res, out = quiet(explore_model_space, X, Y, starts, fs, u, case['rounds'], beam, case['restarts'], fit, case['optimiser'], case['retries'], case['verbose'])
    need(len(starts) == len(s0) and all(a is b for a, b in zip(starts, s0)) and fs == f0 and beam == b0, 'the search modified its arguments')
    want = search.reference(trees, [R[n] for n in rules], value, case['rounds'], beams(case), without = lambda t: case['loses'] and search.lost(t, case['salt']), asked = (asked := []))
    need(len(res) == 5, 'the search returned', len(res), 'values')
    got = search.outcome(res)
    need(len(fit.calls) == case['rounds'] + 1, 'models were fitted', len(fit.calls), 'times in', case['rounds'], 'rounds')
    for r, c in enumerate(fit.calls):
        need(len(set(c['trees'])) == len(c['trees']), 'round', r, 'fits an expression twice', c['trees'])
        w = asked[r]
        need(set(c['trees']) == w, 'round', r, 'fits', [x for x in c['trees'] if x not in w][:4], 'and misses', [x for x in w if x not in c['trees']][:4])
        need(np.array_equal(c['X'], X) and np.array_equal(c['Y'], Y) and (c['restarts'], c['optimiser'], c['max_retries']) == (case['restarts'], case['optimiser'], case['retries']),
             'round', r, 'is fitted with other data or settings', c['restarts'], c['optimiser'], c['max_retries'])
    for name, g, w in zip(('sorted models', 'tested models', 'tested expressions', 'expanded', 'not expanded'), got, want):
        if name == 'tested expressions': need(len(g) == len(set(g)) and set(g) == w, name, 'are', g, 'instead of', w)
        else: need(g == w, name, 'are', g, 'instead of', w)
    for m in res[0]:
        need(m.cached_utility_function_type == u.__name__ and abs(m.cached_utility_function - value(search.tree_of(m))) < 1e-6 * (1 + abs(value(search.tree_of(m)))), 'a model carries the score',
             m.cached_utility_function_type, m.cached_utility_function)
    need(set(map(id, res[0])) == {id(m) for r in res[1] for m in r} and {id(m) for m in res[3]} | {id(m) for m in res[4]} == set(map(id, res[0])), 'the outputs do not hold the same models')
    for m in res[0]:
        bad = ke.links(m.kernel_expression)
        need(not bad, 'broken expression in the results:', bad)
    new = sum(map(len, want[1][1:]))
    return {'rounds:%d' % case['rounds'], 'new:' + ('0' if not new else '<20' if new < 20 else '<100' if new < 100 else '100+'), case['utility'],
            'exhausted round' if any(not r for r in want[1][1:]) else 'productive', 'some lost' if case['loses'] else 'all kept'} | ({'trivial'} if not new else set())


def check_ties(case):
    """Scores with ties (also all equal): whatever the order among equals, the outputs stay consistent"""
    from GPy_ABCD.Models.modelSearch import explore_model_space
    starts, trees, X, Y = given(case)
    fs = [by_name()[n] for n in case['rules']]
    fit = search.Fitter(case['salt'])
    mod = case['levels']
    def tied(m, ll, n, k):
        v = int(-ll * 1000) % mod
        return float('inf') if case['endless'] and v == mod - 1 else float(v)      # also without bound, as a penalty may be
    with sut('search'): res, out = quiet(explore_model_space, X, Y, starts, fs, tied, case['rounds'], case['beam'], 1, fit, 'lbfgsb', 1, case['verbose'])
    s, tested, ks, expanded, left = res
    sc = lambda m: m.cached_utility_function
    for l in [s, left] + tested: need([sc(m) for m in l] == sorted(map(sc, l)), 'a list of models is not sorted by score')
    need(len(s) == sum(map(len, tested)) and set(map(id, s)) == {id(m) for r in tested for m in r}, 'sorted models are not the tested ones')
    need(len(expanded) + len(left) == len(s) and {id(m) for m in expanded} | {id(m) for m in left} == set(map(id, s)) and not {id(m) for m in expanded} & {id(m) for m in left}, 'expanded and not expanded do not partition the models')
    need(len(ks) == len(s), 'tested expressions are', len(ks), 'while', len(s), 'models were tested')
    rules = [R[n] for n in case['rules']]
    known, at, bs = set(trees), 0, beams(case)
    seen = [m for m in tested[0]]
    for r in range(case['rounds']):
        pend = [m for m in seen if all(m is not e for e in expanded[:at])]
        go = expanded[at: at + min(bs[r], len(pend))]
        at += len(go)
        need(all(any(m is p for p in pend) for m in go), 'round', r, 'expands something not tested before it')
        best = sorted(map(sc, pend))[:len(go)]
        need(sorted(map(sc, go)) == best, 'round', r, 'does not expand the best models: scores', [sc(m) for m in go], 'instead of', best)
        new = set().union(*[refgram.expand(search.tree_of(m), rules) for m in go]) - known if go else set()
        need({search.tree_of(m) for m in tested[r + 1]} == new and len(tested[r + 1]) == len(new), 'round', r, 'does not test the new expansions of the models it expands')
        known |= new
        seen += tested[r + 1]
    return {'levels:%d' % mod, 'endless' if case['endless'] else 'finite', 'rounds:%d' % case['rounds']}


STARTS = {
    'Default': ['WN', 'C', 'LIN', 'PER', ['*', ['LIN'] * 2], ['*', ['LIN'] * 3], ['+', ['PER', 'C']], ['CP', 'LIN', 'LIN'], ['CW', 'LIN', 'LIN']],
    'Extended': ['WN', 'C', 'LIN', 'PER', ['*', ['LIN'] * 2], ['*', ['LIN'] * 3], ['+', ['PER', 'C']], ['+', ['C', ['CP', 'LIN', 'LIN']]], ['+', ['C', ['CW', 'LIN', 'LIN']]]],
    'Original_ABCD': ['WN']}


def check_defaults(case):
    """What a search explores when left to its defaults (and named groups), again and again: searches do not alter them"""
    import GPy_ABCD as G
    from GPy_ABCD.Models.modelSearch import explore_model_space
    X = np.array(case['X'], float)[:, None] / 10
    Y = np.cos(X)
    for c in case['searches']:
        u, value = search.utility(c.get('utility', 'BIC'), c['salt'], len(X))
        fit, kw = search.Fitter(c['salt']), {}
        if 'start' in c: kw['start_kernels'] = G.start_kernels[c['start']]
        if 'rules' in c: kw['p_rules'] = G.production_rules[c['rules']]
        if 'utility' in c: kw['utility_function'] = u
        if 'rounds' in c: kw['rounds'] = c['rounds']
        if 'beam' in c: kw['beam'] = c['beam']
        with sut('search %s' % c): res, out = quiet(explore_model_space, X, Y, model_list_fitter = fit, **kw)
        starts = [gen.canonical(j) for j in STARTS[c.get('start', 'Default')]]
        rules = [R[n] for n in (sorted(R) if c.get('rules') == 'All' else refgram.GROUPS[c.get('rules', 'Default')])]
        rounds, beam = c.get('rounds', 2), c.get('beam', [3, 2, 1])
        want = search.reference(starts, rules, value, rounds, beams({'beam': beam, 'rounds': rounds}))
        got = search.outcome(res)
        for name, g, w in zip(('sorted models', 'tested models', 'tested expressions', 'expanded', 'not expanded'), got, want):
            if name == 'tested expressions': need(len(g) == len(set(g)) and set(g) == w, 'search', c, ':', name, 'are', len(g), ': unexpected', [x for x in g if x not in w][:5], 'missing', [x for x in w if x not in g][:5])
            else: need(g == w, 'search', c, ':', name, 'differ; the first differing is', next(((a, b) for a, b in zip(g, w) if a != b), (len(g), len(w))))
        need([(c2['restarts'], c2['optimiser'], c2['max_retries']) for c2 in fit.calls] == [(5, 'lbfgsb', 1)] * (rounds + 1), 'default settings are', fit.calls[0]['restarts'], fit.calls[0]['optimiser'], fit.calls[0]['max_retries'])
        for n, js in STARTS.items(): need(sorted((gen.std(ke.unwrap(ke.tree(k))) for k in G.start_kernels[n]), key = str) == sorted((gen.canonical(j) for j in js), key = str), 'the start kernels', n, 'were altered')
    return {'searches:%d' % len(case['searches'])} | {'start:' + c.get('start', '(default)') for c in case['searches']} | {'rules:' + c.get('rules', '(default)') for c in case['searches']}


one_search = st.fixed_dictionaries({'salt': st.integers(0, 10 ** 6)}, optional = {'start': st.sampled_from(sorted(STARTS)), 'rules': st.sampled_from(['Default', 'Minimal', 'Original_ABCD', 'All']),
                                   'utility': st.sampled_from(['BIC', 'AIC', 'custom']), 'rounds': st.integers(0, 2), 'beam': st.sampled_from([1, 2, [2, 1], [1, 2]])})
start = st.sampled_from(list(BASES)) | gen.tree(2, 2, leaves = 4, root_composite = True) | gen.tree(2, 3, leaves = 4, root_composite = True)
cheap = [n for n in sorted(R)]
common = dict(again = st.just([]) | st.just([]) | st.lists(st.integers(0, 5), min_size = 1, max_size = 2), starts = st.lists(start, min_size = 1, max_size = 4), rules = st.lists(st.sampled_from(cheap), min_size = 1, max_size = 3, unique = True),
              rounds = st.sampled_from([2, 1, 3, 2, 3, 0]), beam = st.sampled_from([1, 2, 3, 2, 0]) | st.lists(st.sampled_from([1, 2, 3, 2, 0]), min_size = 1, max_size = 4), X = gen.points(2, 6), salt = st.integers(0, 10 ** 6),
              verbose = st.booleans())
COMPONENTS = [
    Component('searches', st.fixed_dictionaries(dict(utility = st.sampled_from(['BIC', 'AIC', 'custom', 'near', 'negative']), loses = st.sampled_from([False, False, True]), restarts = st.integers(1, 9), optimiser = st.sampled_from(['lbfgsb', 'scg']), retries = st.integers(0, 3), **common)), check, 1200, 30000),
    Component('ties', st.fixed_dictionaries(dict(levels = st.integers(1, 4), endless = st.booleans(), **common)), check_ties, 500, 12000),
    Component('defaults', st.fixed_dictionaries(dict(X = gen.points(2, 6), searches = st.lists(one_search, min_size = 1, max_size = 3))), check_defaults, 160, 3000),
]
