"""Relations between searches: continuing, beam forms, input forms, verbosity"""
import copy
import numpy as np
from hypothesis import strategies as st
import ref, ke, gen, search
from harness import Component, need, sut
from props.C15 import given, by_name, beams, quiet, start, cheap

ID = 'C16'
TITLE = 'Continuing a search equals a longer search, whatever the form of its inputs'
RULE = ('Pairs of searches which have to agree: in one go and continued in one or more steps, with the beam as a number and as (shorter, longer) lists, with data as vectors, lists (also of mixed numbers), tuples and columns, verbose and silent. '
        'Non-trivial: at least two rounds or a different form of the data.')
ASSUMPTIONS = ['Continuing passes the outputs of the earlier search unchanged; scores are pairwise different']


def names(res): return search.outcome(res)


def same(a, b, what, case):
    for n, x, y in zip(('sorted models', 'tested models', 'tested expressions', 'expanded', 'not expanded'), names(a), names(b)):
        if n == 'tested expressions': x, y = sorted(x, key = str), sorted(y, key = str)
        need(x == y, what, ':', n, 'differ:', next(((p, q) for p, q in zip(x, y) if p != q), (len(x), len(y))))


FORMS = {'column': lambda A: A, 'vector': lambda A: A[:, 0], 'list': lambda A: list(map(float, A[:, 0])), 'tuple': lambda A: tuple(map(float, A[:, 0])),
         'mixed': lambda A: [int(v) if v == int(v) else float(v) for v in A[:, 0]]}


def check_continued(case):
    from GPy_ABCD.Models.modelSearch import explore_model_space, model_search_rounds
    starts, trees, X, Y = given(case)
    fs = [by_name()[n] for n in case['rules']]
    def u(m, ll, n, k): return -ll
    steps = case['steps']
    bs = beams({'beam': case['beam'], 'rounds': sum(steps)})
    fit = search.Fitter(case['salt'])
    with sut('search'): whole, _ = quiet(explore_model_space, X, Y, starts, fs, u, sum(steps), bs or 1, 3, fit, 'lbfgsb', 1, case['verbose'])
    starts2, _, _, _ = given(case)
    fit2 = search.Fitter(case['salt'])
    at = steps[0]
    with sut('search'): part, _ = quiet(explore_model_space, X, Y, starts2, fs, u, steps[0], bs[:at] or 1, 3, fit2, 'lbfgsb', 1, case['verbose'])
    form = FORMS[case['form']]
    lab = set()
    for s in steps[1:]:
        held = [list(x) if not x or not isinstance(x[0], list) else [list(y) for y in x] for x in part]
        beam = bs[at: at + s] + case['extra']
        if case['short'] and s and len(set(bs[at: at + s])) == 1:    # as for whole searches: a number, or a list to be continued by its last value
            beam = bs[at] if case['short'] == 1 else bs[at: at + 1]
            lab.add('short beam')
        if case['before'] == 'other':     # an earlier continuation, by other rules
            with sut('continuing the search'): quiet(model_search_rounds, X, Y, *part, search.Fitter(case['salt'] + 1), fs[:1] + [by_name()['replace_base']], u, s, bs[at: at + s] or 1, 3, 'lbfgsb', 1, False)
        elif case['before'] == 'failed' and s:   # a continuation whose fits failed, in the round said
            try: quiet(model_search_rounds, X, Y, *part, search.Failing(case['salt'], min(s, 2)), fs, u, s, bs[at: at + s], 3, 'lbfgsb', 1, False)
            except RuntimeError: pass
            else: need(False, 'a search went on although its fits failed')
        need(all(len(a) == len(b) and all(p is q or p == q for p, q in zip(a, b)) for a, b in zip(part, held)), 'continuing a search changed the outputs it started from:', [len(x) for x in part], 'instead of', [len(x) for x in held])
        with sut('continuing the search'): part2, _ = quiet(model_search_rounds, form(X), form(Y), *part, fit2, fs, u, s, beam, 3, 'lbfgsb', 1, case['verbose'])
        need(all(len(a) == len(b) and all(p is q or p == q for p, q in zip(a, b)) for a, b in zip(part, held)), 'continuing a search changed the outputs it started from:', [len(x) for x in part], 'instead of', [len(x) for x in held])
        part = part2
        at += s
    for c in fit2.calls: need(c['X'].shape == X.shape and np.array_equal(c['X'], X) and np.array_equal(c['Y'], Y), 'a continued search fits models to', c['X'].tolist(), c['Y'].tolist(), 'instead of columns of the data')
    same(whole, part, 'continuing a search by %s rounds differs from a single search' % steps, case)
    need([c['trees'] and set(c['trees']) for c in fit.calls] == [c['trees'] and set(c['trees']) for c in fit2.calls], 'a continued search fits other models than a single search')
    for r in (whole, part): need([m.cached_utility_function for m in r[0]] == sorted(search.score(search.tree_of(m), case['salt']) for m in r[0]), 'scores')
    return lab | {'before:' + case['before'], 'form:' + case['form'], 'steps:%d' % len(steps), 'rounds:%d' % sum(steps)} | ({'trivial'} if sum(steps) < 2 or not any(bs) else set())


def check_forms(case):
    from GPy_ABCD.Models.modelSearch import explore_model_space
    starts, trees, X, Y = given(case)
    if case['round']: X[0], Y[0] = np.round(X[0]), np.round(Y[0])      # the first are whole numbers
    fs = [by_name()[n] for n in case['rules']]
    def u(m, ll, n, k): return -ll
    bs = beams(case)
    fit0 = search.Fitter(case['salt'])
    with sut('search'): a, out = quiet(explore_model_space, X, Y, starts, fs, u, case['rounds'], bs or 1, 3, fit0, 'lbfgsb', 1, False)
    need(out == '', 'a search which should be silent prints', out[:200])
    fit1 = search.Fitter(case['salt'])
    starts2 = given(case)[0]
    b2 = case['beam'] if isinstance(case['beam'], int) else bs + case['extra'] if case['longer'] else case['beam']
    given_x, given_y = FORMS[case['form'][0]](X), FORMS[case['form'][1]](Y)
    cx, cy, cb = copy.deepcopy(given_x), copy.deepcopy(given_y), copy.deepcopy(b2)
    with sut('search'): b, out = quiet(explore_model_space, given_x, given_y, starts2, fs, u, case['rounds'], b2, 3, fit1, 'lbfgsb', 1, case['verbose'])
    same(a, b, 'the search depends on the form of its inputs or on being verbose', case)
    need(np.array_equal(cx, given_x) and np.array_equal(cy, given_y) and cb == b2, 'the search modified its inputs')
    for c in fit0.calls + fit1.calls: need(c['X'].shape == X.shape and np.array_equal(c['X'], X) and np.array_equal(c['Y'], Y), 'models are fitted to', c['X'].tolist(), c['Y'].tolist(), 'instead of columns of the data')
    return {'form:%s/%s' % tuple(case['form']), 'beam:' + type(b2).__name__, 'verbose' if case['verbose'] else 'silent'}



common = dict(starts = st.lists(start, min_size = 1, max_size = 3), rules = st.lists(st.sampled_from(cheap), min_size = 1, max_size = 3, unique = True), X = gen.points(2, 6), salt = st.integers(0, 10 ** 6), verbose = st.booleans())
beam = st.sampled_from([1, 2, 3, 2, 0]) | st.lists(st.sampled_from([1, 2, 3, 2, 0]), min_size = 1, max_size = 4)
COMPONENTS = [
    Component('continued', st.fixed_dictionaries(dict(steps = st.lists(st.sampled_from([1, 2, 1, 0]), min_size = 2, max_size = 3), beam = beam, extra = st.lists(st.integers(1, 3), max_size = 2), short = st.sampled_from([0, 0, 1, 2]),
                                                 before = st.sampled_from(['nothing', 'nothing', 'other', 'failed']), form = st.sampled_from(sorted(FORMS)), **common)), check_continued, 1000, 20000),
    Component('forms', st.fixed_dictionaries(dict(rounds = st.sampled_from([1, 2, 0, 3, 2, 3, 4]), beam = beam, form = st.tuples(*[st.sampled_from(['column', 'vector', 'list', 'tuple', 'mixed', 'mixed'])] * 2).map(list), longer = st.booleans(), round = st.booleans(),
                                             extra = st.lists(st.integers(0, 3), max_size = 2), **common)), check_forms, 1000, 20000),
]
