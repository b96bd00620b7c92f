"""Whole searches with real fits"""
import numpy as np
from hypothesis import strategies as st
import ref, ke, gen, num, search, refgram, text
from harness import Component, need, sut
from props.C12 import loglik
from props.C15 import given, quiet, beams, by_name, R
from props.C19 import Side, describe, query_sops
from parse import flat

ID = 'C24'
TITLE = 'Complete searches report models that are what they are said to be'
RULE = ('Whole searches with real fits of generated data (as columns, flat arrays or lists), by the sequential and the process-parallel list fitter; every returned model is judged against its own fitted kernel (score, sum-of-products form, '
        'interpretation, predictions), and the outputs against the scores. Non-trivial: two or more models with two or more parameters each.')
ASSUMPTIONS = ['Sequential and parallel fits are not compared with each other: the order of terms, and so rounding, differs (C17 compares them where fits are deterministic)', 'Models are judged where no fitted parameter is extreme (scales between 1e-3 and 1e4), their scores where the covariance matrix has a condition number below 1e9 (with the 1e-8 which GPy adds to the noise)']


def forms(X, Y, form):
    if form == 'column': return X, Y
    if form == 'flat': return X[:, 0], Y[:, 0]
    if form == 'list': return X[:, 0].tolist(), Y[:, 0].tolist()
    if form == 'numbers': return [[int(v) if v.is_integer() else v for v in z[:, 0].tolist()] for z in (X, Y)]    # Of both kinds
    return X, Y[:, 0]


def make(case):
    starts, trees, X, _ = given(case)
    y = case['y']
    x = X[:, 0]
    Y = {'line': .5 * x + 1, 'wave': np.sin(1.3 * x), 'step': np.where(x > np.median(x), 2., -1.), 'mix': np.cos(2 * x) + .3 * x}[case['shape']] + np.array([((y[i % len(y)] * (3 + i)) % 101) / 200 - .25 for i in range(len(x))])
    Y *= case['scale']
    if case['form'] == 'numbers': Y[0] = np.round(Y[0])
    return starts, trees, X, Y[:, None]


def rounding(spec):
    """Relative accuracy of a covariance: periodic kernels lose digits to long lengthscales, and use a polynomial for short ones"""
    if spec[0] in '+*': return max(map(rounding, spec[1]))
    own = 1e-15
    if spec[0] == 'PER': own = 1e-6 if spec[1]['lengthscale'] < .52 else max(own, 1e-15 * min(spec[1]['lengthscale'], 1e4) ** 2)
    return max([own] + [rounding(s) for s in spec[2:]])


def judged(m, X, Y, u):
    """Everything a model of the results says about itself. Returns whether its score could be compared"""
    k = m.kernel_expression
    t = search.tree_of(m)
    need(not ke.links(k), 'broken expression in the results:', lambda: ke.links(k))
    need(np.array_equal(m.X, X) and np.array_equal(m.Y, Y) and np.array_equal(m.model.X, X) and np.array_equal(m.model.Y, Y), 'the model of', k, 'holds other data', np.shape(m.X), np.shape(m.Y))
    s = Side(m, t)
    s.spec, s.noise = describe(m)
    need(num.structure(s.spec, flat) == flat(t), 'the model of', k, 'has the kernel', s.spec)
    need(m.cached_utility_function_type == u.__name__, 'the model of', k, 'is scored by', m.cached_utility_function_type)
    if not num.tame(s.spec, np.max(np.abs(Y))): return False
    query_sops(s)
    with sut('interpretation of %s' % k): txt = m.interpret()
    text.compare(txt, s.spec, k)
    K, M = num.ev(s.spec, X)
    noise = s.noise + 1e-8     # what GPy's exact inference uses
    cond = 1 + float(np.max(M)) * len(X) / noise
    if not np.isfinite(cond) or cond > 1e9: return False
    ll = loglik(K, Y, s.noise)
    n, p = len(X), len(num.leaf_params(m.model.kern)) + 1
    want = {'BIC': -2 * ll + p * np.log(n), 'AIC': 2 * (p - ll)}[u.__name__]
    need(abs(m.cached_utility_function - want) <= max(1e-11, 4 * rounding(s.spec)) * cond * (abs(ll) + n) + 1e-7 * (1 + abs(want)), 'the model of', k, 'with', s.spec, 'noise', s.noise, 'has the', u.__name__, m.cached_utility_function, 'instead of', want)
    # never worse than before fitting
    from GPy.models import GPRegression
    start = float(GPRegression(X, Y, k.to_kernel()).log_likelihood())
    need(float(m.model.log_likelihood()) >= start - 1e-6 * (1 + abs(start)), 'the fit of', k, 'is worse than its starting point:', m.model.log_likelihood(), 'after', start)
    return True


def check(case):
    import GPy_ABCD as G
    from GPy_ABCD.Models.modelSearch import explore_model_space, fit_mods_not_parallel, fit_mods_parallel_processes
    starts, trees, X, Y = make(case)
    fs = [by_name()[n] for n in case['rules']]
    u = getattr(G, case['utility'])
    x, y = forms(X, Y, case['form'])
    x0, y0 = np.array(x), np.array(y)
    def go(fitter):
        with sut('search %s' % case): return quiet(explore_model_space, x, y, starts, fs, u, case['rounds'], case['beam'], 1, fitter, 'lbfgsb', 1, case['verbose'])[0]
    runs = [go(fit_mods_parallel_processes if case['fitter'] == 'parallel' else fit_mods_not_parallel)]
    need(np.array_equal(x, x0) and np.array_equal(y, y0), 'the search modified its data')
    for s, j in zip(starts, case['starts']): need(isinstance(s, str) or gen.std(ref.norm(ke.unwrap(ke.tree(s)))) == gen.canonical(j), 'a start expression became', s)     # simplified in place at most
    compared = models = 0
    for s, tested, ks, expanded, left in runs:
        sc = [m.cached_utility_function for m in s]
        need(all(np.isfinite(sc)) and sc == sorted(sc), 'the models are not in the order of their scores', sc)
        need(len(tested) == case['rounds'] + 1 and len(s) == sum(map(len, tested)) == len(ks) and set(map(id, s)) == {id(m) for r in tested for m in r}, 'the outputs are not of the same models')
        need({search.tree_of(m) for m in tested[0]} == set(trees) and len(tested[0]) == len(trees), 'the models tested first are not the start expressions')
        need([gen.std(ke.unwrap(ke.tree(k))) for k in ks] and sorted(map(repr, (gen.std(ke.unwrap(ke.tree(k))) for k in ks))) == sorted(repr(search.tree_of(m)) for m in s), 'the tested expressions are not those of the models')
        known, pend = set(trees), list(tested[0])
        for r, b in enumerate(beams(case)):
            todo = sorted(pend, key = lambda m: m.cached_utility_function)[:b]
            new = set().union(*[refgram.expand(search.tree_of(m), [R[n] for n in case['rules']]) for m in todo]) - known
            need({search.tree_of(m) for m in tested[r + 1]} == new and len(new) == len(tested[r + 1]), 'round', r, 'does not test the new expansions of its best models')
            pend = [m for m in pend if all(m is not d for d in todo)] + tested[r + 1]
            known |= new
        need(sorted(map(id, left)) == sorted(map(id, pend)) and len(expanded) == len(s) - len(pend), 'expanded and not expanded models do not partition the tested ones')
        for m in s: compared += judged(m, X, Y, u)
        models += len(s)
    return {case['form'], case['fitter'], 'rounds:%d' % case['rounds'], 'compared:%d%%' % (100 * compared // models // 25 * 25), 'models:' + ('<10' if models < 10 else '<30' if models < 30 else '30+')} | ({'trivial'} if models < 2 else set())


start = st.sampled_from(['LIN', 'PER', 'C', 'WN']) | gen.tree(2, 2, leaves = 3, root_composite = True) | gen.tree(2, 3, leaves = 3, root_composite = True)
cases = st.fixed_dictionaries(dict(starts = st.lists(start, min_size = 1, max_size = 3), rules = st.lists(st.sampled_from(sorted(R)), min_size = 1, max_size = 1), rounds = st.sampled_from([1, 1, 0, 1]),
                                   beam = st.sampled_from([1, 2]), X = gen.data_points(5, 9, 60), scale = gen.scales, y = gen.ints, shape = st.sampled_from(['line', 'wave', 'step', 'mix']), utility = st.sampled_from(['BIC', 'AIC']), verbose = st.booleans(),
                                   form = st.sampled_from(['column', 'flat', 'list', 'mixed', 'numbers']), fitter = st.sampled_from(['sequential', 'sequential', 'sequential', 'parallel'])))
large = st.fixed_dictionaries(dict(starts = st.lists(st.sampled_from(['LIN', 'PER', 'C', 'WN']), min_size = 1, max_size = 2), rules = st.sampled_from([[n] for n in sorted(R)]), rounds = st.just(0), beam = st.just(1), X = gen.data_sizes(100, 320, (4., 40.)),
                                   scale = st.sampled_from([1, 100]), y = gen.ints, shape = st.sampled_from(['line', 'wave', 'step', 'mix']), utility = st.sampled_from(['BIC', 'AIC']), verbose = st.booleans(),
                                   form = st.sampled_from(['column', 'flat', 'list', 'mixed', 'numbers']), fitter = st.sampled_from(['sequential', 'parallel'])))
COMPONENTS = [Component('searches', cases, check, 48, 3000),
              Component('large', large, check, 24, 800)]
