"""The package's convenience functions"""
import io, contextlib
import numpy as np
from hypothesis import strategies as st
import ref, ke, gen, num, search, text
from harness import Component, need, sut
from props.C12 import loglik
from props.C17 import Injected
from props.C19 import Setting, describe
from props.C24 import forms
from parse import flat

ID = 'C25'
TITLE = 'Convenience functions fit, print and plot exactly what they are given'
RULE = ('Single fits of expressions and of kernels on data in any accepted form (parameters injected at the library\'s optimisation), printed reports, plotted data and sample curves, for generated expressions, data and functions. '
        'Non-trivial: two or more data points.')
ASSUMPTIONS = ['Plots are judged by the data frame they hold, not by their looks; sample curves by properties which all functions of the kernel have (constant, linear, multiples of a sigmoid, periodic)']


def printed(f, *args, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out): r = f(*args, **kw)
    return r, out.getvalue()


def close_plots():
    from matplotlib import pyplot as plt
    plt.close('all')


def target(X, ints): return np.array([((ints[i % len(ints)] * (3 + i)) % 401) / 100 - 2 for i in range(len(X))])[:, None] + np.sin(X)


def score_of(u, s, noise, X, Y, n_params):
    """(score, tolerance) of the Gaussian process with covariance s, or None if it is too ill-conditioned to compare"""
    K, M = num.ev(s, X)
    cond = 1 + float(np.max(M)) * len(X) / noise
    if not np.isfinite(cond) or cond > 1e7: return None
    ll, n = loglik(K + noise * np.eye(len(X)), Y, 0.), len(X)
    return ll, {'BIC': -2 * ll + n_params * np.log(n), 'AIC': 2 * (n_params - ll)}[u], 1e-8 * cond * (abs(ll) + n) + 1e-7 * (abs(ll) + n_params)


def value_after(label, out):
    ls = [l[len(label):].strip() for l in out.splitlines() if l.startswith(label)]
    need(len(ls) == 1, 'there are', len(ls), 'lines starting with', repr(label), 'in', repr(out))
    return float(ls[0])


def check_expressions(case):
    """fit_kex, also of an expression which belongs to another model, and the printed reports of both"""
    import GPy_ABCD as G
    t = gen.canonical(case['t'])
    X = gen.col(case['X'])
    Y = target(X, case['y'])
    raw = ke.build(ref.fromjson(case['t']))
    first = None
    if case['shared']:
        with Setting(case['v'], False): first = G.fit_one_model(X, Y, raw._initialise(), 2, 'scg', 0)
        first.compute_utility(G.BIC)
        raw = first.kernel_expression
        said = (describe(first), first.cached_utility_function, first.interpret(), ke.snapshot(first.kernel_expression))
    Z = gen.col(case['Z'])
    W = target(Z, case['y'][::-1]) * 2 * case['scale']
    if case['form'] == 'numbers': W[0] = np.round(W[0])
    x, y = forms(Z, W, case['form'])
    kw = {'optimiser': case['optimiser']} if case['optimiser'] else {}
    with Setting(case['w'], False) as inj, sut('fit_kex of %s' % raw): m, _ = printed(G.fit_kex, x, y, raw, case['restarts'], getattr(G, case['utility']), **kw)
    need(len(inj.calls) == 1 and inj.calls[0][1] == case['restarts'] and inj.calls[0][2] == (case['optimiser'] or 'lbfgsb'), 'a single fit with', case['restarts'], 'restarts and', case['optimiser'] or 'lbfgsb', 'made the calls', lambda: [c[1:] for c in inj.calls])
    need(isinstance(m.X, np.ndarray) and m.X.shape == Z.shape and np.array_equal(m.X, Z) and np.array_equal(m.Y, W) and np.array_equal(m.model.X, Z) and np.array_equal(m.model.Y, W), 'data given as', case['form'], 'became', m.X, m.Y)
    need(gen.std(ref.norm(ke.unwrap(ke.tree(m.kernel_expression)))) == t and not ke.links(m.kernel_expression), 'the model of', raw, 'is of', m.kernel_expression)
    models = [(m, case['w'], Z, W, case['utility'])] + ([(first, case['v'], X, Y, 'BIC')] if first else [])
    for i, (o, ints, a, b, u) in enumerate(models):
        spec, noise = describe(o)
        need(num.structure(spec, flat) == flat(ke.unwrap(ke.tree(o.kernel_expression))), 'the model has the kernel', spec)
        need(num.spec_of(num.set_params(o.kernel_expression.to_kernel(), ints)) == spec, 'the fitted parameters changed')
        need(o.cached_utility_function_type == u, 'the score is of type', o.cached_utility_function_type)
        w = score_of(u, spec, noise, a, b, len(num.leaf_params(o.model.kern)) + 1)
        if w: need(abs(o.cached_utility_function - w[1]) <= w[2], 'the', u, 'of', o.kernel_expression, 'is', o.cached_utility_function, 'instead of', w[1])
        if case['print'] and not i:
            try:
                with sut('report of a model of %s' % o.kernel_expression): _, out = printed(G.model_printout, o)
            finally: close_plots()
            need(out.splitlines()[0] == str(o.kernel_expression), 'the report starts with', out.splitlines()[0])
            need(value_after(u + ':', out) == o.cached_utility_function, 'the report has another score')
            if w: need(abs(value_after('Log-Lik:', out) - w[0]) <= w[2], 'the report says log-likelihood', value_after('Log-Lik:', out), 'instead of', w[0])
            need('The fit kernel consists of' in out, 'the report has no interpretation')
            text.compare(out[out.index('The fit kernel consists of'):].rstrip('\n'), spec, o.kernel_expression)
        else: text.compare(o.interpret(), spec, o.kernel_expression)
    if first: need((describe(first), first.cached_utility_function, first.interpret(), ke.snapshot(first.kernel_expression)) == said, 'fitting the expression of a model to other data changed that model')
    return gen.labels(t, {case['form'], 'shared' if first else 'own', 'printed' if case['print'] else 'not printed'}) | ({'trivial'} if len(Z) < 2 else set())


def check_kernels(case):
    """fit_GPy_kern"""
    import GPy_ABCD as G
    from GPy.models import GPRegression
    from props.C01 import simplified
    t = gen.canonical(case['t'])
    ker = simplified(t).to_kernel()
    leaves = num.leaf_params(ker)
    fixed = {i % len(leaves) for i in case['fixed']}
    for i in fixed: leaves[i].fix()
    Z = gen.col(case['Z'])
    W = target(Z, case['y']) * case['scale']
    if case['form'] == 'numbers': W[0] = np.round(W[0])
    x, y = forms(Z, W, case['form'])
    try:
        with Setting(case['w'], False) as inj, sut('fit_GPy_kern of %s' % (t,)): m, out = printed(G.fit_GPy_kern, x, y, ker, case['restarts'], getattr(G, case['utility']))
    finally: close_plots()
    need(isinstance(m, GPRegression) and len(inj.calls) == 1 and inj.calls[0][1] == case['restarts'], 'fit_GPy_kern returned', type(m), 'after', len(inj.calls), 'optimisations')
    need(np.array_equal(m.X, Z) and np.array_equal(m.Y, W), 'data given as', case['form'], 'became', m.X, m.Y)
    spec, noise = num.spec_of(m.kern), float(m.likelihood.variance[0])
    need(num.structure(spec, flat) == flat(t), 'the fitted kernel is', spec)
    w = score_of(case['utility'], spec, noise, Z, W, len(leaves) - len(fixed) + 1)
    if w:
        need(abs(value_after('Log-Likelihood:', out) - w[0]) <= w[2], 'the report says log-likelihood', value_after('Log-Likelihood:', out), 'instead of', w[0])
        need(abs(value_after(case['utility'] + ':', out) - w[1]) <= w[2], 'the report says', case['utility'], value_after(case['utility'] + ':', out), 'instead of', w[1])
    return {case['form'], 'fixed:%d' % len(fixed)} | ({'trivial'} if len(Z) < 2 else set())


def check_plots(case):
    from GPy_ABCD.Util.dataAndPlottingUtil import gg_plot, gg_f_plot
    X = gen.col(case['X'])
    Y = target(X, case['y'])
    x, y = forms(X, Y, case['form'])
    with sut('plot'): d = gg_plot(x, y).data
    need(np.array_equal(np.asarray(d['X'], float), X[:, 0]) and np.array_equal(np.asarray(d['Y'], float), Y[:, 0]), 'the points', X.ravel(), Y.ravel(), 'are plotted as', d)
    a, b, c = case['f']
    def f(v): return a * int(v) if v < c else v * b / 8
    with sut('plot of a function'): d = gg_f_plot(f, x).data
    need(np.array_equal(np.asarray(d['X'], float), X[:, 0]) and np.allclose(np.asarray(d['Y'], float), [f(v) for v in X[:, 0]], rtol = 1e-12, atol = 1e-12), 'a function is plotted as', d, 'instead of', [f(v) for v in X[:, 0]])
    return {case['form']} | ({'trivial'} if len(X) < 2 else set())


def check_samples(case):
    """Every sample curve is a function of its kernel"""
    from GPy_ABCD.Util.kernelUtil import sampleCurves
    from GPy_ABCD.Kernels import baseKernels as B
    import GPy
    kind, lo, n = case['kind'], case['lo'] / 10, case['n']
    hi = lo + case['len'] / 10
    ker = {'C': B.C, 'LINH': lambda: GPy.kern.Linear(1), 'LIN': lambda: B.LIN(), 'S': lambda: B.S(), 'SI': lambda: B.SI(), 'COS': lambda: GPy.kern.Cosine(1), 'C+LINH': lambda: GPy.kern.Bias(1) + GPy.kern.Linear(1)}[kind]()
    np.random.seed(case['seed'])
    with sut('sample curves of %s' % kind): d = sampleCurves(ker, (lo, hi), n, case['same']).data
    names = list(dict.fromkeys(d['variable']))
    need(len(names) == n, 'asked for', n, 'curves there are', len(names))
    curves = []
    for v in names:
        part = d[d['variable'] == v]
        x, y = np.asarray(part['X'], float), np.asarray(part['value'], float)
        need(len(x) > 50 and abs(x[0] - lo) < 1e-9 and abs(x[-1] - hi) < 1e-9 and np.all(np.diff(x) > 0) and np.all(np.isfinite(y)), 'a curve is drawn over', x[:1], x[-1:], 'instead of', lo, hi)
        curves.append(y)
    need(n < 2 or all(not np.array_equal(a, b) for i, a in enumerate(curves) for b in curves[:i]), 'curves are repeated')
    for y in curves:
        basis = [np.ones_like(x), x] if kind in ('LIN', 'C+LINH') else [np.ones_like(x)] if kind == 'C' else [x] if kind == 'LINH' else None
        if kind == 'S' and case['same']: basis = [num.phi('S', {'location': float(ker.location[0]), 'slope': float(np.ravel(ker.slope)[0])}, x)]
        if kind == 'LIN' and case['same']: basis = [x - float(ker.offset[0])]
        if basis is None: continue
        A = np.stack(basis, 1) # (sampling is by the SVD of a 500 x 500 matrix of rank 1 or 2: noise around 1e-6 of the standard deviation, which may itself dwarf the curve)
        r = y - A @ np.linalg.lstsq(A, y, rcond = None)[0]
        need(np.max(np.abs(r)) <= 1e-3 * (np.max(np.abs(y)) + .1 * np.max(np.abs(A)) + .1), 'a sample curve of', kind, 'is not one of its functions: off by', np.max(np.abs(r)), 'of', np.max(np.abs(y)))
    if kind == 'LIN' and not case['same'] and n > 3:
        lines = [np.polyfit(x, y, 1) for y in curves]
        roots = [-b / m for m, b in lines if m]
        need(max(roots) - min(roots) > 1e-4, 'curves of different kernels all vanish at', roots[0])
    return {kind, 'same' if case['same'] else 'different', 'n:%d' % min(n, 4)}


def made(kind):
    from GPy_ABCD.Kernels import baseKernels as B
    import GPy
    return {'C': B.C, 'LINH': lambda: GPy.kern.Linear(1), 'LIN': lambda: B.LIN(), 'S': lambda: B.S(), 'SE': lambda: B.SE(), 'COS': lambda: GPy.kern.Cosine(1), 'CP': lambda: B.CP(B.LIN(), B.C())}[kind]()


def check_saved(case):
    """Saved sample curves: one image for each kernel, in the folder given, of that kernel's curves"""
    import os, shutil, tempfile, warnings
    from matplotlib import image
    from GPy_ABCD.Util.kernelUtil import saveKernelSamples, sampleCurves
    folder = tempfile.mkdtemp(prefix = 'saved-')
    a, b, elsewhere = (os.path.join(folder, n) for n in ('a b.c' if case['dotted'] else 'a', 'b', 'elsewhere'))
    names = ['%s%d%s' % (k, i, '.v' if case['dotted'] else '') for i, k in enumerate(case['kinds'])]
    lims = (case['lo'] / 10, (case['lo'] + case['len']) / 10)
    before = os.getcwd()
    try:
        for d in (a, b, elsewhere): os.mkdir(d)
        os.chdir(elsewhere)
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            np.random.seed(case['seed'])
            with sut('saving samples of %s' % case['kinds']): saveKernelSamples([made(k) for k in case['kinds']], names, a, lims, case['n'], case['same'])
            np.random.seed(case['seed'])
            for k, n in zip(case['kinds'], names): sampleCurves(made(k), lims, case['n'], case['same']).save(n + '.png', path = b, verbose = False)
        need(sorted(os.listdir(a)) == sorted(n + '.png' for n in names) and not os.listdir(elsewhere), 'asked for', names, 'the folder has', os.listdir(a), 'and the current one', os.listdir(elsewhere))
        for n in names:
            x, y = (image.imread(os.path.join(d, n + '.png')) for d in (a, b))
            need(len(np.unique(x.reshape(-1, x.shape[-1]), axis = 0)) > 2, 'the image of', n, 'is empty')
            if x.shape == y.shape: need(np.mean(np.abs(x - y) > .02) < .001, 'the image of', n, 'shows other curves')
    finally:
        os.chdir(before)
        shutil.rmtree(folder)
        close_plots()
    return {'kernels:%d' % len(names), 'dotted' if case['dotted'] else 'plain', 'same' if case['same'] else 'different'}


small = gen.tree(3, 3, leaves = 5, root_composite = True, min_depth = 1)
form = st.sampled_from(['column', 'flat', 'list', 'mixed', 'numbers'])
data = dict(y = gen.ints, form = form)
fitted = dict(t = small, Z = gen.data_points(2, 8, 100) | gen.data_points(2, 8, 100) | gen.data_sizes(10, 300, (4., 40.)), scale = gen.scales, w = gen.ints, restarts = st.integers(1, 6), utility = st.sampled_from(['BIC', 'AIC']), **data)
COMPONENTS = [
    Component('expressions', st.fixed_dictionaries(dict(X = gen.points(2, 8, 100), v = gen.ints, shared = st.booleans(), optimiser = st.sampled_from([None, 'scg', 'org-bfgs']), print = st.sampled_from([False] * 5 + [True]), **fitted)), check_expressions, 600, 12000),
    Component('kernels', st.fixed_dictionaries(dict(fixed = st.lists(st.integers(0, 9), max_size = 3), **fitted)), check_kernels, 80, 2000),
    Component('plots', st.fixed_dictionaries(dict(X = gen.data_points(1, 10, 100), f = st.tuples(st.integers(-5, 5), st.integers(-9, 9), st.integers(-3, 3)).map(list), **data)), check_plots, 200, 4000),
    Component('samples', st.fixed_dictionaries(dict(kind = st.sampled_from(['C', 'LINH', 'LIN', 'S', 'SI', 'COS', 'C+LINH']), lo = st.integers(-50, 50), len = st.integers(5, 80), n = st.integers(1, 6) | st.integers(7, 15), same = st.booleans(), seed = st.integers(0, 9999))), check_samples, 32, 1500),
    Component('saved', st.fixed_dictionaries(dict(kinds = st.lists(st.sampled_from(['C', 'LINH', 'LIN', 'S', 'SE', 'COS', 'CP']), min_size = 1, max_size = 3), lo = st.integers(-50, 50), len = st.integers(5, 80), n = st.integers(1, 4), same = st.booleans(), dotted = st.booleans(), seed = st.integers(0, 9999))), check_saved, 24, 400),
]
