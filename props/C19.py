"""Histories of fits and queries on models"""
import pickle
import numpy as np
from hypothesis import strategies as st
import ref, ke, gen, num, annot, text
from parse import flat
from harness import Component, need, sut
from props.C01 import simplified
from props.C08 import sop_spec
from props.C17 import Injected

ID = 'C19'
TITLE = 'After any history of fits a model speaks about its latest fit'
RULE = ('Histories of 4 to 12 operations (fits with injected parameters, short real fits, failing fits, fits after changing the expression or the data, pickling, and queries of every kind) on two models that share an expression; '
        'after each operation everything a model states is compared with the kernel of its latest fit. Non-trivial: a query follows at least two fits of one model.')
ASSUMPTIONS = ['The expression or data of a model are only replaced together with a refit', 'After a failed fit only consistency with whatever kernel the model shows is required']


class Setting(Injected):
    """An optimiser which sets the given parameters (or fails)"""
    def __init__(self, ints, fail, nudge = None): super().__init__(lambda i, model: np.linalg.LinAlgError('injected') if fail else None); self.ints, self.nudge = ints, nudge
    def mark(self, model, *told):
        num.set_params(model.kern, self.ints)
        if self.nudge:      # almost the same parameters
            p = num.leaf_params(model.kern)
            p = p[self.nudge[0] % len(p)]
            p[:] = float(p[0]) * (1 + self.nudge[1])
        model.likelihood.variance[:] = num.value('variance', self.ints[0], {'variance': ('log', .1, 10.)})


def target(X): return np.sin(X) + X / 5


class Side:
    def __init__(self, m, t): self.m, self.t, self.fits, self.restarts, self.spec, self.noise, self.kept, self.score, self.ints = m, t, 0, None, None, None, [], None, [0]


def describe(m): return num.spec_of(m.model.kern), float(m.model.likelihood.variance[0])


def fit(s, what, r, ints, iters):
    """Fit s.m, checking the settings the optimiser receives"""
    k = s.m.kernel_expression
    before, links = ke.snapshot(k), ke.links(k)
    want = r if r is not None else s.restarts
    if want is None:
        try: s.m.fit(); need(False, 'a model was fitted without ever being told how many restarts to use')
        except ValueError: return False
    if what == 'real':
        with sut('fit of %s' % k): out = s.m.fit(1, max_iters = iters)
        want = 1
    else:
        nudge = None
        if what == 'nudge':      # the parameters of the fit before, all but one
            nudge, ints = (ints[0], [1e-2, 1e-3, -1e-3, 1e-4, 1.][ints[-1] % 5]), s.ints
        s.ints = ints
        options = [{}, {}, {'max_iters': ints[0] % 50}, {'gtol': 1e-3}, {'verbose': True}, {'robust': True, 'max_iters': 7}][sum(ints) % 6]
        with Setting(ints, what == 'fails', nudge) as inj:
            try: out = s.m.fit(r, optimiser = 'scg', **options) if r is not None else s.m.fit(optimiser = 'scg', **options)
            except np.linalg.LinAlgError:
                need(what == 'fails', 'a fit of', k, 'failed without reason')
                out = None
        need(len(inj.calls) == 1 and inj.calls[0][1] == want and inj.calls[0][2] == 'scg', 'a fit asked for', want, 'restarts with scg made the calls', lambda: [c[1:] for c in inj.calls])
        need({**{'verbose': False, 'robust': False}, **inj.options[0]} == {**{'verbose': False, 'robust': False}, **options}, 'a fit with the options', options, 'was made with', inj.options[0])
        if what == 'fails': need(out is None, 'a failed optimisation gave a fitted model')
    if out is not None: need(out is s.m, 'fit does not return the model')
    s.restarts = want
    need(ke.snapshot(k) == before and ke.links(k) == links and s.m.kernel_expression is k, 'fitting modified the expression', k)
    need(s.m.model is not None, 'a fitted model has no regression')
    s.spec, s.noise = describe(s.m)
    s.score = None
    need(s.m.cached_utility_function is None and s.m.cached_utility_function_type is None, 'after a new fit the model keeps the score of an earlier one:', s.m.cached_utility_function_type, s.m.cached_utility_function)
    need(num.structure(s.spec, flat) == flat(s.t), 'the kernel fitted for', k, 'is', s.spec)
    need(np.array_equal(s.m.model.X, s.m.X) and np.array_equal(s.m.model.Y, s.m.Y), 'the regression has other data than the model')
    if what == 'set':
        ref_ = num.set_params(k.to_kernel(), ints)
        need(num.spec_of(ref_) == s.spec, 'the parameters set by the optimiser changed')
    s.fits += out is not None
    return out is not None


def query_sops(s):
    k = s.m.kernel_expression
    with sut('sum-of-products form of a model of %s' % k): f = s.m.sum_of_prods_kex
    got = sop_spec(f, k)
    need(len(got[1]) == annot.sop_count(s.t), 'the form of', k, 'has', len(got[1]), 'terms')
    X = np.arange(5.)[:, None] - 1.7
    A, MA = num.ev(got, X)
    R, M = num.ev(s.spec, X)
    need(num.close(A, R, M + MA), 'the sum-of-products form', got, 'is not the one of the latest fit', s.spec, lambda: num.worst(A, R))
    s.kept.append((f, got, k))


def query(s, op):
    m, k = s.m, s.m.kernel_expression
    if op[0] == 'sops': query_sops(s)
    elif op[0] == 'interpret':
        with sut('interpretation of a model of %s' % k): txt = m.interpret()
        text.compare(txt, s.spec, k)
    elif op[0] == 'score':
        import GPy_ABCD as G
        f = getattr(G, op[1])
        ll, n, p = float(m.model.log_likelihood()), len(m.X), len(num.leaf_params(m.model.kern)) + 1
        if op[1] == 'AICc' and n - p - 1 == 0: return
        want = {'BIC': -2 * ll + p * np.log(n), 'AIC': 2 * (p - ll), 'AICc': 2 * (p - ll) + (2 * p * (p + 1) / (n - p - 1) if n - p - 1 else 0)}[op[1]]
        with sut(op[1]): g = m.compute_utility(f)
        need(abs(g - want) <= 1e-9 * (1 + abs(want)), 'the', op[1], 'of the latest fit is', want, 'and not', g)
        s.score = (op[1], g)
    elif op[0] == 'predict':
        Z = np.array(op[2 - 1], float)[:, None] / 10
        with sut('prediction'): r = m.predict(Z)
        mean, cov = m.model.predict(Z)
        K, MM = num.ev(s.spec, m.X)
        cond = 1 + float(np.max(MM)) * len(m.X) / s.noise
        tol = max(1e-9, min(1, 1e-14 * cond))   # the same computation, up to rounding
        need(np.allclose(r['mean'], mean, rtol = 0, atol = tol * (1 + np.abs(mean).max())) and np.allclose(r['covariance'], cov, rtol = 0, atol = tol * (1 + np.abs(cov).max())), 'predictions of another fit:', r, 'and not', mean, cov)
        if cond < 1e7 and num.tame(s.spec, np.max(np.abs(m.Y))):
            C, CM = num.ev(s.spec, Z, m.X)
            # the prediction of the Gaussian process of the latest fit; white noise is counted by position, so only its place in the data counts
            w = np.linalg.solve(K + (s.noise + 1e-8) * np.eye(len(K)), m.Y)
            need(np.allclose(mean, C @ w, rtol = 0, atol = 1e-8 * cond * (1 + np.abs(CM) @ np.abs(w)).max() + 2e-6 * (CM @ np.abs(w)).max()), 'predicted means', mean.ravel(), 'instead of', (C @ w).ravel())


def unfitted(s):
    for q in ('interpret', 'sum_of_prods_kex'):
        try:
            r = getattr(s.m, q)
            if callable(r): r = r()
        except ValueError: continue
        need(False, 'a model which was never fitted answered', q, 'with', r)


def check(case):
    from GPy_ABCD.Models.model import GPModel
    t = gen.canonical(case['t'])
    shared = simplified(t)
    snap = ke.snapshot(shared)
    X = gen.col(case['X'])
    sides = [Side(GPModel(X, target(X), shared), t) for _ in range(2)]
    if case['default']:
        sides.append(Side(GPModel(X, target(X)), ('+', ('WN',))))     # the default expression of all models
        sides.append(Side(GPModel(X, target(X)), ('+', ('WN',))))
    for s in sides: unfitted(s)
    lab, late = set(), 0
    for op in case['ops']:
        s = sides[op[1] % len(sides)]
        name = op[0]
        if name == 'fit':
            lab.add('fit:' + op[2])
            ok = fit(s, op[2], op[3], op[4], 3)
        elif name == 'new':
            s.t = gen.canonical(op[2])
            s.m.kernel_expression = simplified(s.t)
            lab.add('new expression')
            fit(s, 'set', 1, op[4], 3)
        elif name == 'data':
            s.m.X = gen.col(op[2]); s.m.Y = target(s.m.X) * 2
            lab.add('new data')
            fit(s, 'set', 2, op[4], 3)
        elif name == 'pickle':
            if s.m.model is None: continue
            with sut('pickling a model of %s' % s.m.kernel_expression): s.m = pickle.loads(pickle.dumps(s.m))
            lab.add('pickled')
            need(ke.tree(s.m.kernel_expression) == ke.tree(simplified(s.t)) and not ke.links(s.m.kernel_expression), 'pickling changed the expression')
        elif s.m.model is None: unfitted(s)
        else:
            query(s, [op[2], *op[3:]])
            lab.add('query:' + op[2])
            if s.fits > 1: late += 1
        for x in sides:
            if x.m.model is not None:
                need(describe(x.m) == (x.spec, x.noise), 'the fitted parameters of a model changed without a fit:', describe(x.m), 'instead of', (x.spec, x.noise))
        need(ke.snapshot(shared) == snap, 'the shared expression was modified')
    for s in sides:
        if s.m.model is not None: query_sops(s); query(s, ['interpret'])
        for f, got, k in s.kept: need(sop_spec(f, k) == got, 'a sum-of-products form obtained earlier changed from', got, 'to', lambda: sop_spec(f, k))
        if s.score: need((s.m.cached_utility_function_type, s.m.cached_utility_function) == s.score, 'the model does not keep its last score')
    return lab | {'late queries:%d' % min(late, 3)} | (set() if late else {'trivial'})


small = gen.tree(3, 3, leaves = 6, root_composite = True, min_depth = 2)
who = st.sampled_from([0, 0, 0, 0, 1, 1, 2, 3])
fits = st.tuples(st.just('fit'), who, st.sampled_from(['set', 'set', 'set', 'nudge', 'nudge', 'real', 'fails']), st.none() | st.integers(1, 5), gen.ints)
queries = st.one_of(st.tuples(st.just('ask'), who, st.sampled_from(['sops', 'interpret', 'interpret'])), st.tuples(st.just('ask'), who, st.just('score'), st.sampled_from(['BIC', 'AIC', 'AICc'])),
                    st.tuples(st.just('ask'), who, st.just('predict'), gen.points(1, 3)))
others = st.one_of(st.tuples(st.just('new'), who, small, st.none(), gen.ints), st.tuples(st.just('data'), who, gen.points(3, 6), st.none(), gen.ints), st.tuples(st.just('pickle'), who))
op = st.one_of(fits, fits, queries, queries, queries, others).map(list)
first = st.lists(op, max_size = 2).flatmap(lambda a: st.tuples(st.just('fit'), st.just(0), st.just('set'), st.integers(1, 5), gen.ints).flatmap(lambda f: st.lists(op, min_size = 3, max_size = 9).map(lambda b: a + [list(f)] + b)))
COMPONENTS = [Component('histories', st.fixed_dictionaries(dict(t = small, X = gen.points(4, 7), default = st.sampled_from([False, False, True]), ops = first)), check, 800, 30000)]
