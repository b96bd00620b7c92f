"""Fitting under numerical failures, and the list fitters"""
import warnings
import numpy as np
from hypothesis import strategies as st
import ref, ke, gen, num
from harness import Component, need, sut
from props.C01 import simplified

ID = 'C17'
TITLE = 'Fits are retried as allowed and list fitters keep every model in its place'
RULE = ('Failure schedules injected at the library\'s optimisation (which attempt fails, with which error) with retry limits 0 to 4; lists of 0 to 20 expressions fitted sequentially and in parallel processes, '
        'with and without failing members. Non-trivial: at least one failure, or two or more expressions.')
ASSUMPTIONS = ['Failures are exceptions of the numerical library during optimisation; an interruption (e.g. keyboard) is not a failure',
               'Parameters of parallel and sequential fits are compared where the injected optimiser sets them; real optimisations differ by rounding, which may lead them to other optima, and are only compared with their starting point']
ERRORS = {'linalg': np.linalg.LinAlgError, 'value': ValueError, 'zero': ZeroDivisionError, 'assert': AssertionError, 'float': FloatingPointError, 'interrupt': KeyboardInterrupt}


def told(restarts, optimiser): return restarts + len(optimiser) / 100       # left in the noise, so that the settings used in other processes can be seen


class Injected:
    """Replaces the library's restarted optimisation: fails according to a schedule, otherwise gives the parameters recognisable values"""
    def __init__(self, plan): self.plan, self.calls, self.options = plan, [], []

    def __enter__(self):
        from GPy.models import GPRegression
        self.cls, self.had = GPRegression, 'optimize_restarts' in vars(GPRegression)
        self.old = GPRegression.optimize_restarts
        me = self
        def optimize_restarts(model, *args, **kw):
            num_restarts = kw.get('num_restarts', args[0] if args else None)
            me.options.append({n: v for n, v in kw.items() if n not in ('num_restarts', 'optimizer')})
            me.calls.append((model, num_restarts, kw.get('optimizer')))
            e = me.plan(len(me.calls) - 1, model)
            if e is not None: raise e
            me.mark(model, num_restarts, kw.get('optimizer'))
        GPRegression.optimize_restarts = optimize_restarts
        return self

    def mark(self, model, restarts, optimiser):
        for i, p in enumerate(num.leaf_params(model.kern)): p[:] = num.value(p.name, (17 * i + len(model.X)) % 1000)
        if isinstance(optimiser, str) and isinstance(restarts, int): model.likelihood.variance[:] = told(restarts, optimiser)

    def __exit__(self, *a):
        if self.had: self.cls.optimize_restarts = self.old
        else: del self.cls.optimize_restarts


def data(case):
    X = gen.sized(case['X']) if isinstance(case['X'], dict) else np.array(case['X'], float)[:, None] / 10
    return X, np.sin(X) + X / 5


def check_retries(case):
    from GPy_ABCD.Models.modelSearch import fit_one_model
    X, Y = data(case)
    k = simplified(gen.canonical(case['t']))
    before = ke.snapshot(k)
    plan, limit = case['plan'], case['limit']
    made = {}
    def fails(i, model):
        if i < len(plan) and plan[i]:
            made[i] = ERRORS[plan[i]]('failure %d' % i)
            return made[i]
    attempts = 0       # by definition
    for i in range(limit + 1):
        attempts = i + 1
        if i >= len(plan) or not plan[i] or plan[i] == 'interrupt': break
    last = plan[attempts - 1] if attempts - 1 < len(plan) else None
    with Injected(fails) as inj, warnings.catch_warnings(record = True) as ws:
        warnings.simplefilter('always')
        try: m, err = fit_one_model(X, Y, k, case['restarts'], case['optimiser'], limit), None
        except (Exception, KeyboardInterrupt) as e: m, err = None, e
    need(len(inj.calls) == attempts, 'with failures', plan, 'and at most', limit, 'retries there were', len(inj.calls), 'attempts instead of', attempts)
    if last: need(m is None and err is made.get(attempts - 1), 'with failures', plan, 'and at most', limit, 'retries the outcome is', repr(m), repr(err), 'instead of the error', repr(made.get(attempts - 1)))
    else:
        need(err is None and m is not None, 'with failures', plan, 'and at most', limit, 'retries the fit raised', repr(err))
        need(m.model is inj.calls[-1][0], 'the returned model is not the last one fitted')
        need(m.kernel_expression is k or ke.tree(m.kernel_expression) == ke.tree(k), 'the returned model is of', m.kernel_expression)
        need(np.array_equal(m.X, X) and np.array_equal(m.Y, Y), 'the returned model has other data')
        from parse import flat
        need(num.structure(num.spec_of(m.model.kern), flat) == flat(gen.canonical(case['t'])), 'the fitted kernel is', num.spec_of(m.model.kern), 'for', k)
    need(all(c[1] == case['restarts'] and c[2] == case['optimiser'] for c in inj.calls), 'attempts used restarts and optimiser', [c[1:] for c in inj.calls])
    need(len(set(id(c[0]) for c in inj.calls)) == len(inj.calls), 'an attempt reused the model of a failed one')
    said = [w for w in ws if 'etry' in str(w.message)]
    need(len(said) >= attempts - 1 if last != 'interrupt' else True, attempts - 1, 'retries gave', len(said), 'warnings')
    need(ke.snapshot(k) == before, 'fitting modified the expression')
    return {'failures:%d' % sum(map(bool, plan)), 'limit:%d' % limit, 'gives up' if last else 'succeeds'} | ({'trivial'} if not any(plan) else set())


def run_lists(fitter, X, Y, ks, case, bad):
    failed = [0]    # attempts at the present expression (each expression's attempts follow each other, in one process)
    def fails(i, model):
        size = len(num.leaf_params(model.kern))
        if bad is not None and size == bad: return np.linalg.LinAlgError('always fails')
        if failed[0] < flaky(case, size):
            failed[0] += 1
            return np.linalg.LinAlgError('fails %d times' % flaky(case, size))
        failed[0] = 0
    with Injected(fails) as inj, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try: return fitter(X, Y, ks, case['restarts'], case['optimiser'], case['limit']), None, len(inj.calls)
        except Exception as e: return None, e, len(inj.calls)


def flaky(case, size): return case['flaky'][size % len(case['flaky'])] if case['flaky'] else 0


def check_lists(case):
    from GPy_ABCD.Models import modelSearch as s
    from parse import flat
    X, Y = data(case)
    ts = [gen.canonical(t) for t in case['ts']]
    if case.get('n') is not None: ts = [ts[i % len(ts)] for i in range(case['n'])] if ts else []
    ks = [simplified(t) for t in ts]
    before = [ke.snapshot(k) for k in ks]
    sizes = [len(num.leaf_params(k.to_kernel())) for k in ks]
    bad = sizes[case['bad'] % len(sizes)] if case['bad'] is not None and sizes else None
    fails = [flaky(case, n) for n in sizes]
    res = {}
    for name, f in (('sequential', s.fit_mods_not_parallel), ('parallel', s.fit_mods_parallel_processes)):
        if name == 'parallel' and not case['parallel']: continue
        ms, err, calls = run_lists(f, X, Y, list(ks), case, bad)
        if bad is not None or any(n > case['limit'] for n in fails): need(ms is None and isinstance(err, np.linalg.LinAlgError), 'the', name, 'fitter hides a failed fit: it returned', ms, repr(err))
        else:
            need(err is None, 'the', name, 'fitter raised', repr(err), 'while no expression fails more than', fails, 'times and', case['limit'], 'retries are allowed to each')
            if name == 'sequential': need(calls == len(ks) + sum(fails), 'the', name, 'fitter made', calls, 'attempts at', len(ks), 'expressions failing', fails, 'times')
            need(len(ms) == len(ks), 'the', name, 'fitter returned', len(ms), 'models for', len(ks), 'expressions')
            for t, k, m in zip(ts, ks, ms):
                need(ke.tree(m.kernel_expression) == ke.tree(k) and num.structure(num.spec_of(m.model.kern), flat) == flat(t), 'the', name, 'fitter returned a model of', m.kernel_expression, 'in the place of', k)
                need(np.array_equal(m.X, X) and np.array_equal(m.Y, Y) and m.restarts == case['restarts'], 'the', name, 'fitter used other data or settings')
                need(abs(float(m.model.likelihood.variance[0]) - told(case['restarts'], case['optimiser'])) < 1e-9, 'the', name, 'fitter asked for other restarts or another optimiser than', case['restarts'], case['optimiser'])
                need(not ke.links(m.kernel_expression), 'broken links:', lambda: ke.links(m.kernel_expression))
            res[name] = [(num.spec_of(m.model.kern), float(m.model.log_likelihood())) for m in ms]
    if len(res) == 2: need([a == b and abs(la - lb) <= 1e-6 * (1 + abs(la)) for (a, la), (b, lb) in zip(res['sequential'], res['parallel'])] == [True] * len(ks), 'the parallel fitter fits', res['parallel'], 'and the sequential one', res['sequential'])
    need([ke.snapshot(k) for k in ks] == before, 'fitting modified the expressions')
    return {'n:%s' % (len(ks) if len(ks) < 3 else '3-8' if len(ks) < 9 else '9-20' if len(ks) < 21 else '21+'), 'failing' if bad is not None or any(n > case['limit'] for n in fails) else 'several retried' if sum(map(bool, fails)) > 1 else 'fine', 'parallel' if case['parallel'] else 'sequential'} | ({'trivial'} if len(ks) < 2 else set())


def check_real(case):
    """Real fits from the default start, with both list fitters"""
    from GPy_ABCD.Models import modelSearch as s
    X, Y = data(case)
    ks = [simplified(gen.canonical(t)) for t in case['ts']]
    with sut('fitting'): a, b = s.fit_mods_not_parallel(X, Y, ks, 1), s.fit_mods_parallel_processes(X, Y, ks, 1)
    for k, x, y in zip(ks, a, b):
        need(ke.tree(x.kernel_expression) == ke.tree(y.kernel_expression) == ke.tree(k), 'models out of place')
        start = s.GPModel(X, Y, k).fit(1, max_iters = 0)
        for m in (x, y):
            need(np.array_equal(m.X, X) and np.array_equal(m.Y, Y) and m.restarts == 1 and m.model.param_array.shape == start.model.param_array.shape, 'the fit of', k, 'has other data, restarts or parameters')
            need(float(m.model.log_likelihood()) >= float(start.model.log_likelihood()) - 1e-6 * (1 + abs(float(start.model.log_likelihood()))), 'fitting', k, 'lowered the likelihood from', start.model.log_likelihood(), 'to', m.model.log_likelihood())
    return {'n:%d' % len(ks)}


small = gen.tree(2, 3, leaves = 4, root_composite = True)
pts = gen.points(3, 8) | gen.points(3, 8) | gen.points(3, 8) | gen.data_sizes(10, 400)
length = st.none() | st.integers(0, 20) | st.integers(21, 70)
plan = st.lists(st.sampled_from([None, 'linalg', 'linalg', 'value', 'zero', 'assert', 'float', 'interrupt']), max_size = 6)
plan2 = st.lists(st.sampled_from(['linalg', 'value', 'zero', 'float']), max_size = 6)
flakes = st.just([]) | st.lists(st.integers(0, 2), min_size = 1, max_size = 4)
COMPONENTS = [
    Component('retries', st.fixed_dictionaries(dict(t = small, X = pts, plan = plan | plan2, limit = st.integers(0, 4), restarts = st.integers(1, 6), optimiser = st.sampled_from(['lbfgsb', 'scg']))), check_retries, 2000, 40000),
    Component('lists', st.fixed_dictionaries(dict(n = length, ts = st.lists(small, max_size = 20), X = pts, limit = st.integers(0, 3), flaky = flakes, restarts = st.integers(1, 6), optimiser = st.sampled_from(['lbfgsb', 'scg', 'org-bfgs']), bad = st.none() | st.none() | st.integers(0, 19), parallel = st.just(False))), check_lists, 400, 8000),
    Component('parallel', st.fixed_dictionaries(dict(n = length, ts = st.lists(small, max_size = 20), X = pts, limit = st.integers(0, 3), flaky = flakes, restarts = st.integers(1, 6), optimiser = st.sampled_from(['lbfgsb', 'scg', 'org-bfgs']), bad = st.none() | st.none() | st.integers(0, 19), parallel = st.just(True))), check_lists, 64, 1600),
    Component('real', st.fixed_dictionaries(dict(ts = st.lists(small, min_size = 1, max_size = 4), X = gen.points(6, 10))), check_real, 32, 800),
]
