"""Data generators"""
import numpy as np
from hypothesis import strategies as st
from harness import Component, need, sut

ID = 'C23'
TITLE = 'Generated data follow the described functions exactly'
RULE = ('Pairs of constant, affine, quadratic and step functions returning integers, floats or numpy numbers, with generated change locations (on and between the inputs), weights and inputs as lists, ranges, '
        'vectors and columns; noiseless data are compared exactly with the piecewise definition and noise by its moments. Non-trivial: at least two inputs.')
ASSUMPTIONS = ['A change-point belongs to the second part and the ends of a window to its inside', 'Noise is judged statistically on 400 points (six standard errors)']

KINDS = ['const', 'affine', 'quadratic', 'step', 'abs']
OUT = ['int', 'float', 'np.float64', 'np.int64', 'mixed']


def fun(spec):
    kind, out, a, b, c = spec
    def f(x):
        x = float(x)
        y = {'const': a, 'affine': a * x + b, 'quadratic': a * x * x + b * x + c, 'step': a if x < c else b, 'abs': abs(x - c) * a + b}[kind]
        if out == 'int': return int(round(y))
        if out == 'np.int64': return np.int64(round(y))
        if out == 'np.float64': return np.float64(y) + .25
        if out == 'mixed': return int(y) if float(y) == int(y) else y
        return y + .5
    return f


def ref_cp(f1, f2, cp, line_up):
    return lambda x: f1(x) if x < cp else f2(x) + ((f1(cp) - f2(cp)) if line_up else 0)


def ref_cw(f1, f2, s, e, line_up):
    def f(x):
        if x < s: return f1(x)
        d = (f1(s) - f2(s)) if line_up else 0
        if x <= e: return f2(x) + d
        return f1(x) + ((f2(e) + d - f1(e)) if line_up else 0)
    return f


def inputs(xs, form):
    if form == 'list': return list(xs)
    if form == 'tuple': return tuple(xs)
    if form == 'vector': return np.array(xs)
    if form == 'range': return range(int(xs[0]), int(xs[0]) + len(xs)) if [int(xs[0]) + i for i in range(len(xs))] == list(xs) else list(xs)
    if form == 'own column': return np.array(xs)[:, None]
    if form == 'small': return np.array(xs, dtype = 'int16' if all(x == int(x) for x in xs) else 'float32' if all(4 * x == int(4 * x) for x in xs) else float)
    if form == 'floats': return np.array(xs, dtype = float)
    return np.array(xs, dtype = float)[:, None]


def close(A, B): return np.allclose(np.asarray(A, dtype = float), np.asarray(B, dtype = float), rtol = 1e-9, atol = 1e-9)


def call(D, case, X, Yw, nw, f1, f2):
    which, cp, width, line = case['which'], case['cp'], case['width'], case['line']
    if which == 'plain': return D.generate_data(f1, X, Yw, nw), f1
    if which == 'cp': return D.generate_changepoint_data(X, f1, f2, cp, Yw, nw, line), ref_cp(f1, f2, cp, line)
    return D.generate_changewindow_data(X, f1, f2, cp, cp + width, Yw, nw, line), ref_cw(f1, f2, cp, cp + width, line)


def partial(f, defined, which):
    def g(x):
        need(defined(float(x)), 'the', which, 'function was evaluated at', float(x), ', where the other one applies')
        return f(x)
    return g


def check(case):
    from GPy_ABCD.Util import dataAndPlottingUtil as D
    f1, f2 = fun(case['f1']), fun(case['f2'])
    s, e, which = case['cp'], case['cp'] + case['width'] if case['which'] == 'cw' else np.inf, case['which']
    if which != 'plain' and case['partial']:      # each function is only defined where it is needed
        joints = (s, e) if case['line'] else ()
        f1, f2 = partial(f1, lambda x: x < s or x > e or x in joints, 'first'), partial(f2, lambda x: s <= x <= e or x in joints, 'second')
    xs, Yw = list(case['X']), case['Yw']
    if case['near'] and which != 'plain':      # inputs as near as can be to the changes
        for c in (s, e) if which == 'cw' else (s,): xs += [np.nextafter(c, -np.inf), float(c), np.nextafter(c, np.inf), c - 1e-7, c + 1e-7]
    X = inputs(xs, case['form'])
    before = np.array(X, dtype = float)
    with sut('generating data'): (Xo, Y), ref = call(D, case, X, Yw, 0, f1, f2)
    Xo, Y = np.asarray(Xo), np.asarray(Y)
    need(Xo.shape == (len(xs), 1) and Y.shape == (len(xs), 1), 'shapes', Xo.shape, Y.shape)
    need(np.array_equal(Xo[:, 0].astype(float), np.array(xs, dtype = float)), 'the inputs returned are not those given')
    need(np.array_equal(np.array(X, dtype = float), before), 'the inputs given were modified')
    want = [ref(x) * Yw for x in xs]
    need(close(Y[:, 0], want), lambda: 'values %r instead of %r' % (Y[:, 0].tolist(), want))

    # The function makers on their own
    with sut('making functions'):
        if case['which'] == 'cp': made = D.cp_f_maker(f1, f2, case['cp'], case['line'])
        elif case['which'] == 'cw': made = D.cw_f_maker(f1, f2, case['cp'], case['cp'] + case['width'], case['line'])
        else: made = None
        if made is not None:
            for arg in (np.array(xs), np.array(xs, dtype = float)[:, None], list(xs)):
                v = made(arg)
                need(np.shape(v) == np.shape(arg), 'shape of the values')
                need(close(np.ravel(v), [ref(x) for x in xs]), lambda: 'made function: %r' % (np.ravel(v).tolist(),))
            need(close(made(xs[0]), ref(xs[0])), 'made function at a single number')
    lab = {case['which'], case['form']}
    if case['line']: lab.add('lined up')
    if case['partial']: lab.add('partial functions')
    if case['cp'] in xs: lab.add('change on an input')
    if case['which'] == 'cw' and case['width'] == 0: lab.add('empty window')
    if len(set(xs)) < 2: lab.add('trivial')
    return lab


def check_noise(case):
    from GPy_ABCD.Util import dataAndPlottingUtil as D
    f1, f2, w, Yw = fun(case['f1']), fun(case['f2']), case['w'], case['Yw']
    cp = case['cp']
    if case['grid'] == 'integers': xs = [int(cp) + i - 200 for i in range(400)]
    elif case['grid'] == 'few integers': xs = [int(cp) + i // 20 - 10 for i in range(400)]
    else: xs = [cp + (i - 200) / 10 for i in range(400)]
    np.random.seed(case['seed'])
    with sut('generating data'): (_, Y), ref = call(D, case, inputs(xs, case['form']), Yw, w, f1, f2)
    r = np.asarray(Y)[:, 0] - np.array([ref(x) * Yw for x in xs], dtype = float)
    z = r / w
    se = 1 / np.sqrt(400)
    need(abs(z.mean()) < 6 * se, 'noise of mean', z.mean())
    need(abs(z.std() - 1) < 6 * se / np.sqrt(2), 'noise of weight', z.std(), 'times the one asked')
    need(abs(np.mean(z[1:] * z[:-1])) < 6 * se, 'noise correlated across inputs')
    need(.6 < np.mean(np.abs(z)) / np.sqrt(2 / np.pi) < 1.4 and np.max(np.abs(z)) < 7, 'noise not Gaussian')
    return {case['which'], case['grid'], case['form']}


num = st.integers(-5, 5)
f = st.tuples(st.sampled_from(KINDS), st.sampled_from(OUT), num, num, num).map(list)
x = st.integers(-20, 20) | st.integers(-80, 80).map(lambda i: i / 4)
common = dict(near = st.sampled_from([False, False, True]), partial = st.booleans(), which = st.sampled_from(['cp', 'cw', 'plain', 'cw']), f1 = f, f2 = f, cp = x, width = st.integers(0, 40).map(lambda i: i / 4), line = st.booleans(),
              form = st.sampled_from(['list', 'tuple', 'vector', 'floats', 'column', 'own column', 'small', 'range']), Yw = st.sampled_from([1, 1, 2, .5, -3, 0]))
COMPONENTS = [
    Component('values', st.fixed_dictionaries(dict(X = st.lists(x, min_size = 1, max_size = 15) | st.tuples(st.integers(-20, 20), st.integers(1, 30)).map(lambda p: list(range(p[0], p[0] + p[1]))), **common)), check, 8000, 200000),
    Component('noise', st.fixed_dictionaries(dict(w = st.sampled_from([1, .1, 2, 50]), seed = st.integers(0, 10**6), grid = st.sampled_from(['integers', 'few integers', 'tenths']), **common)), check_noise, 600, 8000),
]
