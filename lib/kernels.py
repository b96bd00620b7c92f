"""Direct construction of the package's kernel classes from JSON descriptions (for the numeric checks)"""
import re
from hypothesis import strategies as st
import num

LEAVES = ['WN', 'C', 'LIN', 'SE', 'PER', 'LINH', 'S', 'Sr', 'SI', 'SIr']
CHANGES = ['CP', 'CW', 'CWS', 'CWI']


def make(d):
    """d: a leaf name, ['+'|'*', [...]], or [change, fixed slope?, left, right(, third)]"""
    import GPy
    from GPy_ABCD.Kernels import baseKernels as b, linearKernel, sigmoidalKernels as s, changeOperators as c, changeWindowShiftedSides as w, changeWindowThreePart as w3
    if isinstance(d, str):
        free = d.endswith('!')        # fixed slope
        d = d.rstrip('!')
        if d == 'LINH': return linearKernel.Linear(1)
        if d in ('S', 'Sr'): return s.SigmoidalKernel(1, d == 'Sr', fixed_slope = free)
        if d in ('SI', 'SIr'): return s.SigmoidalIndicatorKernel(1, d == 'SIr', fixed_slope = free)
        return getattr(b, d)()
    if d[0] in '+*':
        ks = [make(x) for x in d[1]]
        return ks[0] if len(ks) == 1 else (GPy.kern.Add if d[0] == '+' else GPy.kern.Prod)(ks)
    cls = {'CP': c.ChangePointKernel, 'CW': c.ChangeWindowKernel, 'CWS': w.ChangeWindowKernelShiftedSides, 'CWI': w3.ChangeWindowKernelIndependent}[d[0]]
    return cls(*[make(x) for x in d[2:]], fixed_slope = d[1])


def spec(ker, d, slope_leaf = .2):
    """The numeric spec of a kernel built from d, with the fixed slopes of lone sigmoids filled in"""
    s = num.spec_of(ker)
    if isinstance(d, str) and d.endswith('!'): s = (s[0], {**s[1], 'slope': slope_leaf})
    return s


UNITS = [1e-6, 1e-4, 1e-3, 1e-2, .1, 10., 100., 1e4]


def rescale(ker, unit):
    """Give the parameters of a kernel in another unit of the inputs: it then does on the inputs times the unit what it did on the inputs"""
    own, subs = num.split(ker)
    kind = num.kname(ker)
    for n, p in own.items():
        if n in ('location', 'stop_location', 'width', 'slope', 'period', 'offset') or n == 'lengthscale' and kind == 'SE': p[:] = float(p[0]) * unit
        if n == 'variance' and kind in ('LIN', 'LINH'): p[:] = float(p[0]) / unit ** 2
    for s in subs: rescale(s, unit)
    return ker


inner = st.sampled_from(['WN', 'C', 'LIN', 'SE', 'PER', 'LINH']) | st.tuples(st.sampled_from('+*'), st.lists(st.sampled_from(['WN', 'C', 'LIN', 'SE', 'PER', 'LINH']), min_size = 2, max_size = 3)).map(list)


def change(kinds, sub = inner): return st.sampled_from(kinds).flatmap(lambda k: st.tuples(st.just(k), st.booleans(), *[sub] * (3 if k == 'CWI' else 2)).map(list))


def kernel(kinds = ('CP', 'CW', 'CWS', 'CWI')):
    leaf = st.sampled_from(LEAVES + ['S!', 'Sr!', 'SI!', 'SIr!'])
    one = change(list(kinds))
    return leaf | one | change(list(kinds), inner | one)


def fixed(d):
    """Whether a slope is fixed (which is then not in the unit of the inputs)"""
    if isinstance(d, str): return d.endswith('!')
    return any(map(fixed, d[1])) if d[0] in '+*' else d[1] or any(map(fixed, d[2:]))


def kinds(d):
    if isinstance(d, str): return {d}
    return {d[0]} | set().union(*[kinds(x) for x in (d[1] if d[0] in '+*' else d[2:])])
