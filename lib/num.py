"""Independent numeric reference of the covariances, evaluated compositionally from named parameters (no package or GPy code evaluates anything here).

A spec is a nested tuple:
    ('WN', {'variance': v}) ('C', …) ('LIN', {'variance','offset'}) ('SE', {'variance','lengthscale'}) ('PER', {'variance','period','lengthscale'}) ('LINH', {'variance'}) ('FPER', …)
    ('+', [specs])  ('*', [specs])  ('CP', {'location','slope'}, left, right)  ('CW', {'location','width','slope'}, left, right)
    sigmoidal factors: ('S' | 'Sr', {'location','slope'}), ('SI' | 'SIr', {'location','width','slope'}), each with an optional 'variance'
ev(spec, X, X2) returns (K, M): the covariance matrix and a same-shaped magnitude with which rounding errors scale. X2 = None means the
covariance of X with itself (white noise is then the identity; it is 0 between separate inputs)."""
import re
import numpy as np
from scipy.special import i0e, i0

SLOPE = 0.5    # of change operators when their slope is fixed
RTOL = 2e-6


def sig(x, l, s):
    a = (x - l) / s
    return (1 + a / (1 + np.abs(a))) / 2


def phi(kind, p, x):
    s = p.get('slope', SLOPE)
    if kind == 'S': return sig(x, p['location'], s)
    if kind == 'Sr': return 1 - sig(x, p['location'], s)
    h = p['width'] / (2 * s)
    hat = (sig(x, p['location'], s) - sig(x, p['location'] + p['width'], s)) / (h / (1 + h))
    return hat if kind == 'SI' else 1 - hat


def _i0m1(z):
    if z > 1: return i0(z) - 1
    term, tot = 1., 0.
    for k in range(1, 30):
        term *= (z / 2) ** 2 / k ** 2
        tot += term
    return tot


def per(d, period, l):
    c, z = np.cos(2 * np.pi * d / period), 1 / l ** 2
    if l > 1e4: return c
    if z > 1: return (np.exp(z * (c - 1)) - i0e(z)) / (1 - i0e(z))
    return (np.expm1(z * c) - _i0m1(z)) / (np.expm1(z) - _i0m1(z))


def ev(spec, X, X2 = None):
    x, y = X.reshape(-1, 1), (X if X2 is None else X2).reshape(1, -1)
    kind = spec[0]
    one = np.ones((x.shape[0], y.shape[1]))
    if kind in ('+', '*'):
        parts = [ev(s, X, X2) for s in spec[1]]
        K, M = parts[0]
        for k, m in parts[1:]: K, M = (K + k, M + m) if kind == '+' else (K * k, M * m)
        return K, M
    if kind == 'CWI':      # three independent parts
        p = spec[1]
        q = {**p, 'location': p['location'] + p['width']}
        ws = phi('Sr', p, x) * phi('Sr', p, y), phi('SI', p, x) * phi('SI', p, y), phi('S', q, x) * phi('S', q, y)
        parts = [ev(s, X, X2) for s in spec[2:]]
        return sum(w * k for w, (k, _) in zip(ws, parts)), sum(np.abs(w) * m for w, (_, m) in zip(ws, parts))
    if kind in ('CP', 'CW'):
        p = spec[1]
        (k1, m1), (k2, m2) = ev(spec[2], X, X2), ev(spec[3], X, X2)
        if kind == 'CW' and 'shift_variance' in p:     # sides sharing one kernel but separated by a vertical shift
            q = {**p, 'location': p['location'] + p['width']}
            r, w, a = (phi('Sr', p, x) * phi('Sr', p, y), phi('SI', p, x) * phi('SI', p, y), phi('S', q, x) * phi('S', q, y))
            return k1 * r + k2 * w + (k1 + p['shift_variance']) * a, m1 * (r + a) + m2 * np.abs(w) + p['shift_variance'] * a
        l, r = ('Sr', 'S') if kind == 'CP' else ('SIr', 'SI')
        a, b = phi(l, p, x) * phi(l, p, y), phi(r, p, x) * phi(r, p, y)
        return k1 * a + k2 * b, m1 * np.abs(a) + m2 * np.abs(b)
    p = spec[1]
    v = p.get('variance', 1.)
    if kind == 'WN': K = v * (np.eye(x.shape[0]) if X2 is None else 0 * one)
    elif kind == 'C': K = v * one
    elif kind == 'LIN': K = v * (x - p['offset']) * (y - p['offset'])
    elif kind == 'LINH': K = v * x * y
    elif kind == 'SE': K = v * np.exp(- (x - y) ** 2 / (2 * p['lengthscale'] ** 2))
    elif kind == 'PER': K = v * per(x - y, p['period'], p['lengthscale'])
    elif kind == 'FPER': K = v * np.exp(- .5 * (np.sin(np.pi * (x - y) / p['period']) / p['lengthscale']) ** 2)
    elif kind in ('S', 'Sr', 'SI', 'SIr'): K = v * phi(kind, p, x) * phi(kind, p, y)
    else: raise ValueError(kind)
    M = np.abs(K) if kind in ('WN', 'C') else np.abs(K) + abs(v)
    if kind in ('LIN', 'LINH'):     # differences of inputs and offset are as good as exact; equivalent forms may lose a little of large inputs
        o = p.get('offset', 0.)
        def side(z): return np.abs(z - o) + np.minimum(np.abs(z) + abs(o), 1 + 1e-6 * (np.abs(z) + abs(o)))
        M = v * side(x) * side(y) + 1e-12
    return K, M


def tame(spec, size = 1.):
    """Whether no fitted parameter is so extreme (for data of the given size) that rounding within the kernels themselves matters"""
    if spec[0] in '+*': return all(tame(s, size) for s in spec[1])
    ok = {'variance': lambda v: 0 <= v < 1e4 * max(size, 1.) ** 2, 'location': lambda v: abs(v) < 1e3, 'offset': lambda v: abs(v) < 1e3}
    return all(ok.get(n, lambda v: 1e-3 < v < 1e4)(v) for n, v in spec[1].items()) and all(tame(s, size) for s in spec[2:])


def close(A, B, M, rtol = RTOL):
    """A equals B up to rounding at magnitude M (recursive bound of the quantities combined)"""
    A, B = np.asarray(A, float), np.asarray(B, float)
    return A.shape == B.shape and bool(np.all(np.isfinite(A))) and bool(np.all(np.abs(A - B) <= rtol * (M + 1e-9)))


def worst(A, B):
    A, B = np.asarray(A, float), np.asarray(B, float)
    if A.shape != B.shape: return 'shapes %s and %s' % (A.shape, B.shape)
    i = np.unravel_index(np.nanargmax(np.where(np.isfinite(A), np.abs(A - B), np.inf)), A.shape)
    return 'at %s: %r instead of %r' % (i, A[i], B[i])


# --- reading GPy kernels -------------------------------------------------------------------------------------------------------

NAMES = {'white': 'WN', 'bias': 'C', 'linear_with_offset': 'LIN', 'linear': 'LINH', 'rbf': 'SE', 'pure_std_periodic': 'PER', 'std_periodic': 'FPER',
         'sum': '+', 'mul': '*', 'sigmoidal': 'S', 'sigmoidal_indicator': 'SI', 'change_point': 'CP', 'change_window': 'CW'}


def kname(ker): return NAMES[re.sub(r'_\d+$', '', ker.name)]


def split(ker):
    """(own linked parameters by name, linked sub-kernels in order)"""
    from GPy.core.parameterization import Param
    return {p.name: p for p in ker.parameters if isinstance(p, Param)}, [p for p in ker.parameters if not isinstance(p, Param)]


def spec_of(ker):
    """The spec a kernel denotes by its linked parameters alone"""
    own, subs = split(ker)
    kind, ps = kname(ker), {n: float(p[0]) for n, p in own.items()}
    if kind in ('+', '*'): return (kind, [spec_of(s) for s in subs])
    if kind in ('CP', 'CW'): return ('CWI' if len(subs) == 3 else kind, ps, *map(spec_of, subs))
    if kind in ('S', 'SI'): kind += 'r' * bool(ker.reverse)
    return (kind, ps)


def leaf_params(ker):
    own, subs = split(ker)
    return list(own.values()) + [p for s in subs for p in leaf_params(s)]


def structure(spec, flat):
    """Reference tree of a spec, parameters dropped"""
    back = {'LINH': 'LIN', 'FPER': 'PER'}
    kind = spec[0]
    if kind in '+*': return flat((kind, tuple(structure(s, flat) for s in spec[1])))
    if kind in ('CP', 'CW'): return (kind, structure(spec[2], flat), structure(spec[3], flat))
    return back.get(kind, kind)


RANGES = {'variance': ('log', .01, 100.), 'shift_variance': ('log', .01, 10.), 'period': ('log', .2, 20.), 'lengthscale': ('log', .05, 50.), 'offset': ('lin', -20., 20.),
          'location': ('lin', -10., 10.), 'stop_location': ('lin', -10., 10.), 'width': ('log', .05, 20.), 'slope': ('log', .05, 5.)}


# Orders of magnitude of real data: years, populations, ...
WIDE = {'variance': ('log', 1e-5, 1e6), 'shift_variance': ('log', 1e-5, 1e6), 'period': ('log', 1e-3, 1e4), 'lengthscale': ('log', 1e-3, 1e5), 'offset': ('lin', -5000., 5000.),
        'location': ('lin', -3000., 3000.), 'stop_location': ('lin', -3000., 3000.), 'width': ('log', .01, 5000.), 'slope': ('log', .01, 500.)}


def value(name, i, ranges = RANGES):
    """The i-th (0 to 999) value of a parameter's range; multiples of 1/1000 of it, never equal for different i"""
    kind, a, b = ranges[name]
    f = (i + .5) / 1000
    return float(np.exp(np.log(a) + f * (np.log(b) - np.log(a)))) if kind == 'log' else a + f * (b - a)


def set_params(ker, ints, ranges = RANGES):
    """Give every linked parameter a value taken from a cycled list of integers (all values distinct: the position is mixed in)"""
    for j, p in enumerate(leaf_params(ker)):
        p[:] = value(p.name, (ints[j % len(ints)] + 37 * (j // len(ints)) + 13 * j) % 1000, ranges)
    return ker
