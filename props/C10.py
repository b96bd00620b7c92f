"""Intersections of sigmoidal intervals"""
import copy
from hypothesis import strategies as st
import gen, text
from harness import Component, need, sut

ID = 'C10'
TITLE = 'A component is said to apply exactly where all its change sigmoidals are on'
RULE = ('Products with 1 to 7 sigmoidal factors of the four kinds with locations and widths on a coarse grid (coinciding, nested, touching, disjoint), a fine one or over very different scales (narrow windows and ones thousands of times wider); the stated intervals are compared with set '
        'intersection at points between the change locations. Non-trivial: two or more sigmoidals.')
ASSUMPTIONS = ['Nothing is required exactly at a change location, and empty pieces between coinciding locations may or may not be stated']


@st.composite
def cases(draw):
    scale = draw(st.integers(0, 4))
    fine, uneven = scale > 1, scale == 4                # a grid; any tenths; tenths up to thousands next to narrow ones
    n = draw(st.integers(1, 7))
    loc = st.integers(-60, 60) if fine else st.integers(-4, 4).map(lambda i: i * 10)
    wid = st.integers(1, 60) if fine else st.integers(1, 4).map(lambda i: i * 10)
    if uneven:
        loc = st.one_of(loc, st.integers(-60000, 60000), st.integers(-3, 3).map(lambda i: i * 10000))
        wid = st.one_of(wid, st.integers(1, 3), st.integers(60, 80000), st.sampled_from([1000, 10000, 40000]))
    kinds = draw(st.lists(st.sampled_from(['S', 'Sr', 'SI', 'SIr', 'SIr', 'SIr']), min_size = n, max_size = n))
    def sigmoidal(k):
        l, w = draw(loc), (draw(wid) if k in ('SI', 'SIr') else None)
        if roomy and k in ('S', 'SI'): l = -abs(l)        # mostly overlapping: starts to the left, ends to the right
        if roomy and k == 'Sr': l = abs(l)
        if roomy and k == 'SI': w = w + 30 - l // 2
        return [k, l] + ([w] if w else [])
    roomy = draw(st.integers(0, 3)) > 0
    return {'sigs': [sigmoidal(k) for k in kinds], 'base': draw(st.sampled_from(['C', 'LIN', 'WN', 'PER', 'SE']))}


BASE = {'C': {}, 'LIN': {'offset': 1.}, 'WN': {}, 'PER': {'period': 2., 'lengthscale': 3.}, 'SE': {'lengthscale': 2.}}


def check(case):
    from GPy_ABCD.KernelExpansion.kernelInterpretation import base_factors_interpretation
    from collections import defaultdict
    ps = defaultdict(list)
    ps['ProductKE'].append({'variance': 2.})
    ps[case['base']].append(dict(BASE[case['base']]))
    sigs = []
    for s in case['sigs']:
        p = {'location': s[1] / 10., **({'width': s[2] / 10.} if len(s) > 2 else {})}
        ps[s[0]].append(p)
        sigs.append((s[0], p))
    before = copy.deepcopy(ps)
    with sut('interpretation of %s' % dict(ps)): line = base_factors_interpretation(ps)
    need(ps == before, 'the interpretation modified its argument')
    d = text.describe(2., [(case['base'], BASE[case['base']])] + sigs)
    r = text.matches(text.read_component(line), d)
    need(r is None, 'the component', sigs, 'is described as', repr(line), ':', r)
    ws = [s[2] for s in case['sigs'] if len(s) > 2]
    return {'pieces:%d' % min(len(d['where']), 4), 'sigmoidals:%d' % len(sigs)} | ({'coinciding'} if len(d['ends']) < sum(len(s) - 1 for s in case['sigs']) else set()) | ({'very different widths'} if ws and max(ws) > 100 * min(ws) else set()) | ({'trivial'} if len(sigs) < 2 else set())


def check_order(case):
    """Neither the order of the factors nor splitting them over calls matters"""
    from GPy_ABCD.KernelExpansion.kernelInterpretation import base_factors_interpretation
    from collections import defaultdict
    def say(sigs):
        ps = defaultdict(list)
        ps['ProductKE'].append({'variance': 1.}); ps['C'].append({})
        for s in sigs: ps[s[0]].append({'location': s[1] / 10., **({'width': s[2] / 10.} if len(s) > 2 else {})})
        with sut('interpretation of %s' % dict(ps)): return text.read_component(base_factors_interpretation(ps))['where']
    a, b = say(case['sigs']), say(case['perm'])
    real = lambda w: sorted((x, y) for x, y in w if x < y)
    need(real(a) == real(b), 'factors', case['sigs'], 'apply', a, 'but in the order', case['perm'], 'they apply', b)
    return {'trivial'} if len(case['sigs']) < 2 or case['sigs'] == case['perm'] else {'reordered'}


@st.composite
def perms(draw):
    c = draw(cases())
    return {'sigs': c['sigs'], 'perm': list(draw(st.permutations(c['sigs'])))}


def check_scales(case):
    """However near or far the changes are from each other, the same pieces are stated: none is dropped for being narrow"""
    from GPy_ABCD.KernelExpansion.kernelInterpretation import base_factors_interpretation
    from collections import defaultdict
    stated = []
    for unit in (1 / 8, 2 ** -case['down'], 2 ** case['up']):      # all exact, so that places coincide at all scales or none
        ps = defaultdict(list)
        ps['ProductKE'].append({'variance': 1.}); ps['C'].append({})
        for s in case['sigs']: ps[s[0]].append({'location': s[1] * unit, **({'width': s[2] * unit} if len(s) > 2 else {})})
        with sut('interpretation of %s' % dict(ps)): line = base_factors_interpretation(ps)
        w = text.read_component(line)['where']
        stated.append(([(a == -text.inf, b == text.inf) for a, b in w], line))
    for s, line in stated[1:]: need(s == stated[0][0], 'the same changes at another scale are described as', line, 'and not as', stated[0][1])
    want = text.sets_of([(s[0], {'location': s[1], **({'width': s[2]} if len(s) > 2 else {})}) for s in case['sigs']])
    need(bool(want) <= bool(stated[0][0]), 'a component which applies', want, 'eighths is described as', stated[0][1])
    return {'pieces:%d' % min(len(want), 4), 'down:%d' % case['down']} | ({'trivial'} if len(case['sigs']) < 2 else set())


scales = st.builds(lambda c, d, u: {'sigs': c['sigs'], 'down': d, 'up': u}, cases(), st.integers(6, 30), st.integers(0, 12))
COMPONENTS = [Component('intersections', cases(), check, 20000, 500000), Component('order', perms(), check_order, 5000, 100000), Component('scales', scales, check_scales, 4000, 80000)]
