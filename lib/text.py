"""Independent reading of model interpretations, and what they should say.

A component is described by a dict: var, noise (bool), constant (bool), se (lengthscale or None), per (list of (period, lengthscale)), lin (list of offsets), where (list of
(start, end), or None when the component applies everywhere)."""
import re
from math import inf
import numpy as np
from harness import need

N = r'(-?\d+\.\d+|-?inf|nan)'


def read_intervals(s):
    s = s.strip()
    if s == 'nowhere': return []
    out = []
    for part in re.sub(r',? and (?=until|from|between)', ', ', s).split(', '):
        part = re.sub(r'^and ', '', part.strip())
        note = re.search(r' \(with [^)]*\)$', part)
        sl = [float(x) for x in re.findall(N, note[0])] if note else None
        if note: part = part[:note.start()]
        m = re.fullmatch('until ' + N, part)
        if m: out.append((-inf, float(m[1]), [None] + sl if sl else None)); continue
        m = re.fullmatch('from ' + N, part)
        if m: out.append((float(m[1]), inf, sl + [None] if sl else None)); continue
        m = re.fullmatch('between %s and %s' % (N, N), part)
        need(m, 'cannot read the interval', repr(part), 'in', repr(s))
        out.append((float(m[1]), float(m[2]), sl * 2 if sl and len(sl) == 1 else sl))
    for o in out: need(o[2] is None or len(o[2]) == 2, 'cannot read the slopes in', repr(s))
    return out


def read_component(line):
    m = re.fullmatch(r'(.*?)(?:; this component applies (.*), and it|; this component) has overall variance ' + N, line.strip())
    need(m, 'cannot read the component', repr(line))
    body, where, var = m[1], m[2], float(m[3])
    per = [(float(a), float(b)) for a, b in re.findall('period %s and lengthscale %s' % (N, N), body)]
    rest = re.sub('period %s and lengthscale %s' % (N, N), 'PERIOD', body)
    se = re.findall(r'(?:smooth function|smoothly) with lengthscale ' + N, rest)
    need(len(se) <= 1 and rest.count('lengthscale') == len(se), 'more lengthscales than expected in', repr(line))
    lin = []
    polys = re.findall(r'order (\d+)(?: with roots ((?:(?:, )?(?:and )?%s)+))?' % N.replace('(', '(?:', 1), rest)
    for order, roots in polys:
        lin += [float(x) for x in re.findall(N, roots)] if roots else [None] * int(order)
        need(int(order) == len(lin), 'the order and the number of roots differ in', repr(line))
        need(int(order) > 1, 'a polynomial of order', order)
    offs = re.findall('linear(?:ly varying amplitude|  *function)? ?.*?with horizontal offset ' + N, rest)
    lin += [float(x) for x in offs]
    if not polys and not offs and re.search(r'linear function|linearly varying', rest): lin.append(None)     # no offset at all
    need(len(polys) + len(offs) <= 1, 'several linear parts in', repr(line))
    more = re.search(r'repeatedly modulated by (\d+) more', rest)
    if more: need(int(more[1]) == len(per) - 1, 'the number of further periodic functions is wrong in', repr(line))
    if len(per) > 1: need(per[0][0] == max(p for p, _ in per) and 'main period' in body, 'the main period is not the longest in', repr(line))
    return dict(var = var, noise = 'oise' in rest, constant = 'onstant' in rest, se = float(se[0]) if se else None, per = sorted(per), lin = sorted(lin, key = lambda x: (x is None, x)),
                where = None if where is None else [i[:2] for i in read_intervals(where)], slopes = None if where is None else [i[2] for i in read_intervals(where)], text = line.strip())


def read(text):
    lines = text.split('\n\t')
    m = re.match(r'The fit kernel consists of (\d+) components?', lines[0])
    need(m, 'cannot read the heading', repr(lines[0]))
    need(int(m[1]) == len(lines) - 1, 'the heading announces', m[1], 'components but', len(lines) - 1, 'are listed')
    return [read_component(l) for l in lines[1:]]


# --- what it should say --------------------------------------------------------------------------------------------------------

def sop(spec):
    """Terms of the sum-of-products form of a numeric spec: lists of (kind, params) with the product of their variances"""
    kind = spec[0]
    if kind == '+': return [t for s in spec[1] for t in sop(s)]
    if kind == '*':
        out = [(1., [])]
        for s in spec[1]: out = [(v * w, f + g) for v, f in out for w, g in sop(s)]
        return out
    if kind in ('CP', 'CW'):
        if 'shift_variance' in spec[1]:     # two separate sides, the second one shifted
            p = {n: v for n, v in spec[1].items() if n != 'shift_variance'}
            q = {**{n: v for n, v in p.items() if n != 'width'}, 'location': p['location'] + p['width']}
            return [(v, f + [side]) for side, s in ((('Sr', {n: v for n, v in p.items() if n != 'width'}), spec[2]), (('S', q), spec[2]), (('SI', p), spec[3])) for v, f in sop(s)] + [(spec[1]['shift_variance'], [('C', {}), ('S', q)])]
        l, r = ('Sr', 'S') if kind == 'CP' else ('SIr', 'SI')
        return [(v, f + [(side, spec[1])]) for side, s in ((l, spec[2]), (r, spec[3])) for v, f in sop(s)]
    return [(spec[1].get('variance', 1.), [(kind, {n: v for n, v in spec[1].items() if n != 'variance'})])]


def sets_of(sigs):
    """The intersection of the places where the sigmoidals are on: sorted disjoint open intervals"""
    cur = [(-inf, inf)]
    for kind, p in sigs:
        a = p['location']
        b = a + p.get('width', 0)
        s = {'S': [(a, inf)], 'Sr': [(-inf, a)], 'SI': [(a, b)], 'SIr': [(-inf, a), (b, inf)]}[kind]
        cur = [(max(x, u), min(y, v)) for x, y in cur for u, v in s if max(x, u) < min(y, v)]
    return sorted(cur)


def describe(var, factors):
    kinds = [k for k, _ in factors]
    get = lambda k: [p for q, p in factors if q == k]
    noise = 'WN' in kinds
    per = [] if noise else sorted((p['period'], p['lengthscale']) for p in get('PER') + get('FPER'))
    se = None if noise or 'SE' not in kinds else sum(p['lengthscale'] ** -2. for p in get('SE')) ** -.5
    lin = sorted(p['offset'] for p in get('LIN')) + [None] * len(get('LINH'))
    sigs = [(k, p) for k, p in factors if k in ('S', 'Sr', 'SI', 'SIr')]
    slopes = [(e, p.get('slope')) for k, p in sigs for e in [p['location']] + ([p['location'] + p['width']] if 'width' in p else [])]
    return dict(var = var, noise = noise, slopes = slopes, constant = not (noise or per or se or lin), se = se, per = per, lin = lin, where = sets_of(sigs) if sigs else None,
                ends = sorted({e for k, p in sigs for e in ([p['location']] + ([p['location'] + p['width']] if 'width' in p else []))}))


def near(a, b): return abs(a - b) <= .00501 + 1e-6 * abs(b)


def matches(got, want):
    """Why a component as read is not the wanted one (None if it is)"""
    if not near(got['var'], want['var']): return 'variance %s instead of %s' % (got['var'], want['var'])
    for f in ('noise', 'constant'):
        if got[f] != want[f]: return f
    if (got['se'] is None) != (want['se'] is None) or (got['se'] is not None and not near(got['se'], want['se'])): return 'smooth lengthscale %s instead of %s' % (got['se'], want['se'])
    if len(got['per']) != len(want['per']) or not pair_up(got['per'], want['per'], lambda a, b: near(a[0], b[0]) and near(a[1], b[1])): return 'periods and lengthscales %s instead of %s' % (got['per'], want['per'])
    if len(got['lin']) != len(want['lin']) or not all(a is b is None or (a is not None and b is not None and near(a, b)) for a, b in zip(got['lin'], want['lin'])): return 'offsets %s instead of %s' % (got['lin'], want['lin'])
    return where_differs(got['where'], want['where'], want['ends']) or slopes_differ(got, want)


def slopes_differ(got, want):
    if got['where'] is None: return None
    free = [s for _, s in want['slopes'] if s is not None]
    for (a, b), sl in zip(got['where'], got['slopes']):
        if (sl is None) != (not free): return 'slopes %s stated of %s' % (sl, want['slopes'])
        for e, s in zip((a, b), sl or ()):
            if s is not None and not any(near(e, x) and near(s, y) for x, y in want['slopes']): return 'slope %s at %s instead of one of %s' % (s, e, want['slopes'])
    return None


def assigned(n, fits):
    """Match every one of n things to one of its own of the places fits(i) lists, whichever choices that takes. Returns the first thing left over (None if there is none)"""
    taken = {}
    def place(i, seen):
        for j in fits(i):
            if j in seen: continue
            seen.add(j)
            if j not in taken or place(taken[j], seen):
                taken[j] = i
                return True
        return False
    return next((i for i in range(n) if not place(i, set())), None)


def pair_up(xs, ys, ok): return assigned(len(xs), lambda i: [j for j, y in enumerate(ys) if ok(xs[i], y)]) is None


def where_differs(got, want, ends, gap = .03, eps = .011):
    if (got is None) != (want is None): return 'applies %s instead of %s' % (got, want)
    if got is None: return None
    pts = [ends[0] - 5, ends[-1] + 5] + [(a + b) / 2 for a, b in zip(ends, ends[1:]) if b - a > gap]
    for x in pts:
        if any(a < x < b for a, b in got) != any(a < x < b for a, b in want): return 'applies at %s wrongly: %s instead of %s' % (x, got, want)
    if all(b - a > gap for a, b in zip(ends, ends[1:])):
        if len(got) != len(want) or not all(abs(u - v) < eps or u == v for g, w in zip(sorted(got), want) for u, v in zip(g, w)): return 'applies %s instead of %s' % (got, want)
    return None


def compare(text, spec, k):
    got, want = read(text), [describe(v, f) for v, f in sop(spec)]
    need(len(got) == len(want), 'the interpretation of', k, 'has', len(got), 'components instead of', len(want), ':', text)
    why = [[matches(g, w) for w in want] for g in got]
    i = assigned(len(got), lambda i: [j for j, r in enumerate(why[i]) if r is None])
    need(i is None, 'the interpretation of', k, 'has the component', lambda: repr(got[i]['text']), 'which matches none (or none which others do not have to match) of:',
         lambda: sorted(zip(why[i], want), key = lambda x: len(str(x[0])))[:3])
