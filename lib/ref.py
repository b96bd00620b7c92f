"""Independent reference model of the kernel-expression language.

Trees are immutable tuples, never package objects:
    'LIN'                          a base kernel
    ('+', (t1, t2, ...))           a sum        (any nesting allowed)
    ('*', (t1, t2, ...))           a product
    ('CP'|'CW', left, right)       a change point / change window
Nothing here imports the package under test."""

BASES = ('WN', 'C', 'LIN', 'SE', 'PER')


def is_base(t): return isinstance(t, str)


def key(t):
    """Total order used only to canonicalise multisets"""
    if is_base(t): return (0, t)
    if t[0] in '+*': return (1, t[0], tuple(key(x) for x in t[1]))
    return (2, t[0], key(t[1]), key(t[2]))


def srt(ts): return tuple(sorted(ts, key = key))


def _prune_sum(terms, lin_absorbs_c):
    out = [t for t in terms if not is_base(t)]
    bases = [t for t in terms if is_base(t)]
    for b in ('WN', 'C'):
        if b in bases: bases = [x for x in bases if x != b] + [b]      # addition-idempotent
    if lin_absorbs_c and 'LIN' in bases: bases = [x for x in bases if x != 'C']
    return bases + out


def _prune_prod(terms):
    out = [t for t in terms if not is_base(t)]
    bases = [t for t in terms if is_base(t)]
    if 'WN' in bases: bases = ['WN'] + [x for x in bases if x == 'LIN'] # multiplicative zero of stationary bases, idempotent
    else:
        if 'C' in bases:                                               # multiplicative identity
            rest = [x for x in bases if x != 'C']
            bases = rest if (rest or out) else ['C']
        if bases.count('SE') > 1: bases = [x for x in bases if x != 'SE'] + ['SE']
    return bases + out


def norm(t, lin_absorbs_c = True):
    """Canonical simplified form, as a term: singletons unwrapped (also at the root)"""
    if is_base(t): return t
    if t[0] in ('CP', 'CW'): return (t[0], norm(t[1], lin_absorbs_c), norm(t[2], lin_absorbs_c))
    op = t[0]
    terms = []
    for x in (norm(x, lin_absorbs_c) for x in t[1]):
        if not is_base(x) and x[0] == op: terms += list(x[1])
        else: terms.append(x)
    terms = _prune_sum(terms, lin_absorbs_c) if op == '+' else _prune_prod(terms)
    return terms[0] if len(terms) == 1 else (op, srt(terms))


def size(t): return 1 if is_base(t) else (sum(size(x) for x in t[1]) if t[0] in '+*' else size(t[1]) + size(t[2]))
def depth(t): return 0 if is_base(t) else 1 + (max(depth(x) for x in t[1]) if t[0] in '+*' else max(depth(t[1]), depth(t[2])))
def bases_in(t):
    if is_base(t): return [t]
    return [b for x in (t[1] if t[0] in '+*' else t[1:]) for b in bases_in(x)]
def has_change(t): return not is_base(t) and (t[0] in ('CP', 'CW') or any(has_change(x) for x in (t[1] if t[0] in '+*' else t[1:])))


def tojson(t): return t if is_base(t) else ([t[0], [tojson(x) for x in t[1]]] if t[0] in '+*' else [t[0], tojson(t[1]), tojson(t[2])])
def fromjson(j):
    if isinstance(j, str): return j
    if j[0] in '+*': return (j[0], tuple(fromjson(x) for x in j[1]))
    return (j[0], fromjson(j[1]), fromjson(j[2]))
