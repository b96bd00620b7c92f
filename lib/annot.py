"""Reading the parameters that a package expression has absorbed (its public `parameters` dictionaries) into a numeric spec (num.py)."""
import ke
from harness import need


def spec_of(k):
    SumKE, ProductKE, ChangeKE = ke._K()
    if isinstance(k, ChangeKE):
        p = k.parameters[k.CP_or_CW]
        need(len(p) == 1, 'the change node', k, 'holds', len(p), 'sets of parameters')
        out = [k.CP_or_CW, floats(p[0])]
        for side, b in (('left', k.left), ('right', k.right)):
            if isinstance(b, str):
                ps = [v for key, v in k.parameters.items() if isinstance(key, tuple) and key[0] == side]
                need(len(ps) == 1 and len(ps[0]) == 1 and (side, b) in k.parameters, 'the', side, 'leaf of', k, 'has parameters', ps)
                out.append((b, floats(ps[0][0])))
            else: out.append(spec_of(b))
        extra = [key for key, v in k.parameters.items() if v and key != k.CP_or_CW and not (isinstance(key, tuple) and isinstance(getattr(k, key[0]), str))]
        need(not extra, 'the change node', k, 'holds unexpected parameters', extra)
        return tuple(out)
    bases = list(k.base_terms.elements())
    parts = []
    for b in set(bases):
        ps = k.parameters.get(b, [])
        need(len(ps) == bases.count(b), k, 'holds', len(ps), 'sets of parameters for its', bases.count(b), b)
        parts += [(b, floats(p)) for p in ps]
    own = k.parameters.get('ProductKE', [])
    extra = {b: p for b, p in k.parameters.items() if p and b not in bases and b != 'ProductKE'}
    need(not extra, k, 'holds unexpected parameters', extra)
    if isinstance(k, ProductKE):
        need(len(own) == (1 if bases or not k.composite_terms else len(own)) and len(own) <= 1, 'the product', k, 'holds', own, 'as its own variance')
        for b, p in parts: need('variance' not in p, 'the factor', b, 'of the product', k, 'still has its own variance', p)
        parts = [('C', {'variance': float(o['variance'])}) for o in own] + parts
    else:
        need(not own, 'the sum', k, 'holds', own)
        for b, p in parts: need('variance' in p, 'the term', b, 'of the sum', k, 'has no variance:', p)
    return ('+' if isinstance(k, SumKE) else '*', parts + [spec_of(c) for c in k.composite_terms])


def floats(p): return {n: float(v) for n, v in p.items()}


def values(spec):
    """All parameter values of a spec"""
    if spec[0] in ('+', '*'): return [v for s in spec[1] for v in values(s)]
    return list(spec[1].values()) + [v for s in spec[2:] for v in values(s)]


def sop_count(t):
    """Number of terms of the sum-of-products form of a reference tree"""
    import ref
    if ref.is_base(t): return 1
    if t[0] == '+': return sum(sop_count(x) for x in t[1])
    if t[0] == '*':
        n = 1
        for x in t[1]: n *= sop_count(x)
        return n
    return sop_count(t[1]) + sop_count(t[2])


def configured(spec, flags):
    """The spec under other configuration flags: LIN without offset, standard instead of purely periodic PER"""
    kind = spec[0]
    if kind in ('+', '*'): return (kind, [configured(s, flags) for s in spec[1]])
    if kind == 'LIN' and flags[1] == '0': kind = 'LINH'
    if kind == 'PER' and flags[2] == '1': kind = 'FPER'
    return (kind, spec[1], *[configured(s, flags) for s in spec[2:]])
