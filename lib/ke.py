"""Bridge between reference trees (ref.py) and the package's kernel-expression objects."""
from collections import Counter
import ref


def _K():
    from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE, ChangeKE
    return SumKE, ProductKE, ChangeKE


def build(t):
    """A package expression written exactly as the tree is (bare strings only where the package allows them)"""
    SumKE, ProductKE, ChangeKE = _K()
    if ref.is_base(t): return SumKE([t])
    if t[0] in '+*':
        cls = SumKE if t[0] == '+' else ProductKE
        return cls([x for x in t[1] if ref.is_base(x)], [build(x) for x in t[1] if not ref.is_base(x)])
    return ChangeKE(t[0], *[x if ref.is_base(x) else build(x) for x in t[1:]])


def tree(k):
    """The reference tree of a package expression, exactly as it stands (nothing simplified)"""
    SumKE, ProductKE, ChangeKE = _K()
    if isinstance(k, str): return k
    if isinstance(k, ChangeKE): return (k.CP_or_CW, tree(k.left), tree(k.right))
    op = '+' if isinstance(k, SumKE) else '*'
    if not isinstance(k, (SumKE, ProductKE)): raise TypeError('not a kernel expression: %r' % (k,))
    neg = {b: n for b, n in k.base_terms.items() if n < 0}
    if neg: raise ValueError('negative base term counts: %r' % (neg,))
    return (op, ref.srt(list(Counter(k.base_terms).elements()) + [tree(c) for c in k.composite_terms]))


def unwrap(t):
    """Drop one-element sum/product wrappers at the root only"""
    while not ref.is_base(t) and t[0] in '+*' and len(t[1]) == 1: t = t[1][0]
    return t


def links(k):
    """Problems with the tree links of the expression rooted at k (empty list = sound)"""
    SumKE, ProductKE, ChangeKE = _K()
    bad = []
    if k.parent is not None: bad.append('root has a parent: ' + str(k.parent))
    if k.root is not k: bad.append('root.root is not itself')
    def walk(n):
        kids = [c for c in ((n.left, n.right) if isinstance(n, ChangeKE) else n.composite_terms) if not isinstance(c, str)]
        for c in kids:
            if c.parent is not n: bad.append('node %s: parent is %s, not %s' % (c, c.parent, n))
            if c.root is not k: bad.append('node %s: root is %s' % (c, c.root))
            walk(c)
    walk(k)
    return bad


def nodes(k):
    """Every expression object of the tree rooted at k, each once, in pre-order"""
    _, _, ChangeKE = _K()
    out = [k]
    for c in ((k.left, k.right) if isinstance(k, ChangeKE) else k.composite_terms):
        if not isinstance(c, str): out += nodes(c)
    return out


def snapshot(k):
    """Everything observable of the tree an expression belongs to: structure and links of each node, by identity"""
    return [(id(n), str(n.CP_or_CW) if hasattr(n, 'CP_or_CW') else type(n).__name__, tree(n), id(n.parent) if n.parent is not None else None, id(n.root) if n.root is not None else None,
             repr(sorted((str(p), str(v)) for p, v in n.parameters.items() if v))) for n in nodes(k)]
