"""Independent reference of the grammar operators and production rules, on reference trees.
A node is always a '+' / '*' / change tree; a bare base kernel in an argument position is a string."""
import ref
from gen import std

SUM = lambda ts: ('+', tuple(ts))
PROD = lambda ts: ('*', tuple(ts))


def base_occurrences(S): return [i for i, x in enumerate(S[1]) if ref.is_base(x)] if S[0] in '+*' else []
def without(xs, i): return list(xs[:i]) + list(xs[i + 1:])


def add(a, b, nested = True):
    """a + b, plus (when one is a base kernel and the other a product) that product with the base added to each of its base factors"""
    res = [SUM([a, b])]
    if nested:
        for B, S in ((a, b), (b, a)):
            if ref.is_base(B) and not ref.is_base(S) and S[0] == '*':
                res += [PROD(without(S[1], i) + [SUM([B, S[1][i]])]) for i in base_occurrences(S)]
    return res


def multiply(a, b, nested = True):
    res = [PROD([a, b])]
    if nested:
        for B, S in ((a, b), (b, a)):
            if ref.is_base(B) and not ref.is_base(S) and S[0] == '+':
                res += [SUM(without(S[1], i) + [PROD([B, S[1][i]])]) for i in base_occurrences(S)]
    return res


def swap_base(S, B):
    if ref.is_base(S): return [B]
    if S[0] in '+*': return [(S[0], tuple(without(S[1], i) + [B])) for i in base_occurrences(S) if S[1][i] != B]
    return [(S[0], B, S[2])] * (ref.is_base(S[1]) and S[1] != B) + [(S[0], S[1], B)] * (ref.is_base(S[2]) and S[2] != B)


def one_change(S, c, S2 = None): return [(c, S, S)] if S2 is None else [(c, S, S2), (c, S2, S)]
def both_changes(S, S2 = None): return one_change(S, 'CP', S2) + one_change(S, 'CW', S2)
def replace_node(S, S2): return [S2]


def remove_a_term(S):
    if S[0] in '+*': return [(S[0], tuple(without(S[1], i))) for i in range(len(S[1]))] if len(S[1]) > 1 else []
    return [S[1], S[2]]


def higher_curves(S):
    quad, cubic = PROD(['LIN'] * 2), PROD(['LIN'] * 3)
    if S[0] in '+*': kept = [x for x in S[1] if x != 'SE']        # discouraging SE
    if S[0] == '+': return [SUM(kept + [c]) for c in (quad, cubic)]
    if S[0] == '*': return [PROD(kept + x) for x in (['LIN'] * 2, ['LIN'] * 3, ['PER'] if 'PER' in S[1] else ['PER'] * 2)]
    return [(S[0], c, S[2]) for c in (quad, cubic) if ref.is_base(S[1])] + [(S[0], S[1], c) for c in (quad, cubic) if ref.is_base(S[2])]


def rules(bases):
    noC = [b for b in bases if b != 'C']
    return {
        'plus_base': lambda S: [r for B in bases for r in add(S, B)],
        'times_base': lambda S: [r for B in noC for r in multiply(S, B)],
        'replace_base': lambda S: [r for B in bases for r in swap_base(S, B)],
        'change_new_base': lambda S: [r for B in noC for r in both_changes(S, B)],
        'change_same': lambda S: both_changes(S),
        'change_point_linear': lambda S: one_change(S, 'CP', 'LIN'),
        'change_window_constant': lambda S: one_change(S, 'CW', 'C'),
        'change_window_linear': lambda S: one_change(S, 'CW', 'LIN'),
        'times_shifted_base': lambda S: [r for B in noC for r in multiply(S, SUM([B, 'C']))],
        'replace_with_singleton': lambda S: [r for B in bases for r in replace_node(S, B)],
        'remove_some_term': remove_a_term,
        'try_higher_curves': higher_curves,
    }


GROUPS = {
    'Original_ABCD': ['plus_base', 'times_base', 'replace_base', 'change_same', 'change_window_constant', 'times_shifted_base', 'replace_with_singleton', 'remove_some_term'],
    'Minimal': ['plus_base', 'times_base', 'replace_base', 'change_same'],
    'Default': ['plus_base', 'times_base', 'replace_base', 'change_point_linear', 'change_window_linear', 'times_shifted_base', 'replace_with_singleton', 'remove_some_term'],
}


def positions(t):
    """(node, function rebuilding the whole tree with that node replaced), for every sum, product and change node and for every base kernel directly inside a change"""
    out = [(t, lambda r: r)]
    if t[0] in '+*': kids = [(x, (lambda r, i = i: (t[0], t[1][:i] + (r,) + t[1][i + 1:]))) for i, x in enumerate(t[1]) if not ref.is_base(x)]
    else: kids = [(std(t[1]), lambda r: (t[0], r, t[2])), (std(t[2]), lambda r: (t[0], t[1], r))]
    for x, put in kids: out += [(n, (lambda r, put = put, inner = inner: put(inner(r)))) for n, inner in positions(x)]
    return out


def expand(t, rule_fs, lin_absorbs_c = True):
    """The set of canonical expansions of the canonical expression t"""
    return {std(ref.norm(put(r), lin_absorbs_c)) for node, put in positions(t) for f in rule_fs for r in f(node)}
