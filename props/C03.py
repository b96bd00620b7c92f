"""Histories of operations on expressions"""
import copy
from hypothesis import strategies as st
import ref, ke, gen, num, refgram
from harness import Component, need, sut
from props.C01 import simplified
from parse import parse, flat

ID = 'C03'
TITLE = 'No history of operations corrupts an expression tree'
RULE = ('Histories of 1 to 12 operations (construction from existing expressions, operators, node replacement, expansion, in-place additions to copies, queries, kernel generation) over a growing pool of '
        'expressions, applied at generated nodes; after each one every expression of the pool is compared, node by node and link by link, with its previous state and with a reference tree. '
        'Non-trivial: at least two operations take an expression produced by an earlier one.')
ASSUMPTIONS = ['Methods documented as in-place additions are applied to deep copies; everything else must leave its arguments untouched']
R = refgram.rules(['WN', 'C', 'LIN', 'PER'])
QUERIES = ['str', 'repr', 'eq', 'traverse', 'reduce', 'is_stationary', 'contains_base', 'to_kernel', 'deepcopy', 'param_free']
idx = st.integers(0, 30)


@st.composite
def history(draw):
    start = draw(st.lists(gen.tree(3, 3, leaves = 7), min_size = 1, max_size = 3))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('construct'), st.sampled_from(['+', '*', 'CP', 'CW']), st.lists(st.one_of(st.sampled_from(gen.ALL), st.tuples(idx, idx)), min_size = 2, max_size = 3)),
        st.tuples(st.sampled_from(['add', 'multiply', 'both_changes']), idx, idx, st.one_of(st.sampled_from(gen.ALL), st.tuples(idx, idx)), idx),
        st.tuples(st.sampled_from(['swap_base', 'remove_a_term', 'higher_curves']), idx, idx, st.sampled_from(gen.ALL), idx),
        st.tuples(st.just('replace'), idx, idx, st.tuples(idx, idx)),
        st.tuples(st.just('expand'), idx, st.sampled_from(sorted(R)), idx),
        st.tuples(st.sampled_from(['new_base', 'new_composite']), idx, idx, st.one_of(st.sampled_from(gen.ALL), st.tuples(idx, idx))),
        st.tuples(st.just('reuse'), st.sampled_from(['+', '*']), idx, idx, st.none() | st.sampled_from(gen.ALL) | st.tuples(idx, idx), st.booleans()),
        st.tuples(st.just('query'), st.sampled_from(QUERIES), idx, idx),
    ), min_size = 2, max_size = 14))
    return {'start': start, 'ops': ops, 'kernels': draw(st.sampled_from([False, False, True]))}


class Pool:
    def __init__(self, kernels = False): self.ks, self.ts, self.snaps, self.used, self.kernels = [], [], [], 0, kernels

    def put(self, k, t):
        if ref.size(t) > 14 or len(self.ks) > 14: return
        need(ke.tree(k) == t, 'the result is', ke.tree(k), 'instead of', t)
        bad = ke.links(k)
        need(not bad, k, 'has broken links:', bad)
        says(k, t)
        if self.kernels: becomes(k, t)
        self.ks.append(k); self.ts.append(t); self.snaps.append(ke.snapshot(k))

    def pick(self, i, n_start):
        i %= len(self.ks)
        if i >= n_start: self.used += 1
        return i

    def node(self, ref_or_base, n_start):
        """A node object of a pool member, its tree and the list of the possible whole trees with a replacement in its place"""
        i = self.pick(ref_or_base[0], n_start)
        k, t = self.ks[i], self.ts[i]
        real = ke.nodes(k)
        trav = k.traverse()
        n = trav[ref_or_base[1] % len(trav)]
        nt = ke.tree(n)
        if any(n is r for r in real): puts = [p for p in object_positions(k) if p[0] is n]
        else: puts = [p for p in object_positions(k) if p[0] is n.parent and not ref.is_base(nt)]
        need(len(puts) == 1 or not any(n is r for r in real), 'a node was visited', len(puts), 'times')
        if any(n is r for r in real): return k, n, nt, [puts[0][1]]
        par = next(p for p in object_positions(k) if p[0] is n.parent)
        b = nt[1][0]
        res = []
        if n.parent.left == b: res.append(lambda r: par[1]((n.parent.CP_or_CW, r, ke.tree(n.parent.right))))
        if n.parent.right == b: res.append(lambda r: par[1]((n.parent.CP_or_CW, ke.tree(n.parent.left), r)))
        return k, n, nt, res

    def check(self, what):
        for k, t, s in zip(self.ks, self.ts, self.snaps):
            need(ke.snapshot(k) == s, what, 'modified the expression', t, 'into', ke.tree(k), 'with link problems', ke.links(k))
            says(k, t)

    def spoil(self, what, rs):
        """Results belong to their user: adding to them in place touches nothing else"""
        SumKE, ProductKE, ChangeKE = ke._K()
        for r in rs:
            for n in ke.nodes(r):
                if not isinstance(n, ChangeKE): n.new_base('PER').new_composite(ChangeKE('CP', 'LIN', 'WN'))
        self.check(['additions to the results of', what])


def says(k, t):
    got = flat(parse(str(k)))
    need(got == flat(t), 'the expression', t, 'is printed as', str(k))


def becomes(k, t):
    """The kernel of an expression is that of what it is now, whatever has happened to it or to what it was made from"""
    got = num.structure(num.spec_of(k.to_kernel()), flat)
    need(got == flat(t), 'the expression', t, 'has the kernel', got)


def object_positions(k):
    """(node object, function giving the whole tree with the node replaced by a tree)"""
    SumKE, ProductKE, ChangeKE = ke._K()
    out = [(k, lambda r: r)]
    if isinstance(k, ChangeKE):
        kids = [(k.left, lambda r: (k.CP_or_CW, r, ke.tree(k.right))), (k.right, lambda r: (k.CP_or_CW, ke.tree(k.left), r))]
    else:
        sym, bts = ('+' if isinstance(k, SumKE) else '*'), list(k.base_terms.elements())
        kids = [(c, (lambda r, c = c: (sym, tuple(bts + [r] + [ke.tree(x) for x in k.composite_terms if x is not c])))) for c in k.composite_terms]
    for c, put in kids:
        if not isinstance(c, str): out += [(n, (lambda r, put = put, inner = inner: put(inner(r)))) for n, inner in object_positions(c)]
    return out


def canon(t): return gen.std(ref.norm(t))


def check(case):
    from GPy_ABCD.KernelExpansion import kernelExpressionOperations as O
    from GPy_ABCD.KernelExpansion.grammar import expand, make_simple_kexs, standardise_singleton_root
    import GPy_ABCD as G
    by_name = {n: f for d in G.production_rules_by_type.values() for n, f in d.items()}
    P, out = Pool(case.get('kernels', False)), set()
    for j in case['start']: P.put(simplified(ref.fromjson(j)), canon(ref.fromjson(j)))
    n0 = len(P.ks)
    SumKE, ProductKE, ChangeKE = ke._K()

    def arg(x):
        if isinstance(x, str): return x, x
        _, n, nt, _ = P.node(x, n0)
        return n, nt

    for op in case['ops']:
        name = op[0]
        out.add('op:' + name)
        with sut('%s in a history' % (op,)):
            if name == 'construct':
                args = [arg(x) for x in op[2]]
                if op[1] in '+*':
                    new = lambda: (SumKE if op[1] == '+' else ProductKE)([a for a, _ in args if isinstance(a, str)], [a for a, _ in args if not isinstance(a, str)])
                    t = (op[1], tuple(at for _, at in args))
                else: new, t = lambda: ChangeKE(op[1], args[0][0], args[1][0]), (op[1], args[0][1], args[1][1])
                P.spoil(op, [new()])
                r = new()
                P.check(op)
                P.put(make_simple_kexs([r])[0], canon(t))
            elif name in ('add', 'multiply', 'both_changes', 'swap_base', 'remove_a_term', 'higher_curves'):
                k, n, nt, _ = P.node(op[1:3], n0)
                b, bt = arg(op[3])
                f, g = getattr(O, name), getattr(refgram, name)
                rs, ts = (f(n), g(nt)) if name in ('remove_a_term', 'higher_curves') else (f(n, b), g(nt, bt))
                P.check(op)
                ts = {canon(t) for t in ts}
                need({canon(ke.tree(r)) for r in rs} == ts, name, 'gives', list(map(str, rs)), 'instead of', ts)
                if rs:
                    for r in rs: says(r, ke.tree(r))
                    r = make_simple_kexs([copy.deepcopy(rs[op[4] % len(rs)]).set_parent(None)._initialise()])[0]
                    need(ke.tree(r) in ts, 'the re-rooted result of', name, 'is', r, ', not among', ts)
                    P.check(op)
                    P.put(r, ke.tree(r))
                if name in ('add', 'multiply', 'both_changes'): P.spoil(op, rs)
            elif name == 'reuse':      # a new node given the very containers of an existing one, possibly added to afterwards
                k, n, nt, _ = P.node(op[2:4], n0)
                if isinstance(n, ChangeKE): continue
                more, mt = arg(op[4]) if op[4] is not None else (None, None)
                cls, bases = (SumKE if op[1] == '+' else ProductKE), n.base_terms
                inner = [n.composite_terms] if more is None or isinstance(more, str) else [n.composite_terms + [more]]
                before = dict(bases)
                r = cls(bases, *inner)
                P.check(op)
                need(dict(bases) == before, 'construction modified the base terms it was given from', before, 'into', dict(bases))
                items = list(nt[1]) + ([mt] if len(inner[0]) > len(n.composite_terms) else [])
                if op[5]:
                    b = more if isinstance(more, str) else 'LIN'
                    r.new_base(b)
                    items.append(b)
                    P.check(op)
                if not items: continue
                want = canon((op[1], tuple(items)))
                r = make_simple_kexs([r])[0]
                P.check(op)
                need(ke.tree(r) == want, 'a node built from the terms', nt, 'is', r, 'instead of', want)
                P.put(r, want)
            elif name == 'replace':
                k, n, nt, puts = P.node(op[1:3], n0)
                b, bt = arg(op[3])
                new = n.new_tree_with_self_replaced(ke.build(bt))   # a fresh node, as produced by the operators
                P.check(op)
                r = standardise_singleton_root(new.root)
                ts = {canon(p(bt)) for p in puts}
                need(ke.tree(r) in ts, 'replacing', nt, 'by', bt, 'in', k, 'gives', r, 'instead of', ts)
                P.check(op)
                P.put(r, ke.tree(r))
            elif name == 'expand':
                i = P.pick(op[1], n0)
                rs = expand(P.ks[i], [by_name[op[2]]])
                P.check(op)
                again = expand(P.ks[i], [by_name[op[2]]])
                for r in rs: says(r, ke.tree(r))
                before = [ke.tree(r) for r in rs]
                need([ke.tree(r) for r in again] == before, 'expanding', P.ks[i], 'by', op[2], 'twice gives', list(map(str, rs)), 'and', list(map(str, again)))
                P.spoil(op, again)
                need([ke.tree(r) for r in rs] == before and not any(map(ke.links, rs)), 'additions to the results of', op, 'changed the results of the same expansion before')
                if rs:
                    r = rs[op[3] % len(rs)]
                    need(ke.tree(r) in refgram.expand(P.ts[i], [R[op[2]]]), r, 'is not an expansion of', P.ks[i], 'by', op[2])
                    P.put(r, ke.tree(r))
            elif name in ('new_base', 'new_composite'):
                i = P.pick(op[1], n0)
                whole = copy.deepcopy(P.ks[i])
                poss = [(n, p) for n, p in object_positions(whole) if not isinstance(n, ChangeKE)]
                if not poss: continue
                n, put = poss[op[2] % len(poss)]
                sym = '+' if isinstance(n, SumKE) else '*'
                x, xt = arg(op[3])
                if isinstance(x, str): name = 'new_base'
                elif name == 'new_base': x = xt = 'LIN'
                want = canon(put((sym, (ke.tree(n), xt))))
                for o in ke.nodes(whole): says(o, ke.tree(o))
                getattr(n, name)(x)
                P.check(op)
                r = standardise_singleton_root(whole)
                need(ke.tree(r) == want, name, xt, 'gives', r, 'instead of', want)
                P.put(r, want)
            else:
                i, j = P.pick(op[2], n0), P.pick(op[3], n0)
                k, q = P.ks[i], op[1]
                if q == 'str': str(k)
                elif q == 'repr': repr(k)
                elif q == 'eq': need((k == P.ks[j]) is (P.ts[i] == P.ts[j]), 'equality of', k, P.ks[j])
                elif q == 'traverse': need(len(k.traverse()) == len(refgram.positions(P.ts[i])), 'traversal of', k, 'visits', len(k.traverse()), 'nodes')
                elif q == 'reduce': need(k.reduce(lambda n, acc: acc + 1, 0) == len(refgram.positions(P.ts[i])), 'reduction of', k, 'visits the wrong number of nodes')
                elif q == 'is_stationary': need(bool(k.is_stationary()) is (not ref.has_change(P.ts[i]) and 'LIN' not in ref.bases_in(P.ts[i])), 'is_stationary of', k)
                elif q == 'contains_base': need(all(bool(k.contains_base(b)) is (b in ref.bases_in(P.ts[i])) for b in ref.BASES), 'contains_base of', k)
                elif q == 'to_kernel': becomes(k, P.ts[i])
                elif q == 'deepcopy': copy.deepcopy(k)
        P.check(op)
    return out | {'pool:%d' % min(len(P.ks), 10)} | ({'trivial'} if P.used < 2 else set())


@st.composite
def assembled(draw):
    return {'t': draw(gen.tree(4, 4, leaves = 14, root_composite = True)), 'in': draw(st.lists(st.tuples(idx, gen.tree(3, 3, leaves = 6)), max_size = 3)),
            'cut': draw(st.lists(st.tuples(idx, st.sampled_from(['none', 'self', 'other', 'root', 'root none']), idx), max_size = 4)), 'at': draw(st.none() | idx)}


def check_assembled(case):
    """Whatever its links were, a tree is made sound by (re-)initialising it"""
    SumKE, ProductKE, ChangeKE = ke._K()
    whole = ke.build(ref.fromjson(case['t']))
    if case['at'] is not None: whole._initialise()
    for i, j in case['in']:        # whole trees, with their own roots, put in by hand
        hosts = [n for n in ke.nodes(whole) if not isinstance(n, ChangeKE)]
        new = ke.build(ref.fromjson(j))
        if isinstance(new, str): new = SumKE([new, 'LIN'])
        if i % 3: new._initialise()
        if hosts: hosts[i % len(hosts)].composite_terms.append(new)
    ns = ke.nodes(whole)
    for i, how, j in case['cut']:
        n, o = ns[i % len(ns)], ns[j % len(ns)]
        if how in ('none', 'self', 'other'): n.parent = {'none': None, 'self': n, 'other': o}[how]
        else: n.root = o if how == 'root' else None
    before = ref.norm(ke.tree(whole))
    top = whole
    for how in ('links', 'initialise'):
        with sut('re-establishing the links of %s' % (before,)):
            if how == 'links':
                top.set_parent(None); top.set_root(); top._set_all_parents()
            else: top.set_parent(None)._initialise()
        need(not ke.links(whole), 'after', how, 'the tree', before, 'has the link problems', lambda: ke.links(whole))
        need(whole._check_all_parents(), 'the parents of', before, 'are said to be wrong')
        need(ref.norm(ke.tree(whole)) == before, how, 'changed', before, 'into', ke.tree(whole))
        if how == 'links' and ke.nodes(whole)[1:]:      # a second time, after further damage
            n = ke.nodes(whole)[-1]
            n.parent = None
            need(not whole._check_all_parents(), 'a missing parent link in', before, 'is not noticed')
    return gen.labels(before) | {'put in:%d' % len(case['in']), 'cut:%d' % len(case['cut'])} | ({'trivial'} if not case['in'] and not case['cut'] else set())


COMPONENTS = [Component('histories', history(), check, 5000, 150000), Component('assembled', assembled(), check_assembled, 1500, 30000)]
