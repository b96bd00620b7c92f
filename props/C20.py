"""Every configuration of the package"""
import itertools
import numpy as np
from hypothesis import strategies as st
import ref, ke, gen, num, annot, text, refgram
from parse import flat
from harness import Component, need, sut

LATE_IMPORT = True     # each configuration is imported in a process of its own

ID = 'C20'
TITLE = 'Every kernel configuration gives a coherent pipeline'
RULE = ('Each of the 32 combinations of the configuration flags in a process of its own; in it, expressions with generated parameters go through simplification, expansion under one rule, kernel generation, parameter absorption, '
        'sum-of-products form and interpretation (some after a real fit), each against the reference with the meaning of the flags. Non-trivial: two or more leaves.')
ASSUMPTIONS = ['The flags mean what the comments of the configuration file say', 'Rules with the SE kernel only when it is included; SE may be written by users in all configurations']


def expected(spec, flags):
    """The kernels and parameters the flags describe"""
    kind, ps = spec[0], set(spec[1]) if spec[0] not in ('+', '*') else ()
    lin, per = flags[1] == '1', flags[2] == '1'
    slope = {'slope'} if flags[3] == '0' else set()
    if kind in ('+', '*'):
        for s in spec[1]: expected(s, flags)
        return
    if kind in ('LIN', 'LINH'): need((kind == 'LIN') == lin and ps - {'variance'} == ({'offset'} if lin else set()), 'the linear kernel is', spec)
    elif kind in ('PER', 'FPER'): need((kind == 'FPER') == per and ps - {'variance'} == {'period', 'lengthscale'}, 'the periodic kernel is', spec)
    elif kind == 'CP': need(ps == {'location'} | slope, 'the change-point kernel has parameters', ps)
    elif kind == 'CW': need(ps == {'location', 'width'} | slope | ({'shift_variance'} if flags[4] == '1' else set()), 'the change-window kernel has parameters', ps)
    elif kind == 'SE': need(ps - {'variance'} == {'lengthscale'}, 'the smooth kernel is', spec)
    elif kind in ('WN', 'C'): need(not ps - {'variance'}, 'the kernel is', spec)
    else: need(False, 'unexpected kernel', spec)
    for s in spec[2:]: expected(s, flags)


def terms(t, flags):
    if ref.is_base(t): return 1
    if t[0] == '+': return sum(terms(x, flags) for x in t[1])
    if t[0] == '*': return int(np.prod([terms(x, flags) for x in t[1]]))
    return (2 * terms(t[1], flags) + terms(t[2], flags) + 1) if t[0] == 'CW' and flags[4] == '1' else terms(t[1], flags) + terms(t[2], flags)


def sops_spec(s, k, flags):
    from props.C08 import sop_spec
    return annot.configured(sop_spec(s, k), flags)


def check(case, flags):
    from GPy_ABCD.KernelExpansion import grammar
    from props.C01 import simplified
    from props.C07 import annotated
    absorbs = flags[1] == '1'
    t = gen.canonical(case['t'], absorbs)
    with sut('simplification'): k = ke.build(ref.fromjson(case['t']))._initialise()
    need(gen.std(ke.unwrap(ke.tree(k))) == t, 'simplifying', k, 'gives', ke.tree(k), 'instead of', t)
    k = simplified(t)
    need(not ke.links(k), 'broken links in', k)
    # Sigmoids
    from GPy_ABCD.Kernels import baseKernels
    for name in ('S', 'Sr', 'SI', 'SIr'):
        with sut('base kernel %s' % name): sk = getattr(baseKernels, name)()
        need(num.spec_of(sk)[0] == name and set(sk.parameter_names()) == {'variance', 'location'} | ({'slope'} if flags[3] == '0' else set()) | ({'width'} if 'I' in name else set()), 'the base kernel', name, 'is', num.spec_of(sk), 'with parameters', sk.parameter_names())
    # Expansion
    bases = ['WN', 'C', 'LIN', 'PER'] + ['SE'] * (flags[0] == '1')
    R = refgram.rules(bases)
    rule = sorted(R)[case['rule'] % len(R)]
    with sut('expansion of %s by %s' % (k, rule)): ex = grammar.expand(k, [getattr(grammar, rule)])
    got, want = [gen.std(ke.unwrap(ke.tree(e))) for e in ex], refgram.expand(t, [R[rule]], absorbs)
    need(len(got) == len(set(got)) and set(got) == want, 'expansions of', k, 'by', rule, ': extra', lambda: sorted(set(got) - want, key = ref.key)[:3], 'missing', lambda: sorted(want - set(got), key = ref.key)[:3])
    # Kernel
    X, X2 = gen.pair(case)
    m = None
    if case['fit']:
        from GPy_ABCD.Models.model import GPModel
        with sut('fit of %s' % k): m = GPModel(X, np.sin(X) + X / 5, k).fit(1, max_iters = 2)
        ker = m.model.kern
    else:
        with sut('kernel of %s' % k): ker = k.to_kernel()
        num.set_params(ker, case['v'])
    spec = num.spec_of(ker)
    expected(spec, flags)
    need(num.structure(spec, flat) == flat(t), 'the kernel of', k, 'is', spec)
    if m is not None and not num.tame(spec, 10.): return {'trivial', 'extreme fit'}
    for x2 in (None, X2):
        A, (K, M) = ker.K(X) if x2 is None else ker.K(X, x2), num.ev(spec, X, x2)
        need(num.close(A, K, M), 'covariance of', k, 'with', spec, 'on', X.ravel(), lambda: num.worst(A, K))
    need(num.close(ker.Kdiag(X), np.diag(num.ev(spec, X)[0]), np.diag(num.ev(spec, X)[1])), 'diagonal of', k)
    # Absorbed parameters
    n = terms(t, flags)
    if n > 40: return {'trivial', 'too many terms'}
    if m is None:
        a = annotated(k, ker)
        got = annot.configured(annot.spec_of(a), flags)
        (A, MA), (K, M) = num.ev(got, X), num.ev(spec, X)
        need(num.close(A, K, M), 'with the parameters absorbed by', k, got, 'its covariance is not that of', spec, lambda: num.worst(A, K))
        with sut('sum-of-products form of %s' % k): f = annotated(k, ker).sum_of_prods_form()
        with sut('interpretation of %s' % k): txt = annotated(k, ker).get_interpretation()
    else:
        with sut('sum-of-products form of %s' % k): f = m.sum_of_prods_kex
        with sut('interpretation of %s' % k): txt = m.interpret()
    got = sops_spec(f, k, flags)
    need(len(got[1]) == n, 'the form of', k, 'has', len(got[1]), 'terms instead of', n)
    for x2 in (None, X2):
        (A, MA), (K, M) = num.ev(got, X, x2), num.ev(spec, X, x2)
        need(num.close(A, K, M + MA), 'the sum-of-products form', got, 'of', k, 'with', spec, 'has another covariance', lambda: num.worst(A, K))
    text.compare(txt, spec, k)
    return gen.labels(t, {'rule:' + rule}) | ({'fit'} if m else set()) | ({'trivial'} if ref.size(t) < 2 else set())


def check_tables(case, flags):
    """Start kernels and random expressions of the configuration: canonical, different, with C beside a LIN without offset"""
    from GPy_ABCD.KernelExpansion import grammar
    absorbs = flags[1] == '1'
    for name, ks in grammar.start_kernels.items():
        ts = [ke.tree(k) for k in ks]
        for k, t in zip(ks, ts): need(gen.std(ke.unwrap(t)) == gen.std(ref.norm(t, absorbs)) and not ke.links(k), 'the start expression', k, 'is not in canonical form')
        need(len(set(ts)) == len(ts), 'repeated start expressions in', name)
        need((('+', ('C', 'LIN')) in ts) == (not absorbs), 'the start expressions', name, 'are', [str(k) for k in ks])
    return set()


def check_slopes(case):
    """Where slopes are free: every stated end of an interval comes with the slope of a sigmoidal which changes there"""
    from GPy_ABCD.KernelExpansion.kernelInterpretation import base_factors_interpretation
    from collections import defaultdict
    ps, sigs = defaultdict(list), []
    ps['ProductKE'].append({'variance': 2.})
    ps['C'].append({})
    for i, s in enumerate(case['sigs']):
        p = {'location': s[1] / 10., 'slope': case['slopes'][i % len(case['slopes'])] / 4, **({'width': s[2] / 10.} if len(s) > 2 else {})}
        ps[s[0]].append(p)
        sigs.append((s[0], p))
    with sut('interpretation of %s' % dict(ps)): line = base_factors_interpretation(ps)
    r = text.matches(text.read_component(line), text.describe(2., [('C', {})] + sigs))
    need(r is None, 'the component', sigs, 'is described as', repr(line), ':', r)
    return {'sigmoidals:%d' % len(sigs)} | ({'trivial'} if len(sigs) < 2 else set())


def comps():
    # A case list per configuration; the strategies are the same
    def trees():
        return st.one_of(gen.tree(3, 3, leaves = 8, root_composite = True, min_depth = 2), gen.tree(3, 4, leaves = 8, root_composite = True, min_depth = 2, changes = False),
                         st.tuples(st.sampled_from(['CP', 'CW']), gen.tree(2, 2, leaves = 4), gen.tree(2, 2, leaves = 4)).map(list))
    body = st.fixed_dictionaries(dict(t = trees(), v = gen.ints, X = gen.points(3, 5), X2 = gen.points(1, 3), rule = st.integers(0, 99), fit = st.sampled_from([False] * 9 + [True])))
    for f in itertools.product('01', repeat = 5):
        flags = ''.join(f)
        yield Component('pipeline-' + flags, body, lambda c, flags = flags: check(c, flags), 90, 4000, config = flags)
    from props.C10 import cases as intervals
    sloped = st.builds(lambda c, s: {'sigs': c['sigs'], 'slopes': s}, intervals(), st.lists(st.integers(1, 40), min_size = 1, max_size = 7, unique = True))
    for flags in ('00000', '11001'): yield Component('slopes-' + flags, sloped, check_slopes, 1500, 60000, config = flags)
    for flags in ('00010', '01010'): yield Component('tables-' + flags, st.just({}), lambda c, flags = flags: check_tables(c, flags), 1, 1, config = flags)


COMPONENTS = list(comps())
