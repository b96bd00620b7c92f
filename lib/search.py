"""Reference model search over canonical reference trees, and a stub list fitter with generated scores for the package's search."""
import hashlib
import numpy as np
import ke, gen, ref, refgram


def score(t, salt):
    """A distinct pseudo-random score for every expression"""
    return int.from_bytes(hashlib.blake2b(repr((t, salt)).encode(), digest_size = 6).digest(), 'big') / 2 ** 40


def lost(t, salt): return score(t, salt + 1) % 4 < 1        # whether a fitter which leaves failures out leaves this one out


class FakeModel:
    """What scoring looks at: log-likelihood, data points and number of parameters"""
    def __init__(self, X, Y, ll, k): self.X, self.Y, self.ll, self.k = X, Y, ll, k
    def log_likelihood(self): return self.ll
    def _size_transformed(self): return self.k
    @property
    def size(self): return self.k


class Fitter:
    """A list fitter which records what it is asked for"""
    def __init__(self, salt, loses = False): self.salt, self.calls, self.loses = salt, [], loses

    def __call__(self, X, Y, k_exprs, restarts = None, optimiser = None, max_retries = None):
        from GPy_ABCD.Models.model import GPModel
        k_exprs = list(k_exprs)
        self.calls.append({'X': np.array(X), 'Y': np.array(Y), 'trees': [gen.std(ke.unwrap(ke.tree(k))) for k in k_exprs], 'restarts': restarts, 'optimiser': optimiser, 'max_retries': max_retries})
        out = []
        for k in k_exprs:
            m = GPModel(X, Y, k)
            t = gen.std(ke.unwrap(ke.tree(k)))
            if self.loses and lost(t, self.salt): continue
            m.model = FakeModel(X, Y, -score(t, self.salt), ref.size(t))
            out.append(m)
        return out


class Failing(Fitter):
    """A list fitter which fails at its n-th call"""
    def __init__(self, salt, n): super().__init__(salt); self.n = n
    def __call__(self, *args, **kw):
        if len(self.calls) + 1 >= self.n: raise RuntimeError('injected')
        return super().__call__(*args, **kw)


def utility(name, salt, n):
    """(package utility function, the same on reference trees)"""
    from GPy_ABCD.Util import modelUtil as u
    if name == 'BIC': return u.BIC, lambda t: 2 * score(t, salt) + ref.size(t) * np.log(n)
    if name == 'AIC': return u.AIC, lambda t: 2 * (score(t, salt) + ref.size(t))
    if name == 'near':     # scores which differ by billionths
        def near(m, ll, n, k): return 1000. - ll * 1e-9
        return near, lambda t: 1000. - -score(t, salt) * 1e-9
    if name == 'negative':
        def negative(m, ll, n, k): return -ll - 1e4
        return negative, lambda t: score(t, salt) - 1e4
    def custom(m, ll, n, k): return ll * 3 + k / 7 - n     # i.e. the lowest likelihood is the best
    return custom, lambda t: -3 * score(t, salt) + ref.size(t) / 7 - n


def reference(starts, rules, value, rounds, beams, state = None, lin_absorbs_c = True, without = lambda t: False, asked = None):
    """starts: canonical trees; value: tree -> score. Returns (sorted, tested per round, tested expressions as a set, expanded, not expanded)"""
    if state is None:
        tested = [sorted(starts, key = value)]
        known, expanded = set(starts), []
        if asked is not None: asked.append(set(starts))
        tested = [[t for t in tested[0] if not without(t)]]
    else: tested, known, expanded = [list(x) for x in state[1]], set(state[2]), list(state[3])
    def left(): return [t for t in sorted((t for r in tested for t in r), key = value) if t not in expanded]
    for r in range(rounds):
        go = left()[:beams[r]]
        new = set()
        for t in go: new |= refgram.expand(t, rules, lin_absorbs_c)
        new -= known
        if asked is not None: asked.append(set(new))
        tested.append(sorted((t for t in new if not without(t)), key = value))
        expanded += go
        known |= new
    return sorted((t for r in tested for t in r), key = value), tested, known, expanded, left()


def tree_of(m): return gen.std(ke.unwrap(ke.tree(m.kernel_expression)))


def outcome(res):
    """The five outputs of a search, in terms of trees"""
    s, t, ks, e, n = res
    return ([tree_of(m) for m in s], [[tree_of(m) for m in r] for r in t], [gen.std(ke.unwrap(ke.tree(k))) for k in ks], [tree_of(m) for m in e], [tree_of(m) for m in n])
