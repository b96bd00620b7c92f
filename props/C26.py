"""Benchmarking helpers"""
import contextlib, io, time
import numpy as np
from hypothesis import strategies as st
from harness import Component, need, sut

JIT = True

ID = 'C26'
TITLE = 'Benchmark tables report exactly the timings of the functions given'
RULE = ('Sets of 1 to 7 functions of generated durations (on a clock which only they and pauses advance), with shared and own arguments, tables merged, and compiled variants. Non-trivial: two or more functions.')
ASSUMPTIONS = ['Durations are positive, functions run at least three times (as documented)', 'The clock functions of the standard library are replaced during a case; the printed table needs a package which is not installed here and is replaced too']
CLOCKS = {'perf_counter': 1, 'time': 1, 'monotonic': 1, 'process_time': 1, 'thread_time': 1, 'perf_counter_ns': 1e9, 'time_ns': 1e9, 'monotonic_ns': 1e9, 'process_time_ns': 1e9}
COLUMNS = ['f', 'mean', 'mean excl. 1st', 'best mean ratio', 'best mean1 ratio', 'next mean ratio', 'next mean1 ratio', 't0', 't1', 't2']


class Clock:
    """Time passes only when a function runs or something sleeps"""
    def __init__(self): self.now, self.slept = 1000., []

    def sleep(self, s):
        self.slept.append(s)
        self.now += s

    @contextlib.contextmanager
    def running(self):
        import GPy_ABCD.Util.benchmarking as B
        from pandas import DataFrame
        saved, own, md = {n: getattr(time, n) for n in list(CLOCKS) + ['sleep'] if hasattr(time, n)}, {}, DataFrame.to_markdown
        fake = {n: (lambda k = CLOCKS[n]: self.now * k if k == 1 else int(round(self.now * k))) if n != 'sleep' else self.sleep for n in saved}
        try:
            for n in saved: setattr(time, n, fake[n])
            for a, v in list(vars(B).items()):
                for n, f in saved.items():
                    if v is f: own[a] = v; setattr(B, a, fake[n])
            DataFrame.to_markdown = lambda self, *a, **k: 'TABLE %d' % len(self)
            yield B
        finally:
            for n, f in saved.items(): setattr(time, n, f)
            for a, v in own.items(): setattr(B, a, v)
            DataFrame.to_markdown = md


def timed(clock, durations, log):
    """A function which takes the given times (in 1024ths of a second) in turn"""
    def f(*args, **kwargs):
        clock.now += durations[len(log) % len(durations)] / 1024
        log.append((args, kwargs))
        return len(log)
    return f


def expected(durations, n): return [durations[i % len(durations)] / 1024 for i in range(n)]


def rows(table): return [dict(zip(table.columns, r)) for r in table.values.tolist()]


def same(a, b): return abs(a - b) <= 1e-7 * (1e-3 + abs(b))


def ordered(table, times, what):
    """The table holds the statistics of the given times by name, sorted, with their ratios"""
    rs = rows(table)
    need(list(table.columns) == COLUMNS, what, 'has columns', list(table.columns))
    need(sorted(r['f'] for r in rs) == sorted(n for n, _ in times), what, 'has the rows', [r['f'] for r in rs], 'for', [n for n, _ in times])
    left = list(times)
    for i, r in enumerate(rs):
        m, m1 = r['mean'], r['mean excl. 1st']
        own = next((t for t in left if t[0] == r['f'] and same(m, sum(t[1]) / len(t[1])) and same(m1, sum(t[1][1:]) / (len(t[1]) - 1)) and all(same(r['t%d' % j], t[1][j]) for j in range(3))), None)
        need(own is not None, what, 'says', r, 'for the times', left)
        left.remove(own)
        last = rs[i - 1] if i else r
        need(last['mean'] <= m, what, 'is not sorted by mean:', [q['mean'] for q in rs])
        for col, want in (('best mean ratio', m / rs[0]['mean']), ('best mean1 ratio', m1 / rs[0]['mean excl. 1st']), ('next mean ratio', m / last['mean']), ('next mean1 ratio', m1 / last['mean excl. 1st'])):
            need(same(r[col], want), what, 'has the', col, r[col], 'instead of', want, 'for', r['f'], 'in', rs)


def check_timing(case):
    clock, log = Clock(), []
    args, kw = case['args'], case['kw']
    with clock.running() as B, sut('timethis'): ts = B.timethis(timed(clock, case['d'], log), case['n'], *args, **kw)
    need(log == [(tuple(args), kw)] * case['n'], 'a function timed', case['n'], 'times with', args, kw, 'was called with', log)
    need(len(ts) == case['n'] and all(map(same, ts, expected(case['d'], case['n']))), 'the times', expected(case['d'], case['n']), 'are reported as', ts)
    return {'n:%d' % case['n']} | ({'trivial'} if case['n'] < 2 else set())


def run(clock, B, case, tag = ''):
    """One comparison. Returns (table, times by name)"""
    logs, own, shared, times, want = [], {}, {}, [], []
    n = case['n']
    for i, f in enumerate(case['fs']):
        log, name = [], '%s%s%d' % (tag, 'f', i)
        logs.append((name, log))
        fun = timed(clock, f['d'], log)
        times.append((name, expected(f['d'], n)))
        if f['own']: own[name] = (fun, f['args'], f['kw'])
        else: shared[name] = fun
        want.append((tuple(f['args'] or []), f['kw'] or {}) if f['own'] else (tuple(case['args'] or []), case['kw'] or {}))
    out = io.StringIO()
    with sut('comparison %s' % case), contextlib.redirect_stdout(out): table = B.compare_implementations(shared, n, case['wait'], case['verbose'], own or None, case['args'], case['kw'])
    for (name, log), w in zip(logs, want): need(log == [w] * n, name, 'was to be called', n, 'times with', w, 'and was called with', log)
    ordered(table, times, 'the table')
    if case['verbose']: need(all(out.getvalue().count('Benchmarked %s -' % name) == 1 for name, _ in times) and 'TABLE %d' % len(times) in out.getvalue(), 'the output is', out.getvalue())
    else: need(out.getvalue() == '', 'a silent comparison prints', out.getvalue())
    return table, times


def check_comparisons(case):
    clock = Clock()
    with clock.running() as B: run(clock, B, case)
    return {'functions:%d' % len(case['fs']), 'own' if any(f['own'] for f in case['fs']) else 'shared'} | ({'trivial'} if len(case['fs']) < 2 else set())


def check_merges(case):
    clock = Clock()
    with clock.running() as B:
        both = [run(clock, B, c, 'abc'[i] * (not case['same'])) for i, c in enumerate(case['tables'])]
        both += both[:case['again']] # Tables may be given again
        before = [t.copy() for t, _ in both]
        with sut('merging tables'), contextlib.redirect_stdout(io.StringIO()): table = B.merge_bench_tables(*[t for t, _ in both], verbose = case['verbose'])
    ordered(table, [x for _, t in both for x in t], 'the merged table')
    need(list(table.index) == list(range(len(table))), 'the merged table is indexed', list(table.index))
    need(all(a.equals(t) for a, (t, _) in zip(before, both)), 'merging changed a table')
    return {'tables:%d' % len(both), 'given again' if case['again'] else 'given once'} | ({'trivial'} if len(both) < 2 else set())


def bump(a, x): a[0] += x


def scalar(x, y): return x * y


def check_compiled(case):
    """Every ingredient given is compared, and all variants of a function do what it does"""
    import GPy_ABCD.Util.benchmarking as B
    from numba import f8, void
    from pandas import DataFrame
    a = np.zeros(1)
    n, names, kw = case['n'], [], {}
    if case['f']:
        names += ['Base', 'Lazy']
        kw['f'] = bump
        if case['signature']: kw['numba_signature'] = void(f8[::1], f8); names.append('Eager')
        if case['more']: kw['separate_numba_signatures'] = [void(f8[:], f8)] * case['more']; names += ['Eager%d' % (i + 2) for i in range(case['more'])]
        args = [a, 1.5]
    else:
        names.append('Vec Lazy')
        kw['f_scalar'] = scalar
        if case['signature']: kw['numba_signatures_scalar'] = [f8(f8, f8)]; names.append('Vec Eager')
        if case['more']: kw['separate_numba_signaturess_scalar'] = [[f8(f8, f8)]] * case['more']; names += ['Vec Eager%d' % (i + 2) for i in range(case['more'])]
        args = [np.arange(4.), 2.]
    if case['own']:
        log = []
        kw['fs_with_own_args'] = {'other': (lambda x: log.append(x), [7], {})}
    names = [(case['prefix'] or '') + x for x in names] + (['other'] if case['own'] else [])
    with sut('comparison of compiled variants %s' % case): t = B.numba_comparisons(n = n, wait = 0, prefix = case['prefix'], verbose = False, args = args, **kw)
    need(sorted(t['f']) == sorted(names), 'the variants compared are', sorted(t['f']), 'instead of', sorted(names))
    if case['f']: need(a[0] == 1.5 * n * (len(names) - case['own']), 'the variants', names, 'called', n, 'times give', a[0])
    if case['own']: need(log == [7] * n, 'the other function was called with', log)
    means = list(t['mean'])
    need(means == sorted(means) and all(m > 0 for m in means), 'the table is not sorted by mean', means)
    return {'function' if case['f'] else 'scalar', 'own' if case['own'] else 'shared'}


durations = st.lists(st.integers(1, 4000), min_size = 1, max_size = 5)
values = st.lists(st.integers(-3, 3) | st.sampled_from(['a', 'b']), max_size = 3)
keywords = st.dictionaries(st.sampled_from(['x', 'y', 'z', 'args']), st.integers(-3, 3), max_size = 2)
fun = st.fixed_dictionaries(dict(d = durations, own = st.sampled_from([False, False, True]), args = st.none() | values, kw = st.none() | keywords))
comparison = st.fixed_dictionaries(dict(fs = st.lists(fun, min_size = 1, max_size = 7), n = st.integers(3, 8), wait = st.sampled_from([0, 1, 2.5]), verbose = st.booleans(), args = st.none() | values, kw = st.none() | keywords))
COMPONENTS = [
    Component('timing', st.fixed_dictionaries(dict(d = durations, n = st.integers(1, 12), args = values, kw = keywords)), check_timing, 800, 10000),
    Component('comparisons', comparison, check_comparisons, 800, 10000),
    Component('merges', st.fixed_dictionaries(dict(tables = st.lists(comparison, min_size = 1, max_size = 3), same = st.booleans(), again = st.integers(0, 1), verbose = st.booleans())), check_merges, 300, 4000),
    Component('compiled', st.fixed_dictionaries(dict(f = st.booleans(), signature = st.booleans(), more = st.integers(0, 2), own = st.booleans(), prefix = st.sampled_from([None, 'v ']), n = st.integers(3, 6))), check_compiled, 32, 300),
]
