"""The property runner: generated-input search (Hypothesis) against an oracle, in forked shards, with shrinking, replay files and evidence.

A property module (props/<ID>.py) defines
    ID, TITLE, RULE (how cases are made and which are non-trivial), ASSUMPTIONS (list of str)
    JIT          True if the numba-compiled code paths have to be exercised compiled (slower import)
    COMPONENTS   list of Component
A Component is a Hypothesis strategy of JSON-able cases plus check(case) which raises Violation (or anything else) if
the property is broken on that case, and returns None or a set/list of class labels; 'trivial' among them marks a trivial case.
"""
import os, sys, json, time, hashlib, traceback, signal, importlib, collections, io, contextlib, warnings

import boot

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = int(os.environ.get('VERIF_SHARDS', '8'))


class Violation(Exception): pass


class Component:
    def __init__(self, name, strategy, check, quick, thorough = None, setup = None, config = None, quiet = True):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 20
        self.setup = setup       # called once per shard after the package import
        self.config = config     # None = the repository's configuration; otherwise a 5-character flag string
        self.quiet = quiet       # swallow what the code under test prints


def need(cond, *msg):
    if not cond: raise Violation(' '.join(str(m() if callable(m) else m) for m in msg))


@contextlib.contextmanager
def sut(what):
    """An exception of the code under test on a valid input is a violation"""
    try: yield
    except Violation: raise
    except Exception as e: raise Violation('%s raised %s: %s' % (what, type(e).__name__, str(e)[:300])) from e


def derive(*parts):
    return int.from_bytes(hashlib.sha256('|'.join(map(str, parts)).encode()).digest()[:8], 'big')


def canon(case): return json.dumps(case, sort_keys = True)


def call_check(comp, case):
    out = io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if comp.quiet:
            with contextlib.redirect_stdout(out): r = comp.check(case)
        else: r = comp.check(case)
    return set(r or ())


def is_harness_fault(e):
    """Missing names the harness itself asks for, or running out of resources: an error of the check, not a verdict"""
    if isinstance(e, MemoryError): return True
    if isinstance(e, ImportError):
        tb = traceback.extract_tb(e.__traceback__)
        return bool(tb) and tb[-1].filename.startswith(HERE)
    return False


class HarnessError(Exception): pass


def run_component(comp, prop_id, n, seed, stats, corpus):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    import hypothesis.internal.conjecture.engine as _eng
    _eng.MAX_SHRINKING_SECONDS = 60
    first_fail, last_fail = [], []

    def one(case):
        stats['evaluations'] += 1
        try: labels = call_check(comp, case)
        except Exception as e:
            if type(e).__module__.startswith('hypothesis'): raise
            if is_harness_fault(e): raise HarnessError(repr(e)) from e
            msg = str(e) if isinstance(e, Violation) else 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit = -4))
            if not first_fail: first_fail.append((case, msg))
            last_fail[:] = [(case, msg)]
            if isinstance(e, Violation): raise
            raise Violation(msg) from e
        for l in labels: stats['classes'][l] += 1
        if 'trivial' not in labels:
            h = hashlib.blake2b((comp.name + canon(case)).encode(), digest_size = 8).digest()
            if h not in stats['distinct']:
                stats['distinct'].add(h)
                if len(stats['samples']) < 2 and len(canon(case)) < 3000: stats['samples'].append(case)

    for case in corpus:          # saved regression cases first, outside the library
        try: one(case)
        except Violation as e: return last_fail[0]
    if n <= 0: return None

    @hypothesis.seed(seed)
    @settings(max_examples = n, database = None, deadline = None, derandomize = False, report_multiple_bugs = False, print_blob = False,
              verbosity = Verbosity.quiet, phases = (Phase.generate, Phase.shrink),
              suppress_health_check = [HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example, HealthCheck.differing_executors])
    @given(comp.strategy)
    def test(case): one(case)

    try: test()
    except HarnessError: raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
        if last_fail:
            if isinstance(e, Violation): return last_fail[0]
            return (first_fail[0][0], first_fail[0][1] + '\n(history-dependent: did not fail again on every re-run)')
        raise HarnessError(''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])) from e
    return None


def load_corpus(prop_id):
    path = os.path.join(HERE, 'corpus', prop_id + '.jsonl')
    res = collections.defaultdict(list)
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                res[d['component']].append(d['case'])
    return res


def one_component(prop, comp, n, seed, corpus, samples, result):
    stats = {'evaluations': 0, 'classes': collections.Counter(), 'distinct': set(), 'samples': []}
    if comp.setup: comp.setup()
    t = time.time()
    fail = run_component(comp, prop.ID, n, seed, stats, corpus)
    result['components'][comp.name] = {'evaluations': stats['evaluations'], 'classes': dict(stats['classes']),
        'distinct': [h.hex() for h in stats['distinct']], 'samples': stats['samples'] if samples else [], 's': round(time.time() - t, 2)}
    if fail: result.update(status = 'violation', component = comp.name, case = fail[0], message = fail[1])


def configured(prop, comp, n, seed, corpus, samples, wfd):
    """In a process of its own: the package under test imported with other configuration flags"""
    result = {'status': 'ok', 'components': {}}
    try:
        boot.import_package(comp.config)
        one_component(prop, comp, n, seed, corpus, samples, result)
    except BaseException as e:
        result.update(status = 'error', message = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:])
    with os.fdopen(wfd, 'w') as f: f.write(json.dumps(result, default = str))


def shard_main(prop, shard, tier, seed, wfd):
    result = {'shard': shard, 'status': 'ok', 'components': {}}
    try:
        corpus = load_corpus(prop.ID)
        for i, comp in enumerate(prop.COMPONENTS):
            total = comp.quick if tier == 'quick' else comp.thorough
            if comp.config is not None:      # the whole component in one shard, in a process with that configuration
                if i % SHARDS != shard: continue
                sub, = fork_jobs([lambda w: configured(prop, comp, total, derive(seed, prop.ID, comp.name), corpus.get(comp.name, ()), i < 12, w)], 6 * 3600, False)
                if sub is None: raise HarnessError('the process of configuration %s was lost' % comp.config)
                result['components'].update(sub['components'])
                if sub['status'] != 'ok':
                    result.update({k: v for k, v in sub.items() if k != 'components'})
                    break
                continue
            n = total // SHARDS + (1 if shard < total % SHARDS else 0)
            saved = corpus.get(comp.name, ()) if shard == 0 else ()
            if n == 0 and not saved: continue
            one_component(prop, comp, n, derive(seed, prop.ID, comp.name, shard), saved, shard < 2, result)
            if result['status'] != 'ok': break
    except BaseException as e:
        result.update(status = 'error', message = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:])
    with os.fdopen(wfd, 'w') as f: f.write(json.dumps(result, default = str))


def fork_jobs(jobs, timeout, own_group = True):
    """jobs: list of callables(wfd). Runs each in a forked child; returns the list of decoded results (None = died or timed out)"""
    procs = []
    for j in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                if own_group: os.setpgid(0, 0)
                j(w)
            except BaseException: traceback.print_exc(); code = 3
            finally:
                try: sys.stdout.flush(); sys.stderr.flush()
                except Exception: pass
                os._exit(code)
        os.close(w)
        procs.append((pid, r))
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {r: b'' for _, r in procs}
    for _, r in procs: sel.register(r, selectors.EVENT_READ)
    out, t0, open_n, stop = {}, time.time(), len(procs), False
    while open_n and not stop:
        left = timeout - (time.time() - t0)
        if left <= 0: break
        for k, _ in sel.select(timeout = min(left, 5)):
            data = os.read(k.fd, 1 << 20)
            if data: bufs[k.fd] += data; continue
            sel.unregister(k.fd); open_n -= 1
            try: out[k.fd] = json.loads(bufs[k.fd])
            except ValueError: out[k.fd] = None
            if out[k.fd] and out[k.fd].get('status') == 'violation': stop = True
    for pid, r in procs:
        if r not in out:
            for target in (-pid, pid):
                try: os.kill(target, signal.SIGKILL)
                except OSError: pass
    for pid, r in procs:
        os.close(r)
        try: os.waitpid(pid, 0)
        except ChildProcessError: pass
    return [out.get(r) for _, r in procs]


def known_findings(prop_id):
    path = os.path.join(HERE, 'known_findings.txt')
    res = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('open: property=%s ' % prop_id): res.append(line.strip())
    return res


def write_evidence(prop, tier, seed, comps, wall, violations, extra = None):
    ev, dn, classes, samples, per = 0, set(), collections.Counter(), [], {}
    for name, parts in comps.items():
        e = sum(p['evaluations'] for p in parts)
        d = set(h for p in parts for h in p['distinct'])
        c = collections.Counter()
        for p in parts: c.update(p['classes'])
        per[name] = {'evaluations': e, 'distinct_nontrivial': len(d), 'classes': dict(c.most_common(40))}
        ev += e
        dn |= set(name + h for h in d)
        for p in parts:
            for s in p['samples'][:1]: samples.append({'component': name, 'case': s})
    cov = {'evaluations': ev, 'distinct_nontrivial': len(dn), 'rule': prop.RULE, 'samples': samples[:12], 'components': per, 'shards': SHARDS}
    cov.update(extra or {})
    rec = {'property': prop.ID, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
           'assumptions': list(getattr(prop, 'ASSUMPTIONS', [])), 'wall_s': round(wall, 2), 'violations': violations}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok = True)
    path = os.path.join(HERE, 'evidence', prop.ID + '.json')
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f: json.dump(rec, f, indent = 1, default = str)
    os.replace(tmp, path)


def save_replay(prop, component, case, message, seed):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok = True)
    h = hashlib.blake2b(canon(case).encode(), digest_size = 5).hexdigest()
    path = os.path.join(d, '%s-%s-%s.json' % (prop.ID, component, h))
    with open(path, 'w') as f:
        json.dump({'property': prop.ID, 'component': component, 'seed': seed, 'message': message, 'case': case}, f, indent = 1, default = str)
    return path


def run(prop_id, replay = None, only = None, scale = 1.):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    try: prop = importlib.import_module('props.' + prop_id)
    except Exception:
        traceback.print_exc()
        return 2
    if getattr(prop, 'LATE_IMPORT', False): boot.import_libraries()
    else: boot.import_package()
    if hasattr(prop, 'prepare'): prop.prepare()

    if replay:
        d = json.load(open(replay))
        comp = {c.name: c for c in prop.COMPONENTS}[d['component']]
        if comp.config is not None: boot.import_package(comp.config)
        if comp.setup: comp.setup()
        try: call_check(comp, d['case'])
        except Exception as e:
            print('%s' % e)
            print('VIOLATION property=%s replay=%s' % (prop.ID, replay))
            return 1
        print('replay passes')
        return 0

    if only: prop.COMPONENTS = [c for c in prop.COMPONENTS if c.name in only]
    if scale != 1:
        for c in prop.COMPONENTS: c.quick, c.thorough = max(1, int(c.quick * scale)), max(1, int(c.thorough * scale))
    timeout = 840 if tier == 'quick' else 6 * 3600
    jobs = [(lambda w, s = s: shard_main(prop, s, tier, seed, w)) for s in range(SHARDS)]
    results = fork_jobs(jobs, timeout)
    comps = collections.defaultdict(list)
    for r in results:
        for name, c in ((r or {}).get('components') or {}).items(): comps[name].append(c)
    viols = [r for r in results if r and r['status'] == 'violation']
    errors = [r for r in results if r and r['status'] == 'error']
    write_evidence(prop, tier, seed, comps, time.time() - t0, len(viols))
    for line in known_findings(prop.ID): print('KNOWN-FINDING: ' + line[len('open: '):])
    if viols:
        v = min(viols, key = lambda v: len(canon(v['case'])))
        path = save_replay(prop, v['component'], v['case'], v['message'], seed)
        print('%s/%s: %s' % (prop.ID, v['component'], v['message']))
        print('case: ' + canon(v['case'])[:2000])
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        return 1
    if errors or any(r is None for r in results):
        for r in errors: print(r['message'], file = sys.stderr)
        print('%s: inconclusive (%d shard errors, %d shards lost)' % (prop.ID, len(errors), sum(r is None for r in results)), file = sys.stderr)
        return 2
    tot = sum(p['evaluations'] for ps in comps.values() for p in ps)
    print('%s: held on %d cases (%s) in %.1fs' % (prop.ID, tot, ', '.join('%s %d' % (n, sum(p['evaluations'] for p in ps)) for n, ps in comps.items()), time.time() - t0))
    if os.environ.get('VERIF_SHOW'):
        for n, ps in comps.items():
            c = collections.Counter()
            for p in ps: c.update(p['classes'])
            print('  ', n, 'distinct', len(set(h for p in ps for h in p['distinct'])), 'slowest %.1fs' % max(p['s'] for p in ps), dict(c.most_common(30)))
    return 0
