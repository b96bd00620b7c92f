#!/usr/bin/env python3
"""Confirm planted bugs in scratch copies of /repo and see which checks catch them.
  seeds.py confirm [id...]      applies, imports, passes the tests, demo quiet before and failing after
  seeds.py detect [id...] [--checks C01,C02]   runs the quick check of the property (or the given ones) against the patched copy"""
import sys, os, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE = '1', MPLBACKEND = 'Agg', PYTHONHASHSEED = '0')
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, timeout = 1200, env = ENV): return subprocess.run(cmd, cwd = cwd, env = env, stdout = subprocess.PIPE, stderr = subprocess.STDOUT, text = True, timeout = timeout)


def copy(top, id):
    d = os.path.join(top, id, 'repo')
    os.makedirs(os.path.dirname(d))
    sh(['cp', '-a', os.environ.get('SRC', '/repo'), d], '/')
    return d


def apply(d, id): return sh(['git', 'apply', os.path.join(SEEDED, id, 'patch.diff')], d)


def demo(d, id):
    f = os.path.join(os.path.dirname(d), 'demo')
    shutil.copytree(os.path.join(SEEDED, id), f, dirs_exist_ok = True)
    return sh(['bash', os.path.join(f, 'demo.sh')], d, 300)


def confirm(args):
    top, id = args
    d = copy(top, id)
    clean = demo(d, id)
    a = apply(d, id)
    if a.returncode: return id, 'PATCH', a.stdout
    t = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300', '-W', 'ignore::DeprecationWarning'], d)
    bad = demo(d, id)
    ok = clean.returncode == 0 and t.returncode == 0 and bad.returncode != 0
    return id, 'ok' if ok else 'BAD', '' if ok else 'clean demo %d, tests %d, patched demo %d\n%s\n%s' % (clean.returncode, t.returncode, bad.returncode, clean.stdout[-1500:], '\n'.join(l for l in t.stdout.splitlines() if l.startswith(('FAILED', 'E  ')))[:1500])


def detect(args):
    top, id, checks = args
    d = copy(top, id)
    if apply(d, id).returncode: return id, 'PATCH', ''
    res = {}
    for c in checks or [json.load(open(os.path.join(SEEDED, id, 'meta.json')))['property']]:
        r = sh([PY, os.path.join(HERE, 'run.py'), c], HERE, 900, dict(ENV, VERIF_REPO = d))
        res[c] = r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'need' in l][:2]
    return id, ' '.join('%s:%s' % (c, {0: 'missed', 1: 'caught'}.get(r[0], 'rc%d' % r[0])) for c, r in res.items()), ''


if __name__ == '__main__':
    mode, rest = sys.argv[1], sys.argv[2:]
    checks = rest[rest.index('--checks') + 1].split(',') if '--checks' in rest else None
    if checks: rest = rest[:rest.index('--checks')]
    ids = rest or sorted(os.listdir(SEEDED))
    top = tempfile.mkdtemp(prefix = 'seeds')
    try:
        with ThreadPoolExecutor(6 if mode == 'confirm' else 1) as ex:
            for id, verdict, text in ex.map(confirm, [(top, i) for i in ids]) if mode == 'confirm' else map(detect, [(top, i, checks) for i in ids]):
                print(id, verdict, text, flush = True)
    finally: shutil.rmtree(top)
