#!/opt/venv/bin/python
"""run.py <ID> [--replay FILE] [--only component,...] [--scale X]     (VERIF_SEED, VERIF_TIER in the environment)"""
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), HERE]


def main():
    a = sys.argv[1:]
    pid = a[0]
    opt = {a[i][2:]: a[i + 1] for i in range(1, len(a) - 1) if a[i].startswith('--')}
    # Everything that has to be fixed before the interpreter or numba start: hash seed (from VERIF_SEED) and compiled or interpreted kernels
    src = open(os.path.join(HERE, 'props', pid + '.py')).read()
    jit = '\nJIT = True' in src
    want = {'PYTHONHASHSEED': str(int(os.environ.get('VERIF_SEED', '1') or 1) % 4294967295), 'NUMBA_DISABLE_JIT': '0' if jit else '1',
            'HOME': os.environ.get('HOME') or '/root'}
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable] + sys.argv)
    import harness
    sys.exit(harness.run(pid, opt.get('replay'), opt['only'].split(',') if 'only' in opt else None, float(opt.get('scale', 1))))


if __name__ == '__main__': main()
