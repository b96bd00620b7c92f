"""Start-up shared by every check: environment, import paths, and the package under test (always /repo's working tree)."""
import os, sys, warnings

REPO = os.environ.get('VERIF_REPO', '/repo')   # the registered commands never set this: they always use /repo
for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'): os.environ[k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

VT = '/opt/veriftools/pyvenv/lib/python%d.%d/site-packages' % sys.version_info[:2]
WHEELS = '/opt/veriftools/wheels'


class _OnlyFrom:
    """Serve hypothesis (and what it needs) from the verification venv, and nothing else, so that the
    numpy/scipy/GPy used stay those of the project's own environment."""
    names = ('hypothesis', '_hypothesis_ftz_detector', '_hypothesis_pytestplugin', '_hypothesis_globals', 'sortedcontainers', 'attr', 'attrs')

    def __init__(self, path): self.path = [path]

    def find_spec(self, fullname, path = None, target = None):
        if path is None and fullname.split('.')[0] in self.names:
            from importlib.machinery import PathFinder
            return PathFinder.find_spec(fullname, self.path)
        return None


def _have_hypothesis():
    import importlib.util
    try: return importlib.util.find_spec('hypothesis') is not None
    except ImportError: return False


def setup_paths():
    if not _have_hypothesis():
        if not os.path.isdir(VT + '/hypothesis'):
            raise RuntimeError('hypothesis not found at ' + VT)
        sys.meta_path.append(_OnlyFrom(VT))
    if REPO in sys.path: sys.path.remove(REPO)
    sys.path.insert(0, REPO)


def import_libraries():
    import importlib
    for lib in ('GPy', 'matplotlib.pyplot', 'pandas', 'plotnine', 'scipy.special', 'numba'):   # libraries from their compiled files
        try: importlib.import_module(lib)
        except Exception: pass


FLAGS = ('__INCLUDE_SE_KERNEL', '__USE_LIN_KERNEL_HORIZONTAL_OFFSET', '__USE_NON_PURELY_PERIODIC_PER_KERNEL', '__FIX_SIGMOIDAL_KERNELS_SLOPE', '__USE_INDEPENDENT_SIDES_CHANGEWINDOW_KERNEL')


def configure(flags):
    """Put the package's configuration module, with other values for its flags, where the package will find it"""
    import types
    m = types.ModuleType('GPy_ABCD.config')
    m.__file__ = os.path.join(REPO, 'GPy_ABCD', 'config.py')
    exec(compile(open(m.__file__).read(), m.__file__, 'exec'), m.__dict__)
    for name, v in zip(FLAGS, flags):
        if not isinstance(vars(m).get(name), bool): raise ImportError('no configuration flag ' + name)
        setattr(m, name, v == '1')
    sys.modules['GPy_ABCD.config'] = m


def import_package(flags = None):
    import_libraries()
    sys.pycache_prefix = '/nonexistent-pycache-prefix'   # but never a stale compiled file of the package under test
    if flags is not None: configure(flags)
    try: import GPy_ABCD
    finally: sys.pycache_prefix = None
    where = os.path.dirname(os.path.abspath(GPy_ABCD.__file__))
    if where != os.path.join(REPO, 'GPy_ABCD'):
        raise RuntimeError('package under test imported from ' + where)
    import logging
    logging.disable(logging.CRITICAL)   # GPy/paramz chatter
    return GPy_ABCD


setup_paths()
