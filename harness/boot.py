"""Common start-up of every harness process.

Makes `import s3ql` resolve to /repo/src (the current working tree) and the two native extensions to
builds of their *current* sources: the built files are kept under a directory named after the hash
of their inputs (outside /repo), so a change to _linked_dict.py or the SQLite extension takes effect
without /opt/vp/build.sh being run.
"""
import hashlib, importlib.machinery, importlib.util, os, random, shutil, subprocess, sys, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
WORK = os.path.join(VERIF, '.work')
EVID = os.path.join(VERIF, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
PY = '/opt/venv/bin/python'

_SETUP = r'''
from setuptools import setup, Extension
from Cython.Build import cythonize
import sys
setup(name='x', ext_modules=cythonize([
  Extension('s3ql.sqlite3ext', ['s3ql/sqlite3ext.pyx'], language='c++', depends=['s3ql/_sqlite3ext.cpp'],
     extra_compile_args=['-std=c++20']),
  Extension('s3ql._linked_dict', ['s3ql/_linked_dict.py']),
], build_dir='bld'))
'''
EXT_INPUTS = ['_linked_dict.py', 'sqlite3ext.pyx', '_sqlite3ext.cpp']


def ext_dir():
    h = hashlib.sha256(sys.version.encode())
    for n in EXT_INPUTS:
        with open(os.path.join(SRC, 's3ql', n), 'rb') as f:
            h.update(n.encode() + b'\0' + f.read() + b'\0')
    with open(os.path.join(REPO, 'pyproject.toml'), 'rb') as f:
        h.update(f.read())
    return os.path.join(WORK, 'ext-' + h.hexdigest()[:24])


def build_ext():
    """Return directory holding the extensions built from the current sources."""
    d = ext_dir()
    if os.path.exists(os.path.join(d, 'ok')):
        return d
    os.makedirs(WORK, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='extbuild-', dir=WORK)
    try:
        # Build with the project's own build configuration in a scratch copy of the sources.
        os.mkdir(os.path.join(tmp, 'src'))
        shutil.copytree(os.path.join(SRC, 's3ql'), os.path.join(tmp, 'src', 's3ql'),
                        ignore=shutil.ignore_patterns('*.so', '__pycache__', '_linked_dict.c', 'sqlite3ext.cpp'))
        for n in ('pyproject.toml', 'README.rst', 'LICENSE'):
            p = os.path.join(REPO, n)
            if os.path.exists(p):
                shutil.copy(p, tmp)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        env['PATH'] = '/opt/venv/bin:' + env.get('PATH', '')
        r = subprocess.run([PY, '-c', 'from setuptools import setup; setup()', 'build_ext', '--inplace'],
                           cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = os.path.join(tmp, 'out')
        os.mkdir(out)
        n = 0
        for root, _, files in os.walk(os.path.join(tmp, 'src')):
            for f in files:
                if f.endswith('.so'):
                    shutil.copy(os.path.join(root, f), out)
                    n += 1
        if r.returncode != 0 or n < 2:
            raise RuntimeError('extension build failed:\n' + r.stdout[-4000:])
        open(os.path.join(out, 'ok'), 'w').close()
        try:
            os.rename(out, d)
        except OSError:
            if not os.path.exists(os.path.join(d, 'ok')):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


class _ExtFinder:
    def __init__(self, d):
        self.map = {}
        for f in os.listdir(d):
            if f.endswith('.so'):
                self.map['s3ql.' + f.split('.')[0]] = os.path.join(d, f)

    def find_spec(self, name, path=None, target=None):
        fn = self.map.get(name)
        if fn is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, fn)
        return importlib.util.spec_from_file_location(name, fn, loader=loader)


_done = False


def setup(quiet=True):
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    d = build_ext()
    sys.meta_path.insert(0, _ExtFinder(d))
    sys.path.insert(0, SRC)
    import s3ql
    assert os.path.realpath(s3ql.__file__).startswith(os.path.realpath(SRC)), s3ql.__file__
    import logging
    import s3ql.logging  # noqa
    if quiet:
        logging.getLogger().handlers[:] = [logging.NullHandler()]
        logging.raiseExceptions = False


def seed_trio(seed):
    """Make trio's task scheduling order a deterministic function of *seed*."""
    try:
        import trio._core._run as r
        r._r = random.Random(seed)
    except Exception:
        pass


def scratch(prefix):
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='vf-' + prefix + '-', dir=base)
