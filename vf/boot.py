"""Locate the tree under test, build its extension out of tree, and import cpnest from it.

The pure-Python modules are imported from $VERIF_REPO (default /repo).  The Cython
extension is compiled, with the setup.py of that tree, in a scratch directory and
cached by content under /verif/.cache, so nothing is written into the tree and a
stale .so lying there is never used."""
import fcntl
import glob
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


class HarnessError(Exception):
    """The check itself could not do its work (never a verdict)."""


def _sources():
    out = [os.path.join(REPO, 'setup.py')]
    for pat in ('*.pyx', '*.pxd', '*.pxi', '*.h', '*.c'):
        for p in glob.glob(os.path.join(REPO, 'cpnest', pat)):
            if os.path.basename(p) != 'parameter.c':
                out.append(p)
    return sorted(out)


def _digest():
    h = hashlib.sha256()
    for p in _sources():
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    h.update(sys.version.encode())
    for pkg in ('numpy', 'Cython'):
        for d in glob.glob('/opt/venv/lib/python3*/site-packages/%s-*.dist-info' % pkg.lower()):
            h.update(os.path.basename(d).encode())
    return h.hexdigest()[:24]


def build_extension():
    """Return the path of the extension compiled from the current tree."""
    cache = os.path.join(VERIF, '.cache', 'ext')
    os.makedirs(cache, exist_ok=True)
    dig = _digest()
    so = os.path.join(cache, dig + '.so')
    with open(os.path.join(cache, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        work = tempfile.mkdtemp(prefix='cpnest-ext.')
        try:
            for name in ('setup.py', 'pyproject.toml', 'DESCRIPTION.rst', 'README.rst', 'MANIFEST.in', 'LICENSE'):
                p = os.path.join(REPO, name)
                if os.path.exists(p):
                    shutil.copy(p, work)
            os.mkdir(os.path.join(work, 'cpnest'))
            for p in glob.glob(os.path.join(REPO, 'cpnest', '*')):
                if os.path.isfile(p) and not p.endswith('.so') and os.path.basename(p) != 'parameter.c':
                    shutil.copy(p, os.path.join(work, 'cpnest'))
            env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='0.11.0', PIP_NO_INDEX='1')
            env.pop('PYTHONPATH', None)
            r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=work, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            built = glob.glob(os.path.join(work, 'cpnest', 'parameter*.so'))
            if r.returncode != 0 or not built:
                raise HarnessError('building the extension failed:\n' + r.stdout[-4000:])
            shutil.copy(built[0], so + '.tmp')
            os.replace(so + '.tmp', so)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return so


class _ExtFinder:
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name == 'cpnest.parameter':
            loader = importlib.machinery.ExtensionFileLoader(name, self.so)
            return importlib.util.spec_from_file_location(name, self.so, loader=loader)
        return None


_done = False


def boot():
    global _done
    if _done:
        return
    so = build_extension()
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
    sys.meta_path.insert(0, _ExtFinder(so))
    sys.path.insert(0, REPO)
    import cpnest
    if os.path.realpath(cpnest.__file__) != os.path.join(REPO, 'cpnest', '__init__.py'):
        raise HarnessError('cpnest imported from %s, not from %s' % (cpnest.__file__, REPO))
    import cpnest.parameter
    if os.path.realpath(cpnest.parameter.__file__) != os.path.realpath(so):
        raise HarnessError('extension imported from %s' % cpnest.parameter.__file__)
    _done = True


def quiet():
    """Silence the console handler of cpnest and numeric warnings."""
    import logging
    import warnings
    import numpy as np
    import cpnest
    cpnest.console_handler.setLevel(100)
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    logging.captureWarnings(False)
    logging.lastResort = logging.NullHandler()


if __name__ == '__main__':
    print(build_extension())
