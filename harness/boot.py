"""Locate the code under test: Python files straight from /repo, the Cython extension rebuilt from /repo's sources.

The extension is compiled from a scratch copy of the sources into /verif/.build/<hash of the sources>; nothing is written to /repo.
"""
import fcntl, glob, hashlib, importlib.abc, importlib.util, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get('CPNEST_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
sys.dont_write_bytecode = True


def _sources():
    fs = [os.path.join(REPO, 'setup.py')]
    for pat in ('*.pyx', '*.pxd', '*.pxi'):
        fs += sorted(glob.glob(os.path.join(REPO, 'cpnest', pat)))
    return fs


def build():
    """Build the extension module if this version of the sources has not been built yet; return the path of the .so"""
    h = hashlib.sha256()
    for f in _sources():
        h.update(os.path.relpath(f, REPO).encode() + b'\0' + open(f, 'rb').read() + b'\0')
    root = os.path.join(VERIF, '.build')
    os.makedirs(root, exist_ok=True)
    dest = os.path.join(root, h.hexdigest()[:20])
    with open(os.path.join(root, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        so = glob.glob(os.path.join(dest, 'parameter*.so'))
        if so:
            return so[0]
        tmp = tempfile.mkdtemp(prefix='cpnest-ext-')
        try:
            os.makedirs(os.path.join(tmp, 'cpnest'))
            for f in _sources():
                shutil.copy(f, os.path.join(tmp, os.path.relpath(f, REPO)))
            for f in ('DESCRIPTION.rst', 'pyproject.toml'):
                if os.path.exists(os.path.join(REPO, f)):
                    shutil.copy(os.path.join(REPO, f), os.path.join(tmp, f))
            open(os.path.join(tmp, 'cpnest', '__init__.py'), 'w').close()
            env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='0.11.0', PYTHONDONTWRITEBYTECODE='1')
            r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=tmp, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            so = glob.glob(os.path.join(tmp, 'cpnest', 'parameter*.so'))
            if r.returncode or not so:
                raise RuntimeError('building the extension failed:\n' + r.stdout[-3000:])
            os.makedirs(dest, exist_ok=True)
            out = os.path.join(dest, os.path.basename(so[0]))
            shutil.copy(so[0], out + '.tmp')
            os.replace(out + '.tmp', out)
            return out
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name == 'cpnest.parameter':
            return importlib.util.spec_from_file_location(name, self.so)
        return None


def install():
    """Make `import cpnest` use /repo and the freshly built extension"""
    os.environ.setdefault('MPLBACKEND', 'Agg')
    so = build()
    sys.meta_path.insert(0, _Finder(so))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    return so


def quiet():
    """Keep cpnest's console output out of the way"""
    import logging
    import cpnest
    lg = logging.getLogger('cpnest')
    if cpnest.console_handler in lg.handlers:
        lg.removeHandler(cpnest.console_handler)
        quiet.removed = True


def loud():
    """Put it back as it was"""
    import logging
    import cpnest
    if getattr(quiet, 'removed', False):
        logging.getLogger('cpnest').addHandler(cpnest.console_handler)
