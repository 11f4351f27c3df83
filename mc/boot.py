"""
Binds the checks to the code in /repo.

* Python modules are imported straight from <repo>/src (never from site-packages, never from stale .pyc files).
* The Cython/C extensions are rebuilt out of tree from the current working tree with the repository's own setup.py
  and served to the import system by a meta path finder, so in-tree build products are neither used nor touched.
"""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
SRC_SUFFIXES = ('.pyx', '.pxd', '.pxi', '.c', '.h', '.cpp', '.hpp')


class BuildError(Exception):
    pass


def _native_sources():
    found = []
    src = os.path.join(REPO, 'src')
    for root, dirs, files in os.walk(src):
        dirs.sort()
        names = set(files)
        for name in sorted(files):
            stem, ext = os.path.splitext(name)
            if ext not in SRC_SUFFIXES:
                continue
            if ext in ('.c', '.cpp') and stem + '.pyx' in names:
                continue  # generated by Cython
            found.append(os.path.join(root, name))
    return found


def _source_hash():
    h = hashlib.sha256()
    h.update(sys.version.encode())
    for path in _native_sources() + [os.path.join(REPO, 'setup.py')]:
        h.update(os.path.relpath(path, REPO).encode() + b'\0')
        with open(path, 'rb') as f:
            data = f.read()
        h.update(str(len(data)).encode() + b'\0' + data)
    return h.hexdigest()[:24]


def _cache_root():
    for cand in (os.path.join(VERIF, '.cache', 'build'), os.path.join(tempfile.gettempdir(), 'verif-ff-build')):
        try:
            os.makedirs(cand, exist_ok=True)
            probe = tempfile.mkdtemp(dir=cand)
            os.rmdir(probe)
            return cand
        except OSError:
            continue
    raise BuildError('no writable directory to build in')


def build():
    """Returns the directory holding the extensions built from the current tree."""
    root = _cache_root()
    dest = os.path.join(root, _source_hash())
    if os.path.exists(os.path.join(dest, 'DONE')):
        return dest
    work = tempfile.mkdtemp(prefix='work-', dir=root)
    try:
        for name in ('setup.py', 'README.md', 'pyproject.toml', 'MANIFEST.in'):
            path = os.path.join(REPO, name)
            if os.path.exists(path):
                shutil.copy(path, work)

        def ignore(_dir, names):
            nameset = set(names)
            return [n for n in names
                    if n.endswith(('.so', '.pyc')) or n == '__pycache__' or n.endswith('.egg-info')
                    or (n.endswith('.c') and n[:-2] + '.pyx' in nameset)]

        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(work, 'src'), ignore=ignore)
        env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONPYCACHEPREFIX')}
        env.update(PYTHONUTF8='1', LC_ALL='C.UTF-8', LANG='C.UTF-8')
        proc = subprocess.run([sys.executable, 'setup.py', '-q', 'build_ext', '--inplace', '-j', '4'], cwd=work, env=env,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if proc.returncode != 0:
            raise BuildError(proc.stdout.decode('utf-8', 'replace')[-4000:])
        out = os.path.join(work, 'out')
        os.makedirs(out)
        n = 0
        for dirpath, _dirs, files in os.walk(os.path.join(work, 'src')):
            for name in files:
                if name.endswith('.so'):
                    rel = os.path.relpath(dirpath, os.path.join(work, 'src')).replace(os.sep, '.')
                    shutil.move(os.path.join(dirpath, name), os.path.join(out, rel + '.' + name))
                    n += 1
        if n == 0:
            raise BuildError('setup.py built no extension')
        open(os.path.join(out, 'DONE'), 'w').close()
        try:
            os.rename(out, dest)
        except OSError:
            if not os.path.exists(os.path.join(dest, 'DONE')):
                raise
        # keep the cache small
        olds = sorted((os.path.getmtime(os.path.join(root, d)), d) for d in os.listdir(root)
                      if not d.startswith('work-') and os.path.join(root, d) != dest)
        for _t, d in olds[:-6]:
            shutil.rmtree(os.path.join(root, d), ignore_errors=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return dest


class _ExtFinder(importlib.abc.MetaPathFinder):
    def __init__(self, table):
        self.table = table

    def find_spec(self, fullname, path=None, target=None):
        so = self.table.get(fullname)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(fullname, so)
        return importlib.util.spec_from_file_location(fullname, so, loader=loader)


def boot():
    """Build, install the import hooks, import finalfusion and verify where it came from."""
    dest = build()
    table = {}
    for name in os.listdir(dest):
        if name.endswith('.so'):
            table[name.split('.cpython')[0]] = os.path.join(dest, name)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'verif-no-pycache-%d' % os.getpid())
    sys.meta_path.insert(0, _ExtFinder(table))
    sys.path.insert(0, os.path.join(REPO, 'src'))
    import finalfusion
    import finalfusion.subword
    base = os.path.join(REPO, 'src') + os.sep
    for mod, m in list(sys.modules.items()):
        if mod == 'finalfusion' or mod.startswith('finalfusion.'):
            f = getattr(m, '__file__', None) or ''
            if not (f.startswith(base) or f.startswith(dest + os.sep)):
                raise BuildError('%s was imported from %s' % (mod, f))
    return dest
