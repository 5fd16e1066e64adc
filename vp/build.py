"""Prepare an importable copy of /repo's *current working tree* outside /repo.

The Python sources are copied; a compiled extension is reused from /repo only if the content hash that
build.sh recorded for its sources equals the hash of the sources as they are now, otherwise it is rebuilt
from the copied sources (setuptools + Cython, the options of /repo/setup.py).  Nothing in /repo is written.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get('VP_REPO', '/repo')
PY = '/opt/venv/bin/python'
CACHE = '/tmp/jptv-ext-cache-%d' % os.getuid()

SETUP = r'''
import sys, os, numpy
os.environ['CPATH'] = numpy.get_include()
from setuptools import setup
from Cython.Build import cythonize
files = sys.argv[1:]
setup(name='pyjpt-ext', package_dir={'': 'src'}, packages=[],
      ext_modules=cythonize(files, language='c++', include_path=[numpy.get_include()], force=True),
      script_args=['-q', 'build_ext', '--inplace', '-j', '6'], zip_safe=False)
'''


class BuildError(Exception):
    pass


def _sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def _native(root):
    out = {}
    for d, _, fs in os.walk(os.path.join(root, 'src')):
        for f in fs:
            if f.endswith(('.pyx', '.pxd', '.pxi')):
                p = os.path.join(d, f)
                out[os.path.relpath(p, root)] = _sha(p)
    return out


def prepare(scratch):
    """copy the tree to ``scratch`` and return the directory to put on sys.path"""
    src = os.path.join(REPO, 'src')
    dst = os.path.join(scratch, 'src')

    def ignore(d, names):
        return [n for n in names if n.endswith(('.so', '.cpp', '.pyc')) or n in ('__pycache__', '.cache')]

    shutil.copytree(src, dst, ignore=ignore, symlinks=True)
    now = _native(scratch)
    old = {}
    try:
        with open(os.path.join(REPO, 'build', '.source-sums')) as f:
            for line in f:
                h, _, p = line.strip().partition('  ')
                old[p] = h
    except OSError:
        pass
    headers = {p: h for p, h in now.items() if not p.endswith('.pyx')}
    headers_old = {p: h for p, h in old.items() if p.endswith(('.pxd', '.pxi'))}
    hdr = hashlib.sha256(repr(sorted(headers.items())).encode()).hexdigest()
    stale = []
    os.makedirs(CACHE, exist_ok=True)
    for p in sorted(now):
        if not p.endswith('.pyx'):
            continue
        sofile = p[:-4] + '.cpython-312-x86_64-linux-gnu.so'
        target = os.path.join(scratch, sofile)
        if headers == headers_old and old.get(p) == now[p] and os.path.exists(os.path.join(REPO, sofile)):
            shutil.copy2(os.path.join(REPO, sofile), target)
            continue
        cached = os.path.join(CACHE, '%s-%s-%s.so' % (os.path.basename(p)[:-4], now[p][:24], hdr[:24]))
        if os.path.exists(cached):
            shutil.copy2(cached, target)
            continue
        stale.append((p, target, cached))
    if stale:
        with open(os.path.join(CACHE, 'lock'), 'w') as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            todo = []
            for p, target, cached in stale:
                if os.path.exists(cached):
                    shutil.copy2(cached, target)
                else:
                    todo.append((p, target, cached))
            if todo:
                drv = os.path.join(scratch, 'vp_setup.py')
                with open(drv, 'w') as f:
                    f.write(SETUP)
                env = dict(os.environ, PYTHONPATH=dst, PYTHONDONTWRITEBYTECODE='1', PIP_NO_INDEX='1')
                r = subprocess.run([PY, '-W', 'ignore', drv] + [p for p, _, _ in todo], cwd=scratch, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode or not all(os.path.exists(t) for _, t, _ in todo):
                    raise BuildError(r.stdout[-4000:])
                for p, target, cached in todo:
                    tmp = cached + '.%d' % os.getpid()
                    shutil.copy2(target, tmp)
                    os.replace(tmp, cached)
    return dst


if __name__ == '__main__':
    import tempfile
    d = sys.argv[1] if len(sys.argv) > 1 else tempfile.mkdtemp(prefix='jptv-')
    print(prepare(d))
