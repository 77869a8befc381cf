"""Scratch build of the code under test: a private copy of /repo's working tree, with extensions rebuilt
whenever the sources differ from those the present binaries were made of."""
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get('JPT_REPO', '/repo')
PY = '/opt/venv/bin/python'


class MachineryError(Exception):
    pass


def env(src):
    e = dict(os.environ)
    e.update(HOME='/root', LANG='C.UTF-8', MPLBACKEND='Agg', PYTHONPATH=src, PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PIP_NO_INDEX='1',
             PYTHONWARNINGS='ignore',
             PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    return e


def _sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def build(scratch):
    """Copies REPO/{setup.py,src,build,...} to scratch/repo, builds there; returns the src directory."""
    dst = os.path.join(scratch, 'repo')
    os.makedirs(dst)
    for name in os.listdir(REPO):
        if name in ('.git', 'doc', 'test', 'examples'):
            continue
        p = os.path.join(REPO, name)
        if os.path.islink(p):
            continue
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(dst, name), symlinks=True,
                            ignore=shutil.ignore_patterns('test-report', '__pycache__', '.git'))
        else:
            shutil.copy2(p, os.path.join(dst, name))
    recorded = {}
    sums = os.path.join(dst, 'build', '.source-sums')
    if os.path.exists(sums):
        for line in open(sums):
            h, _, f = line.rstrip('\n').partition('  ')
            recorded[f] = h
    sources, changed = [], []
    for root, _, files in os.walk(dst):
        if os.path.relpath(root, dst).split(os.sep)[0] == 'build':
            continue
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), dst)
            if rel == 'setup.py' or f.endswith(('.pyx', '.pxd', '.pxi')):
                sources.append(rel)
                if recorded.get(rel) != _sha(os.path.join(dst, rel)):
                    changed.append(rel)
    pyx = [s for s in sources if s.endswith('.pyx')]
    stale = set()
    for c in changed:
        if c.endswith('.pyx'):
            stale.add(c)
        else:
            stale.update(pyx)

    def so_of(p):
        d, b = os.path.split(os.path.join(dst, p))
        return [os.path.join(d, f) for f in os.listdir(d) if f.startswith(b[:-4] + '.cpython-') and f.endswith('.so')]

    for p in pyx:
        if not so_of(p):
            stale.add(p)
    # gone sources must not be imported
    for root, _, files in os.walk(os.path.join(dst, 'src')):
        for f in files:
            if '.cpython-' in f and f.endswith('.so') and f.split('.cpython-')[0] + '.pyx' not in files:
                os.remove(os.path.join(root, f))
    if stale:
        for p in stale:
            for so in so_of(p):
                os.remove(so)
            for ext in ('.cpp', '.c'):
                g = os.path.join(dst, p[:-4] + ext)
                if os.path.exists(g):
                    os.remove(g)
        # unchanged extensions keep their binaries: make them newer than every source
        for p in pyx:
            if p not in stale:
                for so in so_of(p):
                    os.utime(so)
                for ext in ('.cpp', '.c'):
                    g = os.path.join(dst, p[:-4] + ext)
                    if os.path.exists(g):
                        os.utime(g)
        for root, _, files in os.walk(os.path.join(dst, 'src')):
            for f in files:
                if f.endswith(('.pyx', '.pxd', '.pxi')):
                    pth = os.path.join(root, f)
                    st = os.stat(pth)
                    if os.path.relpath(pth, dst) not in stale:
                        os.utime(pth, (st.st_atime, 1000000000))
        for o in ('temp.linux-x86_64-cpython-312', 'lib.linux-x86_64-cpython-312'):
            b = os.path.join(dst, 'build', o)
            for root, _, files in os.walk(b):
                for f in files:
                    base = os.path.splitext(f)[0].split('.cpython-')[0]
                    if any(os.path.basename(p)[:-4] == base for p in stale):
                        os.remove(os.path.join(root, f))
                    else:
                        os.utime(os.path.join(root, f))
        r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '-j', '8'], cwd=dst, env=env(dst + '/src'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors='replace')[-3000:])
            raise MachineryError('the extensions of the code under test do not build')
    src = os.path.join(dst, 'src')
    r = subprocess.run([PY, '-c', 'import jpt, jpt.trees, jpt.sequential_trees; print(jpt.__file__)'], cwd=scratch,
                       env=env(src), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    if r.returncode or not r.stdout.decode().strip().splitlines()[-1].startswith(src):
        sys.stderr.write(r.stdout.decode(errors='replace')[-3000:])
        raise MachineryError('the code under test cannot be imported')
    return src, sorted(stale)


if __name__ == '__main__':
    import tempfile
    import time
    t = time.time()
    d = tempfile.mkdtemp(prefix='jptv-')
    try:
        print(build(d), time.time() - t)
    finally:
        shutil.rmtree(d)
