"""Builds /repo's extension module into /verif/.build, keyed by source content."""
import fcntl
import hashlib
import os
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.join(VERIF, '.build')
PY = '/opt/vp/venv/bin/python'


def digest():
    h = hashlib.sha256()
    files = [os.path.join(REPO, 'setup.py')]
    for top in ('src',):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as s:
            h.update(s.read())
    return h.hexdigest()[:16]


def build():
    """Directory that holds a fresh _graphillion module, or raises."""
    os.makedirs(ROOT, exist_ok=True)
    with open(os.path.join(ROOT, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = digest()
        out = os.path.join(ROOT, key)
        lib = os.path.join(out, 'lib')
        if os.path.exists(os.path.join(out, 'ok')):
            return lib
        subprocess.call(['rm', '-rf', out])
        env = dict(os.environ)
        env.update(PATH='/usr/lib/ccache:/usr/local/bin:/usr/bin:/bin', CC='gcc', CXX='g++',
                   CCACHE_DIR=os.path.join(ROOT, 'ccache'), CCACHE_MAXSIZE='500M',
                   PYTHONDONTWRITEBYTECODE='1', HOME=env.get('HOME', '/root'), JOBS=str(os.cpu_count() or 8))
        env.pop('PYTHONPATH', None)
        r = subprocess.run([PY, os.path.join(VERIF, 'harness', 'pybuild.py'), out], cwd=REPO, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stderr.write(r.stdout.decode(errors='replace')[-3000:])
            raise RuntimeError('build of %s failed' % REPO)
        # keep only the newest few builds
        open(os.path.join(out, 'ok'), 'w').close()
        old = sorted((d for d in os.listdir(ROOT) if len(d) == 16 and d != key),
                     key=lambda d: os.path.getmtime(os.path.join(ROOT, d)))
        for d in old[:-3]:
            subprocess.call(['rm', '-rf', os.path.join(ROOT, d)])
        return lib


def env(lib, **more):
    e = dict(os.environ)
    e.update(PYTHONPATH=lib + ':' + REPO, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
             OMP_WAIT_POLICY='passive')
    e.update(more)
    return e


if __name__ == '__main__':
    print(build())
