"""Builds the system under test from /repo's working tree into a scratch directory.

/repo itself is never written.  The two Cython extensions are translated and compiled in parallel.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('SIM_REPO', '/repo')
VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
EXTS = ['funpy/cheb/detail', 'funpy/cheb/ufuncs']
SKIP = {'__pycache__', 'tests', '.git', 'build'}


class BuildError(Exception):
    pass


def _sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'funpy')):
        dirs[:] = sorted(d for d in dirs if d not in SKIP)
        for f in sorted(files):
            if f.endswith(('.py', '.pyx', '.pxd', '.pxi', '.c', '.h')) and not (
                    f.endswith('.c') and os.path.exists(os.path.join(root, f[:-2] + '.pyx'))):
                out.append(os.path.relpath(os.path.join(root, f), REPO))
    for f in sorted(os.listdir(REPO)):
        if f.endswith('.pxd'):
            out.append(f)
    return out


def _compile(d, ext):
    import numpy as np
    env = dict(os.environ)
    env['PYTHONPATH'] = d
    inc = sysconfig.get_paths()['include']
    so = ext + sysconfig.get_config_var('EXT_SUFFIX')
    cmd = ('%s -W ignore -m cython -I . %s.pyx -o %s.c && '
           'gcc -shared -fPIC -O2 -march=native -fno-fast-math -fno-strict-aliasing -fwrapv -DNDEBUG -w '
           '-I%s -I%s %s.c -o %s -lm' % (sys.executable, ext, ext, inc, np.get_include(), ext, so))
    return subprocess.Popen(cmd, shell=True, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def build():
    """Returns (directory to put on sys.path, tree hash, is_scratch)."""
    srcs = _sources()
    h = hashlib.sha256()
    hx = hashlib.sha256()
    for s in srcs:
        data = open(os.path.join(REPO, s), 'rb').read()
        h.update(s.encode() + b'\0' + data + b'\0')
        if s.endswith(('.pyx', '.pxd', '.pxi', '.h', '.c')):
            hx.update(s.encode() + b'\0' + data + b'\0')
    key, kx = h.hexdigest()[:16], hx.hexdigest()[:16]
    base = os.environ.get('SIM_SCRATCH') or tempfile.mkdtemp(prefix='funpysim.')
    d = os.path.join(base, key)
    for s in srcs:
        p = os.path.join(d, s)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, s), p)
    cache = os.path.join(VERIF, '.build', kx)
    sos = [e + sysconfig.get_config_var('EXT_SUFFIX') for e in EXTS]
    if all(os.path.exists(os.path.join(cache, os.path.basename(s))) for s in sos):
        for s in sos:
            shutil.copyfile(os.path.join(cache, os.path.basename(s)), os.path.join(d, s))
    else:
        procs = [(e, _compile(d, e)) for e in EXTS]
        for e, p in procs:
            out, _ = p.communicate()
            if p.returncode != 0:
                shutil.rmtree(base, ignore_errors=True)
                raise BuildError('%s: %s' % (e, out.decode(errors='replace')[-3000:]))
        try:
            os.makedirs(cache, exist_ok=True)
            for s in sos:
                tmp = os.path.join(cache, os.path.basename(s) + '.tmp%d' % os.getpid())
                shutil.copyfile(os.path.join(d, s), tmp)
                os.replace(tmp, os.path.join(cache, os.path.basename(s)))
        except OSError:
            pass
    return base, d, key


if __name__ == '__main__':
    print(build())
