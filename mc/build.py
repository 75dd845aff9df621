"""
Build the extension modules of pmesh from /repo's current working tree, into a
content-addressed directory outside /repo, and lay out one private copy of the
package per simulated MPI rank.

The list of extensions, sources and include directories comes from /repo's own
setup.py, which is executed with setuptools.setup and cythonize intercepted, so
that nothing is duplicated here.  The products lying about in /repo are never
used: they may be older than the sources.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
NRANKS = 6
ALL = ('_domain', '_window', '_whitenoise', '_invariant')

SRC_EXT = ('.py', '.pyx', '.pxd', '.pxi', '.h', '.hh', '.hpp', '.inc', '.c', '.cpp', '.cc')


class BuildError(Exception):
    pass


def _tracked_sources():
    """Relative paths of the sources of the package, without generated C files."""
    out = []
    top = os.path.join(REPO, 'pmesh')
    for dirpath, dirnames, filenames in os.walk(top):
        dirnames[:] = sorted(d for d in dirnames if d not in ('tests', '__pycache__'))
        names = set(filenames)
        for f in sorted(filenames):
            base, ext = os.path.splitext(f)
            if ext not in SRC_EXT:
                continue
            if ext in ('.c', '.cpp') and base + '.pyx' in names:
                continue    # generated by Cython
            out.append(os.path.relpath(os.path.join(dirpath, f), REPO))
    out.append('setup.py')
    return out


def tree_hash(python=True):
    """of all sources, or of those that the extension modules are compiled from"""
    h = hashlib.sha256()
    h.update(sys.version.encode())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    for p in _tracked_sources():
        if not python and p.endswith('.py') and p not in ('setup.py', 'pmesh/version.py'):
            continue
        h.update(p.encode() + b'\0')
        with open(os.path.join(REPO, p), 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _extensions(src):
    """Execute setup.py and return the list of setuptools Extension objects."""
    code = r'''
import json, sys, os
import setuptools, Cython.Build
got = {}
setuptools.setup = lambda **kw: got.update(kw)
Cython.Build.cythonize = lambda exts, *a, **k: exts
sys.argv = ['setup.py', 'build_ext']
g = {'__name__': '__main__', '__file__': 'setup.py'}
exec(compile(open('setup.py').read(), 'setup.py', 'exec'), g)
print('@@' + json.dumps([dict(name=e.name, sources=list(e.sources), inc=list(e.include_dirs or []),
    libs=list(e.libraries or []), cargs=list(e.extra_compile_args or []), largs=list(e.extra_link_args or []),
    macros=list(e.define_macros or []), lang=e.language) for e in got['ext_modules']]))
'''
    import json
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], cwd=src, capture_output=True, text=True)
    for line in r.stdout.splitlines():
        if line.startswith('@@'):
            return json.loads(line[2:])
    raise BuildError('setup.py could not be evaluated:\n' + r.stdout + r.stderr)


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))


def _build_ext(src, lib, ext, opt):
    name = ext['name'].split('.')[-1]
    tmp = os.path.join(lib, 'obj_' + name)
    os.makedirs(tmp, exist_ok=True)
    incs = []
    for i in ext['inc'] + ['.', sysconfig.get_paths()['include']]:
        incs += ['-I' + i]
    macros = ['-D%s%s' % (m, '' if v is None else '=%s' % v) for m, v in ext['macros']]
    import numpy
    incs += ['-I' + numpy.get_include()]

    def compile_one(k_s):
        k, s = k_s
        flags = list(opt)
        if s.endswith('.pyx'):
            c = os.path.join(tmp, os.path.basename(s)[:-4] + '.c')
            _run([sys.executable, '-m', 'cython', s, '-o', c], src)
            incs2 = ['-I' + os.path.dirname(s)]
            flags = ['-O1']
        else:
            c = s
            incs2 = []
        o = os.path.join(tmp, '%d.o' % k)
        _run(['gcc', '-fPIC', '-w', '-fno-strict-overflow', '-DNDEBUG'] + flags + macros + incs2 + incs + ext['cargs']
             + ['-c', c, '-o', o], src)
        return o

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(compile_one, enumerate(ext['sources'])))
    so = os.path.join(lib, name + sysconfig.get_config_var('EXT_SUFFIX'))
    _run(['gcc', '-shared'] + objs + ['-o', so + '.tmp'] + ['-l' + l for l in ext['libs']] + ['-lm'] + ext['largs'], src)
    os.rename(so + '.tmp', so)
    shutil.rmtree(tmp)


def build(need=ALL, quiet=False):
    """
    Returns the directory that holds pmesh_r0 .. pmesh_r{NRANKS-1}, built with
    the extensions in `need`.
    """
    need = tuple(sorted(need))
    key = tree_hash()
    root = os.path.join(CACHE, key)
    tag = hashlib.sha256(repr(need).encode()).hexdigest()[:8]
    done = os.path.join(root, 'done_' + tag)
    pkgs = os.path.join(root, 'pkgs_' + tag)
    if os.path.exists(done):
        return pkgs
    os.makedirs(root, exist_ok=True)
    with open(os.path.join(root, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(done):
            return pkgs
        src = os.path.join(root, 'src')
        if not os.path.exists(src + '.ok'):
            shutil.rmtree(src, ignore_errors=True)
            for p in _tracked_sources():
                dst = os.path.join(src, p)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, p), dst)
            open(src + '.ok', 'w').close()
        lib = os.path.join(CACHE, 'ext-' + tree_hash(False))
        os.makedirs(lib, exist_ok=True)
        os.utime(lib)
        suffix = sysconfig.get_config_var('EXT_SUFFIX')
        if need:
            exts = [e for e in _extensions(src)
                    if e['name'].split('.')[-1] in need or e['name'].split('.')[-1] not in ALL]
            todo = [e for e in exts
                    if not os.path.exists(os.path.join(lib, e['name'].split('.')[-1] + suffix))]
            with open(os.path.join(lib, 'lock'), 'w') as l2:
                fcntl.flock(l2, fcntl.LOCK_EX)
                todo = [e for e in todo if not os.path.exists(os.path.join(lib, e['name'].split('.')[-1] + suffix))]
                with ThreadPoolExecutor(4) as ex:
                    list(ex.map(lambda e: _build_ext(src, lib, e, ['-O1']), todo))
            missing = [n for n in need if not os.path.exists(os.path.join(lib, n + suffix))]
            if missing:
                raise BuildError('setup.py does not build ' + ', '.join(missing))
        shutil.rmtree(pkgs, ignore_errors=True)
        for r in range(NRANKS):
            dst = os.path.join(pkgs, 'pmesh_r%d' % r)
            for p in _tracked_sources():
                if p.startswith('pmesh/') and p.endswith('.py'):
                    d = os.path.join(dst, os.path.relpath(p, 'pmesh'))
                    os.makedirs(os.path.dirname(d), exist_ok=True)
                    shutil.copyfile(os.path.join(src, p), d)
            for f in os.listdir(lib):
                if f.endswith('.so') and (f[:-len(suffix)] in need or f[:-len(suffix)] not in ALL):
                    # a real copy: each rank has its own static variables
                    shutil.copyfile(os.path.join(lib, f), os.path.join(dst, f))
        open(done, 'w').close()
    _collect((root, lib))
    return pkgs


def _collect(keep):
    """remove what was built long ago for other trees"""
    import time
    dirs = [os.path.join(CACHE, d) for d in os.listdir(CACHE)]
    dirs = sorted((os.path.getmtime(d), d) for d in dirs if os.path.isdir(d))
    for t, d in dirs[:-6]:
        if d not in keep and time.time() - t > 3600 and os.path.dirname(d) == CACHE:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    print(build())
