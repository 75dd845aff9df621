"""
The environment the code under test runs in: simulated mpi4py, pfft and mpsort,
and one private copy of the package per simulated rank (module-level state of
one rank is invisible to the others, as it is between processes).
"""
import builtins
import importlib
import sys
import warnings

from . import build, vmpi

_state = {}


def prepare(need=build.ALL):
    """Build from /repo, make pmesh_r0.. importable."""
    if 'dir' in _state:
        return
    d = build.build(need)
    _state['dir'] = d
    sys.dont_write_bytecode = True
    sys.path.insert(0, d)
    warnings.simplefilter('ignore')
    vmpi.install()
    from . import vpfft, vmpsort
    vpfft.install()
    vmpsort.install()
    _redirect()


def _redirect():
    """`import pmesh.x` from inside pmesh_rK means pmesh_rK.x"""
    orig = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and globals is not None and (name == 'pmesh' or name.startswith('pmesh.')):
            top = (globals.get('__package__') or globals.get('__name__') or '').split('.')[0]
            if top.startswith('pmesh_r'):
                name = top + name[5:]
        return orig(name, globals, locals, fromlist, level)
    builtins.__import__ = imp


def mod(name, rank=0):
    """module pmesh.<name> as rank `rank` sees it"""
    return importlib.import_module('pmesh_r%d.%s' % (rank, name) if name else 'pmesh_r%d' % rank)


def gc_cache(keep=4):
    pass
