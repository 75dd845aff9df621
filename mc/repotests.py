"""
python -m mc.repotests: the repository's own MPI tests on the simulated layers.
(Most tests of fields cannot run here on the real ones: the installed pfft is
older than pm.py wants.)  Part of the conformance of the simulation, and a
regression test of the repairs in /repo.
"""
import glob
import itertools
import os
import sys
import traceback
import types

from . import env, vmpi


def load(path, rank):
    m = types.ModuleType('pmesh_r%d.tests.%s' % (rank, os.path.basename(path)[:-3].replace('-', '_')))
    m.__package__ = 'pmesh_r%d.tests' % rank
    m.__file__ = path
    exec(compile(open(path).read(), path, 'exec'), m.__dict__)
    return m


def main():
    env.prepare()
    r = types.ModuleType('runtests')
    rm = types.ModuleType('runtests.mpi')

    def MPITest(commsize):
        sizes = (commsize,) if isinstance(commsize, int) else tuple(commsize)

        def dec(f):
            f.commsizes = sizes
            return f
        return dec
    rm.MPITest = MPITest
    r.mpi = rm
    sys.modules['runtests'], sys.modules['runtests.mpi'] = r, rm
    import runtests.mpi  # noqa
    res = {}
    for path in sorted(glob.glob('/repo/pmesh/tests/test*.py')):
        try:
            mods = [load(path, i) for i in range(4)]
        except Exception as e:
            print('cannot load', path, repr(e))
            continue
        for name, f in list(vars(mods[0]).items()):
            if not hasattr(f, 'commsizes'):
                continue
            marks = getattr(f, 'pytestmark', [])
            par = [m for m in marks if m.name == 'parametrize']
            sets = [dict()]
            for m in par:
                names = [x.strip() for x in m.args[0].split(',')] if isinstance(m.args[0], str) else list(m.args[0])
                sets = [dict(s, **dict(zip(names, v if len(names) > 1 else [v]))) for s in sets for v in m.args[1]]
            for size in f.commsizes:
                for s in sets:
                    key = '%s::%s[%d%s]' % (os.path.basename(path)[:-3], name, size, ''.join('-%s' % v for v in s.values()))

                    def prog(comm):
                        return getattr(mods[comm.rank], name)(comm, **s)
                    w = vmpi.World(size)
                    try:
                        w.run(prog)
                        err = w.failure or next((o[1] for o in w.outcome if o[0] != 'ok'), None)
                    except BaseException as e:
                        err = e
                    res[key] = err
                    if err is not None:
                        print('FAIL', key, type(err).__name__, str(err)[:150].replace('\n', ' '))
                        if '-v' in sys.argv:
                            traceback.print_exception(err)
    print(sum(e is None for e in res.values()), 'of', len(res), 'pass')
    return res


if __name__ == '__main__':
    main()
