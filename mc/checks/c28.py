"""C28: creating, reshaping, respawning and dropping meshes in any order is safe."""
import gc
import itertools
import warnings

import numpy

from mc import env, lib, mesh as M, explore

ID = 'C28'
RULE = ('states are histories of creating meshes of equal or different parameters, reshaping and respawning them, and dropping '
        'the references on all or on some of the ranks; after every operation every mesh that is left is used and compared')
ASSUMPTIONS = ['objects that are not referenced are collected at once, or never if they are part of a cycle; both are explored '
               'per rank by dropping references on some ranks only']

P = {
    'A': dict(mesh=(4, 3, 2), dtype='f8', box=[3.0, 2.0, 5.0], resampler='cic'),
    'B': dict(mesh=(4, 3, 2), dtype='f8', box=[1.0, 4.0, 2.0], resampler='tsc'),
    'C': dict(mesh=(4, 3, 2), dtype='f4', box=[3.0, 2.0, 5.0], resampler='cic'),
    'D': dict(mesh=(4, 3, 2), dtype='f8', box=[3.0, 2.0, 5.0], resampler='cic', np='other'),
    'E': dict(mesh=(2, 3, 4), dtype='f8', box=[3.0, 2.0, 5.0], resampler='cic'),
    'G': dict(mesh=(4, 3, 2), dtype='f8', box=[3.0, 2.0, 5.0], resampler='cic', plan_method='measure'),
    'F': dict(mesh=(4, 6), dtype='c16', box=[3.0, 2.0], resampler='cic', np='flat'),
}
NEW = [('new', k) for k in 'ABCDEFG']
OTHER = [('reshape', 'N'), ('reshape', 'box'), ('reshape', 'scalar'), ('reshape', '2d'), ('reshape', 'resize'), ('reshape', 'boxscalar'), ('reshape', 'same'), ('respawn', 'self'), ('respawn', 'dup'), ('respawn', 'split'), ('respawn', 'half'),
         ('respawn', 'same'), ('drop', 'all'), ('drop', 'first'), ('drop', 'rest'), ('drop', 'newest'), ('field', 0)]


def valid(h):
    """there is something to act on"""
    n = 0
    for op in h:
        if op[0] == 'new':
            n += 1
        elif n == 0:
            return False
        elif op[0] == 'drop':
            n -= 1
        elif op[0] in ('reshape', 'respawn'):
            n += 1
    return True


def cases(tier):
    out = []
    depth = 3 if tier == 'quick' else 4
    news = NEW[:4] if tier == 'quick' else NEW
    first = NEW
    for size in (2, 1, 4) if tier == 'quick' else (2, 1, 3, 4):
        for a in first:
            d = depth if size == 2 else depth - 1
            if tier == 'quick' and size == 2 and a[1] in 'BCE':
                d = depth - 1
            for n in range(0, d):
                for b in itertools.product(news + OTHER, repeat=n):
                    h = (a,) + b
                    if not valid(h):
                        continue
                    if n == d - 1 or n == 0:
                        out.append(dict(size=size, h=h))
    # longer histories around the cache
    long = [('new', 'A'), ('new', 'B'), ('drop', 'first'), ('drop', 'rest'), ('respawn', 'dup')] + ([] if tier == 'quick' else [('new', 'D'), ('reshape', 'N')])
    for b in itertools.product(long, repeat=3 if tier == 'quick' else 4):
        h = (('new', 'A'),) + b + (('new', 'A'),)
        if valid(h):
            out.append(dict(size=2, h=h))
    # group the cases
    return [dict(size=s, kind='forms') for s in (1, 2, 3, 4, 6)] + [dict(size=s, hs=[c['h'] for c in g]) for s in sorted({c['size'] for c in out})
            for g in chunks([c for c in out if c['size'] == s], 12)]


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def npof(kind, size):
    if kind == 'other':
        return [1, size]
    if kind == 'flat':
        return [size]
    return [size, 1]


class Slot(object):
    pass


def use(comm, s):
    """the mesh works: None or what is wrong"""
    pm, want = s.pm, s.want
    if tuple(pm.Nmesh) != tuple(want['mesh']) or not numpy.array_equal(pm.BoxSize, want['box']):
        return 'geometry: Nmesh %s BoxSize %s' % (pm.Nmesh, pm.BoxSize)
    if pm.dtype != numpy.dtype(want['dtype']) or pm.ndim != len(want['mesh']):
        return 'type %s' % pm.dtype
    if pm.comm.size != want['size'] or int(numpy.prod(pm.np)) != want['size']:
        return 'communicator of %d ranks, process mesh %s' % (pm.comm.size, pm.np)
    if want['np'] is not None and (list(pm.np) != list(want['np']) or len(pm.partition.i_edges) != len(want['mesh'])
                                   or [len(e) - 1 for e in pm.partition.i_edges[:len(want['np'])]] != list(want['np'])):
        return 'process mesh %s, domains %s' % (list(pm.np), [len(e) - 1 for e in pm.partition.i_edges])
    W = env.mod('window', env_rank(s))
    if pm.resampler.kind != W.FindResampler(want['resampler']).kind:
        return 'resampler %s' % pm.resampler.kind
    cplx = pm.dtype.kind == 'c'
    tol = 1e-5 if pm.dtype in (numpy.dtype('f4'), numpy.dtype('c8')) else 1e-12
    mesh = tuple(want['mesh'])
    g = M.generic(mesh, 3, cplx)
    G = M.spectrum(g, cplx)
    f = pm.create('real')
    f[...] = g[f.slices]
    # r2c
    c = f.r2c()
    if not lib.close(c.value, G[c.slices], 0, tol * 10):
        return 'r2c'
    u = f.cast('untransposedcomplex')
    if not lib.close(u.value, G[u.slices], 0, tol * 10):
        return 'untransposed r2c'
    b = u.c2r(out=Ellipsis)
    if not lib.close(b.value, g[b.slices], 0, tol * 10):
        return 'c2r'
    if not lib.close(f.value, g[f.slices].astype(pm.dtype), 0, 0):
        return 'a transform changed its source'
    x = pm.create_coords('real')[0].ravel()
    i = numpy.arange(f.slices[0].start, f.slices[0].stop)
    xx = numpy.where(2 * i >= mesh[0], i - mesh[0], i) * (want['box'][0] / mesh[0])
    if not lib.close(x, xx, 0, 1e-5):
        return 'coordinates'
    if not cplx:
        pos = numpy.array([[.3 + .6 * a + .35 * d for d in range(len(mesh))] for a in range(8)]) * numpy.array(want['box']) / 4
        mine = lib.split(len(pos), pm.comm.size, 'cyclic')[pm.comm.rank]
        layout = pm.decompose(pos[mine])
        p = pm.paint(pos[mine], layout=layout)
        v = f.readout(pos[mine], layout=layout)
        T = W.Affine(len(mesh), scale=1. * numpy.array(mesh) / want['box'], translate=0, period=mesh)
        r = W.FindResampler(want['resampler'])
        a = numpy.zeros(mesh)
        r.paint(a, pos, transform=T)
        if not lib.close(p.value, a[p.slices], 0, tol * 10):
            return 'painting'
        vv = r.readout(g.astype('f8'), pos, transform=T)
        if not lib.close(v, vv[mine], 0, tol * 100):
            return 'readout'
    # fields made earlier
    for h in s.fields:
        if not numpy.array_equal(h.value, numpy.full(h.shape, 4.5)):
            return 'a field made earlier has lost its values'
        c = h.cast('complex')
        if not lib.close(c.value, numpy.where(sum(abs(i) + 0 * c.value.real for i in c.i) == 0, 4.5, 0), 0, tol * 10):
            return 'transform of a field made earlier'
    return None


def quiet(f, *args):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*args)


def forms(comm):
    """ how a mesh may be asked for: list of (name, what is wrong) """
    PM = env.mod('pm', comm.rank)
    errs = []
    base = dict(Nmesh=(4, 3, 2), BoxSize=[3.0, 2.0, 5.0], dtype='f8', resampler='cic', comm=comm)
    want = dict(mesh=(4, 3, 2), dtype='f8', box=[3.0, 2.0, 5.0], resampler='cic', np=None, size=comm.size)

    def good(name, w, fn):
        s = Slot()
        s.rank, s.fields, s.want = comm.rank, [], dict(want, **w)
        s.pm = fn()
        s.fields.append(s.pm.create('real', value=4.5))
        e = use(comm, s)
        if e:
            errs.append((name, e))
        return s.pm

    def bad(name, fn):
        try:
            fn()
        except (ValueError, TypeError, KeyError, AssertionError):
            return
        errs.append((name, 'is taken without an error'))

    def new(**kw):
        return lambda: PM.ParticleMesh(**{k: v for k, v in dict(base, **kw).items() if not (isinstance(v, str) and v == 'default')})
    A = numpy.array
    for name, n in (('list', [4, 3, 2]), ('array', A([4, 3, 2])), ('i4', A([4, 3, 2], 'i4')), ('float', [4., 3., 2.])):
        good('Nmesh ' + name, {}, new(Nmesh=n))
    for name, b in (('tuple', (3.0, 2.0, 5.0)), ('array', A([3.0, 2.0, 5.0])), ('f4', A([3.0, 2.0, 5.0], 'f4')), ('int', [3, 2, 5])):
        good('BoxSize ' + name, {}, new(BoxSize=b))
    good('BoxSize scalar', dict(box=[2.5] * 3), new(BoxSize=2.5))
    good('BoxSize default', dict(box=[1.] * 3), new(BoxSize='default'))
    good('dtype default', {}, new(dtype='default'))
    for d in ('f4', numpy.float32, numpy.dtype('f4'), 'float32'):
        good('dtype %r' % (d,), dict(dtype='f4'), new(dtype=d))
    for d in ('c16', 'c8', numpy.complex128):
        good('dtype %r' % (d,), dict(dtype=numpy.dtype(d).str), new(dtype=d))
    good('resampler default', {}, new(resampler='default'))
    W = env.mod('window', comm.rank)
    good('resampler object', dict(resampler='tsc'), new(resampler=W.FindResampler('tsc')))
    good('comm default', {}, new(comm=None))
    for m in ('estimate', 'measure', 'exhaustive'):
        good('plan_method ' + m, {}, new(plan_method=m))
    for np in ([comm.size], [comm.size, 1], [1, comm.size], (1, comm.size), A([comm.size, 1])):
        good('np %s' % (np,), dict(np=list(np)), new(np=np))
    for np in ([comm.size], [1, comm.size], [comm.size, 1, 1]):
        good('np %s complex' % (np,), dict(np=list(np), dtype='c16'), new(np=np, dtype='c16'))
    pm = new()()
    for name, args, w in (('reshape list', dict(Nmesh=[5, 4, 3]), dict(mesh=(5, 4, 3))),
                          ('reshape array', dict(Nmesh=A([5, 4, 3])), dict(mesh=(5, 4, 3))),
                          ('reshape scalar', dict(Nmesh=5), dict(mesh=(5, 5, 5))),
                          ('reshape box scalar', dict(BoxSize=2), dict(box=[2.] * 3)),
                          ('reshape box array', dict(BoxSize=A([2., 4, 6])), dict(box=[2., 4, 6])),
                          ('reshape both scalar', dict(Nmesh=5, BoxSize=2.5), dict(mesh=(5, 5, 5), box=[2.5] * 3)),
                          ('reshape 2d box scalar', dict(Nmesh=(5, 4), BoxSize=2.5), dict(mesh=(5, 4), box=[2.5] * 2)),
                          ('reshape numpy scalar', dict(Nmesh=numpy.int64(5)), dict(mesh=(5, 5, 5))),
                          ('reshape nothing', dict(), {})):
        good(name, w, lambda: pm.reshape(**args))
    good('resize scalar', dict(mesh=(5, 5, 5)), lambda: quiet(pm.resize, 5))
    f2 = PM.ParticleMesh(Nmesh=(4, 6), BoxSize=2.5, comm=comm, dtype='f8')
    good('reshape to 3d', dict(mesh=(5, 4, 3), box=[1., 2., 3.]), lambda: f2.reshape(Nmesh=(5, 4, 3), BoxSize=[1., 2, 3]))
    bad('dtype i8', new(dtype='i8'))
    bad('plan_method', new(plan_method='quickly'))
    bad('BoxSize of 2', new(BoxSize=[1., 2.]))
    bad('reshape to 3d without box', lambda: f2.reshape(Nmesh=(5, 4, 3)))
    bad('reshape box of 2', lambda: pm.reshape(BoxSize=[1., 2.]))
    if comm.size > 1:
        bad('1d on %d ranks' % comm.size, new(Nmesh=(4,), BoxSize=1.0))
    bad('type', lambda: pm.create('imaginary'))
    bad('no type', lambda: pm.create())
    bad('both', lambda: quiet(lambda: pm.create('real', mode='real')))
    for t in ('real', 'complex', 'transposedcomplex', 'untransposedcomplex'):
        a, b = pm.create(t, value=2.5), quiet(lambda: pm.create(mode=t, value=2.5))
        if type(a) is not type(b) or not numpy.array_equal(a.value, b.value):
            errs.append(('mode=' + t, 'differs from type='))
    # the mesh still works
    s = Slot()
    s.rank, s.fields, s.want, s.pm = comm.rank, [], want, pm
    e = use(comm, s)
    if e:
        errs.append(('after errors', e))
    return errs


def env_rank(s):
    return s.rank


def program(comm, history):
    PM = env.mod('pm', comm.rank)
    slots = []      # oldest first; each: pm or None on this rank, kept in step on all ranks
    size = comm.size
    errs = []
    for op in history:
        op = tuple(op)
        made = None
        live = [s for s in slots if s.complete]
        if op[0] == 'new':
            p = P[op[1]]
            want = dict(p, size=size, np=npof(p.get('np'), size))
            made = (lambda: PM.ParticleMesh(Nmesh=want['mesh'], BoxSize=want['box'], comm=comm, np=want['np'], dtype=want['dtype'],
                                            resampler=want['resampler'], **({} if 'plan_method' not in want else dict(plan_method=want['plan_method'])))), want, True
        elif op[0] in ('reshape', 'respawn') and live:
            s = live[0] if op[1] == 'half' else live[-1]
            w = s.want
            if s.members is not None and comm.rank not in s.members:
                pm = None
            else:
                pm = s.pm
            if op[0] == 'reshape':
                n, b = None, None
                if op[1] == 'N':
                    n = [k + 1 for k in w['mesh']]
                    want = dict(w, mesh=n)
                elif op[1] == 'scalar':
                    n = 4
                    want = dict(w, mesh=[4] * len(w['mesh']))
                elif op[1] == 'resize':
                    n = [k + 2 for k in w['mesh']]
                    want = dict(w, mesh=n)
                elif op[1] == 'boxscalar':
                    n, b = [5, 6, 4][:len(w['mesh'])], 2.5
                    want = dict(w, mesh=n, box=[2.5] * len(n))
                elif op[1] == 'box':
                    b = [2.5 + d for d in range(len(w['mesh']))]
                    want = dict(w, box=b)
                elif op[1] == '2d':
                    n = [5, 4]
                    want = dict(w, mesh=n, box=list(w['box'])[:2])
                else:
                    want = dict(w)
                if len(want['mesh']) != len(w['mesh']):
                    want['np'] = None
                if op[1] == 'resize':
                    made = (lambda: quiet(pm.resize, n)), want, s.members
                else:
                    made = (lambda: pm.reshape(Nmesh=n, BoxSize=b)), want, s.members
            else:
                if op[1] == 'same':
                    made = (lambda: pm.respawn(pm.comm, np=pm.np)), dict(w), s.members
                elif op[1] == 'dup':
                    made = (lambda: pm.respawn(pm.comm.Dup())), dict(w, np=None), s.members
                elif op[1] == 'half':
                    made = (lambda: pm.respawn(pm.comm.Split(pm.comm.rank // 2, 0))), None, s.members
                elif op[1] == 'split':
                    made = (lambda: pm.respawn(pm.comm.Split(pm.comm.rank % 2, 0))), None, s.members
                else:
                    made = (lambda: pm.respawn(pm.comm.Split(pm.comm.rank, 0))), None, s.members
            if pm is None:
                made = (None, made[1], made[2])
        elif op[0] == 'drop' and slots:
            s = slots[-1] if op[1] == 'newest' else slots[0]
            if op[1] in ('all', 'newest') or (op[1] == 'first') == (comm.rank == 0):
                s.pm = None
                s.fields = []
            s.complete = False
            slots.remove(s)
            if s.pm is not None:
                _hold(comm, s.pm)      # this rank goes on to hold it
        elif op[0] == 'field' and live:
            s = live[-1]
            if s.pm is not None:
                s.fields.append(s.pm.create('real', value=4.5))
        if made is not None:
            fn, want, members = made
            s = Slot()
            s.rank = comm.rank
            s.pm = fn() if fn is not None else None
            s.members = None if members is True else members
            s.fields = []
            s.complete = True
            if want is None:
                want = dict(w, np=None, size=s.pm.comm.size if s.pm is not None else 0)
            s.want = want
            if s.pm is not None:
                s.fields.append(s.pm.create('real', value=4.5))
            slots.append(s)
        for s in slots:
            if s.pm is None or not s.complete:
                continue
            e = use(comm, s)
            if e:
                errs.append((op, e))
    return errs


_held = {}


def _hold(comm, pm):
    _held.setdefault(comm.rank, []).append(pm)


def run(case, R):
    size = case['size']
    if case.get('kind') == 'forms':
        key = 'c28/forms/%d' % size
        vals = lib.run_world(R, size, forms, (), key=key)
        R.trace()
        for r, errs in enumerate(vals or []):
            for name, e in errs[:3]:
                R.violation(key + '/' + name, 'rank %d: a mesh made with %s: %s' % (r, name, e))
        R.nstates(40)
        R.outcome('forms', size)
        return
    for h in case['hs']:
        h = tuple(tuple(o) for o in h)
        key = 'c28/%d/%s' % (size, ','.join('%s:%s' % o for o in h))
        gc.collect()
        vals = lib.run_world(R, size, program, (h,), key=key, schedules='few' if size == 2 else 'one')
        _held.clear()
        if vals is None:
            continue
        for r, errs in enumerate(vals):
            if errs:
                R.violation(key, 'rank %d after %s: %s' % (r, errs[0][0], errs[0][1]))
        R.state(size, h)
        R.outcome(size, h)
