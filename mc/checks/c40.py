"""C40: meshes of one kind share their plans, and what nobody holds any more is released."""
import gc
import itertools

import numpy

from mc import env, lib, mesh as M, vmpi, vpfft

ID = 'C40'
RULE = ('states are histories of creating meshes of equal and different kinds, making fields of them in all ways, moving particles, and '
        'dropping meshes and fields on all or on some of the ranks; after every operation what the stand-ins of PFFT and MPI have '
        'handed out and what is still alive is counted on every rank')
ASSUMPTIONS = ['what is only reachable through cycles counts as released: the collector is run before counting']

# kind of the plans, arguments
P = {
    'A': ('a', dict(Nmesh=(4, 3, 2), BoxSize=[3.0, 2.0, 5.0], dtype='f8', resampler='cic')),
    'B': ('a', dict(Nmesh=[4, 3, 2], BoxSize=2.0, dtype=numpy.float64, resampler='tsc')),
    'N': ('a', dict(Nmesh=numpy.array([4, 3, 2]), BoxSize=7.0, dtype='f8', np='same')),
    'C': ('c', dict(Nmesh=(4, 3, 2), BoxSize=[3.0, 2.0, 5.0], dtype='f4')),
    'U': ('u', dict(Nmesh=(4, 3, 2), BoxSize=[3.0, 2.0, 5.0], dtype='f8', np='other')),
    'G': ('g', dict(Nmesh=(4, 3, 2), BoxSize=[3.0, 2.0, 5.0], dtype='f8', plan_method='measure')),
    'E': ('e', dict(Nmesh=(6, 2), BoxSize=[3.0, 2.0], dtype='f8')),
    'D': ('d', dict(Nmesh=(4, 3, 2), BoxSize=1.0, dtype='c16', np='full')),
}
NEW = [('new', k) for k in 'ABNCUGED']
MAKE = [('reshape', 'box'), ('reshape', 'same'), ('reshape', 'N'), ('respawn', 'same'), ('respawn', 'dup')]
FIELD = [('field', k) for k in ('real', 'r2c', 'inplace', 'c2r', 'copy', 'cast', 'apply', 'sum', 'other', 'out', 'noise', 'paint', 'grad', 'preview', 'resample')]
DROP = [('drop', 'mesh'), ('drop', 'first'), ('drop', 'rest'), ('drop', 'all'), ('drop', 'held'), ('drop', 'fields')]
MOVE = [('move', k) for k in ('sum', 'local', 'all', 'mean', 'any', 'paint', 'error')]


def valid(h):
    n = 0
    for op in h:
        if op[0] == 'new':
            n += 1
        elif op == ('drop', 'held'):
            pass
        elif n == 0:
            return False
        elif op[0] in ('reshape', 'respawn'):
            n += 1
        elif op[0] == 'drop' and op[1] != 'fields':
            n -= 1
    return True


def cases(tier):
    q = tier == 'quick'
    hs = {s: [] for s in (1, 2, 3, 4)}
    A = ('new', 'A')
    for size in hs:
        # all ways to make fields of all kinds of meshes, and to let them go
        for a in NEW:
            for f in FIELD:
                hs[size].append((a, f, ('drop', 'mesh'), a, ('drop', 'fields')))
            for m in MOVE:
                hs[size].append((a, m, m, ('drop', 'all')))
        # pairs of kinds
        for a, b in itertools.product(NEW, NEW + MAKE):
            for d in (('drop', 'all'), ('drop', 'mesh'), ('drop', 'first')):
                hs[size].append((a, ('field', 'real'), b, d, a, ('drop', 'all')))
        # meshes one after another
        for a in NEW:
            hs[size].append((a, ('drop', 'all')) * 6)
            hs[size].append((a, ('field', 'inplace'), ('drop', 'first'), ('drop', 'held')) * 3)
    ops = [A, ('new', 'B'), ('new', 'C'), ('reshape', 'box'), ('respawn', 'same'), ('field', 'r2c'), ('drop', 'mesh'), ('drop', 'first'), ('drop', 'rest'), ('drop', 'held')]
    for size in (2,) if q else (1, 2, 3):
        for b in itertools.product(ops, repeat=3 if q else 4):
            h = (A,) + b + (A,)
            if valid(h):
                hs[size].append(h)
    more = [A, ('new', 'N'), ('drop', 'first'), ('drop', 'rest'), ('drop', 'held')]
    for size in (2, 3):
        for b in itertools.product(more, repeat=4 if q else 6):
            h = (A,) + b
            if valid(h):
                hs[size].append(h)
    fields = FIELD if not q else FIELD[:10]
    for size in (2,):
        for b in itertools.product(fields, repeat=2 if q else 3):
            hs[size].append((('new', 'B'),) + b + (('drop', 'mesh'), ('drop', 'fields')))
    out = []
    for s in hs:
        l = list(dict.fromkeys(hs[s]))
        out += [dict(size=s, hs=l[i:i + 12]) for i in range(0, len(l), 12)]
    return out


def args(k, size):
    kw = dict(P[k][1])
    np = kw.pop('np', None)
    if np == 'same':
        import pfft
        kw['np'] = pfft.split_size_2d(size)
    elif np == 'other':
        kw['np'] = [size]
    elif np == 'full':
        kw['np'] = [1, size, 1]
    return kw


class Slot(object):
    pass


def where(f):
    """the memory of the values of a field"""
    return f.value.__array_interface__['data'][0] if f.value.size else None


def program(comm, history, tracked):
    PM = env.mod('pm', comm.rank)
    rank, size = comm.rank, comm.size
    slots, held = [], []        # meshes all ranks hold; those that some ranks hold
    errs = []
    ids = itertools.count()
    per = []                    # plans of one mesh
    marks = {}

    def count():
        comm.barrier()
        if rank == 0:
            gc.collect()      # (the ranks share one collector)
        comm.barrier()
        made = {k: sum(r == rank for r, o in v) for k, v in tracked.items()}
        alive = {k: [o() for r, o in v if r == rank] for k, v in tracked.items()}
        alive = {k: sum(o is not None for o in v) for k, v in alive.items()}
        types = sum(r == rank and not d.freed for r, d in vmpi.Datatype.made)
        comm.barrier()
        return made, alive, types

    def addfield(s, kind):
        """fields of the mesh; the number of memories they take"""
        pm = s.pm
        g = pm.create('real', value=1.5)
        n = 1
        if kind == 'real':
            new = [g]
        elif kind == 'r2c':
            new = [g, g.r2c()]
            n = 2
        elif kind == 'inplace':
            new = [g, g.r2c(out=Ellipsis)]
        elif kind == 'c2r':
            c = g.r2c(out=Ellipsis)
            del g
            new = [c, c.c2r(out=Ellipsis)]
        elif kind == 'copy':
            new = [g, g.copy(), g.r2c().copy()]
            n = 3
        elif kind == 'cast':
            new = [g.cast('untransposedcomplex')]
        elif kind == 'apply':
            c = g.r2c(out=Ellipsis)
            c = c.apply(lambda k, v: v * 2, out=Ellipsis)
            c.apply(lambda k, v: v * 2)
            new = [c]
        elif kind == 'sum':
            new = [g + 1, g * 2]
            n = 2
        elif kind == 'other':
            new = [g.r2c(out=g.pm.create('transposedcomplex')), g.r2c(out=g.pm.create('untransposedcomplex'))]
            n = 2
        elif kind == 'out':
            c = pm.create('complex', value=0)
            r = pm.create('real')
            c.c2r(out=r)
            new = [c, r]
            n = 2
        elif kind == 'noise':
            new = [pm.generate_whitenoise(5, type='complex')]
        elif kind == 'paint':
            x = numpy.arange(5.)[:, None] * numpy.array([.3] * pm.ndim)
            new = [pm.paint(x, layout=pm.decompose(x))]
        elif kind == 'grad':
            c = g.c2r_vjp(g)
            new = [c]
        elif kind == 'preview':
            g.preview()
            g.csum()
            new = [g]
        elif kind == 'resample':
            p = pm.create('real')
            g.resample(p)
            new = [p]
        s.fields += new
        s.memory += n

    for step, op in enumerate(history):
        op = tuple(op)
        before = count()[0]
        made = None
        live = slots
        share = None

        def find(kind):
            # a mesh (or a field of it) of this kind that all ranks hold
            l = [s for s in slots + held if s.kind == kind and s.holders == set(range(size)) and s.comm == 'world']
            return l[0].template if l else None
        if op[0] == 'new':
            kw = args(op[1], size)
            kind, share = P[op[1]][0], find(P[op[1]][0])
            if op[1] == 'U' and list(args('N', size)['np']) == list(kw['np']):
                continue
            made = lambda: PM.ParticleMesh(comm=comm, **kw)
            on = 'world'
        elif op[0] in ('reshape', 'respawn') and live:
            s = live[-1]
            old = s.pm
            on = s.comm
            kind = s.kind
            if op[0] == 'reshape' and op[1] == 'N':
                kind = None
                made = lambda: old.reshape(Nmesh=[n + 1 for n in old.Nmesh])
            elif op[0] == 'reshape':
                made = lambda: old.reshape(**(dict(BoxSize=4.5) if op[1] == 'box' else {}))
            elif op[1] == 'dup':
                kind = None
                made = lambda: old.respawn(comm.Dup())
            else:
                made = lambda: old.respawn(old.comm, np=old.np)
            if kind == 'g':
                kind = None     # with which method the plans of the new mesh are made is open
            share = s.template if kind is not None and s.holders == set(range(size)) else None
        elif op[0] == 'field' and live:
            addfield(live[-1], op[1])
        elif op[0] == 'move' and live:
            move(live[-1].pm, op[1], comm)
        elif op == ('drop', 'held'):
            for s in held:
                s.pm, s.fields, s.memory, s.holders = None, [], 0, set()
            held = []
        elif op == ('drop', 'fields'):
            for s in slots + held:
                s.fields, s.memory = [], 0
            held = [s for s in held if s.pm is not None]
        elif op[0] == 'drop' and live:
            s = slots.pop(0)
            held.append(s)
            go = {'all': set(range(size)), 'first': {0}, 'rest': set(range(1, size)), 'mesh': set()}[op[1]]
            s.holders = s.holders - go
            if rank in go:
                s.pm, s.fields, s.memory = None, [], 0
            if op[1] == 'mesh':
                s.pm = None
                if not s.fields:
                    s.holders = set()
        s = None
        if made is not None:
            s = Slot()
            s.pm = made()
            s.kind = kind if kind is not None else ('own', next(ids))
            s.comm = on if op[1] != 'dup' else 'dup'
            s.fields, s.memory = [], 0
            s.holders = set(range(size))
            s.template = share if share is not None else ('t', next(ids))
            slots.append(s)
        s = made = live = old = None
        after, alive, types = count()
        what = 'after %s (step %d): ' % (':'.join(op), step)
        n = {k: after[k] - before[k] for k in after}
        if not per and n['Plan']:
            per.append(n['Plan'])
        creates = op[0] in ('new', 'reshape', 'respawn')
        fresh = 1 if creates and share is None else 0
        if n['ProcMesh'] > fresh:
            errs.append((op, what + '%d process meshes were made, %d needed' % (n['ProcMesh'], fresh)))
        if n['Plan'] > fresh * per[0]:
            errs.append((op, what + '%d plans were made, %d needed' % (n['Plan'], fresh * per[0])))
        mine = [s for s in slots + held if s.pm is not None or s.fields]
        t = len({s.template for s in mine})
        if alive['ProcMesh'] > t:
            errs.append((op, what + '%d process meshes are alive, meshes and fields of %d are held' % (alive['ProcMesh'], t)))
        if alive['Plan'] > t * per[0]:
            errs.append((op, what + '%d plans are alive, %d are held' % (alive['Plan'], t * per[0])))
        m = sum(s.memory for s in mine)
        if alive['memory'] > m:
            errs.append((op, what + '%d memories of fields are alive, %d are held' % (alive['memory'], m)))
        if types:
            errs.append((op, what + '%d MPI types were not freed' % types))
        s = mine = None
    return errs, alive, after


def move(pm, how, comm):
    x = numpy.arange(7.)[:, None] * numpy.array([.3] * pm.ndim) * (1 + comm.rank)
    layout = pm.decompose(x, smoothing=.6)
    v = layout.exchange(numpy.arange(7.), numpy.zeros((7, 2), 'f4'))
    if how == 'paint':
        if pm.dtype.kind != 'c':
            f = pm.paint(x, mass=numpy.arange(7.), layout=layout)
            f.readout(x, layout=layout)
        layout.exchange(list(range(7)))
        pm.decompose(x[:0])
    elif how == 'error':
        for bad in (numpy.zeros(6), numpy.zeros((8, 2))):
            try:
                layout.exchange(bad)
            except Exception:
                pass
        for bad in (numpy.zeros(len(v[0]) + 1), numpy.zeros(0)[:, None][:, :0] if len(v[0]) == 0 else numpy.zeros(0)):
            try:
                layout.gather(bad, mode='sum')
            except Exception:
                pass
    else:
        layout.gather(v[0], mode=how)
        layout.gather(v[1], mode=how)


def run(case, R):
    size = case['size']
    for h in case['hs']:
        h = tuple(tuple(o) for o in h)
        key = 'c40/%d/%s' % (size, ','.join('%s:%s' % o for o in h))
        gc.collect()
        gc.freeze()
        tracked = vpfft.track()
        vmpi.Datatype.made = []
        try:
            vals = lib.run_world(R, size, program, (h, tracked), key=key, schedules='one')
        finally:
            vpfft._tracked = None
            vmpi.Datatype.made = None
            gc.unfreeze()
        R.trace()
        if vals is None:
            continue
        for r, v in enumerate(vals):
            if v[0]:
                R.violation(key, 'rank %d %s' % (r, v[0][0][1]))
        R.state(size, h)
        R.nstates(len(h))
        R.step(len(h))
        R.outcome(size, str([v[1:] for v in vals]))
