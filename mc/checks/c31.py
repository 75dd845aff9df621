"""C31: the uniform grid holds one particle per cell with unique ids."""
import itertools

import numpy

from mc import env, lib, mesh as M

ID = 'C31'
RULE = 'states are (mesh, process mesh, type of the mesh, requested type, shift and its form, box); every particle and id is compared'
ASSUMPTIONS = ['positions are compared to a few units of rounding of the requested type']


def cases(tier):
    out = []
    shapes = [(1,), (4,), (3,), (2, 3), (4, 1), (3, 5), (2, 3, 4), (4, 3, 2), (1, 2, 3), (3, 3, 3), (2, 1, 3, 2)]
    if tier != 'quick':
        shapes = [(n,) for n in range(1, 9)] + list(itertools.product(range(1, 7), repeat=2)) + \
            list(itertools.product(range(1, 6), repeat=3)) + list(itertools.product((1, 2, 3), repeat=4))
    for mesh in shapes:
        for np in M.procmeshes(len(mesh), 4 if tier == 'quick' else 6, full=True):
            out.append(dict(mesh=mesh, np=np))
    for mesh in [(40000,), (70000,), (40000, 1), (1, 40000), (2, 33000, 1)]:
        for np in M.procmeshes(len(mesh), 1 if tier == 'quick' else 2):
            out.append(dict(mesh=mesh, np=np))
    out.append(dict(kind='huge'))
    return out


HUGE = [(100, 90), (90, 100, 80), (2 ** 16, 2 ** 16), (2 ** 15, 2 ** 16 + 2), (2, 2 ** 31 - 1), (2 ** 11, 2 ** 11, 2 ** 11), (2 ** 20, 3, 2 ** 20),
        (2 ** 21, 2 ** 21, 2 ** 20)]


class Part(object):
    """what a rank of a very large mesh that has few cells knows of it"""
    def __init__(self, start, shape):
        self.ndim = len(start)
        self.local_i_start = numpy.array(start, 'intp')
        self.local_i_shape = numpy.array(shape, 'intp')


def huge(R):
    """parts of meshes of more cells than fit in 32 bits. Small meshes come first: if these are not understood in this way nothing is said."""
    import copy

    def program(comm):
        out = []
        for mesh in HUGE:
            nd = len(mesh)
            pm = copy.copy(M.make(comm, (4,) * nd, None, 'f8'))
            pm.Nmesh, pm.BoxSize = numpy.array(mesh, 'i8'), numpy.array(mesh, 'f8')
            for at in itertools.product((0, 1), repeat=nd):
                shape = [min(2, m) for m in mesh]
                start = [(m - s) * a for m, s, a in zip(mesh, shape, at)]
                pm.plans = dict(pm.plans, partitionT=Part(start, shape))
                cells = numpy.stack([i.ravel() for i in numpy.mgrid[tuple(slice(s, s + n) for s, n in zip(start, shape))]], -1)
                want = [int(sum(c * int(numpy.prod(mesh[d + 1:], dtype=object)) for d, c in enumerate(x))) for x in cells.tolist()]
                q, i = pm.generate_uniform_particle_grid(shift=.25, return_id=True)
                good = i.tolist() == want and numpy.array_equal(q, cells + .25)
                if not good and mesh in HUGE[:2]:
                    return None
                if not good:
                    out.append((mesh, start, i.tolist(), want, q.tolist()))
        return out
    try:
        vals = lib.run_world(R, 1, program, (), key='c31/huge')
    except Exception:
        vals = None
    if not vals or vals[0] is None:
        return
    R.nstates(len(HUGE))
    for mesh, start, i, want, q in vals[0][:3]:
        R.violation('c31/huge/%s' % (mesh,), 'cells at %s: ids %s, %s expected, positions %s' % (start, i, want, q))


def shifts(nd):
    for s in (0, 0.5, 0.25, -0.75, 1, 2.5):
        yield s
    yield numpy.float32(0.5)
    yield numpy.array(0.25)
    per = [0.5, -0.25, 0.125, 3]
    yield per[:nd]
    yield tuple(per[::-1][:nd])
    yield numpy.array(per[:nd])
    yield numpy.arange(nd)
    if nd == 1:
        yield [0.25]


def program(comm, mesh, np, boxes):
    nd = len(mesh)
    errs = []
    n = 0
    for pdt, box in itertools.product(('f8', 'f4', 'c16'), boxes):
        pm = M.make(comm, mesh, np, pdt, box=box)
        f = pm.create('real')
        cells = numpy.stack([i.ravel() for i in numpy.mgrid[f.slices]], axis=-1) if f.size else numpy.zeros((0, nd), int)
        cid = numpy.ravel_multi_index(tuple(cells.T), mesh) if len(cells) else numpy.zeros(0, int)
        for dt, s in itertools.product((None, 'f8', 'f4'), ['none given'] + list(shifts(nd))):
            kw = dict(shift=s)
            if isinstance(s, str):
                kw, s = {}, .5
            q, i = pm.generate_uniform_particle_grid(dtype=dt, return_id=True, **kw)
            q2 = pm.generate_uniform_particle_grid(dtype=dt, **kw)
            n += 1
            name = 'pm %s, dtype %s, shift %r' % (pdt, dt, s)
            want = numpy.dtype(dt or {'f4': 'f4'}.get(pdt, 'f8'))
            if q.dtype != want:
                errs.append((name, 'type %s' % q.dtype))
                continue
            if q.shape != cells.shape or i.shape != cid.shape:
                errs.append((name, 'shape %s, %s for %d cells' % (q.shape, i.shape, len(cells))))
                continue
            if not numpy.array_equal(q, q2):
                errs.append((name, 'with and without ids'))
            if not numpy.issubdtype(i.dtype, numpy.integer) or not numpy.array_equal(numpy.sort(i), numpy.sort(cid)):
                errs.append((name, 'ids %s' % i))
                continue
            j = numpy.argsort(i)
            w = ((cells + numpy.broadcast_to(s, nd)) * (numpy.array(box) / mesh))[numpy.argsort(cid)]
            eps = 1e-6 if want == numpy.dtype('f4') else 1e-14
            if not lib.close(q[j], w, eps, eps * max(box)):
                errs.append((name, 'positions: %s' % lib.maxdiff(q[j], w)))
            # the particles are those of the cells of the rank
            if isinstance(s, (int, float)) and s == 0 and pdt != 'c16' and len(q):
                v = numpy.arange(f.size, dtype=pdt).reshape(f.shape)
                f[...] = v
                if not numpy.array_equal(f.readout(q, resampler='nnb')[j], v.ravel()[numpy.argsort(cid)]):
                    errs.append((name, 'not at the cells'))
    return errs, n, cid.tolist()


def run(case, R):
    if case.get('kind') == 'huge':
        return huge(R)
    mesh, np = tuple(case['mesh']), case['np']
    nd = len(mesh)
    size = int(numpy.prod(np))
    key = 'c31/%s/np%s' % ('x'.join(map(str, mesh)), np)
    boxes = [M.BOX[:nd], [float(m) for m in mesh], [0.001, 1e4, 0.7, 1.0][:nd]]
    vals = lib.run_world(R, size, program, (mesh, np, boxes), key=key)
    if vals is None:
        return
    for r, (errs, n, ids) in enumerate(vals):
        for name, e in errs[:3]:
            R.violation(key + '/' + name, 'rank %d: %s' % (r, e))
    R.check(sorted(i for v in vals for i in v[2]) == list(range(int(numpy.prod(mesh)))), key + '/cells', 'the cells of the ranks do not tile the mesh')
    R.nstates(vals[0][1])
    R.outcome(key)
