"""C30: collective transposition permutes axes, box and values."""
import itertools

import numpy

from mc import env, lib, mesh as M

ID = 'C30'
RULE = 'states are (mesh, process mesh, type, permutation and the form it is given in); every cell of the assembled result is compared'
ASSUMPTIONS = ['axes that are not a permutation of 0..n-1 have to raise, unless they are one counted from the end and the result is that of it']


def shapes(tier):
    if tier == 'quick':
        return [(2, 3), (4, 2), (3, 3), (2, 3, 4), (3, 2, 2), (1, 3, 2), (4, 4, 2), (5, 3, 2)]
    return list(itertools.product((1, 2, 3, 4, 5), repeat=2)) + list(itertools.product((1, 2, 3, 4), repeat=3)) + \
        [(5, 3, 2), (2, 3, 5), (6, 2, 3), (2, 3, 2, 4), (3, 2, 4, 2), (1, 2, 2, 3)]


def cases(tier):
    out = [dict(mesh=(n,), np=[], dts=['f8', 'f4']) for n in (1, 3, 4)]
    for mesh in shapes(tier):
        for np in M.procmeshes(len(mesh), 4 if tier == 'quick' else 6):
            if len(np) > 2:
                continue
            if len(mesh) == 4 and len(np) < 2:
                continue
            out.append(dict(mesh=mesh, np=np, dts=['f8', 'f4'] if tier != 'quick' or np in ([2, 1], [1, 3], [2]) else ['f8']))
    return out


def forms(p):
    yield 'list', list(p)
    yield 'tuple', tuple(p)
    yield 'array', numpy.array(p)
    yield 'i4', numpy.array(p, 'i4')
    yield 'npints', [numpy.int64(i) for i in p]


def invalid(nd):
    """everything from a small alphabet that is not a permutation"""
    for n in range(max(nd - 1, 0), nd + 2):
        for a in itertools.product(range(-nd - 1, nd + 1), repeat=n):
            if sorted(a) != list(range(nd)):
                yield a


def norm(a, nd):
    b = [i + nd if i < 0 else i for i in a]
    return tuple(b) if sorted(b) == list(range(nd)) else None


def program(comm, mesh, np, dt, box):
    nd = len(mesh)
    pm = M.make(comm, mesh, np, dt, box=box)
    g = M.generic(mesh, 5).astype(dt)
    f = pm.create('real')
    f[...] = g[f.slices]
    errs = []
    n = 0

    def one(name, a, p):
        r = f.ctranspose(a)
        w = g.transpose(p)
        if tuple(r.pm.Nmesh) != w.shape or tuple(r.Nmesh) != w.shape:
            return name, 'Nmesh %s' % r.Nmesh
        if not numpy.array_equal(r.BoxSize, numpy.array(box)[list(p)]):
            return name, 'BoxSize %s' % r.BoxSize
        if r.value.dtype != f.value.dtype or r.pm.comm.size != comm.size:
            return name, 'type or communicator'
        if r.shape != w[r.slices].shape or not numpy.array_equal(r.value, w[r.slices]):
            return name, 'values: %s' % lib.maxdiff(r.value, w[r.slices])
        if not numpy.array_equal(f.value, g[f.slices]):
            return name, 'the source was changed'
        if sum(comm.allgather(int(r.size))) != g.size:
            return name, 'the parts do not cover the mesh'
        inv = numpy.argsort(p)
        b = r.ctranspose(list(inv))
        if tuple(b.Nmesh) != tuple(mesh) or not numpy.array_equal(b.BoxSize, box) or b.shape != f.shape or \
                not numpy.array_equal(b.value, f.value):
            return name, 'inverse permutation'
        return None
    for p in itertools.permutations(range(nd)):
        for name, a in forms(p):
            e = one('%s%s' % (name, p), a, p)
            if e:
                errs.append(e)
            n += 1
    for a in invalid(nd):
        if nd == 4 and len(a) == 4 and not (len(set(a)) >= 3 and max(a) <= 3 and min(a) >= -1):
            continue
        try:
            r = f.ctranspose(list(a))
        except Exception:
            r = None
        n += 1
        if r is not None:
            p = norm(a, nd) if len(a) == nd else None
            if p is None or tuple(r.Nmesh) != g.transpose(p).shape or not numpy.array_equal(r.value, g.transpose(p)[r.slices]):
                errs.append(('invalid%s' % (a,), 'accepted axes that are no permutation'))
    return errs, n


def run(case, R):
    mesh, np = tuple(case['mesh']), case['np']
    size = int(numpy.prod(np))
    for dt in case['dts']:
        for box in (M.BOX[:len(mesh)], [1.0, 0.7, 1000.1, 3.3][:len(mesh)]):
            key = 'c30/%s/np%s/%s/%s' % ('x'.join(map(str, mesh)), np, dt, box)
            vals = lib.run_world(R, size, program, (mesh, np, dt, box), key=key, schedules='one')
            if vals is None:
                continue
            for r, (errs, n) in enumerate(vals):
                for name, e in errs[:2]:
                    R.violation(key + '/' + name, 'rank %d: %s' % (r, e))
            R.nstates(vals[0][1])
            R.outcome(key)
