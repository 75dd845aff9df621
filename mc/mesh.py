"""Shared by the checks of the mesh engine: configurations, assembling of distributed fields."""
import itertools

import numpy

from . import env

BOX = [3.0, 2.0, 5.0, 1.5]


def factorisations(n, k):
    if k == 0:
        return [[]] if n == 1 else []
    return [[a] + r for a in range(1, n + 1) if n % a == 0 for r in factorisations(n // a, k - 1)]


def procmeshes(nd, maxsize, padded=True, full=False):
    """all process meshes for a mesh of nd dimensions with up to maxsize ranks"""
    out = []
    for size in range(1, maxsize + 1):
        for k in range(0, nd + (1 if full else 0)):
            if k == 0 and nd > 1:
                continue
            if nd == 1 and size > 1:
                continue
            out += factorisations(size, k)
    return out


def make(comm, mesh, np=None, dtype='f8', box=None, **kw):
    P = env.mod('pm', comm.rank)
    return P.ParticleMesh(Nmesh=list(mesh), BoxSize=BOX[:len(mesh)] if box is None else box, comm=comm, np=np, dtype=dtype, **kw)


def part(f):
    """(slices, values) of a field, to be returned by a rank"""
    return tuple((int(s.start), int(s.stop)) for s in f.slices), numpy.array(f.value)


def assemble(parts):
    """the global array from what part() gave on each rank, or a string that says what is wrong"""
    n = [max(p[0][d][1] for p in parts) for d in range(len(parts[0][0]))]
    g = numpy.full(n, numpy.nan, parts[0][1].dtype)
    seen = numpy.zeros(n, int)
    for sl, v in parts:
        s = tuple(slice(a, b) for a, b in sl)
        if g[s].shape != v.shape:
            return 'slices %s and shape %s' % (sl, v.shape)
        g[s] = v
        seen[s] += 1
    if not (seen == 1).all():
        return 'the parts do not tile the mesh'
    return g


def generic(mesh, k=0, cplx=False):
    """a field without symmetries"""
    n = int(numpy.prod(mesh))
    i = numpy.arange(n)
    f = ((i * (37 + 2 * k) + k * 11) % 101) / 16. - 3
    if cplx:
        f = f + 1j * (((i * (53 + 4 * k) + 7) % 97) / 16. - 3)
    return f.reshape(mesh)


def spectrum(f, cplx):
    """forward transform in the normalisation of pm"""
    return (numpy.fft.fftn(f) if cplx else numpy.fft.rfftn(f)) / f.size


def inverse(F, mesh, cplx):
    n = int(numpy.prod(mesh))
    return numpy.fft.ifftn(F) * n if cplx else numpy.fft.irfftn(F, s=mesh, axes=range(len(mesh))) * n


def tol(dt):
    return 3e-5 if numpy.dtype(dt) in (numpy.dtype('f4'), numpy.dtype('c8')) else 1e-12
