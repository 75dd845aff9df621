"""C14: every independent mode of white noise has its own random number, and it changes with the seed."""
import itertools

import numpy

from mc import env, lib
from .c16 import whole

ID = 'C14'
RULE = ('states are (mesh, seed, mode): all modes of all meshes in the bound; no two modes other than conjugate pairs share '
        'the modulus or the phase of their number, within a mesh and between seeds')
ASSUMPTIONS = ['distinct seeds of lines do not collide by chance for the enumerated seeds (31 bits)']


# seeds that agree in some of their bits
SEEDS = [1, 2, 3, 5463, 65537, (1 << 24) + 1, (1 << 30) + 2, (1 << 31) - 1] + list(range(4, 12)) + [257, 123456789]


def shapes(tier):
    top = 5 if tier == 'quick' else 8
    out = [m for m in itertools.product(range(1, top + 1), repeat=3)]
    out += [(8, 8, 2), (6, 8, 2), (8, 6, 4), (7, 9, 3), (12, 4, 2), (3, 11, 2), (6, 6, 12)]
    out += list(itertools.product(range(1, 7), repeat=2)) + [(n,) for n in range(1, 12)]
    out += [(128, 130, 2), (260, 5, 3), (4, 300, 2), (2, 3, 300), (33, 34, 35)]
    return out


def cases(tier):
    return [dict(mesh=m, seeds=SEEDS[:8] if tier == 'quick' else SEEDS) for m in shapes(tier)]


def independent(mesh):
    """one of each conjugate pair: (modes, mask of those that are self conjugate), as indices of the full mesh"""
    g = numpy.stack(numpy.meshgrid(*[numpy.arange(n) for n in mesh], indexing='ij'), -1).reshape(-1, len(mesh))
    c = (-g) % numpy.array(mesh)
    i, j = numpy.ravel_multi_index(g.T, mesh), numpy.ravel_multi_index(c.T, mesh)
    return g[i <= j], (i == j)[i <= j]


def run(case, R):
    mesh = tuple(case['mesh'])
    modes, selfc = independent(mesh)
    ind = tuple(modes.T)
    zero = (modes == 0).all(axis=1)
    key = 'c14/' + 'x'.join(map(str, mesh))
    mods, phases = [], []
    for seed in case['seeds']:
        v = whole(mesh, True, seed, False)[ind]
        mods.append(abs(v)[~zero])
        phases.append(numpy.where(selfc, 0, numpy.angle(v))[~selfc & ~zero])
        R.step()
        R.nstates(len(v))
        R.check(numpy.isfinite(v).all(), key + '/finite', 'not finite')
        R.check((abs(v[~zero]) > 0).all(), key + '/zero', 'a mode other than the mean vanishes')
        u = whole(mesh, True, seed, True)[ind]
        R.step()
        R.check(lib.close(numpy.exp(1j * phases[-1]), u[~selfc & ~zero], 0, 1e-9), key + '/unitary', 'the phases of unitary noise are others')
    for what, vals in (('modulus', mods), ('phase', phases)):
        mm = modes[~zero] if what == 'modulus' else modes[~selfc & ~zero]
        for seed, x in zip(case['seeds'], vals):
            o = numpy.argsort(x)
            d = numpy.diff(x[o])
            if len(d) and d.min() <= 1e-12:
                k = numpy.argmin(d)
                R.violation(key, 'modes %s and %s of seed %s share the %s %r' % (mm[o[k]].tolist(), mm[o[k + 1]].tolist(), seed, what, x[o[k]]))
            if what == 'phase' and len(x) > 1:
                y = numpy.abs(x)
                y = numpy.sort(numpy.minimum(y, numpy.pi - y))
                R.check(numpy.diff(y).min() > 1e-13, key + '/reflect', 'two modes of seed %s share their phase up to reflection' % seed)
        # between seeds
        a = numpy.sort(numpy.array(vals), axis=0)
        if a.shape[1]:
            d = numpy.diff(a, axis=0).min(axis=0)
            k = numpy.argmin(d)
            R.check(d[k] > 1e-12, key + '/seeds', 'mode %s has the same %s for two of the seeds %s' % (mm[k].tolist(), what, case['seeds']))
    R.trace()
    R.outcome(key)
