"""Reference for domain decompositions: which domains does a particle touch."""
import itertools

import numpy


def axis_touch(edges, periodic, s, x):
    """
    (must, may): booleans (len(x), n): must: [x-s, x+s] meets [e_k, e_k+1);
    may: it meets the closure.  Exact for dyadic numbers.
    """
    e = numpy.asarray(edges, dtype='f8')
    x = numpy.asarray(x, dtype='f8')
    n = len(e) - 1
    must = numpy.zeros((len(x), n), '?')
    may = numpy.zeros((len(x), n), '?')
    if periodic:
        L = e[-1]
        if len(x) and abs(x).max() > 100 * L:
            x = numpy.remainder(x, L)
        K = int(numpy.ceil((abs(x).max() if len(x) else 0) / L + s / L)) + 2
        shifts = numpy.arange(-K, K + 1) * L
    else:
        shifts = [0.0]
    for k in range(n):
        lo, hi = e[k], e[k + 1]
        if lo == hi:
            continue
        for m in shifts:
            must[:, k] |= (x + m + s >= lo) & (x + m - s < hi)
            may[:, k] |= (x + m + s >= lo) & (x + m - s <= hi)
    return must, may


def domains_touched(edges, periodic, smoothing, pos):
    """(must, may) of shape (npos, ndomain)"""
    nd = len(edges)
    sm = numpy.empty(nd)
    sm[:] = smoothing
    musts, mays = [], []
    for j in range(nd):
        a, b = axis_touch(edges[j], periodic, sm[j], pos[:, j])
        musts.append(a)
        mays.append(b)
    shape = [len(e) - 1 for e in edges]
    M = numpy.ones((len(pos),) + tuple(shape), '?')
    Y = numpy.ones((len(pos),) + tuple(shape), '?')
    for j in range(nd):
        sh = [len(pos)] + [shape[j] if d == j else 1 for d in range(nd)]
        M &= musts[j].reshape(sh)
        Y &= mays[j].reshape(sh)
    n = int(numpy.prod(shape))
    return M.reshape(len(pos), n), Y.reshape(len(pos), n)


def ranks_touched(assign, size, dom):
    out = numpy.zeros((dom.shape[0], size), '?')
    for d in range(dom.shape[1]):
        out[:, assign[d]] |= dom[:, d]
    return out


def default_assign(ndom, size):
    """the documented default: domains in order, contiguous and even"""
    if size >= ndom:
        return numpy.arange(ndom)
    a = numpy.empty(ndom, int)
    for i in range(size):
        a[i * ndom // size:(i + 1) * ndom // size] = i
    return a


GRIDS = {
    1: [[[0, 1, 2]], [[0, 1, 2, 4]], [[0, .5, 1, 1.5, 2]], [[0, 2, 4, 4]], [[0, 0, 2, 4]], [[0, 2, 2, 4]], [[0, 3]],
        [[0, 1, 1, 1, 2, 2]]],
    2: [[[0, 1, 2], [0, 2]], [[0, 1, 2], [0, 1, 3]], [[0, 2, 2, 4], [0, 1, 4]], [[0, 1, 2, 3], [0, .5, 2, 2]],
        [[0, 2, 4], [0, 0, 3]]],
    3: [[[0, 1, 2], [0, 1, 2], [0, 2]], [[0, 1, 1, 2], [0, 2], [0, .5, 2]], [[0, 2, 3], [0, 1, 3], [0, 1, 2]]],
}


def _unif(n, h=1.0):
    return [i * h for i in range(n + 1)]


# name: (edges, positions per axis): four dimensions, many domains, edges that are not dyadic, positions many periods away
# boxes in units that are much larger or smaller than they are
SCALES = {'tiny2': 2. ** -40, 'huge2': 2. ** 40}

EXTRA = {
    '4d': ([[0, 1, 2], [0, 2], [0, 1, 3], [0, .5, 2]], [[-.25, .5, 1, 2.25], [.5, 3], [0, 1.25, 2.75], [.25, .5, 1.75]]),
    '4d3': ([[0, 1, 2, 3], [0, 1, 2], [0, 1, 2], [0, 1, 2]], [[0, 1.25, 2.5, -.5], [.25, 1, 2.5], [.5, 1.5, 1.75], [0, 1.75]]),
    'many1': ([_unif(300)], [[i * 12.625 - 400 for i in range(110)] + list(range(120, 136)) + list(range(250, 262)) + [299.5, 299.75, 300]]),
    'many2': ([_unif(20), _unif(30, .5)], [[i * 1.5 - 3 for i in range(18)], [i * .625 - 2 for i in range(32)]]),
    'many3': ([_unif(7), _unif(6), _unif(8)], [[i * 1.25 - 1 for i in range(8)], [i * 1.5 - .5 for i in range(5)], [i * .75 for i in range(12)]]),
    'wide': ([_unif(33000)], [[.5, 127.5, 128.5, 255.5, 256.5, 32766.5, 32767.5 - 33000, -.5, 16000.25, 32500.75][:8] + [1e3 * i + .25 for i in range(32)]]),
    'decimal': ([[0, .1, .3, .7], [0, .2, .9]], [[i * .05 + .0123 for i in range(-14, 29)], [i * .1 + .0321 for i in range(-9, 19)]]),
    'decimal1': ([[0, 1 / 3., 2 / 3., 1]], [[i / 17. + .003 for i in range(-40, 60)]]),
    'far1': ([[0, 1, 2, 4]], [[m * 4 + x for m in (-1000, -63, -5, -4, -3, -2, 2, 3, 4, 5, 17, 64, 4096, 1 << 20) for x in (0, .25, 1, 1.75, 2, 3.5)]]),
    'tiny2': ([[x * SCALES['tiny2'] for x in (0, 1, 3)], [x * SCALES['tiny2'] for x in (0, 1, 1, 2, 4)]],
              [[x * SCALES['tiny2'] for x in (-1, -.25, 0, .5, 1, 2.75, 3, 4)], [x * SCALES['tiny2'] for x in (-.5, 0, .25, 1, 1.5, 2, 3.75, 4)]]),
    'huge2': ([[x * SCALES['huge2'] for x in (0, 1, 3)], [x * SCALES['huge2'] for x in (0, 1, 1, 2, 4)]],
              [[x * SCALES['huge2'] for x in (-1, -.25, 0, .5, 1, 2.75, 3, 4)], [x * SCALES['huge2'] for x in (-.5, 0, .25, 1, 1.5, 2, 3.75, 4)]]),
    'narrow1': ([[0, 2. ** -30, 1, 1 + 2. ** -30, 2, 2, 2 + 2. ** -20, 4]],
                [[0, 2. ** -31, 2. ** -30, .5, 1, 1 + 2. ** -31, 1 + 2. ** -30, 1.5, 2, 2 + 2. ** -21, 2 + 2. ** -20, 3, 4, -1, -.5, 5, 5 + 2. ** -31, 6 + 2. ** -21]]),
    'far2': ([[0, 2, 3], [0, 1, 4]], [[m * 3 + x for m in (-37, -3, 0, 4, 100) for x in (0, .5, 2, 2.5)], [m * 4 + x for m in (-5, 0, 9, 64) for x in (.25, 1, 3)]]),
}


def extra(name):
    edges, ax = EXTRA[name]
    g = numpy.stack(numpy.meshgrid(*[numpy.array(a, 'f8') for a in ax], indexing='ij'), axis=-1).reshape(-1, len(edges))
    return edges, g


def lattice(edges, step, lo=-1.0, hi=2.0, n=None):
    """all points of a lattice that includes all edges, from lo*L to hi*L per axis"""
    ax = []
    for e in edges:
        L = float(e[-1])
        ax.append(numpy.linspace(lo * L, hi * L, n) if n else numpy.arange(lo * L, hi * L + step / 2, step))
    g = numpy.stack(numpy.meshgrid(*ax, indexing='ij'), axis=-1).reshape(-1, len(edges))
    return g
