"""C10: painting is local: tiles of a mesh, guarded memory, accumulation."""
import itertools

import numpy

from mc import lib, win
from .c08 import field

ID = 'C10'
RULE = ('states are (window, dimension, canvas type, tile, differentiation, position): a global periodic mesh is cut into '
        'all tilings of up to 3 blocks per axis, each tile is a strided view with guard cells on every side; every tile '
        'must hold its part of the global mesh and the guards must be untouched, for painting and for readout')
ASSUMPTIONS = ['out of bounds accesses are seen within two cells of guard on every side']


def cases(tier):
    out = []
    for w in win.ALL:
        for nd in (1, 2, 3):
            for dt in ('f8', 'f4'):
                for dd in ([None, 0] if nd < 3 or tier == 'quick' else [None, 0, 1, 2]):
                    out.append(dict(kind='tiles', w=w, nd=nd, dt=dt, dd=dd, tier=tier))
                    if nd != 2 or dd is None or tier != 'quick':
                        out.append(dict(kind='open', w=w, nd=nd, dt=dt, dd=dd, tier=tier))
                    else:
                        out.append(dict(kind='open', w=w, nd=nd, dt=dt, dd=1, tier=tier))
    return out


MESH = {1: [6], 2: [4, 5], 3: [3, 4, 3]}


def cuts(n, tier):
    yield [0, n]
    for a in range(0, n + 1, 1 if tier != 'quick' else 2):
        yield [0, a, n]
    yield [0, 1, 1, n]
    yield [0, 1, n - 1, n]


def guarded(shape, dt, how):
    """(view, whole, mask of the guard)"""
    big = numpy.full([2 * s + 5 for s in shape], -99, dt)
    mask = numpy.ones(big.shape, '?')
    if how == 0:
        sl = tuple(slice(2, 2 + s) for s in shape)
    elif how == 1:
        sl = tuple(slice(2, 2 + 2 * s, 2) for s in shape)
    else:
        sl = tuple(slice(2 + s - 1, 1, -1) for s in shape)
    mask[sl] = False
    v = big[sl]
    v[...] = 0
    return v, big, mask


def openmesh(case, R):
    """ meshes that do not repeat, or with a period on some of the axes only: what is beyond the edges is dropped. The reference is a
    part of a larger mesh that is so wide that nothing wraps. """
    w, nd, dt, dd, tier = case['w'], case['nd'], case['dt'], case['dd'], case['tier']
    W = win.window(w)
    if nd == 3 and W.support > 4:
        W = W.resize(4)
    if nd == 2 and W.support > 8:
        W = W.resize(7)
    pad = int(W.support) + 3
    tol = 3e-5 if dt == 'f4' else 1e-11
    mesh = MESH[nd]
    # from well below the mesh to well above, within the larger mesh for the reference
    ax = [numpy.arange(-3.25, n + 3.5, {1: .25, 2: .75, 3: 1.25}[nd]) + (1 / 64. if dd is not None else 0) for n in mesh]
    pos = numpy.stack(numpy.meshgrid(*ax, indexing='ij'), -1).reshape(-1, nd)
    edge = numpy.array(list(itertools.product([0., 1e-9, -1e-9, -.5, -.75, -1.], repeat=nd)))
    pos = numpy.concatenate([pos, edge, numpy.array(mesh) + edge])
    far = numpy.concatenate([numpy.full((1, nd), 1e3), numpy.full((1, nd), -1e3 + .25)]
                            + [numpy.where(numpy.arange(nd) == d, s * 300.25, 1.) [None] for d in range(nd) for s in (1, -1)])
    scale = numpy.array([1.0, 2.0, .5][:nd])
    m = 1. + numpy.arange(len(pos)) % 4
    f = field(mesh, dt)
    key = 'c10/open/%s/%dd/%s/diff%s' % (w, nd, dt, dd)
    wide = 3 + pad
    for per in itertools.product((False, True), repeat=nd):
        if all(per) or (tier == 'quick' and nd == 3 and sum(per) == 2):
            continue
        period = [n if p else 0 for n, p in zip(mesh, per)]
        big = [n if p else n + 2 * wide for n, p in zip(mesh, per)]
        off = numpy.array([0 if p else wide for p in per])
        inner = tuple(slice(o, o + n) for o, n in zip(off, mesh))
        B = win.affine(nd, period=big, scale=scale.tolist(), translate=off.astype('f8'))
        q = pos / scale
        qq = numpy.concatenate([q[:5], far / scale, q[5:]])[:] if not any(per) else q
        mm = numpy.concatenate([m[:5], numpy.full(len(far), 50.), m[5:]]) if not any(per) else m
        ref = numpy.zeros(big, dt)
        W.paint(ref, q, mass=m, diffdir=dd, transform=B)
        g = numpy.zeros(big, dt)
        g[inner] = f
        vref = W.readout(g, q, diffdir=dd, transform=B)
        S = max(1, abs(ref).max())
        kept = numpy.r_[0:5, 5 + len(far):len(qq)] if not any(per) else slice(None)
        # a tile, whose lower corner may be anywhere
        for lo, hi in (([0] * nd, mesh), ([1] * nd, mesh), ([0] * nd, [n - 1 for n in mesh]), ([1] * nd, [2] * nd)):
            T = win.affine(nd, period=period, scale=scale.tolist(), translate=-numpy.array(lo, 'f8'))
            shape = [b - a for a, b in zip(lo, hi)]
            sl = tuple(slice(a, b) for a, b in zip(lo, hi))
            for how in range(3):
                tile, whole, guard = guarded(shape, dt, how)
                q0, m0 = qq.copy(), mm.copy()
                W.paint(tile, qq, mass=mm, diffdir=dd, transform=T)
                R.step()
                name = key + '/period%s/tile%s' % (period, sl)
                R.check((whole[guard] == -99).all(), name + '/guard', 'painting wrote outside of the mesh')
                R.check(numpy.array_equal(q0, qq) and numpy.array_equal(m0, mm), name + '/input', 'the positions or masses were changed')
                want = ref[inner][sl]
                if not lib.close(tile, want, 0, tol * S):
                    R.violation(name + '/mesh', 'painting differs from a larger mesh: %s' % lib.maxdiff(tile, want))
                tile[...] = f[sl]
                keep = whole.copy()
                v = W.readout(tile, qq, diffdir=dd, transform=T)
                R.check((whole == keep).all(), name + '/readonly', 'readout changed the canvas')
                if lo == [0] * nd and hi == mesh:
                    if not lib.close(v[kept], vref, 0, tol * 100 * max(1, abs(vref).max())):
                        R.violation(name + '/readout', 'readout differs from a larger mesh: %s' % lib.maxdiff(v[kept], vref))
                if not any(per):
                    R.check((v[5:5 + len(far)] == 0).all(), name + '/far', 'something is read far from the mesh')
                R.step()
            R.nstates(len(qq))
        R.trace()
        R.outcome(key, str(per), lib.digest(numpy.round(vref, 3)))


def run(case, R):
    if case['kind'] == 'open':
        return openmesh(case, R)
    w, nd, dt, dd, tier = case['w'], case['nd'], case['dt'], case['dd'], case['tier']
    W = win.window(w)
    if nd == 3 and W.support > 5:
        W = W.resize(4)
    if nd == 2 and W.support > 9:
        W = W.resize(7)
    mesh = MESH[nd]
    tol = 3e-5 if dt == 'f4' else 1e-11
    ax = [numpy.arange(-.5 * n, 1.5 * n, {1: .25, 2: .75, 3: 1.25}[nd]) + (1 / 64. if dd is not None else 0) for n in mesh]
    pos = numpy.stack(numpy.meshgrid(*ax, indexing='ij'), -1).reshape(-1, nd)
    # ends, far away
    pos = numpy.concatenate([pos, numpy.array(list(itertools.product([0., 1e-9, -1e-9, .5, 7.], repeat=nd))),
                             numpy.full((1, nd), 40.25), numpy.full((1, nd), -40.25)])
    key = 'c10/%s/%dd/%s/diff%s' % (w, nd, dt, dd)
    scale = [1.0, 2.0, .5][:nd]
    q = pos / numpy.array(scale)
    f = field(mesh, dt)
    G = win.affine(nd, period=mesh, scale=scale)
    m = 1. + numpy.arange(len(q)) % 4
    glob = numpy.zeros(mesh, dt)
    W.paint(glob, q, mass=m, diffdir=dd, transform=G)
    vglob = W.readout(f, q, diffdir=dd, transform=G)
    S = max(1, abs(glob).max())
    axes = [list(cuts(n, tier)) for n in mesh]
    if nd == 1:
        tilings = [(c,) for c in axes[0]]
    else:
        tilings = [tuple(axes[d][(i + d) % len(axes[d])] for d in range(nd)) for i in range(max(len(a) for a in axes))]
    for ti, tiling in enumerate(tilings):
        vsum = numpy.zeros(len(q))
        for idx in itertools.product(*[range(len(c) - 1) for c in tiling]):
            lo = [c[i] for c, i in zip(tiling, idx)]
            hi = [c[i + 1] for c, i in zip(tiling, idx)]
            shape = [b - a for a, b in zip(lo, hi)]
            sl = tuple(slice(a, b) for a, b in zip(lo, hi))
            T = G.shift(-numpy.array(lo))
            for how in range(3):
                tile, big, guard = guarded(shape, dt, how)
                W.paint(tile, q, mass=m, diffdir=dd, transform=T)
                R.step()
                R.check((big[guard] == -99).all(), key + '/guard', 'painting a tile %s wrote outside of it' % (sl,))
                if not lib.close(tile, glob[sl], 0, tol * S):
                    R.violation(key + '/tile', 'the tile %s of %s differs from the mesh: %s' % (sl, tiling, lib.maxdiff(tile, glob[sl])))
                # accumulate
                before = tile.copy()
                W.paint(tile, q[::3], mass=m[::3], diffdir=dd, transform=T)
                one = numpy.zeros(shape, dt)
                W.paint(one, q[::3], mass=m[::3], diffdir=dd, transform=T)
                R.check(lib.close(tile, before + one, 0, tol * S), key + '/accumulate', 'painting does not add to the canvas')
                tile[...] = f[sl]
                keep = big.copy()
                v = W.readout(tile, q, diffdir=dd, transform=T)
                R.check((big == keep).all(), key + '/readonly', 'readout changed the canvas')
                R.step(3)
                if how == 0:
                    vsum += v
                    v0 = v
                else:
                    R.check(lib.close(v, v0, 0, tol * S), key + '/strides', 'readout depends on the strides of the canvas')
            R.nstates(len(q))
        R.trace()
        R.check(lib.close(vsum, vglob, 0, tol * 100 * max(1, abs(vglob).max())), key + '/readout', 'the tiles of %s do not add up: %s' % (tiling, lib.maxdiff(vsum, vglob)))
        R.outcome(key, ti, lib.digest(numpy.round(vsum, 3)))
