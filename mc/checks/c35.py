"""C35: the standalone painters agree with the defined windows."""
import itertools

import numpy

from mc import env, lib

ID = 'C35'
RULE = ('states are (implementation, mesh shape and memory layout and type, period, mode, transform, weights, position): every position of a '
        'lattice over more than the mesh, one at a time and all at once')
ASSUMPTIONS = ['whether the mesh is changed by a painting that raises is not looked at; the triangular painter may refuse meshes that are not C contiguous']

IMPL = ['cic', 'cic_old', 'tsc']


def cases(tier):
    out = []
    shapes = [(1,), (4,), (1, 4), (3, 5), (3, 2, 4)] if tier == 'quick' else [(1,), (2,), (4,), (7,), (3, 5), (1, 4), (6, 2), (3, 2, 4), (2, 2, 2), (1, 3, 5), (2, 3, 2, 2)]
    for impl, mesh, layout, dt in itertools.product(IMPL, shapes, ('C', 'F', 'strided', 'sub'), ('f8', 'f4')):
        if dt == 'f4' and layout in ('sub', 'F') and tier == 'quick':
            continue
        if impl == 'tsc' and layout not in ('C',) and not (dt == 'f8' and layout == 'F'):
            continue
        out.append(dict(impl=impl, mesh=mesh, layout=layout, dt=dt, fine=tier != 'quick'))
    # as many particles as fill the pieces they are worked on in
    for impl, mesh in itertools.product(IMPL, [(4,), (3, 5)]):
        for n in [2 ** 16 - 1, 2 ** 16, 2 ** 16 + 1, 2 ** 17 + 3, 2 ** 20, 2 ** 20 + 1] + ([] if tier == 'quick' else [2 ** 20 - 1, 2 ** 21 + 5, 3 * 2 ** 16, 10 ** 6]):
            out.append(dict(impl=impl, mesh=mesh, layout='C', dt='f8', n=n))
    return out


def canvas(mesh, layout, dt, fill):
    if layout == 'C':
        a = numpy.empty(mesh, dt)
    elif layout == 'F':
        a = numpy.empty(mesh, dt, order='F')
    elif layout == 'strided':
        a = numpy.full([2 * n for n in mesh], 77, dt)[tuple(slice(None, None, 2) for n in mesh)]
    else:
        a = numpy.full([n + 2 for n in mesh], 77, dt)[tuple(slice(1, -1) for n in mesh)]
    a[...] = fill
    return a


def outside(a, layout):
    """what is around the canvas is untouched"""
    if layout in ('C', 'F'):
        return True
    b = a.base.copy()
    s = tuple(slice(None, None, 2) for n in a.shape) if layout == 'strided' else tuple(slice(1, -1) for n in a.shape)
    b[s] = 77
    return bool((b == 77).all())


def w1(x, kind):
    x = numpy.abs(x)
    if kind == 'cic':
        return numpy.where(x < 1, 1 - x, 0)
    return numpy.where(x <= .5, .75 - x ** 2, numpy.where(x < 1.5, .5 * (1.5 - x) ** 2, 0))


def matrix(pos, mesh, period, kind):
    """weights[particle, cells...]"""
    out = numpy.ones((len(pos),) + tuple(mesh))
    for d, n in enumerate(mesh):
        p = period[d]
        m = numpy.zeros((len(pos), n))
        for c in range(n):
            for k in range(-12, 13) if p else (0,):
                m[:, c] += w1(pos[:, d] - (c + k * (p or 0)), kind)
        out *= m.reshape([len(pos)] + [n if e == d else 1 for e in range(len(mesh))])
    return out


def outbound(pos, mesh, period, kind):
    """whether a particle has a neighbour that is not on the mesh"""
    bad = numpy.zeros(len(pos), bool)
    for d, n in enumerate(mesh):
        if kind == 'cic':
            nb = [numpy.floor(pos[:, d]) + r for r in (0, 1)]
        else:
            nb = [numpy.rint(pos[:, d]) + r for r in (-1, 0, 1)]
        for t in nb:
            if period[d]:
                t = t % period[d]
            bad |= (t < 0) | (t >= n)
    return bad


def lattice(mesh, fine):
    nd = len(mesh)
    step = {1: .125, 2: .25, 3: .5, 4: .75}[nd] if fine else {1: .125, 2: .5, 3: .75}[nd]
    ax = [numpy.arange(-2, n + 2.01, step) + (.0625 * d) for d, n in enumerate(mesh)]
    g = numpy.stack(numpy.meshgrid(*ax, indexing='ij'), -1).reshape(-1, nd)
    sp = []
    for d, n in enumerate(mesh):
        for v in (0, n - 1, n, -1, n - .5, .5, numpy.nextafter(0, -1), numpy.nextafter(n, 0), 3 * n + .25, -2 * n + .75):
            x = [.25 + .5 * (m > 1) for m in mesh]
            x[d] = v
            sp.append(x)
    return numpy.concatenate([g, sp])


def long(case, R):
    mesh, impl, n = tuple(case['mesh']), case['impl'], case['n']
    nd = len(mesh)
    kind = 'tsc' if impl == 'tsc' else 'cic'
    mod = env.mod(kind, 0)
    paint, readout = (mod.paint_old, mod.readout_old) if impl == 'cic_old' else (mod.paint, mod.readout)
    few = lattice(mesh, False)[:97]
    k = numpy.arange(n) % len(few)
    pos = few[k]
    mass = numpy.arange(n) % 101 / 2.
    g = numpy.arange(int(numpy.prod(mesh))).reshape(mesh) * 37 % 23 / 4. - 2
    for period, mode in ((None, 'ignore'), (list(mesh), 'raise')):
        W = matrix(few, mesh, [0] * nd if period is None else period, kind)
        key = 'c35/%s/%s/n%d/%s' % (impl, 'x'.join(map(str, mesh)), n, mode)
        for wname, w in (('scalar', 1.5), ('array', mass)):
            a = numpy.zeros(mesh)
            paint(pos, a, mode=mode, period=period, weights=w)
            want = numpy.tensordot(numpy.bincount(k, mass if wname == 'array' else numpy.full(n, w), minlength=len(few)), W, axes=(0, 0))
            R.check(lib.close(a, want, 0, 1e-9 * (1 + abs(want).max())), key + '/paint/' + wname, lib.maxdiff(a, want))
        want = (W.reshape(len(few), -1) * g.ravel()).sum(axis=-1)[k]
        v = readout(g.copy(), pos, mode=mode, period=period)
        R.check(len(v) == n and lib.close(v, want, 0, 1e-12), key + '/readout', lib.maxdiff(v, want) if len(v) == n else 'length %d' % len(v))
        # particles outside are reported wherever they are
        if period is None:
            far = numpy.full((n, nd), 1.25)
            far[-1] = 50.
            for what, f in (('paint', lambda: paint(far, numpy.zeros(mesh), mode='raise')), ('readout', lambda: readout(g.copy(), far, mode='raise'))):
                try:
                    f()
                    R.violation(key + '/raise', '%s: a particle outside, the last one of %d, is not reported' % (what, n))
                except ValueError:
                    pass
        R.nstates(n)
        R.step(4)
        R.trace()
        R.outcome(key)


def run(case, R):
    if 'n' in case:
        return long(case, R)
    mesh, layout, dt, impl = tuple(case['mesh']), case['layout'], case['dt'], case['impl']
    nd = len(mesh)
    kind = 'tsc' if impl == 'tsc' else 'cic'
    mod = env.mod(kind, 0)
    paint, readout = (mod.paint_old, mod.readout_old) if impl == 'cic_old' else (mod.paint, mod.readout)
    base = 'c35/%s/%s/%s/%s' % (impl, 'x'.join(map(str, mesh)), layout, dt)
    tol = 1e-5 if dt == 'f4' else 1e-12
    pos = lattice(mesh, case['fine'])
    # in single precision the sum of many is rounded at every step
    grow = 1 + len(pos) / 1000. if dt == 'f4' else 1
    g = (numpy.arange(int(numpy.prod(mesh))).reshape(mesh) * 37 % 23 / 4.1 - 2).astype(dt)
    mass = numpy.arange(len(pos)) % 7 / 2. - 1
    if impl == 'tsc' and layout != 'C' and nd > 1:
        try:
            a = canvas(mesh, layout, dt, 0)
            paint(pos, a, mode='ignore', period=mesh)
        except ValueError:
            R.nstates(1)
            return
    periods = [None, mesh[0] if len(set(mesh)) == 1 else 6, list(mesh), [n + 2 for n in mesh], numpy.array(mesh)] if nd > 1 else [None, mesh[0], mesh[0] + 2, [mesh[0]]]
    transforms = [None, ('half', lambda x: x * .5 + .25)]
    for period, tr in itertools.product(periods, transforms):
        per = [0] * nd if period is None else list(numpy.broadcast_to(period, nd))
        gp = pos if tr is None else tr[1](pos)
        T = None if tr is None else tr[1]
        W = matrix(gp, mesh, per, kind)
        O = outbound(gp, mesh, per, kind)
        key = base + '/period%s/%s' % (period, tr and tr[0])
        # all at once
        for wname, w in (('scalar', 1.5), ('array', mass), ('default', None)) + ((('none', None),) if impl != 'cic_old' else ()):
            for mode in ('ignore', 'raise'):
                sel = slice(None) if mode == 'ignore' else ~O
                a = canvas(mesh, layout, dt, 2)
                kw = {} if wname == 'default' else dict(weights=w if w is None or numpy.isscalar(w) else w[sel])
                p = pos[sel].copy()
                r = paint(p, a, mode=mode, period=period, transform=T, **kw)
                want = 2 + numpy.tensordot(numpy.ones(len(p)) * (1 if w is None else w if numpy.isscalar(w) else w[sel]), W[sel], axes=(0, 0))
                kk = key + '/%s/%s' % (wname, mode)
                R.check(lib.close(a, want, 0, tol * grow * (10 + abs(want).max())), kk + '/paint', lib.maxdiff(a, want))
                R.check(outside(a, layout), kk + '/memory', 'memory around the mesh was changed')
                R.check((p == pos[sel]).all(), kk + '/pos', 'positions were changed')
                R.check(r is a or (isinstance(r, numpy.ndarray) and r.shape == a.shape and numpy.array_equal(r, a)), kk + '/return', 'does not return the mesh')
        a = canvas(mesh, layout, dt, g)
        for mode in ('ignore', 'raise'):
            sel = slice(None) if mode == 'ignore' else ~O
            want = (W[sel].reshape(-1, g.size) * g.ravel()).sum(axis=-1)
            for out in (None, 'f8', 'f4'):
                o = None if out is None else numpy.full(len(want), 9, out)
                v = readout(a, pos[sel], mode=mode, period=period, transform=T, out=o)
                kk = key + '/readout/%s/%s' % (mode, out)
                R.check(lib.close(v, want, 0, 1e-5 if out == 'f4' or dt == 'f4' else 1e-12), kk, lib.maxdiff(v, want))
                R.check(o is None or numpy.array_equal(o, v), kk + '/out', 'the result is not in out')
            R.check(numpy.array_equal(a, g), key + '/source', 'readout changed the mesh')
        # one at a time
        for i in range(len(pos)):
            p = pos[i:i + 1]
            a = canvas(mesh, layout, dt, 0)
            err = None
            try:
                paint(p, a, mode='raise', period=period, transform=T, weights=2.0)
            except ValueError as e:
                err = e
            if (err is not None) != bool(O[i]):
                R.violation(key + '/raise', 'particle at %s: %r' % (p[0], err))
                break
            if err is None and not lib.close(a, 2 * W[i], 0, tol * 10):
                R.violation(key + '/one', 'particle at %s: %s' % (p[0], lib.maxdiff(a, 2 * W[i])))
                break
            b = canvas(mesh, layout, dt, g)
            err = None
            try:
                v = readout(b, p, mode='raise', period=period, transform=T)
            except ValueError as e:
                err = e
            if (err is not None) != bool(O[i]):
                R.violation(key + '/readout-raise', 'particle at %s: %r' % (p[0], err))
                break
            if err is None and not lib.close(v, [(W[i] * g).sum()], 0, 1e-5 if dt == 'f4' else 1e-12):
                R.violation(key + '/readout-one', 'particle at %s: %s' % (p[0], lib.maxdiff(v, [(W[i] * g).sum()])))
                break
            R.nstates(1)
            R.step(2)
            R.trace()
        # no particles
        a = canvas(mesh, layout, dt, 3)
        paint(numpy.zeros((0, nd)), a, period=period)
        R.check((a == 3).all() and len(readout(a, numpy.zeros((0, nd)), period=period)) == 0, key + '/empty', 'no particles')
        R.outcome(key)
