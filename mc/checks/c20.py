"""C20: painting and readout of distributed particles equal the serial operation on the whole periodic mesh."""
import itertools
import warnings

import numpy

from mc import env, lib, mesh as M

ID = 'C20'
RULE = ('states are (mesh shape, process mesh, type, initial distribution over ranks, window, smoothing length, derivative, '
        'position): all process meshes of up to 6 ranks, also with ranks that hold no cells; every position of a lattice over '
        'more than the box; against the serial window on the assembled mesh')
ASSUMPTIONS = ['the serial windows are those of C07 to C11']

WINDOWS = ['nnb', 'cic', 'tsc', 'pcs', 'nearest', 'linear', 'quadratic', 'cubic', 'lanczos2', 'lanczos3', 'acg2', 'db6', 'sym6']
LONG = ['lanczos4', 'lanczos5', 'lanczos6', 'acg3', 'acg4', 'acg5', 'acg6', 'db12', 'db20', 'sym12', 'sym20']
SHAPES = {3: [(4, 6, 3), (5, 3, 4), (2, 7, 2), (1, 4, 5)], 2: [(6, 4), (5, 3), (3, 8)], 1: [(7,)], 4: [(3, 4, 2, 2)]}


def cases(tier):
    out = []
    for nd in (1, 2, 3, 4):
        for m in SHAPES[nd] + ([(8, 9, 4), (3, 3, 9)] if tier != 'quick' and nd == 3 else []):
            for np in M.procmeshes(nd, {1: 1, 2: 6, 3: 6, 4: 4}[nd], full=nd in (2, 3)):
                if tier == 'quick' and nd == 3 and m not in SHAPES[3][:2] and numpy.prod(np) not in (3, 4, 6):
                    continue
                for dt in ('f8', 'f4') if tier != 'quick' else (('f8', 'f4') if numpy.prod(np) in (1, 6) else ('f8',)):
                    out.append(dict(mesh=m, np=np, dt=dt, tier=tier, full=m in (SHAPES[3][0], SHAPES[2][0]) and (tier != 'quick' or numpy.prod(np) in (1, 4))))
    return out


def positions(mesh, fine):
    """lattice in cell units over more than the period, and special positions"""
    nd = len(mesh)
    steps = [.25, .5, .5, 1.][:nd] if fine and nd < 3 else [.5, .75, .75, 1.5][:nd] if nd < 4 else [.75, 1., 1.25, 1.5]
    off = .0625
    ax = [numpy.arange(-1.5, n + 1.5, s) + off for n, s in zip(mesh, steps)]
    if nd >= 3 and not fine:
        ax[2] = ax[2][::2]
    g = numpy.stack(numpy.meshgrid(*ax, indexing='ij'), -1).reshape(-1, nd)
    # on the points, the edges and one ulp from them
    sp = []
    for d, n in enumerate(mesh):
        for c in range(-1, n + 2):
            for v in (c, numpy.nextafter(c, -9), numpy.nextafter(c, 99), c + .5 - 1e-7, c + .5 + 1e-7):
                x = [(n2 / 2. + .3) for n2 in mesh]
                x[d] = v
                sp.append(x)
        for k in (-3 * n, 5 * n, -1e-20, 1000 * n):
            x = [1.3] * nd
            x[d] = k + (.25 if abs(k) > 1 else 0)
            sp.append(x)
    return numpy.concatenate([g, numpy.array(sp, 'f8')]), len(g)


def numeric(pos, nlattice, g):
    """derivatives of windows jump; then only the positions that are not on or next to the points"""
    if g is None:
        return pos
    return numpy.concatenate([pos[:nlattice], pos[:len(pos) - nlattice]])


def specs(tier, nd, full):
    out = []
    for w in WINDOWS + (LONG if tier != 'quick' else []):
        if not full and w in ('nearest', 'linear', 'quadratic', 'cubic', 'acg2', 'db6', 'lanczos2', 'sym6', 'pcs'):
            continue
        out.append((w, None, None, 'window'))
        if w in ('cic', 'lanczos2') or (w in ('tsc', 'cubic') and full) or tier != 'quick':
            for d in range(nd):
                out.append((w, None, d, 'window'))
    for w in ('cic', 'tsc', 'nearest', 'lanczos2')[:4 if full or tier != 'quick' else 2]:
        out.append((w, 1.75, None, 'hsml'))
        out.append((w, 'array', None, 'hsml'))
    out.append(('cic', 'array', 0, 'hsml'))
    for w in ('linear:4', 'cic:5', 'tsc:6', 'lanczos2:3')[:4 if full or tier != 'quick' else 3]:
        out.append((w, None, None, 'window'))
    out.append(('cic:4', None, 0, 'window'))
    out.append(('cic', None, None, None))
    out.append((None, None, None, 'default'))
    out.append((None, None, None, None))
    out.append(('tsc', None, None, 'array'))
    for sm in ('shift', 'rescale'):
        out.append(('cic', None, None, sm))
        out.append(('tsc', None, nd - 1, sm))
    return out


def mapping(affine, sm, nd):
    """another mapping of positions to the mesh than that of the mesh"""
    if sm == 'shift':
        return affine.shift(.5)
    if sm == 'rescale':
        return affine.rescale([2., .5, 1.25, 1.][:nd])


def hs(h, n):
    return numpy.array([.5, 1.25, 2.5])[numpy.arange(n) % 3] if h == 'array' else h


DEFAULT = 'tsc:4'       # the window of the second mesh


def window(w, rank=0):
    W = env.mod('window', rank)
    name, _, size = w.partition(':')
    r = W.FindResampler(name)
    return r.resize(int(size)) if size else r


def support(w):
    return window(w).support


def program(comm, mesh, np, dt, specs, pos, nlattice, how, supports):
    G = M.generic(mesh, 1)
    pms = {}
    for default in (None, DEFAULT):
        pm = M.make(comm, mesh, np, dt, **({} if default is None else dict(resampler=window(default, comm.rank))))
        f = pm.create('real', value=0)
        f[...] = G[f.slices]
        pms[default] = pm, f
    ids = lib.split(len(pos), comm.size, how)[comm.rank]
    cell = numpy.array(M.BOX[:len(mesh)]) / numpy.array(mesh)
    mass = 1. + (ids * 7) % 13
    out = []
    for (w, h, g, sm), s in zip(specs, supports):
        x = numeric(pos, nlattice, g)[ids] * cell
        hh = hs(h, len(pos))
        hh = hh[ids] if isinstance(hh, numpy.ndarray) else hh
        pm, f = pms[DEFAULT if sm == 'default' else None]
        if w is not None and ':' in w:
            w = window(w, comm.rank)
        smoothing = {'window': w, None: None, 'default': None}.get(sm, s)
        kw = {}
        if sm in ('shift', 'rescale'):
            smoothing = s + .5
            kw = dict(transform=mapping(pm.affine, sm, len(mesh)))
        if sm == 'array':
            smoothing = [s + .5 * d for d in range(len(mesh))]
        layout = pm.decompose(x, smoothing=smoothing, **kw)
        p1 = pm.paint(x, mass=mass, hsml=hh, resampler=w, gradient=g, layout=layout, **kw)
        # accumulate into a given field, with a scalar mass
        p2 = pm.create('real', value=2.0)
        r = pm.paint(x, mass=2.0, hsml=hh, resampler=w, gradient=g, layout=layout, hold=True, out=p2, **kw)
        assert r is p2
        first = p2.value.astype('f8')
        if hh is None:
            # the older name of the same
            p3 = pm.create('real', value=2.0)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                p3.paint(x, mass=2.0, resampler=w, gradient=g, layout=layout, hold=True, **kw)
                if not numpy.array_equal(p2.value, p3.value):
                    p2.value[...] = p3.value      # reported as a difference below
                p3.value[...] = 2
                p3.paint(x, resampler=w, gradient=g, layout=layout, hold=True, **kw)
                if not lib.close(2 * (p3.value.astype('f8') - 2), first - 2, 0, 1e-5 * (1 + abs(first).max(initial=0))):
                    p2.value[...] = 2 * p3.value - 2
                p3.paint(x, mass=mass, resampler=w, gradient=g, layout=layout, **kw)
                if not numpy.array_equal(p1.value, p3.value):
                    p1.value[...] = p3.value
        # every particle weighs one unless it is said otherwise
        p4 = pm.create('real', value=2.0)
        pm.paint(x, hsml=hh, resampler=w, gradient=g, layout=layout, hold=True, out=p4, **kw)
        if not lib.close(2 * (p4.value.astype('f8') - 2), first - 2, 0, 1e-5 * (1 + abs(first).max(initial=0))):
            p2.value[...] = 2 * p4.value - 2
        v1 = f.readout(x, hsml=hh, resampler=w, gradient=g, layout=layout, **kw)
        v2 = numpy.full(len(x), 7.)
        f.readout(x, hsml=hh, resampler=w, gradient=g, layout=layout, out=v2, **kw)
        same = None
        if comm.size == 1:
            a = pm.paint(x, mass=mass, hsml=hh, resampler=w, gradient=g, out=pm.create('real', value=3.), **kw)
            b = f.readout(x, hsml=hh, resampler=w, gradient=g, **kw)
            same = (numpy.array(a.value), b)
        out.append((M.part(p1), M.part(p2), v1, v2, bool((f.value == G[f.slices].astype(dt)).all()), same))
    return ids, out


def serial(mesh, w, h, g, pos, dt, sm=None):
    W = env.mod('window')
    r = window('cic' if w is None else w)
    T = W.Affine(len(mesh), scale=1.0 * numpy.array(mesh) / numpy.array(M.BOX[:len(mesh)]), translate=0, period=mesh)
    T = mapping(T, sm, len(mesh)) or T
    x = pos * (numpy.array(M.BOX[:len(mesh)]) / numpy.array(mesh))
    mass = 1. + (numpy.arange(len(pos)) * 7) % 13
    hh = hs(h, len(pos))
    a, b = numpy.zeros(mesh, dt), numpy.full(mesh, 2.0, dt)
    r.paint(a, x, mass=mass, hsml=hh, diffdir=g, transform=T)
    r.paint(b, x, mass=2.0, hsml=hh, diffdir=g, transform=T)
    v = r.readout(M.generic(mesh, 1).astype(dt), x, hsml=hh, diffdir=g, transform=T)
    return a, b, v


_serial = {}


def run(case, R):
    mesh, np, dt, tier = tuple(case['mesh']), case['np'], case['dt'], case['tier']
    key = 'c20/%s/np%s/%s' % ('x'.join(map(str, mesh)), np, dt)
    size = int(numpy.prod(np))
    sp = specs(tier, len(mesh), case['full'])
    pos, nlattice = positions(mesh, case['full'])
    sup = []
    for w, h, g, sm in sp:
        s = support('cic' if w is None else w) * .5
        hh = hs(h, 3)
        sup.append(float(s if hh is None else s * numpy.max(hh)))
    tol = 1e-5 if dt == 'f4' else 1e-11
    for how in ('cyclic', 'block', 'rank%d' % (size - 1), 'skip')[:1 if size == 1 else 4]:
        if tier == 'quick' and size > 1 and how != ('cyclic', 'skip', 'rank%d' % (size - 1))[(mesh[0] + sum(np) + size) % 3]:
            continue
        vals = lib.run_world(R, size, program, (mesh, np, dt, sp, pos, nlattice, how, sup), key=key)
        if vals is None:
            return
        for i, s in enumerate(sp):
            w, h, g, sm = s
            kk = key + '/%s/%s/%s/%s' % s
            if sm == 'default':
                w = DEFAULT
            ks = (mesh, w, h, g, dt, case['full'], sm if sm in ('shift', 'rescale') else None)
            if ks not in _serial:
                _serial[ks] = serial(mesh, w, h, g, numeric(pos, nlattice, g), dt, sm)
            a, b, v = _serial[ks]
            p1, p2 = (M.assemble([x[1][i][j] for x in vals]) for j in (0, 1))
            scale = max(1, abs(a).max(), 7. * len(pos) / numpy.prod(mesh))
            for got, want, what in ((p1, a, 'paint'), (p2, b, 'paint hold')):
                if isinstance(got, str):
                    R.violation(kk, got)
                elif not lib.close(got, want, 0, tol * scale):
                    R.violation(kk + '/' + what, '%s: differs from the serial mesh: %s' % (how, lib.maxdiff(got, want)), got=got, want=want)
            for j, what in ((2, 'readout'), (3, 'readout out')):
                got = numpy.full(len(pos), numpy.nan)
                for x in vals:
                    got[x[0]] = x[1][i][j]
                if not lib.close(got, v, 0, tol * 10 * max(1, abs(v).max())):
                    bad = int(numpy.nanargmax(abs(got - v)))
                    R.violation(kk + '/' + what, '%s: at %s (cells) read %s, serial %s' % (how, numeric(pos, nlattice, g)[bad].tolist(), got[bad], v[bad]))
            for x in vals:
                R.check(x[1][i][4], kk + '/source', 'readout changed the field')
                if x[1][i][5] is not None:
                    R.check(lib.close(x[1][i][5][0], a, 0, tol * scale) and lib.close(x[1][i][5][1], v, 0, tol * 10 * max(1, abs(v).max())),
                            kk + '/nolayout', 'without layout on one rank differs')
            R.nstates(len(pos))
        R.outcome(mesh, dt, lib.digest([numpy.round(x[2], 3) for x in vals[0][1]]))
