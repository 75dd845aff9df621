"""C32: line integral convolution does not depend on the decomposition."""
import itertools

import numpy

from mc import env, lib, mesh as M

ID = 'C32'
RULE = ('states are (mesh, box, process mesh, type, vector field, texture, window, kernel, length, step, normalisation); every pixel is '
        'compared with the serial evaluation of the definition on the whole mesh')
ASSUMPTIONS = ['the serial windows are those of C07 to C09; steps are chosen such that no line comes within rounding of a jump of the window']

KERNELS = dict(one=lambda s: 1.0, tri=lambda s: 1.0 - abs(s), odd=lambda s: 0.5 + 0.25 * s, cos=lambda s: numpy.cos(s))
FIELDS = ['generic', 'constant', 'zero', 'half', 'rotation', 'spike', 'big']
TEX = ['generic', 'constant', 'default', 'delta']


def cases(tier):
    out = []
    shapes = [(6, 4), (3, 5), (2, 7), (4, 3, 2)] if tier == 'quick' else [(6, 4), (3, 5), (2, 7), (8, 8), (5, 9), (4, 3, 2), (3, 4, 5), (2, 2, 6)]
    for mesh in shapes:
        for np in M.procmeshes(len(mesh), 4 if tier == 'quick' else 6, full=tier != 'quick'):
            for box in ('unit', 'other'):
                if tier == 'quick' and box == 'unit' and np not in ([1], [2], [4], [2, 2], [1, 3]):
                    continue
                for dt in ['f8'] if tier == 'quick' and np not in ([2], [2, 2]) else ['f8', 'f4']:
                    out.append(dict(mesh=mesh, np=np, box=box, dt=dt, full=tier != 'quick'))
    return out


def params(full, nd):
    """(field, texture, window, kernel, length, ds, normalize)"""
    for f in FIELDS:
        yield f, 'generic', 'cic', 'tri', 2.0, 0.7, True
        yield f, 'generic', 'cic', 'one', 3.0, 1.1, False
    # the size of normalised vectors has no effect
    yield 'tiny', 'generic', 'cic', 'tri', 2.0, 0.7, True
    yield 'huge', 'generic', 'tsc', 'tri', 2.0, 0.7, True
    yield 'tiny', 'generic', 'cic', 'one', 3.0, 1.1, False
    for t in TEX:
        yield 'generic', t, None, 'odd', 2.5, 0.6, True
    for k in KERNELS:
        yield 'generic', 'generic', 'tsc', k, 2.0, 0.55, True
    for w in ('cic', 'tsc', 'pcs', 'lanczos2', 'nnb'):
        for ln, ds in ((0.0, 0.5), (0.3, 0.5), (1.0, 0.3), (6.0, 1.7), (4.0, 3.3)):
            yield 'generic', 'generic', w, 'tri', ln, ds, True
            if full:
                yield 'big', 'generic', w, 'odd', ln, ds, False
                yield 'rotation', 'delta', w, 'odd', ln, ds, False
    if full:
        for f, t, k, n in itertools.product(FIELDS, TEX, KERNELS, (True, False)):
            yield f, t, 'cic', k, 2.2, 0.45, n


def vectors(name, mesh):
    nd = len(mesh)
    g = [M.generic(mesh, 7 + d) / 3. for d in range(nd)]
    idx = numpy.indices(mesh)
    if name == 'generic':
        return g
    if name == 'constant':
        return [numpy.full(mesh, [.6, -.8, .37][d]) for d in range(nd)]
    if name == 'zero':
        return [numpy.zeros(mesh) for d in range(nd)]
    if name == 'half':      # no flow in half of the mesh
        return [numpy.where(idx[0] < mesh[0] // 2, 0, v) for v in g]
    if name == 'rotation':
        return [[idx[1] - mesh[1] / 2. + .3, -(idx[0] - mesh[0] / 2. + .2), numpy.ones(mesh) * .1][d] / 2. for d in range(nd)]
    if name == 'spike':
        return [numpy.where(sum(abs(i - 1) for i in idx) == 0, 3.3 + d, .1) for d in range(nd)]
    if name in ('tiny', 'huge'):
        return [v * 2. ** (-40 if name == 'tiny' else 40) for v in g]
    if name == 'big':
        return [v * 5.01 for v in g]


def texture(name, mesh):
    if name == 'constant':
        return numpy.full(mesh, 2.25)
    if name == 'delta':
        t = numpy.zeros(mesh)
        t[(0,) * len(mesh)] = 1
        return t
    return M.generic(mesh, 3)


def boxof(name, mesh):
    return [float(n) for n in mesh] if name == 'unit' else M.BOX[:len(mesh)]


def program(comm, mesh, np, box, dt, full):
    pm = M.make(comm, mesh, np, dt, box=box, resampler='cic')
    lic = env.mod('lic', comm.rank).lic
    out = []
    for f, t, w, k, ln, ds, n in params(full, len(mesh)):
        vs = []
        for g in vectors(f, mesh):
            v = pm.create('real')
            v[...] = g[v.slices]
            vs.append(v)
        tex = None
        if t != 'default':
            tex = pm.create('real')
            tex[...] = texture(t, mesh)[tex.slices]
        keep = [v.value.copy() for v in vs]
        # normalisation is the default
        kw = {} if n and len(out) % 2 else dict(normalize=n)
        r = lic(vs, KERNELS[k], ln, ds, resampler=w, texture=tex, **kw)
        ok = all((a == v.value).all() for a, v in zip(keep, vs)) and (tex is None or (tex.value == texture(t, mesh)[tex.slices].astype(dt)).all())
        out.append((M.part(r), ok, type(r).__name__))
    return out


def whole(comm, mesh, dt, box):
    pm = M.make(comm, mesh, [1] if len(mesh) > 1 else [], dt, box=box)
    return numpy.array(pm.generate_whitenoise(seed=990919, type='real').value)


def reference(mesh, box, dt, p):
    f, t, w, k, ln, ds, n = p
    nd = len(mesh)
    W = env.mod('window', 0)
    vs = [v.astype(dt).astype('f8') for v in vectors(f, mesh)]
    if n:
        a = sum(v ** 2 for v in vs) ** .5
        a[a == 0] = 1
        vs = [v / a for v in vs]
    if t == 'default':
        from mc import explore
        tex = explore.values(explore.run(1, whole, mesh, dt, box))[0].astype('f8')
    else:
        tex = texture(t, mesh)
    r = W.FindResampler(w or 'cic')
    T = W.Affine(nd, scale=1.0, translate=0, period=mesh)
    q = numpy.stack([i.ravel() for i in numpy.indices(mesh)], -1).astype('f8')
    res = tex.ravel().copy()
    for sign in (-1, 1):
        x = q.copy()
        s = 0
        while s < ln * .5:
            d = numpy.stack([r.readout(v, x, transform=T) for v in vs], -1) * ds
            x = x + sign * d / 2
            res = res + r.readout(tex, x, transform=T) * KERNELS[k](s * sign / (ln * .5)) * ds
            x = x + sign * d / 2
            s += ds
    return res.reshape(mesh)


def run(case, R):
    mesh, np, dt = tuple(case['mesh']), case['np'], case['dt']
    box = boxof(case['box'], mesh)
    size = int(numpy.prod(np))
    key = 'c32/%s/np%s/%s/%s' % ('x'.join(map(str, mesh)), np, case['box'], dt)
    vals = lib.run_world(R, size, program, (mesh, np, box, dt, case['full']), key=key)
    if vals is None:
        return
    for i, p in enumerate(params(case['full'], len(mesh))):
        if dt == 'f4' and p[2] in ('nnb',):
            continue
        kk = key + '/' + '/'.join(map(str, p))
        got = M.assemble([v[i][0] for v in vals])
        if isinstance(got, str):
            R.violation(kk, got)
            continue
        want = reference(mesh, box, dt, p)
        tol = 1e-9 if dt == 'f8' else 2e-3
        if not lib.close(got, want, 0, tol * (1 + abs(want).max())):
            R.violation(kk, lib.maxdiff(got, want))
        R.check(all(v[i][1] for v in vals), kk, 'an argument was changed')
        if p[1] == 'constant':
            n = len([s for s in numpy.arange(0, p[4] * .5, p[5])])
            ks = 1 + sum(KERNELS[p[3]](s * p[5] * g / (p[4] * .5)) * p[5] for s in range(n) for g in (-1, 1))
            R.check(lib.close(got, numpy.full(mesh, 2.25 * ks), 0, tol * 10), kk, 'constant texture')
        R.nstates(1)
        R.outcome(p, mesh, lib.digest(numpy.round(got, 3)))
