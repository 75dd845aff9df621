"""C26: collective sums, means, norms and inner products equal those of the global mesh."""
import itertools

import numpy

from mc import env, lib, mesh as M

ID = 'C26'
RULE = ('states are (mesh shape, process mesh, type, operation, metric, basis field): the inner product with the basis field of '
        'every cell and of every mode gives its weight; sums, means and norms of generic fields, against the assembled mesh')
ASSUMPTIONS = ['only the real part of the inner product of compressed fields is defined']

SHAPES = [(4, 3, 4), (3, 4, 5), (2, 2, 2), (5, 1, 3), (1, 4, 1), (4, 4, 2), (3, 6), (4, 5), (5, 4), (2, 1), (6,), (5,), (2,), (1,), (3,), (2, 3, 2, 3)]


def cases(tier):
    out = []
    for m in SHAPES + ([(6, 5, 7), (8, 4, 6), (7, 8), (9,)] if tier != 'quick' else []):
        for np in M.procmeshes(len(m), 6 if len(m) < 4 else 4, full=len(m) > 1):
            for dt in ('f8', 'f4', 'c16', 'c8')[:4 if tier != 'quick' or numpy.prod(np) in (1, 4) else 1]:
                out.append(dict(mesh=m, np=np, dt=dt))
    return out


METRICS = [None, 'plus', 'zero']


def metric(name):
    return {None: None, 'plus': lambda k: 1 + k * .5, 'zero': lambda k: 1. * (k == 0)}[name]


def program(comm, mesh, np, dt):
    pm = M.make(comm, mesh, np, dt)
    cplx = pm.dtype.kind == 'c'
    res = {}
    for k in range(2):
        g = M.generic(mesh, k, cplx)
        f = pm.create('real')
        f[...] = g[f.slices]
        keep = f.value.copy()
        res['csum', k] = [f.csum(), f.csum(dtype='c16' if cplx else 'f8'), f.cmean(), f.cmean(dtype='c16' if cplx else 'f8')]
        if not cplx:
            h = pm.create('real')
            h[...] = M.generic(mesh, k + 2)[f.slices]
            res['rdot', k] = [f.cdot(h), h.cdot(f), f.cdot(h.value.copy())]
            res['rnorm', k] = f.cnorm()
        # sums in a wider type than that of the field
        wide = numpy.concatenate([[1e7, -1e-3], [1.25e-3] * 50])
        w = wide[(numpy.arange(g.size) * 7 + k) % len(wide)].reshape(mesh)
        f[...] = w[f.slices]
        res['wide', k] = [f.csum(dtype='c16' if cplx else 'f8'), f.cmean(dtype='c16' if cplx else 'f8'),
                          f.csum(dtype=numpy.dtype('c16')), float(w.astype('f4' if dt in ('f4', 'c8') else 'f8').astype('f8').sum())]
        f[...] = g[f.slices]
        res['kept', k] = [bool((keep == f.value).all())]
        for t in ('transposedcomplex', 'untransposedcomplex'):
            c, e = pm.create(t), pm.create(t)
            c[...] = M.spectrum(g, cplx)[c.slices]
            e[...] = M.spectrum(M.generic(mesh, k + 2, cplx), cplx)[c.slices]
            keep = c.value.copy(), e.value.copy()
            res['dot', k, t] = [[c.cdot(e, metric=metric(m)), e.cdot(c, metric=metric(m)), c.cdot(e.value.copy(), metric=metric(m))] for m in METRICS]
            res['norm', k, t] = [c.cnorm(metric=metric(m)) for m in METRICS] + [c.cnorm(norm=lambda x: abs(x))]
            res['kept', k] += [bool((keep[0] == c.value).all() and (keep[1] == e.value).all())]
            res['compressed', t] = c.compressed
            if k == 0:
                # weights of the modes
                w = []
                for i in itertools.product(*[range(s) for s in c.cshape]):
                    u = pm.create(t, value=0)
                    j = tuple(a - s for a, s in zip(i, u.start))
                    if all(0 <= a < n for a, n in zip(j, u.shape)):
                        u.value[j] = 1
                    w.append((u.cnorm(), u.cdot(c)))
                res['weights', t] = w
    r, c, u = (pm.create(t, value=0) for t in ('real', 'transposedcomplex', 'untransposedcomplex'))
    bad = []
    for a, b in itertools.permutations([r, c, u], 2):
        try:
            a.cdot(b)
            bad.append((type(a).__name__, type(b).__name__))
        except Exception:
            pass
    res['bad'] = bad
    return res


def run(case, R):
    mesh, np, dt = tuple(case['mesh']), case['np'], case['dt']
    key = 'c26/%s/np%s/%s' % ('x'.join(map(str, mesh)), np, dt)
    vals = lib.run_world(R, int(numpy.prod(np)), program, (mesh, np, dt), key=key)
    if vals is None:
        return
    cplx = numpy.dtype(dt).kind == 'c'
    tol = 1e-4 if dt in ('f4', 'c8') else 1e-11
    N = int(numpy.prod(mesh))
    for v in vals[1:]:
        for k in v:
            R.check(lib.digest(v[k]) == lib.digest(vals[0][k]), key + '/ranks', '%s differs between ranks: %s and %s' % (k, v[k], vals[0][k]))
    v = vals[0]
    kk = numpy.sqrt(sum((numpy.fft.fftfreq(n) * n * 2 * numpy.pi / L).reshape([-1 if d == e else 1 for e in range(len(mesh))]) ** 2
                        for d, (n, L) in enumerate(zip(mesh, M.BOX)))) + numpy.zeros(mesh)

    def same(a, b, what, scale=None):
        if isinstance(b, (float, numpy.floating)):
            a = numpy.real(a)
        R.check(abs(a - b) <= tol * max(1, abs(b) if scale is None else scale), key + '/' + what, '%s is %s, not %s' % (what, a, b))
        R.nstates(1)
    for k in range(2):
        g, h = M.generic(mesh, k, cplx), M.generic(mesh, k + 2, cplx)
        for i, w in enumerate((g.sum(), g.sum(), g.mean(), g.mean())):
            same(v['csum', k][i], w, 'csum' if i < 2 else 'cmean', abs(g).sum())
        a, b, c16, exact = v['wide', k]
        for x, y, what in ((a, exact, 'sum'), (b, exact / N, 'mean'), (c16, exact, 'complex sum')):
            R.check(abs(x - y) <= 1e-12 * max(1e8 / (N if what == 'mean' else 1), 1e-3), key + '/wide', '%s in a wider type is %r, not %r' % (what, x, y))
            R.nstates(1)
        if not cplx:
            for x in v['rdot', k]:
                same(x, (g * h).sum(), 'real cdot', abs(g * h).sum())
            same(v['rnorm', k], (g * g).sum(), 'real cnorm')
        R.check(all(all(x['kept', k]) for x in vals), key + '/source', 'an operand was changed')
        F, H = numpy.fft.fftn(g) / N, numpy.fft.fftn(h) / N
        for t in ('transposedcomplex', 'untransposedcomplex'):
            for i, m in enumerate(METRICS):
                w = metric(m)(kk) if m else numpy.ones(mesh)
                d = (F * H.conj() * w).sum()
                for x in v['dot', k, t][i]:
                    same(numpy.real(x), float(d.real), '%s cdot, metric %s' % (t, m), abs(F * H * w).sum())
                if m is None and not cplx:
                    same(numpy.real(v['dot', k, t][i][0]) * N, float((g * h).sum()), 'Parseval', abs(g * h).sum())
                if cplx:
                    same(v['dot', k, t][i][0], complex(d), '%s cdot of full fields' % t, abs(F * H * w).sum())
                same(v['norm', k, t][i], float((abs(F) ** 2 * w).sum()), '%s cnorm, metric %s' % (t, m))
            same(v['norm', k, t][len(METRICS)], float(abs(F).sum()), '%s cnorm with another norm' % t)
            if k == 0:
                cs = tuple(mesh) if cplx else tuple(mesh[:-1]) + (mesh[-1] // 2 + 1,)
                for i, x in zip(itertools.product(*[range(s) for s in cs]), v['weights', t]):
                    w = 1. if cplx or 2 * i[-1] % mesh[-1] == 0 else 2.
                    same(x[0], w, '%s weight of mode %s' % (t, i))
                    same(x[1].real, float(F[i].real * w), '%s cdot with mode %s' % (t, i), abs(F).max())
    R.check(not v['bad'], key, 'inner products of fields of different types are accepted: %s' % (v['bad'],))
    R.outcome(key, lib.digest(numpy.round(v['csum', 0][0], 2)))
