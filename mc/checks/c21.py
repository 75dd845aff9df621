"""C21: coordinates, indices and slab iteration describe every cell exactly once."""
import itertools

import numpy

from mc import env, lib, mesh as M

ID = 'C21'
RULE = ('states are (mesh shape, process mesh, type, field type, cell): all shapes in the bound, odd, even and degenerate, on '
        'process meshes of up to 6 ranks: every cell, its index, position or wave number, its slab, and functions applied '
        'by cell with every kind of coordinates and destination')
ASSUMPTIONS = ['the Nyquist frequency of even sizes (and half of the box) is given with the negative sign']


def cases(tier):
    out = []
    top = 4 if tier == 'quick' else 6
    shapes = list(itertools.product(range(1, top + 1), repeat=3)) + [(6, 4, 5), (5, 6, 3), (7, 2, 8)]
    shapes += list(itertools.product(range(1, top + 2), repeat=2)) + [(n,) for n in range(1, 10)]
    shapes += [(2, 3, 2, 4), (3, 2, 5, 1)]
    for m in shapes:
        nps = M.procmeshes(len(m), 6 if len(m) < 4 else 4, full=len(m) > 1)
        if tier == 'quick' and len(m) == 3 and max(m) < 5:
            nps = [[1], [2], [2, 2], [1, 3], [3, 1], [2, 1, 2]]
        out += [dict(mesh=m, np=np, dt=dt) for np in nps for dt in (('f8', 'c16', 'f4', 'c8') if tier != 'quick' or sum(m) % 3 == 0 else ('f8',))]
    # units that are much smaller or larger than the box
    out += [dict(mesh=m, np=np, dt=dt, scale=s) for m, np in (((4, 3, 5), [2, 1]), ((3, 4), [2]), ((4,), [])) for dt in ('f8', 'c16') for s in (-60, 60)]
    out += [dict(mesh=m, np=[1][:len(m) - 1], dt='f8') for m in [(40000,), (1, 40000), (2, 33000, 1)]]
    return out


def coords(mesh, real, box=M.BOX):
    """position or wave number of each index, by axis"""
    out = []
    for n, L in zip(mesh, box):
        i = numpy.arange(n)
        j = numpy.where(2 * i >= n, i - n, i) if n > 1 else i
        out.append(j * (L / n) if real else j * (2 * numpy.pi / L))
    return out


def full(a, shape):
    return [numpy.array(numpy.broadcast_to(x, shape)) for x in a]


def program(comm, mesh, np, dt, types, box):
    pm = M.make(comm, mesh, np, dt, box=box)
    out = []
    for t in types:
        f = pm.create(t)
        cells = f.value.reshape(-1)
        g = M.generic(mesh if t == 'real' else tuple(f.cshape), 2, numpy.dtype(dt).kind == 'c' or t != 'real').astype(f.dtype)
        f[...] = g[f.slices]
        keep = f.value.copy()
        d = dict(shape=f.shape, slices=[(s.start, s.stop) for s in f.slices], start=list(f.start), cshape=tuple(f.cshape),
                 csize=int(f.csize), size=int(f.size), nd=f.ndim, i=full(f.i, f.shape), x=full(f.x, f.shape),
                 tile=M.part(f), box=numpy.array(f.BoxSize), nmesh=numpy.array(f.Nmesh), compressed=bool(f.compressed))
        ii = pm.create_coords(t, return_indices=True)
        xx = pm.create_coords(t)
        d['pmi'], d['pmx'] = full(ii, f.shape), full(xx, f.shape)
        # the arrays handed out are copies
        for a in ii + xx + list(f.i) + list(f.x):
            a[...] = 77
        d['pmx2'] = full(pm.create_coords(t), f.shape)
        f = pm.create(t)
        f[...] = g[f.slices]
        seen = numpy.zeros(f.shape, int)
        ok = []
        slabs = list(zip(f.slabs, f.slabs.i, f.slabs.x))
        assert len(slabs) == len(list(f.slabs)) == len(list(f.slabs.i)) == len(list(f.slabs.x))
        for s, si, sx in slabs:
            for a, b in ((s.i, s.x), (si, sx)):
                idx = tuple(numpy.broadcast_to(q, s.shape) - o for q, o in zip(a, f.start))
                ok.append(bool((f.value[idx] == numpy.asarray(s)).all()))
                ok.append(bool(all((numpy.broadcast_to(q, s.shape) == p[idx]).all() for q, p in zip(b, d['x']))))
            numpy.add.at(seen, idx, 1)
            ok.append(list(s.BoxSize) == list(si.BoxSize) == list(pm.BoxSize) and list(s.Nmesh) == list(sx.Nmesh) == list(pm.Nmesh))
            k2 = sum(q ** 2 for q in sx) + numpy.zeros(s.shape)
            ok.append(lib.close(sx.normp() + 0 * k2, k2, 1e-6, 0))
            ok.append(lib.close(sx.normp(p=1) + 0 * k2, sum(abs(q) for q in sx) + 0 * k2, 1e-6, 0))
            ok.append(all(lib.close(sx.normp(p=p) + 0 * k2, sum(abs(q) ** p for q in sx) + 0 * k2, 1e-6, 0) for p in (1.5, 3, 4)))
            z = sx.normp(p=2, zeromode=5.) + 0 * k2
            ok.append(lib.close(z, numpy.where(k2 == 0, 5., k2), 1e-6, 0))
        d['slabs'], d['seen'] = ok, seen
        # the slabs are windows to the values
        h = pm.create(t, value=f)
        for s in h.slabs:
            s[...] = 2 * numpy.asarray(s)
        d['double'] = M.part(h)
        d['apply'] = {}
        for kind in (('relative', 'index') if t == 'real' else ('wavenumber', 'index', 'circular')):
            def func(x, y):
                assert y.shape == numpy.broadcast(y, *x).shape
                r = y * 1
                for n, q in enumerate(x):
                    r = r + (n + 2) ** 2 * q
                return r
            for dest in ('new', 'field', 'self', 'inplace', 'array', 'forder'):
                h = pm.create(t, value=f)
                o = dict(new=lambda: None, field=lambda: pm.create(t), self=lambda: h, inplace=lambda: Ellipsis,
                         array=lambda: numpy.zeros(f.shape, f.dtype), forder=lambda: numpy.zeros(f.shape, f.dtype, order='F'))[dest]()
                r = h.apply(func, kind=kind, out=o)
                v = numpy.array(r if isinstance(r, numpy.ndarray) else r.value)
                same = (r is h) == (dest in ('self', 'inplace')) and (o is None or o is Ellipsis or r is o)
                d['apply'][kind, dest] = (v, same, dest in ('self', 'inplace') or bool((h.value == keep).all()))
            if kind == ('relative' if t == 'real' else 'wavenumber'):
                d['apply']['default', 'new'] = (numpy.array(f.apply(func).value), True, bool((f.value == keep).all()))
        for bad in (('wavenumber', 'circular', 'x') if t == 'real' else ('relative', 'absolute', 'x')):
            try:
                f.apply(lambda x, y: y, kind=bad)
                d['apply'][bad] = False
            except Exception:
                pass
        out.append(d)
    return out


def run(case, R):
    mesh, np, dt = tuple(case['mesh']), case['np'], case['dt']
    size = int(numpy.prod(np))
    nd = len(mesh)
    cplx = numpy.dtype(dt).kind == 'c'
    types = ['real', 'untransposedcomplex', 'transposedcomplex'] + (['complex'] if size == 4 else [])
    box = [L * 2. ** case.get('scale', 0) for L in M.BOX]
    vals = lib.run_world(R, size, program, (mesh, np, dt, types, box[:nd]), key='c21')
    if vals is None:
        return
    eps = 1e-5 if dt in ('f4', 'c8') else 1e-13
    for j, t in enumerate(types):
        key = 'c21/%s/np%s/%s/%s' % ('x'.join(map(str, mesh)), np, dt, t)
        real = t == 'real'
        cshape = tuple(mesh) if real or cplx else tuple(mesh[:-1]) + (mesh[-1] // 2 + 1,)
        C = coords(mesh, real, box)
        unit = 2. ** (case.get('scale', 0) * (1 if real else -1))
        g = M.generic(cshape, 2, cplx or not real).astype(vals[0][j]['tile'][1].dtype)
        for what, want in (('tile', g), ('double', 2 * g)):
            got = M.assemble([v[j][what] for v in vals])
            if isinstance(got, str):
                R.violation(key + '/tile', got)
                return
            R.check(got.shape == cshape and (got == want).all(), key + '/' + what, 'values assembled from the parts are not those assigned')
        for rank, v in enumerate(vals):
            d = v[j]
            k = key + '/rank%d' % rank
            sl = tuple(slice(a, b) for a, b in d['slices'])
            R.check(d['cshape'] == cshape and d['csize'] == numpy.prod(cshape) and d['nd'] == nd
                    and d['size'] == numpy.prod(d['shape']), k, 'shape of the mesh is %s size %s' % (d['cshape'], d['csize']))
            R.check(d['compressed'] == (cshape != tuple(mesh)), k, 'compressed is %s' % d['compressed'])
            R.check(all(a == s for (a, b), s in zip(d['slices'], d['start'])), k, 'start and slices disagree')
            for ax in range(nd):
                ind = numpy.arange(*d['slices'][ax]).reshape([-1 if e == ax else 1 for e in range(nd)])
                wi = numpy.broadcast_to(ind, d['shape'])
                for w in ('i', 'pmi'):
                    R.check((d[w][ax] == wi).all(), k, 'indices of axis %d are %s' % (ax, numpy.unique(d[w][ax])))
                for w in ('x', 'pmx', 'pmx2'):
                    R.check(lib.close(d[w][ax], C[ax][wi], 0, eps * 100 * unit), k + '/' + w, 'coordinates of axis %d are %s, not %s'
                            % (ax, numpy.unique(d[w][ax]), numpy.unique(C[ax][wi])))
            R.check((d['seen'] == 1).all(), k + '/slabs', 'the slabs visit a cell %s times' % sorted(set(d['seen'].ravel())))
            R.check(all(d['slabs']), k + '/slabs', 'values, indices or coordinates of the slabs do not match: %s' % (d['slabs'],))
            for a, r in d['apply'].items():
                if r is False:
                    R.violation(k + '/apply', 'kind %s is accepted' % a)
                    continue
                kind, dest = a
                if kind == 'index':
                    c = d['i']
                else:
                    c = [q for q in numpy.broadcast_arrays(*numpy.ix_(*[C[ax][sl[ax]] for ax in range(nd)]))]
                    if kind == 'circular':
                        c = [q * L / n for q, L, n in zip(c, box, mesh)]
                want = g[sl] + sum((n + 2) ** 2 * numpy.asarray(q).reshape(d['shape']) for n, q in enumerate(c))
                R.check(lib.close(r[0], want, eps, eps * 300 * (1 if kind in ('index', 'circular') else max(1, unit))), k + '/apply/%s/%s' % a, 'applying a function differs: %s' % lib.maxdiff(r[0], want))
                R.check(r[1], k + '/apply/%s/%s' % a, 'the result is not the given destination')
                R.check(r[2], k + '/apply/%s/%s' % a, 'the source is changed')
            R.nstates(d['size'])
        R.outcome(mesh, t, dt, lib.digest([v[j]['tile'][1] for v in vals]))
