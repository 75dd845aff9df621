"""C27: resampling in real space and previews match their definition on any rank count."""
import itertools

import numpy

from mc import env, lib, mesh as M

ID = 'C27'
RULE = ('states are (source shape, destination shape, process meshes, window, normalisation, basis cell): up- and downsampling of '
        'generic fields and of every basis cell against the serial windows; previews of all selections and orders of axes, '
        'sizes and methods')
ASSUMPTIONS = ['the serial windows are those of C07 to C10']

WINDOWS = ['nnb', 'cic', 'tsc', 'pcs', 'nearest', 'linear', 'quadratic', 'cubic', 'lanczos2', 'lanczos3', 'acg2', 'db6', 'sym6', None]
PAIRS = [((4, 4), (8, 8)), ((8, 8), (4, 4)), ((6, 4), (4, 6)), ((5, 3), (7, 4)), ((4, 5), (4, 5)), ((3, 6), (8, 2)), ((9, 2), (2, 5)),
         ((4, 3, 5), (6, 6, 4)), ((6, 5, 4), (3, 4, 6)), ((2, 4, 3), (5, 4, 8)), ((4,), (7,)), ((9,), (4,)), ((12,), (5,))]


def cases(tier):
    out = []
    for a, b in PAIRS + ([((8, 9, 4), (5, 5, 5)), ((7, 8), (12, 5))] if tier != 'quick' else []):
        nps = M.procmeshes(len(a), 6, full=False)
        if tier == 'quick':
            nps = [n for n in nps if numpy.prod(n) in (1, 2, 3, 4)] if len(a) == 2 else nps if len(a) == 1 else [[1, 1], [2, 1], [2], [1, 3], [2, 2], [3, 2]]
        for np in nps:
            np2 = np[::-1] if len(np) > 1 else np
            for n2 in ([np] if np == np2 else [np, np2]):
                out.append(dict(kind='sample', a=a, b=b, np=np, np2=n2, dt='f8', basis=len(a) == 2 and tier != 'quick' or a in ((4, 4), (5, 3), (4,), (9,))))
        out.append(dict(kind='sample', a=a, b=b, np=nps[-1], np2=nps[-1], dt='f4', basis=False))
    for m in [(4, 3, 5), (2, 6, 3), (5, 4), (4, 6), (6,), (2, 3, 2, 3)] + ([(6, 5, 4)] if tier != 'quick' else []):
        for np in M.procmeshes(len(m), 6 if len(m) < 4 else 4, full=len(m) in (2, 3)):
            if tier == 'quick' and len(np) == len(m) and numpy.prod(np) not in (1, 4):
                continue
            for dt in ('f8', 'f4', 'c16'):
                if dt != 'f8' and numpy.prod(np) not in (1, 3):
                    continue
                out.append(dict(kind='preview', mesh=m, np=np, dt=dt))
    return out


def sample(comm, a, b, np, np2, dt, windows, basis):
    pa, pb = M.make(comm, a, np, dt, resampler='tsc'), M.make(comm, b, np2, dt, resampler='pcs', box=[2.0] * len(b))
    f = pa.create('real')
    f[...] = M.generic(a, 1)[f.slices]
    keep = f.value.copy()
    out = []
    for w in windows:
        for km in (False, True):
            for how in ('upsample', 'downsample'):
                r = getattr(pb, how)(f, resampler=w, keep_mean=km)
                assert r.pm is pb
                out.append((w, km, how, None, M.part(r)))
        if basis and w in ('cic', 'tsc', 'lanczos2', 'db6'):
            for c in itertools.product(*[range(n) for n in a]):
                e = pa.create('real', value=0)
                e.csetitem(c, 1.)
                for how in ('upsample', 'downsample'):
                    out.append((w, False, how, c, M.part(getattr(pb, how)(e, resampler=w))))
    return out, bool((f.value == keep).all())


_ref = {}


def reference(a, b, how, w, dt):
    """matrix from source cells to destination cells"""
    k = (a, b, how, w)
    if k not in _ref:
        W = env.mod('window')
        w = W.FindResampler({None: 'tsc' if how == 'upsample' else 'pcs'}.get(w, w))
        nd = len(a)
        if how == 'upsample':
            T = W.Affine(nd, scale=1. * numpy.array(a) / numpy.array(b), translate=0, period=a)
            q = numpy.stack(numpy.meshgrid(*[numpy.arange(n) for n in b], indexing='ij'), -1).reshape(-1, nd).astype('f8')
            A = numpy.zeros((len(q),) + a)
            for i in range(len(q)):
                w.paint(A[i], q[i:i + 1], transform=T)
            _ref[k] = A.reshape(len(q), -1)
        else:
            T = W.Affine(nd, scale=1. * numpy.array(b) / numpy.array(a), translate=0, period=b)
            q = numpy.stack(numpy.meshgrid(*[numpy.arange(n) for n in a], indexing='ij'), -1).reshape(-1, nd).astype('f8')
            A = numpy.zeros((len(q),) + b)
            for i in range(len(q)):
                w.paint(A[i], q[i:i + 1], transform=T)
            _ref[k] = A.reshape(len(q), -1).T.copy()
    return _ref[k]


def run_sample(case, R):
    a, b, np, np2, dt = tuple(case['a']), tuple(case['b']), case['np'], case['np2'], case['dt']
    key = 'c27/%s->%s/np%s,%s/%s' % ('x'.join(map(str, a)), 'x'.join(map(str, b)), np, np2, dt)
    vals = lib.run_world(R, int(numpy.prod(np)), sample, (a, b, np, np2, dt, WINDOWS, case['basis']), key=key)
    if vals is None:
        return
    tol = 3e-5 if dt == 'f4' else 1e-11
    va, vb = numpy.prod(M.BOX[:len(a)]), 2.0 ** len(b)
    na, nb = numpy.prod(a), numpy.prod(b)
    factor = (na / va) / (nb / vb)
    for i, (w, km, how, c, _) in enumerate(vals[0][0]):
        got = M.assemble([v[0][i][4] for v in vals])
        kk = key + '/%s/%s/%s' % (how, w, 'mean' if km else 'total')
        if isinstance(got, str):
            R.violation(kk, got)
            continue
        src = M.generic(a, 1)
        if c is not None:
            src = numpy.zeros(a)
            src[tuple(c)] = 1
        want = (reference(a, b, how, w, dt) @ src.ravel()).reshape(b)
        if how == 'upsample' and not km:
            want = want * factor
        if how == 'downsample' and km:
            want = want / factor
        if not lib.close(got, want, 0, tol * max(1, abs(want).max()) * 4):
            R.violation(kk, '%s%s: %s' % (how, '' if c is None else ' of cell %s' % (c,), lib.maxdiff(got, want)), got=got, want=want)
        R.nstates(1)
    R.check(all(v[1] for v in vals), key, 'the source was changed')
    R.outcome(key, lib.digest(numpy.round(got, 4)))


def selections(nd):
    out = [None]
    for n in range(1, nd + 1):
        out += list(itertools.permutations(range(nd), n))
    return out


def preview(comm, mesh, np, dt, sizes):
    pm = M.make(comm, mesh, np, dt, resampler='cic')
    cplx = pm.dtype.kind == 'c'
    g = M.generic(mesh, 1, cplx)
    f = pm.create('real')
    f[...] = g[f.slices]
    c, u = f.cast('transposedcomplex'), f.cast('untransposedcomplex')
    keep = f.value.copy(), c.value.copy(), u.value.copy()
    out = []
    nd = len(mesh)
    sel = selections(nd)
    forms = [(s, s) for s in sel] + [(s, list(s)) for s in sel[1:4]] + [((d,), d) for d in range(nd)] + [((nd - 1,), numpy.int64(nd - 1))]
    for want, axes in forms:
        out.append((want, None, None, None, f.preview(axes=axes)))
    for h in (c, u):
        for s in (sel[0], sel[-1], sel[1]):
            out.append((s, None, None, None, h.preview(axes=s)))
    if not cplx:
        for n in sizes:
            for method, w in ((None, None), ('upsample', 'cic'), ('downsample', 'cic'), ('upsample', 'tsc'), ('downsample', 'tsc'), ('upsample', 'nnb'), (None, 'nnb')):
                for s in (None, (0,), (nd - 1,), tuple(range(nd))[::-1]):
                    kw = {}
                    if method:
                        kw['method'] = method
                    if w:
                        kw['resampler'] = w
                    form = [n, list(n), numpy.array(n), n][len(out) % 4]
                    if len(set(n)) == 1 and len(out) % 3 == 0:
                        form = int(n[0])
                    out.append((s, n, method, w, f.preview(Nmesh=form, axes=s, **kw)))
    try:
        f.preview(Nmesh=[n + 1 for n in mesh], method='nonsense')
        bad = True
    except ValueError:
        bad = False
    return out, [bool((x == y.value).all()) for x, y in zip(keep, (f, c, u))], bad


def run_preview(case, R):
    mesh, np, dt = tuple(case['mesh']), case['np'], case['dt']
    nd = len(mesh)
    key = 'c27/preview/%s/np%s/%s' % ('x'.join(map(str, mesh)), np, dt)
    sizes = [tuple(mesh), tuple(n + 2 for n in mesh), (3,) * nd, tuple(n + (1 if d % 2 else -1) for d, n in enumerate(mesh))]
    vals = lib.run_world(R, int(numpy.prod(np)), preview, (mesh, np, dt, sizes), key=key)
    if vals is None:
        return
    cplx = numpy.dtype(dt).kind == 'c'
    g = M.generic(mesh, 1, cplx)
    tol = 3e-5 if dt == 'f4' else 1e-11
    for i, (axes, n, method, w, _) in enumerate(vals[0][0]):
        kk = key + '/axes%s/%s/%s/%s' % (axes, n, method, w)
        want = g
        if n is not None and tuple(n) != mesh:
            m = method or ('downsample' if any(x < y for x, y in zip(n, mesh)) else 'upsample')
            want = (reference(mesh, tuple(n), m, w or 'cic', dt) @ g.ravel()).reshape(n)
            if m == 'downsample':
                want = want / (numpy.prod(mesh) / numpy.prod(n))
        if axes is not None:
            rest = tuple(d for d in range(nd) if d not in axes)
            want = want.transpose(tuple(axes) + rest)
            if rest:
                want = want.sum(axis=tuple(range(len(axes), nd)))
        for r, v in enumerate(vals):
            got = v[0][i][4]
            if not lib.close(got, want, 0, tol * 10 * max(1, abs(want).max())):
                R.violation(kk, 'rank %d: %s' % (r, lib.maxdiff(got, want)), got=got, want=want)
        R.nstates(1)
    for v in vals:
        R.check(all(v[1]), key, 'the field was changed')
        R.check(not v[2], key, 'a method of no meaning is accepted')
    R.outcome(key, lib.digest(numpy.round(vals[0][0][0][4], 4)))


def run(case, R):
    (run_sample if case['kind'] == 'sample' else run_preview)(case, R)
