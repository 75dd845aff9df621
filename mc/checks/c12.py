"""C12: painting and readout do not depend on how the arguments are given; shifts, periods, axis permutations."""
import itertools

import numpy

from mc import lib, win
from mc import mesh as mesh_
from .c08 import field

ID = 'C12'
RULE = ('states are (window, dimension, differentiation, form of positions, mass, smoothing length, canvas, output): the full '
        'product of the forms against the plain form; all shifts by up to two periods and all axis permutations; all '
        'arguments of a wrong shape or type; all combinations of element types with values that only their own type holds')
ASSUMPTIONS = ['the layouts are enumerated with values exact in single precision, the types with values that are not']


def cases(tier):
    out = []
    for w in win.ALL:
        for nd in (1, 2, 3):
            for kind in ('paint', 'readout', 'shift', 'mixed'):
                for dd in [None] + ([nd - 1] if tier == 'quick' else list(range(nd))):
                    out.append(dict(kind=kind, w=w, nd=nd, dd=dd, tier=tier))
    for w in ('nearest', 'linear', 'tunednnb', 'tunedcic', 'tunedtsc', 'tunedpcs', 'lanczos2'):
        for nd in (1, 2, 3):
            out.append(dict(kind='bad', w=w, nd=nd))
    for w in ('cic', 'tsc', 'nnb', 'lanczos2') if tier == 'quick' else ('cic', 'tsc', 'nnb', 'pcs', 'lanczos2', 'db6', 'acg2'):
        for nd in (1, 2, 3):
            for size in (1,) if nd == 1 else (1, 2, 3):
                for dd in (None, nd - 1):
                    for dtype in ('f8', 'f4'):
                        out.append(dict(kind='pm', w=w, nd=nd, size=size, dd=dd, dtype=dtype))
    return out


MESH = {1: [5], 2: [4, 3], 3: [3, 2, 4]}


def strided(a, how):
    if how == 'C':
        return numpy.ascontiguousarray(a)
    if how == 'F':
        return numpy.asfortranarray(a)
    if how == 'step':
        big = numpy.full([2 * s + 1 for s in a.shape], 77, a.dtype)
        v = big[tuple(slice(0, 2 * s, 2) for s in a.shape)]
    elif how == 'rev':
        v = numpy.full(a.shape, 77, a.dtype)[tuple(slice(None, None, -1) for s in a.shape)]
    elif how == 'rec':
        t = numpy.zeros(a.shape[:1], dtype=[('x', 'i4'), ('v', a.dtype, a.shape[1:]), ('y', 'f8')])
        v = t['v']
    elif how == 'ro':
        v = numpy.array(a)
        v.flags.writeable = False
        return v
    elif how == 'list':
        return a.tolist()
    elif how == 'sub':
        return a.view(type('Sub', (numpy.ndarray,), {}))
    v[...] = a
    return v


POSF = [('f8', h) for h in ('C', 'F', 'step', 'rev', 'rec', 'ro', 'list')] + [('f4', h) for h in ('C', 'rev', 'ro')] + [('f8', 'sub')]
VALF = [('f8', h) for h in ('C', 'step', 'rev', 'rec', 'ro', 'list')] + [('f4', h) for h in ('C', 'step', 'ro')] + [('i8', 'C'), ('i4', 'step')]
CANVAS = [(t, h) for t in ('f8', 'f4') for h in ('C', 'F', 'step', 'rev')] + [('c16', 'C'), ('c16', 'step'), ('c8', 'F')]
OUT = [None, ('f8', 'C'), ('f8', 'step'), ('f8', 'rev'), ('f4', 'C'), ('f4', 'step')]


def given(a, form):
    t, h = form
    return strided(numpy.asarray(a, t), h)


PMFORMS = [('pos', f) for f in POSF + [('i4', 'C'), ('i8', 'step'), ('f4', 'list')]] + [('mass', f) for f in VALF + [('i2', 'C'), ('f4', 'list')]] + \
    [('hsml', f) for f in VALF + [('i2', 'C')]] + [('out', f) for f in OUT if f] + [('massscalar', f) for f in ('float', 'f4', 'int', '0d')]


def pmprog(comm, np, mesh, dtype, w, dd, g, mass, hs):
    pm = mesh_.make(comm, mesh, np=np, dtype=dtype, box=[float(n) for n in mesh])
    mine = slice(comm.rank, None, comm.size)
    field = pm.create('real', value=0)
    full = mesh_.generic(mesh)
    field[...] = full[tuple(field.slices)]
    out = []
    for what, f in [('plain', None)] + PMFORMS:
        for layout in (True, False):
            p, m, h, o = g[mine], mass[mine], hs[mine], None
            if what == 'pos' and f[0][0] == 'i':
                p = numpy.floor(p)
            ref = p, m, h
            if what == 'pos':
                p = given(p, f) if len(p) or f[1] != 'list' else p
            if what == 'mass':
                m = given(m, f)
            if what == 'hsml':
                h = given(h, f)
            if what == 'out':
                o = given(numpy.full(len(p), 99.), f)
            if what == 'massscalar':
                m = dict(float=2.5, f4=numpy.float32(2.5), int=3, **{'0d': numpy.array(2.5)})[f]
                h = dict(float=1.5, f4=numpy.float32(1.5), int=2, **{'0d': numpy.array(1.5)})[f]
                ref = p, numpy.full(len(p), float(m)), numpy.full(len(p), float(h))
            row = []
            for a in ((p, m, h), ref):
                q = a[0]
                lay = pm.decompose(q, smoothing=w) if layout else None
                # without a layout every rank paints what its part has of its own particles
                c = pm.paint(q, mass=a[1], resampler=w, gradient=dd, layout=lay)
                ch = pm.paint(q, mass=a[1], hsml=a[2], resampler=w, gradient=dd, layout=lay)
                kw = dict(out=o) if o is not None and a[0] is p and not len(row) else {}
                v = field.readout(q, resampler=w, gradient=dd, layout=lay, **kw)
                vh = field.readout(q, hsml=a[2], resampler=w, gradient=dd, layout=lay)
                row.append((numpy.array(c.value), numpy.array(ch.value), numpy.array(v), numpy.array(vh), not kw or v is o or numpy.shares_memory(v, o)))
            out.append((what, f, layout, row))
    return out


def runpm(case, R):
    w, nd, size, dd = case['w'], case['nd'], case['size'], case['dd']
    mesh = {1: [8], 2: [8, 6], 3: [4, 6, 5]}[nd]
    ax = [numpy.array([-1.25, .125, 1.375, 2.5, n + .625]) for n in mesh]
    g = numpy.stack(numpy.meshgrid(*ax, indexing='ij'), -1).reshape(-1, nd)
    g = g[::max(1, len(g) // 10)]
    n = len(g)
    mass = numpy.array([1., 2, 3, 5, 7, 4, 6, 9])[numpy.arange(n) % 8]
    hs = numpy.array([1., 2, 1])[numpy.arange(n) % 3]
    key = 'c12/pm/%s/%dd/size%d/diff%s/%s' % (w, nd, size, dd, case['dtype'])
    vals = lib.run_world(R, size, pmprog, ([] if nd == 1 else [size] if nd == 2 else [size, 1], mesh, case['dtype'], w, dd, g, mass, hs), key=key)
    t = 1e-12 if case['dtype'] == 'f8' else 1e-5
    for r, v in enumerate(vals or []):
        for what, f, layout, (a, b) in v:
            name = '%s/%s/%s%s' % (key, what, f, '' if layout else '/nolayout')
            for k, (x, y) in enumerate(zip(a[:4], b[:4])):
                tt = 1e-6 if what == 'out' and f[0] == 'f4' else t
                S = max(1., abs(y).max()) if y.size else 1.
                R.check(x.shape == y.shape and lib.close(x, y, 0, tt * S), name,
                        '%s on rank %d: %s' % (('painting', 'painting with hsml', 'readout', 'readout with hsml')[k], r, lib.maxdiff(x, y) if x.shape == y.shape else x.shape))
                R.nstates(1)
            R.check(a[4], name, 'the output is not the array given')
    R.outcome(key)


def run(case, R):
    if case['kind'] == 'pm':
        return runpm(case, R)
    w, nd = case['w'], case['nd']
    W = win.window(w)
    if W.support > 6:
        W = W.resize(4)
    mesh = MESH[nd]
    scale = [2.0, .5, 1.0][:nd]
    T = win.affine(nd, period=mesh, scale=scale, translate=[1, 0, -1][:nd])
    ax = [numpy.array([-1.25, .125, 1.375, n + .625]) for n in mesh]
    g = numpy.stack(numpy.meshgrid(*ax, indexing='ij'), -1).reshape(-1, nd)
    g = g[::max(1, len(g) // 8)]
    n = len(g)
    mass = numpy.array([1., 2, 3, 5, 7, 4, 6, 9])[numpy.arange(n) % 8]
    hs = numpy.array([1., 2, 1, 3])[numpy.arange(n) % 4]
    if W.support > 3 and nd > 2:
        hs = numpy.minimum(hs, 2)
    key = 'c12/%s/%dd' % (w, nd)
    if case['kind'] == 'bad':
        return bad(R, W, nd, mesh, T, g, mass, key + '/bad')
    dd = case['dd']
    key += '/%s/diff%s' % (case['kind'], dd)
    f = field(mesh, 'f8')
    few = case['tier'] == 'quick'
    if case['kind'] == 'paint':
        hforms = [None, 1.0, numpy.float32(2), numpy.array(2.0), 2] + [VALF[i] for i in ((0, 7) if few else range(len(VALF)))]
        mforms = [None, 1, 3.0, numpy.array(2.0), numpy.float32(2), [2.0]] + VALF
        for hf in hforms:
            H = None if hf is None else (hs if isinstance(hf, tuple) else numpy.full(n, float(hf)))
            for mf in mforms:
                M = numpy.ones(n) if mf is None else (mass if isinstance(mf, tuple) else numpy.full(n, float(numpy.ravel(mf)[0])))
                ref = numpy.zeros(mesh)
                W.paint(ref, numpy.array(g), hsml=None if H is None else H.copy(), mass=M.copy(), diffdir=dd, transform=T)
                S = max(1, abs(ref).max())
                # positions and canvases: a covering of all pairs with one another
                combos = itertools.product(POSF, CANVAS) if not few else \
                    [(POSF[i], CANVAS[j]) for i in range(len(POSF)) for j in range(len(CANVAS)) if (i + 2 * j) % 5 == 0 or i == 0 or j == 0]
                for pf, cf in combos:
                    a = given(g, pf)
                    m = given(mass, mf) if isinstance(mf, tuple) else mf
                    h = given(hs, hf) if isinstance(hf, tuple) else hf
                    keep = [numpy.array(x, copy=True) if x is not None else None for x in (a, m, h)]
                    c = strided(numpy.zeros(mesh, cf[0]), cf[1])
                    if c.dtype.kind == 'c':
                        c.imag[...] = 5
                    W.paint(c, a, hsml=h, mass=m, diffdir=dd, transform=T)
                    R.step()
                    v = numpy.real(c)
                    tol = 1e-12 if cf[0] in ('f8', 'c16') else 3e-6
                    if not lib.close(v, ref, 0, tol * S):
                        R.violation(key, 'positions %s, mass %s, hsml %s, canvas %s: %s' % (pf, mf, hf, cf, lib.maxdiff(v, ref)))
                    if c.dtype.kind == 'c':
                        R.check((c.imag == 5).all(), key + '/imag', 'painting changed the imaginary part')
                    for x, y, nm in zip((a, m, h), keep, ('positions', 'mass', 'hsml')):
                        if y is not None:
                            R.check(numpy.array_equal(numpy.asarray(x), y), key + '/inputs', '%s changed by painting' % nm)
                    R.nstates(1)
                R.trace()
                R.outcome(key, lib.digest(numpy.round(ref, 8)))
        # no particles
        for a, m in ((numpy.zeros((0, nd)), 1.0), (numpy.zeros((0, nd), 'f4'), numpy.zeros(0))):
            c = f.copy()
            W.paint(c, a, mass=m, diffdir=dd, transform=T)
            R.check((c == f).all(), key + '/empty', 'no particles change the mesh')
            R.check(W.readout(f, a, diffdir=dd, transform=T).shape == (0,), key + '/empty', 'readout of no particles')
    elif case['kind'] == 'readout':
        hforms = [None, 1.0, numpy.float32(2), numpy.array(2.0), 2] + [VALF[i] for i in ((0, 7) if few else range(len(VALF)))]
        for hf in hforms:
            H = None if hf is None else (hs if isinstance(hf, tuple) else numpy.full(n, float(hf)))
            ref = W.readout(f, numpy.array(g), hsml=None if H is None else H.copy(), diffdir=dd, transform=T)
            S = max(1, abs(ref).max())
            for pf, cf, of in itertools.product(POSF, CANVAS, OUT):
                a = given(g, pf)
                h = given(hs, hf) if isinstance(hf, tuple) else hf
                c = strided(f.astype(cf[0]), cf[1])
                if c.dtype.kind == 'c':
                    c.imag[...] = 5
                o = None if of is None else strided(numpy.full(n, 1e4, of[0]), of[1])
                v = W.readout(c, a, hsml=h, out=o, diffdir=dd, transform=T)
                R.step()
                tol = 1e-12 if cf[0] in ('f8', 'c16') and (of is None or of[0] == 'f8') else 3e-6
                if not lib.close(v, ref, 0, tol * S) or (o is not None and not lib.close(o, ref, 0, tol * S)):
                    R.violation(key, 'positions %s, hsml %s, canvas %s, out %s: %s' % (pf, hf, cf, of, lib.maxdiff(v, ref)))
                R.nstates(1)
            R.trace()
            R.outcome(key, lib.digest(numpy.round(ref, 8)))
    elif case['kind'] == 'mixed':
        # every argument keeps its own precision whatever the types of the others
        V = dict(f8=lambda k: k + .1, f4=lambda k: (k + .1).astype('f4'), i8=lambda k: (k * 1e6).astype('i8') * 33 + 1,
                 i4=lambda k: (k * 1e6).astype('i4') * 33 + 1, i2=lambda k: (k * 256).astype('i2') + 1)
        for pt, mt, ht in itertools.product(('f8', 'f4'), ('f8', 'f4', 'i8', 'i4', 'i2'), (None, 'f8', 'f4')):
            a = V[pt](g)
            m = V[mt](mass)
            h = None if ht is None else V[ht](hs)
            dbl = [numpy.array(x, 'f8') if x is not None else None for x in (a, m, h)]
            ref = numpy.zeros(mesh)
            # one at a time, in double precision
            for i in range(n):
                W.paint(ref, dbl[0][i:i + 1], mass=dbl[1][i:i + 1], hsml=None if h is None else dbl[2][i:i + 1], diffdir=dd, transform=T)
            S = max(1, abs(ref).max())
            for ct in ('f8', 'c16', 'f4'):
                c = numpy.zeros(mesh, ct)
                W.paint(c, a, mass=m, hsml=h, diffdir=dd, transform=T)
                R.step()
                R.nstates(1)
                tol = 1e-12 if ct != 'f4' else 3e-6
                if not lib.close(c.real, ref, 0, tol * S):
                    R.violation(key, 'positions %s, mass %s, hsml %s, canvas %s: %s' % (pt, mt, ht, ct, lib.maxdiff(c.real, ref)))
            if mt != 'f8':
                continue
            ff = (f + .1) / 3
            for ct in ('f8', 'f4'):
                fc = ff.astype(ct)
                want = numpy.array([W.readout(fc.astype('f8'), dbl[0][i:i + 1], hsml=None if h is None else dbl[2][i:i + 1], diffdir=dd, transform=T)[0]
                                    for i in range(n)])
                got = W.readout(fc, a, hsml=h, diffdir=dd, transform=T)
                R.step()
                R.nstates(1)
                tol = 1e-12
                if not lib.close(got, want, 0, tol * max(1, abs(want).max())):
                    R.violation(key + '/readout', 'positions %s, hsml %s, mesh %s: %s' % (pt, ht, ct, lib.maxdiff(got, want)))
            R.trace()
        R.outcome(key, lib.digest(numpy.round(ref, 6)))
    else:
        ax = [numpy.arange(-.5, n, .5) + .125 for n in mesh]
        q = numpy.stack(numpy.meshgrid(*ax, indexing='ij'), -1).reshape(-1, nd)
        q = q[::max(1, len(q) // 40)]
        m = 1. + numpy.arange(len(q)) % 5
        P = win.affine(nd, period=mesh)
        ref = numpy.zeros(mesh)
        W.paint(ref, q, mass=m, diffdir=dd, transform=P)
        vref = W.readout(f, q, diffdir=dd, transform=P)
        S = max(1, abs(ref).max())
        for sh in itertools.product(*[range(-n - 1, 2 * n + 1, 1 if nd == 1 else 2) for n in mesh]):
            want = numpy.roll(ref, sh, tuple(range(nd)))
            frol = numpy.roll(f, sh, tuple(range(nd)))
            for how in ('pos', 'transform'):
                c = numpy.zeros(mesh)
                qq, TT = (q + numpy.array(sh), P) if how == 'pos' else (q, P.shift(numpy.array(sh)))
                W.paint(c, qq, mass=m, diffdir=dd, transform=TT)
                if not lib.close(c, want, 0, 1e-12 * S):
                    R.violation(key + '/shift', 'a shift of %s by %s: %s' % (how, sh, lib.maxdiff(c, want)))
                v = W.readout(frol, qq, diffdir=dd, transform=TT)
                if not lib.close(v, vref, 0, 1e-11 * max(1, abs(vref).max())):
                    R.violation(key + '/shift', 'readout, a shift of %s by %s: %s' % (how, sh, lib.maxdiff(v, vref)))
                R.step(2)
                R.nstates(1)
            R.trace()
        # parts of a cell
        for sh in list(itertools.product(*[(.25, -.5, 1.75) for n in mesh])) + [.25, -.5, numpy.float32(.75)]:
            T1 = P.shift(sh if nd % 2 else numpy.array(sh)) if not isinstance(sh, float) else P.shift(sh)
            T2 = win.affine(nd, period=mesh, translate=numpy.array(sh, 'f8') * numpy.ones(nd))
            qq = q + numpy.array(sh, 'f8')
            a, b, c = numpy.zeros(mesh), numpy.zeros(mesh), numpy.zeros(mesh)
            for x, p, TT in ((a, qq, P), (b, q, T1), (c, q, T2)):
                W.paint(x, p, mass=m, diffdir=dd, transform=TT)
            vs = [W.readout(f, p, diffdir=dd, transform=TT) for p, TT in ((qq, P), (q, T1), (q, T2))]
            R.step(6)
            R.nstates(1)
            for x, y, v in ((b, 'shift', vs[1]), (c, 'translate', vs[2])):
                if not (lib.close(x, a, 0, 1e-12 * S) and lib.close(v, vs[0], 0, 1e-11 * max(1, abs(vref).max()))):
                    R.violation(key + '/shift', '%s by %s: %s %s' % (y, sh, lib.maxdiff(x, a), lib.maxdiff(v, vs[0])))
        for perm in itertools.permutations(range(nd)):
            pm = list(perm)
            pd = None if dd is None else pm.index(dd)
            TT = win.affine(nd, period=[mesh[i] for i in pm])
            for how in ('new', 'view'):
                c = numpy.zeros([mesh[i] for i in pm]) if how == 'new' else numpy.zeros(mesh).transpose(pm)
                W.paint(c, q[:, pm], mass=m, diffdir=pd, transform=TT)
                if not lib.close(c, ref.transpose(pm), 0, 1e-12 * S):
                    R.violation(key + '/perm', 'axes %s (%s): %s' % (pm, how, lib.maxdiff(c, ref.transpose(pm))))
                v = W.readout(f.transpose(pm) if how == 'view' else f.transpose(pm).copy(), q[:, pm], diffdir=pd, transform=TT)
                if not lib.close(v, vref, 0, 1e-11 * max(1, abs(vref).max())):
                    R.violation(key + '/perm', 'readout with axes %s (%s): %s' % (pm, how, lib.maxdiff(v, vref)))
                R.step(2)
                R.nstates(1)
            R.trace()
        # the forms of a mapping; none is the grid itself, without a period
        A = type(win.affine(nd))
        n0 = mesh[0]
        for period, forms in ((0, [None, A(nd), A(nd, scale=1), A(nd, 1.0, 0, 0), A(nd, scale=numpy.ones(nd, 'f4'), translate=[0] * nd, period=[0] * nd),
                                   A(nd, numpy.float32(1), numpy.int32(0), numpy.int64(0)), A(nd).rescale(1), A(nd).shift(0), A(nd).shift([0] * nd)]),
                              (n0, [A(nd, period=n0), A(nd, period=[n0] * nd), A(nd, period=numpy.full(nd, n0, 'i4')), A(nd, period=(n0,) * nd), A(nd, period=float(n0))])):
            cube = [n0] * nd
            fq = field(cube, 'f8')
            want = numpy.zeros(cube)
            W.paint(want, q, mass=m, diffdir=dd, transform=win.affine(nd, scale=numpy.ones(nd), translate=numpy.zeros(nd), period=numpy.full(nd, period)))
            vwant = W.readout(fq, q, diffdir=dd, transform=win.affine(nd, scale=numpy.ones(nd), translate=numpy.zeros(nd), period=numpy.full(nd, period)))
            for j, TT in enumerate(forms):
                for d2 in [dd] if dd is None else [dd, dd - nd, numpy.int32(dd)]:
                    c = numpy.zeros(cube)
                    kw = {} if TT is None else dict(transform=TT)
                    W.paint(c, q, mass=m, diffdir=d2, **kw)
                    v = W.readout(fq, q, diffdir=d2, **kw)
                    R.step(2)
                    R.nstates(1)
                    if not (lib.close(c, want, 0, 1e-12 * S) and lib.close(v, vwant, 0, 1e-11 * max(1, abs(vwant).max()))):
                        R.violation(key + '/mapping', 'form %d of the mapping of period %s, direction %s: %s %s' % (j, period, d2, lib.maxdiff(c, want), lib.maxdiff(v, vwant)))
        # scale and rescale
        for s in (.5, 2.0, [2., .25, 4.][:nd]):
            c = numpy.zeros(mesh)
            W.paint(c, q / numpy.array(s), mass=m, diffdir=dd, transform=P.rescale(numpy.array(s) * numpy.ones(nd)))
            fac = 1 if dd is None else (numpy.ones(nd) * s)[dd]
            R.check(lib.close(c, ref * fac, 0, 1e-12 * S * max(1, fac)), key + '/rescale', 'rescale by %s' % (s,))
            R.check(numpy.array_equal(P.scale, numpy.ones(nd)), key + '/rescale', 'rescale changes the original')
            R.nstates(1)
        R.outcome(key, lib.digest(numpy.round(ref, 8)))


def bad(R, W, nd, mesh, T, g, mass, key):
    n = len(g)

    def attempt(what, fn, c, values):
        keep = c.copy()
        try:
            fn(c)
        except Exception:
            R.trace()
            R.nstates(1)
            R.step()
            return
        R.violation(key + '/' + what, '%s is accepted' % what)
    f8 = lambda: numpy.zeros(mesh)
    for k in range(1, nd):
        attempt('too few columns', lambda c: W.paint(c, g[:, :k], transform=T), f8(), 0)
        attempt('too few columns/readout', lambda c: W.readout(c, g[:, :k], transform=T), f8(), 0)
    attempt('1d positions', lambda c: W.paint(c, g[0], transform=T), f8(), 0)
    attempt('3d positions', lambda c: W.paint(c, g[None], transform=T), f8(), 0)
    for m in (n - 1, n + 1, 2):
        attempt('mass of length %d' % (m - n), lambda c: W.paint(c, g, mass=numpy.ones(m), transform=T), f8(), 0)
        attempt('hsml of length %d' % (m - n), lambda c: W.paint(c, g, hsml=numpy.ones(m), transform=T), f8(), 0)
        attempt('hsml of length %d/readout' % (m - n), lambda c: W.readout(c, g, hsml=numpy.ones(m), transform=T), f8(), 0)
    attempt('short out', lambda c: W.readout(c, g, out=numpy.zeros(n - 1), transform=T), f8(), 0)
    for dt in ('i4', 'i8', '?', 'f2', 'g', '>f8', '>f4'):
        attempt('canvas of type ' + dt, lambda c: W.paint(c, g, transform=T), numpy.zeros([2 * s for s in mesh], dt)[tuple(slice(s) for s in mesh)], 0)
        attempt('canvas of type ' + dt + '/readout', lambda c: W.readout(c, g, transform=T), numpy.zeros([2 * s for s in mesh], dt)[tuple(slice(s) for s in mesh)], 0)
    if nd > 1:
        attempt('transform of fewer dimensions', lambda c: W.paint(c, g, transform=win.affine(nd - 1)), f8(), 0)
    attempt('diffdir out of range', lambda c: W.paint(c, g, diffdir=nd, transform=T), f8(), 0)
    attempt('unknown window', lambda c: win.window('nosuch'), f8(), 0)
    attempt('not a transform', lambda c: W.paint(c, g, transform=1.0), f8(), 0)
    R.outcome(key, 'raises')
