"""C25: every vector-Jacobian product is the transpose of its Jacobian product."""
import itertools

import numpy

from mc import env, lib, mesh as M

ID = 'C25'
RULE = ('states are (operation, mesh shape, process mesh, window, derivative direction, selection and form of outputs, basis '
        'direction): full Jacobian matrices of readout and painting from all basis directions of their inputs against those '
        'from all basis directions of the outputs and against the serial windows; transforms, inner products and '
        'decompression over all modes')
ASSUMPTIONS = ['gradients of complex fields are taken over all modes, each and its conjugate; decompression refers to writing '
               'a mode together with its conjugate']


def cases(tier):
    out = []
    for mesh, nps in [((4, 3), [[1], [2], [3], [4]]), ((5,), [[]]), ((3, 4, 2), [[1, 1], [2, 1], [2, 2], [1, 3]])]:
        for np in nps:
            for w in ('cic', 'tsc', 'pcs', 'nnb', 'lanczos2') + (('db6', 'sym6', 'acg2', 'quadratic', 'lanczos3') if tier != 'quick' else ()):
                for g in [None] + list(range(len(mesh))):
                    out.append(dict(kind='window', mesh=mesh, np=np, w=w, g=g, dt='f8'))
    for w in ('cic', 'tsc'):
        out.append(dict(kind='window', mesh=(4, 3), np=[2], w=w, g=None, dt='f4'))
    # no layout, other units of the positions, positions in single precision
    for mesh, np in [((4, 3), [1]), ((4, 3), [2]), ((5,), []), ((3, 4, 2), [2, 1])]:
        for var in ('nolayout', 'grid', 'f4', 'F') + (() if tier == 'quick' else ('gridnolayout',)):
            if 'nolayout' in var and numpy.prod(np) > 1:
                continue
            for w in ('cic', 'pcs', 'lanczos2'):
                for g in (None, len(mesh) - 1):
                    out.append(dict(kind='window', mesh=mesh, np=np, w=w, g=g, dt='f8', var=var))
    for mesh in [(4, 3, 4), (3, 2, 5), (4, 4), (3, 5), (6,), (5,), (2, 1, 3), (1, 4)] + ([(6, 4, 4), (5, 5, 5)] if tier != 'quick' else []):
        for np in M.procmeshes(len(mesh), 4):
            for dt in ('f8', 'f4') if numpy.prod(np) == 1 else ('f8',):
                out.append(dict(kind='fourier', mesh=mesh, np=np, dt=dt))
    return out


def where(mesh):
    """particles (in cells), not on the points where a window has a kink"""
    nd = len(mesh)
    p = [[.3 + 1.17 * j + .61 * d * j - d for d in range(nd)] for j in range(5)]
    p += [[n - .2 for n in mesh], [-.15] * nd, [1.3] * nd, [1.3] * nd]
    return numpy.array(p)


def gather_matrix(rows):
    return numpy.array(rows)


def places(mesh, var):
    """(positions, factor from their units to cells)"""
    cell = numpy.ones(len(mesh)) if 'grid' in var else numpy.array(M.BOX[:len(mesh)]) / numpy.array(mesh)
    pos = where(mesh) * cell
    if var == 'f4':
        pos = pos.astype('f4')
    if var == 'F':
        pos = numpy.asfortranarray(pos)
    return pos, 1. / cell


def windows(comm, mesh, np, dt, w, g, var):
    pm = M.make(comm, mesh, np, dt, resampler='tsc')
    allpos = places(mesh, var)[0]
    n = len(allpos)
    mine = lib.split(n, comm.size, 'skip')[comm.rank]
    pos = allpos[mine]
    nd = len(mesh)
    f = pm.create('real')
    G = M.generic(mesh, 1)
    f[...] = G[f.slices]
    mass = (1. + numpy.arange(n) % 4)[mine]
    tr = dict(transform=pm.affine_grid) if 'grid' in var else {}
    layout = None if 'nolayout' in var else pm.decompose(pos, smoothing=w, **tr)
    kw = dict(resampler=w, gradient=g, layout=layout, **tr)
    keep = pos.copy(), mass.copy(), f.value.copy()
    cells = list(itertools.product(*[range(k) for k in mesh]))
    res = {}

    def cellfield(c, v=1.):
        e = pm.create('real', value=0)
        e.csetitem(c, v)
        return e

    def unit(i, shape):
        """rows of the basis vector of particle i that live here"""
        v = numpy.zeros(shape)
        if len(shape) == 1:
            v[mine == i] = 1
        return v
    # readout: jacobian by its own jvp
    res['r_self'] = [f.readout_jvp(pos, v_self=cellfield(c), **kw) for c in cells]
    res['r_vjp'] = []
    for i in range(n):
        v = unit(i, pos.shape[:1]) * 2.
        a, b = f.readout_vjp(pos, v, out_pos=False, **kw)
        assert b is False
        res['r_vjp'].append(M.part(a))
    res['p_mass'] = []
    for i in range(n):
        if g is None:
            res['p_mass'].append(M.part(pm.paint_jvp(pos, mass=mass, v_mass=unit(i, pos.shape[:1]), **kw)))
    res['p_vjp_mass'] = []
    for c in cells:
        a, b = pm.paint_vjp(cellfield(c), pos, mass=mass, out_pos=False, **kw)
        assert a is False
        res['p_vjp_mass'].append(b)
    for name, fn in (('rjvp', lambda: f.readout_jvp(pos, v_pos=numpy.ones_like(pos), **kw)),
                     ('rvjp', lambda: f.readout_vjp(pos, numpy.ones(len(pos)), out_self=False, **kw)),
                     ('pjvp', lambda: pm.paint_jvp(pos, v_pos=numpy.ones_like(pos), **kw)),
                     ('pvjp', lambda: pm.paint_vjp(f, pos, out_mass=False, **kw))):
        if g is not None:
            # second derivatives are refused
            try:
                fn()
                res['accept ' + name] = True
            except Exception:
                res['accept ' + name] = False
    if g is None:
        res['r_pos'], res['r_vjp_pos'] = [], []
        for i in range(n):
            for d in range(nd):
                v = numpy.zeros(pos.shape)
                v[mine == i, d] = 1
                res['r_pos'].append(f.readout_jvp(pos, v_pos=v, **kw))
        both = f.readout_jvp(pos, v_self=f, v_pos=numpy.ones_like(pos), **kw)
        res['r_both'] = both
        for i in range(n):
            v = unit(i, pos.shape[:1]) * 3.
            a, b = f.readout_vjp(pos, v, out_self=False, **kw)
            assert a is False
            res['r_vjp_pos'].append(b)
        res['p_pos'], res['p_vjp_pos'] = [], []
        for i in range(n):
            for d in range(nd):
                v = numpy.zeros(pos.shape)
                v[mine == i, d] = 1
                res['p_pos'].append(M.part(pm.paint_jvp(pos, mass=mass, v_pos=v, **kw)))
        o = pm.create('real', value=9.)
        r = pm.paint_jvp(pos, mass=mass, v_pos=numpy.ones_like(pos), v_mass=numpy.ones(len(pos)), out=o, **kw)
        res['p_both'] = M.part(r)
        assert r is o
        for c in cells:
            a, b = pm.paint_vjp(cellfield(c), pos, mass=mass, out_mass=False, **kw)
            assert b is False
            res['p_vjp_pos'].append(a)
        # scalar masses
        a, b = pm.paint_vjp(f, pos, mass=2., **kw)
        res['p_vjp_scalar'] = (a, b)
        # forms of the outputs
        forms = []
        v = mass * 1.5
        a0, b0 = f.readout_vjp(pos, v, **kw)
        for os_, op_ in itertools.product(('new', 'off', 'inplace', 'given'), ('new', 'off', 'inplace', 'given', 'same', 'strided')):
            h, p2 = f.copy(), pos.copy()
            gs, gp = pm.create('real', value=3), numpy.full(pos.shape, 4.)
            if op_ == 'strided':
                gp = numpy.full(pos.shape[::-1], 4.).T
            a, b = h.readout_vjp(p2, v, out_self={'new': None, 'off': False, 'inplace': Ellipsis, 'given': gs}[os_],
                                 out_pos={'new': None, 'off': False, 'inplace': Ellipsis, 'given': gp, 'same': p2, 'strided': gp}[op_], **kw)
            ok = a is False if os_ == 'off' else lib.close(a.value, a0.value, 0, 1e-5)
            ok &= b is False if op_ == 'off' else lib.close(b, b0, 0, 1e-5)
            ok &= (a is h if os_ == 'inplace' else a is gs if os_ == 'given' else True)
            ok &= (b is p2 if op_ in ('inplace', 'same') else b is gp if op_ in ('given', 'strided') else True)
            ok &= os_ == 'inplace' or bool((h.value == keep[2]).all())
            ok &= op_ in ('inplace', 'same') or bool((p2 == pos).all())
            forms.append(bool(ok) or 'readout %s %s' % (os_, op_))
        a0, b0 = pm.paint_vjp(f, pos, mass=mass, **kw)
        for op_, om in itertools.product(('new', 'off', 'inplace', 'given', 'same', 'strided'), ('new', 'off', 'inplace', 'given')):
            p2, m2 = pos.copy(), mass.copy()
            gp, gm = numpy.full(pos.shape, 4.), numpy.full(mass.shape, 4.)
            if op_ == 'strided':
                gp = numpy.full(pos.shape[::-1], 4.).T
            a, b = pm.paint_vjp(f, p2, mass=m2, out_pos={'new': None, 'off': False, 'inplace': Ellipsis, 'given': gp, 'same': p2, 'strided': gp}[op_],
                                out_mass={'new': None, 'off': False, 'inplace': Ellipsis, 'given': gm}[om], **kw)
            ok = a is False if op_ == 'off' else lib.close(a, a0, 0, 1e-5)
            ok &= b is False if om == 'off' else lib.close(b, b0, 0, 1e-5)
            ok &= (a is p2 if op_ in ('inplace', 'same') else a is gp if op_ in ('given', 'strided') else True)
            ok &= (b is m2 if om == 'inplace' else b is gm if om == 'given' else True)
            ok &= op_ in ('inplace', 'same') or bool((p2 == pos).all())
            ok &= om == 'inplace' or bool((m2 == mass).all())
            forms.append(bool(ok) or 'paint %s %s' % (op_, om))
        res['forms'] = forms
    res['keep'] = bool((pos == keep[0]).all() and (mass == keep[1]).all() and (f.value == keep[2]).all())
    return mine, res


def serial(mesh, w, dt, var):
    """readout matrices: plain and by derivative, particles x cells"""
    W = env.mod('window')
    r = W.FindResampler(w)
    pos, scale = places(mesh, var)
    pos = numpy.array(pos, 'f8')
    T = W.Affine(len(mesh), scale=scale, translate=0, period=mesh)
    out = []
    for g in [None] + list(range(len(mesh))):
        A = numpy.zeros((len(pos), int(numpy.prod(mesh))))
        for i in range(len(pos)):
            a = numpy.zeros(mesh)
            r.paint(a, pos[i:i + 1], diffdir=g, transform=T)
            A[i] = a.ravel()
        out.append(A)
    return out


def run_window(case, R):
    mesh, np, dt, w, g = tuple(case['mesh']), case['np'], case['dt'], case['w'], case['g']
    var = case.get('var', '')
    key = 'c25/%s/%s/np%s/%s/%s%s' % (w, 'x'.join(map(str, mesh)), np, dt, g, '/' + var if var else '')
    vals = lib.run_world(R, int(numpy.prod(np)), windows, (mesh, np, dt, w, g, var), key=key)
    if vals is None:
        return
    S = serial(mesh, w, dt, var)
    nd = len(mesh)
    A = S[0] if g is None else S[g + 1]
    n, nc = A.shape
    G = M.generic(mesh, 1).ravel()
    mass = 1. + numpy.arange(n) % 4
    tol = 3e-5 if dt == 'f4' else 3e-6 if var == 'f4' else 1e-11

    def percell(name, shape):
        """one array over particles per cell -> particles x cells"""
        out = numpy.full((nc, n) + shape, numpy.nan)
        for mine, res in vals:
            for c in range(nc):
                out[c][mine] = res[name][c]
        return numpy.moveaxis(out, 0, 1)

    def fields(name):
        return numpy.array([M.assemble([res[name][i] for _, res in vals]).ravel() for i in range(len(vals[0][1][name]))])

    def particles(get, shape=()):
        out = numpy.full((n,) + shape, numpy.nan)
        for mine, res in vals:
            out[mine] = get(res)
        return out

    def same(a, b, what):
        R.check(lib.close(a, b, 0, tol * 10), key + '/' + what, '%s: %s' % (what, lib.maxdiff(a, b)))
        R.nstates(a.size)
    same(percell('r_self', ()), A, 'readout_jvp by the field')
    same(fields('r_vjp') / 2., A, 'readout_vjp by the field')
    if g is None:
        same(fields('p_mass'), A, 'paint_jvp by mass')
    same(percell('p_vjp_mass', ()), A, 'paint_vjp by mass')
    R.check(all(res['keep'] for _, res in vals), key, 'an argument was changed')
    if g is None:
        D = numpy.stack(S[1:], 1)              # particles, direction, cells
        grad = D @ G
        J = numpy.zeros((n, nd, n))
        for i in range(n):
            J[i, :, i] = grad[i]
        got = numpy.array([particles(lambda res: res['r_pos'][q]) for q in range(n * nd)]).reshape(n, nd, n)
        same(got, J, 'readout_jvp by position')
        got = numpy.array([particles(lambda res: res['r_vjp_pos'][i], (nd,)) for i in range(n)])    # i, particle, d
        same(got / 3., numpy.moveaxis(J, 2, 0), 'readout_vjp by position')
        same(particles(lambda res: res['r_both']), A @ G + grad.sum(1), 'readout_jvp by both')
        same(fields('p_pos').reshape(n, nd, nc), D * mass[:, None, None], 'paint_jvp by position')
        same(M.assemble([res['p_both'] for _, res in vals]).ravel(), (D * mass[:, None, None]).sum((0, 1)) + A.sum(0), 'paint_jvp by both')
        same(percell('p_vjp_pos', (nd,)), numpy.moveaxis(D, 2, 1) * mass[:, None, None], 'paint_vjp by position')
        same(particles(lambda res: res['p_vjp_scalar'][0], (nd,)), 2 * grad, 'paint_vjp, scalar mass')
        same(particles(lambda res: res['p_vjp_scalar'][1]), A @ G, 'paint_vjp, scalar mass')
        for mine, res in vals:
            R.check(all(x is True for x in res['forms']), key + '/outputs', 'given or in-place outputs differ: %s' % [x for x in res['forms'] if x is not True])
    else:
        for name in ('rjvp', 'rvjp', 'pjvp', 'pvjp'):
            R.check(not any(res['accept ' + name] for _, res in vals), key + '/second', '%s: a second derivative is not refused' % name)
    R.outcome(key, lib.digest(numpy.round(A, 6)))


def fourier(comm, mesh, np, dt):
    pm = M.make(comm, mesh, np, dt)
    out = []
    cs = tuple(mesh[:-1]) + (mesh[-1] // 2 + 1,)
    cells = list(itertools.product(*[range(k) for k in mesh]))
    modes = list(itertools.product(*[range(k) for k in cs]))
    res = {}
    g = M.generic(mesh, 1)
    H = M.spectrum(M.generic(mesh, 2), False)
    for t in ('transposedcomplex', 'untransposedcomplex'):
        # c2r_vjp over all cells
        rows = []
        for i, c in enumerate(cells):
            e = pm.create('real', value=0)
            e.csetitem(c, 1.)
            o = pm.create(t, value=7) if i % 2 or t == 'untransposedcomplex' else None
            r = e.c2r_vjp(out=o)
            assert o is None or r is o
            rows.append(M.part(r))
        res['c2r', t] = rows
        f = pm.create('real')
        f[...] = g[f.slices]
        h = f.copy()
        res['c2r inplace', t] = M.part(h.c2r_vjp(out=Ellipsis))
        rows, dec, dirs = [], [], []
        grad = f.c2r_vjp(out=pm.create(t))
        keep = grad.value.copy()
        d1 = grad.decompress_vjp()
        assert type(d1) is type(grad)
        res['keep', t] = bool((keep == grad.value).all())
        o = pm.create(t, value=3)
        d3 = grad.decompress_vjp(out=o)
        d2 = grad.copy().decompress_vjp(out=Ellipsis)
        res['dec', t] = [M.part(d) for d in (d1, d2, d3)]
        assert d3 is o
        s = pm.create(t)
        s[...] = H[s.slices]
        for m in modes:
            for p in (0, 1):
                e = pm.create(t, value=0)
                e.csetitem(m + (p,), 1.)
                r = e.r2c_vjp(out=None if p else pm.create('real', value=2))
                rows.append(M.part(r))
                dirs.append(M.part(e))
        res['r2c', t] = rows
        res['dirs', t] = dirs
        h = s.copy()
        res['r2c inplace', t] = M.part(h.r2c_vjp(out=Ellipsis))
        keep = s.value.copy()
        res['cdot', t] = [M.part(s.cdot_vjp(2.5)), M.part(s.cdot_vjp(-1., metric=lambda k: 1 + k * k))]
        res['keep', t] = res['keep', t] and bool((s.value == keep).all())
    return res


def run_fourier(case, R):
    mesh, np, dt = tuple(case['mesh']), case['np'], case['dt']
    key = 'c25/fourier/%s/np%s/%s' % ('x'.join(map(str, mesh)), np, dt)
    vals = lib.run_world(R, int(numpy.prod(np)), fourier, (mesh, np, dt), key=key)
    if vals is None:
        return
    N = int(numpy.prod(mesh))
    tol = 3e-5 if dt == 'f4' else 1e-11
    cs = tuple(mesh[:-1]) + (mesh[-1] // 2 + 1,)
    modes = list(itertools.product(*[range(k) for k in cs]))
    cells = list(itertools.product(*[range(k) for k in mesh]))
    g = M.generic(mesh, 1)
    H = M.spectrum(M.generic(mesh, 2), False)

    def asm(name, i=None):
        return M.assemble([v[name] if i is None else v[name][i] for v in vals])

    def same(a, b, what):
        if isinstance(a, str):
            R.violation(key + '/' + what, a)
        R.check(lib.close(a, b, 0, tol * 10 * max(1, abs(b).max())), key + '/' + what, '%s: %s' % (what, lib.maxdiff(a, b)))
        R.nstates(a.size)
    k2 = numpy.sqrt(sum((numpy.fft.fftfreq(n) * n * 2 * numpy.pi / L).reshape([-1 if d == e else 1 for e in range(len(mesh))]) ** 2
                        for d, (n, L) in enumerate(zip(mesh, M.BOX))))[tuple(slice(0, s) for s in cs)]
    for t in ('transposedcomplex', 'untransposedcomplex'):
        for i, c in enumerate(cells):
            e = numpy.zeros(mesh)
            e[c] = 1
            same(asm(('c2r', t), i), numpy.fft.rfftn(e), 'c2r_vjp of cell %s to %s' % (c, t))
        same(asm(('c2r inplace', t)), numpy.fft.rfftn(g), 'c2r_vjp in place')
        same(asm(('r2c inplace', t)), M.generic(mesh, 2) / N, 'r2c_vjp in place')
        want = numpy.zeros((len(modes), 2))
        for i, m in enumerate(modes):
            for p in (0, 1):
                # the direction: this mode and its conjugate
                F = numpy.zeros(mesh, complex)
                dual = tuple(-a % n for a, n in zip(m, mesh))
                F[m] = 1 if p == 0 else 1j
                F[dual] = F[m].conj()
                if m == dual:
                    F[m] = F[m].real
                r = numpy.fft.ifftn(F).real * N
                same(asm(('r2c', t), 2 * i + p), r / N, 'r2c_vjp of mode %s part %d of %s' % (m, p, t))
                want[i, p] = (g * r).sum()
        for j, what in enumerate(('', ' in place', ' to a field')):
            got = asm(('dec', t), j).ravel()
            same(numpy.stack([got.real, got.imag], 1), want, 'decompress_vjp%s of %s' % (what, t))
        same(asm(('cdot', t), 0), 2.5 * H, 'cdot_vjp')
        same(asm(('cdot', t), 1), -H * (1 + k2 ** 2), 'cdot_vjp with metric')
        R.check(all(v['keep', t] for v in vals), key, 'the source is changed')
    R.outcome(key, lib.digest(numpy.round(want, 6)))


def run(case, R):
    (run_window if case['kind'] == 'window' else run_fourier)(case, R)
