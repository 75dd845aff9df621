"""C41: the operations of the gradient engine, their tangents and their adjoints."""
import itertools

import numpy

from mc import env, lib, mesh as M, vabopt

ID = 'C41'
RULE = ('states are (operation of the engine, mesh shape, process mesh, window, distribution of particles, basis direction): every operation is run on '
        'its own, its tangent on every basis direction of the inputs and its adjoint on every basis direction of the output; '
        'values and full matrices are compared with those of the serial operations')
ASSUMPTIONS = ['the package abopt is not installed; a stand-in (mc/vabopt.py) calls each operation and rule the way its declaration asks for',
               'gradients of complex fields are taken over all modes, each and its conjugate, those of decompression over the stored ones (as in C25); '
               'products of complex fields are not looked at']


def cases(tier):
    out = []
    for mesh in [(4, 3), (5,), (6,), (3, 4, 2), (4, 4), (3, 5)] + ([(5, 2, 3), (4, 4, 4), (1, 4), (6, 5)] if tier != 'quick' else []):
        nps = M.procmeshes(len(mesh), 4 if len(mesh) > 1 else 1)
        for np in nps:
            out.append(dict(kind='fourier', mesh=mesh, np=np, dt='f8'))
            if numpy.prod(np) < 2:
                out.append(dict(kind='fourier', mesh=mesh, np=np, dt='f4'))
            for w in ('cic', 'tsc') + (('pcs', 'lanczos2', 'quadratic') if tier != 'quick' else ()):
                if tier == 'quick' and mesh in ((4, 4), (3, 5)) and w == 'tsc':
                    continue
                out.append(dict(kind='particles', mesh=mesh, np=np, dt='f8', w=w))
            out.append(dict(kind='algebra', mesh=mesh, np=np, dt='f8'))
    return out


def engine(comm, pm, q=None):
    vabopt.install()
    A = env.mod('abopt', comm.rank)
    return A.ParticleMeshEngine(pm) if q is None else A.ParticleMeshEngine(pm, q), A


def where(mesh):
    nd = len(mesh)
    p = [[.3 + 1.17 * j + .61 * d * j - d for d in range(nd)] for j in range(5)]
    p += [[n - .2 for n in mesh], [-.15] * nd, [1.3] * nd, [1.3] * nd]
    return numpy.array(p)


def tfs(mesh):
    box = M.BOX[:len(mesh)]
    return {
        'real': lambda k: 2. + sum(ki * ki for ki in k),
        'imag': lambda k: 1j * numpy.sin(k[0] * (box[0] / mesh[0])) + 0 * sum(k),
        'grad': lambda k: 1j * k[-1] + 0 * sum(k),
        'mixed': lambda k: 3. + .25j * numpy.sin(k[-1] * (box[-1] / mesh[-1])) + 0 * sum(k),
        'number': lambda k: 2.0,
    }


def stored(mesh):
    return list(itertools.product(*[range(k) for k in tuple(mesh[:-1]) + (mesh[-1] // 2 + 1,)]))


def fourier(comm, mesh, np, dt):
    pm = M.make(comm, mesh, np, dt, resampler='cic')
    e, A = engine(comm, pm)
    E = type(e)
    G = M.generic(mesh, 1)
    H = M.spectrum(M.generic(mesh, 2), False)
    f, c = pm.create('real'), pm.create('complex')
    f[...] = G[f.slices]
    c[...] = H[c.slices]
    keep = f.value.copy(), c.value.copy()
    res = {}

    def cell(i):
        u = pm.create('real', value=0)
        u.csetitem(i, 1.)
        return u

    def mode(m):
        u = pm.create('complex', value=0)
        u.csetitem(m[:-1], complex(1, 0) if m[-1] == 0 else complex(0, 1))
        return u
    cells = list(itertools.product(*[range(k) for k in mesh]))
    modes = [m + (p,) for m in stored(mesh) for p in (0, 1)]

    def three(name, st, vin, vout, forward, basis, cobasis, **lit):
        given = dict(forward, **lit)
        res[name, 'value'] = M.part(st.forward(e, **given)[vout])
        res[name, 'tangent'] = [M.part(st.tangent(e, given, **{vin: u})[vout + '_']) for u in basis()]
        res[name, 'adjoint'] = [M.part(st.adjoint(e, given, **{vout: u})['_' + vin]) for u in cobasis()]
    R_, C_ = (lambda: (cell(i) for i in cells)), (lambda: (mode(m) for m in modes))
    three('c2r', E.c2r, 'complex', 'real', dict(complex=c), C_, R_)
    three('r2c', E.r2c, 'real', 'complex', dict(real=f), R_, C_)
    three('decompress', E.decompress, 'complex', 'complex', dict(complex=c), C_, C_)
    for Neff in (0, 1, 2, 3, 4):
        three('lowpass%d' % Neff, E.lowpass, 'real', 'real', dict(real=f), R_, R_, Neff=Neff)
    for n, tf in tfs(mesh).items():
        three('transfer ' + n, E.transfer, 'complex', 'complex', dict(complex=c), C_, C_, tf=tf)
    res['modes'] = [M.part(m) for m in C_()]
    res['keep'] = bool((f.value == keep[0]).all() and (c.value == keep[1]).all())
    return res


def run_fourier(case, R):
    mesh, np, dt = tuple(case['mesh']), case['np'], case['dt']
    key = 'c41/fourier/%s/np%s/%s' % ('x'.join(map(str, mesh)), np, dt)
    vals = lib.run_world(R, int(numpy.prod(np)), fourier, (mesh, np, dt), key=key)
    if vals is None:
        return
    N = int(numpy.prod(mesh))
    nd = len(mesh)
    tol = 3e-5 if dt == 'f4' else 1e-11
    G, H = M.generic(mesh, 1), M.spectrum(M.generic(mesh, 2), False)
    cells = list(itertools.product(*[range(k) for k in mesh]))

    def asm(*name):
        v = [v[name[:2]] for v in vals]
        return M.assemble([x[name[2]] for x in v] if len(name) > 2 else v)

    def same(got, want, what):
        if isinstance(got, str):
            R.violation(key + '/' + what, got)
            return
        want = numpy.asarray(want)
        R.check(lib.close(got, want, 0, tol * 10 * max(1, abs(want).max())), key + '/' + what, '%s: %s' % (what, lib.maxdiff(got, want)))
        R.nstates(want.size)
    half = tuple(slice(0, n) for n in tuple(mesh[:-1]) + (mesh[-1] // 2 + 1,))
    ints = [numpy.fft.fftfreq(n, 1. / n) for n in mesh]
    kk = numpy.meshgrid(*[i * 2 * numpy.pi / L for i, L in zip(ints, M.BOX)], indexing='ij')
    self_ = numpy.zeros(mesh, bool)
    for c in cells:
        self_[c] = all((n - a) % n == a for a, n in zip(c, mesh))
    eye = [(numpy.arange(N) == i).reshape(mesh) * 1. for i in range(N)]
    # a mode and its conjugate, as written by csetitem
    modes = [M.assemble([v['modes'][i] for v in vals]) for i in range(2 * len(stored(mesh)))]
    for i, m in enumerate(itertools.product(stored(mesh), (0, 1))):
        want = numpy.zeros(mesh, complex)
        want[m[0]] = 1 if m[1] == 0 else 1j
        dual = tuple(-a % n for a, n in zip(m[0], mesh))
        want[dual] = want[m[0]].conj()
        if dual == m[0]:
            want[dual] = want[dual].real
        same(modes[i], want[half], 'mode %s' % (m,))
        modes[i] = want
    full = lambda H: numpy.fft.fftn(numpy.fft.irfftn(H, s=mesh, axes=range(nd)))

    def one(name, value, op, op_t, ins, outs):
        same(asm(name, 'value'), value, name)
        for i, u in enumerate(ins):
            same(asm(name, 'tangent', i), op(u), '%s: tangent of direction %d' % (name, i))
        for i, u in enumerate(outs):
            same(asm(name, 'adjoint', i), op_t(u), '%s: adjoint of direction %d' % (name, i))
        R.outcome(key, name)
    inv = lambda U: numpy.fft.ifftn(U).real * N
    one('c2r', M.generic(mesh, 2), inv, lambda u: numpy.fft.rfftn(u), modes, eye)
    one('r2c', M.spectrum(G, False), lambda u: numpy.fft.rfftn(u) / N, lambda U: inv(U) / N, eye, modes)
    one('decompress', H, lambda U: U[half], lambda U: numpy.where(self_, U, 2 * U)[half], modes, modes)
    for Neff in (0, 1, 2, 3, 4):
        keepk = numpy.ones(mesh, bool)
        for d, i in enumerate(ints):
            keepk &= (abs(i) <= Neff // 2).reshape([-1 if d == q else 1 for q in range(nd)])
        P = lambda u: numpy.fft.ifftn(numpy.fft.fftn(u) * keepk).real
        one('lowpass%d' % Neff, P(G), P, P, eye, eye)
    # a mode that is its own conjugate has no phase; the sign of the Nyquist frequency is that of the mesh
    for n, tf in tfs(mesh).items():
        k = [numpy.where(abs(q) > (m / 2. - .01) * 2 * numpy.pi / L, -abs(q), q) if m % 2 == 0 else q for q, m, L in zip(kk, mesh, M.BOX)]
        T = numpy.zeros(mesh, complex) + tf(k)
        T = numpy.where(self_ & (T.imag != 0), 0, T)
        bad = ~self_ & (abs(T.imag) > 0)
        ny = numpy.zeros(mesh, bool)
        for d, m in enumerate(mesh):
            if m % 2 == 0:
                ny[tuple([slice(None)] * d + [m // 2])] = True
        ny = (ny & ~self_)[half]

        def part(x):
            # the sign of a Nyquist frequency may be either one
            return numpy.where(ny, 0, x)
        for what, F, count in (('value', lambda U: T * U, 1), ('tangent', lambda U: T * U, len(modes)), ('adjoint', lambda U: T.conj() * U, len(modes))):
            for i in range(count):
                got = asm('transfer ' + n, what) if what == 'value' else asm('transfer ' + n, what, i)
                U = full(H) if what == 'value' else modes[i]
                same(got if isinstance(got, str) else part(got), part(F(U)[half]), 'transfer %s: %s %d' % (n, what, i))
        R.outcome(key, 'transfer', n)
    R.check(all(v['keep'] for v in vals), key + '/keep', 'an operation changes a value that is only read')


def particles(comm, mesh, np, dt, w, how):
    pm = M.make(comm, mesh, np, dt, resampler=w)
    nd = len(mesh)
    cell = numpy.array(M.BOX[:nd]) / numpy.array(mesh)
    allpos = where(mesh) * cell
    n = len(allpos)
    mine = lib.split(n, comm.size, how)[comm.rank]
    x = allpos[mine]
    e, A = engine(comm, pm, x)
    E = type(e)
    f = pm.create('real')
    f[...] = M.generic(mesh, 1)[f.slices]
    keep = x.copy(), f.value.copy()
    cells = list(itertools.product(*[range(k) for k in mesh]))
    Z = vabopt.ZERO

    def cellfield(c):
        u = pm.create('real', value=0)
        u.csetitem(c, 1.)
        return u
    dirs = []
    for i, d in itertools.product(range(n), range(nd)):
        u = numpy.zeros(x.shape)
        u[mine == i, d] = 1
        dirs.append(u)
    rows = []
    for i in range(n):
        u = numpy.zeros(len(x))
        u[mine == i] = 1
        rows.append(u)
    res = {}
    L = E.decompose.forward(e, x=x)['layout']
    res['none'] = [E.decompose.tangent(e, dict(x=x), x=u)['layout_'] is Z for u in dirs[:1]] + \
        [E.decompose.adjoint(e, dict(x=x), layout=Z)['_x'] is Z]
    given = dict(x=x, layout=L)
    res['paint'] = M.part(E.paint.forward(e, **given)['mesh'])
    res['paint tangent'] = [M.part(E.paint.tangent(e, given, x=u, layout=Z)['mesh_']) for u in dirs]
    res['paint still'] = M.part(E.paint.tangent(e, given, x=Z, layout=Z)['mesh_'])
    back = [E.paint.adjoint(e, given, mesh=cellfield(c)) for c in cells]
    res['paint adjoint'] = [b['_x'] for b in back]
    res['none'] += [b['_layout'] is Z for b in back]
    given = dict(x=x, mesh=f, layout=L)
    res['readout'] = E.readout.forward(e, **given)['value']
    res['readout by x'] = [E.readout.tangent(e, given, x=u, mesh=Z, layout=Z)['value_'] for u in dirs]
    res['readout by mesh'] = [E.readout.tangent(e, given, x=Z, mesh=cellfield(c), layout=Z)['value_'] for c in cells]
    res['readout by both'] = E.readout.tangent(e, given, x=numpy.ones_like(x), mesh=f, layout=Z)['value_']
    back = [E.readout.adjoint(e, given, value=u) for u in rows]
    res['readout adjoint x'] = [b['_x'] for b in back]
    res['readout adjoint mesh'] = [M.part(b['_mesh']) for b in back]
    # displacements from the positions of the grid
    s = .25 * numpy.ones_like(x)
    code = E.get_x.body(e, s='s', x='x')
    res['get_x'] = bool(lib.close(code.run(s=s)['x'], x + s, 0, 1e-12))
    res['keep'] = bool((x == keep[0]).all() and (f.value == keep[1]).all() and (e.q == keep[0]).all())
    d, _ = engine(comm, pm)
    res['default q'] = d.q
    return mine, res


_serial = {}


def serial(mesh, w):
    if (mesh, w) not in _serial:
        W = env.mod('window')
        T = W.Affine(len(mesh), scale=numpy.array(mesh) / numpy.array(M.BOX[:len(mesh)]), translate=0, period=mesh)
        pos = where(mesh) * (numpy.array(M.BOX[:len(mesh)]) / numpy.array(mesh))
        out = []
        for g in [None] + list(range(len(mesh))):
            a = numpy.zeros((len(pos),) + mesh)
            for i in range(len(pos)):
                W.FindResampler(w).paint(a[i], pos[i:i + 1], diffdir=g, transform=T)
            out.append(a.reshape(len(pos), -1))
        _serial[mesh, w] = out
    return _serial[mesh, w]


def run_particles(case, R):
    mesh, np, dt, w = tuple(case['mesh']), case['np'], case['dt'], case['w']
    nd, nc = len(mesh), int(numpy.prod(mesh))
    size = int(numpy.prod(np))
    S = serial(mesh, w)
    A, D = S[0], numpy.stack(S[1:], 1)             # particles x cells, particles x directions x cells
    n = len(A)
    G = M.generic(mesh, 1).ravel()
    grad = D @ G
    fac = nc / float(n)
    for how in ('cyclic', 'skip') if size > 1 else ('cyclic',):
        key = 'c41/particles/%s/%s/np%s/%s' % (w, 'x'.join(map(str, mesh)), np, how)
        vals = lib.run_world(R, size, particles, (mesh, np, dt, w, how), key=key)
        if vals is None:
            return

        def pts(get, shape=()):
            out = numpy.full((n,) + shape, numpy.nan)
            for mine, res in vals:
                v = get(res)
                if numpy.shape(v) != (len(mine),) + shape:
                    R.violation(key + '/shape', 'shape %s for %d particles' % (numpy.shape(v), len(mine)))
                else:
                    out[mine] = v
            return out

        def same(got, want, what):
            if isinstance(got, str):
                R.violation(key + '/' + what, got)
                return
            got = got.reshape(want.shape)
            R.check(lib.close(got, want, 0, 1e-10 * max(1, abs(want).max())), key + '/' + what, '%s: %s' % (what, lib.maxdiff(got, want)))
            R.nstates(want.size)
        same(M.assemble([r['paint'] for _, r in vals]), A.sum(0) * fac, 'paint')
        same(M.assemble([r['paint still'] for _, r in vals]), 0 * A.sum(0), 'paint: tangent of particles that do not move')
        same(pts(lambda r: r['readout']), A @ G, 'readout')
        same(pts(lambda r: r['readout by both']), A @ G + grad.sum(1), 'readout: tangent of both')
        for i, d in itertools.product(range(n), range(nd)):
            same(M.assemble([r['paint tangent'][i * nd + d] for _, r in vals]), D[i, d] * fac, 'paint: tangent by x of %d,%d' % (i, d))
            want = numpy.zeros(n)
            want[i] = grad[i, d]
            same(pts(lambda r: r['readout by x'][i * nd + d]), want, 'readout: tangent by x of %d,%d' % (i, d))
        for c in range(nc):
            same(pts(lambda r: r['paint adjoint'][c], (nd,)), D[:, :, c] * fac, 'paint: adjoint of cell %d' % c)
            same(pts(lambda r: r['readout by mesh'][c]), A[:, c], 'readout: tangent by cell %d' % c)
        for i in range(n):
            want = numpy.zeros((n, nd))
            want[i] = grad[i]
            same(pts(lambda r: r['readout adjoint x'][i], (nd,)), want, 'readout: adjoint x of %d' % i)
            same(M.assemble([r['readout adjoint mesh'][i] for _, r in vals]), A[i], 'readout: adjoint mesh of %d' % i)
        R.check(all(all(r['none']) for _, r in vals), key + '/layout', 'a layout has no derivative')
        R.check(all(r['get_x'] for _, r in vals), key + '/get_x', 'positions are not the grid plus the displacement')
        R.check(all(r['keep'] for _, r in vals), key + '/keep', 'an operation changes a value that is only read')
        q = numpy.concatenate([r['default q'] for _, r in vals])
        grid = numpy.stack(numpy.meshgrid(*[numpy.arange(m) * (L / m) for m, L in zip(mesh, M.BOX)], indexing='ij'), -1).reshape(-1, nd)
        o = lambda a: sorted(map(tuple, numpy.round(a, 4).tolist()))
        R.check(len(q) == nc and lib.close(numpy.array(o(q)), numpy.array(o(grid)), 0, 1e-3), key + '/q', 'the default particles are not one at each mesh point')
        R.outcome(key)


def algebra(comm, mesh, np, dt):
    """operations that work element by element, on particles, fields and numbers"""
    pm = M.make(comm, mesh, np, dt)
    nd = len(mesh)
    n = 7
    mine = lib.split(n, comm.size, 'skip')[comm.rank]
    q = numpy.zeros((len(mine), nd))
    e, A = engine(comm, pm, q)
    E = type(e)
    vec = lambda k: ((numpy.arange(n * nd).reshape(n, nd) * (5 + 2 * k) + k) % 11 / 4. - 1)[mine]
    sca = lambda k: ((numpy.arange(n) * (3 + 2 * k) + k) % 7 / 4. - 1)[mine]

    def real(k):
        f = pm.create('real')
        f[...] = M.generic(mesh, k)[f.slices]
        return f

    def cplx(k):
        f = pm.create('complex')
        f[...] = M.spectrum(M.generic(mesh, k), False)[f.slices]
        return f
    plain = lambda v: v if numpy.isscalar(v) else numpy.array(getattr(v, 'value', v))
    bad = []

    def eq(got, want, what):
        if got is vabopt.ZERO:
            bad.append(what + ': not set')
        elif numpy.shape(plain(got)) != numpy.shape(plain(want)) or not lib.close(plain(got), plain(want), 0, 1e-11 * (1 + numpy.max(abs(numpy.asarray(plain(want))), initial=0))):
            bad.append('%s: %s' % (what, lib.maxdiff(plain(got), plain(want)) if numpy.shape(plain(got)) == numpy.shape(plain(want)) else 'another shape'))
    total = lambda a: comm.allreduce(float(a.sum()))
    for name, make in (('vectors', vec), ('numbers', sca), ('fields', real), ('scalar', lambda k: 1.5 + k)):
        a, b, u, v, y = (make(k) for k in range(5))
        pa, pb, pu, pv, py = (plain(t) for t in (a, b, u, v, y))
        keep = [numpy.array(t) for t in (pa, pb, pu, pv, py)]
        if name != 'scalar':
            g = dict(x=a)
            r = E.assign.forward(e, **g)['y']
            eq(r, pa, name + ' assign')
            r = E.assign.tangent(e, g, x=u)['y_']
            eq(r, pu, name + ' assign tangent')
            eq(E.assign.adjoint(e, g, y=y)['_x'], py, name + ' assign adjoint')
            # a copy: changing it leaves the source
            r = E.assign.forward(e, **g)['y']
            r[...] = 0
            eq(a, keep[0], name + ' assign copies')
        g = dict(x1=a, x2=b)
        eq(E.add.forward(e, **g)['y'], pa + pb, name + ' add')
        eq(E.add.tangent(e, g, x1=u, x2=v)['y_'], pu + pv, name + ' add tangent')
        back = E.add.adjoint(e, g, y=y)
        eq(back['_x1'], py, name + ' add adjoint 1')
        eq(back['_x2'], py, name + ' add adjoint 2')
        eq(E.multiply.forward(e, **g)['y'], pa * pb, name + ' multiply')
        eq(E.multiply.tangent(e, g, x1=u, x2=v)['y_'], pu * pb + pa * pv, name + ' multiply tangent')
        back = E.multiply.adjoint(e, g, y=y)
        eq(back['_x1'], py * pb, name + ' multiply adjoint 1')
        eq(back['_x2'], py * pa, name + ' multiply adjoint 2')
        for sigma in (.5, 4):
            g = dict(model=a, data=b, sigma=sigma)
            eq(E.residual.forward(e, **g)['residual'], (pa - pb) / sigma, name + ' residual')
            eq(E.residual.tangent(e, g, model=u)['residual_'], pu / sigma, name + ' residual tangent')
            eq(E.residual.adjoint(e, g, residual=y)['_model'], py / sigma, name + ' residual adjoint')
        if name != 'scalar':
            eq(E.to_scalar.forward(e, x=a)['y'], total(pa ** 2), name + ' to_scalar')
            eq(E.to_scalar.tangent(e, dict(x=a), x=u)['y_'], 2 * total(pa * pu), name + ' to_scalar tangent')
            eq(E.to_scalar.adjoint(e, dict(x=a), y=1.5)['_x'], 3 * pa, name + ' to_scalar adjoint')
            eq(e.vs.dot(a, b), total(pa * pb), name + ' dot')
        for p in (1, 2, 3):
            for c in (b, 2.5):
                eq(e.vs.addmul(a, u, c, p), pa + pu * plain(c) ** p, name + ' addmul %d' % p)
        eq(e.vs.addmul(a, u, c), pa + pu * plain(c), name + ' addmul')
        eq(e.vs.addmul(0, u, 1), pu, name + ' addmul of nothing')
        for t, k in zip((a, b, u, v, y), keep):
            eq(t, k, name + ': only read')
    for d in range(nd):
        # one component of a vector
        a, s, u, w = vec(0), sca(1), vec(2), sca(3)
        g = dict(attribute=a, value=s, dim=d)
        want = a.copy()
        want[:, d] = s
        eq(E.assign_component.forward(e, **g)['attribute'], want, 'assign_component')
        want = u.copy()
        want[:, d] = w
        eq(E.assign_component.tangent(e, g, attribute=u, value=w)['attribute_'], want, 'assign_component tangent')
        back = E.assign_component.adjoint(e, g, attribute=u)
        want = u.copy()
        want[:, d] = 0
        eq(back['_value'], u[:, d], 'assign_component adjoint of the value')
        eq(back['_attribute'], want, 'assign_component adjoint of the rest: what is overwritten does not matter')
        eq(u, vec(2), 'assign_component: only read')
        eq(a, vec(0), 'assign_component: only read')
    for what, f in (('forward', lambda: E.to_scalar.forward(e, x=cplx(1))), ('tangent', lambda: E.to_scalar.tangent(e, dict(x=cplx(1)), x=cplx(2))),
                    ('dot', lambda: e.vs.dot(real(1), cplx(2))), ('addmul', lambda: e.vs.addmul(1., 'a', 2.))):
        try:
            f()
            bad.append(what + ': is not refused')
        except TypeError:
            pass
    # sums of single precision in double precision
    x = numpy.ones(n, 'f4')
    x[0] = 4096
    g = x[mine]
    eq(E.to_scalar.forward(e, x=g)['y'], 4096. ** 2 + n - 1, 'to_scalar in single precision')
    eq(E.to_scalar.tangent(e, dict(x=g), x=g)['y_'], 2 * (4096. ** 2 + n - 1), 'to_scalar tangent in single precision')
    eq(e.vs.dot(g, g), 4096. ** 2 + n - 1, 'dot in single precision')
    # fields of modes
    a, b, c = cplx(1), cplx(2), cplx(3)
    pa, pb, pc = (t.value.copy() for t in (a, b, c))
    for p in (1, 2, 3):
        eq(e.vs.addmul(a, b, 2.5, p), pa + pb * 2.5 ** p, 'modes addmul %d' % p)
    eq(e.vs.addmul(0, b, 1.), pb, 'modes addmul of nothing')
    eq(E.assign.forward(e, x=a)['y'], pa, 'modes assign')
    eq(E.add.forward(e, x1=a, x2=b)['y'], pa + pb, 'modes add')
    eq(E.residual.forward(e, model=a, data=b, sigma=2.)['residual'], (pa - pb) / 2, 'modes residual')
    for t, k in ((a, pa), (b, pb), (c, pc)):
        eq(t, k, 'modes: only read')
    return bad, complex(e.vs.dot(a, b))


def run_algebra(case, R):
    mesh, np, dt = tuple(case['mesh']), case['np'], case['dt']
    key = 'c41/algebra/%s/np%s' % ('x'.join(map(str, mesh)), np)
    vals = lib.run_world(R, int(numpy.prod(np)), algebra, (mesh, np, dt), key=key)
    if vals is None:
        return
    F, G = (numpy.fft.fftn(M.generic(mesh, k)) / numpy.prod(mesh) for k in (1, 2))
    want = (F.conj() * G).sum()
    for r, (bad, dot) in enumerate(vals):
        for b in bad:
            R.violation(key + '/' + b.split(':')[0], 'rank %d: %s' % (r, b))
        R.check(abs(dot.real - want.real) < 1e-10 * (1 + abs(want)), key + '/dot', 'inner product of modes %s, %s expected' % (dot, want))
        R.nstates(100)
    R.outcome(key, round(dot.real, 6))


def run(case, R):
    {'fourier': run_fourier, 'particles': run_particles, 'algebra': run_algebra}[case['kind']](case, R)
