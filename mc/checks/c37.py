"""C37: the legacy mesh and the legacy resampling match the current engine and the defined windows."""
import contextlib
import io
import itertools
import os

import numpy

os.environ.setdefault('NUMBA_DISABLE_JIT', '1')

from mc import env, lib, mesh as M
from mc.checks import c35, c36

ID = 'C37'
RULE = ('states are (mesh size, process mesh, type, brush, history of operations on the legacy mesh): all histories up to a depth, the whole '
        'canvas compared after each; and for the resampling (window, mesh, period, mode, position): every position of a lattice')
ASSUMPTIONS = ['a window of the resampling is defined up to a constant factor', 'the canvas holds either real values or modes, which share their memory; '
               'operations on the other one are not part of the histories']

BOX = [3., 2., 5.]
REAL = ['set', 'clear', 'paint', 'paintw', 'r2c']
CPLX = ['setc', 'clear', 'push', 'pop', 'gauss', 'c2r', 'c2rlap']


def histories(depth):
    """all valid histories of exactly this length"""
    out = []

    def rec(h, real, stack):
        if len(h) == depth:
            out.append(tuple(h))
            return
        for op in REAL if real else CPLX:
            if op == 'pop' and not stack:
                continue
            s = stack + (op == 'push') - (op == 'pop')
            r = {'r2c': False, 'c2r': True, 'c2rlap': True, 'clear': True}.get(op, real)
            rec(h + [op], r, s)
    rec([], True, 0)
    return out


def balanced(h):
    """never more restored than saved, two saved states at a time, a restore at the end"""
    n, top = 0, 0
    for op in h:
        n += (op == 'push') - (op == 'pop')
        top = max(top, n)
        if n < 0:
            return False
    return top > 1 and h[-1] == 'pop'


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def cases(tier):
    out = []
    q = tier == 'quick'
    for brush, dt in itertools.product(('cic', 'tsc'), ('f8', 'f4')):
        for np in [None] + [p for p in M.procmeshes(3, 6) if len(p) == 2]:
            for size in ([1, 4, 6] if np is None else [int(numpy.prod(np))]):
                for N in (3, 4, 6) if q else (2, 3, 4, 5, 6, 7, 8):
                    if q and (dt == 'f4' and (N != 4 or size not in (1, 4)) or size not in {3: (1, 2, 3, 5, 6), 4: (1, 2, 4), 6: (4, 6)}[N]):
                        continue
                    deep = (size, np, N, dt) in ((1, [1, 1], 3, 'f8'), (2, [2, 1], 4, 'f8')) and brush == 'cic'
                    d = (5 if q else 6) if deep else (2 if q and size > 4 else 3 if q or size > 4 or N not in (3, 4) else 4)
                    d = d - 1 if brush == 'tsc' and d == 3 else d
                    for hs in chunks(histories(d), 60):
                        out.append(dict(kind='mesh', N=N, np=np, size=size, dt=dt, brush=brush, hs=hs))
    # saving and restoring: all histories of modes with several saved states
    for size, np, N, k in (1, [1, 1], 3, 6 if q else 8), (2, [2, 1], 4, 5 if q else 6):
        hs = [('set', 'r2c') + h for h in itertools.product(('setc', 'gauss', 'push', 'pop'), repeat=k) if balanced(h)]
        for h in chunks(hs, 60):
            out.append(dict(kind='mesh', N=N, np=np, size=size, dt='f8', brush='cic', hs=h))
    for w in ('linear', 'cubic', 'lanczos2', 'lanczos3', 'lanczos1.5', 'kaiser2', 'kaiser3'):
        for mesh in [(7,), (8, 5)] + ([(6,), (3,), (6, 6), (4, 3, 5), (7, 6, 8)] if not q else [(6, 4, 7)] if w in ('linear', 'lanczos2') else []):
            out.append(dict(kind='window', w=w, mesh=mesh, fine=not q))
    for w, mesh in (('linear', (7,)), ('cubic', (8, 5)), ('lanczos2', (7,))):
        for n in [2 ** 16 - 1, 2 ** 16, 2 ** 16 + 1, 2 ** 17 + 3] + ([] if q else [3 * 2 ** 16 + 1, 10 ** 6]):
            out.append(dict(kind='long', w=w, mesh=mesh, n=n))
    return out


def particles(N):
    """positions in cells: a coarse lattice over more than the period and the edges of cells"""
    a = [[-1.3 + .9 * i, .2 + .7 * ((3 * i) % 11), N + 1.6 - .8 * i] for i in range(2 * N + 4)]
    b = [[c, N / 2. + .25, .125] for c in range(-1, N + 2)] + [[.75, c + .5, N - .25] for c in range(-1, N + 1)] + [[N / 3., N - .5, c] for c in range(N)]
    pos = numpy.array(a + b, 'f8')
    mass = 1. + numpy.arange(len(pos)) * 5 % 7 - 2.5
    return pos, mass


def program(comm, N, np, dt, brush, hs):
    mod = env.mod('particlemesh', comm.rank)
    T = env.mod('transfer', comm.rank).TransferFunction
    kw = {} if brush == 'cic' else dict(paintbrush=brush)
    if N == 4:
        kw['verbose'] = True
    pm = mod.ParticleMesh(BOX, N, comm=comm, np=np, dtype=dt, **kw)
    p = pm.partition
    ri = tuple((int(s), int(s) + int(n)) for s, n in zip(p.local_i_start, p.local_ni))
    ro = tuple((int(s), int(s) + int(n)) for s, n in zip(p.local_o_start, p.local_no))
    si, so = (tuple(slice(a, b) for a, b in r) for r in (ri, ro))
    coords = [[numpy.array(a) for a in v] for v in (pm.w, pm.k, pm.r, pm.x)]
    fresh = bool((pm.real == 0).all())
    pos, mass = particles(N)
    ids = lib.split(len(pos), comm.size, 'cyclic')[comm.rank]
    cell = numpy.array(BOX) / N
    # the layout
    layout = pm.decompose(pos[ids] * cell)
    gp = layout.exchange(pos[ids] * cell)
    gm = layout.exchange(mass[ids])
    # the current engine
    new = M.make(comm, (N,) * 3, np, dt, box=BOX, resampler=brush)
    l2 = new.decompose(pos[ids] * cell)
    cur = new.paint(pos[ids] * cell, mass=mass[ids] * (N ** 3 / numpy.prod(BOX)), layout=l2)
    cur = (tuple((int(s.start), int(s.stop)) for s in cur.slices), numpy.array(cur.value))
    out = []
    g, G = M.generic((N,) * 3, 1), M.generic((N,) * 3, 2)
    GF = M.spectrum(G, False)
    seen = set()
    for h in hs:
        steps = []
        pm.clear()
        pm.stack = []
        for n, op in enumerate(h):
            if op == 'set':
                pm.real[...] = g[si]
            elif op == 'setc':
                pm.complex[...] = GF[so]
            elif op == 'clear':
                pm.clear()
            elif op == 'paint':
                pm.paint(gp)
            elif op == 'paintw':
                pm.paint(gp, mass=gm)
            elif op == 'r2c':
                pm.r2c()
            elif op == 'push':
                pm.push()
            elif op == 'pop':
                pm.pop()
            elif op == 'gauss':
                pm.transfer([T.Gaussian(.8)])
            elif op == 'c2r':
                pm.c2r()
            elif op == 'c2rlap':
                pm.c2r([T.Gaussian(.8), T.Laplace])
            real = op in ('set', 'clear', 'paint', 'paintw', 'c2r', 'c2rlap')
            v = layout.gather(pm.readout(gp), mode='sum') if real and h[:n + 1] not in seen else None
            seen.add(h[:n + 1])
            steps.append((real, numpy.array(pm.real if real else pm.complex), v))
        out.append(steps)
    return ri, ro, coords, fresh, ids, cur, out


def model(h, N, W, mass):
    """the canvas after each operation"""
    state, stack, out = numpy.zeros((N,) * 3), [], []
    g, G = M.generic((N,) * 3, 1), M.generic((N,) * 3, 2)
    GF = M.spectrum(G, False)
    f = N ** 3 / numpy.prod(BOX)
    one = numpy.tensordot(numpy.ones(len(mass)), W, axes=(0, 0)) * f
    wgt = numpy.tensordot(mass, W, axes=(0, 0)) * f
    for op in h:
        if op == 'set':
            state = g
        elif op == 'setc':
            state = GF
        elif op == 'clear':
            state = numpy.zeros((N,) * 3)
        elif op == 'paint':
            state = state + one
        elif op == 'paintw':
            state = state + wgt
        elif op == 'r2c':
            state = M.spectrum(state, False)
        elif op == 'push':
            stack.append(state)
        elif op == 'pop':
            state = stack.pop()
        elif op == 'gauss':
            state = c36.model(state, ('Gaussian', .8), N)
        elif op == 'c2r':
            state = M.inverse(state, (N,) * 3, False)
        elif op == 'c2rlap':
            state = c36.model(c36.model(state, ('Gaussian', .8), N), ('Laplace',), N)
            state = M.inverse(state, (N,) * 3, False)
        out.append(state)
    return out


def run_mesh(case, R):
    N, np, dt, size, brush = case['N'], case['np'], case['dt'], case['size'], case['brush']
    key = 'c37/%d/np%s/%d/%s/%s' % (N, np, size, dt, brush)
    hs = [tuple(h) for h in case['hs']]
    with contextlib.redirect_stdout(io.StringIO()):
        vals = lib.run_world(R, size, program, (N, np, dt, brush, hs), key=key)
    if vals is None:
        return
    pos, mass = particles(N)
    W = c35.matrix(pos, (N,) * 3, (N,) * 3, brush)
    C = W if brush == 'cic' else c35.matrix(pos, (N,) * 3, (N,) * 3, 'cic')
    tol = 3e-5 if dt == 'f4' else 3e-6
    # frequencies and coordinates
    for r, v in enumerate(vals):
        R.check(v[3], key + '/fresh', 'rank %d: a new canvas is not clear' % r)
        i = numpy.arange(N)
        i = numpy.where(2 * i >= N, i - N, i)
        for d in range(3):
            for got, rng, f, what in ((v[2][0], v[1], 2 * numpy.pi / N, 'w'), (v[2][1], v[1], 2 * numpy.pi / BOX[d], 'k'),
                                      (v[2][2], v[0], 1, 'r'), (v[2][3], v[0], BOX[d] / N, 'x')):
                want = i[rng[d][0]:rng[d][1]] * f
                R.check(got[d].shape == tuple(len(want) if e == d else 1 for e in range(3)) and lib.close(got[d].ravel(), want, 1e-6, 1e-6),
                        key + '/' + what, 'rank %d axis %d: %s, expected %s' % (r, d, got[d].ravel(), want))
    cur = M.assemble([v[5] for v in vals])
    for n, h in enumerate(hs):
        want = model(h, N, W, mass)
        for s in range(len(h)):
            kk = key + '/' + ','.join(h[:s + 1])
            real = vals[0][6][n][s][0]
            got = M.assemble([(v[0] if real else v[1], v[6][n][s][1]) for v in vals])
            if isinstance(got, str):
                R.violation(kk, got)
                break
            sc = max(1, abs(want[s]).max())
            if not lib.close(got, want[s], 0, tol * sc):
                R.violation(kk, lib.maxdiff(got, want[s]))
                break
            if h[:s + 1] == ('paintw',):
                R.check(lib.close(got, cur, 0, 1e-5 * sc), kk + '/current', 'not what the current mesh paints: %s' % lib.maxdiff(got, cur))
            if vals[0][6][n][s][2] is not None:
                v = numpy.full(len(pos), numpy.nan)
                for x in vals:
                    v[x[4]] = x[6][n][s][2]
                wv = (C.reshape(len(pos), -1) * want[s].ravel()).sum(axis=-1)
                if not lib.close(v, wv, 0, tol * sc * 10):
                    R.violation(kk + '/readout', lib.maxdiff(v, wv))
                    break
            R.state(N, np, size, dt, brush, h[:s + 1])
    R.outcome(N, dt, brush, lib.digest(hs))


def i0(x):
    s, t = numpy.ones_like(x), numpy.ones_like(x)
    for k in range(1, 60):
        t = t * (x / 2) ** 2 / k ** 2
        s = s + t
    return s


def wref(w, x):
    x = abs(x)
    if w == 'linear':
        return numpy.where(x < 1, 1 - x, 0)
    if w == 'cubic':
        return numpy.where(x < 1, 1.5 * x ** 3 - 2.5 * x ** 2 + 1, numpy.where(x < 2, -.5 * x ** 3 + 2.5 * x ** 2 - 4 * x + 2, 0))
    if w.startswith('lanczos'):
        a = float(w[7:])
        def sinc(y):
            return numpy.where(y == 0, 1, numpy.sin(numpy.pi * y) / numpy.where(y == 0, 1, numpy.pi * y))
        return numpy.where(x < a, sinc(x) * sinc(x / a), 0)
    a = float(w[6:])
    b = 2 * numpy.pi
    return numpy.where(x < a, i0(b * numpy.sqrt(numpy.maximum(0, 1 - (x / a) ** 2))) / i0(numpy.array(b)), 0)


def run_window(case, R):
    mesh, w = tuple(case['mesh']), case['w']
    nd = len(mesh)
    L = env.mod('lanczos', 0)
    if hasattr(L, w):
        window, half = getattr(L, w), {'linear': 1, 'cubic': 2, 'lanczos2': 2, 'lanczos3': 3}[w]
    elif w.startswith('lanczos'):
        window, half = L.lanczos(float(w[7:])), 2
    else:
        window, half = L.kaiser(int(w[6:]), 2.), int(w[6:])
    key = 'c37/%s/%s' % (w, 'x'.join(map(str, mesh)))
    # values of the window
    x = numpy.arange(-half - 1, half + 1.01, 1 / 64.) + 1 / 256.
    with numpy.errstate(all='ignore'):
        v = window(x)
    R.check(lib.close(v, wref(w, x), 0, 1e-9), key + '/window', lib.maxdiff(v, wref(w, x)))
    R.check(abs(float(window.integral) - wref(w, numpy.linspace(-half, half, 40001)).mean() * 2 * half) < 1e-3, key + '/integral', str(window.integral))
    R.nstates(len(x))
    norm = 1. / window.integral
    step = {1: .125, 2: .5, 3: 1.25}[nd] if case['fine'] else {1: .25, 2: .75, 3: 1.5}[nd]
    ax = [numpy.arange(-half - .5, n + half + .5, step) + .0625 for n in mesh]
    pos = numpy.stack(numpy.meshgrid(*ax, indexing='ij'), -1).reshape(-1, nd)
    sp = []
    for d, n in enumerate(mesh):
        for vv in (n + .25 + 3 * n, -2 * n + .75, n - .25, .25):
            y = [.3 + m // 2 for m in mesh]
            y[d] = vv
            sp.append(y)
    pos = numpy.concatenate([pos, sp])
    mass = numpy.arange(len(pos)) % 7 / 2. - 1
    # the extent of neighbours that are visited
    for period, tr in itertools.product([None, list(mesh), numpy.array(mesh)] + ([mesh[0]] if len(set(mesh)) == 1 else []) + [[n + 2 for n in mesh]],
                                        [None, lambda y: y * .5 + .25]):
        gp = pos if tr is None else tr(pos)
        Wt = numpy.ones((len(pos),) + mesh)
        O = numpy.zeros(len(pos), bool)
        for d, n in enumerate(mesh):
            p = None if period is None else int(numpy.broadcast_to(period, nd)[d])
            m = numpy.zeros((len(pos), n))
            for c in range(n):
                for k in range(-12, 13) if p else (0,):
                    m[:, c] += wref(w, gp[:, d] - (c + k * (p or 0)))
            Wt *= m.reshape([len(pos)] + [n if e == d else 1 for e in range(nd)])
            for r in range(-half + 1, half + 1):
                t = numpy.floor(gp[:, d]) + r
                if p:
                    t = t % p
                O |= (t < 0) | (t >= n)
        kk = key + '/%s/%s' % (period, tr is not None)
        for wname, ws in (('scalar', 1.5), ('array', mass), ('default', None)):
            for mode in ('ignore', 'raise'):
                sel = slice(None) if mode == 'ignore' else ~O
                a = numpy.full(mesh, 2.)
                q = pos[sel].copy()
                kw = {} if ws is None else dict(weights=ws if numpy.isscalar(ws) else ws[sel])
                L.paint(q, a, mode=mode, period=period, transform=tr, window=window, **kw)
                want = 2 + norm * numpy.tensordot(numpy.ones(len(q)) * (1 if ws is None else ws if numpy.isscalar(ws) else ws[sel]), Wt[sel], axes=(0, 0))
                R.check(lib.close(a, want, 0, 1e-9 * (10 + abs(want).max())), kk + '/%s/%s' % (wname, mode), lib.maxdiff(a, want))
                R.check(bool((q == pos[sel]).all()), kk + '/pos', 'positions were changed')
        for i in range(0, len(pos), 1 if case['fine'] or nd == 1 else 5):
            a = numpy.zeros(mesh)
            err = None
            try:
                L.paint(pos[i:i + 1], a, mode='raise', period=period, transform=tr, window=window, weights=2.)
            except ValueError as e:
                err = e
            if (err is not None) != bool(O[i]):
                R.violation(kk + '/raise', 'particle at %s: %r' % (pos[i], err))
                break
            if err is None and not lib.close(a, 2 * norm * Wt[i], 0, 1e-9):
                R.violation(kk + '/one', 'particle at %s: %s' % (pos[i], lib.maxdiff(a, 2 * norm * Wt[i])))
                break
            R.nstates(1)
            R.step(1)
            R.trace()
        R.outcome(kk)


def run_long(case, R):
    """ as many particles as fill the pieces they are worked on in """
    mesh, w, n = tuple(case['mesh']), case['w'], case['n']
    nd = len(mesh)
    L = env.mod('lanczos', 0)
    window = getattr(L, w)
    few = numpy.stack([numpy.arange(97) * (.37 + .2 * d) % (m + 2.) - 1 + .0625 for d, m in enumerate(mesh)], -1)
    k = numpy.arange(n) % len(few)
    mass = numpy.arange(n) % 101 / 2.
    for period in (None, list(mesh)):
        Wt = numpy.ones((len(few),) + mesh)
        for d, m in enumerate(mesh):
            x = numpy.zeros((len(few), m))
            for c in range(m):
                for j in range(-12, 13) if period else (0,):
                    x[:, c] += wref(w, few[:, d] - (c + j * m))
            Wt *= x.reshape([len(few)] + [m if e == d else 1 for e in range(nd)])
        for wname, ws in (('scalar', 1.5), ('array', mass)):
            a = numpy.zeros(mesh)
            L.paint(few[k], a, mode='ignore', period=period, window=window, weights=ws)
            want = numpy.tensordot(numpy.bincount(k, mass if wname == 'array' else numpy.full(n, ws), minlength=len(few)), Wt, axes=(0, 0)) / window.integral
            R.check(lib.close(a, want, 0, 1e-9 * (1 + abs(want).max())), 'c37/%s/n%d/%s/%s' % (w, n, period, wname), lib.maxdiff(a, want))
    R.nstates(n)
    R.step(4)
    R.trace()
    R.outcome(w, n)


def run(case, R):
    if case['kind'] == 'long':
        return run_long(case, R)
    (run_mesh if case['kind'] == 'mesh' else run_window)(case, R)
