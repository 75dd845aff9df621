"""C38: histories of a particle-mesh simulation do not depend on the ranks, and follow the serial simulation."""
import itertools

import numpy

from mc import env, explore, lib, mesh as M, win

ID = 'C38'
RULE = ('states are (mesh shape, process mesh, type, initial distribution of the particles, history of steps), a step being a '
        'way to find the forces (window, compensated or not, smoothing, gradient in Fourier space or by the window, overdensity, '
        'one layout for everything or several), after which the particles move, and may change their rank; positions, momenta, '
        'forces and density of every step are compared with the serial simulation on the whole mesh; also (mesh, process mesh, force, '
        'times, style of the operations) of the Klein-Gordon equation for a field, and (mesh, process mesh, seed, window) of displaced grids')
ASSUMPTIONS = ['the serial windows are those of C07 and C11, the serial transform is that of numpy']

WINDOW = {'nnb': 'nearest', 'cic': 'linear', 'tsc': 'quadratic', 'pcs': 'cubic'}
# (window, compensate, smoothing, where the gradient is taken, particles move to their rank before)
STEPS = {
    'a': ('cic', False, None, 'fourier', False),
    'b': ('tsc', True, 2.5, 'fourier', True),
    'c': ('pcs', False, None, 'window', False),
    'd': ('cic', True, None, 'window', True),
    'e': ('pcs', True, 3, 'fourier', True),
    'f': ('tsc', False, None, 'fourier', 'rotate'),
}


def cases(tier):
    out = []
    words = [''.join(w) for n in (1, 2, 3, 4)[:2 if tier == 'quick' else 3] for w in itertools.product(STEPS, repeat=n)]
    if tier == 'quick':
        words += ['abc', 'bdf', 'cea', 'fbd', 'dca', 'eff', 'bbb', 'aaaa']
    for m in [(4, 6, 4), (5, 3, 4), (4, 4), (3, 7), (6,)] + ([] if tier == 'quick' else [(2, 5, 3), (6, 6, 6)]):
        nps = M.procmeshes(len(m), 6 if len(m) > 1 else 1, full=len(m) == 3)
        if tier == 'quick' and len(m) == 3:
            nps = [n for n in nps if numpy.prod(n) != 5 and (m[0] == 4 or len(n) == 2)]
        for i, np in enumerate(nps):
            for dt in ('f8', 'f4')[:2 if i == 0 or tier != 'quick' else 1]:
                for how in ('cyclic', 'skip') if numpy.prod(np) > 1 else ('cyclic',):
                    # histories are spread over the configurations in the quick tier; all have those of one step
                    ws = words if tier != 'quick' else [w for j, w in enumerate(words) if len(w) == 1 or (j + i) % 4 == (0 if how == 'skip' else 2)]
                    out.append(dict(mesh=m, np=np, dt=dt, how=how, words=ws))
    for m in [(4, 6, 4), (5, 3, 4), (4, 4), (3, 7), (6,)] + ([] if tier == 'quick' else [(2, 5, 3), (6, 6, 6), (1, 4, 3), (8, 8)]):
        for np in M.procmeshes(len(m), 6 if len(m) > 1 else 1, full=True):
            for dt in ('f8', 'f4'):
                out.append(dict(kind='waves', mesh=m, np=np, dt=dt, deep=tier != 'quick'))
                out.append(dict(kind='start', mesh=m, np=np, dt=dt, deep=tier != 'quick'))
    return out


# a field that evolves: the forces on it, the steps of time
FORCES = {'sin': (numpy.sin), 'cube': (lambda u: -u ** 3), 'none': (lambda u: 0 * u)}
TIMES = {'even': [0, .1, .2, .3, .4], 'uneven': [0, .05, .2, .22, .5, .6]}


def waves(deep):
    for f in FORCES:
        for t in TIMES:
            for style in ('new', 'inplace', 'field'):
                yield f, t, style
                if deep:
                    yield f, t, style + '+copy'


def program_waves(comm, mesh, np, dt, deep):
    """the Klein-Gordon equation, by a scheme that is implicit for the linear part"""
    pm = M.make(comm, mesh, np, dt)
    res = []
    for force, times, style in waves(deep):
        F, steps = FORCES[force], numpy.array(TIMES[times])
        dts = numpy.diff(steps)
        u, du = pm.create('real'), pm.create('real')
        u[...] = M.generic(mesh, 3)[u.slices] / 4
        du[...] = M.generic(mesh, 5)[u.slices] / 4
        old, now = u.r2c(), (u + du * dts[0]).r2c()
        hist = []

        def factor(sign, dt, inverse=False):
            def func(k, v):
                a = sign / dt ** 2 + sum(ki ** 2 for ki in k) / 4.0 + 1 / 4.0
                return v / a if inverse else a * v
            return func
        for dt_ in dts[1:]:
            if style.startswith('inplace'):
                f = now.c2r().apply(lambda x, v: F(v), out=Ellipsis).r2c(out=Ellipsis)
                new = (f - now.apply(factor(-1, dt_))).apply(factor(1, dt_, True), out=Ellipsis) - old
            elif style.startswith('new'):
                f = now.c2r().apply(lambda x, v: F(v)).r2c()
                new = (f - now.apply(factor(-1, dt_))).apply(factor(1, dt_, True)) - old
            else:
                r, f, new = pm.create('real'), pm.create('complex'), pm.create('complex')
                now.c2r(out=r)
                r.apply(lambda x, v: F(v), out=r)
                r.r2c(out=f)
                now.apply(factor(-1, dt_), out=new)
                new[...] = f - new
                new.apply(factor(1, dt_, True), out=new)
                new[...] -= old
            if style.endswith('copy'):
                new = new.copy()
                old = pm.create('complex', value=now)
                now = pm.create('complex', value=new)
            else:
                old[...] = now
                now[...] = new
            r = new.c2r()
            hist.append((M.part(r), float(numpy.real(new.cnorm())), float(numpy.real(r.csum())), numpy.array(r.preview(axes=(0,)))))
        res.append(hist)
    return res


_waves = {}


def single_waves(mesh, force, times):
    k = (mesh, force, times)
    if k not in _waves:
        F, steps = FORCES[force], numpy.array(TIMES[times])
        dts = numpy.diff(steps)
        kk = numpy.meshgrid(*[numpy.fft.fftfreq(n, 1.0 / n) * 2 * numpy.pi / L for n, L in zip(mesh, M.BOX)], indexing='ij')
        k2 = sum(q ** 2 for q in kk)
        old = M.generic(mesh, 3) / 4
        now = old + M.generic(mesh, 5) / 4 * dts[0]
        hist = []

        def mul(u, a):
            return numpy.fft.ifftn(numpy.fft.fftn(u) * a).real
        for dt in dts[1:]:
            a, b = 1 / dt ** 2 + k2 / 4 + .25, -1 / dt ** 2 + k2 / 4 + .25
            old, now = now, mul(F(now) - mul(now, b), 1 / a) - old
            hist.append(now)
        _waves[k] = hist
    return _waves[k]


def run_waves(case, R):
    mesh, np, dt = tuple(case['mesh']), case['np'], case['dt']
    vals = lib.run_world(R, int(numpy.prod(np)), program_waves, (mesh, np, dt, case['deep']), key='c38/waves')
    for j, (force, times, style) in enumerate(waves(case['deep']) if vals else []):
        for s, want in enumerate(single_waves(mesh, force, times)):
            key = 'c38/waves/%s/np%s/%s/%s/%s/%s/step%d' % ('x'.join(map(str, mesh)), np, dt, force, times, style, s)
            tol = (5e-4 if dt == 'f4' else 1e-10) * max(1, abs(want).max())
            g = M.assemble([v[j][s][0] for v in vals])
            if isinstance(g, str):
                R.violation(key, g)
                continue
            R.check(lib.close(g, want, 0, tol), key, 'the field differs: ' + lib.maxdiff(g, want))
            norm = (abs(numpy.fft.fftn(want) / want.size) ** 2).sum()
            pre = want.mean(axis=tuple(range(1, len(mesh)))) * numpy.prod(mesh[1:])
            for r, v in enumerate(vals):
                R.check(abs(v[j][s][1] - norm) < tol * 10 * max(1, norm), key + '/norm', 'norm %s on rank %d, %s expected' % (v[j][s][1], r, norm))
                R.check(abs(v[j][s][2] - want.sum()) < tol * 10 * want.size, key + '/sum', 'sum %s on rank %d' % (v[j][s][2], r))
                R.check(lib.close(v[j][s][3], pre, 0, tol * 10 * want.size), key + '/preview', 'preview on rank %d: %s' % (r, lib.maxdiff(v[j][s][3], pre)))
            R.nstates(want.size)
            R.state(mesh, np, dt, force, times, style, s)
    R.outcome(mesh, dt)


STARTS = [(seed, unitary, w) for seed, unitary in ((7, False), (11, True)) for w in ('cic', 'tsc', 'nnb')]


def program_start(comm, mesh, np, dt):
    """particles displaced from the grid by a random field, and their density"""
    nd = len(mesh)
    pm = M.make(comm, mesh, np, dt)
    cell = numpy.array(M.BOX[:nd]) / mesh
    res = []
    for seed, unitary, w in STARTS:
        delta = pm.generate_whitenoise(seed, unitary=unitary, type='complex').apply(lambda k, v: v / (1 + k.normp()) ** .5, out=Ellipsis)
        q, ids = pm.generate_uniform_particle_grid(shift=.25, return_id=True)
        s = numpy.empty((len(q), nd))
        lay = pm.decompose(q, smoothing=w)
        for d in range(nd):
            def func(k, v, d=d):
                v = v * 1j * k[d] / k.normp(zeromode=1)
                v[numpy.broadcast_to(2 * v.i[d] == mesh[d], v.shape) if hasattr(v, 'i') else abs(abs(k[d]) * cell[d] - numpy.pi) + 0 * v.real < 1e-4] = 0
                return v
            s[:, d] = delta.apply(func).c2r().readout(q, layout=lay, resampler=w)
        x = q + s * .1
        rho = pm.paint(x, layout=pm.decompose(x, smoothing='pcs'), resampler='pcs')
        res.append((numpy.array(ids), s, M.part(rho), M.part(delta.c2r())))
    return res


def noise(comm, mesh, dt):
    pm = M.make(comm, mesh, [1] * (len(mesh) - 1), dt)
    return [numpy.array(pm.generate_whitenoise(seed, unitary=u, type='real').value) for seed, u, w in STARTS]


def run_start(case, R):
    mesh, np, dt = tuple(case['mesh']), case['np'], case['dt']
    nd = len(mesh)
    vals = lib.run_world(R, int(numpy.prod(np)), program_start, (mesh, np, dt), key='c38/start')
    white = explore.values(explore.run(1, noise, mesh, 'f8'))[0]
    cell = numpy.array(M.BOX[:nd]) / mesh
    k1 = [numpy.fft.fftfreq(n, 1.0 / n) for n in mesh]
    kk = numpy.meshgrid(*[a * 2 * numpy.pi / L for a, L in zip(k1, M.BOX)], indexing='ij')
    k2 = sum(q ** 2 for q in kk)
    grid = numpy.stack([i.ravel() for i in numpy.indices(mesh)], -1) + .25
    for j, (seed, unitary, w) in enumerate(STARTS if vals else []):
        key = 'c38/start/%s/np%s/%s/seed%d/%s' % ('x'.join(map(str, mesh)), np, dt, seed, w)
        F = numpy.fft.fftn(white[j]) / (1 + k2) ** .5
        tol = 2e-4 if dt == 'f4' else 1e-10
        if w == 'nnb' and dt == 'f4':
            tol = 1e-3
        g = M.assemble([v[j][3] for v in vals])
        field = numpy.fft.ifftn(F).real
        R.check(not isinstance(g, str) and lib.close(g, field, 0, tol * max(1, abs(field).max())), key + '/field', 'the random field differs')
        one = [win.paint_one(WINDOW[w], p, mesh, mesh) for p in grid]
        s = numpy.empty((len(grid), nd))
        for d in range(nd):
            q = kk[d].copy()
            if mesh[d] % 2 == 0:
                q[tuple([slice(None)] * d + [mesh[d] // 2])] = 0
            f = numpy.fft.ifftn(1j * q * F / numpy.where(k2 == 0, 1, k2)).real
            s[:, d] = [(o * f).sum() for o in one]
        ids = numpy.concatenate([v[j][0] for v in vals])
        if sorted(ids.tolist()) != list(range(len(grid))):
            R.violation(key + '/ids', 'particles are lost or repeated: %s' % sorted(ids.tolist()))
            continue
        got = numpy.concatenate([v[j][1] for v in vals])[numpy.argsort(ids)]
        R.check(lib.close(got, s, 0, tol * max(1, abs(s).max())), key + '/displacement', 'the displacements differ: ' + lib.maxdiff(got, s))
        rho = sum(win.paint_one('cubic', p, mesh, mesh) for p in grid + s * .1 / cell)
        g = M.assemble([v[j][2] for v in vals])
        R.check(not isinstance(g, str) and lib.close(g, rho, 0, tol * 10), key + '/density', 'the density differs')
        R.nstates(len(grid))
        R.state(mesh, np, dt, seed, w)
    R.outcome(mesh, dt)


def start(mesh):
    nd = len(mesh)
    n = 11
    i = numpy.arange(n)
    pos = numpy.stack([((i * (7 + 4 * d) + d * 3) % 23) / 23.0 * mesh[d] + .0137 * (d + 1) for d in range(nd)], -1)
    pos[0] -= 3 * numpy.array(mesh)
    pos[1] += mesh
    mom = numpy.stack([((i * (5 + 2 * d) + 1) % 7 - 3) / 16.0 for d in range(nd)], -1)
    return pos, mom, 1. + (i * 3) % 5


def order(rank, size, turn):
    return (rank + turn) % size


def program(comm, mesh, np, dt, words, parts):
    nd = len(mesh)
    box = numpy.array(M.BOX[:nd])
    cell = box / numpy.array(mesh)
    W = env.mod('window', comm.rank)
    res = []
    pm = M.make(comm, mesh, np, dt)
    for word in words:
        pos, mom, mass = [a[parts[comm.rank]] for a in start(mesh)]
        ids = numpy.array(parts[comm.rank])
        x, p = pos * cell, mom * cell
        hist = []
        for c in word:
            w, comp, sm, where, move = STEPS[c]
            if move is True:
                lay = pm.decompose(x, smoothing=0)
                x, p, mass, ids = lay.exchange(x, p, mass, ids)
            elif move == 'rotate':
                # the particles go round the ranks
                all_ = comm.allgather((x, p, mass, ids))
                x, p, mass, ids = all_[(comm.rank + 1) % comm.size]
            layout = pm.decompose(x, smoothing=w if sm is None else sm)
            rho = pm.paint(x, mass=mass, layout=layout, resampler=w)
            mean = rho.cmean()
            delta = rho.copy()
            delta[...] = rho / mean
            F = delta.r2c()
            if comp:
                F.apply(W.FindResampler(w).get_compensation(), kind='circular', out=Ellipsis)

            def potential(k, v):
                k2 = k.normp(zeromode=1)
                r = -v / k2
                r[k2 == 0] = 0
                m = k.normp()
                return numpy.where(m == 0, 0, -v / k2)
            pot = F.apply(potential)
            acc = numpy.empty((len(x), nd))
            if where == 'window':
                phi = pot.c2r()
                for d in range(nd):
                    acc[:, d] = -phi.readout(x, layout=layout, resampler=w, gradient=d)
            else:
                for d in range(nd):
                    def gradient(k, v, d=d):
                        ii = v.i[d] if hasattr(v, 'i') else None
                        kk = k[d] + 0 * v.real
                        # no derivative at the Nyquist frequency
                        ny = abs(abs(kk) - numpy.pi / cell[d]) < 1e-3
                        return numpy.where(ny, 0, -1j * kk * v)
                    acc[:, d] = pot.apply(gradient).c2r().readout(x, layout=layout, resampler=w)
            p = p + acc * .01
            x = x + p
            hist.append((ids.copy(), x / cell, p / cell, acc, M.part(rho), float(mean), float(rho.csum()),
                         [float(v) for v in comm.allreduce((mass[:, None] * acc).sum(axis=0))]))
        res.append(hist)
    return res


_serial = {}


def single(mesh, word, dt):
    """the simulation on one mesh, by brute force; returns the history, from that of the word without its last step"""
    k = (mesh, word, dt)
    if k in _serial:
        return _serial[k]
    nd = len(mesh)
    if word == '':
        pos, mom, mass = start(mesh)
        return []
    before = single(mesh, word[:-1], dt)
    _, mom, mass = start(mesh)
    pos = start(mesh)[0]
    if before:
        pos, mom = before[-1][:2]
    box = numpy.array(M.BOX[:nd])
    cell = box / numpy.array(mesh)
    w, comp, sm, where, move = STEPS[word[-1]]
    kind = WINDOW[w]
    one = [win.paint_one(kind, g, mesh, mesh) for g in pos]
    rho = sum(m * o for m, o in zip(mass, one))
    F = numpy.fft.fftn(rho / rho.mean()) / rho.size
    k1 = [numpy.fft.fftfreq(n, 1.0 / n) for n in mesh]
    kk = numpy.meshgrid(*[a * 2 * numpy.pi / L for a, L in zip(k1, box)], indexing='ij')
    if comp:
        for d, a in enumerate(numpy.meshgrid(*[a / n for a, n in zip(k1, mesh)], indexing='ij')):
            F = F / numpy.sinc(a) ** win.POLY[kind]
    k2 = sum(q ** 2 for q in kk)
    pot = numpy.where(k2 == 0, 0, -F / numpy.where(k2 == 0, 1, k2))
    acc = numpy.empty(pos.shape)
    for d in range(nd):
        if where == 'window':
            phi = numpy.fft.ifftn(pot).real * rho.size
            acc[:, d] = [-(win.paint_one(kind, g, mesh, mesh, diffdir=d, scale=1 / cell) * phi).sum() for g in pos]
        else:
            q = kk[d].copy()
            if mesh[d] % 2 == 0:
                q[tuple([slice(None)] * d + [mesh[d] // 2])] = 0
            f = numpy.fft.ifftn(-1j * q * pot).real * rho.size
            acc[:, d] = [(o * f).sum() for o in one]
    mom = mom + acc * .01 / cell
    hist = before + [(pos + mom, mom, acc, rho, rho.mean(), (mass[:, None] * acc).sum(axis=0))]
    _serial[k] = hist
    return hist


def run(case, R):
    if 'kind' in case:
        return dict(waves=run_waves, start=run_start)[case['kind']](case, R)
    mesh, np, dt = tuple(case['mesh']), case['np'], case['dt']
    size = int(numpy.prod(np))
    n = len(start(mesh)[0])
    parts = lib.split(n, size, case['how'])
    vals = lib.run_world(R, size, program, (mesh, np, dt, case['words'], parts), key='c38', horizon=10 ** 7)
    if vals is None:
        return
    tol = 2e-4 if dt == 'f4' else 1e-9
    for j, word in enumerate(case['words']):
        want = single(mesh, word, 'f8')
        for s in range(len(word)):
            key = 'c38/%s/np%s/%s/%s/%s' % ('x'.join(map(str, mesh)), np, dt, case['how'], word[:s + 1])
            pos, mom, acc, rho, mean, total = want[s]
            ids = numpy.concatenate([v[j][s][0] for v in vals])
            if sorted(ids.tolist()) != list(range(n)):
                R.violation(key + '/lost', 'particles are lost or repeated: %s' % sorted(ids.tolist()))
                break
            o = numpy.argsort(ids)
            S = max(1, abs(acc).max())
            for i, (what, ref) in enumerate((('positions', pos), ('momenta', mom), ('forces', acc))):
                got = numpy.concatenate([v[j][s][1 + i] for v in vals])[o]
                if not lib.close(got, ref, 0, tol * (S if i == 2 else 10)):
                    R.violation(key + '/' + what, '%s differ from those of the serial simulation: %s' % (what, lib.maxdiff(got, ref)))
            g = M.assemble([v[j][s][4] for v in vals])
            if isinstance(g, str):
                R.violation(key, g)
            else:
                R.check(lib.close(g, rho, 0, tol * 10), key + '/density', 'density differs: ' + lib.maxdiff(g, rho))
            for v in vals:
                R.check(abs(v[j][s][5] - mean) < tol * 10 and abs(v[j][s][6] - rho.sum()) < tol * 100, key + '/mean', 'mean %s, total %s' % v[j][s][5:7])
                # the same window on both ways: no net force
                if STEPS[word[s]][3] == 'fourier':
                    R.check(abs(numpy.array(v[j][s][7])).max() < tol * 100 * S, key + '/momentum', 'net force %s' % (v[j][s][7],))
            R.nstates(n)
            R.state(mesh, np, dt, case['how'], word[:s + 1])
        R.outcome(mesh, word, dt)
    R.sample(dict(mesh=mesh, np=np, words=case['words'][:5]))
