"""C36: transfer functions multiply every mode by their defined factor."""
import contextlib
import io
import itertools
import os

import numpy

os.environ.setdefault('NUMBA_DISABLE_JIT', '1')

from mc import env, lib, mesh as M

ID = 'C36'
RULE = ('states are (mesh size, process mesh, type, chain of transfer functions, mode): all chains of up to two functions on all process meshes '
        'of up to 6 ranks, also with ranks that hold no modes; every mode is compared with the defined factor')
ASSUMPTIONS = ['frequencies of the legacy mesh have single precision; modes within 1e-5 of the edge of a bin of the power spectrum may be in either bin; '
               'the frequency of the Nyquist mode is -pi, as in the current engine']

FUNCS = [('NormalizeDC',), ('RemoveDC',), ('Trilinear',), ('SuperLanzcos', 0), ('SuperLanzcos', 1), ('SuperLanzcos', 2), ('SuperLanzcos', 0, 0),
         ('SuperLanzcos', 1, 0), ('SuperLanzcos', 2, 0), ('Gaussian', 0.), ('Gaussian', .8), ('Gaussian', 2.5), ('Constant', 2.5), ('Constant', 1 - 2j),
         ('Laplace',), ('Poisson',), ('Inspect',)]
BINS = [1, 2, 3, 5, 7]


def cases(tier):
    out = []
    sizes = [2, 3, 4, 5, 6] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 8, 9, 12]
    for N, np, dt in itertools.product(sizes, [None] + M.procmeshes(3, 6), ('f8', 'f4')):
        if np is not None and len(np) != 2:
            continue
        size = [1, 4, 6] if np is None else [int(numpy.prod(np))]
        for s in size:
            if tier == 'quick' and dt == 'f4' and s not in (1, 4):
                continue
            out.append(dict(N=N, np=np, dt=dt, size=s, pairs=s in (1, 2, 4) if tier == 'quick' else True))
    return out


def w1(N):
    i = numpy.arange(N)
    return numpy.where(2 * i >= N, i - N, i) * (2 * numpy.pi / N)


def ws(N):
    w = [w1(N), w1(N), w1(N)[:N // 2 + 1]]
    return [a.reshape([-1 if d == e else 1 for e in range(3)]) for d, a in enumerate(w)]


def model(F, f, N):
    """the defined factor"""
    w = ws(N)
    w2 = w[0] ** 2 + w[1] ** 2 + w[2] ** 2
    k = f[0]
    if k == 'NormalizeDC':
        return F / abs(F[0, 0, 0])
    if k == 'RemoveDC':
        F = F.copy()
        F[0, 0, 0] = 0
        return F
    if k == 'Trilinear':
        s = 1
        for a in w:
            with numpy.errstate(all='ignore'):
                s = s * numpy.where(a == 0, 1, numpy.sin(a / 2) / (a / 2)) ** 2
        return F / s
    if k == 'SuperLanzcos':
        a = w[f[1]]
        return F * 1j * (a if len(f) > 2 and f[2] == 0 else (8 * numpy.sin(a) - numpy.sin(2 * a)) / 6)
    if k == 'Gaussian':
        return F * numpy.exp(-.5 * w2 * f[1] ** 2)
    if k == 'Constant':
        return F * f[1]
    if k == 'Laplace':
        return F * -w2
    if k == 'Poisson':
        with numpy.errstate(all='ignore'):
            return numpy.where(w2 == 0, 0, F / -numpy.where(w2 == 0, 1, w2))
    return F


def power(F, N, n):
    """mean frequency and power in bins over the uncompressed modes; and which bins are certain"""
    w = [w1(N).reshape([-1 if d == e else 1 for e in range(3)]) for d in range(3)]
    k = numpy.sqrt(w[0] ** 2 + w[1] ** 2 + w[2] ** 2).ravel()
    full = numpy.empty((N, N, N), complex)
    full[:, :, :N // 2 + 1] = F
    i = numpy.arange(N)
    for z in range(N // 2 + 1, N):
        full[:, :, z] = F[(-i)[:, None] % N, (-i)[None, :] % N, N - z].conj()
    p = abs(full.ravel()) ** 2
    e = numpy.linspace(0, numpy.pi, n + 1)
    ps, wo, sure = numpy.full(n, numpy.nan), numpy.full(n, numpy.nan), numpy.ones(n, bool)
    for b in range(n):
        m = (k >= e[b]) & (k < e[b + 1])
        if m.any():
            ps[b], wo[b] = p[m].mean(), k[m].mean()
        near = abs(k - e[b + 1]) < 1e-5
        if near.any():
            sure[b] = False
        if b > 0 and (abs(k - e[b]) < 1e-5).any():
            sure[b] = False
    return ps, wo, sure


def field(N):
    """complex values without symmetry except where the compressed modes are their own images"""
    F = M.generic((N, N, N // 2 + 1), 2, True)
    F[0, 0, 0] = -2.25
    i = numpy.arange(N)
    for z in [0] + ([N // 2] if N % 2 == 0 else []):
        F[:, :, z] = .5 * (F[:, :, z] + F[(-i)[:, None] % N, (-i)[None, :] % N, z].conj())
    return F


def get(T, f):
    if f[0] in ('SuperLanzcos', 'Gaussian', 'Constant'):
        return getattr(T, f[0])(*f[1:])
    if f[0] == 'Inspect':
        return T.Inspect('name')
    return getattr(T, f[0])


def slices(pm):
    p = pm.partition
    return tuple(slice(int(s), int(s) + int(n)) for s, n in zip(p.local_o_start, p.local_no))


def program(comm, N, np, dt, chains):
    PM = env.mod('particlemesh', comm.rank).ParticleMesh
    T = env.mod('transfer', comm.rank).TransferFunction
    pm = PM([3., 2., 5.], N, comm=comm, np=np, dtype=dt)
    sl = slices(pm)
    F = field(N)
    out = []
    for c in chains:
        pm.complex[...] = F[sl]
        with contextlib.redirect_stdout(io.StringIO()):
            pm.transfer([get(T, f) for f in c])
        out.append(numpy.array(pm.complex))
    ps = []
    for n in BINS:
        pm.complex[...] = F[sl]
        a, b = numpy.full(n, 8.), numpy.full(n, 8.)
        pm.transfer([T.PowerSpectrum(a, b)])
        ps.append((a, b, bool((pm.complex == F[sl].astype(pm.complex.dtype)).all())))
    return tuple((s.start, s.stop) for s in sl), out, ps


def run(case, R):
    N, np, dt, size = case['N'], case['np'], case['dt'], case['size']
    key = 'c36/%d/np%s/%d/%s' % (N, np, size, dt)
    chains = [()] + [(f,) for f in FUNCS]
    if case['pairs']:
        chains += list(itertools.product(FUNCS, FUNCS))
    with numpy.errstate(all='ignore'):
        vals = lib.run_world(R, size, program, (N, np, dt, chains), key=key)
    if vals is None:
        return
    F = field(N)
    tol = 3e-5 if dt == 'f4' else 5e-6
    for i, c in enumerate(chains):
        name = '+'.join(':'.join(map(str, f)) for f in c)
        want = F
        with numpy.errstate(all='ignore'):
            for f in c:
                want = model(want, f, N)
        got = M.assemble([(v[0], v[1][i]) for v in vals])
        if isinstance(got, str):
            R.violation(key, got)
            return
        fin = numpy.isfinite(want)
        if not numpy.array_equal(numpy.isfinite(got), fin):
            if not (c and c[-1][0] == 'NormalizeDC'):
                R.violation(key + '/' + name, 'not finite')
            continue
        scale = numpy.maximum(abs(F), 1) * max(1, abs(want[fin] / numpy.maximum(abs(F[fin]), 1e-3)).max() if fin.any() else 1)
        if not bool((abs(got - want) <= tol * numpy.minimum(scale, 20 * abs(want) + 20))[fin].all()):
            R.violation(key + '/' + name, lib.maxdiff(numpy.where(fin, got, 0), numpy.where(fin, want, 0)))
        R.nstates(F.size)
    for j, n in enumerate(BINS):
        ps, wo, sure = power(F, N, n)
        for r, v in enumerate(vals):
            a, b, kept = v[2][j]
            R.check(kept, key + '/power/source', 'the power spectrum changed the field')
            for got, want, what in ((a, wo, 'frequency'), (b, ps, 'power')):
                ok = numpy.isnan(got) == numpy.isnan(want)
                ok &= numpy.isnan(want) | (abs(got - want) <= 1e-5 * (1 + abs(want)))
                R.check(bool(ok[sure].all()), key + '/power/%d/%s' % (n, what), 'rank %d: %s, expected %s (bins %s)' % (r, got, want, sure))
        R.nstates(n)
    R.outcome(N, dt, lib.digest([numpy.round(vals[0][2][0][1], 3)]))
