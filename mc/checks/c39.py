"""C39: the white noise of a seed is the standard Gaussian realisation of that seed."""
import itertools

import numpy

from mc import env, lib, mesh as M, ranlux
from .c16 import whole

ID = 'C39'
RULE = ('states are (mesh, seed, unitary, compressed or full, precision, mode): every mode is compared with the value that an independent '
        'implementation of the generator (RANLUX, verified by its published test value), of the order in which lines of the mesh take their '
        'seeds, and of the Box-Muller formula gives; fields of all types on all process meshes are compared with the same')
ASSUMPTIONS = ['functions of the C library are right to 1e-12', 'seeds below 2^31, as the generator takes']

SEEDS = [1, 2, 3, 0, 77, 5463, 65537, (1 << 24) + 1, (1 << 30) + 2, (1 << 31) - 1]
SMALL = [(n,) for n in (1, 2, 4, 5, 9)] + [(4, 4), (3, 4), (4, 5), (2, 6), (1, 5), (9, 8)]


def cases(tier):
    top = 6 if tier == 'quick' else 9
    out = []
    for a in itertools.product(range(1, top + 1), repeat=2):
        out.append(dict(kind='mesh', plane=a, n2=[1, 2, 3, 4] if tier == 'quick' else list(range(1, 9)), seeds=SEEDS[:3] if tier == 'quick' else SEEDS))
    for m in [(4, 4, 4), (8, 8, 8), (7, 7, 7), (6, 4, 12), (3, 5, 30)]:
        out.append(dict(kind='mesh', plane=m[:2], n2=[m[2]], seeds=SEEDS))
    for m in [(16, 16, 16), (32, 32, 32), (64, 64, 4), (40, 12, 5), (12, 40, 5), (130, 6, 2), (6, 130, 2), (260, 4, 2), (4, 4, 300)] + \
            ([] if tier == 'quick' else [(64, 64, 64), (128, 128, 8), (300, 300, 1), (2, 2, 5000)]):
        out.append(dict(kind='mesh', plane=m[:2], n2=[m[2]], seeds=SEEDS[:2]))
    for m in SMALL:
        out.append(dict(kind='flat', mesh=m, seeds=SEEDS))
    for m in [(4, 4, 4), (3, 4, 6), (6, 2, 4), (5, 3, 5), (4, 6), (5, 4), (6,)] + ([] if tier == 'quick' else [(8, 8, 8), (6, 5, 4), (7, 6)]):
        for np in M.procmeshes(len(m), 4 if tier == 'quick' else 6):
            for dt in ('f8', 'f4', 'c16'):
                out.append(dict(kind='field', mesh=m, np=np, dt=dt))
    return out


def lines(n0, n1, seed):
    """the seed of each line of the mesh along the last axis.

    The plane is filled in squares of growing size around the four corners of the plane (that is around zero frequency).
    Each square is filled from the corner with the most positive to the one with the most negative frequencies, and each of the
    parts first along the first, then along the second axis. A line that is not there takes its number along with it."""
    order = []
    for r in range((max(n0, n1) + 1) // 2):
        for q in ((0, 0), (1, 0), (0, 1), (1, 1)):
            for at in [(r, j) for j in range(r)] + [(j, r) for j in range(r + 1)]:
                order.append((q, at))
    num = ranlux.numbers([seed], len(order))[:, 0]
    table = numpy.full((n0, n1), -1, 'i8')
    for (q, at), u in zip(order, num):
        ij = []
        for n, side, x in zip((n0, n1), q, at):
            # the lower half includes the middle of an axis of odd length
            if x >= (n // 2 if side else (n + 1) // 2):
                break
            ij.append(n - 1 - x if side else x)
        else:
            table[tuple(ij)] = int(0x7fffffff * u)
    assert (table >= 0).all()
    return table


_cache = {}


def gauss(mesh, seed, unitary):
    """the noise of the full mesh"""
    k = (tuple(mesh), seed, unitary)
    if k not in _cache:
        _cache[k] = _gauss(tuple(mesh), seed, unitary)
    return _cache[k]


def _gauss(mesh, seed, unitary):
    if len(mesh) < 3:
        v = numpy.fft.fftn(numpy.random.RandomState(seed).normal(size=mesh)) / numpy.sqrt(numpy.prod(mesh))
        return numpy.exp(1j * numpy.angle(v)) if unitary else v
    n0, n1, n2 = mesh
    nz = n2 // 2 + 1
    table = lines(n0, n1, seed)
    u = ranlux.numbers(table.ravel(), 2 * nz).reshape(nz, 2, n0, n1)
    phase, ampl = 2 * numpy.pi * u[:, 0], u[:, 1]
    assert (ampl > 0).all()
    r = numpy.ones_like(ampl) if unitary else numpy.sqrt(-numpy.log(ampl))
    half = numpy.moveaxis(r * numpy.exp(1j * phase), 0, -1)          # by the line's own numbers
    out = numpy.zeros(mesh, 'c16')
    i, j = numpy.indices((n0, n1))
    ci, cj = -i % n0, -j % n1
    upper = (ci < i) | ((ci == i) & (cj < j))
    me = (ci == i) & (cj == j)
    for k in range(nz):
        v = half[..., k].copy()
        if k == 0 or 2 * k == n2:
            # the plane is its own conjugate
            v[upper] = numpy.conj(v[ci, cj][upper])
            v[me] = 1 if unitary else v[me].real
        out[..., k] = v
    for k in range(nz, n2):
        out[..., k] = numpy.conj(out[ci, cj, n2 - k])
    out[0, 0, 0] = 0
    return out


def judge(R, key, got, want, tol, what):
    R.nstates(want.size)
    if got.shape != want.shape:
        R.violation(key + '/shape', '%s: shape %s' % (what, got.shape))
        return
    bad = numpy.argwhere(~(abs(got - want) <= tol * (1 + abs(want))))
    if len(bad):
        i = tuple(bad[0])
        R.violation(key, '%s: mode %s is %s, %s expected (%d modes)' % (what, list(i), got[i], want[i], len(bad)))




def program(comm, mesh, np, dt, seed, un):
    pm = M.make(comm, mesh, np, dt)
    return [M.part(pm.generate_whitenoise(seed, unitary=un, type=t)) for t in ('untransposedcomplex', 'transposedcomplex', 'real')]


def run(case, R):
    if not ranlux.selftest():
        raise RuntimeError('the reference generator is broken')
    R.trace()
    if case['kind'] in ('mesh', 'flat'):
        for n2 in case.get('n2', [None]):
            mesh = tuple(case['mesh']) if n2 is None else tuple(case['plane']) + (n2,)
            for s, seed in enumerate(case['seeds']):
                for un, full, dt in itertools.product((False, True), (False, True), ('c16', 'c8')):
                    if dt == 'c8' and (s or full):
                        continue
                    want = gauss(mesh, seed, un)
                    if n2 is None and un:
                        # a phase of rounding is no phase
                        want = numpy.where(abs(gauss(mesh, seed, False)) < 1e-9, numpy.nan, want)
                    got = whole(mesh, full, seed, un, dt)
                    want = want[..., :got.shape[-1]]
                    if n2 is None and un:
                        got = numpy.where(numpy.isnan(want), 0, got)
                        want = numpy.where(numpy.isnan(want), 0, want)
                        # real modes may be either way of the cut: pi or -pi
                    R.step()
                    judge(R, 'c39/%s/seed%d%s/%s' % ('x'.join(map(str, mesh)), seed, '/unitary' if un else '', 'full' if full else 'half'), got, want,
                          2e-6 if dt == 'c8' else 1e-12, 'mesh %s, seed %d, %s' % (mesh, seed, dt))
                    R.outcome(mesh, seed, un)
        return
    mesh, np, dt = tuple(case['mesh']), case['np'], case['dt']
    size = int(numpy.prod(np))
    for seed, un in ((1, False), (5463, True)):
        if len(mesh) < 3 and un:
            continue
        key = 'c39/field/%s/np%s/%s%s' % ('x'.join(map(str, mesh)), np, dt, '/unitary' if un else '')
        vals = lib.run_world(R, size, program, (mesh, np, dt, seed, un), key=key)
        if vals is None:
            return
        want = gauss(mesh, seed, un).copy()
        want.flat[0] = 0
        real = numpy.fft.ifftn(want) * numpy.prod(mesh)
        for t, name in enumerate(('untransposed', 'transposed', 'real')):
            got = M.assemble([v[t] for v in vals])
            if isinstance(got, str):
                R.violation(key + '/' + name, got)
                continue
            ref = real if name == 'real' else want[..., :got.shape[-1]]
            tol = 5e-5 if dt == 'f4' else 1e-10
            judge(R, key + '/' + name, got, ref, tol, name)
        R.outcome(key)
