"""C24: Fourier resampling keeps the modes common to both meshes and zeroes the rest."""
import itertools

import numpy

from mc import env, lib, mesh as M

ID = 'C24'
RULE = ('states are (source shape, destination shape, process mesh, type, source type, destination type): all pairs of sizes per '
        'axis in the bound; every mode of the destination against the modes strictly below both Nyquist frequencies')
ASSUMPTIONS = ['between meshes of the same shape the Nyquist modes may be kept or cleared']

TYPES = ['real', 'untransposedcomplex', 'transposedcomplex']


def cases(tier):
    out = []
    top = 9 if tier == 'quick' else 14
    for a, b in itertools.product(range(1, top + 1), repeat=2):
        out.append(dict(a=(a,), b=(b,), np=[], dts=['f8', 'c16']))
    sizes = [1, 2, 3, 4, 5, 6, 7, 8]
    pairs2 = [((a, 4), (b, 4)) for a, b in itertools.product(sizes, repeat=2)] + [((4, a), (6, b)) for a, b in itertools.product(sizes, repeat=2)]
    if tier != 'quick':
        pairs2 += [((a, c), (b, d)) for a, b, c, d in itertools.product([2, 3, 4, 5, 6, 8], repeat=4)]
    for a, b in pairs2:
        for np in [[1], [2], [3], [4]] if tier != 'quick' else [[1], [3]]:
            out.append(dict(a=a, b=b, np=np, dts=['f8']))
    three = [(4, 4, 4), (6, 4, 8), (3, 4, 5), (8, 8, 4), (5, 6, 3), (2, 5, 6)]
    for a, b in itertools.product(three, repeat=2):
        for np in [[1, 1], [2, 1], [1, 2], [2, 2], [3, 2], [3], [2, 1, 2]]:
            out.append(dict(a=a, b=b, np=np, dts=['f8', 'c16', 'f4'] if np in ([2, 2], [1, 1]) else ['f8']))
    return out


def program(comm, a, b, np, dt, nf):
    pa, pb = M.make(comm, a, np, dt), M.make(comm, b, np, dt, box=[1.5] * len(b))
    cplx = pa.dtype.kind == 'c'
    out = []
    for k in range(nf):
        g = M.generic(a, k, cplx)
        G = M.spectrum(g, cplx)
        for s, d in itertools.product(TYPES, repeat=2):
            f = pa.create(s)
            f[...] = (g if s == 'real' else G)[f.slices]
            keep = f.value.copy()
            o = pb.create(d, value=5)
            r = f.resample(o)
            ok = [r is o or r is None, bool((f.value == keep).all())]
            # what the destination says it holds
            out.append((k, s, d, M.part(o), ok))
    return out


def common(a, b):
    """for each index of b (in full form): index in a or -1"""
    k = numpy.arange(b)
    k = numpy.where(k > (b - 1) // 2, k - b, k)
    return numpy.where(2 * abs(k) < min(a, b), k % a, -1)


def run(case, R):
    a, b, np = tuple(case['a']), tuple(case['b']), case['np']
    size = int(numpy.prod(np))
    ind = numpy.ix_(*[common(x, y) for x, y in zip(a, b)])
    zero = sum(i < 0 for i in numpy.broadcast_arrays(*ind)) > 0
    nyq = numpy.zeros(b, bool)
    for ax, n in enumerate(b):
        if n % 2 == 0:
            nyq[tuple(n // 2 if e == ax else slice(None) for e in range(len(b)))] = True
    for dt in case['dts']:
        key = 'c24/%s->%s/np%s/%s' % ('x'.join(map(str, a)), 'x'.join(map(str, b)), np, dt)
        cplx = numpy.dtype(dt).kind == 'c'
        vals = lib.run_world(R, size, program, (a, b, np, dt, 2), key=key)
        if vals is None:
            continue
        for i, (k, s, d, _, _) in enumerate(vals[0]):
            kk = key + '/%s->%s' % (s, d)
            got = M.assemble([v[i][3] for v in vals])
            if isinstance(got, str):
                R.violation(kk, got)
                continue
            F = numpy.fft.fftn(M.generic(a, k, cplx)) / numpy.prod(a)
            want = numpy.where(zero, 0, F[ind])
            keepnyq = F if a == b else None
            if d == 'real':
                G = numpy.fft.fftn(got) / numpy.prod(b)
            elif cplx:
                G = got
            else:
                want = want[..., :b[-1] // 2 + 1]
                G = got
                keepnyq = None if keepnyq is None else keepnyq[..., :b[-1] // 2 + 1]
            tol = 1e-5 if dt in ('f4', 'c8') else 1e-12
            bad = ~(abs(G - want) <= tol * 10)
            if keepnyq is not None:
                bad &= ~(nyq[tuple(slice(0, n) for n in bad.shape)] & (abs(G - keepnyq) <= tol * 10))
            if bad.any():
                j = tuple(int(x) for x in numpy.argwhere(bad)[0])
                R.violation(kk, 'mode %s is %s, not %s' % (j, G[j], want[j]))
            R.check(all(all(v[i][4]) for v in vals), kk, 'the source was changed or the result is not the destination')
            R.nstates(1)
        R.outcome(a, b, dt, lib.digest(numpy.round(got, 5)))
