"""C16: white noise depends on the seed and the mesh only, not on the decomposition."""
import itertools

import numpy

from mc import env, lib

ID = 'C16'
RULE = ('states are (mesh, box of start and extent, seed, unitary, compressed or full, precision, memory order): the noise of '
        'every box of every mesh in the bound equals that part of the noise of the whole mesh, with guard cells around; and '
        'fields on all process meshes equal the noise of one rank')
ASSUMPTIONS = ['single precision noise is the rounded double precision noise to 1e-6']

MESHES = [(4, 4, 4), (2, 2, 2), (4, 4, 2), (2, 4, 4), (4, 2, 4), (6, 4, 2), (2, 6, 4), (3, 3, 3), (3, 4, 2), (4, 3, 5), (1, 1, 1), (1, 4, 2), (4, 1, 3),
          (5, 2, 3), (8, 2, 2), (2, 8, 2)]
SMALL = [(6,), (5,), (4, 4), (3, 4), (4, 5), (2, 6)]


def cases(tier):
    out = []
    for mesh in MESHES + SMALL + ([] if tier == 'quick' else [(6, 6, 6), (8, 4, 6), (4, 8, 6), (5, 5, 5), (7, 3, 4)]):
        for full in (False, True):
            for un in (False, True):
                for seed in ((1, 77) if tier == 'quick' else (0, 1, 77, 2 ** 31 - 1, 2 ** 32 - 1)):
                    out.append(dict(kind='box', mesh=mesh, full=full, un=un, seed=seed))
    for mesh in [(260, 7, 4), (6, 300, 2), (130, 140, 2), (2, 3, 300), (3, 2, 66000), (33, 40, 35)]:
        for full in (False, True):
            out.append(dict(kind='large', mesh=mesh, full=full, un=full, seed=5463))
    for mesh in [(4, 4, 4), (3, 4, 6), (6, 2, 4), (5, 3, 4), (4, 6), (5, 4)] + ([] if tier == 'quick' else [(8, 8, 8), (6, 5, 4), (7, 6)]):
        for np in ([[1, 1], [2, 1], [1, 2], [3, 1], [2, 2], [1, 3]] if len(mesh) == 3 else [[1], [2], [3], [4]]):
            for dt in ('f8', 'f4', 'c16'):
                out.append(dict(kind='field', mesh=mesh, np=np, dt=dt))
    return out


def generate(*a, **k):
    return env.mod('whitenoise').generate(*a, **k)


def whole(mesh, full, seed, un, dt='c16'):
    sh = list(mesh) if full else list(mesh[:-1]) + [mesh[-1] // 2 + 1]
    v = numpy.full(sh, numpy.nan, dt)
    generate(v, 0, mesh, seed, un)
    return v


def boxes(n):
    for a in range(n + 1):
        for b in range(a, n + 1):
            if a == b and a not in (0, n):
                continue
            yield a, b


def program(comm, mesh, np, dt, seed, un):
    pm = env.mod('pm', comm.rank).ParticleMesh(Nmesh=mesh, BoxSize=1.0, comm=comm, np=np, dtype=dt)
    P = env.mod('pm', comm.rank)
    out = []
    for t in ('untransposedcomplex', 'transposedcomplex', 'real'):
        for mean in (0, 2.5):
            f = pm.generate_whitenoise(seed, unitary=un, mean=mean, type=t)
            g = pm.generate_whitenoise(seed, unitary=un, mean=mean, type=t)
            out.append((t, mean, tuple((s.start, s.stop) for s in f.slices), numpy.array(f.value), bool((f.value == g.value).all())))
    # the deprecated name of the argument, and none
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for t in ('real', 'transposedcomplex', 'untransposedcomplex'):
            f = pm.generate_whitenoise(seed, unitary=un, mean=2.5, mode=t)
            out.append((t, 2.5, tuple((s.start, s.stop) for s in f.slices), numpy.array(f.value), type(f) is type(pm.create(t))))
    f = pm.generate_whitenoise(seed, un)
    out.append(('transposedcomplex', 0, tuple((s.start, s.stop) for s in f.slices), numpy.array(f.value), type(f) is type(pm.create('complex'))))
    # given memory
    b = pm.create('transposedcomplex')
    f = pm.generate_whitenoise(seed, unitary=un, mean=0, base=b._base)
    out.append(('transposedcomplex', 0, tuple((s.start, s.stop) for s in f.slices), numpy.array(f.value), True))
    return out


def run(case, R):
    mesh = tuple(case['mesh'])
    nd = len(mesh)
    if case['kind'] == 'box':
        full, un, seed = case['full'], case['un'], case['seed']
        key = 'c16/%s/%s/seed%d%s' % ('x'.join(map(str, mesh)), 'full' if full else 'compressed', seed, '/unitary' if un else '')
        ref = whole(mesh, full, seed, un)
        R.check(numpy.isfinite(ref).all(), key + '/missing', 'some modes are not generated: %s' % numpy.argwhere(~numpy.isfinite(ref))[:3].tolist())
        R.check(numpy.array_equal(ref, whole(mesh, full, seed, un)), key + '/again', 'not reproducible')
        if full:
            half = whole(mesh, False, seed, un)
            R.check(numpy.array_equal(half, ref[..., :half.shape[-1]]), key + '/half', 'the compressed noise is not half of the full one')
        orders = ['C', 'F', 'step']
        for bi, box in enumerate(itertools.product(*[list(boxes(n)) for n in ref.shape])):
            sl = tuple(slice(a, b) for a, b in box)
            sh = [b - a for a, b in box]
            how = orders[bi % 3]
            dt = 'c16' if bi % 4 else 'c8'
            if how == 'F':
                big = numpy.full([s + 2 for s in sh], -9, dt, order='F')
                v = big[tuple(slice(1, 1 + s) for s in sh)]
            elif how == 'C':
                big = numpy.full([s + 2 for s in sh], -9, dt)
                v = big[tuple(slice(1, 1 + s) for s in sh)]
            else:
                big = numpy.full([2 * s + 3 for s in sh], -9, dt)
                v = big[tuple(slice(1, 1 + 2 * s, 2) for s in sh)]
            v[...] = numpy.nan
            generate(v, [a for a, b in box], mesh, seed, un)
            R.step()
            want = ref[sl]
            ok = numpy.array_equal(v, want) if dt == 'c16' else lib.close(v, want, 1e-6, 1e-6) and numpy.isfinite(v).all()
            if not ok:
                R.violation(key + '/box', 'the box %s (%s, %s) differs from that part of the whole' % (box, how, dt), got=v.copy(), want=want)
            v[...] = -9
            R.check((big == -9).all(), key + '/guard', 'generating the box %s wrote outside of it' % (box,))
            R.nstates(1)
        R.trace()
        R.outcome(key, lib.digest(ref))
    elif case['kind'] == 'large':
        full, un, seed = case['full'], case['un'], case['seed']
        key = 'c16/%s/%s/seed%d%s' % ('x'.join(map(str, mesh)), 'full' if full else 'compressed', seed, '/unitary' if un else '')
        ref = whole(mesh, full, seed, un)
        R.check(numpy.isfinite(ref).all(), key + '/missing', 'some modes are not generated: %s' % numpy.argwhere(~numpy.isfinite(ref))[:3].tolist())
        for ax in itertools.product(*[[(0, n), (n // 2, n), (0, (n + 1) // 2), (n - 1, n), (n // 2 - 1, n // 2 + 2)] for n in ref.shape]):
            box = [(max(0, a), min(b, n)) for (a, b), n in zip(ax, ref.shape)]
            want = ref[tuple(slice(a, b) for a, b in box)]
            v = numpy.full(want.shape, numpy.nan, 'c16')
            generate(v, [a for a, b in box], mesh, seed, un)
            R.step()
            R.nstates(1)
            if not numpy.array_equal(v, want):
                i = numpy.argwhere(v != want)[0]
                R.violation(key + '/box', 'the box %s differs from that part of the whole: at %s' % (box, i.tolist()))
        R.trace()
        R.outcome(key, lib.digest(ref))
    else:
        np, dt = case['np'], case['dt']
        size = int(numpy.prod(np))
        for seed, un in ((1, False), (9, True)):
            key = 'c16/field/%s/np%s/%s' % ('x'.join(map(str, mesh)), 'x'.join(map(str, np)), dt)
            vals = lib.run_world(R, size, program, (mesh, np, dt, seed, un), key=key)
            if vals is None:
                return
            ref = whole(mesh, dt == 'c16', seed, un)
            tol = 2e-5 if dt == 'f4' else 1e-12
            for k in range(len(vals[0])):
                t, mean = vals[0][k][:2]
                want = ref.copy()
                want[(0,) * nd] = mean
                if t == 'real':
                    want = numpy.fft.irfftn(want, s=mesh) if dt != 'c16' else numpy.fft.ifftn(want)
                    want = want * numpy.prod(mesh)
                    if dt != 'c16':
                        # Hermitian part of the spectrum
                        pass
                seen = numpy.zeros(want.shape, int)
                for r in range(size):
                    _, _, sl, v, again = vals[r][k]
                    s = tuple(slice(*x) for x in sl)
                    seen[s] += 1
                    R.check(again, key + '/again', 'generating again gives other values')
                    if not lib.close(v, want[s], tol, tol * numpy.sqrt(numpy.prod(mesh))):
                        R.violation(key + '/' + t, 'mean %s, part %s differs from the noise of the whole mesh: %s' % (mean, sl, lib.maxdiff(v, want[s])))
                R.check((seen == 1).all(), key + '/cover', 'the parts do not tile the mesh')
                R.nstates(1)
        R.outcome(key, size)
