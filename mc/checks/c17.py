"""C17: white noise is Hermitian; unitary noise has unit modulus and the phases of the plain noise; the mean is set."""
import itertools

import numpy

from mc import env, lib
from .c14 import shapes
from .c16 import whole

ID = 'C17'
RULE = ('states are (mesh, seed, unitary, compressed or full, mode): every mode of all meshes in the bound against its '
        'conjugate; fields of one rank with all combinations of mean, type and precision')
ASSUMPTIONS = ['unitary noise of self-conjugate modes is one or minus one']


def cases(tier):
    out = [dict(kind='modes', mesh=m, seeds=[1, 2, 77] if tier == 'quick' else list(range(8))) for m in shapes(tier)]
    for m in [(4, 4, 4), (3, 4, 5), (4, 2, 3), (2, 2, 2), (4, 4), (3, 5), (4,), (5,), (1, 2, 4)]:
        for dt in ('f8', 'f4', 'c16', 'c8'):
            out += [dict(kind='field', mesh=m, dt=dt, scale=s) for s in ((0, 60, -60) if dt == 'f8' else (0,))]
    return out


def program(comm, mesh, dt, scale):
    pm = env.mod('pm', comm.rank).ParticleMesh(Nmesh=mesh, BoxSize=[L * 2. ** scale for L in (3.0, 2.0, 5.0)][:len(mesh)], comm=comm, dtype=dt)
    out = []
    for t, mean, un, seed in itertools.product(('untransposedcomplex', 'transposedcomplex', 'complex', 'real'), (0, 1.0, -2.5),
                                               (False, True), (3, 8)):
        f = pm.generate_whitenoise(seed, unitary=un, mean=mean, type=t)
        out.append(((t, mean, un, seed), numpy.array(f.value)))
    return out


def run(case, R):
    mesh = tuple(case['mesh'])
    nd = len(mesh)
    key = 'c17/' + 'x'.join(map(str, mesh))
    if case['kind'] == 'modes':
        g = numpy.stack(numpy.meshgrid(*[numpy.arange(n) for n in mesh], indexing='ij'), -1).reshape(-1, nd)
        c = (-g) % numpy.array(mesh)
        gi, ci = tuple(g.T), tuple(c.T)
        selfc = (g == c).all(axis=1)
        zero = (g == 0).all(axis=1)
        eps = 0 if nd == 3 else 1e-12
        for seed in case['seeds']:
            plain = None
            for un in (False, True):
                v = whole(mesh, True, seed, un)
                k = key + '/seed%d%s' % (seed, '/unitary' if un else '')
                bad = ~(abs(v[gi] - v[ci].conj()) <= eps)
                if bad.any():
                    i = numpy.argmax(bad)
                    R.violation(k, 'mode %s is %s and its conjugate %s' % (g[i].tolist(), v[gi][i], v[ci][i]))
                R.check((abs(v[gi][selfc].imag) <= (eps or 0)).all(), k + '/self', 'a self conjugate mode is not real')
                h = whole(mesh, False, seed, un)
                n = h.shape[-1]
                R.check(numpy.array_equal(h, v[..., :n]), k + '/half', 'the compressed noise is not half of the full noise')
                # the real field of the compressed noise has these modes
                back = numpy.fft.rfftn(numpy.fft.irfftn(h, s=mesh))
                R.check(lib.close(back, h, 1e-10, 1e-10 * numpy.prod(mesh)), k + '/real', 'is not the transform of a real field: %s' % lib.maxdiff(back, h))
                R.step(2)
                R.nstates(len(g))
                if un:
                    m = abs(v[gi][~zero])
                    R.check((abs(m - 1) <= 1e-12).all(), k + '/modulus', 'a mode of unitary noise has modulus %s' % (m[abs(m - 1) > 1e-12][:1],))
                    d = abs(v[gi] * abs(plain[gi]) - plain[gi])[~selfc]
                    R.check(not len(d) or d.max() <= 1e-12 * max(1, abs(plain).max()), k + '/phase', 'the phase differs from that of the plain noise')
                else:
                    plain = v
                R.outcome(key, lib.digest(v))
        R.trace()
    else:
        vals = lib.run_world(R, 1, program, (mesh, case['dt'], case.get('scale', 0)), key=key + '/field')
        if vals is None:
            return
        tol = 1e-5 if case['dt'] in ('f4', 'c8') else 1e-12
        for (t, mean, un, seed), v in vals[0]:
            k = key + '/field/%s/%s' % (case['dt'], t)
            R.nstates(1)
            if t == 'real':
                R.check(abs(v.mean() - mean) <= tol * 10, k, 'mean of the real field is %s, not %s' % (v.mean(), mean))
                if v.dtype.kind == 'c':
                    R.check(abs(v.imag).max() <= tol * 10 * numpy.prod(mesh), k, 'the field is not real')
            else:
                R.check(v[(0,) * nd] == mean, k, 'the zero mode is %s, not %s' % (v[(0,) * nd], mean))
                other = v.ravel()[1:]
                if un:
                    R.check((abs(abs(other) - 1) <= tol).all(), k, 'a mode of unitary noise has another modulus than one')
