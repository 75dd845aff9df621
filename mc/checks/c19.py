"""C19: transforms agree with the serial transform of the assembled mesh and invert each other."""
import itertools

import numpy

from mc import env, lib, mesh as M

ID = 'C19'
RULE = ('states are (mesh shape, process mesh, type, storage order, how the destination is given, field): all process meshes '
        'of up to 6 ranks; forward and backward transforms and conversions against numpy on the assembled array')
ASSUMPTIONS = ['the simulated transform layer (conform) computes the transform of the assembled array and fills the destroyed '
               'input of plans that destroy it']

SHAPES = [(4, 4, 4), (3, 4, 5), (4, 6, 2), (2, 5, 3), (5, 3, 4), (1, 4, 3), (4, 1, 2), (4, 6), (5, 3), (3, 4), (1, 5), (4,), (5,), (2, 3, 2, 4)]


def cases(tier):
    out = []
    for m in SHAPES + ([] if tier == 'quick' else [(6, 6, 6), (7, 5, 9), (8, 8), (7, 9), (8, 4, 6), (12,), (3, 3, 3, 3)]):
        nps = M.procmeshes(len(m), 6 if len(m) < 4 else 4, full=len(m) > 1)
        for np in [None] + nps:
            for dt in ('f8', 'f4', 'c16', 'c8'):
                if tier == 'quick' and dt in ('f4', 'c8') and (np is None or numpy.prod(np) not in (1, 4, 6)):
                    continue
                out.append(dict(mesh=m, np=np, dt=dt))
    return out


def program(comm, mesh, np, dt):
    pm = M.make(comm, mesh, np, dt)
    cplx = pm.dtype.kind == 'c'
    out = []

    def fill(f, g):
        f[...] = g[f.slices]
        return f
    for k in range(2):
        g = M.generic(mesh, k, cplx)
        G = M.spectrum(M.generic(mesh, k + 2, cplx), cplx)

        def real():
            return fill(pm.create('real'), g)

        def cpl(t):
            return fill(pm.create(t), G)
        # forward
        r = real()
        keep = r.value.copy()
        for t in (None, 'transposedcomplex', 'untransposedcomplex'):
            dest = None if t is None else pm.create(t)
            c = r.r2c(dest)
            out.append((k, 'r2c/%s' % t, 'F', M.part(c), type(c).__name__, bool((r.value == keep).all()), dest is None or c is dest))
        for t in ('complex', 'untransposedcomplex'):
            c = r.cast(t)
            out.append((k, 'cast/%s' % t, 'F', M.part(c), type(c).__name__, bool((r.value == keep).all()), True))
        c = real().r2c(out=Ellipsis)
        out.append((k, 'r2c/inplace', 'F', M.part(c), type(c).__name__, True, True))
        r2 = real()
        c = r2.r2c(out=r2)
        out.append((k, 'r2c/self', 'F', M.part(c), type(c).__name__, True, True))
        r2 = real()
        u = pm.create('untransposedcomplex', base=r2._base)
        c = r2.r2c(out=u)
        out.append((k, 'r2c/samebase', 'F', M.part(c), type(c).__name__, True, c is u))
        # backward
        for t in ('transposedcomplex', 'untransposedcomplex'):
            c = cpl(t)
            keepc = c.value.copy()
            b = c.c2r()
            out.append((k, 'c2r/%s' % t, 'B', M.part(b), type(b).__name__, bool((c.value == keepc).all()), True))
            dest = pm.create('real')
            b = c.c2r(dest)
            out.append((k, 'c2r/%s/out' % t, 'B', M.part(b), type(b).__name__, bool((c.value == keepc).all()), b is dest))
            b = c.cast('real')
            out.append((k, 'cast/real', 'B', M.part(b), type(b).__name__, bool((c.value == keepc).all()), True))
            b = cpl(t).c2r(out=Ellipsis)
            out.append((k, 'c2r/%s/inplace' % t, 'B', M.part(b), type(b).__name__, True, True))
            c2 = cpl(t)
            dest = pm.create('real', base=c2._base)
            b = c2.c2r(dest)
            out.append((k, 'c2r/%s/samebase' % t, 'B', M.part(b), type(b).__name__, True, b is dest))
            # between the storage orders
            for t2 in ('transposedcomplex', 'untransposedcomplex'):
                d = c.cast(t2)
                out.append((k, 'cast/%s/%s' % (t, t2), 'C', M.part(d), type(d).__name__, bool((c.value == keepc).all()), True))
                c3 = cpl(t)
                d = c3.cast(t2, out=c3)
                out.append((k, 'cast/%s/%s/inplace' % (t, t2), 'C', M.part(d), type(d).__name__, True, True))
        # there and back
        b = real().r2c().c2r()
        out.append((k, 'round trip', 'R', M.part(b), type(b).__name__, True, True))
        b = real().r2c(out=Ellipsis).c2r(out=Ellipsis)
        out.append((k, 'round trip in place', 'R', M.part(b), type(b).__name__, True, True))
    return out


def run(case, R):
    mesh, np, dt = tuple(case['mesh']), case['np'], case['dt']
    key = 'c19/%s/np%s/%s' % ('x'.join(map(str, mesh)), np, dt)
    cplx = numpy.dtype(dt).kind == 'c'
    for size in ([int(numpy.prod(np))] if np is not None else ([1, 2, 3, 4, 6] if len(mesh) > 1 else [1])):
        vals = lib.run_world(R, size, program, (mesh, np, dt), key=key)
        if vals is None:
            return
        for i in range(len(vals[0])):
            k, what, kind = vals[0][i][:3]
            got = M.assemble([v[i][3] for v in vals])
            kk = key + '/' + what
            if isinstance(got, str):
                R.violation(kk, got)
            g, g2 = M.generic(mesh, k, cplx), M.generic(mesh, k + 2, cplx)
            want = {'F': lambda: M.spectrum(g, cplx), 'B': lambda: g2, 'C': lambda: M.spectrum(g2, cplx), 'R': lambda: g}[kind]()
            if not lib.close(got, want, M.tol(dt), M.tol(dt) * 10):
                R.violation(kk, 'field %d: %s' % (k, lib.maxdiff(got, want)), got=got, want=want)
            name = {'F': 'Complex', 'C': 'Complex', 'B': 'RealField', 'R': 'RealField'}[kind]
            R.check(name in vals[0][i][4], kk, 'the result is a %s' % vals[0][i][4])
            R.check(all(v[i][5] for v in vals), kk + '/source', 'the source of an out of place transform is changed')
            R.check(all(v[i][6] for v in vals), kk + '/out', 'the result is not the given destination')
            R.nstates(1)
        R.outcome(mesh, dt, lib.digest([numpy.round(M.assemble([v[i][3] for v in vals]), 4) for i in (0, 5)]))
