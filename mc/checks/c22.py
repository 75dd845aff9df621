"""C22: ravel and unravel are inverse and use the C order of the global mesh."""
import itertools

import numpy

from mc import env, lib, mesh as M

ID = 'C22'
RULE = ('states are (mesh shape, process mesh, type, field type, destination, partition of the flattened values over ranks): all '
        'process meshes of up to 6 ranks; all partitions over two ranks, and all coarse ones over more')
ASSUMPTIONS = ['the simulated sort (conform) orders by key over ranks']

SHAPES = [(4, 3, 5), (2, 6, 3), (3, 4, 4), (1, 5, 2), (5, 1, 3), (4, 4, 1), (4, 6), (3, 5), (1, 4), (6,), (5,), (2, 3, 2, 3)]


def cases(tier):
    out = []
    for m in SHAPES + ([(6, 5, 7), (8, 4, 6), (7, 8)] if tier != 'quick' else []):
        for np in M.procmeshes(len(m), 6 if len(m) < 4 else 4, full=len(m) > 1):
            for dt in ('f8', 'c16', 'f4', 'c8')[:4 if tier != 'quick' or numpy.prod(np) in (1, 4) else 2]:
                out.append(dict(mesh=m, np=np, dt=dt, tier=tier))
    return out


def partitions(n, size, tier):
    """cut points; local sizes per rank"""
    if size == 1:
        return [[n]]
    cuts = range(n + 1) if size == 2 else sorted({0, 1, n // 3, n // 2, n - 1, n} if tier != 'quick' or size < 4 else {0, n // 3, n})
    out = []
    for c in itertools.combinations_with_replacement(cuts, size - 1):
        c = [0] + list(c) + [n]
        out.append([b - a for a, b in zip(c, c[1:])])
    return out


def program(comm, mesh, np, dt, types, tier):
    pm = M.make(comm, mesh, np, dt)
    out = []
    for t in types:
        f = pm.create(t)
        cplx = f.dtype.kind == 'c'
        g = M.generic(tuple(f.cshape), 1, cplx).astype(f.dtype)
        f[...] = g[f.slices]
        keep = f.value.copy()
        res = {}

        def dest(how):
            if how == 'none':
                return None, None
            if how == 'array':
                a = numpy.zeros(f.size, f.dtype)
            elif how == 'shaped':
                a = numpy.zeros(f.shape, f.dtype)
            elif how == 'fortran':
                a = numpy.zeros(f.shape, f.dtype, order='F')
            else:
                a = numpy.zeros(2 * f.size, f.dtype)[::2]
            return a, a
        for how in ('none', 'array', 'shaped', 'fortran', 'strided', 'flat'):
            o, a = dest(how)
            r = f.ravel(out=o if how != 'flat' else o.flat)
            v = numpy.array(r)
            res[how] = (v, bool((f.value == keep).all()), a is None or numpy.array_equal(a.ravel(), v))
        # the names of older versions
        o = numpy.zeros(f.size, f.dtype)
        r = f.sort(out=o)
        res['sort'] = (numpy.array(r), bool((f.value == keep).all()) and numpy.array_equal(o, numpy.array(f.sort())), True)
        h = f.copy()
        r = h.ravel(out=Ellipsis)
        res['inplace'] = (numpy.array(r), numpy.array_equal(h.value.ravel(), numpy.array(r)), True)
        h.unravel(h.flat)
        res['inplace back'] = bool((h.value == keep).all())
        back = []
        flat = g.ravel()
        for ip, p in enumerate(partitions(g.size, comm.size, tier)):
            s = sum(p[:comm.rank])
            mine = flat[s:s + p[comm.rank]]
            forms = [mine.copy()]
            if len(back) % 5 == 0:
                forms += [numpy.repeat(mine, 2)[::2], mine.copy().flat]
            if ip % 40 == 0:
                for n in (2, 3):
                    a = mine.reshape(n if len(mine) % n == 0 else 1, len(mine) // n if len(mine) % n == 0 else len(mine))
                    forms += [a.copy(), numpy.asfortranarray(a), numpy.asfortranarray(a).flat, a.T.copy().T, a[:, None].copy()]
                a = mine.reshape((2, 2, len(mine) // 4) if len(mine) % 4 == 0 else (1, 1, len(mine)))
                forms += [numpy.asfortranarray(a), a.transpose(2, 1, 0).copy().transpose(2, 1, 0)]
            for form in forms:
                b = pm.unravel(t, form)
                ok = bool((b.value == keep).all()) and isinstance(b, type(f))
                if isinstance(form, numpy.ndarray):
                    ok = ok and numpy.array_equal(form.reshape(-1), mine)
                back.append((p, ok))
        # into a field with values
        h = pm.create(t, value=7)
        n = [g.size * r // comm.size for r in range(comm.size + 1)]
        h.unravel(flat[n[comm.rank]:n[comm.rank + 1]].copy())
        back.append(('field', bool((h.value == keep).all())))
        h = pm.create(t, value=7)
        h.unsort(flat[n[comm.rank]:n[comm.rank + 1]].copy())
        back.append(('unsort', bool((h.value == keep).all())))
        # the wrong number of values
        try:
            h.unravel(numpy.zeros(n[comm.rank + 1] - n[comm.rank] + (comm.rank == 0), f.dtype))
            bad = True
        except Exception:
            bad = False
        out.append((f.size, res, back, bad))
    return out


def run(case, R):
    mesh, np, dt = tuple(case['mesh']), case['np'], case['dt']
    size = int(numpy.prod(np))
    cplx = numpy.dtype(dt).kind == 'c'
    types = ['real', 'untransposedcomplex', 'transposedcomplex']
    vals = lib.run_world(R, size, program, (mesh, np, dt, types, case['tier']), key='c22')
    if vals is None:
        return
    for j, t in enumerate(types):
        key = 'c22/%s/np%s/%s/%s' % ('x'.join(map(str, mesh)), np, dt, t)
        cshape = tuple(mesh) if t == 'real' or cplx else tuple(mesh[:-1]) + (mesh[-1] // 2 + 1,)
        flat = M.generic(cshape, 1, cplx or t != 'real').ravel()
        for how in vals[0][j][1]:
            if how == 'inplace back':
                R.check(all(v[j][1][how] for v in vals), key, 'ravel and unravel in place do not restore the field')
                continue
            got = numpy.concatenate([v[j][1][how][0] for v in vals])
            R.check(numpy.array_equal(got, flat), key + '/ravel/' + how, 'the concatenation of the ranks is not the mesh in C order')
            R.check(all(len(v[j][1][how][0]) == v[j][0] for v in vals), key + '/ravel/' + how, 'a rank holds another number of values')
            R.check(all(v[j][1][how][1] and v[j][1][how][2] for v in vals), key + '/ravel/' + how, 'the source was changed or the destination not filled')
            R.nstates(1)
        for i, (p, ok) in enumerate(vals[0][j][2]):
            R.check(all(v[j][2][i][1] for v in vals), key + '/unravel', 'partition %s does not restore the field' % (p,))
            R.nstates(1)
        R.check(not any(v[j][3] for v in vals), key + '/unravel', 'a wrong number of values is accepted')
        R.outcome(key, t, lib.digest(flat))
