"""C03: gather brings the data of every copy of a particle back to its owner."""
import numpy

from mc import dom, env, lib

ID = 'C03'
RULE = ('states are (grid, periodicity, ranks, distribution, smoothing, reduction, element type, out given or not, data '
        'contiguity); each copy of a particle carries a value that names the particle and the rank, and the result is '
        'compared with the reduction over the copies that were delivered')
ASSUMPTIONS = ['the simulated Alltoallv delivers as MPI prescribes (mc/conformance.py)',
               'particles delivered to no rank are judged only where the reduction has a value for them (sum: 0, a ufunc '
               'with identity: the identity)']

MODES = ['sum', 'mean', 'any', 'all', 'local', 'add', 'maximum', 'minimum', 'multiply']
TYPES = ['f8', 'f4', 'i8', 'i4', 'f8x3', 'f4x2x2', 'f8x1']


def cases(tier):
    out = []
    for nd, g in ((1, 0), (1, 1), (1, 4), (2, 0), (2, 1), (3, 0)):
        for size in ((1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6)):
            for dist in ('cyclic', 'block', 'rank1', 'skip'):
                for periodic in (True, False):
                    if not periodic and dist == 'block':
                        continue
                    out.append(dict(nd=nd, g=g, size=size, dist=dist, periodic=periodic))
    return out


def value(ids, rank, t, whole):
    ids = numpy.asarray(ids, 'i8')
    dt, *sh = t.split('x')
    sh = tuple(int(s) for s in sh)
    n = int(numpy.prod(sh)) if sh else 1
    v = (ids[:, None] * 3 + 1 + (rank + 1) * (1 if not whole else 0) + numpy.arange(n)) * 1.0
    v = v.astype(dt)
    return v.reshape((len(ids),) + sh)


def program(comm, edges, periodic, parts, pos, jobs):
    D = env.mod('domain', comm.rank)
    g = D.GridND([list(e) for e in edges], comm=comm, periodic=periodic)
    ids = parts[comm.rank]
    out = []
    layouts = {}
    for sm, mode, t, whole, useout, how in jobs:
        if sm not in layouts:
            layouts[sm] = g.decompose(pos[ids], smoothing=sm)
        L = layouts[sm]
        got = L.exchange(ids)
        data = value(got, comm.rank, t, whole)
        if how == 'strided':
            data = numpy.repeat(data, 2, axis=0)[::2]
        elif how == 'fortran':
            data = numpy.asfortranarray(data)
        keep = data.copy()
        m = mode if mode in ('sum', 'mean', 'any', 'all', 'local') else getattr(numpy, mode)
        o = None
        if useout:
            n = len(L.indices) if mode == 'all' else len(ids)
            o = numpy.full((n,) + data.shape[1:], -77, dtype=data.dtype)
        r = L.gather(data, mode=m, out=o)
        if mode == 'local' and not useout:
            # particles that have no copy on this rank have no value
            r = numpy.array(r)
            r[~numpy.isin(ids, got)] = 0
        out.append((got, numpy.array(r), numpy.array(o) if useout else None, bool((keep == data).all()),
                    numpy.array(L.indices)))
    return out


def run(case, R):
    nd, size = case['nd'], case['size']
    edges = dom.GRIDS[nd][case['g']]
    if case['periodic']:
        pos = dom.lattice(edges, 1.0 if nd == 3 else .5, lo=0, hi=1.0)[:50]
    else:
        pos = dom.lattice(edges, .5 if nd == 1 else 1.0, lo=-.5, hi=1.5)
        pos = pos[::max(1, len(pos) // 40)]
    parts = [p.astype('i8') for p in lib.split(len(pos), size, case['dist'])]
    jobs = []
    for sm in (0, .5, 2.5):
        for mode in MODES:
            for t in TYPES:
                if mode == 'mean' and t in ('i8', 'i4'):
                    continue
                jobs.append((sm, mode, t, False, False, 'plain'))
                jobs.append((sm, mode, t, True, True, 'strided' if 'x' not in t else 'fortran'))
    key = 'c03/grid%d.%d/%s/size%d/%s' % (nd, case['g'], 'per' if case['periodic'] else 'open', size, case['dist'])
    vals = lib.run_world(R, size, program, (edges, case['periodic'], parts, pos, jobs), key=key, schedules='few' if size == 3 and case['dist'] != 'block' else 'one',
                         horizon=10**7)
    if vals is None:
        return
    F = dict(sum=numpy.add, add=numpy.add, maximum=numpy.maximum, minimum=numpy.minimum, multiply=numpy.multiply)
    for j, (sm, mode, t, whole, useout, how) in enumerate(jobs):
        R.state(nd, case['g'], case['periodic'], size, case['dist'], sm, mode, t, whole, useout, how)
        copies = {}
        for r in range(size):
            for i in vals[r][j][0]:
                copies.setdefault(int(i), []).append(r)
        for r in range(size):
            got, res, o, same, indices = vals[r][j]
            k = key + '/%s/%s%s' % (mode, t, '/out' if useout else '')
            R.check(same, k + '/input', 'gather modified its input')
            dt = value(got, r, t, whole).dtype
            tail = value(got, r, t, whole).shape[1:]
            if mode == 'all':
                # corresponds to indices
                want = sorted((int(i), value([i], q, t, whole)[0].tolist()) for i in parts[r] for q in copies.get(int(i), []))
                ok = res.shape == (len(want),) + tail and res.dtype == dt and len(indices) == len(want)
                if ok:
                    have = sorted((int(parts[r][q]), v.tolist()) for q, v in zip(indices, res))
                    ok = have == want
                R.check(ok, k, "gather 'all' does not return every copy, by layout.indices")
                if useout:
                    R.check(numpy.array_equal(o, res), k + '/outval', 'out is not filled')
                continue
            R.check(res.shape == (len(parts[r]),) + tail and res.dtype == dt, k + '/shape', 'shape %s dtype %s' % (res.shape, res.dtype))
            for n, i in enumerate(parts[r]):
                c = copies.get(int(i), [])
                vs = [value([i], q, t, whole)[0] for q in c]
                if mode == 'local':
                    if r in c:
                        want = [value([i], r, t, whole)[0]]
                    else:
                        continue
                elif mode == 'any':
                    want = vs if vs else ([numpy.zeros(tail, dt)] if not useout else None)
                elif mode == 'mean':
                    want = [sum(v.astype('f8') for v in vs) / len(vs)] if vs else None
                elif mode == 'sum':
                    want = [sum(vs) if vs else numpy.zeros(tail, dt)]
                else:
                    if not vs and F[mode].identity is None:
                        continue
                    want = [F[mode].reduce(numpy.array(vs), axis=0) if vs else numpy.full(tail, F[mode].identity)]
                if want is None:
                    continue
                x = res[n]
                rt = 1e-6 if dt == numpy.dtype('f4') else 1e-13
                ok = any((x == w if not tail and x == w else bool((abs(x - w) <= rt * abs(w)).all())) for w in want)
                R.check(ok, k, '%s of particle %d on rank %d with copies on %s is %s' % (mode, i, r, c, x), want=want)
            if useout and len(parts[r]):
                R.check(numpy.array_equal(o, res, equal_nan=True), k + '/outval', 'out is not filled')
        R.outcome(mode, t, tuple(sorted(len(c) for c in copies.values())))
