"""C02: an exchange moves whole rows, unchanged, the same rows for every column."""
import numpy

from mc import dom, env, lib

ID = 'C02'
RULE = ('states are (grid, ranks, distribution of particles over ranks, smoothing, column types and shapes, packed or not, '
        'layout reuse); the rows that arrive are compared with the rows that left, by the ids that travelled with the '
        'same layout')
ASSUMPTIONS = ['the simulated Alltoallv delivers as MPI prescribes (mc/conformance.py)']

PAYLOADS = ['f8', 'f4', 'i8', 'i4', 'u1', '?', 'c16', 'c8', 'i2', 'S3', 'U2', 'rec', 'recsub', '>f8', 'u8', 'f8x1',
            'f8x3', 'i4x2x2', 'f4x3', 'c8x2', 'f8x0', 'M8[s]']
DISTS = ['cyclic', 'block', 'rank0', 'rank1', 'skip']


def make(kind, ids):
    """column values as a function of the id"""
    ids = numpy.asarray(ids, 'i8')
    if kind == 'rec':
        a = numpy.zeros(len(ids), dtype=[('a', 'f8'), ('b', 'i2')])
        a['a'], a['b'] = ids * .5, ids % 100 - 7
        return a
    if kind == 'recsub':
        a = numpy.zeros(len(ids), dtype=[('p', 'f4', (3,)), ('q', 'u1'), ('s', 'S2')])
        a['p'] = ids[:, None] * 2 + numpy.arange(3)
        a['q'] = ids % 256
        a['s'] = [('%02d' % (i % 100)).encode() for i in ids]
        return a
    if kind in ('S3', 'U2'):
        return numpy.array(['%02d' % (i % 100) for i in ids], dtype=kind)
    if kind == 'M8[s]':
        return (ids * 1000 + 3).astype('M8[s]')
    if 'x' in kind:
        dt, *sh = kind.split('x')
        sh = tuple(int(s) for s in sh)
        n = int(numpy.prod(sh))
        return (ids[:, None] * 10 + numpy.arange(n) + 1).astype(dt).reshape((len(ids),) + sh)
    if kind == '?':
        return ids % 3 == 0
    if kind in ('u1', 'i2'):
        return (ids * 7 % 120).astype(kind)
    if kind in ('c16', 'c8'):
        return (ids + 1j * (ids + .5)).astype(kind)
    if kind in ('i8', 'u8'):
        return (ids * (1 << 33) + 1).astype(kind)
    return (ids * .25 + 1).astype(kind)


LAYOUTS = ['plain', 'fortran', 'strided', 'reversed', 'list', 'readonly']


def arrange(a, how):
    if how == 'fortran':
        return numpy.asfortranarray(a)
    if how == 'strided':
        return numpy.repeat(a, 2, axis=0)[::2]
    if how == 'reversed':
        return a[::-1].copy()[::-1]
    if how == 'list' and a.dtype.kind in 'fi' and a.ndim == 1:
        return a.tolist()
    if how == 'readonly':
        a = a.copy()
        a.flags.writeable = False
        return a
    return a


def cases(tier):
    out = []
    for nd, g in ((1, 0), (1, 1), (2, 0), (2, 1), (3, 0), (2, 2)):
        for size in ((1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6)):
            for dist in DISTS:
                out.append(dict(nd=nd, g=g, size=size, dist=dist, kind='types'))
                out.append(dict(nd=nd, g=g, size=size, dist=dist, kind='multi'))
    for size in (1, 2, 3):
        for dist in ('cyclic', 'rank1'):
            for n in (300, 66000):
                out.append(dict(nd=2, g=1, size=size, dist=dist, kind='many', n=n))
    for size in (2, 3, 4):
        out.append(dict(nd=2, g=1, size=size, dist='cyclic', kind='promote'))
    for size in (2, 3):
        out.append(dict(nd=2, g=1, size=size, dist='cyclic', kind='history', depth=3 if tier == 'quick' else 5))
    return out


def program(comm, edges, parts, pos, sms, jobs):
    D = env.mod('domain', comm.rank)
    g = D.GridND([list(e) for e in edges], comm=comm, periodic=True)
    ids = parts[comm.rank]
    layouts = [g.decompose(pos[ids], smoothing=s) for s in sms]
    out = []
    for lay, cols, pack, how in jobs:
        L = layouts[lay]
        args = [arrange(make(c[comm.rank] if isinstance(c, list) else c, ids), how) for c in cols]
        before = [numpy.array(a) for a in args]
        got_ids = L.exchange(ids)
        r = L.exchange(*args, pack=pack)
        if len(args) == 1:
            r = (r,)
        same = all(numpy.array_equal(x, numpy.asarray(y)) for x, y in zip(before, args))
        out.append((got_ids, list(r), same, L.get_exchange_cost(), int(L.sendlength), int(L.recvlength)))
    return out


def run(case, R):
    nd, size = case['nd'], case['size']
    edges = dom.GRIDS[nd][case['g']]
    pos = dom.lattice(edges, 1.0 if nd == 3 else .5, lo=0, hi=1.0)
    pos = pos[:60]
    if case['kind'] == 'many':
        # message and item sizes beyond one and two bytes
        pos = numpy.tile(pos, (case['n'] // len(pos) + 1, 1))[:case['n']]
    parts = [p.astype('i8') for p in lib.split(len(pos), size, case['dist'])]
    sms = [0, .5, 1.25]
    jobs = []
    if case['kind'] == 'types':
        for c in PAYLOADS:
            for k in range(3):
                jobs.append((k, [c], k != 1, LAYOUTS[0]))
                jobs.append((k, [c], k == 1, LAYOUTS[1 + (k + PAYLOADS.index(c)) % 5]))
    elif case['kind'] == 'multi':
        for a in PAYLOADS[::2]:
            for b in PAYLOADS[1::3]:
                jobs.append((1, [a, b], True, 'plain'))
        for h in LAYOUTS:
            jobs.append((2, ['f8', 'i4x2x2', 'rec'], True, h))
            jobs.append((2, ['f8x3', 'c16', 'u1'], False, h))
        jobs.append((1, ['f8'] * 7, True, 'plain'))
        # the names of the columns of the record that is sent do not sort by number
        jobs.append((1, (PAYLOADS * 5)[:len(PAYLOADS) + 1], True, 'plain'))
        jobs.append((2, (PAYLOADS * 5)[:103], True, 'plain'))
        jobs.append((1, ['f8x3', 'f8x3'], True, 'plain'))
    elif case['kind'] == 'many':
        for c in ('u1', 'f8', 'rec') + (('f8x40', 'f4x9000') if case['n'] < 1000 else ('i4x3',)):
            jobs += [(0, [c], True, 'plain'), (1, [c], False, 'plain'), (2, [c, 'i2'], True, 'plain')]
    elif case['kind'] == 'promote':
        for a in ('f8', 'f4', 'i4', 'c16'):
            for b in ('f8', 'f4', 'i4', 'c16'):
                if numpy.can_cast(b, a, 'same_kind'):
                    jobs.append((1, [[a] + [b] * (size - 1)], True, 'plain'))
                    jobs.append((1, [[a] + [b] * (size - 1)], False, 'plain'))
                    jobs.append((1, [[a] + [b] * (size - 1), 'f8x3'], True, 'plain'))
    else:
        import itertools
        base = [(0, ['f8'], True, 'plain'), (1, ['f8x3'], True, 'plain'), (2, ['i4x2x2', 'rec'], True, 'plain'),
                (1, ['u1'], False, 'strided')]
        for w in itertools.product(base, repeat=case['depth']):
            jobs.extend(w)
    key = 'c02/%s/grid%d.%d/size%d/%s' % (case['kind'], nd, case['g'], size, case['dist'])
    vals = lib.run_world(R, size, program, (edges, parts, pos, sms, jobs), key=key,
                         schedules='few' if case['kind'] not in ('history', 'many') and case['dist'] in ('cyclic', 'skip') and size != 4 else 'one', horizon=10**7)
    if vals is None:
        return
    # who touches which rank; the same grid as in C01
    ndom = int(numpy.prod([len(e) - 1 for e in edges]))
    assign = dom.default_assign(ndom, size)
    touched = [[dom.ranks_touched(assign, size, t) for t in dom.domains_touched(edges, True, s, pos)] for s in sms]
    for j, (lay, cols, pack, how) in enumerate(jobs):
        R.state(case['kind'], nd, case['g'], size, case['dist'], lay, repr(cols), pack, how, j if case['kind'] == 'history' else 0)
        allids = numpy.concatenate([vals[r][j][0] for r in range(size)])
        # no row is lost: smoothing 0 and periodic means every id arrives exactly once
        if lay == 0:
            R.check(sorted(allids.tolist()) == list(range(len(pos))), key + '/lost', 'rows lost or duplicated')
        else:
            R.check(set(allids.tolist()) == set(range(len(pos))), key + '/lost', 'rows lost')
        for r in range(size):
            ids, data, same, cost, slen, rlen = vals[r][j]
            must, may = touched[lay]
            cnt = numpy.bincount(ids, minlength=len(pos))
            bad = (must[:, r] & (cnt != 1)) | (~may[:, r] & (cnt != 0)) | (cnt > 1)
            if bad.any():
                i = int(numpy.flatnonzero(bad)[0])
                R.violation(key + '/destination', 'the row of the particle at %s arrives %d times on rank %d' % (pos[i].tolist(), cnt[i], r))
                return
            R.check(same, key + '/input', 'the exchange modified its input')
            R.check(rlen == len(ids) and slen == len(parts[r]), key + '/length', 'length reported by the layout is wrong')
            for c, d in zip(cols, data):
                c0 = c[0] if isinstance(c, list) else c
                ref = make(c0, ids)
                if isinstance(c, list) and how != 'list':
                    ref = make(c0, ids).astype(make(c0, ids).dtype)
                    # values that went through the type of their own rank
                    owner = numpy.empty(len(pos), int)
                    for q in range(size):
                        owner[parts[q]] = q
                    for q in range(size):
                        m = owner[ids] == q
                        ref[m] = make(c[q], ids[m]).astype(ref.dtype)
                ok = d.shape == ref.shape and d.dtype == ref.dtype and bool((d == ref).all())
                if how == 'list' and not ok:
                    ok = d.shape == ref.shape and bool((d == ref).all())
                R.check(ok, key + '/%s' % (c0,), 'column %s (pack=%s, %s) arrives changed on rank %d' % (c, pack, how, r),
                        got=d if d.dtype.kind != 'V' else d.tolist(), want=ref if ref.dtype.kind != 'V' else ref.tolist())
            want = [0] * size
            for q in range(size):
                gi = vals[q][j][0]
                for p in range(size):
                    if p != q:
                        want[p] += int(numpy.isin(gi, parts[p]).sum())
            R.check(list(cost) == want, key + '/cost', 'exchange cost %s, %s expected' % (list(cost), want))
        R.outcome(tuple(len(vals[r][j][0]) for r in range(size)), repr(cols))
