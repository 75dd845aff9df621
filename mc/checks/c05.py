"""C05: balancing the load."""
import itertools

import numpy

from mc import dom, env, lib

ID = 'C05'
RULE = ('states are (number of domains, ranks, load vector): every vector over the given alphabet; the assignment made by '
        'the real code is compared with the optimum by exhaustion, then used to decompose')
ASSUMPTIONS = ['loads are the small integers of the alphabet']


def cases(tier):
    out = []
    alpha = [0, 1, 2, 5]
    for size, ndoms in ((1, (2, 3)), (2, (1, 2, 3, 4, 5)), (3, (2, 3, 4, 5)), (4, (5,))):
        for nd in ndoms + (() if tier == 'quick' else (6,)):
            if nd > 4:
                for first in alpha:
                    out.append(dict(size=size, ndom=nd, first=first))
            else:
                out.append(dict(size=size, ndom=nd, first=None))
    for size in (2, 3):
        out.append(dict(size=size, ndom=6, kind='history'))
        out.append(dict(size=size, ndom=4, kind='gamma'))
    for size in (1, 2, 3):
        for nd in (1, 2, 3):
            for gi in range(len(dom.GRIDS[nd])):
                for periodic in (True, False):
                    out.append(dict(size=size, ndom=0, kind='load', nd=nd, g=gi, periodic=periodic))
    for name in dom.EXTRA:
        for size in (1, 2, 3):
            for periodic in (True, False):
                out.append(dict(size=size, ndom=0, kind='load', nd=0, g=name, periodic=periodic))
    for n in (48 * 1024 - 1, 48 * 1024, 48 * 1024 + 1) + (() if tier == 'quick' else (3 * 48 * 1024 + 5, 1001, 10001, 100001, 4097, 16385, 32769, 65537, 131073)):
        for nd in (1, 2):
            out.append(dict(size=2, ndom=0, kind='load', nd=nd, g=1, periodic=True, n=n))
            out.append(dict(size=1, ndom=0, kind='load', nd=nd, g=1, periodic=False, n=n))
    return out


ALPHA = [0, 1, 2, 5]


def optimum(loads, m):
    best = None
    loads = sorted(loads, reverse=True)

    def rec(i, bins):
        nonlocal best
        if best is not None and max(bins) >= best:
            return
        if i == len(loads):
            best = max(bins)
            return
        seen = set()
        for k in range(m):
            if bins[k] in seen:
                continue
            seen.add(bins[k])
            bins[k] += loads[i]
            rec(i + 1, bins)
            bins[k] -= loads[i]
    rec(0, [0] * m)
    return best


def program(comm, ndom, vectors):
    D = env.mod('domain', comm.rank)
    out = []
    pos = (numpy.arange(ndom) + .5).reshape(-1, 1)
    for k, v in enumerate(vectors):
        # the assignment before: the default one, or one that is given, in any form; also to another grid, which does not change
        given = None
        if k % 4:
            given = [[comm.size - 1] * ndom, [(5 * d + k) % comm.size for d in range(ndom)], list(range(comm.size))[::-1] * ndom][k % 4 - 1][:ndom]
            given = [list, tuple, lambda a: numpy.array(a, 'int32'), lambda a: numpy.array(a, 'int64')][k // 4 % 4](given)
        keep = None if given is None else list(given)
        g = D.GridND([numpy.arange(ndom + 1.0)], comm=comm, DomainAssign=given)
        other = D.GridND([numpy.arange(ndom + 1.0)], comm=comm, DomainAssign=given)
        before = numpy.array(g.DomainAssign)
        if keep is not None and before.tolist() != keep:
            before = before * 0 - 1
        lay0 = g.decompose(pos if comm.rank == 0 else pos[:0])
        g.loadbalance([lambda a: numpy.array(a, 'f8'), list, lambda a: numpy.array(a, 'i8'), lambda a: numpy.array(a, 'f4')][k // 2 % 4](v))
        after = numpy.array(g.DomainAssign)
        if keep is not None and list(given) != keep:
            before = before * 0 - 2
        # a grid made alike is not balanced
        lay1 = other.decompose(pos if comm.rank == 0 else pos[:0])
        if not numpy.array_equal(numpy.sort(lay1.exchange(numpy.arange(len(pos) if comm.rank == 0 else 0))), numpy.flatnonzero(other.DomainAssign == comm.rank)) \
                or not numpy.array_equal(numpy.flatnonzero(other.isprimary(pos)), numpy.flatnonzero(other.DomainAssign == comm.rank)) \
                or (keep is not None and list(other.DomainAssign) != keep):
            before = before * 0 - 3
        lay = g.decompose(pos if comm.rank == 0 else pos[:0])
        ids = numpy.arange(len(pos) if comm.rank == 0 else 0)
        out.append((before, after, lay.exchange(ids), lay0.exchange(ids), g.isprimary(pos)))
    return out


def program_hist(comm, ndom, pops):
    """balance, exchange, balance again with other particles, ..."""
    D = env.mod('domain', comm.rank)
    g = D.GridND([numpy.arange(ndom + 1.0)], comm=comm)
    out = []
    for pop in pops:
        x = numpy.repeat(numpy.arange(ndom) + .5, pop).reshape(-1, 1)
        mine = x[comm.rank::comm.size]
        g.loadbalance(g.load(mine, gamma=1))
        lay = g.decompose(mine)
        got = lay.exchange(mine)
        back = lay.gather(got, mode='any')
        out.append((len(got), numpy.array(g.DomainAssign), bool(g.isprimary(got).all()), bool((back == mine).all())))
    return out


def program_gamma(comm, ndom):
    D = env.mod('domain', comm.rank)
    g = D.GridND([numpy.arange(ndom + 1.0)], comm=comm)
    n = [3, 0, 1, 4]
    x = numpy.repeat(numpy.arange(ndom) + .5, n).reshape(-1, 1)
    mine = x[comm.rank::comm.size]
    return [numpy.array(g.load(mine, gamma=q)).tolist() for q in (1, 2, 3, .5)] + [numpy.array(g.load(mine)).tolist()]


def program_load(comm, edges, periodic, pos, hows):
    D = env.mod('domain', comm.rank)
    g = D.GridND([list(e) for e in edges], comm=comm, periodic=periodic)
    out = []
    for how in hows:
        mine = pos[lib.split(len(pos), comm.size, how)[comm.rank]]
        one = []
        for mk, tr in ((lambda p: p, None), (lambda p: p * 2, lambda x: x * .5), (lambda p: p.astype('f4'), None),
                       (lambda p: numpy.concatenate([p, p[:, :1] + 5], 1), None), (lambda p: numpy.asfortranarray(p), None)):
            one.append([numpy.array(g.load(mk(mine), transform=tr, gamma=1)), numpy.array(g.load(mk(mine), transform=tr))])
        # the load is that of the domains whoever they are assigned to
        before = numpy.array(g.DomainAssign)
        g.loadbalance(one[0][1])
        one.append([numpy.array(g.load(mine, gamma=1)), numpy.array(g.load(mine, gamma=2))])
        g = D.GridND([list(e) for e in edges], comm=comm, periodic=periodic)
        out.append(one)
    return out, [numpy.array(g.load(pos[:0], gamma=e)) for e in (1, 2)]


def run_load(case, R):
    edges = dom.GRIDS[case['nd']][case['g']] if case['nd'] else dom.extra(case['g'])[0]
    size, periodic = case['size'], case['periodic']
    key = 'c05/load/%d.%s/%s/size%d' % (case['nd'], case['g'], 'per' if periodic else 'open', size)
    L = numpy.array([float(e[-1]) for e in edges])
    pos = dom.lattice(edges, .5, lo=-.5, hi=1.5) if case['nd'] else dom.extra(case['g'])[1]
    if case['nd'] and 'n' not in case:
        # next to the edges, in single precision
        from .c04 import ulp_points
        near = ulp_points(edges, f4=True).astype('f4').astype('f8')
        pos = numpy.concatenate([pos, near[::max(1, len(near) // 3000)]])
    # uneven: every position as often as its number tells
    pos = pos[numpy.repeat(numpy.arange(len(pos)), numpy.arange(len(pos)) % 3 + 1)]
    if 'n' in case:
        pos = pos[numpy.arange(case['n'] * size) * 7 % len(pos)]
    if not periodic and any(e[-1] == e[-2] or e[0] == e[1] for e in edges):
        pos = pos[((pos >= 0) & (pos < L)).all(axis=1)]
    if not case['nd']:
        # positions that are the same in single precision
        pos = pos[(pos == pos.astype('f4')).all(axis=1)] if 'decimal' not in case['g'] else pos
    c = numpy.remainder(pos, L) if periodic else pos
    if periodic:
        c = numpy.where(c >= L, 0, c)
    # outside of a grid that is not periodic: the nearest domain
    idx = [(numpy.searchsorted(numpy.asarray(e, 'f8'), c[:, k], side='right') - 1).clip(0, len(e) - 2) for k, e in enumerate(edges)]
    shape = [len(e) - 1 for e in edges]
    want = numpy.bincount(numpy.ravel_multi_index(idx, shape), minlength=int(numpy.prod(shape)))
    hows = ['cyclic', 'rank0', 'rank%d' % (size - 1), 'block', 'skip'] if 'n' not in case and case['nd'] else ['cyclic', 'rank0']
    vals = lib.run_world(R, size, program_load, (edges, periodic, pos, hows), key=key)
    for r, v in enumerate(vals or []):
        R.check(all(numpy.array_equal(x, 0 * want) for x in v[1]), key + '/empty', 'load of no particles: %s' % (v[1],))
        for how, one in zip(hows, v[0]):
            for i, (a, b) in enumerate(one):
                R.check(numpy.array_equal(a, want), key + '/count', '%s form %d on rank %d: load %s, %s expected' % (how, i, r, a.tolist(), want.tolist()))
                R.check(numpy.array_equal(b, want ** 2), key + '/square', '%s form %d on rank %d' % (how, i, r))
                R.nstates(len(pos))


def run(case, R):
    if case.get('kind') == 'load':
        return run_load(case, R)
    size, ndom = case['size'], case['ndom']
    key = 'c05/size%d/ndom%d' % (size, ndom)
    if case.get('kind') == 'gamma':
        vals = lib.run_world(R, size, program_gamma, (ndom,), key=key, schedules='few')
        n = numpy.array([3., 0, 1, 4])
        want = [n, n ** 2, n ** 3, n ** .5, n ** 2]
        for v in vals or []:
            for a, b in zip(v, want):
                R.state('gamma', tuple(b))
                R.check(numpy.allclose(a, b, rtol=1e-14), key + '/gamma', 'load %s, %s expected' % (a, b))
        return
    if case.get('kind') == 'history':
        base = [(8, 0, 0, 0, 0, 0), (1, 1, 1, 1, 1, 1), (0, 0, 0, 3, 2, 1), (5, 1, 1, 1, 1, 1)]
        for pops in itertools.product(base, repeat=3):
            vals = lib.run_world(R, size, program_hist, (ndom, pops), key=key + '/history')
            if vals is None:
                return
            R.state('hist', size, pops)
            for t in range(3):
                loads = [vals[r][t][0] for r in range(size)]
                opt = optimum(pops[t], size)
                R.check(sum(loads) == sum(pops[t]), key + '/lost', 'particles lost')
                R.check(max(loads) <= (4 / 3. - 1 / (3. * size)) * opt + 1e-9, key + '/bound', 'loads %s, the optimum is %s' % (loads, opt), pops=pops)
                R.check(all(vals[r][t][2] for r in range(size)), key + '/primary', 'particles sent to a rank that does not call them primary')
                R.check(all(vals[r][t][3] for r in range(size)), key + '/back', 'gather does not undo the exchange')
        return
    vectors = [v for v in itertools.product(ALPHA, repeat=ndom) if case['first'] is None or v[0] == case['first']]
    vals = lib.run_world(R, size, program, (ndom, vectors), key=key, horizon=10**7)
    if vals is None:
        return
    for i, v in enumerate(vectors):
        R.state(size, ndom, v)
        a = vals[0][i][1]
        b = vals[0][i][0]
        for r in range(size):
            R.check(numpy.array_equal(vals[r][i][1], a), key + '/same', 'ranks disagree on the assignment')
            ids = vals[r][i][2]
            R.check(sorted(ids.tolist()) == numpy.flatnonzero(a == r).tolist(), key + '/decompose',
                    'decompose does not follow the assignment %s: rank %d got %s' % (a, r, ids))
            R.check(numpy.flatnonzero(vals[r][i][4]).tolist() == numpy.flatnonzero(a == r).tolist(), key + '/primary',
                    'isprimary does not follow the assignment %s' % a)
            R.check(sorted(vals[r][i][3].tolist()) == numpy.flatnonzero(b == r).tolist(), key + '/oldlayout',
                    'a layout made before balancing changed')
        R.check(len(b) == ndom and b.min() >= 0, key + '/given', 'the grid does not have the assignment it was given, or balancing changed what was given or another '
                'grid made from it (%s)' % b)
        R.check(len(a) == ndom and a.min() >= 0 and a.max() < size, key + '/range', 'assignment %s' % a)
        loads = [sum(v[d] for d in range(ndom) if a[d] == r) for r in range(size)]
        opt = optimum(v, size)
        was = max(sum(v[d] for d in range(ndom) if b[d] == r) for r in range(size))
        R.check(max(loads) <= (4 / 3. - 1 / (3. * size)) * opt + 1e-9 or ndom <= size and i % 4 and max(loads) <= was, key + '/bound', 'loads %s: rank loads %s, the optimum is %s' % (v, loads, opt))
        R.outcome(tuple(sorted(loads)))
