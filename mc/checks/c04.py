"""C04: the primary regions partition space, and agree with where an unsmoothed particle is sent."""
import numpy

from mc import dom, env, lib

ID = 'C04'
RULE = ('states are (edges, periodicity, ranks, assignment, balanced or not, transform, element type, position) with '
        'positions on a lattice through all edges over three periods plus the neighbouring floating point numbers of every '
        'edge, and positions many periods away, grids of four dimensions and of hundreds of domains; isprimary, load and decompose(smoothing=0) of the real code are compared with each other and the reference')
ASSUMPTIONS = ['the first edge is 0 and the last one the period, as documented']


UNIFORM = [[4.], [1., 1.], [1., 8.], [8., 1.], [2., 3., 5.], [1., 1., 1.], [16., 1., 1.], [1., 16., 2.], [3., 1., 40.], [1.] * 4, [1., 2., 4., 8.],
           [1., 8., 8.], [8., 1., 8.], [16., 16., 1.], [1., 100., 100.], [2., 2.], [1000.] * 3, [2. ** -10] * 3, [2. ** 40] * 2, [2. ** -40, 2. ** -39]]

# around the sizes of blocks that long arrays may be worked through in
LONG = [1024 * 48 + d for d in (-1, 0, 1)] + [3 * 1024 * 48 + 11] + [2 ** k + 1 for k in (12, 14, 15, 16, 17)] + [2 * 1024 * 48 + 1, 1001, 10001, 100001]


def cases(tier):
    out = []
    for nd in (1, 2, 3):
        for gi in range(len(dom.GRIDS[nd])):
            for size in ((1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6)):
                for periodic in (True, False):
                    for assign in ('default', 'reversed', 'cyclic', 'balanced'):
                        if size == 1 and assign in ('reversed', 'cyclic'):
                            continue
                        if nd == 3 and assign == 'cyclic' and tier == 'quick':
                            continue
                        out.append(dict(nd=nd, g=gi, size=size, periodic=periodic, assign=assign, kind='lattice',
                                        step=({1: .25, 2: .5, 3: .5}[nd]) if tier == 'quick' else {1: .0625, 2: .25, 3: .25}[nd]))
    for nd in (1, 2, 3):
        for size in (1, 2, 3):
            for periodic in (True, False):
                out.append(dict(nd=nd, g=1, size=size, periodic=periodic, assign='default', kind='ulp'))
                out.append(dict(nd=nd, g=1, size=size, periodic=periodic, assign='default', kind='variants'))
                out.append(dict(nd=nd, g=1, size=size, periodic=periodic, assign='default', kind='single'))
                for g in (1, 'decimal1') if nd == 1 else (1, 'decimal') if nd == 2 else (1,):
                    for edt in ('list', 'f4', 'f8'):
                        out.append(dict(nd=nd, g=g, size=size, periodic=periodic, assign='default', kind='f4', edt=edt))
    for name in dom.EXTRA:
        for size in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5, 6):
            for periodic in (True, False):
                for assign in ('default', 'cyclic', 'balanced'):
                    if size == 1 and assign == 'cyclic':
                        continue
                    out.append(dict(nd=len(dom.EXTRA[name][0]), g=name, size=size, periodic=periodic, assign=assign, kind='extra'))
    for box in UNIFORM:
        for size in (1, 2, 3, 4, 5, 6, 8, 9):
            for periodic in (True, False):
                out.append(dict(kind='uniform', box=box, size=size, periodic=periodic))
    for nd in (1, 2):
        for n in LONG[:4 if tier == 'quick' and nd == 2 else None]:
            for size in (1, 2):
                out.append(dict(nd=nd, g=1, size=size, periodic=True, assign='default', kind='long', n=n))
                out.append(dict(nd=nd, g=1, size=size, periodic=False, assign='default', kind='long', n=n))
    return out


def ulp_points(edges, f4=False):
    ax = []
    for e in edges:
        v = set()
        for x in set(list(e) + [-e[-1], 2 * e[-1]]):
            x = float(x)
            if f4:
                x = numpy.float32(x)
                v |= {float(y) for y in (x, numpy.nextafter(x, numpy.float32(1e9)), numpy.nextafter(x, numpy.float32(-1e9)), x + numpy.float32(1e-6), x - numpy.float32(1e-6))}
                v |= {float(numpy.float32(y)) for y in (-1e-9, -1e-8, -3e-8, -1e-7, 1e-9, -1e-20)}
                continue
            v |= {x, numpy.nextafter(x, 1e9), numpy.nextafter(x, -1e9), x + 1e-12, x - 1e-12, x + 1e-17, x - 1e-17}
        v |= {-1e-20, -5e-324, 5e-324, -0.0, 1e-20}
        v = sorted(v)
        ax.append(v)
    if len(ax) == 3:
        ax = [ax[0]] + [a[::5] + [-1e-20] for a in ax[1:]]
    if len(ax) == 2:
        ax = [ax[0], ax[1][::2] + [-1e-20]]
    return numpy.stack(numpy.meshgrid(*ax, indexing='ij'), -1).reshape(-1, len(edges))


def program(comm, edges, periodic, assign, pos, jobs, balance, edt='list'):
    D = env.mod('domain', comm.rank)
    kw = {} if assign is None else dict(DomainAssign=assign.copy())
    g = D.GridND([list(e) if edt == 'list' else numpy.array(e, edt) for e in edges], comm=comm, periodic=periodic, **kw)
    n = len(pos)
    mine = numpy.arange(n)[comm.rank::comm.size]
    if balance:
        g.loadbalance(g.load(pos[mine[:len(mine) // 2]]))
    out = []
    for mk, tr in jobs:
        p = mk(pos)
        prim = g.isprimary(p, transform=tr)
        part = mk(pos[mine])
        load = g.load(part, transform=tr, gamma=1)
        empty = g.load(part[:0] if comm.rank else part, transform=tr, gamma=1)
        lay = g.decompose(part, smoothing=0, transform=tr)
        out.append((numpy.array(prim), numpy.array(load), numpy.array(empty), lay.exchange(mine), numpy.array(g.DomainAssign)))
    return out


def single(comm, edges, periodic, pos):
    """every position alone, and none"""
    g = env.mod('domain', comm.rank).GridND([list(e) for e in edges], comm=comm, periodic=periodic)
    out = []
    for i in range(len(pos)):
        p = pos[i:i + 1]
        mine = p if comm.rank == i % comm.size else p[:0]
        out.append((g.isprimary(p).tolist(), g.isprimary(p.tolist()).tolist(), g.isprimary(p.astype('f4')).tolist(), g.isprimary(p[:0]).tolist(),
                    len(g.decompose(mine).exchange(mine)), g.load(mine, gamma=1).tolist()))
    return out, numpy.array(g.DomainAssign)


def uniform(comm, box, periodic, pos):
    g = env.mod('domain', comm.rank % 6).GridND.uniform(box, comm=comm, periodic=periodic)
    mine = numpy.arange(len(pos))[comm.rank::comm.size]
    lay = g.decompose(pos[mine], smoothing=0)
    return [numpy.array(e) for e in g.edges], numpy.array(g.isprimary(pos)), lay.exchange(mine), numpy.array(g.load(pos[mine], gamma=1)), numpy.array(g.DomainAssign)


def run(case, R):
    from .c01 import assignment
    if case['kind'] == 'uniform':
        box, size, periodic = case['box'], case['size'], case['periodic']
        nd = len(box)
        pos = dom.lattice([[0, b] for b in box], None, lo=0, hi=1, n={1: 60, 2: 24, 3: 11, 4: 7}[nd])
        if not periodic:
            pos = pos[(pos < numpy.array(box)).all(axis=1)]
        key = 'c04/uniform/%s/size%d/%s' % (box, size, 'per' if periodic else 'open')
        vals = lib.run_world(R, size, uniform, (box, periodic, pos), key=key)
        if vals is None:
            return
        edges, _, _, load, a = vals[0]
        R.check(all(e[0] == 0 and e[-1] == b and (numpy.diff(e) > 0).all() for e, b in zip(edges, box)), key + '/edges', 'edges %s' % (edges,))
        cells = [len(e) - 1 for e in edges]
        R.check(numpy.prod(cells) >= size / 2., key + '/used', '%s domains for %d ranks' % (cells, size))
        if len(set(box)) == 1 and round(size ** (1. / nd)) ** nd == size:
            R.check(len(set(cells)) == 1, key + '/cubes', '%s domains for %d ranks' % (cells, size))
        R.check(len(load) <= size and len(load) == len(a) and load.sum() == len(pos), key + '/domains', '%d domains, loads %s' % (len(load), load))
        prim = numpy.array([v[1] for v in vals])
        bad = numpy.flatnonzero(prim.sum(axis=0) != 1)
        if len(bad):
            R.violation(key + '/partition', 'position %s is primary on %d ranks' % (pos[bad[0]].tolist(), prim[:, bad[0]].sum()))
        for r, v in enumerate(vals):
            R.check(sorted(v[2]) == numpy.flatnonzero(prim[r]).tolist(), key + '/decompose', 'rank %d is sent other positions than are primary there' % r)
            R.check(all(numpy.array_equal(x, y) for x, y in zip(v[0], edges)) and numpy.array_equal(v[4], a), key + '/same', 'grids differ between ranks')
            R.check(load[a == r].sum() == prim[r].sum(), key + '/load', 'load of rank %d' % r)
        R.nstates(len(pos))
        R.outcome(key)
        return
    nd, size, periodic = case['nd'], case['size'], case['periodic']
    edges = dom.extra(case['g'])[0] if isinstance(case['g'], str) else dom.GRIDS[nd][case['g']]
    ndom = int(numpy.prod([len(e) - 1 for e in edges]))
    balance = case['assign'] == 'balanced'
    assign = None if case['assign'] in ('default', 'balanced') else assignment(case['assign'], ndom, size)
    if case['kind'] == 'single':
        pos = dom.lattice(edges, {1: .125, 2: .5, 3: 1.}[nd], lo=-.25, hi=1.25 if nd < 3 else 1)
        if not periodic:
            pos = pos[((pos >= 0) & (pos < [e[-1] for e in edges])).all(axis=1)]
        key = 'c04/single/%d/%s/size%d' % (nd, 'per' if periodic else 'open', size)
        vals = lib.run_world(R, size, single, (edges, periodic, pos), key=key)
        if vals is None:
            return
        for i in range(len(pos)):
            v = [vals[r][0][i] for r in range(size)]
            load = numpy.array(v[0][5])
            R.check(sum(x[0] == [True] for x in v) == 1 and all(x[0] == x[1] == x[2] and x[3] == [] for x in v), key,
                    'position %s alone: primary %s, as a list %s, as f4 %s' % (pos[i].tolist(), [x[0] for x in v], [x[1] for x in v], [x[2] for x in v]))
            R.check(all(x[4] == x[0][0] for x in v), key + '/decompose', 'position %s alone is sent to %s' % (pos[i].tolist(), [x[4] for x in v]))
            R.check(load.sum() == 1 and v[int(vals[0][1][load.argmax()])][0] == [True], key + '/load', 'position %s alone: load %s' % (pos[i].tolist(), load))
            R.nstates(1)
        R.outcome(key)
        return
    ident = lambda p: p
    jobs = [(ident, None)]
    refs = None
    kind = case['kind']
    if kind == 'lattice':
        pos = dom.lattice(edges, case['step'], lo=-1 if nd < 3 else -.5, hi=2 if nd < 3 else 1.5)
        if not periodic:
            # includes points outside
            pass
        refs = [pos]
    elif kind == 'extra':
        pos = dom.extra(case['g'])[1]
        refs = [pos]
    elif kind == 'ulp':
        pos = ulp_points(edges)
        refs = [pos]
    elif kind == 'f4':
        # positions in single precision, next to the edges; also edges in single precision
        edges = [[float(numpy.float32(x)) for x in e] if case['edt'] == 'f4' else e for e in edges]
        pos = ulp_points(edges, f4=True).astype('f4').astype('f8')
        jobs = [(lambda p: p.astype('f4'), None), (lambda p: p.astype('f4'), lambda x: x)]
        refs = [pos, pos]
    elif kind == 'variants':
        pos = dom.lattice(edges, .5, lo=-.5, hi=1.5)
        jobs = [(ident, lambda x: x * 2.0), (ident, lambda x: x + 1), (lambda p: p.astype('f4'), None),
                (lambda p: numpy.floor(p).astype('i4'), None),
                (lambda p: numpy.concatenate([p, p[:, :1] * 0 + 99], axis=1), None),
                (lambda p: numpy.asfortranarray(p), None), (lambda p: numpy.repeat(p, 2, axis=0)[::2], None)]
        refs = [pos * 2, pos + 1, pos, numpy.floor(pos), pos, pos, pos]
    else:
        base = dom.lattice(edges, .5, lo=-.5, hi=1.5)
        pos = base[(numpy.arange(case['n'] * size) * 7) % len(base)]
        refs = [pos]
    key = 'c04/%s%s/grid%d.%s/%s/size%d/%s' % (kind, case.get('edt', ''), nd, case['g'], 'per' if periodic else 'open', size, case['assign'])
    vals = lib.run_world(R, size, program, (edges, periodic, assign, pos, jobs, balance, case.get('edt', 'list')), key=key,
                         schedules='few' if kind == 'variants' else 'one')
    if vals is None:
        return
    L = numpy.array([float(e[-1]) for e in edges])
    for j, ref in enumerate(refs):
        n = len(ref)
        R.nstates(n)
        prim = numpy.array([vals[r][j][0] for r in range(size)])
        R.check(prim.dtype == bool and prim.shape == (size, n), key + '/shape', 'isprimary returns %s %s' % (prim.dtype, prim.shape))
        total = prim.sum(axis=0)
        inside = numpy.ones(n, '?') if periodic else ((ref >= 0) & (ref < L)).all(axis=1)
        bad = numpy.flatnonzero(total != inside)
        if len(bad):
            i = int(bad[0])
            R.violation(key + '/partition', 'position %r is primary on %d ranks' % (ref[i].tolist(), total[i]), n=len(bad))
        # agreement with where it is sent
        sent = numpy.zeros((size, n), int)
        for r in range(size):
            numpy.add.at(sent[r], vals[r][j][3], 1)
        bad = numpy.flatnonzero((sent != prim)[:, inside].any(axis=0))
        if len(bad):
            i = int(numpy.flatnonzero(inside)[bad[0]])
            R.violation(key + '/decompose', 'position %r is primary on %s but sent to %s' % (
                ref[i].tolist(), numpy.flatnonzero(prim[:, i]).tolist(), numpy.flatnonzero(sent[:, i]).tolist()), n=len(bad))
        # loads: the same on all ranks, counting every particle once
        a = vals[0][j][4]
        for r in range(size):
            R.check(numpy.array_equal(vals[r][j][1], vals[0][j][1]) and numpy.array_equal(vals[r][j][2], vals[0][j][2])
                    and numpy.array_equal(vals[r][j][4], a), key + '/same', 'the load differs between ranks')
        load = numpy.asarray(vals[0][j][1])
        R.check(load.shape == (ndom,) and load.sum() == n, key + '/load', 'loads %s of %d particles' % (load, n))
        if periodic or inside.all():
            per_rank = [int(load[a == r].sum()) for r in range(size)]
            R.check(per_rank == prim.sum(axis=1).tolist(), key + '/loadrank', 'load per rank %s, particles %s'
                    % (per_rank, prim.sum(axis=1).tolist()))
        # the load of each domain, by counting
        want = numpy.zeros(ndom, int)
        c = numpy.where(numpy.remainder(ref, L) >= L, 0, numpy.remainder(ref, L)) if periodic else ref
        idx = []
        for k, e in enumerate(edges):
            q = numpy.searchsorted(numpy.asarray(e, 'f8'), c[:, k], side='right') - 1
            idx.append(q.clip(0, len(e) - 2))
        dmn = numpy.ravel_multi_index(idx, [len(e) - 1 for e in edges])
        want = numpy.bincount(dmn, minlength=ndom)
        R.check(numpy.array_equal(load, want), key + '/loaddom', 'load %s, %s expected' % (load, want))
        want0 = numpy.bincount(dmn[0::size], minlength=ndom)
        R.check(numpy.array_equal(vals[0][j][2], want0), key + '/loadempty', 'load with empty ranks %s, %s expected' % (vals[0][j][2], want0))
        # who is primary where, by the assignment
        want = a[dmn]
        m = inside & (prim[want, numpy.arange(n)] == 0)
        if m.any():
            i = int(numpy.flatnonzero(m)[0])
            R.violation(key + '/owner', 'position %r is in a domain of rank %d, which does not call it primary' % (ref[i].tolist(), want[i]))
        R.outcome(nd, case['g'], tuple(load.tolist()))
