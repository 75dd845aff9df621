"""C01: every particle reaches each rank whose domain it touches, exactly once."""
import itertools

import numpy

from mc import dom, env, lib

ID = 'C01'
RULE = ('states are (edges, periodicity, number of ranks, assignment, smoothing, transform, position) with positions on a '
        'lattice through all edges over three periods, plus every ordered pair of positions as neighbours in one call (de '
        'Bruijn sequences); grids of four dimensions, of hundreds of domains, of edges that are not dyadic, positions many periods away; each is decomposed and exchanged by the real code on simulated ranks')
ASSUMPTIONS = ['coordinates and smoothings are dyadic rationals, on which the reference is exact',
               'the simulated Alltoallv delivers as MPI prescribes (mc/conformance.py)']

SM = {1: [0, .25, .5, 1, 1.5, 2, 3, 5], 2: [0, .5, 1, 1.75, 3], 3: [0, .5, 1.25]}


def cases(tier):
    out = []
    for nd in (1, 2, 3):
        for gi, g in enumerate(dom.GRIDS[nd]):
            ndom = int(numpy.prod([len(e) - 1 for e in g]))
            sizes = [1, 2, 3, 4] if tier == 'quick' else [1, 2, 3, 4, 5, 6]
            for size in sizes:
                for periodic in (True, False):
                    for assign in ('default', 'reversed', 'cyclic'):
                        if size == 1 and assign != 'default':
                            continue
                        if nd == 3 and tier == 'quick' and (assign == 'cyclic' or size == 3):
                            continue
                        out.append(dict(nd=nd, g=gi, size=size, periodic=periodic, assign=assign, kind='lattice',
                                        step=({1: .25, 2: .5, 3: .5}[nd]) if tier == 'quick' else {1: .125, 2: .25, 3: .5}[nd]))
    for nd in (1, 2, 3):
        for gi, g in enumerate(dom.GRIDS[nd][:3]):
            for size in (2, 3):
                for periodic in (True, False):
                    out.append(dict(nd=nd, g=gi, size=size, periodic=periodic, assign='default', kind='pairs'))
    for nd in (1, 2):
        for size in (1, 2, 3):
            for periodic in (True, False):
                out.append(dict(nd=nd, g=1, size=size, periodic=periodic, assign='default', kind='variants'))
    for name in dom.EXTRA:
        for size in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5, 6):
            for periodic in (True, False):
                for assign in ('default', 'cyclic'):
                    if size == 1 and assign == 'cyclic':
                        continue
                    out.append(dict(nd=len(dom.EXTRA[name][0]), g=name, size=size, periodic=periodic, assign=assign, kind='extra'))
    for nd in (1, 3):
        for n in ([48 * 1024 - 1, 48 * 1024, 48 * 1024 + 1] + ([] if tier == 'quick' else [2 * 48 * 1024 + 7] + [2 ** k + 1 for k in (12, 14, 15, 16, 17)] + [1001, 10001, 100001])):
            out.append(dict(nd=nd, g=0, size=2, periodic=True, assign='default', kind='long', n=n))
            out.append(dict(nd=nd, g=0, size=1, periodic=True, assign='default', kind='long', n=n))
            out.append(dict(nd=nd, g=1, size=2, periodic=False, assign='default', kind='long', n=n))
    return out


def assignment(name, ndom, size):
    a = dom.default_assign(ndom, size)
    if name == 'reversed':
        a = a[::-1]
    elif name == 'cyclic':
        a = numpy.arange(ndom)[::-1] % size
    return numpy.array(a, dtype='int32')


def judge(R, key, got, parts, must, may, owner, what):
    """got[r]: ids received by rank r; parts: ids held by each rank"""
    size = len(got)
    n = len(must)
    held = numpy.zeros(n, '?')
    for p in parts:
        held[p] = True
    for r in range(size):
        ids = numpy.asarray(got[r])
        cnt = numpy.bincount(ids, minlength=n) if len(ids) else numpy.zeros(n, int)
        missing = must[:, r] & held & (cnt == 0)
        extra = (cnt > 0) & ~(may[:, r] & held)
        twice = cnt > 1
        for name, m in (('missing', missing), ('extra', extra), ('twice', twice)):
            if m.any():
                i = int(numpy.flatnonzero(m)[0])
                R.violation('%s/%s' % (key, name), '%s: particle %d is %s on rank %d (%d such)'
                            % (what, i, {'missing': 'not delivered', 'extra': 'delivered without touching',
                                         'twice': 'delivered %d times' % cnt[i]}[name], r, int(m.sum())), **owner(i))


def program(comm, edges, periodic, assign, jobs):
    D = env.mod('domain', comm.rank)
    kw = {} if assign is None else dict(DomainAssign=assign.copy())
    g = D.GridND([list(e) for e in edges], comm=comm, periodic=periodic, **kw)
    out = []
    for pos, ids, sm, tr in jobs[comm.rank]:
        layout = g.decompose(pos, smoothing=sm, transform=tr)
        out.append(layout.exchange(ids))
    return out


def run(case, R):
    nd, size, periodic = case['nd'], case['size'], case['periodic']
    edges = dom.extra(case['g'])[0] if case['kind'] == 'extra' else dom.GRIDS[nd][case['g']]
    ndom = int(numpy.prod([len(e) - 1 for e in edges]))
    assign = assignment(case['assign'], ndom, size)
    passed = None if case['assign'] == 'default' else assign

    jobs, refs = [[] for _ in range(size)], []

    def add(pos, sm, how='cyclic', tr=None, mk=None, tpos=None):
        n = len(pos)
        parts = lib.split(n, size, how)
        for r in range(size):
            p = pos[parts[r]]
            jobs[r].append((mk(p) if mk else p, parts[r].astype('i8'), sm, tr))
        ref = pos if tpos is None else tpos
        must, may = dom.domains_touched(edges, periodic, sm, ref)
        refs.append((ref, sm, parts, dom.ranks_touched(assign, size, must), dom.ranks_touched(assign, size, may), how))

    if case['kind'] == 'lattice':
        hi, lo = {1: (2.0, -1.0), 2: (1.5, -.5), 3: (1.0, 0.0)}[nd]
        pos = dom.lattice(edges, case['step'], lo=lo, hi=hi)
        sms = list(SM[nd])
        if nd > 1:
            sms += [[0.5] + [0] * (nd - 1), [0] * (nd - 1) + [1.0]]
        for sm in sms:
            add(pos, sm)
        add(pos, sms[1], how='rank0')
        add(pos, sms[1], how='rank%d' % (size - 1))
        add(pos, sms[2], how='skip')
        add(pos[:0], sms[1])
        add(pos[:1], 0)
    elif case['kind'] == 'pairs':
        pos = dom.lattice(edges, .5 if nd == 1 else 1.0, lo=0 if nd > 1 else -.25, hi=1.0)
        pos = pos[:{1: 16, 2: 20, 3: 27}[nd]]
        seq = lib.debruijn(len(pos))
        for sm in SM[nd][:4]:
            add(pos[seq], sm, how='rank1')
    elif case['kind'] == 'extra':
        pos = dom.extra(case['g'])[1]
        for sm in {'many1': [0, .5, 3, 140, 290], 'many2': [0, .75, [8, 1]], 'many3': [0, 1, 3.25], '4d': [0, .5, 1.25], '4d3': [0, .5]}.get(
                case['g'], [0, .25, .6, 1.1] if 'decimal' in case['g'] else [0, .25, 1]):
            add(pos, sm * dom.SCALES[case['g']] if case['g'] in dom.SCALES else sm)
        if case['g'] == 'narrow1':
            for sm in (2. ** -32, 2. ** -30, 2. ** -21):
                add(pos, sm)
    elif case['kind'] == 'variants':
        pos = dom.lattice(edges, .5, lo=-.5, hi=1.5)
        add(pos, .5, tr=lambda x: x * 2.0, tpos=pos * 2)
        add(pos, .5, tr=lambda x: x + 1.0, tpos=pos + 1)
        add(pos, .25, mk=lambda p: p.astype('f4'))
        add(pos, .5, mk=lambda p: p.tolist() if len(p) else p)
        add(numpy.floor(pos), .5, mk=lambda p: p.astype('i4'))
        add(pos, .5, mk=lambda p: numpy.concatenate([p, p[:, :1] + 7], axis=1))
        add(pos, .5, mk=lambda p: numpy.asfortranarray(p))
        add(pos, .5, mk=lambda p: numpy.repeat(p, 2, axis=0)[::2])
        add(pos, .5, mk=lambda p: p[::-1][::-1])
        add(pos, numpy.full(nd, .5))
        add(pos, tuple([.75] * nd))
        from .c04 import ulp_points
        near = ulp_points(edges, f4=True).astype('f4').astype('f8')
        near = near[(abs(near) > 1e-12).all(axis=1) | (near == 0).any(axis=1) & (abs(near[:, -1]) > 1e-12)]
        for sm in (0, .5, 1):
            add(near, sm, mk=lambda p: p.astype('f4'))
    else:
        base = dom.lattice(edges, .5, lo=0, hi=1.0)
        base = base[base.shape[0] // 7:]
        n = case['n']
        pos = base[numpy.arange(n) % len(base)]
        add(pos, .5, how='rank0')
        add(pos[::-1].copy(), .5, how='rank%d' % (size - 1), tr=lambda x: x * 1.0)
    key = 'grid%d.%s/%s/size%d/%s/%s' % (nd, case['g'], 'per' if periodic else 'open', size, case['assign'], case['kind'])
    sched = 'few' if case['kind'] in ('variants', 'pairs') else 'one'
    vals = lib.run_world(R, size, program, (edges, periodic, passed, jobs), schedules=sched, key=key)
    if vals is None:
        return
    for j, (pos, sm, parts, must, may, how) in enumerate(refs):
        got = [vals[r][j] for r in range(size)]
        R.nstates(len(pos))
        R.outcome(nd, must.sum(axis=1).max() if len(must) else 0, sm, how)
        judge(R, key + '/sm%s' % (sm,), got, parts, must, may,
              lambda i: dict(pos=pos[i], smoothing=sm, must=must[i], ranks=[bool(numpy.any(g == i)) for g in got]),
              'edges %s periodic %s smoothing %s' % (edges, periodic, sm))
    R.sample(dict(edges=edges, ranks=size, received=[len(v[0]) for v in vals]))
