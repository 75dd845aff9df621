"""C33: co-arrays deliver pushes and pulls at synchronisation."""
import contextlib
import io
import itertools

import numpy

from mc import env, lib, explore, vmpi

ID = 'C33'
RULE = ('states are programs (operations of each image between synchronisations: pull or push, partner, form of the index and of the value; '
        'images that are synchronised); each is run under every priority of the images and switching at each call, with eager and '
        'rendezvous messages copied early or late, and the small ones under all schedules of up to 2 preemptions')
ASSUMPTIONS = ['one co-array with the same shape on all images; no element is the destination of two operations, or the source of one and the '
               'destination of another, between the same two synchronisations; values are not changed between a push and its synchronisation']

NSRC, NDST = 2, 10
IDX = {   # index into block b: chain of indices as given to the proxy
    'block': lambda b: [b],
    'neg': lambda b: [b - NSRC - NDST],
    'elem': lambda b: [(b, 1, 2)],
    'row': lambda b: [(b, 1)],
    'column': lambda b: [(b, slice(None), 1)],
    'step': lambda b: [(slice(b, b + 1), slice(None), slice(None, None, 2))],
    'rev': lambda b: [(b, slice(None, None, -1))],
    'fancy': lambda b: [([b, b], [0, 1], [2, 0])],
    'nested': lambda b: [b, 1],
    'nested2': lambda b: [slice(b, None), 0, (slice(None), slice(1, 3))],
    'last': lambda b: [b, Ellipsis],
}
MODES = [dict(root='sync', send='eager', copy='early'), dict(root='early', send='rendezvous', copy='late'),
         dict(root='sync', send='rendezvous', copy='early'), dict(root='early', send='eager', copy='late')]


def cases(tier):
    out = []
    # forms
    for size in (1, 2, 3):
        for dt, order in (('f8', 'C'), ('i4', 'C'), ('c16', 'F'), ('f8', 'F'), ('f4', 'view'), ('f8', 'new'), ('c8', 'newF')):
            out.append(dict(kind='forms', size=size, dt=dt, order=order))
    # mixing of two operations per image
    al = [(k, p, i) for k in ('pull', 'push') for p in (0, 1) for i in ('block', 'elem')]
    seqs = [()] + [(a,) for a in al] + list(itertools.product(al, repeat=2))
    if tier != 'quick':
        seqs += list(itertools.product([a for a in al if a[2] == 'block'], repeat=3))
    for s0 in seqs:
        out.append(dict(kind='mix', size=2, first=[s0], rest=[seqs], tier=tier))
    # three images
    al3 = [()] + [((k, p, 'block'),) for k in ('pull', 'push') for p in (0, 1, 2)]
    al3b = al3 + [((k, p, 'row'), (k2, p, 'elem')) for k in ('pull', 'push') for k2 in ('pull', 'push') for p in (1, 2)]
    for s0 in al3b:
        out.append(dict(kind='mix', size=3, first=[s0], rest=[al3, al3] if tier == 'quick' else [al3b, al3b], tier=tier))
    # partial synchronisation
    for size in (2, 3):
        subs = [list(s) for n in range(size + 1) for s in itertools.combinations(range(size), n)]
        for o in itertools.product(al if size == 2 else [x[0] for x in al3[1:]], repeat=2):
            out.append(dict(kind='part', size=size, ops=[[o[0]], [o[1]]] + [[]] * (size - 2), subs=subs if size == 2 or tier != 'quick' else [s for s in subs if len(s) in (0, 1)]))
    # schedules
    progs = [[[('pull', 1, 'block')], [('push', 0, 'block')]], [[('pull', 1, 'block'), ('push', 1, 'elem')], [('pull', 0, 'elem'), ('push', 0, 'block')]],
             [[('push', 1, 'block'), ('push', 1, 'elem')], []], [[('pull', 0, 'block')], [('push', 1, 'block')]],
             [[('pull', 1, 'block')], [('push', 2, 'block')], [('pull', 0, 'elem')]]]
    for p in progs:
        for m in (MODES if tier != 'quick' else MODES[:2]):
            out.append(dict(kind='dfs', size=len(p), ops=p, mode=m, bound=2 if tier == 'quick' and len(p) == 2 else 1 if tier == 'quick' else 3 if len(p) == 2 else 2))
    return out


def initial(size, rank, dt):
    a = numpy.arange((NSRC + NDST) * 6).reshape(NSRC + NDST, 2, 3) * 1.0 + 100 * (rank + 1)
    if numpy.dtype(dt).kind == 'c':
        a = a * (1 + .5j)
    a[NSRC:] = -1 - rank
    return a.astype(dt)


def chain(a, idx):
    for i in idx:
        a = a[i]
    return a


def put(a, idx, v):
    for i in idx[:-1]:
        a = a[i]
    a[idx[-1]] = v


def dst(rank, n):
    return NSRC + rank * 3 + n if n < 3 else NSRC + NDST - 1


def value(src, form):
    """the value of a push"""
    if form == 'same':
        return src
    if form == 'copy':
        return numpy.array(src)
    if form == 'fort':
        return numpy.asfortranarray(numpy.array(src))
    if form == 'strided':
        v = numpy.repeat(numpy.array(src)[..., None], 2, axis=-1)
        return v[..., 0]
    if form == 'scalar':
        return 7
    if form == 'list':
        return numpy.array(src).tolist()
    if form == 'f4':
        return numpy.array(src).astype('c8' if numpy.asarray(src).dtype.kind == 'c' else 'f4')
    if form == 'row':
        return numpy.array(src).reshape(-1)[:1]
    raise ValueError(form)


def bump(phases):
    """change the sources between phases, unless a push can still wait for its synchronisation"""
    return all(len(i) == len(imgs) for _, imgs in phases for i in imgs) or not any(o[0] == 'push' for ops, _ in phases for l in ops for o in l)


def model(size, dt, phases):
    """arrays after the program: phases are [(ops per image, images per image)]"""
    A = [initial(size, r, dt) for r in range(size)]
    pending = [[] for _ in range(size)]
    count = [0] * size
    for ops, imgs in phases:
        for r in range(size):
            for op in ops[r]:
                pending[r].append((count[r],) + tuple(op))
                count[r] += 1
        B = [a.copy() for a in A]
        for r in range(size):
            rest = []
            for n, k, p, i, *form in pending[r]:
                if p not in imgs[r]:
                    rest.append((n, k, p, i) + tuple(form))
                    continue
                s, d = IDX[i](n % NSRC), IDX[i](dst(r, n))
                if k == 'pull':
                    put(B[r], d, chain(A[p], s))
                else:
                    put(B[p], d, value(chain(A[r], s), form[0] if form else 'same'))
            pending[r] = rest
        A = B
        if bump(phases):
            for a in A:
                a[:NSRC] += 1000
    return A


def program(comm, dt, order, phases):
    C = env.mod('coarray', comm.rank)
    a = initial(comm.size, comm.rank, dt)
    if order == 'F':
        coa = C.coarray.fromarray(comm, numpy.asfortranarray(a))
    elif order == 'view':
        big = numpy.zeros((a.shape[0], a.shape[1] * 2, a.shape[2] + 1), dt)
        v = big[:, ::2, 1:]
        v[...] = a
        coa = C.coarray.fromarray(comm, v)
    elif order == 'new':
        coa = C.coarray(comm, a.shape, dt)
        coa[...] = a
    elif order == 'newF':
        coa = C.coarray(comm, a.shape, dtype=dt, order='F')
        coa[...] = a
    else:
        used = [numpy.full(a.shape, 7, dt) for _ in range(20)]     # memory with something in it
        del used
        coa = C.coarray.zeros(comm, a.shape, dt) if dt != 'f8' else C.coarray.zeros(comm, a.shape)
        assert not coa.any(), 'zeros are not zero'
        assert coa.dtype == numpy.dtype(dt) and coa.shape == a.shape
        coa[...] = a
    assert coa.thisimage == comm.rank and coa.num_images == comm.size
    n = 0
    for ops, imgs in phases:
        for k, p, i, *form in ops[comm.rank]:
            s, d = IDX[i](n % NSRC), IDX[i](dst(comm.rank, n))
            if k == 'pull':
                t = coa
                for j in d[:-1]:
                    t = t[j]
                t[d[-1]] = chain(coa(p), s)
            else:
                put(coa(p), d, value(chain(coa, s), form[0] if form else 'same'))
            n += 1
        im = imgs[comm.rank]
        if list(im) == list(range(comm.size)):
            coa.sync()
        else:
            coa.sync(list(im))
        if bump(phases):
            coa[:NSRC] += 1000
    return numpy.array(coa)


def decide(R, key, size, dt, phases, worlds):
    want = model(size, dt, phases)
    for name, w in worlds:
        R.trace()
        R.step(len(w.log))
        R.count('schedules')
        if w.failure is not None:
            if isinstance(w.failure, vmpi.Unsupported):
                raise w.failure
            R.violation(key + '/' + type(w.failure).__name__, 'under %s: %s' % (name, w.failure))
            return
        for r, o in enumerate(w.outcome):
            if o[0] != 'ok':
                R.violation(key + '/raises', 'image %d raised %r under %s' % (r, o[1], name))
                return
            if not numpy.array_equal(o[1], want[r]):
                R.violation(key + '/values', 'image %d under %s: %s' % (r, name, lib.maxdiff(o[1], want[r])))
                return
    R.nstates(1)
    R.outcome(key)


def run(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        _run(case, R)


def _run(case, R):
    size = case['size']
    allim = [list(range(size))] * size
    if case['kind'] == 'forms':
        dt, order = case['dt'], case['order']
        for r, p, i in itertools.product(range(size), range(size), IDX):
            for op in [('pull', p, i)] + [('push', p, i, f) for f in ('same', 'copy', 'fort', 'strided', 'scalar', 'list', 'f4', 'row')]:
                phases = [([[op] if x == r else [] for x in range(size)], allim)] * 2
                key = 'c33/forms/%d/%s/%s/%d/%s' % (size, dt, order, r, '-'.join(map(str, op)))
                decide(R, key, size, dt, phases, explore.priorities(size, program, dt, order, phases, modes=MODES[:1])
                       if size < 3 else [('rr', explore.run(size, program, dt, order, phases, choose=explore.round_robin, mode=MODES[1]))])
    elif case['kind'] == 'mix':
        for ops in itertools.product(case['first'], *case['rest']):
            phases = [(ops, allim)]
            key = 'c33/mix/%d/%s' % (size, '|'.join(','.join('-'.join(map(str, o)) for o in s) for s in ops))
            decide(R, key, size, 'f8', phases, explore.priorities(size, program, 'f8', 'C', phases,
                                                                  modes=MODES[:2] if case['tier'] == 'quick' else MODES))
    elif case['kind'] == 'part':
        for imgs in itertools.product(case['subs'], repeat=size):
            phases = [(case['ops'], imgs), ([[]] * size, allim)]
            key = 'c33/part/%d/%s/%s' % (size, case['ops'], imgs)
            decide(R, key, size, 'f8', phases, explore.priorities(size, program, 'f8', 'C', phases, modes=MODES[:2])
                   if size == 2 else [('rr', explore.run(size, program, 'f8', 'C', phases, choose=explore.round_robin, mode=MODES[1]))])
    else:
        phases = [(case['ops'], allim)]
        key = 'c33/dfs/%s/%s' % (case['ops'], case['mode'])
        decide(R, key, size, 'f8', phases, explore.dfs(size, program, ('f8', 'C', phases), bound=case['bound'], mode=case['mode']))
