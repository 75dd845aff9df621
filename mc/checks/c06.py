"""C06: exchanges and gathers end the same way on every rank, whatever the order the ranks arrive in."""
import itertools

import numpy

from mc import dom, env, explore, lib, vmpi

ID = 'C06'
RULE = ('states are (ranks, operation, kind of mismatch, subset of ranks that pass the mismatching data, schedule): all '
        'schedules by priority order and round robin, with synchronising and non-synchronising roots; small programs under '
        'every schedule with up to 2 preemptions. Deadlock and mismatched collectives are detected exactly')
ASSUMPTIONS = ['MPI collectives may or may not synchronise (both are explored)',
               'every rank calls the same sequence of operations with the same number of columns']

OPS = ['exchange', 'exchange2', 'exchange_nopack', 'gather_sum', 'gather_any', 'gather_local', 'gather_all', 'gather_mean',
       'gather_max']
BAD = ['longer', 'shorter', 'empty', 'tail', 'ndim', 'second_longer', 'fields']


def applicable(op, bad):
    if bad == 'second_longer':
        return op in ('exchange2', 'exchange_nopack')
    if bad == 'fields':
        return op == 'exchange'
    return True


def cases(tier):
    out = []
    for size in (2, 3):
        for op in OPS:
            for bad in BAD:
                if not applicable(op, bad):
                    continue
                out.append(dict(size=size, op=op, bad=bad, kind='bad', how='cyclic'))
                if size == 3 and (tier != 'quick' or bad in ('longer', 'tail')):
                    out.append(dict(size=size, op=op, bad=bad, kind='bad', how='few'))
    for size in (2, 3) if tier == 'quick' else (2, 3, 4):
        for op in OPS + ['decompose', 'load', 'cost', 'primary']:
            for how in HOW:
                out.append(dict(size=size, op=op, kind='good', how=how))
    for op in ('exchange', 'gather_sum', 'gather_local', 'decompose'):
        out.append(dict(size=2, op=op, kind='dfs', bound=2 if tier == 'quick' else 4, how='cyclic'))
    if tier != 'quick':
        for op in ('exchange', 'gather_sum'):
            out.append(dict(size=3, op=op, kind='dfs', bound=2, how='cyclic'))
            out.append(dict(size=3, op=op, kind='dfs', bound=2, how='few'))
    return out


POS = numpy.arange(0, 4, .25).reshape(-1, 1)


def call(L, op, a, b):
    if op == 'exchange':
        return L.exchange(a)
    if op == 'exchange2':
        return L.exchange(a, b)
    if op == 'exchange_nopack':
        return L.exchange(a, b, pack=False)
    mode = op[7:]
    return L.gather(a, mode=numpy.maximum if mode == 'max' else mode)


def spoil(a, b, bad):
    if bad == 'longer':
        return numpy.concatenate([a, a[:1] if len(a) else numpy.zeros((1,) + a.shape[1:])]), b
    if bad == 'shorter':
        return (a[:-1], b) if len(a) else (numpy.zeros(2), b)
    if bad == 'empty':
        return (a[:0], b) if len(a) else (numpy.zeros(1), b)
    if bad == 'tail':
        return numpy.zeros((len(a), 3)), b
    if bad == 'ndim':
        return numpy.zeros((len(a), 1)), b
    if bad == 'second_longer':
        return a, numpy.zeros(len(b) + 1)
    if bad == 'fields':
        return numpy.zeros(len(a), dtype=[('a', 'f8'), ('b', 'f8')]), b


# who holds which particles; some ranks hold none, receive none, or neither
HOW = {'cyclic': (lambda n, r, s: range(r, n, s), .5), 'first': (lambda n, r, s: range(n) if r == 0 else (), .5),
       'last': (lambda n, r, s: range(n) if r == s - 1 else (), 0), 'few': (lambda n, r, s: (1, 5) if r == 0 else (6,) if r == 1 and s > 2 else (), 0),
       'one': (lambda n, r, s: (0,) if r == s - 1 else (), 0), 'none': (lambda n, r, s: (), .5)}


def program(comm, op, bad, subset, size, how):
    D = env.mod('domain', comm.rank)
    g = D.GridND([[0, 1, 2, 4]], comm=comm, periodic=True)
    who, sm = HOW[how]
    ids = numpy.array(who(len(POS), comm.rank, comm.size), dtype='i8')
    L = g.decompose(POS[ids], smoothing=sm)
    if op == 'decompose':
        L2 = g.decompose(POS[ids] + 1, smoothing=0)
        return ('ok', L2.exchange(ids))
    if op == 'load':
        return ('ok', g.load(POS[ids], gamma=1))
    if op == 'cost':
        return ('ok', L.get_exchange_cost())
    if op == 'primary':
        g.loadbalance(g.load(POS[ids]))
        return ('ok', g.isprimary(POS))
    ok = L.exchange(ids)
    n = len(ids) if op.startswith('exchange') else len(ok)
    a = numpy.arange(float(n))
    b = numpy.arange(float(n)) + 1
    def local(x):
        if op != 'gather_local':
            return x
        x = numpy.array(x)
        x[~numpy.isin(ids, ok)] = 0     # no copy on this rank: no value
        return x
    first = local(call(L, op, a, b))
    r = ('ok', None)
    if bad is not None and comm.rank in subset:
        aa, bb = spoil(a, b, bad)
    elif bad == 'fields':
        aa, bb = numpy.zeros(len(a), dtype=[('a', 'f8'), ('b', 'f8'), ('c', 'f8')]), b
    else:
        aa, bb = a, b
    try:
        call(L, op, aa, bb)
    except Exception as e:
        r = ('raised', None)
    # the layout remains usable
    second = local(call(L, op, a, b))
    return r[0], first, second


def flat(x):
    return [numpy.asarray(y).tolist() for y in (x if isinstance(x, tuple) else (x,))]


def run(case, R):
    size, op = case['size'], case['op']
    if case['kind'] == 'bad':
        bad = case['bad']
        for k in range(1, 2 ** size):
            subset = [r for r in range(size) if k >> r & 1]
            if bad in ('tail', 'ndim', 'fields') and len(subset) == size:
                continue        # consistent everywhere: not a mismatch
            key = 'c06/%s/%s/%s/size%d/bad%s' % (op, bad, case['how'], size, subset)
            vals = lib.run_world(R, size, program, (op, bad, subset, size, case['how']), schedules='all', key=key)
            if vals is None:
                return
            R.state(op, bad, size, case['how'], tuple(subset))
            ends = set(v[0] for v in vals)
            R.check(len(ends) == 1, key, 'ends as %s' % [v[0] for v in vals])
            R.check(ends == {'raised'}, key + '/silent', 'data that does not match the layout is accepted')
            for r in range(size):
                R.check(flat(vals[r][1]) == flat(vals[r][2]), key + '/after', 'the layout is damaged by the failed call')
            R.outcome(op, bad, tuple(sorted(ends)))
    elif case['kind'] == 'good':
        vals = lib.run_world(R, size, program, (op, None, (), size, case['how']), schedules='all', key='c06/%s/%s/size%d' % (op, case['how'], size))
        R.state(op, size, case['how'])
        if vals:
            R.check(all(v[0] == 'ok' for v in vals), 'c06/%s/size%d' % (op, size), 'a valid call raises')
    else:
        ref = None
        for choices, w in explore.dfs(size, program, (op, None, (), size, case['how']), bound=case['bound'],
                                      mode=dict(root='early')):
            R.trace()
            R.step(len(w.log))
            R.state(op, size, case['how'], choices)
            R.count('schedules')
            key = 'c06/dfs/%s/size%d' % (op, size)
            if w.failure is not None:
                R.violation(key, '%s: %s' % (type(w.failure).__name__, w.failure), schedule=list(choices))
            d = lib.digest([o[1] for o in w.outcome])
            if ref is None:
                ref = d
            R.check(d == ref, key + '/value', 'the result depends on the schedule', schedule=list(choices))
