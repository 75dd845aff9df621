"""C34: turn taking runs in rank order; evaluation at the root agrees."""
import itertools

import numpy

from mc import env, lib, explore, vmpi

ID = 'C34'
RULE = ('states are (number of ranks, which ranks raise, what the body communicates, repetitions); each is run under every schedule of up to '
        'a number of preemptions, and under every priority of the ranks')
ASSUMPTIONS = ['the body of a turn communicates only on other communicators, or not at all']


class Odd(Exception):
    """cannot be pickled"""
    def __reduce__(self):
        raise TypeError('cannot be pickled')


class Boom(Exception):
    pass


RESULTS = ['int', 'none', 'array', 'dict', 'boom', 'odd', 'exit', 'falsy', 'exception', 'tuple', 'str']


def cases(tier):
    out = []
    top = 3 if tier == 'quick' else 4
    for size in range(1, top + 1):
        for raising in itertools.product((0, 1), repeat=size):
            for reps in (1, 2):
                if size >= 3 and reps == 2 and tier == 'quick':
                    continue
                bound = {1: 1, 2: 3, 3: 1}[size] if tier == 'quick' else {1: 1, 2: 6, 3: 3, 4: 2}[size]
                if reps == 2:
                    bound -= 1 if size == 2 else 2 if size == 4 else 1
                out.append(dict(kind='turn', size=size, raising=raising, reps=reps, bound=max(bound, 1)))
    for size in range(4, 6):
        for raising in ([0] * size, [1] * size, [1] + [0] * (size - 1), [0] * (size - 1) + [1]):
            out.append(dict(kind='turnprio', size=size, raising=raising))
    for size in range(1, top + 1):
        for a in RESULTS:
            for b in RESULTS if size == 2 else ['int']:
                out.append(dict(kind='root', size=size, seq=[a, b], bound=(2 if size < 3 else 1) + (tier != 'quick' and size < 4)))
    return out


def turns(comm, trace, raising, reps):
    T = env.mod('tools', comm.rank)
    world = comm._group.world
    got = []
    for k in range(reps):
        rot = T.Rotator(comm)
        try:
            with rot:
                trace.append(('in', k, comm.rank))
                # let others run, if they can
                world.switch(comm.rank, None, 'in the turn')
                world.switch(comm.rank, None, 'in the turn')
                trace.append(('out', k, comm.rank))
                if raising[comm.rank]:
                    raise Boom(comm.rank)
            got.append('ok')
        except Boom as e:
            got.append('boom%d' % e.args[0])
    # the communicator is left in step
    return got, comm.allgather(comm.rank)


def make(kind, rank, calls):
    def f(*args, **kw):
        calls.append((rank, args, tuple(kw.items())))
        if kind == 'int':
            return 42 + args[0]
        if kind == 'none':
            return None
        if kind == 'array':
            return numpy.arange(3.)
        if kind == 'dict':
            return {'a': [1, 2]}
        if kind == 'falsy':
            return 0
        if kind == 'exception':
            return ValueError('a value')
        if kind == 'tuple':
            return (None, 'x')
        if kind == 'str':
            return 'error'
        if kind == 'boom':
            raise Boom('boom')
        if kind == 'odd':
            raise Odd('odd')
        if kind == 'exit':
            raise KeyboardInterrupt()
    return f


def rooted(comm, calls, seq):
    T = env.mod('tools', comm.rank)
    out = []
    for k in seq:
        f = T.FromRoot(comm)(make(k, comm.rank, calls))
        try:
            r = f(1, key=2)
            out.append(('value', repr(r)))
        except vmpi.VMPIError:
            raise
        except BaseException as e:
            out.append(('raised', type(e).__name__ if comm.rank == 0 else ''))
    return out, comm.allgather(comm.rank)


def run(case, R):
    size = case['size']
    if case['kind'] in ('turn', 'turnprio'):
        reps = case.get('reps', 1)
        key = 'c34/turn/%d/%s/%d' % (size, ''.join(map(str, case['raising'])), reps)
        traces = []

        def prog(comm):
            return turns(comm, traces[-1], case['raising'], reps)

        def worlds():
            if case['kind'] == 'turnprio':
                for mode in explore.MODES_COLL:
                    for prio in itertools.permutations(range(size)):
                        for pick in (explore.by_priority, explore.by_strict_priority):
                            traces.append([])
                            w = vmpi.World(size, choose=pick(prio), mode=mode)
                            w.run(prog)
                            yield (pick.__name__, prio), w
                return
            g = explore.dfs(size, prog, (), bound=case['bound'], mode=dict(root='early'))
            while True:
                traces.append([])
                try:
                    yield next(g)
                except StopIteration:
                    return
                del traces[:-1]
        want = [(d, k, r) for k in range(reps) for r in range(size) for d in ('in', 'out')]
        for name, w in worlds():
            R.trace()
            R.step(len(w.log))
            R.count('schedules')
            if w.failure is not None:
                R.violation(key + '/' + type(w.failure).__name__, 'under %s: %s' % (name, w.failure))
                return
            if traces[-1] != want:
                R.violation(key + '/order', 'under %s: %s' % (name, traces[-1]))
                return
            for r, o in enumerate(w.outcome):
                exp = (['boom%d' % r if case['raising'][r] else 'ok'] * reps, list(range(size)))
                if o[0] != 'ok' or (list(o[1][0]), list(o[1][1])) != exp:
                    R.violation(key + '/ending', 'rank %d under %s: %r' % (r, name, o))
                    return
        R.nstates(1)
        R.outcome(key)
        return
    key = 'c34/root/%d/%s' % (size, '-'.join(case['seq']))
    calls = []

    def prog(comm):
        return rooted(comm, calls, case['seq'])
    for mode in explore.MODES_COLL:
        for name, w in explore.dfs(size, prog, (), bound=case['bound'], mode=mode):
            R.trace()
            R.step(len(w.log))
            R.count('schedules')
            if w.failure is not None:
                R.violation(key + '/' + type(w.failure).__name__, 'under %s: %s' % (name, w.failure))
                return
            for r, o in enumerate(w.outcome):
                if o[0] != 'ok':
                    R.violation(key + '/raises', 'rank %d: %r' % (r, o[1]))
                    return
                res, g = o[1]
                root = w.outcome[0][1][0]
                for k, a, b in zip(case['seq'], res, root):
                    fails = k in ('boom', 'odd', 'exit')
                    if a[0] != ('raised' if fails else 'value'):
                        R.violation(key + '/ending', 'rank %d: %s %s' % (r, k, a))
                        return
                    if not fails and (a != b or a[1] != repr(make(k, 0, [])(1, key=2))):
                        R.violation(key + '/value', 'rank %d: %s is %s' % (r, k, a))
                        return
                    if fails and r == 0 and a[1] != {'boom': 'Boom', 'odd': 'Odd', 'exit': 'KeyboardInterrupt'}[k]:
                        R.violation(key + '/error', 'the root raised %s' % a[1])
                        return
            if any(c[0] != 0 or c[1] != (1,) or c[2] != (('key', 2),) for c in calls) or len(calls) != len(case['seq']):
                R.violation(key + '/calls', 'calls: %s' % calls)
                return
            del calls[:]
    R.nstates(1)
    R.outcome(key)
