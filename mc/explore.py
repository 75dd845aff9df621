"""
Exploring the executions of one program on the simulated MPI.

The ranks share nothing but MPI, and all nondeterminism of an execution is in
(i) the order in which ranks reach MPI calls and (ii) the semantics an MPI
implementation may choose (`modes`).  Two explorers:

  priorities   every order of priority of the ranks (n! schedules): a rank runs
               until it blocks, then the next in priority runs.
  dfs          every schedule with at most `bound` preemptions, by stateless
               depth first search over the recorded choice points.
"""
import itertools

from . import vmpi

MODES_COLL = [dict(root='sync'), dict(root='early')]
MODES_ALL = [dict(root=r, send=s, copy=c) for r in ('sync', 'early') for s in ('eager', 'rendezvous')
             for c in ('early', 'late')]


def run(size, fn, *args, **kw):
    """one execution, default schedule"""
    w = vmpi.World(size, choose=kw.get('choose'), mode=kw.get('mode'), horizon=kw.get('horizon', 3000000))
    w.run(fn, *args)
    return w


def by_priority(prio):
    pos = {r: i for i, r in enumerate(prio)}

    def choose(w, enabled, cur):
        if cur is not None and enabled[0] == cur:
            # run until blocked
            return cur
        return min(enabled, key=pos.__getitem__)
    return choose


def by_strict_priority(prio):
    """the highest priority rank that can move moves, at every MPI call"""
    pos = {r: i for i, r in enumerate(prio)}

    def choose(w, enabled, cur):
        return min(enabled, key=pos.__getitem__)
    return choose


def round_robin(w, enabled, cur):
    """switch at every MPI call"""
    if cur is None:
        return min(enabled)
    later = [r for r in enabled if r > cur]
    return min(later) if later else min(enabled)


def priorities(size, fn, *args, **kw):
    """yield (schedule name, world) for every priority order and round robin"""
    modes = kw.get('modes', [None])
    for mode in modes:
        for prio in itertools.permutations(range(size)):
            w = vmpi.World(size, choose=by_priority(prio), mode=mode, horizon=kw.get('horizon', 3000000))
            w.run(fn, *args)
            yield ('prio', prio, mode), w
        if size > 1:
            w = vmpi.World(size, choose=round_robin, mode=mode, horizon=kw.get('horizon', 3000000))
            w.run(fn, *args)
            yield ('rr', None, mode), w


def dfs(size, fn, args=(), bound=2, mode=None, limit=None, horizon=3000000):
    """yield (choices, world) for every schedule with at most `bound` preemptions."""
    stack = [((), 0)]
    n = 0
    while stack:
        prefix, spent = stack.pop()
        k = [0]

        def choose(w, enabled, cur, prefix=prefix, k=k):
            i = k[0]
            k[0] += 1
            if i < len(prefix):
                return prefix[i]
            return enabled[0]
        w = vmpi.World(size, choose=choose, mode=mode, horizon=horizon)
        w.run(fn, *args)
        n += 1
        yield tuple(p[1] for p in w.points), w
        if limit is not None and n >= limit:
            return
        chosen = [p[1] for p in w.points]
        # every alternative at points after the prefix; preemptions: choosing another rank
        # although the running one could go on
        cost = spent
        for i in range(len(prefix), len(w.points)):
            enabled, c, running = w.points[i]
            for alt in enabled:
                if alt == c:
                    continue
                extra = 1 if (running and alt != enabled[0]) else 0
                if cost + extra <= bound:
                    stack.append((tuple(chosen[:i]) + (alt,), cost + extra))
            # default choices cost nothing


def outcome_summary(w):
    """what happened, without values: for comparing endings"""
    return tuple((o[0], type(o[1]).__name__ if o[0] != 'ok' else None) for o in w.outcome)


def values(w, what='program'):
    """the return values of all ranks; raises the failure otherwise"""
    if w.failure is not None:
        raise w.failure
    out = []
    for r, o in enumerate(w.outcome):
        if o[0] != 'ok':
            raise o[1]
        out.append(o[1])
    return out
