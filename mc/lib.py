"""What the checks share."""
import hashlib
import itertools
import pickle

import numpy

from . import env, explore, vmpi


def digest(x):
    return hashlib.blake2b(_canon(x), digest_size=12).hexdigest()


def _canon(x):
    if isinstance(x, numpy.ndarray):
        return ('A%s%s' % (x.shape, x.dtype)).encode() + numpy.ascontiguousarray(x).tobytes()
    if isinstance(x, numpy.generic):
        return ('G%s' % x.dtype).encode() + x.tobytes()
    if isinstance(x, (list, tuple)):
        return b'[' + b','.join(_canon(y) for y in x) + b']'
    if isinstance(x, dict):
        return b'{' + b','.join(_canon(k) + b':' + _canon(x[k]) for k in sorted(x, key=repr)) + b'}'
    if isinstance(x, float) and x != x:
        return b'nan'
    return repr(x).encode()


def run_world(R, size, prog, args=(), schedules='one', key='', modes=None, horizon=3000000, allow_exc=False):
    """
    Execute prog(comm, *args) on `size` simulated ranks.

    schedules: 'one'   the default schedule (ranks share nothing but collectives, whose
                       outcome does not depend on the order of arrival),
               'few'   default, reversed priority and round robin,
               'all'   every priority order and round robin, under `modes`.
    Reports a violation if an execution does not end normally on all ranks, or if
    two executions differ.  Returns the values per rank (or outcomes with allow_exc), or None.
    """
    worlds = []
    if schedules == 'one':
        worlds = [(('default',), explore.run(size, prog, *args, horizon=horizon))]
    elif schedules == 'few':
        def gen():
            yield ('default',), explore.run(size, prog, *args, horizon=horizon)
            if size > 1:
                yield ('reversed',), explore.run(size, prog, *args, horizon=horizon, mode=dict(root='early'),
                                                 choose=explore.by_strict_priority(range(size)[::-1]))
                yield ('rr',), explore.run(size, prog, *args, choose=explore.round_robin, horizon=horizon)
        worlds = gen()
    else:
        worlds = explore.priorities(size, prog, *args, modes=modes or [None, dict(root='early')], horizon=horizon)
    first = None
    for name, w in worlds:
        R.trace()
        R.step(len(w.log))
        R.count('schedules')
        if w.failure is not None:
            if isinstance(w.failure, vmpi.Unsupported):
                raise w.failure
            R.violation(key + '/' + type(w.failure).__name__, '%s under schedule %s: %s'
                        % (type(w.failure).__name__, name, w.failure), outcomes=[repr(o) for o in w.outcome])
            return None
        if not allow_exc:
            for r, o in enumerate(w.outcome):
                if o[0] != 'ok':
                    raise o[1]
        out = [o[1] if o[0] == 'ok' else o for o in w.outcome]
        d = digest([o if not (isinstance(o, tuple) and o and o[0] == 'exc') else ('exc', type(o[1]).__name__)
                    for o in out])
        if first is None:
            first = (name, out, d)
        elif d != first[2]:
            R.violation(key + '/schedule', 'result depends on the schedule: %s vs %s' % (first[0], name))
            return None
    return first[1] if first else None


def debruijn(k, n=2):
    """a cyclic sequence over range(k) that contains every word of length n once, closed up"""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def split(n, size, how):
    """indices of each rank for n items: 'cyclic', 'block', 'rank<k>' (all on one), 'skip' (rank 0 empty)"""
    idx = numpy.arange(n)
    if how == 'cyclic':
        return [idx[r::size] for r in range(size)]
    if how == 'block':
        return [idx[r * n // size:(r + 1) * n // size] for r in range(size)]
    if how == 'skip':
        if size == 1:
            return [idx]
        return [idx[:0]] + [idx[r::size - 1] for r in range(size - 1)]
    r0 = int(how[4:]) % size
    return [idx if r == r0 else idx[:0] for r in range(size)]


def close(a, b, rtol, atol):
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape:
        return False
    with numpy.errstate(all='ignore'):
        return bool(numpy.all(abs(a - b) <= atol + rtol * abs(b)))


def maxdiff(a, b):
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape:
        return 'shapes %s and %s' % (a.shape, b.shape)
    if a.size == 0:
        return 0.0
    with numpy.errstate(all='ignore'):
        d = abs(a - b)
    if not numpy.isfinite(d).all():
        return 'non finite'
    i = numpy.unravel_index(d.argmax(), d.shape)
    return '%g at %s (%s vs %s)' % (d[i], tuple(int(x) for x in i), a[i], b[i])
