"""
A simulated MPI: the ranks of a world are threads of one process, of which
exactly one runs at any time.  Control changes hands only inside MPI calls, at
points where a policy picks the next rank, so an execution is a function of the
program and of the list of choices: it can be enumerated and replayed.

What is modelled, and how
  * collectives match by their order on the communicator, as MPI prescribes.
    A rank that enters a different collective (or the same one with another
    root) than its peers entered at the same position is an error that is
    reported exactly (MismatchError), not a hang.
  * a state in which no rank can move and not all have returned is a deadlock,
    reported with the call every blocked rank is in (Deadlock).
  * point to point messages match on (source, tag) in posting order.  Whether a
    send completes before its match is posted (eager) or after (rendezvous),
    and whether a nonblocking send reads its buffer at the call or at the
    completion, is decided by the world's `mode`, which harnesses enumerate.
  * buffers are checked: counts that disagree between sender and receiver,
    displacements past the end of a buffer, buffers that are not contiguous.

None of the exceptions above can be swallowed by `except Exception`.
"""
import pickle
import sys
import threading
import types

import numpy

_local = threading.local()


class VMPIError(BaseException):
    pass


class Deadlock(VMPIError):
    pass


class MismatchError(VMPIError):
    pass


class BufferFault(VMPIError):
    pass


class Unsupported(VMPIError):
    """The program used a part of MPI that is not simulated."""


class Horizon(VMPIError):
    pass


class _Aborted(VMPIError):
    """Another rank brought the world down."""


# ----------------------------------------------------------------- operations

class Op(object):
    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __call__(self, a, b):
        return self.f(a, b)

    def __repr__(self):
        return 'MPI.' + self.name

    @classmethod
    def Create(cls, f, commute=False):
        raise Unsupported('Op.Create')


def _land(a, b):
    return numpy.logical_and(a, b) if isinstance(a, numpy.ndarray) else bool(a) and bool(b)


def _lor(a, b):
    return numpy.logical_or(a, b) if isinstance(a, numpy.ndarray) else bool(a) or bool(b)


def _lxor(a, b):
    return numpy.logical_xor(a, b) if isinstance(a, numpy.ndarray) else bool(a) != bool(b)


def _max(a, b):
    return numpy.maximum(a, b) if isinstance(a, numpy.ndarray) else max(a, b)


def _min(a, b):
    return numpy.minimum(a, b) if isinstance(a, numpy.ndarray) else min(a, b)


SUM = Op('SUM', lambda a, b: a + b)
PROD = Op('PROD', lambda a, b: a * b)
MAX = Op('MAX', _max)
MIN = Op('MIN', _min)
LAND = Op('LAND', _land)
LOR = Op('LOR', _lor)
LXOR = Op('LXOR', _lxor)
BAND = Op('BAND', lambda a, b: a & b)
BOR = Op('BOR', lambda a, b: a | b)
BXOR = Op('BXOR', lambda a, b: a ^ b)


class _MinLoc(object):
    pass


def _maxloc(a, b):
    return a if (a[0] > b[0] or (a[0] == b[0] and a[1] < b[1])) else b


def _minloc(a, b):
    return a if (a[0] < b[0] or (a[0] == b[0] and a[1] < b[1])) else b


MAXLOC = Op('MAXLOC', _maxloc)
MINLOC = Op('MINLOC', _minloc)


class Datatype(object):
    made = None         # a list: the derived types that are made are noted

    def __init__(self, size, name='derived', predefined=False):
        if Datatype.made is not None and not predefined:
            Datatype.made.append((getattr(_local, 'rank', None), self))
        self.size = int(size)
        self.name = name
        self.predefined = predefined
        self.freed = False

    def Create_contiguous(self, n):
        self._use()
        return Datatype(self.size * int(n))

    def Create_vector(self, *a):
        raise Unsupported('Create_vector')

    Create_struct = Create_resized = Create_indexed = Create_vector

    def Commit(self):
        self._use()
        return self

    def Free(self):
        self._use()
        self.freed = True

    def Dup(self):
        return Datatype(self.size)

    def Get_size(self):
        self._use()
        return self.size

    def Get_extent(self):
        return (0, self.size)

    @property
    def extent(self):
        return self.size

    def _use(self):
        if self.freed:
            raise BufferFault('use of a datatype that has been freed')


def _dt(name, np):
    return Datatype(numpy.dtype(np).itemsize, name, True)


BYTE = _dt('BYTE', 'u1')
CHAR = _dt('CHAR', 'i1')
SHORT = _dt('SHORT', 'i2')
INT = _dt('INT', 'i4')
UNSIGNED = _dt('UNSIGNED', 'u4')
LONG = _dt('LONG', 'i8')
LONG_LONG = _dt('LONG_LONG', 'i8')
INT32_T = _dt('INT32_T', 'i4')
INT64_T = _dt('INT64_T', 'i8')
UINT64_T = _dt('UINT64_T', 'u8')
UNSIGNED_LONG = _dt('UNSIGNED_LONG', 'u8')
FLOAT = _dt('FLOAT', 'f4')
DOUBLE = _dt('DOUBLE', 'f8')
BOOL = _dt('BOOL', '?')
COMPLEX = _dt('COMPLEX', 'c8')
DOUBLE_COMPLEX = _dt('DOUBLE_COMPLEX', 'c16')
C_FLOAT_COMPLEX = COMPLEX
C_DOUBLE_COMPLEX = DOUBLE_COMPLEX

_typedict = {'b': CHAR, 'B': BYTE, 'h': SHORT, 'i': INT, 'I': UNSIGNED, 'l': LONG, 'L': UNSIGNED_LONG,
             'q': LONG_LONG, 'f': FLOAT, 'd': DOUBLE, '?': BOOL, 'F': COMPLEX, 'D': DOUBLE_COMPLEX}


class _InPlace(int):
    def __repr__(self):
        return 'MPI.IN_PLACE'


IN_PLACE = _InPlace(-1)
ANY_SOURCE = -2
ANY_TAG = -1
PROC_NULL = -3
UNDEFINED = -32766
COMM_NULL = None
REQUEST_NULL = None


class Exception_(Exception):
    pass


# -------------------------------------------------------------------- buffers

def _flat(a, writable, what):
    """View an array as a flat array of bytes (no copy)."""
    if not isinstance(a, numpy.ndarray):
        if isinstance(a, (bytes, bytearray, memoryview)):
            a = numpy.frombuffer(a, dtype='u1')
        else:
            a0 = a
            a = numpy.asarray(a0)
            if writable:
                raise TypeError('%s: expecting a writable buffer, got %r' % (what, type(a0)))
    if a.dtype.hasobject:
        raise ValueError('%s: buffer of Python objects' % what)
    if not a.flags.c_contiguous and not a.flags.f_contiguous:
        raise BufferError('%s: ndarray is not contiguous' % what)
    if writable and not a.flags.writeable:
        raise BufferError('%s: Object is not writable.' % what)
    if a.size == 0:
        return numpy.empty(0, 'u1'), a
    base = a if a.flags.c_contiguous else a.T
    return base.reshape(-1).view('u1') if base.dtype.itemsize else numpy.empty(0, 'u1'), a


class _Msg(object):
    """ a buffer specification of mpi4py. """

    def __init__(self, spec, writable, what, nblocks=None):
        counts = displs = dt = None
        if isinstance(spec, (list, tuple)):
            spec = list(spec)
            buf = spec.pop(0)
            if spec and isinstance(spec[-1], (Datatype, str)):
                dt = spec.pop()
                if isinstance(dt, str):
                    dt = _typedict[dt]
            if len(spec) == 1:
                c = spec[0]
                if isinstance(c, (list, tuple)) and len(c) == 2 and (
                        c[0] is None or numpy.ndim(c[0]) == 1 or c[1] is None or numpy.ndim(c[1]) == 1):
                    counts, displs = c
                else:
                    counts = c
            elif len(spec) == 2:
                counts, displs = spec
            elif len(spec) > 2:
                raise ValueError('%s: message: expecting 2 to 4 items' % what)
        else:
            buf = spec
        self.bytes, self.array = _flat(buf, writable, what)
        if dt is None:
            dtype = self.array.dtype
            itemsize = dtype.itemsize
            if dtype.char not in _typedict:
                raise KeyError(dtype.char)      # what mpi4py does for, e.g., structured types
        else:
            dt._use()
            itemsize = dt.size
        self.itemsize = itemsize
        self.what = what
        if nblocks is None:
            n = len(self.bytes) // itemsize if itemsize else 0
            if counts is not None:
                n = int(counts)
            off = 0 if displs is None else int(displs)
            self.lo, self.hi = off * itemsize, (off + n) * itemsize
            self._check(self.lo, self.hi)
        else:
            if counts is None:
                n = len(self.bytes) // itemsize if itemsize else 0
                if n % nblocks:
                    raise ValueError('%s: message: buffer length %d is not multiple of %d blocks' % (what, n, nblocks))
                counts = [n // nblocks] * nblocks
            elif numpy.ndim(counts) == 0:
                counts = [int(counts)] * nblocks
            counts = [int(c) for c in counts]
            if displs is None:
                displs = [sum(counts[:i]) for i in range(nblocks)]
            elif numpy.ndim(displs) == 0:
                displs = [int(displs) * i for i in range(nblocks)]
            displs = [int(d) for d in displs]
            if len(counts) != nblocks or len(displs) != nblocks:
                raise ValueError('%s: expecting %d items' % (what, nblocks))
            self.blocks = [(d * itemsize, (d + c) * itemsize) for c, d in zip(counts, displs)]
            for lo, hi in self.blocks:
                self._check(lo, hi)

    def _check(self, lo, hi):
        if hi > lo and (lo < 0 or hi > len(self.bytes)):
            raise BufferFault('%s: bytes %d..%d of a buffer of %d' % (self.what, lo, hi, len(self.bytes)))
        if hi < lo:
            raise BufferFault('%s: negative count' % self.what)

    def get(self):
        return self.bytes[self.lo:self.hi].copy()

    def put(self, data):
        if len(data) > self.hi - self.lo:
            raise BufferFault('%s: message truncated, %d bytes into %d' % (self.what, len(data), self.hi - self.lo))
        self.bytes[self.lo:self.lo + len(data)] = data

    def getb(self, i):
        lo, hi = self.blocks[i]
        return self.bytes[lo:hi].copy()

    def putb(self, i, data):
        lo, hi = self.blocks[i]
        if len(data) != hi - lo:
            raise BufferFault('%s: block %d: %d bytes sent, %d expected' % (self.what, i, len(data), hi - lo))
        self.bytes[lo:hi] = data


def _dumps(x):
    return pickle.dumps(x, pickle.HIGHEST_PROTOCOL)


# ------------------------------------------------------------------ scheduling

class World(object):
    """
    size    number of ranks
    choose  choose(world, enabled, current) -> rank of `enabled` to run next.
            `enabled` is canonical: the current rank first if it can go on,
            then ascending.
    mode    dict of semantics switches: 'send' in ('eager', 'rendezvous'),
            'copy' in ('early', 'late'), 'root' in ('sync', 'early')
    """
    current = None

    def __init__(self, size, choose=None, mode=None, horizon=3000000):
        self.size = size
        self.choose = choose or (lambda w, en, cur: en[0])
        self.mode = dict(send='eager', copy='early', root='sync')
        self.mode.update(mode or {})
        self.horizon = horizon
        self.steps = 0
        self.points = []            # (enabled, chosen, running still enabled)
        self.log = []               # (rank, call) in execution order
        self.locks = [threading.Lock() for _ in range(size)]
        for l in self.locks:
            l.acquire()
        self.state = ['new'] * size     # new / run / blocked / done
        self.pred = [None] * size
        self.where = [None] * size
        self.outcome = [None] * size
        self.failure = None
        self.groups = {}
        self.ngroups = 0
        self.clock = 0.0
        self.resources = {}
        self.finished = threading.Event()
        self.tracing = False

    # -- group bookkeeping
    def new_group(self, members, key=None):
        if key is not None and key in self.groups:
            return self.groups[key]
        g = _Group(self, list(members), self.ngroups)
        self.ngroups += 1
        self.groups[key if key is not None else ('anon', g.gid)] = g
        return g

    # -- the baton
    def enabled(self):
        out = []
        for r in range(self.size):
            s = self.state[r]
            if s in ('new', 'run'):
                out.append(r)
            elif s == 'blocked' and self.pred[r]():
                out.append(r)
        return out

    def _pick(self, cur):
        en = self.enabled()
        if not en:
            return None
        if cur is not None and cur in en:
            en.remove(cur)
            en.insert(0, cur)
        if len(en) == 1:
            return en[0]
        c = self.choose(self, en, cur)
        if c not in en:
            raise RuntimeError('schedule divergence: %r not in %r' % (c, en))
        self.points.append((tuple(en), c, cur is not None and en[0] == cur))
        return c

    def _check_failure(self, rank):
        if self.failure is not None:
            raise _Aborted(str(self.failure))

    def switch(self, rank, pred=None, where=None):
        """Called by the running rank: give others a chance; return when rank may go on."""
        self._check_failure(rank)
        self.steps += 1
        if self.steps > self.horizon:
            self.fail(Horizon('horizon of %d steps reached' % self.horizon))
            raise Horizon('horizon')
        if where is not None:
            self.where[rank] = where
        if pred is not None:
            self.state[rank] = 'blocked'
            self.pred[rank] = pred
        nxt = self._pick(rank)
        if nxt is None:
            d = Deadlock('; '.join('rank %d: %s' % (r, self.where[r] if self.state[r] != 'done'
                         else 'returned' + (' (%s)' % self.outcome[r][1].__class__.__name__
                                            if self.outcome[r][0] == 'exc' else ''))
                                   for r in range(self.size)))
            self.fail(d)
            raise d
        if nxt != rank:
            self.locks[nxt].release()
            self.locks[rank].acquire()
            self._check_failure(rank)
        self.state[rank] = 'run'
        self.pred[rank] = None

    def fail(self, e):
        """bring the world down: every other rank is woken and raises."""
        if self.failure is None:
            self.failure = e

    def _body(self, rank, fn, args):
        _local.rank = rank
        _local.world = self
        self.locks[rank].acquire()
        try:
            if self.failure is not None:
                raise _Aborted(str(self.failure))
            self.state[rank] = 'run'
            if self.tracing:
                sys.settrace(self.tracing)
            v = fn(self.comm(rank), *args)
            out = ('ok', v)
        except _Aborted as e:
            out = ('aborted', e)
        except VMPIError as e:
            self.fail(e)
            out = ('fault', e)
        except BaseException as e:
            out = ('exc', e)
        self.outcome[rank] = out
        self.state[rank] = 'done'
        # hand over
        if self.failure is not None:
            todo = [r for r in range(self.size) if self.state[r] != 'done']
            if todo:
                self.locks[todo[0]].release()
            else:
                self.finished.set()
            return
        if all(s == 'done' for s in self.state):
            self.finished.set()
            return
        try:
            nxt = self._pick(None)
        except BaseException as e:
            self.fail(VMPIError(repr(e)))
            nxt = None
        if nxt is None:
            if self.failure is None:
                self.fail(Deadlock('; '.join(
                    'rank %d: %s' % (r, self.where[r] if self.state[r] != 'done' else
                                     'returned' + (' (%s: %s)' % (type(self.outcome[r][1]).__name__, self.outcome[r][1])
                                                   if self.outcome[r][0] == 'exc' else ''))
                    for r in range(self.size))))
            nxt = [r for r in range(self.size) if self.state[r] != 'done'][0]
        self.locks[nxt].release()

    def comm(self, rank):
        g = self.new_group(range(self.size), key='world')
        return g.view(rank)

    def run(self, fn, *args):
        """Run fn(comm, *args) on every rank; returns the list of outcomes."""
        threads = [threading.Thread(target=self._body, args=(r, fn, args), daemon=True) for r in range(self.size)]
        for t in threads:
            t.start()
        first = self._pick(None)
        self.locks[first].release()
        for t in threads:
            t.join()
        return self.outcome


class _Group(object):
    def __init__(self, world, members, gid):
        self.world = world
        self.members = members
        self.gid = gid
        self.slots = {}
        self.views = {}
        self.mail = {}          # (src, dst) -> list of pending sends
        self.posted = {}        # dst -> list of pending receives
        self.freed = set()

    def view(self, wrank):
        if wrank not in self.views:
            self.views[wrank] = Comm(self, self.members.index(wrank))
        return self.views[wrank]


class _Slot(object):
    __slots__ = ('sig', 'data', 'result', 'left', 'done', 'who')

    def __init__(self, sig, who):
        self.sig = sig
        self.who = who
        self.data = {}
        self.result = None
        self.left = 0
        self.done = False


class _Send(object):
    def __init__(self, src, tag, read, data, what):
        self.src, self.tag, self.read, self.data, self.what = src, tag, read, data, what
        self.matched = False
        self.taken = False


class _Recv(object):
    def __init__(self, src, tag, put, what):
        self.src, self.tag, self.put, self.what = src, tag, put, what
        self.send = None
        self.complete = False


class Status(object):
    def __init__(self):
        self.source = None
        self.tag = None
        self.count = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_count(self, dt=BYTE):
        return self.count // dt.size

    Get_elements = Get_count


class Request(object):
    def __init__(self, comm, done, finish, what):
        self._comm, self._done, self._finish, self._what = comm, done, finish, what
        self._value = None
        self._completed = False

    def _wait(self):
        if self._completed:
            return self._value
        w = self._comm._group.world
        w.switch(self._comm._wrank, self._done, 'wait for ' + self._what)
        self._value = self._finish()
        self._completed = True
        return self._value

    def Wait(self, status=None):
        self._wait()
        return True

    def wait(self, status=None):
        return self._wait()

    def Test(self, status=None):
        w = self._comm._group.world
        w.switch(self._comm._wrank, None, 'test ' + self._what)
        if self._completed:
            return True
        if self._done():
            self._value = self._finish()
            self._completed = True
            return True
        return False

    def test(self, status=None):
        f = self.Test()
        return f, self._value

    def Free(self):
        pass

    def Cancel(self):
        raise Unsupported('Cancel')

    @staticmethod
    def Waitall(requests, statuses=None):
        for r in requests:
            if r is not None:
                r._wait()
        return True

    @staticmethod
    def waitall(requests, statuses=None):
        return [None if r is None else r._wait() for r in requests]

    @staticmethod
    def Waitany(requests, status=None):
        raise Unsupported('Waitany')

    waitany = Waitsome = waitsome = Testall = testall = Waitany


class Comm(object):
    def __init__(self, group, rank):
        self._group = group
        self._rank = rank
        self._wrank = group.members[rank]
        self._seq = 0

    # identity
    @property
    def rank(self):
        return self._rank

    @property
    def size(self):
        return len(self._group.members)

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self.size

    def __eq__(self, other):
        return isinstance(other, Comm) and other._group is self._group and other._rank == self._rank

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((id(self._group), self._rank))

    def __bool__(self):
        return True

    @property
    def name(self):
        return 'vmpi-%d' % self._group.gid

    @property
    def group(self):
        return self._group

    @property
    def is_inter(self):
        return False

    @property
    def is_intra(self):
        return True

    def Get_name(self):
        return self.name

    def Is_intra(self):
        return True

    def Is_inter(self):
        return False

    def Free(self):
        self._group.freed.add(self._rank)

    def py2f(self):
        return self._group.gid

    @property
    def handle(self):
        return self._group.gid + 1

    def Abort(self, errorcode=0):
        raise VMPIError('MPI_Abort(%s)' % errorcode)

    def Set_errhandler(self, *a):
        pass

    # collectives
    def _coll(self, sig, payload, compute, needs=None):
        """
        sig      hashable: must agree on every rank.
        compute  called once with {rank: payload}, returns {rank: result}
        needs    ranks whose arrival this rank waits for (None: all)
        """
        g = self._group
        w = g.world
        if self._rank in g.freed:
            raise MismatchError('%s on a communicator that has been freed' % (sig,))
        name = '%s on comm %d' % (sig[0] if len(sig) == 1 else '%s%r' % (sig[0], sig[1:]), g.gid)
        w.switch(self._wrank, None, 'before ' + name)
        w.log.append((self._wrank, g.gid, sig[0]))
        seq = self._seq
        self._seq += 1
        slot = g.slots.get(seq)
        if slot is None:
            slot = g.slots[seq] = _Slot(sig, self._rank)
        elif slot.sig != sig:
            raise MismatchError('collective number %d of comm %d: rank %d entered %r, rank %d entered %r'
                                % (seq, g.gid, slot.who, slot.sig, self._rank, sig))
        slot.data[self._rank] = payload
        n = self.size
        if w.mode['root'] == 'sync' or needs is None:
            if len(slot.data) < n:
                w.switch(self._wrank, lambda: len(slot.data) == n, name)
            if slot.result is None:
                slot.result = compute(slot.data)
            res = slot.result[self._rank]
        else:
            if not all(r in slot.data for r in needs):
                w.switch(self._wrank, lambda: all(r in slot.data for r in needs), name)
            res = compute({r: slot.data[r] for r in set(needs) | {self._rank}}).get(self._rank)
        slot.left += 1
        if slot.left == n:
            del g.slots[seq]
        return res

    def Barrier(self):
        self._coll(('Barrier',), None, lambda d: {r: None for r in d})

    barrier = Barrier

    def bcast(self, obj=None, root=0):
        def compute(d):
            return {r: d[root] for r in d}
        p = self._coll(('bcast', root), _dumps(obj) if self._rank == root else None, compute,
                       [] if self._rank == root else [root])
        return obj if self._rank == root else pickle.loads(p)

    def gather(self, obj, root=0):
        def compute(d):
            return {r: ([d[i] for i in range(self.size)] if r == root else None) for r in d}
        p = self._coll(('gather', root), _dumps(obj), compute, None if self._rank == root else [])
        return [pickle.loads(x) for x in p] if self._rank == root else None

    def scatter(self, obj=None, root=0):
        if self._rank == root:
            if len(obj) != self.size:
                raise ValueError('expecting %d items, got %d' % (self.size, len(obj)))
            payload = [_dumps(x) for x in obj]
        else:
            payload = None
        p = self._coll(('scatter', root), payload, lambda d: {r: d[root][r] for r in d},
                       [] if self._rank == root else [root])
        return pickle.loads(p)

    def allgather(self, obj):
        p = self._coll(('allgather',), _dumps(obj), lambda d: {r: [d[i] for i in range(self.size)] for r in d})
        return [pickle.loads(x) for x in p]

    def alltoall(self, obj):
        obj = list(obj)
        if len(obj) != self.size:
            raise ValueError('expecting %d items, got %d' % (self.size, len(obj)))
        p = self._coll(('alltoall',), [_dumps(x) for x in obj],
                       lambda d: {r: [d[i][r] for i in range(self.size)] for r in d})
        return [pickle.loads(x) for x in p]

    def _reduce(self, vals, op):
        acc = vals[0]
        for v in vals[1:]:
            acc = op(acc, v)
        return acc

    def allreduce(self, obj, op=SUM):
        p = self._coll(('allreduce', op.name), _dumps(obj), lambda d: {r: [d[i] for i in range(self.size)] for r in d})
        return self._reduce([pickle.loads(x) for x in p], op)

    def reduce(self, obj, op=SUM, root=0):
        def compute(d):
            return {r: ([d[i] for i in range(self.size)] if r == root else None) for r in d}
        p = self._coll(('reduce', op.name, root), _dumps(obj), compute, None if self._rank == root else [])
        return self._reduce([pickle.loads(x) for x in p], op) if self._rank == root else None

    def scan(self, obj, op=SUM):
        p = self._coll(('scan', op.name), _dumps(obj), lambda d: {r: [d[i] for i in range(self.size)] for r in d})
        return self._reduce([pickle.loads(x) for x in p[:self._rank + 1]], op)

    def exscan(self, obj, op=SUM):
        p = self._coll(('exscan', op.name), _dumps(obj), lambda d: {r: [d[i] for i in range(self.size)] for r in d})
        return self._reduce([pickle.loads(x) for x in p[:self._rank]], op) if self._rank else None

    # buffer collectives
    def Bcast(self, buf, root=0):
        m = _Msg(buf, self._rank != root, 'Bcast')
        p = self._coll(('Bcast', root), m.get() if self._rank == root else None,
                       lambda d: {r: d[root] for r in d}, [] if self._rank == root else [root])
        if self._rank != root:
            if len(p) != m.hi - m.lo:
                raise BufferFault('Bcast: %d bytes sent, %d expected' % (len(p), m.hi - m.lo))
            m.put(p)

    @staticmethod
    def _typed(buf, what):
        dt = None
        if isinstance(buf, (list, tuple)):
            if len(buf) > 1 and isinstance(buf[-1], Datatype):
                dt = buf[-1]
            buf = buf[0]
        a = numpy.asarray(buf)
        if a.dtype.char not in _typedict:
            raise KeyError(a.dtype.char)
        if not (a.flags.c_contiguous or a.flags.f_contiguous):
            raise BufferError('%s: ndarray is not contiguous' % what)
        return a

    def _reduce_arrays(self, arrays, op):
        acc = arrays[0].copy()
        for a in arrays[1:]:
            acc = numpy.asarray(op(acc, a)).astype(acc.dtype, copy=False)
        return acc

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        rb = self._typed(recvbuf, 'Allreduce')
        sb = rb if sendbuf is IN_PLACE else self._typed(sendbuf, 'Allreduce')
        if sb.size != rb.size or sb.dtype != rb.dtype:
            raise BufferFault('Allreduce: send and receive buffers differ')
        flat = sb.ravel('K').copy()
        p = self._coll(('Allreduce', op.name), flat, lambda d: {r: [d[i] for i in range(self.size)] for r in d})
        if any(x.size != p[0].size or x.dtype != p[0].dtype for x in p):
            raise BufferFault('Allreduce: counts or types differ between ranks')
        res = self._reduce_arrays(p, op)
        m = _Msg(rb, True, 'Allreduce')
        m.put(res.view('u1') if res.size else numpy.empty(0, 'u1'))

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        if self._rank == root:
            rb = self._typed(recvbuf, 'Reduce')
            sb = rb if sendbuf is IN_PLACE else self._typed(sendbuf, 'Reduce')
        else:
            sb = self._typed(sendbuf, 'Reduce')
        p = self._coll(('Reduce', op.name, root), sb.ravel('K').copy(),
                       lambda d: {r: ([d[i] for i in range(self.size)] if r == root else None) for r in d},
                       None if self._rank == root else [])
        if self._rank == root:
            if any(x.size != rb.size or x.dtype != rb.dtype for x in p):
                raise BufferFault('Reduce: counts or types differ between ranks')
            res = self._reduce_arrays(p, op)
            m = _Msg(rb, True, 'Reduce')
            m.put(res.view('u1') if res.size else numpy.empty(0, 'u1'))

    def Scan(self, sendbuf, recvbuf, op=SUM):
        raise Unsupported('Scan')

    Exscan = Reduce_scatter = Reduce_scatter_block = Scan
    Ibarrier = Ibcast = Iallreduce = Ialltoall = Ialltoallv = Iallgather = Scan
    Create_cart = Create_graph = Get_parent = Spawn = Scan

    def Allgather(self, sendbuf, recvbuf):
        rm = _Msg(recvbuf, True, 'Allgather', self.size)
        if sendbuf is IN_PLACE:
            payload = rm.getb(self._rank)
        else:
            payload = _Msg(sendbuf, False, 'Allgather').get()
        p = self._coll(('Allgather',), payload, lambda d: {r: [d[i] for i in range(self.size)] for r in d})
        for i in range(self.size):
            rm.putb(i, p[i])

    Allgatherv = Allgather

    def Gather(self, sendbuf, recvbuf, root=0):
        rm = _Msg(recvbuf, True, 'Gather', self.size) if self._rank == root else None
        payload = rm.getb(root) if sendbuf is IN_PLACE else _Msg(sendbuf, False, 'Gather').get()
        p = self._coll(('Gather', root), payload,
                       lambda d: {r: ([d[i] for i in range(self.size)] if r == root else None) for r in d},
                       None if self._rank == root else [])
        if self._rank == root:
            for i in range(self.size):
                rm.putb(i, p[i])

    Gatherv = Gather

    def Scatter(self, sendbuf, recvbuf, root=0):
        payload = None
        if self._rank == root:
            sm = _Msg(sendbuf, False, 'Scatter', self.size)
            payload = [sm.getb(i) for i in range(self.size)]
        p = self._coll(('Scatter', root), payload, lambda d: {r: d[root][r] for r in d},
                       [] if self._rank == root else [root])
        if recvbuf is not IN_PLACE:
            rm = _Msg(recvbuf, True, 'Scatter')
            if len(p) != rm.hi - rm.lo:
                raise BufferFault('Scatter: %d bytes sent, %d expected' % (len(p), rm.hi - rm.lo))
            rm.put(p)

    Scatterv = Scatter

    def _alltoall(self, name, sendbuf, recvbuf):
        rm = _Msg(recvbuf, True, name, self.size)
        if sendbuf is IN_PLACE:
            payload = [rm.getb(i) for i in range(self.size)]
        else:
            sm = _Msg(sendbuf, False, name, self.size)
            payload = [sm.getb(i) for i in range(self.size)]
        p = self._coll((name,), payload, lambda d: {r: [d[i][r] for i in range(self.size)] for r in d})
        for i in range(self.size):
            rm.putb(i, p[i])

    def Alltoall(self, sendbuf, recvbuf):
        self._alltoall('Alltoall', sendbuf, recvbuf)

    def Alltoallv(self, sendbuf, recvbuf):
        self._alltoall('Alltoallv', sendbuf, recvbuf)

    def Alltoallw(self, sendbuf, recvbuf):
        raise Unsupported('Alltoallw')

    # communicator construction
    def Split(self, color=0, key=0):
        g = self._group

        def compute(d):
            w = g.world
            byc = {}
            for r in sorted(d):
                byc.setdefault(d[r][0], []).append((d[r][1], r))
            groups = {}
            for c, l in sorted(byc.items()):
                if c == UNDEFINED:
                    continue
                groups[c] = w.new_group([g.members[r] for k, r in sorted(l)])
            return {r: groups.get(d[r][0]) for r in d}
        ng = self._coll(('Split',), (int(color), int(key)), compute)
        return None if ng is None else ng.view(self._wrank)

    def Dup(self, info=None):
        g = self._group

        def compute(d):
            ng = g.world.new_group(g.members)
            return {r: ng for r in d}
        return self._coll(('Dup',), None, compute).view(self._wrank)

    Clone = Dup

    # point to point
    def _send(self, read, dest, tag, what, rendezvous):
        g = self._group
        w = g.world
        if dest == PROC_NULL:
            return None
        if not 0 <= dest < self.size:
            raise Exception_('MPI_ERR_RANK: invalid rank %r' % (dest,))
        s = _Send(self._rank, tag, read, None, what)
        if w.mode['copy'] == 'early' or not rendezvous:
            s.data = read()
        g.mail.setdefault(dest, []).append(s)
        self._match(dest)
        return s

    def _match(self, dst):
        g = self._group
        for rv in list(g.posted.get(dst, [])):
            for s in g.mail.get(dst, []):
                if s.matched:
                    continue
                if rv.src not in (ANY_SOURCE, s.src):
                    continue
                if rv.tag not in (ANY_TAG, s.tag):
                    continue
                if rv.src == ANY_SOURCE:
                    srcs = set(x.src for x in g.mail.get(dst, []) if not x.matched)
                    if len(srcs) > 1:
                        raise Unsupported('a race between senders on ANY_SOURCE')
                s.matched = True
                rv.send = s
                g.posted[dst].remove(rv)
                g.mail[dst].remove(s)
                break

    def _recv(self, source, tag, what):
        g = self._group
        rv = _Recv(source, tag, None, what)
        g.posted.setdefault(self._rank, []).append(rv)
        self._match(self._rank)
        return rv

    @staticmethod
    def _take(rv):
        s = rv.send
        if s.data is None:
            s.data = s.read()
        s.taken = True
        return s.data

    def _point(self, what):
        self._group.world.switch(self._wrank, None, 'before ' + what)
        self._group.world.log.append((self._wrank, self._group.gid, what))

    def _do_send(self, read, dest, tag, what, sync=False):
        self._point(what)
        w = self._group.world
        rdv = sync or w.mode['send'] == 'rendezvous'
        s = self._send(read, dest, tag, what, rdv)
        if s is not None and rdv:
            w.switch(self._wrank, lambda: s.matched, what)
            self._finish_send(s)

    def _do_isend(self, read, dest, tag, what):
        self._point(what)
        w = self._group.world
        rdv = w.mode['send'] == 'rendezvous'
        s = self._send(read, dest, tag, what, rdv)
        if s is None:
            return Request(self, lambda: True, lambda: None, what)
        return Request(self, (lambda: s.matched and (s.taken or s.data is not None or True)) if rdv else (lambda: True),
                       (lambda: self._finish_send(s)), what)

    @staticmethod
    def _finish_send(s):
        # the buffer may be reused after completion
        if s.data is None:
            s.data = s.read()

    def Send(self, buf, dest, tag=0):
        m = _Msg(buf, False, 'Send')
        self._do_send(m.get, dest, tag, 'Send to %d' % dest)

    def Ssend(self, buf, dest, tag=0):
        m = _Msg(buf, False, 'Ssend')
        self._do_send(m.get, dest, tag, 'Ssend to %d' % dest, sync=True)

    def Isend(self, buf, dest, tag=0):
        m = _Msg(buf, False, 'Isend')
        return self._do_isend(m.get, dest, tag, 'Isend to %d' % dest)

    def send(self, obj, dest, tag=0):
        d = numpy.frombuffer(_dumps(obj), 'u1')
        self._do_send(lambda: d, dest, tag, 'send to %d' % dest)

    def isend(self, obj, dest, tag=0):
        d = numpy.frombuffer(_dumps(obj), 'u1')
        return self._do_isend(lambda: d, dest, tag, 'isend to %d' % dest)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        m = _Msg(buf, True, 'Recv')
        what = 'Recv from %d' % source
        self._point(what)
        rv = self._recv(source, tag, what)
        if rv.send is None:
            self._group.world.switch(self._wrank, lambda: rv.send is not None, what)
        m.put(self._take(rv))
        if status is not None:
            status.source, status.tag, status.count = rv.send.src, rv.send.tag, len(rv.send.data)

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        m = _Msg(buf, True, 'Irecv')
        what = 'Irecv from %d' % source
        self._point(what)
        rv = self._recv(source, tag, what)
        if rv.send is not None and self._group.world.mode['copy'] == 'early':
            m.put(self._take(rv))
            return Request(self, lambda: True, lambda: None, what)
        return Request(self, lambda: rv.send is not None, lambda: m.put(self._take(rv)), what)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        what = 'recv from %d' % source
        self._point(what)
        rv = self._recv(source, tag, what)
        if rv.send is None:
            self._group.world.switch(self._wrank, lambda: rv.send is not None, what)
        d = self._take(rv)
        if status is not None:
            status.source, status.tag, status.count = rv.send.src, rv.send.tag, len(d)
        return pickle.loads(d.tobytes())

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        what = 'irecv from %d' % source
        self._point(what)
        rv = self._recv(source, tag, what)
        return Request(self, lambda: rv.send is not None, lambda: pickle.loads(self._take(rv).tobytes()), what)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.Irecv(recvbuf, source, recvtag)
        s = self.Isend(sendbuf, dest, sendtag)
        s.Wait()
        r.Wait()

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.irecv(None, source, recvtag)
        s = self.isend(sendobj, dest, sendtag)
        s.wait()
        return r.wait()

    def Iprobe(self, *a, **k):
        raise Unsupported('Iprobe')

    Probe = iprobe = probe = Iprobe

    def unreceived(self):
        return sum(len(v) for v in self._group.mail.values())


class _CurrentWorld(object):
    """ MPI.COMM_WORLD: the world communicator of the rank that is running. """

    def _c(self):
        w = getattr(_local, 'world', None)
        if w is None:
            return _solo().comm(0)
        return w.comm(_local.rank)

    def __getattr__(self, name):
        return getattr(self._c(), name)

    def __eq__(self, o):
        if isinstance(o, _CurrentWorld):
            return True
        return self._c() == o

    def __hash__(self):
        return hash(self._c())


_solo_world = []


def _solo():
    """A world of one rank for code that runs outside any world."""
    if not _solo_world:
        w = World(1, horizon=10**9)
        w.state = ['run']
        _solo_world.append(w)
    return _solo_world[0]


def solo_comm():
    return _solo().comm(0)


class _CurrentSelf(_CurrentWorld):
    def _c(self):
        w = getattr(_local, 'world', None)
        if w is None:
            return _solo().comm(0)
        return w.new_group([_local.rank], key=('self', _local.rank)).view(_local.rank)


COMM_WORLD = _CurrentWorld()
COMM_SELF = _CurrentSelf()


def _addressof(x):
    if isinstance(x, _CurrentWorld):
        x = x._c()
    return id(x)


def _handleof(x):
    return _addressof(x)


def Wtime():
    """ a clock the harness owns: one tick per reading. """
    w = getattr(_local, 'world', None) or _solo()
    w.clock += 1.0
    return w.clock


def Wtick():
    return 1.0


def Is_initialized():
    return True


def Is_finalized():
    return False


def Get_processor_name():
    return 'vmpi'


def Init():
    pass


def Finalize():
    pass


def Get_library_version():
    return 'vmpi'


def Get_version():
    return (3, 1)


def module():
    """ the module object that stands in for mpi4py.MPI. """
    m = types.ModuleType('mpi4py.MPI')
    for k, v in list(globals().items()):
        if k.startswith('__') or k in ('numpy', 'pickle', 'sys', 'threading', 'types'):
            continue
        setattr(m, k, v)
    m.Exception = Exception_
    m.Intracomm = Comm
    m.Comm = Comm
    m.World_ = World
    return m


def install():
    """ import mpi4py now yields the simulation. """
    if 'mpi4py' in sys.modules and getattr(sys.modules['mpi4py'], '_vmpi', False):
        return
    assert 'mpi4py.MPI' not in sys.modules, 'the real mpi4py is loaded already'
    pkg = types.ModuleType('mpi4py')
    pkg.__path__ = []
    pkg._vmpi = True
    pkg.__version__ = '4.0.0'
    pkg.MPI = module()
    pkg.rc = types.SimpleNamespace(initialize=True, finalize=True, threads=True)
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = pkg.MPI
