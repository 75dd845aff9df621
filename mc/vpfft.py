"""
A stand-in for pfft-python on the simulated MPI: the same block partitions and
memory orders as PFFT (bound to the real library by mc/conformance.py), with the
transform of the assembled array done by numpy.

Memory that nobody wrote holds NaN, and the input of a plan with
PFFT_DESTROY_INPUT holds NaN after execution, so reading either is visible.
"""
import enum
import sys
import types
import weakref

import numpy

# what i_edges/o_edges say about the padded last axis: 'logical' (pfft-python
# >= 0.1.15, which pm.py is written for) or 'padded' (0.1.12)
EDGES = 'logical'


class Flags(enum.IntFlag):
    PFFT_TRANSPOSED_NONE = 0
    PFFT_TRANSPOSED_IN = 1
    PFFT_TRANSPOSED_OUT = 2
    PFFT_SHIFTED_NONE = 0
    PFFT_SHIFTED_IN = 4
    PFFT_SHIFTED_OUT = 8
    PFFT_MEASURE = 0
    PFFT_ESTIMATE = 16
    PFFT_PATIENT = 32
    PFFT_EXHAUSTIVE = 64
    PFFT_NO_TUNE = 0
    PFFT_TUNE = 128
    PFFT_PRESERVE_INPUT = 256
    PFFT_DESTROY_INPUT = 512
    PFFT_BUFFERED_INPLACE = 1024
    PFFT_PADDED_R2C = 2048
    PFFT_PADDED_C2R = 2048


class Type(enum.IntEnum):
    PFFT_C2C = 0
    PFFT_R2C = 1
    PFFT_C2R = 2
    PFFT_R2R = 3
    PFFTF_C2C = 4
    PFFTF_R2C = 5
    PFFTF_C2R = 6
    PFFTF_R2R = 7


class Direction(enum.IntEnum):
    PFFT_FORWARD = -1
    PFFT_BACKWARD = 1


def split_size_2d(s):
    """two factors of s, as the real one gives for s <= 16"""
    a = int(s ** 0.5) + 1
    s = int(s)
    while a > 1:
        if s % a == 0:
            return [a, s // a]
        a -= 1
    return [1, s]


def track():
    """ from now on the communicators, plans and memory that are made are noted: {'kind': [(rank, weak reference)]} """
    global _tracked
    _tracked = dict(ProcMesh=[], Plan=[], memory=[])
    return _tracked


_tracked = None


def _note(kind, rank, o):
    if _tracked is not None:
        _tracked[kind].append((rank, weakref.ref(o)))


class ProcMesh(object):
    created = 0

    def __init__(self, np, comm=None):
        from . import vmpi
        if comm is None:
            comm = vmpi.COMM_WORLD
        c = comm._c() if hasattr(comm, '_c') else comm
        self.comm = comm
        self.np = numpy.array(np, dtype='int32').reshape(-1)
        self.ndim = len(self.np)
        self.rank = c.rank
        if int(numpy.prod(self.np)) != c.size:
            raise RuntimeError('Failed to create proc mesh')
        # creating the cartesian communicator is collective
        c._coll(('ProcMesh', tuple(int(x) for x in self.np)), None, lambda d: {r: None for r in d})
        self._c = c
        this = numpy.unravel_index(c.rank, self.np) if self.ndim else ()
        self.this = numpy.array(this, dtype='int32').reshape(-1)
        ProcMesh.created += 1
        _note('ProcMesh', c.rank, self)


def _blocks(n, p):
    b = -(-n // p) if n else 0
    return numpy.minimum(numpy.arange(p + 1) * b, n).astype('intp')


class Partition(object):
    def __init__(self, type, n, procmesh, flags):
        self.type = Type(int(type))
        self.n = numpy.array(n, dtype='intp')
        self.ndim = len(self.n)
        self.procmesh = procmesh
        self.flags = Flags(int(flags))
        nd, r = self.ndim, procmesh.ndim
        # (pfft-python 0.1.12 refuses r == nd, newer ones do not; the layout of the
        # output is then taken to be that of the input, in either order)
        if r > nd:
            raise ValueError('a process mesh of %d dimensions on a mesh of %d' % (r, nd))
        self.real = self.type in (Type.PFFT_R2C, Type.PFFTF_R2C, Type.PFFT_C2R, Type.PFFTF_C2R)
        single = int(self.type) >= 4
        self.cdtype = numpy.dtype('complex64' if single else 'complex128')
        self.idtype = numpy.dtype('f4' if single else 'f8') if self.real else self.cdtype
        transposed = bool(self.flags & Flags.PFFT_TRANSPOSED_OUT) and r < nd
        padded = bool(self.flags & Flags.PFFT_PADDED_R2C) and self.real
        on = self.n.copy()
        if self.real:
            on[-1] = self.n[-1] // 2 + 1
        self.on = on
        pi = [int(procmesh.np[d]) if d < r else 1 for d in range(nd)]
        ti = [int(procmesh.this[d]) if d < r else 0 for d in range(nd)]
        if transposed and r > 0:
            po = [1] + pi[:r] + [1] * (nd - r - 1)
            to = [0] + ti[:r] + [0] * (nd - r - 1)
            self.oorder = tuple(range(1, r + 1)) + (0,) + tuple(range(r + 1, nd))
        else:
            po, to = pi, ti
            self.oorder = tuple(range(nd))
        self.i_edges = [_blocks(int(n), p) for n, p in zip(self.n, pi)]
        self.o_edges = [_blocks(int(n), p) for n, p in zip(on, po)]
        self.local_i_start, self.local_i_shape = self._local(self.i_edges, ti)
        self.local_o_start, self.local_o_shape = self._local(self.o_edges, to)
        self.local_ni = self.local_i_shape.copy()
        self.local_no = self.local_o_shape.copy()
        if padded:
            self.local_ni[-1] = 2 * on[-1]
            if EDGES == 'padded':
                self.i_edges[-1] = self.i_edges[-1] * (2 * on[-1]) // self.n[-1]
        self.local_i_slice = tuple(slice(a, a + b) for a, b in zip(self.local_i_start, self.local_i_shape))
        self.local_o_slice = tuple(slice(a, a + b) for a, b in zip(self.local_o_start, self.local_o_shape))
        # bytes; the same for all partitions of a mesh (a buffer serves any of its fields)
        osz = int(numpy.prod(self.local_no)) * self.cdtype.itemsize
        isz = int(numpy.prod(self.local_ni)) * self.idtype.itemsize
        other = 1
        rank_shapes = []
        for pp, tt, nn in ((pi, ti, on), (po, to, on), (([1] + pi)[:nd], ([0] + ti)[:nd], on)) if r < nd else ((pi, ti, on),):
            e = [_blocks(int(n), p) for n, p in zip(nn, pp[:nd])]
            s, sh = self._local(e, tt[:nd])
            rank_shapes.append(int(numpy.prod(sh)) * self.cdtype.itemsize)
        self.nbytes = max([osz, isz, self.cdtype.itemsize] + rank_shapes)
        self.alloc_local = self.nbytes // self.cdtype.itemsize

    @staticmethod
    def _local(edges, this):
        start, shape = [], []
        for e, t in zip(edges, this):
            n = int(e[t + 1] - e[t])
            start.append(int(e[t]) if n else 0)
            shape.append(n)
        return numpy.array(start, 'intp'), numpy.array(shape, 'intp')


class LocalBuffer(object):
    def __init__(self, partition, base=None):
        self.partition = partition
        if base is None:
            n = -(-partition.nbytes // 16)
            mem = numpy.empty(n + 1, dtype='f8').repeat(2)
            mem[...] = numpy.nan
            off = (-mem.ctypes.data % 16) // 8
            self._mem = mem[off:off + 2 * n]
            _note("memory", partition.procmesh.rank, mem)
        else:
            base = getattr(base, '_base', base)
            if not isinstance(base, LocalBuffer):
                raise TypeError('base must be a LocalBuffer')
            self._mem = base._mem
            if self._mem.nbytes < partition.nbytes:
                raise ValueError('the base is too small for this partition')

    @property
    def address(self):
        return self._mem.ctypes.data

    def __contains__(self, other):
        return (self._mem.ctypes.data <= other._mem.ctypes.data
                and other._mem.ctypes.data + other._mem.nbytes <= self._mem.ctypes.data + self._mem.nbytes)

    def _view(self, dtype, shape, memshape, order):
        st = [0] * len(shape)
        acc = dtype.itemsize
        for d in reversed(order):
            st[d] = acc
            acc *= int(memshape[d])
        a = numpy.asarray(_Window(self, dtype, tuple(int(x) for x in shape), tuple(st)))
        return a

    def view_input(self):
        p = self.partition
        return self._view(p.idtype, p.local_i_shape, p.local_ni, tuple(range(p.ndim)))

    def view_output(self):
        p = self.partition
        return self._view(p.cdtype, p.local_o_shape, p.local_no, p.oorder)

    def view_raw(self, type=None):
        return self._mem.view(self.partition.cdtype)


class _Window(object):
    pass


def _window(buf, dtype, shape, strides):
    # the .base of the view is the LocalBuffer itself
    buf.__array_interface__ = dict(data=(buf._mem.ctypes.data, False), typestr=dtype.str, shape=shape,
                                   strides=strides, version=3)
    return buf


_Window = _window   # noqa


class Plan(object):
    executed = 0

    def __init__(self, partition, direction, i, o=None, type=None, flags=None):
        if o is None:
            o = i
        self.partition = partition
        self.direction = Direction(int(direction))
        self.type = partition.type if type is None else Type(int(type))
        self.flags = partition.flags if flags is None else Flags(int(flags))
        self.inplace = o._mem is i._mem
        c = partition.procmesh._c
        c._coll(('Plan', tuple(int(x) for x in partition.n), int(self.direction), int(self.type), int(self.flags)),
                None, lambda d: {r: None for r in d})
        _note('Plan', c.rank, self)
        # planning may overwrite the buffers
        if not (self.flags & Flags.PFFT_ESTIMATE):
            i._mem[...] = numpy.nan
            o._mem[...] = numpy.nan

    def execute(self, i, o=None):
        if o is None:
            o = i
        if not isinstance(i, LocalBuffer) or not isinstance(o, LocalBuffer):
            raise TypeError('execute needs LocalBuffers')
        if (i._mem is o._mem) != self.inplace:
            raise ValueError('plan made for %s execution' % ('in place' if self.inplace else 'out of place'))
        p = self.partition
        fwd = self.direction == Direction.PFFT_FORWARD
        bi, bo = LocalBuffer(p, i), LocalBuffer(p, o)
        src = bi.view_input() if fwd else bi.view_output()
        dst = bo.view_output() if fwd else bo.view_input()
        s0 = p.local_i_slice if fwd else p.local_o_slice
        d0 = p.local_o_slice if fwd else p.local_i_slice
        gshape = tuple(p.n) if fwd else tuple(p.on)
        payload = (s0, src.copy(), d0)
        real = p.real

        def compute(d):
            full = numpy.empty(gshape, dtype='f8' if (real and fwd) else 'c16')
            seen = numpy.zeros(gshape, dtype='i4')
            for r in d:
                full[d[r][0]] = d[r][1]
                seen[d[r][0]] += 1
            assert (seen == 1).all(), 'the partition does not tile the mesh'
            with numpy.errstate(all='ignore'):
                if real:
                    if fwd:
                        res = numpy.fft.rfftn(full)
                    else:
                        nd = full.ndim
                        t = full
                        for ax in range(nd - 1):
                            t = numpy.fft.ifft(t, axis=ax) * full.shape[ax]
                        res = numpy.fft.irfft(t, n=int(p.n[-1]), axis=-1) * int(p.n[-1])
                else:
                    res = numpy.fft.fftn(full) if fwd else numpy.fft.ifftn(full) * full.size
            return {r: res[d[r][2]].copy() for r in d}
        c = p.procmesh._c
        out = c._coll(('execute', tuple(int(x) for x in p.n), int(self.direction), int(self.flags)), payload, compute)
        if not self.inplace and self.flags & Flags.PFFT_DESTROY_INPUT:
            i._mem[...] = numpy.nan
        dst[...] = out
        Plan.executed += 1


def install():
    m = types.ModuleType('pfft')
    for k in ('Flags', 'Type', 'Direction', 'split_size_2d', 'ProcMesh', 'Partition', 'LocalBuffer', 'Plan'):
        setattr(m, k, globals()[k])
    m.__version__ = '0.1.21'
    sys.modules['pfft'] = m
