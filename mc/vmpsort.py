"""
A stand-in for mpsort on the simulated MPI: sort, permute and take have the
interface and the meaning of the real library (bound to it by mc/conformance.py);
the exchange is one collective.
"""
import sys
import types

import numpy


def _arr(x):
    if isinstance(x, numpy.flatiter):
        return numpy.array(x)
    return numpy.asarray(x)


def _c(comm):
    return comm._c() if hasattr(comm, '_c') else comm


def sort(source, orderby=None, out=None, comm=None, tuning=[]):
    data = _arr(source)
    if isinstance(orderby, str):
        key = data[orderby]
    elif orderby is None:
        key = data
    else:
        key = _arr(orderby)
    if len(key) != len(data):
        raise ValueError('orderby and source differ in length')
    if key.dtype.kind not in 'iu':
        raise TypeError('only integer keys are supported')
    dest = source if out is None else out
    n = len(dest)

    def compute(d):
        ranks = sorted(d)
        if sum(len(d[r][0]) for r in ranks) != sum(d[r][2] for r in ranks):
            return {r: None for r in ranks}
        D = numpy.concatenate([d[r][0] for r in ranks])
        K = numpy.concatenate([d[r][1] for r in ranks])
        D = D[numpy.argsort(K, kind='stable')]
        res, off = {}, 0
        for r in ranks:
            res[r] = D[off:off + d[r][2]].copy()
            off += d[r][2]
        return res
    res = _c(comm)._coll(('mpsort.sort',), (data.copy(), key.copy(), n), compute)
    if res is None:
        raise ValueError('total length of source and out differ')
    dest[...] = res
    return dest


def _dtype(a):
    return (a.base if isinstance(a, numpy.flatiter) else a).dtype


def permute(source, argindex, comm, out=None):
    data, arg = _arr(source), _arr(argindex)
    if out is None:
        out = numpy.empty(len(arg), dtype=_dtype(source))

    def compute(d):
        ranks = sorted(d)
        D = numpy.concatenate([d[r][0] for r in ranks])
        A = numpy.concatenate([d[r][1] for r in ranks]) if ranks else None
        if len(D) != len(A):
            return {r: None for r in ranks}
        # only the order of the indices matters to mpsort
        order = numpy.empty(len(A), 'intp')
        order[numpy.argsort(A, kind='stable')] = numpy.arange(len(A))
        res, off = {}, 0
        for r in ranks:
            res[r] = D[order[off:off + len(d[r][1])]]
            off += len(d[r][1])
        return res
    res = _c(comm)._coll(('mpsort.permute',), (data.copy(), arg.copy()), compute)
    if res is None:
        raise ValueError('Global size of source and argindex is different')
    out[...] = res
    return out


def take(source, argindex, comm, out=None):
    data, arg = _arr(source), _arr(argindex)
    if out is None:
        out = numpy.empty(len(arg), dtype=_dtype(source))

    def compute(d):
        ranks = sorted(d)
        D = numpy.concatenate([d[r][0] for r in ranks])
        A = numpy.concatenate([d[r][1] for r in ranks])
        if len(A) and (A.min() < 0 or A.max() >= len(D)):
            return {r: None for r in ranks}
        return {r: D[d[r][1].astype('intp')] for r in ranks}
    res = _c(comm)._coll(('mpsort.take',), (data.copy(), arg.copy()), compute)
    if res is None:
        raise IndexError('argindex out of bounds')
    out[...] = res
    return out


def install():
    m = types.ModuleType('mpsort')
    m.sort, m.permute, m.take = sort, permute, take
    m.__version__ = '0.1.19'
    sys.modules['mpsort'] = m
