"""Reference for the resampling windows: kernels by their definition, painting by brute force."""
import itertools

import numpy

POLY = {'nearest': 1, 'linear': 2, 'quadratic': 3, 'cubic': 4}
TUNED = {'tunednnb': 'nearest', 'tunedcic': 'linear', 'tunedtsc': 'quadratic', 'tunedpcs': 'cubic'}
TABLES = ['lanczos2', 'lanczos3', 'lanczos4', 'lanczos5', 'lanczos6', 'acg2', 'acg3', 'acg4', 'acg5', 'acg6',
          'db6', 'db12', 'db20', 'sym6', 'sym12', 'sym20']
ALL = list(POLY) + list(TUNED) + TABLES


def kernel(kind, x):
    """W(x), x in units in which the window has its native support"""
    kind = TUNED.get(kind, kind)
    x = numpy.abs(numpy.asarray(x, 'f8'))
    if kind == 'nearest':
        return numpy.where(x < .5, 1.0, 0.0)
    if kind == 'linear':
        return numpy.where(x < 1, 1 - x, 0)
    if kind == 'quadratic':
        return numpy.where(x <= .5, .75 - x * x, numpy.where(x < 1.5, .5 * (1.5 - x) ** 2, 0))
    if kind == 'cubic':
        return numpy.where(x < 1, (4 - 6 * x ** 2 + 3 * x ** 3) / 6, numpy.where(x < 2, (2 - x) ** 3 / 6, 0))
    raise KeyError(kind)


def dkernel(kind, x):
    kind = TUNED.get(kind, kind)
    x = numpy.asarray(x, 'f8')
    s = numpy.sign(x)
    x = numpy.abs(x)
    if kind == 'nearest':
        return numpy.zeros(x.shape)
    if kind == 'linear':
        return numpy.where(x < 1, -s, 0)
    if kind == 'quadratic':
        return s * numpy.where(x <= .5, -2 * x, numpy.where(x < 1.5, -(1.5 - x), 0))
    if kind == 'cubic':
        return s * numpy.where(x < 1, -2 * x + 1.5 * x ** 2, numpy.where(x < 2, -.5 * (2 - x) ** 2, 0))
    raise KeyError(kind)


NATIVE = dict(POLY)
NATIVE.update({t: POLY[k] for t, k in TUNED.items()})
NATIVE.update({'lanczos%d' % n: 2 * n for n in range(2, 7)})
NATIVE.update({'acg%d' % n: n for n in range(2, 7)})
NATIVE.update(db6=7, db12=10, db20=13, sym6=7, sym12=10, sym20=12)
_wavelets = {}


def scaling(name):
    """the scaling function of an orthogonal wavelet by the cascade of its filter, from the first point above 2e-3 on"""
    if name not in _wavelets:
        import json
        import os
        h = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'filters.json')))[name]
        v = numpy.array([1.0])
        for _ in range(8):
            u = numpy.zeros(2 * len(v) - 1)
            u[::2] = v
            v = numpy.convolve(u, h)
        v = numpy.concatenate([[0], v * 16, numpy.zeros(64)])
        v = (v[1:] + v[:-1]) / 2
        i = numpy.nonzero(abs(v) >= 2e-3)[0][0]
        n = NATIVE[name] * 256 + 4
        t = numpy.zeros(n)
        t[:len(v[i:i + n])] = v[i:i + n]
        _wavelets[name] = t
    return _wavelets[name]


def table(name, x):
    """the windows that are tabulated, by their definition; zero outside of the support"""
    x = numpy.asarray(x, 'f8')
    half = NATIVE[name] / 2.0
    inside = (x >= -half) & (x < half)
    if name.startswith('lanczos'):
        f = lambda x, n=int(name[7:]): numpy.sinc(x) * numpy.sinc(x / n)
    elif name.startswith('acg'):
        n = int(name[3:])
        G = lambda t: numpy.exp(-.25 * t ** 2)
        e = G(n / 2.0) / (G(n / 2.0) + G(1.5 * n))
        f = lambda x: G(x) - e * (G(x + n) + G(x - n))
    else:
        t = scaling(name)
        return numpy.where(inside, numpy.interp((x + half) * 256, numpy.arange(len(t)), t), 0)
    if name not in _wavelets:
        q = (numpy.arange(200000) + .5) / 200000 * half
        _wavelets[name] = 2 * f(q).mean() * half
    return numpy.where(inside, f(x) / _wavelets[name], 0)


def dtable(name, x):
    """the derivative of the windows that are tabulated; the wavelets are polygons"""
    x = numpy.asarray(x, 'f8')
    half = NATIVE[name] / 2.0
    inside = (x >= -half) & (x < half)
    if name[:3] in ('lan', 'acg'):
        table(name, 0)
        n = int(name[7:] if name[0] == 'l' else name[3:])
        with numpy.errstate(all='ignore'):
            if name[0] == 'l':
                ds = lambda t: numpy.where(abs(t) < 1e-6, 0, numpy.cos(numpy.pi * t) / t - numpy.sin(numpy.pi * t) / (numpy.pi * t * t))
                d = ds(x) * numpy.sinc(x / n) + numpy.sinc(x) * ds(x / n) / n
            else:
                G = lambda t: numpy.exp(-.25 * t ** 2)
                D = lambda t: -.5 * t * G(t)
                e = G(n / 2.0) / (G(n / 2.0) + G(1.5 * n))
                d = D(x) - e * (D(x + n) + D(x - n))
        return numpy.where(inside, d / _wavelets[name], 0)
    t = scaling(name)
    i = numpy.floor((x + half) * 256).astype(int).clip(0, len(t) - 2)
    return numpy.where(inside, (t[i + 1] - t[i]) * 256, 0)


def weights(kind, g, ncell, period, width=1.0, diff=None):
    """
    weight of every cell of a canvas of `ncell` cells for a particle at grid coordinate g.
    period 0: open.  width: support in units of the native support.
    diff: None, or the scale of the axis that is differentiated.
    """
    native = NATIVE[kind]
    half = native * width / 2.0
    n = numpy.arange(int(numpy.floor(g - half)) - 1, int(numpy.ceil(g + half)) + 2)
    if diff is None:
        w = (table if kind in TABLES else kernel)(kind, (g - n) / width) / width
    else:
        w = (dtable if kind in TABLES else dkernel)(kind, (g - n) / width) / width ** 2 * diff
    out = numpy.zeros(ncell)
    if period:
        n = n % period
    m = (n >= 0) & (n < ncell)
    numpy.add.at(out, n[m], w[m])
    return out


def paint_one(kind, g, shape, period, width=1.0, diffdir=None, scale=None):
    ws = [weights(kind, g[d], shape[d], period[d], width, None if diffdir != d else scale[d]) for d in range(len(shape))]
    out = ws[0]
    for w in ws[1:]:
        out = numpy.multiply.outer(out, w)
    return out


def window(kind, support=-1, rank=0):
    from . import env
    return env.mod('window', rank).ResampleWindow(kind, support)


def affine(ndim, rank=0, **kw):
    from . import env
    return env.mod('window', rank).Affine(ndim, **kw)
