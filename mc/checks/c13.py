"""C13: the Fourier window is the transform of the painting window, and compensation divides by it."""
import itertools

import numpy

from mc import lib, win

ID = 'C13'
RULE = ('states are (window, support, frequency, form of the argument): frequencies on a lattice over several periods and '
        'next to zero, for all windows and supports; against the analytic transform of the B-spline and against the '
        'transform of weights painted on a lattice of offsets; compensation on slabs of all dimensions')
ASSUMPTIONS = ['windows without an implemented transform return one, as documented']


def cases(tier):
    return [dict(w=w, support=s, tier=tier) for w in win.ALL for s in
            ([-1, 1, 2, 3, 4, 5, 6, 7, 8, 12] if tier == 'quick' else [-1] + list(range(1, 25)))]


def reference(w, native, support):
    x = w * support / (2.0 * native)
    with numpy.errstate(all='ignore'):
        s = numpy.where(abs(x) < 1e-4, 1 - x ** 2 / 6 + x ** 4 / 120, numpy.sin(x) / numpy.where(x == 0, 1, x))
    return s ** native


def run(case, R):
    kind, sup = case['w'], case['support']
    W = win.window(kind, sup)
    key = 'c13/%s/support%d' % (kind, sup)
    n = 64 if case['tier'] == 'quick' else 512
    w = numpy.concatenate([numpy.arange(-5 * n, 5 * n + 1) * (numpy.pi / n), [1e-9, -1e-9, 1e-6, 1e-5, 2e-5, -1e-4, 1e-3, 50., -77.]])
    T = W.get_fwindow(w)
    R.step()
    R.trace()
    R.nstates(len(w))
    base = win.TUNED.get(kind, kind)
    if base in win.POLY:
        native = win.POLY[base]
        s = W.support
        R.check(s == (native if sup == -1 else sup), key + '/support', 'support is %s' % s)
        want = reference(w, native, s)
        if not lib.close(T, want, 0, 1e-12):
            R.violation(key, 'window of frequency differs: %s' % lib.maxdiff(T, want), w=w[numpy.argmax(abs(T - want))])
        R.check(T[w == 0][0] == 1, key + '/zero', 'the window of the zero mode is %r' % T[w == 0][0])
        # transform of what is painted: for every offset x of a particle the mesh holds K(j - x)
        m = 128
        mesh = 4 * s + 4
        c = mesh // 2
        x = c + (numpy.arange(m) + .5) / m
        P = win.affine(1, period=mesh)
        j = numpy.arange(mesh)
        freq = numpy.arange(0, 33) * (2 * numpy.pi / 32)
        num = numpy.zeros(len(freq))
        for xi in x:
            real = numpy.zeros(mesh)
            W.paint(real, numpy.array([[xi]]), transform=P)
            R.step()
            num += (real[None, :] * numpy.cos(freq[:, None] * (j[None, :] - xi))).sum(axis=1) / m
        got = W.get_fwindow(freq)
        R.trace()
        R.nstates(m)
        if not lib.close(got, num, 0, 6e-3):
            R.violation(key + '/painted', 'differs from the transform of the painted weights: %s' % lib.maxdiff(got, num))
    else:
        R.check((T == 1).all(), key, 'a window that is not implemented is not one')
    # forms
    for a in (w.astype('f4'), w[::2], w[::-1], w[:12].reshape(3, 4), w[:8].reshape(2, 2, 2).transpose(2, 0, 1), w[:0], w[:6].tolist()):
        got = W.get_fwindow(a)
        R.check(numpy.shape(got) == numpy.shape(a), key + '/form', 'shape %s from %s' % (numpy.shape(got), numpy.shape(a)))
        want = W.get_fwindow(numpy.array(numpy.ravel(a), 'f8')).reshape(numpy.shape(a))
        R.check(numpy.array_equal(got, want), key + '/form', 'value depends on the form of the argument')
        R.step()
    for a in (0.0, 1.5, numpy.float32(.5), 2):
        got = W.get_fwindow(a)
        R.check(numpy.shape(got) == () and float(got) == W.get_fwindow(numpy.array([float(a)]))[0], key + '/scalar', 'scalar argument')
    # compensation
    for nd in (1, 2, 3):
        ws = [(numpy.fft.fftfreq(k) * 2 * numpy.pi).reshape([-1 if e == d else 1 for e in range(nd)]) for d, k in enumerate([5, 4, 3][:nd])]
        v = (numpy.arange(1., 61)[:int(numpy.prod([5, 4, 3][:nd]))] * (1 + .5j)).reshape([5, 4, 3][:nd])
        tf = 1.0
        for wi in ws:
            tf = tf * W.get_fwindow(numpy.ravel(wi)).reshape(wi.shape)
        vv = v.copy()
        with numpy.errstate(all='ignore'):
            got = W.get_compensation()(ws, vv)
            ok = abs(tf) > 1e-12
            R.check(numpy.allclose((got * tf)[numpy.broadcast_to(ok, v.shape)], v[numpy.broadcast_to(ok, v.shape)], rtol=1e-12, atol=0), key + '/compensation', 'compensation is not the division by the window')
        R.check((vv == v).all(), key + '/compensation', 'compensation changes its argument')
        R.step()
    R.outcome(kind, sup, lib.digest(numpy.round(T, 9)))
