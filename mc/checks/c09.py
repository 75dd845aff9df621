"""C09: readout is the adjoint of paint, for every window."""
import itertools

import numpy

from mc import lib, win
from .c08 import SH, field, positions

ID = 'C09'
RULE = ('states are (window, dimension, period, scale, canvas type, differentiation, hsml, position, cell): painting one '
        'particle gives the weights of its cells, reading that particle from each unit field gives the weights again')
ASSUMPTIONS = ['paint and readout are linear in the canvas (also checked here, on a spanning set)']


def cases(tier):
    out = []
    for w in win.ALL:
        for nd in (1, 2, 3):
            for dt in ('f8', 'f4', 'c16'):
                if dt == 'c16' and nd != 2:
                    continue
                for dd in [None] + list(range(nd)):
                    if nd == 3 and dd == 1 and tier == 'quick':
                        continue
                    out.append(dict(w=w, nd=nd, dt=dt, dd=dd, tier=tier))
    return out


def run(case, R):
    w, nd, dt, dd = case['w'], case['nd'], case['dt'], case['dd']
    shape = SH[nd]
    W = win.window(w)
    tol = 1e-5 if dt in ('f4', 'c8') else 1e-12
    if nd == 3 and W.support > 6:
        sup = 4
        W = W.resize(sup)
    step = {1: [1 / 8.], 2: [.75, .625], 3: [1.25, 1.5, 1.0]}[nd]
    if case['tier'] != 'quick':
        step = [s / 2 for s in step]
    pos = positions(nd, shape, step, 1 / 128.)
    pos = pos[::max(1, len(pos) // (80 if case['tier'] == 'quick' else 400))]
    n = int(numpy.prod(shape))
    for period, sc, h in ((shape, None, None), ([0] * nd, [2., .5, 1.5][:nd], None), ([k + 2 for k in shape], None, 1.5),
                          (shape, [-1.0, 1.0, 3.0][:nd], .75)):
        T = win.affine(nd, period=period, scale=sc, translate=None if sc is None else [1, -1, 2][:nd])
        q = pos if sc is None else (pos - numpy.array([1, -1, 2][:nd])) / numpy.array(sc)
        hs = None if h is None else numpy.full(len(q), h)
        key = 'c09/%s/%dd/%s/diff%s/%s/hsml%s' % (w, nd, dt, dd, 'open' if period[0] == 0 else 'per', h)
        P = numpy.zeros((len(q), n))
        for i in range(len(q)):
            a = numpy.zeros(shape, dt)
            W.paint(a, q[i:i + 1], hsml=None if hs is None else hs[i:i + 1], diffdir=dd, transform=T)
            P[i] = a.real.ravel()
            if dt == 'c16':
                R.check((a.imag == 0).all(), key + '/imag', 'painting touched the imaginary part')
        V = numpy.zeros((len(q), n))
        cells = range(n)
        for c in cells:
            e = numpy.zeros(n, dt)
            e[c] = 1
            V[:, c] = W.readout(e.reshape(shape), q, hsml=hs, diffdir=dd, transform=T)
        R.step(len(q) + n)
        R.trace()
        R.nstates(len(q) * n)
        R.check(lib.close(V, P, 0, tol * max(1, abs(P).max())), key, 'readout of unit fields and paint differ: ' + lib.maxdiff(V, P))
        # linear: many particles, any field
        f = field(shape, 'f8').astype(dt)
        m = (numpy.arange(len(q)) % 9) - 2.5
        a = numpy.zeros(shape, dt)
        W.paint(a, q, mass=m, hsml=hs, diffdir=dd, transform=T)
        v = W.readout(f, q, hsml=hs, diffdir=dd, transform=T)
        left, right = float((a.real.astype('f8') * f.real).sum()), float((v * m).sum())
        S = float(abs(P).sum() * abs(f).max() * 7)
        R.check(abs(left - right) <= tol * S, key + '/inner', '<paint(m), f> = %r, <m, readout(f)> = %r' % (left, right))
        R.check(lib.close(v, P.dot(f.real.ravel().astype('f8')), 0, tol * S), key + '/linear', 'readout is not linear in the field')
        R.outcome(key, lib.digest(numpy.round(P, 5)))
