"""C08: the optimised windows equal the generic ones; scaling by hsml equals resizing."""
import itertools

import numpy

from mc import lib, win

ID = 'C08'
RULE = ('states are (window, dimension, differentiation direction, support, hsml, canvas type, position): the optimised '
        'window against the generic one, and a window with hsml against the window resized, for painting and readout, on '
        'a lattice of positions')
ASSUMPTIONS = ['at the points where the derivative of the linear window jumps, the derivative is not compared']


def cases(tier):
    out = []
    for t in win.TUNED:
        for nd in (1, 2, 3, 4):
            for dt in ('f8', 'f4'):
                for dd in [None] + list(range(nd)):
                    for support in (-1, 1, 2, 3, 4, 5, 6, 8):
                        if nd == 4 and support not in (-1, 3):
                            continue
                        out.append(dict(kind='tuned', w=t, nd=nd, dt=dt, dd=dd, support=support, tier=tier))
                    if nd < 4:
                        out.append(dict(kind='small', w=t, nd=nd, dt=dt, dd=dd, support=-1, tier=tier))
    for w in win.ALL:
        for nd in (1, 2):
            for dd in [None] + list(range(nd)):
                out.append(dict(kind='hsml', w=w, nd=nd, dd=dd, tier=tier))
    return out


SH = {1: [7], 2: [5, 6], 3: [4, 5, 3], 4: [3, 2, 3, 2]}


# meshes smaller than the windows; particles some boxes away
SMALL = {1: [[1], [2], [3]], 2: [[1, 2], [2, 3], [3, 1]], 3: [[2, 1, 3], [1, 1, 1], [3, 2, 2]]}


def positions(nd, shape, step, off):
    ax = [numpy.arange(-.5 * n, 1.5 * n, step[min(d, len(step) - 1)]) + off for d, n in enumerate(shape)]
    g = numpy.stack(numpy.meshgrid(*ax, indexing='ij'), -1).reshape(-1, nd)
    return g


def field(shape, dt):
    n = int(numpy.prod(shape))
    return (((numpy.arange(n) * 37) % 101) / 16. - 3).astype(dt).reshape(shape)


def compare(R, key, A, B, pos, hA, hB, shape, dt, dd, T, singles):
    tol = 3e-6 if dt == 'f4' else 1e-12
    f = field(shape, dt)
    for i in singles:
        a, b = numpy.zeros(shape, dt), numpy.zeros(shape, dt)
        A.paint(a, pos[i:i + 1], hsml=None if hA is None else hA[i:i + 1], diffdir=dd, transform=T)
        B.paint(b, pos[i:i + 1], hsml=None if hB is None else hB[i:i + 1], diffdir=dd, transform=T)
        if not lib.close(a, b, 0, tol * max(1, abs(b).max())):
            R.violation(key + '/paint', 'painting a particle at %s differs: %s' % (pos[i].tolist(), lib.maxdiff(a, b)), a=a, b=b)
    R.step(2 * len(singles))
    va = A.readout(f, pos, hsml=hA, diffdir=dd, transform=T)
    vb = B.readout(f, pos, hsml=hB, diffdir=dd, transform=T)
    R.trace()
    R.nstates(len(pos))
    R.check(lib.close(va, vb, 0, tol * 10 * max(1, abs(vb).max())), key + '/readout', 'readout differs: ' + lib.maxdiff(va, vb))
    m = 1. + numpy.arange(len(pos)) % 5
    a, b = numpy.zeros(shape, dt), numpy.zeros(shape, dt)
    A.paint(a, pos, mass=m, hsml=hA, diffdir=dd, transform=T)
    B.paint(b, pos, mass=m, hsml=hB, diffdir=dd, transform=T)
    R.trace()
    R.check(lib.close(a, b, 0, tol * max(1, m.sum())), key + '/paint', 'painting all particles differs: ' + lib.maxdiff(a, b))
    R.outcome(key, lib.digest(numpy.round(vb, 6)))


def run(case, R):
    nd, dd = case['nd'], case['dd']
    shape = SH[nd]
    fine = case['tier'] != 'quick'
    if case['kind'] == 'small':
        t = case['w']
        A, B = win.window(t, -1), win.window(win.TUNED[t], -1)
        for shape in SMALL[nd]:
            ax = [numpy.arange(-4 * n - 1, 5 * n + 1, {1: 1 / 16., 2: .25 * n, 3: .75 * n}[nd]) + 1 / 64. for n in shape]
            pos = numpy.stack(numpy.meshgrid(*ax, indexing='ij'), -1).reshape(-1, nd)
            for sc in (None, [-1.5, .5, -2][:nd], [.125, -.25, 3.][:nd]):
                T = win.affine(nd, period=shape, scale=sc, translate=None if sc is None else [1, -1, 2][:nd])
                for h in (None, 1., 2.):
                    hs = None if h is None else numpy.full(len(pos), h)
                    compare(R, 'c08/%s/%dd/%s/small%s/diff%s/scale%s/hsml%s' % (t, nd, case['dt'], 'x'.join(map(str, shape)), dd, sc, h), A, B, pos, hs, hs,
                            shape, case['dt'], dd, T, range(0, len(pos), max(1, len(pos) // 200)))
        return
    if case['kind'] == 'tuned':
        t = case['w']
        g = win.TUNED[t]
        sup = case['support']
        A, B = win.window(t, sup), win.window(g, sup)
        R.check(A.support == B.support and A.nativesupport == B.nativesupport, 'c08/%s/support' % t, 'support %s / %s' % (A.support, B.support))
        off = 0 if dd is None else 1 / 64.
        step = {1: [1 / 16.], 2: [.25, .375], 3: [.5, .625, .75], 4: [1.0, .75]}[nd]
        if fine:
            step = [s / 2 for s in step]
        pos = positions(nd, shape, step, off)
        if nd > 2:
            pos = pos[::(len(pos) // (4000 if fine else 600)) + 1]
        for period, sc in ((shape, None), ([0] * nd, [2., .5, 1.5, 1.][:nd]), ([n + 3 for n in shape], None)):
            T = win.affine(nd, period=period, scale=sc, translate=None if sc is None else [1, -1, 2, 0][:nd])
            q = pos if sc is None else (pos - numpy.array([1, -1, 2, 0][:nd])) / numpy.array(sc)
            for h in (None, 1.0, .5, .75, 1.25, 2.0, 2 / 3., 1.5):
                if nd > 2 and h in (1.25, 2 / 3.):
                    continue
                hs = None if h is None else numpy.full(len(pos), h)
                if h is not None and (off or nd <= 2):
                    # ends of the scaled window: ties of the nearest and the derivative windows
                    w = A.support * h
                    gg = pos * 2
                    tie = (numpy.abs((gg - w) % 2) < 1e-9).any(axis=1) | (numpy.abs((gg - w + 1e-9) % 2) < 1e-9).any(axis=1) \
                        if (g == 'nearest' or (dd is not None and g == 'linear')) else numpy.zeros(len(pos), '?')
                    qq, hh = q[~tie], hs[~tie]
                elif g == 'nearest' and h is not None and h != 1.0:
                    qq, hh = q + 1 / 64., hs
                else:
                    qq, hh = q, hs
                compare(R, 'c08/%s/%dd/%s/diff%s/support%s/hsml%s' % (t, nd, case['dt'], dd, sup, h), A, B, qq, hh, hh, shape,
                        case['dt'], dd, T, range(0, len(qq), max(1, len(qq) // 60)))
    else:
        w = case['w']
        W = win.window(w)
        pos = positions(nd, shape, {1: [1 / 16.], 2: [.375, .75]}[nd], 1 / 64.)
        T = win.affine(nd, period=shape)
        for sup in (2, 3, 4, 6, 9):
            base = W.support
            r = W.resize(sup)
            R.check(r.support == sup and r.nativesupport == W.nativesupport and W.support == base, 'c08/%s/resize' % w, 'resize(%d) gives support %s' % (sup, r.support))
            # hsml that is exact
            for b in (-1, 2 * sup):
                X = W if b == -1 else W.resize(b)
                h = sup / float(X.support)
                if h * X.support != sup:
                    continue
                hs = numpy.full(len(pos), h)
                compare(R, 'c08/%s/%dd/diff%s/hsml%s' % (w, nd, dd, h), X, r, pos, hs, None, shape, 'f8', dd, T, range(0, len(pos), 7))
        # resizing to the own support changes nothing
        compare(R, 'c08/%s/%dd/diff%s/same' % (w, nd, dd), W, W.resize(W.support), pos, None, numpy.ones(len(pos)), shape, 'f8', dd, T,
                range(0, len(pos), 7))
        # hsml per particle
        hs = numpy.array([1.0, 2.0, .5, 1.5])[numpy.arange(len(pos)) % 4]
        f = field(shape, 'f8')
        v = W.readout(f, pos, hsml=hs, diffdir=dd, transform=T)
        for h in (1.0, 2.0, .5, 1.5):
            m = hs == h
            R.check(lib.close(v[m], W.readout(f, pos[m], hsml=h, diffdir=dd, transform=T), 0, 1e-12), 'c08/%s/each' % w, 'hsml per particle')
