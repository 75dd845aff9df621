"""C11: diffdir gives the derivative of the window with respect to the position."""
import numpy

from mc import lib, win
from .c08 import SH, field, positions

ID = 'C11'
RULE = ('states are (window, dimension, direction, scale, hsml, canvas type, position): all windows against the derivative of '
        'their formula or table; all windows against the difference quotient of the window itself')
ASSUMPTIONS = ['tabulated windows are compared with a difference quotient across their tables, to the accuracy of the tables',
               'points where the derivative jumps are left out']


def cases(tier):
    out = []
    for w in list(win.POLY) + list(win.TUNED):
        for nd in (1, 2, 3, 4):
            if nd == 4 and tier == 'quick' and w in win.POLY:
                continue
            for dt in ('f8', 'f4'):
                out.append(dict(kind='exact', w=w, nd=nd, dt=dt, tier=tier))
    for w in win.TABLES:
        for nd in (1, 2, 3):
            out.append(dict(kind='exact', w=w, nd=nd, dt='f8', tier=tier))
    for w in win.ALL:
        for nd in (1, 2, 3):
            out.append(dict(kind='quotient', w=w, nd=nd, tier=tier))
    return out


def run(case, R):
    w, nd = case['w'], case['nd']
    shape = SH[nd]
    if case['kind'] == 'exact':
        dt = case['dt']
        tol = 5e-4 if w in win.TABLES else 1e-5 if dt == 'f4' else 1e-12
        # between the points of the tables, also with a width of 1.5 or 2
        pos = positions(nd, shape, {1: [1 / 16.], 2: [.375, .5], 3: [.75, 1.0, .75], 4: [1.5]}[nd], 5 / 1024. if w in win.TABLES else 1 / 128.)
        pos = pos[::max(1, len(pos) // (200 if w not in win.TABLES else 40 if nd == 3 else 100))]
        W = win.window(w)
        native = win.NATIVE[w]
        for sc, h, sup in ((None, None, -1), ([2., .5, 3., 1.][:nd], None, -1), ([.25, 4., 1., 1.][:nd], 1.5, -1),
                           ([3., 1., .5, 2.][:nd], None, 2 * native), ([-2., 1., 1., 1.][:nd], None, -1)):
            W2 = W if sup == -1 else W.resize(sup)
            width = (1.0 if h is None else h) * (1 if sup == -1 else 2)
            s = numpy.ones(nd) if sc is None else numpy.array(sc)
            T = win.affine(nd, period=shape, scale=sc, translate=[1, -1, 0, 2][:nd])
            q = (pos - numpy.array([1, -1, 0, 2][:nd])) / s
            f = field(shape, dt)
            for dd in range(nd):
                key = 'c11/%s/%dd/%s/diff%d/scale%s/width%s' % (w, nd, dt, dd, sc, width)
                v = W2.readout(f, q, hsml=h, diffdir=dd, transform=T)
                ref = numpy.zeros(len(q))
                for i in range(len(q)):
                    p = win.paint_one(w, pos[i], shape, shape, width, dd, s)
                    ref[i] = (p * f).sum()
                    if i % 5 == 0 or nd == 1:
                        a = numpy.zeros(shape, dt)
                        W2.paint(a, q[i:i + 1], hsml=h, diffdir=dd, transform=T)
                        R.step()
                        R.check(lib.close(a, p, 0, tol * 10 * max(1, abs(s).max())), key + '/paint', 'gradient painting at %s: %s' % (pos[i].tolist(), lib.maxdiff(a, p)))
                R.trace()
                R.nstates(len(q))
                R.check(lib.close(v, ref, 0, tol * (200 if w not in win.TABLES else 40 * max(1, abs(s[dd])))), key + '/readout', 'gradient readout: ' + lib.maxdiff(v, ref))
                R.outcome(key, lib.digest(numpy.round(ref, 5)))
    else:
        W = win.window(w)
        if nd == 3 and W.support > 6:
            W = W.resize(5)
        if nd == 2 and W.support > 9:
            W = W.resize(7)
        e = 1 / 64. if w not in win.POLY and w not in win.TUNED else 1 / 4096.
        pos = positions(nd, shape, {1: [1 / 8.], 2: [.375, .75], 3: [1.25, 1.5, 1.]}[nd], 1 / 32. + 1 / 256.)
        pos = pos[::max(1, len(pos) // 150)]
        if W.support != W.nativesupport:
            e *= 2
        for sc in (None, [2., .5, 3.][:nd]):
            s = numpy.ones(nd) if sc is None else numpy.array(sc)
            T = win.affine(nd, period=shape, scale=sc)
            q = pos / s
            f = field(shape, 'f8')
            for dd in range(nd):
                key = 'c11/%s/%dd/diff%d/scale%s/quotient' % (w, nd, dd, sc)
                d = numpy.zeros(nd)
                d[dd] = e / s[dd]
                num = (W.readout(f, q + d, transform=T) - W.readout(f, q - d, transform=T)) / (2 * e / s[dd])
                v = W.readout(f, q, diffdir=dd, transform=T)
                R.trace(3)
                R.nstates(len(q))
                scale = abs(num).max() + 1e-9
                err = abs(v - num)
                if w in win.POLY or w in win.TUNED:
                    bad = err > 2e-3 * max(scale, s[dd])
                    R.check(not bad.any(), key, 'gradient %s, difference quotient %s' % (v[bad][:2], num[bad][:2]))
                elif w[:3] in ('acg', 'lan'):
                    R.check(numpy.sqrt((err ** 2).mean()) < .02 * numpy.sqrt((num ** 2).mean()), key,
                            'gradient off by %g of %g' % (numpy.sqrt((err ** 2).mean()), numpy.sqrt((num ** 2).mean())))
                else:
                    R.check(numpy.sqrt((err ** 2).mean()) < .5 * numpy.sqrt((num ** 2).mean()), key,
                            'gradient off by %g of %g' % (numpy.sqrt((err ** 2).mean()), numpy.sqrt((num ** 2).mean())))
                R.outcome(key, lib.digest(numpy.round(num, 2)))
