"""C07: painting deposits the weights of the window's definition, and conserves mass."""
import itertools

import numpy

from mc import env, lib, win

ID = 'C07'
RULE = ('states are (window, dimension, canvas shape and type, period, scale, translation, size of the window, position) with '
        'positions on a lattice over two periods; every cell of the canvas is compared with the formula of the window, '
        'particle by particle and for all particles at once; the tabulated windows at offsets finer than their tables; all names of the windows')
ASSUMPTIONS = ['positions exactly on a boundary between cells may go to either cell with the nearest grid point window '
               '(judged for conservation only)']

CONF = {
    1: [dict(shape=[5], period=[5]), dict(shape=[1], period=[1]), dict(shape=[2], period=[2]), dict(shape=[6], period=[0]),
        dict(shape=[4], period=[9])],
    2: [dict(shape=[4, 3], period=[4, 3]), dict(shape=[3, 4], period=[0, 4]), dict(shape=[2, 5], period=[6, 5])],
    3: [dict(shape=[3, 4, 2], period=[3, 4, 2]), dict(shape=[2, 3, 4], period=[0, 0, 0]), dict(shape=[3, 2, 3], period=[5, 2, 3])],
    4: [dict(shape=[2, 3, 2, 2], period=[2, 3, 2, 2])],
}


def cases(tier):
    out = []
    for nd in (1, 2, 3, 4):
        for ci, c in enumerate(CONF[nd]):
            for kind in list(win.POLY) + list(win.TUNED):
                for dt in ('f8', 'f4', 'c16', 'c8'):
                    if nd == 4 and dt != 'f8':
                        continue
                    if dt in ('c16', 'c8') and ci:
                        continue
                    out.append(dict(nd=nd, c=ci, kind=kind, dt=dt, step=({1: 1 / 8., 2: .5, 3: .75, 4: 1.5}[nd]) if tier == 'quick'
                                    else {1: 1 / 32., 2: .25, 3: .5, 4: .75}[nd]))
    for kind in win.TABLES:
        for nd in (1, 2, 3):
            for dt in ('f8', 'f4'):
                out.append(dict(nd=nd, kind=kind, dt=dt, tables=True, n={1: 4100, 2: 12, 3: 4}[nd] if tier == 'quick' else {1: 33000, 2: 40, 3: 8}[nd]))
    out.append(dict(alias=True))
    return out


ALIAS = dict(NNB='tunednnb', CIC='tunedcic', TSC='tunedtsc', PCS='tunedpcs', NEAREST='nearest', LINEAR='linear', QUADRATIC='quadratic', CUBIC='cubic')


def aliases(R):
    W = env.mod('window')
    names = dict(ALIAS)
    names.update({t.upper(): t for t in win.TABLES})
    for name, kind in sorted(names.items()):
        forms = [('windows', W.windows[name]), ('windows', W.windows[name.lower()]), ('methods', W.methods[name]), ('methods', W.methods[name.lower()]),
                 ('attribute', getattr(W, name)), ('FindResampler', W.FindResampler(name)), ('FindResampler', W.FindResampler(name.lower())),
                 ('FindResampler of a window', W.FindResampler(W.ResampleWindow(kind))), ('support', W.ResampleWindow(kind, win.NATIVE[kind])),
                 ('resized', W.windows[name].resize(2 * win.NATIVE[kind]).resize(win.NATIVE[kind]))]
        for what, w in forms:
            key = 'c07/alias/%s/%s' % (name, what)
            R.check(w.support == w.nativesupport == win.NATIVE[kind], key, 'the support of %s is %s (%s)' % (name, w.support, w.nativesupport))
            for g in (10.15625, 13.71875, 2.40625):
                ref = win.weights(kind, g, 31, 31)
                real = numpy.zeros(31)
                w.paint(real, numpy.array([[g]]), transform=W.Affine(1, period=31))
                R.step()
                R.check(lib.close(real, ref, 0, 1e-6), key, 'a particle painted with %s at %s: %s' % (name, g, lib.maxdiff(real, ref)))
                R.nstates(1)
        R.trace()
        R.outcome('alias', name, kind)
    for bad in ('nosuch', '', 'cic ', 3, None):
        try:
            W.FindResampler(bad)
        except Exception:
            continue
        R.violation('c07/alias/bad', '%r names a window' % (bad,))


def tables(case, R):
    nd, kind, dt, n = case['nd'], case['kind'], case['dt'], case['n']
    S = win.NATIVE[kind]
    shape = [2 * S + 3, 3, 5][:nd] if nd > 1 else [2 * S + 3]
    sup = [-1, 2 * S] if kind[0] in 'la' or nd == 1 else [-1]
    for s, (sc, tr) in itertools.product(sup, [(1.0, 0.0), (2.0, -1.25)] if nd < 3 else [(2.0, -1.25)]):
        W = win.window(kind, s)
        width = 1.0 if s < 0 else 2.0
        A = win.affine(nd, scale=[sc] * nd, translate=[tr] * nd, period=shape)
        # one cell of offsets, finer than the tables; then the whole period
        ax = [(numpy.arange(n) + .37) / n + S // 2] + [(numpy.arange(n) + .41 + d) * shape[d] / n for d in range(1, nd)]
        g = numpy.stack(numpy.meshgrid(*ax, indexing='ij'), -1).reshape(-1, nd)
        far = numpy.array([[m * .8125 + .013 + d for d in range(nd)] for m in range(-2 * S, 6 * S)])
        g = numpy.concatenate([g, far])
        pos = (g - tr) / sc
        key = 'c07/%s/%dd/%s/support%s' % (kind, nd, dt, s)
        tol = 2e-6
        ok = True
        for i in range(len(g)):
            ref = win.paint_one(kind, g[i], shape, shape, width)
            real = numpy.zeros(shape, dt)
            W.paint(real, pos[i:i + 1], transform=A)
            if ok and not lib.close(real, ref, 0, tol):
                R.violation(key, 'a particle at grid coordinate %s: %s' % (g[i].tolist(), lib.maxdiff(real, ref)))
                ok = False
        R.step(len(g))
        R.nstates(len(g))
        R.trace(len(g))
        R.outcome(key, lib.digest(numpy.round(real, 5)))


def run(case, R):
    if case.get('alias'):
        return aliases(R)
    if case.get('tables'):
        return tables(case, R)
    nd, kind, dt = case['nd'], case['kind'], case['dt']
    conf = CONF[nd][case['c']]
    shape, period = conf['shape'], conf['period']
    native = win.POLY[win.TUNED.get(kind, kind)]
    tol = 2e-6 if dt in ('f4', 'c8') else 1e-13
    scales = [None, [2.0, .5, 1.25, 1.0][:nd]]
    translates = [None, [1, -2, 3, 0][:nd], [.25, .5, -.125, 0][:nd]]
    widths = [(-1, None, 1.0), (2 * native, None, 2.0), (-1, 1.5, 1.5), (-1, .75, .75), (native + 1, None, (native + 1.0) / native)]
    if nd == 3:
        widths = widths[:3]
    if nd == 4:
        widths = widths[:2]
    off = 1 / 64. if kind in ('nearest', 'tunednnb') else 0.0
    for (sc, tr), (sup, h, width) in itertools.product([(scales[0], translates[0]), (scales[1], translates[1]),
                                                        (scales[0], translates[2])], widths):
        W = win.window(kind, sup)
        A = win.affine(nd, scale=sc, translate=tr, period=period)
        s = numpy.ones(nd) if sc is None else numpy.array(sc)
        t = numpy.zeros(nd) if tr is None else numpy.array(tr)
        P = [p if p else n for p, n in zip(period, shape)]
        axes = [numpy.arange(-.5 * p, 1.5 * p, case['step']) + off * (1 + .5 * d) for d, p in enumerate(P)]
        g = numpy.stack(numpy.meshgrid(*axes, indexing='ij'), -1).reshape(-1, nd)
        if nd > 2:
            g = g[::(len(g) // 400) + 1]
        if off and width != 1.0:
            # the boundaries of the scaled window
            cut = numpy.abs(((g * 2 / width) % 1) - .5).min(axis=1)
            g = g[(numpy.abs(((2 * g - width) % 2)).min(axis=1) > 1e-6)]
            del cut
        pos = (g - t) / s
        mass = 1.0 + numpy.arange(len(g)) % 7
        total = numpy.zeros(shape)
        hs = None if h is None else numpy.full(len(g), h)
        key = 'c07/%s/%dd%d/%s/support%s/hsml%s' % (kind, nd, case['c'], dt, sup, h)
        for i in range(len(g)):
            ref = win.paint_one(kind, g[i], shape, period, width)
            real = numpy.zeros(shape, dt)
            W.paint(real, pos[i:i + 1], hsml=None if h is None else hs[i:i + 1], transform=A)
            R.step()
            if not lib.close(real, ref, 0, tol):
                R.violation(key, 'a particle at grid coordinate %s on a canvas %s with period %s: %s' % (
                    g[i].tolist(), shape, period, lib.maxdiff(real, ref)), pos=pos[i], scale=s, translate=t, got=real, want=ref)
            total += ref * mass[i]
        R.trace(len(g))
        R.nstates(len(g))
        real = numpy.zeros(shape, dt)
        W.paint(real, pos, hsml=hs, mass=mass, transform=A)
        R.step()
        R.trace()
        R.check(lib.close(real, total, 0, tol * mass.sum()), key + '/sum', 'all particles at once: ' + lib.maxdiff(real, total))
        if all(p == n for p, n in zip(period, shape)) and width in (1.0, 2.0):
            R.check(abs(real.sum() - mass.sum()) <= tol * 10 * mass.sum(), key + '/mass', 'mass %r painted, %r on the mesh' % (mass.sum(), real.sum()))
            # on the boundaries as well
            b = numpy.stack(numpy.meshgrid(*[numpy.arange(-p, 2 * p + .5, .5) for p in P], indexing='ij'), -1).reshape(-1, nd)
            b = b[::(len(b) // 300) + 1]
            real = numpy.zeros(shape, dt)
            W.paint(real, (b - t) / s, transform=A)
            R.trace()
            R.nstates(len(b))
            R.check(abs(real.sum() - len(b)) <= tol * 10 * len(b), key + '/mass', '%d particles of mass 1 on cell boundaries, %r on the mesh' % (len(b), real.sum()))
            # one by one, so that errors do not cancel
            for x in b[::7]:
                one = numpy.zeros(shape, dt)
                W.paint(one, (x[None] - t) / s, transform=A)
                R.check(abs(one.sum() - 1) <= tol * 10, key + '/mass', 'a particle at %s leaves %r on the mesh' % (x.tolist(), one.sum()))
        R.outcome(kind, nd, case['c'], width, int((total != 0).sum()))
