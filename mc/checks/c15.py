"""C15: the resolution-invariant index: one to one, nested, ordered by scale."""
import itertools

import numpy

from mc import env, lib

ID = 'C15'
RULE = ('states are (dimension, mesh shape, compression, mode, maximum length): every mode of all meshes in the bound and '
        'one layer around them; a lattice of modes near each power of two as far as the index fits; the index must be a bijection, ordered by shell and the same on all meshes')
ASSUMPTIONS = ['on an axis of odd size N, -(N+1)/2 may be taken for an alias of (N-1)/2']


def cases(tier):
    out = []
    top = {1: 64, 2: 24, 3: 12, 4: 8, 5: 4} if tier == 'quick' else {1: 256, 2: 64, 3: 32, 4: 12, 5: 6}
    for nd in top:
        for c in (False, True):
            for n in range(2, top[nd] + 1, 2):
                out.append(dict(kind='cube', nd=nd, n=n, c=c, tier=tier))
            sizes = range(1, {1: 20, 2: 9, 3: 6, 4: 4, 5: 3}[nd] + 1)
            for first in sizes:
                out.append(dict(kind='any', nd=nd, first=first, sizes=list(sizes), c=c))
            out.append(dict(kind='max', nd=nd, n={1: 12, 2: 6, 3: 4, 4: 2, 5: 2}[nd], c=c))
            out.append(dict(kind='form', nd=nd, n=4, c=c))
            for k in range(1, 31):
                if (2 ** (k + 1) + 3) ** nd < 2 ** 63:
                    out.append(dict(kind='large', nd=nd, k=k, c=c))
    return out


def modes(sizes, c, pad=0):
    """all modes as rows; Nyquist with the negative sign, as FFT has it"""
    ax = []
    for d, n in enumerate(sizes):
        lo, hi = -(n // 2), (n - 1) // 2
        if c and d == len(sizes) - 1:
            lo, hi = 0, n // 2
        ax.append(numpy.arange(lo - pad, hi + 1 + pad))
    return numpy.stack(numpy.meshgrid(*ax, indexing='ij'), -1).reshape(-1, len(sizes)).astype('intp')


def run(case, R):
    I = env.mod('invariant')
    nd, c = case['nd'], case['c']
    key = 'c15/%s/%dd/%s' % (case['kind'], nd, 'compressed' if c else 'full')
    if case['kind'] == 'cube':
        n = case['n']
        x = modes([n] * nd, c)
        ind = I.get_index(x, n, compressed=c)
        R.step()
        R.trace()
        R.nstates(len(x))
        R.check(numpy.array_equal(numpy.sort(ind), numpy.arange(len(x))), key + '/range',
                'the indices of a mesh of size %d do not fill the range below %d' % (n, len(x)))
        # order by shell
        shell = abs(x).max(axis=1)
        o = numpy.argsort(ind, kind='stable')
        R.check((numpy.diff(shell[o]) >= 0).all(), key + '/order', 'a larger index at a larger scale, size %d' % n)
        # nested
        for m in (n + 2, 2 * n, 4 * n + 2):
            inside = (abs(x) < n / 2.).all(axis=1)
            other = I.get_index(x[inside], m, compressed=c)
            R.check(numpy.array_equal(other, ind[inside]), key + '/nested', 'the index depends on the mesh: %d, %d' % (n, m))
            R.step()
        # the positive sign of Nyquist
        for axes in itertools.product([0, 1], repeat=nd):
            y = x.copy()
            for d in range(nd):
                if axes[d]:
                    y[y[:, d] == -(n // 2), d] = n // 2
            R.check(numpy.array_equal(I.get_index(y, n, compressed=c), ind), key + '/nyquist', 'signs of the Nyquist frequency differ')
            R.step()
        # outside
        y = modes([n] * nd, c, pad=3)
        out = (y > n // 2).any(axis=1) | (y < -(n // 2)).any(axis=1)
        if c:
            # the negative Nyquist frequency may be taken for the positive one
            out |= (y[:, -1] < 0) & (y[:, -1] != -(n // 2))
        got = I.get_index(y[out], n, compressed=c)
        R.step()
        R.nstates(int(out.sum()))
        R.check((got == -1).all(), key + '/outside', 'a mode outside of the mesh of size %d has index %s' % (n, got[got != -1][:1]),
                mode=y[out][got != -1][:1])
        R.outcome(key, n, lib.digest(ind))
    elif case['kind'] == 'any':
        for rest in itertools.product(case['sizes'], repeat=nd - 1):
            sizes = (case['first'],) + rest
            x = modes(sizes, c)
            ind = I.get_index(x, sizes, compressed=c)
            R.step()
            R.nstates(len(x))
            big = 2 * max(sizes) + 2
            want = x.copy()
            for d, n in enumerate(sizes):
                if n % 2 == 0:
                    want[want[:, d] == -(n // 2), d] = n // 2
            ref = I.get_index(want, big, compressed=c)
            R.check(len(set(ind)) == len(ind) and (ind >= 0).all(), key + '/injective', 'two modes of mesh %s share an index' % (sizes,))
            R.check(numpy.array_equal(ind, ref), key + '/mesh', 'the index on mesh %s differs from that on a larger one' % (sizes,))
            y = modes(sizes, c, pad=2)
            out = numpy.zeros(len(y), '?')
            for d, n in enumerate(sizes):
                out |= (y[:, d] > n // 2) | (y[:, d] < -((n + 1) // 2))
            R.check((I.get_index(y[out], sizes, compressed=c) == -1).all(), key + '/outside', 'a mode outside of mesh %s has an index' % (sizes,))
        R.trace()
        R.outcome(key, case['first'], lib.digest(ind))
    elif case['kind'] == 'max':
        n = case['n']
        x = modes([n] * nd, c)
        full = I.get_index(x, n, compressed=c)
        for ml in range(0, len(x) + 3):
            got = I.get_index(x, n, compressed=c, maxlength=ml)
            R.step()
            R.nstates(len(x))
            want = numpy.where(full < ml, full, -1)
            if not numpy.array_equal(got, want):
                i = numpy.nonzero(got != want)[0][0]
                R.violation(key, 'maximum length %d: mode %s has index %d, not %d' % (ml, x[i].tolist(), got[i], want[i]))
        R.trace()
        R.outcome(key, n)
    elif case['kind'] == 'large':
        for s in (2 ** case['k'] - 1, 2 ** case['k'], 2 ** case['k'] + 1):
            vals = sorted(set([-s, -s + 1, -(s // 2), -1, 0, 1, s // 2, s - 1, s]))
            last = [v for v in vals if v >= 0] if c else vals
            x = numpy.array(list(itertools.product(*([vals] * (nd - 1) + [last]))), 'i8')
            x = x[abs(x).max(axis=1) == s]
            ind = I.get_index(x, 2 * s + 2, compressed=c)
            R.step()
            R.nstates(len(x))
            if c:
                lo, hi = (2 * s - 1) ** (nd - 1) * s, (2 * s + 1) ** (nd - 1) * (s + 1)
            else:
                lo, hi = (2 * s - 1) ** nd, (2 * s + 1) ** nd
            bad = (ind < lo) | (ind >= hi)
            if bad.any():
                i = numpy.nonzero(bad)[0][0]
                R.violation(key + '/shell', 'mode %s has index %d, outside of the range of its shell, %d to %d' % (x[i].tolist(), ind[i], lo, hi))
            R.check(len(set(ind.tolist())) == len(ind), key + '/injective', 'two modes with a largest component of %d share an index' % s)
            R.check(numpy.array_equal(I.get_index(x, 4 * s + 5, compressed=c), ind), key + '/mesh', 'the index of modes with a largest component of %d depends on the mesh' % s)
            y = x[(x != -s).all(axis=1)]
            even = I.get_index(y, 2 * s, compressed=c)
            full = (2 * s) ** (nd - 1) * (s + 1) if c else (2 * s) ** nd
            R.check(((even >= lo) & (even < full)).all() and len(set(even.tolist())) == len(even), key + '/even',
                    'modes at the Nyquist frequency %d do not fill the range of the mesh' % s)
            for i in range(0, len(x), max(1, len(x) // 16)):
                for ml in (int(ind[i]), int(ind[i]) + 1, lo, hi):
                    got = int(I.get_index(x[i:i + 1], 2 * s + 2, compressed=c, maxlength=ml)[0])
                    R.check(got == (ind[i] if ind[i] < ml else -1), key + '/max', 'maximum length %d: mode %s has index %d, not %d' % (ml, x[i].tolist(), got, ind[i]))
                    R.step()
            out = I.get_index(x, 2 * s - 2, compressed=c) if s > 1 else numpy.array([-1])
            R.check((out == -1).all(), key + '/outside', 'a mode outside of the mesh of size %d has an index' % (2 * s - 2))
            R.trace()
        R.outcome(key, case['k'], lib.digest(ind))
    else:
        n = case['n']
        x = modes([n] * nd, c)
        want = I.get_index(x, n, compressed=c)
        for dt in ('i2', 'i4', 'i8', 'intp'):
            for how in ('C', 'F', 'step', 'shape', 'neg'):
                y = x.astype(dt)
                if how == 'F':
                    y = numpy.asfortranarray(y)
                elif how == 'step':
                    b = numpy.full((2 * len(y), 2 * nd), 99, dt)
                    b[::2, ::2] = y
                    y = b[::2, ::2]
                elif how == 'neg':
                    y = numpy.ascontiguousarray(y[::-1])[::-1]
                elif how == 'shape':
                    y = y.reshape(-1, 2, nd) if len(y) % 2 == 0 else y.reshape(1, -1, nd)
                keep = y.copy()
                for nm in (n, [n] * nd, numpy.array([n] * nd, 'i4'), numpy.full(nd, n)):
                    got = I.get_index(y, nm, compressed=c)
                    R.check(got.shape == y.shape[:-1] and numpy.array_equal(got.ravel(), want), key, 'modes as %s %s' % (dt, how))
                    R.check((y == keep).all(), key + '/inputs', 'the modes are changed')
                    R.step()
                    R.nstates(1)
        R.trace()
        R.outcome(key, n)
