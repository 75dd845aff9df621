"""C18: white noise keeps the modes two meshes have in common."""
import itertools

import numpy

from mc import env, lib
from .c16 import whole

ID = 'C18'
RULE = ('states are (pair of meshes, seed, unitary, full or compressed, mode): all modes strictly below the Nyquist frequency '
        'of both meshes, for all pairs of meshes in the bound')
ASSUMPTIONS = ['three dimensions (in one and two dimensions the noise is documented not to be invariant)']


def cases(tier):
    top = 6 if tier == 'quick' else 9
    sizes = list(itertools.product(range(1, top + 1), repeat=2))
    out = []
    for a in sizes:
        out.append(dict(kind='pair', a=a, others=sizes, n2=[2, 5] if tier == 'quick' else [1, 2, 3, 5, 8], seeds=[1, 77]))
    for n in (2, 4, 6, 8, 10, 12, 16):
        out.append(dict(kind='cube', n=n, to=[2, 4, 6, 8, 12, 16] + ([] if tier == 'quick' else [24, 32, 48]), seeds=[0, 1, 5463]))
    big = [(128, 128, 2), (260, 6, 4), (6, 300, 3), (130, 140, 2), (4, 4, 300), (5, 3, 66000), (300, 300, 1), (64, 64, 64)]
    for i, a in enumerate(big):
        out.append(dict(kind='large', a=a, to=big[i + 1:] + [(4, 4, 4), (8, 5, 2)], seeds=[1, 5463]))
    return out


_cache = {}


def noise(mesh, seed, un, full):
    k = (tuple(mesh), seed, un, full)
    if k not in _cache:
        _cache[k] = whole(tuple(mesh), full, seed, un)
    return _cache[k]


def common(a, b, full):
    """index arrays of the modes strictly below Nyquist of both"""
    ia, ib = [], []
    for d, (x, y) in enumerate(zip(a, b)):
        m = min(x, y)
        k = numpy.arange(-((m - 1) // 2), (m - 1) // 2 + 1)
        if d == 2 and not full:
            k = k[k >= 0]
        ia.append(k % x)
        ib.append(k % y)
    return numpy.ix_(*ia), numpy.ix_(*ib)


def compare(R, a, b, seed, un, full):
    ia, ib = common(a, b, full)
    va, vb = noise(a, seed, un, full)[ia], noise(b, seed, un, full)[ib]
    R.step()
    R.nstates(va.size)
    if not numpy.array_equal(va, vb):
        i = numpy.argwhere(va != vb)[0]
        R.violation('c18/%s/%s/%s%s' % ('x'.join(map(str, a)), 'x'.join(map(str, b)), 'full' if full else 'compressed', '/unitary' if un else ''),
                    'meshes %s and %s, seed %d: a common mode is %s and %s' % (a, b, seed, va[tuple(i)], vb[tuple(i)]), at=i)
    R.outcome(seed, un, lib.digest(va))


def run(case, R):
    if case['kind'] == 'pair':
        for o in case['others']:
            if o < case['a']:
                continue
            for x, y in itertools.product(case['n2'], repeat=2):
                for seed in case['seeds']:
                    un = (sum(o) + x) % 2 == 1
                    compare(R, list(case['a']) + [x], list(o) + [y], seed, un, (x + y) % 2 == 1)
        R.trace()
    elif case['kind'] == 'large':
        for b in case['to']:
            for seed in case['seeds']:
                compare(R, case['a'], b, seed, seed > 1, sum(b) % 2 == 1)
        R.trace()
    else:
        for m in case['to']:
            if m <= case['n']:
                continue
            for seed, un, full in itertools.product(case['seeds'], (False, True), (False, True)):
                compare(R, [case['n']] * 3, [m] * 3, seed, un, full)
        R.trace()
