"""C23: collective element access reads and writes the global mesh."""
import itertools

import numpy

from mc import env, lib, mesh as M

ID = 'C23'
RULE = ('states are (mesh shape, process mesh, field type, history of writes): every stored index, with all negative forms, every '
        'part, and pairs of writes, against a model of the whole Hermitian mesh; every cell is compared after every write')
ASSUMPTIONS = ['indices are those of stored cells; complex fields of complex meshes keep Hermitian symmetry on write as documented']

SHAPES = [(4, 3, 4), (3, 2, 5), (2, 4, 2), (3, 3, 1), (1, 4, 3), (4, 5), (3, 4), (2, 2), (6,), (5,), (2, 3, 2, 3)]


def cases(tier):
    out = []
    for m in SHAPES + ([(6, 4, 4), (5, 5, 5)] if tier != 'quick' else []):
        nps = M.procmeshes(len(m), 6 if len(m) < 4 else 4, full=len(m) > 1)
        for np in nps:
            if tier == 'quick' and (len(np) == len(m) and max(np) < 3 or len(m) == 4 and numpy.prod(np) not in (1, 4)):
                continue
            for dt in (('f8', 'c16', 'f4') if numpy.prod(np) in (1, 4) else ('f8', 'c16') if tier != 'quick' or numpy.prod(np) == 2 else ('f8',)):
                for t in ('real', 'untransposedcomplex', 'transposedcomplex'):
                    out.append(dict(mesh=m, np=np, dt=dt, t=t, tier=tier))
    return out


def signs(idx, mesh, stored):
    """all ways to write an index with negative numbers"""
    alts = [[i] + ([i - n] if True else []) for i, n in zip(idx, mesh)]
    return itertools.product(*alts)


def program(comm, mesh, np, dt, t, tier, pairs):
    pm = M.make(comm, mesh, np, dt)
    f = pm.create(t)
    cplx = f.dtype.kind == 'c'
    herm = t != 'real'
    cs = tuple(int(x) for x in f.cshape)
    errs = []
    n = 0
    # a Hermitian field to start with
    if herm:
        full = numpy.fft.fftn(M.generic(mesh, 1)).round(0)
        full = (full + dual(full).conj()) / 2
    else:
        full = M.generic(mesh, 1, cplx)
    full = full.astype(f.dtype)
    half = tuple(slice(0, s) for s in cs)

    def load(F):
        f[...] = F[half][f.slices]

    def differs(F):
        bad = f.value != F[half][f.slices]
        if bad.any():
            i = numpy.argwhere(bad)[0]
            return [(i + f.start).tolist(), complex(f.value[tuple(i)]), complex(F[half][f.slices][tuple(i)])]

    load(full)
    indices = list(itertools.product(*[range(s) for s in cs]))
    # negative forms: on axes where both N - i is an index
    for idx in indices:
        forms = list(signs(idx, mesh, cs))
        for form in forms[:1] + forms[1::(1 if tier != 'quick' else 3)]:
            for p in ((None, 0, 1) if herm else (None,)):
                want = full[idx] if p is None else (full[idx].real, full[idx].imag)[p]
                arg = tuple(form) if p is None else tuple(form) + (p,)
                given = (arg, list(arg), numpy.array(arg))[n % 3]
                got = f.cgetitem(given)
                if tuple(given) != arg:
                    errs.append(('the index was changed by reading', form, p))
                    return n, errs
                n += 1
                if got != want:
                    errs.append(('get', form, p, got, want))
    if differs(full) or errs:
        return n, errs[:3] or [('reading changed', differs(full))]

    def model(F, idx, p, y):
        """the value that is set"""
        i = tuple(idx)
        j = tuple((-numpy.array(idx)) % numpy.array(mesh))
        if not herm:
            F[i] = y
            return y
        if p is None:
            v = y.real if i == j and isinstance(y, complex) else y
            F[i] = v
            F[j] = numpy.conj(v)
            return v
        if p == 0:
            F[i] = complex(y, F[i].imag)
            F[j] = F[i].conj()
            return y
        v = 0 if i == j else y
        F[i] = complex(F[i].real, v)
        F[j] = F[i].conj()
        return v

    def values(p):
        if p is None:
            return (3 + 4j, 2.5, 7, numpy.complex128(-1 + 2j), numpy.float64(4)) if cplx else (2.5, 7, numpy.float32(3))
        return (9.5, -3)

    ops = [(idx, p) for idx in indices for p in ((None, 0, 1) if herm else (None,))]
    for idx, p in ops:
        forms = list(signs(idx, mesh, cs))
        for k, y in enumerate(values(p)):
            form = forms[k % len(forms)]
            load(full)
            F = full.copy()
            want = model(F, idx, p, y)
            arg = tuple(form) if p is None else tuple(form) + (p,)
            arg = (arg, list(arg), numpy.array(arg))[k % 3]
            keep = list(arg)
            got = f.csetitem(arg, y)
            n += 1
            if got != want:
                errs.append(('set returned', form, p, y, got, want))
            if list(arg) != keep:
                errs.append(('the index was changed', form, p))
            d = differs(F)
            if d:
                errs.append(('set', form, p, y, d))
            r = f.cgetitem(tuple(form) if p is None else tuple(form) + (p,))
            if r != want:
                errs.append(('read after set', form, p, y, r, want))
            if errs:
                return n, errs[:3]
    if pairs:
        for (i1, p1), (i2, p2) in itertools.product(ops[::pairs], ops):
            load(full)
            F = full.copy()
            y1, y2 = values(p1)[0], values(p2)[1 if p2 is not None else 0]
            model(F, i1, p1, y1)
            w = model(F, i2, p2, y2)
            f.csetitem(i1 if p1 is None else i1 + (p1,), y1)
            got = f.csetitem(i2 if p2 is None else i2 + (p2,), y2)
            n += 1
            d = differs(F)
            if d or got != w:
                errs.append(('pair', i1, p1, i2, p2, d, got, w))
                return n, errs
    return n, errs


def dual(F):
    for a in range(F.ndim):
        F = numpy.roll(numpy.flip(F, a), 1, a)
    return F


def run(case, R):
    mesh, np, dt, t, tier = tuple(case['mesh']), case['np'], case['dt'], case['t'], case['tier']
    size = int(numpy.prod(np))
    key = 'c23/%s/np%s/%s/%s' % ('x'.join(map(str, mesh)), np, dt, t)
    pairs = 0
    if dt == 'f8' and size in (1, 2, 3, 4) and len(np) < len(mesh):
        pairs = (17 if len(mesh) > 2 else 3) if tier == 'quick' else 1 if size < 3 else 3
    vals = lib.run_world(R, size, program, (mesh, np, dt, t, tier, pairs), key=key)
    if vals is None:
        return
    for r, (n, errs) in enumerate(vals):
        if errs:
            R.violation(key, 'rank %d: %s' % (r, errs[0]), errors=errs)
    R.nstates(vals[0][0])
    R.outcome(key, vals[0][0])
