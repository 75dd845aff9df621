"""C29: histories of operations on fields follow the same histories on global arrays."""
import itertools

import numpy

from mc import env, lib, mesh as M

ID = 'C29'
RULE = ('states are histories of operations on two field variables; after every operation every field object that was ever made '
        'and whose memory was not handed to a field of another kind is compared with its global array in the model')
ASSUMPTIONS = ['values are compared to rounding; a field whose memory was given to a field of another kind is not looked at again']

KINDS = ('real', 'complex', 'untransposedcomplex')
OPS = (['mul', 'rsub', 'neg', 'abs', 'pow', 'div', 'add', 'sub', 'prod', 'arr', 'npadd', 'divmod', 'maximum', 'modfout', 'reduce', 'views',
        'iadd', 'imul', 'isub', 'idiv', 'npout', 'npoutarr', 'at',
        'copy', 'alias', 'swap', 'new', 'create', 'set', 'setscalar', 'setback', 'setpart',
        'apply', 'applyin', 'applyout', 'trans', 'transin', 'transout']
       + ['cast:%s' % k for k in KINDS] + ['castout:%s' % k for k in KINDS] + ['castself:%s' % k for k in KINDS])

CONFIGS = [   # mesh, np, dtype, starting kinds, depth in quick
    ((4, 3, 2), [2, 1], 'f8', ('real', 'complex'), 2),
    ((4, 3, 2), [2, 1], 'f8', ('untransposedcomplex', 'complex'), 2),
    ((3, 4), [1], 'f8', ('real', 'real'), 3),
    ((3, 4), [2], 'f8', ('real', 'complex'), 3),
    ((2, 3, 4), [2, 2], 'f8', ('complex', 'real'), 2),
    ((4, 3), [2], 'c16', ('real', 'complex'), 2),
    ((4, 4), [2, 1], 'f8', ('real', 'complex'), 2),
    ((4, 4), [2, 1], 'c16', ('complex', 'untransposedcomplex'), 2),
    ((2, 5), [3], 'f8', ('real', 'untransposedcomplex'), 2),
    ((4, 3, 2), [1, 2], 'f4', ('real', 'complex'), 2),
    ((4,), [], 'f8', ('real', 'complex'), 2),
    ((5,), [], 'c8', ('real', 'complex'), 1),
]


def cases(tier):
    out = []
    for mesh, np, dt, kinds, depth in CONFIGS:
        if tier != 'quick':
            depth += 1
        firsts = [[o] for o in OPS] if depth >= 3 else [OPS]
        for f in firsts:
            if depth >= 4:
                out += [dict(mesh=mesh, np=np, dt=dt, kinds=kinds, depth=depth, first=f, second=[s]) for s in OPS]
            else:
                out.append(dict(mesh=mesh, np=np, dt=dt, kinds=kinds, depth=depth, first=f, second=OPS))
    return out


class Cell(object):
    """a field in the model: kind and global array; `buf` names the memory"""
    def __init__(self, kind, val, buf):
        self.kind, self.val, self.buf, self.dead = kind, val, buf, False


class Skip(Exception):
    pass


class World(object):
    def __init__(self, pm, mesh, cplx, kinds):
        self.pm, self.mesh, self.cplx = pm, mesh, cplx
        self.objs = []
        self.nbuf = 0
        self.tmp = {}
        self.a = self.make(kinds[0], 1)
        self.b = self.make(kinds[1], 2)

    def glob(self, kind, k):
        key = (kind == 'real', k)
        if key not in self.tmp:
            g = M.generic(self.mesh, k, self.cplx)
            self.tmp[key] = g if kind == 'real' else M.spectrum(g, self.cplx)
        return self.tmp[key]

    def make(self, kind, k):
        f = self.pm.create(kind)
        g = self.glob(kind, k)
        f[...] = g[f.slices]
        return self.add(f, kind, g.copy())

    def add(self, f, kind, val, buf=None):
        if buf is None:
            self.nbuf += 1
            buf = self.nbuf
        c = Cell(kind, val, buf)
        self.objs.append((f, c))
        return len(self.objs) - 1

    def to(self, c, kind):
        """model of a conversion"""
        if (c.kind == 'real') == (kind == 'real'):
            return c.val.copy()
        if c.kind == 'real':
            return M.spectrum(c.val, self.cplx)
        return M.inverse(c.val, self.mesh, self.cplx)

    def occupy(self, c, kind, val):
        """the memory of c now holds val as kind"""
        for f, d in self.objs:
            if d.buf == c.buf:
                if d.kind == kind:
                    d.val = val.copy()
                else:
                    d.dead = True

    def same(self, i, j):
        if self.objs[i][1].kind != self.objs[j][1].kind:
            raise Skip

    def step(self, op):
        (fa, ca), (fb, cb) = self.objs[self.a], self.objs[self.b]
        op, _, K = op.partition(':')
        err = None

        def res(r, v):
            self.a = self.add(r, ca.kind, v)
            return None if type(r) is type(fa) and r is not fa else 'the result is %s' % type(r)
        if ca.dead or cb.dead:
            raise Skip
        if op in ('add', 'sub', 'prod', 'iadd', 'npout', 'set', 'setback', 'npadd', 'maximum'):
            self.same(self.a, self.b)
        if op == 'mul':
            err = res(fa * 2, ca.val * 2)
        elif op == 'rsub':
            err = res(2 - fa, 2 - ca.val)
        elif op == 'neg':
            err = res(-fa, -ca.val)
        elif op == 'abs':
            err = res(abs(fa), abs(ca.val))
        elif op == 'pow':
            err = res(fa ** 2, ca.val ** 2)
        elif op == 'div':
            err = res(fa / 4, ca.val / 4)
        elif op == 'add':
            err = res(fa + fb, ca.val + cb.val)
        elif op == 'sub':
            err = res(fb - fa, cb.val - ca.val)
        elif op == 'prod':
            err = res(fa * fb, ca.val * cb.val)
        elif op == 'arr':
            g = self.glob(ca.kind, 3)
            err = res(g[fa.slices] + fa, g + ca.val)
        elif op == 'npadd':
            err = res(numpy.add(fa, fb), ca.val + cb.val)
        elif op == 'maximum':
            if self.cplx or ca.kind != 'real':
                m = (fa == fb)
                err = None if isinstance(m, numpy.ndarray) and m.shape == fa.shape and m.dtype == bool and \
                    (m == (fa.value == fb.value)).all() else 'comparison'
            else:
                err = res(numpy.maximum(fa, fb), numpy.maximum(ca.val, cb.val))
        elif op == 'divmod':
            if self.cplx or ca.kind != 'real':
                raise Skip
            q, r = numpy.modf(fa)
            err = res(q, numpy.modf(ca.val)[0]) or res(r, numpy.modf(ca.val)[1])
        elif op == 'modfout':
            self.same(self.a, self.b)
            if self.cplx or ca.kind != 'real' or ca.buf == cb.buf:
                raise Skip
            o = numpy.zeros(fa.shape, fa.dtype)
            v = ca.val.copy()
            x = numpy.modf(fa, out=(o, fb))
            self.occupy(cb, cb.kind, numpy.modf(v)[1])
            ok = isinstance(x, tuple) and x[0] is o and x[1] is fb
            v = numpy.modf(v)[0][fa.slices]
            d = abs(o - v).max() if o.size else 0
            err = None if ok and d < 1e-5 else 'fractional parts'
        elif op == 'reduce':
            err = None
            for r, v in ((numpy.add.reduce(fa, axis=0), fa.value.sum(axis=0)), (numpy.sum(fa[...]), fa.value.sum()), (numpy.add.reduce(fa, axis=None), fa.value.sum())):
                if isinstance(r, type(fa)) or numpy.shape(r) != numpy.shape(v) or not numpy.allclose(r, v, equal_nan=True):
                    err = 'sum'
        elif op == 'views':
            # the parts and the flat iterator of a field are its values
            v = ca.val.copy()
            if ca.kind != 'real':
                fa.real[...] *= 2
                fa.imag[...] *= 3
                fa.plain[..., 0] += 3
                fa.plain[..., 1] *= 2
                v = (2 * v.real + 3) + 6j * v.imag
            else:
                fa.flat[:] = 2 * fa.value.ravel() - 1
                v = 2 * v - 1
            self.occupy(ca, ca.kind, v)
        elif op in ('iadd', 'imul', 'isub', 'idiv'):
            x = fa
            if op == 'iadd':
                x += fb
                v = ca.val + cb.val
            elif op == 'imul':
                x *= .5
                v = ca.val * .5
            elif op == 'isub':
                x -= 1
                v = ca.val - 1
            else:
                x /= self.glob('real', 3).max()
                v = ca.val / self.glob('real', 3).max()
            self.occupy(ca, ca.kind, v)
            self.a = self.add(x, ca.kind, v, ca.buf)
            err = None if type(x) is type(fa) else 'the result is %s' % type(x)
        elif op == 'npout':
            v = ca.val + cb.val
            r = numpy.add(fa, fb, out=fb)
            self.occupy(cb, cb.kind, v)
            self.a = self.add(r, cb.kind, v, cb.buf)
        elif op == 'npoutarr':
            v = ca.val * 2
            numpy.multiply(fa, 2, out=fa.value)
            self.occupy(ca, ca.kind, v)
        elif op == 'at':
            v = ca.val.copy()
            v[0] += 2
            if fa.start[0] == 0 and fa.shape[0] > 0:
                numpy.add.at(fa, 0, 2)
            self.occupy(ca, ca.kind, v)
        elif op == 'copy':
            self.b = self.add(fa.copy(), ca.kind, ca.val.copy())
            err = None if type(self.objs[self.b][0]) is type(fa) else 'type of the copy'
        elif op == 'alias':
            self.b = self.a
        elif op == 'swap':
            self.a, self.b = self.b, self.a
        elif op == 'new':
            self.a = self.add(self.pm.create(ca.kind, value=2.5), ca.kind, numpy.full(ca.val.shape, 2.5))
        elif op == 'create':
            self.b = self.add(self.pm.create(type(fa), value=fa), ca.kind, ca.val.copy())
        elif op == 'set':
            v = cb.val.copy()
            fa[...] = fb
            self.occupy(ca, ca.kind, v)
        elif op == 'setback':
            v = ca.val.copy()
            fb[...] = fa
            self.occupy(cb, cb.kind, v)
        elif op == 'setscalar':
            fa[...] = 1.5
            self.occupy(ca, ca.kind, numpy.full(ca.val.shape, 1.5))
        elif op == 'setpart':
            v = ca.val.copy()
            v[0] *= 3
            if fa.start[0] == 0 and fa.shape[0] > 0:
                fa[0] = fa[0] * 3
            self.occupy(ca, ca.kind, v)
        elif op == 'apply':
            err = res(fa.apply(lambda x, y: 3 * y - 1), 3 * ca.val - 1)
        elif op == 'applyin':
            v = 3 * ca.val - 1
            r = fa.apply(lambda x, y: 3 * y - 1, out=Ellipsis)
            self.occupy(ca, ca.kind, v)
            self.a = self.add(r, ca.kind, v, ca.buf)
        elif op == 'applyout':
            self.same(self.a, self.b)
            v = 3 * ca.val - 1
            r = fa.apply(lambda x, y: 3 * y - 1, out=fb)
            self.occupy(cb, cb.kind, v)
            self.a = self.add(r, cb.kind, v, cb.buf)
        elif op in ('trans', 'transin', 'transout'):
            kind = 'complex' if ca.kind == 'real' else 'real'
            v = self.to(ca, kind)
            f = fa.r2c if ca.kind == 'real' else fa.c2r
            if op == 'trans':
                self.b = self.add(f(), kind, v)
            elif op == 'transin':
                r = f(out=Ellipsis)
                self.occupy(ca, kind, v)
                self.a = self.add(r, kind, v, ca.buf)
                if self.b is not None and self.objs[self.b][1].dead:
                    self.b = self.a
            else:
                if (cb.kind == 'real') != (kind == 'real') or cb.buf == ca.buf:
                    raise Skip
                r = f(out=fb)
                self.occupy(cb, cb.kind, v)
                self.b = self.add(r, cb.kind, v, cb.buf)
        elif op == 'cast':
            self.b = self.add(fa.cast(K), K, self.to(ca, K))
        elif op == 'castout':
            v = self.to(ca, K)
            r = fa.cast(K, out=fb)
            self.occupy(cb, K, v)
            self.b = self.add(r, K, v, cb.buf)
            if self.objs[self.a][1].dead:
                self.a = self.b
        elif op == 'castself':
            v = self.to(ca, K)
            r = fa.cast(K, out=fa)
            self.occupy(ca, K, v)
            self.a = self.add(r, K, v, ca.buf)
            if self.objs[self.b][1].dead:
                self.b = self.a
        else:
            raise NotImplementedError(op)
        return err

    def check(self, tol):
        for n, (f, c) in enumerate(self.objs):
            if c.dead:
                continue
            if not isinstance(f, self.types[c.kind]) or f.value.dtype != self.dtypes[c.kind]:
                return 'object %d is %s of %s' % (n, type(f), f.value.dtype)
            w = c.val[f.slices]
            with numpy.errstate(all='ignore'):
                d = abs(f.value - w)
                m = numpy.max(abs(c.val))
            if d.size and not d.max() <= tol * (1 + m):
                return 'object %d (%s): %s' % (n, c.kind, lib.maxdiff(f.value, w))
        return None


def program(comm, mesh, np, dt, kinds, depth, first, second):
    P = env.mod('pm', comm.rank)
    pm = M.make(comm, mesh, np, dt)
    cplx = pm.dtype.kind == 'c'
    tol = 1e-4 if dt in ('f4', 'c8') else 1e-11
    types = dict(real=P.RealField, complex=P.TransposedComplexField, untransposedcomplex=P.UntransposedComplexField)
    cd = {'f8': 'c16', 'f4': 'c8'}.get(dt, dt)
    dtypes = dict(real=numpy.dtype(dt), complex=numpy.dtype(cd), untransposedcomplex=numpy.dtype(cd))
    bad = []
    n = m = 0
    for h in itertools.product(first, second, *([OPS] * (depth - 2))) if depth > 1 else ((o,) for o in first):
        w = World(pm, mesh, cplx, kinds)
        w.types, w.dtypes = types, dtypes
        e = w.check(tol)
        for k, op in enumerate(h):
            try:
                e = e or w.step(op)
            except Skip:
                break
            e = e or w.check(tol)
            m += 1
            if e:
                break
        else:
            n += 1
        # all ranks go on or stop together
        if comm.size > 1:
            es = comm.allgather(e)
            e = next((x for x in es if x), None)
        if e:
            bad.append((h[:k + 1], e))
            if len(bad) > 3:
                break
    return bad, n, m


def run(case, R):
    mesh, np = tuple(case['mesh']), case['np']
    size = int(numpy.prod(np))
    key = 'c29/%s/np%s/%s/%s' % ('x'.join(map(str, mesh)), np, case['dt'], '-'.join(case['kinds']))
    vals = lib.run_world(R, size, program, (mesh, np, case['dt'], tuple(case['kinds']), case['depth'], tuple(case['first']), tuple(case['second'])),
                         key=key, horizon=10 ** 9)
    if vals is None:
        return
    bad, n, m = vals[0]
    for h, e in bad:
        R.violation(key + '/' + ','.join(h), e)
    R.nstates(n)
    R.step(m)
    R.outcome(key, tuple(case['first']), tuple(case['second']), n)
