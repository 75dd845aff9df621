"""
Binds the simulated substrate to the real one: the same programs run under
mpirun on the real mpi4py, pfft and mpsort, and on the simulation; every
rank's results are compared.

    ./conform          (writes conformance.json)

The programs call only the substrate, never pmesh.
"""
import json
import os
import pickle
import subprocess
import sys
import tempfile

import numpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def p_collectives(comm, MPI):
    r, n = comm.rank, comm.size
    out = []
    out.append(comm.allgather((r, 'x' * r)))
    for root in range(n):
        out.append(comm.bcast({'v': r} if r == root else None, root=root))
        out.append(comm.gather(r * 2, root=root))
        out.append(comm.scatter([10 * i for i in range(n)] if r == root else None, root=root))
    for op in (MPI.SUM, MPI.MAX, MPI.MIN, MPI.PROD):
        out.append(comm.allreduce(r + 1, op=op))
        out.append(comm.reduce(r + 1, op=op, root=0))
    out.append(comm.allreduce(r == 0, op=MPI.LAND))
    out.append(comm.allreduce(r == 0, op=MPI.LOR))
    out.append(comm.allreduce(numpy.arange(3) * (r + 1)))
    out.append(comm.allreduce(numpy.float64(r) + .5))
    out.append(comm.alltoall([(r, i) for i in range(n)]))
    out.append(comm.exscan(r + 1))
    out.append(comm.scan(r + 1))
    s = numpy.arange(n, dtype='i4') + 10 * r
    d = numpy.empty(n, 'i4')
    comm.Alltoall(s, d)
    out.append(d)
    a = numpy.arange(4.0) * (r + 1)
    b = numpy.empty(4)
    comm.Allreduce(a, b)
    out.append(b)
    comm.Allreduce(MPI.IN_PLACE, a, op=MPI.MAX)
    out.append(a)
    z = (numpy.arange(2) * (r + 1j))
    comm.Allreduce(MPI.IN_PLACE, z)
    out.append(z)
    b = numpy.arange(3.0) + r
    comm.Bcast(b, root=n - 1)
    out.append(b)
    g = numpy.empty(2 * n, 'i8')
    comm.Allgather(numpy.array([r, r * r], 'i8'), g)
    out.append(g)
    g = numpy.empty(n * (n + 1) // 2, 'f8')
    comm.Allgatherv(numpy.full(r + 1, float(r)), [g, [i + 1 for i in range(n)]])
    out.append(g)
    for item in (1, 8, 24):
        dt = MPI.BYTE.Create_contiguous(item)
        dt.Commit()
        sc = numpy.array([(r + i) % 3 for i in range(n)], 'i4')
        so = numpy.zeros(n, 'i4')
        so[1:] = sc.cumsum()[:-1]
        rc = numpy.empty(n, 'i4')
        comm.Alltoall(sc, rc)
        ro = numpy.zeros(n, 'i4')
        ro[1:] = rc.cumsum()[:-1]
        sb = (numpy.arange(sc.sum() * item) * 7 + r).astype('u1')
        rb = numpy.zeros(rc.sum() * item, 'u1')
        comm.Alltoallv((sb, (sc, so), dt), (rb, (rc, ro), dt))
        dt.Free()
        out.append(rb)
    c2 = comm.Split(r % 2, -r)
    out.append((c2.rank, c2.size, c2.allgather(r)))
    c3 = comm.Dup()
    out.append((c3.rank, c3.size, c3 == comm, comm == comm))
    c4 = comm.Split(0 if r == 0 else 1, r)
    out.append((c4.rank, c4.size, c4.allreduce(r)))
    return out


def p_p2p(comm, MPI):
    r, n = comm.rank, comm.size
    out = []
    nxt, prv = (r + 1) % n, (r - 1) % n
    rb = numpy.zeros(3)
    q = [comm.Irecv(rb, prv), comm.Isend(numpy.arange(3.0) + r, nxt)]
    MPI.Request.Waitall(q)
    out.append(rb)
    q = comm.isend(('a', r), nxt, tag=3)
    out.append(comm.recv(source=prv, tag=3))
    q.wait()
    # two messages of a pair do not overtake; tags select
    q1 = comm.isend('first', nxt, tag=1)
    q2 = comm.isend('second', nxt, tag=2)
    q3 = comm.isend('third', nxt, tag=1)
    out.append(comm.recv(source=prv, tag=2))
    out.append(comm.recv(source=prv, tag=1))
    out.append(comm.recv(source=prv))
    for q in (q1, q2, q3):
        q.wait()
    out.append(comm.sendrecv(r * 3, nxt, source=prv))
    big = numpy.zeros(5)
    q = comm.Isend(numpy.arange(2.0) + r, nxt)
    st = MPI.Status()
    comm.Recv(big, prv, status=st)
    q.Wait()
    out.append((big, st.Get_source() == prv, st.Get_count(MPI.BYTE)))
    return out


def p_errors(comm, MPI):
    """calls that mpi4py refuses, by the type of exception"""
    out = []

    def t(f):
        try:
            f()
            out.append('ok')
        except Exception as e:
            out.append(type(e).__name__)
    me = comm.Split(comm.rank, 0)
    a = numpy.zeros((4, 4))
    t(lambda: me.Allreduce(a[::2, ::2], numpy.zeros((2, 2))))
    t(lambda: me.Allreduce(a.T, numpy.zeros((4, 4))))
    t(lambda: me.Allreduce(numpy.zeros(2, dtype=[('a', 'f8')]), numpy.zeros(2, dtype=[('a', 'f8')])))
    t(lambda: me.Allreduce(numpy.zeros(2, 'O'), numpy.zeros(2, 'O')))
    b = numpy.zeros(2)
    b.flags.writeable = False
    t(lambda: me.Bcast(b))
    t(lambda: me.Allreduce(numpy.zeros(2), b))
    return out


MESHES = [([4, 4, 4], None), ([4, 6, 5], None), ([3, 5, 7], None), ([8, 2, 3], None), ([6, 4], None), ([5, 7], None),
          ([2, 3, 4], None), ([1, 4, 4], None), ([4, 1, 6], None)]
PROCS = {1: [[1], [1, 1]], 2: [[2], [2, 1], [1, 2]], 3: [[3], [3, 1]], 4: [[4], [2, 2], [1, 4]], 6: [[3, 2], [2, 3], [6]]}


def p_pfft(comm, pfft):
    out = []
    base = pfft.Flags.PFFT_ESTIMATE | pfft.Flags.PFFT_DESTROY_INPUT
    for np_ in PROCS[comm.size]:
        pm = pfft.ProcMesh(np_, comm=comm)
        out.append((list(map(int, pm.this)), list(map(int, pm.np)), int(pm.rank)))
        for Nmesh, _ in MESHES:
            if len(np_) >= len(Nmesh):
                continue
            for real in (True, False):
                for tr in (True, False):
                    ft = pfft.Type.PFFT_R2C if real else pfft.Type.PFFT_C2C
                    bt = pfft.Type.PFFT_C2R if real else pfft.Type.PFFT_C2C
                    pad = (pfft.Flags.PFFT_PADDED_R2C | pfft.Flags.PFFT_PADDED_C2R) if real else pfft.Flags(0)
                    fo = pfft.Flags.PFFT_TRANSPOSED_OUT if tr else pfft.Flags(0)
                    fi = pfft.Flags.PFFT_TRANSPOSED_IN if tr else pfft.Flags(0)
                    for inplace in (True, False):
                        p = pfft.Partition(ft, Nmesh, pm, pad | fo | base)
                        bi = pfft.LocalBuffer(p)
                        bo = bi if inplace else pfft.LocalBuffer(p)
                        f = pfft.Plan(p, pfft.Direction.PFFT_FORWARD, bi, bo, ft, base | pad | fo)
                        b = pfft.Plan(p, pfft.Direction.PFFT_BACKWARD, bo, bi, bt, base | pad | fi)
                        i, o = bi.view_input(), bo.view_output()
                        # (0.1.12 gives wrong o_edges for transposed output, later versions do not: not compared)
                        rec = dict(ie=[list(map(int, e)) for e in p.i_edges],
                                   oe=None if tr else [list(map(int, e)) for e in p.o_edges],
                                   ist=list(map(int, p.local_i_start)), ish=list(map(int, i.shape)),
                                   ost=list(map(int, p.local_o_start)), osh=list(map(int, o.shape)),
                                   istr=i.strides if i.size else None, ostr=o.strides if o.size else None,
                                   dt=(str(i.dtype), str(o.dtype)))
                        full = numpy.sin(numpy.arange(numpy.prod(Nmesh)) ** 2 * .37).reshape(Nmesh)
                        if not real:
                            full = full + 1j * numpy.cos(numpy.arange(full.size) * .77 + 1).reshape(Nmesh)
                        sl = tuple(slice(a, a + m) for a, m in zip(p.local_i_start, i.shape))
                        i[...] = full[sl]
                        f.execute(bi, bo)
                        rec['fwd'] = numpy.array(bo.view_output())
                        b.execute(bo, bi)
                        rec['back'] = numpy.array(bi.view_input())
                        out.append(rec)
    return out


def p_mpsort(comm, mpsort):
    out = []
    r, n = comm.rank, comm.size
    for counts in ([3] * n, [r2 for r2 in range(n)], [0] * (n - 1) + [5], [4] + [0] * (n - 1)):
        tot = sum(counts)
        off = sum(counts[:r])
        key = (numpy.arange(tot) * 7 % max(tot, 1))[off:off + counts[r]].astype('u8')
        data = numpy.zeros(counts[r], dtype=[('k', 'u8'), ('v', 'f8'), ('w', ('i4', 2))])
        data['k'] = key
        data['v'] = key * 1.5
        data['w'] = key[:, None] + numpy.arange(2)
        d = data.copy()
        mpsort.sort(d, 'k', comm=comm)
        out.append(d.tolist())
        # into another distribution
        cnt2 = [tot // n + (1 if i < tot % n else 0) for i in range(n)]
        o = numpy.zeros(cnt2[r], dtype=data.dtype)
        mpsort.sort(data, orderby='k', out=o, comm=comm)
        out.append(o.tolist())
        arg = key.astype('i8')
        src = (numpy.arange(tot)[off:off + counts[r]] * 11).astype('f8')
        out.append(mpsort.permute(src, arg, comm))
        o = numpy.zeros(counts[r], 'f8')
        mpsort.permute(src, arg, comm, out=o)
        out.append(o)
        if tot:
            idx = (numpy.arange(r + 2) * 3 % tot).astype('i8')
            out.append(mpsort.take(src, idx, comm))
            idx = numpy.arange(0 if r else 2 * tot).astype('i8') % tot
            out.append(mpsort.take(src, idx, comm))
    return out


def programs(size):
    yield 'collectives', p_collectives, 'MPI'
    yield 'p2p', p_p2p, 'MPI'
    yield 'errors', p_errors, 'MPI'
    yield 'pfft', p_pfft, 'pfft'
    yield 'mpsort', p_mpsort, 'mpsort'


def real_main(path):
    from mpi4py import MPI
    import pfft
    import mpsort
    mods = dict(MPI=MPI, pfft=pfft, mpsort=mpsort)
    comm = MPI.COMM_WORLD
    res = {}
    for name, f, m in programs(comm.size):
        try:
            res[name] = f(comm, mods[m])
        except Exception as e:
            import traceback
            res[name] = 'FAILED ' + traceback.format_exc()
    with open('%s.%d' % (path, comm.rank), 'wb') as f:
        pickle.dump(res, f)


def same(a, b, path=''):
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        a, b = numpy.asarray(a), numpy.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return '%s: %s %s / %s %s' % (path, a.shape, a.dtype, b.shape, b.dtype)
        if a.dtype.kind in 'fc':
            return None if numpy.allclose(a, b, rtol=1e-9, atol=1e-9) else path + ': values'
        return None if (a == b).all() else path + ': values'
    if isinstance(a, dict):
        for k in a:
            e = same(a[k], b[k], path + '.' + str(k))
            if e:
                return e
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: length %d / %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            e = same(x, y, '%s[%d]' % (path, i))
            if e:
                return e
        return None
    return None if a == b else '%s: %r / %r' % (path, a, b)


def main():
    if sys.argv[1:2] == ['--real']:
        return real_main(sys.argv[2])
    sizes = [1, 2, 3, 4, 6]
    real = {}
    with tempfile.TemporaryDirectory() as tmp:
        for n in sizes:
            path = os.path.join(tmp, 'r%d' % n)
            env = dict(os.environ, PYTHONPATH=VERIF)
            r = subprocess.run(['mpirun', '--allow-run-as-root', '--oversubscribe', '-n', str(n), sys.executable, '-W',
                                'ignore', '-m', 'mc.conformance', '--real', path], env=env, cwd=VERIF,
                               capture_output=True, text=True, timeout=300)
            if r.returncode:
                print(r.stdout, r.stderr)
                return 2
            real[n] = [pickle.load(open('%s.%d' % (path, k), 'rb')) for k in range(n)]
    from . import vmpi, vpfft, vmpsort, explore
    vmpi.install()
    vpfft.install()
    vmpsort.install()
    vpfft.EDGES = 'padded'      # the installed pfft-python is 0.1.12
    mods = dict(MPI=sys.modules['mpi4py'].MPI, pfft=sys.modules['pfft'], mpsort=sys.modules['mpsort'])
    bad = 0
    stats = dict(programs=0, schedules=0, values_compared=0)
    for n in sizes:
        for name, f, m in programs(n):
            ref = [real[n][r][name] for r in range(n)]
            if isinstance(ref[0], str):
                print('real %s on %d ranks: %s' % (name, n, ref[0]))
                bad += 1
                continue
            scheds = [('default', explore.run(n, f, mods[m]))]
            if name not in ('pfft',) and n <= 4:
                modes = explore.MODES_ALL if name == 'p2p' else explore.MODES_COLL
                scheds = list(explore.priorities(n, f, mods[m], modes=modes))
            for s, w in scheds:
                stats['schedules'] += 1
                try:
                    got = explore.values(w)
                except BaseException as e:
                    print('simulated %s on %d ranks under %s: %r' % (name, n, s, e))
                    bad += 1
                    break
                e = same(ref, got)
                if e:
                    print('%s on %d ranks under %s: %s' % (name, n, s, e))
                    bad += 1
                    break
            stats['programs'] += 1
            stats['values_compared'] += len(ref[0]) * n
    stats['disagreements'] = bad
    import platform
    with open(os.path.join(VERIF, 'conformance.json'), 'w') as f:
        json.dump(dict(what='simulated mpi4py/pfft/mpsort against the real ones', **stats), f, indent=1)
    print(stats)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
