#!/usr/bin/env python3
"""Make and verify planted bugs: python3 tools/seed.py DEF.py [id ...] [--nocheck]
DEF.py holds a list BUGS of dicts: id, property, file, edits [(old, new)], demo (python text), mpi (ranks, default 1), needs, breaks.
For every bug: make the patch, build, run the stable tests, run the demo with and without it, run the check of the property."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
SH = '''#!/bin/bash
# exit 0: the behaviour is right
. /opt/vp/lib/env.sh
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
%s
'''
RUN1 = 'exec timeout 120 python -W ignore "$here/demo.py"'
RUNN = 'exec timeout 120 mpirun --allow-run-as-root --oversubscribe -n %d python -W ignore -m mpi4py "$here/demo.py"'


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make(b):
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    for f, edits in b['edits'].items():
        p = os.path.join(R, f)
        s = open(p).read()
        for old, new in edits:
            assert s.count(old) == 1, (b['id'], s.count(old), old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
    diff = sh(['git', '-C', R, 'diff']).stdout
    sh(['git', '-C', R, 'checkout', '--', '.'])
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip())
    open(d + '/demo.sh', 'w').write(SH % (RUNN % b['mpi'] if b.get('mpi', 1) > 1 else RUN1))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    return d


def verify(b, d, check):
    res = {}
    assert sh(['git', '-C', R, 'status', '--porcelain', '-uno']).stdout == ''
    res['apply'] = sh(['git', '-C', R, 'apply', d + '/patch.diff']).returncode
    try:
        r = sh('bash /opt/vp/test.sh /tmp/seed/t.json')
        t = json.load(open('/tmp/seed/t.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        res['lost'] = sorted(set(base) - set(t['passed']))
        r = sh(['bash', d + '/demo.sh'], cwd=R)
        res['demo_with'] = r.returncode
        res['demo_out'] = r.stdout[-300:]
        if check:
            r = sh(['./check', b['property']], cwd=V)
            res['check'] = r.returncode
            res['check_out'] = [l for l in r.stdout.splitlines() if 'VIOLATION' in l][:1]
    finally:
        sh(['git', '-C', R, 'checkout', '--', '.'])
    sh('bash /opt/vp/build.sh')
    r = sh(['bash', d + '/demo.sh'], cwd=R)
    res['demo_without'] = r.returncode
    if r.returncode: res['demo_out0'] = r.stdout[-500:]
    res['ok'] = res['apply'] == 0 and not res['lost'] and res['demo_with'] != 0 and res['demo_without'] == 0
    return res


if __name__ == '__main__':
    os.makedirs('/tmp/seed', exist_ok=True)
    g = {}
    exec(open(sys.argv[1]).read(), g)
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    for b in g['BUGS']:
        if ids and b['id'] not in ids:
            continue
        d = make(b)
        res = verify(b, d, '--nocheck' not in sys.argv)
        print(b['id'], b['property'], 'OK' if res['ok'] else 'BAD', 'CAUGHT' if res.get('check') == 1 else 'MISSED', json.dumps(res), flush=True)
