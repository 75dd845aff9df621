"""
Development only: which lines of the Python code a check executes, and which kinds of arguments
(type, dtype, dimensions, layout) every function receives.

    python3 tools/argcov.py C20 OUT.json [check options]     (OUT accumulates)
    python3 tools/argcov.py --report OUT.json [...]           lines never executed, kinds of arguments
"""
import glob
import json
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def kind(x):
    import numpy
    if x is None or x is Ellipsis or isinstance(x, bool):
        return repr(x)
    if isinstance(x, numpy.ndarray):
        f = 'C' if x.flags.c_contiguous else 'F' if x.flags.f_contiguous else 'strided'
        return '%s[%dd%s,%s%s]' % (x.dtype.str if x.dtype.names is None else 'struct', x.ndim, ',0' if x.size == 0 else '', f,
                                   '' if x.flags.writeable else ',ro')
    if isinstance(x, (int, float, str)):
        return '%s=%s' % (type(x).__name__, x) if isinstance(x, str) else type(x).__name__
    if isinstance(x, (list, tuple)):
        return '%s(%s)' % (type(x).__name__, ','.join(sorted({kind(y) for y in x})))
    if callable(x) and not isinstance(x, type):
        return 'callable'
    return type(x).__name__ if not isinstance(x, type) else 'type ' + x.__name__


def install(store):
    import sys
    mon = sys.monitoring
    mon.use_tool_id(3, 'argcov')
    lines, args = store['lines'], store['args']

    def rel(code):
        f = code.co_filename
        i = f.rfind('/pmesh_r')
        if i < 0 or not f.endswith('.py'):
            return None
        return f[f.index('/', i + 1) + 1:]

    def line(code, n):
        r = rel(code)
        if r:
            lines.add('%s:%d' % (r, n))
        return mon.DISABLE

    def start(code, off):
        r = rel(code)
        if r is None:
            return mon.DISABLE
        fr = sys._getframe(1)
        if code.co_name.startswith('<'):
            return
        for a in code.co_varnames[:code.co_argcount + code.co_kwonlyargcount]:
            if a in fr.f_locals and a != 'self':
                try:
                    args.add('%s:%d %s %s %s' % (r, code.co_firstlineno, code.co_qualname, a, kind(fr.f_locals[a])))
                except Exception:
                    pass
    mon.register_callback(3, mon.events.LINE, line)
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.LINE | mon.events.PY_START)


def main():
    if sys.argv[1] == '--report':
        d = json.load(open(sys.argv[2]))
        import ast
        done = set(d['lines'])
        root = os.environ.get('MC_REPO', '/repo') + '/pmesh/'
        for f in sorted(os.listdir(root)):
            if not f.endswith('.py') or f in ('version.py',):
                continue
            src = open(root + f).read()
            body = set()
            for fn in ast.walk(ast.parse(src)):
                if isinstance(fn, ast.FunctionDef):
                    for s in ast.walk(fn):
                        if isinstance(s, ast.stmt) and s is not fn and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                            body.add(s.lineno)
            miss = sorted(n for n in body if '%s:%d' % (f, n) not in done)
            for n in miss:
                print('%s:%d: %s' % (f, n, src.split('\n')[n - 1].strip()))
        print()
        by = {}
        for a in d['args']:
            w, q, n, k = a.split(' ', 3)
            by.setdefault((w, q, n), set()).add(k)
        for k in sorted(by):
            print(*k, '|', '  '.join(sorted(by[k])))
        return
    pid, out = sys.argv[1:3]
    from mc import core
    tmp = tempfile.mkdtemp(prefix='argcov.')
    orig = core.run_case
    store = dict(lines=set(), args=set())
    state = {}

    def run_case(check, case):
        if not state:
            state['on'] = 1
            install(store)
        try:
            return orig(check, case)
        finally:
            n = len(store['lines']) + len(store['args'])
            if n != state.get('n'):
                state['n'] = n
                with open('%s/%d.json' % (tmp, os.getpid()), 'w') as f:
                    json.dump({k: sorted(v) for k, v in store.items()}, f)
    core.run_case = run_case
    rc = core.main([pid] + sys.argv[3:])
    tot = dict(lines=set(), args=set())
    if os.path.exists(out):
        for k, v in json.load(open(out)).items():
            tot[k].update(v)
    for f in glob.glob(tmp + '/*.json'):
        for k, v in json.load(open(f)).items():
            tot[k].update(v)
        os.unlink(f)
    os.rmdir(tmp)
    json.dump({k: sorted(v) for k, v in tot.items()}, open(out, 'w'))
    return rc


if __name__ == '__main__':
    sys.exit(main())
