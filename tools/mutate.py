#!/usr/bin/env python3
"""
Systematic small changes to pmesh, to find behaviour that no check sees.

  python3 tools/mutate.py OUT.jsonl FILE... [-w WORKERS] [--only FUNC] [--list]

For every mutant (one operator, constant, condition, statement or argument changed) of the files, the checks of the
function concerned run, on a copy of /repo, until one reports a violation.  Survivors are for reading by a person: equivalent,
outside every property, or a hole.
Works in copies below /tmp/mutate.<pid>, removed at the end.
"""
import argparse, ast, json, os, re, shutil, subprocess, sys, threading, queue, tempfile, zlib

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

MAP = {
 'pm.py': [
  ('slab|xslab', 'C21 C26 C25'), ('NDArrayLike|__array_ufunc__|_check_compatible|Field.copy', 'C29'),
  ('cgetitem|csetitem|_ctol|_expand_hermitian', 'C23 C26'), ('Field.__init__', 'C29 C21 C30 C19'),
  ('sort|ravel|unravel', 'C22'), ('Field.cast|__getitem__|__setitem__|__array__|compressed', 'C29 C24'),
  ('resample|build_index|reindex|exchange', 'C24'), ('preview', 'C27'), ('upsample|downsample', 'C27'), ('apply', 'C21 C29'),
  ('r2c_vjp|c2r_vjp|decompress_vjp|readout_vjp|readout_jvp|paint_vjp|paint_jvp|cdot_vjp', 'C25'), ('r2c|c2r', 'C19 C29'), ('ctranspose', 'C30'),
  ('csum|cmean|cdot|cnorm', 'C26'), ('readout|paint|decompose', 'C20 C38 C25'), ('_init_._coords|create_coords|_get_partition', 'C21'),
  ('ParticleMesh.__init__|_pmtemplate', 'C40 C28 C19 C21 C20'), ('resize|reshape|respawn', 'C28'), ('create|_typestr', 'C28 C29'),
  ('generate_whitenoise', 'C16 C17'), ('mesh_coordinates|uniform_particle', 'C31'), ('', 'C29 C28 C21')],
 'domain.py': [('bincountv|gather', 'C03'), ('promote|_field_shapes', 'C06 C02 C03'), ('pack_arrays|exchange|_exchange', 'C02 C06'), ('Layout', 'C02 C03 C06 C05'),
  ('load|loadbalance', 'C05 C04'), ('isprimary|_update_primary|_digitize', 'C04 C05'), ('uniform', 'C04 C01'), ('', 'C01 C04 C05 C02')],
 'abopt.py': [('', 'C41')],
 'window.py': [('fwindow|compensation', 'C13 C36'), ('', 'C12 C09 C10 C07 C08 C11 C20')],
 'coarray.py': [('', 'C33')], 'lic.py': [('', 'C32')], 'tools.py': [('', 'C34')], 'transfer.py': [('', 'C36')],
 'particlemesh.py': [('', 'C37 C36')], 'lanczos.py': [('', 'C37')], 'tsc.py': [('', 'C35')], 'cic.py': [('', 'C35')], '_cic.py': [('', 'C35')],
 'invariant.py': [('', 'C15')], 'whitenoise.py': [('', 'C16 C17 C14')],
 '_domain.pyx': [('', 'C01 C05')], '_invariant.pyx': [('', 'C15')], '_whitenoise.pyx': [('', 'C16 C17 C14')], '_window.pyx': [('', 'C12 C10 C09 C07')],
 '_invariant_imp.c': [('', 'C15 C18')], '_whitenoise_imp.c': [('', 'C16 C17 C14 C18')], '_whitenoise_generics.h': [('', 'C16 C17 C14 C18')],
 '_window_imp.c': [('', 'C07 C08 C11 C09 C10 C13 C12')], '_window_generics.h': [('', 'C07 C09 C10 C11 C08 C12')],
 '_window_tuned_cic.h': [('', 'C08')], '_window_tuned_nnb.h': [('', 'C08')], '_window_tuned_tsc.h': [('', 'C08')], '_window_tuned_pcs.h': [('', 'C08')],
}

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '+', ast.Pow: '*', ast.BitAnd: '|', ast.BitOr: '&'}


OTHER = {'array': ['asarray'], 'zeros': ['empty'], 'zeros_like': ['empty_like'], 'min': ['max'], 'max': ['min'], 'any': ['all'], 'all': ['any'], 'sum': ['max'],
         'floor': ['ceil', 'rint'], 'copy': ['view'], 'argmax': ['argmin'], 'append': ['insert'], 'allgather': ['gather'], 'digitize': ['searchsorted'], 'divmod': ['fmod'],
         'bitwise_and': ['bitwise_or'], 'bitwise_or': ['bitwise_and'], 'Alltoallv': ['alltoall'], 'broadcast_to': ['asarray'], 'floor_divide': ['divide'],
         'prod': ['sum'], 'ones': ['zeros', 'empty'], 'empty': ['zeros'], 'ravel': ['copy'], 'sorted': ['list'], 'empty_like': ['zeros_like'], 'where': ['maximum']}


def py_mutants(src):
    """[(line, function, description, new source)]"""
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []

    def add(node, where, a, e, new, what):
        s = b[:a] + new.encode() + b[e:]
        try:
            ast.parse(s)
        except SyntaxError:
            return
        out.append((node.lineno, where, what, s.decode()))

    def seg(n):
        a, e = span(n)
        return b[a:e].decode()

    def visit(n, where):
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if re.match('test|__repr__|__str__|driver_unused', n.name) or n.name in ('Timer', 'Timers', 'Inspect', 'NDArrayLike'):
                return
            w = (where + '.' + n.name).lstrip('.')
            body = n.body[1:] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    visit(d, w)
            for c in body:
                visit(c, w)
            return
        a, e = (span(n) if hasattr(n, 'lineno') else (0, 0))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq):
            add(n, where, a, e, 'numpy.isclose(%s, %s, 1e-7, 1e-9)' % (seg(n.left), seg(n.comparators[0])), 'call isclose')
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in ('rank', 'size', 'real', 'T', 'flat', 'imag'):
            add(n, where, a, e, {'rank': '0', 'size': '1'}.get(n.attr, '(%s)' % seg(n.value)), 'call attribute ' + n.attr)
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.BinOp) and type(n.value.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div):
            l = span(n.value.left)
            if seg(n.value.left) == n.targets[0].id:
                add(n, where, a, e, '%s %s= %s' % (n.targets[0].id, {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/'}[type(n.value.op)], seg(n.value.right)), 'call in place')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = span(n.left)[1], span(n.comparators[0])[0]
            add(n, where, l, r, ' %s ' % CMP[type(n.ops[0])], 'cmp')
            if isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                add(n, where, l, r, ' >= ' if isinstance(n.ops[0], (ast.Lt, ast.LtE)) else ' < ', 'cmp!')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            l, r = span(n.left)[1], span(n.right)[0]
            opt = re.sub(r'\s', '', b[l:r].decode())
            if re.fullmatch(r'[-+*/%&|]+', opt):
                add(n, where, l, r, ' %s ' % BIN[type(n.op)], 'bin')
            elif seg(n).count('(') == 0:
                pass
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            l, r = span(n.target)[1], span(n.value)[0]
            add(n, where, l, r, ' %s= ' % BIN[type(n.op)], 'aug')
            add(n, where, l, r, ' = ', 'aug=')
        elif isinstance(n, ast.BoolOp):
            l, r = span(n.values[0])[1], span(n.values[1])[0]
            add(n, where, l, r, ' or ' if isinstance(n.op, ast.And) else ' and ', 'bool')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, where, a, e, '(%s)' % seg(n.operand), 'unary')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, where, a, e, str(not n.value), 'const')
            elif isinstance(n.value, (int, float)):
                add(n, where, a, e, repr(n.value + 1), 'const+1')
                if n.value == 1:
                    add(n, where, a, e, '0', 'const 0')
            elif isinstance(n.value, str) and re.fullmatch(r'[fiuc][248]|intp|int32', n.value):
                add(n, where, a, e, repr({'f8': 'f4', 'f4': 'f8', 'i8': 'i4', 'i2': 'i1', 'intp': 'i4'}.get(n.value, 'i2')), 'dtype')
            return
        elif isinstance(n, (ast.If, ast.While)):
            x, y = span(n.test)
            add(n, where, x, y, '(not (%s))' % seg(n.test), 'not')
            if isinstance(n, ast.If):
                add(n, where, x, y, 'False', 'never')
                add(n, where, x, y, 'True', 'always')
        elif isinstance(n, ast.IfExp):
            x, y = span(n.test)
            add(n, where, x, y, '(not (%s))' % seg(n.test), 'not')
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            fx = span(f)
            for q in OTHER.get(name, ()):
                add(n, where, a, e, b[a:fx[1] - len(name.encode())].decode() + q + b[fx[1]:e].decode(), 'call %s -> %s' % (name, q))
            if name in ('allreduce', 'bcast', 'abs', 'asarray', 'array', 'asfortranarray', 'int', 'float', 'unique', 'sort', 'remainder', 'conj') and n.args:
                add(n, where, a, e, '(%s)' % seg(n.args[0]), 'call %s -> its argument' % name)
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'conj', 'conjugate', 'ravel', 'argsort', 'astype', 'cumsum', 'clip', 'transpose', 'flatten') and not (f.attr == 'copy' and n.args):
                add(n, where, a, e, seg(f.value), 'drop ' + f.attr)
            for k in n.keywords:
                if k.arg:
                    add(n, where, off[k.lineno - 1] + k.col_offset, span(k.value)[1], '**{}', 'kwarg ' + k.arg)
            for q in range(len(n.args) - 1):
                if not any(isinstance(z, ast.Starred) for z in n.args[q:q + 2]) and seg(n.args[q]) != seg(n.args[q + 1]):
                    x0, x1 = span(n.args[q]), span(n.args[q + 1])
                    add(n, where, x0[0], x1[1], seg(n.args[q + 1]) + ', ' + seg(n.args[q]), 'swap')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            x = span(n.value)[1]
            if s.lower is not None:
                y = span(s.lower)
                add(n, where, y[0], y[1], '', 'slice')
            if s.upper is not None:
                y = span(s.upper)
                add(n, where, y[0], y[1], '', 'slice')
        if isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if not (isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) for t in n.targets) and where == ''):
                add(n, where, a, e, 'pass', 'drop statement')
        for c in ast.iter_child_nodes(n):
            visit(c, where)
    visit_mod = ast.parse(src)
    for c in visit_mod.body:
        if isinstance(c, ast.If) and '__main__' in (ast.get_source_segment(src, c) or ''):
            continue
        visit(c, '')
    return out


COPS = [(r'(?<![<>=!-])<(?![<=])', '<='), (r'<=', '<'), (r'(?<![->])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
        (r'(?<=[\w\])]) \+ (?=[\w(])', ' - '), (r'(?<=[\w\])]) - (?=[\w(])', ' + '), (r'(?<=[\w\])]) \* (?=[\w(])', ' / '), (r'(?<=[\w\])]) / (?=[\w(])', ' * '),
        (r'\+=', '-='), (r'\*=', '/='), (r'-=', '+='), (r'(?<=[ (\[=+*/-])1(?=[^\w.])', '2'), (r'(?<=[ (\[=+*/-])0(?=[^\w.])', '1'), (r'(?<=[ (\[=+*/-])2(?=[^\w.])', '3'),
        (r'(?<=[ (\[=+*/-])0\.5(?=\W)', '0.6'), (r'(?<=[ (\[=+*/-])(\d+)\.0?(?=\W)', r'\g<1>.5'), (r'\b(int64_t|ptrdiff_t|size_t|uint64_t|unsigned long int)\b', 'int'), (r'\bdouble\b', 'float'),
        (r'\bcontinue;', ';'), (r'\bbreak;', ';'), (r'\bwhile\b', 'if'), (r'(?<=[\w\])]) % (?=[\w(])', ' + '), (r'\bfloor\(', 'ceil('), (r'\bsin\(', 'cos('), (r'\bfabs\(', '(')]


def c_mutants(src, pyx=False):
    out = []
    infn, depth, incomment = '', 0, False
    pos = 0
    for no, l in enumerate(src.splitlines(True), 1):
        code = l
        st = l.strip()
        skip = st.startswith(('//', '*', '/*', '#include', '#ifndef', '#endif', 'cimport', 'from', 'import', 'raise', '@')) or (pyx and st.startswith('#'))
        if '/*' in l and '*/' not in l:
            incomment = True
        if not skip and not incomment and not re.match(r'^\s*(-?\d[\d.e+-]*\s*,\s*)+', l) and '"' not in l:
            m = re.match(r'^(?:static |cdef |inline |double |void |int |def |class )+.*?(\w+)\s*\(', l)
            if m and not l.startswith((' ', '\t')) or pyx and m:
                infn = m.group(1)
            body = code.split('//')[0] if not pyx else code.split('#')[0]
            for pat, rep in COPS:
                for m in re.finditer(pat, body):
                    s = src[:pos + m.start()] + m.expand(rep) + src[pos + m.end():]
                    out.append((no, infn, '%s -> %s' % (m.group(0), rep), s))
            if re.fullmatch(r'[\w\[\]\.\->]+\s*[-+*/]?=[^=].*;', st) or re.fullmatch(r'\w+\(.*\);', st):
                out.append((no, infn, 'drop statement', src[:pos] + l.replace(st, ';') + src[pos + len(l):]))
        if '*/' in l:
            incomment = False
        pos += len(l)
    return out


def checks_of(f, where):
    for pat, cs in MAP[f]:
        if pat == '' or re.search(r'(^|\.)(%s)' % pat, where) or re.search(pat, where) and '.' not in pat and len(pat) > 14:
            return cs.split()
    return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('files', nargs='+')
    ap.add_argument('-w', type=int, default=8)
    ap.add_argument('-j', type=int, default=1)
    ap.add_argument('--only', default='')
    ap.add_argument('--what', default='', help='only these changes (pattern)')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--part', type=float, default=.25)
    ap.add_argument('--line', default='')
    ap.add_argument('--every', type=int, default=1, help='only one in so many mutants')
    ap.add_argument('--phase', type=int, default=0)
    a = ap.parse_args()
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['what'], d['n']))
    jobs = []
    for f in a.files:
        src = open(os.path.join(REPO, 'pmesh', f)).read()
        ms = py_mutants(src) if f.endswith('.py') else c_mutants(src, f.endswith('.pyx'))
        seen, cnt = set(), {}
        for line, where, what, new in ms:
            if new in seen or new == src:
                continue
            seen.add(new)
            n = cnt[line, what] = cnt.get((line, what), -1) + 1
            if a.what and not re.match(a.what, what):
                continue
            if a.only and not re.search(a.only, where) or a.line and str(line) not in a.line.split(','):
                continue
            if zlib.crc32(('%s %s %s %s' % (f, line, what, n)).encode()) % a.every != a.phase:
                continue
            if (f, line, what, n) in done:
                continue
            jobs.append((f, line, where, what, n, new))
    print(len(jobs), 'mutants')
    if a.list:
        for j in jobs:
            print(j[0], j[1], j[2], j[3], checks_of(j[0], j[2]))
        return
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    base = tempfile.mkdtemp(prefix='mutate.', dir='/tmp')
    lock = threading.Lock()
    fo = open(a.out, 'a')

    def work(k):
        d = os.path.join(base, 'w%d' % k)
        repo, ver = d + '/repo', d + '/verif'
        subprocess.run(['cp', '-a', REPO, repo]) if os.makedirs(d) is None else 0
        os.makedirs(ver)
        subprocess.run('cp -a %s/mc %s/check %s/known_findings.json %s/; mkdir %s/.cache; cp -a %s/.cache/ext-* %s/.cache/' % (V, V, V, ver, ver, V, ver), shell=True)
        env = dict(os.environ, MC_REPO=repo, MC_STALL='120', VERIF_SEED='1', VERIF_TIER='quick')
        while True:
            try:
                f, line, where, what, n, new = q.get_nowait()
            except queue.Empty:
                return
            p = os.path.join(repo, 'pmesh', f)
            old = open(p).read()
            open(p, 'w').write(new)
            r, by, msg = 'survived', '', ''
            for c in checks_of(f, where):
                try:
                    x = subprocess.run(['./check', c, '-j', str(a.j), '--cap', '3000', '--maxviol', '1', '--part', str(a.part)], cwd=ver, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=3600)
                    code, o = x.returncode, x.stdout
                except subprocess.TimeoutExpired:
                    code, o = 9, 'timeout'
                if code == 1:
                    r, by = 'killed', c
                    break
                if code != 0:
                    r, by, msg = 'error', c, o[-600:]
                    break
            open(p, 'w').write(old)
            ol, nl = old.splitlines(), new.splitlines()
            diff = [(x, y) for x, y in zip(ol, nl) if x != y][:1]
            with lock:
                fo.write(json.dumps(dict(file=f, line=line, where=where, what=what, n=n, result=r, by=by, msg=msg, diff=diff, checks=checks_of(f, where))) + '\n')
                fo.flush()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(a.w)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(base)


main()
