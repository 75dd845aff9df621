#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, and per property what the check module declares, what it covered, and what it catches."""
import ast, glob, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(V, 'tools/design_head.md')).read()
TAIL = open(os.path.join(V, 'tools/design_tail.md')).read()

ORACLE = {
 'C01': 'interval geometry in exact arithmetic (mc/dom.py): the set of domains whose closed-open extent meets the smoothing interval, with all periodic images',
 'C02': 'the rows that left, found again by the ids that travelled through the same layout; bit patterns are compared',
 'C03': 'the reduction, over the copies that the layout delivered, written out row by row',
 'C04': 'the reference domain of the wrapped position; isprimary, load and decompose must all agree with it and with each other',
 'C05': 'the exhaustive optimum over all assignments; the counts of particles per reference domain',
 'C06': 'every rank returns, or every rank raises; deadlocks and mismatched collectives are exact states of the simulated MPI',
 'C07': 'the formula of each window (mc/win.py): B-splines as piecewise polynomials, Lanczos as the product of two sinc, wavelets by the cascade of their filters (mc/filters.json), images summed',
 'C08': 'the generic implementation of the same window; the window resized',
 'C09': 'unit fields: the readout of cell c must be the paint weight on cell c',
 'C10': 'the painting of the whole mesh, cut; guard cells around the canvas; bytes of the inputs before and after',
 'C11': 'the analytic derivative of the B-splines; difference quotients across the tables of the tabulated windows; sums of weights',
 'C12': 'the same call with canonical arguments; shifted and permuted canvases',
 'C13': 'powers of sinc in closed form and the Fourier integral of the window painted',
 'C14': 'pairwise comparison of the amplitudes and phases of all modes of a mesh, by sorting',
 'C15': 'the definition: rank of the mode in the order by shell; explicit ranges on small cubes, closed forms on large ones',
 'C16': 'the noise of the whole mesh generated serially, cut',
 'C17': 'conjugation of the assembled noise; moduli and phases against the plain noise',
 'C18': 'bitwise equality of the common modes of pairs of meshes',
 'C19': 'numpy.fft of the assembled mesh; bytes of the source before and after',
 'C20': 'the reference windows on the whole periodic mesh, serially',
 'C21': 'global index arithmetic per stored cell',
 'C22': 'numpy ravel of the assembled mesh',
 'C23': 'a plain global array with the conjugate partner written alongside; inverse transforms stay real',
 'C24': 'selection of modes of the assembled spectrum by their integer frequency',
 'C25': 'inner products with every unit vector, and difference quotients of the operation for the Jacobian products',
 'C26': 'numpy sums over the assembled (and, for compressed fields, decompressed) mesh',
 'C27': 'the reference windows and numpy sums on the assembled mesh',
 'C28': 'each mesh alone in a fresh world; values of transforms and paintings by the references of C19 and C20',
 'C29': 'the same program on plain global numpy arrays with explicit aliasing',
 'C30': 'numpy.transpose of the assembled mesh',
 'C31': 'the list of all cells in C order',
 'C32': 'the integral written out step by step on the whole mesh, serially',
 'C33': 'a sequential specification: every operation applied to per-image arrays at the synchronisation',
 'C34': 'the log of entries and exits of the turns; equal returned values',
 'C35': 'the linear and quadratic windows of mc/win.py',
 'C36': 'the documented factor evaluated mode by mode; histograms over all modes, weights counted on the decompressed spectrum',
 'C37': 'the reference windows, the transform of numpy, and the current engine',
 'C40': 'a model of who holds which plans and memories after every operation; compared with the number of process meshes, plans, memories and MPI types that were made and that are alive (weak references kept by the stand-ins)',
 'C41': 'matrices of the serial operations (numpy transforms and filters, windows painted one particle at a time), compared with the values, tangents and adjoints of every basis direction',
 'C39': 'an implementation in integers of RANLUX from its description (mc/ranlux.py), checked by the test value published with the GNU Scientific Library (number 10000 of seed 1 is 1998227290), and the order and formula written out',
 'C38': 'the same simulation on a serial reference mesh written in numpy',
}


def consts(f):
    d = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign):
            for tg in n.targets:
                for i, x in enumerate([tg] if isinstance(tg, ast.Name) else getattr(tg, 'elts', [])):
                    if getattr(x, 'id', '') in ('RULE', 'ASSUMPTIONS'):
                        d[x.id] = ast.literal_eval(n.value if isinstance(tg, ast.Name) else n.value.elts[i])
    return d


def main():
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    man = json.load(open(V + '/MANIFEST.json'))
    na = {p['property']: p['reason'] for p in man['not_applicable']}
    costs = json.load(open(V + '/tools/costs.json'))
    kf = json.load(open(V + '/known_findings.json'))['findings']
    bugs = {}
    for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
        m = json.load(open(f))
        bugs.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
    out = [HEAD.replace('@FIXED@', str(len([k for k in kf if k['status'] == 'fixed']))).replace('@BUGS@', str(sum(map(len, bugs.values()))))]
    out.append('## The properties\n')
    for p in props:
        i = p['id']
        out.append('### %s: %s\n' % (i, p['title']))
        if i in na:
            out.append('Not applicable: %s\n' % na[i])
            continue
        c = consts(V + '/mc/checks/%s.py' % i.lower())
        out.append('* Enumerated: %s.' % c['RULE'].rstrip('.'))
        out.append('* Oracle: %s.' % ORACLE[i])
        out.append('* Assumed: %s.' % '; '.join(c['ASSUMPTIONS']))
        for tier in 'quick', 'thorough':
            k = costs.get(i, {}).get(tier)
            if k:
                out.append('* %s: %d cases, %d states, %d transitions, %d executions, exhaustive within the bounds; about %d s on 8 cores.' % (tier.capitalize(), k['cases'], k['states'], k['transitions'], k['executions'], max(1, round(k['wall']))))
        out.append('* Beyond tests: %s' % p['why_tests_cant'])
        fx = [k for k in kf if k['property'] == i and k['status'] == 'fixed']
        if fx:
            out.append('* Found and repaired: ' + '; '.join('%s (%s)' % (k['what'].split(' ', 3)[3] if k['what'].startswith('fixed:') else k['what'], k['commit']) for k in fx) + '.')
        if i in bugs:
            out.append('* Planted bugs this check catches: ' + '; '.join('%s (%s)' % (n, m['what_it_breaks']) for n, m in bugs[i]) + '.')
        out.append('')
    out.append(TAIL)
    open(V + '/DESIGN.md', 'w').write('\n'.join(out))


main()
