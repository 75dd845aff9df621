"""
The runner: enumerates the cases of a check over a pool of worker processes,
turns violations into replayable artefacts, applies the known-findings file and
writes the evidence.

A check is a module mc.checks.<id> with

    ID, NEED, RULE, ASSUMPTIONS, LEVEL (default model_checking)
    cases(tier)  -> iterable of JSON-able cases, simplest first
    run(case, R) -> explores the case completely; reports to R, a Recorder
"""
import argparse
import fnmatch
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STALL = float(os.environ.get('MC_STALL', '400'))    # seconds without progress in one case


class HarnessError(Exception):
    pass


class Stop(Exception):
    """Enough violations in this case."""


class Recorder(object):
    """What one case reports."""

    def __init__(self):
        self.states = set()
        self.nst = 0
        self.transitions = 0
        self.traces = 0
        self.schedules = 0
        self.outcomes = set()
        self.extra = {}
        self.samples = []
        self.violations = []
        self.maxviol = 4

    def state(self, *key):
        """a distinct state/input of the space explored (canonical form)."""
        self.states.add(hash_of(key))

    def nstates(self, n):
        """n further distinct states (the caller guarantees they are distinct)."""
        self.nst += int(n)

    def step(self, n=1):
        """operations of the implementation executed."""
        self.transitions += n

    def trace(self, n=1):
        """complete executions of the implementation compared with the reference."""
        self.traces += n

    def outcome(self, *key):
        self.outcomes.add(hash_of(key))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def violation(self, key, what, **detail):
        """
        key: identifies the failing input, call site or history.
        """
        self.violations.append(dict(key=key, what=what, detail=jsonable(detail)))
        if len(self.violations) >= self.maxviol:
            raise Stop()

    def check(self, cond, key, what, **detail):
        if not cond:
            self.violation(key, what, **detail)
        return cond


def hash_of(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


def jsonable(x):
    import numpy
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, numpy.ndarray):
        if x.size > 64:
            return dict(shape=list(x.shape), dtype=str(x.dtype), head=jsonable(x.ravel()[:32].tolist()))
        return jsonable(x.tolist())
    if isinstance(x, numpy.generic):
        return jsonable(x.item())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def _in_target(tb):
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if 'pmesh_r' in f or f.endswith('.pyx') or 'pmesh/_' in f:
            return True
        tb = tb.tb_next
    return False


def load_check(pid):
    return importlib.import_module('mc.checks.' + pid.lower())


def run_case(check, case):
    from . import vmpi
    R = Recorder()
    try:
        check.run(case, R)
    except Stop:
        pass
    except vmpi.Unsupported as e:
        raise HarnessError('the tree uses an MPI feature the simulation lacks: %s' % e)
    except HarnessError:
        raise
    except (vmpi.VMPIError, Exception) as e:
        if isinstance(e, vmpi.VMPIError) or _in_target(e.__traceback__):
            R.violations.append(dict(key='raises:%s' % type(e).__name__,
                                     what='unexpected %s: %s' % (type(e).__name__, e),
                                     detail=dict(traceback=traceback.format_exc()[-3000:])))
        elif isinstance(e, (ImportError, NameError, MemoryError, OSError)) or isinstance(e, AttributeError) and 'module' in str(e):
            raise
        else:
            # what the implementation returned does not fit the property: its comparison with the reference failed
            R.violations.append(dict(key='form:%s' % type(e).__name__,
                                     what='the results are not of the form expected: %s: %s' % (type(e).__name__, e),
                                     detail=dict(traceback=traceback.format_exc()[-3000:])))
    return R


def _worker(pid, idx, nworkers, cases, prog, stopflag, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        check = load_check(pid)
        if hasattr(check, 'setup'):
            check.setup()
        while True:
            with prog['next'].get_lock():
                i = prog['next'].value
                prog['next'].value += 1
            if i >= len(cases) or stopflag.value:
                break
            prog['at'][idx] = i
            prog['t'][idx] = time.time()
            R = run_case(check, cases[i])
            conn.send(('case', i, dict(states=len(R.states) + R.nst, transitions=R.transitions, traces=R.traces,
                                       outcomes=list(R.outcomes), extra=R.extra, samples=R.samples,
                                       violations=R.violations)))
        conn.send(('end', None, None))
    except BaseException as e:
        conn.send(('error', prog['at'][idx], traceback.format_exc()))
    finally:
        conn.close()


def explore(pid, cases, tier, cap, log, maxviol=3, nworkers=None, known=lambda v: False):
    """Returns (results by case, errors, capped)"""
    ctx = mp.get_context('fork')
    n = nworkers or min(os.cpu_count() or 4, 8, max(1, len(cases)))
    prog = dict(next=ctx.Value('l', 0), at=ctx.Array('l', [-1] * n), t=ctx.Array('d', [0.0] * n))
    stopflag = ctx.Value('i', 0)
    procs, conns = [], []
    for k in range(n):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(pid, k, n, cases, prog, stopflag, b), daemon=True)
        p.start()
        b.close()
        procs.append(p)
        conns.append(a)
    results, errors = {}, []
    t0 = time.time()
    live = dict(enumerate(conns))
    capped = False
    nviol = 0
    while live:
        ready = mp.connection.wait(list(live.values()), timeout=2.0)
        for c in ready:
            k = [i for i, x in live.items() if x is c][0]
            try:
                kind, i, payload = c.recv()
            except EOFError:
                procs[k].join(10)
                at = prog['at'][k]
                results[at] = dict(states=0, transitions=0, traces=0, outcomes=[], extra={}, samples=[],
                                   violations=[dict(key='crash', what='the process died (%s) while running this case'
                                                    % procs[k].exitcode, detail={})])
                nviol += 1
                stopflag.value = 1
                del live[k]
                continue
            if kind == 'case':
                results[i] = payload
                if any(not known(v) for v in payload['violations']):
                    nviol += 1
                    if nviol >= maxviol:
                        stopflag.value = 1
            elif kind == 'error':
                errors.append((i, payload))
                stopflag.value = 1
                del live[k]
            else:
                del live[k]
        now = time.time()
        for k in list(live):
            if prog['t'][k] and now - prog['t'][k] > STALL and not ready:
                at = prog['at'][k]
                procs[k].kill()
                results[at] = dict(states=0, transitions=0, traces=0, outcomes=[], extra={}, samples=[],
                                   violations=[dict(key='stall', what='no progress for %d s: the case does not terminate'
                                                    % STALL, detail={})])
                stopflag.value = 1
                live[k].close()
                del live[k]
        if cap and now - t0 > cap and not stopflag.value:
            capped = True
            stopflag.value = 1
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    return results, errors, capped


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--cap', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=None)
    ap.add_argument('--maxviol', type=int, default=3, help='stop at this number of cases with violations')
    ap.add_argument('--part', type=float, default=0)
    ap.add_argument('--all', action='store_true', help='do not stop at the first violations')
    a = ap.parse_args(argv)
    pid = a.property
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from . import env
    check = load_check(pid)
    env.prepare(getattr(check, 'NEED', env.build.ALL))
    tb = time.time() - t0

    if a.replay:
        art = json.load(open(a.replay))
        if hasattr(check, 'setup'):
            check.setup()
        R = run_case(check, art['case'])
        for v in R.violations:
            print(v['key'], v['what'])
            print(json.dumps(v['detail'], indent=1)[:6000])
        print('%d violation(s) in this case' % len(R.violations))
        return 1 if R.violations else 0

    cases = [json.loads(json.dumps(c)) for c in check.cases(tier)]
    if a.part:
        # development only (tools/mutate.py): a part of the cases, spread over all kinds
        cases.sort(key=lambda c: hash_of(json.dumps(c, sort_keys=True)))
        cases = cases[:max(8, int(len(cases) * a.part))]
    cap = a.cap or (600 if tier == 'quick' else 3 * 3600)
    kf = [f for f in known_findings() if f['property'] == pid and f['status'] == 'open']

    def is_known(v):
        return any(v['key'] == f['key'] or v['key'] in f.get('keys', ()) for f in kf)

    # the cap leaves room for the build in a budget of 900 s
    results, errors, capped = explore(pid, cases, tier, cap, print, nworkers=a.j, known=is_known,
                                      maxviol=10**9 if a.all else a.maxviol)

    states = sum(r['states'] for r in results.values())
    transitions = sum(r['transitions'] for r in results.values())
    traces = sum(r['traces'] for r in results.values())
    outcomes = set()
    extra = {}
    samples = []
    viols, knowns = [], {}
    for i in sorted(results):
        r = results[i]
        outcomes.update(r['outcomes'])
        for k, v in r['extra'].items():
            extra[k] = extra.get(k, 0) + v
        if len(samples) < 4 and r['samples']:
            samples.append(dict(case=cases[i], observed=r['samples'][0]))
        for v in r['violations']:
            hit = [f for f in kf if v['key'] == f['key'] or v['key'] in f.get('keys', ())]
            if hit:
                knowns[hit[0]['key']] = hit[0]
            else:
                viols.append((i, v))
    if not samples and results:
        samples = [dict(case=cases[i]) for i in sorted(results)[:2]]
    wall = time.time() - t0
    exhaustive = (not capped and not errors and len(results) == len(cases))
    cov = dict(states=states, transitions=transitions, traces_validated_against_impl=traces,
               distinct_outcomes=len(outcomes), cases=len(results), cases_total=len(cases),
               exhaustive=bool(exhaustive), rule=check.RULE, samples=jsonable(samples), build_s=round(tb, 1))
    for k, v in extra.items():
        cov['n_' + k] = v
    level = getattr(check, 'LEVEL', 'model_checking')
    if level == 'exploration':
        cov['evaluations'] = traces
        cov['distinct_nontrivial'] = states
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(check.ASSUMPTIONS), wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d/%d cases, states=%d transitions=%d executions=%d outcomes=%d %s build=%.1fs wall=%.1fs%s' % (
        pid, tier, len(results), len(cases), states, transitions, traces, len(outcomes),
        ' '.join('%s=%d' % kv for kv in sorted(extra.items())), tb, wall, ' CAPPED' if capped else ''))
    for k, f in sorted(knowns.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    if errors and not viols:
        for i, e in errors:
            print('harness error in case %r\n%s' % (cases[i] if i >= 0 else None, e), file=sys.stderr)
        return 2
    if viols:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        shown = set()
        for i, v in viols:
            art = dict(property=pid, case=cases[i], key=v['key'], what=v['what'], detail=v['detail'],
                       replay='cd /verif && ./check %s --replay <this file>' % pid)
            h = hashlib.sha256(json.dumps([cases[i], v['key']], sort_keys=True).encode()).hexdigest()[:10]
            p = os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, h))
            with open(p, 'w') as f:
                json.dump(art, f, indent=1)
            if len(shown) < 5:
                shown.add(h)
                print('VIOLATION property=%s replay=%s' % (pid, p))
                print('    case %s' % json.dumps(cases[i])[:400])
                print('    key  %s' % v['key'])
                print('    %s' % v['what'][:1500])
        return 1
    if not results or traces == 0:
        print('nothing was explored', file=sys.stderr)
        return 2
    return 0


