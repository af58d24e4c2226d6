"""Shared machinery: registry of properties, monitors, runner, evidence.

A property module registers `@prop(id, ...)` objects.  Each has `plan(tier, rng)`
returning JSON-able *specs* (one workload each) and `run(spec, mon)`, which
drives the real code in /repo and feeds what it observes to the monitor `mon`.
Verdicts come only from the monitor's oracles.
"""
import os, sys, json, time, signal, hashlib, traceback, random
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import warnings
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')

REG = {}
CPU_LIMIT = 100         # CPU seconds allowed for one workload (typically < 3)
MAX_REPLAYS = 12


class Hang(BaseException):
    pass


class Prop(object):
    def __init__(self, pid, rule, floors=None, assumptions=(), fn=None, plan=None):
        self.id, self.rule = pid, rule
        self.floors = floors or {}
        self.assumptions = list(assumptions)
        self.plan, self.run = plan, fn


def prop(pid, rule, plan, floors=None, assumptions=()):
    def deco(fn):
        REG[pid] = Prop(pid, rule, floors, assumptions, fn, plan)
        return fn
    return deco


class Monitor(object):
    """Collects what was observed, and violations (by mechanism)."""

    def __init__(self, spec):
        self.spec = spec
        self.counts = {}
        self.viol = []
        self.sigs = set()
        self.samples = []
        self.worst = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def sig(self, *key):
        """A distinct, non-trivial situation that was really observed."""
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:16]
        self.sigs.add(h)

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def fail(self, mech, msg, **detail):
        self.viol.append({'mechanism': mech, 'message': str(msg)[:600],
                          'detail': {k: _js(v) for k, v in detail.items()}})

    def check(self, cond, mech, msg='', **detail):
        self.count('oracle:' + mech)
        ok = bool(cond)
        if not ok:
            self.fail(mech, msg or mech, **detail)
        return ok

    def close(self, a, b, tol, mech, msg='', rel=0.0, **detail):
        """a == b within tol + rel*max|b| (NaN never equal)."""
        a, b = np.asarray(a), np.asarray(b)
        self.count('oracle:' + mech)
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b)
            except ValueError:
                self.fail(mech, '%s: shape %s, expected %s' % (msg or mech, a.shape, b.shape), **detail)
                return False
        if a.size == 0:
            return True
        d = np.abs(a - b)
        lim = tol + rel * (np.abs(b).max() if rel else 0.0)
        m = d.max()
        if not (np.isfinite(m)):
            same = ((a == b) | (np.isnan(np.abs(a)) & np.isnan(np.abs(b))))
            if same.all():
                return True
            d = np.where(same, 0, d)
            d = np.where(np.isnan(d), np.inf, d)
            m = d.max()
        w = self.worst.get(mech, 0.0)
        r = float(m / lim) if lim > 0 else (0.0 if m == 0 else np.inf)
        self.worst[mech] = max(w, r)
        if not (m <= lim):
            i = np.unravel_index(int(np.argmax(d)), d.shape) if d.ndim else ()
            self.fail(mech, '%s: got %r, expected %r at %s (|diff| %.3g > tol %.3g)'
                      % (msg or mech, _js(a[i]), _js(b[i]), tuple(map(int, i)), m, lim), **detail)
            return False
        return True


def _js(v):
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        return v if np.isfinite(v) else repr(v)
    if isinstance(v, (complex, np.complexfloating)):
        return repr(complex(v))
    if isinstance(v, np.ndarray):
        return [_js(x) for x in v.ravel()[:40]]
    if isinstance(v, dict):
        return {str(k): _js(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [_js(x) for x in v]
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    return repr(v)[:200]


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def rng_for(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], 'little'))


def _in_repo(tb):
    root = os.path.join(os.path.realpath(REPO), 'pypower')
    last = None
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(root):
            last = os.path.basename(f)[:-3] + '.' + tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return last


def _alarm(sig, frm):
    raise Hang()


def run_spec(pid, spec):
    p = REG[pid]
    mon = Monitor(spec)
    np.random.seed(12345)
    random.seed(12345)
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT, 5)
    t0 = time.time()
    try:
        p.run(spec, mon)
    except Hang:
        mon.fail('no-result', 'no result after %d CPU seconds (such workloads take a few)' % CPU_LIMIT)
    except (MemoryError, KeyboardInterrupt) as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        return {'spec': spec, 'error': repr(e)}
    except BaseException as e:
        where = _in_repo(e.__traceback__)
        txt = traceback.format_exc()[-1800:]
        mon.fail('exception', '%s: %s%s' % (type(e).__name__, str(e)[:200],
                 ' (in pypower %s)' % where if where else ' (result could not be examined)'),
                 trace=txt)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return {'spec': spec, 'counts': mon.counts, 'viol': mon.viol, 'sigs': sorted(mon.sigs),
            'samples': mon.samples, 'worst': mon.worst, 'wall': time.time() - t0}


def _winit():
    # nothing printed by the code under test may reach our stdout
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(dn, 2)
    sys.stdout = os.fdopen(1, 'w', closefd=False)
    scratch = os.environ['VERIF_SCRATCH']
    os.chdir(scratch)


def _work(a):
    return run_spec(*a)


def load_known():
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    with open(f) as fh:
        return json.load(fh)['findings']


def match_known(known, pid, v):
    for k in known:
        if k.get('status') == 'open' and pid == k['property'] and v['mechanism'] == k['mechanism']:
            return k
    return None


def main(argv):
    import argparse, tempfile, shutil
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    pid = a.property
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    import pypower
    if not os.path.realpath(pypower.__file__).startswith(os.path.realpath(REPO)):
        print('error: pypower imported from %s' % pypower.__file__)
        return 2
    import props
    try:
        props.load(pid)
    except Exception:
        # a public entry point the property is about cannot even be imported
        traceback.print_exc()
        print('error: cannot load property %s' % pid)
        return 2
    p = REG[pid]
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    os.environ['VERIF_SCRATCH'] = scratch
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    t0 = time.time()
    try:
        if a.replay:
            with open(a.replay) as fh:
                specs = [json.load(fh)['spec']]
        else:
            specs = p.plan(tier, rng_for(pid, tier, seed()))
            specs = json.loads(json.dumps(specs, default=_js))
        jobs = a.jobs or min(8, os.cpu_count() or 1)
        out = []
        if len(specs) == 1 or jobs == 1:
            jobs = 1
        ctx = mp.get_context('fork')
        with ctx.Pool(jobs, initializer=_winit) as pool:
            for r in pool.imap_unordered(_work, [(pid, s) for s in specs], chunksize=1):
                out.append(r)
                if a.v:
                    print(json.dumps(r['spec'])[:150], '%.2fs' % r.get('wall', -1), r.get('counts'), len(r.get('viol', [])))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return report(p, tier, out, time.time() - t0, specs, a)


def report(p, tier, out, wall, specs, a):
    pid = p.id
    counts, sigs, worst, samples = {}, set(), {}, []
    errors = [r for r in out if 'error' in r]
    order = {json.dumps(s, sort_keys=True): i for i, s in enumerate(specs)}
    out = [r for r in out if 'error' not in r]
    out.sort(key=lambda r: order.get(json.dumps(r['spec'], sort_keys=True), 0))
    for r in out:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        sigs.update(r['sigs'])
        for k, v in r['worst'].items():
            worst[k] = max(worst.get(k, 0), v)
        if len(samples) < 4:
            for s in r['samples'][:1]:
                samples.append(s)
    if not samples:
        samples = [r['spec'] for r in out[:3]]
    known = load_known()
    viols, kf = [], {}
    for r in out:
        for v in r['viol']:
            k = match_known(known, pid, v)
            if k:
                kf.setdefault(k['mechanism'], k)
            else:
                viols.append((r['spec'], v))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed(), 'level': 'exploration',
        'coverage': {
            'evaluations': len(out), 'distinct_nontrivial': len(sigs), 'rule': p.rule,
            'samples': [_js(s) for s in samples],
            'observed': {k: v for k, v in sorted(counts.items()) if not k.startswith('oracle:')},
            'oracle_evaluations': {k[7:]: v for k, v in sorted(counts.items()) if k.startswith('oracle:')},
            'worst_error_over_tolerance': {k: _js(round(v, 6) if np.isfinite(v) else v) for k, v in sorted(worst.items())},
            'known_findings_seen': sorted(kf),
        },
        'assumptions': p.assumptions, 'wall_s': round(wall, 2), 'violations': len(viols),
    }
    if not a.replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    for k in sorted(kf):
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]['what']))
    n_or = sum(v for k, v in counts.items() if k.startswith('oracle:'))
    print('%s %s seed=%d: %d workloads, %d distinct situations, %d oracle evaluations, %d violations, %.1fs'
          % (pid, tier, seed(), len(out), len(sigs), n_or, len(viols), wall))
    if viols:
        rd = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rd, exist_ok=True)
        by = {}
        for s, v in viols:
            by.setdefault(v['mechanism'], []).append((s, v))
        for i, (m, lst) in enumerate(sorted(by.items())):
            s, v = lst[0]
            name = '%s-%s.json' % (pid, ''.join(c if c.isalnum() or c in '-_' else '_' for c in m)[:60])
            path = os.path.join(rd, name)
            if not a.replay:
                with open(path, 'w') as fh:
                    json.dump({'property': pid, 'tier': tier, 'seed': seed(), 'spec': s, 'violation': v,
                               'occurrences': len(lst),
                               'replay': './check.sh %s %s --replay %s' % (pid, tier, path)}, fh, indent=1)
            print('  %s (%d times): %s' % (m, len(lst), v['message']))
            if a.v and 'trace' in v['detail']:
                print(v['detail']['trace'])
            if i < MAX_REPLAYS:
                print('VIOLATION property=%s replay=%s' % (pid, path if not a.replay else a.replay))
        return 1
    if errors:
        print('error: %d workloads could not run: %s' % (len(errors), errors[0]['error']))
        return 2
    if not a.replay:
        low = {k: (counts.get(k, 0), v) for k, v in p.floors.items() if counts.get(k, 0) < v}
        if low or n_or == 0:
            print('inconclusive: the deciding monitor saw too little: %s' % low)
            return 2
    return 0
