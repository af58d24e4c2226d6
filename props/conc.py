"""P44: studies running at the same time."""
import os, random, shutil, sys, tempfile, threading, time
from .common import *
from .pf import n_of
from .misc import CB
from .ext import dcify

JOBS = ['pf1', 'pf2', 'pf3', 'pf4', 'qlim', 'dcpf', 'opf', 'opf', 'dcopf', 'cpf', 'ptdf', 'save', 'report', 'scale', 'reserves', 'iflims', 'dclines', 'usercost', 'pips', 'fields', 'options']
SMALL = ['case6ww', 'case9', 'case14', 'net5', 'net8', 'net15', 'case30']
POOL = ['loads', 'taps', 'shunts', 'splitgen', 'offgen', 'offbranch', 'isolated', 'renumber', 'shuffle', 'parallel', 'basemva', 'pwl', 'disp']


def plan44(tier, rng):
    out = []
    for k in range(n_of(tier, 80, 800)):
        n = int(rng.integers(3, 7))
        s = mkspecs(rng, n, SMALL, pool=POOL, p=.2)[:n]
        jobs = [str(rng.choice(JOBS)) for _ in range(n)]
        same_job = rng.random()
        if same_job < .45:
            jobs = [jobs[0]] * n                  # the same study of different networks
        if same_job < .12:
            s = [s[0]] * n                        # or even of the same case
        elif rng.random() < .3:
            s = [dict(x, base=s[0]['base']) for x in s]
        inside = k % 2 == 1
        if inside:
            jobs, s = jobs[:2], s[:2]
            if jobs[0] != jobs[1] and rng.random() < .7:
                jobs[1] = str(rng.choice(['pf1', 'pf2', 'pf3', 'dcpf', 'ptdf', 'scale', 'fields', 'options', 'pips']))
        if sum(j in ('opf', 'dclines', 'usercost', 'reserves') for j in jobs) > 3:
            jobs, s = jobs[:3], s[:3]
        out.append({'seed': int(rng.integers(1 << 40)), 'cases': s, 'jobs': jobs, 'shared': bool(rng.random() < .25), 'inside': inside, 'p': float(rng.choice([.01, .04, .15]))})
    return out


class Pauses(object):
    """random pauses between lines of pypower functions, and a record of which thread ran when"""

    def __init__(self, seed, p):
        import pypower
        self.root = os.path.dirname(os.path.abspath(pypower.__file__)) + os.sep
        self.seed, self.p, self.last, self.switches, self.pairs = seed, p, None, 0, set()
        self.lines = 0

    def tracer(self, k):
        rnd, root, me = random.Random(self.seed * 31 + k), self.root, self

        def line(frame, event, arg):
            if event == 'line':
                me.lines += 1
                if me.last is not None and me.last[0] != k:
                    me.switches += 1
                    if len(me.pairs) < 20000:
                        me.pairs.add((me.last[1], me.last[2], frame.f_code.co_name, frame.f_lineno))
                me.last = (k, frame.f_code.co_name, frame.f_lineno)
                if rnd.random() < me.p:
                    time.sleep(rnd.choice([0, 0, 1e-5, 2e-4]))
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(root) else None
        return call


class Interrupt(object):
    """runs a whole other study, in another thread, before chosen lines of pypower functions"""

    def __init__(self, other):
        import pypower
        self.root = os.path.dirname(os.path.abspath(pypower.__file__)) + os.sep
        self.seen, self.at, self.other, self.results = {}, None, other, []

    def line(self, frame, event, arg):
        if event == 'line':
            w = (frame.f_code.co_filename, frame.f_lineno)
            n = self.seen[w] = self.seen.get(w, 0) + 1
            if self.at is not None and self.at.get(w) == n:
                t = threading.Thread(target=lambda: self.results.append(self.other()))
                t.start()
                t.join()
        return self.line

    def call(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.root) else None


def numbers(x, depth=0):
    """everything numeric in a result, as a flat list of arrays"""
    if isinstance(x, dict):
        return sum((numbers(x[k], depth + 1) for k in sorted(x, key=str) if k not in ('et', 'om', 'raw', 'order', 'userfcn', 'output', 'hist')), [])
    if isinstance(x, (list, tuple)):
        return sum((numbers(v, depth + 1) for v in x), [])
    if hasattr(x, 'toarray'):
        return [x.toarray()]
    if isinstance(x, (np.ndarray, np.generic, int, float, complex, bool)) and np.asarray(x).dtype.kind in 'biufc':
        return [np.asarray(x)]
    return [x] if isinstance(x, str) else []


def make_job(kind, case, o, seed, tmp):
    """a function of no arguments running the study on the case and returning its results"""
    from pypower import api
    from pypower.runcpf import runcpf
    rng = np.random.default_rng(seed)
    c = lambda: copy(case)
    keep = ('bus', 'gen', 'branch', 'f', 'success', 'baseMVA', 'reserves', 'if', 'dcline', 'cost', 'lin', 'var')
    cut = lambda r: {k: r[k] for k in keep if k in r}
    with_ = lambda **kw: dict(o, **kw)
    if kind.startswith('pf'):
        return lambda: cut(api.runpf(case, with_(PF_ALG=int(kind[2]), PF_MAX_IT_GS=80))[0])
    if kind == 'qlim':
        return lambda: cut(api.runpf(case, with_(ENFORCE_Q_LIMS=1))[0])
    if kind == 'dcpf':
        return lambda: cut(api.rundcpf(case, with_())[0])
    if kind == 'opf':
        return lambda: cut(api.runopf(case, with_()))
    if kind == 'dcopf':
        d = dcify(c()) or case
        return lambda: cut(api.rundcopf(d, with_()))
    if kind == 'cpf':
        t = c()
        t['bus'][:, [PD, QD]] *= 1.3
        return lambda: [runcpf(case, t, with_(CPF_STOP_AT=.4, CPF_STEP=.1))[0][k] for k in ('bus', 'gen', 'branch', 'success', 'cpf')]
    if kind == 'ptdf':
        i = api.ext2int(c())
        def shift():
            H = api.makePTDF(i['baseMVA'], i['bus'], i['branch'])
            J = api.makeJac(i['baseMVA'], i['bus'], i['branch'], i['gen']) if hasattr(api, 'makeJac') else 0
            return [H, J, api.makeYbus(i['baseMVA'], i['bus'], i['branch']), api.makeBdc(i['baseMVA'], i['bus'], i['branch'])]
        return shift
    if kind == 'save':
        f = os.path.join(tmp, str(seed), 'mycase')         # every study has its own directory
        os.makedirs(os.path.dirname(f), exist_ok=True)
        def save():
            out = [api.savecase(f + ext, case) for ext in ('.py', '.mat')]
            return [os.path.basename(x) for x in out] + [{k: v for k, v in api.loadcase(x).items() if k in keep + ('gencost',)} for x in out]
        return save
    if kind == 'report':
        f = os.path.join(tmp, 'r%d' % seed)
        def report():
            if os.path.exists(f):
                os.remove(f)
            r = api.runpf(case, with_(OUT_ALL=1), f)[0]
            txt = open(f).read()
            return [cut(r), '\n'.join(l for l in txt.split('\n') if 'seconds' not in l)]
        return report
    if kind == 'scale':
        z = case['bus'][:, BUS_AREA].astype(int)
        return lambda: [api.scale_load(1.2, case['bus']), api.total_load(case['bus'], case['gen'], z), api.loadcase(case)['bus']]
    if kind == 'reserves':
        p = c()
        ng = len(p['gen'])
        p['reserves'] = {'zones': np.ones((1, ng)), 'req': np.array([5.]), 'cost': 1. + np.arange(ng), 'qty': np.full(ng, 40.)}
        return lambda: cut(api.runopf_w_res(p, with_()))
    if kind == 'iflims':
        from pypower.toggle_iflims import toggle_iflims
        p = c()
        k = np.flatnonzero(live_branch(p))[:2]
        p['if'] = {'map': np.array([[1, x + 1] for x in k]), 'lims': np.array([[1, -1e4, 1e4]])}
        return lambda: cut(api.rundcopf(toggle_iflims(copy(p), 'on'), with_()))
    if kind == 'dclines':
        from pypower.toggle_dcline import toggle_dcline
        p = c()
        a, b = [int(x) for x in p['bus'][live_bus(p), BUS_I][[0, -1]]]
        d = np.zeros((1, 17))
        d[0] = [a, b, 1, 2, 1.9, 0, 0, 1, 1, -5, 5, -5, 5, -5, 5, .1, .05]
        p['dcline'] = d
        return lambda: cut(api.runopf(toggle_dcline(copy(p), 'on'), with_()))
    if kind == 'usercost':
        p = c()
        lg = live_gen(p)
        nx = 2 * len(p['bus']) + 2 * len(p['gen'])
        from scipy.sparse import csr_matrix
        N = np.zeros((1, nx))
        N[0, 2 * len(p['bus']) + np.flatnonzero(lg)[0]] = 1
        p.update(N=csr_matrix(N), Cw=np.array([float(1 + seed % 50)]))
        return lambda: cut(api.runopf(p, with_()))
    if kind == 'pips':
        from pypower.api import qps_pypower
        n = int(rng.integers(3, 9))
        M = rng.normal(size=(n, n))
        from scipy.sparse import csr_matrix
        H, cc, A = csr_matrix(M @ M.T + np.eye(n)), rng.normal(size=n), csr_matrix(rng.normal(size=(2, n)))
        return lambda: [list(qps_pypower(H, cc, A, np.array([-1., -2]), np.array([1., 2]), -3 * np.ones(n), 3 * np.ones(n), np.zeros(n), {'alg': a}))[:3] for a in (200, 250)]
    if kind == 'fields':
        from pypower.e2i_field import e2i_field
        from pypower.i2e_field import i2e_field
        w = rng.normal(size=len(case['bus']))
        def fields():
            i = api.ext2int(copy(case))
            i['mine'] = {'w': w.copy()}
            i = e2i_field(i, ['mine', 'w'], 'bus')
            j = i['mine']['w'].copy()
            i['mine']['w'] = 2 * j
            i = i2e_field(i, ['mine', 'w'], 'bus')
            e = api.int2ext(i)
            return [j, e['mine']['w'], e['bus'], e['gen'], e['branch']]
        return fields
    if kind == 'options':
        def options():
            a = api.ppoption(PF_TOL=10.0 ** -int(3 + seed % 6), VERBOSE=0, OUT_ALL=0, OPF_VIOLATION=1e-5 * (1 + seed % 7))
            b = api.ppoption(a, PF_MAX_IT=3 + seed % 9)
            r = api.runpf(case, b)[0]
            return [dict((k, v) for k, v in sorted(b.items()) if not isinstance(v, str)), cut(r), dict((k, v) for k, v in sorted(api.ppoption().items()) if not isinstance(v, str))]
        return options
    raise KeyError(kind)


@prop('P44', 'groups of three to six studies - power flows, OPFs, continuation, market extensions, matrices, saving and loading, reports - of different, like or the same '
      'cases, run one after the other and then at the same time in threads that are switched every few microseconds and paused at random between lines; distinct by '
      '(studies, cases, pauses)', plan44, floors={'studies at the same time': 120, 'lines interrupted': 1500, 'thread switches': 6000, 'distinct switch points': 3000})
def p44(spec, mon):
    tmp = tempfile.mkdtemp(prefix='conc')
    try:
        run44(spec, mon, tmp)
    finally:
        shutil.rmtree(tmp)


def run44(spec, mon, tmp):
    cases = [C.floats(build(s)) for s in spec['cases']]
    if spec['shared']:
        cases = [cases[0]] * len(cases)
    shared_o = opts(PDIPM_MAX_IT=60)
    jobs = []
    for k, (kind, case) in enumerate(zip(spec['jobs'], cases)):
        if kind in ('opf', 'dcopf', 'reserves', 'iflims', 'dclines', 'usercost') and 'gencost' not in case:
            kind = 'pf1'
        jobs.append((kind, make_job(kind, case, shared_o, spec['seed'] % 1000 * 10 + k, tmp)))
    before = [copy(c) for c in cases]
    o0 = dict(shared_o)

    def run(f):
        try:
            return numbers(f())
        except Exception as e:
            return ['%s: %s' % (type(e).__name__, e)]
    alone = [run(f) for _, f in jobs]
    if spec['inside']:
        watch = Interrupt(lambda: run(jobs[1][1]))

        def traced():
            sys.settrace(watch.call)
            try:
                out.append(run(jobs[0][1]))
            finally:
                sys.settrace(None)
        for k in (0, 1):
            if k:
                # the other study comes in once before each of the chosen lines
                lines = sorted(watch.seen)
                rng = rng_for('p44', spec['seed'])
                m = min(len(lines), {'opf': 7, 'dclines': 7, 'usercost': 7, 'reserves': 7, 'cpf': 10, 'pf4': 10, 'qlim': 20, 'pips': 40, 'dcopf': 40, 'iflims': 40}.get(jobs[1][0], 200))
                watch.at = {lines[i]: int(rng.integers(1, min(watch.seen[lines[i]], 6) + 1)) for i in rng.permutation(len(lines))[:m]}
                watch.seen = {}
            out = []
            t = threading.Thread(target=traced)
            t.start()
            t.join()
        mon.count('lines interrupted', len(watch.results))
        mon.sig('inside', jobs[0][0], jobs[1][0], tuple(s['base'] for s in spec['cases'][:2]))
        compare(mon, jobs[0][0], jobs[:2], alone[0], out[0])
        for r in watch.results:
            compare(mon, jobs[1][0], jobs[:2], alone[1], r)
        return unchanged(mon, cases, before, shared_o, o0)
    P = Pauses(spec['seed'], spec['p'])
    res, gate = [None] * len(jobs), threading.Barrier(len(jobs))

    def go(k):
        gate.wait()
        sys.settrace(P.tracer(k))
        try:
            res[k] = run(jobs[k][1])
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-6)
    try:
        th = [threading.Thread(target=go, args=(k,)) for k in range(len(jobs))]
        for t in th:
            t.start()
        for t in th:
            t.join()
    finally:
        sys.setswitchinterval(old)
    mon.count('studies at the same time', len(jobs))
    mon.count('thread switches', P.switches)
    mon.count('distinct switch points', len(P.pairs))
    mon.count('lines run', P.lines)
    mon.sig(tuple(sorted(j for j, _ in jobs)), tuple(sorted(s['base'] for s in spec['cases'])), spec['shared'], spec['p'])
    for k, (kind, _) in enumerate(jobs):
        mon.count('study ' + kind)
        compare(mon, kind, jobs, alone[k], res[k])
    unchanged(mon, cases, before, shared_o, o0)


def compare(mon, kind, jobs, a, b):
    if a and isinstance(a[0], str) and len(a) == 1:
        mon.count('study ends in an exception')
    if not mon.check(b is not None and len(a) == len(b) and all(isinstance(x, str) == isinstance(y, str) and np.shape(x) == np.shape(y) for x, y in zip(a, b)), 'concurrent',
                     '%s next to %s: other results than alone: %s' % (kind, [j for j, _ in jobs], b[:1] if b and isinstance(b[0], str) else 'shapes differ')):
        return
    for x, y in zip(a, b):
        if isinstance(x, str):
            mon.check(x == y, 'concurrent', '%s next to %s: text differs' % (kind, [j for j, _ in jobs]))
        else:
            z = np.where(np.isfinite(x), abs(x), 0).max(initial=0) if x.dtype.kind in 'fc' else 0
            mon.check(np.allclose(x, y, rtol=1e-7, atol=1e-9 * (1 + z), equal_nan=True), 'concurrent', '%s next to %s: numbers differ by %.3g' %
                      (kind, [j for j, _ in jobs], np.nanmax(abs(np.where(np.isfinite(x), x, 0) - np.where(np.isfinite(y), y, 0)).astype(float), initial=0)))


def unchanged(mon, cases, before, shared_o, o0):
    for c, d in zip(cases, before):
        for k in ('bus', 'gen', 'branch', 'gencost'):
            if k in d:
                same(mon, c[k], d[k], 'inputs-kept', k + ' changed')
    mon.check(shared_o == o0, 'inputs-kept', 'options shared by the studies changed')
