"""Interior-point solvers: P25 quadratic programs, P26 nonlinear programs."""
import contextlib
from .common import *
from .pf import n_of
from scipy import sparse as sp

BIG = 1e10


# ------------------------------------------------------------------ P25
KINDS = ['lp', 'qp', 'diag', 'lowrank', 'lp', 'qp']
TWISTS = ['eq', 'onesided', 'fixed', 'free', 'bigbound', 'dupcol', 'redundant', 'integers', 'emptyrow', 'scaled', 'nobounds', 'norows', 'noupper', 'nolower']
TOLS = ('feastol', 'gradtol', 'comptol', 'costtol')
CONDS = ('feascond', 'gradcond', 'compcond', 'costcond')


def tolerances(rng, mult=1):
    """some of the four termination tolerances, tighter or looser than the default"""
    if mult != 1 or rng.random() < .5:
        return {}
    return {t: float(10 ** rng.uniform(-9, -6)) for t in TOLS if rng.random() < .4}


def stops(mon, hist, ok, tol, it, limit):
    """the final record meets every termination tolerance exactly when the solver says it has converged, and no earlier record does"""
    tol = [float(tol.get(t, 1e-6)) for t in TOLS]
    met = [all(h[c] < t for c, t in zip(CONDS, tol)) for h in hist]
    mon.count('final records')
    if ok:
        mon.check(met[-1], 'stop', 'converged with %s against tolerances %s' % ([float(hist[-1][c]) for c in CONDS], tol))
    mon.check(not any(met[:-1]) and (ok or not met or not met[-1]), 'stop', 'went on although record %d meets the tolerances' % (met.index(True) if True in met else -1))
    if not ok and it < limit:
        mon.count('gave up early')



def plan25(tier, rng):
    out = []
    for k in range(n_of(tier, 600, 12000)):
        out.append({'seed': int(rng.integers(1 << 40)), 'kind': str(rng.choice(KINDS)),
                    'n': int(rng.integers(1, 7 if k % 3 else 26)), 'm': int(rng.integers(0, 8 if k % 3 else 30)),
                    'tw': [t for t in TWISTS if rng.random() < .22],
                    'end': str(rng.choice(['ok'] * 6 + ['infeasible', 'unbounded', 'cap', 'degenerate'])),
                    'alg': int(rng.choice([0, 200, 250])),
                    'form': str(rng.choice(['args', 'args', 'dict', 'pips', 'pips-dict', 'kw'])),
                    'mult': float(rng.choice([1, 1, 1, 1e-3, 100]))})
    return out


def make_qp(spec):
    rng = rng_for('qp', spec['seed'])
    n, m, tw, kind = spec['n'], spec['m'], spec['tw'], spec['kind']
    if 'norows' in tw:
        m = 0
    A = rng.normal(size=(m, n)) * (rng.random((m, n)) < rng.uniform(.3, 1))
    if 'integers' in tw:
        A = np.round(3 * A)
    if 'emptyrow' in tw and m:
        A[rng.integers(m)] = 0
    if 'dupcol' in tw and n > 1:
        A[:, 0] = A[:, 1]
    if kind == 'lp':
        H = np.zeros((n, n))
    elif kind == 'diag':
        H = np.diag(rng.uniform(0, 5, n) * (rng.random(n) < .7))
    else:
        r = n if kind == 'qp' else max(1, n // 2)
        F = rng.normal(size=(r, n))
        H = F.T @ F
    x = rng.normal(size=n) * rng.choice([1, 3, 30])         # a feasible point
    lo, hi = x - rng.exponential(3, n), x + rng.exponential(3, n)
    if 'fixed' in tw:
        k = rng.random(n) < .3
        lo[k] = hi[k] = x[k]
    if 'free' in tw and kind in ('qp',):
        k = rng.random(n) < .5
        lo[k], hi[k] = -np.inf, np.inf
    if 'onesided' in tw and kind == 'qp':
        lo[rng.random(n) < .3] = -np.inf
        hi[rng.random(n) < .3] = np.inf
    Ax = A @ x
    l, u = Ax - rng.exponential(4, m), Ax + rng.exponential(4, m)
    if m:
        s = rng.random(m)
        if 'eq' in tw:
            k = np.flatnonzero(s < .4)[:max(0, n - 1)]
            l[k] = u[k] = Ax[k]
        if 'onesided' in tw:
            l[(s > .4) & (s < .6)] = -np.inf
            u[(s > .6) & (s < .8)] = np.inf
        l[s > .95] = -np.inf
        u[s > .95] = np.inf
        if 'bigbound' in tw:
            l[np.isinf(l)] = -1e10
            u[np.isinf(u)] = 1e12
        if 'redundant' in tw and m > 1 and l[0] != u[0]:
            A[-1], l[-1], u[-1] = A[0], l[0], u[0] + 1
        k = ~A.any(axis=1) & (l == u)         # an empty row cannot be an equality
        l[k] -= 1
    if 'scaled' in tw:
        f = 10 ** rng.uniform(-2, 2, m)
        A, l, u = A * f[:, None], l * f, u * f
    c = rng.normal(size=n) * rng.choice([1, 10])
    if 'integers' in tw:
        c = np.round(c)
    none = []
    if 'nobounds' in tw and kind == 'qp':
        lo[:], hi[:] = -np.inf, np.inf
        none = ['xmin', 'xmax']
    elif kind == 'qp' and 'noupper' in tw:
        hi[:] = np.inf
        none = ['xmax']
    elif kind == 'qp' and 'nolower' in tw:
        lo[:] = -np.inf
        none = ['xmin']
    # endings
    if spec['end'] == 'infeasible':
        if m and rng.random() < .6:
            k = rng.integers(m)
            e = 5 + rng.exponential(10)
            A = np.vstack([A, A[k]])
            b = u[k] if u[k] < BIG else Ax[k]
            u[k] = b
            l = np.r_[l, b + e * (1 + abs(A[k]).sum())]
            u = np.r_[u, np.inf]
        else:
            A = np.vstack([A, np.ones(n)])
            hi = np.where(hi < BIG, hi, x + 5)
            none = [q for q in none if q != 'xmax']
            l = np.r_[l, hi.sum() + 5 + rng.exponential(10)]
            u = np.r_[u, np.inf]
    elif spec['end'] == 'unbounded':
        k = int(rng.integers(n))
        H[k, :] = 0
        H[:, k] = 0
        A[:, k] = 0
        c[k] = rng.choice([-1, 1]) * rng.uniform(.5, 3)
        lo[k], hi[k] = (-np.inf, x[k]) if c[k] > 0 else (x[k], np.inf)
        none = [q for q in none if np.isinf({'xmin': lo, 'xmax': hi}[q]).all()]
    elif spec['end'] == 'degenerate':
        # singular systems: equality rows stated twice, empty equality rows, variables that appear nowhere, contradictions
        k = int(rng.integers(1, 4))
        E = rng.normal(size=(k, n)) * (rng.random((k, n)) < .6)
        if rng.random() < .3:
            E[0] = 0
        E = np.vstack([E, E[rng.integers(0, k, 2)]])
        b = E @ x
        if rng.random() < .2:
            b[-1] += 1
        A, l, u = np.vstack([A, E]), np.r_[l, b], np.r_[u, b]
        if rng.random() < .5:
            j = int(rng.integers(n))
            H[j, :] = H[:, j] = A[:, j] = c[j] = 0
            if rng.random() < .7:
                lo[j], hi[j] = -np.inf, np.inf
            b = np.flatnonzero(np.arange(len(l)) >= len(l) - len(E))
            if l[b[-1]] == (E @ x)[-1]:
                l[b] = u[b] = A[b] @ x
    x0 = [None, x + rng.normal(size=n), np.clip(rng.normal(size=n), lo, hi)][rng.integers(3)]
    return dict(H=H, c=c, A=A, l=l, u=u, xmin=lo, xmax=hi, x0=x0, none=none)


def call_qp(spec, q, mon):
    from pypower.api import qps_pypower
    from pypower.qps_pips import qps_pips
    m = len(q['A'])
    H = sp.csr_matrix(q['H']) if q['H'].any() or spec['kind'] != 'lp' else [None, sp.csr_matrix(q['H'].shape)][spec['seed'] % 2]
    A = sp.csr_matrix(q['A']) if m else None
    l, u = (q['l'].copy(), q['u'].copy()) if m else (None, None)
    if m and spec['seed'] % 3 == 0:
        l = None if np.all(l <= -BIG) else l
        u = None if np.all(u >= BIG) else u
    lo = None if 'xmin' in q['none'] else q['xmin'].copy()
    hi = None if 'xmax' in q['none'] else q['xmax'].copy()
    x0 = None if q['x0'] is None else q['x0'].copy()
    opt = {}
    if spec['end'] == 'cap':
        opt['max_it'] = int(spec['seed'] % 9)
        if spec['form'] in ('args', 'dict', 'kw') and opt['max_it'] == 0:
            mon.count('default iteration limit by 0')
    form = spec['form']
    tol = tolerances(rng_for('qp-tol', spec['seed']), spec['mult'])
    if form.startswith('pips'):
        opt.update(tol)
        if spec['alg'] == 250:
            opt['step_control'] = True
        if spec['mult'] != 1:
            opt['cost_mult'] = spec['mult']
        alg = None
    else:
        opt['alg'] = spec['alg']
        if spec['mult'] != 1:
            opt['pips_opt'] = {'cost_mult': spec['mult']}
        if tol:
            opt['pips_opt'] = dict(opt.get('pips_opt', {}), **tol)
    args = dict(H=H, c=q['c'].copy(), A=A, l=l, u=u, xmin=lo, xmax=hi, x0=x0, opt=opt)
    keep = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in args.items()}
    if 'pips_opt' in opt:
        keep['opt']['pips_opt'] = dict(opt['pips_opt'])
    fn = qps_pips if form.startswith('pips') else qps_pypower
    if form.endswith('dict'):
        d = {k: v for k, v in args.items() if v is not None or (form == 'pips-dict' and k in 'HcAlu')}
        ks = set(d)
        r = fn(d)
    elif form == 'kw':
        r = fn(**{k: v for k, v in args.items() if v is not None or k == 'H'})
    else:
        r = fn(*[args[k] for k in ('H', 'c', 'A', 'l', 'u', 'xmin', 'xmax', 'x0', 'opt')])
    for k in keep:
        a, b = keep[k], args[k]
        if k in 'HA' and a is not None:
            a, b = a.toarray(), b.toarray()
        if k == 'opt' or a is None:
            if k != 'opt':
                continue
            # the caller's choices are still there (defaults may be filled in)
            mon.check(all(b.get(x) == a[x] for x in a if x != 'pips_opt'), 'inputs-kept', 'options changed: %r -> %r' % (a, b))
            continue
        same(mon, b, a, 'inputs-kept', 'problem data %s changed by the solver' % k)
    return r, opt, tol


def lp_status(q):
    from scipy.optimize import linprog
    A, l, u = q['A'], q['l'], q['u']
    G, h = [], []
    for k in range(len(A)):
        if u[k] < BIG:
            G.append(A[k]), h.append(u[k])
        if l[k] > -BIG:
            G.append(-A[k]), h.append(-l[k])
    b = [(None if a <= -BIG else a, None if z >= BIG else z) for a, z in zip(q['xmin'], q['xmax'])]
    s = linprog(q['c'], A_ub=np.array(G) if G else None, b_ub=h if G else None, bounds=b, method='highs')
    return s


def qp_kkt(mon, q, x, f, lm, sc=1.0, pre=''):
    """first-order conditions (sufficient: convex)"""
    n, m = len(x), len(q['A'])
    if not mon.check(np.shape(x) == (n,) and np.isfinite(x).all(), pre + 'solution', 'solution vector %r' % (x,)):
        return
    for k, z in (('mu_l', m), ('mu_u', m), ('lower', n), ('upper', n)):
        if not mon.check(np.shape(lm[k]) == (z,), pre + 'multiplier-size', '%s has shape %r' % (k, np.shape(lm[k]))):
            return
    g = q['H'] @ x + q['c']
    sl = []
    Ax = q['A'] @ x
    rows = [(Ax, q['l'], q['u'], lm['mu_l'], lm['mu_u'], 'row'), (x, q['xmin'], q['xmax'], lm['lower'], lm['upper'], 'bound')]
    zmax = max([0] + [np.r_[b[abs(b) < BIG] - v[abs(b) < BIG]].__abs__().max(initial=0) for v, a, b, *_ in rows for b in (a, b)])
    M = max([1] + [abs(np.asarray(lm[k])).max(initial=0) for k in ('mu_l', 'mu_u', 'lower', 'upper')])
    mon.close(f, .5 * x @ q['H'] @ x + q['c'] @ x, 1e-9 * (1 + abs(q['H']).sum() * abs(x).max() ** 2 + abs(q['c'] @ x) + abs(q['c']).sum()),
              pre + 'objective', 'objective value')
    tf = 2e-6 * (1 + max(abs(x).max(), zmax)) * sc
    tc = 1e-4 * sc * (1 + abs(x).max()) + 1e-5 * max(1.0, zmax) * sc
    for v, a, b, ml, mu, nm in rows:
        if len(v) == 0:
            continue
        mon.check(np.all(v >= a - tf) and np.all(v <= b + tf), pre + 'feasible', '%s violated by %.3g (tolerance %.3g)' %
                  (nm, max((a - v).max(), (v - b).max()), tf))
        mon.check(np.all(ml >= -1e-9 * M) and np.all(mu >= -1e-9 * M), pre + 'mu-sign', 'negative multiplier (%s)' % nm)
        for w, s, far in ((ml, v - a, a <= -BIG), (mu, b - v, b >= BIG)):
            mon.check(not np.any(w[far]), pre + 'mu-infinite', 'multiplier on an absent limit (%s)' % nm)
            k = ~far
            e = abs(w[k] * s[k]).max(initial=0)
            mon.check(e <= tc + M * tf, pre + 'complementary', '%s: multiplier times slack %.3g (tolerance %.3g)' % (nm, e, tc + M * tf))
            mon.count('active limits', int((w > 1e-4).sum()))
    r = g + q['A'].T @ (lm['mu_u'] - lm['mu_l']) + lm['upper'] - lm['lower']
    mon.close(r, 0 * r, sc * (2e-6 * (1 + M) + 2e-5 * (1 + abs(q['A']).sum(0))) if m else sc * (2e-6 * (1 + M) + 4e-5), pre + 'stationary',
              'gradient of the Lagrangian') if not m else \
        mon.close(r / (sc * (2e-6 * (1 + M) + 2e-5 * (1 + abs(q['A']).sum(0)))), 0 * r, 1.0, pre + 'stationary', 'gradient of the Lagrangian (scaled)')


@prop('P25', 'random convex quadratic and linear programs (equalities, one-sided/absent/fixed/huge bounds, redundant and empty rows, scaling, '
      'infeasible, unbounded, iteration caps) through each calling form and both algorithms; distinct by (kind, twists, ending, form, algorithm)',
      plan25, floors={'solved': 300, 'infeasible': 30, 'unbounded': 30, 'degenerate': 30, 'active limits': 500, 'lp compared': 60})
def p25(spec, mon):
    q = make_qp(spec)
    if not len(q['A']) and not q['H'].any() and set(q['none']) >= {'xmin', 'xmax'}:
        return
    (x, f, flag, out, lm), opt, tol = call_qp(spec, q, mon)
    mon.count('runs')
    end = spec['end']
    ok = bool(flag) and flag > 0
    mon.sig(spec['kind'], tuple(spec['tw']), end, spec['form'], spec['alg'])
    mon.check(out['iterations'] <= (opt.get('max_it') or 150), 'iteration-limit', '%d iterations with limit %s' % (out['iterations'], opt.get('max_it')))
    mon.check(('Converged' in str(out.get('message', ''))) == ok, 'message', 'flag %r with message %r' % (flag, out.get('message')))
    if not spec['form'].startswith('pips'):
        mon.check(out.get('alg') == (spec['alg'] or 200), 'alg-reported', 'algorithm reported %r, asked %r' % (out.get('alg'), spec['alg']))
    stops(mon, out['hist'], ok, tol, out['iterations'], opt.get('max_it') or 150)
    if end in ('infeasible', 'unbounded'):
        mon.count(end)
        mon.check(not ok, 'dishonest', '%s problem reported as solved' % end)
        return
    if end == 'degenerate':
        mon.count('degenerate')
    if not ok:
        mon.count('unsolved ' + end)
        if end == 'ok' or (not opt.get('max_it', 1) and not spec['form'].startswith('pips')):
            mon.check(spec['alg'] == 250 or spec['kind'] == 'lp' or {'scaled', 'redundant', 'emptyrow', 'dupcol', 'eq', 'fixed', 'noupper', 'nolower'} & set(spec['tw']) or spec['mult'] != 1 or tol, 'must-solve', 'feasible bounded convex problem not solved')
        return
    mon.count('solved')
    mult = spec['mult']
    qp_kkt(mon, q, x, f, lm, sc=max(1.0, 1 / mult))
    if spec['kind'] == 'lp':
        s = lp_status(q)
        if s.status == 0:
            mon.count('lp compared')
            mon.close(f, s.fun, 1e-4 * max(1, 1 / mult) * (1 + abs(s.fun) + abs(q['c']).sum()), 'lp-optimum', 'objective against HiGHS')


# ------------------------------------------------------------------ P26
def plan26(tier, rng):
    out = []
    for k in range(n_of(tier, 1500, 15000)):
        out.append({'seed': int(rng.integers(1 << 40)), 'n': int(rng.integers(2, 7 if k % 3 else 16)),
                    'ng': int(rng.integers(0, 3)), 'nh': int(rng.integers(0, 4)), 'm': int(rng.integers(0, 5)),
                    'bounds': str(rng.choice(['both', 'both', 'both', 'both', 'lower', 'upper', '', '', ''])), 'sc': bool(rng.random() < .4),
                    'mult': float(rng.choice([1, 1, .01, 10])), 'form': str(rng.choice(['args', 'dict'])),
                    'end': str(rng.choice(['ok'] * 5 + ['infeasible', 'cap'])),
                    'convex': bool(rng.random() < .6), 'fault': str(rng.choice(['', 'raise', 'nan'], p=[.9, .06, .04]))})
    return out


@contextlib.contextmanager
def faulty_solves(kind, at):
    """the at-th sparse linear system solved cannot be solved"""
    import pypower.pplinsolve as mod
    import pypower.pips as pm
    hit, n = [], [0]
    where = (mod, 'spsolve') if hasattr(mod, 'spsolve') else (pm, 'spsolve')
    if not kind or not hasattr(*where):
        yield hit
        return
    orig = getattr(*where)

    def solve(A, b, *args, **kw):
        n[0] += 1
        if n[0] == at:
            hit.append(n[0])
            if kind == 'raise':
                raise RuntimeError('Factor is exactly singular')
            return np.full(len(b), np.nan)
        return orig(A, b, *args, **kw)
    setattr(where[0], where[1], solve)
    try:
        yield hit
    finally:
        setattr(where[0], where[1], orig)


class NLP(object):
    """min 1/2 x'Qx + c'x + w.exp(a.x) + sum p x^4   s.t. spheres h, quadratic equalities g, linear rows, bounds"""

    def __init__(self, spec):
        rng = rng_for('nlp', spec['seed'])
        n = self.n = spec['n']
        F = rng.normal(size=(n, n))
        self.Q = F.T @ F / n
        if not spec['convex']:
            self.Q -= rng.uniform(0, 1.5) * np.eye(n)
        self.c = rng.normal(size=n) * 2
        self.a = rng.normal(size=n) * .4
        self.w = rng.uniform(0, 1)
        self.p = rng.uniform(.05, .5, n)
        x = self.xf = rng.normal(size=n)
        self.hc = rng.normal(size=(spec['nh'], n)) * .7
        self.hr = ((x - self.hc) ** 2).sum(1) + rng.exponential(1, spec['nh'])
        ng = min(spec['ng'], n - 1)
        self.gq = rng.normal(size=(ng, n)) * .3
        self.gl = rng.normal(size=(ng, n))
        self.gb = (self.gq * x ** 2 + self.gl * x).sum(1)
        m = spec['m']
        self.A = rng.normal(size=(m, n))
        Ax = self.A @ x
        self.l, self.u = Ax - rng.exponential(1, m), Ax + rng.exponential(1, m)
        s = rng.random(m)
        self.l[s < .3] = -np.inf
        self.u[(s > .3) & (s < .5)] = np.inf
        k = np.flatnonzero(s > .85)[:max(0, n - ng - 1)]
        self.l[k] = self.u[k] = Ax[k]
        self.xmin, self.xmax = np.full(n, -np.inf), np.full(n, np.inf)
        if spec['bounds']:
            self.xmin, self.xmax = x - rng.exponential(1.5, n), x + rng.exponential(1.5, n)
            self.xmin[rng.random(n) < .3] = -np.inf
            if spec['bounds'] == 'lower':
                self.xmax[:] = np.inf
            if spec['bounds'] == 'upper':
                self.xmin[:] = -np.inf
        if spec['end'] == 'infeasible':
            # two disjoint balls
            d = np.zeros((2, n))
            d[0, 0], d[1, 0] = 6, -6
            self.hc = np.vstack([self.hc, d])
            self.hr = np.r_[self.hr, 4., 4.]
        self.x0 = x + rng.normal(size=n) * .5
        self.calls = []
        self.mult_seen = set()

    def f(self, x, hess=False):
        e = self.w * np.exp(self.a @ x)
        f = .5 * x @ self.Q @ x + self.c @ x + e + (self.p * x ** 4).sum()
        df = self.Q @ x + self.c + e * self.a + 4 * self.p * x ** 3
        if not hess:
            return f, df
        return f, df, sp.csr_matrix(self.Q + e * np.outer(self.a, self.a) + np.diag(12 * self.p * x ** 2))

    def gh(self, x):
        h = ((x - self.hc) ** 2).sum(1) - self.hr
        dh = 2 * (x - self.hc).T
        g = (self.gq * x ** 2 + self.gl * x).sum(1) - self.gb
        dg = (2 * self.gq * x + self.gl).T
        return h, g, sp.csr_matrix(dh) if len(h) else None, sp.csr_matrix(dg) if len(g) else None

    def hess(self, x, lm, mult=1):
        self.calls.append((len(lm['eqnonlin']), len(lm['ineqnonlin']), float(mult), float(np.min(lm['ineqnonlin'], initial=1))))
        H = mult * self.f(x, True)[2].toarray()
        H += np.diag(2 * self.gq.T @ lm['eqnonlin']) if len(self.gb) else 0
        H += 2 * np.sum(lm['ineqnonlin']) * np.eye(self.n) if len(self.hr) else 0
        return sp.csr_matrix(H)


@prop('P26', 'random smooth programs with nonlinear equalities and inequalities, linear rows and bounds, convex and not, infeasible, capped; '
      'both step rules, cost scaling; distinct by (sizes, bounds, step rule, scaling, ending, convexity)', plan26,
      floors={'solved': 200, 'infeasible': 20, 'active': 200, 'nonlinear': 150})
def p26(spec, mon):
    from pypower.pips import pips
    q = NLP(spec)
    nonlin = len(q.gb) + len(q.hr) > 0
    opt = {'step_control': spec['sc']}
    tol = tolerances(rng_for('nlp-tol', spec['seed']), spec['mult'])
    rl = rng_for('nlp-loose', spec['seed'])
    loose = spec['end'] in ('ok', 'infeasible') and rl.random() < .25
    if loose:
        # all but one condition are met early on: the solver must go on until that one is met as well
        tol = {t: float(10 ** rl.uniform(-1, 3)) for t in TOLS}
        tight = str(rl.choice(['feastol', 'feastol', 'gradtol']))
        tol[tight] = 1e-6
    opt.update(tol)
    if spec['mult'] != 1:
        opt['cost_mult'] = spec['mult']
    if spec['end'] == 'cap':
        opt['max_it'] = int(spec['seed'] % 7)
    m = len(q.A)
    d = dict(f_fcn=q.f, x0=q.x0.copy(), A=sp.csr_matrix(q.A) if m else None, l=q.l if m else None, u=q.u if m else None,
             xmin=q.xmin if spec['bounds'] in ('both', 'lower') else None, xmax=q.xmax if spec['bounds'] in ('both', 'upper') else None,
             gh_fcn=q.gh if nonlin else None, hess_fcn=q.hess if nonlin else None, opt=opt)
    keep = {k: np.array(v, copy=True) for k, v in d.items() if isinstance(v, np.ndarray)}
    with faulty_solves(spec.get('fault'), 1 + spec['seed'] % 6) as hit:
        s = pips({k: v for k, v in d.items() if v is not None or spec['seed'] % 2}) if spec['form'] == 'dict' else pips(*[d[k] for k in ('f_fcn', 'x0', 'A', 'l', 'u', 'xmin', 'xmax', 'gh_fcn', 'hess_fcn', 'opt')])
    mon.count('runs')
    if hit:
        mon.count('steps that could not be solved')
        mon.check(not (s['eflag'] and s['eflag'] > 0), 'dishonest', 'reported as solved although a step could not be computed')
        mon.check('Converged' not in s['output']['message'], 'message', '%r without a solution' % s['output']['message'])
        return
    for k in keep:
        same(mon, d[k], keep[k], 'inputs-kept', 'problem data %s changed' % k)
    ok = bool(s['eflag']) and s['eflag'] > 0
    it, hist = s['output']['iterations'], s['output']['hist']
    mon.check(it <= opt.get('max_it', 150), 'iteration-limit', '%d iterations' % it)
    mon.check(len(hist) == it + 1 or (not ok and len(hist) == it), 'history', '%d records for %d iterations' % (len(hist), it))
    mon.check(('Converged' in s['output']['message']) == ok, 'message', '%r, flag %r' % (s['output']['message'], s['eflag']))
    stops(mon, hist, ok, tol, it, opt.get('max_it', 150))
    for a, b, c, w in q.calls:
        if (a, b, c) != (len(q.gb), len(q.hr), float(opt.get('cost_mult', 1))) or w < 0:
            mon.fail('hessian-call', 'Hessian asked with %r' % ((a, b, c, w),))
            break
    mon.count('Hessian calls', len(q.calls))
    mon.sig(spec['n'] > 6, len(q.gb), len(q.hr), m, spec['bounds'], spec['sc'], spec['mult'], spec['end'], spec['convex'])
    if spec['end'] == 'infeasible' and not (loose and tight != 'feastol'):
        mon.count('infeasible')
        mon.check(not ok, 'dishonest', 'infeasible problem reported as solved')
        return
    if not ok:
        mon.count('unsolved ' + spec['end'])
        if spec['end'] == 'ok':
            mon.count('unsolved though feasible')
            mon.check(not (spec['convex'] and spec['bounds'] == 'both' and not tol and not spec['sc'] and not len(q.gb) and spec['mult'] == 1), 'must-solve', 'feasible convex problem not solved')
        return
    mon.count('solved')
    x, lm = s['x'], s['lmbda']
    f, df = q.f(x)
    mon.close(s['f'], f, 1e-9 * (1 + abs(f)), 'objective', 'objective value')
    mon.close(hist[-1]['obj'], f, 1e-9 * (1 + abs(f)), 'history', 'last objective in the history')
    h, g, dh, dg = q.gh(x)
    if loose:
        mon.count('stopped by one condition')
        mon.count('stopped by ' + tight)
        if tight == 'feastol':
            zm = max([abs(x).max(), abs(h).max(initial=0)] + [abs(v[np.isfinite(v)]).max(initial=0) for v in (q.A @ x - q.l, q.A @ x - q.u, x - q.xmin, x - q.xmax)])
            viol = [abs(g).max(initial=0), h.max(initial=0)] + [v.max(initial=0) for v in (q.A @ x - q.u, q.l - q.A @ x, x - q.xmax, q.xmin - x)]
            mon.check(max(viol) <= 2e-6 * (1 + zm), 'feasible-loose', 'constraints violated by %.3g when feasibility is the condition met last' % max(viol))
        else:
            L = df.copy()
            if len(g):
                L += dg @ lm['eqnonlin']
            if len(h):
                L += dh @ lm['ineqnonlin']
            L += q.A.T @ (lm['mu_u'] - lm['mu_l']) if len(q.A) else 0
            L += lm['upper'] - lm['lower']
            M = 1 + max([abs(np.asarray(v)).max(initial=0) for v in lm.values()])
            col = 1 + (abs(dh.toarray()).sum(1) if len(h) else 0) + (abs(q.A).sum(0) if len(q.A) else 0)
            sc = max(1, 1 / spec['mult'])
            mon.close(L / (sc * (2e-6 * M + 2e-5 * (1 + col))), 0 * L, 1.0, 'stationary-loose', 'gradient when it is the condition met last (scaled)')
        return
    sc = max(1, 1 / spec['mult'])
    M = 1 + max([abs(np.asarray(v)).max(initial=0) for v in lm.values()])
    L = df.copy()
    zm = max([abs(x).max(), abs(h).max(initial=0)] + [abs(v[np.isfinite(v)]).max(initial=0) for v in (q.A @ x - q.l, q.A @ x - q.u, x - q.xmin, x - q.xmax)])
    tf = 2e-6 * (1 + zm)
    col = np.zeros(q.n)
    if len(g):
        mon.count('nonlinear')
        mon.close(g, 0 * g, tf, 'feasible', 'nonlinear equalities')
        L += dg @ lm['eqnonlin']
    if len(h):
        mon.count('nonlinear')
        mon.check(h.max() <= tf, 'feasible', 'nonlinear inequality violated by %.3g' % h.max())
        mon.check(lm['ineqnonlin'].min() >= 0, 'mu-sign', 'negative multiplier')
        mon.close(lm['ineqnonlin'] * h, 0 * h, 1e-4 * sc * M, 'complementary', 'nonlinear complementarity')
        mon.count('active', int((lm['ineqnonlin'] > 1e-4).sum()))
        L += dh @ lm['ineqnonlin']
        col += abs(dh.toarray()).sum(1)
    for v, a, b, ml, mu, G in ((q.A @ x, q.l, q.u, lm['mu_l'], lm['mu_u'], q.A), (x, q.xmin, q.xmax, lm['lower'], lm['upper'], np.eye(q.n))):
        if not len(v):
            continue
        mon.check(np.all(v >= a - tf) and np.all(v <= b + tf), 'feasible', 'linear limits violated')
        mon.check(np.all(ml >= 0) and np.all(mu >= 0), 'mu-sign', 'negative multiplier')
        for w, s_ in ((ml, v - a), (mu, b - v)):
            k = np.isfinite(s_)
            mon.check(not np.any(w[~k]), 'mu-infinite', 'multiplier on an absent limit')
            mon.close(w[k] * s_[k], 0 * w[k], 1e-4 * sc * M, 'complementary', 'linear complementarity')
            mon.count('active', int((w > 1e-4).sum()))
        L += G.T @ (mu - ml)
        col += abs(G).sum(0)
    mon.close(L / (sc * (2e-6 * M + 2e-5 * (1 + col))), 0 * L, 1.0, 'stationary', 'gradient of the Lagrangian (scaled)')
    if spec['convex'] and not len(g):
        # convex: no feasible point is cheaper
        rng = rng_for('nlp-alt', spec['seed'])
        best = f
        for t in rng.random(60):
            y = x + t * (q.xf - x) + 0 * x
            fy = q.f(y)[0]
            best = min(best, fy)
        mon.check(best >= f - 1e-4 * sc * M * (1 + abs(f)), 'global', 'a feasible point costs %.6g, solution %.6g' % (best, f))
