"""P34 continuation power flow and other parts."""
import os, re, sys
from .common import *
from .pf import n_of
from vlib import opfref as O
from .opf import dc_check
from .ext import io_files, dcify

CB = ['case6ww', 'case9', 'case14', 'case24_ieee_rts', 'case30', 'case39', 'case57', 'net5', 'net8', 'net15', 'net30']
CFEATS = ['loads', 'taps', 'shunts', 'splitgen', 'pqgen', 'offgen', 'offbranch', 'parallel', 'isolated', 'renumber', 'shuffle', 'moveref',
          'basemva', 'intgen', 'widegen', 'widebr']


def plan34(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 100, 1500), CB, pool=CFEATS, p=.25):
        s['par'] = int(rng.choice([1, 2, 3, 3]))
        s['stop'] = str(rng.choice(['NOSE', 'FULL', 'num', 'num', 'nose', 'over'])) if s['par'] != 1 else 'num'
        s['adapt'] = bool(rng.random() < .35)
        s['step'] = float(rng.choice([.05, .05, .1, .03]))
        s['dir'] = str(rng.choice(['all', 'all', 'one', 'some', 'gen', 'same'], p=[.3, .2, .15, .15, .15, .05]))
        s['io'] = bool(rng.random() < .15)
        s['cb'] = bool(rng.random() < .2)
        s['hard'] = bool(rng.random() < .12)
        s['plot'] = int(rng.choice([0, 1, 2], p=[.6, .2, .2]))
        out.append(s)
    return out


class Plots(object):
    """stands in for matplotlib.pyplot and records the calls"""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **kw: self.calls.append((name, [np.array(x) if not isinstance(x, str) else x for x in a], kw))

    def __enter__(self):
        import types
        self.old = {k: sys.modules.get(k) for k in ('matplotlib', 'matplotlib.pyplot')}
        m = types.ModuleType('matplotlib')
        m.pyplot = self
        sys.modules['matplotlib'], sys.modules['matplotlib.pyplot'] = m, self
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v

    def of(self, name, style=None):
        return [c for c in self.calls if c[0] == name and (style is None or any(isinstance(x, str) and x == style for x in c[1]))]


class Curve(object):
    """dense model of the power flow equations along base + lam * (target - base)"""

    def __init__(self, b, t):
        self.b, self.t = b, t
        self.ref, self.pv, self.pq = R.bus_kinds(b)
        self.Y = R.ybus(b)
        S = lambda p: (R.gen_at_bus(p) - (p['bus'][:, PD] + 1j * p['bus'][:, QD])) / p['baseMVA']
        self.S0, self.S1 = S(b), S(t)
        self.a, self.m = np.array(sorted(self.pv) + sorted(self.pq), int), np.array(sorted(self.pq), int)

    def mis(self, V, lam):
        m = V * np.conj(self.Y @ V) - self.S0 - lam * (self.S1 - self.S0)
        return np.r_[m[self.a].real, m[self.m].imag]

    def jac(self, V):
        I, Y = self.Y @ V, self.Y
        dVm = np.diag(V) @ np.conj(Y @ np.diag(V / abs(V))) + np.diag(np.conj(I) * V / abs(V))
        dVa = 1j * np.diag(V) @ np.conj(np.diag(I) - Y @ np.diag(V))
        a, m = self.a, self.m
        return np.block([[dVa[np.ix_(a, a)].real, dVm[np.ix_(a, m)].real], [dVa[np.ix_(m, a)].imag, dVm[np.ix_(m, m)].imag]])

    def solve(self, V, lam, it=12):
        for k in range(it):
            F = self.mis(V, lam)
            if abs(F).max(initial=0) < 1e-10:
                return V
            try:
                dx = np.linalg.solve(self.jac(V), -F)
            except np.linalg.LinAlgError:
                return None
            if not np.all(np.isfinite(dx)) or abs(dx).max() > 1.5:
                return None
            Va, Vm = np.angle(V), abs(V)
            Va[self.a] += dx[:len(self.a)]
            Vm[self.m] += dx[len(self.a):]
            V = Vm * np.exp(1j * Va)
        return None

    def reach(self, V, top):
        """largest lam up to `top` reached in small steps with the Jacobian keeping its sign (the branch of the base solution)"""
        sg = np.linalg.slogdet(self.jac(V))[0]
        lam, h = 0.0, .1
        while h > 2e-4 and lam < top:
            x = min(lam + h, top)
            W = self.solve(V, x)
            if W is None or np.linalg.slogdet(self.jac(W))[0] != sg or abs(abs(W) - abs(V)).max() > .12:
                h /= 2
            else:
                V, lam = W, x
        return lam


@prop('P34', 'continuation power flow on built-in and random networks towards targets with all, some or one load or the generation changed, all '
      'parameterizations, fixed and adaptive steps, to the nose, around it or to a loading; distinct by (base, features, options)', plan34,
      floors={'converged': 55, 'points': 1200, 'nose': 15, 'full curve': 5, 'loading reached': 15, 'tangents': 1000, 'plots': 15})
def p34(spec, mon):
    from pypower.runcpf import runcpf
    from pypower import cpf_callbacks
    b = C.floats(build(spec))
    rng = rng_for('p34', spec['seed'])
    t = copy(b)
    L, on = t['bus'], live_gen(b)
    if spec['dir'] in ('all', 'some', 'one'):
        c = np.flatnonzero((L[:, PD] != 0) & live_bus(b))
        if not len(c):
            return
        c = c if spec['dir'] == 'all' else rng.choice(c, 1 if spec['dir'] == 'one' else max(1, len(c) // 3), replace=False)
        f = rng.uniform(1.5, 3.5)
        L[c, PD] *= f
        L[c, QD] *= f if rng.random() < .7 else 1
        if rng.random() < .6:
            t['gen'][on, PG] *= 1 + (f - 1) * rng.random()
    elif spec['dir'] == 'gen':
        k = np.flatnonzero(on)
        t['gen'][k, PG] += rng.uniform(-1, 1, len(k)) * .5 * abs(b['bus'][:, PD]).sum() / len(k)
        L[:, QD] += rng.uniform(0, 1) * abs(L[:, PD]) * live_bus(b)
    if spec.get('hard'):
        # a base case that can hardly be solved, on the way to one that can
        f = rng.uniform(1.15, 1.5)
        for _ in range(14):
            b['bus'][:, [PD, QD]] *= f
            if Curve(b, t).solve(R.start_voltage(b), 0) is None:
                break
    Q = Curve(b, t)
    V0 = Q.solve(R.start_voltage(b), 0)
    if V0 is None:
        # nothing to continue from: no curve may be reported, unless its first point does solve the base case after all
        mon.count('base unsolved')
        if rng.random() < .1:
            t = copy(b)
        for par in (1, 2, 3):
            r, ok = runcpf(copy(b), copy(t), opts(CPF_PARAMETERIZATION=par, CPF_STOP_AT=float(rng.choice([.3, .9, 1])), CPF_STEP=float(rng.choice([.5, .3, .2]))))
            mon.check(bool(ok) == bool(r['success']), 'success', 'returned %s, results say %s' % (ok, r['success']))
            if not ok:
                mon.count('base unsolved, nothing reported')
                continue
            V = np.asarray(r['cpf']['V_c'])[:, 0]
            V = np.where(np.isnan(V.real), R.vcomplex(b['bus']), V)
            mon.close(abs(Q.mis(V, 0)).max(initial=0), 0, 1e-6, 'base-unsolved', 'power balance (p.u.) of the first point of a curve reported as found')
        return
    same_ = not (Q.S1 - Q.S0).any()
    mon.count('runs')
    num = spec['stop'] in ('num', 'over')
    top = 8.0
    reach = Q.reach(V0, top) if not same_ else 0
    if num:
        stop = float(np.round(rng.choice([.01, .04, .3, .6, .9]) * max(reach, .3), 3)) if spec['stop'] == 'num' else float(np.round(reach * 1.5 + 1, 2))
        if rng.random() < .05:
            stop = 0.0
    else:
        stop = spec['stop']
        if reach >= top:
            mon.count('far nose')
            return
    calls = []
    kw = {}
    if spec['cb']:
        def user_cb(k, V_c, lam_c, V_p, lam_p, cb_data, cb_state, cb_args, results=None, is_final=False):
            calls.append((k, float(np.ravel(lam_c)[0]), is_final, cb_args))
            return cb_state, results
        cpf_callbacks.verif_cb = user_cb
        kw = dict(CPF_USER_CALLBACK='verif_cb' if rng.random() < .5 else ['verif_cb'], CPF_USER_CALLBACK_ARGS='tag')
    o = opts(CPF_PARAMETERIZATION=spec['par'], CPF_STOP_AT=stop, CPF_ADAPT_STEP=spec['adapt'], CPF_STEP=spec['step'],
             CPF_ERROR_TOL=1e-2 if rng.random() < .5 else 1e-3, OUT_ALL=1 if spec['io'] else 0, **kw)
    bb, tt = copy(b), copy(t)
    if 'intgen' in spec['feat']:
        for p in (bb, tt):
            if np.array_equal(p['gen'], p['gen'].astype(int)):
                p['gen'] = p['gen'].astype(int)
    io_ = io_files(spec)
    plots, bus_ = Plots(), ''
    if spec['plot']:
        if rng.random() < .6:
            bus_ = int(rng.choice(b['bus'][live_bus(b), BUS_I]))
        if rng.random() < .15:
            bus_ = int(b['bus'][live_bus(b), BUS_I][0])
        o['CPF_PLOT_LEVEL'], o['CPF_PLOT_BUS'] = spec['plot'], bus_
    err = io.StringIO()
    with plots, contextlib.redirect_stderr(err):
        r, ok = runcpf(bb, tt, o, *io_)
    if spec['plot']:
        mon.check(not err.getvalue(), 'plot-silent', 'plotting bus %r: %s' % (bus_, err.getvalue()[:200]))
        mon.check(len(plots.of('show')) == 1, 'plot-shown', 'plots shown %d times' % len(plots.of('show')))
    else:
        mon.check(not plots.calls, 'plot-none', 'plots without being asked for')
    for k in ('bus', 'gen', 'branch'):
        same(mon, bb[k], b[k], 'caller', k + ' of the base case')
        same(mon, tt[k], t[k], 'caller', k + ' of the target case')
    mon.check(bool(ok) == bool(r['success']), 'success', 'returned %s, results say %s' % (ok, r['success']))
    if num and not same_ and stop < reach * .9 and (spec['par'] != 1 or stop < reach * .7):
        # an easily reached loading
        if not mon.check(bool(ok), 'reachable', 'loading %g not reached though the branch extends to %g' % (stop, reach)):
            return
    if not ok:
        mon.count('unsolved')
        return
    mon.count('converged')
    count_feats(mon, spec)
    mon.sig(spec['base'], feats_sig(spec), spec['par'], spec['stop'], spec['adapt'], spec['dir'])
    c = r['cpf']
    lam, Vc, Vp, lp = [np.asarray(c[k]) for k in ('lam_c', 'V_c', 'V_p', 'lam_p')]
    n, nb = len(lam), len(b['bus'])
    if not mon.check(lam.shape == lp.shape == (n,) and Vc.shape == Vp.shape == (nb, n) and c['iterations'] == n - 1, 'shape',
                     'lam %s %s, V %s %s, iterations %s' % (lam.shape, lp.shape, Vc.shape, Vp.shape, c['iterations'])):
        return
    mon.close(c['max_lam'], lam.max(), 0, 'max', 'reported largest loading')
    lb = np.flatnonzero(live_bus(b))
    dead = np.setdiff1d(np.arange(nb), lb)
    mon.check(np.all(np.isnan(Vc[dead].real)), 'dead-bus', 'voltages at isolated buses')
    Vd = R.vcomplex(b['bus'])
    fill = lambda V: np.where(np.isnan(V.real), Vd, V)
    scale_ = max(1, abs(Q.S0).max(), (abs(Q.S0) + lam.max() * abs(Q.S1 - Q.S0)).max())
    for k in range(n):
        F = Q.mis(fill(Vc[:, k]), lam[k])
        mon.close(abs(F).max(initial=0), 0, 2e-8 + 1e-12 * scale_, 'on-curve', 'power balance (p.u.) at point %d of the curve' % k)
    mon.count('points', n)
    if spec['plot']:
        mon.count('plots')
        title = [str(x[1][0]) for x in plots.of('title')]
        if mon.check(len(title) == 1 and title[0].startswith('Voltage at Bus '), 'plot-title', 'titles %r' % title):
            at = int(float(title[0].split()[-1]))
            row = C.bus_pos(b).get(at, -1)
            mon.check(row in lb and (bus_ == '' or at == bus_), 'plot-bus', 'bus %r asked for, %d plotted' % (bus_, at))
            if bus_ == '' and len(Q.pq):
                dS_ = abs(Q.S1 - Q.S0)[Q.pq]
                mon.check(row in Q.pq and dS_.max() - abs(Q.S1 - Q.S0)[row] <= 1e-9 * (1 + dS_.max()), 'plot-bus', 'bus %d plotted is not the load bus changed most' % at)
            lines = [x[1] for x in plots.of('plot', '-') if len(x[1][0].ravel()) == n] if n != 2 or spec['plot'] == 1 else [x[1] for x in plots.of('plot', '-')][-1:]
            if mon.check(lines, 'plot-curve', 'no curve plotted') and row >= 0:
                mon.close(lines[-1][0].ravel(), lam, 0, 'plot-curve', 'loadings of the plotted curve')
                mon.close(lines[-1][1].ravel(), abs(Vc[row]), 1e-12, 'plot-curve', 'voltages of the plotted curve of bus %d' % at)
            for style, l_, v_ in (('x', lp, Vp), ('-o', lam, Vc)):
                m_ = plots.of('plot', style)
                if mon.check(len(m_) == (n - 1 if spec['plot'] > 1 else 0), 'plot-steps', '%d points marked %s, %d steps' % (len(m_), style, n - 1)) and m_ and row >= 0:
                    mon.close([float(x[1][0].ravel()[0]) for x in m_], l_[1:], 0, 'plot-steps', 'loadings marked ' + style)
                    mon.close([float(x[1][1].ravel()[0]) for x in m_], abs(v_[row, 1:]), 1e-12, 'plot-steps', 'voltages marked ' + style)
    ctl = Q.ref + Q.pv
    mon.close(abs(Vc[ctl]), abs(V0[ctl])[:, None] * np.ones(n), 1e-9, 'setpoints', 'controlled voltages along the curve')
    mon.close(np.angle(Vc[Q.ref]), np.angle(V0[Q.ref])[:, None] * np.ones(n), 1e-9, 'ref-angle', 'reference angle along the curve')
    mon.check(lam[0] == 0, 'start', 'the curve starts at %g' % lam[0])
    mon.close(abs(Vc[lb, 0] - V0[lb]), 0 * lb, 1e-6, 'start', 'first point against the base solution')
    # predictions along the tangent
    x = lambda V: np.r_[np.angle(V[Q.a]), abs(V[Q.m])]
    wrap = lambda d: np.r_[(d[:len(Q.a)] + np.pi) % (2 * np.pi) - np.pi, d[len(Q.a):]]
    dS = Q.S1 - Q.S0
    T = np.r_[dS[Q.a].real, dS[Q.m].imag]
    for k in range(1, n):
        J = Q.jac(fill(Vc[:, k - 1]))
        dx, dl = wrap(x(Vp[:, k]) - x(Vc[:, k - 1])), lp[k] - lam[k - 1]
        size = abs(J) @ abs(dx) + abs(T * dl)
        mon.close((J @ dx - T * dl) / (1e-3 * size.max() + 1e-8), 0 * T, 1e-3, 'tangent', 'prediction off the tangent (relative)')
        last = k == n - 1 and not same_
        d = np.r_[wrap(x(Vc[:, k]) - x(Vc[:, k - 1])), lam[k] - lam[k - 1]]
        if not spec['adapt'] and not last and stop != 0:
            if spec['par'] == 1:
                mon.close(abs(d[-1]), spec['step'], 1e-7, 'step', 'step in the loading')
            elif spec['par'] == 2:
                mon.close(np.linalg.norm(d), spec['step'], 1e-6, 'step', 'arc length of a step')
            else:
                z = np.r_[dx, dl] / np.linalg.norm(np.r_[dx, dl])
                mon.close(z @ d, spec['step'], 1e-6, 'step', 'step along the tangent')
        elif spec['adapt'] and not last:
            mon.check(np.linalg.norm(np.r_[dx, dl]) <= max(.2, spec['step']) + 1e-6, 'step', 'step %.3g' % np.linalg.norm(np.r_[dx, dl]))
    mon.count('tangents', n - 1)
    end = lam[-1]
    d = np.diff(lam)
    if same_:
        mon.check(n == 1, 'identical', '%d points between identical cases' % n)
    elif num:
        mon.check(np.all(d[:-1] >= 0), 'monotone', 'the loading falls before the end')
        if abs(end - stop) < 1e-7:
            mon.count('loading reached')
        else:
            mon.count('nose')
            mon.check(end < lam[-2], 'stop', 'stopped at %g for a target of %g' % (end, stop))
            mon.check(lam.max() < stop, 'stop', 'passed the loading asked for')
    elif stop.upper() == 'NOSE':
        mon.count('nose')
        mon.check(np.all(d[:-1] >= 0) and d[-1] < 0, 'stop', 'stopped before or after the nose')
    else:
        mon.count('full curve')
        mon.check(abs(end) < 1e-7 and n > 2, 'stop', 'the full curve ends at %g' % end)
        mon.check(np.all(lam[1:-1] > -1e-8), 'stop', 'the curve runs below zero')
        mon.check(abs(Vc[lb, -1] - Vc[lb, 0]).max() > 1e-3, 'full', 'the full curve ends on its first point')
    if not same_ and (not num or abs(end - stop) > 1e-7):
        h = np.r_[spec['step'], .2 if spec['adapt'] else 0].max()
        mon.check(lam.max() >= min(reach, stop if num else reach) - 2e-3 - h * h * 2 * (1 + reach), 'nose', 'largest loading %.6g, the branch of the base solution extends to %.6g' % (lam.max(), reach))
        mon.worst['nose'] = max(mon.worst.get('nose', 0), reach - lam.max())
    # tables hold the last point
    u = r['bus']
    mon.close(u[lb, VM] * np.exp(1j * np.pi / 180 * u[lb, VA]), Vc[lb, -1], 1e-9, 'tables', 'voltages in the tables')
    want = b['bus'][:, [PD, QD]] + end * (t['bus'] - b['bus'])[:, [PD, QD]]
    mon.close(u[lb][:, [PD, QD]], want[lb], 1e-9 * scale(b) * (1 + abs(end)), 'loads', 'loads in the tables')
    ref_g = np.array([C.bus_pos(b)[int(g)] in Q.ref for g in b['gen'][:, GEN_BUS]], bool)
    k = on & ~ref_g
    mon.close(r['gen'][k, PG], (b['gen'] + end * (t['gen'] - b['gen']))[k, PG], 1e-9 * scale(b) * (1 + abs(end)), 'outputs', 'outputs in the tables')
    q = {kk: r[kk] for kk in ('baseMVA', 'bus', 'gen', 'branch')}
    m_ = R.mismatch(q)
    mon.close(abs(m_), 0 * lb.sum() * abs(m_), b['baseMVA'] * (3e-8 + 1e-11 * scale_) + 1e-8 * scale(b), 'balance', 'nodal balance of the tables')
    Sf, St = R.flows(q)
    mon.close(r['branch'][:, [PF, QF, PT, QT]], np.c_[Sf.real, Sf.imag, St.real, St.imag], 1e-7 * scale(b) * (1 + abs(end)), 'flows', 'branch flows of the tables')
    mon.check(not r['gen'][~on][:, [PG, QG]].any(), 'dead-gen', 'unit out of service with output')
    if spec['cb']:
        mon.count('user callbacks')
        mon.check([x[0] for x in calls] == list(range(n)) + [n - 1] and [x[2] for x in calls] == [False] * n + [True], 'callback', 'user callback called for %s' % [x[0] for x in calls])
        mon.close([x[1] for x in calls[:-1]], lam, 0, 'callback', 'loadings given to the user callback')
        mon.check(all(x[3] == 'tag' for x in calls), 'callback', 'callback arguments')
    if io_:
        from pypower.api import loadcase
        mon.count('printed and saved')
        mon.check('Bus Data' in open(io_[0]).read(), 'printed', 'no bus table printed')
        back = loadcase(io_[1])
        mon.close(back['bus'][:, [VM, VA]], u[:, [VM, VA]], 1e-7 * (1 + abs(u[:, VA]).max()), 'saved', 'voltages of the saved case')


# ------------------------------------------------------------------ P35
def plan35(tier, rng):
    bases = ['case6ww', 'case9', 'case14', 'case24_ieee_rts', 'case30', 'case39', 'case57', 'case118', 'net8', 'net15', 'net30']
    out = []
    for s in mkspecs(rng, n_of(tier, 1200, 8000), bases, pool=['loads', 'splitgen', 'pqgen', 'offgen', 'isolated', 'renumber', 'shuffle', 'disp', 'disp', 'intgen', 'basemva'], p=.35):
        s['which'] = [None, 'FIXED', 'DISPATCHABLE', 'BOTH'][int(rng.integers(4))]
        s['scale'] = [None, 'FACTOR', 'QUANTITY'][int(rng.integers(3))]
        s['pq'] = [None, 'PQ', 'P'][int(rng.integers(3))]
        s['zones'] = str(rng.choice(['scalar', 'areas', 'own', 'all']))
        s['gen'] = bool(rng.random() < .8)
        s['ints'] = bool(rng.random() < .2)
        out.append(s)
    return out


def disp_rows(g):
    """rows of dispatchable loads: consumption only"""
    return np.array([r[PMIN] < 0 and r[PMAX] == 0 for r in g], bool)


def zone_sums(p, zone, nz, fixed, disp, use_gen=True):
    """active and reactive demand of each zone, bus by bus"""
    P, Q = np.zeros(nz), np.zeros(nz)
    at = {int(r[BUS_I]): int(z) for r, z in zip(p['bus'], zone)}
    if fixed:
        for r, z in zip(p['bus'], zone):
            if z > 0:
                P[int(z) - 1] += r[PD]
                Q[int(z) - 1] += r[QD]
    if disp and use_gen:
        for r in p['gen']:
            z = at[int(r[GEN_BUS])]
            if r[PMIN] < 0 and r[PMAX] == 0 and r[GEN_STATUS] > 0 and z > 0:
                P[z - 1] -= r[PMIN]
                Q[z - 1] -= (r[QMAX] if r[QMIN] == 0 else 0) + (r[QMIN] if r[QMAX] == 0 else 0)
    return P, Q


@prop('P35', 'scaling by factors and to quantities of fixed and dispatchable loads, whole system, areas and own zones (some buses in none), and '
      'totals of the same; random cases in any numbering and order; distinct by (base, features, options)', plan35,
      floors={'scaled': 150, 'to quantities': 40, 'dispatchable': 60, 'impossible': 3, 'own zones': 30})
def p35(spec, mon):
    from pypower.scale_load import scale_load, ScalingError
    from pypower.total_load import total_load
    p = C.floats(build(spec))
    rng = rng_for('p35', spec['seed'], spec['zones'])
    nb = len(p['bus'])
    p['bus'][:, BUS_AREA] = rng.integers(1, 4, nb) if rng.random() < .5 else p['bus'][:, BUS_AREA].clip(1)
    if spec['ints']:
        for t in ('bus', 'gen'):
            p[t] = np.round(p[t])
    which = spec['which'] or ('BOTH' if spec['gen'] else 'FIXED')
    if not spec['gen']:
        which = 'FIXED'
    zones = {'scalar': np.ones(nb), 'all': np.ones(nb), 'areas': p['bus'][:, BUS_AREA], 'own': rng.integers(0, 4, nb)}[spec['zones']].astype(int)
    nz = 1 if spec['zones'] in ('scalar', 'all') else int(zones.max())
    if nz < 1 or (spec['zones'] == 'areas' and nz == 1):
        return
    fx, dp = which[0] != 'D', which[0] != 'F'
    gen = p['gen'] if spec['gen'] else None
    P0 = zone_sums(p, zones, nz, True, False)[0]
    D0 = zone_sums(p, zones, nz, False, True, spec['gen'])[0]
    if D0.any():
        mon.count('dispatchable')
    quantity = spec['scale'] == 'QUANTITY'
    if quantity:
        load = (P0 + D0) * rng.uniform(.5, 1.6, nz)
        base = (P0 if fx else 0) + (D0 if dp else 0)
        miss = (base == 0)
        bad = rng.random() < .5
        load = np.where(miss & (not bad), P0 + D0, load + np.where(miss, 3., 0))
        load = np.where(base == 0, load, np.round(load, 3))
    else:
        load = np.round(rng.uniform(0, 2, nz), 3)
    opt = {k: v for k, v in (('which', spec['which']), ('scale', spec['scale']), ('pq', spec['pq'])) if v}
    arg = load[0] if nz == 1 and rng.random() < .5 else (load.tolist() if rng.random() < .3 else load)
    B, G = p['bus'].copy(), p['gen'].copy()
    if spec['ints']:
        if np.array_equal(B, B.astype(int)):
            B = B.astype(int)
        G = G.astype(int) if np.all(np.isfinite(G)) else G
        mon.count('whole numbers')
    B0, G0, opt0 = B.copy(), G.copy(), dict(opt)
    zarg = None
    if spec['zones'] == 'own' or (spec['zones'] == 'areas' and rng.random() < .3):
        zarg = zones.astype(float) if rng.random() < .3 else zones.copy()
        mon.count('own zones')
    a = [arg, B]
    if spec['gen'] or zarg is not None or opt:
        a.append(G if spec['gen'] else None)
    if zarg is not None or opt:
        a.append(zarg)
    if opt:
        a.append(opt)
    mon.count('runs')
    try:
        b2, g2 = scale_load(*a)
    except ScalingError:
        mon.check(quantity and bool((miss & (load != P0 + D0)).any()), 'impossible', 'refused a quantity that can be reached: %s from fixed %s dispatchable %s' % (load, P0, D0))
        mon.count('impossible')
        return
    same(mon, B, B0, 'caller', 'bus matrix of the caller')
    same(mon, G, G0, 'caller', 'gen matrix of the caller')
    mon.check(opt == opt0, 'caller', 'options of the caller')
    mon.count('scaled')
    mon.sig(spec['base'], feats_sig(spec), spec['which'], spec['scale'], spec['pq'], spec['zones'], spec['gen'])
    q = dict(p, bus=np.asarray(b2, float), gen=np.asarray(g2, float) if spec['gen'] else p['gen'])
    # default single zone: every bus with load
    if quantity:
        fac = np.array([(l - (0 if fx else f) - (0 if dp else d)) / b_ if b_ else 1. for l, f, d, b_ in zip(load, P0, D0, base)])
        mon.count('to quantities')
        if mon.check(not (miss & (abs(load - P0 - D0) > 1e-9 * (1 + abs(load)))).any(), 'impossible', 'a quantity that cannot be reached was accepted'):
            tot = zone_sums(q, zones, nz, True, True, spec['gen'])[0]
            ok = ~((fac <= 0) & dp & (D0 != 0))     # a load scaled below zero is a load no more
            mon.close(tot[ok], load[ok], 1e-9 * (1 + abs(load)).max() * (1 + (abs(P0) + abs(D0)).max() / max(1e-3, abs(base[base != 0]).min(initial=1e9))), 'quantity', 'zone loads after scaling')
    else:
        fac = load
    f = np.r_[1., fac][zones]
    pq = spec['pq'] != 'P'
    want = p['bus'].copy()
    if fx:
        want[:, PD] *= f
        if pq:
            want[:, QD] *= f
    mon.close(q['bus'] / (1 + abs(want)), want / (1 + abs(want)), 1e-9, 'fixed', 'scaled bus matrix')
    if spec['gen']:
        wg = p['gen'].copy()
        pos = C.bus_pos(p)
        for k in np.flatnonzero(disp_rows(wg) & (wg[:, GEN_STATUS] > 0)):
            x = f[pos[int(wg[k, GEN_BUS])]]
            if dp:
                wg[k, [PG, PMIN]] *= x
                if pq:
                    wg[k, [QG, QMIN, QMAX]] *= x
        fin = np.isfinite(wg)
        mon.close(q['gen'][fin] / (1 + abs(wg[fin])), wg[fin] / (1 + abs(wg[fin])), 1e-9, 'disp', 'scaled gen matrix')
    # totals
    w = spec['which'] if spec['gen'] else None
    z = {'scalar': 'all', 'all': 'all', 'areas': None, 'own': zarg}[spec['zones']]
    T = total_load(B, G if spec['gen'] else None, z, w) if w or rng.random() < .5 else total_load(B, G if spec['gen'] else None, z)
    want = zone_sums(p, zones, nz, fx, dp, spec['gen'])
    for k, nm in ((0, 'active'), (1, 'reactive')):
        if mon.check(np.shape(T[k]) == (nz,), 'shape', 'total_load returns %s for %d zones' % (np.shape(T[k]), nz)):
            mon.close(T[k], want[k], 1e-9 * (1 + abs(want[k]).max() + abs(p['bus'][:, PD]).sum()), 'total', 'total %s load' % nm)
    same(mon, B, B0, 'caller', 'bus matrix of the caller')
    same(mon, G, G0, 'caller', 'gen matrix of the caller')


# ------------------------------------------------------------------ P36
def plan36(tier, rng):
    out = []
    feats = ['loads', 'taps', 'splitgen', 'offgen', 'offbranch', 'parallel', 'isolated', 'renumber', 'shuffle', 'moveref', 'disp', 'pwl', 'basemva', 'ncost', 'widebr', 'qcost', 'intgen']
    bases = ['case6ww', 'case9', 'case14', 'case24_ieee_rts', 'case30', 'case39', 'net5', 'net8', 'net15', 'case30pwl']
    for s in mkspecs(rng, n_of(tier, 90, 1000), bases, pool=feats, p=.2):
        s['dc'] = s['base'] in ('case24_ieee_rts', 'case39', 'net15', 'case30pwl') or bool(rng.random() < .45)
        s['must'] = str(rng.choice(['some', 'some', 'high', 'zero', 'asis']))
        s['via'] = str(rng.choice(['uopf', 'run', 'run', 'tables']))
        s['io'] = bool(rng.random() < .3) and s['via'] == 'run'
        out.append(s)
    return out


@prop('P36', 'AC and DC unit commitment on built-in and random cases with low, binding and excessive minimum outputs, through all entry points; '
      'distinct by (base, features, AC/DC, level of minimum outputs)', plan36,
      floors={'solved': 40, 'units shut down': 40, 'shut down for minimum output': 8, 'candidates tried': 8, 'dc': 15, 'ac': 12, 'ties': 20})
def p36(spec, mon):
    from pypower import api
    from pypower.uopf import uopf
    from pypower.fairmax import fairmax
    src = C.floats(build(spec))
    rng = rng_for('p36', spec['seed'])
    dc = spec['dc']
    if dc:
        dcify(src)
    g, on = src['gen'], live_gen(src)
    ld = disp_rows(g)
    k = np.flatnonzero(on & ~ld & (g[:, PMAX] > 0))
    if spec['must'] != 'asis':
        lo, hi = {'some': (.05, .5), 'high': (.35, .95), 'zero': (0, .9)}[spec['must']]
        g[k, PMIN] = np.round(rng.uniform(lo, hi, len(k)) * g[k, PMAX] * rng.choice([1., 0.], len(k), p=[.7, .3] if spec['must'] == 'zero' else [.95, .05]), 1).clip(0)
    if spec['must'] == 'high':
        g[k, PMAX] *= 1.5
    if 'ncost' not in spec['feat']:
        gc = src['gencost']
        for i in k:
            if gc[i, MODEL] == 2 and rng.random() < .8:
                gc[i, COST + int(gc[i, NCOST]) - 1] += np.round(rng.uniform(0, 4) * g[i, PMAX], 0)
    # ties
    for _ in range(20):
        x = rng.integers(0, 4, int(rng.integers(1, 7))).astype(float)
        v, i = fairmax(x)
        mon.check(v == x.max() and x[i] == v, 'fairmax', 'fairmax(%s) = %s, %s' % (x, v, i))
        mon.count('ties')
    if spec['seed'] % 7 == 0 or spec['seed'] == 0:
        seen = {int(fairmax(np.array([2., 5, 1, 5, 5]))[1]) for _ in range(400)}
        mon.check(seen == {1, 3, 4}, 'fairmax', 'ties are not all chosen: %s' % seen)
    o = opts(PF_DC=dc, PDIPM_MAX_IT=80, OUT_ALL=1 if spec['io'] else 0)
    lite = opts(PF_DC=dc, PDIPM_MAX_IT=80)
    case = copy(src)
    if 'intgen' in spec['feat'] and np.array_equal(g, g.astype(int)):
        case['gen'] = g.astype(int)
    io_ = io_files(spec)
    if spec['via'] == 'uopf':
        r = uopf(case, o)
    elif spec['via'] == 'tables':
        r = uopf(case['baseMVA'], case['bus'], case['gen'], case['branch'], np.array([]), case['gencost'], o)
    else:
        r = api.runduopf(case, opts(PDIPM_MAX_IT=80, OUT_ALL=1 if spec['io'] else 0), *io_) if dc else api.runuopf(case, o, *io_)
    for t in ('bus', 'gen', 'branch', 'gencost'):
        same(mon, case[t], src[t], 'caller', t + ' of the caller')
    mon.count('runs')
    st = r['gen'][:, GEN_STATUS] > 0
    st0 = g[:, GEN_STATUS] > 0
    off = st0 & ~st
    mon.check(not (st & ~st0).any(), 'started', 'a unit out of service was started')
    mon.check(not off[ld].any(), 'load-shed', 'a dispatchable load was taken out of service')
    mon.check(np.all(g[off, PMIN] > 0) , 'useless', 'units with no minimum output were shut down: rows %s' % np.flatnonzero(off & (g[:, PMIN] <= 0)))
    # minimum outputs cannot exceed all load there is
    w = st0 & ~ld
    cap = src['bus'][:, PD].sum() - g[st0 & ld, PMIN].sum()
    forced = g[w, PMIN].sum() > cap
    if cap > 0 and (st & ~ld).sum() > 1:       # the last unit stays
        mon.check(g[st & ~ld, PMIN].sum() <= cap + 1e-9 * scale(src), 'minimum', 'units in service with minimum outputs %g above all load %g' % (g[st & ~ld, PMIN].sum(), cap))
    if forced:
        mon.count('shut down for minimum output')
    if not r['success']:
        mon.count('unsolved')
        return
    mon.count('solved')
    mon.count('dc' if dc else 'ac')
    mon.count('units shut down', int(off.sum()))
    count_feats(mon, spec)
    mon.sig(spec['base'], feats_sig(spec), dc, spec['must'], bool(forced))
    # the reported dispatch is an optimum of the remaining units
    E = copy(src)
    E['gen'][off, GEN_STATUS] = 0
    if not O.inputs_kept(mon, E, r):
        return
    mon.check(not r['gen'][off][:, [PG, QG]].any(), 'dead-gen', 'unit shut down with output')
    tol = 2e-5 * R.cost_size(dict(E, gen=r['gen'], gencost=src['gencost'] if not dc else src['gencost'][:len(g)])) + (4e-3 if 'pwl' in spec['feat'] else 0)
    mon.close(r['f'], R.total_cost(dict(E, gen=r['gen'], gencost=src['gencost'] if not dc else src['gencost'][:len(g)])), tol, 'objective', 'cost of the units in service')
    if dc:
        dc_check(mon, E, r)
    else:
        O.ac_feasible(mon, E, r)
    # never dearer than with all units
    ref = api.opf(copy(src), lite)
    if ref['success'] and not forced:
        mon.count('compared with all units on')
        mon.check(r['f'] <= ref['f'] + tol, 'dearer', 'cost %.8g with commitment, %.8g with all units' % (r['f'], ref['f']))
        if off.any():
            mon.check(r['f'] < ref['f'] + tol, 'pointless', 'units shut down without saving')
            # each stage keeps the best of its alternatives: so the result beats every single shutdown of a unit held at its minimum
            i0 = np.flatnonzero((ref['gen'][:, MU_PMIN] > 1e-4 * (1 + abs(ref['bus'][:, LAM_P]).max())) & (g[:, PMIN] > 0) & st0)
            for i in i0[:8]:
                F = copy(src)
                F['bus'], F['gen'] = ref['bus'].copy(), ref['gen'].copy()
                F['gen'][i, [PG, QG, GEN_STATUS]] = 0
                q = api.opf(F, lite)
                mon.count('single shutdowns')
                if q['success']:
                    mon.count('single shutdowns that save', int(q['f'] < ref['f'] - tol))
                    mon.check(r['f'] <= q['f'] + tol, 'best-of-stage', 'cost %.8g, shutting down unit %d alone gives %.8g' % (r['f'], i, q['f']))
    # and no single further shutdown of a unit held at its minimum helps
    for i in np.flatnonzero((r['gen'][:, MU_PMIN] > 1e-4 * (1 + abs(r['bus'][:, LAM_P]).max())) & (g[:, PMIN] > 0) & st)[:6]:
        F = copy(E)
        F['bus'] = r['bus'].copy()
        F['gen'] = r['gen'].copy()
        F['gen'][i, [PG, QG, GEN_STATUS]] = 0
        q = api.opf(F, lite)
        mon.count('candidates tried')
        mon.check(not q['success'] or q['f'] >= r['f'] - tol, 'stops-early', 'shutting down unit %d lowers the cost from %.8g to %.8g' % (i, r['f'], q['f']))
    if io_:
        mon.count('printed and saved')
        txt = open(io_[0]).read()
        m_ = re.search(r'Objective Function Value = ([-\d.]+)', txt)
        if mon.check(bool(m_), 'printed', 'no objective printed'):
            mon.close(float(m_.group(1)), r['f'], .0051, 'printed', 'printed cost')
        back = api.loadcase(io_[1])
        same(mon, back['gen'][:, GEN_STATUS], r['gen'][:, GEN_STATUS], 'saved', 'saved status of units')
        mon.close(back['gen'][:, PG], r['gen'][:, PG], 1e-7 * scale(src), 'saved', 'saved outputs')
