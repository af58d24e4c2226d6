"""Optimal power flow: P22 AC feasibility, P23 AC optimality, P24 DC OPF."""
from .common import *
from .pf import n_of
from vlib import opfref as O

ACB = ['case6ww', 'case9', 'case14', 'case24_ieee_rts', 'case30', 'case30pwl', 'case39', 'case57', 'case9Q', 'case30Q', 'net8',
       'net15', 'net30']
OFEATS = ['loads', 'shunts', 'taps', 'splitgen', 'offgen', 'offbranch', 'parallel', 'isolated', 'renumber', 'shuffle', 'intgen',
          'moveref', 'disp', 'pwl', 'qcost', 'tight', 'anglim', 'basemva', 'widegen', 'widebr', 'pqcap', 'zeror', 'ncost', 'costpad']


def acspec(rng, n, bases, feats=OFEATS, p=.3, plain=True):
    out = []
    for s in mkspecs(rng, n, bases, pool=feats, p=p, plain=plain):
        if not s['feat']:
            s['must'] = True
        s['alg'] = int(rng.choice([0, 560, 565]))
        s['lim'] = int(rng.choice([0, 0, 1, 2]))
        s['noang'] = bool(rng.random() < .2)
        s['congest'] = bool(rng.random() < .5)
        out.append(s)
    return rare(out, .3)


def acopts(s, **kw):
    return opts(OPF_ALG=s['alg'], OPF_FLOW_LIM=s['lim'], OPF_IGNORE_ANG_LIM=s['noang'], **kw)


def plan22(tier, rng):
    out = acspec(rng, n_of(tier, 110, 1500), ACB)
    for s in acspec(rng, n_of(tier, 24, 200), ACB, plain=False):
        s['mode'] = str(rng.choice(['cap', 'overload', 'mustrun', 'loose']))
        out.append(s)
    return out


def congest(src, spec, rng):
    """limits that bind at either end of a few branches, and no limits on others"""
    from pypower import api
    r = api.runopf(copy(src), acopts(spec))
    if not r['success']:
        return src
    src = floats(src)
    br, b = src['branch'], r['branch']
    pos = bus_pos(src)
    f, t = [np.array([pos[int(x)] for x in br[:, c]], int) for c in (F_BUS, T_BUS)]
    if spec['lim'] == 1:
        a, z = abs(b[:, PF]), abs(b[:, PT])
    else:
        a, z = np.hypot(b[:, PF], b[:, QF]), np.hypot(b[:, PT], b[:, QT])
        if spec['lim'] == 2:
            vm = r['bus'][:, VM]
            a, z = a / vm[f], z / vm[t]
    live = np.flatnonzero(live_branch(src))
    big = np.maximum(a, z)
    hug = rng_for('hug', spec['seed'])
    if hug.random() < .6:
        curves(src, r, hug)
    c = [k for k in live[np.argsort(-big[live])][:max(3, len(live) // 2)] if big[k] > 1]
    if not c:
        return src
    ks = rng.choice(c, min(len(c), int(rng.integers(1, 4))), replace=False)
    off = rng.random(len(br)) < rng.choice([0, .5, 1])
    br[off, RATE_A] = 0
    br[ks, RATE_A] = np.round(big[ks] * rng.uniform(.82, .98, len(ks)), 3)
    if rng.random() < .5:
        # and angle differences
        d = r['bus'][f, VA] - r['bus'][t, VA]
        c = [k for k in live[np.argsort(-abs(d[live]))][:max(3, len(live) // 3)] if abs(d[k]) > .5 and k not in ks and is_connected_without(src, {int(k)})]
        for k in rng.permutation(c)[:int(rng.integers(1, 3))]:
            v = np.round(abs(d[k]) * rng.uniform(.7, .97), 3)
            br[k, ANGMIN], br[k, ANGMAX] = (-360, v) if d[k] > 0 else (-v, 360)
            if rng.random() < .3:
                br[k, ANGMIN], br[k, ANGMAX] = -v, v
    flip = (br[:, TAP] == 0) & (br[:, SHIFT] == 0) & (rng.random(len(br)) < .5)
    br[flip, F_BUS], br[flip, T_BUS] = br[flip, T_BUS].copy(), br[flip, F_BUS].copy()
    br[flip, ANGMIN], br[flip, ANGMAX] = -br[flip, ANGMAX], -br[flip, ANGMIN]
    return src


def curves(src, r, rng):
    """capability curves on one side or both that the present dispatch does not quite meet"""
    g, s = src['gen'], r['gen']
    c = [k for k in live_gen(src).nonzero()[0] if g[k, PMAX] > max(0, g[k, PMIN]) and 2 < g[k, QMAX] - g[k, QMIN] < np.inf]
    for k in rng.permutation(c)[:int(rng.integers(1, 5))]:
        r_, w = g[k], g[k, QMAX] - g[k, QMIN]
        a, b = max(r_[PMIN], 0), r_[PMAX]
        r_[[PC1, PC2]] = np.round([a + rng.uniform(0, .2) * (b - a), b - rng.uniform(0, .2) * (b - a)], 2)
        d = r_[PC2] - r_[PC1]
        if d < 1:
            r_[[PC1, PC2]] = 0
            continue
        r_[[QC1MAX, QC2MAX, QC1MIN, QC2MIN]] = r_[QMAX], r_[QMAX], r_[QMIN], r_[QMIN]
        side = rng.choice(['upper', 'lower', 'both'], p=[.4, .4, .2])
        sl = (rng.uniform(.02, .4) if rng.random() < .5 else rng.uniform(.4, .95)) * w / d
        if side != 'lower':
            q = s[k, QG] - rng.uniform(.02, .15) * w
            r_[[QC1MAX, QC2MAX]] = np.round([q + sl * (s[k, PG] - r_[PC1]), q - sl * (r_[PC2] - s[k, PG])], 3)
        if side == 'lower':
            q = s[k, QG] + rng.uniform(.02, .15) * w
            r_[[QC1MIN, QC2MIN]] = np.round([q - sl * (s[k, PG] - r_[PC1]), q + sl * (r_[PC2] - s[k, PG])], 3)


def solve_ac(spec, mon, alg=None):
    from pypower import api
    src = build(spec)
    kw = {}
    m = spec.get('mode')
    rng = rng_for('solve', spec['seed'])
    if m == 'cap':
        kw['PDIPM_MAX_IT'] = int(rng.integers(1, 9))
    elif m == 'loose':
        kw.update(PDIPM_FEASTOL=1e-3, PDIPM_GRADTOL=1e-3, PDIPM_COMPTOL=1e-3, PDIPM_COSTTOL=1e-3)
    elif m == 'overload':
        src['bus'][:, PD] += 1.6 * src['gen'][:, PMAX].clip(0).sum() / len(src['bus'])
    elif m == 'mustrun':
        g = floats(src)['gen']
        k = g[:, PMAX] > 0
        add = 1.5 * abs(src['bus'][:, PD]).sum() + 100 + 3 * abs(g[:, PMIN]).sum()
        g[k, PMIN] += add
        g[k, PMAX] += 2 * add
        src['bus'][:, VMAX] = np.minimum(src['bus'][:, VMAX], 1.1)
        src['branch'][:, BR_R] *= .2
    if spec.get('congest') and not m and not spec.get('must'):
        src = congest(src, spec, rng)
        mon.count('congested')
    o = acopts(spec if alg is None else dict(spec, alg=alg), **kw)
    r = api.runopf(copy(src), o)
    mon.count('runs')
    if not r['success']:
        mon.count('unsolved')
        mon.check(not (spec.get('must') and not m), 'must-solve', 'no solution found for the unmodified case')
        return src, r, False
    mon.count('solved')
    count_feats(mon, spec)
    mon.sig(spec['base'], feats_sig(spec), spec['alg'], spec['lim'], m)
    return src, r, O.inputs_kept(mon, src, r)


@prop('P22', 'AC OPF on built-in and random networks with transformers, dispatchable loads, capability curves, angle limits, '
      'parallel/dead/isolated equipment, mixed and reactive costs, three limit types, plus iteration caps and infeasible data; '
      'non-trivial = solved, distinct by (base, features, algorithm, limit type, mode)', plan22,
      floors={'solved': 60, 'active flow limits': 20, 'active reactive limits': 50, 'dispatchable loads': 15})
def p22(spec, mon):
    src, r, ok = solve_ac(spec, mon)
    m = spec.get('mode')
    if m:
        mon.count('mode %s %s' % (m, bool(r['success'])))
    if not ok:
        return
    O.ac_feasible(mon, src, r, spec['lim'], spec['noang'], tol=5e-2 * src['baseMVA'] if m == 'loose' else None)
    f = R.total_cost(dict(src, gen=r['gen']))
    mon.close(r['f'], f, (1e-2 if m == 'loose' else 5e-6) * R.cost_size(dict(src, gen=r['gen'])) + (2e-3 if 'pwl' in spec['feat'] else 0), 'objective', 'objective against the cost of the dispatch')
    # named blocks of the solution agree with the tables
    v = r['var']['val']
    lg, lb = np.flatnonzero(live_gen(src)), np.flatnonzero(live_bus(src))
    o = np.asarray(r['order']['gen']['e2i']).astype(int)
    S = src['baseMVA']
    mon.close(v['Va'] * 180 / np.pi, r['bus'][lb, VA], 1e-8, 'named-values', 'Va block')
    mon.close(v['Vm'], r['bus'][lb, VM], 1e-10, 'named-values', 'Vm block')
    mon.close(np.sort(v['Pg'] * S), np.sort(r['gen'][lg, PG]), 1e-8, 'named-values', 'Pg block')
    mon.close(np.sort(v['Qg'] * S), np.sort(r['gen'][lg, QG]), 1e-8, 'named-values', 'Qg block')


# ------------------------------------------------------------------ P23
def plan23(tier, rng):
    out = acspec(rng, n_of(tier, 96, 1300), ACB, p=.27)
    for s in out:
        # prices are converted by the base power in more than one place
        if s['congest'] and 'basemva' not in s['feat'] and rng.random() < .4:
            s['feat'] = s['feat'] + ['basemva']
    return out


@prop('P23', 'first-order optimality of AC OPF results from the reported prices, on the kinds of workload of P22, solved by '
      'both interior-point variants; distinct by (base, features, algorithm, limit type)', plan23,
      floors={'solved': 60, 'binding VMAX': 40, 'binding PMAX': 40, 'binding flow from': 8, 'units at capability curve': 8, 'both algorithms': 30})
def p23(spec, mon):
    src, r, ok = solve_ac(spec, mon)
    if not ok:
        return
    s = src
    if spec['noang']:
        s = copy(src)
        s['branch'][:, ANGMIN], s['branch'][:, ANGMAX] = -360, 360
    O.ac_kkt(mon, s, r, spec['lim'])
    # price blocks agree with the tables
    lb = np.flatnonzero(live_bus(src))
    S = src['baseMVA']
    mu = r['nln']['mu']
    mon.close((mu['u']['Pmis'] - mu['l']['Pmis']) / S, r['bus'][lb, LAM_P], 1e-9 * (1 + abs(r['bus'][lb, LAM_P]).max()), 'named-prices', 'Pmis')
    mon.close((mu['u']['Qmis'] - mu['l']['Qmis']) / S, r['bus'][lb, LAM_Q], 1e-9 * (1 + abs(r['bus'][lb, LAM_Q]).max()), 'named-prices', 'Qmis')
    ll = np.flatnonzero(live_branch(src))
    mon.close(mu['u']['Sf'] / S, r['branch'][ll, MU_SF], 1e-9 * (1 + abs(r['branch'][ll, MU_SF]).max()), 'named-prices', 'Sf')
    mon.close(mu['u']['St'] / S, r['branch'][ll, MU_ST], 1e-9 * (1 + abs(r['branch'][ll, MU_ST]).max()), 'named-prices', 'St')
    from pypower import api
    r2 = api.runopf(copy(src), acopts(dict(spec, alg=565 if spec['alg'] != 565 else 560)))
    if r2['success']:
        mon.count('both algorithms')
        mon.close(r2['f'], r['f'], 1e-4 * (1 + abs(r['f'])) + 1e-2 * (1 + abs(r['x']).max()), 'algorithms-agree', 'objective of the two solver variants')


# ------------------------------------------------------------------ P24
DCB = ACB + ['case118']


def plan24(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 260, 4000), DCB, pool=[f for f in OFEATS if f != 'pqcap'], p=.3):
        if not s['feat']:
            s['must'] = True
        s['noang'] = bool(rng.random() < .2)
        s['linear'] = bool(rng.random() < .4)
        s['alg'] = int(rng.choice([0, 200, 250]))
        s['mode'] = str(rng.choice(['', '', '', 'squeeze', 'overload', 'mustrun']))
        out.append(s)
    return rare(out, .25)


@prop('P24', 'DC OPF with polynomial and piecewise-linear costs, shifters, flow/angle limits, dead equipment and infeasible data: '
      'feasibility, optimality from the reported prices, and an independent linear program for feasibility and linear costs; '
      'distinct by (base, features, algorithm, mode)', plan24, floors={'solved': 150, 'infeasible': 10, 'lp compared': 30})
def p24(spec, mon):
    from pypower import api
    src = build(spec)
    m = spec['mode'] if not spec.get('must') else ''
    rng = rng_for('p24', spec['seed'])
    if spec['linear'] and m != 'x':
        gc = src['gencost']
        k = gc[:, MODEL] == 2
        for r in gc[k]:
            pass
        for i in np.flatnonzero(k):
            n = int(gc[i, NCOST])
            c = gc[i, COST:COST + n].copy()
            gc[i, COST:] = 0
            gc[i, NCOST] = 2
            gc[i, COST:COST + 2] = [c[-2] if n > 1 else 0, c[-1]]
            if gc[i, COST] == 0:
                gc[i, COST] = round(rng.uniform(5, 50), 2)
    if m == 'squeeze':
        c = src['branch'][:, RATE_A] > 0
        src['branch'][c, RATE_A] *= rng.uniform(.4, .8)
    elif m == 'overload':
        src['bus'][:, PD] += rng.uniform(.6, 1.6) * src['gen'][:, PMAX].clip(0).sum() / len(src['bus'])
    elif m == 'mustrun':
        g = src['gen']
        k = g[:, PMAX] > 0
        g[k, PMIN] = g[k, PMAX] * rng.uniform(.7, 1)
    gc = src['gencost']
    if rng.random() < .8:
        for k in np.flatnonzero((gc[:, MODEL] == 2) & (gc[:, NCOST] == 4)):
            gc[k, COST:COST + 4] = np.r_[gc[k, COST + 1:COST + 4], 0]
            gc[k, NCOST] = 3
    cubic = np.any((gc[:len(src['gen']), MODEL] == 2) & (gc[:len(src['gen']), NCOST] > 3) & live_gen(src))
    o = opts(OPF_ALG_DC=spec['alg'], OPF_IGNORE_ANG_LIM=spec['noang'])
    try:
        r = api.rundcopf(copy(src), o)
    except ValueError as e:
        mon.check(cubic, 'refused', 'problem refused: %s' % e)
        mon.count('cubic costs refused')
        return
    mon.count('runs')
    lp = dc_lp(src, spec['noang'])
    if lp is not None:
        mon.count('feasible' if lp['status'] == 0 else 'infeasible')
        if lp['status'] == 2:
            mon.check(not r['success'], 'infeasible', 'success reported for an infeasible problem (max margin %.3g MW)' % lp['margin'])
            return
    if not r['success']:
        mon.count('unsolved')
        mon.check(not spec.get('must'), 'must-solve', 'no solution found for the unmodified case')
        if lp is not None:
            mon.count('unsolved though feasible')
        return
    mon.count('solved')
    count_feats(mon, spec)
    mon.sig(spec['base'], feats_sig(spec), spec['alg'], m, spec['linear'])
    if not O.inputs_kept(mon, src, r):
        return
    dc_check(mon, src, r, spec['noang'])
    f = R.total_cost(dict(src, gen=r['gen'], gencost=src['gencost'][:len(src['gen'])]))
    mon.close(r['f'], f, 5e-6 * R.cost_size(dict(src, gen=r['gen'], gencost=src['gencost'][:len(src['gen'])])), 'objective', 'objective against the cost of the dispatch')
    if lp is not None and lp['f'] is not None:
        mon.count('lp compared')
        mon.close(r['f'], lp['f'], 2e-5 * (1 + abs(lp['f'])) , 'lp-optimum', 'objective against an independent linear program')


def dc_lp(src, noang):
    """independent LP: feasibility (with margin on flow and unit limits), and the optimum when costs are linear"""
    from scipy.optimize import linprog
    N = O.Net(src)
    g, br = src['gen'], src['branch'][N.ll]
    nb, ng, nl = len(N.lb), len(N.lg), len(N.ll)
    row = {i: k for k, i in enumerate(N.lb)}
    gc = src['gencost'][:len(g)][N.lg]
    bb = np.array([R.dc_b(x) for x in br]).reshape(-1, 2)
    f = [row[i] for i in N.f]
    t = [row[i] for i in N.t]
    Bf = np.zeros((nl, nb))
    Bf[np.arange(nl), f] = bb[:, 0]
    Bf[np.arange(nl), t] -= bb[:, 0]
    C = np.zeros((nb, nl))
    for k in range(nl):
        C[f[k], k] += 1
        C[t[k], k] -= 1
    S = N.base
    Cg = np.zeros((nb, ng))
    for k, i in enumerate(N.gb):
        Cg[row[i], k] += 1
    b = src['bus'][N.lb]
    Aeq = np.hstack([C @ Bf * S, -Cg])
    beq = -(b[:, PD] + b[:, GS]) - C @ bb[:, 1] * S
    bnd = [(None, None)] * nb + [(g[k, PMIN], g[k, PMAX]) for k in N.lg]
    for i in N.ref:
        v = src['bus'][i, VA] * np.pi / 180
        bnd[row[i]] = (v, v)
    A, u = [], []
    for k in N.il:
        A += [np.r_[Bf[k] * S, np.zeros(ng)], np.r_[-Bf[k] * S, np.zeros(ng)]]
        u += [N.rate[k] - bb[k, 1] * S, N.rate[k] + bb[k, 1] * S]
    if not noang:
        ia, lo, hi = O.ang_limited(br)
        for k in ia:
            e = np.zeros(nb + ng)
            e[f[k]] += 1
            e[t[k]] -= 1
            if np.isfinite(hi[k]):
                A.append(e)
                u.append(hi[k] * np.pi / 180)
            if np.isfinite(lo[k]):
                A.append(-e)
                u.append(-lo[k] * np.pi / 180)
    n = nb + ng
    A = np.array(A).reshape(-1, n)
    u = np.array(u)
    # margin: smallest total violation of the balance that is needed (positive: infeasible), or slack available
    s = linprog(np.r_[np.zeros(n), np.ones(2 * nb)], A_ub=np.hstack([A, np.zeros((len(A), 2 * nb))]) if len(A) else None,
                b_ub=u if len(A) else None, A_eq=np.hstack([Aeq, np.eye(nb), -np.eye(nb)]), b_eq=beq,
                bounds=bnd + [(0, None)] * (2 * nb), method='highs')
    if s.status == 2:
        return {'status': 2, 'margin': -1e9, 'f': None}
    if s.status != 0:
        return None
    if s.fun > .5:              # MW that cannot be balanced
        return {'status': 2, 'margin': -s.fun, 'f': None}
    if s.fun > 1e-6:
        return None             # too close to call
    out = {'status': 0, 'margin': 0, 'f': None}
    if all((r[MODEL] == 1) or all(r[COST:COST + int(r[NCOST]) - 2] == 0) for r in gc):
        c, c0 = np.zeros(n + ng), 0.0
        A2, u2 = [], []
        for k, r in enumerate(gc):
            m = int(r[NCOST])
            if r[MODEL] == 2:
                co = r[COST:COST + m]
                c[nb + k] = co[-2] if m > 1 else 0
                c0 += co[-1]
                continue
            c[n + k] = 1
            x, y = r[COST:COST + 2 * m:2], r[COST + 1:COST + 2 * m:2]
            sl = np.diff(y) / np.diff(x)
            if np.any(np.diff(sl) < -1e-9):
                return out      # not convex
            for j in range(m - 1):
                e = np.zeros(n + ng)
                e[nb + k], e[n + k] = sl[j], -1
                A2.append(e)
                u2.append(sl[j] * x[j] - y[j])
        A3 = np.vstack([np.hstack([A, np.zeros((len(A), ng))])] + ([np.array(A2)] if A2 else []))
        bd = bnd + [(None, None) if gc[k, MODEL] == 1 else (0, 0) for k in range(ng)]
        s = linprog(c, A_ub=A3 if len(A3) else None, b_ub=np.r_[u, u2] if len(A3) else None,
                    A_eq=np.hstack([Aeq, np.zeros((nb, ng))]), b_eq=beq, bounds=bd, method='highs')
        if s.status == 0:
            out['f'] = s.fun + c0
    return out


def dc_check(mon, src, r, noang=False, extra=None, relax=1.0, prices=True):
    """feasibility and first-order optimality (sufficient: the problem is convex) of a DC OPF result"""
    N = O.Net(src)
    b, g, br = r['bus'], r['gen'], r['branch']
    S = N.base
    Va = b[:, VA] * np.pi / 180
    bb = np.array([R.dc_b(x) for x in src['branch'][N.ll]]).reshape(-1, 2)
    P = (bb[:, 0] * (Va[N.f] - Va[N.t]) + bb[:, 1]) * S
    sc = scale(src)
    T = relax * (1e-5 * sc + 1e-3)
    mon.close(br[N.ll, PF], P, 1e-7 * sc, 'dc-flows', 'reported flows')
    mon.close(br[N.ll, PT], -P, 1e-7 * sc, 'dc-flows', 'reported flows (to end)')
    mon.check(not br[:, [QF, QT]].any(), 'dc-reactive', 'reactive flows not zero')
    inj = -(src['bus'][:, PD] + src['bus'][:, GS])
    np.add.at(inj, N.gb, g[N.lg, PG])
    np.add.at(inj, N.f, -P)
    np.add.at(inj, N.t, P)
    mon.close(inj[N.lb], 0 * N.lb, T, 'dc-balance', 'active balance at buses')

    def within(x, lo, hi, t, mech, what):
        v = np.maximum(np.asarray(x) - hi, lo - np.asarray(x))
        mon.count('oracle:' + mech)
        if len(v):
            mon.worst[mech] = max(mon.worst.get(mech, 0), float(v.max() / t))
            mon.count('active ' + what, int((v > -10 * t).sum()))
            if not v.max() <= t:
                k = int(np.argmax(v))
                mon.fail(mech, '%s: row %d is %.6g (over by %.3g)' % (what, k, np.asarray(x)[k], v[k]))
    within(g[N.lg, PG], src['gen'][N.lg, PMIN], src['gen'][N.lg, PMAX], T, 'p-limits', 'active limits')
    within(abs(P[N.il]), -np.inf, N.rate[N.il], T, 'flow-limits', 'flow limits')
    ia, lo, hi = O.ang_limited(src['branch'][N.ll])
    if not noang:
        d = (Va[N.f] - Va[N.t]) * 180 / np.pi
        within(d[ia], lo[ia], hi[ia], 1e-2, 'angle-limits', 'angle limits')
    mon.close(b[N.ref, VA], src['bus'][N.ref, VA], 1e-5, 'ref-angle', 'reference angle')
    if not prices:
        return
    gc = src['gencost']
    lam = b[:, LAM_P]
    msf, mst = br[N.ll, MU_SF], br[N.ll, MU_ST]
    L = 1 + max(abs(lam[N.lb]).max(), abs(msf).max(initial=0), abs(mst).max(initial=0),
                max(max(map(abs, O.cost_slopes(gc[k], g[k, PG]))) for k in N.lg))
    mus = np.concatenate([msf, mst, g[N.lg, MU_PMAX], g[N.lg, MU_PMIN], br[N.ll, MU_ANGMIN], br[N.ll, MU_ANGMAX]])
    mon.check(np.all(mus >= -1e-9 * L), 'mu-sign', 'negative multiplier on an inequality')
    Z = relax * L * S * 2e-2

    def comp(mu, slack, what):
        mu = np.asarray(mu) + 0.0
        v = np.where(mu == 0, 0, np.abs(mu) * np.maximum(slack, 0))
        mon.count('oracle:complementary')
        mon.count('binding ' + what, int((abs(mu) > 1e-4 * L).sum()))
        if len(v):
            mon.worst['complementary'] = max(mon.worst.get('complementary', 0), float(v.max() / Z))
            if not v.max() <= Z:
                k = int(np.argmax(v))
                mon.fail('complementary', '%s: multiplier %.4g with slack %.4g' % (what, mu[k], slack[k]))
    comp(g[N.lg, MU_PMAX], src['gen'][N.lg, PMAX] - g[N.lg, PG], 'PMAX')
    comp(g[N.lg, MU_PMIN], g[N.lg, PG] - src['gen'][N.lg, PMIN], 'PMIN')
    comp(msf[N.il], N.rate[N.il] - P[N.il], 'flow from')
    comp(mst[N.il], N.rate[N.il] + P[N.il], 'flow to')
    no = np.setdiff1d(np.arange(len(N.ll)), N.il)
    mon.check(not msf[no].any() and not mst[no].any(), 'mu-unlimited', 'price on a branch without a limit')
    man, mx = br[N.ll, MU_ANGMIN], br[N.ll, MU_ANGMAX]
    if noang:
        mon.check(not man.any() and not mx.any(), 'mu-unlimited', 'angle price though angle limits are ignored')
    else:
        d = (Va[N.f] - Va[N.t]) * 180 / np.pi
        comp(man[ia] * 57, np.where(np.isfinite(lo[ia]), d[ia] - lo[ia], 1e3) / 57, 'ANGMIN')
        comp(mx[ia] * 57, np.where(np.isfinite(hi[ia]), hi[ia] - d[ia], 1e3) / 57, 'ANGMAX')
    ext = extra or {}
    for k, i in zip(N.lg, N.gb):
        lo1, hi1 = O.cost_slopes(gc[k], g[k, PG])
        v = lam[i] - g[k, MU_PMAX] + g[k, MU_PMIN] - ext.get('Pg', np.zeros(len(g)))[k] / S
        mon.count('oracle:price-P')
        e = max(lo1 - v, v - hi1, 0)
        t = relax * 2e-3 * L
        mon.worst['price-P'] = max(mon.worst.get('price-P', 0), e / t)
        if not e <= t:
            mon.fail('price-P', 'unit row %d: marginal cost %.6g..%.6g, price net of limits %.6g' % (k, lo1, hi1, v))
    w = (lam[N.f] - lam[N.t] + msf - mst) * bb[:, 0] * S + (mx - man) * 180 / np.pi
    gr = np.zeros(N.nb) + ext.get('Va', 0)
    np.add.at(gr, N.f, w)
    np.add.at(gr, N.t, -w)
    y = np.zeros(N.nb)
    np.add.at(y, N.f, abs(bb[:, 0]))
    np.add.at(y, N.t, abs(bb[:, 0]))
    free = np.array([i for i in N.lb if i not in N.ref], int)
    mon.close(gr[free] / (1e-4 * relax * L * S * (1 + y[free])), 0 * free, 1.0, 'stationary-Va', 'Lagrangian gradient in angles (scaled)')
