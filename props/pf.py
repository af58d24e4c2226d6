"""Power flow: P01-P09."""
from .common import *

BASES = ALL + ['net8', 'net15', 'net30', 'net60']
ALGS = {1: 'NR', 2: 'FDXB', 3: 'FDBX', 4: 'GS'}
BIG = ('case118', 'case300')


def pf(ppc, **kw):
    from pypower.api import runpf
    return runpf(ppc, opts(**kw))


def dcpf(ppc, **kw):
    from pypower.api import rundcpf
    return rundcpf(ppc, opts(**kw))


def n_of(tier, q, t):
    return t if tier == 'thorough' else q


# sum of scheduled injections against V * conj(Y V), at the equations a power flow solves
def sched_error(src, V):
    ref, pv, pq = R.bus_kinds(src)
    Y = R.ybus(src)
    S = R.gen_at_bus(src) - (src['bus'][:, PD] + 1j * src['bus'][:, QD])
    mis = V * np.conj(Y @ V) * src['baseMVA'] - S
    e = np.r_[mis[pv + pq].real, mis[pq].imag]
    return abs(e).max() if len(e) else 0.0


# ------------------------------------------------------------------ P01
def plan01(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 90, 1500), BASES):
        s['alg'] = int(rng.choice([1, 1, 2, 3, 4])) if s['base'] not in BIG else int(rng.choice([1, 2, 3]))
        s['tol'] = float(rng.choice([1e-8, 1e-8, 1e-8, 1e-5, 1e-3]))
        s['vary'] = bool(rng.random() < .5)
        out.append(s)
        if not s['feat']:
            for a in (1, 2, 3, 4):
                if a != s['alg'] and not (a == 4 and s['base'] in BIG):
                    out.append(dict(s, alg=a, tol=1e-8))
    for s in mkspecs(rng, n_of(tier, 16, 160), ['net1', 'net2', 'net3', 'net5', 'case9', 'case14', 'case6ww', 'net8', 'net15'], plain=False, p=.2):
        # hardly any unknowns: few buses, or a unit holding the voltage at every bus
        if s['base'] == 'net1':
            s['feat'] = [f for f in s['feat'] if f in ('loads', 'shunts', 'splitgen', 'basemva', 'widegen')]
        elif s['base'] != 'net2' and rng.random() < .7:
            s['feat'] = s['feat'] + ['allpv']
        for a in (1, 2, 3, 4):
            out.append(dict(s, alg=a, tol=1e-8, vary=False))
    return rare(out)


@prop('P01', 'built-in and random networks with random taps, shifters, shunts, parallel circuits, several units per '
      'bus, units at load buses, dead equipment, external numbering; all four algorithms; non-trivial = a converged '
      'solution whose balance was recomputed bus by bus, distinct by (base, features, algorithm, tolerance)', plan01,
      floors={'converged': 40})
def p01(spec, mon):
    src = build(spec)
    count_feats(mon, spec)
    r, ok = pf(src, PF_ALG=spec['alg'], PF_TOL=spec['tol'], PF_MAX_IT_GS=3000)
    mon.count('runs ' + ALGS[spec['alg']])
    _, its = R.newton(src)
    if spec['alg'] == 1 and its is not None and its <= 8:
        mon.check(ok, 'newton-converges', 'an independent Newton solver converges in %d iterations from the same '
                  'start, runpf reports failure' % its)
    mon.check(bool(ok) == bool(r['success']), 'success-consistent', 'returned success flag differs from results')
    if not ok:
        mon.count('not converged ' + ALGS[spec['alg']])
        return
    mon.count('converged')
    mon.sig(spec['base'], feats_sig(spec), spec['alg'], spec['tol'])
    mis = R.mismatch(r)
    kr, kv, kq = R.bus_kinds(src)
    tol = 2 * spec['tol'] * src['baseMVA'] + 1e-9 * scale(src)
    mon.close(abs(mis.real), 0, tol, 'P-balance', 'real power mismatch (MW) at a bus')
    mon.close(abs(mis.imag), 0, tol, 'Q-balance', 'reactive power mismatch (MVAr) at a bus')
    # at the slack (P, Q) and the controlled buses (Q) the dispatch is computed, so it is exact
    tight = 1e-8 * scale(src)
    mon.close(abs(mis[kr]), 0, tight, 'slack-balance', 'power mismatch at a reference bus')
    mon.close(abs(mis[kv].imag), 0, tight, 'pv-Q-balance', 'reactive mismatch at a voltage-controlled bus')
    # the whole system: generation = load + shunts + losses
    br = r['branch']
    V2 = r['bus'][:, VM] ** 2
    lb = live_bus(src)
    loss = (br[:, PF] + br[:, PT]).sum()
    sh = (r['bus'][lb, GS] * V2[lb]).sum()
    g = R.gen_at_bus(r).real.sum()
    mon.close(g, r['bus'][lb, PD].sum() + sh + loss, tol * (2 + len(kv) + len(kq)), 'system-P', 'total generation vs load+losses')
    mon.sample(dict(spec, buses=len(src['bus']), live_units=int(live_gen(src).sum()), kinds=kinds_str(src)))


# ------------------------------------------------------------------ P02
def plan02(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 110, 1500), BASES, must=['offgen']):
        s['alg'] = int(rng.choice([1, 1, 2, 3, 4])) if s['base'] not in BIG else int(rng.choice([1, 2, 3]))
        out.append(s)
    for s in mkspecs(rng, n_of(tier, 50, 600), BASES):
        s['alg'] = 1
        out.append(s)
    return rare(out, .25)


@prop('P02', 'random PF workloads as for P01; every input column, schedule and set-point compared with the result; '
      'distinct by (base, features, algorithm)', plan02, floors={'converged': 60})
def p02(spec, mon):
    src = build(spec)
    count_feats(mon, spec)
    inp = copy(src)
    r, ok = pf(src, PF_ALG=spec['alg'], PF_MAX_IT_GS=3000)
    # these hold whether or not it converged
    b0, g0, l0 = inp['bus'], inp['gen'], inp['branch']
    b, g, l = r['bus'], r['gen'], r['branch']
    if not mon.check(b.shape[0] == b0.shape[0] and g.shape[0] == g0.shape[0] and l.shape[0] == l0.shape[0],
                     'row-count', 'rows of bus/gen/branch lost or added'):
        return
    keep = [c for c in range(13) if c not in (VM, VA)]
    same(mon, b[:, keep], b0[:, keep], 'bus-input', 'bus input columns changed')
    lb = live_bus(inp)
    same(mon, b[~lb][:, [VM, VA]], b0[~lb][:, [VM, VA]], 'dead-bus', 'voltage of an isolated bus changed')
    keep = [c for c in range(g0.shape[1]) if c not in (PG, QG)]
    same(mon, g[:, keep], g0[:, keep], 'gen-input', 'gen input columns changed')
    same(mon, l[:, :13], l0[:, :13], 'branch-input', 'branch input columns changed')
    if 'gencost' in inp:
        same(mon, r['gencost'], inp['gencost'], 'gencost-input', 'gencost changed')
    mon.check(r['baseMVA'] == inp['baseMVA'], 'base-input', 'baseMVA changed')
    on = live_gen(inp)
    ref, pv, pq = R.bus_kinds(inp)
    pos = bus_pos(inp)
    gb = np.array([pos[int(x)] for x in g0[:, GEN_BUS]])
    mon.close(g[~on][:, [PG, QG]], 0, 0, 'off-gen-zero', 'output of an out-of-service unit')
    lon = live_branch(inp)
    mon.close(l[~lon][:, PF:QT + 1], 0, 0, 'off-branch-zero', 'flow on an out-of-service branch')
    sel = on & ~np.isin(gb, ref)
    same(mon, g[sel, PG], g0[sel, PG], 'P-schedule', 'scheduled P of a non-slack unit changed')
    mon.count('scheduled units compared', sel.sum())
    V = b[:, VM]
    for i in ref + pv:
        vg = [g0[k, VG] for k in range(len(on)) if on[k] and gb[k] == i]
        mon.check(min(abs(V[i] - x) for x in vg) < 1e-9, 'V-setpoint',
                  'voltage magnitude at a controlled bus %g, set-points %s' % (V[i], vg))
    a = (b[ref, VA] - b0[ref, VA] + 180) % 360 - 180
    mon.close(a, 0, 1e-8, 'ref-angle', 'angle of the reference bus')
    if ok:
        mon.count('converged')
        mon.sig(spec['base'], feats_sig(spec), spec['alg'])
        tol = 1e-6 * scale(inp)
        for i in set(gb[on]) - set(ref) - set(pv):
            k = on & (gb == i)
            mon.count('units at load buses', k.sum())
            mon.close(g[k, QG].sum(), g0[k, QG].sum(), tol, 'pq-gen-Q', 'Q of units at a load bus')


# ------------------------------------------------------------------ P03
def plan03(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 150, 2000), BASES, must=['taps']):
        s['alg'] = int(rng.choice([1, 1, 2, 3])) if s['base'] not in SMALL else int(rng.choice([1, 2, 3, 4]))
        s['maxit'] = int(rng.choice([2, 10]))
        out.append(s)
    rare(out)
    # limits enforced on top: units freed, the slack moved, angles turned back
    for s in mkspecs(rng, n_of(tier, 60, 900), [b for b in BASES if b not in BIG], must=['taps'], p=.3, plain=False):
        s.update(alg=int(rng.choice([1, 1, 1, 2])), maxit=10, qlim=int(rng.choice([1, 2])))
        out.append(s)
    return out


@prop('P03', 'random PF workloads with off-nominal taps, phase shifters and parallel/dead branches, converged or cut '
      'short; flows recomputed branch by branch with scalar pi-model arithmetic; distinct by (base, features, alg, '
      'iteration cap)', plan03, floors={'branches checked': 2000})
def p03(spec, mon):
    src = build(spec)
    count_feats(mon, spec)
    kw = {}
    if spec.get('qlim'):
        # limits near the unlimited solution: some units leave theirs, often the one at the slack
        r0, ok = pf(copy(src), PF_ALG=1)
        rng = rng_for('p03', spec['seed'])
        g, on, pos = src['gen'], live_gen(src), bus_pos(src)
        ref = R.bus_kinds(src)[0]
        q0 = r0['gen'][:, QG]
        for k in np.flatnonzero(on):
            slack = pos[int(g[k, GEN_BUS])] in ref
            g[k, QMAX], g[k, QMIN] = q0[k] + rng.uniform(15, 60), q0[k] - rng.uniform(15, 60)
            if rng.random() < (.7 if slack else .15):
                g[k, QMAX] = q0[k] - rng.uniform(1, 6)
                g[k, QMIN] = min(g[k, QMIN], g[k, QMAX] - 10)
        kw['ENFORCE_Q_LIMS'] = spec['qlim']
    r, ok = pf(src, PF_ALG=spec['alg'], PF_MAX_IT=spec['maxit'], PF_MAX_IT_GS=300, **kw)
    mon.count('converged' if ok else 'stopped early')
    if kw and ok and np.any(r['bus'][ref, BUS_TYPE] != src['bus'][ref, BUS_TYPE]):
        mon.count('slack moved by reactive limits')
    if not np.all(np.isfinite(r['bus'][:, VM])):
        mon.count('diverged')
        return
    Sf, St = R.flows(r)
    s = 1 + max(abs(Sf).max(), abs(St).max())
    l = r['branch']
    mon.close(l[:, PF] + 1j * l[:, QF], Sf, 1e-8 * s, 'from-flow', 'flow at the from end (MVA)')
    mon.close(l[:, PT] + 1j * l[:, QT], St, 1e-8 * s, 'to-flow', 'flow at the to end (MVA)')
    lon = live_branch(src)
    mon.close(l[~lon][:, PF:QT + 1], 0, 0, 'off-branch-zero', 'flow on a dead branch')
    mon.count('branches checked', len(l))
    mon.count('dead branches checked', (~lon).sum())
    k = lon & (src['branch'][:, BR_R] >= 0)
    mon.check(np.all((l[k, PF] + l[k, PT]) >= -1e-7 * s), 'losses-nonneg', 'negative series losses')
    mon.count('transformers', int((lon & (src['branch'][:, TAP] != 0)).sum()))
    mon.count('phase shifters', int((lon & (src['branch'][:, SHIFT] != 0)).sum()))
    mon.sig(spec['base'], feats_sig(spec), spec['alg'], spec['maxit'])


# ------------------------------------------------------------------ P04
def plan04(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 140, 2000), BASES, must=['splitgen'], plain=False):
        s['alg'] = int(rng.choice([1, 1, 2, 3]))
        s['zero'] = bool(rng.random() < .3)
        s['extra'] = int(rng.integers(1, 4)) if rng.random() < .6 else 0
        s['inf'] = bool(rng.random() < .25)
        out.append(s)
    return out


@prop('P04', 'cases with several units at the same controlled bus (different, one-sided and zero reactive ranges, some '
      'units off) and at the reference bus; sharing rule recomputed per bus; distinct by (base, features, shape)', plan04,
      floors={'buses with shared Q': 60, 'slack buses with several units': 10, 'units without limits': 10})
def p04(spec, mon):
    src = build(spec)
    rng = rng_for('p04', spec['seed'])
    g = src['gen']
    pos = bus_pos(src)
    for _ in range(spec['extra']):
        # one more unit at the reference bus
        rb = src['bus'][R.bus_kinds(src)[0][0], BUS_I]
        k = int(np.flatnonzero((g[:, GEN_BUS] == rb) & live_gen(src))[0])
        row = g[k].copy()
        row[PG], row[QMAX], row[QMIN] = round(rng.uniform(2, 9), 2), round(rng.uniform(5, 60), 1), -round(rng.uniform(0, 40), 1)
        src['gen'] = g = np.insert(g, int(rng.integers(len(g) + 1)), row, axis=0)
        src.pop('gencost', None)
    gb = np.array([pos[int(x)] for x in g[:, GEN_BUS]])
    on = live_gen(src)
    if spec['zero']:
        cnt = [i for i in set(gb[on]) if (gb[on] == i).sum() > 1]
        for i in cnt[:2]:
            k = np.flatnonzero(on & (gb == i))
            if rng.random() < .5:       # the whole bus has no range
                g[k, QMAX] = g[k, QMIN] = 3.0
            else:                       # one unit has none
                g[k[0], QMAX] = g[k[0], QMIN]
    if spec['inf']:
        # no upper limit, no lower limit, or neither
        g = src['gen'] = g.astype(float)
        for k in rng.permutation(np.flatnonzero(on))[:max(1, len(g) // 3)]:
            if g[k, QMAX] > g[k, QMIN]:
                w = rng.integers(3)
                if w != 0:
                    g[k, QMAX] = np.inf
                if w != 1:
                    g[k, QMIN] = -np.inf
    inp = copy(src)
    g0 = inp['gen']
    r, ok = pf(src, PF_ALG=spec['alg'])
    if not ok:
        mon.count('not converged')
        return
    g = r['gen']
    ref, pv, pq = R.bus_kinds(inp)
    Y = R.ybus(inp)
    V = R.vcomplex(r['bus'])
    inj = V * np.conj(Y @ V) * inp['baseMVA'] + (inp['bus'][:, PD] + 1j * inp['bus'][:, QD])
    tol = 1e-7 * scale(inp)
    for i in set(gb[on]):
        k = np.flatnonzero(on & (gb == i))
        if i in ref or i in pv:
            mon.close(g[k, QG].sum(), inj[i].imag, tol, 'Q-total', 'total Q of the units at a controlled bus')
        if i in ref:
            mon.close(g[k, PG].sum(), inj[i].real, tol, 'slack-P-total', 'total P of the units at the slack bus')
            if len(k) > 1:
                mon.count('slack buses with several units')
                ch = (abs(g[k, PG] - g0[k, PG]) > 1e-9).sum()
                mon.check(ch <= 1, 'slack-one-unit', '%d units at the reference bus changed P' % ch)
        if np.isinf(g0[k][:, [QMIN, QMAX]]).any():
            mon.count('units without limits', int(np.isinf(g0[k][:, [QMIN, QMAX]]).any(axis=1).sum()))
            tot = g[k, QG].sum()
            mon.check(np.isfinite(g[k, QG]).all(), 'Q-finite', 'reactive outputs %s' % g[k, QG])
            if (i in ref or i in pv) and g0[k, QMIN].sum() <= tot <= g0[k, QMAX].sum():
                mon.check(np.all(g[k, QG] >= g0[k, QMIN] - tol) and np.all(g[k, QG] <= g0[k, QMAX] + tol), 'Q-in-limits', 'a unit is outside its limits though the bus is not')
            if not np.isfinite(g0[k][:, [QMIN, QMAX]]).any() and (i in ref or i in pv):
                mon.close(g[k, QG], tot / len(k), tol, 'Q-equal', 'Q shared equally by units without limits')
        elif len(k) > 1 and (i in ref or i in pv):
            rngs = g0[k, QMAX] - g0[k, QMIN]
            tot = g[k, QG].sum()
            mon.count('buses with shared Q')
            mon.count('units sharing', len(k))
            if rngs.sum() > 1e-6:
                exp = g0[k, QMIN] + (tot - g0[k, QMIN].sum()) * rngs / rngs.sum()
                mon.close(g[k, QG], exp, tol, 'Q-proportional', 'Q shared in proportion to the reactive ranges')
            elif rngs.sum() == 0:
                mon.count('zero-range buses')
                mon.close(g[k, QG], tot / len(k), tol, 'Q-equal', 'Q shared equally without reactive range')
            mon.sig(spec['base'], feats_sig(spec), len(k), bool(rngs.sum() > 0), bool((rngs == 0).any()), i in ref)
    mon.sample(dict(spec, units_at_bus=int(max((gb[on] == i).sum() for i in set(gb[on])))))


# ------------------------------------------------------------------ P05
def plan05(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 70, 1000), BASES):
        s['mode'] = 'agree'
        out.append(s)
    rare(out)
    for s in mkspecs(rng, n_of(tier, 90, 1200), SMALL + ['net8', 'net15', 'net30', 'case118'], plain=False, p=.25):
        s['mode'] = 'honest'
        s['alg'] = int(rng.integers(1, 5))
        s['maxit'] = int(rng.integers(0, 6)) if s['alg'] == 1 else int(rng.integers(1, 14)) if s['alg'] < 4 else int(rng.integers(2, 400))
        s['tol'] = float(rng.choice([1e-8, 1e-6, 1e-4, 1e-2]))
        s['stress'] = float(rng.choice([1, 1, 1.3, 2, 4, 8]))
        out.append(s)
    for s in mkspecs(rng, n_of(tier, 60, 600), ['case6ww', 'case9', 'case14', 'case30', 'net6', 'net9', 'net15'], plain=False, p=.25, must=('mostpv',)):
        s['mode'] = 'honest'
        s['alg'] = int(rng.choice([1, 2, 3, 4, 4, 4]))
        s['maxit'] = int(rng.choice([3, 8, 30, 1000]))
        s['tol'] = float(rng.choice([1e-8, 1e-6, 1e-4, 1e-3, 1e-2, .05]))
        s['stress'] = float(rng.choice([.5, 1, 1, 1.3, 2]))
        out.append(s)
    return out


@prop('P05', 'same case solved by all four algorithms and an independent dense Newton solver; and solves cut short by '
      'iteration caps, loose tolerances or overload, whose success flag is compared with the recomputed mismatch; '
      'distinct by (base, features, mode, algorithm, outcome)', plan05,
      floors={'agreements': 60, 'honest success': 8, 'honest failure': 8})
def p05(spec, mon):
    src = build(spec)
    count_feats(mon, spec)
    if spec['mode'] == 'agree':
        V, its = R.newton(src)
        if its is None or its > 9:
            mon.count('reference did not converge')
            return
        lb = live_bus(src)
        plain = not spec['feat']
        for alg in (1, 2, 3, 4):
            if alg == 4 and (len(src['bus']) > 60):
                continue
            r, ok = pf(copy(src), PF_ALG=alg, PF_MAX_IT_FD=60, PF_MAX_IT_GS=4000)
            if alg == 1 or (plain and (alg != 4 or len(src['bus']) <= 30)):
                mon.check(ok, 'should-converge', '%s fails on a case that is easy to solve' % ALGS[alg])
            if not ok:
                mon.count('not converged ' + ALGS[alg])
                continue
            mon.count('agreements')
            mon.count('converged ' + ALGS[alg])
            Vr = R.vcomplex(r['bus'])
            mon.close(Vr[lb], V[lb], 3e-5 if alg == 4 else 2e-6, 'same-solution',
                      '%s: bus voltage differs from the independent solution' % ALGS[alg])
            mon.sig(spec['base'], feats_sig(spec), alg)
        return
    s = spec['stress']
    floats(src)
    src['bus'][:, [PD, QD]] *= s
    src['gen'][:, PG] *= s
    inp = copy(src)
    a = spec['alg']
    kw = {1: 'PF_MAX_IT', 2: 'PF_MAX_IT_FD', 3: 'PF_MAX_IT_FD', 4: 'PF_MAX_IT_GS'}[a]
    r, ok = pf(src, PF_ALG=a, PF_TOL=spec['tol'], **{kw: spec['maxit']})
    mon.check(ok in (0, 1, True, False), 'flag-type', 'success flag is %r' % (ok,))
    mon.check(bool(ok) == bool(r['success']), 'success-consistent', 'returned success flag differs from results')
    V = R.vcomplex(r['bus'])
    mon.sig(spec['base'], feats_sig(spec), a, bool(ok), spec['tol'], s)
    if not np.all(np.isfinite(V)):
        mon.check(not ok, 'nan-success', 'success reported with non-finite voltages')
        mon.count('non-finite results')
        return
    e = sched_error(inp, V)
    lim = spec['tol'] * inp['baseMVA']
    if ok:
        mon.count('honest success')
        mon.check(e <= 1.3 * lim * max(1, abs(V).max()) + 1e-8 * scale(inp), 'false-success',
                  '%s reports success with a mismatch of %g MVA (tolerance %g)' % (ALGS[a], e, lim))
    else:
        mon.count('honest failure')
        mon.check(e > .7 * lim * min(1, abs(V).min()), 'false-failure',
                  '%s reports failure with a mismatch of %g MVA, below its tolerance %g' % (ALGS[a], e, lim))


# ------------------------------------------------------------------ P06
def plan06(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 150, 1800), ['case9', 'case14', 'case24_ieee_rts', 'case30', 'case39', 'case57',
                     'case118', 'net15', 'net30', 'net60'], plain=False, p=.3):
        s['mode'] = int(rng.choice([1, 2]))
        s['alg'] = int(rng.choice([1, 1, 1, 2, 3]))
        s['frac'] = float(rng.choice([0, .2, .5, .8]))
        out.append(s)
    rare(out)
    # every unit beyond its limits, those at load buses included
    for s in mkspecs(rng, n_of(tier, 25, 300), ['case9', 'case14', 'case30', 'net3', 'net5', 'net8', 'net15'], plain=False, p=.3):
        s['feat'] = sorted(set(s['feat']) | {'pqgen'})
        s.update(mode=int(rng.choice([1, 2])), alg=int(rng.choice([1, 1, 2])), frac=float(rng.choice([.6, 1])), hard=True)
        out.append(s)
    return out


def qlim_reference(src, mode, viol):
    """the documented enforcement, on top of the independent Newton solver; None if it must fail"""
    p = floats(copy(src))
    ref0 = R.bus_kinds(p)[0]
    limited = {}
    moved = False
    for _ in range(40):
        V, its = R.newton(p, tol=1e-11, itmax=25)
        if its is None:
            return None, None, None, moved
        pos, on = bus_pos(p), live_gen(p)
        gb = np.array([pos[int(x)] for x in p['gen'][:, GEN_BUS]])
        ref, pv, pq = R.bus_kinds(p)
        inj = V * np.conj(R.ybus(p) @ V) * p['baseMVA'] + p['bus'][:, PD] + 1j * p['bus'][:, QD]
        g = p['gen']
        for i in ref + pv:
            k = np.flatnonzero(on & (gb == i))
            rr = g[k, QMAX] - g[k, QMIN]
            q = inj[i].imag
            g[k, QG] = q / len(k) if rr.sum() == 0 else g[k, QMIN] + (q - g[k, QMIN].sum()) * rr / rr.sum()
            if i in ref:
                g[k[0], PG] = inj[i].real - g[k[1:], PG].sum()
        over = np.where(on, np.maximum(g[:, QG] - g[:, QMAX], g[:, QMIN] - g[:, QG]), -1)
        if np.any((abs(over - viol) < 1e-7) & on):
            return 'tie', None, None, moved
        bad = np.flatnonzero(over > viol)
        if not len(bad):
            return 'ok', V, limited, moved
        rem = [k for k in np.flatnonzero(on) if gb[k] in ref or gb[k] in pv]
        if set(bad) == set(rem):
            return None, None, None, moved
        if mode == 2:
            o = np.sort(over[bad])
            if len(o) > 1 and o[-1] - o[-2] < 1e-6:
                return 'tie', None, None, moved
            bad = [int(bad[np.argmax(over[bad])])]
        if len(ref) > 1 and any(gb[k] in ref for k in bad):
            return 'refused', None, None, moved
        for k in bad:
            limited[int(k)] = g[k, QMAX] if g[k, QG] > g[k, QMAX] else g[k, QMIN]
            g[k, GEN_STATUS] = 0
            p['bus'][gb[k], PD] -= g[k, PG]
            p['bus'][gb[k], QD] -= limited[int(k)]
            p['bus'][gb[k], BUS_TYPE] = PQ
        # start the next solve from the original voltages, as documented by "re-run"
        nref, npv, _ = R.bus_kinds(p)
        if nref != ref:
            moved = True
            p['bus'][nref, BUS_TYPE] = REF
    return None, None, None, moved


@prop('P06', 'cases whose reactive limits are narrowed so that some units bind, simultaneous and one-at-a-time '
      'enforcement, slack unit included; distinct by (base, features, mode, algorithm, number at limits, slack moved)',
      plan06, floors={'converged': 50, 'units at limit': 50})
def p06(spec, mon):
    src = build(spec)
    rng = rng_for('p06', spec['seed'])
    r0, ok0 = pf(copy(src), PF_ALG=1)
    if not ok0:
        mon.count('base case not solvable')
        return
    g = src['gen']
    on = live_gen(src)
    pos = bus_pos(src)
    gb = np.array([pos[int(x)] for x in g[:, GEN_BUS]])
    ref, pv, pq = R.bus_kinds(src)
    # make limits explicit around the unconstrained solution, then narrow some
    q0 = r0['gen'][:, QG]
    for k in np.flatnonzero(on):
        g[k, QMAX] = q0[k] + rng.uniform(15, 60)
        g[k, QMIN] = q0[k] - rng.uniform(15, 60)
        if (gb[k] in pv or gb[k] in ref) and rng.random() < spec['frac']:
            d = rng.uniform(1, 12)
            if rng.random() < .7:
                g[k, QMAX] = q0[k] - d
                g[k, QMIN] = min(g[k, QMIN], g[k, QMAX] - 10)
            else:
                g[k, QMIN] = q0[k] + d
                g[k, QMAX] = max(g[k, QMAX], g[k, QMIN] + 10)
        if spec.get('hard') and gb[k] in pq and rng.random() < .6:
            g[k, [QMIN, QMAX]] = q0[k] + rng.choice([-1, 1]) * rng.uniform(3, 8) + np.array([-2, 2])
    inp = copy(src)
    viol = 5e-6
    tag, V, limited, moved = qlim_reference(inp, spec['mode'], viol)
    try:
        r, ok = pf(src, PF_ALG=spec['alg'], ENFORCE_Q_LIMS=spec['mode'], PF_MAX_IT_FD=60, PF_MAX_IT=15)
    except ValueError as e:
        # documented: no enforcement at the slack units of a system with several
        if len(ref) > 1 and 'multiple slacks' in str(e):
            mon.count('several slacks: enforcement refused')
            mon.check(tag != 'ok' or spec['alg'] != 1, 'refused-without-need', 'enforcement refused although no '
                      'slack unit leaves its limits')
            return
        raise
    mon.check(tag != 'refused' or not ok, 'slack-limit-ignored', 'solved although a slack unit of a system with several leaves its limits')
    if len(ref) > 1:
        mon.count('several slacks')
    b, g = r['bus'], r['gen']
    same(mon, g[:, GEN_STATUS], inp['gen'][:, GEN_STATUS], 'status-restored', 'unit status changed')
    mon.close(b[:, [PD, QD]], inp['bus'][:, [PD, QD]], 1e-9 * scale(inp), 'load-restored', 'bus loads changed')
    keep = [c for c in range(g.shape[1]) if c not in (PG, QG, GEN_STATUS)]
    same(mon, g[:, keep], inp['gen'][:, keep], 'gen-input', 'gen input columns changed')
    keep = [c for c in range(13) if c not in (VM, VA, BUS_TYPE, PD, QD)]
    same(mon, b[:, keep], inp['bus'][:, keep], 'bus-input', 'bus input columns changed')
    if tag == 'ok' and spec['alg'] == 1:
        mon.check(ok, 'enforce-converges', 'limits can be enforced, runpf reports failure')
    if not ok:
        mon.count('failed')
        if tag is None:
            mon.count('failed as expected')
        return
    if tag is None and spec['mode'] == 1 and spec['alg'] == 1:
        mon.count('solved where the reference does not')
    mon.count('converged')
    tol = viol + 1e-6 * scale(inp) * 1e-2
    q = g[:, QG]
    gg = inp['gen']
    mon.check(np.all(q[on] <= gg[on, QMAX] + tol) and np.all(q[on] >= gg[on, QMIN] - tol), 'within-limits',
              'a unit is outside its reactive limits with enforcement on: %s' %
              max((q[on] - gg[on, QMAX]).max(), (gg[on, QMIN] - q[on]).max()))
    mis = R.mismatch(dict(r, gen=g))
    mon.close(abs(mis), 0, 1e-5 * inp['baseMVA'] * 1e-2 + 1e-8 * scale(inp), 'balance', 'power mismatch (MVA) with limits enforced')
    mon.close((b[ref, VA] - inp['bus'][ref, VA] + 180) % 360 - 180, 0, 1e-7, 'ref-angle', 'angle of the original reference bus')
    nlim = 0
    for k in np.flatnonzero(on):
        if gb[k] in pv or gb[k] in ref:
            if b[gb[k], BUS_TYPE] in (PV, REF):
                mon.check(abs(b[gb[k], VM] - gg[k, VG]) < 1e-9, 'V-held', 'voltage not held at an unlimited unit')
            else:
                mon.check(b[gb[k], BUS_TYPE] == PQ, 'type', 'bus type %g' % b[gb[k], BUS_TYPE])
        if min(abs(q[k] - gg[k, QMAX]), abs(q[k] - gg[k, QMIN])) < 1e-9:
            nlim += 1
    for i in set(ref) | set(pv):
        if b[i, BUS_TYPE] == PQ:
            k = on & (gb == i)
            d = np.minimum(abs(q[k] - gg[k, QMAX]), abs(q[k] - gg[k, QMIN])).min()
            mon.check(d < 1e-9, 'limited-at-limit', 'voltage control given up at a bus with no unit at its limit')
    mon.count('units at limit', nlim)
    same(mon, np.isin(b[:, BUS_TYPE], [NONE]), np.isin(inp['bus'][:, BUS_TYPE], [NONE]), 'dead-bus', 'isolated buses changed')
    if tag == 'ok':
        mon.count('compared with reference')
        lb = live_bus(inp)
        Vr = R.vcomplex(b)
        ang = np.exp(1j * (inp['bus'][ref[0], VA] * np.pi / 180 - np.angle(V[ref[0]])))
        mon.close(Vr[lb], (V * ang)[lb], 5e-6, 'same-as-documented', 'voltages with limits enforced differ from the documented procedure')
        for k, v in limited.items():
            mon.close(q[k], v, 1e-9, 'at-limit-value', 'Q of a limited unit')
        if not limited:
            mon.count('no limit hit')
            mon.close(R.vcomplex(b), R.vcomplex(r0['bus']), 5e-6, 'inactive-is-identity', 'enforcement changed a solution within limits')
        if moved:
            mon.count('slack moved')
    mon.sig(spec['base'], feats_sig(spec), spec['mode'], spec['alg'], nlim, moved)


# ------------------------------------------------------------------ P07
def plan07(tier, rng):
    out = mkspecs(rng, n_of(tier, 170, 2500), BASES, must=['taps'])
    out += mkspecs(rng, n_of(tier, 60, 800), BASES, plain=False, p=.6)
    return rare(out)


@prop('P07', 'random networks with taps, shifters, bus shunts, dead equipment and several units at the slack; '
      'compared with a dense element-by-element DC solution; distinct by (base, features)', plan07,
      floors={'solved': 150})
def p07(spec, mon):
    src = build(spec)
    count_feats(mon, spec)
    inp = copy(src)
    r, ok = dcpf(src)
    mon.check(ok, 'success', 'DC power flow fails')
    Va, P, ref = R.dc_solve(inp)
    b, g, l = r['bus'], r['gen'], r['branch']
    lb, on, lon = live_bus(inp), live_gen(inp), live_branch(inp)
    s = scale(inp)
    mon.close(b[lb, VA], Va[lb], 1e-6, 'angles', 'bus angle (deg)')
    mon.close(b[~lb, VA], inp['bus'][~lb, VA], 0, 'dead-bus', 'angle of an isolated bus')
    mon.close(b[lb, VM], 1, 0, 'flat-V', 'voltage magnitude in the DC model')
    mon.close(l[:, PF], P, 1e-8 * s, 'flow', 'branch flow (MW)')
    mon.close(l[:, PT], -l[:, PF], 1e-12 * s, 'lossless', 'PT vs -PF')
    mon.close(l[:, [QF, QT]], 0, 0, 'no-Q', 'reactive flow in the DC model')
    same(mon, l[:, :13], inp['branch'][:, :13], 'branch-input', 'branch input columns changed')
    keep = [c for c in range(13) if c not in (VM, VA)]
    same(mon, b[:, keep], inp['bus'][:, keep], 'bus-input', 'bus input columns changed')
    pos = bus_pos(inp)
    gb = np.array([pos[int(x)] for x in inp['gen'][:, GEN_BUS]])
    sel = on & ~np.isin(gb, ref)
    same(mon, g[sel, PG], inp['gen'][sel, PG], 'P-schedule', 'scheduled P of a non-slack unit')
    keep = [c for c in range(g.shape[1]) if c not in (PG, QG)]
    same(mon, g[:, keep], inp['gen'][:, keep], 'gen-input', 'gen input columns changed')
    mon.close(g[~on][:, [PG, QG]], 0, 0, 'off-gen-zero', 'output of an out-of-service unit')
    for i in ref:
        k = on & (gb == i)
        ch = (abs(g[k, PG] - inp['gen'][k, PG]) > 1e-9 * s).sum()
        mon.check(ch <= 1, 'slack-one-unit', '%d units at the slack bus changed P' % ch)
        if k.sum() > 1:
            mon.count('slack buses with several units')
    bal = R.gen_at_bus(r).real - b[:, PD] - b[:, GS]
    for k in np.flatnonzero(lon):
        bal[pos[int(l[k, F_BUS])]] -= l[k, PF]
        bal[pos[int(l[k, T_BUS])]] += l[k, PF]
    mon.close(bal[lb], 0, 1e-8 * s, 'balance', 'nodal power balance (MW)')
    mon.count('solved')
    mon.count('dead branches', (~lon).sum())
    mon.sig(spec['base'], feats_sig(spec))
    mon.sample(dict(spec, buses=len(b), shifters=int((l[:, SHIFT] != 0).sum())))
