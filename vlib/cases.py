"""Workload generation: deterministic cases from small specs.

A spec {'base': name, 'seed': n, 'feat': [...]} gives one case.  `base` is a
built-in case or 'netN' for a random N-bus network.
"""
import importlib
import numpy as np
from .core import rng_for

# column numbers (the documented case format, version 2), on purpose not
# imported from the code under test
BUS_I, BUS_TYPE, PD, QD, GS, BS, BUS_AREA, VM, VA, BASE_KV, ZONE, VMAX, VMIN = range(13)
LAM_P, LAM_Q, MU_VMAX, MU_VMIN = 13, 14, 15, 16
GEN_BUS, PG, QG, QMAX, QMIN, VG, MBASE, GEN_STATUS, PMAX, PMIN, PC1, PC2, QC1MIN, QC1MAX, \
    QC2MIN, QC2MAX, RAMP_AGC, RAMP_10, RAMP_30, RAMP_Q, APF = range(21)
MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN = 21, 22, 23, 24
F_BUS, T_BUS, BR_R, BR_X, BR_B, RATE_A, RATE_B, RATE_C, TAP, SHIFT, BR_STATUS, ANGMIN, ANGMAX = range(13)
PF, QF, PT, QT, MU_SF, MU_ST, MU_ANGMIN, MU_ANGMAX = range(13, 21)
MODEL, STARTUP, SHUTDOWN, NCOST, COST = 0, 1, 2, 3, 4
PQ, PV, REF, NONE = 1, 2, 3, 4

ALL = ['case4gs', 'case6ww', 'case9', 'case9Q', 'case14', 'case24_ieee_rts', 'case30', 'case30Q',
       'case30pwl', 'case39', 'case57', 'case118', 'case300']
SMALL = ['case4gs', 'case6ww', 'case9', 'case14', 'case24_ieee_rts', 'case30', 'case39', 'case57']


def builtin(name):
    return getattr(importlib.import_module('pypower.' + name), name)()


def copy(ppc):
    out = {}
    for k, v in ppc.items():
        out[k] = v.copy() if hasattr(v, 'copy') else v
    return out


# ---------------------------------------------------------------- graph helpers
def connected(n, edges):
    """edges: list of (i, j); True if all n nodes are in one component."""
    p = list(range(n))

    def f(x):
        while p[x] != x:
            p[x] = p[p[x]]
            x = p[x]
        return x
    for i, j in edges:
        p[f(i)] = f(j)
    return len({f(i) for i in range(n)}) <= 1


def bus_pos(ppc):
    return {int(b): i for i, b in enumerate(ppc['bus'][:, BUS_I])}


def live_bus(ppc):
    return ppc['bus'][:, BUS_TYPE] != NONE


def live_branch(ppc):
    pos, lb, br = bus_pos(ppc), live_bus(ppc), ppc['branch']
    return np.array([bool(r[BR_STATUS] > 0) and bool(lb[pos[int(r[F_BUS])]]) and bool(lb[pos[int(r[T_BUS])]])
                     for r in br], dtype=bool).reshape(-1)


def live_gen(ppc):
    pos, lb = bus_pos(ppc), live_bus(ppc)
    return np.array([bool(r[GEN_STATUS] > 0) and bool(lb[pos[int(r[GEN_BUS])]]) for r in ppc['gen']],
                    dtype=bool).reshape(-1)


def is_connected_without(ppc, drop):
    """are live buses connected by live branches not in `drop`?"""
    pos, lb, on = bus_pos(ppc), live_bus(ppc), live_branch(ppc)
    idx = {int(i): k for k, i in enumerate(np.flatnonzero(lb))}
    e = [(idx[pos[int(r[F_BUS])]], idx[pos[int(r[T_BUS])]]) for k, r in enumerate(ppc['branch'])
         if on[k] and k not in drop]
    return connected(len(idx), e)


# ---------------------------------------------------------------- random networks
def random_net(rng, n):
    bus = np.zeros((n, 13))
    bus[:, BUS_I] = np.arange(1, n + 1)
    bus[:, BUS_TYPE] = PQ
    bus[:, BUS_AREA] = rng.integers(1, 4, n)
    bus[:, ZONE] = rng.integers(1, 3, n)
    bus[:, VM] = 1
    bus[:, BASE_KV] = 135
    bus[:, VMAX], bus[:, VMIN] = 1.1, 0.9
    bus[:, PD] = np.round(rng.uniform(2, 25, n) * (rng.random(n) < .75), 2)
    bus[:, QD] = np.round(bus[:, PD] * rng.uniform(-.1, .45, n), 2)
    e = set()
    for i in range(1, n):
        j = int(rng.integers(max(0, i - 5), i))
        e.add((j, i))
    while len(e) < int(1.5 * n) and len(e) < n * (n - 1) // 2:
        i = int(rng.integers(0, n))
        j = int(rng.integers(max(0, i - 8), min(n, i + 9)))
        if i != j:
            e.add((min(i, j), max(i, j)))
    e = sorted(e)
    nl = len(e)
    br = np.zeros((nl, 13))
    for k, (i, j) in enumerate(e):
        if rng.random() < .5:
            i, j = j, i
        x = rng.uniform(.03, .18)
        br[k, :5] = [i + 1, j + 1, x * rng.uniform(.05, .5), x, rng.uniform(0, .05)]
    br[:, BR_STATUS] = 1
    br[:, ANGMIN], br[:, ANGMAX] = -360, 360
    tot = bus[:, PD].sum() + 1
    ng = min(n, max(2, n // 4))
    gb = rng.choice(n, ng, replace=False)
    share = rng.uniform(.5, 1.5, ng)
    share /= share.sum()
    gen = np.zeros((ng, 21))
    for k in range(ng):
        p = tot * share[k]
        gen[k, :10] = [gb[k] + 1, round(p, 2), 0, round(p + 40, 1), round(-.6 * p - 30, 1),
                       round(rng.uniform(.99, 1.04), 3), 100, 1, round(2.2 * p + 20, 1), 0]
    bus[gb, BUS_TYPE] = PV
    bus[gb[int(rng.integers(ng))], BUS_TYPE] = REF
    br[:, RATE_A] = np.where(rng.random(nl) < .7, np.round(rng.uniform(.5, 1.2, nl) * tot, 0), 0)
    br[:, RATE_B] = br[:, RATE_C] = br[:, RATE_A]
    gc = np.zeros((ng, 7))
    for k in range(ng):
        gc[k] = [2, 0, 0, 3, round(rng.uniform(.005, .06), 4), round(rng.uniform(10, 40), 2), round(rng.uniform(0, 80), 1)]
    return {'version': '2', 'baseMVA': 100.0, 'bus': bus, 'gen': gen, 'branch': br,
            'areas': np.array([[1., 1], [2, min(2, n)], [3, min(3, n)]]), 'gencost': gc}


# ---------------------------------------------------------------- features
def _loads(p, rng, lo=.85, hi=1.08):
    b = p['bus']
    b[:, PD] *= rng.uniform(lo, hi, len(b))
    b[:, QD] *= rng.uniform(lo, hi, len(b))


def _shunts(p, rng):
    b = p['bus']
    k = rng.choice(len(b), max(1, len(b) // 5), replace=False)
    tot = abs(b[:, PD]).sum() + 1
    b[k, GS] += tot * rng.uniform(.0005, .01, len(k))
    b[k, BS] += tot * rng.uniform(-.01, .02, len(k))


def _taps(p, rng):
    br = p['branch']
    k = rng.choice(len(br), max(1, len(br) // 5), replace=False)
    br[k, TAP] = np.round(rng.uniform(.96, 1.04, len(k)), 4)
    k = rng.choice(len(br), max(1, len(br) // 6), replace=False)
    br[k, SHIFT] = np.round(rng.uniform(-2.5, 2.5, len(k)), 3)


def _splitgen(p, rng):
    """several units at the same bus, with different ratings"""
    g = p['gen']
    for k in rng.choice(len(g), max(1, len(g) // 3), replace=False):
        row = g[k].copy()
        a = rng.uniform(.3, .7)
        for c in (PG, QG, QMAX, QMIN, PMAX, PMIN):
            row[c] = g[k, c] * a
            g[k, c] *= (1 - a)
        dq = rng.uniform(0, 10)
        row[QMAX] += dq
        if rng.random() < .5:
            row[QMIN] -= dq / 3
        g = p['gen'] = np.vstack([g, row])
        if 'gencost' in p:
            gc = p['gencost']
            ng = len(g) - 1
            if len(gc) == 2 * ng:
                p['gencost'] = np.vstack([gc[:ng], gc[k], gc[ng:], gc[ng + k]])
            else:
                p['gencost'] = np.vstack([gc, gc[k]])


def _addgencost(p, ng0, k):
    gc = p['gencost']
    if len(gc) == 2 * ng0:
        p['gencost'] = np.vstack([gc[:ng0], gc[k], gc[ng0:], gc[ng0 + k]])
    else:
        p['gencost'] = np.vstack([gc, gc[k]])


def _pqgen(p, rng):
    """an in-service unit at a PQ bus (fixed injection)"""
    b, g = p['bus'], p['gen']
    c = np.flatnonzero(b[:, BUS_TYPE] == PQ)
    if not len(c):
        return
    i = int(rng.choice(c))
    row = g[0].copy()
    row[:10] = [b[i, BUS_I], round(rng.uniform(1, 6), 2), round(rng.uniform(-3, 5), 2), 10, -10, 1.0, g[0, MBASE], 1, 12, 0]
    p['gen'] = np.vstack([g, row])
    if 'gencost' in p:
        _addgencost(p, len(g), 0)


def _allpv(p, rng):
    """a unit holding the voltage at every bus"""
    b = p['bus']
    for i in np.flatnonzero(b[:, BUS_TYPE] == PQ):
        g = p['gen']
        row = g[0].copy()
        row[:10] = [b[i, BUS_I], round(rng.uniform(0, 3), 2), 0, 200, -200, round(np.clip(b[i, VM], .97, 1.03), 3), g[0, MBASE], 1, 12, 0]
        p['gen'] = np.vstack([g, row])
        b[i, BUS_TYPE] = PV
        if 'gencost' in p:
            _addgencost(p, len(g), 0)


def _mostpv(p, rng):
    """a unit holding the voltage at most buses"""
    b = p['bus']
    keep = rng.random(len(b)) < rng.choice([.15, .4])
    t = b[:, BUS_TYPE].copy()
    b[keep & (t == PQ), BUS_TYPE] = 9
    _allpv(p, rng)
    b[b[:, BUS_TYPE] == 9, BUS_TYPE] = PQ


def _offgen(p, rng):
    """out-of-service units: extra copies with absurd outputs, at gen and load buses"""
    for _ in range(int(rng.integers(1, 3))):
        b, g = p['bus'], p['gen']
        k = int(rng.integers(len(g)))
        row = g[k].copy()
        if rng.random() < .4:
            row[GEN_BUS] = b[int(rng.choice(np.flatnonzero(b[:, BUS_TYPE] != NONE))), BUS_I]
        row[GEN_STATUS] = 0 if rng.random() < .7 else -1
        row[PG], row[QG], row[VG] = 77.5, -33.25, 1.21
        at = int(rng.integers(len(g) + 1))
        p['gen'] = np.insert(g, at, row, axis=0)
        if 'gencost' in p:
            gc, ng = p['gencost'], len(g)
            two = len(gc) == 2 * ng
            r1 = gc[k].copy()
            q = np.insert(gc[:ng], at, r1, axis=0)
            p['gencost'] = np.vstack([q, np.insert(gc[ng:], at, gc[ng + k], axis=0)]) if two else q


def _offbranch(p, rng):
    br = p['branch']
    nl = len(br)
    for _ in range(int(rng.integers(1, 3))):
        k = int(rng.integers(len(br)))
        row = br[k].copy()
        row[BR_R:BR_B + 1] *= .6
        row[BR_STATUS] = 0
        br = np.insert(br, int(rng.integers(len(br) + 1)), row, axis=0)
    p['branch'] = br
    # and take an original one out, if the network stays connected
    for k in rng.permutation(len(br))[:6]:
        if br[k, BR_STATUS] > 0 and is_connected_without(p, {int(k)}):
            # keep it electrically mild
            if abs(br[k, BR_X]) > .05:
                br[k, BR_STATUS] = 0
                break


def _parallel(p, rng):
    br = p['branch']
    for _ in range(2):
        k = int(rng.integers(len(br)))
        row = br[k].copy()
        row[BR_R] *= 1.2
        row[BR_X] *= 1.3
        if rng.random() < .5:
            row[F_BUS], row[T_BUS] = row[T_BUS], row[F_BUS]
            if row[TAP]:
                row[TAP] = 1 / row[TAP]
            row[SHIFT] *= -1
        br = np.insert(br, int(rng.integers(len(br) + 1)), row, axis=0)
    p['branch'] = br


def _isolated(p, rng):
    """dead (type 4) buses, with loads, units and in-service branches attached"""
    for _ in range(int(rng.integers(1, 3))):
        b, g, br = p['bus'], p['gen'], p['branch']
        row = b[int(rng.integers(len(b)))].copy()
        row[BUS_I] = b[:, BUS_I].max() + 1
        row[BUS_TYPE] = NONE
        row[PD], row[QD], row[GS], row[BS] = 44, 11, 3, 7
        row[VM], row[VA] = .93, 17.5
        p['bus'] = np.insert(b, int(rng.integers(len(b) + 1)), row, axis=0)
        r = br[int(rng.integers(len(br)))].copy()
        r[F_BUS], r[T_BUS], r[BR_STATUS] = row[BUS_I], b[int(rng.integers(len(b))), BUS_I], 1
        if rng.random() < .5:
            r[F_BUS], r[T_BUS] = r[T_BUS], r[F_BUS]
        p['branch'] = np.insert(br, int(rng.integers(len(br) + 1)), r, axis=0)
        if rng.random() < .6:
            k = int(rng.integers(len(g)))
            gr = g[k].copy()
            gr[GEN_BUS], gr[GEN_STATUS], gr[PG], gr[QG] = row[BUS_I], 1, 55, 22
            at = int(rng.integers(len(g) + 1))
            p['gen'] = np.insert(g, at, gr, axis=0)
            if 'gencost' in p:
                gc, ng = p['gencost'], len(g)
                q = np.insert(gc[:ng], at, gc[k], axis=0)
                p['gencost'] = np.vstack([q, np.insert(gc[ng:], at, gc[ng + k], axis=0)]) if len(gc) == 2 * ng else q


def _renumber(p, rng):
    """external numbers neither consecutive nor ordered; rows shuffled"""
    n = len(p['bus'])
    new = rng.choice(np.arange(1, 12 * n + 5), n, replace=False)
    m = {int(o): float(v) for o, v in zip(p['bus'][:, BUS_I], new)}
    _mapnum(p, m)


def _mapnum(p, m):
    p['bus'][:, BUS_I] = [m[int(x)] for x in p['bus'][:, BUS_I]]
    p['gen'][:, GEN_BUS] = [m[int(x)] for x in p['gen'][:, GEN_BUS]]
    for c in (F_BUS, T_BUS):
        p['branch'][:, c] = [m[int(x)] for x in p['branch'][:, c]]
    if 'areas' in p and len(p['areas']):
        p['areas'] = np.array(p['areas'], float)
        p['areas'][:, 1] = [m.get(int(x), x) for x in p['areas'][:, 1]]
    if 'dcline' in p:
        for c in (0, 1):
            p['dcline'][:, c] = [m[int(x)] for x in p['dcline'][:, c]]


def _shuffle(p, rng):
    shuffle(p, rng)


def shuffle(p, rng):
    """permute rows; returns the permutations used"""
    pb, pg, pl = rng.permutation(len(p['bus'])), rng.permutation(len(p['gen'])), rng.permutation(len(p['branch']))
    ng = len(pg)
    p['bus'], p['gen'], p['branch'] = p['bus'][pb], p['gen'][pg], p['branch'][pl]
    if 'gencost' in p:
        gc = p['gencost']
        p['gencost'] = np.vstack([gc[:ng][pg], gc[ng:][pg]]) if len(gc) == 2 * ng else gc[pg]
    return pb, pg, pl


def _moveref(p, rng):
    b, on = p['bus'], live_gen(p)
    c = [i for i in np.flatnonzero(b[:, BUS_TYPE] == PV)
         if any(on[k] and p['gen'][k, GEN_BUS] == b[i, BUS_I] for k in range(len(on)))]
    if c:
        b[b[:, BUS_TYPE] == REF, BUS_TYPE] = PV
        i = int(rng.choice(c))
        b[i, BUS_TYPE] = REF
    b[b[:, BUS_TYPE] == REF, VA] = round(rng.uniform(-20, 20), 2)


def _disp(p, rng):
    """dispatchable loads: negative units with constant power factor"""
    for _ in range(int(rng.integers(1, 3))):
        b, g = p['bus'], p['gen']
        c = np.flatnonzero((b[:, BUS_TYPE] != NONE))
        i = int(rng.choice(c))
        pm = -round(rng.uniform(3, 20), 1)
        q = round(pm * rng.uniform(.1, .4), 2)
        row = g[0].copy()
        row[:] = 0
        ind = rng.random()
        qmin, qmax = (q, 0.) if ind < .6 else ((0., -q) if ind < .8 else (0., 0.))
        row[:10] = [b[i, BUS_I], pm, qmin if qmin else qmax, qmax, qmin, 1, 100, 1, 0, pm]
        p['gen'] = np.vstack([g, row])
        if 'gencost' in p:
            gc, ng = p['gencost'], len(g)
            r = np.zeros(gc.shape[1])
            v = round(rng.uniform(15, 90), 2)
            if gc.shape[1] >= 8:
                r[:8] = [1, 0, 0, 2, pm, v * pm, 0, 0]
            else:
                r[:6] = [2, 0, 0, 2, v, 0]
            if len(gc) == 2 * ng:
                z = np.zeros(gc.shape[1])
                z[:6] = [2, 0, 0, 2, 0, 0]
                p['gencost'] = np.vstack([gc[:ng], r, gc[ng:], z])
            else:
                p['gencost'] = np.vstack([gc, r])


def _widegen(p, rng):
    """case tables narrower/wider than the default"""
    if rng.random() < .5 and p['gen'].shape[1] >= 21:
        p['gen'] = np.hstack([p['gen'][:, :21], np.zeros((len(p['gen']), 4))])


def _widebr(p, rng):
    if p['branch'].shape[1] < 17:
        junk = rng.uniform(-50, 50, (len(p['branch']), 4))
        p['branch'] = np.hstack([p['branch'][:, :13], junk])


def _zeror(p, rng):
    br = p['branch']
    k = rng.choice(len(br), max(1, len(br) // 4), replace=False)
    br[k, BR_R] = 0


def _basemva(p, rng):
    s = float(rng.choice([10., 50., 250.]))
    r = s / p['baseMVA']
    p['baseMVA'] = s
    br = p['branch']
    br[:, BR_R] *= r
    br[:, BR_X] *= r
    br[:, BR_B] /= r


def _pwl(p, rng):
    """mixed cost models: some units piecewise linear, some polynomial"""
    g, gc = p['gen'], p['gencost']
    ng = len(g)
    rows = []
    for k in range(len(gc)):
        row = gc[k]
        gi = g[k % ng]
        if rng.random() < .5 and k < ng and gi[PMAX] > gi[PMIN] and row[MODEL] == 2:
            lo, hi = min(gi[PMIN], 0), max(gi[PMAX], 0)
            n = int(rng.integers(2, 5))
            x = np.round(np.linspace(lo, hi, n), 2)
            s = np.sort(np.round(rng.uniform(8, 60, n - 1), 1))
            y = np.r_[0, np.cumsum(s * np.diff(x))] + round(rng.uniform(0, 50), 1)
            if lo < 0 <= hi:
                y = y - np.interp(0, x, y)
            rows.append(np.r_[1, row[1], row[2], n, np.c_[x, y].ravel()])
        else:
            n = int(row[NCOST])
            m = n if row[MODEL] == 2 else 2 * n
            rows.append(np.r_[row[:4], row[4:4 + m]])
    w = max(len(r) for r in rows)
    p['gencost'] = np.array([np.r_[r, np.zeros(w - len(r))] for r in rows])


def _qcost(p, rng):
    """costs on reactive power too (polynomial, or convex piecewise linear)"""
    gc = p['gencost']
    ng = len(p['gen'])
    q = np.zeros((ng, max(gc.shape[1], COST + 8)))
    q[:, MODEL] = 2
    q[:, NCOST] = 3
    q[:, COST] = np.round(rng.uniform(.001, .02, ng), 4)
    q[:, COST + 1] = np.round(rng.uniform(-.5, .5, ng), 3)
    for k in np.flatnonzero(rng.random(ng) < rng.choice([0, .4, 1], p=[.5, .3, .2])):
        lo, hi = p['gen'][k, [QMIN, QMAX]]
        if not (np.isfinite(lo) and np.isfinite(hi) and hi - lo > 1):
            continue
        n = int(rng.integers(2, 5))
        x = np.round(np.linspace(lo, hi, n), 2)
        s = np.sort(np.round(rng.uniform(-3, 3, n - 1), 2))
        y = np.round(np.r_[0, np.cumsum(s * np.diff(x))] + rng.uniform(-20, 20), 6)
        q[k, MODEL], q[k, NCOST], q[k, COST:] = 1, n, 0
        q[k, COST:COST + 2 * n] = np.c_[x, y].ravel()
    w = q.shape[1]
    p['gencost'] = np.vstack([np.c_[gc[:ng], np.zeros((ng, w - gc.shape[1]))], q])


def _tight(p, rng):
    """flow limits and voltage limits that bind"""
    br, b = p['branch'], p['bus']
    c = np.flatnonzero(br[:, RATE_A] > 0)
    if len(c):
        k = rng.choice(c, max(1, len(c) // 4), replace=False)
        br[k, RATE_A] *= rng.uniform(.75, .95, len(k))
    b[:, VMAX] = np.maximum(np.minimum(b[:, VMAX], 1.06), b[:, VMIN])


def _anglim(p, rng):
    br = p['branch']
    k = rng.choice(len(br), max(1, len(br) // 3), replace=False)
    br[k, ANGMIN] = -np.round(rng.uniform(1.5, 15, len(k)), 1)
    br[k, ANGMAX] = np.round(rng.uniform(1.5, 15, len(k)), 1)
    j = k[rng.random(len(k)) < .3]
    br[j, ANGMIN if rng.random() < .5 else ANGMAX] = 0        # one-sided


def _pqcap(p, rng):
    """sloped reactive capability curves on some units"""
    g = p['gen']
    c = [k for k in range(len(g)) if g[k, PMAX] > g[k, PMIN] and g[k, PMAX] > 0 and g[k, QMAX] > g[k, QMIN]]
    side = rng.choice(['both', 'upper', 'lower'], p=[.5, .25, .25])
    for k in rng.permutation(c)[:max(1, len(c) // 2)]:
        r = g[k]
        w = r[PMAX] - max(r[PMIN], 0)
        a, b = max(r[PMIN], 0) + rng.uniform(0, .3) * w, r[PMAX] - rng.uniform(0, .2) * w
        q1 = r[QMAX] * rng.uniform(.5, 1.1)
        l1 = r[QMIN] * rng.uniform(.5, 1.1)
        r[[PC1, PC2, QC1MAX, QC2MAX, QC1MIN, QC2MIN]] = [round(x, 2) for x in
            (a, b, q1, q1 - abs(q1) * rng.uniform(.1, .7), l1, l1 + abs(l1) * rng.uniform(0, .6))]
        if side == 'upper':
            r[[QC1MIN, QC2MIN]] = r[QMIN]
        elif side == 'lower':
            r[[QC1MAX, QC2MAX]] = r[QMAX]


def _ncost(p, rng):
    """polynomials of different order: constant, linear, quadratic, (AC only) cubic"""
    gc = p['gencost']
    ng = len(p['gen'])
    w = max(gc.shape[1], COST + 4)
    gc = np.hstack([gc, np.zeros((len(gc), w - gc.shape[1]))])
    for k in range(ng):
        if gc[k, MODEL] != 2 or rng.random() < .4:
            continue
        n = int(rng.choice([1, 2, 3, 4]))
        c = [round(rng.uniform(0, 300), 1)]
        if n > 1:
            c.insert(0, round(rng.uniform(8, 45), 2))
        if n > 2:
            c.insert(0, round(rng.uniform(0, .08), 4))
        if n > 3:
            c.insert(0, round(rng.uniform(0, 1e-4), 7) if p['gen'][k, PMIN] >= 0 else 0)
        gc[k, COST:] = 0
        gc[k, NCOST] = n
        gc[k, COST:COST + n] = c
    p['gencost'] = gc


def _costpad(p, rng):
    """cost rows followed by numbers that do not belong to them"""
    gc = p['gencost']
    gc = np.hstack([gc, np.zeros((len(gc), int(rng.integers(0, 4))))])
    for r in gc:
        m = COST + int(r[NCOST]) * (2 if r[MODEL] == 1 else 1)
        r[m:] = np.round(rng.uniform(-90, 90, len(r) - m), 1)
    p['gencost'] = gc


def _intgen(p, rng):
    """unit data entered as whole numbers (integer table), as in case9; cost data too where possible"""
    g = p['gen']
    if not np.isfinite(g).all():
        return
    g = np.round(g)
    g[:, VG] = 1
    p['gen'] = g.astype(int)
    if 'gencost' in p and np.array_equal(p['gencost'], np.round(p['gencost'])):
        p['gencost'] = p['gencost'].astype(int)


def _tworef(p, rng):
    """a second (third) reference bus inside the network, its angle near what it would be anyway"""
    b, on = p['bus'], live_gen(p)
    at = set(p['gen'][on, GEN_BUS])
    c = [i for i in np.flatnonzero(b[:, BUS_TYPE] == PV) if b[i, BUS_I] in at]
    if len(c):
        for i in rng.choice(c, min(len(c), int(rng.integers(1, 3))), replace=False):
            b[i, BUS_TYPE] = REF
            b[i, VA] = round(b[i, VA] + rng.uniform(-2, 2), 2)


def _island(p, rng):
    """a second network next to the first, with a reference bus of its own"""
    q = random_net(rng, int(rng.choice([2, 3, 5, 7])))
    off = int(p['bus'][:, BUS_I].max()) + int(rng.integers(1, 30))
    q['bus'][:, BUS_I] += off
    q['gen'][:, GEN_BUS] += off
    q['branch'][:, :2] += off
    q['bus'][q['bus'][:, BUS_TYPE] == REF, VA] = round(rng.uniform(-20, 20), 2)
    for f in ('bus', 'gen', 'branch'):
        a, b = p[f], q[f]
        if b.shape[1] < a.shape[1]:
            b = np.hstack([b, np.zeros((len(b), a.shape[1] - b.shape[1]))])
        b = b[:, :a.shape[1]]
        at = len(a) if rng.random() < .5 else 0
        p[f] = np.vstack([a, b]) if at else np.vstack([b, a])
        if f == 'gen' and 'gencost' in p:
            c, d, ng = p['gencost'], q['gencost'], len(a)
            w = max(c.shape[1], d.shape[1])
            c, d = [np.hstack([x, np.zeros((len(x), w - x.shape[1]))]) for x in (c, d)]
            parts = [np.vstack([c[:ng], d] if at else [d, c[:ng]])]
            if len(c) == 2 * ng:
                z = d.copy()
                z[:, 4:] = 0
                parts.append(np.vstack([c[ng:], z] if at else [z, c[ng:]]))
            p['gencost'] = np.vstack(parts)


def _nolimit(p, rng):
    """units without an upper or lower reactive limit, or neither"""
    g = p['gen']
    c = [k for k in range(len(g)) if g[k, QMAX] > g[k, QMIN] and g[k, PMIN] >= 0 and g[k, PC1] == g[k, PC2] == 0]
    for k in rng.permutation(c)[:max(1, len(c) // 3)]:
        w = rng.integers(3)
        if w != 0:
            g[k, QMAX] = np.inf
        if w != 1:
            g[k, QMIN] = -np.inf


def rare(specs, share=.18, feats=('tworef', 'island', 'nolimit')):
    """some of the specs get one of the unusual features, without disturbing the others"""
    for s in specs:
        r = rng_for('rare', s['base'], s['seed'], sorted(s['feat']))
        if s['feat'] and r.random() < share:
            s['feat'] = s['feat'] + [str(r.choice(feats))]
    return specs


FEATS = {f.__name__[1:]: f for f in (_loads, _shunts, _taps, _splitgen, _pqgen, _offgen, _offbranch, _parallel,
         _isolated, _renumber, _shuffle, _moveref, _disp, _widegen, _widebr, _zeror, _basemva, _pwl, _qcost,
         _tight, _anglim, _pqcap, _ncost, _costpad, _intgen, _allpv, _mostpv, _tworef, _island, _nolimit)}
# order in which features are applied
ORDER = ['loads', 'zeror', 'shunts', 'taps', 'tight', 'anglim', 'parallel', 'pqcap', 'splitgen', 'pqgen', 'allpv', 'mostpv', 'disp', 'ncost', 'pwl', 'qcost',
         'offgen', 'offbranch', 'moveref', 'tworef', 'isolated', 'island', 'nolimit', 'basemva', 'widegen', 'widebr', 'renumber', 'shuffle', 'costpad', 'intgen']
PF_FEATS = ['loads', 'shunts', 'taps', 'splitgen', 'pqgen', 'offgen', 'offbranch', 'parallel', 'isolated',
            'renumber', 'shuffle', 'moveref', 'widegen', 'widebr', 'zeror', 'basemva', 'intgen']


def floats(p):
    for k in ('bus', 'gen', 'branch', 'gencost', 'areas'):
        if k in p:
            p[k] = np.array(p[k], dtype=float)
    return p


def build(spec):
    base = spec['base']
    rng = rng_for('case', base, spec.get('seed', 0), sorted(spec.get('feat', [])))
    p = random_net(rng, int(base[3:])) if base.startswith('net') else builtin(base)
    p = copy(p)
    for k in ('bus', 'gen', 'branch', 'gencost', 'areas'):
        if k in p:
            p[k] = np.array(p[k], dtype=float)
    for f in ORDER:
        if f in spec.get('feat', []):
            if f in ('pwl', 'qcost') and 'gencost' not in p:
                continue
            FEATS[f](p, rng)
    return p


def pick_feats(rng, pool, p=.4, must=()):
    f = [x for x in pool if rng.random() < p]
    for m in must:
        if m not in f:
            f.append(m)
    return f


def mkspecs(rng, n, bases, pool=PF_FEATS, p=.4, must=(), plain=True, **extra):
    """`plain` adds each base unmodified, then n random variants."""
    out = []
    if plain:
        out += [dict(base=b, seed=0, feat=[], **extra) for b in bases if not b.startswith('net')]
    for i in range(n):
        b = bases[int(rng.integers(len(bases)))]
        out.append(dict(base=b, seed=int(rng.integers(1 << 30)), feat=pick_feats(rng, pool, p, must), **extra))
    return out
