"""Independent checks of optimal power flow results: feasibility and first-order optimality.

Everything is recomputed from the case as given and the tables returned, with
real polar formulas; derivatives by complex step (exact to rounding)."""
import numpy as np
from .cases import *
from . import ref as R

D2R = np.pi / 180


class Net(object):
    """live part of a case, vectorised in real polar form"""

    def __init__(self, p):
        self.p = p
        pos = bus_pos(p)
        self.lb, self.lg, self.ll = np.flatnonzero(live_bus(p)), np.flatnonzero(live_gen(p)), np.flatnonzero(live_branch(p))
        self.nb = len(p['bus'])
        br = p['branch'][self.ll]
        self.f = np.array([pos[int(x)] for x in br[:, F_BUS]], int)
        self.t = np.array([pos[int(x)] for x in br[:, T_BUS]], int)
        self.gb = np.array([pos[int(x)] for x in p['gen'][self.lg, GEN_BUS]], int)
        Y = np.array([R.branch_y(r) for r in br]).reshape(-1, 4)
        self.ff, self.ft, self.tf, self.tt = Y.T
        self.base = float(p['baseMVA'])
        self.rate = br[:, RATE_A]
        self.il = np.flatnonzero((self.rate != 0) & (self.rate < 1e10))
        self.ref = [i for i in self.lb if p['bus'][i, BUS_TYPE] == REF]

    def flows(self, Va, Vm):
        f, t = self.f, self.t
        d = Va[f] - Va[t]
        c, s = np.cos(d), np.sin(d)
        VV = Vm[f] * Vm[t]
        Pf = Vm[f] ** 2 * self.ff.real + VV * (self.ft.real * c + self.ft.imag * s)
        Qf = -Vm[f] ** 2 * self.ff.imag + VV * (self.ft.real * s - self.ft.imag * c)
        Pt = Vm[t] ** 2 * self.tt.real + VV * (self.tf.real * c - self.tf.imag * s)
        Qt = -Vm[t] ** 2 * self.tt.imag + VV * (-self.tf.real * s - self.tf.imag * c)
        return [x * self.base for x in (Pf, Qf, Pt, Qt)]

    def out(self, Va, Vm):
        """power leaving each bus into branches and shunts, MW / MVAr"""
        Pf, Qf, Pt, Qt = self.flows(Va, Vm)
        b = self.p['bus']
        P, Q = Vm ** 2 * b[:, GS], -Vm ** 2 * b[:, BS]
        P = P.astype(Pf.dtype)
        Q = Q.astype(Pf.dtype)
        dead = np.ones(self.nb, bool)
        dead[self.lb] = False
        P[dead] = 0
        Q[dead] = 0
        np.add.at(P, self.f, Pf)
        np.add.at(P, self.t, Pt)
        np.add.at(Q, self.f, Qf)
        np.add.at(Q, self.t, Qt)
        return P, Q

    def lim(self, Va, Vm, kind):
        """limited quantity of constrained branches at both ends (MVA, MW or p.u. current * base)"""
        Pf, Qf, Pt, Qt = [x[self.il] for x in self.flows(Va, Vm)]
        if kind == 1:
            return Pf, Pt
        Sf, St = np.sqrt(Pf ** 2 + Qf ** 2), np.sqrt(Pt ** 2 + Qt ** 2)
        if kind == 2:
            return Sf / Vm[self.f[self.il]], St / Vm[self.t[self.il]]
        return Sf, St


def ang_limited(br):
    """rows with an angle-difference limit, and the limits (degrees)"""
    has = ((br[:, ANGMIN] != 0) & (br[:, ANGMIN] > -360)) | ((br[:, ANGMAX] != 0) & (br[:, ANGMAX] < 360))
    lo = np.where(br[:, ANGMIN] != 0, br[:, ANGMIN], -np.inf)
    hi = np.where(br[:, ANGMAX] != 0, br[:, ANGMAX], np.inf)
    return np.flatnonzero(has), lo, hi


def pqcap_lines(g):
    """list of (aP, aQ, b): aP*P + aQ*Q <= b describing the sloped capability limits of a unit"""
    out = []
    if g[PC1] != g[PC2]:
        dP = g[PC2] - g[PC1]
        s = (g[QC2MAX] - g[QC1MAX]) / dP
        out.append((-s, 1.0, g[QC1MAX] - s * g[PC1], 'U'))
        s = (g[QC2MIN] - g[QC1MIN]) / dP
        out.append((s, -1.0, -(g[QC1MIN] - s * g[PC1]), 'L'))
    return out


def cost_slopes(row, p):
    """(left, right) derivative of the cost at output p, within a small distance"""
    n = int(row[NCOST])
    if row[MODEL] == 2:
        c = row[COST:COST + n]
        d = 0.0
        for k, a in enumerate(c[:-1]):
            d = d * p + a * (n - 1 - k)
        return d, d
    x, y = row[COST:COST + 2 * n:2], row[COST + 1:COST + 2 * n:2]
    s = np.diff(y) / np.diff(x)
    e = 2e-3 * (1 + abs(p)) + 1e-3 * (x[-1] - x[0])
    m = [s[k] for k in range(n - 1) if (x[k] - e <= p or k == 0) and (p <= x[k + 1] + e or k == n - 2)]
    return min(m), max(m)


def inputs_kept(mon, src, r, ac=True):
    """input columns of the tables come back as given"""
    nb, ng, nl = len(src['bus']), len(src['gen']), len(src['branch'])
    if not mon.check(r['bus'].shape[0] == nb and r['gen'].shape[0] == ng and r['branch'].shape[0] == nl, 'rows',
                     'result tables have other numbers of rows'):
        return False
    for tab, cols in (('bus', [c for c in range(13) if c not in (VM, VA)]),
                      ('gen', [c for c in range(21) if c not in (PG, QG, VG)]), ('branch', list(range(13)))):
        a, b = r[tab][:, cols], src[tab][:, cols]
        mon.check(np.array_equal(a, b), 'inputs-' + tab, '%s: input columns changed at %s' %
                  (tab, np.argwhere(a != b)[:4].tolist()))
    db = np.setdiff1d(np.arange(nb), np.flatnonzero(live_bus(src)))
    mon.check(np.array_equal(r['bus'][db][:, :13], src['bus'][db][:, :13]), 'dead-bus', 'isolated bus rows changed')
    dg, dl = ~live_gen(src), ~live_branch(src)
    mon.check(not r['gen'][dg][:, [PG, QG]].any(), 'dead-gen', 'out-of-service unit reported with output')
    mon.check(not r['gen'][dg][:, [MU_PMAX, MU_PMIN]].any(), 'dead-gen', 'out-of-service unit reported with prices')
    mon.check(not r['branch'][dl][:, [PF, QF, PT, QT, MU_SF, MU_ST, MU_ANGMIN, MU_ANGMAX]].any(), 'dead-branch',
              'out-of-service branch reported with flows or prices')
    return True


def ac_feasible(mon, src, r, kind=0, ignore_ang=False, tol=None):
    """all physical laws and limits hold at the result"""
    N = Net(src)
    b, g, br = r['bus'], r['gen'], r['branch']
    S = N.base
    # what the solver promises (relative to its largest variable or slack), capped
    z = max(abs(r['x']).max(), (N.rate[N.il] / S).max(initial=0) ** 2, abs(src['gen'][N.lg][:, [QMAX, QMIN, PMAX, PMIN]]).max() / S)
    T = tol or S * (1e-3 + min(5e-3, 5e-6 * (1 + z)))
    Va, Vm = b[:, VA] * D2R, b[:, VM]
    P, Q = N.out(Va, Vm)
    gP, gQ = np.zeros(N.nb), np.zeros(N.nb)
    np.add.at(gP, N.gb, g[N.lg, PG])
    np.add.at(gQ, N.gb, g[N.lg, QG])
    lb = N.lb
    mon.close((P - gP + src['bus'][:, PD])[lb], 0 * lb, T, 'balance-P', 'active balance at buses')
    mon.close((Q - gQ + src['bus'][:, QD])[lb], 0 * lb, T, 'balance-Q', 'reactive balance at buses')

    def within(x, lo, hi, t, mech, what):
        v = np.maximum(np.asarray(x) - hi, lo - np.asarray(x))
        mon.count('oracle:' + mech)
        if len(v):
            mon.worst[mech] = max(mon.worst.get(mech, 0), float(v.max() / t))
            mon.count('active ' + what, int((v > -10 * t).sum()))
            if not v.max() <= t:
                k = int(np.argmax(v))
                mon.fail(mech, '%s: row %d is %.6g, limits %.6g..%.6g' % (what, k, np.asarray(x)[k],
                         np.broadcast_to(lo, v.shape)[k], np.broadcast_to(hi, v.shape)[k]))
    within(Vm[lb], src['bus'][lb, VMIN], src['bus'][lb, VMAX], 1e-4, 'v-limits', 'voltage limits')
    within(g[N.lg, PG], src['gen'][N.lg, PMIN], src['gen'][N.lg, PMAX], T, 'p-limits', 'active limits')
    within(g[N.lg, QG], src['gen'][N.lg, QMIN], src['gen'][N.lg, QMAX], T, 'q-limits', 'reactive limits')
    lf, lt = N.lim(Va, Vm, kind)
    rate = N.rate[N.il]
    within(lf, -np.inf, rate, T, 'flow-limits', 'flow limits')
    within(lt, -np.inf, rate, T, 'flow-limits', 'flow limits')
    if not ignore_ang:
        k, lo, hi = ang_limited(src['branch'][N.ll])
        d = (Va[N.f] - Va[N.t]) / D2R
        within(d[k], lo[k], hi[k], .02, 'angle-limits', 'angle limits')
    mon.close(b[N.ref, VA], src['bus'][N.ref, VA], 1e-4, 'ref-angle', 'reference angle')
    for k in N.lg:
        row = src['gen'][k]
        if R.is_disp(row) and (row[QMIN] != 0 or row[QMAX] != 0):
            ql = row[QMIN] if row[QMAX] == 0 else row[QMAX]
            mon.close(g[k, QG], g[k, PG] * ql / row[PMIN], T, 'power-factor', 'dispatchable load power factor')
            mon.count('dispatchable loads')
        for aP, aQ, rhs, _ in pqcap_lines(row):
            within([aP * g[k, PG] + aQ * g[k, QG]], -np.inf, rhs, T, 'pq-capability', 'capability curve')
    # reported quantities consistent with the state
    Pf, Qf, Pt, Qt = N.flows(Va, Vm)
    ft = 1e-6 * (1 + abs(Pf).max() + abs(Qf).max())
    for c, x in ((PF, Pf), (QF, Qf), (PT, Pt), (QT, Qt)):
        mon.close(br[N.ll, c], x, ft, 'flows', 'reported branch flow column %d' % c)
    mon.close(g[N.lg, VG], Vm[N.gb], 1e-10, 'vg', 'unit voltage set-points')
    return N


def ac_kkt(mon, src, r, kind=0, extra=None, relax=1.0, costs=True, slop=None):
    """reported prices make the result a first-order optimum.  `extra` = gradients (per p.u.) of further terms."""
    N = Net(src)
    b, g, br = r['bus'], r['gen'], r['branch']
    gc, ng = src['gencost'], len(src['gen'])
    Va, Vm = b[:, VA] * D2R, b[:, VM]
    lam, laq = b[:, LAM_P], b[:, LAM_Q]
    S = N.base
    msf, mst = br[N.ll, MU_SF][N.il], br[N.ll, MU_ST][N.il]
    L = 1.0 + max(abs(lam[N.lb]).max(), abs(laq[N.lb]).max(), abs(msf).max(initial=0), abs(mst).max(initial=0),
                  max(abs(np.array(cost_slopes(gc[k], g[k, PG]))).max() for k in N.lg))
    # signs
    mus = [b[N.lb][:, [MU_VMAX, MU_VMIN]], g[N.lg][:, [MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN]],
           br[N.ll][:, [MU_SF, MU_ST, MU_ANGMIN, MU_ANGMAX]]]
    for m, nm in zip(mus, ('bus', 'gen', 'branch')):
        mon.check(np.all(m >= -1e-9 * L), 'mu-sign', 'negative multiplier on an inequality (%s)' % nm)

    def comp(mu, slack, size, what):
        """a multiplier on a limit that is not reached is (nearly) zero"""
        mu = np.asarray(mu) + 0.0
        v = np.where(mu == 0, 0, np.abs(mu) * np.maximum(slack, 0))
        t = relax * 2e-2 * size
        mon.count('oracle:complementary')
        if len(v):
            mon.worst['complementary'] = max(mon.worst.get('complementary', 0), float(np.max(v / t)))
            mon.count('binding ' + what, int((np.abs(mu) > 1e-4 * L).sum()))
            if not np.all(v <= t):
                k = int(np.argmax(v / t))
                mon.fail('complementary', '%s: multiplier %.4g with slack %.4g' % (what, mu[k], slack[k]))
    # money scale of one hour of operation is about L * S
    Z = L * S
    comp(b[N.lb, MU_VMAX], src['bus'][N.lb, VMAX] - Vm[N.lb], Z, 'VMAX')
    comp(b[N.lb, MU_VMIN], Vm[N.lb] - src['bus'][N.lb, VMIN], Z, 'VMIN')
    cap = np.array([any((x[0] * g[k, PG] + x[1] * g[k, QG]) > x[2] - 1e-2 * (1 + abs(x[2])) for x in pqcap_lines(src['gen'][k])) for k in N.lg], bool)
    G = N.lg[~cap]
    for mu, sl, nm in ((MU_PMAX, src['gen'][G, PMAX] - g[G, PG], 'PMAX'), (MU_PMIN, g[G, PG] - src['gen'][G, PMIN], 'PMIN'),
                       (MU_QMAX, src['gen'][G, QMAX] - g[G, QG], 'QMAX'), (MU_QMIN, g[G, QG] - src['gen'][G, QMIN], 'QMIN')):
        comp(g[G, mu], sl, Z, nm)
    mon.count('units at capability curve', int(cap.sum()))
    lf, lt = N.lim(Va, Vm, kind)
    rate = N.rate[N.il]
    af, at = (abs(lf), abs(lt)) if kind != 1 else (lf, lt)
    if kind == 1:
        af, at = abs(lf), abs(lt)
    comp(msf, rate - af, Z, 'flow from')
    comp(mst, rate - at, Z, 'flow to')
    nolim = np.setdiff1d(np.arange(len(N.ll)), N.il)
    mon.check(not br[N.ll[nolim]][:, [MU_SF, MU_ST]].any(), 'mu-unlimited', 'price on a branch without a limit')
    ia, lo, hi = ang_limited(src['branch'][N.ll])
    dd = (Va[N.f] - Va[N.t]) / D2R
    man, max_ = br[N.ll, MU_ANGMIN], br[N.ll, MU_ANGMAX]
    comp(man[ia], np.where(np.isfinite(lo[ia]), dd[ia] - lo[ia], 1e3), Z / 57, 'ANGMIN')
    comp(max_[ia], np.where(np.isfinite(hi[ia]), hi[ia] - dd[ia], 1e3), Z / 57, 'ANGMAX')
    # stationarity in the outputs
    ext = extra or {}
    for k, i in zip(N.lg, N.gb):
        row = src['gen'][k]
        lo1, hi1 = cost_slopes(gc[k], g[k, PG])
        xp = ext.get('Pg', np.zeros(ng))[k] / S
        xq = ext.get('Qg', np.zeros(ng))[k] / S
        net = lam[i] - g[k, MU_PMAX] + g[k, MU_PMIN] - xp
        lo2, hi2 = cost_slopes(gc[ng + k], g[k, QG]) if len(gc) == 2 * ng else (0.0, 0.0)
        netq = laq[i] - g[k, MU_QMAX] + g[k, MU_QMIN] - xq
        # the solver reports as zero the multipliers below .1 per unit of limits that are not reached exactly
        t = relax * 4e-4 * L + .12 / S
        if R.is_disp(row) and (row[QMIN] != 0 or row[QMAX] != 0):
            ql = row[QMIN] if row[QMAX] == 0 else row[QMAX]
            kf = ql / row[PMIN]
            v = net + kf * netq
            mon.count('oracle:price-disp')
            e = max(lo1 + kf * lo2 - v, v - hi1 - kf * hi2, 0) / (1 + abs(kf))
            mon.worst['price-disp'] = max(mon.worst.get('price-disp', 0), e / t)
            if not e <= t:
                mon.fail('price-disp', 'dispatchable load row %d: worth %.6g..%.6g, price %.6g' % (k, lo1, hi1, v))
            continue
        for nm, v, lo_, hi_ in (('price-P', net, lo1, hi1), ('price-Q', netq, lo2, hi2)):
            mon.count('oracle:' + nm)
            e = max(lo_ - v, v - hi_, 0)
            mon.worst[nm] = max(mon.worst.get(nm, 0), e / t)
            if not e <= t:
                mon.fail(nm, 'unit row %d: marginal cost %.6g..%.6g, price net of limits %.6g' % (k, lo_, hi_, v))
    # stationarity in the voltages: exact gradient of the Lagrangian by complex step
    def lag(Va, Vm):
        P, Q = N.out(Va, Vm)
        v = (lam[N.lb] * P[N.lb]).sum() + (laq[N.lb] * Q[N.lb]).sum()
        lf, lt = N.lim(Va, Vm, kind)
        if kind == 1:
            lf, lt = lf * np.sign(lf.real), lt * np.sign(lt.real)
        v = v + (msf * lf).sum() + (mst * lt).sum()
        d = (Va[N.f] - Va[N.t]) / D2R
        return v + ((max_ - man) * d).sum()
    h = 1e-30
    gVa, gVm = np.zeros(N.nb), np.zeros(N.nb)
    for i in N.lb:
        x = Va.astype(complex)
        x[i] += 1j * h
        gVa[i] = lag(x, Vm.astype(complex)).imag / h
        x = Vm.astype(complex)
        x[i] += 1j * h
        gVm[i] = lag(Va.astype(complex), x).imag / h
    gVa += ext.get('Va', 0)
    gVm += ext.get('Vm', 0)
    gVm += b[:, MU_VMAX] - b[:, MU_VMIN]
    free = np.array([i for i in N.lb if i not in N.ref], int)
    # scale: stiffness of the bus times the price level
    y = np.zeros(N.nb)
    np.add.at(y, N.f, abs(N.ff))
    np.add.at(y, N.t, abs(N.tt))
    t = relax * 1e-4 * L * S * (1 + y)
    if slop is not None:
        t += slop
    # the solver reports as zero the multipliers below .1 per unit (of the squared limits) of limits that are not reached exactly;
    # multiplier times slack is at most the complementarity tolerance (1e-6, costs scaled by 1e-4, relative to the largest variable)
    com = 1e-2 * (1 + abs(r['x']).max())
    for k, a, m, ends in ((N.il, af, msf, 0), (N.il, at, mst, 0)):
        for q in np.flatnonzero(m == 0):
            lost = min(.1, com / max(1e-9, (rate[q] ** 2 - a[q] ** 2) / S ** 2))
            if lost < 1e-4:
                continue
            w = lost * 2 * rate[q] / S * 1.5 * abs(N.ff[k[q]]) * (1 if kind != 1 else 1.5)
            t[N.f[k[q]]] += w
            t[N.t[k[q]]] += w
            mon.count('near-binding without price')
    mon.close(gVa[free] / t[free], 0 * free, 1.0, 'stationary-Va', 'Lagrangian gradient in angles (scaled)')
    mon.close(gVm[N.lb] / t[N.lb], 0 * N.lb, 1.0, 'stationary-Vm', 'Lagrangian gradient in magnitudes (scaled)')
    return N
