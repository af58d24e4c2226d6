"""Network matrices and derivatives: P16-P21."""
from .common import *
from .pf import n_of

MB = ['case4gs', 'case6ww', 'case9', 'case14', 'case24_ieee_rts', 'case30', 'case39', 'case57', 'net8', 'net15', 'net30', 'net60']
SB = ['case4gs', 'case6ww', 'case9', 'case14', 'case30', 'net8', 'net15']
POOL = ['loads', 'shunts', 'taps', 'parallel', 'splitgen', 'zeror', 'basemva', 'shuffle']


def internal(spec, dead=True):
    """a case written directly in internal numbering (rows = bus numbers), dead branches kept"""
    p = build(spec)
    p.pop('areas', None)
    keep = live_bus(p)
    ids = set(p['bus'][keep, BUS_I])
    p['bus'] = p['bus'][keep]
    p['branch'] = p['branch'][[r[F_BUS] in ids and r[T_BUS] in ids for r in p['branch']]]
    g = np.array([r[GEN_BUS] in ids for r in p['gen']])
    p['gen'] = p['gen'][g]
    p.pop('gencost', None)
    C._mapnum(p, {int(b): float(i) for i, b in enumerate(p['bus'][:, BUS_I])})
    return p


def dense(M):
    return np.asarray(M.toarray() if hasattr(M, 'toarray') else M)


def rand_v(rng, n):
    return rng.uniform(.85, 1.15, n) * np.exp(1j * rng.uniform(-.6, .6, n))


# ------------------------------------------------------------------ P16
def plan16(tier, rng):
    return mkspecs(rng, n_of(tier, 220, 3000), MB + ['case118', 'case300'], pool=POOL + ['offbranch', 'offgen', 'pqgen', 'disp'], p=.45)


@prop('P16', 'built-in, perturbed and random networks in consecutive numbering with taps, shifters, parallel, dead and '
      'zero-resistance branches, bus shunts; every matrix entry recomputed branch by branch; distinct by (base, features)',
      plan16, floors={'matrices compared': 400})
def p16(spec, mon):
    from pypower import api
    p = internal(spec)
    count_feats(mon, spec)
    bus, br, base = p['bus'], p['branch'], p['baseMVA']
    n, nl = len(bus), len(br)
    Yb, Yf, Yt = [dense(x) for x in api.makeYbus(base, bus, br)]
    Y0 = R.ybus(p)
    on = br[:, BR_STATUS] > 0
    f0, t0 = np.zeros((nl, n), complex), np.zeros((nl, n), complex)
    B, Bf, Pb, Pf = np.zeros((n, n)), np.zeros((nl, n)), np.zeros(n), np.zeros(nl)
    for k, r in enumerate(br):
        if on[k]:
            i, j = int(r[F_BUS]), int(r[T_BUS])
            a, b, c, d = R.branch_y(r)
            f0[k, i] += a
            f0[k, j] += b
            t0[k, i] += c
            t0[k, j] += d
            y, s = R.dc_b(r)
            Bf[k, i] += y
            Bf[k, j] -= y
            B[i] += Bf[k]
            B[j] -= Bf[k]
            Pf[k] = s
            Pb[i] += s
            Pb[j] -= s
    tol = 1e-10 * (1 + abs(Y0).max())
    mon.close(Yb, Y0, tol, 'Ybus', 'bus admittance matrix')
    mon.close(Yf, f0, tol, 'Yf', 'from-end admittance matrix')
    mon.close(Yt, t0, tol, 'Yt', 'to-end admittance matrix')
    o = api.makeBdc(base, bus, br)
    td = 1e-10 * (1 + abs(B).max())
    mon.close(dense(o[0]), B, td, 'Bbus', 'DC susceptance matrix')
    mon.close(dense(o[1]), Bf, td, 'Bf', 'DC branch susceptance matrix')
    mon.close(np.asarray(o[2]).ravel(), Pb, td, 'Pbusinj', 'phase-shifter bus injections')
    mon.close(np.asarray(o[3]).ravel(), Pf, td, 'Pfinj', 'phase-shifter branch injections')
    for alg in (2, 3):
        a1, a2 = copy(p), copy(p)
        a1['bus'][:, BS] = 0
        a1['branch'][:, BR_B] = 0
        a1['branch'][:, TAP] = 1
        a2['branch'][:, SHIFT] = 0
        (a1 if alg == 2 else a2)['branch'][:, BR_R] = 0
        b1, b2 = api.makeB(base, bus, br, alg)
        r1, r2 = -R.ybus(a1).imag, -R.ybus(a2).imag
        mon.close(dense(b1), r1, 1e-10 * (1 + abs(r1).max()), 'Bp', "FDPF B' (alg %d)" % alg)
        mon.close(dense(b2), r2, 1e-10 * (1 + abs(r2).max()), 'Bpp', "FDPF B'' (alg %d)" % alg)
    S = np.asarray(api.makeSbus(base, bus, p['gen'])).ravel()
    S0 = (R.gen_at_bus(p) - bus[:, PD] - 1j * bus[:, QD]) / base
    mon.close(S, S0, 1e-10 * (1 + abs(S0).max()), 'Sbus', 'bus injections')
    mon.count('matrices compared', 12)
    mon.count('dead branches', (~on).sum())
    mon.sig(spec['base'], feats_sig(spec))
    mon.sample(dict(spec, buses=n, branches=nl))


# ------------------------------------------------------------------ first derivatives
def d1_bus(Y, V):
    I = Y @ V
    Vn = V / abs(V)
    return (1j * np.diag(V) @ np.conj(np.diag(I) - Y @ np.diag(V)),
            np.diag(V) @ np.conj(Y @ np.diag(Vn)) + np.diag(np.conj(I) * Vn))


def fd(fun, V, h=1e-6):
    """central differences of a complex function of the voltage w.r.t. angles and magnitudes"""
    n = len(V)
    a, m = np.angle(V), abs(V)
    ca, cm = [], []
    for k in range(n):
        e = np.zeros(n)
        e[k] = h
        ca.append((fun(m * np.exp(1j * (a + e))) - fun(m * np.exp(1j * (a - e)))) / (2 * h))
        cm.append((fun((m + e) * np.exp(1j * a)) - fun((m - e) * np.exp(1j * a))) / (2 * h))
    return np.array(ca).T, np.array(cm).T


def plan17(tier, rng):
    out = mkspecs(rng, n_of(tier, 130, 2000), SB + (['case57'] if tier == 'thorough' else []), pool=POOL, p=.4)
    for s in out:
        s['flat'] = bool(rng.random() < .1)
    return out


@prop('P17', 'derivative functions evaluated at random voltage profiles on random networks, sparse and dense '
      'interfaces, against central differences of scalar pi-model formulas; distinct by (base, features)', plan17,
      floors={'jacobians compared': 500})
def p17(spec, mon):
    from pypower import api
    p = internal(spec)
    rng = rng_for('p17', spec['base'], spec['seed'])
    p['branch'] = p['branch'][p['branch'][:, BR_STATUS] > 0]
    br, base = p['branch'], p['baseMVA']
    n = len(p['bus'])
    V = np.ones(n, complex) if spec['flat'] else rand_v(rng, n)
    Yb, Yf, Yt = api.makeYbus(base, p['bus'], br)
    yb = R.ybus(p)
    nl = len(br)
    yf, yt = np.zeros((nl, n), complex), np.zeros((nl, n), complex)
    fi, ti = br[:, F_BUS].astype(int), br[:, T_BUS].astype(int)
    for k, r in enumerate(br):
        a, b, c, d = R.branch_y(r)
        yf[k, fi[k]] += a
        yf[k, ti[k]] += b
        yt[k, fi[k]] += c
        yt[k, ti[k]] += d
    f_S = lambda v: v * np.conj(yb @ v)
    f_Sf = lambda v: v[fi] * np.conj(yf @ v)
    f_St = lambda v: v[ti] * np.conj(yt @ v)
    f_If, f_It = (lambda v: yf @ v), (lambda v: yt @ v)
    ref, fs = {}, {}
    for nm, fn in (('S', f_S), ('Sf', f_Sf), ('St', f_St), ('If', f_If), ('It', f_It)):
        ref[nm] = fd(fn, V)
        fs[nm] = 2e-9 * abs(fn(V)).max()
    mod = {}
    for nm in ('dSbus_dV', 'dSbr_dV', 'dIbr_dV', 'dAbr_dV'):
        mod[nm] = getattr(__import__('pypower.' + nm, fromlist=[nm]), nm)

    def cmp(got, want, nm, msg):
        mon.count('jacobians compared')
        mon.close(dense(got), want, 2e-7 * (1 + abs(want).max()) + max(fs.values()), nm, msg)
    for kind in ('sparse', 'dense'):
        if kind == 'sparse':
            Y_, F_, T_ = Yb, Yf, Yt
        else:
            Y_, F_, T_ = Yb.todense(), Yf.todense(), Yt.todense()
        dm, da = mod['dSbus_dV'](Y_, V)
        cmp(da, ref['S'][0], 'dSbus_dVa-' + kind, 'dSbus/dVa')
        cmp(dm, ref['S'][1], 'dSbus_dVm-' + kind, 'dSbus/dVm')
        o = mod['dSbr_dV'](br, F_, T_, V)
        for x, (nm, c) in zip(o[:4], (('Sf', 0), ('Sf', 1), ('St', 0), ('St', 1))):
            cmp(x, ref[nm][c], 'd%s_dV%s-%s' % (nm, 'am'[c], kind), 'd%s/dV%s' % (nm, 'am'[c]))
        mon.close(np.asarray(o[4]).ravel(), f_Sf(V), 1e-9 * (1 + abs(f_Sf(V)).max()), 'Sf-' + kind, 'Sf')
        mon.close(np.asarray(o[5]).ravel(), f_St(V), 1e-9 * (1 + abs(f_St(V)).max()), 'St-' + kind, 'St')
        i = mod['dIbr_dV'](br, F_, T_, V)
        for x, (nm, c) in zip(i[:4], (('If', 0), ('If', 1), ('It', 0), ('It', 1))):
            cmp(x, ref[nm][c], 'd%s_dV%s-%s' % (nm, 'am'[c], kind), 'd%s/dV%s' % (nm, 'am'[c]))
        mon.close(np.asarray(i[4]).ravel(), f_If(V), 1e-9 * (1 + abs(f_If(V)).max()), 'If-' + kind, 'If')
        mon.close(np.asarray(i[5]).ravel(), f_It(V), 1e-9 * (1 + abs(f_It(V)).max()), 'It-' + kind, 'It')
        if kind == 'sparse':
            for src, nms, fns in ((o, 'S', (f_Sf, f_St)), (i, 'I', (f_If, f_It)), (o, 'P', (f_Sf, f_St))):
                args = list(src)
                if nms == 'P':
                    args = [x.real for x in args]
                    g = [lambda v, q=q: q(v).real ** 2 for q in fns]
                else:
                    g = [lambda v, q=q: abs(q(v)) ** 2 for q in fns]
                w = [fd(q, V) for q in g]
                A = mod['dAbr_dV'](*args)
                for x, want, nm in zip(A, (w[0][0], w[0][1], w[1][0], w[1][1]), ('Af_a', 'Af_m', 'At_a', 'At_m')):
                    mon.count('jacobians compared')
                    mon.close(dense(x), want, 2e-6 * (1 + abs(want).max()) + max(fs.values()) ** 2, 'dA%s-%s' % (nms, nm), 'squared flow derivative')
    mon.sig(spec['base'], feats_sig(spec), spec['flat'])


# ------------------------------------------------------------------ P18
def plan18(tier, rng):
    return mkspecs(rng, n_of(tier, 130, 2000), SB + (['case39'] if tier == 'thorough' else []), pool=POOL, p=.4)


@prop('P18', 'second-derivative functions at random voltages and multipliers on random networks against central '
      'differences of independent first derivatives; distinct by (base, features)', plan18, floors={'hessians compared': 1000})
def p18(spec, mon):
    from pypower import api
    p = internal(spec)
    rng = rng_for('p18', spec['base'], spec['seed'])
    p['branch'] = p['branch'][p['branch'][:, BR_STATUS] > 0]
    br = p['branch']
    n, nl = len(p['bus']), len(br)
    V = rand_v(rng, n)
    Yb, Yf, Yt = api.makeYbus(p['baseMVA'], p['bus'], br)
    yb, yf, yt = dense(Yb), dense(Yf), dense(Yt)
    fi, ti = br[:, F_BUS].astype(int), br[:, T_BUS].astype(int)
    Cf, Ct = np.zeros((nl, n)), np.zeros((nl, n))
    Cf[np.arange(nl), fi] = 1
    Ct[np.arange(nl), ti] = 1
    from scipy.sparse import csr_matrix
    cf, ct = csr_matrix(Cf), csr_matrix(Ct)

    def d1_br(y, Cb, v):
        I = y @ v
        vb = Cb @ v
        vn = v / abs(v)
        return (1j * (np.diag(np.conj(I)) @ Cb @ np.diag(v) - np.diag(vb) @ np.conj(y @ np.diag(v))),
                np.diag(vb) @ np.conj(y @ np.diag(vn)) + np.diag(np.conj(I)) @ Cb @ np.diag(vn), vb * np.conj(I))

    def d1_i(y, v):
        return 1j * y @ np.diag(v), y @ np.diag(v / abs(v)), y @ v
    F = {}
    for nm in ('d2Sbus_dV2', 'd2Sbr_dV2', 'd2Ibr_dV2', 'd2ASbr_dV2', 'd2AIbr_dV2'):
        F[nm] = getattr(__import__('pypower.' + nm, fromlist=[nm]), nm)

    def cmp(got, grad, nm):
        """got = (aa, av, va, vv); grad(v) -> (d/da, d/dm) of lam' f"""
        (aa, am), (ma, mm) = [fd(lambda v, c=c: grad(v)[c], V) for c in (0, 1)]
        s = max(abs(q).max() for q in grad(V))      # round-off of the differences
        for x, want, t in zip(got, (aa, am, ma, mm), ('aa', 'av', 'va', 'vv')):
            mon.count('hessians compared')
            mon.close(dense(x), want, 1e-6 * (1 + abs(want).max()) + 5e-9 * s, '%s-%s' % (nm, t), nm)
    lam = rng.normal(size=n) * 10
    cmp(F['d2Sbus_dV2'](Yb, V, lam), lambda v: [d.T @ lam for d in d1_bus(yb, v)], 'd2Sbus')
    mu = rng.normal(size=nl) * 10
    for y, Y, Cb, cb, e in ((yf, Yf, Cf, cf, 'f'), (yt, Yt, Ct, ct, 't')):
        cmp(F['d2Sbr_dV2'](cb, Y, V, mu), lambda v: [d.T @ mu for d in d1_br(y, Cb, v)[:2]], 'd2Sbr' + e)
        cmp(F['d2Ibr_dV2'](Y, V, mu), lambda v: [d.T @ mu for d in d1_i(y, v)[:2]], 'd2Ibr' + e)
        a, m, S = d1_br(y, Cb, V)
        sp = csr_matrix

        def gS(v):
            x, z, s = d1_br(y, Cb, v)
            return [2 * ((np.conj(s)[:, None] * d).real.T @ mu) for d in (x, z)]
        cmp(F['d2ASbr_dV2'](sp(a), sp(m), S, cb, Y, V, mu), gS, 'd2ASbr' + e)

        def gP(v):
            x, z, s = d1_br(y, Cb, v)
            return [2 * ((s.real[:, None] * d.real).T @ mu) for d in (x, z)]
        cmp(F['d2ASbr_dV2'](sp(a.real), sp(m.real), S.real, cb, Y, V, mu), gP, 'd2APbr' + e)
        ia, im, I = d1_i(y, V)

        def gI(v):
            x, z, s = d1_i(y, v)
            return [2 * ((np.conj(s)[:, None] * d).real.T @ mu) for d in (x, z)]
        cmp(F['d2AIbr_dV2'](sp(ia), sp(im), I, Y, V, mu), gI, 'd2AIbr' + e)
    mon.sig(spec['base'], feats_sig(spec))


# ------------------------------------------------------------------ P19
def plan19(tier, rng):
    pool = ['loads', 'shunts', 'taps', 'splitgen', 'disp', 'pwl', 'qcost', 'tight', 'anglim', 'offgen', 'offbranch', 'renumber', 'shuffle']
    out = []
    for s in mkspecs(rng, n_of(tier, 64, 700), ['case6ww', 'case9', 'case9', 'case14', 'case30pwl', 'net8', 'net8'], pool=pool, p=.35):
        s['lim'] = int(rng.integers(0, 3))
        s['user'] = bool(rng.random() < .5)
        s['norate'] = bool(rng.random() < .1)
        out.append(s)
    return out


@prop('P19', 'objective, constraint and Lagrangian callbacks captured where the AC OPF hands them to the solver, and '
      'differentiated numerically at the start point and random interior points (polynomial/pwl/reactive/user costs, '
      'three flow-limit types); distinct by (base, features, limit type, user costs)', plan19, floors={'points': 60})
def p19(spec, mon):
    from pypower import api
    import pypower.pipsopf_solver as ps
    src = build(spec)
    rng = rng_for('p19', spec['base'], spec['seed'])
    if 'gencost' not in src:
        return
    if spec['norate']:
        src['branch'][:, RATE_A] = 0
    if rng.random() < .4:
        # polynomial costs of any degree, of active and reactive output
        g = src['gencost']
        w = np.zeros((len(g), max(g.shape[1], COST + 6)))
        w[:, :g.shape[1]] = g
        for r in w:
            if r[MODEL] == 2:
                k = int(rng.integers(1, 7))
                r[NCOST], r[COST:] = k, 0
                r[COST:COST + k] = rng.normal(size=k) * 20 * 60.0 ** -np.arange(k - 1, -1, -1)
        src['gencost'] = w
        mon.count('higher degrees')
    if spec['user']:
        n = 2 * int(live_bus(src).sum()) + 2 * int(live_gen(src).sum())
        add_user_costs(src, rng)
    if not hasattr(ps, 'pips'):
        mon.count('solver hook not available')
        return
    real = ps.pips
    got = []

    def spy(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None, gh_fcn=None, hess_fcn=None, opt=None):
        got.append((f_fcn, np.array(x0), np.array(xmin), np.array(xmax), gh_fcn, hess_fcn))
        return real(f_fcn, x0, A, l, u, xmin, xmax, gh_fcn, hess_fcn, opt)
    ps.pips = spy
    try:
        api.runopf(src, opts(OPF_ALG=560, OPF_FLOW_LIM=spec['lim'], PDIPM_MAX_IT=2))
    finally:
        ps.pips = real
    if not got:
        mon.count('solver hook not reached')
        return
    f_fcn, x0, lo, hi, gh, hess = got[0]
    for trial in range(2):
        x = x0.copy()
        if trial:
            w = np.minimum(hi, x0 + .3) - np.maximum(lo, x0 - .3)
            x = np.maximum(lo, x0 - .3) + rng.random(len(x0)) * w
        check_callbacks(mon, f_fcn, gh, hess, x, rng)
        mon.count('points')
    mon.sig(spec['base'], feats_sig(spec), spec['lim'], spec['user'], spec['norate'])


def check_callbacks(mon, f_fcn, gh, hess, x, rng):
    n = len(x)
    h = 1e-6
    f, df = f_fcn(x)[:2]
    df = dense(df).ravel()
    r = gh(x)
    hv, gv, dh, dg = r[0], r[1], dense(r[2]) if r[2] is not None else None, dense(r[3]) if r[3] is not None else None
    hv, gv = np.asarray(hv).ravel(), np.asarray(gv).ravel()
    E = np.eye(n) * h
    nf = np.zeros(n)
    ng, nh = np.zeros((n, len(gv))), np.zeros((n, len(hv)))
    lam = {'eqnonlin': rng.normal(size=len(gv)), 'ineqnonlin': rng.random(len(hv))}
    cm = 1e-2
    HL = dense(hess(x, lam, cm))
    nH = np.zeros((n, n))

    def lag(y):
        a = cm * dense(f_fcn(y)[1]).ravel()
        q = gh(y)
        if len(gv):
            a = a + dense(q[3]) @ lam['eqnonlin']
        if len(hv):
            a = a + dense(q[2]) @ lam['ineqnonlin']
        return a
    for k in range(n):
        p, m = x + E[k], x - E[k]
        nf[k] = (float(f_fcn(p)[0]) - float(f_fcn(m)[0])) / (2 * h)
        qp, qm = gh(p), gh(m)
        ng[k] = (np.asarray(qp[1]).ravel() - np.asarray(qm[1]).ravel()) / (2 * h)
        if len(hv):
            nh[k] = (np.asarray(qp[0]).ravel() - np.asarray(qm[0]).ravel()) / (2 * h)
        nH[k] = (lag(p) - lag(m)) / (2 * h)
    mon.close(df, nf, 2e-6 * (1 + abs(nf).max() + abs(float(f)) * 1e-3), 'objective-gradient', 'objective gradient')
    if len(gv):
        mon.close(dg, ng, 1e-6 * (1 + abs(ng).max()), 'equality-jacobian', 'power balance Jacobian')
    if len(hv):
        mon.close(dh, nh, 1e-6 * (1 + abs(nh).max()), 'inequality-jacobian', 'flow limit Jacobian')
    mon.close(HL, nH, 3e-6 * (1 + abs(nH).max()), 'lagrangian-hessian', 'Hessian of the Lagrangian')
    mon.count('constraints', len(gv) + len(hv))


def add_user_costs(src, rng, nw=3):
    """general user cost 1/2 w'Hw + Cw'w of dead-zoned, quadratic penalties on linear functions of the variables"""
    nb, ng = len(src['bus']), len(src['gen'])
    nx = 2 * nb + 2 * ng
    N = np.zeros((nw, nx))
    for i in range(nw):
        k = rng.choice(nx, 3, replace=False)
        N[i, k] = rng.normal(size=3)
    from scipy.sparse import csr_matrix
    src['N'] = csr_matrix(N)
    src['Cw'] = rng.normal(size=nw) * 20
    src['H'] = csr_matrix(np.diag(rng.random(nw) * 5))
    fp = np.zeros((nw, 4))
    fp[:, 0] = rng.integers(1, 3, nw)       # linear / quadratic
    fp[:, 1] = rng.normal(size=nw) * .1     # rhat
    fp[:, 2] = rng.random(nw) * .05         # dead zone h
    fp[:, 3] = rng.uniform(.5, 2, nw)       # multiplier m
    # no dead zone, and zero where all angles are equal
    i, j = rng.choice(nb, 2, replace=False)
    N[-1] = 0
    N[-1, i], N[-1, j] = 1, -1
    fp[-1, 1:3] = 0
    src['N'] = csr_matrix(N)
    src['fparm'] = fp


# ------------------------------------------------------------------ P20
def dc_flow(p, inj, drop=None):
    """branch flows (same units as inj) for zero-sum bus injections; inf when it cannot be solved"""
    n = len(p['bus'])
    B = np.zeros((n, n))
    rows = []
    for k, r in enumerate(p['branch']):
        if r[BR_STATUS] > 0 and k != drop:
            i, j = int(r[F_BUS]), int(r[T_BUS])
            b = R.dc_b(r)[0]
            B[i, i] += b
            B[j, j] += b
            B[i, j] -= b
            B[j, i] -= b
            rows.append((k, i, j, b))
    th = np.zeros((n,) + inj.shape[1:])
    th[1:] = np.linalg.solve(B[1:, 1:], inj[1:])
    out = np.zeros((len(p['branch']),) + inj.shape[1:])
    for k, i, j, b in rows:
        out[k] = b * (th[i] - th[j])
    return out


def plan20(tier, rng):
    return mkspecs(rng, n_of(tier, 200, 3000), MB + ['case118'], pool=POOL + ['offbranch', 'moveref'], p=.4)


@prop('P20', 'shift factors for default, single, distributed and per-bus slack on random networks against DC solutions of '
      'random balanced injections; distinct by (base, features)', plan20, floors={'factor matrices': 500})
def p20(spec, mon):
    from pypower import api
    p = internal(spec)
    rng = rng_for('p20', spec['base'], spec['seed'])
    n = len(p['bus'])
    args = (p['baseMVA'], p['bus'], p['branch'])
    ref = int(np.flatnonzero(p['bus'][:, BUS_TYPE] == REF)[0])
    inj = rng.normal(size=(n, 4)) * 50
    w = rng.random(n) * (rng.random(n) < .6)
    w[int(rng.integers(n))] += .5
    w *= rng.uniform(.2, 3)         # weights need not sum to one
    s = int(rng.integers(n))
    W = np.zeros((n, n))
    e_ref, e_s = np.zeros(n), np.zeros(n)
    e_ref[ref], e_s[s] = 1, 1
    for name, H, ws in (('default', api.makePTDF(*args), e_ref), ('single', api.makePTDF(*args, s), e_s),
                        ('distributed', api.makePTDF(*args, w.copy()), w / w.sum()),
                        ('slack0', api.makePTDF(*args, 0), np.eye(n)[0])):
        H = np.asarray(H)
        full = inj - np.outer(ws, inj.sum(0))
        want = dc_flow(p, full)
        mon.close(H @ inj, want, 1e-8 * (1 + abs(want).max()), 'ptdf-' + name, 'flows predicted by shift factors (%s slack)' % name)
        mon.close(H @ ws, 0, 1e-9, 'ptdf-slack-' + name, 'transfer from slack to itself')
        mon.count('factor matrices')
    # per-bus slack: column k of the matrix says how an injection at bus k is absorbed
    D = rng.normal(size=(n, n))
    D -= D.sum(0) / n                # balanced columns
    H = np.asarray(api.makePTDF(*args, D.copy()))
    want = dc_flow(p, D)
    mon.close(H, want, 1e-8 * (1 + abs(want).max()), 'ptdf-matrix', 'shift factors for a slack matrix')
    # Kirchhoff: net outflow of a unit transfer equals the transfer
    H = np.asarray(api.makePTDF(*args))
    A = np.zeros((n, len(p['branch'])))
    for k, r in enumerate(p['branch']):
        A[int(r[F_BUS]), k] += 1
        A[int(r[T_BUS]), k] -= 1
    want = np.eye(n)
    want[ref] -= 1
    mon.close(A @ H, want, 1e-8, 'ptdf-kirchhoff', 'net bus outflow of a unit transfer')
    mon.sig(spec['base'], feats_sig(spec))


# ------------------------------------------------------------------ P21
def plan21(tier, rng):
    return mkspecs(rng, n_of(tier, 140, 2000), MB + ['case118'], pool=POOL + ['moveref'], p=.4)


@prop('P21', 'every outage that keeps the network connected, on random networks: predicted post-outage flows against a '
      'DC solution of the network without that branch; distinct by (base, features, outage)', plan21,
      floors={'outages': 800})
def p21(spec, mon):
    from pypower import api
    p = internal(spec)
    p['branch'] = p['branch'][p['branch'][:, BR_STATUS] > 0]
    rng = rng_for('p21', spec['base'], spec['seed'])
    if spec['feat'] and rng.random() < .5:
        # a weak circle next to some branches, radial ones included
        k = rng.choice(len(p['branch']), int(rng.integers(1, 4)))
        w = p['branch'][k].copy()
        w[:, [BR_R, BR_X]] *= np.round(rng.uniform(5, 800, (len(k), 1)), 2)
        w[:, SHIFT] = 0
        p['branch'] = np.vstack([p['branch'], w])
        mon.count('weak circles', len(k))
    n, nl = len(p['bus']), len(p['branch'])
    with np.errstate(all='ignore'):
        H = api.makePTDF(p['baseMVA'], p['bus'], p['branch'])
        L = np.asarray(api.makeLODF(p['branch'], H))
    if not mon.check(L.shape == (nl, nl), 'shape', 'LODF shape %s' % (L.shape,)):
        return
    inj = rng.normal(size=(n, 3)) * 50
    inj -= inj.mean(0)
    pre = dc_flow(p, inj)
    ks = np.arange(nl) if nl <= 60 else rng.choice(nl, 40, replace=False)
    for k in ks:
        if not is_connected_without(p, {int(k)}):
            mon.count('bridges skipped')
            continue
        post = dc_flow(p, inj, drop=int(k))
        got = pre + np.outer(L[:, k], pre[k])
        tol = 1e-6 * (1 + abs(post).max())
        mon.close(got, post, tol, 'lodf', 'flows after the outage of branch %d' % k)
        mon.check(abs(L[k, k] + 1) < 1e-6, 'lodf-diagonal', 'diagonal entry %r' % L[k, k])
        mon.count('outages')
        mon.sig(spec['base'], feats_sig(spec), int(k))


# ------------------------------------------------------------------ P43
def plan43(tier, rng):
    return [{'seed': int(rng.integers(1 << 40)), 'n': int(rng.integers(1, 13)), 'base': float(rng.choice([100, 1, 37.5, 1000])),
             'ints': bool(rng.random() < .3)} for _ in range(n_of(tier, 600, 12000))]


def units43(rng, n, ints):
    g = np.zeros((n, 21))
    g[:, GEN_BUS] = rng.integers(1, 30, n)
    g[:, MBASE], g[:, VG], g[:, GEN_STATUS] = 100, 1, 1
    r = (lambda a, b, k=None: rng.integers(int(a), max(int(b), int(a) + 1), k)) if ints else rng.uniform
    for u in g:
        m = rng.random()
        if m < .4:                             # dispatchable load, now and then at unity power factor
            u[PMIN] = -r(1, 200)
            q = r(1, 90) if rng.random() < .8 else 0
            u[QMIN if rng.random() < .6 else QMAX] = q
            u[QMIN] *= -1
            t = rng.random()
            u[PG], u[QG] = t * u[PMIN], t * (u[QMIN] + u[QMAX])
            continue
        u[PMIN], u[QMIN] = r(-20, 40), -r(1, 120)
        u[PMAX], u[QMAX] = u[PMIN] + r(5, 300), r(1, 150)
        u[PMAX] += u[PMAX] == 0
        u[PG], u[QG] = u[PMIN], 0
        if m < .9:
            u[PC1] = u[PMIN] + r(-5, 20) if rng.random() < .7 else 0
            u[PC2] = u[PC1] + r(1, 300)
            u[QC1MAX], u[QC1MIN] = u[QMAX] + r(-20, 21), u[QMIN] + r(-20, 21)
            u[QC2MAX] = u[QC1MAX] - (r(1, 80) if rng.random() < .8 else 0)
            u[QC2MIN] = u[QC1MIN] + (r(1, 80) if rng.random() < .8 else 0)
    return g.astype(int) if ints else g


@prop('P43', 'random unit tables (curves, dispatchable loads, plain units; fractional and whole numbers), branch tables with every kind of angle limit and '
      'convex piecewise linear costs of both kinds; the region each set of constraints leaves is compared at sampled points with the region the data describe; '
      'distinct by kinds and numbers of limits', plan43,
      floors={'curve points': 3000, 'curves left out as redundant': 100, 'power factor rows': 500, 'angle points': 3000, 'basins': 600, 'whole-number tables': 80})
def p43(spec, mon):
    from pypower.makeApq import makeApq
    from pypower.makeAvl import makeAvl
    from pypower.makeAang import makeAang
    from pypower.makeAy import makeAy
    from pypower.hasPQcap import hasPQcap
    from pypower.isload import isload
    from .costs import val
    rng = rng_for('p43', spec['seed'])
    n, base = spec['n'], spec['base']
    g = units43(rng, n, spec['ints'])
    g0 = g.copy()
    mon.count('whole-number tables', spec['ints'])
    # capability curves
    Ah, uh, Al, ul, data = makeApq(base, g)
    Ah, Al = dense(Ah), dense(Al)
    ih, il = np.asarray(data['ipqh']), np.asarray(data['ipql'])
    mon.sig(len(ih), len(il), spec['ints'], base)
    mon.check(Ah.shape == (len(ih), 2 * n) and np.shape(uh) == (len(ih),) and Al.shape == (len(il), 2 * n) and np.shape(ul) == (len(il),), 'curve-shape',
              'shapes %s %s %s %s for %d upper and %d lower curves' % (Ah.shape, np.shape(uh), Al.shape, np.shape(ul), len(ih), len(il)))
    need = {}
    for side, c1, c2, lim, sgn, idx in (('U', QC1MAX, QC2MAX, QMAX, 1., ih), ('L', QC1MIN, QC2MIN, QMIN, -1., il)):
        A, b = (Ah, uh) if side == 'U' else (Al, ul)
        need[side] = has = np.zeros(n, bool)
        sure = np.ones(n, bool)
        for k, u in enumerate(g.astype(float)):
            if u[PC1] != u[PC2]:
                sl = (u[c2] - u[c1]) / (u[PC2] - u[PC1])
                room = sgn * (u[lim] - (u[c1] + sl * (u[PMAX] - u[PC1])))     # the curve cuts the box at the top output
                has[k] = room > 0
                sure[k] = abs(room) > 1e-9
                mon.count('curves left out as redundant', not has[k])
        same(mon, np.isin(np.arange(n), idx)[sure], has[sure], 'which-curves', 'units with %s curves' % side)
        same(mon, np.asarray(hasPQcap(g, side)).astype(bool)[sure], has[sure], 'has-curve', 'hasPQcap %s' % side)
        mon.check(len(set(idx)) == len(idx), 'which-curves', 'unit named twice')
        P, Q = rng.uniform(-300, 400, (8, n)), rng.uniform(-200, 200, (8, n))
        for row, k in enumerate(idx):
            u = g[k].astype(float)
            d = np.hypot(u[PC2] - u[PC1], u[c2] - u[c1])
            for p, q in zip(P, Q):
                e = sgn * (u[c1] + (u[c2] - u[c1]) / (u[PC2] - u[PC1]) * (p[k] - u[PC1]) - q[k]) * (u[PC2] - u[PC1]) / d / base
                mon.close(b[row] - A[row] @ np.r_[p, q] / base, e, 1e-9 * 1e4 / base, 'curve', 'distance of (%.4g, %.4g) from the %s curve of unit %d' % (p[k], q[k], side, k))
                mon.count('curve points')
    both = need['U'] | need['L']
    if all(sure):
        mon.check(set(ih) | set(il) == set(np.flatnonzero(np.asarray(hasPQcap(g)))), 'has-curve', 'hasPQcap without side')
    # dispatchable loads
    ld = [u[PMIN] < 0 and u[PMAX] == 0 for u in g]
    same(mon, np.asarray(isload(g)).astype(bool), ld, 'isload', 'dispatchable loads')
    A, lo, up, iv = makeAvl(base, g)
    A = dense(A)
    pf = [k for k in range(n) if ld[k] and (g[k, QMIN] or g[k, QMAX])]
    same(mon, iv, np.array(pf, int), 'which-loads', 'loads of given power factor')
    mon.check(A.shape == (len(pf), 2 * n) and np.all(np.asarray(lo) == 0) and np.all(np.asarray(up) == 0) and len(lo) == len(up) == len(pf), 'load-shape', 'power factor rows')
    for row, k in enumerate(pf):
        p, q = rng.normal(size=n), rng.normal(size=n)
        x, y = float(g[k, PMIN]), float(g[k, QMIN] + g[k, QMAX])
        mon.close(abs(A[row] @ np.r_[p, q]), abs(y * p[k] - x * q[k]) / np.hypot(x, y), 1e-12 * 1e3, 'power-factor', 'distance from the power factor of load %d' % k)
        p[k], q[k] = x, y
        mon.close(A[row] @ np.r_[p, q] / np.hypot(x, y), 0, 1e-12, 'power-factor', 'the nominal load %d' % k)
        mon.count('power factor rows')
    # angle differences
    nb, nl = int(rng.integers(2, 12)), int(rng.integers(1, 20))
    br = np.zeros((nl, 21))
    br[:, F_BUS] = rng.integers(0, nb, nl)
    br[:, T_BUS] = (br[:, F_BUS] + rng.integers(1, nb, nl)) % nb
    br[:, BR_STATUS] = rng.random(nl) < .9
    for r in br:
        r[ANGMIN] = rng.choice([0, -360, -400, rng.uniform(-90, -1), rng.uniform(1, 10), rng.integers(-80, -1)])
        r[ANGMAX] = rng.choice([0, 360, 500, rng.uniform(12, 90), rng.uniform(11, 20), rng.integers(11, 80)])
        if r[ANGMIN] > -360 and r[ANGMIN] and not r[ANGMAX] and rng.random() < .3:
            r[ANGMAX] = -rng.uniform(0, .5) if r[ANGMIN] < -1 else 0
    if spec['ints']:
        br = np.trunc(br).astype(int)
    b0 = br.copy()
    ig = bool(rng.random() < .15)
    A, lo, up, ia = makeAang(base, br, nb, opts(OPF_IGNORE_ANG_LIM=ig))
    A, ia = dense(A), list(np.asarray(ia).astype(int))
    mon.check(A.shape == (len(ia), nb) and len(lo) == len(up) == len(ia) and len(set(ia)) == len(ia), 'angle-shape', 'shape of angle limits')
    mon.check(not (ig and ia), 'angle-ignored', 'limits although they are to be ignored')
    for _ in range(4):
        va = np.deg2rad(rng.uniform(-100, 100, nb) * rng.choice([1, .1]))
        v = A @ va
        for k, r in enumerate(br.astype(float)):
            d = np.rad2deg(va[int(r[F_BUS])] - va[int(r[T_BUS])])
            ok = ig or ((not r[ANGMIN] or d >= r[ANGMIN]) and (not r[ANGMAX] or d <= r[ANGMAX]))
            got = k not in ia or lo[ia.index(k)] <= v[ia.index(k)] <= up[ia.index(k)]
            mon.check(ok == got, 'angle-limit', 'difference of %.6g degrees over branch %d with limits %r' % (d, k, r[[ANGMIN, ANGMAX]]))
            mon.count('angle points')
    # piecewise linear costs
    nq = n if rng.random() < .5 else 0
    gc = np.zeros((n + nq, 4 + 2 * 6))
    for r in gc:
        r[1:3] = rng.integers(0, 9, 2)
        if rng.random() < .35:
            r[MODEL], r[NCOST] = 2, 3
            r[COST:COST + 3] = rng.uniform(0, 9, 3)
        else:
            k = int(rng.integers(2, 7))
            x = np.cumsum(rng.integers(1, 60, k)) - rng.integers(0, 200)
            r[MODEL], r[NCOST] = 1, k
            r[COST:COST + 2 * k:2] = x
            r[COST + 1:COST + 2 * k:2] = np.round(np.r_[0, np.cumsum(np.sort(rng.integers(-50, 90, k - 1)) * np.diff(x))] + rng.normal() * 50)
            if not spec['ints']:
                r[COST:COST + 2 * k] *= 1.1
    if spec['ints']:
        gc = np.trunc(gc).astype(int)
    c0 = gc.copy()
    pg = int(rng.integers(1, 6))
    qg = pg + n + (int(rng.integers(0, 4)) if rng.random() < .5 else 0)
    yb = qg + n + int(rng.integers(0, 3))
    A, b = makeAy(base, n, gc, pg, qg, yb)
    A, b = dense(A), np.asarray(b, float)
    iy = [k for k in range(len(gc)) if gc[k, MODEL] == 1]
    rows = [k for k in iy for _ in range(int(gc[k, NCOST]) - 1)]
    mon.check(A.shape == (len(rows), yb - 1 + len(iy)) and b.shape == (len(rows),), 'basin-shape', 'shape %s of %d segments' % (A.shape, len(rows)))
    if A.shape[0] == len(rows) == len(b) and len(rows):
        x = rng.normal(size=A.shape[1]) * 3
        X = x.copy()
        X[yb - 1:] = 0
        least = A @ X - b                      # y of the row is at least this
        for j, k in enumerate(iy):
            at = x[(pg - 1 + k) if k < n else (qg - 1 + k - n)] * base
            mine = [r for r, kk in enumerate(rows) if kk == k]
            f = val(gc[k].astype(float), at)
            mon.close(max(least[mine]), f, 1e-9 * (1e4 + abs(f) + abs(at) * 100), 'basin', 'least cost variable of row %d at %.6g' % (k, at))
            mon.count('basins')
        y = A[:, yb - 1:]
        e = np.zeros_like(y)
        for r, k in enumerate(rows):
            e[r, iy.index(k)] = -1
        same(mon, y, e, 'basin-variable', 'columns of the cost variables')
    same(mon, g, g0, 'inputs-kept', 'units changed')
    same(mon, br, b0, 'inputs-kept', 'branches changed')
    same(mon, gc, c0, 'inputs-kept', 'costs changed')
