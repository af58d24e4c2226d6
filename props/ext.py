"""Extensions of the OPF: P29 user-supplied variables, constraints and costs."""
import os, re
from .common import *
from .pf import n_of
from .opf import dc_check
from vlib import opfref as O
from scipy.sparse import csr_matrix

XB = ['case6ww', 'case9', 'case14', 'case24_ieee_rts', 'case30', 'case39', 'case57', 'case30pwl', 'net8', 'net15', 'net30']
XFEATS = ['loads', 'taps', 'splitgen', 'offgen', 'offbranch', 'parallel', 'isolated', 'renumber', 'shuffle', 'moveref',
          'pwl', 'basemva', 'widegen', 'widebr', 'ncost', 'disp', 'qcost']
FORMS = ['fields', 'fields', 'args', 'matrices', 'callback']


def colmap(src):
    """offsets of the external column blocks Va, Vm, Pg, Qg"""
    nb, ng = len(src['bus']), len(src['gen'])
    return {'Va': 0, 'Vm': nb, 'Pg': 2 * nb, 'Qg': 2 * nb + ng}, 2 * nb + 2 * ng


def xvec(src, r):
    """external [Va Vm Pg Qg] from result tables; zero for dead rows"""
    x = np.concatenate([r['bus'][:, VA] * np.pi / 180 * live_bus(src), r['bus'][:, VM] * live_bus(src),
                        r['gen'][:, PG] / src['baseMVA'] * live_gen(src), r['gen'][:, QG] / src['baseMVA'] * live_gen(src)])
    return x


def user_w(r, fp):
    """w and dw/dr of the documented cost transformation"""
    u = r - fp[:, 1]
    out = abs(u) > fp[:, 2]
    rr = u - np.sign(u) * fp[:, 2]
    q = fp[:, 0] == 2
    w = fp[:, 3] * out * np.where(q, rr ** 2, rr)
    dw = fp[:, 3] * out * np.where(q, 2 * rr, 1.0)
    return w, dw


def user_cost(N, fp, H, Cw, x):
    w, dw = user_w(N @ x, fp)
    return .5 * w @ H @ w + Cw @ w, N.T @ (dw * (H @ w + Cw))


def plan29(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 130, 1500), XB, pool=XFEATS, p=.2):
        s['dc'] = bool(rng.random() < .5)
        s['alg'] = int(rng.choice([0, 200, 250])) if s['dc'] else int(rng.choice([0, 560, 565]))
        s['form'] = str(rng.choice(FORMS))
        s['con'], s['cost'] = bool(rng.random() < .75), bool(rng.random() < .7)
        if not s['con'] and not s['cost']:
            s['con'] = True
        s['nz'] = int(rng.integers(0, 3)) if s['con'] else 0
        s['short'] = bool(rng.random() < .5)
        s['deadrow'] = bool(rng.random() < .2)
        if len(out) % 9 == 4:
            s.update(deadrow=True, cost=True, nz=0, feat=sorted(set(s['feat']) | {'offgen'}))
        out.append(s)
    for s in mkspecs(rng, n_of(tier, 60, 600), ['case9', 'case6ww', 'case30', 'net5'], pool=['loads', 'renumber', 'offgen', 'pwl', 'qcost'], p=.2, plain=False):
        s['forms'] = [int(rng.integers(0, 14)), bool(rng.random() < .4), bool(rng.random() < .5)]
        out.append(s)
    return out


ARGFORMS = [('c', ()), ('c', ('o',)), ('c', ('fcn', 'o')), ('c', ('A', 'l', 'u')), ('c', ('A', 'l', 'u', 'o')), ('c', ('A', 'l', 'u', 'o', 'N', 'fparm', 'H', 'Cw')),
            ('c', ('A', 'l', 'u', 'o', 'N', 'fparm', 'H', 'Cw', 'z0', 'zl', 'zu'))]
ARGFORMS += [('m', f) for _, f in ARGFORMS]


def arg_forms(spec, mon):
    """opf_args, opf_args2: every documented calling form delivers every argument, explicit ones before fields of the case"""
    from pypower import api
    from pypower.opf_args import opf_args, opf_args2
    from pypower.ppoption import ppoption
    rng = rng_for('forms', spec['seed'])
    src = build(spec)
    n, infields, asfile = spec['forms']
    how, names = ARGFORMS[n % len(ARGFORMS)]
    nx = 2 * len(src['bus']) + 2 * len(src['gen'])

    def rand():
        m, nw, nz = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
        return dict(A=csr_matrix(rng.normal(size=(m, nx + nz))), l=rng.normal(size=m) - 2, u=rng.normal(size=m) + 2, N=csr_matrix(rng.normal(size=(nw, nx + nz))),
                    fparm=np.c_[np.ones(nw), rng.normal(size=(nw, 3))], H=csr_matrix(np.diag(rng.random(nw) + .1)), Cw=rng.normal(size=nw),
                    z0=rng.normal(size=nz), zl=-1 - rng.random(nz), zu=1 + rng.random(nz))
    given = rand()
    given['fcn'] = {'formulation': [{'fcn': len, 'args': None}]}
    given['o'] = ppoption(VERBOSE=0, OUT_ALL=0, PDIPM_MAX_IT=int(rng.integers(20, 90)))
    case = copy(src)
    if 'areas' not in case:
        case['areas'] = np.array([[1., case['bus'][0, 0]]])
    fields = rand() if infields else {}
    case.update(fields)
    if infields and not asfile:
        case['userfcn'] = {'int2ext': [{'fcn': max, 'args': None}]}
    if how == 'm':
        args = [case[k] for k in ('baseMVA', 'bus', 'gen', 'branch', 'areas', 'gencost')]
        fields = {}
    elif asfile:
        f = os.path.abspath('forms%d_%d' % (spec['seed'], os.getpid()))
        api.savecase(f + '.py', case)
        args = [f if rng.random() < .5 else f + '.py']
    else:
        args = [case]
    args += [given[k] for k in names]
    for fun in (opf_args, opf_args2):
        before = copy(case)
        got = fun(*args)
        if fun is opf_args:
            keys = ['baseMVA', 'bus', 'gen', 'branch', 'gencost', 'A', 'l', 'u', 'o', 'N', 'fparm', 'H', 'Cw', 'z0', 'zl', 'zu', 'userfcn', 'areas']
            if not mon.check(len(got) == 18, 'call-form', '%d values returned' % len(got)):
                return
            got = dict(zip(keys, got))
        else:
            got = dict(got[0], o=got[1])
        for k in ('baseMVA', 'bus', 'gen', 'branch', 'gencost', 'areas'):
            w = np.asarray(case[k], float)
            g = np.asarray(got.get(k), float)
            if k == 'gencost' and g.ndim == 2:
                c = min(g.shape[1], w.shape[1])
                mon.check(not g[:, c:].any() and not w[:, c:].any(), 'call-form', 'width of gencost')
                g, w = g[:, :c], w[:, :c]
            mon.check(g.shape == w.shape and np.allclose(g, w, rtol=1e-8, atol=1e-6), 'call-form', '%s%s: %s' % (fun.__name__, (how,) + names, k))
        D = lambda M: np.zeros(0) if M is None else M.toarray() if hasattr(M, 'toarray') else np.asarray(M, float)
        for k in ('A', 'l', 'u', 'N', 'fparm', 'H', 'Cw', 'z0', 'zl', 'zu'):
            w = D(given[k] if k in names else fields.get(k))
            g = D(got.get(k))
            if fun is opf_args2 and k not in got:
                g = np.zeros(0)
            mon.check(g.size == w.size == 0 or g.shape == w.shape and np.allclose(g, w, rtol=1e-7, atol=1e-7), 'call-form',
                      '%s%s: %s is not the one %s' % (fun.__name__, (how,) + names, k, 'given' if k in names else 'in the case'))
        w = given['fcn'] if 'fcn' in names else case.get('userfcn', {}) if how == 'c' and not asfile else {}
        u = got.get('userfcn')
        u = {} if u is None or len(u) == 0 else u
        mon.check({k: [x['fcn'] for x in v] for k, v in u.items()} == {k: [x['fcn'] for x in v] for k, v in w.items()}, 'call-form', 'user functions %s' % (u,))
        mon.check(got['o'] == (given['o'] if 'o' in names else ppoption()), 'call-form', '%s%s: options' % (fun.__name__, (how,) + names))
        if how != 'm':
            mon.check(all(k in case for k in before) and len(case) == len(before), 'call-form', 'case of the caller changed')
        mon.count('argument forms')
    mon.sig(spec['base'], 'forms', how, names, infields, asfile)
    if asfile and how != 'm':
        for e in ('', '.py'):
            if os.path.exists(args[0] + e) and (args[0] + e).endswith('.py'):
                os.remove(args[0] + e)


@prop('P29', 'AC and DC OPF with random user constraint rows (binding, slack, equality), extra variables and generalized costs, given '
      'as case fields, as arguments, with separate matrices, or by formulation callbacks; distinct by (base, features, AC/DC, form, '
      'which parts)', plan29, floors={'solved': 70, 'binding user rows': 60, 'form callback': 10, 'user costs': 40, 'z variables': 25, 'argument forms': 60})
def p29(spec, mon):
    from pypower import api
    if 'forms' in spec:
        return arg_forms(spec, mon)
    src = build(spec)
    rng = rng_for('p29', spec['seed'])
    dc = spec['dc']
    if dc:
        gc = src['gencost']
        for k in np.flatnonzero((gc[:, MODEL] == 2) & (gc[:, NCOST] == 4)):
            gc[k, COST:COST + 4] = np.r_[gc[k, COST + 1:COST + 4], 0]
            gc[k, NCOST] = 3
    o = opts(OPF_ALG_DC=spec['alg'], PF_DC=True) if dc else opts(OPF_ALG=spec['alg'], PDIPM_MAX_IT=80)
    r0 = api.opf(copy(src), o)
    if not r0['success']:
        mon.count('base unsolved')
        return
    off, nx = colmap(src)
    nb, ng = len(src['bus']), len(src['gen'])
    x0 = xvec(src, r0)
    lb, lg = np.flatnonzero(live_bus(src)), np.flatnonzero(live_gen(src))
    S = src['baseMVA']
    blocks = ['Va', 'Pg'] if dc else ['Va', 'Vm', 'Pg', 'Qg']
    price = 1 + abs(r0['bus'][lb, LAM_P]).max()
    nz = spec['nz']
    if not all(len(t) for t in (lb, lg)):
        return

    def row(pool, k):
        e = np.zeros(nx + nz)
        for _ in range(k):
            b = str(rng.choice(pool))
            n = nb if b[0] == 'V' else ng
            e[off[b] + int(rng.integers(0, n))] += rng.choice([1, -1, rng.normal()])
        return e
    A, l, u = [], [], []
    if spec['con']:
        for _ in range(int(rng.integers(1, 5))):
            kind = rng.choice(['tight', 'tight', 'slack', 'eq', 'wide'])
            e = row(['Pg'] if kind == 'tight' and rng.random() < .7 else blocks, int(rng.integers(1, 4)))
            y = e[:nx] @ x0
            size = (.02 + .1 * rng.random()) * (1e-2 + abs(e[off['Pg']:off['Pg'] + ng]) @ abs(x0[off['Pg']:off['Pg'] + ng]))
            if kind == 'tight':
                if rng.random() < .5:
                    a, b = -np.inf, y - size
                else:
                    a, b = y + size, np.inf
            elif kind == 'eq':
                a = b = y + .2 * size * rng.choice([0, 1, -1])
            elif kind == 'slack':
                a, b = y - 5 * size - .5, y + 5 * size + .5
            else:
                a, b = -1e10, 1e10
            A.append(e)
            l.append(a)
            u.append(b)
        for j in range(nz):
            # z_j covers what a linear function of the outputs exceeds
            e = row(['Pg'], 2)
            y = e[:nx] @ x0
            e[nx + j] = rng.choice([-1, -.5])
            A.append(e)
            l.append(-np.inf)
            u.append(y - .05 * abs(y) - .02)
    A = np.array(A).reshape(-1, nx + nz)
    l, u = np.array(l), np.array(u)
    zl, zu, z0 = np.zeros(nz), rng.uniform(3, 50, nz), rng.uniform(.1, 1, nz)
    N, fp, H, Cw = [], [], np.zeros((0, 0)), np.zeros(0)
    if spec['cost'] or nz:
        dead = np.flatnonzero(~np.r_[live_bus(src), live_bus(src), live_gen(src), live_gen(src)])
        dead = dead if spec.get('deadrow') else dead[:0]       # costs on nothing but equipment out of service
        for _ in range(int(rng.integers(1, 4)) if spec['cost'] else 0):
            N.append(row(blocks, int(rng.integers(1, 4))))
            if len(dead):
                N[-1] = np.zeros(nx + nz)
                N[-1][rng.choice(dead, 2)] = rng.normal(size=2)
                mon.count('costs on dead equipment')
            dd = 1 if dc else int(rng.integers(1, 3))
            fp.append([dd, rng.normal() * .3, 0 if dc else rng.choice([0, rng.random() * .1]), rng.choice([1, rng.uniform(.5, 2)])])
            Cw = np.append(Cw, (abs if dd == 2 else float)(rng.normal()) * price * S * .2)
        for j in range(nz):
            e = np.zeros(nx + nz)
            e[nx + j] = 1
            N.append(e)
            fp.append([1, 0, 0, 1])
            Cw = np.append(Cw, rng.uniform(.05, 1.5) * price * S)
        B = rng.normal(size=(len(N), len(N))) * (rng.random() < .6)
        if nz:
            B[:, -nz:] = 0
        H = B.T @ B * price * S * .05
        if any(x[0] == 2 for x in fp):
            H = np.diag(np.diag(H))
    N, fp = np.array(N).reshape(-1, nx + nz), np.array(fp).reshape(-1, 4)
    nw = len(N)
    useH, useF = bool(H.any()), bool(nw and np.any(fp != [1, 0, 0, 1]))
    keep = np.ones(nx + nz, bool)
    if dc:
        keep[off['Vm']:off['Vm'] + nb] = keep[off['Qg']:off['Qg'] + ng] = False
        if not spec['short'] and spec['form'] != 'callback':
            keep[:] = True
    gA, gN = A.copy(), N.copy()
    if dc and keep.all() and rng.random() < .5:
        # a DC OPF reports and leaves out what the rows say about voltages and reactive outputs
        ac = np.r_[off['Vm']:off['Vm'] + nb, off['Qg']:off['Qg'] + ng]
        for M in (gA, gN)[int(rng.integers(0, 2)):] if nw else (gA,):
            M[np.ix_(np.arange(len(M)), ac)] = rng.normal(size=(len(M), len(ac))) * (rng.random((len(M), len(ac))) < .3)
        mon.count('rows on voltages in DC')
    cA = csr_matrix(gA[:, keep]) if len(A) else None
    cN = csr_matrix(gN[:, keep]) if nw else None
    case = copy(src)
    form = spec['form']
    if form in ('args', 'matrices'):
        if nw and not len(A):
            form = 'fields'
    ux = [cA, l, u, o]
    if nw:
        ux += [cN, fp if useF else np.zeros((0, 4)), csr_matrix(H) if useH else None, Cw]
        if nz:
            ux += [z0, zl, zu]
    if form == 'fields':
        if len(A):
            case['A'], case['l'], case['u'] = cA, l.copy(), u.copy()
        if nz:
            case['z0'], case['zl'], case['zu'] = z0.copy(), zl.copy(), zu.copy()
        if nw:
            case['N'], case['Cw'] = cN, Cw.copy()
            if useF:
                case['fparm'] = fp.copy()
            if useH:
                case['H'] = csr_matrix(H)
        r = api.opf(case, o)
    elif form == 'args':
        r = api.opf(case, *ux)
    elif form == 'matrices':
        r = api.opf(case['baseMVA'], case['bus'], case['gen'], case['branch'], np.array([]), case['gencost'], *ux)
    else:
        half = nw // 2
        calls = []

        def cb(om, args=None):
            from pypower.e2i_data import e2i_data
            calls.append(args)
            ppc = om.get_ppc()
            vs = list(blocks)
            od = ['bus', 'gen'] if dc else ['bus', 'bus', 'gen', 'gen']

            def conv(M):
                M = csr_matrix(M)
                X = e2i_data(ppc, M[:, :M.shape[1] - nz], od, 1)
                X = csr_matrix(X)
                from scipy.sparse import hstack
                return hstack([X, M[:, M.shape[1] - nz:]], 'csr') if nz else X
            if nz:
                om.add_vars('z', nz, z0, zl, zu)
                vs.append('z')
            if len(A):
                om.add_constraints('usr', conv(A[:, keep]), l, u, vs)
            Hs = [H[:half, :half], H[half:, half:]] if half else [H]
            for nm, sl, Hk in zip(('usr', 'usr2') if half else ('usr',), (slice(0, half), slice(half, nw)) if half else (slice(0, nw),), Hs):
                if nw:
                    cp = {'N': conv(N[sl][:, keep]), 'Cw': Cw[sl]}
                    if useH:
                        cp['H'] = csr_matrix(Hk)
                    if useF:
                        cp.update(dd=fp[sl, 0], rh=fp[sl, 1], kk=fp[sl, 2], mm=fp[sl, 3])
                    om.add_costs(nm, cp, vs)
            return om
        if half:
            H[:half, half:] = H[half:, :half] = 0
        from pypower.add_userfcn import add_userfcn
        case = add_userfcn(case, 'formulation', cb, {'mark': 1})
        r = api.opf(case, o)
        mon.check(calls == [{'mark': 1}], 'callback', 'formulation callback called %d times, with %s' % (len(calls), calls[:1]))
    mon.count('runs')
    if not r['success']:
        mon.count('unsolved')
        return
    mon.count('solved')
    mon.count('form ' + form)
    count_feats(mon, spec)
    mon.sig(spec['base'], feats_sig(spec), dc, form, len(A) > 0, nw > 0, nz, useH, useF)
    if not O.inputs_kept(mon, src, r):
        return
    same(mon, r['gencost'], src['gencost'], 'inputs-gencost', 'gencost table changed')
    x = xvec(src, r)
    z = r['var']['val']['z'] if nz else np.zeros(0)
    X = np.r_[x, z]
    if dc:
        X[off['Vm']:off['Vm'] + nb] = 0
    live = np.r_[live_bus(src), live_bus(src), live_gen(src), live_gen(src), np.ones(nz, bool)]
    A, N = A * live, N * live
    mon.close(np.maximum(zl - z, z - zu).clip(0) / (1 + zu), 0 * z, 1e-5, 'z-limits', 'limits of the extra variables')
    mon.count('z variables', nz)
    T = (1e-5 if dc else 1e-4) * (1 + abs(A) @ abs(X))
    g = np.zeros(nx + nz)
    if len(A):
        y = A @ X
        mon.close(np.maximum(l - y, y - u).clip(0) / T, 0 * y, 1.0, 'user-rows', 'user constraint rows (scaled excess)')
        ml, mu = r['lin']['mu']['l']['usr'], r['lin']['mu']['u']['usr']
        W = 2e-2 * price * S * (1 + abs(np.r_[ml, mu]).max() / price / S)
        mon.check(np.all(ml >= -1e-9 * W) and np.all(mu >= -1e-9 * W), 'user-row-price', 'negative user row multiplier')
        e = l == u
        mon.close((ml * np.where(np.isfinite(l), y - l, 1e3).clip(0))[~e], 0 * y[~e], W, 'user-row-price', 'lower multiplier on slack row')
        mon.close((mu * np.where(np.isfinite(u), u - y, 1e3).clip(0))[~e], 0 * y[~e], W, 'user-row-price', 'upper multiplier on slack row')
        mon.count('binding user rows', int((abs(mu - ml) > 1e-4 * price * S).sum()))
        g += A.T @ (mu - ml)
    uc = 0.0
    kink = False
    if nw:
        rr = N @ X
        d = abs(rr - fp[:, 1])
        kink = bool(np.any((abs(d - fp[:, 2]) < 1e-4) & (fp[:, 2] > 0) & (fp[:, 0] == 1)))
        uc, ug = user_cost(N, fp, H, Cw, X)
        g += ug
        mon.count('user costs')
        got = sum(r['cost'].values())
        w = user_w(rr, fp)[0]
        usz = abs(w) @ abs(H) @ abs(w) + abs(Cw) @ abs(w) + 1
        if not kink:
            mon.close(got, uc, 1e-6 * usz, 'user-cost', 'reported value of the user costs')
        else:
            mon.count('at a kink')
    gen = dict(src, gen=r['gen'], gencost=src['gencost'] if not dc else src['gencost'][:ng])
    if not kink:
        mon.close(r['f'], R.total_cost(gen) + uc, 1e-5 * (R.cost_size(gen) + (usz if nw else 0)) + (2e-3 if 'pwl' in spec['feat'] else 0),
                  'objective', 'objective against generation cost plus user cost')
    relax = 1 + abs(g).max() / S / price
    L = {'Va': g[:nb], 'Vm': g[nb:2 * nb], 'Pg': g[2 * nb:2 * nb + ng], 'Qg': g[2 * nb + ng:nx]}
    if kink:
        return
    if dc:
        dc_check(mon, src, r, extra=L, relax=relax)
    else:
        O.ac_feasible(mon, src, r)
        O.ac_kkt(mon, src, r, extra=L, relax=relax)
    if nz:
        zg = g[nx:] + r['var']['mu']['u']['z'] - r['var']['mu']['l']['z']
        mon.close(zg, 0 * zg, 2e-3 * price * S * relax, 'z-price', 'Lagrangian gradient in the extra variables')


def io_files(spec):
    if not spec.get('io'):
        return []
    out = [os.path.abspath('%s%d_%d' % (k, spec['seed'], os.getpid()) + e) for k, e in (('print', '.txt'), ('solved', '.py'))]
    for f in out:
        if os.path.exists(f):
            os.remove(f)
    return out


# ------------------------------------------------------------------ P30
RFEATS = ['loads', 'taps', 'splitgen', 'offgen', 'offbranch', 'parallel', 'isolated', 'renumber', 'shuffle', 'moveref', 'disp',
          'pwl', 'basemva', 'widebr', 'ncost', 'tight']


def dcify(src):
    gc = src['gencost']
    for k in np.flatnonzero((gc[:, MODEL] == 2) & (gc[:, NCOST] == 4)):
        gc[k, COST:COST + 4] = np.r_[gc[k, COST + 1:COST + 4], 0]
        gc[k, NCOST] = 3


def plan30(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 90, 1200), XB, pool=RFEATS, p=.22):
        s['dc'] = bool(rng.random() < .5)
        s['nrz'] = int(rng.integers(1, 5))
        s['short'], s['qty'], s['ramp'] = bool(rng.random() < .5), bool(rng.random() < .7), bool(rng.random() < .5)
        s['via'] = str(rng.choice(['runopf_w_res', 'toggle', 'dcopf']))
        s['big'] = bool(rng.random() < .12)
        s['io'] = bool(rng.random() < .4) and s['via'] != 'toggle'
        out.append(s)
    return out


@prop('P30', 'AC and DC OPF with random overlapping reserve zones, requirements, costs and limits (per unit or per reserve unit), units out '
      'of service, requirements that cannot be met; distinct by (base, features, AC/DC, zones, data form)', plan30,
      floors={'solved': 45, 'binding zones': 40, 'infeasible': 3, 'capacity shared': 10})
def p30(spec, mon):
    from pypower import api
    from pypower.toggle_reserves import toggle_reserves
    from pypower.runopf_w_res import runopf_w_res
    src = build(spec)
    rng = rng_for('p30', spec['seed'])
    dc = spec['dc']
    if dc:
        dcify(src)
    ng, S = len(src['gen']), src['baseMVA']
    lg = live_gen(src)
    g = src['gen']
    nrz = spec['nrz']
    zones = (rng.random((nrz, ng)) < rng.uniform(.3, .9)).astype(float)
    zones[:, g[:, PMAX] <= 0] = 0
    for z in range(nrz):
        if not (zones[z] * lg).any():
            zones[z, rng.choice(np.flatnonzero(lg & (g[:, PMAX] > 0)))] = 1
    rg = zones.any(0)
    if spec['ramp']:
        g[:, RAMP_10] = np.where(rng.random(ng) < .7, np.round(rng.uniform(.05, .5, ng) * abs(g[:, PMAX]), 1), 0)
    else:
        g[:, RAMP_10] = 0
    cost = np.round(rng.uniform(.5, 12, ng), 2)
    qty = np.round(rng.uniform(.05, .6, ng) * (1 + abs(g[:, PMAX])), 1) if spec['qty'] else np.full(ng, np.inf)
    Rmax = np.where(g[:, RAMP_10] != 0, np.minimum(g[:, RAMP_10], qty), qty)
    head = max(0, (g[lg, PMAX].clip(0)).sum() - src['bus'][:, PD].sum())
    req = np.zeros(nrz)
    for z in range(nrz):
        k = (zones[z] > 0) & lg & rg
        cap = np.minimum(Rmax, g[:, PMAX] - g[:, PMIN])[k].sum()
        req[z] = round(rng.uniform(.1, .8) * min(cap, .5 * head), 2)
        if rng.random() < .1:
            req[z] = 0
    if spec['big']:
        z = int(rng.integers(nrz))
        k = (zones[z] > 0) & lg
        req[z] = 2 + 1.3 * np.minimum(Rmax, (g[:, PMAX] - g[:, PMIN]))[k].sum()
    res = {'zones': zones.copy(), 'req': req.copy(), 'cost': cost[rg] if spec['short'] else cost.copy()}
    if spec['qty']:
        res['qty'] = qty[rg] if spec['short'] else qty.copy()
    case = copy(src)
    case['reserves'] = {k: v.copy() for k, v in res.items()}
    o = opts(PF_DC=dc, PDIPM_MAX_IT=80, OUT_ALL=int(spec.get('io', 0)))
    io_ = io_files(spec)
    if spec['via'] == 'runopf_w_res':
        r = runopf_w_res(case, o, *io_)
        mon.check(not any(len(v) for v in r.get('userfcn', {}).values()), 'toggle-off', 'callbacks left in the result')
        mon.check(sorted(case) == sorted(list(src) + ['reserves']), 'caller', 'case dict of the caller changed')
        for t in ('bus', 'gen', 'branch', 'gencost'):
            same(mon, case[t], src[t], 'caller', t + ' of the caller changed')
        mon.check(sorted(case['reserves']) == sorted(res), 'caller', 'reserves of the caller changed: %s' % sorted(case['reserves']))
    else:
        c2 = toggle_reserves(case, 'on')
        r = (api.rundcopf if dc else api.runopf)(c2, o, *io_) if spec['via'] == 'dcopf' else api.opf(c2, o)
    for k in res:
        same(mon, case['reserves'][k], res[k], 'caller', 'reserves[%s] of the caller changed' % k)
    mon.count('runs')
    if spec['big']:
        mon.count('infeasible')
        mon.check(not r['success'], 'infeasible', 'a requirement above all reserve limits is reported as met')
        return
    if not r['success']:
        mon.count('unsolved')
        return
    mon.count('solved')
    count_feats(mon, spec)
    mon.sig(spec['base'], feats_sig(spec), dc, nrz, spec['short'], spec['qty'], spec['ramp'], spec['via'])
    if not O.inputs_kept(mon, src, r):
        return
    q = r['reserves']
    for k in res:
        same(mon, np.asarray(q[k], float).reshape(res[k].shape) if np.size(q[k]) == res[k].size else q[k], res[k], 'inputs-reserves', 'reserves[%s] in the result' % k)
    A = [np.asarray(x, float) for x in (q['R'], q['Rmin'], q['Rmax'], q['mu']['l'], q['mu']['u'], q['mu']['Pmax'], q['prc'])]
    if not mon.check(all(x.shape == (ng,) for x in A), 'shape', 'result vectors %s' % [x.shape for x in A]):
        return
    Rr, Rn, Rx, ml, mu, mp, prc = A
    k = lg & rg
    T = (2e-3 if not dc else 1e-4) * S * .1 + 1e-5 * scale(src)
    for x, nm in ((Rr, 'R'), (Rx, 'Rmax'), (ml, 'mu.l'), (mu, 'mu.u'), (mp, 'mu.Pmax')):
        mon.check(not x[~k].any(), 'non-participants', '%s not zero for units out of service or outside all zones' % nm)
    mon.check(not Rn.any(), 'Rmin', 'lower limits not zero')
    mon.check(np.array_equal(Rx[k], Rmax[k]) or np.allclose(Rx[k], Rmax[k], rtol=1e-12, atol=0), 'Rmax', 'reported reserve limits %s, given %s' % (Rx[k], Rmax[k]))
    mon.check(Rr[k].min() >= -T and np.all(Rr[k] <= Rmax[k] + T), 'reserve-limits', 'reserve limits violated by %.3g' % max(-Rr[k].min(), (Rr - Rmax)[k].max()))
    v = (r['gen'][:, PG] + Rr - g[:, PMAX])[k].max()
    mon.check(v <= T, 'capacity', 'output plus reserve exceeds capacity by %.3g' % v)
    got = zones @ (Rr * lg)
    mon.check(np.all(got >= req - T * nrz), 'requirement', 'zone reserves %s, required %s' % (got, req))
    lz = np.asarray(r['lin']['mu']['l']['Rreq']) / S
    mon.check(lz.min() >= 0 and min(x.min() for x in (ml, mu, mp)) >= 0, 'mu-sign', 'negative reserve price')
    L = 1 + max(abs(cost[k]).max(), lz.max())
    for m_, s_, nm in ((lz, got - req, 'zone'), (ml[k], Rr[k], 'Rmin'), (mp[k], (g[:, PMAX] - r['gen'][:, PG] - Rr)[k], 'Pmax'),
                       (mu[k], np.where(np.isfinite(Rmax), Rmax - Rr, 1e3)[k], 'Rmax')):
        e = (m_ * s_.clip(0)).max()
        mon.check(e <= L * S * 2e-2, 'complementary', 'price times slack %.3g (%s)' % (e, nm))
    mon.count('binding zones', int((lz > 1e-3).sum()))
    mon.count('capacity shared', int((mp > 1e-3).sum()))
    want = zones.T @ lz
    mon.close(prc[k], want[k], 1e-6 * L, 'price', 'reserve price of each unit against the zone prices')
    mon.close((cost - ml + mu + mp)[k], want[k], 2e-3 * L, 'reserve-optimal', 'reserve cost net of limit prices against the zone prices')
    rc = float(cost[k] @ Rr[k])
    mon.close(q['totalcost'], rc, 1e-6 * (1 + abs(cost[k]) @ abs(Rr[k])), 'totalcost', 'reserve cost')
    if io_:
        mon.count('printed and saved')
        txt = open(io_[0]).read()
        m_ = re.findall(r'Total:\s*([-\d.]+)\s+Total Cost: \$([-\d.]+)', txt)
        if mon.check(len(m_) == 1, 'printed', 'reserve totals are printed %d times' % len(m_)):
            mon.close([float(x) for x in m_[0]], [Rr.sum(), rc], .006 + 1e-6 * abs(rc), 'printed', 'printed reserve and cost totals')
        i = txt.find('(MW)     ($/MW) \n----')
        rows = re.findall(r'^ *(\d+) +([-\d.]+) +([-\d.]+)$', txt[i:txt.find('Reserve Limits', i)], re.M)
        mon.close(np.array(rows, float).reshape(-1, 3), np.c_[np.arange(nrz), got, lz], .0055 + T, 'printed', 'printed zone table')
        # the two tables of units: a dash stands for nothing to report (at most 1e-6), numbers are what the result holds
        val = lambda s: 0. if s == '-' else float(s)
        i = txt.find('Included in Zones')
        rows = re.findall(r'^ *(\d+) +(\d+) +(-?\d+) +(-|[-\d.]+) +([-\d.]+) *([\d, ]*)$', txt[i:txt.find('Total:', i)], re.M)
        k = np.flatnonzero(zones.any(axis=0))
        if mon.check([int(x[0]) for x in rows] == list(k), 'printed', 'units %s in the reserve table, %s in a zone' % ([x[0] for x in rows], k)):
            for x, g_ in zip(rows, k):
                z = [int(t) for t in x[5].replace(',', ' ').split()]
                mon.check(int(x[1]) == src['gen'][g_, GEN_BUS] and z == list(np.flatnonzero(zones[:, g_])), 'printed', 'unit row %s' % (x,))
                mon.close([val(x[3]), float(x[4])], [Rr[g_], prc[g_]], .0051, 'printed', 'reserve and price printed for unit %d' % g_)
                mon.check(x[3] != '-' or abs(Rr[g_]) <= 1e-6, 'printed', 'no reserve printed for unit %d' % g_)
        i = txt.find('Reserve Limits')
        rows = [x.split() for x in re.findall(r'^ *\d+ +\d+ +-?\d+ .*$', txt[i:txt.find('Total:', i)], re.M)]
        if mon.check([x[0] for x in rows] == ['%d' % g_ for g_ in k] and all(len(x) == 9 for x in rows), 'printed', 'rows of the reserve limit table'):
            for x, g_ in zip(rows, k):
                want_ = [ml[g_], q['Rmin'][g_], Rr[g_], q['Rmax'][g_], mu[g_], mp[g_]]
                mon.check(all(s != '-' or abs(w) <= 1e-6 for s, w in zip(x[3:], want_)), 'printed', 'dash for a value in %s' % (x,))
                fin = np.isfinite(want_)
                mon.close(np.array([val(s) for s in x[3:]])[fin], np.array(want_)[fin], .0051, 'printed', 'limit row of unit %d' % g_)
        back = api.loadcase(io_[1])
        for kk in list(res) + ['R', 'Rmin', 'Rmax', 'prc', 'totalcost']:
            same(mon, back['reserves'][kk], q[kk], 'saved', 'saved reserves[%s]' % kk)
        for kk in q['mu']:
            same(mon, back['reserves']['mu'][kk], q['mu'][kk], 'saved', 'saved reserves.mu[%s]' % kk)
    gen = dict(src, gen=r['gen'], gencost=src['gencost'] if not dc else src['gencost'][:ng])
    mon.close(r['f'], R.total_cost(gen) + rc, 1e-5 * (R.cost_size(gen) + abs(rc)) + (2e-3 if 'pwl' in spec['feat'] else 0), 'objective', 'objective against generation plus reserve cost')
    ex = {'Pg': mp * S}
    if dc:
        dc_check(mon, src, r, extra=ex, relax=2)
    else:
        O.ac_feasible(mon, src, r)
        O.ac_kkt(mon, src, r, extra=ex, relax=2)
    if spec['via'] != 'runopf_w_res':
        off = toggle_reserves(case, 'off')
        mon.check(not any(len(v) for v in off['userfcn'].values()), 'toggle-off', 'callbacks left after switching off')


# ------------------------------------------------------------------ P31
def plan31(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 80, 1200), XB, pool=[f for f in RFEATS if f != 'tight'] + ['offbranch'], p=.25):
        s['dc'] = bool(rng.random() < .5)
        s['nif'] = int(rng.integers(1, 5))
        s['io'] = bool(rng.random() < .3)
        s['via'] = 'run' if s['io'] else str(rng.choice(['run', 'opf']))
        s['imp'] = bool(rng.random() < .08)
        s['shift'] = bool(rng.random() < .45)
        out.append(s)
    return out


def dc_flow_rows(src):
    """matrix and offset (MW per rad, MW) giving each branch's DC-model flow over all bus rows"""
    pos, on = C.bus_pos(src), C.live_branch(src)
    F, f0 = np.zeros((len(src['branch']), len(src['bus']))), np.zeros(len(src['branch']))
    for k, b in enumerate(src['branch']):
        if on[k]:
            bb, p = R.dc_b(b)
            F[k, pos[int(b[F_BUS])]] += bb
            F[k, pos[int(b[T_BUS])]] -= bb
            f0[k] = p
    return F * src['baseMVA'], f0 * src['baseMVA']


@prop('P31', 'AC and DC OPF with random interfaces (groups of branches in either direction, limits in any order, branches out of service), '
      'printed and saved; distinct by (base, features, AC/DC, number of interfaces)', plan31,
      floors={'solved': 40, 'binding': 20, 'out-of-service member': 2, 'printed and saved': 8, 'impossible': 2})
def p31(spec, mon):
    from pypower import api
    from pypower.toggle_iflims import toggle_iflims
    src = build(spec)
    rng = rng_for('p31', spec['seed'])
    dc = spec['dc']
    if dc:
        dcify(src)
    S, nb, nl = src['baseMVA'], len(src['bus']), len(src['branch'])
    if spec['shift']:
        for k in rng.permutation(nl)[:int(rng.integers(1, nl // 2 + 2))]:
            src['branch'][k, SHIFT] += np.round(rng.choice([-1, 1]) * rng.uniform(.5, 4), 2)
    o = opts(PF_DC=dc, PDIPM_MAX_IT=80, OUT_ALL=int(spec['io']))
    r0 = api.opf(copy(src), o)
    if not r0['success']:
        mon.count('base unsolved')
        return
    F, f0 = dc_flow_rows(src)
    on = C.live_branch(src)
    flow0 = F @ (r0['bus'][:, VA] * np.pi / 180) + f0
    if not on.any():
        return
    ids = rng.permutation(np.arange(1, 40))[:spec['nif']].astype(float)
    rows, lims, D = [], [], np.zeros((spec['nif'], nl))
    for i, num in enumerate(ids):
        m = rng.permutation(nl)[:int(rng.integers(1, min(5, nl) + 1))]
        if not on[m].any():
            m = np.r_[m, rng.choice(np.flatnonzero(on))]
        if rng.random() < .15 and 0 not in m:
            m[0] = 0
            if not on[m].any():
                m = np.r_[m, rng.choice(np.flatnonzero(on))]
        m = np.unique(m)
        for k in m:
            d = rng.choice([-1., 1.])
            rows.append([num, d * k])
            D[i, k] = d * on[k]
            if on[k] and src['branch'][k, SHIFT]:
                mon.count('phase shifter in the direction' if d > 0 else 'phase shifter against the direction')
        y = D[i] @ flow0
        w = 1 + .04 * rng.random() * abs(D[i]) @ abs(flow0)
        kind = rng.choice(['upper', 'lower', 'slack', 'none'], p=[.35, .35, .2, .1])
        lims.append([num] + {'upper': [-abs(y) - 9 * w - 5, y - w], 'lower': [y + w, abs(y) + 9 * w + 5], 'slack': [y - 5 * w - 2, y + 5 * w + 2],
                             'none': [-9999, 9999]}[str(kind)])
    if spec['imp']:
        tot = src['bus'][:, PD].clip(0).sum() * 50 + 1e4
        lims[0][1:] = [tot, 2 * tot]
    rows = np.array(rows)
    rows = rows[rng.permutation(len(rows))]
    q = rng.permutation(len(lims))
    lims, D = np.array(lims, float)[q], D[q]
    case = copy(src)
    case['if'] = {'map': rows.copy(), 'lims': lims.copy()}
    c2 = toggle_iflims(case, 'on')
    io_ = io_files(spec)
    r = (api.rundcopf if dc else api.runopf)(c2, o, *io_) if spec['via'] == 'run' else api.opf(c2, o)
    for k, v in (('map', rows), ('lims', lims)):
        same(mon, case['if'][k], v, 'caller', 'if[%s] of the caller' % k)
        mon.check(np.array_equal(np.signbit(case['if'][k]), np.signbit(v)), 'caller', 'if[%s] of the caller (signs)' % k)
    mon.check(sorted(case['if']) == ['lims', 'map'], 'caller', 'if of the caller: %s' % sorted(case['if']))
    mon.count('runs')
    if spec['imp']:
        mon.count('impossible')
        mon.check(not r['success'], 'impossible', 'interface flow of %g MW reported as met' % tot)
        return
    if not r['success']:
        mon.count('unsolved')
        return
    mon.count('solved')
    count_feats(mon, spec)
    mon.sig(spec['base'], feats_sig(spec), dc, spec['nif'])
    if any(not on[int(abs(k))] for _, k in rows):
        mon.count('out-of-service member')
    if not O.inputs_kept(mon, src, r):
        return
    same(mon, r['if']['map'], rows, 'inputs-if', 'map in the result')
    same(mon, r['if']['lims'], lims, 'inputs-if', 'limits in the result')
    flow = F @ (r['bus'][:, VA] * np.pi / 180) + f0
    y, size = D @ flow, 1 + abs(D) @ abs(flow)
    P = np.asarray(r['if']['P'])
    mon.close(P / size, D @ r['branch'][:, PF] / size, 1e-9, 'flow', 'reported interface flow against branch flows')
    if dc:
        mon.close(P / size, y / size, 1e-6, 'flow-dc', 'reported interface flow against the angles')
    T = (1e-5 if dc else 2e-4) * (size + .01 * S + 2e-3 * scale(src))
    mon.close(np.maximum(lims[:, 1] - y, y - lims[:, 2]).clip(0) / T, 0 * y, 1.0, 'limits', 'DC-model interface flow beyond its limits (scaled)')
    ml, mu = np.asarray(r['if']['mu']['l']), np.asarray(r['if']['mu']['u'])
    if not mon.check(ml.shape == mu.shape == (spec['nif'],), 'shape', 'multipliers %s %s' % (ml.shape, mu.shape)):
        return
    price = 1 + abs(r['bus'][:, LAM_P]).max()
    mx = 1 + max(ml.max(), mu.max()) / S / price
    mon.check(ml.min() >= 0 and mu.min() >= 0, 'mu-sign', 'negative interface price')
    for m_, s_, nm in ((ml, y - lims[:, 1], 'lower'), (mu, lims[:, 2] - y, 'upper')):
        e = (m_ / S * s_.clip(0)).max()
        mon.check(e <= 2e-2 * price * S * mx, 'complementary', '%s price times slack %.3g' % (nm, e))
    mon.count('binding', int((ml + mu > 1e-3 * S).sum()))
    ex = {'Va': (D @ F).T @ (mu - ml) / S * live_bus(src)}
    if io_:
        mon.count('printed and saved')
        txt = open(io_[0]).read()
        i = txt.find('Interface Flow Limits')
        t = re.findall(r'^ *(\d+) +([-\d.]+) +([-\d.]+) +([-\d.]+) +([-\d.]+) +([-\d.]+) *$', txt[i:], re.M)
        if mon.check(len(t) == spec['nif'], 'printed', '%d interface rows printed' % len(t)):
            t = np.array([[0 if x == '-' else float(x) for x in row] for row in t])
            mon.close(t[:, [0, 2, 3, 4]], np.c_[lims[:, 0], lims[:, 1], P, lims[:, 2]], .0051, 'printed', 'printed interface table')
            mon.close(t[:, [1, 5]], np.c_[ml, mu], 6e-4, 'printed', 'printed interface prices')
        back = api.loadcase(io_[1])
        for kk in ('map', 'lims', 'P'):
            same(mon, back['if'][kk], r['if'][kk], 'saved', 'saved if[%s]' % kk)
            mon.check(np.array_equal(np.signbit(back['if'][kk]), np.signbit(r['if'][kk])), 'saved', 'saved if[%s] (signs)' % kk)
        for kk in 'lu':
            same(mon, back['if']['mu'][kk], r['if']['mu'][kk], 'saved', 'saved if.mu[%s]' % kk)
    gen = dict(src, gen=r['gen'], gencost=src['gencost'] if not dc else src['gencost'][:len(src['gen'])])
    mon.close(r['f'], R.total_cost(gen), 1e-5 * R.cost_size(gen) + (2e-3 if 'pwl' in spec['feat'] else 0), 'objective', 'objective against generation cost')
    if dc:
        dc_check(mon, src, r, extra=ex, relax=mx)
    else:
        O.ac_feasible(mon, src, r)
        # as for branch limits: multipliers below .1 (per unit) of limits that are all but reached are reported as zero
        near = (np.minimum(y - lims[:, 1], lims[:, 2] - y) < 2e-3 * (size + S)) & (ml + mu == 0)
        O.ac_kkt(mon, src, r, extra=ex, relax=mx, slop=.15 * abs(D[near] @ F / S).sum(0))
    off = toggle_iflims(c2, 'off')
    mon.check(not any(len(v) for v in off['userfcn'].values()), 'toggle-off', 'callbacks left after switching off')


# ------------------------------------------------------------------ P32
DF, DT, DON, DPF, DPT, DQF, DQT, DVF, DVT, DPMIN, DPMAX, DQNF, DQXF, DQNT, DQXT, DL0, DL1 = range(17)


def plan32(tier, rng):
    out = []
    feats = [f for f in RFEATS if f not in ('tight',)] + ['qcost', 'shunts', 'intgen']
    for s in mkspecs(rng, n_of(tier, 110, 1600), XB, pool=feats, p=.2):
        s['study'] = str(rng.choice(['pf', 'pf', 'dcpf', 'opf', 'opf', 'dcopf', 'dcopf']))
        s['ndc'] = int(rng.integers(1, 5))
        s['cost'] = str(rng.choice(['no', 'no', 'poly', 'pwl', 'wide']))
        s['io'] = bool(rng.random() < .4)
        s['off'] = float(rng.choice([0, 0, .4, .4, 1]))
        if rng.random() < .15 and 'isolated' not in s['feat']:
            s['feat'] = s['feat'] + ['isolated']
        s['intdc'] = bool(rng.random() < .12)
        s['out'] = dict(OUT_ALL=1) if rng.random() < .4 else dict(OUT_ALL=-1, OUT_BRANCH=int(rng.random() < .7),
                        OUT_ALL_LIM=int(rng.choice([-1, -1, 0, 1, 2])), OUT_LINE_LIM=int(rng.choice([0, 1, 1, 2])))
        s['via'] = 'run' if s['io'] or s['study'] in ('pf', 'dcpf') else str(rng.choice(['run', 'opf']))
        s['alg'] = int(rng.choice([1, 1, 2, 3, 4])) if s['study'] == 'pf' else 0
        out.append(s)
    return out


def rand_dclines(spec, src, rng, r0):
    """random DC lines between distinct live buses; also settles one voltage set-point per bus in src"""
    lb = np.flatnonzero(live_bus(src))
    n = spec['ndc']
    pos = C.bus_pos(src)
    size = max(5., np.median(abs(src['bus'][lb, PD])) * rng.uniform(.2, 1))
    D = np.zeros((n, 17))
    vset = {}
    for k in range(n):
        i, j = rng.choice(lb, 2, replace=False)
        D[k, DF], D[k, DT] = src['bus'][[i, j], BUS_I]
        D[k, DON] = 1
        D[k, DPF] = np.round(rng.uniform(-1, 1) * size, 2)
        D[k, DPT] = np.round(D[k, DPF] * rng.uniform(.5, 1.2), 2)
        D[k, [DQF, DQT]] = np.round(rng.uniform(-.3, .3, 2) * size, 2)
        kind = rng.choice(['pos', 'both', 'neg', 'zero', 'fixed'], p=[.3, .35, .2, .1, .05])
        a, b = sorted(np.round(rng.uniform(.1, 2, 2) * size, 2))
        D[k, [DPMIN, DPMAX]] = {'pos': (a * .3, b), 'both': (-a, b), 'neg': (-b, -a * .3), 'zero': (0, b) if rng.random() < .5 else (-b, 0), 'fixed': (a, a)}[str(kind)]
        D[k, [DQNF, DQNT]] = -np.round(rng.uniform(.1, 1, 2) * size, 1)
        D[k, [DQXF, DQXT]] = np.round(rng.uniform(.1, 1, 2) * size, 1)
        D[k, DL0] = round(rng.choice([0, rng.uniform(0, .03)]) * size, 3)
        D[k, DL1] = round(rng.choice([0, rng.uniform(0, .08)]), 4)
        for c, x in ((DVF, i), (DVT, j)):
            if x not in vset:
                u = [g for g in np.flatnonzero(live_gen(src)) if pos[int(src['gen'][g, GEN_BUS])] == x]
                vset[x] = src['gen'][u[0], VG] if u else np.round(np.clip(r0['bus'][x, VM] + rng.uniform(-.01, .01), src['bus'][x, VMIN], src['bus'][x, VMAX]), 3)
                if spec.get('intdc'):
                    vset[x] = 1.0
                for g in u:
                    src['gen'][g, VG] = vset[x]
            D[k, c] = vset[x]
    D[rng.random(n) < spec['off'], DON] = 0
    dead = src['bus'][~live_bus(src), BUS_I]
    if len(dead):
        for k in np.flatnonzero(rng.random(n) < .4):
            D[k, rng.choice([DF, DT])] = rng.choice(dead)
    if spec.get('intdc'):
        D[:, DL1] = 0
        D = np.round(D)
    return D


def rand_dccost(spec, rng, D, price, ncol):
    if spec['cost'] == 'no':
        return None
    n = len(D)
    w = {'poly': int(rng.choice([6, 7])), 'pwl': 12, 'wide': max(ncol, 12) + 2}[spec['cost']]
    M = np.zeros((n, w))
    for k in range(n):
        if w >= 10 and (spec['cost'] == 'pwl' or rng.random() < .5):
            m = int(rng.integers(2, 5))
            lo, hi = min(D[k, DPMIN], 0) * 1.5 - 5, max(D[k, DPMAX], 0) * 1.5 + 5
            x = np.round(np.linspace(lo, hi, m), 2)
            s = np.sort(rng.uniform(-.2, .4, m - 1)) * price
            y = np.round(np.r_[0, np.cumsum(s * np.diff(x))] + rng.uniform(0, 50), 3)
            M[k, :4] = [1, 3, 4, m]
            M[k, COST:COST + 2 * m:2], M[k, COST + 1:COST + 2 * m:2] = x, y
        else:
            m = int(rng.integers(2, min(3, w - 4) + 1))
            c = np.round(rng.uniform(-.2, .4, m) * price, 3)
            if m == 3:
                c[0] = round(abs(c[0]) * .02, 5)
            M[k, :4] = [2, 5, 6, m]
            M[k, COST:COST + m] = c
    return M


def dc_equivalent(src, D, cost):
    """the explicit model of in-service lines: a pair of units per line"""
    live = src['bus'][live_bus(src), BUS_I]
    on = np.flatnonzero((D[:, DON] > 0) & np.isin(D[:, DF], live) & np.isin(D[:, DT], live))
    d = D[on]
    w = src['gen'].shape[1]
    f = np.zeros((len(on), w))
    f[:, GEN_STATUS], f[:, MBASE] = 1, 100
    t = f.copy()
    f[:, GEN_BUS], t[:, GEN_BUS] = d[:, DF], d[:, DT]
    f[:, PG], t[:, PG] = -d[:, DPF], d[:, DPF] - (d[:, DL0] + d[:, DL1] * d[:, DPF])
    f[:, QG], t[:, QG], f[:, VG], t[:, VG] = d[:, DQF], d[:, DQT], d[:, DVF], d[:, DVT]
    big = 1e4
    f[:, PMAX] = np.where(d[:, DPMIN] >= 0, -d[:, DPMIN], big)
    f[:, PMIN] = np.where(d[:, DPMAX] >= 0, -d[:, DPMAX], -big)
    t[:, PMIN] = np.where(d[:, DPMIN] < 0, d[:, DPMIN], -big)
    t[:, PMAX] = np.where(d[:, DPMAX] < 0, d[:, DPMAX], big)
    f[(f[:, PMIN] < 0) & (f[:, PMAX] == 0), PMAX] = -1e-6
    f[:, QMIN], f[:, QMAX], t[:, QMIN], t[:, QMAX] = d[:, DQNF], d[:, DQXF], d[:, DQNT], d[:, DQXT]
    E = copy(src)
    E['gen'] = np.vstack([src['gen'], f, t])
    pos = C.bus_pos(src)
    for b in np.r_[d[:, DF], d[:, DT]]:
        i = pos[int(b)]
        if E['bus'][i, BUS_TYPE] != REF:
            E['bus'][i, BUS_TYPE] = PV
    if 'gencost' in src:
        gc, ng = src['gencost'], len(src['gen'])
        w = max(gc.shape[1], 0 if cost is None else cost.shape[1])
        pad = lambda M: np.hstack([M, np.zeros((len(M), w - M.shape[1]))])
        Z = np.zeros((len(on), w))
        Z[:, [0, 3]] = 2
        F = Z.copy()
        if cost is not None:
            for q, k in enumerate(on):
                F[q] = 0
                m = int(cost[k, NCOST])
                F[q, :4] = cost[k, :4]
                if cost[k, MODEL] == 2:
                    p = np.arange(m - 1, -1, -1)
                    F[q, COST:COST + m] = cost[k, COST:COST + m] * (-1.) ** p
                else:
                    F[q, COST:COST + 2 * m:2] = -cost[k, COST:COST + 2 * m:2][::-1]
                    F[q, COST + 1:COST + 2 * m:2] = cost[k, COST + 1:COST + 2 * m:2][::-1]
        parts = [pad(gc[:ng]), F, Z]
        if len(gc) == 2 * ng:
            parts += [pad(gc[ng:]), Z, Z]
        E['gencost'] = np.vstack(parts)
    return E, on


def dcline_limits_printed(mon, txt, d, lim):
    """the table of DC line limits: none, all rows, or only the binding ones"""
    d = np.hstack([d, np.zeros((len(d), 23 - d.shape[1]))])
    on = d[:, DON] > 0
    binding = on & ((d[:, DPF] > d[:, DPMAX] - 5e-6) | (d[:, 17] > 1e-4) | (d[:, 18] > 1e-4))
    maybe = on & ((d[:, DPF] > d[:, DPMAX] - 6e-6) | (d[:, 17:19] > .99e-4).any(axis=1))
    sure = on & ((d[:, DPF] > d[:, DPMAX] - 4e-6) | (d[:, 17:19] > 1.01e-4).any(axis=1))
    i = txt.find('DC Line Constraints')
    if lim == 0 or (lim == 1 and not maybe.any()):
        mon.check(i < 0, 'printed', 'limits of DC lines printed, none %s' % ('wanted' if lim == 0 else 'is binding'))
        return
    if lim == 1 and not sure.any():
        return
    if not mon.check(i >= 0, 'printed', 'no DC line limits printed (mode %d, binding lines %s)' % (lim, np.flatnonzero(binding))):
        return
    mon.count('limit tables')
    rows = [x.split() for x in re.findall(r'^ *\d+ +\d+ +\d+ .*$', txt[i:].split('\n\n')[0], re.M)]
    shown = [int(x[0]) for x in rows]
    if not mon.check(shown == sorted(set(shown)) and all(len(x) == 8 for x in rows), 'printed', 'limit rows %s' % shown):
        return
    if lim == 2:
        mon.check(shown == list(range(len(d))), 'printed', 'limit rows %s for %d lines' % (shown, len(d)))
    else:
        mon.check(not set(np.flatnonzero(sure)) - set(shown), 'printed', 'binding lines %s, printed %s' % (np.flatnonzero(sure), shown))
        mon.check(not [k for k in shown if on[k] and not maybe[k]], 'printed', 'lines %s printed, binding lines %s' % (shown, np.flatnonzero(binding)))
    for x in rows:
        k = int(x[0])
        mon.check([float(q) for q in x[1:3]] == [d[k, DF], d[k, DT]], 'printed', 'line ends in the limit row %s' % x)
        if not on[k]:
            mon.check(set(x[3:]) == {'-'}, 'printed', 'numbers printed for a line out of service')
            continue
        for s, w in ((x[3], d[k, 17]), (x[7], d[k, 18])):
            mon.check(abs(w) <= 1.01e-4 if s == '-' else abs(float(s) - w) <= .00051, 'printed', 'limit price %s printed for %.6g' % (s, w))
        mon.close([float(q) for q in x[4:7]], [d[k, DPMIN], d[k, DPF], d[k, DPMAX]], .0051, 'printed', 'limit row of DC line')


@prop('P32', 'AC and DC power flow and OPF with random DC lines (either direction, losses, in and out of service, parallel, priced or not), printed '
      'and saved; distinct by (base, features, study, lines in service, price form)', plan32,
      floors={'solved': 60, 'study pf': 15, 'study dcpf': 4, 'study opf': 15, 'study dcopf': 15, 'lines in service': 100, 'binding line limits': 12,
              'priced': 8, 'printed and saved': 15, 'all lines out': 5, 'lines at isolated buses': 6})
def p32(spec, mon):
    from pypower import api
    from pypower.toggle_dcline import toggle_dcline
    from vlib.cases import floats
    src = build(spec)
    rng = rng_for('p32', spec['seed'])
    study = spec['study']
    dc, opf = study in ('dcpf', 'dcopf'), 'opf' in study
    if study == 'dcopf':
        dcify(src)
    S, ng = src['baseMVA'], len(src['gen'])
    oo = spec.get('out', dict(OUT_ALL=1)) if spec['io'] else dict(OUT_ALL=0)
    o = opts(PF_DC=dc, PDIPM_MAX_IT=80, PF_ALG=max(1, spec['alg']), PF_MAX_IT_GS=3000, **oo)
    lite = opts(PF_DC=dc, PDIPM_MAX_IT=80)
    r0 = api.opf(copy(src), lite) if opf else (api.rundcpf if dc else api.runpf)(copy(src), lite)[0]
    if not r0['success']:
        mon.count('base unsolved')
        return
    ref = R.bus_kinds(src)[0]
    if not all(src['bus'][i, BUS_TYPE] == REF for i in ref) or not len(ref):
        return
    D = rand_dclines(spec, src, rng, r0)
    price = 1 + abs(r0['bus'][:, LAM_P]).max() if opf else 1.
    cost = rand_dccost(spec, rng, D, price, src['gencost'].shape[1]) if opf else None
    case = copy(src)
    if 'intgen' in spec['feat']:
        case['gen'] = case['gen'].astype(int) if np.array_equal(case['gen'], case['gen'].astype(int)) else case['gen']
    if not opf and rng.random() < .25:
        case.pop('gencost', None)              # a power flow needs no costs
        mon.count('without costs')
    case['dcline'] = D.astype(int) if spec.get('intdc') else D.copy()
    if cost is not None:
        case['dclinecost'] = cost.copy()
    c2 = toggle_dcline(case, 'on')
    io_ = io_files(spec)
    if study in ('pf', 'dcpf'):
        r, ok = (api.rundcpf if dc else api.runpf)(c2, o, *io_)
    else:
        r = (api.rundcopf if dc else api.runopf)(c2, o, *io_) if spec['via'] == 'run' else api.opf(c2, o)
        ok = r['success']
    mon.count('runs')
    same(mon, case['dcline'], D, 'caller', 'dcline of the caller')
    for t in ('bus', 'gen', 'branch', 'gencost'):
        if t in src and t in case:
            same(mon, case[t], src[t], 'caller', t + ' of the caller')
    if cost is not None:
        same(mon, case['dclinecost'], cost, 'caller', 'dclinecost of the caller')
    if not ok:
        mon.count('unsolved')
        return
    mon.count('solved')
    mon.count('study ' + study)
    count_feats(mon, spec)
    E, on = dc_equivalent(src, D, cost)
    n = len(on)
    mon.count('lines in service', n)
    mon.count('lines at isolated buses', int((D[:, DON] > 0).sum()) - n)
    if not n:
        mon.count('all lines out')
    mon.sig(spec['base'], feats_sig(spec), study, n, spec['cost'])
    d = r['dcline']
    if not mon.check(d.shape[0] == len(D) and d.shape[1] in ((23,) if opf else (17, 23)) and len(r['gen']) == ng, 'shape', 'dcline %s, %d units' % (d.shape, len(r['gen']))):
        return
    same(mon, d[:, [DF, DT, DON] + list(range(DPMIN, DL1 + 1))], D[:, [DF, DT, DON] + list(range(DPMIN, DL1 + 1))], 'inputs-dcline', 'input columns of dcline')
    if 'gencost' in case:
        same(mon, r['gencost'], src['gencost'][:len(r['gencost'])], 'inputs-gencost', 'gencost in the result')
        mon.check(len(r['gencost']) in (ng, len(src['gencost'])), 'inputs-gencost', '%d cost rows' % len(r['gencost']))
    if cost is not None:
        same(mon, r['dclinecost'], cost, 'inputs-dcline', 'dclinecost in the result')
    off = np.setdiff1d(np.arange(len(D)), on)
    mon.check(np.array_equal(d[off][:, DPF:DVT + 1], D[off][:, DPF:DVT + 1]) or not d[off][:, DPF:DQT + 1].any(), 'out-of-service', 'lines out of service changed')
    mon.check(not d[off, 17:].any(), 'out-of-service', 'line out of service with prices')
    # explicit model with the reported flows
    rb = r['bus'].copy()
    pos = C.bus_pos(src)
    for b in np.r_[D[on, DF], D[on, DT]]:
        i = pos[int(b)]
        if rb[i, BUS_TYPE] == src['bus'][i, BUS_TYPE]:
            rb[i, BUS_TYPE] = E['bus'][i, BUS_TYPE]
    x = d[on]
    dum = E['gen'][ng:, :].copy()
    dum = np.hstack([dum, np.zeros((2 * n, max(0, r['gen'].shape[1] - dum.shape[1])))])
    dum[:n, [PG, QG, VG]], dum[n:, [PG, QG, VG]] = np.c_[-x[:, DPF], x[:, DQF], x[:, DVF]], np.c_[x[:, DPT], x[:, DQT], x[:, DVT]]
    if d.shape[1] == 23 and opf:
        a, b = D[on, DPMIN] >= 0, D[on, DPMAX] >= 0
        dum[:n, MU_PMAX], dum[n:, MU_PMIN] = x[:, 17] * a, x[:, 17] * ~a
        dum[:n, MU_PMIN], dum[n:, MU_PMAX] = x[:, 18] * b, x[:, 18] * ~b
        dum[:n, MU_QMIN], dum[:n, MU_QMAX], dum[n:, MU_QMIN], dum[n:, MU_QMAX] = x[:, 19:23].T
    re_ = dict(r, bus=rb, gen=np.vstack([r['gen'], dum]))
    vb = np.array([[pos[int(q)] for q in x[:, c]] for c in (DF, DT)], int).reshape(2, -1)
    loss = x[:, DL0] + x[:, DL1] * x[:, DPF]
    size = scale(src) + abs(D[:, DPF:DQT + 1]).sum()
    if not opf:
        mon.close(x[:, DPF], D[on, DPF], 1e-9 * size, 'flow', 'scheduled line flow')
        mon.close(x[:, DPT], D[on, DPF] - loss, 1e-9 * size, 'loss', 'delivered power against flow less losses')
        mon.check(np.array_equal(rb[:, BUS_TYPE], E['bus'][:, BUS_TYPE]), 'bus-types', 'bus types')
        F = dict(E, bus=np.array(r['bus'][:, :13], float), gen=np.array(re_['gen'][:, :21], float), branch=np.array(r['branch'], float))
        F['bus'][:, BUS_TYPE] = E['bus'][:, BUS_TYPE]
        lg = live_gen(src)
        refb = [pos[int(b)] for b in src['gen'][:, GEN_BUS]]
        slack = np.array([lg[k] and refb[k] in ref for k in range(ng)], bool)
        mon.close(r['gen'][lg & ~slack, PG], src['gen'][lg & ~slack, PG], 1e-9 * size, 'pg', 'scheduled outputs of other units')
        if dc:
            Va, P, _ = R.dc_solve(E)
            l = live_bus(src)
            mon.close(r['bus'][l, VA], Va[l], 1e-6 * (1 + abs(Va).max()), 'dc-angles', 'angles against the explicit model')
            mon.close(r['branch'][:, PF], P, 1e-7 * size, 'dc-flows', 'flows against the explicit model')
            inj = R.gen_at_bus(F).real - src['bus'][:, PD] - src['bus'][:, GS]
            for k in np.flatnonzero(C.live_branch(src)):
                inj[pos[int(src['branch'][k, F_BUS])]] -= P[k]
                inj[pos[int(src['branch'][k, T_BUS])]] += P[k]
            mon.close(inj[l], 0 * inj[l], 1e-6 * size, 'dc-balance', 'nodal balance with the lines')
        else:
            m_ = R.mismatch(F)
            T = 1e-4 * S * (.1 if spec['alg'] == 1 else 5 if spec['alg'] < 4 else 500) + 1e-9 * size
            mon.close(abs(m_), 0 * abs(m_), T, 'balance', 'nodal balance with the lines')
            for c, i in ((DVF, vb[0]), (DVT, vb[1])):
                mon.close(r['bus'][i, VM], D[on, c], 1e-6, 'voltage', 'voltage at line terminals')
                same(mon, x[:, c], D[on, c], 'voltage', 'voltage set-point of lines')
    else:
        E2 = dict(E, bus=E['bus'])
        O.inputs_kept(mon, dict(src, bus=E['bus']), dict(r, bus=rb))
        T = 1e-6 * size if dc else S * 2e-3
        mon.close(x[:, DPF] - loss, x[:, DPT], T, 'loss', 'delivered power against flow less losses')
        mon.check(not n or x[:, 17:].min() >= 0, 'mu-sign', 'negative line price')
        if not dc:
            for c, i in ((DVF, vb[0]), (DVT, vb[1])):
                mon.close(x[:, c], r['bus'][i, VM], 1e-9, 'voltage', 'voltage at line terminals')
        gen = dict(E, gen=re_['gen'], gencost=E['gencost'] if not dc else E['gencost'][:ng + 2 * n])
        if cost is not None:
            mon.count('priced')
        mon.close(r['f'], R.total_cost(gen), 1e-5 * R.cost_size(gen) + (2e-3 if 'pwl' in spec['feat'] or spec['cost'] in ('pwl', 'wide') else 0),
                  'objective', 'objective against the cost of units and lines')
        lin = np.asarray(r['lin']['mu']['u']['dcline']) - np.asarray(r['lin']['mu']['l']['dcline']) if n else np.zeros(0)
        if not mon.check(lin.shape == (n,), 'shape', 'loss multipliers %s' % (lin.shape,)):
            return
        ex = {'Pg': np.r_[np.zeros(ng), lin * (1 - D[on, DL1]), lin]}
        mon.count('binding line limits', int((x[:, 17:19] > 1e-3).sum()))
        mx = 1 + abs(lin).max(initial=0) / S / price
        if dc:
            dc_check(mon, E2, re_, extra=ex, relax=mx)
        else:
            O.ac_feasible(mon, E2, re_)
            O.ac_kkt(mon, E2, re_, extra=ex, relax=mx)
    if io_:
        mon.count('printed and saved')
        txt = open(io_[0]).read()
        # constraint tables are for optimal power flows; with everything asked for a power flow may print them as well
        if opf or oo['OUT_ALL'] != 1 or 'DC Line Constraints' in txt:
            dcline_limits_printed(mon, txt, d, 2 if oo['OUT_ALL'] == 1 else 0 if not opf else oo['OUT_LINE_LIM'] if oo['OUT_ALL_LIM'] == -1 else oo['OUT_ALL_LIM'])
        i = txt.find('DC Line Data')
        flows = oo['OUT_ALL'] == 1 or oo['OUT_BRANCH']
        mon.check((i >= 0) == bool(flows), 'printed', 'DC line table printed: %s, asked for: %s' % (i >= 0, flows))
        t = re.findall(r'^ *(\d+) +(\d+) +(\d+) +' + r'(-?[-\d.]*) +' * 4 + r'(-?[-\d.]*) *$', txt[i:txt.find('Total:', i)], re.M)
        if flows and mon.check(len(t) == len(D), 'printed', '%d line rows printed' % len(t)):
            m_ = re.search(r'Total: *([-\d.]+)', txt[i:])
            mon.close(float(m_.group(1)), (d[d[:, DON] > 0, DPF] - d[d[:, DON] > 0, DPT]).sum(), .0051, 'printed', 'printed total loss')
            for k, row in enumerate(t):
                mon.check([float(q) for q in row[:3]] == [k, D[k, DF], D[k, DT]], 'printed', 'printed line ends %s' % (row,))
                if D[k, DON] > 0:
                    mon.close([float(q) for q in row[3:]], [d[k, DPF], d[k, DPT], d[k, DPF] - d[k, DPT], d[k, DQF], d[k, DQT]], .0051, 'printed', 'printed line flows')
                else:
                    mon.check(set(row[3:]) == {'-'}, 'printed', 'numbers printed for a line out of service')
        back = floats(api.loadcase(io_[1]))
        same(mon, back['dcline'], d, 'saved', 'saved dcline')
        if cost is not None:
            same(mon, back['dclinecost'], cost, 'saved', 'saved dclinecost')
        if not opf:
            mon.close(back['gen'][:, :10], r['gen'][:, :10], 1e-8 * size, 'saved', 'saved gen')
    if rng.random() < .5:
        # the result is itself a case
        c3 = {k: r[k] for k in ('version', 'baseMVA', 'bus', 'gen', 'branch', 'gencost', 'dcline', 'dclinecost') if k in r}
        c3 = toggle_dcline(c3, 'on')
        q = api.opf(c3, lite) if opf else (api.rundcpf if dc else api.runpf)(c3, lite)[0]
        mon.count('solved again')
        if mon.check(q['success'], 'again', 'the solved case is not solvable') and not opf:
            mon.close(q['dcline'][:, DPF:DPT + 1], d[:, DPF:DPT + 1], 1e-6 * size, 'again', 'flows of the solved case solved again')
            mon.close(q['bus'][:, [VM, VA]], r['bus'][:, [VM, VA]], 1e-3 if spec['alg'] <= 1 else .2, 'again', 'state of the solved case solved again')
    offc = toggle_dcline(c2, 'off')
    mon.check(not any(len(v) for v in offc['userfcn'].values()), 'toggle-off', 'callbacks left after switching off')
