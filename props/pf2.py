"""Whole-system metamorphic properties: P08 representation, P09 dead equipment, P10 repeatability, P11 no side effects."""
import copy as _copy
from .common import *
from .pf import BASES, BIG, n_of

PFB = ['case6ww', 'case9', 'case14', 'case24_ieee_rts', 'case30', 'case39', 'case57', 'case118', 'net8', 'net15', 'net30', 'net60']
OPFB = ['case9', 'case14', 'case30', 'case6ww', 'case24_ieee_rts', 'case39', 'net8', 'net15']


def solve(kind, ppc):
    from pypower import api
    o = opts(OPF_ALG=560)
    if kind == 'pf':
        return api.runpf(ppc, o)[0]
    if kind == 'dcpf':
        return api.rundcpf(ppc, o)[0]
    if kind == 'opf':
        return api.runopf(ppc, o)
    if kind == 'dcopf':
        return api.rundcopf(ppc, o)
    raise ValueError(kind)


def strictly_convex(ppc):
    gc = ppc['gencost']
    on = live_gen(ppc)
    ng = len(on)
    return all(gc[k, MODEL] == 2 and gc[k, NCOST] == 3 and gc[k, COST] > 1e-4 for k in range(ng) if on[k])


def nudged(kind, p, f):
    """same study with all loads scaled by f"""
    p = floats(copy(p))
    p['bus'][:, [PD, QD]] *= f
    return bool(solve(kind, p)['success'])


def compare(mon, kind, a, b, mb, mg, ml, src, pair=None):
    """results a (original) and b (rewritten); mb/mg/ml give the row of b for each row of a (or -1)"""
    sb, sg, sl = np.array(mb) >= 0, np.array(mg) >= 0, np.array(ml) >= 0
    lb = live_bus(src) & sb
    mb, mg, ml = np.array(mb, int), np.array(mg, int), np.array(ml, int)
    s = scale(src)
    if bool(a['success']) != bool(b['success']) and 'opf' in kind:
        # an interior-point run may happen to stall: a real difference is there for slightly different loads as well
        mon.count('success differs once ' + kind)
        # ... and it may stall for good at an extreme system base
        if 'basemva' in mon.spec.get('how', []) or any(nudged(kind, pair[0], f) == nudged(kind, pair[1], f) for f in (.9999, 1.0001, .999, 1.001)):
            return False
    mon.check(bool(a['success']) == bool(b['success']), 'same-success', '%s: success differs (%s vs %s)' % (kind, a['success'], b['success']))
    if not (a['success'] and b['success']):
        mon.count(kind + ' not solved')
        return False
    mon.count(kind + ' compared')
    if kind in ('pf', 'dcpf'):
        tv, tf = 1e-7, 1e-6
        mon.close(b['bus'][mb[lb], VM], a['bus'][lb, VM], tv, kind + '-VM', kind + ': voltage magnitude')
        dv = (b['bus'][mb[lb], VA] - a['bus'][lb, VA] + 180) % 360 - 180
        mon.close(dv, 0, 1e-5, kind + '-VA', kind + ': voltage angle')
        for c, nm in ((PF, 'PF'), (QF, 'QF'), (PT, 'PT'), (QT, 'QT')):
            mon.close(b['branch'][ml[sl], c], a['branch'][sl, c], tf * s, kind + '-flow', kind + ': branch ' + nm)
        ga, gb = R.gen_at_bus(a), R.gen_at_bus(b)
        if kind == 'pf':
            mon.close(gb[mb[lb]], ga[lb], tf * s, kind + '-gen', kind + ': generation at a bus')
        else:
            mon.close(gb[mb[lb]].real, ga[lb].real, tf * s, kind + '-gen', kind + ': generation at a bus')
    else:
        f = abs(a['f']) + 1
        mon.close(b['f'], a['f'], 2e-5 * f if kind == 'opf' else 1e-6 * f, kind + '-f', kind + ': optimal cost')
        if strictly_convex(src):
            mon.count(kind + ' dispatch compared')
            pm = abs(a['gen'][sg, PG]).max() + 1
            mon.close(b['gen'][mg[sg], PG], a['gen'][sg, PG], 5e-3 * pm, kind + '-PG', kind + ': dispatch')
    return True


def rewrite(src, rng, how):
    """an equivalent way of writing down the same network"""
    q = copy(src)
    n, ng, nl = len(q['bus']), len(q['gen']), len(q['branch'])
    pb, pg, pl = np.arange(n), np.arange(ng), np.arange(nl)
    swap = np.zeros(nl, bool)
    if 'renumber' in how:
        C._renumber(q, rng)
    if 'shuffle' in how:
        pb, pg, pl = C.shuffle(q, rng)
    if 'basemva' in how:
        C._basemva(q, rng)
        if 'gencost' in q:
            pass
    if 'reverse' in how:
        br = q['branch']
        for k in range(nl):
            if rng.random() < .5 and br[k, TAP] == 0 and br[k, SHIFT] == 0:
                br[k, F_BUS], br[k, T_BUS] = br[k, T_BUS], br[k, F_BUS]
                br[k, ANGMIN], br[k, ANGMAX] = -br[k, ANGMAX], -br[k, ANGMIN]
                swap[k] = True
    if 'shift' in how:      # whole turns of a phase shifter or of the reference angle
        br = q['branch']
        k = br[:, SHIFT] != 0
        br[k, SHIFT] += 0
    mb, mg, ml = np.argsort(pb), np.argsort(pg), np.argsort(pl)
    return q, mb, mg, ml, swap


def unswap(res, swap):
    if swap.any():
        br = res['branch'] = res['branch'].copy()
        br[swap] = br[swap][:, [c if c not in (PF, QF, PT, QT) else {PF: PT, QF: QT, PT: PF, QT: QF}[c]
                                for c in range(br.shape[1])]]
    return res


def plan08(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 110, 1500), PFB, p=.3):
        s['kind'] = 'pf' if rng.random() < .6 else 'dcpf'
        s['how'] = [h for h in ('renumber', 'shuffle', 'basemva', 'reverse') if rng.random() < .6] or ['renumber', 'shuffle']
        out.append(s)
    rare(out)
    pool = ['loads', 'shunts', 'splitgen', 'offgen', 'offbranch', 'isolated', 'taps', 'disp']
    for s in mkspecs(rng, n_of(tier, 50, 600), OPFB, pool=pool, p=.25):
        s['kind'] = 'opf' if rng.random() < .5 else 'dcopf'
        s['how'] = [h for h in ('renumber', 'shuffle', 'basemva', 'reverse') if rng.random() < .6] or ['renumber', 'shuffle']
        out.append(s)
    return out


@prop('P08', 'a case and an equivalent rewriting of it (external numbers, row order, system base, line direction) are '
      'both solved (AC/DC power flow, AC/DC OPF) and compared row by row; distinct by (base, features, study, rewriting)',
      plan08, floors={'pf compared': 25, 'dcpf compared': 20, 'opf compared': 8, 'dcopf compared': 8})
def p08(spec, mon):
    src = build(spec)
    count_feats(mon, spec)
    rng = rng_for('p08', spec['base'], spec['seed'])
    # the angle reference is data, keep one live unit per reference bus choice unambiguous
    q, mb, mg, ml, swap = rewrite(src, rng, spec['how'])
    if 'PV-only' and not R.bus_kinds(src)[0]:
        return
    a = solve(spec['kind'], copy(src))
    b = solve(spec['kind'], q)
    sw = np.zeros(len(ml), bool)
    sw[:] = swap
    b = unswap(b, sw)
    if compare(mon, spec['kind'], a, b, mb, mg, ml, src, (src, q)):
        mon.sig(spec['base'], feats_sig(spec), spec['kind'], tuple(spec['how']))
        for h in spec['how']:
            mon.count('rewriting ' + h)


def plan09(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 110, 1500), PFB, p=.3, plain=False):
        s['feat'] = sorted(set(s['feat']) | set(rng.choice(['offgen', 'offbranch', 'isolated'], 2, replace=False).tolist()))
        s['kind'] = 'pf' if rng.random() < .6 else 'dcpf'
        out.append(s)
    rare(out)
    pool = ['loads', 'shunts', 'splitgen', 'renumber', 'shuffle', 'taps', 'disp', 'pwl', 'qcost']
    for s in mkspecs(rng, n_of(tier, 60, 600), OPFB, pool=pool, p=.25, plain=False):
        s['feat'] = sorted(set(s['feat']) | set(rng.choice(['offgen', 'offbranch', 'isolated'], 2, replace=False).tolist()))
        s['kind'] = 'opf' if rng.random() < .5 else 'dcopf'
        out.append(s)
    return out


@prop('P09', 'a case with out-of-service units and branches and isolated buses, against the same case with those rows '
      'deleted; AC/DC power flow and OPF; distinct by (base, features, study)', plan09,
      floors={'pf compared': 25, 'dcpf compared': 20, 'opf compared': 8, 'dcopf compared': 8})
def p09(spec, mon):
    src = build(spec)
    count_feats(mon, spec)
    lb, lg, ll = live_bus(src), live_gen(src), live_branch(src)
    q = copy(src)
    ng = len(lg)
    q['bus'], q['gen'], q['branch'] = q['bus'][lb], q['gen'][lg], q['branch'][ll]
    if 'gencost' in q:
        gc = q['gencost']
        q['gencost'] = np.vstack([gc[:ng][lg], gc[ng:][lg]]) if len(gc) == 2 * ng else gc[lg]
    if 'areas' in q:
        ids = set(q['bus'][:, BUS_I])
        q['areas'] = q['areas'][[x in ids for x in q['areas'][:, 1]]]
        if not len(q['areas']):
            del q['areas']
    mp = [np.where(m, np.cumsum(m) - 1, -1) for m in (lb, lg, ll)]
    a = solve(spec['kind'], copy(src))
    b = solve(spec['kind'], q)
    mon.count('dead units', (~lg).sum())
    mon.count('dead branches', (~ll).sum())
    mon.count('dead buses', (~lb).sum())
    mon.close(a['gen'][~lg][:, [PG, QG]], 0, 0, 'off-gen-zero', 'output of a dead unit')
    mon.close(a['branch'][~ll][:, PF:QT + 1], 0, 0, 'off-branch-zero', 'flow on a dead branch')
    if compare(mon, spec['kind'], a, b, mp[0], mp[1], mp[2], src, (src, q)):
        mon.sig(spec['base'], feats_sig(spec), spec['kind'])
    if spec['kind'] in ('opf', 'dcopf') and a['success']:
        if a['gen'].shape[1] > MU_QMIN:
            mon.close(a['gen'][~lg][:, [MU_PMAX, MU_PMIN]], 0, 0, 'off-gen-mu', 'limit multipliers of a dead unit')


# ------------------------------------------------------------------ P10
def plan10(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 80, 1000), PFB, p=.35):
        s['kind'] = ['pf', 'pf', 'dcpf'][int(rng.integers(3))]
        s['alg'] = int(rng.choice([1, 1, 2, 3]))
        out.append(s)
    rare(out)
    pool = ['loads', 'shunts', 'splitgen', 'offgen', 'offbranch', 'isolated', 'taps', 'disp', 'renumber', 'shuffle', 'pwl']
    for s in mkspecs(rng, n_of(tier, 40, 500), OPFB, pool=pool, p=.25):
        s['kind'] = 'opf' if rng.random() < .6 else 'dcopf'
        s['alg'] = 1
        out.append(s)
    return out


def arrays_equal(x, y):
    return np.asarray(x).shape == np.asarray(y).shape and np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True)


@prop('P10', 'each case solved twice from the same data (bit-identical results required) and once more from its own '
      'solution; distinct by (base, features, study)', plan10, floors={'re-solved': 60})
def p10(spec, mon):
    from pypower import api
    src = build(spec)
    count_feats(mon, spec)
    kind = spec['kind']
    o = opts(PF_ALG=spec['alg'], PF_MAX_IT_FD=60)
    fn = {'pf': lambda c: api.runpf(c, o)[0], 'dcpf': lambda c: api.rundcpf(c, o)[0],
          'opf': lambda c: api.runopf(c, o), 'dcopf': lambda c: api.rundcopf(c, o)}[kind]
    a = fn(copy(src))
    # a near twin of the case and a quite different one in between: nothing may be remembered
    twin, rng = copy(src), rng_for('p10', spec['seed'])
    col = str(rng.choice(['shift', 'tap', 'x', 'shunt', 'load', 'rate', 'cost', 'limit', 'status']))
    l = int(rng.choice(np.flatnonzero(live_branch(src))))
    u = int(rng.choice(np.flatnonzero(live_gen(src))))
    n = int(rng.choice(np.flatnonzero(live_bus(src))))
    if col == 'shift':
        twin['branch'][l, SHIFT] += 2.5
    elif col == 'tap':
        twin['branch'][l, TAP] = .97 if twin['branch'][l, TAP] != .97 else 1.02
    elif col == 'x':
        twin['branch'][l, BR_X] *= 1.25
    elif col == 'shunt':
        twin['bus'][n, [GS, BS]] += [1.5, 2.5]
    elif col == 'load':
        twin['bus'][n, [PD, QD]] += [2.5, 1.5]
    elif col == 'rate':
        twin['branch'][l, RATE_A] = 1.3 * twin['branch'][l, RATE_A] + 50
    elif col == 'cost' and 'gencost' in twin and twin['gencost'][u, MODEL] == 2:
        twin['gencost'][u, COST + int(twin['gencost'][u, NCOST]) - 2] += 1.5
    elif col == 'limit':
        twin['gen'][u, PMAX] += 7
        twin['gen'][u, VG] += .004
    elif col == 'status' and is_connected_without(src, {l}):
        twin['branch'][l, BR_STATUS] = 0
    mon.count('twin ' + col)
    t1 = fn(copy(twin))
    fn(C.floats(copy(builtin('case6ww' if spec['base'] == 'case9' else 'case9'))))
    t2 = fn(copy(twin))
    b = fn(copy(src))
    for k in ('bus', 'gen', 'branch', 'success') + (('f',) if 'opf' in kind else ()):
        mon.check(arrays_equal(t1[k], t2[k]), 'no-memory', '%s: %s of a case depends on which case was solved before it (%s)' % (kind, k, col))
    for k in ('bus', 'gen', 'branch', 'success') + (('f',) if 'opf' in kind else ()):
        mon.check(arrays_equal(a[k], b[k]), 'deterministic', '%s: %s differs between two identical runs' % (kind, k))
    if not a['success']:
        mon.count('not solved ' + kind)
        return
    mon.count('re-solved')
    mon.sig(spec['base'], feats_sig(spec), kind, spec['alg'])
    again = {k: a[k].copy() if hasattr(a[k], 'copy') else a[k] for k in src if k in a}
    c = fn(again)
    mon.check(c['success'], 'still-solves', '%s fails on its own solution' % kind)
    if not c['success']:
        return
    lb = live_bus(src)
    s = scale(src)
    if kind == 'pf':
        mon.close(R.vcomplex(c['bus'])[lb], R.vcomplex(a['bus'])[lb], 1e-8 if spec['alg'] == 1 else 1e-6, 'pf-fixed-point', 'pf: voltage moved when re-solved')
        mon.close(c['gen'][:, [PG, QG]], a['gen'][:, [PG, QG]], 1e-6 * s, 'pf-fixed-gen', 'pf: generation moved when re-solved')
        # and no iteration is needed
        d, ok = api.runpf({k: a[k].copy() if hasattr(a[k], 'copy') else a[k] for k in src if k in a},
                          opts(PF_ALG=1, PF_MAX_IT=0, PF_TOL=1e-7))
        mon.check(ok, 'pf-converged-start', 'a solution is not accepted as converged')
    elif kind == 'dcpf':
        mon.close(c['bus'][lb, VA], a['bus'][lb, VA], 1e-7, 'dcpf-fixed-point', 'dcpf: angle moved when re-solved')
        mon.close(c['gen'][:, PG], a['gen'][:, PG], 1e-8 * s, 'dcpf-fixed-gen', 'dcpf: generation moved when re-solved')
    else:
        mon.close(c['f'], a['f'], 2e-5 * (1 + abs(a['f'])), kind + '-fixed-f', kind + ': optimal cost moved when re-solved')


# ------------------------------------------------------------------ P11
CALLS = ['runpf', 'runpf_q', 'runpf_gs', 'runpf_fd', 'rundcpf', 'runopf', 'rundcopf', 'runuopf', 'runduopf', 'runcpf', 'runopf_w_res',
         'ext2int', 'loadcase', 'total_load', 'scale_load', 'totcost', 'modcost', 'poly2pwl', 'savecase_py',
         'savecase_mat', 'printpf', 'makeYbus', 'makeBdc', 'makeB', 'makePTDF', 'makeLODF', 'runpf_fail', 'hasPQcap', 'case_fn', 'run_again', 'run_extended', 'ext2int_again', 'ext2int_data', 'int2ext',
         'e2i_data', 'newtonpf', 'fdpf', 'gausspf', 'dcpf', 'derivs', 'derivs2', 'pips', 'qps', 'isload', 'makeSbus',
         'opf_matrices', 'savecase_solved', 'printpf_again', 'user_data', 'options']


def plan11(tier, rng):
    out = []
    rep = n_of(tier, 8, 50)
    pool = ['loads', 'shunts', 'splitgen', 'offgen', 'offbranch', 'isolated', 'taps', 'renumber', 'shuffle', 'disp', 'basemva']
    for c in CALLS:
        n = rep if c not in ('runcpf', 'runuopf', 'runduopf') else max(2, rep // 3)
        for i in range(n):
            base = ['case9', 'case14', 'case30', 'case6ww', 'net8', 'case24_ieee_rts', 'case30pwl'][int(rng.integers(7))]
            if c in ('run_again', 'run_extended', 'ext2int_again', 'ext2int_data', 'int2ext', 'e2i_data', 'savecase_solved', 'user_data'):
                base = ['case9', 'case30', 'case6ww', 'net8', 'case24_ieee_rts'][int(rng.integers(5))]
            if c == 'case_fn':
                base = ALL[int(rng.integers(len(ALL)))]
            if c in ('runopf_w_res', 'poly2pwl', 'runuopf', 'runduopf'):
                base = ['case9', 'case30', 'net8'][int(rng.integers(3))]
            if c == 'runcpf':
                base = 'case9'
            f = pick_feats(rng, pool, .3) if i else []
            if c in ('makeYbus', 'makeBdc', 'makeB', 'makePTDF', 'makeLODF', 'poly2pwl', 'runcpf', 'hasPQcap'):
                f = [x for x in f if x in ('loads', 'shunts', 'splitgen', 'taps')]
            out.append(dict(base=base, seed=int(rng.integers(1 << 30)), feat=f, call=c))
    return out


def deep_equal(a, b, path=''):
    """None if equal, else path of the first difference"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s keys %s' % (path, sorted(map(str, set(a) ^ set(b))))
        for k in a:
            d = deep_equal(a[k], b[k], '%s[%r]' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if type(a) != type(b) or len(a) != len(b):
            return path + ' (length/type)'
        for i, (x, y) in enumerate(zip(a, b)):
            d = deep_equal(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.dtype != b.dtype or not arrays_equal(a, b):
            return path
        return None
    if hasattr(a, 'toarray'):
        return None if hasattr(b, 'toarray') and arrays_equal(a.toarray(), b.toarray()) else path
    if callable(a):
        return None if a is b or type(a) == type(b) else path
    try:
        same_ = (a == b) or (a != a and b != b)
    except Exception:
        same_ = True
    return None if same_ else path


def all_arrays(o, out=None, depth=0):
    out = [] if out is None else out
    if depth > 6:
        return out
    if isinstance(o, np.ndarray) and o.dtype != object:
        out.append(o)
    elif isinstance(o, dict):
        for v in o.values():
            all_arrays(v, out, depth + 1)
    elif isinstance(o, (list, tuple)):
        for v in o:
            all_arrays(v, out, depth + 1)
    return out


def reserves_for(ppc, rng):
    ng = len(ppc['gen'])
    on = live_gen(ppc)
    cap = np.where(on & (ppc['gen'][:, PMAX] > 0), .3 * np.maximum(ppc['gen'][:, PMAX], 1), 0)
    z = np.vstack([np.ones(ng), (rng.random(ng) < .6) * 1.0])
    z[1, int(np.flatnonzero(cap > 0)[0])] = 1
    return {'zones': z, 'req': np.array([.25 * cap.sum(), .2 * (z[1] * cap).sum()]),
            'cost': np.round(rng.uniform(1, 5, ng), 2), 'qty': np.round(cap, 3)}


def extended(src, rng, toggles=True):
    """the case with the fields of the extensions, switched on"""
    from pypower.toggle_reserves import toggle_reserves
    from pypower.toggle_iflims import toggle_iflims
    src['reserves'] = reserves_for(src, rng)
    nl = int(live_branch(src).sum())
    src['if'] = {'map': np.array([[1, 1], [1, -2], [2, 3]]), 'lims': np.array([[1, -900., 900.], [2, -900., 900.]])}
    if toggles:
        src = toggle_reserves(src, 'on')
        src = toggle_iflims(src, 'on')
    return src


def solved(src, rng, dc=False):
    from pypower import api
    o = opts(PDIPM_MAX_IT=60)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        if rng.random() < .4 and 'userfcn' not in src:      # (reserves and interface limits belong to the OPF)
            return api.runpf(copy(src), o)[0]
        r = (api.rundcopf if dc else api.runopf)(copy(src), o)
    r.pop('om', None)
    return r


def m_case(c, src, o, rng, mon):
    """whole cases: solved ones fed back, extended ones, user data"""
    from pypower import api
    o = dict(o, PDIPM_MAX_IT=40)
    if c == 'run_again':
        res = solved(src, rng)
        res['notes'] = {'table': np.ones((2, 2)), 'list': [1, np.arange(3.)]}
        f = [api.runpf, api.rundcpf, api.runopf, api.rundcopf][int(rng.integers(4))]
        return [res, o], lambda: f(res, o)
    if c == 'run_extended':
        p = extended(src, rng)
        f = [api.runopf, api.rundcopf][int(rng.integers(2))]
        return [p, o], lambda: f(p, o)
    if c == 'ext2int_again':
        res = solved(extended(src, rng) if rng.random() < .6 else src, rng)
        return [res], lambda: api.ext2int(res)
    if c == 'ext2int_data':
        p = extended(src, rng) if rng.random() < .6 else src
        n = 2 * len(p['bus']) + 2 * len(p['gen'])
        from scipy.sparse import csr_matrix
        p['A'], p['N'] = csr_matrix(rng.normal(size=(2, n))), csr_matrix(rng.normal(size=(3, n)))
        return [p], lambda: api.ext2int(p)
    if c == 'int2ext':
        p = api.ext2int(extended(src, rng, False))
        p['more'] = {'x': np.ones(3)}
        return [p], lambda: api.int2ext(p)
    if c == 'e2i_data':
        from pypower.e2i_data import e2i_data
        from pypower.i2e_data import i2e_data
        p = api.ext2int(src)
        v, b = rng.normal(size=len(src['gen'])), rng.normal(size=(2, len(src['bus'])))
        vi, bi = e2i_data(p, v, 'gen'), e2i_data(p, b, 'bus', 1)
        return [p, v, b, vi, bi], lambda: [e2i_data(p, v, 'gen'), e2i_data(p, b, 'bus', 1),
                                           i2e_data(p, vi, v, 'gen'), i2e_data(p, bi, b, 'bus', 1)]
    if c == 'user_data':
        from scipy.sparse import csr_matrix
        n = 2 * len(src['bus']) + 2 * len(src['gen'])
        A = np.zeros((1, n))
        A[0, 2 * len(src['bus']):2 * len(src['bus']) + len(src['gen'])] = 1
        src['A'], src['l'], src['u'] = csr_matrix(A), np.array([-1e3]), np.array([1e3])
        src['N'], src['Cw'], src['fparm'] = csr_matrix(A), np.array([1.]), np.array([[1, 0, 0, 1.]])
        src['H'] = csr_matrix([[.01]])
        f = [api.runopf, api.rundcopf][int(rng.integers(2))]
        return [src, o], lambda: f(src, o)
    if c == 'savecase_solved':
        import os
        res = solved(src, rng)
        f = os.path.join(os.environ['VERIF_SCRATCH'], 's%d_%d.py' % (os.getpid(), int(rng.integers(1 << 30))))
        return [res], lambda: api.savecase(f, res)
    if c == 'printpf_again':
        res = solved(extended(src, rng) if len(src['branch']) > 3 and rng.random() < .6 else src, rng)
        o2 = opts(OUT_ALL=-1, OUT_ALL_LIM=int(rng.integers(-1, 3)))
        fd = io.StringIO()
        return [res, o2], lambda: api.printpf(res, fd, o2)


def m_solver(c, src, o, rng, mon):
    """solvers and matrix functions called on their own"""
    from pypower import api
    from pypower import makeB as _mb
    q = api.ext2int(src)
    S, bus, gen, branch = q['baseMVA'], q['bus'], q['gen'], q['branch']
    Y, Yf, Yt = api.makeYbus(S, bus, branch)
    Sb = api.makeSbus(S, bus, gen)
    ref, pv, pq = api.bustypes(bus, gen)
    V0 = bus[:, VM] * np.exp(1j * bus[:, VA] * np.pi / 180)
    if c in ('newtonpf', 'gausspf'):
        f = getattr(__import__('pypower.' + c, fromlist=[c]), c)
        a = [Y, Sb, V0, ref, pv, pq, o]
        return a, lambda: f(*a)
    if c == 'fdpf':
        from pypower.fdpf import fdpf
        Bp, Bpp = api.makeB(S, bus, branch, 2)
        a = [Y, Sb, V0, Bp, Bpp, ref, pv, pq, o]
        return a, lambda: fdpf(*a)
    if c == 'dcpf':
        from pypower.dcpf import dcpf
        B, Bf, Pi, Pf = api.makeBdc(S, bus, branch)
        a = [B, Sb.real - Pi, bus[:, VA] * np.pi / 180, ref, pv, pq]
        return a, lambda: dcpf(*a)
    if c == 'makeSbus':
        return [S, bus, gen], lambda: [api.makeSbus(S, bus, gen), api.bustypes(bus, gen)]
    if c == 'isload':
        from pypower.isload import isload
        return [gen], lambda: isload(gen)
    if c == 'derivs':
        def f():
            d = [api.dSbus_dV(Y, V0), api.dSbr_dV(branch, Yf, Yt, V0)]
            s = d[1]
            return d + [api.dIbr_dV(branch, Yf, Yt, V0), api.dAbr_dV(*s)]
        return [Y, Yf, Yt, branch, V0], f
    if c == 'derivs2':
        nl, nb = branch.shape[0], bus.shape[0]
        from scipy.sparse import csr_matrix
        Cf = csr_matrix((np.ones(nl), (range(nl), branch[:, 0].astype(int))), (nl, nb))
        lb, ll = rng.normal(size=nb), rng.normal(size=nl)
        a = api.dSbr_dV(branch, Yf, Yt, V0)
        b = api.dIbr_dV(branch, Yf, Yt, V0)
        def f():
            return [api.d2Sbus_dV2(Y, V0, lb), api.d2Sbr_dV2(Cf, Yf, V0, ll), api.d2Ibr_dV2(Yf, V0, ll),
                    api.d2ASbr_dV2(a[0], a[1], a[4], Cf, Yf, V0, ll), api.d2AIbr_dV2(b[0], b[1], b[4], Yf, V0, ll)]
        return [Y, Yf, Cf, V0, lb, ll, list(a), list(b)], f
    if c == 'opf_matrices':
        from pypower.makeApq import makeApq
        from pypower.makeAvl import makeAvl
        from pypower.makeAang import makeAang
        from pypower.makeAy import makeAy
        from pypower.polycost import polycost
        gc = q.get('gencost')
        a = [S, bus, gen, branch, gc, o]
        def f():
            out = [makeApq(S, gen), makeAvl(S, gen), makeAang(S, branch, len(bus), o)]
            if gc is not None:
                out += [makeAy(S, len(gen), gc, 1, 1 + len(gen), 1 + 2 * len(gen)), api.pqcost(gc, len(gen)), api.totcost(gc[:len(gen)], gen[:, PG])]
                if (gc[:, MODEL] == 2).all():
                    out += [polycost(gc[:len(gen)], gen[:, PG], d) for d in (0, 1, 2)]
            return out
        return a, f


def m_opt(c, src, o, rng, mon):
    """optimizers and options"""
    from pypower import api
    from scipy.sparse import csr_matrix
    if c == 'options':
        base = dict(o, OPF_ALG=560)
        return [base], lambda: [api.ppoption(base, PF_ALG=2), api.ppoption(base)]
    n = 4
    H = np.diag(rng.uniform(1, 3, n))
    cc = rng.normal(size=n)
    A = csr_matrix(rng.normal(size=(2, n)))
    l, u = np.array([-1., -np.inf]), np.array([1., 2.])
    lo, hi = -2 * np.ones(n), 2 * np.ones(n)
    x0 = np.zeros(n)
    op = {'verbose': 0} if rng.random() < .5 else {'verbose': 0, 'max_it': 80, 'feastol': 1e-8}
    Hs = csr_matrix(H)
    if c == 'qps':
        full = {'H': Hs, 'c': cc, 'A': A, 'l': l, 'u': u, 'xmin': lo, 'xmax': hi, 'x0': x0, 'opt': op}
        if rng.random() < .5:
            op['alg'] = 200 if rng.random() < .5 else 250
            return [full], lambda: api.qps_pypower(dict(full) if 0 else full)
        from pypower.qps_pips import qps_pips
        if rng.random() < .5:
            return [full], lambda: qps_pips(full)
        return list(full.values()), lambda: qps_pips(Hs, cc, A, l, u, lo, hi, x0, op)
    def f(x, return_hessian=False):
        r = .5 * x @ H @ x + cc @ x, H @ x + cc
        return r + (Hs,) if return_hessian else r
    def gh(x):
        return np.array([x @ x - 3]), np.array([]), csr_matrix(2 * x[:, None]), None
    def hs(x, lam, m=1):
        return m * Hs + 2 * lam['ineqnonlin'][0] * csr_matrix(np.eye(n))
    prob = {'f_fcn': f, 'x0': x0, 'A': A, 'l': l, 'u': u, 'xmin': lo, 'xmax': hi, 'gh_fcn': gh, 'hess_fcn': hs, 'opt': op}
    if rng.random() < .5:
        return [prob], lambda: api.pips(prob)
    return [x0, A, l, u, lo, hi, op], lambda: api.pips(f, x0, A, l, u, lo, hi, gh, hs, op)


MORE = dict([(k, m_case) for k in ('run_again', 'run_extended', 'ext2int_again', 'ext2int_data', 'int2ext', 'e2i_data',
                                   'user_data', 'savecase_solved', 'printpf_again')] +
            [(k, m_solver) for k in ('newtonpf', 'gausspf', 'fdpf', 'dcpf', 'makeSbus', 'isload', 'derivs', 'derivs2', 'opf_matrices')] +
            [(k, m_opt) for k in ('options', 'pips', 'qps')])


@prop('P11', 'each public entry point called on a case with all its containers snapshotted before and compared after, '
      'and result arrays checked for memory shared with the caller\'s arrays; distinct by (entry point, base, features)',
      plan11, floors={'calls': 60})
def p11(spec, mon):
    from pypower import api
    src = build(spec)
    rng = rng_for('p11', spec['seed'])
    c = spec['call']
    o = opts(ENFORCE_Q_LIMS=1 if c == 'runpf_q' else 0, PF_ALG=4 if c == 'runpf_gs' else 2 if c == 'runpf_fd' else 1)
    if c == 'runpf_fail':
        src['bus'][:, [PD, QD]] *= 50
    if c == 'runopf_w_res':
        src['reserves'] = reserves_for(src, rng)
    extra = {'unrelated': np.arange(4.), 'nested': {'x': np.ones(2)}}
    if c.startswith('run') and c != 'runopf_w_res':
        src.update(_copy.deepcopy(extra))
    args = [src, o]
    out = None
    call = None
    bus, gen, branch = src['bus'], src['gen'], src['branch']
    if c in ('runpf', 'runpf_q', 'runpf_gs', 'runpf_fd', 'runpf_fail'):
        call = lambda: api.runpf(src, o)
    elif c in ('rundcpf', 'runopf', 'rundcopf', 'runuopf', 'runduopf', 'runopf_w_res'):
        if c == 'rundcpf':
            call = lambda: api.rundcpf(src, o)
        else:
            if c in ('runopf_w_res', 'runuopf', 'runduopf'):
                mod = __import__('pypower.' + c, fromlist=[c])
                call = lambda: getattr(mod, c)(src, o)
            else:
                call = lambda: getattr(api, c)(src, o)
    elif c == 'runcpf':
        tgt = copy(src)
        tgt['bus'] = tgt['bus'].copy()
        tgt['bus'][:, [PD, QD]] *= 1.3
        args.append(tgt)
        from pypower.runcpf import runcpf
        o['CPF_STOP_AT'] = 'NOSE' if rng.random() < .3 else .7
        o['CPF_PLOT_LEVEL'] = 0
        call = lambda: runcpf(src, tgt, o)
    elif c == 'ext2int':
        call = lambda: api.ext2int(src)
    elif c == 'loadcase':
        call = lambda: api.loadcase(src)
    elif c == 'total_load':
        call = lambda: api.total_load(bus, gen, None, 'BOTH')
    elif c == 'scale_load':
        ld = np.array([1.5, .7])
        zone = np.arange(len(bus)) % 3
        op = {'scale': 'FACTOR', 'pq': 'PQ', 'which': 'FIXED'}
        args += [ld, zone, op]
        call = lambda: api.scale_load(ld, bus, gen, zone, op)
    elif c == 'totcost':
        args.append(src['gencost'])
        call = lambda: api.totcost(src['gencost'][:len(gen)], gen[:, PG])
    elif c == 'modcost':
        al = float(rng.uniform(.5, 2))
        call = lambda: [api.modcost(src['gencost'], al, m) for m in ('SCALE_F', 'SCALE_X', 'SHIFT_F', 'SHIFT_X')]
    elif c == 'poly2pwl':
        call = lambda: api.poly2pwl(src['gencost'][:len(gen)], gen[:, PMIN], gen[:, PMAX] + 1, 5)
    elif c in ('savecase_py', 'savecase_mat'):
        import os
        f = os.path.join(os.environ['VERIF_SCRATCH'], 'c%d_%d%s' % (os.getpid(), spec['seed'], '.py' if c[-1] == 'y' else '.mat'))
        call = lambda: api.savecase(f, src)
    elif c == 'printpf':
        res = api.runopf(copy(src), o) if rng.random() < .5 and 'gencost' in src else api.runpf(copy(src), o)[0]
        res.pop('om', None)
        o2 = opts(OUT_ALL=1)
        args = [res, o2]
        fd = io.StringIO()
        call = lambda: api.printpf(res, fd, o2)
    elif c in ('makeYbus', 'makeBdc', 'makeB', 'makePTDF', 'makeLODF', 'hasPQcap'):
        q = api.ext2int(src)
        args = [q['bus'], q['gen'], q['branch']]
        if c == 'makeB':
            call = lambda: [api.makeB(q['baseMVA'], q['bus'], q['branch'], a) for a in (2, 3)]
        elif c == 'makeLODF':
            H = api.makePTDF(q['baseMVA'], q['bus'], q['branch'])
            args.append(H)
            call = lambda: api.makeLODF(q['branch'], H)
        elif c == 'hasPQcap':
            call = lambda: [api.hasPQcap(q['gen'], x) for x in ('U', 'L', 'B')]
        elif c == 'makePTDF':
            call = lambda: api.makePTDF(q['baseMVA'], q['bus'], q['branch'])
        else:
            call = lambda: getattr(api, c)(q['baseMVA'], q['bus'], q['branch'])
    elif c in MORE:
        mon.count('group ' + MORE[c].__name__)
        args, call = MORE[c](c, src, o, rng, mon)
    elif c == 'case_fn':
        # a built-in case is fresh at every call
        p1 = builtin(spec['base'])
        p2 = builtin(spec['base'])
        for k in ('bus', 'gen', 'branch'):
            mon.check(not np.shares_memory(p1[k], p2[k]), 'case-fresh', 'two calls of %s share %s' % (spec['base'], k))
            p1[k][:] = -7
        p3 = builtin(spec['base'])
        mon.check(deep_equal(p2, p3) is None, 'case-fresh', 'built-in case changed by its caller')
        mon.count('calls')
        mon.sig(c, spec['base'])
        return
    ids = [[(id(v) if isinstance(v, np.ndarray) else None) for v in all_arrays(x)] for x in args]
    before = _copy.deepcopy(args)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        out = call()
    mon.count('calls')
    mon.count('call ' + c)
    mon.sig(c, spec['base'], feats_sig(spec))
    for i, (x, y) in enumerate(zip(before, args)):
        d = deep_equal(x, y, 'arg%d' % i)
        mon.check(d is None, 'args-unchanged:' + c, '%s changed its caller\'s data at %s' % (c, d))
    if c.startswith('run') or c in ('ext2int', 'loadcase', 'scale_load', 'modcost', 'ext2int_again', 'ext2int_data', 'int2ext', 'e2i_data', 'user_data'):
        mine = [a for x in args for a in all_arrays(x) if a.size]
        sh = 0
        for a in all_arrays(out):
            if a.size and any(np.shares_memory(a, m) for m in mine):
                sh += 1
        mon.check(sh == 0, 'no-aliasing:' + c, '%d arrays returned by %s share memory with the caller\'s' % (sh, c))
