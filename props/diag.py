"""P42 inconsistent data is called out, consistent data is not."""
import os, sys, tempfile, warnings, shutil
from .common import *
from .pf import n_of
from .ext import dcify, io_files, rand_dclines
from scipy.sparse import csr_matrix as sp, identity

BASES = ['case6ww', 'case9', 'case14', 'case24_ieee_rts', 'case30', 'case39', 'net4', 'net6', 'net9', 'net15']
FE = ['loads', 'taps', 'splitgen', 'offgen', 'offbranch', 'parallel', 'renumber', 'shuffle', 'basemva', 'isolated']


class Ears(object):
    """what a call says: exception, text on standard error (through either the
    stream object or the file descriptor), warnings that are not numeric ones"""

    def __init__(self):
        self.exc, self.err, self.out, self.warn = None, '', '', []

    def listen(self, fn):
        so, se = io.StringIO(), io.StringIO()
        f = tempfile.TemporaryFile()
        for s in (sys.stderr, sys.__stderr__):
            try:
                s.flush()
            except Exception:
                pass
        keep = os.dup(2)
        os.dup2(f.fileno(), 2)
        try:
            with warnings.catch_warnings(record=True) as ws, contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
                warnings.simplefilter('always')
                try:
                    self.val = fn()
                except Exception as e:
                    self.exc = e
        finally:
            for s in (sys.stderr, sys.__stderr__):
                try:
                    s.flush()
                except Exception:
                    pass
            os.dup2(keep, 2)
            os.close(keep)
        f.seek(0)
        self.err = se.getvalue() + f.read().decode('utf8', 'replace')
        f.close()
        self.out = so.getvalue()
        self.warn = [str(w.message) for w in ws if w.category in (UserWarning, DeprecationWarning, FutureWarning) and 'pypower' in str(w.filename)
                     and not issubclass(w.category, (DeprecationWarning, FutureWarning))]
        return self

    @property
    def spoke(self):
        return self.exc is not None or bool(self.err.strip()) or bool(self.warn)


def dcd(p):
    p = copy(p)
    dcify(p)
    return p


def fn_a(ppc, *a):
    return ppc


def fn_b(ppc, *a):
    return ppc


def model_sits(rng):
    from pypower.opf_model import opf_model

    def om():
        m = opf_model({'baseMVA': 100.})
        m.add_vars('x', 3, np.zeros(3), -np.ones(3), np.ones(3))
        m.add_vars('y', 2)
        m.add_constraints('lc', sp(np.ones((2, 5))), -np.ones(2), np.ones(2), ['x', 'y'])
        m.add_constraints('nl', 4, 'nonlinear')
        m.add_costs('uc', {'N': sp(np.ones((2, 5))), 'Cw': np.ones(2)}, ['x', 'y'])
        return m
    cp = lambda nw=2, nx=5, **kw: dict({'N': sp(np.ones((nw, nx))), 'Cw': np.ones(nw)}, **kw)
    v = lambda n: (lambda: om().add_vars(n, 2))
    yield 'model: variable named twice', v('x'), v('z')
    yield 'model: linear set named twice', lambda: om().add_constraints('lc', sp(np.ones((1, 5))), -np.ones(1), np.ones(1)), \
        lambda: om().add_constraints('lc2', sp(np.ones((1, 5))), -np.ones(1), np.ones(1))
    yield 'model: nonlinear set named twice', lambda: om().add_constraints('nl', 2, 'nonlinear'), lambda: om().add_constraints('nl2', 2, 'nonlinear')
    yield 'model: cost named twice', lambda: om().add_costs('uc', cp(), None), lambda: om().add_costs('uc2', cp(), None)
    w = int(rng.choice([1, 3]))
    good = lambda: om().add_constraints('a', sp(np.ones((2, 5))), np.zeros(2), np.ones(2), ['x', 'y'])
    yield 'model: short l', lambda: om().add_constraints('a', sp(np.ones((2, 5))), np.zeros(w), np.ones(2)), good
    yield 'model: short u', lambda: om().add_constraints('a', sp(np.ones((2, 5))), np.zeros(2), np.ones(w)), good
    yield 'model: columns of A', lambda: om().add_constraints('a', sp(np.ones((2, 4))), np.zeros(2), np.ones(2)), \
        lambda: om().add_constraints('a', sp(np.ones((2, 3))), np.zeros(2), np.ones(2), ['x'])
    yield 'model: columns of A over named sets', lambda: om().add_constraints('a', sp(np.ones((2, 5))), np.zeros(2), np.ones(2), ['x']), \
        lambda: om().add_constraints('a', sp(np.ones((2, 2))), np.zeros(2), np.ones(2), ['y'])
    yield 'model: columns of N', lambda: om().add_costs('c', cp(2, 4), None), lambda: om().add_costs('c', cp(2, 5), None)
    yield 'model: columns of N over named sets', lambda: om().add_costs('c', cp(2, 5), ['y']), lambda: om().add_costs('c', cp(2, 2), ['y'])
    yield 'model: rows of Cw', lambda: om().add_costs('c', cp(Cw=np.ones(w)), None), lambda: om().add_costs('c', cp(), None)
    yield 'model: size of H', lambda: om().add_costs('c', cp(H=sp(np.ones((2, 3)) if w == 3 else np.ones((1, 2)))), None), \
        lambda: om().add_costs('c', cp(H=sp(np.ones((2, 2)))), None)
    for k in ('dd', 'rh', 'kk', 'mm'):
        yield 'model: rows of ' + k, lambda k=k: om().add_costs('c', cp(**{k: np.ones(w)}), None), lambda k=k: om().add_costs('c', cp(**{k: np.ones(2)}), None)
    b = om()
    b.build_cost_params()
    yield 'model: cost parameters not built', lambda: om().get_cost_params(), lambda: b.get_cost_params()
    yield 'model: unknown set', lambda: om().add_constraints('a', sp(np.ones((2, 3))), np.zeros(2), np.ones(2), ['nosuch']), \
        lambda: om().add_constraints('a', sp(np.ones((2, 3))), np.zeros(2), np.ones(2), ['x'])


def order_sits(rng, src, d):
    from pypower import api
    from pypower.e2i_data import e2i_data
    from pypower.i2e_data import i2e_data
    from pypower.get_reorder import get_reorder
    from pypower.set_reorder import set_reorder
    i = api.ext2int(copy(src))
    e = api.int2ext(i)
    x = np.arange(len(src['gen'])) * 1.
    xi = np.arange(len(i['gen'])) * 1.
    yield 'e2i_data: case never converted', lambda: e2i_data(copy(src), x, 'gen'), lambda: e2i_data(i, x, 'gen')
    yield 'e2i_data: case in external order', lambda: e2i_data(e, x, 'gen'), lambda: e2i_data(i, x, 'gen')
    yield 'i2e_data: case never converted', lambda: i2e_data(copy(src), xi, x, 'gen'), lambda: i2e_data(i, xi, x, 'gen')
    yield 'i2e_data: case in external order', lambda: i2e_data(e, xi, x, 'gen'), lambda: i2e_data(i, xi, x, 'gen')
    yield 'int2ext: case never converted', lambda: api.int2ext(copy(src)), lambda: api.int2ext(i)
    yield 'int2ext: case in external order', lambda: api.int2ext(e), lambda: api.int2ext(i)
    m = np.arange(12.).reshape(3, 4)
    ix = np.array([0, 2])
    yield 'get_reorder: dimension', lambda: get_reorder(m, ix, 2), lambda: get_reorder(m, ix, int(rng.integers(2)))
    yield 'get_reorder: too many dimensions', lambda: get_reorder(np.ones((2, 2, 2)), ix, 0), lambda: get_reorder(m[:, 0], ix)
    yield 'set_reorder: dimension', lambda: set_reorder(m, m[ix], ix, 2), lambda: set_reorder(m, m[ix], ix, 0)
    yield 'set_reorder: too many dimensions', lambda: set_reorder(np.ones((2, 2, 2)), np.ones((2, 2, 2)), ix, 0), lambda: set_reorder(m, m[:, ix], ix, 1)
    bad = copy(src)
    bad['bus'] = bad['bus'].astype(float)
    live = np.flatnonzero(src['bus'][:, BUS_TYPE] != REF)
    bad['bus'][rng.choice(live), BUS_TYPE] = float(rng.choice([0, 5, 7, 2.5]))
    yield 'bus type', lambda: api.ext2int(bad), lambda: api.ext2int(copy(src))
    # matrices need internal order
    bus, br = i['bus'].copy(), i['branch'].copy()
    k = int(rng.integers(len(bus) - 1))
    wrong = bus.copy()
    how = rng.integers(3)
    if how == 0:
        wrong[[k, k + 1], BUS_I] = wrong[[k + 1, k], BUS_I]
    elif how == 1:
        wrong[-1, BUS_I] = len(bus) - 2 if len(bus) > 1 else 7
    else:
        wrong = wrong[::-1].copy()
    bm = i['baseMVA']
    yield 'makeYbus: numbering', lambda: api.makeYbus(bm, wrong, br), lambda: api.makeYbus(bm, bus, br)
    yield 'makeBdc: numbering', lambda: api.makeBdc(bm, wrong, br), lambda: api.makeBdc(bm, bus, br)
    if len(bus) > 1 and is_connected_without(i, ()):
        yield 'makePTDF: numbering', lambda: api.makePTDF(bm, wrong, br, 0), lambda: api.makePTDF(bm, bus, br, 0)


def cost_sits(rng, src, d):
    from pypower import api
    from pypower.polycost import polycost
    from pypower.pqcost import pqcost
    ng = len(src['gen'])
    pol = np.c_[np.full(ng, 2.), np.zeros((ng, 2)), np.full(ng, 3.), rng.uniform(.01, .1, ng), rng.uniform(5, 9, ng), np.zeros(ng), np.zeros((ng, 1))]
    pwl = pol.copy()
    pwl[int(rng.integers(ng)), :8] = [1, 0, 0, 2, 0, 0, 100, 900]
    P = rng.uniform(10, 50, ng)
    der = int(rng.integers(3))
    yield 'polycost: piecewise linear row', lambda: polycost(pwl, P, der), lambda: polycost(pol, P, der)
    rows = [r for r in (0, 1, ng - 1, ng + 1, 2 * ng - 1, 2 * ng + 1, 3 * ng) if r not in (ng, 2 * ng) and r >= 0]
    n = int(rng.choice(rows))
    big = np.vstack([pol] * 3 + [pol[:1]])
    yield 'pqcost: rows', lambda: pqcost(big[:n], ng), lambda: pqcost(big[:ng * int(rng.integers(1, 3))], ng)
    t = ['SCALE_F', 'SCALE_X', 'SHIFT_F', 'SHIFT_X']
    yield 'modcost: kind', lambda: api.modcost(pol.copy(), 1.1, str(rng.choice(['scale_f', 'SCALE', '', 'SHIFT_Y', 'SHIFTF']))), \
        lambda: api.modcost(pol.copy(), 1.1, str(rng.choice(t)))


def gen_sits(rng, src, d):
    from pypower.hasPQcap import hasPQcap
    from pypower.makeAvl import makeAvl
    from pypower.makeApq import makeApq
    g = np.zeros((4, 21))
    g[:, GEN_STATUS] = 1
    g[:, PMAX], g[:, PMIN], g[:, QMAX], g[:, QMIN] = 100, 10, 60, -60
    j = int(rng.integers(4))
    ok = g.copy()
    ok[j, [PC1, PC2, QC1MIN, QC1MAX, QC2MIN, QC2MAX]] = [10, 90, -50, 50, -30, 30]
    part = str(rng.choice(['L', 'U', 'B']))
    for name, ch in (('PC1 > PC2', {PC1: 90, PC2: 10}), ('QC2MAX > QC1MAX', {QC2MAX: 55}), ('QC2MIN < QC1MIN', {QC2MIN: -58})):
        b = ok.copy()
        for c, v in ch.items():
            b[j, c] = v
        f = hasPQcap if rng.random() < .6 else (lambda gg, part=None: makeApq(100., gg))
        yield 'capability curve: ' + name, lambda b=b, f=f: f(b, part), lambda f=f: f(ok, part)
    L = g.copy()
    q = float(rng.choice([-12., 9.]))
    L[j, [PMIN, PMAX, PG, QG, QMIN, QMAX]] = [-30, 0, -15, q / 2, min(q, 0), max(q, 0)]
    one = L.copy()
    one[j, QG] += float(rng.choice([-1, 1])) * float(rng.choice([.01, 1, 20]))
    two = L.copy()
    two[j, QMAX if q < 0 else QMIN] = -q / 3
    yield 'dispatchable load: Qg off the power factor', lambda: makeAvl(100., one), lambda: makeAvl(100., L)
    yield 'dispatchable load: two reactive limits', lambda: makeAvl(100., two), lambda: makeAvl(100., L)


def fcn_sits(rng, src, d):
    from pypower import api
    st = ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']
    s = str(rng.choice(st))
    one = api.add_userfcn(copy(src), s, fn_a)
    bad = str(rng.choice(['internal', 'EXT2INT', '', 'print', 'int2ext ']))
    yield 'add_userfcn: stage', lambda: api.add_userfcn(copy(src), bad, fn_a), lambda: api.add_userfcn(copy(src), s, fn_a)
    yield 'add_userfcn: added twice', lambda: api.add_userfcn(one, s, fn_a), lambda: api.add_userfcn(one, s, fn_a, None, True)
    yield 'add_userfcn: added twice after another', lambda: api.add_userfcn(api.add_userfcn(api.add_userfcn(copy(src), s, fn_b), s, fn_a), s, fn_b), \
        lambda: api.add_userfcn(api.add_userfcn(copy(src), s, fn_b), s, fn_a)
    o = [x for x in st if x != s][int(rng.integers(4))]
    yield 'add_userfcn: added twice, not counting stages', lambda: api.add_userfcn(api.add_userfcn(one, o, fn_a), o, fn_a), lambda: api.add_userfcn(one, o, fn_a)


def toggle_sits(rng, src, d):
    from pypower import api
    from pypower.toggle_reserves import toggle_reserves
    from pypower.toggle_iflims import toggle_iflims
    from pypower.toggle_dcline import toggle_dcline
    ng = len(src['gen'])
    nz = int(rng.integers(1, 3))
    R0 = {'zones': np.ones((nz, ng)), 'req': np.ones(nz), 'cost': np.ones(ng), 'qty': np.full(ng, 5.)}
    if nz > 1:
        R0['zones'][1, ::2] = 0

    def res(**kw):
        p = copy(src)
        p['reserves'] = {k: v for k, v in dict(R0, **kw).items() if v is not None}
        return p
    no = str(rng.choice(['ON', 'yes', '', 'Off', 'enable']))
    good = lambda: toggle_reserves(res(), 'on')
    yield 'reserves: no field', lambda: toggle_reserves(copy(src), 'on'), good
    yield 'reserves: not a dict', lambda: toggle_reserves(dict(copy(src), reserves=np.ones(3)), 'on'), good
    for k in ('zones', 'req', 'cost'):
        yield 'reserves: no ' + k, lambda k=k: toggle_reserves(res(**{k: None}), 'on'), lambda: toggle_reserves(res(qty=None), 'on')
    yield 'reserves: on or off', lambda: toggle_reserves(res(), no), lambda: toggle_reserves(toggle_reserves(res(), 'on'), 'off')
    go = lambda **kw: (lambda: api.ext2int(toggle_reserves(res(**kw), 'on')))
    yield 'reserves: rows of zones', go(req=np.ones(nz + 1)), go()
    if nz > 1:
        yield 'reserves: fewer requirements than zones', go(req=np.ones(nz - 1)), go()
    n = int(rng.choice([ng + 1, ng - 1]))
    yield 'reserves: length of cost', go(cost=np.ones(n), qty=np.ones(n)), go()
    yield 'reserves: length of qty', go(qty=np.ones(n)), go(qty=None)

    i = api.ext2int(copy(src))
    nl = len(src['branch'])
    on = [l for l in range(nl) if src['branch'][l, BR_STATUS] > 0 and l in i['order']['branch']['status']['on']]
    off = [l for l in range(nl) if l not in on]
    F0 = {'map': np.array([[1, on[0] * -1. if on[0] else on[-1]], [2, float(on[-1])]]), 'lims': np.array([[1., -60, 60], [2, -9e3, 9e3]])}

    def iff(**kw):
        p = copy(src)
        p['if'] = {k: v for k, v in dict(F0, **kw).items() if v is not None}
        return p
    good = lambda: toggle_iflims(iff(), 'on')
    yield 'interfaces: no field', lambda: toggle_iflims(copy(src), 'on'), good
    yield 'interfaces: not a dict', lambda: toggle_iflims(dict(copy(src), **{'if': [1]}), 'on'), good
    for k in ('map', 'lims'):
        yield 'interfaces: no ' + k, lambda k=k: toggle_iflims(iff(**{k: None}), 'on'), good
    yield 'interfaces: on or off', lambda: toggle_iflims(iff(), no), lambda: toggle_iflims(toggle_iflims(iff(), 'on'), 'off')

    c = copy(src)
    live = [int(b) for b in src['bus'][src['bus'][:, BUS_TYPE] != NONE, BUS_I]]
    D = np.zeros((2, 17))
    for r in D:
        a, b = rng.choice(live, 2, replace=False)
        r[:] = [a, b, 1, 5, 5, 0, 0, 1.01, 1, 1, 10, -5, 5, -5, 5, 0, .01]
    c['dcline'] = D

    def dc(p=None, **kw):
        p = copy(c)
        p.update(kw)
        return p
    good = lambda: toggle_dcline(dc(), 'on')
    neg = D.copy()
    neg[int(rng.integers(2)), 16] = -.02
    cost = np.array([[2, 0, 0, 2, 1., 0]] * 3)
    yield 'dc lines: no field', lambda: toggle_dcline(copy(src), 'on'), good
    yield 'dc lines: narrow table', lambda: toggle_dcline(dc(dcline=D[:, :int(rng.integers(5, 17))]), 'on'), good
    yield 'dc lines: rows of cost', lambda: toggle_dcline(dc(dclinecost=cost[:int(rng.choice([1, 3]))]), 'on'), lambda: toggle_dcline(dc(dclinecost=cost[:2]), 'on')
    yield 'dc lines: negative loss', lambda: toggle_dcline(dc(dcline=neg), 'on'), good
    yield 'dc lines: on or off', lambda: toggle_dcline(dc(), no), lambda: toggle_dcline(toggle_dcline(dc(), 'on'), 'off')


def load_sits(rng, src, d):
    from pypower import api
    from pypower.scale_load import scale_load
    from pypower.total_load import total_load
    bus, gen = src['bus'], src['gen']
    z = np.ones(len(bus), int)
    word = str(rng.choice(['all', 'X', 'fixed', 'quantity', 'p', 'Q']))
    ok = {'which': str(rng.choice(['FIXED', 'BOTH'])), 'pq': str(rng.choice(['P', 'PQ'])), 'scale': 'FACTOR'}
    f = lambda o, load=np.array([1.1]), zz=z: (lambda: scale_load(load.copy(), bus.copy(), gen.copy(), zz.copy(), dict(o)))
    for k in ('pq', 'which', 'scale'):
        yield 'scale_load: ' + k, f(dict(ok, **{k: word if (k, word) != ('scale', 'Q') else 'x'})), f(ok)
    far = z.copy()
    far[int(rng.integers(len(z)))] = 3
    yield 'scale_load: zone without a load', f(ok, np.array([1.1, 1.]), far), f(ok, np.array([1.1, 1., 1.]), far)
    none = bus.copy()
    none[:, [PD, QD]] = 0
    q = {'scale': 'QUANTITY', 'which': str(rng.choice(['FIXED', 'BOTH', 'DISPATCHABLE']))}
    g0 = gen.copy()
    g0[:, PMIN] = np.maximum(g0[:, PMIN], 0)
    yield 'scale_load: nothing to scale', lambda: scale_load(np.array([25.]), none, g0, z, dict(q)), lambda: scale_load(np.array([0.]), none, g0, z, dict(q))
    yield 'total_load: kind', lambda: total_load(bus, gen, None, str(rng.choice(['fixed', 'X', 'all']))), \
        lambda: total_load(bus, gen, None, str(rng.choice(['FIXED', 'BOTH', 'DISPATCHABLE'])))


def run_sits(rng, src, d):
    from pypower import api
    alg = int(rng.choice([5, 7, -1, 99]))
    yield 'runpf: algorithm', lambda: api.runpf(copy(src), opts(PF_ALG=alg)), lambda: api.runpf(copy(src), opts(PF_ALG=int(rng.choice([1, 2, 3]))))
    oa = int(rng.choice([100, 999, 1, 700, -5]))
    if oa == 700 or len(src['bus']) > 15:
        oa = 999
    tiny = builtin('case6ww')
    yield 'opf: algorithm', lambda: api.runopf(copy(tiny), opts(OPF_ALG=oa)), lambda: api.runopf(copy(tiny), opts(OPF_ALG=int(rng.choice([0, 560, 565]))))
    q = int(rng.choice([123, 999, -4]))
    from pypower.qps_pypower import qps_pypower
    Q = [sp(np.eye(2)), np.array([-1., 1]), sp(np.ones((1, 2))), np.array([-1.]), np.array([1.]), -np.ones(2), np.ones(2), np.zeros(2)]
    yield 'qp solver: algorithm', lambda: qps_pypower(*Q, opt={'alg': q}), lambda: qps_pypower(*Q, opt={'alg': int(rng.choice([0, 200, 250]))})
    yield 'dcopf: algorithm', lambda: api.rundcopf(dcd(tiny), opts(OPF_ALG_DC=q)), lambda: api.rundcopf(dcd(tiny), opts(OPF_ALG_DC=int(rng.choice([0, 200, 250]))))
    cub = copy(tiny)
    n = len(cub['gencost'])
    cub['gencost'] = np.c_[np.full(n, 2.), np.zeros((n, 2)), np.full(n, 4.), np.full(n, 1e-5), np.full(n, .01), np.full(n, 10.), np.zeros(n)]
    qua = copy(cub)
    qua['gencost'][:, 4] = 0
    qua['gencost'] = np.c_[cub['gencost'][:, :3], np.full(n, 3.), cub['gencost'][:, 5:], np.zeros(n)]
    yield 'dcopf: cubic costs', lambda: api.rundcopf(cub, opts()), lambda: api.rundcopf(qua, opts())
    k = int(rng.integers(n))
    mod = copy(qua)
    mod['gencost'][k, 0] = float(rng.choice([0, 3, 5]))
    ac = bool(rng.random() < .5)
    run = (lambda p: api.runopf(p, opts())) if ac else (lambda p: api.rundcopf(p, opts()))
    yield 'opf: cost model', lambda: run(mod), lambda: run(qua)
    ms = copy(builtin('case9'))
    ms['bus'][1, BUS_TYPE] = REF
    ms['gen'][:, QMIN], ms['gen'][:, QMAX] = -300., 300.
    far = copy(ms)
    far['gen'][int(rng.integers(2)), [QMIN, QMAX]] = [50, 60] if rng.random() < .5 else [-60, -50]
    lim = int(rng.choice([1, 2]))
    yield 'runpf: reactive limits with several references', lambda: api.runpf(far, opts(ENFORCE_Q_LIMS=lim)), lambda: api.runpf(ms, opts(ENFORCE_Q_LIMS=lim))
    nodir = os.path.join(d, 'nodir', 'out.txt')
    here = os.path.join(d, 'out%d.txt' % rng.integers(1e9))
    f = [api.runpf, api.rundcpf, api.runopf, api.rundcopf, api.runuopf][int(rng.integers(5))]
    yield 'study: report cannot be written', lambda: f(copy(tiny), opts(), nodir), lambda: f(copy(tiny), opts(), here)
    w = copy(src)
    w['gencost'] = np.c_[np.full(len(w['gen']), 2.), np.zeros((len(w['gen']), 2)), np.full(len(w['gen']), 3.), np.ones((len(w['gen']), 3))]
    nar = copy(w)
    nar['gencost'] = nar['gencost'].copy()
    nar['gencost'][int(rng.integers(len(nar['gencost']))), 3] = float(rng.choice([4, 6]))
    sv = os.path.join(d, 's%d.py' % rng.integers(1e9))
    yield 'savecase: narrow cost table', lambda: api.savecase(sv, nar), lambda: api.savecase(sv, w)
    yield 'savecase: directory', lambda: api.savecase(os.path.join(d, 'nodir', 'x.py'), copy(src)), lambda: api.savecase(sv, copy(src))
    from pypower.loadcase import loadcase
    bad = [12345, os.path.join(d, 'none'), os.path.join(d, 'none.py'), os.path.join(d, 'none.mat')][int(rng.integers(4))]
    # without error reporting by return value
    yield 'loadcase: no such case', lambda: loadcase(bad, True, False) if rng.random() < .0 else api.runpf(bad, opts()), lambda: loadcase(copy(src))


def user_sits(rng, src, d):
    from pypower import api
    ac = bool(rng.random() < .5)
    tiny = builtin(str(rng.choice(['case6ww', 'case9'])))
    if not ac:
        dcify(tiny)
    nb, ng = len(tiny['bus']), len(tiny['gen'])
    nx = 2 * nb + 2 * ng if ac or rng.random() < .5 else nb + ng
    go = (lambda p: api.runopf(p, opts())) if ac else (lambda p: api.rundcopf(p, opts()))
    pg = 2 * nb if nx == 2 * nb + 2 * ng else nb
    N = np.zeros((2, nx))
    N[0, pg], N[1, pg + 1] = 1, 1
    A = np.zeros((1, nx))
    A[0, pg] = 1

    def p(**kw):
        q = copy(tiny)
        q.update(kw)
        return q
    cost = lambda **kw: p(**dict(dict(N=sp(N), Cw=np.array([.1, .2])), **kw))
    T = lambda bad, good: ((lambda: go(bad)), (lambda: go(good)))
    yield ('opf: length of Cw',) + T(cost(Cw=np.ones(3)), cost())
    yield ('opf: rows of fparm',) + T(cost(fparm=np.ones((3, 1)) @ np.array([[1., 0, 0, 1]])), cost(fparm=np.ones((2, 1)) @ np.array([[1., 0, 0, 1]])))
    yield ('opf: size of H',) + T(cost(H=sp(np.eye(3))), cost(H=sp(np.eye(2))))
    from pypower.opf_args import opf_args, opf_args2
    f = opf_args if rng.random() < .5 else opf_args2
    V = lambda bad, good: ((lambda: f(bad, opts())), (lambda: f(good, opts())))
    yield ('opf_args: rows of H',) + V(cost(H=sp(np.ones((int(rng.choice([1, 3, 6])), 2)))), cost(H=sp(np.eye(2))))
    yield ('opf_args: columns of H',) + V(cost(H=sp(np.ones((2, int(rng.choice([1, 3, 6])))))), cost(H=sp(np.eye(2))))
    yield ('opf_args: length of Cw',) + V(cost(Cw=np.ones(int(rng.choice([1, 3])))), cost())
    yield ('opf_args: rows of fparm',) + V(cost(fparm=np.ones((int(rng.choice([1, 3])), 4))), cost(fparm=np.ones((2, 4))))
    yield ('opf_args: columns of N and A',) + V(cost(A=sp(A[:, :-1]), l=np.zeros(1), u=np.ones(1)), cost(A=sp(A), l=np.zeros(1), u=np.ones(1)))
    yield ('opf_args: dense N',) + V(cost(N=N), cost())
    yield ('opf_args: dense H',) + V(cost(H=np.eye(2)), cost(H=sp(np.eye(2))))
    yield ('opf_args: dense A',) + V(p(A=A, l=np.zeros(1), u=np.ones(1)), p(A=sp(A), l=np.zeros(1), u=np.ones(1)))
    yield ('opf: columns of N and A',) + T(cost(A=sp(np.c_[A, [[1.]]]), l=np.array([-1.]), u=np.array([9.])), cost(A=sp(A), l=np.array([-9.]), u=np.array([9.])))
    yield ('opf: columns of A',) + T(p(A=sp(A[:, :nb + ng - 1]), l=np.array([-9.]), u=np.array([9.])), p(A=sp(A), l=np.array([-9.]), u=np.array([9.])))
    yield ('opf: columns of N',) + T(cost(N=sp(N[:, :nb + ng - 1])), cost())
    if not ac and nx == 2 * nb + 2 * ng:
        col = int(rng.choice(np.r_[nb + np.arange(nb), 2 * nb + ng + np.arange(ng)]))
        A2, N2 = A.copy(), N.copy()
        A2[0, col] = N2[1, col] = 1
        yield ('dcopf: constraint on magnitudes or reactive power',) + T(p(A=sp(A2), l=np.array([-9.]), u=np.array([9.])), p(A=sp(A), l=np.array([-9.]), u=np.array([9.])))
        yield ('dcopf: cost on magnitudes or reactive power',) + T(cost(N=sp(N2)), cost())


def study_sits(rng, src, d):
    """valid studies say nothing"""
    from pypower import api
    yield 'pf', None, lambda: api.runpf(copy(src), opts(PF_ALG=int(rng.choice([1, 1, 2, 3])), ENFORCE_Q_LIMS=0))
    yield 'dcpf', None, lambda: api.rundcpf(copy(src), opts())
    from .opf import OFEATS
    from vlib.cases import pick_feats
    s = {'base': str(rng.choice(['case6ww', 'case9', 'case14', 'case30', 'net5'])), 'seed': int(rng.integers(1e6)),
         'feat': pick_feats(rng, [f for f in OFEATS], .35)}
    o = build(s)
    yield 'opf', None, lambda: api.runopf(copy(o), opts())
    yield 'dcopf', None, lambda: api.rundcopf(dcd(o), opts())
    yield 'saved and loaded', None, lambda: api.runpf(api.savecase(os.path.join(d, 'v%d.py' % rng.integers(1e9)), copy(src)) and copy(src), opts())
    from pypower.toggle_dcline import toggle_dcline


GROUPS = {'model': lambda rng, src, d: model_sits(rng), 'order': order_sits, 'cost': cost_sits, 'gen': gen_sits, 'fcn': fcn_sits,
          'toggle': toggle_sits, 'load': load_sits, 'run': run_sits, 'user': user_sits, 'study': study_sits}


def plan42(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 200, 2500), BASES, pool=FE, p=.3):
        s['group'] = sorted(GROUPS)[len(out) % len(GROUPS)]
        out.append(s)
    return out


FLOORS = {'called out': 500, 'silent': 500, 'quiet study': 20}


@prop('P42', 'data that breaks a documented requirement is answered by an exception or a message on standard error, the same call with good data by neither',
      plan42, floors=FLOORS)
def p42(spec, mon):
    src = floats(build(spec))
    rng = rng_for('diag', spec['seed'], spec['group'])
    d = tempfile.mkdtemp(prefix='verif-p42-')
    try:
        for name, bad, good in GROUPS[spec['group']](rng, src, d):
            if good is not None:
                e = Ears().listen(good)
                mon.check(e.exc is None, 'good-raises ' + name, '%s: good data raised %r' % (name, e.exc))
                mon.check(not e.err.strip() and not e.warn, 'good-complains ' + name, '%s: good data said %r %s' % (name, e.err[:200], e.warn[:2]))
                mon.count('silent' if bad is not None else 'quiet study')
                if bad is None:
                    mon.sig('quiet', name, feats_sig(spec), spec['base'])
            if bad is not None:
                e = Ears().listen(bad)
                if mon.check(e.spoke, 'bad-silent ' + name, '%s: nothing was said' % name):
                    mon.count('called out')
                    mon.count('by ' + ('message' if e.err.strip() else 'warning' if e.warn else 'exception'))
                mon.sig(name, 'm' if e.err.strip() else 'w' if e.warn else 'e')
    finally:
        shutil.rmtree(d, ignore_errors=True)
