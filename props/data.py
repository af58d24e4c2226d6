"""Case data: P12 ext2int/int2ext, P13 data/field conversion, P14 loadcase, P15 savecase."""
import os, copy as _copy
from functools import reduce as _red
from .common import *
from .pf import n_of
from .pf2 import deep_equal, arrays_equal

DB = ['case4gs', 'case6ww', 'case9', 'case14', 'case24_ieee_rts', 'case30', 'case30pwl', 'case39', 'case57', 'net8', 'net15', 'net30']
DEAD = ['offgen', 'offbranch', 'isolated', 'renumber', 'shuffle']
POOL = ['splitgen', 'pqgen', 'disp', 'qcost', 'pwl', 'parallel', 'widegen', 'widebr', 'taps']


# ------------------------------------------------------------------ P12
def plan12(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 260, 4000), DB, pool=DEAD + POOL, p=.5):
        s['user'] = str(rng.choice(['none', 'ac', 'dc', 'acz']))
        s['sparse'] = bool(rng.random() < .5)
        s['areas'] = int(rng.choice([-1, -1, 0, 1, 2, 5]))   # -1: as in the case, 0: none
        out.append(s)
    return out


@prop('P12', 'cases with dead units/branches/buses, arbitrary numbering and row order, Qg costs, AC/DC user constraint '
      'matrices (dense and sparse); distinct by (base, features, user data)', plan12, floors={'round trips': 200})
def p12(spec, mon):
    from pypower import api
    from scipy.sparse import csr_matrix
    src = build(spec)
    count_feats(mon, spec)
    rng = rng_for('p12', spec['base'], spec['seed'])
    nb, ng, nl = len(src['bus']), len(src['gen']), len(src['branch'])
    lb, lg, ll = live_bus(src), live_gen(src), live_branch(src)
    nz = 0
    if spec['user'] != 'none':
        nz = 3 if spec['user'] == 'acz' else 0
        nx = (nb + ng if spec['user'] == 'dc' else 2 * nb + 2 * ng) + nz
        for k, m in (('A', 4), ('N', 2)):
            M = rng.normal(size=(m, nx)) * (rng.random((m, nx)) < .6)
            src[k] = csr_matrix(M) if spec['sparse'] else M
    if spec['areas'] == 0:
        src.pop('areas', None)
    elif spec['areas'] > 0:                    # any bus, dead ones included, can be an area's price reference
        na = spec['areas']
        bad, pick = src['bus'][~lb, BUS_I], rng.choice(src['bus'][:, BUS_I], na)
        if len(bad) and rng.random() < .6:
            pick[int(rng.integers(na))] = bad[0]
        src['areas'] = np.c_[1. + np.arange(na), pick]
    src['custom'] = {'note': 'kept', 'v': np.arange(3.)}
    orig = _copy.deepcopy(src)
    q = api.ext2int(src)
    pos = bus_pos(src)
    # --- internal form
    mon.check(q['bus'].shape[0] == lb.sum() and q['gen'].shape[0] == lg.sum() and q['branch'].shape[0] == ll.sum(),
              'live-rows', 'internal case has %s rows, live equipment %s' %
              ((q['bus'].shape[0], q['gen'].shape[0], q['branch'].shape[0]), (lb.sum(), lg.sum(), ll.sum())))
    same(mon, q['bus'][:, BUS_I], np.arange(lb.sum()), 'consecutive', 'internal bus numbers')
    mon.check(np.all(np.diff(q['gen'][:, GEN_BUS]) >= 0), 'gens-sorted', 'internal units not ordered by bus')
    same(mon, q['bus'][:, 1:], src['bus'][lb][:, 1:], 'bus-data', 'internal bus rows')
    newnum = {int(b): i for i, b in enumerate(src['bus'][lb, BUS_I])}
    want = src['branch'][ll].copy()
    for c in (F_BUS, T_BUS):
        want[:, c] = [newnum[int(x)] for x in want[:, c]]
    same(mon, q['branch'], want, 'branch-data', 'internal branch rows')
    want = src['gen'][lg].copy()
    want[:, GEN_BUS] = [newnum[int(x)] for x in want[:, GEN_BUS]]
    full = np.hstack([want, src['gencost'][:ng][lg]]) if 'gencost' in src else want
    got = np.hstack([q['gen'], q['gencost'][:len(q['gen'])]]) if 'gencost' in src else q['gen']
    if 'gencost' in src and len(src['gencost']) == 2 * ng:
        full = np.hstack([full, src['gencost'][ng:][lg]])
        got = np.hstack([got, q['gencost'][len(q['gen']):]])
        mon.count('reactive costs')
    key = lambda M: M[np.lexsort(M.T[::-1])]
    same(mon, key(got), key(full), 'gen-data', 'internal units (with their costs)')
    if 'areas' in src and 'areas' in q:
        al = [int(x) in newnum for x in src['areas'][:, 1]]
        same(mon, q['areas'][:, 1], [newnum[int(x)] for x in src['areas'][al, 1]], 'areas', 'area reference buses')
        same(mon, q['areas'][:, 0], src['areas'][al, 0], 'areas', 'area numbers')
        mon.count('dropped areas', int((~np.array(al, bool)).sum()))
    # --- user matrices follow the variables: compare the linear function they define
    if spec['user'] != 'none':
        gi = np.asarray(q['order']['gen']['e2i']).astype(int)
        gl = np.flatnonzero(lg)[gi]            # external row of each internal unit
        # check that order itself describes the internal units
        mon.check(np.array_equal(src['gen'][gl][:, 1:], q['gen'][:, 1:]), 'gen-order', 'order info does not describe the internal units')
        bl = np.flatnonzero(lb)
        cols = np.r_[bl, nb + gl] if spec['user'] == 'dc' else np.r_[bl, nb + bl, 2 * nb + gl, 2 * nb + ng + gl]
        nx0 = nb + ng if spec['user'] == 'dc' else 2 * nb + 2 * ng
        cols = np.r_[cols, nx0 + np.arange(nz)].astype(int)
        for k in ('A', 'N'):
            d = lambda M: M.toarray() if hasattr(M, 'toarray') else np.asarray(M)
            same(mon, d(q[k]), d(src[k])[:, cols], 'user-' + k, 'columns of user matrix ' + k)
    # --- back again
    r = api.int2ext(_copy.deepcopy(q))
    mon.count('round trips')
    for k in ('bus', 'gen', 'branch', 'gencost', 'areas', 'A', 'N', 'baseMVA', 'version', 'custom'):
        if k in orig and not (k == 'areas' and len(orig[k]) == 0):
            d = deep_equal(orig[k], r.get(k), k)
            mon.check(d is None, 'roundtrip-' + k, 'round trip changed %s' % d)
    # --- internal results land in the right external rows, dead rows keep their data
    w = _copy.deepcopy(q)
    w['bus'][:, VM] = 1000 + np.arange(len(w['bus']))
    w['gen'][:, PG] = 5000 + 10 * w['gen'][:, GEN_BUS] + w['gen'][:, QMAX] * 1e-3
    w['branch'][:, RATE_C] = 9000 + w['branch'][:, F_BUS] * 100 + w['branch'][:, T_BUS]
    r = api.int2ext(w)
    eb, eg, el = orig['bus'].copy(), orig['gen'].copy(), orig['branch'].copy()
    eb[lb, VM] = 1000 + np.arange(lb.sum())
    for k in np.flatnonzero(lg):
        eg[k, PG] = 5000 + 10 * newnum[int(eg[k, GEN_BUS])] + eg[k, QMAX] * 1e-3
    for k in np.flatnonzero(ll):
        el[k, RATE_C] = 9000 + newnum[int(el[k, F_BUS])] * 100 + newnum[int(el[k, T_BUS])]
    same(mon, r['bus'], eb, 'results-bus', 'external bus rows after internal update')
    same(mon, r['gen'], eg, 'results-gen', 'external gen rows after internal update')
    same(mon, r['branch'], el, 'results-branch', 'external branch rows after internal update')
    # --- converting twice, and again after coming back
    q2 = api.ext2int(q)
    mon.check(all(arrays_equal(q2[k], q[k]) for k in ('bus', 'gen', 'branch')), 'idempotent', 'a second ext2int changed the data')
    q3 = api.ext2int(api.int2ext(_copy.deepcopy(q)))
    mon.check(all(arrays_equal(q3[k], q[k]) for k in ('bus', 'gen', 'branch')), 'cycle', 'ext2int after int2ext differs')
    mon.sig(spec['base'], feats_sig(spec), spec['user'], spec['sparse'])
    # simple bus renumbering helpers
    from pypower.ext2int import ext2int1
    from pypower.int2ext import int2ext1
    a = [orig[k].copy() for k in ('bus', 'gen', 'branch')]
    ar = orig['areas'].copy() if 'areas' in orig and len(orig['areas']) else None
    o = ext2int1(*a, ar) if ar is not None else ext2int1(*a)
    same(mon, o[1][:, BUS_I], np.arange(nb), 'renumber', 'consecutive numbers (simple form)')
    o = int2ext1(*o)
    for k, x in zip(('bus', 'gen', 'branch', 'areas'), o):
        same(mon, x, orig[k], 'renumber-back', 'simple renumbering round trip: ' + k)
    mon.sample(dict(spec, dead=[int((~lb).sum()), int((~lg).sum()), int((~ll).sum())]))


# ------------------------------------------------------------------ P13
def plan13(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 220, 3000), DB, pool=DEAD + ['splitgen', 'pqgen'], p=.55):
        k = int(rng.integers(1, 4))
        s['ordering'] = [str(x) for x in rng.choice(['bus', 'gen', 'branch'], k)]
        s['form'] = str(rng.choice(['vector', 'rows', 'cols', 'sprows', 'spcols']))
        s['extra'] = int(rng.choice([0, 0, 2]))
        s['field'] = str(rng.choice(['data', 'field', 'nested']))
        s['dt'] = str(rng.choice(['ff', 'ff', 'fi', 'if', 'ii']))   # external, internal: fractional or whole numbers
        out.append(s)
    return out


@prop('P13', 'vectors, dense and sparse matrices with one to three bus/gen/branch blocks plus extra rows, converted as '
      'values, fields and nested fields; distinct by (base, features, ordering, form, field)', plan13,
      floors={'conversions': 150})
def p13(spec, mon):
    from pypower import api
    from pypower.e2i_data import e2i_data
    from pypower.i2e_data import i2e_data
    from pypower.e2i_field import e2i_field
    from pypower.i2e_field import i2e_field
    from scipy.sparse import csr_matrix
    src = build(spec)
    rng = rng_for('p13', spec['base'], spec['seed'])
    live = {'bus': live_bus(src), 'gen': live_gen(src), 'branch': live_branch(src)}
    q = api.ext2int(src)
    gi = np.asarray(q['order']['gen']['e2i']).astype(int)
    idx = {k: np.flatnonzero(v) for k, v in live.items()}
    idx['gen'] = idx['gen'][gi]
    mon.check(np.array_equal(src['gen'][idx['gen']][:, 1:], q['gen'][:, 1:]), 'gen-order', 'order info does not describe the internal units')
    ordr, form = spec['ordering'], spec['form']
    if form == 'vector' or len(ordr) == 1:
        pass
    n = sum(len(live[o]) for o in ordr) + spec['extra']
    if len(ordr) == 1:
        n -= spec['extra']
    dim = 0 if form in ('vector', 'rows', 'sprows') else 1
    dt = spec['dt']
    num = lambda size, k: rng.normal(size=size) if k == 'f' else rng.integers(-99, 99, size=size)
    v = num(n if form == 'vector' else (n, 3) if dim == 0 else (3, n), dt[0])
    ext_rows, b = [], 0
    for o in ordr:
        ext_rows.append(b + idx[o])
        b += len(live[o])
    if len(ordr) > 1:
        ext_rows.append(np.arange(b, n))
    ext_rows = np.concatenate(ext_rows).astype(int)
    want = v[ext_rows] if dim == 0 else v[:, ext_rows]
    sp = form.startswith('sp')
    val = csr_matrix(v) if sp else v.copy()
    o_arg = ordr[0] if len(ordr) == 1 else list(ordr)
    D = lambda M: M.toarray() if hasattr(M, 'toarray') else np.asarray(M)
    upd = num(want.shape, dt[1])
    new = csr_matrix(upd) if sp else upd.copy()
    expect = v.astype(float)
    if dim == 0:
        expect[ext_rows] = upd
    else:
        expect[:, ext_rows] = upd
    if spec['seed'] % 5 == 0:
        # the earlier spelling of the conversions, still accepted with a warning
        mon.count('earlier spelling')
        e2i_data = lambda p, x, o_, d: api.ext2int(p, x, o_, d)
        i2e_data = lambda p, x, old, o_, d: api.int2ext(p, x, old, o_, d)
        old_e2i, old_i2e = e2i_field, i2e_field
        e2i_field = lambda p, f_, o_, d=0: api.ext2int(p, f_, o_, d) if d or not isinstance(f_, str) else api.ext2int(p, f_, o_)
        i2e_field = lambda p, f_, o_, d=0: api.int2ext(p, f_, o_, d)
    if spec['field'] == 'data':
        same(mon, D(e2i_data(q, val, o_arg, dim)), want, 'e2i', 'external to internal data')
        same(mon, D(val), v, 'e2i-arg', 'argument of the conversion changed')
        same(mon, D(i2e_data(q, new, val, o_arg, dim)), expect, 'i2e', 'internal to external data')
        same(mon, D(val), v, 'i2e-arg', 'old value passed to the conversion changed')
    else:
        if spec['field'] == 'field':
            fld = 'mydata'
            q['mydata'] = val
            put = lambda p, w: p.__setitem__('mydata', w)
            get = lambda p: p['mydata']
        elif rng.random() < .5:
            fld = ['mine', 'sub']
            q['mine'] = {'sub': val, 'other': 5}
            put = lambda p, w: p['mine'].__setitem__('sub', w)
            get = lambda p: p['mine']['sub']
        else:
            fld = ['mine', 'mid', 'sub']
            q['mine'] = {'mid': {'sub': val, 'x': 7}, 'other': 5}
            put = lambda p, w: p['mine']['mid'].__setitem__('sub', w)
            get = lambda p: p['mine']['mid']['sub']
        # a second field next to it, converted in between, must not mix with the first
        sib = rng.random() < .5
        vb, gb = rng.normal(size=len(live['bus'])), q.setdefault('mine', {})
        if sib:
            gb['sib'] = vb.copy()
        first = rng.random() < .5
        if sib and first:
            q = e2i_field(q, ['mine', 'sib'], 'bus')
        q = e2i_field(q, fld, o_arg, dim)
        same(mon, D(get(q)), want, 'e2i-field', 'external to internal field')
        path = [fld] if isinstance(fld, str) else fld
        kept = lambda w: _red(lambda d, k: d[k], path, q['order'][w])
        same(mon, D(kept('ext')), v, 'field-saved', 'original external value of the field')
        if sib:
            if not first:
                q = e2i_field(q, ['mine', 'sib'], 'bus')
            same(mon, q['mine']['sib'], vb[idx['bus']], 'e2i-field', 'second field')
            same(mon, D(get(q)), want, 'field-sibling', 'converting another field changed the first')
            same(mon, D(kept('ext')), v, 'field-saved', 'original external value of the field after converting another')
            same(mon, q['order']['ext']['mine']['sib'], vb, 'field-saved', 'original external value of the other field')
        put(q, new)
        q = i2e_field(q, fld, o_arg, dim)
        same(mon, D(get(q)), expect, 'i2e-field', 'internal to external field')
        same(mon, D(kept('int')), upd, 'field-saved', 'internal value of the field')
        if sib:
            ub = rng.normal(size=len(idx['bus']))
            q['mine']['sib'] = ub
            q = i2e_field(q, ['mine', 'sib'], 'bus')
            wb = vb.copy()
            wb[idx['bus']] = ub
            same(mon, q['mine']['sib'], wb, 'i2e-field', 'second field back')
            same(mon, D(get(q)), expect, 'field-sibling', 'converting another field back changed the first')
            same(mon, D(kept('int')), upd, 'field-saved', 'internal value of the field after converting another')
            same(mon, q['order']['int']['mine']['sib'], ub, 'field-saved', 'internal value of the other field')
        if spec['field'] == 'nested':
            mon.check(q['mine']['other'] == 5 and ('mid' not in q['mine'] or q['mine']['mid']['x'] == 7), 'field-sibling', 'sibling of a nested field changed')
    mon.count('conversions')
    mon.count('dead rows', sum((~live[o]).sum() for o in ordr))
    mon.sig(spec['base'], feats_sig(spec), tuple(ordr), form, spec['field'], spec['extra'], dt)


# ------------------------------------------------------------------ P14
CASES = ALL


def plan14(tier, rng):
    out = [dict(kind='builtin', base=b, seed=0, feat=[]) for b in CASES]
    for b in ['case9', 'case14', 'case30', 'net8']:
        for kind in ('py-dict', 'py-tuple4', 'py-tuple6', 'mat', 'noext', 'dict-v1', 'errors', 'lists', 'which'):
            for i in range(n_of(tier, 2, 25)):
                out.append(dict(kind=kind, base=b, seed=int(rng.integers(1 << 30)),
                                feat=pick_feats(rng, ['loads', 'splitgen', 'offgen', 'offbranch', 'isolated', 'taps', 'renumber', 'shuffle'], .3)))
    for b in ['case6ww', 'case9', 'case14', 'case30', 'net3', 'net5', 'net8']:
        for i in range(n_of(tier, 6, 60)):
            out.append(dict(kind='study', base=b, seed=int(rng.integers(1 << 30)),
                            study=str(rng.choice(['runpf', 'rundcpf', 'runopf', 'opf', 'rundcopf', 'dcopf', 'runuopf'] if len(b) < 6 else ['runpf', 'rundcpf', 'runopf', 'opf', 'rundcopf', 'dcopf'])),
                            form=str(rng.choice(['py', 'py', 'noext', 'mat', 'v1', 'v1-more'])),
                            feat=pick_feats(rng, ['loads', 'splitgen', 'offgen', 'offbranch', 'isolated', 'taps', 'renumber', 'shuffle', 'qcost', 'pwl', 'disp'], .3)))
    return out


def run_forms(spec, mon, src, rng, d, name):
    """a study of a case given by name, or as version-1 data, against the same study of its tables"""
    from pypower import api
    from pypower.loadcase import loadcase
    from scipy.sparse import csr_matrix
    from .out import equal
    from .ext import dcify
    study = spec['study']
    dc = study in ('rundcpf', 'rundcopf', 'dcopf')
    if dc:
        dcify(src)
    opf = 'opf' in study
    extra = {}
    if opf and rng.random() < .5:
        # user constraints and data of the user's own travel with the case, whatever way it is given
        lg = live_gen(src)
        nb, ng = len(src['bus']), len(src['gen'])
        nx = nb + ng if dc else 2 * nb + 2 * ng
        o = nb if dc else 2 * nb
        A = np.zeros((1, nx))
        A[0, o + np.flatnonzero(lg)] = 1
        cap = src['gen'][lg, PMAX].sum() / src['baseMVA']
        extra = dict(A=A, l=np.array([-1e3 * (1 + abs(cap))]), u=np.array([1e3 * (1 + abs(cap))]))
    tag = {'note': 'kept', 'v': [1., 2.]}
    full = dict(src, mine=tag, **extra)
    full['version'] = '2'
    if 'A' in extra:
        full['A'] = csr_matrix(extra['A'])
    form = spec['form']
    if form in ('py', 'noext'):
        f = os.path.join(d, name + '.py')
        with open(f, 'w') as fh:
            fh.write('from numpy import array, inf\nfrom scipy.sparse import csr_matrix\n\ndef %s():\n    ppc = {"version": "2"}\n' % name)
            for k in full:
                if k == 'A':
                    fh.write('    ppc["A"] = csr_matrix(%s)\n' % fmt(extra['A']))
                elif k in ('l', 'u'):
                    fh.write('    ppc["%s"] = array(%r)\n' % (k, extra[k].tolist()))
                elif k != 'version':
                    fh.write('    ppc["%s"] = %s\n' % (k, fmt(full[k]) if isinstance(full[k], np.ndarray) else repr(full[k])))
            fh.write('    return ppc\n')
        given = f if form == 'py' else f[:-3]
    elif form == 'mat':
        from scipy.io import savemat
        f = os.path.join(d, name + '.mat')
        full = {k: src[k] for k in ('baseMVA', 'bus', 'gen', 'branch', 'areas', 'gencost')}
        full['version'] = '2'
        savemat(f, {'ppc': full})
        given = f if rng.random() < .5 else f[:-4]
    else:
        given = to_v1(src)
        full = dict(from_v1(given), version='2')
        given = _copy.deepcopy(given)
        if rng.random() < .5:
            given['version'] = '1'
        if form == 'v1-more':
            given['mine'] = full['mine'] = tag
    fn = {'opf': api.opf}.get(study) or getattr(api, study, None) or __import__('pypower.' + study, fromlist=[study]).__dict__[study]
    kw = dict(PF_DC=dc, PDIPM_MAX_IT=80)
    a, b = fn(given, opts(**kw)), fn(full, opts(**kw))
    mon.count('studies')
    mon.count('studies of ' + form)
    if isinstance(a, tuple):
        mon.check(a[1] == b[1], 'study-success', '%s: success %s by name, %s with the data' % (study, a[1], b[1]))
        a, b = a[0], b[0]
    for k in b:
        if k not in ('et', 'om', 'order', 'userfcn'):
            if mon.check(k in a, 'study-fields', '%s of the case as %s: no field %s' % (study, form, k)):
                if form == 'mat' and k in ('version', 'areas'):
                    continue
                mon.check(equal(a[k], b[k]), 'study-same', '%s of the case as %s: %s differs' % (study, form, k))
    c = loadcase(a)
    if mon.check(isinstance(c, dict), 'result-case', 'the result is not a case: %r' % (c,)):
        for k in ('bus', 'gen', 'branch'):
            same(mon, c[k], a[k], 'result-case', 'result of %s loaded as a case: %s' % (study, k))


def fmt(M):
    return 'array([' + ',\n'.join('[' + ', '.join(repr(float(x)) if np.isfinite(x) else ('inf' if x > 0 else '-inf') for x in r) + ']' for r in np.asarray(M)) + '])'


@prop('P14', 'built-in cases (fresh, well-formed), and the same data given as dict, version-1 dict, .py file returning a dict or a '
      'tuple, .mat file, extension-less name, plus malformed inputs; distinct by (form, base, features)', plan14,
      floors={'forms': 60, 'studies': 30})
def p14(spec, mon):
    from pypower import api
    from pypower.loadcase import loadcase
    kind = spec['kind']
    mon.sig(kind, spec['base'], feats_sig(spec))
    mon.count('forms')
    mon.count('form ' + kind)
    if kind == 'builtin':
        p = builtin(spec['base'])
        well_formed(mon, p, spec['base'])
        r, ok = api.runpf(p, opts())
        mon.check(ok, 'builtin-solves', 'power flow of %s does not converge' % spec['base'])
        return
    src = build(spec)
    rng = rng_for('p14', spec['seed'])
    d = os.path.join(os.environ['VERIF_SCRATCH'], 'lc_%d_%d' % (os.getpid(), spec['seed']))
    os.makedirs(d, exist_ok=True)
    name = str(rng.choice(['mycase', 's', 'd', 'fname', 'casefile', 'info', 'case9', 'x1']))
    KEYS = ['baseMVA', 'bus', 'gen', 'branch', 'areas', 'gencost']
    src.setdefault('areas', np.array([[1., src['bus'][0, BUS_I]]]))
    if 'gencost' not in src:
        src['gencost'] = np.zeros((len(src['gen']), 7))

    def cmp(p, want, what):
        if not mon.check(isinstance(p, dict), 'loads-' + what, 'loadcase returned %r' % (p,)):
            return
        for k in want:
            if k in ('bus', 'gen', 'branch', 'areas', 'gencost'):
                mon.close(p[k], want[k], 0, 'same-' + what, '%s: %s' % (what, k), rel=1e-14)
        mon.check(float(np.asarray(p['baseMVA']).ravel()[0]) == float(want['baseMVA']) and np.size(p['baseMVA']) == 1
                  and np.ndim(p['baseMVA']) == 0, 'baseMVA-' + what, 'baseMVA %r' % (p['baseMVA'],))
    if kind in ('py-dict', 'noext'):
        f = os.path.join(d, name + '.py')
        with open(f, 'w') as fh:
            fh.write('from numpy import array, inf\n\ndef %s():\n    ppc = {"version": "2"}\n' % name)
            for k in KEYS:
                fh.write('    ppc["%s"] = %s\n' % (k, repr(src[k]) if k == 'baseMVA' else fmt(src[k])))
            fh.write('    return ppc\n')
        cmp(loadcase(f if kind == 'py-dict' else os.path.join(d, name)), src, kind)
        l = loadcase(f, False)
        mon.check(isinstance(l, list) and len(l) == 6, 'as-list', 'list form has %s items' % (len(l) if isinstance(l, list) else l))
        if isinstance(l, list) and len(l) == 6:
            for x, k in zip(l, KEYS):
                mon.close(x, src[k], 0, 'as-list', 'list form: ' + k, rel=1e-14)
        l = loadcase(f, False, False, False)
        mon.check(isinstance(l, list) and len(l) == 4, 'as-list4', 'list form without costs')
    elif kind in ('py-tuple4', 'py-tuple6'):
        v1 = to_v1(src)
        keys = KEYS[:4] if kind == 'py-tuple4' else KEYS
        f = os.path.join(d, name + '.py')
        with open(f, 'w') as fh:
            fh.write('from numpy import array, inf\n\ndef %s():\n' % name)
            for k in keys:
                fh.write('    %s_ = %s\n' % (k, repr(v1[k]) if k == 'baseMVA' else fmt(v1[k])))
            fh.write('    return %s\n' % ', '.join(k + '_' for k in keys))
        want = from_v1(v1)
        cmp(loadcase(f), {k: want[k] for k in keys}, kind)
        if kind == 'py-tuple4':
            mon.check(isinstance(loadcase(f, False, False, False), list), 'as-list4', 'tuple of four not loaded')
    elif kind == 'mat':
        from scipy.io import savemat
        f = os.path.join(d, name + '.mat')
        if rng.random() < .5:
            savemat(f, {'mpc' if rng.random() < .5 else 'ppc': {k: src[k] for k in KEYS + ['version'] if k in src}})
        else:
            savemat(f, {k: src[k] for k in KEYS})
        p = loadcase(f if rng.random() < .5 else os.path.join(d, name))
        cmp(p, src, kind)
        if rng.random() < .5:
            a, b = api.runpf(f, opts())[0], api.runpf(copy(src), opts())[0]
            mon.close(a['bus'][:, VM], b['bus'][:, VM], 1e-12, 'mat-solves', 'solution from MAT file')
    elif kind == 'dict-v1':
        solved = rng.random() < .5
        v1 = to_v1(src, solved, rng)
        before = _copy.deepcopy(v1)
        p = loadcase(v1)
        cmp(p, from_v1(before, solved), kind)
        mon.check(deep_equal(before, v1) is None, 'v1-arg', 'version-1 dict changed')
    elif kind == 'which':
        # a name without extension: the .mat file if there is one, else the .py file; a name with one: that file only
        from scipy.io import savemat
        there = [str(k) for k in rng.permutation(['mat', 'py', 'mat.py'])[:int(rng.integers(1, 4))]] + ['here']
        made = {}
        for k in there[:-1]:
            made[k] = copy(src)
            made[k]['bus'][:, PD] = rng.uniform(0, 90, len(src['bus']))
            f = os.path.join(d, name + '.' + k)
            if k == 'mat':
                savemat(f, {'ppc': {q: made[k][q] for q in KEYS + ['version'] if q in made[k]}})
            else:
                with open(f, 'w') as fh:
                    fh.write('from numpy import array, inf\n\ndef %s():\n    ppc = {"version": "2"}\n' % name.split('.')[0])
                    for q in KEYS:
                        fh.write('    ppc["%s"] = %s\n' % (q, repr(made[k][q]) if q == 'baseMVA' else fmt(made[k][q])))
                    fh.write('    return ppc\n')
        with contextlib.redirect_stderr(io.StringIO()):
            for ask in ('', '.mat', '.py'):
                want = ask[1:] or next((k for k in ('mat', 'py') if k in made), None)
                p = loadcase(os.path.join(d, name + ask))
                if want in made:
                    mon.count('chosen among %d' % len(made))
                    cmp(p, made[want], 'which')
                else:
                    mon.check(not isinstance(p, dict) and p == {'': 2, '.mat': 3, '.py': 4}[ask], 'which', 'asked for %r of %s: %r' % (ask, sorted(made), type(p)))
    elif kind == 'study':
        run_forms(spec, mon, src, rng, d, name)
    elif kind == 'lists':
        p = loadcase(src, False)
        mon.check(isinstance(p, list) and len(p) == 6, 'as-list', 'list form')
        q = loadcase(src)
        mon.check(isinstance(q, dict) and all(k in q for k in src), 'keeps-fields', 'fields lost')
        same(mon, q['bus'], src['bus'], 'dict-bus', 'bus')
        q['bus'][:] = 0
        mon.check(np.any(src['bus'] != 0), 'dict-copy', 'loadcase returned the caller\'s arrays')
    else:
        err = contextlib.redirect_stderr(io.StringIO())
        with err:
            mon.check(loadcase(12345) == 1, 'err-type', 'input of a wrong type')
            mon.check(loadcase(os.path.join(d, 'nosuchcase')) == 2, 'err-noext', 'missing extension-less file')
            mon.check(loadcase(os.path.join(d, 'nosuchcase.mat')) == 3, 'err-mat', 'missing MAT file')
            mon.check(loadcase(os.path.join(d, 'nosuchcase.py')) == 4, 'err-py', 'missing .py file')
            for k in ('bus', 'gen', 'branch', 'baseMVA'):
                q = copy(src)
                del q[k]
                mon.check(loadcase(q) == 5, 'err-field', 'dict without ' + k)
            q = copy(src)
            q['gen'] = None
            mon.check(loadcase(q) == 5, 'err-field', 'dict with an empty field')
            q = copy(src)
            del q['gencost']
            mon.check(loadcase(q, False, True, False) == 5, 'err-gencost', 'expected gencost missing')
            mon.check(isinstance(loadcase(q), dict), 'ok-gencost', 'gencost is optional')
            for txt in ('def bad(:\n', 'def bad():\n    return 1, 2\n', 'def other():\n    return {}\n',
                        'def bad():\n    return {"bus": 1}\n'):
                f = os.path.join(d, 'bad.py')
                with open(f, 'w') as fh:
                    fh.write(txt)
                mon.check(loadcase(f) == 5, 'err-syntax', 'malformed file %r' % txt)


def to_v1(src, solved=False, rng=None):
    v = {k: src[k] for k in ('baseMVA', 'areas', 'gencost') if k in src}
    v['bus'] = src['bus'][:, :13].copy()
    v['gen'] = src['gen'][:, :10].copy()
    v['branch'] = src['branch'][:, :11].copy()
    if solved:
        v['gen'] = np.hstack([v['gen'], rng.random((len(v['gen']), 4))])
        v['branch'] = np.hstack([v['branch'], rng.normal(size=(len(v['branch']), 4 if rng.random() < .5 else 6))])
    return v


def from_v1(v, solved=False):
    out = dict(v)
    g, b = v['gen'], v['branch']
    out['gen'] = np.hstack([g[:, :10], np.zeros((len(g), 11)), g[:, 10:]])
    lim = np.tile([-360., 360.], (len(b), 1))
    out['branch'] = np.hstack([b[:, :11], lim, b[:, 11:]] + ([np.zeros((len(b), 2))] if b.shape[1] == 17 else []))
    return out


def well_formed(mon, p, name):
    b, g, l = p['bus'], p['gen'], p['branch']
    ids = list(b[:, BUS_I])
    m = 'well-formed'
    mon.check(len(set(ids)) == len(ids) and all(float(x).is_integer() and x >= 0 for x in ids), m, name + ': bus numbers')
    mon.check(set(g[:, GEN_BUS]) <= set(ids) and set(l[:, F_BUS]) <= set(ids) and set(l[:, T_BUS]) <= set(ids), m, name + ': dangling bus number')
    mon.check(b.shape[1] == 13 and g.shape[1] == 21 and l.shape[1] == 13, m, name + ': column counts')
    mon.check(np.all(np.isin(b[:, BUS_TYPE], [1, 2, 3, 4])) and (b[:, BUS_TYPE] == REF).sum() == 1, m, name + ': bus types')
    mon.check(np.all(b[:, VMAX] >= b[:, VMIN]) and np.all(g[:, PMAX] >= g[:, PMIN]) and np.all(g[:, QMAX] >= g[:, QMIN]), m, name + ': limits crossed')
    mon.check(np.all(l[:, BR_X] != 0) and np.all(l[:, F_BUS] != l[:, T_BUS]), m, name + ': branch data')
    mon.check(np.all(np.isfinite(b)) and np.all(np.isfinite(l)) and p['baseMVA'] > 0, m, name + ': non-finite data')
    mon.check(is_connected_without(p, set()), m, name + ': not connected')
    ref = b[b[:, BUS_TYPE] == REF, BUS_I][0]
    mon.check(np.any((g[:, GEN_BUS] == ref) & (g[:, GEN_STATUS] > 0)), m, name + ': no unit at the reference bus')
    if 'gencost' in p:
        gc = p['gencost']
        mon.check(len(gc) in (len(g), 2 * len(g)), m, name + ': gencost rows')
        mon.check(np.all(np.isin(gc[:, MODEL], [1, 2])) and all(4 + (2 * r[NCOST] if r[MODEL] == 1 else r[NCOST]) <= gc.shape[1] for r in gc), m, name + ': gencost')


# ------------------------------------------------------------------ P15
def plan15(tier, rng):
    out = []
    for s in mkspecs(rng, n_of(tier, 120, 1500), ['case6ww', 'case9', 'case14', 'case30', 'case30pwl', 'net8', 'net15', 'case24_ieee_rts'],
                     pool=DEAD + ['splitgen', 'disp', 'qcost', 'pwl', 'taps', 'widegen', 'shunts', 'basemva', 'anglim'], p=.4):
        s['ext'] = str(rng.choice(['.py', '.mat', '']))
        s['solved'] = str(rng.choice(['no', 'no', 'pf', 'dcpf', 'opf']))
        s['user'] = bool(rng.random() < .3)
        s['inf'] = bool(rng.random() < .3)
        out.append(s)
    return out


@prop('P15', 'unsolved and solved cases (power flow, DC, OPF), mixed costs, infinite limits, user constraints/costs/variables, saved '
      'as .py, .mat and without extension, reloaded and re-solved; distinct by (base, features, extension, solved, user)',
      plan15, floors={'round trips': 80})
def p15(spec, mon):
    from pypower import api
    from pypower.loadcase import loadcase
    from scipy.sparse import csr_matrix
    src = build(spec)
    rng = rng_for('p15', spec['base'], spec['seed'])
    d = os.path.join(os.environ['VERIF_SCRATCH'], 'sv_%d_%d' % (os.getpid(), spec['seed']))
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 'saved' + spec['ext'])
    o = opts()
    if spec['inf'] and spec['solved'] == 'no':
        src['gen'][0, PMAX] = np.inf
        src['bus'][0, VMAX] = np.inf
        src['gen'][0, QMIN] = -np.inf
    if spec['solved'] == 'pf':
        src = api.runpf(src, o)[0]
    elif spec['solved'] == 'dcpf':
        src = api.rundcpf(src, o)[0]
    elif spec['solved'] == 'opf' and 'gencost' in src:
        src = api.runopf(src, o)
        src.pop('om', None)
    user = spec['user'] and spec['solved'] == 'no'
    if user:
        nx = 2 * len(src['bus']) + 2 * len(src['gen']) + 2
        for k, m in (('A', 3), ('N', 2), ('H', 2)):
            M = np.round(rng.normal(size=(m, nx if k != 'H' else 2)) * (rng.random((m, nx if k != 'H' else 2)) < .5), 5)
            src[k] = csr_matrix(M) if rng.random() < .6 else M
        src['l'], src['u'] = np.array([-np.inf, -1.25, .5]), np.array([3.5, np.inf, .5])
        if rng.random() < .3:
            src.pop(str(rng.choice(['l', 'u'])))
        src['Cw'] = np.round(rng.normal(size=2), 4)
        if rng.random() < .7:
            src['fparm'] = np.array([[1, 0, 0, 1], [2, .25, .125, 3.]])
        src['z0'], src['zl'], src['zu'] = np.zeros(2), np.array([-1., -2]), np.array([1.5, 2.5])
    if rng.random() < .3:
        src.pop('version', None)        # savecase writes version 2 unless told otherwise
    elif rng.random() < .2:
        src['version'] = 2
    before = _copy.deepcopy({k: v for k, v in src.items() if k not in ('raw', 'var', 'nln', 'lin', 'mu', 'order', 'om')})
    comment = [None, 'one line', ['several', 'lines']][int(rng.integers(3))]
    r = api.savecase(f, src, comment)
    want = f if spec['ext'] else f + '.py'
    mon.check(r == want and os.path.exists(want), 'file-name', 'savecase returned %r' % r)
    mon.check(deep_equal(before, {k: src.get(k) for k in before}) is None and ('version' in src) == ('version' in before), 'arg-unchanged', 'savecase changed its argument')
    p = loadcase(want)
    if not mon.check(isinstance(p, dict), 'reload', 'saved case cannot be loaded (%r)' % (p,)):
        return
    mon.count('round trips')
    mon.count('saved ' + (spec['ext'] or 'no extension'))
    mon.sig(spec['base'], feats_sig(spec), spec['ext'], spec['solved'], user, spec['inf'])
    exact = spec['ext'] == '.mat'

    def near(a, b, mech, what, fourdec=False):
        """saved text has 9 significant digits (4 decimals for solved quantities)"""
        a, b = np.asarray(a, float), np.asarray(b, float)
        mon.count('oracle:' + mech)
        if a.shape != b.shape:
            mon.fail(mech, '%s: shape %s after reloading, %s before' % (what, a.shape, b.shape))
            return
        if exact:
            ok = a == b
        else:
            with np.errstate(all='ignore'):
                ok = (a == b) | (abs(a - b) <= (6e-5 if fourdec else 0) + 5.1e-9 * abs(b))
        ok |= np.isnan(a) & np.isnan(b)
        if not ok.all():
            i = tuple(np.argwhere(~ok)[0])
            mon.fail(mech, '%s%s is %r after reloading, %r before' % (what, list(map(int, i)), a[i], b[i]))
    b = before
    near(p['baseMVA'], b['baseMVA'], 'baseMVA', 'baseMVA')
    for k, n, sol in (('bus', 13, 17), ('gen', 21, 25), ('branch', 13, 21)):
        near(p[k][:, :n], b[k][:, :n], k, k)
        if b[k].shape[1] >= (sol if k != 'branch' else 17):
            m = sol if b[k].shape[1] >= sol else 17
            if p[k].shape[1] >= m:
                near(p[k][:, n:m], b[k][:, n:m], k + '-results', k + ' results', True)
            else:
                mon.fail(k + '-results', 'solution columns of %s not saved' % k)
            mon.count('solved tables')
    if 'gencost' in b:
        gc = b['gencost']
        n = int(max(r[NCOST] * (2 if r[MODEL] == 1 else 1) for r in gc)) + 4
        near(p['gencost'][:, :n], gc[:, :n], 'gencost', 'gencost')
    if 'areas' in b and len(b['areas']):
        near(p['areas'][:, :2], b['areas'][:, :2], 'areas', 'areas')
    D = lambda M: M.toarray() if hasattr(M, 'toarray') else np.asarray(M)
    if user:
        for k in ('A', 'l', 'u', 'N', 'H', 'Cw', 'fparm', 'z0', 'zl', 'zu'):
            if k in b:
                if mon.check(k in p, 'user-data', 'user field %s not saved' % k):
                    near(D(p[k]), D(b[k]), 'user-data', k)
        mon.count('user data saved')
    elif not spec['inf']:
        x, y = api.rundcpf(p, o)[0], api.rundcpf({k: b[k] for k in ('baseMVA', 'version', 'bus', 'gen', 'branch') if k in b}, o)[0]
        mon.close(x['branch'][:, PF], y['branch'][:, PF], 1e-5 * scale(y), 'same-answer', 'DC flows of the reloaded case')
