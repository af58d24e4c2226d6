"""Generator costs: P27 evaluation and derivatives, P28 transformations."""
from .common import *
from .pf import n_of

MAXC = 8


def rand_gencost(rng, n, kinds='both', pad=True, maxord=5):
    rows = []
    for _ in range(n):
        if kinds == 'poly' or (kinds == 'both' and rng.random() < .5):
            k = int(rng.integers(1, maxord + 1))
            c = rng.normal(size=k) * 10.0 ** -np.arange(k - 1, -1, -1)
            if rng.random() < .2:
                c[0] = 0
            rows.append(np.r_[2, rng.uniform(0, 99, 2), k, c])
        else:
            k = int(rng.integers(2, 7))
            x = np.cumsum(rng.exponential(20, k) + .5) + rng.normal() * 40
            s = rng.normal(size=k - 1) * 30 if rng.random() < .3 else np.sort(rng.normal(size=k - 1) * 30)
            y = rng.normal() * 100 + np.r_[0, np.cumsum(s * np.diff(x))]
            rows.append(np.r_[1, rng.uniform(0, 99, 2), k, np.c_[x, y].ravel()])
    w = max(len(r) for r in rows) + int(rng.integers(0, 4))
    out = np.zeros((n, w))
    for k, r in enumerate(rows):
        out[k] = rng.normal(size=w) * 50 if pad else 0
        out[k, :len(r)] = r
    return out


def whole(rng, n, kinds='both', pad=True, maxord=5):
    """The same with whole numbers throughout, in an integer table."""
    gc = rand_gencost(rng, n, kinds, pad, maxord)
    for r in gc:
        k = int(r[NCOST])
        if r[MODEL] == 1:
            r[COST:COST + 2 * k:2] = np.round(r[COST]) + np.r_[0, np.cumsum(rng.integers(1, 40, k - 1))]
        else:
            r[COST:COST + k] = np.round(rng.normal(size=k) * 10.0 ** rng.integers(0, 4))
    return np.round(gc).astype(int)


def table(rng, *a, **k):
    return (whole if rng.random() < .25 else rand_gencost)(rng, *a, **k)


def val(row, p):
    n = int(row[NCOST])
    if row[MODEL] == 2:
        return float(np.polyval(row[COST:COST + n], p))
    x, y = row[COST:COST + 2 * n:2], row[COST + 1:COST + 2 * n:2]
    k = min(max(int(np.searchsorted(x, p, side='right')) - 1, 0), n - 2)
    return float(y[k] + (y[k + 1] - y[k]) * (p - x[k]) / (x[k + 1] - x[k]))


def points(rng, gc):
    out = []
    for r in gc:
        n = int(r[NCOST])
        if r[MODEL] == 1:
            x = r[COST:COST + 2 * n:2]
            m = rng.random()
            out.append(rng.choice(x) if m < .3 else x[0] - rng.exponential(30) if m < .45 else
                       x[-1] + rng.exponential(30) if m < .6 else rng.uniform(x[0], x[-1]))
        else:
            out.append(rng.choice([0, rng.normal() * 50, rng.uniform(0, 300)]))
    return np.array(out, float)


def size(row, p):
    n = int(row[NCOST])
    if row[MODEL] == 2:
        return 1 + float(np.polyval(abs(row[COST:COST + n]), abs(p)))
    x, y = row[COST:COST + 2 * n:2], row[COST + 1:COST + 2 * n:2]
    s = abs(np.diff(y) / np.diff(x)).max()
    return 1 + abs(y).max() + s * (abs(p) + abs(x).max())


def plan27(tier, rng):
    return [{'seed': int(rng.integers(1 << 40)), 'n': int(rng.integers(1, 10)), 'kinds': str(rng.choice(['both', 'poly', 'pwl'])),
             'max': int(rng.integers(1, 7))} for _ in range(n_of(tier, 1500, 30000))]


@prop('P27', 'random cost tables (orders 1-6, 2-6 break points, mixed, with unrelated numbers after the row\'s data) at random, extreme and '
      'break-point outputs; distinct by (number of rows, kinds, orders)', plan27, floors={'values': 4000, 'derivatives': 1000, 'beyond ends': 200, 'whole-number tables': 200})
def p27(spec, mon):
    from pypower.api import totcost, polycost, pqcost
    rng = rng_for('p27', spec['seed'])
    gc = table(rng, spec['n'], spec['kinds'], maxord=spec['max'])
    P = points(rng, gc)
    mon.count('whole-number tables', gc.dtype == int)
    g0, P0 = gc.copy(), P.copy()
    f = totcost(gc, P)
    exp = np.array([val(r, p) for r, p in zip(gc, P)])
    sz = np.array([size(r, p) for r, p in zip(gc, P)])
    mon.sig(spec['n'], spec['kinds'], tuple(gc[:, NCOST].astype(int)))
    mon.count('values', len(P))
    mon.count('beyond ends', sum(r[MODEL] == 1 and not r[COST] <= p <= r[COST + 2 * int(r[NCOST]) - 2] for r, p in zip(gc, P)))
    mon.close(np.shape(f), np.shape(P), 0, 'shape', 'shape of the costs')
    mon.close(f / sz, exp / sz, 1e-10, 'cost', 'cost of each unit')
    k = gc[:, MODEL] == 2
    if k.all() or (k.any() and spec['seed'] % 2):
        mon.close(polycost(gc[k], P[k]) / sz[k], exp[k] / sz[k], 1e-10, 'polynomial', 'polynomial cost')
        for d in (1, 2):
            e = np.array([np.polyval(np.polyder(np.poly1d(r[COST:COST + int(r[NCOST])]), d), p) for r, p in zip(gc[k], P[k])])
            z = np.array([1 + np.polyval(abs(np.polyder(np.poly1d(r[COST:COST + int(r[NCOST])]), d).coeffs), abs(p)) for r, p in zip(gc[k], P[k])])
            mon.close(np.asarray(polycost(gc[k], P[k], d)) / z, e / z, 1e-10, 'derivative', 'derivative %d of polynomial cost' % d)
            mon.count('derivatives', len(e))
    # split into active and reactive
    n = spec['n']
    on = rng.choice(n, int(rng.integers(1, n + 1)), replace=False)
    pc, qc = pqcost(gc, n)
    same(mon, pc, gc, 'split', 'active costs')
    mon.check(len(qc) == 0, 'split', 'reactive costs invented')
    h = np.vstack([gc, gc[::-1] * 1.5])
    pc, qc = pqcost(h, n, on)
    same(mon, pc, h[:n][on], 'split', 'active costs of selected units')
    same(mon, qc, h[n:][on], 'split', 'reactive costs of selected units')
    some = rng.permutation(n)[:int(rng.integers(1, n + 1))]
    pc, qc = pqcost(gc, n, some)
    same(mon, pc, gc[some], 'split', 'active costs of selected units without reactive costs')
    mon.check(np.size(qc) == 0, 'split', 'reactive costs where none are given')
    pc, qc = pqcost(h, n)
    same(mon, pc, h[:n], 'split', 'active costs')
    same(mon, qc, h[n:], 'split', 'reactive costs')
    same(mon, gc, g0, 'inputs-kept', 'cost table changed')
    same(mon, P, P0, 'inputs-kept', 'outputs changed')


def plan28(tier, rng):
    return [{'seed': int(rng.integers(1 << 40)), 'n': int(rng.integers(1, 8)), 'kinds': str(rng.choice(['both', 'poly', 'pwl'])),
             'type': str(rng.choice(['SCALE_F', 'SCALE_X', 'SHIFT_F', 'SHIFT_X', 'default', 'pwl', 'pwl', 'pwl']))}
            for _ in range(n_of(tier, 1500, 30000))]


@prop('P28', 'random cost tables scaled/shifted in value or output and polynomial costs turned piecewise linear; distinct by (transformation, '
      'kinds, orders)', plan28, floors={'points': 2500, 'converted': 300, 'whole-number tables': 100, 'mirrored': 10})
def p28(spec, mon):
    from pypower.api import modcost, poly2pwl, totcost
    rng = rng_for('p28', spec['seed'])
    if spec['type'] == 'pwl':
        n = spec['n']
        gc = table(rng, n, 'poly', maxord=4)
        lo = np.where(rng.random(n) < .5, rng.uniform(1, 50, n), -rng.uniform(0, 50, n))
        lo[rng.random(n) < .2] = 0
        hi = np.maximum(lo, 0 if rng.random() < .5 else -60) + rng.uniform(5, 200, n)
        npts = int(rng.integers(3, 12))
        g0 = gc.copy()
        w = poly2pwl(gc, lo, hi, npts)
        same(mon, gc, g0, 'inputs-kept', 'cost table changed')
        mon.sig('pwl', npts, tuple(gc[:, NCOST].astype(int)))
        mon.count('converted', n)
        mon.check(np.all(w[:, MODEL] == 1) and np.all(w[:, NCOST] == npts), 'model', 'model or number of points')
        same(mon, w[:, 1:3], gc[:, 1:3], 'startup', 'start-up and shut-down costs')
        for k in range(n):
            x, y = w[k, COST:COST + 2 * npts:2], w[k, COST + 1:COST + 2 * npts:2]
            mon.check(np.all(np.diff(x) > 0), 'increasing', 'break points %r' % x)
            mon.close(x[-1], hi[k], 1e-9 * (1 + abs(hi[k])), 'range', 'last break point')
            if lo[k] > 0:
                mon.close(x[:2], [0, lo[k]], 1e-9 * (1 + abs(lo[k])), 'range', 'first break points')
                d = np.diff(x[1:])
            else:
                mon.close(x[0], lo[k], 1e-9 * (1 + abs(lo[k])), 'range', 'first break point')
                d = np.diff(x)
            mon.close(d, d.mean() + 0 * d, 1e-9 * (1 + abs(x).max()), 'spacing', 'spacing of break points')
            sz = np.array([size(gc[k], p) for p in x])
            mon.close(y / sz, np.array([val(gc[k], p) for p in x]) / sz, 1e-9, 'on-curve', 'break points on the curve')
        return
    gc = table(rng, spec['n'], spec['kinds'])
    mon.count('whole-number tables', gc.dtype == int)
    P = points(rng, gc)
    t = spec['type']
    a = float(rng.choice([-1, 1]) * rng.uniform(.2, 4)) if t.startswith('SHIFT') else float(rng.uniform(.2, 4)) if t != 'SCALE_F' else float(rng.normal() * 2)
    if t.startswith('SHIFT'):
        a *= 10
    if t == 'SCALE_X' and np.all(gc[:, MODEL] == 2) and rng.random() < .4:
        a = -a
        mon.count('mirrored')
    g0 = gc.copy()
    m = modcost(gc, a) if t == 'default' else modcost(gc, a, t)
    same(mon, gc, g0, 'inputs-kept', 'cost table changed')
    mon.sig(t, spec['kinds'], tuple(gc[:, NCOST].astype(int)))
    mon.count('points', len(P))
    same(mon, m[:, :COST], gc[:, :COST], 'header', 'model, start-up, shut-down, number of coefficients')
    for k, (r, p) in enumerate(zip(gc, P)):
        f = val(r, p)
        x, e = {'SCALE_F': (p, a * f), 'default': (p, a * f), 'SCALE_X': (a * p, f), 'SHIFT_F': (p, f + a), 'SHIFT_X': (p + a, f)}[t]
        z = size(r, abs(p) + abs(a)) * (1 + abs(a)) + size(m[k], abs(x) + abs(a))
        mon.close(val(m[k], x) / z, e / z, 1e-9, 'transformed', '%s by %.4g of row %d at %.6g' % (t, a, k, p))
        mon.close(totcost(m[k:k + 1], np.array([x]))[0] / z, e / z, 1e-9, 'transformed', '%s evaluated' % t)
