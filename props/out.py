"""P37 printed reports, P38 options, P39 OPF model, P40 user callbacks, P41 command line."""
import io, os, re, sys, contextlib
from .common import *
from .pf import n_of
from .ext import io_files, dcify

NUM = r'(-?\d+(?:\.\d+)?|-?inf|nan|-)'
MUS = (LAM_P, LAM_Q, MU_VMAX, MU_VMIN)


def plan37(tier, rng):
    out = []
    pool = ['loads', 'taps', 'shunts', 'splitgen', 'pqgen', 'offgen', 'offbranch', 'parallel', 'isolated', 'renumber', 'shuffle', 'disp', 'tight', 'basemva']
    bases = ['case6ww', 'case9', 'case14', 'case24_ieee_rts', 'case30', 'case39', 'case57', 'net3', 'net5', 'net8', 'net15', 'case30pwl']
    for s in mkspecs(rng, n_of(tier, 80, 1200), bases, pool=pool, p=.3):
        s['run'] = str(rng.choice(['pf', 'dcpf', 'opf', 'opf', 'dcopf']))
        s['k'] = n_of(tier, 6, 12)
        s['io'] = bool(rng.random() < .4)
        out.append(s)
    return out


def numtok(s, what):
    """tokens of a table row: numbers with a fixed count of decimals may touch"""
    return re.findall(what, s)


class Report(object):
    """sections of a printed report, cells compared with what they should show"""

    def __init__(self, txt, mon):
        self.mon = mon
        parts = re.split(r'\n={60,}\n\|\s*(.*?)\s*\|\n={60,}', '\n' + txt)
        self.head = parts[0]
        self.sec = {}
        self.order = parts[1::2]
        for t, b in zip(parts[1::2], parts[2::2]):
            self.mon.check(t not in self.sec, 'sections', 'section %r printed twice' % t)
            self.sec[t] = b

    def cell(self, tok, want, dec, where):
        """a printed cell against its value; a dash stands for nothing"""
        if tok == '-':
            return self.mon.check(want is None, where, 'nothing printed for %s' % want)
        if want is None:
            return self.mon.check(False, where, '%s printed, nothing expected' % tok)
        want = float(want)
        v = float(tok)
        if not np.isfinite(want):
            return self.mon.check(not np.isfinite(v), where, 'printed %s for %s' % (tok, want))
        return self.mon.check(abs(v - want) <= .5 * 10. ** -dec * (1 + 1e-6) + 1e-9 * abs(want) + 1e-9, where, 'printed %s for %.9g' % (tok, want))

    def rows(self, body, rows, decs, where):
        """the lines between two dashed rules that start with a number"""
        lines = [l for l in body if l.strip()]
        if not self.mon.check(len(lines) == len(rows), where, '%d rows printed, %d expected' % (len(lines), len(rows))):
            return
        for l, want in zip(lines, rows):
            # columns are as wide as their values need: split by decimals
            pat, lit = '', ''
            for d, w in zip(decs, want):
                x = r'\s*' + (r'(-?\d+|-)' if d == 0 else r'(-?\d+\.\d{%d}|-?inf|nan|-)' % d) + r'\*?'
                pat += x
                lit += x if d or w is None else r'\s*(%d)\*?' % w      # numbers may touch
            m = re.fullmatch(lit + r'\s*', l) or re.fullmatch(pat + r'\s*', l)
            if not self.mon.check(bool(m), where, 'row %r cannot be read' % l):
                continue
            for j, (tok, w, d) in enumerate(zip(m.groups(), want, decs)):
                self.cell(tok, w, d, where)
            self.mon.count('rows')


def tables(body):
    """bodies of the tables of a section: lines between the rule under the header and the next rule, blank or end; and what follows"""
    lines = body.split('\n')
    rule = [i for i, l in enumerate(lines) if re.fullmatch(r'[\s-]*--[\s-]*', l)]
    return lines, rule


def p37_expect(r, o):
    """everything the report has to show, recomputed row by row"""
    dc = o['PF_DC']
    bus, gen, br, base = r['bus'].copy(), r['gen'].copy(), r['branch'].copy(), r['baseMVA']
    if dc:
        bus[:, [QD, BS]] = 0
        gen[:, [QG, QMAX, QMIN]] = 0
        br[:, [BR_R, BR_B]] = 0
    at = {int(b[BUS_I]): i for i, b in enumerate(bus)}
    V = bus[:, VM] * np.exp(1j * np.pi / 180 * bus[:, VA])
    loss, fch, tch = np.zeros(len(br), complex), np.zeros(len(br)), np.zeros(len(br))
    for k, b in enumerate(br):
        if b[BR_STATUS] == 0:
            continue
        f, t = at[int(b[F_BUS])], at[int(b[T_BUS])]
        tap = (b[TAP] or 1.) * np.exp(1j * np.pi / 180 * b[SHIFT])
        if not dc:
            i = (V[f] / tap - V[t]) / (b[BR_R] + 1j * b[BR_X])
            loss[k] = base * abs(i) ** 2 * (b[BR_R] + 1j * b[BR_X])
        fch[k] = abs(V[f] / tap) ** 2 * b[BR_B] * base / 2
        tch[k] = abs(V[t]) ** 2 * b[BR_B] * base / 2
    ld = np.array([g[PMIN] < 0 and g[PMAX] == 0 for g in gen], bool)
    on = gen[:, GEN_STATUS] > 0
    return bus, gen, br, at, V, loss, fch, tch, ld, on


@prop('P37', 'printed reports of AC and DC power flow and OPF results of built-in and random cases, random areas and option combinations, results as '
      'dict and as separate arguments; distinct by (base, features, run, printing options)', plan37,
      floors={'reports': 300, 'rows': 3000, 'opf reports': 100, 'dc reports': 60, 'area tables': 60, 'limit tables': 100, 'silent': 10, 'entry points': 20})
def p37(spec, mon):
    from pypower import api
    from pypower.printpf import printpf
    src = C.floats(build(spec))
    rng = rng_for('p37', spec['seed'], spec['run'])
    run = spec['run']
    dc, isopf = run.startswith('dc'), run.endswith('opf')
    if run == 'dcopf':
        dcify(src)
    o = opts(PF_DC=dc, PDIPM_MAX_IT=80)
    sink = io.StringIO()
    if isopf:
        r = api.opf(copy(src), o)
    else:
        r, _ = api.runpf(copy(src), o)
        r.pop('f', None)
    mon.count('solved' if r['success'] else 'unsolved')
    if spec['io']:      # the entry points print the same report to the screen or, appended, to a file
        kw = dict(OUT_ALL=int(rng.choice([1, 1, -1, 0])), OUT_AREA_SUM=bool(rng.random() < .5), OUT_GEN=bool(rng.random() < .5))
        oo = opts(PF_DC=dc, PDIPM_MAX_IT=80, **kw)
        f = io_files(spec)[0]
        before = '' if rng.random() < .5 else 'kept\n'
        if before:
            with open(f, 'w') as fd:
                fd.write(before)
        for to in ([f], []):
            with captured() as cap:
                q = (api.runopf if isopf else api.runpf)(copy(src), oo, *to)
            q = q if isopf else q[0]
            if not isopf:
                q.pop('f', None)
            txt = cap[0]
            if to:
                mon.check(cap[0] == '', 'screen', 'printed to the screen as well as to the file: %r' % cap[0][:60])
                txt = open(f).read() if os.path.exists(f) else ''
                mon.check(txt.startswith(before), 'append', 'what was in the file is lost')
                txt = txt[len(before):]
            if kw['OUT_ALL']:
                check_report(mon, q, oo, txt, isopf)
            else:
                mon.check(txt == '', 'silent', 'printed although told not to')
        mon.count('entry points')
        with captured() as cap:       # nothing is said at no verbosity
            (api.opf if isopf else api.runpf)(copy(src), o)
        mon.check(cap[0] == '', 'silent', 'unasked output: %r' % cap[0][:80])
    r['et'] = .25
    for j in range(spec['k']):
        q = copy(r)
        if j:
            q['bus'][:, BUS_AREA] = rng.choice([1, 2, 3, 7, 12][:int(rng.integers(1, 6))], len(q['bus']))
        if isopf and j > 1:      # prices below and above what counts as binding, everywhere
            for t, cols in (('bus', [MU_VMAX, MU_VMIN]), ('gen', [MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN]), ('branch', [MU_SF, MU_ST])):
                for c in cols:
                    if rng.random() < .5:
                        q[t][:, c] = rng.choice([0, 0, 0, 9e-5, 2e-4, 1.5, 1234.5678], len(q[t]))
        kw = {}
        if rng.random() < .4 or j < 1:
            kw['OUT_ALL'] = 1
        else:
            kw['OUT_ALL'] = int(rng.choice([-1, -1, -1, -1, -1, -1, 0]))
        for n in ('OUT_SYS_SUM', 'OUT_AREA_SUM', 'OUT_BUS', 'OUT_BRANCH', 'OUT_GEN'):
            kw[n] = bool(rng.random() < .5)
        kw['OUT_ALL_LIM'] = int(rng.choice([-1, -1, 0, 1, 2]))
        for n in ('OUT_V_LIM', 'OUT_LINE_LIM', 'OUT_PG_LIM', 'OUT_QG_LIM'):
            kw[n] = int(rng.integers(3))
        kw['OPF_FLOW_LIM'] = int(rng.integers(3))
        if rng.random() < .3:
            kw['OPF_VIOLATION'] = float(rng.choice([1e-3, 1e-7]))
        oo = opts(PF_DC=dc, **kw)
        if rng.random() < .15:
            q['success'] = 0
        q0, o0 = copy(q), dict(oo)
        fd = io.StringIO()
        sep = rng.random() < .25
        plain = not dc and rng.random() < .1
        if plain:           # default options
            from pypower.ppoption import ppoption
            oo = ppoption()
            o0, kw = dict(oo), dict(OUT_ALL=-1)
        if plain and sep:
            printpf(q['baseMVA'], q['bus'], q['gen'], q['branch'], q.get('f'), q['success'], q['et'], fd)
        elif plain:
            printpf(q, fd)
        elif sep:
            printpf(q['baseMVA'], q['bus'], q['gen'], q['branch'], q.get('f'), q['success'], q['et'], fd, oo)
            mon.count('separate arguments')
        else:
            printpf(q, fd, oo)
        for t in ('bus', 'gen', 'branch'):
            same(mon, q[t], q0[t], 'results-kept', 'printing changed the %s table' % t)
        mon.check(oo == o0 and set(q) == set(q0), 'results-kept', 'printing changed options or results')
        txt = fd.getvalue()
        if kw['OUT_ALL'] == 0:
            mon.check(txt == '', 'silent', 'printed although told not to')
            mon.count('silent')
            continue
        mon.count('reports')
        mon.count('opf reports' if isopf else 'pf reports')
        if dc:
            mon.count('dc reports')
        mon.sig(spec['base'], feats_sig(spec), run, tuple(sorted(kw.items())))
        check_report(mon, q, oo, txt, isopf)


def check_report(mon, r, o, txt, isopf):
    dc = bool(o['PF_DC'])
    bus, gen, br, at, V, loss, fch, tch, ld, on = p37_expect(r, o)
    every = o['OUT_ALL'] == 1
    want = {n: every or bool(o['OUT_' + n]) for n in ('SYS_SUM', 'AREA_SUM', 'BUS', 'BRANCH', 'GEN')}
    lim = 2 if every else o['OUT_ALL_LIM']
    lims = {n: o['OUT_' + n] if lim == -1 else lim for n in ('V_LIM', 'LINE_LIM', 'PG_LIM', 'QG_LIM')}
    R_ = Report(txt, mon)
    any_ = any(want.values()) or any(lims.values())
    g_ = [i for i in range(len(gen)) if not ld[i]]
    ong = [i for i in g_ if on[i]]
    onld = [i for i in range(len(gen)) if ld[i] and on[i]]
    fixed = [i for i in range(len(bus)) if bus[i, PD] or bus[i, QD]]
    nzsh = [i for i in range(len(bus)) if bus[i, GS] or bus[i, BS]]
    xf = [k for k in range(len(br)) if br[k, TAP]]
    area = lambda b: bus[at[int(b)], BUS_AREA]
    ties = [k for k in range(len(br)) if area(br[k, F_BUS]) != area(br[k, T_BUS])]
    # --- head
    m = re.search(r'Converged in ([\d.]+) seconds|Did not converge \(([\d.]+) seconds\)', R_.head)
    if mon.check(bool(m) == any_, 'head', 'report starts with %r' % R_.head[:60]) and m:
        mon.check((m.group(1) is not None) == bool(r['success']), 'head', 'success %s reported as %r' % (r['success'], m.group(0)))
        R_.cell(m.group(1) or m.group(2), r['et'], 2, 'head')
    m = re.search(r'Objective Function Value = (-?[\d.]+)', R_.head)
    if mon.check(bool(m) == (any_ and isopf), 'head', 'objective line') and m:
        R_.cell(m.group(1), r['f'], 2, 'head')
    S = lambda t, rows, c: sum(t[i, c] for i in rows)
    # --- which sections
    ctol, ptol = o['OPF_VIOLATION'], 1e-4
    vb = [i for i in range(len(bus)) if bus[i, VM] < bus[i, VMIN] + ctol or bus[i, VM] > bus[i, VMAX] - ctol or bus[i, MU_VMIN] > ptol or bus[i, MU_VMAX] > ptol] if isopf else []
    gb = lambda i, c: gen[i, c[0]] < gen[i, c[1]] + ctol or gen[i, c[0]] > gen[i, c[2]] - ctol or gen[i, c[3]] > ptol or gen[i, c[4]] > ptol
    PC, QC = (PG, PMIN, PMAX, MU_PMIN, MU_PMAX), (QG, QMIN, QMAX, MU_QMIN, MU_QMAX)
    lines = []
    if isopf:
        if o['OPF_FLOW_LIM'] == 1 or dc:
            Ff, Ft = br[:, PF], br[:, PT]
        else:
            Ff, Ft = abs(br[:, PF] + 1j * br[:, QF]), abs(br[:, PT] + 1j * br[:, QT])
            if o['OPF_FLOW_LIM'] == 2:
                Ff = np.array([Ff[k] / bus[at[int(br[k, F_BUS])], VM] for k in range(len(br))])
                Ft = np.array([Ft[k] / bus[at[int(br[k, T_BUS])], VM] for k in range(len(br))])
        lines = [k for k in range(len(br)) if (br[k, RATE_A] and (abs(Ff[k]) > br[k, RATE_A] - ctol or abs(Ft[k]) > br[k, RATE_A] - ctol)) or br[k, MU_SF] > ptol or br[k, MU_ST] > ptol]
    pick = lambda mode, rows, bind: list(rows) if mode == 2 else [i for i in rows if i in bind] if mode == 1 else []
    vrows = pick(lims['V_LIM'], range(len(bus)), set(vb)) if isopf and not dc else []
    lrows = pick(lims['LINE_LIM'], range(len(br)), set(lines)) if isopf else []
    L = {}
    for what, rows in (('g', ong), ('l', onld)):
        L[what + 'P'] = pick(lims['PG_LIM'], rows, {i for i in rows if gb(i, PC)}) if isopf else []
        L[what + 'Q'] = pick(lims['QG_LIM'], rows, {i for i in rows if gb(i, QC)}) if isopf and not dc else []
    title = {'SYS_SUM': 'System Summary', 'AREA_SUM': 'Area Summary', 'BUS': 'Bus Data', 'BRANCH': 'Branch Data', 'GEN': 'Generator Data'}
    for n, t in title.items():
        mon.check((t in R_.sec) == want[n], 'sections', '%s printed: %s, asked for: %s' % (t, t in R_.sec, want[n]))
    # constraint sections: must be there with rows, must not when switched off
    for t, rows, off in (('Voltage Constraints', vrows, not isopf or dc or not lims['V_LIM']),
                         ('Branch Flow Constraints', lrows, not isopf or not lims['LINE_LIM']),
                         ('Generation Constraints', L['gP'] + L['gQ'], not isopf or not (lims['PG_LIM'] or lims['QG_LIM'])),
                         ('Dispatchable Load Constraints', L['lP'] + L['lQ'], not isopf or not (lims['PG_LIM'] or lims['QG_LIM']))):
        if rows:
            mon.check(t in R_.sec, 'sections', '%s missing' % t)
        if off:
            mon.check(t not in R_.sec, 'sections', '%s printed, not asked for' % t)
    # --- system summary
    num = r'\s*(-?\d+(?:\.\d+)?|-?inf|nan)'
    s = R_.sec.get('System Summary')
    if s is not None:
        W = 'system'
        def line(pat, vals, decs):
            m = re.search(pat, s)
            if mon.check(bool(m), W, 'no line like %r' % pat):
                for tok, v, d in zip(m.groups(), vals, decs):
                    R_.cell(tok, v, d, W)
                mon.count('rows')
        line(r'Buses' + num + r'\s+Total Gen Capacity' + num + num + ' to' + num, (len(bus), S(gen, g_, PMAX), S(gen, g_, QMIN), S(gen, g_, QMAX)), (0, 1, 1, 1))
        line(r'Generators' + num + r'\s+On-line Capacity' + num + num + ' to' + num, (len(g_), S(gen, ong, PMAX), S(gen, ong, QMIN), S(gen, ong, QMAX)), (0, 1, 1, 1))
        line(r'Committed Gens' + num + r'\s+Generation \(actual\)' + num + num, (len(ong), S(gen, ong, PG), S(gen, ong, QG)), (0, 1, 1))
        line(r'\nLoads' + num + r'\s+Load' + num + num, (len(fixed) + len(onld), S(bus, fixed, PD) - S(gen, onld, PG), S(bus, fixed, QD) - S(gen, onld, QG)), (0, 1, 1))
        line(r'  Fixed' + num + r'\s+Fixed' + num + num, (len(fixed), S(bus, fixed, PD), S(bus, fixed, QD)), (0, 1, 1))
        line(r'  Dispatchable' + num + r'\s+Dispatchable' + num + ' of' + num + num, (len(onld), -S(gen, onld, PG), -S(gen, onld, PMIN), -S(gen, onld, QG)), (0, 1, 1, 1))
        line(r'Shunts' + num + r'\s+Shunt \(inj\)' + num + num, (len(nzsh), -sum(bus[i, VM] ** 2 * bus[i, GS] for i in nzsh), sum(bus[i, VM] ** 2 * bus[i, BS] for i in nzsh)), (0, 1, 1))
        line(r'Branches' + num + r'\s+Losses \(I\^2 \* Z\)' + num + num, (len(br), loss.real.sum(), loss.imag.sum()), (0, 2, 2))
        line(r'Transformers' + num + r'\s+Branch Charging \(inj\)\s+-' + num, (len(xf), fch.sum() + tch.sum()), (0, 1))
        line(r'Inter-ties' + num + r'\s+Total Inter-tie Flow' + num + num, (len(ties), sum(abs(br[k, PF] - br[k, PT]) for k in ties) / 2, sum(abs(br[k, QF] - br[k, QT]) for k in ties) / 2), (0, 1, 1))
        line(r'Areas' + num, (len(set(bus[:, BUS_AREA])),), (0,))
        cols = [('Voltage Magnitude', VM, 3), ('Voltage Angle', VA, 2)] + ([('Lambda P', LAM_P, 2), ('Lambda Q', LAM_Q, 2)] if isopf else [])
        for lab, c, d in cols:
            m = re.search(lab + num + r' \S+\s+@ bus' + num + num + r' \S+\s+@ bus' + num, s)
            if mon.check(bool(m), W, 'no extremes of %s' % lab):
                x = bus[:, c]
                for tok, ext, b in ((m.group(1), x.min(), m.group(2)), (m.group(3), x.max(), m.group(4))):
                    R_.cell(tok, ext, d, W)
                    mon.check(int(b) in at and x[at[int(b)]] == ext, W, '%s %g is not at bus %s' % (lab, ext, b))
        mon.check(('Lambda P' in s) == isopf, W, 'prices in the summary')
        if not dc:
            for lab, x in (('P Losses \\(I\\^2\\*R\\)', loss.real), ('Q Losses \\(I\\^2\\*X\\)', loss.imag)):
                m = re.search(lab + r'\s+-' + num + r' \S+\s+@ line (\d+)-(\d+)', s)
                if mon.check(bool(m), W, 'no largest losses'):
                    R_.cell(m.group(1), x.max(), 2, W)
                    mon.check(any(x[k] >= x.max() - 1e-9 * (1 + abs(x.max())) and int(br[k, F_BUS]) == int(m.group(2)) and int(br[k, T_BUS]) == int(m.group(3)) for k in range(len(br))), W, 'largest losses at %s' % m.group(0)[-30:])
    # --- area summary: four tables
    s = R_.sec.get('Area Summary')
    if s is not None:
        mon.count('area tables')
        W = 'areas'
        T = []
        for blk in re.split(r'\n\s*\n', s.strip('\n')):
            ls = blk.split('\n')
            ru = [i for i, l in enumerate(ls) if re.fullmatch(r'[- ]*-{3,}[- ]*', l)]
            if mon.check(len(ru) == 2, W, 'table cannot be read') :
                T.append((ls[ru[0] + 1:ru[1]], ls[ru[1] + 1:]))
        if mon.check(len(T) == 4, W, '%d tables' % len(T)):
            areas = sorted(set(bus[:, BUS_AREA]))
            rows = [[], [], [], []]
            live = [k for k in range(len(br)) if br[k, BR_STATUS]]
            ql = lambda i: (gen[i, QMAX] if gen[i, QMIN] == 0 else 0) + (gen[i, QMIN] if gen[i, QMAX] == 0 else 0)
            for a in areas + [None]:
                B = lambda i: a is None or bus[i, BUS_AREA] == a
                Gi = lambda i: a is None or area(gen[i, GEN_BUS]) == a
                ga, oa, la = [i for i in g_ if Gi(i)], [i for i in ong if Gi(i)], [i for i in onld if Gi(i)]
                fa, sa = [i for i in fixed if B(i)], [i for i in nzsh if B(i)]
                ins = [k for k in range(len(br)) if a is None or (area(br[k, F_BUS]) == a and area(br[k, T_BUS]) == a)]
                ta = ties if a is None else [k for k in ties if a in (area(br[k, F_BUS]), area(br[k, T_BUS]))]
                pre = [] if a is None else [a]
                rows[0].append(pre + [sum(B(i) for i in range(len(bus))), len(ga), len(oa), len(fa) + len(la), len(fa), len(la), len(sa), len(ins), len([k for k in ins if k in xf]), len(ta)])
                rows[1].append(pre + [S(gen, ga, PMAX), S(gen, ga, QMIN), S(gen, ga, QMAX), S(gen, oa, PMAX), S(gen, oa, QMIN), S(gen, oa, QMAX), S(gen, oa, PG), S(gen, oa, QG)])
                rows[2].append(pre + [-S(gen, la, PMIN), -sum(ql(i) for i in la), -S(gen, la, PG), -S(gen, la, QG), S(bus, fa, PD), S(bus, fa, QD), S(bus, fa, PD) - S(gen, la, PG), S(bus, fa, QD) - S(gen, la, QG)])
                sh = [-sum(bus[i, VM] ** 2 * bus[i, GS] for i in sa), sum(bus[i, VM] ** 2 * bus[i, BS] for i in sa)]
                if a is None:
                    rows[3].append(sh + [fch.sum() + tch.sum(), loss.real.sum(), loss.imag.sum(), None, None])
                else:
                    own = lambda end: [k for k in live if area(br[k, end]) == a]
                    tl = [k for k in live if k in ta]
                    half = sum(loss[k] for k in tl) / 2
                    ls = sum(loss[k] for k in live if k in ins) + half
                    ch = sum(fch[k] for k in own(F_BUS)) + sum(tch[k] for k in own(T_BUS))
                    ex = lambda pf, pt: sum(br[k, pf] for k in tl if area(br[k, F_BUS]) == a) + sum(br[k, pt] for k in tl if area(br[k, T_BUS]) == a)
                    rows[3].append([a] + sh + [ch, np.real(ls), np.imag(ls), ex(PF, PT) - np.real(half), ex(QF, QT) - np.imag(half)])
            decs = [[0] * 10, [1] * 8, [1] * 8, [1, 1, 1, 2, 2, 1, 1]]
            for (body, tot), rw, d in zip(T, rows, decs):
                body = [re.sub(r' to ', '    ', l) for l in body]
                tot = [re.sub(r'^Tot:', '', re.sub(r' to ', '    ', l)) for l in tot]
                R_.rows(body, rw[:-1], [0] + d, W)
                R_.rows(tot, rw[-1:], d, W)
    # --- generators and dispatchable loads
    for t, rows, sg in (('Generator Data', ong, 1), ('Dispatchable Load Data', onld, -1)):
        s = R_.sec.get(t)
        if s is None:
            mon.check(not (want['GEN'] and rows), 'sections', '%s missing' % t)
            continue
        mon.check(want['GEN'] and len(rows) > 0 or sg == 1, 'sections', '%s printed' % t)
        ls, ru = tables(s)
        W = 'generators'
        z = lambda i: bool(gen[i, PG] or gen[i, QG])
        exp = [[i, gen[i, GEN_BUS], gen[i, GEN_STATUS]] + ([sg * gen[i, PG], sg * gen[i, QG]] if z(i) else [None, None])
               + ([bus[at[int(gen[i, GEN_BUS])], c] for c in (LAM_P, LAM_Q)] if isopf else []) for i in rows]
        if mon.check(len(ru) == 2, W, 'table cannot be read'):
            R_.rows(ls[ru[0] + 1:ru[1]], exp, [0, 0, 0, 2, 2] + ([2, 2] if isopf else []), W)
            R_.rows([re.sub(r'^\s*Total:', '', l) for l in ls[ru[1] + 1:]], [[sg * S(gen, rows, PG), sg * S(gen, rows, QG)]], [2, 2], W)
    # --- buses
    s = R_.sec.get('Bus Data')
    if s is not None:
        W = 'buses'
        ls, ru = tables(s)
        exp = []
        for i, b in enumerate(bus):
            gi, li = [k for k in ong if gen[k, GEN_BUS] == b[BUS_I]], [k for k in onld if gen[k, GEN_BUS] == b[BUS_I]]
            row = [b[BUS_I], b[VM], b[VA]] + ([S(gen, gi, PG), S(gen, gi, QG)] if gi else [None, None])
            row += [b[PD] - S(gen, li, PG), b[QD] - S(gen, li, QG)] if li or b[PD] or b[QD] else [None, None]
            if isopf:
                row += [b[LAM_P], b[LAM_Q] if abs(b[LAM_Q]) > ptol else None]
            exp.append(row)
        if mon.check(len(ru) == 2, W, 'table cannot be read'):
            R_.rows(ls[ru[0] + 1:ru[1]], exp, [0, 3, 3, 2, 2, 2, 2] + ([3, 3] if isopf else []), W)
            R_.rows([re.sub(r'^\s*Total:', '', l) for l in ls[ru[1] + 1:]], [[S(gen, ong, PG), S(gen, ong, QG), S(bus, fixed, PD) - S(gen, onld, PG), S(bus, fixed, QD) - S(gen, onld, QG)]], [2] * 4, W)
            star = [int(l.split()[0]) for l in ls[ru[0] + 1:ru[1]] if re.match(r'\s*\d+\s*-?\d+\.\d{3}\s*-?\d+\.\d{3}\*', l)]
            mon.check(sorted(star) == sorted(int(b[BUS_I]) for b in bus if b[BUS_TYPE] == 3), W, 'reference marks at %s' % star)
    # --- branches
    s = R_.sec.get('Branch Data')
    if s is not None:
        W = 'branches'
        ls, ru = tables(s)
        exp = [[k, b[F_BUS], b[T_BUS], b[PF], b[QF], b[PT], b[QT], loss[k].real, loss[k].imag] for k, b in enumerate(br)]
        if mon.check(len(ru) == 2, W, 'table cannot be read'):
            R_.rows(ls[ru[0] + 1:ru[1]], exp, [0, 0, 0, 2, 2, 2, 2, 3, 2], W)
            R_.rows([re.sub(r'^\s*Total:', '', l) for l in ls[ru[1] + 1:]], [[loss.real.sum(), loss.imag.sum()]], [3, 2], W)
    # --- constraints
    W = 'limits'
    s = R_.sec.get('Voltage Constraints')
    if s is not None:
        mon.count('limit tables')
        ls, ru = tables(s)
        exp = [[bus[i, BUS_I], bus[i, MU_VMIN] if bus[i, VM] < bus[i, VMIN] + ctol or bus[i, MU_VMIN] > ptol else None, bus[i, VMIN], bus[i, VM], bus[i, VMAX],
                bus[i, MU_VMAX] if bus[i, VM] > bus[i, VMAX] - ctol or bus[i, MU_VMAX] > ptol else None] for i in vrows]
        if mon.check(len(ru) == 1, W, 'table cannot be read'):
            R_.rows(ls[ru[0] + 1:], exp, [0, 3, 3, 3, 3, 3], W)
    for t, wh in (('Generation Constraints', 'g'), ('Dispatchable Load Constraints', 'l')):
        s = R_.sec.get(t)
        if s is None:
            continue
        blocks = re.split(r'\n[^\n]*(Active|Reactive) Power Limits', s)
        got = dict(zip(blocks[1::2], blocks[2::2]))
        for kind, c, key in (('Active', PC, 'P'), ('Reactive', QC, 'Q')):
            rows = L[wh + key]
            if kind not in got:
                mon.check(not rows, W, '%s power limits of %d units missing' % (kind, len(rows)))
                continue
            mon.count('limit tables')
            ls, ru = tables(got[kind])
            exp = [[i, gen[i, GEN_BUS], gen[i, c[3]] if gen[i, c[0]] < gen[i, c[1]] + ctol or gen[i, c[3]] > ptol else None, gen[i, c[1]], gen[i, c[0]] or None, gen[i, c[2]],
                    gen[i, c[4]] if gen[i, c[0]] > gen[i, c[2]] - ctol or gen[i, c[4]] > ptol else None] for i in rows]
            if mon.check(len(ru) == 1, W, 'table cannot be read'):
                R_.rows(ls[ru[0] + 1:], exp, [0, 0, 3, 2, 2, 2, 3], W)
    s = R_.sec.get('Branch Flow Constraints')
    if s is not None:
        mon.count('limit tables')
        ls, ru = tables(s)
        exp = [[k, br[k, F_BUS], br[k, MU_SF] if Ff[k] > br[k, RATE_A] - ctol or br[k, MU_SF] > ptol else None, Ff[k], br[k, RATE_A], Ft[k],
                br[k, MU_ST] if Ft[k] > br[k, RATE_A] - ctol or br[k, MU_ST] > ptol else None, br[k, T_BUS]] for k in lrows]
        if mon.check(len(ru) == 1, W, 'table cannot be read'):
            R_.rows(ls[ru[0] + 1:], exp, [0, 0, 3, 2, 2, 2, 3, 0], W)


@contextlib.contextmanager
def captured():
    """what is written to standard output, whoever holds the stream"""
    import tempfile
    streams = [s for s in (sys.stdout, sys.__stdout__) if s is not None]
    for s in streams:
        s.flush()
    out = []
    with tempfile.TemporaryFile('w+') as f, contextlib.ExitStack() as st:
        keep = os.dup(1)
        try:
            os.dup2(f.fileno(), 1)
            yield out
        finally:
            for s in streams:
                try:
                    s.flush()
                except Exception:
                    pass
            os.dup2(keep, 1)
            os.close(keep)
            f.seek(0)
            out.append(f.read())


# ------------------------------------------------------------------ P38
def plan38(tier, rng):
    out = []
    pool = ['loads', 'taps', 'shunts', 'splitgen', 'offgen', 'offbranch', 'parallel', 'isolated', 'renumber', 'shuffle', 'moveref', 'basemva']
    bases = ['case6ww', 'case9', 'case14', 'case24_ieee_rts', 'case30', 'case39', 'case57', 'net3', 'net5', 'net8', 'net15']
    for s in mkspecs(rng, n_of(tier, 90, 1200), bases, pool=pool, p=.25):
        s['what'] = str(rng.choice(['limit', 'limit', 'tol', 'verbose', 'verbose', 'pips', 'alg', 'raw', 'raw', 'bad', 'bad']))
        out.append(s)
    out += [dict(base='net3', seed=k, feat=[], what='noargs') for k in range(n_of(tier, 2, 6))]
    return out


def equal(a, b):
    """bit for bit, times excepted"""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(k == 'et' or equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if hasattr(a, 'toarray'):
        return equal(a.toarray(), b.toarray())
    try:
        return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)
    except (TypeError, ValueError):
        return type(a) is type(b) and (a is b or not isinstance(a, (str, int, bool, type(None))) or a == b)


def documented():
    """names and defaults of the options, as documented"""
    from pypower import ppoption as M
    out = {}
    for g in (M.PF_OPTIONS, M.CPF_OPTIONS, M.OPF_OPTIONS, M.OUTPUT_OPTIONS, M.PDIPM_OPTIONS):
        for n, d, _ in g:
            out[n.upper()] = d
    return out


MANUAL = dict(PF_ALG=1, PF_TOL=1e-8, PF_MAX_IT=10, PF_MAX_IT_FD=30, PF_MAX_IT_GS=1000, ENFORCE_Q_LIMS=False, PF_DC=False, OPF_ALG=0, OPF_VIOLATION=5e-6,
              OPF_FLOW_LIM=0, OPF_IGNORE_ANG_LIM=False, OPF_ALG_DC=0, VERBOSE=1, OUT_ALL=-1, OUT_SYS_SUM=True, OUT_AREA_SUM=False, OUT_BUS=True,
              OUT_BRANCH=True, OUT_GEN=False, OUT_ALL_LIM=-1, OUT_V_LIM=1, OUT_LINE_LIM=1, OUT_PG_LIM=1, OUT_QG_LIM=1, RETURN_RAW_DER=0,
              PDIPM_FEASTOL=0, PDIPM_GRADTOL=1e-6, PDIPM_COMPTOL=1e-6, PDIPM_COSTTOL=1e-6, PDIPM_MAX_IT=150, SCPDIPM_RED_IT=20,
              CPF_PARAMETERIZATION=3, CPF_STOP_AT='NOSE', CPF_STEP=.05, CPF_ADAPT_STEP=False, CPF_ERROR_TOL=1e-3, CPF_STEP_MIN=1e-4, CPF_STEP_MAX=.2)


@prop('P38', 'option vectors with random overrides; iteration limits, tolerances, verbosity, algorithm choices, raw derivatives and invalid codes on '
      'built-in and random cases; distinct by (base, features, option studied)', plan38,
      floors={'vectors': 500, 'limits': 30, 'reached the limit': 20, 'verbosity': 20, 'tolerances': 10, 'algorithms': 5, 'derivatives': 8, 'refused': 4})
def p38(spec, mon):
    from pypower import api
    from pypower.ppoption import ppoption
    src = C.floats(build(spec))
    rng = rng_for('p38', spec['seed'], spec['what'])
    what = spec['what']
    # --- the vector itself
    doc = documented()
    for _ in range(10):
        d = ppoption()
        mon.check(d == doc, 'defaults', 'default options differ from the documented ones')
        bad = {k: d.get(k) for k, v in MANUAL.items() if d.get(k) != v}
        mon.check(not bad, 'defaults', 'defaults %s' % bad)
        names = sorted(doc)
        kw = {str(names[int(i)]): int(rng.integers(100)) for i in rng.integers(0, len(names), int(rng.integers(0, 6)))}
        kw2 = {str(names[int(i)]): float(rng.random()) for i in rng.integers(0, len(names), int(rng.integers(0, 6)))}
        a = ppoption(**kw)
        mon.check(a == dict(doc, **kw), 'override', 'ppoption(%s) differs elsewhere' % kw)
        a0 = dict(a)
        b = ppoption(a, **kw2)
        mon.check(b == dict(a0, **kw2) and a == a0, 'override', 'ppoption(base, %s)' % kw2)
        b['VERBOSE'] = 'x'
        mon.check(a == a0 and ppoption() == doc, 'shared', 'option vectors share state')
        mon.count('vectors')
    mon.sig(spec['base'], feats_sig(spec), what)
    def untouched(o, o0):
        mon.check(o == o0, 'caller', 'options of the caller changed: %s' % {k for k in set(o) | set(o0) if k not in o or k not in o0 or o[k] != o0[k]})
    def pf(**kw):
        o = opts(**kw)
        o0 = dict(o)
        r, ok = api.runpf(copy(src), o)
        untouched(o, o0)
        mon.check(bool(ok) == bool(r['success']), 'success', 'two answers about success')
        return r, bool(ok)
    def opf(fn=None, **kw):
        o = opts(**kw)
        o0 = dict(o)
        r = (fn or api.opf)(copy(src), o)
        untouched(o, o0)
        return r
    if what in ('limit', 'tol'):
        alg = int(rng.choice([1, 1, 2, 3, 4] if len(src['bus']) < 40 else [1, 2, 3]))
        lim = {1: 'PF_MAX_IT', 2: 'PF_MAX_IT_FD', 3: 'PF_MAX_IT_FD', 4: 'PF_MAX_IT_GS'}[alg]
        top = {1: 10, 2: 30, 3: 30, 4: 1000}[alg]
    if what == 'limit':
        r, ok = pf(PF_ALG=alg)
        if not ok:
            mon.count('unsolved')
            return
        # the smallest limit that suffices, by bisection; everything from there on gives the same, everything below fails
        lo, hi = -1, top
        seen = {}
        def at(k):
            if k not in seen:
                q, good = pf(PF_ALG=alg, **{lim: k})
                seen[k] = good
                mon.count('limits')
                if good:
                    mon.check(equal(q['bus'], r['bus']) and equal(q['gen'], r['gen']) and equal(q['branch'], r['branch']), 'iterations', 'limit %s=%d changes the solution' % (lim, k))
                else:
                    mon.count('reached the limit')
                # a wrong limit of another method has no influence
            return seen[k]
        while hi - lo > 1:
            m = (lo + hi) // 2
            if m < 0 or not at(m):
                lo = m
            else:
                hi = m
        for k in {max(0, hi - 1), hi, hi + 1, hi + 2, int(rng.integers(0, top + 1)), int(rng.integers(0, top + 1))}:
            mon.check(at(k) == (k >= hi), 'iterations', '%s=%d %s although %d iterations are needed' % (lim, k, 'succeeds' if seen[k] else 'fails', hi))
        others = {k: 0 for k in ('PF_MAX_IT', 'PF_MAX_IT_FD', 'PF_MAX_IT_GS', 'PDIPM_MAX_IT') if k != lim}
        q, good = pf(PF_ALG=alg, **others)
        mon.check(good and equal(q['bus'], r['bus']), 'iterations', 'limits of other methods matter')
        # a looser tolerance never takes longer, a tighter one never less
        q, good = pf(PF_ALG=alg, PF_TOL=1e-4, **{lim: hi})
        mon.check(good, 'iterations', 'a looser tolerance takes longer')
        if hi > 0:
            q, good = pf(PF_ALG=alg, PF_TOL=1e-10, **{lim: hi - 1})
            mon.check(not good, 'iterations', 'a tighter tolerance takes less')
    elif what == 'noargs':
        # called without a case the studies solve the nine-bus case, without options they use the documented ones
        fns = ['runpf', 'rundcpf', 'runopf', 'rundcopf', 'runuopf', 'runduopf', 'runcpf']
        for n in fns:
            fn = getattr(api, n, None) or getattr(__import__('pypower.' + n, fromlist=[n]), n)
            cases = ['case9', 'case9target'] if n == 'runcpf' else ['case9']
            tables = [getattr(api, c, None) or getattr(__import__('pypower.' + c, fromlist=[c]), c) for c in cases]
            extra = dict(CPF_STOP_AT=.5) if n == 'runcpf' else {}
            with captured():
                res = [fn(ppopt=opts(**extra)), fn(*[t() for t in tables], ppopt=opts(**extra)), fn(*[t() for t in tables], opts(**extra))]
                if not extra:
                    res += [fn(), fn(tables[0]()), fn(tables[0](), None)]
            mon.count('without arguments', len(res))
            for r in res[1:]:
                mon.check(equal(r, res[0]), 'default-arguments', '%s: results depend on how default arguments are given' % n)
    elif what == 'tol':
        from .pf import sched_error
        for tol in (1e-2, 1e-4, 1e-6, 1e-8, 1e-10):
            r, ok = pf(PF_ALG=alg, PF_TOL=tol)
            if not ok:
                continue
            mon.count('tolerances')
            e = sched_error(dict(src, gen=np.where(np.arange(src['gen'].shape[1]) == QG, src['gen'], src['gen'])), R.vcomplex(r['bus'])) / src['baseMVA']
            mon.check(e <= tol * max(1, r['bus'][:, VM].max()) * 1.5 + 1e-12, 'tolerance', 'mismatch %g p.u. reported as converged to %g' % (e, tol))
    elif what == 'verbose':
        fns = [('pf', lambda **k: api.runpf(copy(src), opts(PF_ALG=int(rng2.integers(1, 4)), **k))), ('q', lambda **k: api.runpf(copy(src), opts(ENFORCE_Q_LIMS=1, **k))),
               ('dcpf', lambda **k: api.rundcpf(copy(src), opts(**k))), ('opf', lambda **k: api.runopf(copy(src), opts(PDIPM_MAX_IT=60, OPF_ALG=int(rng2.choice([0, 560, 565])), **k)))]
        d = copy(src)
        dcify(d)
        fns += [('dcopf', lambda **k: api.rundcopf(copy(d), opts(PDIPM_MAX_IT=60, **k))), ('uopf', lambda **k: api.runuopf(copy(d), opts(PDIPM_MAX_IT=60, PF_DC=True, **k)))]
        t = copy(src)
        t['bus'][:, [PD, QD]] *= 1.03
        fns += [('pf not converging', lambda **k: api.runpf(copy(src), opts(PF_ALG=int(rng2.integers(1, 5)), PF_MAX_IT=1, PF_MAX_IT_FD=1, PF_MAX_IT_GS=1, PF_TOL=1e-11, **k))),
                ('opf not converging', lambda **k: api.runopf(copy(src), opts(PDIPM_MAX_IT=3, OPF_ALG=int(rng2.choice([0, 560, 565])), **k))),
                ('cpf', lambda **k: api.runcpf(copy(src), copy(t), opts(CPF_STOP_AT=1, CPF_STEP=.2, **k)))]
        for n in rng.permutation(len(fns))[:4]:
            name, fn = fns[int(n)]
            s = int(rng.integers(1 << 30))
            res = []
            for v, out in ((0, 0), (int(rng.integers(1, 4)), 0), (int(rng.integers(0, 4)), 1), (int(rng.integers(0, 3)), -1)):
                rng2 = np.random.default_rng(s)
                np.random.seed(s % 1000)
                with captured() as cap:
                    res.append(fn(VERBOSE=v, OUT_ALL=out))
                mon.check(equal(res[-1], res[0]), 'verbosity', '%s: VERBOSE=%d OUT_ALL=%d changes the results' % (name, v, out))
                if not v and not out:
                    mon.check(cap[0] == '', 'silent', '%s prints %r' % (name, cap[0][:80]))
                elif out or v > 1 or name != 'uopf':      # unit commitment turns its OPFs down by one
                    mon.check(cap[0] != '', 'silent', '%s prints nothing at VERBOSE=%d OUT_ALL=%d' % (name, v, out))
                mon.count('verbosity')
    elif what == 'pips':
        dc = bool(rng.random() < .5)
        if dc:
            dcify(src)
        r = opf(PF_DC=dc)
        if not r['success']:
            mon.count('unsolved')
            return
        n = r['raw']['output']['iterations']
        for k in {max(1, n - 1), n, n + 1, max(1, n // 2), 1}:
            q = opf(PF_DC=dc, PDIPM_MAX_IT=k)
            mon.count('limits')
            mon.check(bool(q['success']) == (k >= n), 'iterations', 'PDIPM_MAX_IT=%d %s although %d iterations are needed' % (k, 'succeeds' if q['success'] else 'fails', n))
            if q['success']:
                mon.check(all(equal(q[t], r[t]) for t in ('bus', 'gen', 'branch', 'f')), 'iterations', 'PDIPM_MAX_IT=%d changes the solution' % k)
            else:
                mon.count('reached the limit')
                mon.check(q['raw']['output']['iterations'] <= k, 'iterations', '%d iterations with a limit of %d' % (q['raw']['output']['iterations'], k))
        # looser tolerances never take longer
        for t in ('FEASTOL', 'GRADTOL', 'COMPTOL', 'COSTTOL'):
            q = opf(PF_DC=dc, PDIPM_MAX_IT=n, **{'PDIPM_' + t: 1e-3})
            mon.check(bool(q['success']), 'iterations', 'looser PDIPM_%s takes longer' % t)
            mon.count('tolerances')
        # each tolerance governs its own condition, for both step rules
        from .solvers import TOLS, stops
        for _ in range(6):
            tol = {t: float(10 ** rng.uniform(-8, -3)) for t in TOLS if rng.random() < .7}
            kw = {'PDIPM_' + t.upper(): v for t, v in tol.items()}
            for t, v in (('gradtol', 1e-6), ('comptol', 1e-6), ('costtol', 1e-6), ('feastol', 5e-6)):
                tol.setdefault(t, v)
            if rng.random() < .3:
                tol['feastol'] = kw['OPF_VIOLATION'] = float(10 ** rng.uniform(-7, -3))
                kw.pop('PDIPM_FEASTOL', None)
            sc = rng.random() < .3
            kw.update(PDIPM_MAX_IT=60, OPF_ALG=565 if sc else 560, OPF_ALG_DC=250 if sc else 200)
            q = opf(PF_DC=dc, **kw)
            o = q['raw']['output']
            stops(mon, o['hist'], bool(q['success']), tol, o['iterations'], 60)
            mon.count('tolerances')
        q = opf(PF_DC=dc, OPF_VIOLATION=1e-3, PDIPM_MAX_IT=n)
        mon.check(bool(q['success']), 'iterations', 'looser OPF_VIOLATION takes longer')
        if not dc:
            a, b = opf(OPF_VIOLATION=1e-4), opf(OPF_VIOLATION=1e-7, PDIPM_FEASTOL=1e-4)
            mon.check(equal(a['bus'], b['bus']) and equal(a['gen'], b['gen']), 'tolerance', 'PDIPM_FEASTOL does not take the place of OPF_VIOLATION')
    elif what == 'alg':
        r = opf()
        dcs = copy(src)
        dcify(dcs)
        q = opf(OPF_ALG=560)
        mon.check(equal(q['gen'], r['gen']) and bool(q['success']) == bool(r['success']), 'algorithms', 'OPF_ALG 0 is not 560')
        q = opf(OPF_ALG=565, PDIPM_MAX_IT=80)
        if q['success'] and r['success']:
            mon.count('algorithms')
            mon.close(q['f'], r['f'], 1e-4 * R.cost_size(dict(src, gen=r['gen'])) + 1e-3, 'algorithms', 'cost of OPF_ALG 565')
        rs = [api.opf(copy(dcs), opts(PF_DC=True, OPF_ALG_DC=a, PDIPM_MAX_IT=80)) for a in (0, 200, 250)]
        mon.check(bool(rs[0]['success']) == bool(rs[1]['success']), 'algorithms', 'OPF_ALG_DC 0 and 200 differ')
        for q in rs[1:]:
            if q['success'] and rs[0]['success']:
                mon.count('algorithms')
                mon.close(q['f'], rs[0]['f'], 1e-4 * R.cost_size(dict(dcs, gen=rs[0]['gen'])) + 1e-3, 'algorithms', 'cost of a DC algorithm')
        a, b = api.rundcpf(copy(src), opts()), api.runpf(copy(src), opts(PF_DC=True))
        mon.check(equal(a[0]['bus'], b[0]['bus']), 'algorithms', 'rundcpf is not runpf with PF_DC')
        a, b = api.rundcopf(copy(dcs), opts()), api.runopf(copy(dcs), opts(PF_DC=True))
        mon.check(equal(a['gen'], b['gen']), 'algorithms', 'rundcopf is not runopf with PF_DC')
        with captured():
            a, b = api.runpf(copy(src)), api.runpf(copy(src), ppoption())
        mon.check(equal(a[0]['bus'], b[0]['bus']), 'algorithms', 'no options are not the default options')
    elif what == 'raw':
        fl = int(rng.integers(3))
        if rng.random() < .2:
            src['bus'][:, [PD, QD]] *= 50
        r = opf(RETURN_RAW_DER=1, OPF_FLOW_LIM=fl, PDIPM_MAX_IT=60)
        q = opf(OPF_FLOW_LIM=fl, PDIPM_MAX_IT=60)
        mon.check(all(equal(q[t], r[t]) for t in ('bus', 'gen', 'branch', 'f', 'success')), 'derivatives', 'asking for derivatives changes the solution')
        raw = r['raw']
        if not mon.check(all(k in raw for k in ('g', 'dg', 'df', 'd2f')), 'derivatives', 'raw has %s' % sorted(raw)):
            return
        if not r['success']:
            mon.check(all(np.size(raw[k]) == 0 for k in ('g', 'dg', 'df', 'd2f')), 'derivatives', 'derivatives without a solution')
            mon.count('no solution')
            return
        I = copy(r['order']['int'])
        p = {t: np.asarray(I[t], float) for t in ('bus', 'gen', 'branch', 'gencost')}
        p['baseMVA'] = base = src['baseMVA']
        nb, nl, ng = len(p['bus']), len(p['branch']), len(p['gen'])
        x0 = np.array(r['x'], float)
        def put(x):
            s = copy(p)
            s['bus'][:, VA], s['bus'][:, VM] = x[:nb] * 180 / np.pi, x[nb:2 * nb]
            s['gen'][:, PG], s['gen'][:, QG] = x[2 * nb:2 * nb + ng] * base, x[2 * nb + ng:2 * nb + 2 * ng] * base
            return s
        def model(x):
            s = put(x)
            m = -R.mismatch(s) / base
            Sf, St = R.flows(s)
            if fl == 2:
                fb, tb = s['branch'][:, F_BUS].astype(int), s['branch'][:, T_BUS].astype(int)
                pos = bus_pos(s)
                vm = s['bus'][:, VM]
                Sf = np.array([a / vm[pos[b]] for a, b in zip(Sf, fb)])
                St = np.array([a / vm[pos[b]] for a, b in zip(St, tb)])
            fr, to = (Sf.real, St.real) if fl == 1 else (abs(Sf), abs(St))
            return np.r_[m.real, m.imag, (fr / base) ** 2, (to / base) ** 2], s
        G0, s0 = model(x0)
        mx = np.where(p['branch'][:, RATE_A] == 0, np.inf, (p['branch'][:, RATE_A] / base) ** 2)
        G = G0 - np.r_[np.zeros(2 * nb), mx, mx]
        if not mon.check(np.shape(raw['g']) == G.shape and np.shape(raw['dg']) == (len(G), len(x0)) and np.shape(raw['df']) == x0.shape and np.shape(raw['d2f']) == (len(x0), len(x0)), 'derivatives',
                         'shapes %s of g, dg, df, d2f with %d constraints, %d variables' % ([np.shape(raw[k]) for k in ('g', 'dg', 'df', 'd2f')], len(G), len(x0))):
            return
        mon.count('derivatives')
        big = 1 + abs(G0).max()
        fin = np.isfinite(G)
        mon.check(np.array_equal(np.isfinite(raw['g']), fin) and abs(raw['g'][fin] - G[fin]).max() <= 1e-8 * big, 'derivatives', 'constraint values g')
        nx = 2 * nb + 2 * ng
        poly = len(x0) == nx
        cost = lambda s: sum(R.cost1(c, v) for c, v in zip(p['gencost'], np.r_[s['gen'][:, PG], s['gen'][:, QG]][:len(p['gencost'])]))
        for _ in range(4):
            d = rng.normal(size=len(x0))
            h = 1e-6
            d[nx:] = 0
            gp, gm = model(x0 + h * d), model(x0 - h * d)
            num = (gp[0] - gm[0]) / 2 / h
            got = raw['dg'] @ d
            mon.check(abs(got - num).max() <= 1e-6 * (1 + abs(num).max()) + 1e-8 * big / h * 1e-2, 'derivatives', 'Jacobian dg off by %g' % abs(got - num).max())
            if poly:
                c0 = R.cost_size(dict(s0, gencost=p['gencost'])) + 1
                nd = (cost(gp[1]) - cost(gm[1])) / 2 / h
                mon.check(abs(raw['df'] @ d - nd) <= 1e-6 * abs(nd) + 1e-8 * c0 / h * 1e-1, 'derivatives', 'gradient df off by %g of %g' % (raw['df'] @ d - nd, nd))
                H = 1e-2
                n2 = (cost(model(x0 + H * d)[1]) + cost(model(x0 - H * d)[1]) - 2 * cost(s0)) / H ** 2
                mon.check(abs(d @ (raw['d2f'] @ d) - n2) <= 1e-4 * abs(n2) + 1e-7 * c0 / H ** 2, 'derivatives', 'Hessian d2f off by %g of %g' % (d @ (raw['d2f'] @ d) - n2, n2))
    else:
        # every documented choice is known, whether its solver is installed or not
        from pypower import ppoption as M
        for name, fn, more in (('PF_ALG', api.runpf, {}), ('OPF_ALG', api.opf, {}), ('OPF_ALG_DC', api.opf, dict(PF_DC=True))):
            txt = dict((n.upper(), h) for n, _, h in M.PF_OPTIONS + M.OPF_OPTIONS)[name]
            need = {int(c): h for c, h in re.findall(r'^(\d+) - (.*)', txt, re.M)}
            codes = list(need)
            mon.check(len(codes) > 2, 'documented', 'no choices documented for %s' % name)
            c = copy(src)
            if more:
                dcify(c)
            for code in codes:
                try:
                    fn(c, opts(PDIPM_MAX_IT=5, **dict(more, **{name: code})))
                    mon.count('documented choices')
                except Exception as e:
                    if 'requires' in need[code]:
                        mon.count('solvers not installed')
                        continue
                    mon.check(False, 'documented', 'documented %s=%d: %s %s' % (name, code, type(e).__name__, e))
        # a code that names no algorithm is never answered with a solution
        for fn, kw in ((api.runpf, dict(PF_ALG=7)), (api.runpf, dict(PF_ALG=0)), (api.opf, dict(OPF_ALG=123)), (api.opf, dict(OPF_ALG=500)), (api.opf, dict(PF_DC=True, OPF_ALG_DC=77))):
            try:
                r = fn(copy(src), opts(**kw))
            except Exception:
                mon.count('refused')
                continue
            r = r if isinstance(r, dict) else r[0]
            mon.check(not r['success'], 'invalid', 'solved with %s' % kw)
            mon.count('refused')


# ------------------------------------------------------------------ P39
def plan39(tier, rng):
    return [dict(seed=int(rng.integers(1 << 30)), ops=int(rng.integers(4, 40))) for _ in range(n_of(tier, 1500, 20000))]


def user_value(b, x):
    """cost of one block, by the book"""
    w = []
    for i in range(len(b['Cw'])):
        r = float(np.dot(b['N'][i], x)) - b['rh'][i]
        k = b['kk'][i]
        if r < -k:
            rr = r + k
        elif r > k:
            rr = r - k
        else:
            w.append(0.)
            continue
        w.append(b['mm'][i] * (rr if b['dd'][i] == 1 else rr * rr))
    w = np.array(w)
    return .5 * float(w @ b['H'] @ w) + float(b['Cw'] @ w) if len(w) else 0.


@prop('P39', 'random histories of adding variables, linear and nonlinear constraints, costs and user data to OPF models (all and some of the variable sets, in any order, '
      'defaulted bounds, empty blocks), queried at any time; distinct by history', plan39,
      floors={'variable sets': 500, 'linear sets': 300, 'cost sets': 200, 'all variables': 60, 'queries': 2000, 'empty sets': 50})
def p39(spec, mon):
    from pypower.opf_model import opf_model
    from scipy.sparse import csr_matrix, csc_matrix
    rng = rng_for('p39', spec['seed'])
    ppc = {'tag': spec['seed']}
    om = opf_model(ppc)
    V, Lc, Nl, Co, U = [], [], [], [], {}
    hist = []
    fresh = lambda p: '%s%d' % (p, len(V) + len(Lc) + len(Nl) + len(Co))
    def nvar(names):
        return sum(v['N'] for v in V if v['name'] in names)
    def spread(M, names):
        """columns of the named sets, in that order, onto all variables"""
        full = np.zeros((M.shape[0], sum(v['N'] for v in V)))
        at, k = {}, 0
        for v in V:
            at[v['name']] = (k, k + v['N'])
            k += v['N']
        c = 0
        for n in names:
            a, b = at[n]
            full[:, a:b] = M[:, c:c + b - a]
            c += b - a
        return full
    def query():
        mon.count('queries')
        q = str(rng.choice(['N', 'getv', 'idx', 'lin', 'cost', 'user', 'repr']))
        if q == 'N':
            for s, blocks in (('var', V), ('lin', Lc), ('nln', Nl), ('cost', Co)):
                mon.check(om.getN(s) == sum(b['N'] for b in blocks), 'count', 'getN(%s)' % s)
                for b in blocks:
                    mon.check(om.getN(s, b['name']) == b['N'], 'count', 'getN(%s, name)' % s)
                mon.check(om.getN(s, 'nothing') == 0, 'count', 'getN of a set that is not there')
        elif q == 'getv':
            cat = lambda k: np.concatenate([v[k] for v in V]) if V else np.zeros(0)
            for got, k in zip(om.getv(), ('v0', 'vl', 'vu')):
                same(mon, got, cat(k), 'variables', k + ' of all variables')
            for v in V:
                for got, k in zip(om.getv(v['name']), ('v0', 'vl', 'vu')):
                    same(mon, got, v[k], 'variables', k + ' of a set')
            mon.check(all(len(a) == 0 for a in om.getv('nothing')), 'variables', 'bounds of a set that is not there')
        elif q == 'idx':
            for idx, blocks in zip(om.get_idx(), (V, Lc, Nl, Co)):
                k = 0
                for b in blocks:
                    mon.check((idx['i1'][b['name']], idx['iN'][b['name']], idx['N'][b['name']]) == (k, k + b['N'], b['N']), 'index', 'place of set %s' % b['name'])
                    k += b['N']
                mon.check(len(idx['N']) == len(blocks), 'index', 'number of sets')
            for part, blocks in ((om.var, V), (om.lin, Lc), (om.nln, Nl), (om.cost, Co)):
                mon.check(part['order'] == [b['name'] for b in blocks] and part['NS'] == len(blocks), 'index', 'order of sets')
        elif q == 'lin':
            A, l, u = om.linear_constraints()
            n = sum(b['N'] for b in Lc)
            if n == 0:
                mon.check(A is None and len(l) == 0 and len(u) == 0, 'linear', 'constraints of a model without any')
            else:
                same(mon, A.toarray(), np.vstack([spread(b['A'], b['vs']) for b in Lc]), 'linear', 'matrix of linear constraints')
                same(mon, l, np.concatenate([b['l'] for b in Lc]), 'linear', 'lower bounds')
                same(mon, u, np.concatenate([b['u'] for b in Lc]), 'linear', 'upper bounds')
        elif q == 'cost':
            om.build_cost_params()
            nw, n = sum(b['N'] for b in Co), sum(v['N'] for v in V)
            cp = om.get_cost_params()
            H = np.zeros((nw, nw))
            k = 0
            for b in Co:
                H[k:k + b['N'], k:k + b['N']] = b['H']
                k += b['N']
            d = lambda M: M.toarray() if hasattr(M, 'toarray') else np.asarray(M)
            same(mon, d(cp['N']), np.vstack([spread(b['M'], b['vs']) for b in Co] + [np.zeros((0, n))]), 'costs', 'N of all costs')
            same(mon, d(cp['H']), H, 'costs', 'H of all costs')
            for f in ('Cw', 'dd', 'rh', 'kk', 'mm'):
                same(mon, cp[f], np.concatenate([b[f] for b in Co] + [np.zeros(0)]), 'costs', f + ' of all costs')
            x = np.round(rng.normal(size=n) * 2, 1)
            tot = 0.
            for b in Co:
                want = user_value(dict(b, N=spread(b['M'], b['vs'])), x)
                tot += want
                got = om.compute_cost(x, b['name'])
                mon.check(abs(got - want) <= 1e-9 * (1 + abs(want)), 'costs', 'cost of a set %s, should be %s' % (got, want))
            got = om.compute_cost(x)
            mon.check(abs(got - tot) <= 1e-9 * (1 + abs(tot)) * 100, 'costs', 'cost of all sets %s, should be %s' % (got, tot))
        elif q == 'user':
            for k, v in U.items():
                mon.check(om.userdata(k) is v, 'userdata', 'user data')
            mon.check(np.size(om.userdata('nothing')) == 0, 'userdata', 'user data that was never stored')
            mon.check(om.get_ppc() is ppc, 'userdata', 'case of the model')
        else:
            t = repr(om)
            for b in V + Lc + Nl + Co:
                mon.check(re.search(r':\s*%s\s' % b['name'], t), 'repr', 'set %s is not shown' % b['name'])
    def vec(n, default):
        """a bound: given, defaulted or as a list"""
        if n and rng.random() < .7:
            return np.round(rng.normal(size=n) * 5, 2)
        return None
    def sets():
        names = [v['name'] for v in V]
        if not names or rng.random() < .3:
            mon.count('all variables')
            return names, [[], None][int(rng.integers(2))]
        pick = [str(n) for n in rng.permutation(names)[:int(rng.integers(1, len(names) + 1))]]
        return pick, list(pick)
    for _ in range(spec['ops']):
        op = str(rng.choice(['var', 'var', 'lin', 'lin', 'nln', 'cost', 'cost', 'user', 'query', 'query', 'query']))
        n = int(rng.choice([0, 1, 2, 3, 5]))
        if op in ('lin', 'cost') and not V:
            op = 'var'
        if op != 'query' and n == 0:
            mon.count('empty sets')
        if op == 'var':
            name = fresh('v')
            a = [vec(n, 0), vec(n, 0), vec(n, 0)]
            give = [([] if rng.random() < .5 else None) if x is None else (x.copy() if rng.random() < .8 else x.tolist()) for x in a]
            while len(give) and give[-1] is None:
                give.pop()
            om.add_vars(name, n, *give)
            V.append(dict(name=name, N=n, v0=np.zeros(n) if a[0] is None else a[0], vl=np.full(n, -np.inf) if a[1] is None else a[1], vu=np.full(n, np.inf) if a[2] is None else a[2]))
            mon.count('variable sets')
        elif op == 'lin':
            names, arg = sets()
            M = np.round(rng.normal(size=(n, nvar(names))), 2) * (rng.random((n, nvar(names))) < .6)
            l, u = vec(n, 0), vec(n, 0)
            name = fresh('l')
            A = (csr_matrix if rng.random() < .5 else csc_matrix)(M)
            e = lambda x: ([] if rng.random() < .5 else np.array([])) if x is None else x.copy()
            args = [name, A, e(l), e(u)]
            if arg is not None or rng.random() < .5:
                args.append(arg)
            om.add_constraints(*args)
            Lc.append(dict(name=name, N=n, A=M, vs=list(names), l=np.full(n, -np.inf) if l is None else l, u=np.full(n, np.inf) if u is None else u))
            mon.count('linear sets')
        elif op == 'nln':
            name = fresh('n')
            om.add_constraints(name, n, 'nonlinear')
            Nl.append(dict(name=name, N=n))
        elif op == 'cost':
            names, arg = sets()
            M = np.round(rng.normal(size=(n, nvar(names))), 1) * (rng.random((n, nvar(names))) < .6)
            b = dict(name=fresh('c'), N=n, M=M, vs=list(names), Cw=np.round(rng.normal(size=n), 2), H=np.zeros((n, n)), dd=np.ones(n), rh=np.zeros(n), kk=np.zeros(n), mm=np.ones(n))
            cp = {'N': csr_matrix(M) if n or rng.random() < .5 else csr_matrix((0, 0)), 'Cw': b['Cw'].copy()}
            if rng.random() < .5:
                Q = np.round(rng.normal(size=(n, n)), 1)
                b['H'] = Q + Q.T
                cp['H'] = csr_matrix(b['H'])
            for f, x in (('dd', rng.choice([1., 2.], n)), ('rh', np.round(rng.normal(size=n), 1)), ('kk', np.round(abs(rng.normal(size=n)), 1) * rng.choice([0, 1], n)), ('mm', np.round(rng.normal(size=n), 1))):
                if rng.random() < .5:
                    b[f] = x
                    cp[f] = x.copy()
            om.add_costs(b['name'], cp, arg)
            Co.append(b)
            mon.count('cost sets')
        elif op == 'user':
            k, v = 'd%d' % rng.integers(4), object() if rng.random() < .5 else {'a': 1}
            om.userdata(k, v)
            U[k] = v
        else:
            query()
        hist.append(op)
    for _ in range(6):
        query()
    mon.sig(tuple(hist))


# ------------------------------------------------------------------ P40
STAGES = ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']


def plan40(tier, rng):
    out = [dict(kind='list', seed=int(rng.integers(1 << 30))) for _ in range(n_of(tier, 400, 4000))]
    bases = ['case6ww', 'case9', 'case14', 'case30', 'net3', 'net5', 'net8', 'net15']
    for s in mkspecs(rng, n_of(tier, 60, 700), bases, pool=['loads', 'taps', 'offgen', 'offbranch', 'isolated', 'renumber', 'shuffle', 'disp', 'splitgen'], p=.3, kind='run'):
        s['via'] = str(rng.choice(['opf', 'runopf', 'runopf', 'runpf', 'dcopf', 'dcpf', 'tables', 'uopf', 'twice']))
        out.append(s)
    return out


LOG = []


def _mk_cb(stage, tag):
    if stage in ('printpf', 'savecase'):
        def cb(obj, fd, more, args):
            LOG.append((stage, tag, obj, more, args))
            fd.write('\n# %s says hello' % tag)
            return obj
    else:
        def cb(obj, args):
            LOG.append((stage, tag, obj, obj['bus'].copy() if stage != 'formulation' and isinstance(obj, dict) and 'bus' in obj else None, args))
            if stage == 'formulation':
                obj.userdata('note ' + tag, len(LOG))
            else:
                obj.setdefault('trail', []).append(tag) if isinstance(obj, dict) else None
            return obj
    cb.__name__ = 'userfcn_%s_%s' % (tag, stage)
    return cb


POOL = {s: [_mk_cb(s, '%s%d' % (s[:2], i)) for i in range(3)] for s in STAGES}


@prop('P40', 'random histories of adding, removing and running user functions at all five stages, and whole runs of every entry point with functions registered; '
      'distinct by history or (base, features, entry point, functions)', plan40,
      floors={'histories': 150, 'calls': 600, 'duplicates': 60, 'removed': 150, 'runs': 50, 'stage calls': 250, 'printed': 15, 'saved': 15})
def p40(spec, mon):
    from pypower import api
    from pypower.add_userfcn import add_userfcn
    from pypower.remove_userfcn import remove_userfcn
    from pypower.run_userfcn import run_userfcn
    rng = rng_for('p40', spec['seed'], spec['kind'])
    argpool = [None, None, 5, 0, [], [1, 2], {}, {'a': [1]}, 'text', np.array([1., 2.])]
    def args_of(ref):
        return [] if ref is None else ref
    def args_equal(a, b):
        return type(a) is type(b) and (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b)
    if spec['kind'] == 'list':
        mon.count('histories')
        ppc = {}
        ref = {s: [] for s in STAGES}
        hist = []
        for _ in range(int(rng.integers(3, 30))):
            s = str(rng.choice(STAGES))
            f = POOL[s][int(rng.integers(3))]
            op = str(rng.choice(['add', 'add', 'multi', 'remove', 'run']))
            hist.append((s, op))
            if op in ('add', 'multi'):
                a = argpool[int(rng.integers(len(argpool)))]
                kw = {}
                if a is not None:
                    kw['args'] = a
                if op == 'multi':
                    kw['allow_multiple'] = True
                there = any(g is f for g, _ in ref[s])
                with contextlib.redirect_stderr(io.StringIO()):
                    try:
                        q = add_userfcn(ppc, s, f, **kw)
                        mon.check(q is ppc, 'list', 'add_userfcn returns something else')
                    except Exception as e:
                        # a second copy may be refused outright
                        mon.check(there and op == 'add', 'list', 'could not add: %s %s' % (type(e).__name__, e))
                if there:
                    mon.count('duplicates')
                if not there or op == 'multi':
                    ref[s].append((f, a))
            elif op == 'remove':
                if s not in ppc.get('userfcn', {}):
                    continue
                remove_userfcn(ppc, s, f)
                for k in range(len(ref[s]) - 1, -1, -1):
                    if ref[s][k][0] is f:
                        del ref[s][k]
                        break
                mon.count('removed')
            elif 'userfcn' in ppc:
                del LOG[:]
                obj, fd = {}, io.StringIO()
                if s == 'formulation':
                    from pypower.opf_model import opf_model
                    obj = opf_model({})
                r = run_userfcn(ppc['userfcn'], s, obj, *([fd, {'o': 1}] if s in STAGES[3:] else []))
                mon.check(r is obj, 'run', 'the value of the functions is lost')
                if mon.check(len(LOG) == len(ref[s]), 'run', '%d functions called, %d registered' % (len(LOG), len(ref[s]))):
                    for (st, tag, o_, more, a), (f, w) in zip(LOG, ref[s]):
                        mon.count('calls')
                        mon.check(f.__name__ == 'userfcn_%s_%s' % (tag, st) and st == s, 'run', 'functions are called in another order')
                        mon.check(o_ is obj and (more == {'o': 1} or s not in STAGES[3:]), 'run', 'arguments of the stage')
                        mon.check(args_equal(a, args_of(w)), 'run', 'own arguments %r, registered with %r' % (a, w))
        for s in STAGES:
            got = ppc.get('userfcn', {}).get(s, [])
            mon.check([e['fcn'] for e in got] == [f for f, _ in ref[s]], 'list', 'registered functions of stage %s' % s)
        # what one function returns is what the next one gets
        log = []
        def step(k):
            return lambda obj, args: (log.append(obj), obj + [k])[1]
        p = {}
        for k in range(4):
            add_userfcn(p, 'int2ext', step(k))
        mon.check(run_userfcn(p['userfcn'], 'int2ext', []) == [0, 1, 2, 3] and log == [[0, 1, 2, 3][:k] for k in range(4)], 'run', 'functions are not chained')
        mon.sig(tuple(hist))
        return
    src = C.floats(build(spec))
    via = spec['via']
    if via in ('dcopf', 'uopf'):
        dcify(src)
    plain = copy(src)
    ref = {}
    for s in STAGES:
        ref[s] = []
        for k in rng.permutation(3)[:int(rng.integers(0, 3))]:
            a = argpool[int(rng.integers(len(argpool)))]
            add_userfcn(src, s, POOL[s][int(k)], **({} if a is None else {'args': a}))
            ref[s].append((POOL[s][int(k)], a))
    dc = via in ('dcopf', 'dcpf', 'uopf')
    files = via not in ('opf', 'tables')
    f, sv = io_files(dict(spec, io=True))
    o = opts(PF_DC=dc, PDIPM_MAX_IT=80, OUT_ALL=1 if files else 0)
    src0 = copy(src)
    np.random.seed(7)
    del LOG[:]
    def go(c, io_):
        if via == 'opf':
            return api.opf(c, o)
        if via == 'tables':
            return api.opf(c['baseMVA'], c['bus'], c['gen'], c['branch'], np.array([]), c['gencost'], c.get('userfcn', {}), o) if 'userfcn' in c else api.opf(c['baseMVA'], c['bus'], c['gen'], c['branch'], np.array([]), c['gencost'], o)
        if via == 'runpf' or via == 'dcpf':
            return api.runpf(c, o, *io_)[0]
        if via == 'uopf':
            return api.runuopf(c, o, *io_)
        return api.runopf(c, o, *io_)
    r = go(src, [f, sv])
    log = list(LOG)
    mon.count('runs')
    mon.sig(spec['base'], feats_sig(spec), via, tuple(len(ref[s]) for s in STAGES))
    mon.check(sorted(src) == sorted(src0) and all(np.array_equal(np.asarray(src[k]), np.asarray(src0[k])) for k in ('bus', 'gen', 'branch')), 'caller', 'case of the caller changed')
    np.random.seed(7)
    q = go(copy(plain), [])
    mon.check(all(equal(q[t], r[t]) for t in ('bus', 'gen', 'branch', 'success')), 'results', 'functions that change nothing change the results')
    isopf = via not in ('runpf', 'dcpf')
    cycle = [(s, g, a) for s in (['ext2int', 'formulation', 'int2ext'] if isopf else ['ext2int', 'int2ext']) for g, a in ref[s]]
    tail = [(s, g, a) for s in (['printpf', 'savecase'] if files else []) for g, a in ref[s]]
    want = cycle + tail
    if via == 'uopf':
        # an unknown number of OPF runs, each with all its stages
        n = len(log) - len(tail)
        k = n // len(cycle) if cycle else 0
        mon.check(n == k * len(cycle), 'stages', '%d calls in cycles of %d' % (n, len(cycle)))
        want = cycle * k + tail
    if mon.check(len(log) == len(want), 'stages', '%s: stages called %s, registered %s' % (via, [e[1] for e in log], [g.__name__ for _, g, _ in want])):
        for (st, tag, obj, more, a), (s, g, w) in zip(log, want):
            mon.count('stage calls')
            mon.check(st == s and g.__name__ == 'userfcn_%s_%s' % (tag, st), 'stages', '%s called instead of %s' % (tag, g.__name__))
            mon.check(args_equal(a, args_of(w)), 'stages', 'own arguments %r, registered with %r' % (a, w))
            if st == 'formulation':
                mon.check(all(obj.getN('var', v) for v in ('Va', 'Pg')), 'stages', 'formulation without the standard variables')
            elif st == 'ext2int' or st == 'int2ext':
                nb = int(live_bus(plain).sum())
                mon.check(len(more) == nb and np.array_equal(np.sort(more[:, BUS_I]), np.arange(nb)), 'stages', '%s: buses are not in internal order' % st)
            else:
                mon.check(np.array_equal(obj['bus'][:, BUS_I], plain['bus'][:, BUS_I]), 'stages', '%s: buses are not in the order of the case' % st)
                if st == 'savecase':
                    mon.check(isinstance(more, str) and 'ppc' in more, 'stages', 'prefix %r' % (more,))
                else:
                    mon.check(isinstance(more, dict) and more['PF_DC'] == dc, 'stages', 'options of the printing stage')
    if via != 'uopf':
        mon.check(r.get('trail', []) == [e[1] for e in log if e[0] in ('ext2int', 'int2ext')], 'results', 'what the functions add to the results is lost')
    if files:
        for st, name, cnt in (('printpf', f, 'printed'), ('savecase', sv, 'saved')):
            txt = open(name).read()
            at = [txt.find('# %s says hello' % g.__name__.split('_')[1]) for g, _ in ref[st]]
            mon.check(all(a >= 0 for a in at) and at == sorted(at), 'output', '%s: output of the functions is missing or in another order' % st)
            if ref[st]:
                mon.count(cnt)
        back = api.loadcase(sv)
        mon.check(np.allclose(back['bus'][:, VM], r['bus'][:, VM], atol=1e-7), 'output', 'solved case cannot be used')
    if via == 'twice' and r['success']:
        # solving the results again: still once each
        del LOG[:]
        r2 = api.opf(r, o)
        got = [e[1] for e in LOG]
        mon.check(got == [g.__name__.split('_')[1] for _, g, _ in cycle], 'stages', 'second run calls %s' % got)


# ------------------------------------------------------------------ P41
CLI_CASES = ['case4gs', 'case6ww', 'case9', 'case9Q', 'case14', 'case24_ieee_rts', 'case30', 'case30Q', 'case30pwl', 'case39', 'case57', 'case118', 'case300', 'case30_userfcns']


def plan41(tier, rng):
    out = []
    for c in CLI_CASES:
        out.append(dict(cmd='pf', case=c, src='testcase', seed=0, opt=False))
        if c not in ('case4gs', 'case300'):
            out.append(dict(cmd='opf', case=c, src='testcase', seed=0, opt=False))
    for s in mkspecs(rng, n_of(tier, 140, 1600), ['case6ww', 'case9', 'case14', 'case30', 'case24_ieee_rts', 'net5', 'net8', 'net15'],
                     pool=['loads', 'taps', 'offgen', 'offbranch', 'isolated', 'renumber', 'shuffle', 'disp', 'splitgen', 'pwl', 'tight'], p=.25, plain=False):
        s.update(cmd=str(rng.choice(['pf', 'opf', 'opf'])), src=str(rng.choice(['py', 'py', 'mat', 'testcase', 'testcase'])), opt=True, proc=bool(rng.random() < .06))
        s['case'] = str(rng.choice(CLI_CASES[:10]))
        if s['cmd'] == 'opf' and s['case'] == 'case4gs':
            s['case'] = 'case9'
        out.append(s)
    out += [dict(cmd=c, src='bad', bad=b, seed=0, opt=False, case='case9') for c in ('pf', 'opf')
            for b in ('option', 'value', 'choice', 'two', 'missing', 'testcase', 'bool', 'broken', 'diverge', 'help', 'version', 'other')]
    return out


def cli(cmd, args, proc=False):
    """exit status, standard output, standard error of a command line"""
    if proc:
        import subprocess
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'from pypower.main import %s; %s()' % (cmd, cmd)] + args, capture_output=True, text=True, timeout=300)
        return p.returncode, p.stdout, p.stderr
    from pypower import main as M
    err = io.StringIO()
    code = 'none'
    with captured() as cap, contextlib.redirect_stderr(err):
        try:
            getattr(M, cmd)(args)
        except SystemExit as e:
            code = e.code
    return code, cap[0], err.getvalue()


def rand_options(rng, cmd):
    """random valid options: what the command line says, what it means"""
    yes, no = ['True', 'Yes', 'true', 'yes', '1', 'Y', 'y'], ['False', 'No', 'false', 'no', '0', 'N', 'n']
    V = dict(verbose=[0, 0, 1, 2], out_all=[-1, -1, 0, 1], out_sys_sum=bool, out_area_sum=bool, out_bus=bool, out_branch=bool, out_gen=bool,
             out_all_lim=[-1, 0, 1, 2], out_v_lim=[0, 1, 2], out_line_lim=[0, 1, 2], out_pg_lim=[0, 1, 2], out_qg_lim=[0, 1, 2])
    if cmd == 'pf':
        V.update(pf_alg=[1, 2, 3], pf_tol=[1e-8, 1e-6, 1e-4], pf_max_it=[1, 2, 10, 20], pf_max_it_fd=[30, 3], pf_max_it_gs=[1000], enforce_q_lims=bool, pf_dc=bool,
                 pf_lin_solver_nr=['', 'spsolve'])
    else:
        V.update(opf_alg=[0, 560], opf_violation=[5e-6, 1e-4], opf_flow_lim=[0, 1, 2], opf_ignore_ang_lim=bool, opf_alg_dc=[0, 200, 250], pdipm_feastol=[0.0, 1e-5],
                 pdipm_gradtol=[1e-6, 1e-4], pdipm_comptol=[1e-6, 1e-5], pdipm_costtol=[1e-6, 1e-5], pdipm_max_it=[150, 60, 2], scpdipm_red_it=[20], return_raw_der=[0, 1])
    args, kw = [], {}
    for n in [str(x) for x in rng.permutation(sorted(V))[:int(rng.integers(0, 9))]]:
        if V[n] is bool:
            b = bool(rng.integers(2))
            t, v = str(rng.choice(yes if b else no)), b
        else:
            v = V[n][int(rng.integers(len(V[n])))]
            t = str(v)
        args.append(['--%s=%s' % (n, t)] if rng.random() < .6 or t.startswith('-') or t == '' else ['--' + n, t])
        kw[n.upper()] = v
    return args, kw


@prop('P41', 'command lines of pf and opf in process and as programs: built-in cases, case files, random options, output files, unit commitment and reserves, '
      'invalid uses; distinct by (command, case, options)', plan41,
      floors={'runs': 65, 'compared': 50, 'options given': 140, 'saved': 12, 'failures': 3, 'refused': 10, 'programs': 1})
def p41(spec, mon):
    from pypower import api
    from pypower.main import CASES
    rng = rng_for('p41', spec['seed'], spec['case'], spec['cmd'])
    cmd = spec['cmd']
    tmp = os.path.abspath('cli%d_%d' % (spec['seed'], os.getpid()))
    mask = lambda t: re.sub(r'\d+\.\d\d seconds', 'T seconds', t)
    if spec['src'] == 'bad':
        b = spec['bad']
        badfile, div = tmp + 'bad.py', tmp + 'div.py'
        with open(badfile, 'w') as fd:
            fd.write('def %s():\n    return {"bus": []}\n' % os.path.basename(badfile)[:-3])
        c = api.case9()
        c['bus'][:, PD] *= 60
        api.savecase(div, c)
        args = {'option': ['--nonsense=3'], 'value': ['--out_all_lim=abc'], 'choice': ['--testcase=nothing'], 'two': ['a', 'b'], 'missing': [tmp + 'nothing.py'],
                'testcase': ['-c', 'case1'], 'bool': ['--out_bus=maybe'], 'broken': [badfile], 'diverge': [div], 'help': ['-h'], 'version': ['--version'],
                'other': ['--pf_alg=1' if cmd == 'opf' else '--opf_alg=560']}[b]
        try:
            code, out, err = cli(cmd, args + (['--pdipm_max_it=60'] if cmd == 'opf' and b == 'diverge' else []))
        except Exception as e:
            mon.check(b in ('missing', 'broken'), 'invalid', '%s %s: %s %s' % (cmd, args, type(e).__name__, e))
            mon.count('refused')
            return
        mon.sig(cmd, b)
        if b in ('help', 'version'):
            mon.check(code in (0, None), 'invalid', '%s %s exits with %s' % (cmd, args, code))
            doc = documented()
            if b == 'help':
                for n in doc:
                    if not n.startswith('CPF') and n.startswith(('PF', 'ENF')) == (cmd == 'pf') or n.startswith(('OUT', 'VERB')):
                        mon.check('--' + n.lower() in out or (n.startswith(('OPF', 'PDIPM', 'SC', 'RET')) and cmd == 'pf'), 'help', '%s -h does not mention %s' % (cmd, n.lower()))
        else:
            mon.check(code not in (0, None, 'none'), 'invalid', '%s %s exits with %s' % (cmd, args, code))
        mon.count('refused')
        return
    # --- where the case comes from
    if spec['src'] == 'testcase':
        name = spec['case']
        case = CASES[name]()
        args = [['-c', name]] if rng.random() < .5 else [['--testcase=' + name]]
        if name == 'case9' and rng.random() < .5:
            args = []           # the default
    else:
        case = build(spec)
        fn = tmp + '.' + spec['src']
        api.savecase(fn, case)
        args = [[fn if spec['src'] == 'mat' or rng.random() < .5 else fn[:-3]]]
        case = api.loadcase(fn)
    oargs, kw = rand_options(rng, cmd) if spec['opt'] else ([], {})
    mode = ''
    if cmd == 'opf':
        if spec['case'] == 'case30_userfcns' and spec['src'] == 'testcase':
            mode = 'w_res'
        elif spec['opt'] and len(case['gen']) < 7 and rng.random() < .4:
            mode = 'uopf'
        if mode:
            oargs.append(['-u'] if mode == 'uopf' and rng.random() < .5 else ['--uopf'] if mode == 'uopf' else ['-r'] if rng.random() < .5 else ['--w_res'])
    files = spec['opt'] and rng.random() < .5
    fo, fs = tmp + 'out.txt', tmp + 'solved' + str(rng.choice(['.py', '.mat']))
    for f in (fo, fs):
        if os.path.exists(f):
            os.remove(f)
    if files:
        oargs += [['-o', fo] if rng.random() < .5 else ['--outfile=' + fo], ['-s', fs] if rng.random() < .5 else ['--solvedcase=' + fs]]
        mon.count('saved')
    argv = [a for k in rng.permutation(len(args + oargs)) for a in (args + oargs)[int(k)]]
    proc = bool(spec.get('proc'))
    np.random.seed(3)
    code, out, err = cli(cmd, argv, proc)
    mon.count('runs')
    if proc:
        mon.count('programs')
    mon.count('options given', len(kw))
    mon.sig(cmd, spec['case'] if spec['src'] == 'testcase' else spec['base'], mode, tuple(sorted(kw.items())))
    # --- the same through the API
    from pypower.ppoption import ppoption
    o = ppoption(**kw)
    np.random.seed(3)
    with captured() as cap:
        fn = api.runpf if cmd == 'pf' else {'': api.runopf, 'uopf': api.runuopf, 'w_res': api.runopf_w_res}[mode]
        r = fn(case, o, tmp + 'api.txt' if files else '')
    r = r if isinstance(r, dict) else r[0]
    want = 0 if r['success'] else 2
    if not r['success']:
        mon.count('failures')
    mon.check(code == want, 'exit', '%s %s exits with %s, success is %s' % (cmd, argv, code, r['success']))
    if mode == 'uopf' and proc:
        return          # ties are broken at random
    mon.count('compared')
    mon.check(mask(out) == mask(cap[0]), 'screen', '%s %s prints %d characters, the API %d' % (cmd, argv, len(out), len(cap[0])))
    if files:
        a = open(fo).read() if os.path.exists(fo) else None
        b = open(tmp + 'api.txt').read() if os.path.exists(tmp + 'api.txt') else None
        mon.check(a is not None and b is not None and mask(a) == mask(b), 'outfile', 'report written by the command line differs from the API')
        if mon.check(os.path.exists(fs), 'solvedcase', 'no solved case written'):
            back = api.loadcase(fs)
            for t in ('bus', 'gen', 'branch'):
                w = np.asarray(r[t], float)
                g = np.asarray(back[t], float)
                if mon.check(g.shape == w.shape, 'solvedcase', 'shape of %s' % t):
                    fin = np.isfinite(w)
                    tol = 1e-8 * abs(w) + 1e-12
                    tol[:, {'bus': 13, 'gen': 21, 'branch': 13}[t]:] += 6e-5      # results are written with 4 decimals
                    mon.check((abs(g - w)[fin] <= tol[fin]).all(), 'solvedcase', '%s of the solved case' % t)
        for f in (tmp + 'api.txt', fo, fs):
            if os.path.exists(f):
                os.remove(f)
