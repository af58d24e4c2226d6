"""Independent reference models (dense, element by element, no pypower code)."""
import numpy as np
from .cases import *


def branch_y(r):
    """2x2 admittance of one branch row, pi model with ideal transformer at from end."""
    y = 1 / complex(r[BR_R], r[BR_X])
    b = 1j * r[BR_B] / 2
    a = r[TAP] if r[TAP] != 0 else 1.0
    t = a * np.exp(1j * np.pi / 180 * r[SHIFT])
    return (y + b) / (a * a), -y / np.conj(t), -y / t, y + b


def vcomplex(bus):
    return bus[:, VM] * np.exp(1j * np.pi / 180 * bus[:, VA])


def ybus(ppc):
    """dense Ybus over all bus rows, counting only live equipment (p.u.)."""
    pos, lb, on = bus_pos(ppc), live_bus(ppc), live_branch(ppc)
    n = len(lb)
    Y = np.zeros((n, n), complex)
    for k, r in enumerate(ppc['branch']):
        if on[k]:
            i, j = pos[int(r[F_BUS])], pos[int(r[T_BUS])]
            a, b, c, d = branch_y(r)
            Y[i, i] += a
            Y[i, j] += b
            Y[j, i] += c
            Y[j, j] += d
    for i, r in enumerate(ppc['bus']):
        if lb[i]:
            Y[i, i] += complex(r[GS], r[BS]) / ppc['baseMVA']
    return Y


def flows(ppc):
    """(Sf, St) in MVA per branch row from the bus voltages; zero for dead branches."""
    pos, on = bus_pos(ppc), live_branch(ppc)
    V = vcomplex(ppc['bus'])
    Sf, St = np.zeros(len(on), complex), np.zeros(len(on), complex)
    for k, r in enumerate(ppc['branch']):
        if on[k]:
            i, j = pos[int(r[F_BUS])], pos[int(r[T_BUS])]
            a, b, c, d = branch_y(r)
            Sf[k] = V[i] * np.conj(a * V[i] + b * V[j]) * ppc['baseMVA']
            St[k] = V[j] * np.conj(c * V[i] + d * V[j]) * ppc['baseMVA']
    return Sf, St


def gen_at_bus(ppc):
    pos, on = bus_pos(ppc), live_gen(ppc)
    S = np.zeros(len(ppc['bus']), complex)
    for k, r in enumerate(ppc['gen']):
        if on[k]:
            S[pos[int(r[GEN_BUS])]] += complex(r[PG], r[QG])
    return S


def mismatch(ppc):
    """complex nodal balance error in MVA from V, gen outputs, loads, shunts, pi-model flows."""
    pos, lb = bus_pos(ppc), live_bus(ppc)
    V = vcomplex(ppc['bus'])
    out = gen_at_bus(ppc) - (ppc['bus'][:, PD] + 1j * ppc['bus'][:, QD])
    out -= abs(V) ** 2 * np.conj(ppc['bus'][:, GS] + 1j * ppc['bus'][:, BS])
    Sf, St = flows(ppc)
    for k, r in enumerate(ppc['branch']):
        out[pos[int(r[F_BUS])]] -= Sf[k]
        out[pos[int(r[T_BUS])]] -= St[k]
    out[~lb] = 0
    return out


def bus_kinds(ppc):
    """effective (ref, pv, pq) row lists: PV/REF need a live unit."""
    pos, lb, on = bus_pos(ppc), live_bus(ppc), live_gen(ppc)
    has = np.zeros(len(lb), bool)
    for k, r in enumerate(ppc['gen']):
        if on[k]:
            has[pos[int(r[GEN_BUS])]] = True
    t = ppc['bus'][:, BUS_TYPE]
    ref = [i for i in range(len(lb)) if t[i] == REF and has[i]]
    pv = [i for i in range(len(lb)) if t[i] == PV and has[i]]
    if not ref and pv:
        ref, pv = [pv[0]], pv[1:]
    pq = [i for i in range(len(lb)) if lb[i] and i not in ref and i not in pv]
    return ref, pv, pq


def start_voltage(ppc):
    V = vcomplex(ppc['bus'])
    pos, on = bus_pos(ppc), live_gen(ppc)
    ref, pv, pq = bus_kinds(ppc)
    ctl = set(ref) | set(pv)
    for k, r in enumerate(ppc['gen']):
        i = pos[int(r[GEN_BUS])]
        if on[k] and i in ctl:
            V[i] = r[VG] * V[i] / abs(V[i])
    return V


def newton(ppc, tol=1e-10, itmax=15):
    """dense Newton power flow on live part; returns (V over all rows, iterations or None)."""
    ref, pv, pq = bus_kinds(ppc)
    Y = ybus(ppc)
    S = (gen_at_bus(ppc) - (ppc['bus'][:, PD] + 1j * ppc['bus'][:, QD])) / ppc['baseMVA']
    V = start_voltage(ppc)
    a, m = np.array(sorted(pv) + sorted(pq), int), np.array(sorted(pq), int)
    for it in range(itmax + 1):
        I = Y @ V
        mis = V * np.conj(I) - S
        F = np.r_[mis[a].real, mis[m].imag]
        if not len(F) or abs(F).max() < tol:
            return V, it
        if not np.all(np.isfinite(F)):
            return V, None
        dVm = np.diag(V) @ np.conj(Y @ np.diag(V / abs(V))) + np.diag(np.conj(I) * V / abs(V))
        dVa = 1j * np.diag(V) @ np.conj(np.diag(I) - Y @ np.diag(V))
        J = np.block([[dVa[np.ix_(a, a)].real, dVm[np.ix_(a, m)].real],
                      [dVa[np.ix_(m, a)].imag, dVm[np.ix_(m, m)].imag]])
        try:
            dx = np.linalg.solve(J, -F)
        except np.linalg.LinAlgError:
            return V, None
        Va, Vm = np.angle(V), abs(V)
        Va[a] += dx[:len(a)]
        Vm[m] += dx[len(a):]
        V = Vm * np.exp(1j * Va)
    return V, None


def dc_b(r):
    """(susceptance, phase-shift injection in p.u.) of a branch row in the DC model."""
    a = r[TAP] if r[TAP] != 0 else 1.0
    b = 1 / r[BR_X] / a
    return b, -b * r[SHIFT] * np.pi / 180


def dc_solve(ppc):
    """dense DC power flow; returns (Va degrees over rows, branch flow MW, slack gen P list)."""
    pos, lb, on = bus_pos(ppc), live_bus(ppc), live_branch(ppc)
    ref, pv, pq = bus_kinds(ppc)
    n = len(lb)
    B = np.zeros((n, n))
    inj = (gen_at_bus(ppc).real - ppc['bus'][:, PD] - ppc['bus'][:, GS]) / ppc['baseMVA']
    fl = []
    for k, r in enumerate(ppc['branch']):
        if on[k]:
            i, j = pos[int(r[F_BUS])], pos[int(r[T_BUS])]
            b, p = dc_b(r)
            B[i, i] += b
            B[j, j] += b
            B[i, j] -= b
            B[j, i] -= b
            inj[i] -= p
            inj[j] += p
            fl.append((k, i, j, b, p))
    live = [i for i in range(n) if lb[i] and i not in ref]
    Va = ppc['bus'][:, VA] * np.pi / 180
    if live:
        rhs = inj[live] - B[np.ix_(live, ref)] @ Va[ref]
        Va[live] = np.linalg.solve(B[np.ix_(live, live)], rhs)
    P = np.zeros(len(on))
    for k, i, j, b, p in fl:
        P[k] = (b * (Va[i] - Va[j]) + p) * ppc['baseMVA']
    return Va * 180 / np.pi, P, ref


def cost1(row, p):
    """cost of one unit at output p (MW) from its gencost row."""
    n = int(row[NCOST])
    if row[MODEL] == 2:
        c = 0.0
        for a in row[COST:COST + n]:
            c = c * p + a
        return c
    x, y = row[COST:COST + 2 * n:2], row[COST + 1:COST + 2 * n:2]
    # extended beyond the end points along the end segments
    for k in range(n - 1):
        if p <= x[k + 1] or k == n - 2:
            return y[k] + (y[k + 1] - y[k]) / (x[k + 1] - x[k]) * (p - x[k])


def total_cost(ppc):
    g, gc = ppc['gen'], ppc['gencost']
    on = live_gen(ppc)
    ng = len(g)
    f = sum(cost1(gc[k], g[k, PG]) for k in range(ng) if on[k])
    if len(gc) == 2 * ng:
        f += sum(cost1(gc[ng + k], g[k, QG]) for k in range(ng) if on[k])
    return f


def cost_size(ppc):
    """sum of the absolute costs (the scale at which a total can be accurate)"""
    g, gc = ppc['gen'], ppc['gencost']
    on, ng = live_gen(ppc), len(ppc['gen'])
    f = sum(abs(cost1(gc[k], g[k, PG])) for k in range(ng) if on[k])
    if len(gc) == 2 * ng:
        f += sum(abs(cost1(gc[ng + k], g[k, QG])) for k in range(ng) if on[k])
    return 1 + f


def is_disp(row):
    return row[PMIN] < 0 and row[PMAX] == 0
