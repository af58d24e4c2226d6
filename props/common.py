import io, contextlib
import numpy as np
from vlib.core import prop, rng_for
from vlib.cases import *
from vlib import cases as C, ref as R


def opts(**kw):
    from pypower.api import ppoption
    d = dict(VERBOSE=0, OUT_ALL=0)
    d.update(kw)
    return ppoption(**d)


def feats_sig(spec):
    return tuple(sorted(spec.get('feat', [])))


def count_feats(mon, spec, pre='feature:'):
    for f in spec.get('feat', []):
        mon.count(pre + f)


def scale(ppc):
    return 1.0 + abs(ppc['bus'][:, PD]).sum() + abs(ppc['gen'][:, PMAX][np.isfinite(ppc['gen'][:, PMAX])]).sum()


def same(mon, a, b, mech, msg):
    """exact equality of arrays (input data that must not change)"""
    a, b = np.asarray(a), np.asarray(b)
    mon.check(a.shape == b.shape and np.array_equal(a, b, equal_nan=True), mech,
              '%s (shape %s vs %s, %s entries differ)' % (msg, a.shape, b.shape,
               int((a != b).sum()) if a.shape == b.shape else '?'))


def kinds_str(p):
    r, v, q = R.bus_kinds(p)
    return len(r), len(v), len(q)
