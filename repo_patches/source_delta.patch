From 5c0a50ba5cbbb8d0ddb454cdf1050ae2570784d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:01 +0000
Subject: [PATCH 01/74] fix: runpf: enforcing generator Q limits crashed on
 float indices and never fixed the right generators

---
 pypower/runpf.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pypower/runpf.py b/pypower/runpf.py
index 8ffcf4e..5d923e6 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -209,9 +209,9 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                     # first check for INFEASIBILITY (all remaining gens violating)
                     infeas = union1d(mx, mn)
                     remaining = find( gen_status & 
-                                     (bus[gen[:, GEN_BUS], BUS_TYPE] == PV | 
-                                      bus[gen[:, GEN_BUS], BUS_TYPE] == REF))
-                    if len(infeas) == len(remaining) or all(infeas == remaining):
+                                     ((bus[gen[:, GEN_BUS].astype(int), BUS_TYPE] == PV) |
+                                      (bus[gen[:, GEN_BUS].astype(int), BUS_TYPE] == REF)))
+                    if len(infeas) == len(remaining) and all(infeas == remaining):
                         if verbose:
                             print('All %d remaining gens exceed to their Q limits: INFEASIBLE PROBLEM\n' % len(infeas))
                         
@@ -222,12 +222,12 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                     if qlim == 2:    ## fix largest violation, ignore the rest
                         k = argmax(r_[gen[mx, QG] - gen[mx, QMAX],
                                       gen[mn, QMIN] - gen[mn, QG]])
-                        if k > len(mx):
-                            mn = mn[k - len(mx)]
-                            mx = []
+                        if k >= len(mx):
+                            mn = mn[[k - len(mx)]]
+                            mx = mx[:0]
                         else:
-                            mx = mx[k]
-                            mn = []
+                            mx = mx[[k]]
+                            mn = mn[:0]
 
                     if verbose and len(mx) > 0:
                         for i in range(len(mx)):
@@ -249,7 +249,7 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                         bi = gen[mx[i], GEN_BUS].astype(int)   ## adjust load accordingly,
                         bus[bi, [PD, QD]] = (bus[bi, [PD, QD]] - gen[mx[i], [PG, QG]])
                     
-                    if len(ref) > 1 and any(bus[gen[mx, GEN_BUS], BUS_TYPE] == REF):
+                    if len(ref) > 1 and any(bus[gen[mx, GEN_BUS].astype(int), BUS_TYPE] == REF):
                         raise ValueError('Sorry, PYPOWER cannot enforce Q '
                                          'limits for slack buses in systems '
                                          'with multiple slacks.')
@@ -263,9 +263,9 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                     # previous line can modify lists to select new REF bus
                     # if there was none, so we should update bus with these
                     # just to keep them consistent
-                    if ref != ref_temp:
+                    if any(ref != ref_temp):
                         bus[ref, BUS_TYPE] = REF
-                        bus[pv, BUS_TYPE] = pv
+                        bus[pv, BUS_TYPE] = PV
                         if verbose:
                             print('Bus %d is new slack bus\n' % ref)
 
@@ -279,11 +279,11 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
             ## restore injections from limited gens [those at Q limits]
             gen[limited, QG] = fixedQg[limited]    ## restore Qg value,
             for i in range(len(limited)):               ## [one at a time, since they may be at same bus]
-                bi = gen[limited[i], GEN_BUS]           ## re-adjust load,
+                bi = gen[limited[i], GEN_BUS].astype(int)  ## re-adjust load,
                 bus[bi, [PD, QD]] = bus[bi, [PD, QD]] + gen[limited[i], [PG, QG]]
                 gen[limited[i], GEN_STATUS] = 1           ## and turn gen back on
             
-            if ref != ref0:
+            if any(ref != ref0):
                 ## adjust voltage angles to make original ref bus correct
                 bus[:, VA] = bus[:, VA] - bus[ref0, VA] + Varef0
 
-- 
2.43.0


From 9f175f75a4aa80c38198a007690b3448ac47a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:01 +0000
Subject: [PATCH 02/74] fix: polycost: return an empty array, not a list, when
 there are no polynomial costs

---
 pypower/polycost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/polycost.py b/pypower/polycost.py
index fd57359..c3d21ff 100644
--- a/pypower/polycost.py
+++ b/pypower/polycost.py
@@ -30,7 +30,7 @@ def polycost(gencost, Pg, der=0):
     """
     if gencost.size == 0:
         #User has a purely linear piecewise problem, exit early with empty array
-        return []
+        return zeros(len(Pg))
 
     if any(gencost[:, MODEL] == PW_LINEAR):
         sys.stderr.write('polycost: all costs must be polynomial\n')
-- 
2.43.0


From eff0702b9383ea8f20594c188cdcac3e22f11914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:15 +0000
Subject: [PATCH 03/74] fix: opf_costfcn, opf_hessfcn: cost of the first
 generator was dropped and reactive costs crashed

---
 pypower/opf_costfcn.py | 8 ++++----
 pypower/opf_hessfcn.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index ab58406..264ba07 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -58,7 +58,7 @@ def opf_costfcn(x, om, return_hessian=False):
     # formulation, pwl cost is the sum of the y variables.
     ipol = find(gencost[:, MODEL] == POLYNOMIAL)   ## poly MW and MVAr costs
     xx = r_[ Pg, Qg ] * baseMVA
-    if any(ipol):
+    if len(ipol) > 0:
         f = sum( totcost(gencost[ipol, :], xx[ipol]) )  ## cost of poly P or Q
     else:
         f = 0
@@ -142,7 +142,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ## ---- evaluate cost Hessian -----
     pcost = gencost[range(ng), :]
     if gencost.shape[0] > ng:
-        qcost = gencost[ng + 1:2 * ng, :]
+        qcost = gencost[ng:2 * ng, :]
     else:
         qcost = array([])
 
@@ -152,7 +152,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp]*baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if len(qcost) > 0:          ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
@@ -160,7 +160,7 @@ def opf_costfcn(x, om, return_hessian=False):
     d2f = sparse((r_[d2f_dPg2, d2f_dQg2], (i, i)), (nxyz, nxyz))
 
     ## generalized cost
-    if N is not None and issparse(N):
+    if issparse(N) and N.nnz > 0:
         d2f = d2f + AA * H * AA.T + 2 * N.T * M * QQ * \
                 sparse((HwC, (range(nw), range(nw))), (nw, nw)) * N
 
diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index de842f5..23683c0 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -103,7 +103,7 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp] * baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if len(qcost) > 0:          ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
-- 
2.43.0


From 4418e4df5a61e6a55825d32da9c5eb7c1798e39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:29 +0000
Subject: [PATCH 04/74] fix: opf_setup: piecewise linear reactive costs
 constrained the wrong generator's Qg

---
 pypower/opf_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index ca37b7b..07e945b 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -155,7 +155,7 @@ def opf_setup(ppc, ppopt):
         ## more problem dimensions
         nv    = nb           ## number of voltage magnitude vars
         nq    = ng           ## number of Qg vars
-        q1    = ng           ## index of 1st Qg column in Ay
+        q1    = 1 + ng       ## index of 1st Qg column in Ay
 
         ## dispatchable load, constant power factor constraints
         Avl, lvl, uvl, _  = makeAvl(baseMVA, gen)
-- 
2.43.0


From bfcffdb0a90ecada6a6635d3116175005139a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:36 +0000
Subject: [PATCH 05/74] fix: AC OPF crashed when no branch has a flow limit

---
 pypower/opf_consfcn.py | 2 +-
 pypower/opf_hessfcn.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_consfcn.py b/pypower/opf_consfcn.py
index a146462..8aa20bd 100644
--- a/pypower/opf_consfcn.py
+++ b/pypower/opf_consfcn.py
@@ -120,7 +120,7 @@ def opf_consfcn(x, om, Ybus, Yf, Yt, ppopt, il=None, *args):
                 h = r_[ Sf * conj(Sf) - flow_max, ## branch S limits (from bus)
                         St * conj(St) - flow_max ].real  ## branch S limits (to bus)
     else:
-        h = zeros((0,1))
+        h = zeros(0)
 
     ##----- evaluate partials of constraints -----
     ## index ranges
diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index 23683c0..e19ca89 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -160,6 +160,9 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
             ])
         ], "csr")
 
+    if nl2 == 0:       ## no branch flow limits
+        return d2f + d2G
+
     ##----- evaluate Hessian of flow constraints -----
     nmu = int(len(lmbda["ineqnonlin"]) / 2)
     muF = lmbda["ineqnonlin"][:nmu]
-- 
2.43.0


From 997c463d0dedd75312e66eedaeee96aefc1c381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:36 +0000
Subject: [PATCH 06/74] fix: runcpf: predictor and corrector crashed building
 the augmented Jacobian

---
 pypower/cpf_corrector.py | 5 +++--
 pypower/cpf_predictor.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pypower/cpf_corrector.py b/pypower/cpf_corrector.py
index 9043957..238ee94 100644
--- a/pypower/cpf_corrector.py
+++ b/pypower/cpf_corrector.py
@@ -5,6 +5,7 @@ full Newton method with selected parameterization scheme.
 from numpy import r_, angle, conj, linalg, inf, array, exp
 
 from scipy.sparse import vstack, hstack
+from scipy.sparse import csr_matrix as sparse
 
 from pypower.ppoption import ppoption
 from pypower.cpf_p import cpf_p
@@ -91,8 +92,8 @@ def cpf_corrector(Ybus, Sbus, V0, ref, pv, pq,
 
         # augment J with real/imag -Sxfr and z^T
         J = vstack([
-            hstack([J, dF_dlam]),
-            hstack([dP_dV, dP_dlam])
+            hstack([J, sparse(dF_dlam)]),
+            sparse(r_[dP_dV, dP_dlam].reshape((1, -1)))
         ], format="csr")
 
         # compute update step
diff --git a/pypower/cpf_predictor.py b/pypower/cpf_predictor.py
index ef33a8f..171f46d 100644
--- a/pypower/cpf_predictor.py
+++ b/pypower/cpf_predictor.py
@@ -4,6 +4,7 @@
 from numpy import r_, array, angle, zeros, linalg, exp
 
 from scipy.sparse import hstack, vstack
+from scipy.sparse import csr_matrix as sparse
 
 from pypower.dSbus_dV import dSbus_dV
 from pypower.cpf_p_jac import cpf_p_jac
@@ -36,8 +37,8 @@ def cpf_predictor(V, lam, Ybus, Sxfr, pv, pq,
 
     # linear operator for computing the tangent predictor
     J = vstack([
-        hstack([J, dF_dlam]),
-        hstack([dP_dV, dP_dlam])
+        hstack([J, sparse(dF_dlam)]),
+        sparse(r_[dP_dV, dP_dlam].reshape((1, -1)))
     ], format="csr")
 
     Vaprv = angle(V)
-- 
2.43.0


From c908ba25ad0c41fbdb757c3c69de66edbe7b985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:07 +0000
Subject: [PATCH 07/74] fix: e2i_data: sparse data with several blocks was
 returned unconverted

---
 pypower/e2i_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/e2i_data.py b/pypower/e2i_data.py
index c8de659..a359f9c 100644
--- a/pypower/e2i_data.py
+++ b/pypower/e2i_data.py
@@ -84,9 +84,9 @@ def e2i_data(ppc, val, ordering, dim=0):
 
         if issparse(new_v[0]):
             if dim == 0:
-                vstack(new_v, 'csr')
+                val = vstack(new_v, 'csr')
             elif dim == 1:
-                hstack(new_v, 'csr')
+                val = hstack(new_v, 'csr')
             else:
                 raise ValueError('dim (%d) may be 0 or 1' % dim)
         else:
-- 
2.43.0


From 07a837ba1cfdef30b51ba8a04d192ad5bf42cbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:36 +0000
Subject: [PATCH 08/74] fix: i2e_data: converting several blocks of sparse data
 crashed

---
 pypower/i2e_data.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pypower/i2e_data.py b/pypower/i2e_data.py
index 2620d54..c51e476 100644
--- a/pypower/i2e_data.py
+++ b/pypower/i2e_data.py
@@ -6,6 +6,8 @@ import sys
 
 from numpy import arange, concatenate
 
+from scipy.sparse import issparse, vstack, hstack
+
 from pypower.get_reorder import get_reorder
 from pypower.set_reorder import set_reorder
 
@@ -53,8 +55,6 @@ def i2e_data(ppc, val, oldval, ordering, dim=0):
 
     @see: L{e2i_data}, L{i2e_field}, L{int2ext}.
     """
-    from pypower.int2ext import int2ext
-
     if 'order' not in ppc:
         sys.stderr.write('i2e_data: ppc does not have the \'order\' field '
                 'required for conversion back to external numbering.\n')
@@ -81,13 +81,21 @@ def i2e_data(ppc, val, oldval, ordering, dim=0):
             ni = ppc[ordr].shape[0]
             v = get_reorder(val, bi + arange(ni), dim)
             oldv = get_reorder(oldval, be + arange(ne), dim)
-            new_v.append( int2ext(ppc, v, oldv, ordr, dim) )
+            new_v.append( i2e_data(ppc, v, oldv, ordr, dim) )
             be = be + ne
             bi = bi + ni
         ni = val.shape[dim]
         if ni > bi:              ## the rest
             v = get_reorder(val, arange(bi, ni), dim)
             new_v.append(v)
-        val = concatenate(new_v, dim)
+        if issparse(new_v[0]):
+            if dim == 0:
+                val = vstack(new_v, 'csr')
+            elif dim == 1:
+                val = hstack(new_v, 'csr')
+            else:
+                raise ValueError('dim (%d) may be 0 or 1' % dim)
+        else:
+            val = concatenate(new_v, dim)
 
     return val
-- 
2.43.0


From 4fe4636306eb5659e913ec336a4bb018152b700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:50 +0000
Subject: [PATCH 09/74] fix: e2i_field, i2e_field: nested fields were created
 at the wrong level

---
 pypower/e2i_field.py | 2 +-
 pypower/i2e_field.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/e2i_field.py b/pypower/e2i_field.py
index c458190..362e69a 100644
--- a/pypower/e2i_field.py
+++ b/pypower/e2i_field.py
@@ -55,7 +55,7 @@ def e2i_field(ppc, field, ordering, dim=0):
         for fld in field:
             if fld not in v_ext:
                 v_ext[fld] = {}
-                v_ext = v_ext[fld]
+            v_ext = v_ext[fld]
 
     exec('ppc["order"]["ext"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = e2i_data(ppc, ppc%s, ordering, dim)' % (key, key))
diff --git a/pypower/i2e_field.py b/pypower/i2e_field.py
index 67c46bd..345fa85 100644
--- a/pypower/i2e_field.py
+++ b/pypower/i2e_field.py
@@ -47,7 +47,7 @@ def i2e_field(ppc, field, ordering, dim=0):
         for fld in field:
             if fld not in v_int:
                 v_int[fld] = {}
-                v_int = v_int[fld]
+            v_int = v_int[fld]
 
     exec('ppc["order"]["int"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = i2e_data(ppc, ppc%s, ppc["order"]["ext"]%s, ordering, dim)' %
-- 
2.43.0


From b9f5cbb8ebea2ad65c08e2d2afab561d09487796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 10/74] fix: scale_load: scalar loads, integer quantities and
 dispatchable quantities crashed or truncated; caller's opt was modified

---
 pypower/scale_load.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index 60fa8d2..a43cbff 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -70,6 +70,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
     nb = bus.shape[0]   ## number of buses
 
     ##-----  process inputs  -----
+    load = array(load, float).flatten()     ## scalar or vector
     bus = bus.copy()
     if gen is None:
         gen = array([])
@@ -77,8 +78,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
         gen = gen.copy()
     if load_zone is None:
         load_zone = array([], int)
-    if opt is None:
-        opt = {}
+    opt = {} if opt is None else opt.copy()
 
     ## fill out and check opt
     if len(gen) == 0:
@@ -118,7 +118,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
     if len(load_zone) == 0:
         if len(load) == 1:        ## make a single zone of all load buses
             load_zone = zeros(nb, int)             ## initialize
-            load_zone[bus[:, PD] != 0 or bus[:, QD] != 0] = 1  ## FIXED loads
+            load_zone[(bus[:, PD] != 0) | (bus[:, QD] != 0)] = 1  ## FIXED loads
             if len(gen) > 0:
                 gbus = gen[ld, GEN_BUS].astype(int)
                 load_zone[e2i[gbus]] = 1    ## DISPATCHABLE loads
@@ -135,7 +135,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
     if opt["scale"][0] == 'Q':  ## 'QUANTITY'
         ## find load capacity from dispatchable loads
         if len(gen) > 0:
-            Pdd = -Cld * gen[:, PMIN]
+            Pdd = -(Cld * gen[:, PMIN])
 
         ## compute scale factors
         for k in range(len(load)):
-- 
2.43.0


From 16b688700110e4f46ebdad160af0c5802f46579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:59 +0000
Subject: [PATCH 11/74] fix: poly2pwl: crashed, and overwrote the caller's cost
 matrix

---
 pypower/poly2pwl.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/pypower/poly2pwl.py b/pypower/poly2pwl.py
index d7b0b2d..8615808 100644
--- a/pypower/poly2pwl.py
+++ b/pypower/poly2pwl.py
@@ -5,7 +5,7 @@
 """Converts polynomial cost variable to piecewise linear.
 """
 
-from numpy import ones, zeros, r_
+from numpy import ones, zeros, r_, linspace
 
 from pypower.idx_cost import MODEL, COST, NCOST, PW_LINEAR
 
@@ -21,28 +21,22 @@ def poly2pwl(polycost, Pmin, Pmax, npts):
     C{P} really means C{Q}) it just uses C{npts} evenly spaced points between
     C{Pmin} and C{Pmax}.
     """
-    pwlcost = polycost
     ## size of piece being changed
     m, n = polycost.shape
+    pwlcost = zeros((m, max(n, COST + 2 * npts)))
+    pwlcost[:, :COST] = polycost[:, :COST]
     ## change cost model
     pwlcost[:, MODEL]  = PW_LINEAR * ones(m)
-    ## zero out old data
-    pwlcost[:, COST:COST + n] = zeros(pwlcost[:, COST:COST + n].shape)
     ## change number of data points
     pwlcost[:, NCOST]  = npts * ones(m)
 
     for i in range(m):
-        if Pmin[i] == 0:
-            step = (Pmax[i] - Pmin[i]) / (npts - 1)
-            xx = range(Pmin[i], step, Pmax[i])
-        elif Pmin[i] > 0:
-            step = (Pmax[i] - Pmin[i]) / (npts - 2)
-            xx = r_[0, range(Pmin[i], step, Pmax[i])]
-        elif Pmin[i] < 0 & Pmax[i] > 0:        ## for when P really means Q
-            step = (Pmax[i] - Pmin[i]) / (npts - 1)
-            xx = range(Pmin[i], step, Pmax[i])
-        yy = totcost(polycost[i, :], xx)
-        pwlcost[i,      COST:2:(COST + 2*(npts-1)    )] = xx
-        pwlcost[i,  (COST+1):2:(COST + 2*(npts-1) + 1)] = yy
+        if Pmin[i] > 0:
+            xx = r_[0, linspace(Pmin[i], Pmax[i], npts - 1)]
+        else:                                  ## includes when P really means Q
+            xx = linspace(Pmin[i], Pmax[i], npts)
+        yy = totcost(polycost[[i] * npts, :], xx)
+        pwlcost[i,      COST:(COST + 2*npts):2] = xx
+        pwlcost[i,  (COST+1):(COST + 2*npts):2] = yy
 
     return pwlcost
-- 
2.43.0


From 70ce5378c87a3d0ac7cfaed212421b2cdd094084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:05 +0000
Subject: [PATCH 12/74] fix: opf, uopf: the caller's case dict was modified

---
 pypower/opf_args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index fa4788a..0b91471 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -334,7 +334,7 @@ def opf_args2(*args):
     baseMVA, bus, gen, branch, gencost, Au, lbu, ubu, \
         ppopt, N, fparm, H, Cw, z0, zl, zu, userfcn, areas = opf_args(*args)
 
-    ppc = args[0] if isinstance(args[0], dict) else {}
+    ppc = args[0].copy() if isinstance(args[0], dict) else {}
 
     ppc['baseMVA'] = baseMVA
     ppc['bus'] = bus
-- 
2.43.0


From 657bb26ca605d0a7b3b846502767fef9ee16f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 13/74] fix: fairmax: always crashed, so uopf could not
 decommit to meet Pmin limits

---
 pypower/fairmax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/fairmax.py b/pypower/fairmax.py
index 3b27c06..7a8ddd8 100644
--- a/pypower/fairmax.py
+++ b/pypower/fairmax.py
@@ -23,8 +23,8 @@ def fairmax(x):
     @author: Ray Zimmerman (PSERC Cornell)
     """
     val = max(x)                      ## find max value
-    i   = nonzero(x == val)           ## find all positions where this occurs
+    i   = nonzero(x == val)[0]        ## find all positions where this occurs
     n   = len(i)                      ## number of occurences
-    idx = i( fix(n * random()) + 1 )  ## select index randomly among occurances
+    idx = i[int(fix(n * random()))]   ## select index randomly among occurances
 
     return val, idx
-- 
2.43.0


From e35090432cbe2e17a5d8d0d596dce3edc30ef190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:31 +0000
Subject: [PATCH 14/74] fix: runuopf: output options were ignored

---
 pypower/runuopf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/runuopf.py b/pypower/runuopf.py
index f840670..b996c1b 100644
--- a/pypower/runuopf.py
+++ b/pypower/runuopf.py
@@ -43,7 +43,7 @@ def runuopf(casedata=None, ppopt=None, fname='', solvedcase=''):
                 fd.close()
 
     else:
-        printpf(r, stdout, ppopt=ppopt)
+        printpf(r, stdout, ppopt)
 
     ## save solved case
     if solvedcase:
-- 
2.43.0


From a375f863df8c145f9b08d7ea00b3eb52c97cdb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:46 +0000
Subject: [PATCH 15/74] fix: printpf: printing a DC solution overwrote the
 results being printed

---
 pypower/printpf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 5464b53..3dbe055 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -136,6 +136,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
 
     ## zero out some data to make printout consistent for DC case
     if isDC:
+        bus, gen, branch = bus.copy(), gen.copy(), branch.copy()
         bus[:, r_[QD, BS]]          = zeros((nb, 2))
         gen[:, r_[QG, QMAX, QMIN]]  = zeros((ng, 3))
         branch[:, r_[BR_R, BR_B]]   = zeros((nl, 2))
-- 
2.43.0


From d17009dff9ff9f3d7c6e7fce8445e09470bcfd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:58 +0000
Subject: [PATCH 16/74] fix: printpf: first area was left out when it has a
 single bus

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 3dbe055..c1a2e2c 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -152,7 +152,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     nzld = find((bus[:, PD] != 0.0) | (bus[:, QD] != 0.0))
     sorted_areas = sort(bus[:, BUS_AREA])
     ## area numbers
-    s_areas = sorted_areas[r_[1, find(diff(sorted_areas)) + 1]]
+    s_areas = sorted_areas[r_[0, find(diff(sorted_areas)) + 1]]
     nzsh = find((bus[:, GS] != 0.0) | (bus[:, BS] != 0.0))
     allg = find( ~isload(gen) )
     ong  = find( (gen[:, GEN_STATUS] > 0) & ~isload(gen) )
-- 
2.43.0


From 3e73e576a0966274edd6055fd645a48b023d2a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:28 +0000
Subject: [PATCH 17/74] fix: printpf: binding voltage limits were never printed

---
 pypower/printpf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index c1a2e2c..4d13533 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -455,7 +455,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     if isOPF:
         ctol = ppopt['OPF_VIOLATION']   ## constraint violation tolerance
         ## voltage constraints
-        if (not isDC) & (OUT_V_LIM == 2 | (OUT_V_LIM == 1 &
+        if (not isDC) & ((OUT_V_LIM == 2) | ((OUT_V_LIM == 1) &
                              (any(bus[:, VM] < bus[:, VMIN] + ctol) |
                               any(bus[:, VM] > bus[:, VMAX] - ctol) |
                               any(bus[:, MU_VMIN] > ptol) |
@@ -466,7 +466,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
             fd.write('\nBus #  Vmin mu    Vmin    |V|   Vmax    Vmax mu')
             fd.write('\n-----  --------   -----  -----  -----   --------')
             for i in range(nb):
-                if (OUT_V_LIM == 2) | (OUT_V_LIM == 1 &
+                if (OUT_V_LIM == 2) | ((OUT_V_LIM == 1) &
                              ((bus[i, VM] < bus[i, VMIN] + ctol) |
                               (bus[i, VM] > bus[i, VMAX] - ctol) |
                               (bus[i, MU_VMIN] > ptol) |
-- 
2.43.0


From f4863f9930ba421ab1c45f15f415c3f22bf8a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 18/74] fix: printpf: crashed printing binding dispatchable
 load limits

---
 pypower/printpf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 4d13533..d4647a4 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -595,9 +595,9 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
                     else:
                         fd.write('     -  ')
                     if gen[i, PG]:
-                        fd.write('%10.2f%10.2f%10.2f' % gen[i, [PMIN, PG, PMAX]])
+                        fd.write('%10.2f%10.2f%10.2f' % tuple(gen[i, [PMIN, PG, PMAX]]))
                     else:
-                        fd.write('%10.2f       -  %10.2f' % gen[i, [PMIN, PMAX]])
+                        fd.write('%10.2f       -  %10.2f' % tuple(gen[i, [PMIN, PMAX]]))
 
                     if (gen[i, PG] > gen[i, PMAX] - ctol) | (gen[i, MU_PMAX] > ptol):
                         fd.write('%9.3f' % gen[i, MU_PMAX])
@@ -621,16 +621,16 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
                              (gen[i, QG] > gen[i, QMAX] - ctol) |
                              (gen[i, MU_QMIN] > ptol) |
                              (gen[i, MU_QMAX] > ptol))):
-                    fd.write('\n%3d%5d' % (i, gen(i, GEN_BUS)))
+                    fd.write('\n%3d%5d' % (i, gen[i, GEN_BUS]))
                     if (gen[i, QG] < gen[i, QMIN] + ctol) | (gen[i, MU_QMIN] > ptol):
                         fd.write('%8.3f' % gen[i, MU_QMIN])
                     else:
                         fd.write('     -  ')
 
                     if gen[i, QG]:
-                        fd.write('%10.2f%10.2f%10.2f' % gen[i, [QMIN, QG, QMAX]])
+                        fd.write('%10.2f%10.2f%10.2f' % tuple(gen[i, [QMIN, QG, QMAX]]))
                     else:
-                        fd.write('%10.2f       -  %10.2f' % gen[i, [QMIN, QMAX]])
+                        fd.write('%10.2f       -  %10.2f' % tuple(gen[i, [QMIN, QMAX]]))
 
                     if (gen[i, QG] > gen[i, QMAX] - ctol) | (gen[i, MU_QMAX] > ptol):
                         fd.write('%9.3f' % gen[i, MU_QMAX])
-- 
2.43.0


From fddb75e64c60479c3c31da4df5d281547d45ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 19/74] fix: printpf: crashed on power flow results with
 userfcn callbacks

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index d4647a4..7f79415 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -686,5 +686,5 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     ## execute userfcn callbacks for 'printpf' stage
     if have_results_struct and 'userfcn' in results:
         if not isOPF:  ## turn off option for all constraints if it isn't an OPF
-            ppopt = ppoption(ppopt, 'OUT_ALL_LIM', 0)
+            ppopt = ppoption(ppopt, OUT_ALL_LIM=0)
         run_userfcn(results["userfcn"], 'printpf', results, fd, ppopt)
-- 
2.43.0


From eb1fc6adb03a76bda6f4c569d18d0c30e511e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 20/74] fix: runpf: enforcing Q limits crashed when no voltage
 controlled bus is left

---
 pypower/runpf.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pypower/runpf.py b/pypower/runpf.py
index 5d923e6..c88966a 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -11,7 +11,7 @@ from os.path import dirname, join
 
 from time import time
 
-from numpy import r_, c_, ix_, zeros, pi, ones, exp, argmax, union1d
+from numpy import r_, c_, ix_, zeros, pi, ones, exp, argmax, union1d, isin
 from numpy import flatnonzero as find
 
 from pypower.bustypes import bustypes
@@ -229,6 +229,14 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                             mx = mx[[k]]
                             mn = mn[:0]
 
+                    ## also INFEASIBLE if no voltage controlled bus would be left
+                    if all(isin(gen[remaining, GEN_BUS], gen[r_[mx, mn].astype(int), GEN_BUS])):
+                        if verbose:
+                            print('No bus left to control the voltage: INFEASIBLE PROBLEM\n')
+
+                        success = 0
+                        break
+
                     if verbose and len(mx) > 0:
                         for i in range(len(mx)):
                             print('Gen ' + str(mx[i] + 1) + ' at upper Q limit, converting to PQ bus\n')
-- 
2.43.0


From b859b8075ccab85d17942e5a5a9dda4e071f5bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 21/74] fix: savecase: the version of the caller's case was
 overwritten

---
 pypower/savecase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index f370557..3f13cd0 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -45,7 +45,7 @@ def savecase(fname, ppc, comment=None, version='2'):
     Autonoma de Manizales)
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    ppc_ver = ppc["version"] = version
+    ppc_ver = version
     baseMVA, bus, gen, branch = \
         ppc["baseMVA"], ppc["bus"], ppc["gen"], ppc["branch"]
     areas = ppc["areas"] if "areas" in ppc else None
-- 
2.43.0


From 6834ca1049b9b15ef00aabd6c846ba507d1a6868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 22/74] fix: loadcase: case files whose name is also a local
 variable, or whose functions use their own imports, could not be loaded

---
 pypower/loadcase.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 84ee92a..2eeefe7 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -107,14 +107,16 @@ def loadcase(casefile,
                     lasterr = str(e)
             elif extension == '.py':      ## from Python file
                 try:
+                    ns = dict(globals())    ## own namespace for the case file
                     if PY2:
-                        execfile(rootname + extension)
+                        execfile(rootname + extension, ns)
                     else:
-                        exec(compile(open(rootname + extension).read(),
-                                     rootname + extension, 'exec'))
+                        with open(rootname + extension) as fd:
+                            exec(compile(fd.read(), rootname + extension,
+                                         'exec'), ns)
 
                     try:                      ## assume it returns an object
-                        s = eval(fname)()
+                        s = ns[fname]()
                     except ValueError as e:
                         info = 4
                         lasterr = str(e)
@@ -125,7 +127,7 @@ def loadcase(casefile,
                         if expect_gencost:
                             try:
                                 s['baseMVA'], s['bus'], s['gen'], s['branch'], \
-                                s['areas'], s['gencost'] = eval(fname)()
+                                s['areas'], s['gencost'] = ns[fname]()
                             except IOError as e:
                                 info = 4
                                 lasterr = str(e)
@@ -134,18 +136,18 @@ def loadcase(casefile,
                                 try:
                                     s['baseMVA'], s['bus'], s['gen'], \
                                         s['branch'], s['areas'], \
-                                        s['gencost'] = eval(fname)()
+                                        s['gencost'] = ns[fname]()
                                 except ValueError as e:
                                     try:
                                         s['baseMVA'], s['bus'], s['gen'], \
-                                            s['branch'] = eval(fname)()
+                                            s['branch'] = ns[fname]()
                                     except ValueError as e:
                                         info = 4
                                         lasterr = str(e)
                             else:
                                 try:
                                     s['baseMVA'], s['bus'], s['gen'], \
-                                        s['branch'] = eval(fname)()
+                                        s['branch'] = ns[fname]()
                                 except ValueError as e:
                                     info = 4
                                     lasterr = str(e)
-- 
2.43.0


From 3793f4b2fa3706d1ea6703364450e7c9fccfe22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 23/74] fix: savecase: cases with user constraints, costs or
 variables, or spare gencost columns, could not be saved and read back

---
 pypower/savecase.py | 61 ++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index 3f13cd0..4762f93 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -11,6 +11,7 @@ from os.path import basename
 
 from numpy import array, c_, r_, any
 from scipy.io import savemat
+from scipy.sparse import coo_matrix
 
 from pypower._compat import PY2
 from pypower.run_userfcn import run_userfcn
@@ -109,16 +110,16 @@ def savecase(fname, ppc, comment=None, version='2'):
             ppc_mat['areas'] = array(ppc['areas'])
         if 'gencost' in ppc:
             ppc_mat['gencost'] = array(ppc['gencost'])
-        if "A" in ppc and len(ppc["A"]) > 0:
-            ppc_mat["A"] = array(ppc["A"])
+        if "A" in ppc and ppc["A"].shape[0] > 0:
+            ppc_mat["A"] = ppc["A"]
             if "l" in ppc and len(ppc["l"]) > 0:
                 ppc_mat["l"] = array(ppc["l"])
             if "u" in ppc and len(ppc["u"]) > 0:
                 ppc_mat["u"] = array(ppc["u"])
-        if "N" in ppc and len(ppc["N"]) > 0:
-            ppc_mat["N"] = array(ppc["N"])
-            if "H" in ppc and len(ppc["H"]) > 0:
-                ppc_mat["H"] = array(ppc["H"])
+        if "N" in ppc and ppc["N"].shape[0] > 0:
+            ppc_mat["N"] = ppc["N"]
+            if "H" in ppc and ppc["H"].shape[0] > 0:
+                ppc_mat["H"] = ppc["H"]
             if "fparm" in ppc and len(ppc["fparm"]) > 0:
                 ppc_mat["fparm"] = array(ppc["fparm"])
             ppc_mat["Cw"] = array(ppc["Cw"])
@@ -157,6 +158,8 @@ def savecase(fname, ppc, comment=None, version='2'):
 #                fd.write('function [baseMVA, bus, gen, branch] = %s\n' % rootname)
 #            prefix = ''
         else:
+            fd.write('from numpy import array, inf, nan\n')
+            fd.write('from scipy.sparse import csr_matrix as sparse\n\n\n')
             fd.write('def %s():\n' % basename(rootname))
             prefix = 'ppc'
         if comment:
@@ -283,15 +286,15 @@ def savecase(fname, ppc, comment=None, version='2'):
                     template = template + ', %.9g'
                 template = template + '],\n'
                 for i in range(gencost.shape[0]):
-                    fd.write(template % ((indent2,) + tuple(gencost[i])))
+                    fd.write(template % ((indent2,) + tuple(gencost[i, :n + 4])))
             fd.write('%s])\n' % indent)
 
         ## generalized OPF user data
-        if ("A" in ppc) and (len(ppc["A"]) > 0) or ("N" in ppc) and (len(ppc["N"]) > 0):
+        if ("A" in ppc) and (ppc["A"].shape[0] > 0) or ("N" in ppc) and (ppc["N"].shape[0] > 0):
             fd.write('\n%s##-----  Generalized OPF User Data  -----##' % indent)
 
         ## user constraints
-        if ("A" in ppc) and (len(ppc["A"]) > 0):
+        if ("A" in ppc) and (ppc["A"].shape[0] > 0):
             ## A
             fd.write('\n%s## user constraints\n' % indent)
             print_sparse(fd, prefix + "['A']", ppc["A"])
@@ -304,32 +307,32 @@ def savecase(fname, ppc, comment=None, version='2'):
                 fd.write("%s%s['u'] = lu[:, 1]\n\n" % (indent, prefix))
             elif ("l" in ppc) and (len(ppc["l"]) > 0):
                 fd.write("%s%s['l'] = array([\n" % (indent, prefix))
-                for i in range(len(l)):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["l"][i]))
+                for i in range(len(ppc["l"])):
+                    fd.write('%s%.9g,\n' % (indent2, ppc["l"][i]))
                 fd.write('%s])\n\n' % indent)
             elif ("u" in ppc) and (len(ppc["u"]) > 0):
                 fd.write("%s%s['u'] = array([\n" % (indent, prefix))
-                for i in range(len(l)):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["u"][i]))
+                for i in range(len(ppc["u"])):
+                    fd.write('%s%.9g,\n' % (indent2, ppc["u"][i]))
                 fd.write('%s])\n\n' % indent)
 
         ## user costs
-        if ("N" in ppc) and (len(ppc["N"]) > 0):
+        if ("N" in ppc) and (ppc["N"].shape[0] > 0):
             fd.write('\n%s## user costs\n' % indent)
             print_sparse(fd, prefix + "['N']", ppc["N"])
-            if ("H" in ppc) and (len(ppc["H"]) > 0):
+            if ("H" in ppc) and (ppc["H"].shape[0] > 0):
                 print_sparse(fd, prefix + "['H']", ppc["H"])
             if ("fparm" in ppc) and (len(ppc["fparm"]) > 0):
                 fd.write("%sCw_fparm = array([\n" % indent)
-                for i in range(ppc["Cw"]):
-                    fd.write('%s[%.9g, %d, %.9g, %.9g, %.9g],\n' % ((indent2,) + tuple(ppc["Cw"][i]) + tuple(ppc["fparm"][i, :])))
+                for i in range(len(ppc["Cw"])):
+                    fd.write('%s[%.9g, %d, %.9g, %.9g, %.9g],\n' % ((indent2, ppc["Cw"][i]) + tuple(ppc["fparm"][i, :])))
                 fd.write('%s])\n' % indent)
                 fd.write('%s%s[\'Cw\']    = Cw_fparm[:, 0]\n' % (indent, prefix))
                 fd.write("%s%s['fparm'] = Cw_fparm[:, 1:5]\n" % (indent, prefix))
             else:
                 fd.write("%s%s['Cw'] = array([\n" % (indent, prefix))
                 for i in range(len(ppc["Cw"])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["Cw"][i]))
+                    fd.write('%s%.9g,\n' % (indent2, ppc["Cw"][i]))
                 fd.write('%s])\n' % indent)
 
         ## user vars
@@ -338,17 +341,17 @@ def savecase(fname, ppc, comment=None, version='2'):
             if ('z0' in ppc) and (len(ppc['z0']) > 0):
                 fd.write('%s%s["z0"] = array([\n' % (indent, prefix))
                 for i in range(len(ppc['z0'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["z0"]))
+                    fd.write('%s%.9g,\n' % (indent2, ppc["z0"][i]))
                 fd.write('%s])\n' % indent)
             if ('zl' in ppc) and (len(ppc['zl']) > 0):
-                fd.write('%s%s["zl"] = array([\n' % (indent2, prefix))
+                fd.write('%s%s["zl"] = array([\n' % (indent, prefix))
                 for i in range(len(ppc['zl'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["zl"]))
+                    fd.write('%s%.9g,\n' % (indent2, ppc["zl"][i]))
                 fd.write('%s])\n' % indent)
             if ('zu' in ppc) and (len(ppc['zu']) > 0):
                 fd.write('%s%s["zu"] = array([\n' % (indent, prefix))
                 for i in range(len(ppc['zu'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["zu"]))
+                    fd.write('%s%.9g,\n' % (indent2, ppc["zu"][i]))
                 fd.write('%s])\n' % indent)
 
         ## execute userfcn callbacks for 'savecase' stage
@@ -364,16 +367,16 @@ def savecase(fname, ppc, comment=None, version='2'):
 
 
 def print_sparse(fd, varname, A):
-    A = A.tocoo()
+    A = coo_matrix(A)
     i, j, s = A.row, A.col, A.data
     m, n = A.shape
 
     if len(s) == 0:
-        fd.write('%s = sparse((%d, %d))\n' % (varname, m, n))
+        fd.write('    %s = sparse((%d, %d))\n' % (varname, m, n))
     else:
-        fd.write('ijs = array([\n')
-    for k in range(len(i)):
-        fd.write('[%d, %d, %.9g],\n' % (i[k], j[k], s[k]))
+        fd.write('    ijs = array([\n')
+        for k in range(len(i)):
+            fd.write('        [%d, %d, %.9g],\n' % (i[k], j[k], s[k]))
 
-    fd.write('])\n')
-    fd.write('%s = sparse(ijs[:, 0], ijs[:, 1], ijs[:, 2], %d, %d)\n' % (varname, m, n))
+        fd.write('    ])\n')
+        fd.write('    %s = sparse((ijs[:, 2], (ijs[:, 0].astype(int), ijs[:, 1].astype(int))), (%d, %d))\n' % (varname, m, n))
-- 
2.43.0


From e9533677e3c78576207e4555316dbf9e08ed25fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 24/74] fix: loadcase: missing or malformed data raised instead
 of returning the documented code

---
 pypower/loadcase.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 2eeefe7..824c5f6 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -58,6 +58,7 @@ def loadcase(casefile,
         expect_areas = False
 
     info = 0
+    lasterr = ''
 
     # read data into case object
     if isinstance(casefile, basestring):
@@ -76,8 +77,6 @@ def loadcase(casefile,
                 info = 2
             fname = basename(rootname)
 
-        lasterr = ''
-
         ## attempt to read file
         if info == 0:
             if extension == '.mat':       ## from MAT file
@@ -155,7 +154,9 @@ def loadcase(casefile,
                 except IOError as e:
                     info = 4
                     lasterr = str(e)
-
+                except (SyntaxError, NameError, KeyError, TypeError) as e:
+                    info = 5
+                    lasterr = str(e)
 
                 if info == 4 and exists(rootname + '.py'):
                     info = 5
@@ -169,10 +170,10 @@ def loadcase(casefile,
     # check contents of dict
     if info == 0:
         # check for required keys
-        if (s['baseMVA'] is None or s['bus'] is None \
-            or s['gen'] is None or s['branch'] is None) or \
-            (expect_gencost and s['gencost'] is None) or \
-            (expect_areas and s['areas'] is None):
+        if (s.get('baseMVA') is None or s.get('bus') is None \
+            or s.get('gen') is None or s.get('branch') is None) or \
+            (expect_gencost and s.get('gencost') is None) or \
+            (expect_areas and s.get('areas') is None):
             info = 5  ## missing some expected fields
             err5 = 'missing data'
         else:
-- 
2.43.0


From e93c07453e0c1dc792fc9f8779c18ee1293ff597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 25/74] fix: loadcase: baseMVA and vectors read from MAT files
 were arrays of the wrong shape

---
 pypower/loadcase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 824c5f6..e1f396e 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -99,7 +99,10 @@ def loadcase(casefile,
                         for k, v in d.items():
                             s[k] = v
 
-                    s['baseMVA'] = s['baseMVA'][0]  # convert array to float
+                    s['baseMVA'] = s['baseMVA'].flat[0]  # convert array to float
+                    for k in ('l', 'u', 'Cw', 'z0', 'zl', 'zu'):
+                        if k in s:    # MAT files hold vectors as matrices
+                            s[k] = s[k].flatten()
 
                 except IOError as e:
                     info = 3
-- 
2.43.0


From 15dd9e70dd62163da5ad110972672f22a9664c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 26/74] fix: loadcase: converting solved version 1 cases lost
 or shifted results columns

---
 pypower/loadcase.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index e1f396e..56f7323 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -243,8 +243,8 @@ def ppc_1to2(gen, branch):
 
     ## add extra columns to gen
     tmp = zeros((gen.shape[0], shift))
-    if gen.shape[1] >= mu_Qmin:
-        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin] ]
+    if gen.shape[1] >= mu_Qmin + 1:
+        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin + 1] ]
     else:
         gen = c_[ gen[:, 0:PMIN + 1], tmp ]
 
@@ -257,10 +257,10 @@ def ppc_1to2(gen, branch):
     ## add extra columns to branch
     tmp = ones((branch.shape[0], 1)) * array([-360, 360])
     tmp2 = zeros((branch.shape[0], 2))
-    if branch.shape[1] >= mu_St - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:MU_ST + 1], tmp2 ]
-    elif branch.shape[1] >= QT - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:QT + 1] ]
+    if branch.shape[1] >= mu_St + 1:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:mu_St + 1], tmp2 ]
+    elif branch.shape[1] >= Qt + 1:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:Qt + 1] ]
     else:
         branch = c_[ branch[:, 0:BR_STATUS + 1], tmp ]
 
-- 
2.43.0


From 2a69e029a4840a130b47cfafad76d9cb25541c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:24 +0000
Subject: [PATCH 27/74] fix: total_load: dispatchable loads crashed

---
 pypower/total_load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/total_load.py b/pypower/total_load.py
index 7eb85a3..b074e75 100644
--- a/pypower/total_load.py
+++ b/pypower/total_load.py
@@ -104,7 +104,7 @@ def total_load(bus, gen=None, load_zone=None, which_type=None):
         e2i[i2e] = arange(nb)
 
         gbus = gen[:, GEN_BUS].astype(int)
-        Cld = sparse((is_ld, (e2i[gbus], arange(ng))), (nb, ng))
+        Cld = sparse((is_ld.astype(float), (e2i[gbus], arange(ng))), (nb, ng))
         Pdd = -Cld * gen[:, PMIN]      ## real power
         if want_Q:
             Q = zeros(ng)
-- 
2.43.0


From 634be4ff533bd47c39a44ef6c540ff52de34f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:36 +0000
Subject: [PATCH 28/74] fix: int2ext1: crashed when given areas

---
 pypower/int2ext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/int2ext.py b/pypower/int2ext.py
index c06dd4d..630bee1 100644
--- a/pypower/int2ext.py
+++ b/pypower/int2ext.py
@@ -125,7 +125,7 @@ def int2ext(ppc, val_or_field=None, oldval=None, ordering=None, dim=0):
     return ppc
 
 
-def int2ext1(i2e, bus, gen, branch, areas):
+def int2ext1(i2e, bus, gen, branch, areas=None):
     """Converts from the consecutive internal bus numbers back to the originals
     using the mapping provided by the I2E vector returned from C{ext2int}.
 
@@ -137,7 +137,7 @@ def int2ext1(i2e, bus, gen, branch, areas):
     branch[:, F_BUS] = i2e[ branch[:, F_BUS].astype(int) ]
     branch[:, T_BUS] = i2e[ branch[:, T_BUS].astype(int) ]
 
-    if areas != None and len(areas) > 0:
+    if areas is not None and len(areas) > 0:
         areas[:, PRICE_REF_BUS] = i2e[ areas[:, PRICE_REF_BUS].astype(int) ]
         return bus, gen, branch, areas
 
-- 
2.43.0


From 8bd69e200eae439564be404286ec322cfc345e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:50 +0000
Subject: [PATCH 29/74] fix: loadcase: solved cases saved as MAT-file could not
 be run again

---
 pypower/loadcase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 56f7323..280bef9 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -100,6 +100,7 @@ def loadcase(casefile,
                             s[k] = v
 
                     s['baseMVA'] = s['baseMVA'].flat[0]  # convert array to float
+                    s.pop('order', None)    # indexing of the saved results
                     for k in ('l', 'u', 'Cw', 'z0', 'zl', 'zu'):
                         if k in s:    # MAT files hold vectors as matrices
                             s[k] = s[k].flatten()
-- 
2.43.0


From 0c52dc1358d920d860e16cfd890520b34eb70934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:20 +0000
Subject: [PATCH 30/74] fix: makeApq: OPF crashed on units with only an upper
 or only a lower sloped capability limit

---
 pypower/makeApq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/makeApq.py b/pypower/makeApq.py
index eb90a78..d91e8ff 100644
--- a/pypower/makeApq.py
+++ b/pypower/makeApq.py
@@ -67,7 +67,7 @@ def makeApq(baseMVA, gen):
                       (npqh, 2*ng))
         ubpqh = ubpqh / baseMVA
     else:
-        data["h"] = array([])
+        data["h"] = zeros((0, 2))
         Apqh  = zeros((0, 2*ng))
         ubpqh = array([])
 
@@ -86,7 +86,7 @@ def makeApq(baseMVA, gen):
                       (npql, 2*ng))
         ubpql = ubpql / baseMVA
     else:
-        data["l"] = array([])
+        data["l"] = zeros((0, 2))
         Apql  = zeros((0, 2*ng))
         ubpql = array([])
 
-- 
2.43.0


From 3fbfb299b6c8acb3112114264ab92f9afeabe9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:49 +0000
Subject: [PATCH 31/74] fix: qps_pypower, qps_pips: bound-only LPs and problem
 dicts crashed, limit 0 meant no iterations, caller's data changed

---
 pypower/qps_pips.py    | 11 +++++++----
 pypower/qps_pypower.py |  4 ++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pypower/qps_pips.py b/pypower/qps_pips.py
index 4c90520..65fe178 100644
--- a/pypower/qps_pips.py
+++ b/pypower/qps_pips.py
@@ -14,7 +14,8 @@ from scipy.sparse import csr_matrix as sparse
 from pypower.pips import pips
 
 
-def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
+def qps_pips(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
+             x0=None, opt=None):
     """Uses the Python Interior Point Solver (PIPS) to solve the following
     QP (quadratic programming) problem::
 
@@ -126,7 +127,9 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
     @author: Ray Zimmerman (PSERC Cornell)
     """
     if isinstance(H, dict):
-        p = H
+        p = dict(H)           ## the caller's problem is not changed
+        for k in ('H', 'c', 'A', 'l', 'u'):
+            p.setdefault(k, None)
     else:
         p = {'H': H, 'c': c, 'A': A, 'l': l, 'u': u}
         if xmin is not None: p['xmin'] = xmin
@@ -134,8 +137,8 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
         if x0 is not None: p['x0'] = x0
         if opt is not None: p['opt'] = opt
 
-    if 'H' not in p or p['H'] == None:#p['H'].nnz == 0:
-        if p['A'] is None or p['A'].nnz == 0 and \
+    if 'H' not in p or p['H'] is None:#p['H'].nnz == 0:
+        if (p['A'] is None or p['A'].nnz == 0) and \
            'xmin' not in p and \
            'xmax' not in p:
 #           'xmin' not in p or len(p['xmin']) == 0 and \
diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index 8ece5e7..d68b792 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -168,11 +168,11 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
     if alg == 200 or alg == 250:    ## use MIPS or sc-MIPS
         ## set up options
         if 'pips_opt' in opt:
-            pips_opt = opt['pips_opt']
+            pips_opt = dict(opt['pips_opt'])
         else:
             pips_opt = {}
 
-        if 'max_it' in opt:
+        if 'max_it' in opt and opt['max_it'] > 0:
             pips_opt['max_it'] = opt['max_it']
 
         if alg == 200:
-- 
2.43.0


From 3fa5c4815c4415a7d8c075b8591c83a6d1dcc897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:40 +0000
Subject: [PATCH 32/74] fix: pips: crashed instead of reporting failure when a
 step could not be factorized

---
 pypower/pips.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pypower/pips.py b/pypower/pips.py
index a94c5c8..623aa60 100644
--- a/pypower/pips.py
+++ b/pypower/pips.py
@@ -4,7 +4,7 @@
 
 """Python Interior Point Solver (PIPS).
 """
-from math import inf
+from math import inf, nan
 from numpy import array, any, isnan, ones, r_, finfo, \
     zeros, dot, absolute, log, flatnonzero as find
 
@@ -387,7 +387,10 @@ def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None,
         ])
         bb = r_[-N, -g]
 
-        dxdlam = pplinsolve(Ab.tocsr(), bb)
+        try:
+            dxdlam = pplinsolve(Ab.tocsr(), bb)
+        except RuntimeError:        ## matrix could not be factorized
+            dxdlam = nan * bb
 
         if any(isnan(dxdlam)):
             if opt["verbose"]:
-- 
2.43.0


From ec955f85ddbaedd3034bec6b20aac5c29aa2ec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:04 +0000
Subject: [PATCH 33/74] fix: dcopf_solver: constant costs were left out of the
 objective, costs above quadratic order silently ignored

---
 pypower/dcopf_solver.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index b3bc303..87d46b4 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -5,8 +5,6 @@
 """Solves a DC optimal power flow.
 """
 
-from sys import stderr
-
 from copy import deepcopy
 
 from math import inf
@@ -133,16 +131,18 @@ def dcopf_solver(om, ppopt, out_opt=None):
 
     ## quadratic costs
     npol = len(ipol)
-    if any(find(gencost[ipol, NCOST] > 3)):
-        stderr.write('DC opf cannot handle polynomial costs with higher '
-                     'than quadratic order.\n')
+    if any(gencost[ipol, NCOST] > 3):
+        raise ValueError('DC opf cannot handle polynomial costs with higher '
+                         'than quadratic order.')
     iqdr = find(gencost[ipol, NCOST] == 3)
     ilin = find(gencost[ipol, NCOST] == 2)
+    icst = find(gencost[ipol, NCOST] == 1)
     polycf = zeros((npol, 3))         ## quadratic coeffs for Pg
     if len(iqdr) > 0:
         polycf[iqdr, :] = gencost[ipol[iqdr], COST:COST + 3]
     if npol:
         polycf[ilin, 1:3] = gencost[ipol[ilin], COST:COST + 2]
+        polycf[icst, 2] = gencost[ipol[icst], COST]
     polycf = dot(polycf, diag([ baseMVA**2, baseMVA, 1]))     ## convert to p.u.
     if npol:
         Npol = sparse((ones(npol), (arange(npol), vv["i1"]["Pg"] + ipol)),
-- 
2.43.0


From 549f13e095124bcdce66f786a181597b053ce01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:01 +0000
Subject: [PATCH 34/74] fix: opf_model.add_costs: dd, rh, kk, mm of a cost set
 were stored under the literal key 'name' and ignored; get_cost_params changed
 the stored parameters

---
 pypower/opf_model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 861c455..cd826df 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -358,16 +358,16 @@ class opf_model(object):
             self.cost["data"]["H"][name]  = cp["H"]
 
         if 'dd' in cp:
-            self.cost["data"]["dd"]["name"] = cp["dd"]
+            self.cost["data"]["dd"][name] = cp["dd"]
 
         if 'rh' in cp:
-            self.cost["data"]["rh"]["name"] = cp["rh"]
+            self.cost["data"]["rh"][name] = cp["rh"]
 
         if 'kk' in cp:
-            self.cost["data"]["kk"]["name"] = cp["kk"]
+            self.cost["data"]["kk"][name] = cp["kk"]
 
         if 'mm' in cp:
-            self.cost["data"]["mm"]["name"] = cp["mm"]
+            self.cost["data"]["mm"][name] = cp["mm"]
 
         ## update number of vars and var sets
         self.cost["N"]  = self.cost["idx"]["iN"][name]
@@ -584,7 +584,7 @@ class opf_model(object):
         if not 'params' in self.cost:
             stderr.write('opf_model.get_cost_params: must call build_cost_params first\n')
 
-        cp = self.cost["params"]
+        cp = self.cost["params"].copy()
 
         if name is not None:
             if self.getN('cost', name):
-- 
2.43.0


From ff23e5f5fd693d5fab76fa9a179451e0362e7d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:12 +0000
Subject: [PATCH 35/74] fix: dcopf_solver: objective value left out Cw*rhat
 term of user costs

---
 pypower/dcopf_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index 87d46b4..aa495b9 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -179,7 +179,7 @@ def dcopf_solver(om, ppopt, out_opt=None):
     MN = M * NN
     HH = MN.T * HHw * MN
     CC = MN.T * (CCw - HMR)
-    C0 = 0.5 * dot(MR, HMR) + sum(polycf[:, 2])  # Constant term of cost.
+    C0 = 0.5 * dot(MR, HMR) - dot(CCw, MR) + sum(polycf[:, 2])  # Constant term of cost.
 
     ## set up input for QP solver
     opt = {'alg': alg, 'verbose': verbose}
-- 
2.43.0


From 70bdbb99e36752418fd42f0f8ed642c425452b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:22 +0000
Subject: [PATCH 36/74] fix: opf_args, opf_setup: user costs without H crashed

---
 pypower/opf_args.py  | 6 +++---
 pypower/opf_setup.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index 0b91471..e9f3427 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -316,7 +316,7 @@ def opf_args(*args):
         if not issparse(N):
             stderr.write('opf_args.m: N must be sparse in generalized cost '
                          'parameters\n')
-        if not issparse(H):
+        if H is not None and not issparse(H):
             stderr.write('opf_args.m: H must be sparse in generalized cost parameters\n')
 
     if Au is not None and not issparse(Au):
@@ -350,8 +350,8 @@ def opf_args2(*args):
         ppc["N"], ppc["Cw"] = N, Cw
         if len(fparm) > 0:
             ppc["fparm"] = fparm
-        #if len(H) > 0:
-        ppc["H"] = H
+        if H is not None:
+            ppc["H"] = H
     if z0 is not None and len(z0) > 0:
         ppc["z0"] = z0
     if zl is not None and len(zl) > 0:
diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index 07e945b..dc0d7ed 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -254,8 +254,8 @@ def opf_setup(ppc, ppopt):
             user_cost['kk'] = fparm[:, 2]
             user_cost['mm'] = fparm[:, 3]
 
-#        if len(H) > 0:
-        user_cost['H'] = H
+        if H is not None:
+            user_cost['H'] = H
 
         om.add_costs('usr', user_cost, user_vars)
 
-- 
2.43.0


From 683472e984819e5d6d102f9113dcfa21d9e659b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:00 +0000
Subject: [PATCH 37/74] fix: opf_costfcn: user costs whose N is all zero (only
 dead equipment) were left out of the objective

---
 pypower/opf_costfcn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index 264ba07..1dc0c5c 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -73,7 +73,7 @@ def opf_costfcn(x, om, return_hessian=False):
         ccost = zeros(nxyz)
 
     ## generalized cost term
-    if issparse(N) and N.nnz > 0:
+    if issparse(N) and N.shape[0] > 0:
         nw = N.shape[0]
         r = N * x - rh                   ## Nx - rhat
         iLT = find(r < -kk)              ## below dead zone
@@ -111,7 +111,7 @@ def opf_costfcn(x, om, return_hessian=False):
     df = df + ccost  # The linear cost row is additive wrt any nonlinear cost.
 
     ## generalized cost term
-    if issparse(N) and N.nnz > 0:
+    if issparse(N) and N.shape[0] > 0:
         HwC = H * w + Cw
         AA = N.T * M * (LL + 2 * QQ * diagrr)
         df = df + AA * HwC
@@ -160,7 +160,7 @@ def opf_costfcn(x, om, return_hessian=False):
     d2f = sparse((r_[d2f_dPg2, d2f_dQg2], (i, i)), (nxyz, nxyz))
 
     ## generalized cost
-    if issparse(N) and N.nnz > 0:
+    if issparse(N) and N.shape[0] > 0:
         d2f = d2f + AA * H * AA.T + 2 * N.T * M * QQ * \
                 sparse((HwC, (range(nw), range(nw))), (nw, nw)) * N
 
-- 
2.43.0


From 5429f19db68b91e75c99f246f8ecd834f82909bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 38/74] fix: toggle_iflims: OPF with interface limits crashed;
 branch 0 was dropped, outages changed the map, limits not in ascending
 interface order were mixed up

---
 pypower/toggle_iflims.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 5328f28..58064e3 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -9,7 +9,8 @@ from sys import stderr
 
 from pprint import pprint
 
-from numpy import zeros, arange, unique, sign, delete, flatnonzero as find
+from numpy import \
+    zeros, ones, arange, c_, unique, delete, signbit, where, flatnonzero as find
 
 from scipy.sparse import lil_matrix, csr_matrix as sparse
 
@@ -93,14 +94,16 @@ def userfcn_iflims_ext2int(ppc, *args):
     ppc['order']['ext']['ifmap'] = ifmap
 
     ##-----  convert stuff to internal indexing  -----
-    e2i = zeros(nl0)
+    e2i = -ones(nl0, int)                ## -1 for branches that are out
     e2i[o['branch']['status']['on']] = arange(nl)  ## ext->int branch index mapping
-    d = sign(ifmap[:, 1])
+    d = where(signbit(ifmap[:, 1]), -1, 1)
     br = abs(ifmap[:, 1]).astype(int)
-    ifmap[:, 1] = d * e2i[br]
 
-    ifmap = delete(ifmap, find(ifmap[:, 1] == 0), 0)  ## delete branches that are out
+    ## internal version of map: interface, branch, direction
+    ifmap = c_[ifmap[:, 0], e2i[br], d]
+    ifmap = delete(ifmap, find(ifmap[:, 1] < 0), 0)  ## delete branches that are out
 
+    ppc['if'] = ppc['if'].copy()
     ppc['if']['map'] = ifmap
 
     return ppc
@@ -123,19 +126,19 @@ def userfcn_iflims_formulation(om, *args):
     n = Bf.shape[1]                    ## dim of theta
 
     ## form constraints
-    ifidx = unique(iflims[:, 0])   ## interface number list
+    ifidx = iflims[:, 0]           ## interface number list
     nifs = len(ifidx)              ## number of interfaces
     Aif = lil_matrix((nifs, n))
     lif = zeros(nifs)
     uif = zeros(nifs)
     for k in range(nifs):
         ## extract branch indices
-        br = ifmap[ifmap[:, 0] == ifidx[k], 1]
+        kk = find(ifmap[:, 0] == ifidx[k])
+        br = ifmap[kk, 1].astype(int)
+        d = ifmap[kk, 2]
         if len(br) == 0:
             stderr.write('userfcn_iflims_formulation: interface %d has no in-service branches\n' % k)
 
-        d = sign(br)
-        br = abs(br)
         Ak = sparse((1, n))              ## Ak = sum( d(i) * Bf(i, :) )
         bk = 0                           ## bk = sum( d(i) * Pfinj(i) )
         for i in range(len(br)):
@@ -147,7 +150,7 @@ def userfcn_iflims_formulation(om, *args):
         uif[k] = iflims[k, 2] / baseMVA - bk
 
     ## add interface constraint
-    om.add_constraints('iflims',  Aif, lif, uif, ['Va'])      ## nifs
+    om.add_constraints('iflims',  Aif.tocsr(), lif, uif, ['Va'])      ## nifs
 
     return om
 
@@ -168,14 +171,14 @@ def userfcn_iflims_int2ext(results, *args):
     results['if']['map'] = results['order']['ext']['ifmap']
 
     ##-----  results post-processing  -----
-    ifidx = unique(iflims[:, 0])   ## interface number list
+    ifidx = iflims[:, 0]        ## interface number list
     nifs = len(ifidx)           ## number of interfaces
     results['if']['P'] = zeros(nifs)
     for k in range(nifs):
         ## extract branch indices
-        br = ifmap[ifmap[:, 0] == ifidx[k], 1]
-        d = sign(br)
-        br = abs(br)
+        kk = find(ifmap[:, 0] == ifidx[k])
+        br = ifmap[kk, 1].astype(int)
+        d = ifmap[kk, 2]
         results['if']['P'][k] = sum( d * results['branch'][br, PF] )
 
     if 'mu' not in results['if']:
-- 
2.43.0


From b82cad9be8fc90635b8ade0d434058080766d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:53 +0000
Subject: [PATCH 39/74] fix: toggle_iflims: printing interface limits crashed

---
 pypower/toggle_iflims.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 58064e3..9294813 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -10,7 +10,7 @@ from sys import stderr
 from pprint import pprint
 
 from numpy import \
-    zeros, ones, arange, c_, unique, delete, signbit, where, flatnonzero as find
+    zeros, ones, arange, c_, delete, signbit, where, flatnonzero as find
 
 from scipy.sparse import lil_matrix, csr_matrix as sparse
 
@@ -207,10 +207,10 @@ def userfcn_iflims_printpf(results, fd, ppopt, *args):
         fd.write('\n Interface  Shadow Prc  Lower Lim      Flow      Upper Lim   Shadow Prc')
         fd.write('\n     #        ($/MW)       (MW)        (MW)        (MW)       ($/MW)   ')
         fd.write('\n----------  ----------  ----------  ----------  ----------  -----------')
-        ifidx = unique(iflims[:, 0])   ## interface number list
+        ifidx = iflims[:, 0]        ## interface number list
         nifs = len(ifidx)           ## number of interfaces
         for k in range(nifs):
-            fd.write('\n%6d ', iflims(k, 1))
+            fd.write('\n%6d ' % ifidx[k])
             if results['if']['mu']['l'][k] > ptol:
                 fd.write('%14.3f' % results['if']['mu']['l'][k])
             else:
-- 
2.43.0


From 0d53fd38b2987fcd653e274d9f162e4f4acdde0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 40/74] fix: savecase of cases with reserves or interface
 limits switched on crashed (wrote MATLAB code)

---
 pypower/toggle_iflims.py   | 33 ++++++++++------------
 pypower/toggle_reserves.py | 58 +++++++++++++-------------------------
 2 files changed, 35 insertions(+), 56 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 9294813..1daccdd 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -7,8 +7,6 @@
 
 from sys import stderr
 
-from pprint import pprint
-
 from numpy import \
     zeros, ones, arange, c_, delete, signbit, where, flatnonzero as find
 
@@ -236,25 +234,24 @@ def userfcn_iflims_savecase(ppc, fd, prefix, *args):
     ifmap = ppc['if']['map']
     iflims = ppc['if']['lims']
 
-    fd.write('\n####-----  Interface Flow Limit Data  -----####\n')
-    fd.write('#### interface<->branch map data\n')
-    fd.write('##\tifnum\tbranchidx (negative defines opposite direction)\n')
-    fd.write('%sif.map = [\n' % prefix)
-    fd.write('\t%d\t%d;\n' % ifmap.T)
-    fd.write('];\n')
+    indent = '    '
+    fd.write('\n%s##-----  Interface Flow Limit Data  -----##\n' % indent)
+    fd.write("%s%s['if'] = {}\n" % (indent, prefix))
+    fd.write('%s## interface<->branch map data\n' % indent)
+    fd.write('%s## ifnum, branchidx (negative defines opposite direction)\n' % indent)
+    fd.write("%s%s['if']['map'] = array(%s)\n" % (indent, prefix, ifmap.tolist()))
 
-    fd.write('\n#### interface flow limit data (based on DC model)\n')
-    fd.write('#### (lower limit should be negative for opposite direction)\n')
-    fd.write('##\tifnum\tlower\tupper\n')
-    fd.write('%sif.lims = [\n' % prefix)
-    fd.write('\t%d\t%g\t%g;\n' % iflims.T)
-    fd.write('];\n')
+    fd.write('\n%s## interface flow limit data (based on DC model)\n' % indent)
+    fd.write('%s## (lower limit should be negative for opposite direction)\n' % indent)
+    fd.write('%s## ifnum, lower, upper\n' % indent)
+    fd.write("%s%s['if']['lims'] = array(%s)\n" % (indent, prefix, iflims.tolist()))
 
     ## save output fields for solved case
     if ('P' in ppc['if']):
-        fd.write('\n#### solved values\n')
-        fd.write('%sif.P = %s\n' % (prefix, pprint(ppc['if']['P'])))
-        fd.write('%sif.mu.l = %s\n' % (prefix, pprint(ppc['if']['mu']['l'])))
-        fd.write('%sif.mu.u = %s\n' % (prefix, pprint(ppc['if']['mu']['u'])))
+        fd.write('\n%s## solved values\n' % indent)
+        fd.write("%s%s['if']['P'] = array(%s)\n" % (indent, prefix, ppc['if']['P'].tolist()))
+        fd.write("%s%s['if']['mu'] = {}\n" % (indent, prefix))
+        fd.write("%s%s['if']['mu']['l'] = array(%s)\n" % (indent, prefix, ppc['if']['mu']['l'].tolist()))
+        fd.write("%s%s['if']['mu']['u'] = array(%s)\n" % (indent, prefix, ppc['if']['mu']['u'].tolist()))
 
     return ppc
diff --git a/pypower/toggle_reserves.py b/pypower/toggle_reserves.py
index 0269cab..a74609a 100644
--- a/pypower/toggle_reserves.py
+++ b/pypower/toggle_reserves.py
@@ -10,8 +10,6 @@ from pypower.i2e_data import i2e_data
 
 from sys import stderr
 
-from pprint import pprint
-
 from numpy import zeros, ones, arange, inf, any, flatnonzero as find
 
 from scipy.sparse import eye as speye
@@ -365,46 +363,30 @@ def userfcn_reserves_savecase(ppc, fd, prefix, *args):
     """
     r = ppc['reserves']
 
-    fd.write('\n####-----  Reserve Data  -----####\n')
-    fd.write('#### reserve zones, element i, j is 1 if gen j is in zone i, 0 otherwise\n')
-    fd.write('%sreserves.zones = [\n' % prefix)
-    template = ''
-    for _ in range(r['zones'].shape[1]):
-        template = template + '\t%d'
-    template = template + ';\n'
-    fd.write(template, r.zones.T)
-    fd.write('];\n')
-
-    fd.write('\n#### reserve requirements for each zone in MW\n')
-    fd.write('%sreserves.req = [\t%g' % (prefix, r['req'][0]))
-    if len(r['req']) > 1:
-        fd.write(';\t%g' % r['req'][1:])
-    fd.write('\t];\n')
-
-    fd.write('\n#### reserve costs in $/MW for each gen that belongs to at least 1 zone\n')
-    fd.write('#### (same order as gens, but skipping any gen that does not belong to any zone)\n')
-    fd.write('%sreserves.cost = [\t%g' % (prefix, r['cost'][0]))
-    if len(r['cost']) > 1:
-        fd.write(';\t%g' % r['cost'][1:])
-    fd.write('\t];\n')
+    indent = '    '
+    fd.write('\n%s##-----  Reserve Data  -----##\n' % indent)
+    fd.write("%s%s['reserves'] = {}\n" % (indent, prefix))
+    fd.write('%s## reserve zones, element i, j is 1 if gen j is in zone i, 0 otherwise\n' % indent)
+    fd.write("%s%s['reserves']['zones'] = array(%s)\n" % (indent, prefix, r['zones'].tolist()))
+
+    fd.write('\n%s## reserve requirements for each zone in MW\n' % indent)
+    fd.write("%s%s['reserves']['req'] = array(%s)\n" % (indent, prefix, r['req'].tolist()))
+
+    fd.write('\n%s## reserve costs in $/MW for each gen (or each gen in at least 1 zone)\n' % indent)
+    fd.write("%s%s['reserves']['cost'] = array(%s)\n" % (indent, prefix, r['cost'].tolist()))
 
     if 'qty' in r:
-        fd.write('\n#### OPTIONAL max reserve quantities for each gen that belongs to at least 1 zone\n')
-        fd.write('#### (same order as gens, but skipping any gen that does not belong to any zone)\n')
-        fd.write('%sreserves.qty = [\t%g' % (prefix, r['qty'][0]))
-        if len(r['qty']) > 1:
-            fd.write(';\t%g' % r['qty'][1:])
-        fd.write('\t];\n')
+        fd.write('\n%s## OPTIONAL max reserve quantities for each gen (or each gen in at least 1 zone)\n' % indent)
+        fd.write("%s%s['reserves']['qty'] = array(%s)\n" % (indent, prefix, r['qty'].tolist()))
 
     ## save output fields for solved case
     if 'R' in r:
-        fd.write('\n#### solved values\n')
-        fd.write('%sreserves.R = %s\n' % (prefix, pprint(r['R'])))
-        fd.write('%sreserves.Rmin = %s\n' % (prefix, pprint(r['Rmin'])))
-        fd.write('%sreserves.Rmax = %s\n' % (prefix, pprint(r['Rmax'])))
-        fd.write('%sreserves.mu.l = %s\n' % (prefix, pprint(r['mu']['l'])))
-        fd.write('%sreserves.mu.u = %s\n' % (prefix, pprint(r['mu']['u'])))
-        fd.write('%sreserves.prc = %s\n' % (prefix, pprint(r['prc'])))
-        fd.write('%sreserves.totalcost = %s\n' % (prefix, pprint(r['totalcost'])))
+        fd.write('\n%s## solved values\n' % indent)
+        for fld in ['R', 'Rmin', 'Rmax', 'prc']:
+            fd.write("%s%s['reserves']['%s'] = array(%s)\n" % (indent, prefix, fld, r[fld].tolist()))
+        fd.write("%s%s['reserves']['mu'] = {}\n" % (indent, prefix))
+        for fld in ['l', 'u', 'Pmax']:
+            fd.write("%s%s['reserves']['mu']['%s'] = array(%s)\n" % (indent, prefix, fld, r['mu'][fld].tolist()))
+        fd.write("%s%s['reserves']['totalcost'] = %r\n" % (indent, prefix, float(r['totalcost'])))
 
     return ppc
-- 
2.43.0


From dd1d11bd363161ec4b8e3d3e20545620eea0460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:17 +0000
Subject: [PATCH 41/74] fix: loadcase: tables of whole numbers (such as gen of
 case9) truncated every fractional result

---
 pypower/loadcase.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 280bef9..2c16541 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -187,6 +187,12 @@ def loadcase(casefile,
 
             ## all fields present, copy to ppc
             ppc = deepcopy(s)
+
+            ## tables of whole numbers must hold fractional results as well
+            for k in ('bus', 'gen', 'branch', 'areas', 'gencost'):
+                if ppc.get(k) is not None:
+                    ppc[k] = array(ppc[k], float)
+
             if not hasattr(ppc, 'version'):  ## hmm, struct with no 'version' field
                 if ppc['gen'].shape[1] < 21:    ## version 2 has 21 or 25 cols
                     ppc['version'] = '1'
-- 
2.43.0


From 01afca07caca11e826ba6c1fb4d568c9141d557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:27 +0000
Subject: [PATCH 42/74] fix: toggle_dcline: any study with DC lines crashed
 (float indices, DC line costs, model returned as None)

---
 pypower/toggle_dcline.py | 46 +++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index a75dbcc..6c31dd5 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -20,7 +20,7 @@ from pypower.idx_gen import MBASE, GEN_STATUS, PMIN, PMAX, GEN_BUS, PG, QG, \
     VG, QMIN, QMAX, MU_QMIN, MU_PMAX, MU_PMIN, MU_QMAX
 
 from pypower.idx_bus import BUS_TYPE, REF, PV
-from pypower.idx_cost import MODEL, POLYNOMIAL, NCOST
+from pypower.idx_cost import MODEL, POLYNOMIAL, NCOST, COST
 
 
 def toggle_dcline(ppc, on_off):
@@ -58,7 +58,7 @@ def toggle_dcline(ppc, on_off):
 
         if 'dcline' not in ppc or ppc['dcline'].shape[1] < c["LOSS1"] + 1:
             raise ValueError('toggle_dcline: case must contain a '
-                    '\'dcline\' field, an ndc x %d matrix.', c["LOSS1"])
+                    '\'dcline\' field, an ndc x %d matrix.' % (c["LOSS1"] + 1))
 
         if 'dclinecost' in ppc and ppc['dcline'].shape[0] != ppc['dclinecost'].shape[0]:
             raise ValueError('toggle_dcline: number of rows in \'dcline\''
@@ -66,10 +66,10 @@ def toggle_dcline(ppc, on_off):
                 (ppc['dcline'].shape[0], ppc['dclinecost'].shape[0]))
 
         k = find(ppc['dcline'][:, c["LOSS1"]] < 0)
-        if len(k) > 0:
+        for i in k:
             warn('toggle_dcline: linear loss term is negative for DC line '
                    'from bus %d to %d\n' %
-                  ppc['dcline'][k, c['F_BUS']:c['T_BUS'] + 1].T)
+                  tuple(ppc['dcline'][i, c['F_BUS']:c['T_BUS'] + 1]))
 
         ## add callback functions
         ## note: assumes all necessary data included in 1st arg (ppc, om, results)
@@ -129,8 +129,8 @@ def userfcn_dcline_ext2int(ppc, args):
     o = ppc['order']
 
     ##-----  convert stuff to internal indexing  -----
-    dc[:, c['F_BUS']] = o['bus']['e2i'][dc[:, c['F_BUS']]]
-    dc[:, c['T_BUS']] = o['bus']['e2i'][dc[:, c['T_BUS']]]
+    dc[:, c['F_BUS']] = o['bus']['e2i'][dc[:, c['F_BUS']].astype(int)]
+    dc[:, c['T_BUS']] = o['bus']['e2i'][dc[:, c['T_BUS']].astype(int)]
     ppc['dcline'] = dc
 
     ##-----  create gens to represent DC line terminals  -----
@@ -181,8 +181,8 @@ def userfcn_dcline_ext2int(ppc, args):
 
     ## set all terminal buses to PV (except ref bus)
     refbus = find(ppc['bus'][:, BUS_TYPE] == REF)
-    ppc['bus'][dc[:, c['F_BUS']], BUS_TYPE] = PV
-    ppc['bus'][dc[:, c['T_BUS']], BUS_TYPE] = PV
+    ppc['bus'][dc[:, c['F_BUS']].astype(int), BUS_TYPE] = PV
+    ppc['bus'][dc[:, c['T_BUS']].astype(int), BUS_TYPE] = PV
     ppc['bus'][refbus, BUS_TYPE] = REF
 
     ## append dummy gens
@@ -195,37 +195,35 @@ def userfcn_dcline_ext2int(ppc, args):
             ndccc = dcc.shape[1]           ## number of dclinecost columns
             ccc = max(r_[ngcc, ndccc])     ## number of columns in new gencost
             if ccc > ngcc:                 ## right zero-pad gencost
-                ppc.gencost = c_[ppc['gencost'], zeros(ngcr, ccc-ngcc)]
+                ppc['gencost'] = c_[ppc['gencost'], zeros((ngcr, ccc - ngcc))]
 
             ## flip function across vertical axis and append to gencost
             ## (PF for DC line = -PG for dummy gen at "from" bus)
             for k in range(ndc):
+                nc = int(dcc[k, NCOST])
                 if dcc[k, MODEL] == POLYNOMIAL:
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(nc + 1)]
+                    temp = dcc[k, COST:COST + nc].copy()
                     ## flip sign on coefficients of odd terms
                     ## (every other starting with linear term,
                     ##  that is, the next to last one)
-#                    temp((nc-1):-2:1) = -temp((nc-1):-2:1)
-                    temp[range(nc, 0, -2)] = -temp[range(nc, 0, -2)]
+                    temp[-2::-2] = -temp[-2::-2]
                 else:  ## dcc(k, MODEL) == PW_LINEAR
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(2*nc + 1)]
+                    temp = dcc[k, COST:COST + 2 * nc].copy()
                     ## switch sign on horizontal coordinate
-                    xx = -temp[range(0, 2 * nc + 1, 2)]
-                    yy =  temp[range(1, 2 * nc + 1, 2)]
-                    temp[range(0, 2*nc + 1, 2)] = xx[-1::-1]
-                    temp[range(1, 2*nc + 1, 2)] = yy[-1::-1]
+                    xx = -temp[0::2]
+                    yy =  temp[1::2]
+                    temp[0::2] = xx[::-1]
+                    temp[1::2] = yy[::-1]
 
-                padding = zeros(ccc - NCOST - len(temp))
-                gck = c_[dcc[k, :NCOST + 1], temp, padding]
+                padding = zeros(ccc - COST - len(temp))
+                gck = r_[dcc[k, :COST], temp, padding].reshape(1, -1)
 
                 ## append to gencost
                 ppc['gencost'] = r_[ppc['gencost'], gck]
 
             ## use zero cost on "to" end gen
-            tgc = ones((ndc, 1)) * [2, 0, 0, 2, zeros(ccc-4)]
-            ppc['gencost'] = c_[ppc['gencost'], tgc]
+            tgc = ones((ndc, 1)) * r_[[2, 0, 0, 2], zeros(ccc-4)]
+            ppc['gencost'] = r_[ppc['gencost'], tgc]
         else:
             ## use zero cost as default
             dcgc = ones((2 * ndc, 1)) * concatenate([array([2, 0, 0, 2]), zeros(ngcc-4)])
@@ -272,7 +270,7 @@ def userfcn_dcline_formulation(om, args):
     Adc = hstack([sparse((ndc, ng)), spdiags(1-L1, 0, ndc, ndc), speye(ndc, ndc)], format="csr")
 
     ## add them to the model
-    om = om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
+    om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
 
     return om
 
-- 
2.43.0


From 5350e95c2d9cc4a45564e73bf2216f49551aae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:22 +0000
Subject: [PATCH 43/74] fix: toggle_dcline: lines out of service crashed OPF
 runs, solved cases could not be solved again, dclinecost came back without
 their rows

---
 pypower/toggle_dcline.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 6c31dd5..e1cf8fb 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -291,7 +291,7 @@ def userfcn_dcline_int2ext(results, args):
 
     ## initialize some things
     o = results['order']
-    k = find(o['ext']['dcline'][:, c['BR_STATUS']])
+    k = o['ext']['status']['on']
     ndc = len(k)                    ## number of in-service DC lines
     ng  = results['gen'].shape[0] - 2*ndc; ## number of original gens/disp loads
 
@@ -312,8 +312,9 @@ def userfcn_dcline_int2ext(results, args):
     results['dcline'][:, c['QT']] =  tg[:, QG]
     results['dcline'][:, c['VF']] =  fg[:, VG]
     results['dcline'][:, c['VT']] =  tg[:, VG]
-    if fg.shape[1] >= MU_QMIN:
-        results['dcline'] = c_[results['dcline'], zeros((ndc, 6))]
+    if fg.shape[1] >= MU_QMIN + 1:
+        nc = results['dcline'].shape[1]
+        results['dcline'] = c_[results['dcline'], zeros((ndc, max(0, c['MU_QMAXT'] + 1 - nc)))]
         results['dcline'][:, c['MU_PMIN'] ] = fg[:, MU_PMAX] + tg[:, MU_PMIN]
         results['dcline'][:, c['MU_PMAX'] ] = fg[:, MU_PMIN] + tg[:, MU_PMAX]
         results['dcline'][:, c['MU_QMINF']] = fg[:, MU_QMIN]
@@ -327,11 +328,14 @@ def userfcn_dcline_int2ext(results, args):
     ## copy results to external version
     o['ext']['dcline'][k, c['PF']:c['VT'] + 1] = results['dcline'][:, c['PF']:c['VT'] + 1]
     if results['dcline'].shape[1] == c['MU_QMAXT'] + 1:
-        o['ext']['dcline'] = c_[o['ext']['dcline'], zeros((ndc, 6))]
+        ndc0, nc = o['ext']['dcline'].shape
+        o['ext']['dcline'] = c_[o['ext']['dcline'], zeros((ndc0, max(0, c['MU_QMAXT'] + 1 - nc)))]
         o['ext']['dcline'][k, c['MU_PMIN']:c['MU_QMAXT'] + 1] = \
                 results['dcline'][:, c['MU_PMIN']:c['MU_QMAXT'] + 1]
 
     results['dcline'] = o['ext']['dcline']            ## use external version
+    if 'dclinecost' in o['ext']:
+        results['dclinecost'] = o['ext']['dclinecost']
 
     return results
 
-- 
2.43.0


From fc2714eb11c9814027c0fb33269f53727a6da900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:04 +0000
Subject: [PATCH 44/74] fix: toggle_dcline: cases with reactive costs got the
 costs of DC lines in the wrong rows

---
 pypower/toggle_dcline.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index e1cf8fb..f2fb13b 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -15,6 +15,7 @@ from pypower import idx_dcline
 from pypower.add_userfcn import add_userfcn
 from pypower.remove_userfcn import remove_userfcn
 from pypower.isload import isload
+from pypower.pqcost import pqcost
 
 from pypower.idx_gen import MBASE, GEN_STATUS, PMIN, PMAX, GEN_BUS, PG, QG, \
     VG, QMIN, QMAX, MU_QMIN, MU_PMAX, MU_PMIN, MU_QMAX
@@ -185,11 +186,14 @@ def userfcn_dcline_ext2int(ppc, args):
     ppc['bus'][dc[:, c['T_BUS']].astype(int), BUS_TYPE] = PV
     ppc['bus'][refbus, BUS_TYPE] = REF
 
+    ng = ppc['gen'].shape[0]
     ## append dummy gens
     ppc['gen'] = r_[ppc['gen'], fg, tg]
 
     ## gencost
     if 'gencost' in ppc and len(ppc['gencost']) > 0:
+        ## set reactive costs, if any, aside (dummy gens follow the real ones)
+        ppc['gencost'], qcost = pqcost(ppc['gencost'], ng)
         ngcr, ngcc = ppc['gencost'].shape   ## dimensions of gencost
         if havecost:         ## user has provided costs
             ndccc = dcc.shape[1]           ## number of dclinecost columns
@@ -229,6 +233,12 @@ def userfcn_dcline_ext2int(ppc, args):
             dcgc = ones((2 * ndc, 1)) * concatenate([array([2, 0, 0, 2]), zeros(ngcc-4)])
             ppc['gencost'] = r_[ppc['gencost'], dcgc]
 
+        if len(qcost) > 0:      ## zero reactive cost for dummy gens
+            ngcc = ppc['gencost'].shape[1]
+            dcqc = ones((2 * ndc, 1)) * concatenate([array([2, 0, 0, 2]), zeros(ngcc-4)])
+            qcost = c_[qcost, zeros((ng, ngcc - qcost.shape[1]))]
+            ppc['gencost'] = r_[ppc['gencost'], qcost, dcqc]
+
     return ppc
 
 
@@ -303,7 +313,11 @@ def userfcn_dcline_int2ext(results, args):
     #results['gen']     = results['gen'][:ng + 1, :]
     #results['gencost'] = results['gencost'][:ng + 1, :]
     results['gen']     = results['gen'][:ng, :]
-    results['gencost'] = results['gencost'][:ng, :]
+    if 'gencost' in results and len(results['gencost']) > 0:
+        pcost, qcost = pqcost(results['gencost'], ng + 2 * ndc)
+        results['gencost'] = pcost[:ng, :]
+        if len(qcost) > 0:
+            results['gencost'] = r_[pcost[:ng, :], qcost[:ng, :]]
 
     ## get the solved flows
     results['dcline'][:, c['PF']] = -fg[:, PG]
-- 
2.43.0


From 1fae1c4bab6ef8c4063707d2d0fdb291e8c23907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 45/74] fix: toggle_dcline: printing lines out of service or
 power flow results and saving cases with DC lines crashed

---
 pypower/toggle_dcline.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index f2fb13b..4ab58e0 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -383,7 +383,9 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
 
     ##-----  print results  -----
     dc = results['dcline']
-    ndc = dc.shape[0]
+    ndc, nc = dc.shape
+    if nc < c['MU_QMAXT'] + 1:      ## no shadow prices (simple power flow)
+        dc = c_[dc, zeros((ndc, c['MU_QMAXT'] + 1 - nc))]
     kk = find(dc[:, c['BR_STATUS']] != 0)
     if OUT_BRANCH:
         fd.write('\n================================================================================')
@@ -400,7 +402,7 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
                 loss = loss + dc[k, c['PF']] - dc[k, c['PT']]
             else:
                 fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                            (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                            (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n                                              ---------')
         fd.write('\n                                     Total:{0:11.2f}\n'.format(loss))
@@ -437,7 +439,7 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
 
                 else:
                     fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                                (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                                (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n')
 
@@ -455,20 +457,16 @@ def userfcn_dcline_savecase(ppc, fd, prefix, args):
     c = idx_dcline.c
 
     ## save it
+    indent = '    '
     ncols = ppc['dcline'].shape[1]
-    fd.write('\n####-----  DC Line Data  -----####\n')
-    if ncols < c['MU_QMAXT']:
-        fd.write('##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\n')
+    fd.write('\n%s##-----  DC Line Data  -----##\n' % indent)
+    if ncols < c['MU_QMAXT'] + 1:
+        fd.write(indent + '##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\n')
     else:
-        fd.write('##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\tmuPmin\tmuPmax\tmuQminF\tmuQmaxF\tmuQminT\tmuQmaxT\n')
+        fd.write(indent + '##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\tmuPmin\tmuPmax\tmuQminF\tmuQmaxF\tmuQminT\tmuQmaxT\n')
 
-    template = '\t%d\t%d\t%d\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g'
-    if ncols == c['MU_QMAXT'] + 1:
-        template = [template, '\t%.4f\t%.4f\t%.4f\t%.4f\t%.4f\t%.4f']
-
-    template = template + ';\n'
-    fd.write('%sdcline = [\n' % prefix)
-    fd.write(template, ppc['dcline'].T)
-    fd.write('];\n')
+    fd.write("%s%s['dcline'] = array(%s)\n" % (indent, prefix, ppc['dcline'].tolist()))
+    if 'dclinecost' in ppc:
+        fd.write("%s%s['dclinecost'] = array(%s)\n" % (indent, prefix, ppc['dclinecost'].tolist()))
 
     return ppc
-- 
2.43.0


From 86c982203ed6262ec1adc697495142d6f26ba0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:44 +0000
Subject: [PATCH 46/74] fix: loadcase: DC line tables of whole numbers
 truncated every fractional result

---
 pypower/loadcase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 2c16541..e621fed 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -189,7 +189,8 @@ def loadcase(casefile,
             ppc = deepcopy(s)
 
             ## tables of whole numbers must hold fractional results as well
-            for k in ('bus', 'gen', 'branch', 'areas', 'gencost'):
+            for k in ('bus', 'gen', 'branch', 'areas', 'gencost',
+                      'dcline', 'dclinecost'):
                 if ppc.get(k) is not None:
                     ppc[k] = array(ppc[k], float)
 
-- 
2.43.0


From 6f0e29a363ff2f86d1537a7714ba92f6fd5719c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:55 +0000
Subject: [PATCH 47/74] fix: power flow: networks without load buses (or with
 only a reference bus) crashed

---
 pypower/fdpf.py     | 20 ++++++++++----------
 pypower/gausspf.py  |  2 +-
 pypower/newtonpf.py |  2 +-
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pypower/fdpf.py b/pypower/fdpf.py
index 64c1252..5bde804 100644
--- a/pypower/fdpf.py
+++ b/pypower/fdpf.py
@@ -7,7 +7,7 @@
 
 import sys
 from math import inf
-from numpy import array, angle, exp, linalg, conj, r_
+from numpy import array, angle, exp, linalg, conj, r_, zeros
 from scipy.sparse.linalg import splu
 
 from pypower.ppoption import ppoption
@@ -60,8 +60,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
     Q = mis[pq].imag
 
     ## check tolerance
-    normP = linalg.norm(P, inf)
-    normQ = linalg.norm(Q, inf)
+    normP = linalg.norm(P, inf) if len(P) else 0.0
+    normQ = linalg.norm(Q, inf) if len(Q) else 0.0
     if verbose > 1:
         sys.stdout.write('\niteration     max mismatch (p.u.)  ')
         sys.stdout.write('\ntype   #        P            Q     ')
@@ -77,8 +77,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
     Bpp = Bpp[array([pq]).T, pq].tocsc()
 
     ## factor B matrices
-    Bp_solver = splu(Bp)
-    Bpp_solver = splu(Bpp)
+    Bp_solver = splu(Bp) if len(pvpq) else None
+    Bpp_solver = splu(Bpp) if len(pq) else None
 
     ## do P and Q iterations
     while (not converged and i < max_it):
@@ -98,8 +98,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
         Q = mis[pq].imag
 
         ## check tolerance
-        normP = linalg.norm(P, inf)
-        normQ = linalg.norm(Q, inf)
+        normP = linalg.norm(P, inf) if len(P) else 0.0
+        normQ = linalg.norm(Q, inf) if len(Q) else 0.0
         if verbose > 1:
             sys.stdout.write("\n  %s  %3d   %10.3e   %10.3e" %
                              (type,i, normP, normQ))
@@ -111,7 +111,7 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
             break
 
         ##-----  do Q iteration, update Vm  -----
-        dVm = -Bpp_solver.solve(Q)
+        dVm = -Bpp_solver.solve(Q) if len(pq) else zeros(0)
 
         ## update voltage
         Vm[pq] = Vm[pq] + dVm
@@ -123,8 +123,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
         Q = mis[pq].imag
 
         ## check tolerance
-        normP = linalg.norm(P, inf)
-        normQ = linalg.norm(Q, inf)
+        normP = linalg.norm(P, inf) if len(P) else 0.0
+        normQ = linalg.norm(Q, inf) if len(Q) else 0.0
         if verbose > 1:
             sys.stdout.write('\n  Q  %3d   %10.3e   %10.3e' % (i, normP, normQ))
         if normP < tol and normQ < tol:
diff --git a/pypower/gausspf.py b/pypower/gausspf.py
index 2ca8b2b..4e449e4 100644
--- a/pypower/gausspf.py
+++ b/pypower/gausspf.py
@@ -61,7 +61,7 @@ def gausspf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
              mis[pq].imag   ]
 
     ## check tolerance
-    normF = linalg.norm(F, inf)
+    normF = linalg.norm(F, inf) if len(F) else 0.0
     if verbose > 1:
         sys.stdout.write('\n it    max P & Q mismatch (p.u.)')
         sys.stdout.write('\n----  ---------------------------')
diff --git a/pypower/newtonpf.py b/pypower/newtonpf.py
index 79ed7ce..5b78080 100644
--- a/pypower/newtonpf.py
+++ b/pypower/newtonpf.py
@@ -69,7 +69,7 @@ def newtonpf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
              mis[pq].imag  ]
 
     ## check tolerance
-    normF = linalg.norm(F, inf)
+    normF = linalg.norm(F, inf) if len(F) else 0.0
     if verbose > 1:
         sys.stdout.write('\n it    max P & Q mismatch (p.u.)')
         sys.stdout.write('\n----  ---------------------------')
-- 
2.43.0


From 6cab682f43962e7c2fe296814333f9901bd658c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:21 +0000
Subject: [PATCH 48/74] fix: runcpf: targets nearer than one step were missed,
 identical cases crashed

---
 pypower/cpf_callbacks.py |  8 ++++----
 pypower/runcpf.py        | 24 +++++++++++++++---------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/pypower/cpf_callbacks.py b/pypower/cpf_callbacks.py
index d657669..7c48d82 100644
--- a/pypower/cpf_callbacks.py
+++ b/pypower/cpf_callbacks.py
@@ -62,10 +62,10 @@ def cpf_default_callback(k, V_c, lam_c, V_p, lam_p, cb_data, cb_state, cb_args,
     elif k == 0:
         # initialize state
         cb_state = {
-            "V_p": V_p,
-            "lam_p": lam_p,
-            "V_c": V_c,
-            "lam_c": lam_c,
+            "V_p": V_p.reshape(-1, 1),
+            "lam_p": r_[lam_p],
+            "V_c": V_c.reshape(-1, 1),
+            "lam_c": r_[lam_c],
             "iterations": 0
         }
 
diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 1e40a94..62e76ce 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -179,6 +179,21 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     z = zeros(2*len(V)+1)
     z[-1] = 1.0
     while continuation:
+        # limit the step to the end of the curve
+        if isinstance(ppopt["CPF_STOP_AT"], str):
+            # next step will overshoot
+            overshoot = ppopt["CPF_STOP_AT"].upper() == "FULL" and \
+                lam < lamprv and lam - step < 0
+            end_step = lam
+        else:
+            # will reach desired lambda in next step
+            overshoot = lam + step > ppopt["CPF_STOP_AT"]
+            end_step = ppopt["CPF_STOP_AT"] - lam
+        if overshoot:
+            step = end_step         # modify step-size
+            parameterization = 1    # change to natural parameterization
+            adapt_step = False      # disable step-adaptivity
+
         cont_steps = cont_steps + 1
         # prediction for next step
         V0, lam0, z = cpf_predictor(V, lam, Ybus, Sxfr, pv, pq, step, z,
@@ -217,10 +232,6 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
                         print(
                             '\nTraced full continuation curve in %d continuation steps\n' % cont_steps)
                     continuation = 0
-                elif lam < lamprv and lam - step < 0:    # next step will overshoot
-                    step = lam      # modify step-size
-                    parameterization = 1    # change to natural parameterization
-                    adapt_step = False      # disable step-adaptivity
 
             else:   # == 'NOSE'
                 if lam < lamprv:    # reached the nose point
@@ -240,11 +251,6 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
                     print('\nReached desired lambda %3.2f in %d continuation steps\n' % (
                         ppopt["CPF_STOP_AT"], cont_steps))
                 continuation = 0
-            # will reach desired lambda in next step
-            elif lam + step > ppopt["CPF_STOP_AT"]:
-                step = ppopt["CPF_STOP_AT"] - lam   # modify step-size
-                parameterization = 1    # change to natural parameterization
-                adapt_step = False      # disable step-adaptivity
 
         if adapt_step and continuation:
             pvpq = r_[pv, pq]
-- 
2.43.0


From 08a7b6c8108880b28e1dd5b81ac3d735e014b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:16 +0000
Subject: [PATCH 49/74] fix: scale_load: whole-number load tables truncated the
 scaled loads

---
 pypower/scale_load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index a43cbff..567bb54 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -71,11 +71,11 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
 
     ##-----  process inputs  -----
     load = array(load, float).flatten()     ## scalar or vector
-    bus = bus.copy()
+    bus = array(bus, float)    ## copy, loads need not stay whole numbers
     if gen is None:
         gen = array([])
     else:
-        gen = gen.copy()
+        gen = array(gen, float)
     if load_zone is None:
         load_zone = array([], int)
     opt = {} if opt is None else opt.copy()
-- 
2.43.0


From dc6133d311f2d57ef8f5f8cc4ce6c75ca2765ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:32 +0000
Subject: [PATCH 50/74] fix: total_load: zones given as floats crashed

---
 pypower/total_load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/total_load.py b/pypower/total_load.py
index b074e75..f84e296 100644
--- a/pypower/total_load.py
+++ b/pypower/total_load.py
@@ -80,7 +80,7 @@ def total_load(bus, gen=None, load_zone=None, which_type=None):
     elif len(load_zone) == 0:
         load_zone = bus[:, BUS_AREA].astype(int)   ## use areas defined in bus data as zones
 
-    nz = max(load_zone)    ## number of load zones
+    nz = int(max(load_zone))    ## number of load zones
 
     ## fixed load at each bus, & initialize dispatchable
     if want_fixed:
-- 
2.43.0


From b8ba812d52f509fd090cb6238cb94f530f223242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:46 +0000
Subject: [PATCH 51/74] fix: command line: options with string values crashed

---
 pypower/main.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/pypower/main.py b/pypower/main.py
index b4c5252..44f1101 100644
--- a/pypower/main.py
+++ b/pypower/main.py
@@ -8,7 +8,7 @@
 import sys
 from sys import stderr
 
-from optparse import OptionParser, OptionGroup, OptionValueError
+from optparse import OptionParser, OptionGroup
 
 from pypower.api import \
     ppver, ppoption, runpf, runopf, runuopf, runopf_w_res
@@ -36,16 +36,8 @@ CASES = {'case4gs': case4gs, 'case6ww': case6ww, 'case9': case9,
 
 
 def option_callback(option, opt, value, parser, *args, **kw_args):
-    if isinstance(value, str):
-        if value in AFFIRMATIVE:
-            value = True
-        elif value in NEGATIVE:
-            value = False
-        else:
-            choices = ", ".join(map(repr, option.choices))
-            raise OptionValueError(
-                _("option %s: invalid choice: %r (choose from %s)")
-                % (opt, value, choices))
+    if option.type == 'choice':     ## checked by the parser
+        value = value in AFFIRMATIVE
 
     opt_name = opt[2:].upper()
 
-- 
2.43.0


From f1161798db559f6253bb85b559b707f286c59fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:02 +0000
Subject: [PATCH 52/74] fix: uopf: caller's tables changed, no unit left in
 service or zero minimum outputs crashed

---
 pypower/uopf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pypower/uopf.py b/pypower/uopf.py
index 7284644..ad00ca7 100644
--- a/pypower/uopf.py
+++ b/pypower/uopf.py
@@ -45,6 +45,7 @@ def uopf(*args):
 
     ## process input arguments
     ppc, ppopt = opf_args2(*args)
+    ppc["gen"] = ppc["gen"].copy()      ## status changes below
 
     ## options
     verbose = ppopt["VERBOSE"]
@@ -58,8 +59,10 @@ def uopf(*args):
     onld = find( (ppc["gen"][:, GEN_STATUS] > 0) &  isload(ppc["gen"]) )   ## disp loads in serv
     load_capacity = sum(ppc["bus"][:, PD]) - sum(ppc["gen"][onld, PMIN])   ## total load capacity
     Pmin = ppc["gen"][on, PMIN]
-    while sum(Pmin) > load_capacity:
-        ## shut down most expensive unit
+    while len(on) > 1 and any(Pmin > 0) and sum(Pmin) > load_capacity:
+        ## shut down most expensive unit (of those with a Pmin limit)
+        on = on[Pmin > 0]
+        Pmin = Pmin[Pmin > 0]
         avgPmincost = totcost(ppc["gencost"][on, :], Pmin) / Pmin
         _, i = fairmax(avgPmincost)   ## pick one with max avg cost at Pmin
         i = on[i]                     ## convert to generator index
@@ -87,7 +90,7 @@ def uopf(*args):
     while True:
         ## get candidates for shutdown
         candidates = find((results0["gen"][:, MU_PMIN] > 0) & (results0["gen"][:, PMIN] > 0))
-        if len(candidates) == 0:
+        if len(candidates) == 0 or len(results0["order"]["gen"]["status"]["on"]) == 1:
             break
 
         ## do not check for further decommitment unless we
-- 
2.43.0


From 71e03bc80d414fe49b793357c2644254fea80f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:36 +0000
Subject: [PATCH 53/74] fix: opf_model: blocks added for all variables broke
 when variables were added later, empty cost sets

---
 pypower/opf_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index cd826df..8bccdf7 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -225,7 +225,7 @@ class opf_model(object):
                 u = inf * ones(N)
 
             if len(varsets) == 0:
-                varsets = self.var["order"]
+                varsets = self.var["order"][:]  ## those added so far
 
             ## check sizes
             if (l.shape[0] != N) or (u.shape[0] != N):
@@ -309,7 +309,7 @@ class opf_model(object):
             varsets = []
 
         if len(varsets) == 0:
-            varsets = self.var["order"]
+            varsets = self.var["order"][:]      ## those added so far
 
         nw, nx = cp["N"].shape
 
@@ -320,7 +320,7 @@ class opf_model(object):
 
         if nx != nv:
             if nw == 0:
-                cp["N"] = sparse(nw, nx)
+                cp["N"] = sparse((nw, nv))
             else:
                 stderr.write('opf_model.add_costs: number of columns in N (%d x %d) does not match\nnumber of variables (%d)\n' % (nw, nx, nv))
 
@@ -540,6 +540,8 @@ class opf_model(object):
         N, Cw, H, dd, rh, kk, mm = \
             cp["N"], cp["Cw"], cp["H"], cp["dd"], cp["rh"], cp["kk"], cp["mm"]
         nw = N.shape[0]
+        if nw == 0:                    ## no costs
+            return 0.0
         r = N * x - rh                 ## Nx - rhat
         iLT = find(r < -kk)            ## below dead zone
         iEQ = find((r == 0) & (kk == 0))   ## dead zone doesn't exist
@@ -587,7 +589,7 @@ class opf_model(object):
         cp = self.cost["params"].copy()
 
         if name is not None:
-            if self.getN('cost', name):
+            if name in self.cost["idx"]["N"]:
                 idx = arange(self.cost["idx"]["i1"][name], self.cost["idx"]["iN"][name])
                 nwa = self.cost["idx"]["i1"][name]
                 nwb = self.cost["idx"]["iN"][name]
-- 
2.43.0


From bbfb84cdac2003392fbbc66332dd344e59a45c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:51 +0000
Subject: [PATCH 54/74] fix: add_userfcn: functions were added twice, arguments
 without length crashed

---
 pypower/add_userfcn.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pypower/add_userfcn.py b/pypower/add_userfcn.py
index 0c6ad70..a4da659 100644
--- a/pypower/add_userfcn.py
+++ b/pypower/add_userfcn.py
@@ -87,9 +87,6 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    if args is None:
-        args = []
-
     if stage not in ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']:
         stderr.write('add_userfcn : \'%s\' is not the name of a valid callback stage\n' % stage)
 
@@ -101,13 +98,14 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
                 for k in range(n):
                     if ppc['userfcn'][stage][k]['fcn'] == fcn:
                         stderr.write('add_userfcn: the function \'%s\' has already been added\n' % fcn.__name__)
+                        return ppc
         else:
             ppc['userfcn'][stage] = []
     else:
         ppc['userfcn'] = {stage: []}
 
     ppc['userfcn'][stage].append({'fcn': fcn})
-    if len(args) > 0:
+    if args is not None:
         ppc['userfcn'][stage][n]['args'] = args
 
     return ppc
-- 
2.43.0


From 38a3c1d61df16b42a9451dcc7cc82d53c57c4b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:07 +0000
Subject: [PATCH 55/74] fix: opf_execute: the options of the caller were
 changed

---
 pypower/opf_execute.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index 8196512..fa1ccae 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -10,6 +10,7 @@ from sys import stdout, stderr
 from numpy import array, arange, pi, zeros, r_
 
 from pypower.ppver import ppver
+from pypower.ppoption import ppoption
 from pypower.dcopf_solver import dcopf_solver
 from pypower.pipsopf_solver import pipsopf_solver
 from pypower.ipoptopf_solver import ipoptopf_solver
@@ -74,7 +75,7 @@ def opf_execute(om, ppopt):
         elif alg == 160 | alg == 260:      ## sparse (full) LP
             alg = 360
 
-        ppopt['OPF_ALG_POLY'] = alg
+        ppopt = ppoption(ppopt, OPF_ALG_POLY=alg)
 
         ## run specific AC OPF solver
         if alg == 560 or alg == 565:                   ## PIPS
-- 
2.43.0


From 07c08aaf1fc0607869ed9ccc440cf504db9438ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 56/74] fix: opf_execute: RETURN_RAW_DER returned no Jacobian

---
 pypower/opf_execute.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index fa1ccae..ae380ec 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -9,6 +9,8 @@ from sys import stdout, stderr
 
 from numpy import array, arange, pi, zeros, r_
 
+from scipy.sparse import vstack
+
 from pypower.ppver import ppver
 from pypower.ppoption import ppoption
 from pypower.dcopf_solver import dcopf_solver
@@ -120,7 +122,8 @@ def opf_execute(om, ppopt):
                     Ybus, Yf, Yt = makeYbus(ppc['baseMVA'], ppc['bus'], ppc['branch'])
                     g, geq, dg, dgeq = opf_consfcn(results['x'], om, Ybus, Yf, Yt, ppopt)
                     raw['g'] = r_[geq, g]
-                    raw['dg'] = r_[dgeq.T, dg.T]   ## true Jacobian organization
+                    ## true Jacobian organization
+                    raw['dg'] = vstack([dgeq.T, dg.T], 'csr') if dg is not None else dgeq.T
 
                 ## compute df, d2f
                 _, df, d2f = opf_costfcn(results['x'], om, True)
-- 
2.43.0


From 75939f3dd90c044d2f82f804139ad46f7671750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:39 +0000
Subject: [PATCH 57/74] fix: ppoption: documented OPF_ALG codes that are not
 valid

---
 pypower/ppoption.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pypower/ppoption.py b/pypower/ppoption.py
index cb9ff87..960a291 100644
--- a/pypower/ppoption.py
+++ b/pypower/ppoption.py
@@ -71,16 +71,12 @@ with names of user callback functions see 'help cpf_default_callback'"""),
 
 OPF_OPTIONS = [
     ('opf_alg', 0, '''algorithm to use for OPF:
-0 - choose best default solver available in the
-following order, 500, 540, 520 then 100/200
-Otherwise the first digit specifies the problem
-formulation and the second specifies the solver,
-as follows, (see the User's Manual for more details)
-500 - generalized formulation, MINOS,
-540 - generalized formulation, MIPS
+0 - choose best default solver available (560)
+560 - PIPS, Python Interior Point Solver
 primal/dual interior point method,
-545 - generalized formulation (except CCV), SC-MIPS
-step-controlled primal/dual interior point method'''),
+565 - PIPS-sc, step-controlled variant of PIPS
+580 - IPOPT, requires pyipopt interface to IPOPT solver
+available from: https://projects.coin-or.org/Ipopt/'''),
 
 #    ('opf_poly2pwl_pts', 10, 'number of evaluation points to use when '
 #     'converting from polynomial to piece-wise linear costs)'),
-- 
2.43.0


From faf864ca263a80bd8432f37dadb266c477601a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:53 +0000
Subject: [PATCH 58/74] fix: command line: fractional pdipm_feastol was refused

---
 pypower/ppoption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/ppoption.py b/pypower/ppoption.py
index 960a291..b1f2d71 100644
--- a/pypower/ppoption.py
+++ b/pypower/ppoption.py
@@ -156,7 +156,7 @@ in results['raw'] (in keys g, dg, df, d2f))''')
 ]
 
 PDIPM_OPTIONS = [
-    ('pdipm_feastol', 0, '''feasibility (equality) tolerance
+    ('pdipm_feastol', 0.0, '''feasibility (equality) tolerance
 for Primal-Dual Interior Points Methods, set
 to value of OPF_VIOLATION by default'''),
     ('pdipm_gradtol', 1e-6, '''gradient tolerance for
-- 
2.43.0


From ffc154cfef561d740f5c76856bfdb9b8f4b24a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:57 +0000
Subject: [PATCH 59/74] fix: opf: DC line tables of whole numbers truncated
 every fractional result

---
 pypower/toggle_dcline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 4ab58e0..ff417a2 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -111,6 +111,7 @@ def userfcn_dcline_ext2int(ppc, args):
         havecost = False
 
     ## save version with external indexing
+    ppc['dcline'] = ppc['dcline'].astype(float)            ## must hold fractional results
     ppc['order']['ext']['dcline'] = ppc['dcline']              ## external indexing
     if havecost:
         ppc['order']['ext']['dclinecost'] = ppc['dclinecost']  ## external indexing
-- 
2.43.0


From d181e9bd5b564f11185cd3c6e41b3e6d0a92af44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:01 +0000
Subject: [PATCH 60/74] fix: i2e_data: whole numbers put into fractional data
 truncated the rest

---
 pypower/set_reorder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/set_reorder.py b/pypower/set_reorder.py
index fb76e43..5942435 100644
--- a/pypower/set_reorder.py
+++ b/pypower/set_reorder.py
@@ -5,7 +5,7 @@
 """Assigns B to A with one of the dimensions of A indexed.
 """
 
-from numpy import ndim
+from numpy import ndim, result_type
 
 
 def set_reorder(A, B, idx, dim=0):
@@ -20,7 +20,7 @@ def set_reorder(A, B, idx, dim=0):
     """
     A = A.copy()
     ndims = ndim(A)
-    A = A.astype(B.dtype)
+    A = A.astype(result_type(A.dtype, B.dtype))
     if ndims ==  1:
         A[idx] = B
     elif ndims == 2:
-- 
2.43.0


From 05bc1f81c39b1757a5a2c8a13de2c823fb554dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 61/74] fix: opf_args2: cases given by name lost all fields but
 the standard ones, version 1 data kept its old version

---
 pypower/opf_args.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index e9f3427..9c808b8 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -334,7 +334,8 @@ def opf_args2(*args):
     baseMVA, bus, gen, branch, gencost, Au, lbu, ubu, \
         ppopt, N, fparm, H, Cw, z0, zl, zu, userfcn, areas = opf_args(*args)
 
-    ppc = args[0].copy() if isinstance(args[0], dict) else {}
+    ## keep the other fields of a case, whether given as data or by name
+    ppc = loadcase(args[0]) if isinstance(args[0], (basestring, dict)) else {}
 
     ppc['baseMVA'] = baseMVA
     ppc['bus'] = bus
-- 
2.43.0


From 3f3c9372c91296375d985422fe638254401911cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:21 +0000
Subject: [PATCH 62/74] fix: gausspf: the caller's Sbus vector was overwritten
 with computed reactive power

---
 pypower/gausspf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/gausspf.py b/pypower/gausspf.py
index 4e449e4..6527386 100644
--- a/pypower/gausspf.py
+++ b/pypower/gausspf.py
@@ -47,6 +47,7 @@ def gausspf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
     converged = 0
     i = 0
     V = V0.copy()
+    Sbus = Sbus.copy()          ## updated below, the caller's is not
     #Va = angle(V)
     Vm = abs(V)
 
-- 
2.43.0


From 5bfd63833d29ef7c5087d4a842953ee563f224db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:33 +0000
Subject: [PATCH 63/74] fix: pips: default settings were written into the
 caller's options dict

---
 pypower/pips.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/pips.py b/pypower/pips.py
index 623aa60..31ec781 100644
--- a/pypower/pips.py
+++ b/pypower/pips.py
@@ -197,7 +197,7 @@ def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None,
     else:
         nonlinear = True
 
-    if opt is None: opt = {}
+    opt = {} if opt is None else dict(opt)  # the caller's is not changed
     # options
     if "feastol" not in opt:
         opt["feastol"] = 1e-06
-- 
2.43.0


From 39998eab4a6a87b7ca000ee50a43f48bd9590b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:16 +0000
Subject: [PATCH 64/74] fix: qps_pypower: a problem dict without H still gets
 the solver options

---
 pypower/qps_pypower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index d68b792..b04d004 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -127,7 +127,7 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
         if 'l' in p: l = p['l']
         if 'A' in p: A = p['A']
         if 'c' in p: c = p['c']
-        if 'H' in p: H = p['H']
+        H = p['H'] if 'H' in p else None
     else:                         ## individual args
 #        assert H is not None  zero dimensional sparse matrices not supported
         assert c is not None
-- 
2.43.0


From 6a503836ed22c3223cb5829748cda0022776ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:17 +0000
Subject: [PATCH 65/74] fix: pfsoln: units without reactive limits get finite
 reactive outputs

---
 pypower/pfsoln.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pypower/pfsoln.py b/pypower/pfsoln.py
index 5ffd047..93221f4 100644
--- a/pypower/pfsoln.py
+++ b/pypower/pfsoln.py
@@ -5,7 +5,8 @@
 """Updates bus, gen, branch data structures to match power flow soln.
 """
 
-from numpy import asarray, angle, pi, conj, zeros, ones, finfo, c_, ix_
+from numpy import asarray, angle, pi, conj, zeros, ones, finfo, c_, ix_, \
+    where, isinf, copysign
 from numpy import flatnonzero as find
 
 from scipy.sparse import csr_matrix
@@ -58,9 +59,17 @@ def pfsoln(baseMVA, bus0, gen0, branch0, Ybus, Yf, Yt, V, ref, pv, pq):
         ngg = asarray(ngg).flatten()  # 1D array
         gen[on, QG] = gen[on, QG] / ngg
 
+        ## replace infinite limits by proxies large enough for the whole bus
+        Qmin, Qmax = gen[on, QMIN], gen[on, QMAX]
+        M = abs(gen[on, QG])
+        M = M + where(isinf(Qmin), 0, abs(Qmin)) + where(isinf(Qmax), 0, abs(Qmax))
+        M = asarray(Cg * (Cg.T * M)).flatten()
+        Qmin = where(isinf(Qmin), copysign(M, Qmin), Qmin)
+        Qmax = where(isinf(Qmax), copysign(M, Qmax), Qmax)
+
         ## divide proportionally
-        Cmin = csr_matrix((gen[on, QMIN], (range(ngon), gbus)), (ngon, nb))
-        Cmax = csr_matrix((gen[on, QMAX], (range(ngon), gbus)), (ngon, nb))
+        Cmin = csr_matrix((Qmin, (range(ngon), gbus)), (ngon, nb))
+        Cmax = csr_matrix((Qmax, (range(ngon), gbus)), (ngon, nb))
         Qg_tot = Cg.T * gen[on, QG]## nb x 1 vector of total Qg at each bus
         Qg_min = Cmin.sum(0).T       ## nb x 1 vector of min total Qg at each bus
         Qg_max = Cmax.sum(0).T       ## nb x 1 vector of max total Qg at each bus
@@ -69,9 +78,9 @@ def pfsoln(baseMVA, bus0, gen0, branch0, Ybus, Yf, Yt, V, ref, pv, pq):
         ## gens at buses with Qg range = 0
         ig = find(Cg * Qg_min == Cg * Qg_max)
         Qg_save = gen[on[ig], QG]
-        gen[on, QG] = gen[on, QMIN] + \
+        gen[on, QG] = Qmin + \
             (Cg * ((Qg_tot - Qg_min) / (Qg_max - Qg_min + EPS))) * \
-                (gen[on, QMAX] - gen[on, QMIN])    ##    ^ avoid div by 0
+                (Qmax - Qmin)                      ##    ^ avoid div by 0
         gen[on[ig], QG] = Qg_save  ## (terms are mult by 0 anyway)
 
     ## update Pg for slack bus(es)
-- 
2.43.0


From 936e0a426988f1a6c25058e12f8df711ff7707c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:35 +0000
Subject: [PATCH 66/74] fix: toggle_dcline: DC lines at isolated buses are out
 of service

---
 pypower/toggle_dcline.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index ff417a2..7de06d2 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -4,7 +4,7 @@
 
 from math import inf
 
-from numpy import array, ones, zeros, r_, c_, concatenate, shape
+from numpy import array, ones, zeros, r_, c_, concatenate, shape, isin
 from numpy import flatnonzero as find
 
 from scipy.sparse import spdiags, hstack, vstack, csr_matrix as sparse
@@ -20,7 +20,7 @@ from pypower.pqcost import pqcost
 from pypower.idx_gen import MBASE, GEN_STATUS, PMIN, PMAX, GEN_BUS, PG, QG, \
     VG, QMIN, QMAX, MU_QMIN, MU_PMAX, MU_PMIN, MU_QMAX
 
-from pypower.idx_bus import BUS_TYPE, REF, PV
+from pypower.idx_bus import BUS_I, BUS_TYPE, REF, PV
 from pypower.idx_cost import MODEL, POLYNOMIAL, NCOST, COST
 
 
@@ -118,8 +118,13 @@ def userfcn_dcline_ext2int(ppc, args):
 
     ppc['order']['ext']['status']  = {}
     ## work with only in-service DC lines
-    ppc['order']['ext']['status']['on']  = find(ppc['dcline'][:, c['BR_STATUS']] >  0)
-    ppc['order']['ext']['status']['off'] = find(ppc['dcline'][:, c['BR_STATUS']] <= 0)
+    ## (those at isolated buses are out of service too, like gens and branches)
+    live = ppc['order']['ext']['bus'][ppc['order']['bus']['status']['on'], BUS_I]
+    dcs = (ppc['dcline'][:, c['BR_STATUS']] > 0) & \
+        isin(ppc['dcline'][:, c['F_BUS']], live) & \
+        isin(ppc['dcline'][:, c['T_BUS']], live)
+    ppc['order']['ext']['status']['on']  = find( dcs)
+    ppc['order']['ext']['status']['off'] = find(~dcs)
 
     ## remove out-of-service DC lines
     dc = ppc['dcline'][ppc['order']['ext']['status']['on'], :] ## only in-service DC lines
-- 
2.43.0


From 9d0aa67bff7df5c8bde880910b365f53c10b75b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:26 +0000
Subject: [PATCH 67/74] fix: opf_setup: DC OPF with user cost rows on voltages
 or reactive outputs crashed

---
 pypower/opf_setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index dc0d7ed..fa3b28d 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -82,8 +82,8 @@ def opf_setup(ppc, ppopt):
                 if ppc['N'][:, acc].nnz > 0:
                     ii, _ = nonzero(ppc['N'][:, acc])
                     _, ii = unique(ii, return_index=True)    ## indices of w with potential non-zero cost terms from Vm or Qg
-                    if any(ppc['Cw'][ii]) | ( ('H' in ppc) & (len(ppc['H']) > 0) &
-                            any(any(ppc['H'][:, ii])) ):
+                    if any(ppc['Cw'][ii]) or (ppc.get('H') is not None and
+                            ppc['H'][:, ii].nnz > 0):
                         stderr.write('opf_setup: attempting to solve DC OPF with user costs on Vm or Qg\n')
 
                 # FIXME: delete sparse matrix columns
-- 
2.43.0


From 6b73d7705ca7cc1a15b39c3318d3f6d654eb73bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:41 +0000
Subject: [PATCH 68/74] fix: opf_args: mismatches between N and H went
 unnoticed

---
 pypower/opf_args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index 9c808b8..dc521ae 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -305,7 +305,7 @@ def opf_args(*args):
         if len(fparm) > 0 and fparm.shape[0] != nw:
             stderr.write('opf_args.m: dimension mismatch between N and fparm '
                          'in generalized cost parameters\n')
-        if (H is not None) and (H.shape[0] != nw | H.shape[0] != nw):
+        if (H is not None) and (H.shape[0] != nw or H.shape[1] != nw):
             stderr.write('opf_args.m: dimension mismatch between N and H in '
                          'generalized cost parameters\n')
         if Au is not None:
-- 
2.43.0


From 8b8bf2cfb9108e7daa3c708156a6924f142de1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:10 +0000
Subject: [PATCH 69/74] fix: opf_setup: wrong user cost rows looked up for the
 warning about voltages in a DC OPF

---
 pypower/opf_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index fa3b28d..5edb9b7 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -81,7 +81,7 @@ def opf_setup(ppc, ppopt):
                 ## make sure there aren't any costs on Vm or Qg
                 if ppc['N'][:, acc].nnz > 0:
                     ii, _ = nonzero(ppc['N'][:, acc])
-                    _, ii = unique(ii, return_index=True)    ## indices of w with potential non-zero cost terms from Vm or Qg
+                    ii = unique(ii)    ## indices of w with potential non-zero cost terms from Vm or Qg
                     if any(ppc['Cw'][ii]) or (ppc.get('H') is not None and
                             ppc['H'][:, ii].nnz > 0):
                         stderr.write('opf_setup: attempting to solve DC OPF with user costs on Vm or Qg\n')
-- 
2.43.0


From 6fe7260470320e50afa5fbc7f8021e36346f4e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:54 +0000
Subject: [PATCH 70/74] fix: modcost: costs given as whole numbers were
 truncated

---
 pypower/modcost.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/modcost.py b/pypower/modcost.py
index e9aabbc..9779d9b 100644
--- a/pypower/modcost.py
+++ b/pypower/modcost.py
@@ -7,7 +7,7 @@
 
 import sys
 
-from numpy import zeros, ones, arange, dot, cumsum, flatnonzero as find
+from numpy import array, zeros, ones, arange, dot, cumsum, flatnonzero as find
 
 from pypower.idx_cost import MODEL, NCOST, PW_LINEAR, POLYNOMIAL, COST
 
@@ -30,7 +30,7 @@ def modcost(gencost, alpha, modtype='SCALE_F'):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    gencost = gencost.copy()
+    gencost = array(gencost, float)    ## copy, costs need not stay whole numbers
 
     ng, m = gencost.shape
     if ng != 0:
-- 
2.43.0


From c1247cc0567e0feeaef0b8e1e97a886a49014242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:09 +0000
Subject: [PATCH 71/74] fix: makeApq: capability curves given as whole numbers
 were truncated

---
 pypower/makeApq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/makeApq.py b/pypower/makeApq.py
index d91e8ff..c28b8c7 100644
--- a/pypower/makeApq.py
+++ b/pypower/makeApq.py
@@ -39,6 +39,7 @@ def makeApq(baseMVA, gen):
     Autonoma de Manizales)
     """
     data = {}
+    gen = array(gen, float)    ## coefficients need not be whole numbers
     ## data dimensions
     ng = gen.shape[0]      ## number of dispatchable injections
 
-- 
2.43.0


From 8c717604baa00b5ed272e2d9dc5f788246f2dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:36 +0000
Subject: [PATCH 72/74] fix: makeAy: the first reactive cost row was put on the
 real power variables' place

---
 pypower/makeAy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/makeAy.py b/pypower/makeAy.py
index cf71717..19ffa13 100644
--- a/pypower/makeAy.py
+++ b/pypower/makeAy.py
@@ -73,7 +73,7 @@ def makeAy(baseMVA, ng, gencost, pgbas, qgbas, ybas):
             print(f'makeAy: bad x axis data in row {i} of gencost matrix')
         b = m * p[:ns - 1] - c[:ns - 1]        ## and rhs
         by = r_[by,  b]
-        if i > ng:
+        if i >= ng:
             sidx = qgbas + (i - ng) - 1        ## this was for a q cost
         else:
             sidx = pgbas + i - 1               ## this was for a p cost
-- 
2.43.0


From 5ff800fd94ed20e9ed9f4277a4af1e879f758fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:34 +0000
Subject: [PATCH 73/74] fix: cpf_default_callback: plotting the first bus was
 called an invalid bus number

---
 pypower/cpf_callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/cpf_callbacks.py b/pypower/cpf_callbacks.py
index 7c48d82..c74f5e2 100644
--- a/pypower/cpf_callbacks.py
+++ b/pypower/cpf_callbacks.py
@@ -39,7 +39,7 @@ def cpf_default_callback(k, V_c, lam_c, V_p, lam_p, cb_data, cb_state, cb_args,
             else:
                 idx = int(cb_data["ppc_target"]["order"]["bus"]["e2i"][idx_e])
 
-            if idx == 0:
+            if cb_data["ppc_target"]["order"]["bus"]["i2e"][idx] != idx_e:
                 sys.stderr.write(
                     "cpf_default_callback: %d is not a valid bus number for PPOPT[\"CPF_PLOT_BUS\"]\n" % idx_e)
 
-- 
2.43.0


From 372b00e1824186187b161208f3b70baa1223804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:46 +0000
Subject: [PATCH 74/74] fix: runcpf: curves were reported from base cases whose
 power flow did not converge

---
 pypower/runcpf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 62e76ce..ba18193 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -167,7 +167,13 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
         cb_state, _ = callbacks[k](cont_steps, V, lam, V, lam,
                                    cb_data, cb_state, cb_args)
 
-    if linalg.norm(Sxfr) == 0:
+    if not success:
+        if verbose:
+            print('base case power flow did not converge in %d iterations\n' % iterations)
+
+        continuation = 0
+        i = iterations
+    elif linalg.norm(Sxfr) == 0:
         if verbose:
             print('base case and target case have identical load and generation\n')
 
-- 
2.43.0

