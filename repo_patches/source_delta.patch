From cbabbfbb8d2ea409713aa378c293efce0b33a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 01/85] fix: pyrlu linear solver option returned wrong
 solutions for CSR matrices

---
 pypower/pplinsolve.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pypower/pplinsolve.py b/pypower/pplinsolve.py
index 968a8c9..524b03a 100644
--- a/pypower/pplinsolve.py
+++ b/pypower/pplinsolve.py
@@ -9,11 +9,10 @@ def pplinsolve(A, b, lin_solver=None):
     if lin_solver == "pyrlu":
         x = asfortranarray(b.copy())
 
-        if isinstance(A, csc_matrix):
-            trans = False
-        elif isinstance(A, csr_matrix):
-            trans = True
-        else:
+        if isinstance(A, csr_matrix):
+            ## the transposed solve of pyrlu is not reliable
+            A = csc_matrix(A)
+        elif not isinstance(A, csc_matrix):
             raise Exception("matrix A must be CSC or CSR:", type(A))
 
         m, n = A.shape
@@ -22,7 +21,7 @@ def pplinsolve(A, b, lin_solver=None):
         A.sum_duplicates()
 
         import pyrlu
-        pyrlu.factor_solve(n, A.indices, A.indptr, A.data, x, trans=trans, par=False)
+        pyrlu.factor_solve(n, A.indices, A.indptr, A.data, x, trans=False, par=False)
     else:
         x = spsolve(A, b)
 
-- 
2.43.0


From d4476d50f84eb3242f8d84a0249b1aadf8b502b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 02/85] fix: DC power flow reported success when the network
 equations could not be solved

---
 pypower/runpf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypower/runpf.py b/pypower/runpf.py
index 8ffcf4e..42eef96 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -141,7 +141,9 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
             refgen[k] = on[temp[0]]
         gen[refgen, PG] = gen[refgen, PG] + (B[ref, :] * Va - Pbus[ref]) * baseMVA
 
-        success = 1
+        ## a singular system (e.g. an island without a reference bus)
+        ## results in angles which are not finite or absurdly large
+        success = int(all(abs(Va) < 1e5))
     else:                                ## AC formulation
         alg = ppopt['PF_ALG']
         if verbose > 0:
-- 
2.43.0


From 83fac99fb771f98b8422d06b2a23264968f21c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 03/85] fix: reactive power limit enforcement crashed whenever
 a limit was violated

---
 pypower/runpf.py | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/pypower/runpf.py b/pypower/runpf.py
index 42eef96..9586cdc 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -11,7 +11,8 @@ from os.path import dirname, join
 
 from time import time
 
-from numpy import r_, c_, ix_, zeros, pi, ones, exp, argmax, union1d
+from numpy import r_, c_, ix_, zeros, pi, ones, exp, argmax, union1d, setdiff1d
+from numpy import array_equal
 from numpy import flatnonzero as find
 
 from pypower.bustypes import bustypes
@@ -210,10 +211,11 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                 if len(mx) > 0 or len(mn) > 0:  ## we have some Q limit violations
                     # first check for INFEASIBILITY (all remaining gens violating)
                     infeas = union1d(mx, mn)
-                    remaining = find( gen_status & 
-                                     (bus[gen[:, GEN_BUS], BUS_TYPE] == PV | 
-                                      bus[gen[:, GEN_BUS], BUS_TYPE] == REF))
-                    if len(infeas) == len(remaining) or all(infeas == remaining):
+                    gen_bus_type = bus[gen[:, GEN_BUS].astype(int), BUS_TYPE]
+                    remaining = find( gen_status &
+                                     ((gen_bus_type == PV) |
+                                      (gen_bus_type == REF)) )
+                    if len(setdiff1d(remaining, infeas)) == 0:
                         if verbose:
                             print('All %d remaining gens exceed to their Q limits: INFEASIBLE PROBLEM\n' % len(infeas))
                         
@@ -224,12 +226,12 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                     if qlim == 2:    ## fix largest violation, ignore the rest
                         k = argmax(r_[gen[mx, QG] - gen[mx, QMAX],
                                       gen[mn, QMIN] - gen[mn, QG]])
-                        if k > len(mx):
-                            mn = mn[k - len(mx)]
-                            mx = []
+                        if k >= len(mx):
+                            mn = mn[[k - len(mx)]]
+                            mx = mx[:0]
                         else:
-                            mx = mx[k]
-                            mn = []
+                            mx = mx[[k]]
+                            mn = mn[:0]
 
                     if verbose and len(mx) > 0:
                         for i in range(len(mx)):
@@ -251,13 +253,25 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                         bi = gen[mx[i], GEN_BUS].astype(int)   ## adjust load accordingly,
                         bus[bi, [PD, QD]] = (bus[bi, [PD, QD]] - gen[mx[i], [PG, QG]])
                     
-                    if len(ref) > 1 and any(bus[gen[mx, GEN_BUS], BUS_TYPE] == REF):
+                    if len(ref) > 1 and any(bus[gen[mx, GEN_BUS].astype(int), BUS_TYPE] == REF):
                         raise ValueError('Sorry, PYPOWER cannot enforce Q '
                                          'limits for slack buses in systems '
                                          'with multiple slacks.')
                     
                     bus[gen[mx, GEN_BUS].astype(int), BUS_TYPE] = PQ   ## & set bus type to PQ
 
+                    limited = r_[limited, mx].astype(int)
+
+                    # make sure there is still a bus left to serve as slack
+                    gen_bus = gen[gen[:, GEN_STATUS] > 0, GEN_BUS].astype(int)
+                    if not any((bus[gen_bus, BUS_TYPE] == PV) |
+                               (bus[gen_bus, BUS_TYPE] == REF)):
+                        if verbose:
+                            print('No bus left to serve as slack: INFEASIBLE PROBLEM\n')
+
+                        success = 0
+                        break
+
                     ## update bus index lists of each type of bus
                     ref_temp = ref
                     ref, pv, pq = bustypes(bus, gen)
@@ -265,13 +279,11 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                     # previous line can modify lists to select new REF bus
                     # if there was none, so we should update bus with these
                     # just to keep them consistent
-                    if ref != ref_temp:
+                    if not array_equal(ref, ref_temp):
                         bus[ref, BUS_TYPE] = REF
-                        bus[pv, BUS_TYPE] = pv
+                        bus[pv, BUS_TYPE] = PV
                         if verbose:
-                            print('Bus %d is new slack bus\n' % ref)
-
-                    limited = r_[limited, mx].astype(int)
+                            print('Bus %d is new slack bus\n' % ref[0])
                 else:
                     repeat = 0 ## no more generator Q limits violated
             else:
@@ -281,11 +293,11 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
             ## restore injections from limited gens [those at Q limits]
             gen[limited, QG] = fixedQg[limited]    ## restore Qg value,
             for i in range(len(limited)):               ## [one at a time, since they may be at same bus]
-                bi = gen[limited[i], GEN_BUS]           ## re-adjust load,
+                bi = int(gen[limited[i], GEN_BUS])      ## re-adjust load,
                 bus[bi, [PD, QD]] = bus[bi, [PD, QD]] + gen[limited[i], [PG, QG]]
                 gen[limited[i], GEN_STATUS] = 1           ## and turn gen back on
             
-            if ref != ref0:
+            if not array_equal(ref, ref0):
                 ## adjust voltage angles to make original ref bus correct
                 bus[:, VA] = bus[:, VA] - bus[ref0, VA] + Varef0
 
-- 
2.43.0


From 6745ae8948c342137a24030fb938f0af2bfed097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 04/85] fix: sparse user data was not converted to internal
 order

---
 pypower/e2i_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/e2i_data.py b/pypower/e2i_data.py
index c8de659..a359f9c 100644
--- a/pypower/e2i_data.py
+++ b/pypower/e2i_data.py
@@ -84,9 +84,9 @@ def e2i_data(ppc, val, ordering, dim=0):
 
         if issparse(new_v[0]):
             if dim == 0:
-                vstack(new_v, 'csr')
+                val = vstack(new_v, 'csr')
             elif dim == 1:
-                hstack(new_v, 'csr')
+                val = hstack(new_v, 'csr')
             else:
                 raise ValueError('dim (%d) may be 0 or 1' % dim)
         else:
-- 
2.43.0


From c2a98983dc899e90afef04e25a7cf42fecdba020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 05/85] fix: OPF objective omitted polynomial costs when only
 the first generator had one

---
 pypower/opf_costfcn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index ab58406..5f2feac 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -58,7 +58,7 @@ def opf_costfcn(x, om, return_hessian=False):
     # formulation, pwl cost is the sum of the y variables.
     ipol = find(gencost[:, MODEL] == POLYNOMIAL)   ## poly MW and MVAr costs
     xx = r_[ Pg, Qg ] * baseMVA
-    if any(ipol):
+    if len(ipol) > 0:
         f = sum( totcost(gencost[ipol, :], xx[ipol]) )  ## cost of poly P or Q
     else:
         f = 0
-- 
2.43.0


From 017a77ed249c0f26c55b251f994a2d6f469dc485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 06/85] fix: AC OPF with reactive power costs crashed

---
 pypower/opf_costfcn.py | 4 ++--
 pypower/opf_hessfcn.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index 5f2feac..dc90e6e 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -142,7 +142,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ## ---- evaluate cost Hessian -----
     pcost = gencost[range(ng), :]
     if gencost.shape[0] > ng:
-        qcost = gencost[ng + 1:2 * ng, :]
+        qcost = gencost[ng:2 * ng, :]
     else:
         qcost = array([])
 
@@ -152,7 +152,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp]*baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if qcost.size > 0:          ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index de842f5..5b53e36 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -103,7 +103,7 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp] * baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if qcost.size > 0:          ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
-- 
2.43.0


From b4769a9f40f8c97bcebfb9f7620f3051058ad2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 07/85] fix: AC OPF with only piecewise linear costs crashed

---
 pypower/polycost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/polycost.py b/pypower/polycost.py
index fd57359..bb2ee83 100644
--- a/pypower/polycost.py
+++ b/pypower/polycost.py
@@ -30,7 +30,7 @@ def polycost(gencost, Pg, der=0):
     """
     if gencost.size == 0:
         #User has a purely linear piecewise problem, exit early with empty array
-        return []
+        return zeros(0)
 
     if any(gencost[:, MODEL] == PW_LINEAR):
         sys.stderr.write('polycost: all costs must be polynomial\n')
-- 
2.43.0


From 3acde2af00f4e87ea1395b76e95b66c4ab34e8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 08/85] fix: AC OPF without any branch flow limit crashed

---
 pypower/opf_consfcn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_consfcn.py b/pypower/opf_consfcn.py
index a146462..8aa20bd 100644
--- a/pypower/opf_consfcn.py
+++ b/pypower/opf_consfcn.py
@@ -120,7 +120,7 @@ def opf_consfcn(x, om, Ybus, Yf, Yt, ppopt, il=None, *args):
                 h = r_[ Sf * conj(Sf) - flow_max, ## branch S limits (from bus)
                         St * conj(St) - flow_max ].real  ## branch S limits (to bus)
     else:
-        h = zeros((0,1))
+        h = zeros(0)
 
     ##----- evaluate partials of constraints -----
     ## index ranges
-- 
2.43.0


From 38ff037e3c55a9a2cf390c2ac6f71866ef897e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 09/85] fix: user cost parameters dd, rh, kk, mm were never
 applied

---
 pypower/opf_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 861c455..6e33e83 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -358,16 +358,16 @@ class opf_model(object):
             self.cost["data"]["H"][name]  = cp["H"]
 
         if 'dd' in cp:
-            self.cost["data"]["dd"]["name"] = cp["dd"]
+            self.cost["data"]["dd"][name] = cp["dd"]
 
         if 'rh' in cp:
-            self.cost["data"]["rh"]["name"] = cp["rh"]
+            self.cost["data"]["rh"][name] = cp["rh"]
 
         if 'kk' in cp:
-            self.cost["data"]["kk"]["name"] = cp["kk"]
+            self.cost["data"]["kk"][name] = cp["kk"]
 
         if 'mm' in cp:
-            self.cost["data"]["mm"]["name"] = cp["mm"]
+            self.cost["data"]["mm"][name] = cp["mm"]
 
         ## update number of vars and var sets
         self.cost["N"]  = self.cost["idx"]["iN"][name]
-- 
2.43.0


From 4dee936b5f9d5cccf19253dacff0e16c99e0e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:23 +0000
Subject: [PATCH 10/85] fix: DC OPF with user costs on Vm or Qg crashed while
 composing its warning

---
 pypower/opf_setup.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index ca37b7b..f6a7ba3 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -7,7 +7,7 @@
 
 from sys import stdout, stderr
 from math import inf
-from numpy import array, any, delete, unique, arange, nonzero, pi, \
+from numpy import array, any, delete, unique, arange, pi, \
     r_, ones
 from numpy import flatnonzero as find
 
@@ -80,10 +80,9 @@ def opf_setup(ppc, ppopt):
             if nw and (ppc['N'].shape[1] >= 2*nb + 2*ng):
                 ## make sure there aren't any costs on Vm or Qg
                 if ppc['N'][:, acc].nnz > 0:
-                    ii, _ = nonzero(ppc['N'][:, acc])
-                    _, ii = unique(ii, return_index=True)    ## indices of w with potential non-zero cost terms from Vm or Qg
-                    if any(ppc['Cw'][ii]) | ( ('H' in ppc) & (len(ppc['H']) > 0) &
-                            any(any(ppc['H'][:, ii])) ):
+                    ii = unique(ppc['N'][:, acc].nonzero()[0])    ## indices of w with potential non-zero cost terms from Vm or Qg
+                    if any(ppc['Cw'][ii]) or \
+                            (ppc.get('H') is not None and ppc['H'].tocsc()[:, ii].nnz > 0):
                         stderr.write('opf_setup: attempting to solve DC OPF with user costs on Vm or Qg\n')
 
                 # FIXME: delete sparse matrix columns
-- 
2.43.0


From 3ea4716b622c121d6ea6265df2c8950ee3a2a6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 11/85] fix: piecewise linear reactive power costs were tied to
 the wrong generator

---
 pypower/makeAy.py    | 2 +-
 pypower/opf_setup.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/makeAy.py b/pypower/makeAy.py
index cf71717..19ffa13 100644
--- a/pypower/makeAy.py
+++ b/pypower/makeAy.py
@@ -73,7 +73,7 @@ def makeAy(baseMVA, ng, gencost, pgbas, qgbas, ybas):
             print(f'makeAy: bad x axis data in row {i} of gencost matrix')
         b = m * p[:ns - 1] - c[:ns - 1]        ## and rhs
         by = r_[by,  b]
-        if i > ng:
+        if i >= ng:
             sidx = qgbas + (i - ng) - 1        ## this was for a q cost
         else:
             sidx = pgbas + i - 1               ## this was for a p cost
diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index f6a7ba3..dbb1f3e 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -154,7 +154,7 @@ def opf_setup(ppc, ppopt):
         ## more problem dimensions
         nv    = nb           ## number of voltage magnitude vars
         nq    = ng           ## number of Qg vars
-        q1    = ng           ## index of 1st Qg column in Ay
+        q1    = 1 + ng       ## index of 1st Qg column in Ay
 
         ## dispatchable load, constant power factor constraints
         Avl, lvl, uvl, _  = makeAvl(baseMVA, gen)
-- 
2.43.0


From 2cea0b1405844e8db67147dc6506a12d673f88f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 12/85] fix: DC OPF objective left out the shift term of user
 costs

---
 pypower/dcopf_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index b3bc303..845d3ad 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -179,7 +179,7 @@ def dcopf_solver(om, ppopt, out_opt=None):
     MN = M * NN
     HH = MN.T * HHw * MN
     CC = MN.T * (CCw - HMR)
-    C0 = 0.5 * dot(MR, HMR) + sum(polycf[:, 2])  # Constant term of cost.
+    C0 = 0.5 * dot(MR, HMR) - dot(CCw, MR) + sum(polycf[:, 2])  # Constant term of cost.
 
     ## set up input for QP solver
     opt = {'alg': alg, 'verbose': verbose}
-- 
2.43.0


From 00416e7ba00a542959dcb864378af0e19ed4e035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 13/85] fix: AC OPF Hessian crashed without any branch flow
 limit

---
 pypower/opf_hessfcn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index 5b53e36..6b0597e 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -164,7 +164,10 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
     nmu = int(len(lmbda["ineqnonlin"]) / 2)
     muF = lmbda["ineqnonlin"][:nmu]
     muT = lmbda["ineqnonlin"][nmu:nmu + nmu]
-    if ppopt['OPF_FLOW_LIM'] == 2:       ## current
+    if nl2 == 0:                         ## no flow limits
+        Hfaa = Hfav = Hfva = Hfvv = sparse((nb, nb))
+        Htaa = Htav = Htva = Htvv = sparse((nb, nb))
+    elif ppopt['OPF_FLOW_LIM'] == 2:     ## current
         dIf_dVa, dIf_dVm, dIt_dVa, dIt_dVm, If, It = dIbr_dV(branch, Yf, Yt, V)
         Hfaa, Hfav, Hfva, Hfvv = d2AIbr_dV2(dIf_dVa, dIf_dVm, If, Yf, V, muF)
         Htaa, Htav, Htva, Htvv = d2AIbr_dV2(dIt_dVa, dIt_dVm, It, Yt, V, muT)
-- 
2.43.0


From 52a4c2b1d9c19915d634bfe17a3850b1ad9ca9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:36 +0000
Subject: [PATCH 14/85] fix: DC OPF silently ignored polynomial costs above
 quadratic order

---
 pypower/dcopf_solver.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index 845d3ad..3f59b0d 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -5,7 +5,6 @@
 """Solves a DC optimal power flow.
 """
 
-from sys import stderr
 
 from copy import deepcopy
 
@@ -133,9 +132,9 @@ def dcopf_solver(om, ppopt, out_opt=None):
 
     ## quadratic costs
     npol = len(ipol)
-    if any(find(gencost[ipol, NCOST] > 3)):
-        stderr.write('DC opf cannot handle polynomial costs with higher '
-                     'than quadratic order.\n')
+    if any(gencost[ipol, NCOST] > 3):
+        raise ValueError('DC opf cannot handle polynomial costs with higher '
+                         'than quadratic order.')
     iqdr = find(gencost[ipol, NCOST] == 3)
     ilin = find(gencost[ipol, NCOST] == 2)
     polycf = zeros((npol, 3))         ## quadratic coeffs for Pg
-- 
2.43.0


From 9077619703a38601d40ff30953327aa0ec08702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 15/85] fix: DC OPF objective left out constant-only costs

---
 pypower/dcopf_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index 3f59b0d..0974dcd 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -137,11 +137,13 @@ def dcopf_solver(om, ppopt, out_opt=None):
                          'than quadratic order.')
     iqdr = find(gencost[ipol, NCOST] == 3)
     ilin = find(gencost[ipol, NCOST] == 2)
+    icon = find(gencost[ipol, NCOST] == 1)
     polycf = zeros((npol, 3))         ## quadratic coeffs for Pg
     if len(iqdr) > 0:
         polycf[iqdr, :] = gencost[ipol[iqdr], COST:COST + 3]
     if npol:
         polycf[ilin, 1:3] = gencost[ipol[ilin], COST:COST + 2]
+        polycf[icon, 2] = gencost[ipol[icon], COST]
     polycf = dot(polycf, diag([ baseMVA**2, baseMVA, 1]))     ## convert to p.u.
     if npol:
         Npol = sparse((ones(npol), (arange(npol), vv["i1"]["Pg"] + ipol)),
-- 
2.43.0


From a3d454ae42414abb5bcb1dca646bdcf96058a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 16/85] fix: OPF with only one side of a capability curve
 crashed

---
 pypower/makeApq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/makeApq.py b/pypower/makeApq.py
index eb90a78..d91e8ff 100644
--- a/pypower/makeApq.py
+++ b/pypower/makeApq.py
@@ -67,7 +67,7 @@ def makeApq(baseMVA, gen):
                       (npqh, 2*ng))
         ubpqh = ubpqh / baseMVA
     else:
-        data["h"] = array([])
+        data["h"] = zeros((0, 2))
         Apqh  = zeros((0, 2*ng))
         ubpqh = array([])
 
@@ -86,7 +86,7 @@ def makeApq(baseMVA, gen):
                       (npql, 2*ng))
         ubpql = ubpql / baseMVA
     else:
-        data["l"] = array([])
+        data["l"] = zeros((0, 2))
         Apql  = zeros((0, 2*ng))
         ubpql = array([])
 
-- 
2.43.0


From 4a5e0cc7a48b71e27b9ae449a9121bcda170217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:06 +0000
Subject: [PATCH 17/85] fix: raw constraint Jacobian of the OPF was not a
 matrix

---
 pypower/opf_execute.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index 8196512..9251974 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -9,6 +9,8 @@ from sys import stdout, stderr
 
 from numpy import array, arange, pi, zeros, r_
 
+from scipy.sparse import vstack
+
 from pypower.ppver import ppver
 from pypower.dcopf_solver import dcopf_solver
 from pypower.pipsopf_solver import pipsopf_solver
@@ -119,7 +121,7 @@ def opf_execute(om, ppopt):
                     Ybus, Yf, Yt = makeYbus(ppc['baseMVA'], ppc['bus'], ppc['branch'])
                     g, geq, dg, dgeq = opf_consfcn(results['x'], om, Ybus, Yf, Yt, ppopt)
                     raw['g'] = r_[geq, g]
-                    raw['dg'] = r_[dgeq.T, dg.T]   ## true Jacobian organization
+                    raw['dg'] = vstack([dgeq.T, dg.T], 'csr')   ## true Jacobian organization
 
                 ## compute df, d2f
                 _, df, d2f = opf_costfcn(results['x'], om, True)
-- 
2.43.0


From bbea6fd4b60eace84248d1f28c712d337fb1589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 18/85] fix: unit decommitment crashed when minimum outputs
 exceed the load

---
 pypower/fairmax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/fairmax.py b/pypower/fairmax.py
index 3b27c06..eeb01d2 100644
--- a/pypower/fairmax.py
+++ b/pypower/fairmax.py
@@ -6,7 +6,7 @@
 """
 
 from random import random
-from numpy import nonzero, fix
+from numpy import flatnonzero as find
 
 
 def fairmax(x):
@@ -23,8 +23,8 @@ def fairmax(x):
     @author: Ray Zimmerman (PSERC Cornell)
     """
     val = max(x)                      ## find max value
-    i   = nonzero(x == val)           ## find all positions where this occurs
+    i   = find(x == val)              ## find all positions where this occurs
     n   = len(i)                      ## number of occurences
-    idx = i( fix(n * random()) + 1 )  ## select index randomly among occurances
+    idx = i[int(n * random())]        ## select index randomly among occurances
 
     return val, idx
-- 
2.43.0


From 307f47ab551b30b85d149b9e6e9ad47161b5d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 19/85] fix: unit decommitment crashed when the last unit was a
 shutdown candidate

---
 pypower/uopf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/uopf.py b/pypower/uopf.py
index 7284644..faeae8e 100644
--- a/pypower/uopf.py
+++ b/pypower/uopf.py
@@ -87,8 +87,8 @@ def uopf(*args):
     while True:
         ## get candidates for shutdown
         candidates = find((results0["gen"][:, MU_PMIN] > 0) & (results0["gen"][:, PMIN] > 0))
-        if len(candidates) == 0:
-            break
+        if len(candidates) == 0 or sum(results0["gen"][:, GEN_STATUS] > 0) < 2:
+            break   ## nothing to shut down, or only one unit left
 
         ## do not check for further decommitment unless we
         ##  see something better during this stage
-- 
2.43.0


From fe5c08f378569d7d11b6c40a396eba0b123e7546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 20/85] fix: unit decommitment shut down units with zero PMIN
 for nothing

---
 pypower/uopf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/uopf.py b/pypower/uopf.py
index faeae8e..3ab97c1 100644
--- a/pypower/uopf.py
+++ b/pypower/uopf.py
@@ -58,8 +58,9 @@ def uopf(*args):
     onld = find( (ppc["gen"][:, GEN_STATUS] > 0) &  isload(ppc["gen"]) )   ## disp loads in serv
     load_capacity = sum(ppc["bus"][:, PD]) - sum(ppc["gen"][onld, PMIN])   ## total load capacity
     Pmin = ppc["gen"][on, PMIN]
-    while sum(Pmin) > load_capacity:
+    while sum(Pmin) > load_capacity and any(Pmin > 0):
         ## shut down most expensive unit
+        on, Pmin = on[Pmin > 0], Pmin[Pmin > 0]   ## others do not help
         avgPmincost = totcost(ppc["gencost"][on, :], Pmin) / Pmin
         _, i = fairmax(avgPmincost)   ## pick one with max avg cost at Pmin
         i = on[i]                     ## convert to generator index
-- 
2.43.0


From 437d688d4161225529897d7602cbcf2fdf26af4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:01 +0000
Subject: [PATCH 21/85] fix: runuopf ignored the output options when printing
 to the screen

---
 pypower/runuopf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/runuopf.py b/pypower/runuopf.py
index f840670..b996c1b 100644
--- a/pypower/runuopf.py
+++ b/pypower/runuopf.py
@@ -43,7 +43,7 @@ def runuopf(casedata=None, ppopt=None, fname='', solvedcase=''):
                 fd.close()
 
     else:
-        printpf(r, stdout, ppopt=ppopt)
+        printpf(r, stdout, ppopt)
 
     ## save solved case
     if solvedcase:
-- 
2.43.0


From 59b631e48c3720ff1b14aee86347d9f530978290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:10 +0000
Subject: [PATCH 22/85] fix: report of an OPF with dispatchable loads crashed

---
 pypower/printpf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 5464b53..0b84f65 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -594,9 +594,9 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
                     else:
                         fd.write('     -  ')
                     if gen[i, PG]:
-                        fd.write('%10.2f%10.2f%10.2f' % gen[i, [PMIN, PG, PMAX]])
+                        fd.write('%10.2f%10.2f%10.2f' % tuple(gen[i, [PMIN, PG, PMAX]]))
                     else:
-                        fd.write('%10.2f       -  %10.2f' % gen[i, [PMIN, PMAX]])
+                        fd.write('%10.2f       -  %10.2f' % tuple(gen[i, [PMIN, PMAX]]))
 
                     if (gen[i, PG] > gen[i, PMAX] - ctol) | (gen[i, MU_PMAX] > ptol):
                         fd.write('%9.3f' % gen[i, MU_PMAX])
@@ -620,16 +620,16 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
                              (gen[i, QG] > gen[i, QMAX] - ctol) |
                              (gen[i, MU_QMIN] > ptol) |
                              (gen[i, MU_QMAX] > ptol))):
-                    fd.write('\n%3d%5d' % (i, gen(i, GEN_BUS)))
+                    fd.write('\n%3d%5d' % (i, gen[i, GEN_BUS]))
                     if (gen[i, QG] < gen[i, QMIN] + ctol) | (gen[i, MU_QMIN] > ptol):
                         fd.write('%8.3f' % gen[i, MU_QMIN])
                     else:
                         fd.write('     -  ')
 
                     if gen[i, QG]:
-                        fd.write('%10.2f%10.2f%10.2f' % gen[i, [QMIN, QG, QMAX]])
+                        fd.write('%10.2f%10.2f%10.2f' % tuple(gen[i, [QMIN, QG, QMAX]]))
                     else:
-                        fd.write('%10.2f       -  %10.2f' % gen[i, [QMIN, QMAX]])
+                        fd.write('%10.2f       -  %10.2f' % tuple(gen[i, [QMIN, QMAX]]))
 
                     if (gen[i, QG] > gen[i, QMAX] - ctol) | (gen[i, MU_QMAX] > ptol):
                         fd.write('%9.3f' % gen[i, MU_QMAX])
-- 
2.43.0


From e607062130afe9396ab407107230a651b4a7a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:22 +0000
Subject: [PATCH 23/85] fix: printing a DC result zeroed the caller's reactive
 data

---
 pypower/printpf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 0b84f65..32cc5b3 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -136,6 +136,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
 
     ## zero out some data to make printout consistent for DC case
     if isDC:
+        bus, gen, branch = bus.copy(), gen.copy(), branch.copy()
         bus[:, r_[QD, BS]]          = zeros((nb, 2))
         gen[:, r_[QG, QMAX, QMIN]]  = zeros((ng, 3))
         branch[:, r_[BR_R, BR_B]]   = zeros((nl, 2))
-- 
2.43.0


From b6ad0c13145fffe573cb4b55f7825dd35aff97a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:31 +0000
Subject: [PATCH 24/85] fix: report lost the first area and needed at least two
 buses

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 32cc5b3..f1ce78f 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -152,7 +152,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     nzld = find((bus[:, PD] != 0.0) | (bus[:, QD] != 0.0))
     sorted_areas = sort(bus[:, BUS_AREA])
     ## area numbers
-    s_areas = sorted_areas[r_[1, find(diff(sorted_areas)) + 1]]
+    s_areas = sorted_areas[r_[0, find(diff(sorted_areas)) + 1]]
     nzsh = find((bus[:, GS] != 0.0) | (bus[:, BS] != 0.0))
     allg = find( ~isload(gen) )
     ong  = find( (gen[:, GEN_STATUS] > 0) & ~isload(gen) )
-- 
2.43.0


From b9d77c45544bfbd54a9e4e4554dc86cd6dcce2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:03 +0000
Subject: [PATCH 25/85] fix: printing a power flow with user callbacks crashed

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index f1ce78f..d395808 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -686,5 +686,5 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     ## execute userfcn callbacks for 'printpf' stage
     if have_results_struct and 'userfcn' in results:
         if not isOPF:  ## turn off option for all constraints if it isn't an OPF
-            ppopt = ppoption(ppopt, 'OUT_ALL_LIM', 0)
+            ppopt = ppoption(ppopt, OUT_ALL_LIM=0)
         run_userfcn(results["userfcn"], 'printpf', results, fd, ppopt)
-- 
2.43.0


From 1bacd796aa3f2950076f7cc7f0610888bb6238ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:11 +0000
Subject: [PATCH 26/85] fix: voltage limit table of the report ignored
 OUT_V_LIM

---
 pypower/printpf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index d395808..7f79415 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -455,7 +455,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     if isOPF:
         ctol = ppopt['OPF_VIOLATION']   ## constraint violation tolerance
         ## voltage constraints
-        if (not isDC) & (OUT_V_LIM == 2 | (OUT_V_LIM == 1 &
+        if (not isDC) & ((OUT_V_LIM == 2) | ((OUT_V_LIM == 1) &
                              (any(bus[:, VM] < bus[:, VMIN] + ctol) |
                               any(bus[:, VM] > bus[:, VMAX] - ctol) |
                               any(bus[:, MU_VMIN] > ptol) |
@@ -466,7 +466,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
             fd.write('\nBus #  Vmin mu    Vmin    |V|   Vmax    Vmax mu')
             fd.write('\n-----  --------   -----  -----  -----   --------')
             for i in range(nb):
-                if (OUT_V_LIM == 2) | (OUT_V_LIM == 1 &
+                if (OUT_V_LIM == 2) | ((OUT_V_LIM == 1) &
                              ((bus[i, VM] < bus[i, VMIN] + ctol) |
                               (bus[i, VM] > bus[i, VMAX] - ctol) |
                               (bus[i, MU_VMIN] > ptol) |
-- 
2.43.0


From c38a63ae52d74a5aa1fe262013410ccc7188eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:27 +0000
Subject: [PATCH 27/85] fix: results truncated when a case matrix has an
 integer dtype

---
 pypower/loadcase.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 84ee92a..50d1181 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -11,7 +11,7 @@ from os.path import basename, splitext, exists
 
 from copy import deepcopy
 
-from numpy import array, zeros, ones, c_
+from numpy import array, zeros, ones, c_, integer, issubdtype
 
 from scipy.io import loadmat
 
@@ -180,6 +180,13 @@ def loadcase(casefile,
 
             ## all fields present, copy to ppc
             ppc = deepcopy(s)
+
+            ## matrices entered as integers must be able to hold results
+            for k in ('bus', 'gen', 'branch', 'gencost'):
+                if k in ppc and ppc[k] is not None and \
+                        issubdtype(ppc[k].dtype, integer):
+                    ppc[k] = ppc[k].astype(float)
+
             if not hasattr(ppc, 'version'):  ## hmm, struct with no 'version' field
                 if ppc['gen'].shape[1] < 21:    ## version 2 has 21 or 25 cols
                     ppc['version'] = '1'
-- 
2.43.0


From ab1660527b6f655f4f6a26efc7d526705d66435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 28/85] fix: continuation power flow crashed building its
 Jacobian

---
 pypower/cpf_corrector.py | 2 +-
 pypower/cpf_predictor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/cpf_corrector.py b/pypower/cpf_corrector.py
index 9043957..bd4110e 100644
--- a/pypower/cpf_corrector.py
+++ b/pypower/cpf_corrector.py
@@ -92,7 +92,7 @@ def cpf_corrector(Ybus, Sbus, V0, ref, pv, pq,
         # augment J with real/imag -Sxfr and z^T
         J = vstack([
             hstack([J, dF_dlam]),
-            hstack([dP_dV, dP_dlam])
+            r_[dP_dV, dP_dlam].reshape((1, -1))
         ], format="csr")
 
         # compute update step
diff --git a/pypower/cpf_predictor.py b/pypower/cpf_predictor.py
index ef33a8f..a60bbb9 100644
--- a/pypower/cpf_predictor.py
+++ b/pypower/cpf_predictor.py
@@ -37,7 +37,7 @@ def cpf_predictor(V, lam, Ybus, Sxfr, pv, pq,
     # linear operator for computing the tangent predictor
     J = vstack([
         hstack([J, dF_dlam]),
-        hstack([dP_dV, dP_dlam])
+        r_[dP_dV, dP_dlam].reshape((1, -1))
     ], format="csr")
 
     Vaprv = angle(V)
-- 
2.43.0


From ab99558999dfdfeb1dc04d24780f4ea2cb0ff71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 29/85] fix: continuation from an unsolved base case

---
 pypower/runcpf.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 1e40a94..b5aca42 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -163,11 +163,18 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     cb_state = {}
 
     # invoke callbacks
-    for k in range(len(callbacks)):
-        cb_state, _ = callbacks[k](cont_steps, V, lam, V, lam,
-                                   cb_data, cb_state, cb_args)
+    if success:
+        for k in range(len(callbacks)):
+            cb_state, _ = callbacks[k](cont_steps, V, lam, V, lam,
+                                       cb_data, cb_state, cb_args)
 
-    if linalg.norm(Sxfr) == 0:
+    if not success:     # no base case solution to start from
+        if verbose:
+            print('base case power flow did not converge\n')
+
+        continuation = 0
+        i = iterations
+    elif linalg.norm(Sxfr) == 0:
         if verbose:
             print('base case and target case have identical load and generation\n')
 
-- 
2.43.0


From 2435edbbcda909704497bb6bc721d89b1592909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:08 +0000
Subject: [PATCH 30/85] fix: continuation between identical cases crashed

---
 pypower/cpf_callbacks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/cpf_callbacks.py b/pypower/cpf_callbacks.py
index d657669..2e3e026 100644
--- a/pypower/cpf_callbacks.py
+++ b/pypower/cpf_callbacks.py
@@ -62,10 +62,10 @@ def cpf_default_callback(k, V_c, lam_c, V_p, lam_p, cb_data, cb_state, cb_args,
     elif k == 0:
         # initialize state
         cb_state = {
-            "V_p": V_p,
-            "lam_p": lam_p,
-            "V_c": V_c,
-            "lam_c": lam_c,
+            "V_p": c_[V_p],
+            "lam_p": r_[lam_p],
+            "V_c": c_[V_c],
+            "lam_c": r_[lam_c],
             "iterations": 0
         }
 
-- 
2.43.0


From d36dd828355d422c3e7ccb39af9fac354435ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:26 +0000
Subject: [PATCH 31/85] fix: continuation without effect on the network never
 ended

---
 pypower/runcpf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index b5aca42..ed2ff4f 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -181,6 +181,14 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
         continuation = 0
         V0 = V
         lam0 = lam
+    elif isinstance(ppopt["CPF_STOP_AT"], str) and \
+            linalg.norm(r_[Sxfr[pv].real, Sxfr[pq]]) == 0:
+        if verbose:
+            print('transfer has no effect on the power flow equations, there is no loading limit\n')
+
+        continuation = 0
+        V0 = V
+        lam0 = lam
 
     # tangent predictor z = [dx;dlam]
     z = zeros(2*len(V)+1)
-- 
2.43.0


From 6ccd9cf786331246a08138ff94f1918083de6847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:04 +0000
Subject: [PATCH 32/85] fix: opf modified the case dict passed by the caller

---
 pypower/opf_args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index fa4788a..707bcb4 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -334,7 +334,7 @@ def opf_args2(*args):
     baseMVA, bus, gen, branch, gencost, Au, lbu, ubu, \
         ppopt, N, fparm, H, Cw, z0, zl, zu, userfcn, areas = opf_args(*args)
 
-    ppc = args[0] if isinstance(args[0], dict) else {}
+    ppc = dict(args[0]) if isinstance(args[0], dict) else {}  ## caller's dict stays as is
 
     ppc['baseMVA'] = baseMVA
     ppc['bus'] = bus
-- 
2.43.0


From 11276e0109d62983adbccbffd0aaa5ba75e1a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 33/85] fix: uopf shut units down in the caller's gen matrix

---
 pypower/uopf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/uopf.py b/pypower/uopf.py
index 3ab97c1..ec5c556 100644
--- a/pypower/uopf.py
+++ b/pypower/uopf.py
@@ -45,6 +45,7 @@ def uopf(*args):
 
     ## process input arguments
     ppc, ppopt = opf_args2(*args)
+    ppc["gen"] = ppc["gen"].copy()      ## units get shut down in here
 
     ## options
     verbose = ppopt["VERBOSE"]
-- 
2.43.0


From cc22208319045a8b8b6505231d960ed7fc7506bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:07 +0000
Subject: [PATCH 34/85] fix: opf added a key to the options dict passed by the
 caller

---
 pypower/opf_execute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index 9251974..185fc4b 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -76,7 +76,7 @@ def opf_execute(om, ppopt):
         elif alg == 160 | alg == 260:      ## sparse (full) LP
             alg = 360
 
-        ppopt['OPF_ALG_POLY'] = alg
+        ppopt = dict(ppopt, OPF_ALG_POLY=alg)  ## leaves caller's options as is
 
         ## run specific AC OPF solver
         if alg == 560 or alg == 565:                   ## PIPS
-- 
2.43.0


From 695b712925f24cbaf7fadd14199407cf0238b0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:07 +0000
Subject: [PATCH 35/85] fix: slack unit at a reference bus with several units
 depended on an unstable sort

---
 pypower/ext2int.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/ext2int.py b/pypower/ext2int.py
index d3a8a85..5100a89 100644
--- a/pypower/ext2int.py
+++ b/pypower/ext2int.py
@@ -166,7 +166,7 @@ def ext2int(ppc, val_or_field=None, ordering=None, dim=0):
                         PRICE_REF_BUS].astype(int) ].copy()
 
             ## reorder gens in order of increasing bus number
-            o["gen"]["e2i"] = argsort(ppc["gen"][:, GEN_BUS])
+            o["gen"]["e2i"] = argsort(ppc["gen"][:, GEN_BUS], kind="mergesort")
             o["gen"]["i2e"] = argsort(o["gen"]["e2i"])
 
             ppc["gen"] = ppc["gen"][o["gen"]["e2i"].astype(int), :]
-- 
2.43.0


From 8665b1584f26c36b3db8894204bf18ed4f7249b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:14 +0000
Subject: [PATCH 36/85] fix: a case file could not use its own imports, helpers
 or some names

The file was executed into the local variables of loadcase, so names it
defined at module level were invisible to its function, and a case named
like one of those variables (s, info, ...) could not be loaded at all.
---
 pypower/loadcase.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 50d1181..7c3771c 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -107,14 +107,14 @@ def loadcase(casefile,
                     lasterr = str(e)
             elif extension == '.py':      ## from Python file
                 try:
-                    if PY2:
-                        execfile(rootname + extension)
-                    else:
-                        exec(compile(open(rootname + extension).read(),
-                                     rootname + extension, 'exec'))
+                    ## run the file in a namespace of its own
+                    ns = dict(globals())
+                    with open(rootname + extension) as fd:
+                        exec(compile(fd.read(), rootname + extension, 'exec'),
+                             ns)
 
                     try:                      ## assume it returns an object
-                        s = eval(fname)()
+                        s = ns[fname]()
                     except ValueError as e:
                         info = 4
                         lasterr = str(e)
@@ -125,7 +125,7 @@ def loadcase(casefile,
                         if expect_gencost:
                             try:
                                 s['baseMVA'], s['bus'], s['gen'], s['branch'], \
-                                s['areas'], s['gencost'] = eval(fname)()
+                                s['areas'], s['gencost'] = ns[fname]()
                             except IOError as e:
                                 info = 4
                                 lasterr = str(e)
@@ -134,18 +134,18 @@ def loadcase(casefile,
                                 try:
                                     s['baseMVA'], s['bus'], s['gen'], \
                                         s['branch'], s['areas'], \
-                                        s['gencost'] = eval(fname)()
+                                        s['gencost'] = ns[fname]()
                                 except ValueError as e:
                                     try:
                                         s['baseMVA'], s['bus'], s['gen'], \
-                                            s['branch'] = eval(fname)()
+                                            s['branch'] = ns[fname]()
                                     except ValueError as e:
                                         info = 4
                                         lasterr = str(e)
                             else:
                                 try:
                                     s['baseMVA'], s['bus'], s['gen'], \
-                                        s['branch'] = eval(fname)()
+                                        s['branch'] = ns[fname]()
                                 except ValueError as e:
                                     info = 4
                                     lasterr = str(e)
-- 
2.43.0


From ac264326fba131d230b562fa20c3c05754ca3213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:53 +0000
Subject: [PATCH 37/85] fix: cases with user constraints or costs could not be
 saved

The size of a sparse A, N or H was taken with len(), the Python text for
them was not valid, vectors were indexed with the wrong variables, and the
MAT format turned the matrices into objects and the vectors into rows.
---
 pypower/loadcase.py |   4 ++
 pypower/savecase.py | 117 +++++++++++++++++++++++---------------------
 2 files changed, 66 insertions(+), 55 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 7c3771c..beb3b99 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -14,6 +14,7 @@ from copy import deepcopy
 from numpy import array, zeros, ones, c_, integer, issubdtype
 
 from scipy.io import loadmat
+from scipy.sparse import csr_matrix
 
 from pypower._compat import PY2
 from pypower.idx_gen import PMIN, MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN, APF
@@ -101,6 +102,9 @@ def loadcase(casefile,
                             s[k] = v
 
                     s['baseMVA'] = s['baseMVA'][0]  # convert array to float
+                    for k in ('l', 'u', 'Cw', 'z0', 'zl', 'zu'):
+                        if k in s:      # vectors are stored as matrices
+                            s[k] = s[k].ravel()
 
                 except IOError as e:
                     info = 3
diff --git a/pypower/savecase.py b/pypower/savecase.py
index f370557..d663926 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -9,8 +9,9 @@ from sys import stderr
 
 from os.path import basename
 
-from numpy import array, c_, r_, any
+from numpy import array, c_, r_, any, ravel, shape
 from scipy.io import savemat
+from scipy.sparse import csc_matrix
 
 from pypower._compat import PY2
 from pypower.run_userfcn import run_userfcn
@@ -109,25 +110,25 @@ def savecase(fname, ppc, comment=None, version='2'):
             ppc_mat['areas'] = array(ppc['areas'])
         if 'gencost' in ppc:
             ppc_mat['gencost'] = array(ppc['gencost'])
-        if "A" in ppc and len(ppc["A"]) > 0:
-            ppc_mat["A"] = array(ppc["A"])
-            if "l" in ppc and len(ppc["l"]) > 0:
+        if has_data(ppc, "A"):
+            ppc_mat["A"] = csc_matrix(ppc["A"])
+            if has_data(ppc, "l"):
                 ppc_mat["l"] = array(ppc["l"])
-            if "u" in ppc and len(ppc["u"]) > 0:
+            if has_data(ppc, "u"):
                 ppc_mat["u"] = array(ppc["u"])
-        if "N" in ppc and len(ppc["N"]) > 0:
-            ppc_mat["N"] = array(ppc["N"])
-            if "H" in ppc and len(ppc["H"]) > 0:
-                ppc_mat["H"] = array(ppc["H"])
-            if "fparm" in ppc and len(ppc["fparm"]) > 0:
+        if has_data(ppc, "N"):
+            ppc_mat["N"] = csc_matrix(ppc["N"])
+            if has_data(ppc, "H"):
+                ppc_mat["H"] = csc_matrix(ppc["H"])
+            if has_data(ppc, "fparm"):
                 ppc_mat["fparm"] = array(ppc["fparm"])
             ppc_mat["Cw"] = array(ppc["Cw"])
         if 'z0' in ppc or 'zl' in ppc or 'zu' in ppc:
-            if 'z0' in ppc and len(ppc['z0']) > 0:
+            if has_data(ppc, "z0"):
                 ppc_mat['z0'] = array(ppc['z0'])
-            if 'zl' in ppc and len(ppc['zl']) > 0:
+            if has_data(ppc, "zl"):
                 ppc_mat['zl'] = array(ppc['zl'])
-            if 'zu' in ppc and len(ppc['zu']) > 0:
+            if has_data(ppc, "zu"):
                 ppc_mat['zu'] = array(ppc['zu'])
         if 'userfcn' in ppc and len(ppc['userfcn']) > 0:
             ppc_mat['userfcn'] = array(ppc['userfcn'])
@@ -287,68 +288,68 @@ def savecase(fname, ppc, comment=None, version='2'):
             fd.write('%s])\n' % indent)
 
         ## generalized OPF user data
-        if ("A" in ppc) and (len(ppc["A"]) > 0) or ("N" in ppc) and (len(ppc["N"]) > 0):
+        if has_data(ppc, "A") or has_data(ppc, "N"):
             fd.write('\n%s##-----  Generalized OPF User Data  -----##' % indent)
 
         ## user constraints
-        if ("A" in ppc) and (len(ppc["A"]) > 0):
+        if has_data(ppc, "A"):
             ## A
             fd.write('\n%s## user constraints\n' % indent)
-            print_sparse(fd, prefix + "['A']", ppc["A"])
-            if ("l" in ppc) and (len(ppc["l"]) > 0) and ("u" in ppc) and (len(ppc["u"]) > 0):
+            print_sparse(fd, indent, prefix + "['A']", ppc["A"])
+            if has_data(ppc, "l") and has_data(ppc, "u"):
                 fd.write('%slu = array([\n' % indent)
-                for i in range(len(ppc["l"])):
-                    fd.write('%s[%.9g, %.9g],\n' % (indent2, ppc["l"][i], ppc["u"][i]))
+                for x in zip(ravel(ppc["l"]), ravel(ppc["u"])):
+                    fd.write('%s[%.9g, %.9g],\n' % ((indent2,) + x))
                 fd.write('%s])\n' % indent)
                 fd.write("%s%s['l'] = lu[:, 0]\n" % (indent, prefix))
                 fd.write("%s%s['u'] = lu[:, 1]\n\n" % (indent, prefix))
-            elif ("l" in ppc) and (len(ppc["l"]) > 0):
+            elif has_data(ppc, "l"):
                 fd.write("%s%s['l'] = array([\n" % (indent, prefix))
-                for i in range(len(l)):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["l"][i]))
+                for x in ravel(ppc["l"]):
+                    fd.write('%s%.9g,\n' % (indent2, x))
                 fd.write('%s])\n\n' % indent)
-            elif ("u" in ppc) and (len(ppc["u"]) > 0):
+            elif has_data(ppc, "u"):
                 fd.write("%s%s['u'] = array([\n" % (indent, prefix))
-                for i in range(len(l)):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["u"][i]))
+                for x in ravel(ppc["u"]):
+                    fd.write('%s%.9g,\n' % (indent2, x))
                 fd.write('%s])\n\n' % indent)
 
         ## user costs
-        if ("N" in ppc) and (len(ppc["N"]) > 0):
+        if has_data(ppc, "N"):
             fd.write('\n%s## user costs\n' % indent)
-            print_sparse(fd, prefix + "['N']", ppc["N"])
-            if ("H" in ppc) and (len(ppc["H"]) > 0):
-                print_sparse(fd, prefix + "['H']", ppc["H"])
-            if ("fparm" in ppc) and (len(ppc["fparm"]) > 0):
+            print_sparse(fd, indent, prefix + "['N']", ppc["N"])
+            if has_data(ppc, "H"):
+                print_sparse(fd, indent, prefix + "['H']", ppc["H"])
+            if has_data(ppc, "fparm"):
                 fd.write("%sCw_fparm = array([\n" % indent)
-                for i in range(ppc["Cw"]):
-                    fd.write('%s[%.9g, %d, %.9g, %.9g, %.9g],\n' % ((indent2,) + tuple(ppc["Cw"][i]) + tuple(ppc["fparm"][i, :])))
+                for Cw, fparm in zip(ravel(ppc["Cw"]), ppc["fparm"]):
+                    fd.write('%s[%.9g, %d, %.9g, %.9g, %.9g],\n' % ((indent2, Cw) + tuple(fparm)))
                 fd.write('%s])\n' % indent)
                 fd.write('%s%s[\'Cw\']    = Cw_fparm[:, 0]\n' % (indent, prefix))
                 fd.write("%s%s['fparm'] = Cw_fparm[:, 1:5]\n" % (indent, prefix))
             else:
                 fd.write("%s%s['Cw'] = array([\n" % (indent, prefix))
-                for i in range(len(ppc["Cw"])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["Cw"][i]))
+                for x in ravel(ppc["Cw"]):
+                    fd.write('%s%.9g,\n' % (indent2, x))
                 fd.write('%s])\n' % indent)
 
         ## user vars
         if ('z0' in ppc) or ('zl' in ppc) or ('zu' in ppc):
             fd.write('\n%s## user vars\n' % indent)
-            if ('z0' in ppc) and (len(ppc['z0']) > 0):
+            if has_data(ppc, "z0"):
                 fd.write('%s%s["z0"] = array([\n' % (indent, prefix))
-                for i in range(len(ppc['z0'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["z0"]))
+                for x in ravel(ppc['z0']):
+                    fd.write('%s%.9g,\n' % (indent2, x))
                 fd.write('%s])\n' % indent)
-            if ('zl' in ppc) and (len(ppc['zl']) > 0):
-                fd.write('%s%s["zl"] = array([\n' % (indent2, prefix))
-                for i in range(len(ppc['zl'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["zl"]))
+            if has_data(ppc, "zl"):
+                fd.write('%s%s["zl"] = array([\n' % (indent, prefix))
+                for x in ravel(ppc['zl']):
+                    fd.write('%s%.9g,\n' % (indent2, x))
                 fd.write('%s])\n' % indent)
-            if ('zu' in ppc) and (len(ppc['zu']) > 0):
+            if has_data(ppc, "zu"):
                 fd.write('%s%s["zu"] = array([\n' % (indent, prefix))
-                for i in range(len(ppc['zu'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["zu"]))
+                for x in ravel(ppc['zu']):
+                    fd.write('%s%.9g,\n' % (indent2, x))
                 fd.write('%s])\n' % indent)
 
         ## execute userfcn callbacks for 'savecase' stage
@@ -363,17 +364,23 @@ def savecase(fname, ppc, comment=None, version='2'):
     return fname
 
 
-def print_sparse(fd, varname, A):
-    A = A.tocoo()
-    i, j, s = A.row, A.col, A.data
+def has_data(ppc, key):
+    """Is C{key} present in C{ppc} with at least one row?
+    """
+    return ppc.get(key) is not None and shape(ppc[key])[0] > 0
+
+
+def print_sparse(fd, indent, varname, A):
+    A = csc_matrix(A).tocoo()
     m, n = A.shape
 
-    if len(s) == 0:
-        fd.write('%s = sparse((%d, %d))\n' % (varname, m, n))
-    else:
-        fd.write('ijs = array([\n')
-    for k in range(len(i)):
-        fd.write('[%d, %d, %.9g],\n' % (i[k], j[k], s[k]))
+    if A.nnz == 0:
+        fd.write('%s%s = csr_matrix((%d, %d))\n' % (indent, varname, m, n))
+        return
 
-    fd.write('])\n')
-    fd.write('%s = sparse(ijs[:, 0], ijs[:, 1], ijs[:, 2], %d, %d)\n' % (varname, m, n))
+    fd.write('%sijs = array([\n' % indent)
+    for i, j, s in zip(A.row, A.col, A.data):
+        fd.write('%s%s[%d, %d, %.9g],\n' % (indent, indent, i, j, s))
+    fd.write('%s])\n' % indent)
+    fd.write('%s%s = csr_matrix((ijs[:, 2], (ijs[:, 0].astype(int), '
+             'ijs[:, 1].astype(int))), (%d, %d))\n' % (indent, varname, m, n))
-- 
2.43.0


From 4f527511df14b3041eb3aab977c5813a163c96f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:23 +0000
Subject: [PATCH 38/85] fix: saving a case with spare gencost columns crashed

---
 pypower/savecase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index d663926..93c6f8d 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -284,7 +284,7 @@ def savecase(fname, ppc, comment=None, version='2'):
                     template = template + ', %.9g'
                 template = template + '],\n'
                 for i in range(gencost.shape[0]):
-                    fd.write(template % ((indent2,) + tuple(gencost[i])))
+                    fd.write(template % ((indent2,) + tuple(gencost[i, :n + 4])))
             fd.write('%s])\n' % indent)
 
         ## generalized OPF user data
-- 
2.43.0


From 1596da3f067276eaa272a6edbb155338e0d0701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:19 +0000
Subject: [PATCH 39/85] fix: saved cases with infinite limits could not be
 loaded

The text used inf, nan and csr_matrix without importing them.
---
 pypower/loadcase.py | 1 -
 pypower/savecase.py | 2 ++
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index beb3b99..76ed365 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -14,7 +14,6 @@ from copy import deepcopy
 from numpy import array, zeros, ones, c_, integer, issubdtype
 
 from scipy.io import loadmat
-from scipy.sparse import csr_matrix
 
 from pypower._compat import PY2
 from pypower.idx_gen import PMIN, MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN, APF
diff --git a/pypower/savecase.py b/pypower/savecase.py
index 93c6f8d..bb7433e 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -158,6 +158,8 @@ def savecase(fname, ppc, comment=None, version='2'):
 #                fd.write('function [baseMVA, bus, gen, branch] = %s\n' % rootname)
 #            prefix = ''
         else:
+            fd.write('from numpy import array, inf, nan\n')
+            fd.write('from scipy.sparse import csr_matrix\n\n')
             fd.write('def %s():\n' % basename(rootname))
             prefix = 'ppc'
         if comment:
-- 
2.43.0


From d539d3d188d98685e557b2b7773a5956d8c5d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:51 +0000
Subject: [PATCH 40/85] fix: results of a version 1 case were shifted when it
 was loaded

---
 pypower/loadcase.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 76ed365..1861839 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -247,8 +247,8 @@ def ppc_1to2(gen, branch):
 
     ## add extra columns to gen
     tmp = zeros((gen.shape[0], shift))
-    if gen.shape[1] >= mu_Qmin:
-        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin] ]
+    if gen.shape[1] >= mu_Qmin + 1:
+        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin + 1] ]
     else:
         gen = c_[ gen[:, 0:PMIN + 1], tmp ]
 
@@ -261,10 +261,10 @@ def ppc_1to2(gen, branch):
     ## add extra columns to branch
     tmp = ones((branch.shape[0], 1)) * array([-360, 360])
     tmp2 = zeros((branch.shape[0], 2))
-    if branch.shape[1] >= mu_St - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:MU_ST + 1], tmp2 ]
-    elif branch.shape[1] >= QT - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:QT + 1] ]
+    if branch.shape[1] >= mu_St + 1:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:mu_St + 1], tmp2 ]
+    elif branch.shape[1] >= Qt + 1:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:Qt + 1] ]
     else:
         branch = c_[ branch[:, 0:BR_STATUS + 1], tmp ]
 
-- 
2.43.0


From 87f0b69a380457c3196e29e9f58f5f11a63486c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:31 +0000
Subject: [PATCH 41/85] fix: results saved to a MAT file could not be run again

---
 pypower/loadcase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 1861839..3583de2 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -100,6 +100,10 @@ def loadcase(casefile,
                         for k, v in d.items():
                             s[k] = v
 
+                    ## the ordering info of saved results does not survive as
+                    ## a dict, the saved data is in external order anyway
+                    s.pop('order', None)
+
                     s['baseMVA'] = s['baseMVA'][0]  # convert array to float
                     for k in ('l', 'u', 'Cw', 'z0', 'zl', 'zu'):
                         if k in s:      # vectors are stored as matrices
-- 
2.43.0


From 572844cd7cbbbef3e6110f3223ee242a1b200bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:09 +0000
Subject: [PATCH 42/85] fix: DC OPF of a case loaded from a MAT file crashed

baseMVA came back as an array instead of a number.
---
 pypower/loadcase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 3583de2..5f9297b 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -104,7 +104,7 @@ def loadcase(casefile,
                     ## a dict, the saved data is in external order anyway
                     s.pop('order', None)
 
-                    s['baseMVA'] = s['baseMVA'][0]  # convert array to float
+                    s['baseMVA'] = s['baseMVA'].item()  # convert array to float
                     for k in ('l', 'u', 'Cw', 'z0', 'zl', 'zu'):
                         if k in s:      # vectors are stored as matrices
                             s[k] = s[k].ravel()
-- 
2.43.0


From d0918728e3ee4965a352e06d7cd35a1dddca191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:06 +0000
Subject: [PATCH 43/85] fix: a failed save left its file open and half written

The Python text was written while it was being composed, so an exception in
between (bad data, a callback) left an open handle and a broken file.
---
 pypower/savecase.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index bb7433e..0843d04 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -25,9 +25,11 @@ from pypower.idx_cost import MODEL, NCOST, PW_LINEAR, POLYNOMIAL
 
 
 if not PY2:
+    from io import StringIO
     basestring = str
     writemode = "w"
 else:
+    from StringIO import StringIO
     writemode = "wb"
 
 
@@ -97,7 +99,7 @@ def savecase(fname, ppc, comment=None, version='2'):
     indent = '    '  # four spaces
     indent2 = indent + indent
 
-    ## open and write the file
+    ## write the file
     if extension == ".mat":     ## MAT-file
         ppc_mat = {}
         ppc_mat['version'] = ppc_ver
@@ -143,11 +145,8 @@ def savecase(fname, ppc, comment=None, version='2'):
 
         savemat(fname, ppc_mat)
     else:                       ## Python file
-        try:
-            fd = open(fname, writemode)
-        except Exception as detail:
-            stderr.write("savecase: %s.\n" % detail)
-            return fname
+        ## compose the text first, the file is only touched once it is complete
+        fd = StringIO()
 
         ## function header, etc.
         if ppc_ver == "1":
@@ -360,8 +359,14 @@ def savecase(fname, ppc, comment=None, version='2'):
 
         fd.write('\n%sreturn ppc\n' % indent)
 
-        ## close file
-        fd.close()
+        f = None
+        try:
+            with open(fname, writemode) as f:
+                f.write(fd.getvalue())
+        except Exception as detail:
+            if f is not None:   ## opened, but not written
+                raise
+            stderr.write("savecase: %s.\n" % detail)
 
     return fname
 
-- 
2.43.0


From d952eeb97f64aa1fe27b9e81100443aab9c7a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:29 +0000
Subject: [PATCH 44/85] fix: a truncated MAT case loaded without its costs and
 areas

---
 pypower/savecase.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index 0843d04..fd3c23d 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -143,6 +143,11 @@ def savecase(fname, ppc, comment=None, version='2'):
             if key in ppc:
                 ppc_mat[key] = array(ppc[key])
 
+        ## matrices every case needs go last, so that a truncated file lacks
+        ## one of them and is not taken for a complete case
+        for key in ppc_keys:
+            ppc_mat[key] = ppc_mat.pop(key)
+
         savemat(fname, ppc_mat)
     else:                       ## Python file
         ## compose the text first, the file is only touched once it is complete
-- 
2.43.0


From 85efd437b80b92def40dc27a22338ef58bd27734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:21 +0000
Subject: [PATCH 45/85] fix: close the report file when printing to it fails

---
 pypower/runcpf.py  | 6 ++----
 pypower/runopf.py  | 6 ++----
 pypower/runpf.py   | 6 ++----
 pypower/runuopf.py | 6 ++----
 4 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index ed2ff4f..c449c68 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -322,15 +322,13 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
                               ["status"]["off"], [PF, QF, PT, QT])] = 0
 
     if fname:
-        fd = None
         try:
             fd = open(fname, "a")
         except Exception as detail:
             stderr.write("Error opening %s: %s.\n" % (fname, detail))
-        finally:
-            if fd is not None:
+        else:
+            with fd:
                 printpf(results, fd, ppopt)
-                fd.close()
     else:
         printpf(results, stdout, ppopt)
 
diff --git a/pypower/runopf.py b/pypower/runopf.py
index 3cd2167..ec8d466 100644
--- a/pypower/runopf.py
+++ b/pypower/runopf.py
@@ -32,15 +32,13 @@ def runopf(casedata=None, ppopt=None, fname='', solvedcase=''):
 
     ##-----  output results  -----
     if fname:
-        fd = None
         try:
             fd = open(fname, "a")
         except IOError as detail:
             stderr.write("Error opening %s: %s.\n" % (fname, detail))
-        finally:
-            if fd is not None:
+        else:
+            with fd:
                 printpf(r, fd, ppopt)
-                fd.close()
 
     else:
         printpf(r, stdout, ppopt)
diff --git a/pypower/runpf.py b/pypower/runpf.py
index 9586cdc..8288467 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -317,15 +317,13 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
         results["branch"][ix_(results["order"]["branch"]["status"]["off"], [PF, QF, PT, QT])] = 0
 
     if fname:
-        fd = None
         try:
             fd = open(fname, "a")
         except Exception as detail:
             stderr.write("Error opening %s: %s.\n" % (fname, detail))
-        finally:
-            if fd is not None:
+        else:
+            with fd:
                 printpf(results, fd, ppopt)
-                fd.close()
     else:
         printpf(results, stdout, ppopt)
 
diff --git a/pypower/runuopf.py b/pypower/runuopf.py
index b996c1b..74d1219 100644
--- a/pypower/runuopf.py
+++ b/pypower/runuopf.py
@@ -32,15 +32,13 @@ def runuopf(casedata=None, ppopt=None, fname='', solvedcase=''):
 
     ##-----  output results  -----
     if fname:
-        fd = None
         try:
             fd = open(fname, "a")
         except Exception as detail:
             stderr.write("Error opening %s: %s.\n" % (fname, detail))
-        finally:
-            if fd is not None:
+        else:
+            with fd:
                 printpf(r, fd, ppopt)
-                fd.close()
 
     else:
         printpf(r, stdout, ppopt)
-- 
2.43.0


From 5e47ecff2c09ade8210a9f681e23ca9bb47d1ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:21 +0000
Subject: [PATCH 46/85] fix: do not truncate old values in set_reorder when the
 new ones are integers

---
 pypower/set_reorder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/set_reorder.py b/pypower/set_reorder.py
index fb76e43..5942435 100644
--- a/pypower/set_reorder.py
+++ b/pypower/set_reorder.py
@@ -5,7 +5,7 @@
 """Assigns B to A with one of the dimensions of A indexed.
 """
 
-from numpy import ndim
+from numpy import ndim, result_type
 
 
 def set_reorder(A, B, idx, dim=0):
@@ -20,7 +20,7 @@ def set_reorder(A, B, idx, dim=0):
     """
     A = A.copy()
     ndims = ndim(A)
-    A = A.astype(B.dtype)
+    A = A.astype(result_type(A.dtype, B.dtype))
     if ndims ==  1:
         A[idx] = B
     elif ndims == 2:
-- 
2.43.0


From 6150b72e6bc8fcfb51c3eebc0985cd20e09443d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:31 +0000
Subject: [PATCH 47/85] fix: i2e_data of sparse data with several blocks

---
 pypower/i2e_data.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pypower/i2e_data.py b/pypower/i2e_data.py
index 2620d54..16616aa 100644
--- a/pypower/i2e_data.py
+++ b/pypower/i2e_data.py
@@ -6,6 +6,8 @@ import sys
 
 from numpy import arange, concatenate
 
+from scipy.sparse import issparse, vstack, hstack
+
 from pypower.get_reorder import get_reorder
 from pypower.set_reorder import set_reorder
 
@@ -88,6 +90,15 @@ def i2e_data(ppc, val, oldval, ordering, dim=0):
         if ni > bi:              ## the rest
             v = get_reorder(val, arange(bi, ni), dim)
             new_v.append(v)
-        val = concatenate(new_v, dim)
+
+        if issparse(new_v[0]):
+            if dim == 0:
+                val = vstack(new_v, 'csr')
+            elif dim == 1:
+                val = hstack(new_v, 'csr')
+            else:
+                raise ValueError('dim (%d) may be 0 or 1' % dim)
+        else:
+            val = concatenate(new_v, dim)
 
     return val
-- 
2.43.0


From b542eab9d332fede2317cc2c0d810559f245b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:31 +0000
Subject: [PATCH 48/85] fix: e2i_data and i2e_data lost extra elements of
 single-block data

---
 pypower/e2i_data.py | 4 ++++
 pypower/i2e_data.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pypower/e2i_data.py b/pypower/e2i_data.py
index a359f9c..f3ae4b4 100644
--- a/pypower/e2i_data.py
+++ b/pypower/e2i_data.py
@@ -63,6 +63,10 @@ def e2i_data(ppc, val, ordering, dim=0):
                 'data available, call ext2int first\n')
         return
 
+    if isinstance(ordering, str) and \
+            val.shape[dim] > o["ext"][ordering].shape[0]:
+        ordering = [ordering]            ## keep the extra elements
+
     if isinstance(ordering, str):        ## single set
         if ordering == 'gen':
             idx = o[ordering]["status"]["on"][ o[ordering]["e2i"] ]
diff --git a/pypower/i2e_data.py b/pypower/i2e_data.py
index 16616aa..150ad03 100644
--- a/pypower/i2e_data.py
+++ b/pypower/i2e_data.py
@@ -68,6 +68,10 @@ def i2e_data(ppc, val, oldval, ordering, dim=0):
                 'order\n')
         return
 
+    if isinstance(ordering, str) and \
+            val.shape[dim] > ppc[ordering].shape[0]:
+        ordering = [ordering]             ## keep the extra elements
+
     if isinstance(ordering, str):         ## single set
         if ordering == 'gen':
             v = get_reorder(val, o[ordering]["i2e"], dim)
-- 
2.43.0


From 1866cda6e2d5bdc2082d71804a1f8c586061152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:41 +0000
Subject: [PATCH 49/85] fix: int2ext1 raised ValueError for cases with areas

---
 pypower/int2ext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/int2ext.py b/pypower/int2ext.py
index c06dd4d..a13334e 100644
--- a/pypower/int2ext.py
+++ b/pypower/int2ext.py
@@ -137,7 +137,7 @@ def int2ext1(i2e, bus, gen, branch, areas):
     branch[:, F_BUS] = i2e[ branch[:, F_BUS].astype(int) ]
     branch[:, T_BUS] = i2e[ branch[:, T_BUS].astype(int) ]
 
-    if areas != None and len(areas) > 0:
+    if areas is not None and len(areas) > 0:
         areas[:, PRICE_REF_BUS] = i2e[ areas[:, PRICE_REF_BUS].astype(int) ]
         return bus, gen, branch, areas
 
-- 
2.43.0


From 1da58c62da8d86ca06ec10831c568b7d2449ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:54 +0000
Subject: [PATCH 50/85] fix: e2i_field and i2e_field of a second nested field

---
 pypower/e2i_field.py | 2 +-
 pypower/i2e_field.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/e2i_field.py b/pypower/e2i_field.py
index c458190..362e69a 100644
--- a/pypower/e2i_field.py
+++ b/pypower/e2i_field.py
@@ -55,7 +55,7 @@ def e2i_field(ppc, field, ordering, dim=0):
         for fld in field:
             if fld not in v_ext:
                 v_ext[fld] = {}
-                v_ext = v_ext[fld]
+            v_ext = v_ext[fld]
 
     exec('ppc["order"]["ext"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = e2i_data(ppc, ppc%s, ordering, dim)' % (key, key))
diff --git a/pypower/i2e_field.py b/pypower/i2e_field.py
index 67c46bd..345fa85 100644
--- a/pypower/i2e_field.py
+++ b/pypower/i2e_field.py
@@ -47,7 +47,7 @@ def i2e_field(ppc, field, ordering, dim=0):
         for fld in field:
             if fld not in v_int:
                 v_int[fld] = {}
-                v_int = v_int[fld]
+            v_int = v_int[fld]
 
     exec('ppc["order"]["int"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = i2e_data(ppc, ppc%s, ppc["order"]["ext"]%s, ordering, dim)' %
-- 
2.43.0


From 5f70b133270b665e29bc72c8b3506f9df9994488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:54 +0000
Subject: [PATCH 51/85] fix: use the model returned by formulation callbacks

---
 pypower/opf_setup.py     | 2 +-
 pypower/toggle_dcline.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index dbb1f3e..695dac0 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -259,6 +259,6 @@ def opf_setup(ppc, ppopt):
         om.add_costs('usr', user_cost, user_vars)
 
     ## execute userfcn callbacks for 'formulation' stage
-    run_userfcn(userfcn, 'formulation', om)
+    om = run_userfcn(userfcn, 'formulation', om)
 
     return om
diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index a75dbcc..2f30ff4 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -272,7 +272,7 @@ def userfcn_dcline_formulation(om, args):
     Adc = hstack([sparse((ndc, ng)), spdiags(1-L1, 0, ndc, ndc), speye(ndc, ndc)], format="csr")
 
     ## add them to the model
-    om = om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
+    om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
 
     return om
 
-- 
2.43.0


From f7cc1c34e6fff471532fa8b8a8a1538c54ea035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:03 +0000
Subject: [PATCH 52/85] fix: add_userfcn registered what it reported as
 rejected

---
 pypower/add_userfcn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypower/add_userfcn.py b/pypower/add_userfcn.py
index 0c6ad70..aa2352e 100644
--- a/pypower/add_userfcn.py
+++ b/pypower/add_userfcn.py
@@ -92,6 +92,7 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
 
     if stage not in ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']:
         stderr.write('add_userfcn : \'%s\' is not the name of a valid callback stage\n' % stage)
+        return ppc
 
     n = 0
     if 'userfcn' in ppc:
@@ -101,6 +102,7 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
                 for k in range(n):
                     if ppc['userfcn'][stage][k]['fcn'] == fcn:
                         stderr.write('add_userfcn: the function \'%s\' has already been added\n' % fcn.__name__)
+                        return ppc
         else:
             ppc['userfcn'][stage] = []
     else:
-- 
2.43.0


From e6ebb418a9d447eaeca22727c1539e73ae9fab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:03 +0000
Subject: [PATCH 53/85] fix: add_userfcn with scalar or empty args

---
 pypower/add_userfcn.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pypower/add_userfcn.py b/pypower/add_userfcn.py
index aa2352e..a225502 100644
--- a/pypower/add_userfcn.py
+++ b/pypower/add_userfcn.py
@@ -87,9 +87,6 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    if args is None:
-        args = []
-
     if stage not in ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']:
         stderr.write('add_userfcn : \'%s\' is not the name of a valid callback stage\n' % stage)
         return ppc
@@ -109,7 +106,7 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
         ppc['userfcn'] = {stage: []}
 
     ppc['userfcn'][stage].append({'fcn': fcn})
-    if len(args) > 0:
+    if args is not None:
         ppc['userfcn'][stage][n]['args'] = args
 
     return ppc
-- 
2.43.0


From 81178bbd6ffc592ba577519d779414656a6bec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:16 +0000
Subject: [PATCH 54/85] fix: e2i_data and i2e_data of a vector with dim=1

---
 pypower/e2i_data.py | 3 +++
 pypower/i2e_data.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pypower/e2i_data.py b/pypower/e2i_data.py
index f3ae4b4..22d6e00 100644
--- a/pypower/e2i_data.py
+++ b/pypower/e2i_data.py
@@ -63,6 +63,9 @@ def e2i_data(ppc, val, ordering, dim=0):
                 'data available, call ext2int first\n')
         return
 
+    if val.ndim == 1:
+        dim = 0                          ## a vector has no other
+
     if isinstance(ordering, str) and \
             val.shape[dim] > o["ext"][ordering].shape[0]:
         ordering = [ordering]            ## keep the extra elements
diff --git a/pypower/i2e_data.py b/pypower/i2e_data.py
index 150ad03..15d9b8f 100644
--- a/pypower/i2e_data.py
+++ b/pypower/i2e_data.py
@@ -68,6 +68,9 @@ def i2e_data(ppc, val, oldval, ordering, dim=0):
                 'order\n')
         return
 
+    if val.ndim == 1:
+        dim = 0                          ## a vector has no other
+
     if isinstance(ordering, str) and \
             val.shape[dim] > ppc[ordering].shape[0]:
         ordering = [ordering]             ## keep the extra elements
-- 
2.43.0


From b6e2352808900793d78664e2e0dca8a95d1c73c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:55 +0000
Subject: [PATCH 55/85] fix: opf_model kept additions it had reported as
 rejected

---
 pypower/opf_model.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 6e33e83..9b51a17 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -195,7 +195,7 @@ class opf_model(object):
         if u is None:  ## nonlinear
             ## prevent duplicate named constraint sets
             if name in self.nln["idx"]["N"]:
-                stderr.write("opf_model.add_constraints: nonlinear constraint set named '%s' already exists\n" % name)
+                raise ValueError("opf_model.add_constraints: nonlinear constraint set named '%s' already exists" % name)
 
             ## add info about this nonlinear constraint set
             self.nln["idx"]["i1"][name] = self.nln["N"] #+ 1    ## starting index
@@ -212,7 +212,7 @@ class opf_model(object):
         else:                ## linear
             ## prevent duplicate named constraint sets
             if name in self.lin["idx"]["N"]:
-                stderr.write('opf_model.add_constraints: linear constraint set named ''%s'' already exists\n' % name)
+                raise ValueError('opf_model.add_constraints: linear constraint set named \'%s\' already exists' % name)
 
             if varsets is None:
                 varsets = []
@@ -229,14 +229,14 @@ class opf_model(object):
 
             ## check sizes
             if (l.shape[0] != N) or (u.shape[0] != N):
-                stderr.write('opf_model.add_constraints: sizes of A, l and u must match\n')
+                raise ValueError('opf_model.add_constraints: sizes of A, l and u must match')
 
             nv = 0
             for k in range(len(varsets)):
                 nv = nv + self.var["idx"]["N"][varsets[k]]
 
             if M != nv:
-                stderr.write('opf_model.add_constraints: number of columns of A does not match\nnumber of variables, A is %d x %d, nv = %d\n' % (N, M, nv))
+                raise ValueError('opf_model.add_constraints: number of columns of A does not match\nnumber of variables, A is %d x %d, nv = %d' % (N, M, nv))
 
             ## add info about this linear constraint set
             self.lin["idx"]["i1"][name]  = self.lin["N"] #+ 1   ## starting index
@@ -303,7 +303,7 @@ class opf_model(object):
         """
         ## prevent duplicate named cost sets
         if name in self.cost["idx"]["N"]:
-            stderr.write('opf_model.add_costs: cost set named \'%s\' already exists\n' % name)
+            raise ValueError('opf_model.add_costs: cost set named \'%s\' already exists' % name)
 
         if varsets is None:
             varsets = []
@@ -322,30 +322,30 @@ class opf_model(object):
             if nw == 0:
                 cp["N"] = sparse(nw, nx)
             else:
-                stderr.write('opf_model.add_costs: number of columns in N (%d x %d) does not match\nnumber of variables (%d)\n' % (nw, nx, nv))
+                raise ValueError('opf_model.add_costs: number of columns in N (%d x %d) does not match\nnumber of variables (%d)' % (nw, nx, nv))
 
         if cp["Cw"].shape[0] != nw:
-            stderr.write('opf_model.add_costs: number of rows of Cw (%d x %d) and N (%d x %d) must match\n' % (cp["Cw"].shape[0], nw, nx))
+            raise ValueError('opf_model.add_costs: number of rows of Cw (%d) and N (%d x %d) must match' % (cp["Cw"].shape[0], nw, nx))
 
         if 'H' in cp:
             if (cp["H"].shape[0] != nw) | (cp["H"].shape[1] != nw):
-                stderr.write('opf_model.add_costs: both dimensions of H (%d x %d) must match the number of rows in N (%d x %d)\n' % (cp["H"].shape, nw, nx))
+                raise ValueError('opf_model.add_costs: both dimensions of H (%d x %d) must match the number of rows in N (%d x %d)' % (cp["H"].shape + (nw, nx)))
 
         if 'dd' in cp:
             if cp["dd"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of dd (%d x %d) and N (%d x %d) must match\n' % (cp["dd"].shape, nw, nx))
+                raise ValueError('opf_model.add_costs: number of rows of dd (%d) and N (%d x %d) must match' % (cp["dd"].shape[0], nw, nx))
 
         if 'rh' in cp:
             if cp["rh"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of rh (%d x %d) and N (%d x %d) must match\n' % (cp["rh"].shape, nw, nx))
+                raise ValueError('opf_model.add_costs: number of rows of rh (%d) and N (%d x %d) must match' % (cp["rh"].shape[0], nw, nx))
 
         if 'kk' in cp:
             if cp["kk"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of kk (%d x %d) and N (%d x %d) must match\n' % (cp["kk"].shape, nw, nx))
+                raise ValueError('opf_model.add_costs: number of rows of kk (%d) and N (%d x %d) must match' % (cp["kk"].shape[0], nw, nx))
 
         if 'mm' in cp:
             if cp["mm"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of mm (%d x %d) and N (%d x %d) must match\n' % (cp["mm"].shape, nw, nx))
+                raise ValueError('opf_model.add_costs: number of rows of mm (%d) and N (%d x %d) must match' % (cp["mm"].shape[0], nw, nx))
 
         ## add info about this user cost set
         self.cost["idx"]["i1"][name]  = self.cost["N"] #+ 1     ## starting index
@@ -389,7 +389,7 @@ class opf_model(object):
         """
         ## prevent duplicate named var sets
         if name in self.var["idx"]["N"]:
-            stderr.write('opf_model.add_vars: variable set named ''%s'' already exists\n' % name)
+            raise ValueError('opf_model.add_vars: variable set named \'%s\' already exists' % name)
 
         if v0 is None or len(v0) == 0:
             v0 = zeros(N)           ## init to zero by default
-- 
2.43.0


From 7587b0b52c98dbe86167e75f76e94d05b94fa43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:55 +0000
Subject: [PATCH 56/85] fix: sets over all variables changed when more were
 added

---
 pypower/opf_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 9b51a17..cf88864 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -225,7 +225,7 @@ class opf_model(object):
                 u = inf * ones(N)
 
             if len(varsets) == 0:
-                varsets = self.var["order"]
+                varsets = list(self.var["order"])
 
             ## check sizes
             if (l.shape[0] != N) or (u.shape[0] != N):
@@ -309,7 +309,7 @@ class opf_model(object):
             varsets = []
 
         if len(varsets) == 0:
-            varsets = self.var["order"]
+            varsets = list(self.var["order"])
 
         nw, nx = cp["N"].shape
 
-- 
2.43.0


From 360e0c6aedda818ce64165d7bf0bc0390a12d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:55 +0000
Subject: [PATCH 57/85] fix: get_cost_params of a named set changed the model

---
 pypower/opf_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index cf88864..c529ee6 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -584,10 +584,10 @@ class opf_model(object):
         if not 'params' in self.cost:
             stderr.write('opf_model.get_cost_params: must call build_cost_params first\n')
 
-        cp = self.cost["params"]
+        cp = dict(self.cost["params"])
 
         if name is not None:
-            if self.getN('cost', name):
+            if name in self.cost["idx"]["N"]:
                 idx = arange(self.cost["idx"]["i1"][name], self.cost["idx"]["iN"][name])
                 nwa = self.cost["idx"]["i1"][name]
                 nwb = self.cost["idx"]["iN"][name]
-- 
2.43.0


From 488e1a583bfcdf47150be7c4b5188761e595f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:49 +0000
Subject: [PATCH 58/85] fix: opf_model cost parameters without rows

---
 pypower/opf_model.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index c529ee6..5e0a3ec 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -320,7 +320,7 @@ class opf_model(object):
 
         if nx != nv:
             if nw == 0:
-                cp["N"] = sparse(nw, nx)
+                cp = dict(cp, N=sparse((nw, nv)))
             else:
                 raise ValueError('opf_model.add_costs: number of columns in N (%d x %d) does not match\nnumber of variables (%d)' % (nw, nx, nv))
 
@@ -438,7 +438,6 @@ class opf_model(object):
 #            if name in self.cost["data"]["H"]:
 #                nnzH = nnzH + nnz(self.cost["data"]["H"][name])
 
-        ## FIXME Zero dimensional sparse matrices
         N = zeros((nw, self.var["N"]))
         H = zeros((nw, nw))  ## default => no quadratic term
 
@@ -480,9 +479,8 @@ class opf_model(object):
                 if name in self.cost["data"]["mm"]:
                     mm[i1:iN] = self.cost["data"]["mm"][name]
 
-        if nw:
-            N = sparse(N)
-            H = sparse(H)
+        N = sparse(N)
+        H = sparse(H)
 
         ## save in object
         self.cost["params"] = {
-- 
2.43.0


From c2126ed67b818ebb7b1275afd54c29925e9e1e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:10 +0000
Subject: [PATCH 59/85] fix: pips filled the caller's option dict with its
 defaults

---
 pypower/pips.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/pips.py b/pypower/pips.py
index a94c5c8..adb6746 100644
--- a/pypower/pips.py
+++ b/pypower/pips.py
@@ -197,7 +197,7 @@ def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None,
     else:
         nonlinear = True
 
-    if opt is None: opt = {}
+    opt = {} if opt is None else dict(opt)  ## the defaults are not for the caller
     # options
     if "feastol" not in opt:
         opt["feastol"] = 1e-06
-- 
2.43.0


From 920beedc56230e8ec57e0ad479df95d0770dce5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:10 +0000
Subject: [PATCH 60/85] fix: qps_pips changed the caller's problem dict

---
 pypower/qps_pips.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/qps_pips.py b/pypower/qps_pips.py
index 4c90520..06961be 100644
--- a/pypower/qps_pips.py
+++ b/pypower/qps_pips.py
@@ -126,7 +126,7 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
     @author: Ray Zimmerman (PSERC Cornell)
     """
     if isinstance(H, dict):
-        p = H
+        p = dict(H)                  ## the problem of the caller stays as it is
     else:
         p = {'H': H, 'c': c, 'A': A, 'l': l, 'u': u}
         if xmin is not None: p['xmin'] = xmin
-- 
2.43.0


From 9ef692da2ae9336e0de04424473d5cd94415f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:29 +0000
Subject: [PATCH 61/85] fix: qps_pips on problems with absent parts

---
 pypower/qps_pips.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/pypower/qps_pips.py b/pypower/qps_pips.py
index 06961be..e05a381 100644
--- a/pypower/qps_pips.py
+++ b/pypower/qps_pips.py
@@ -134,31 +134,31 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
         if x0 is not None: p['x0'] = x0
         if opt is not None: p['opt'] = opt
 
-    if 'H' not in p or p['H'] == None:#p['H'].nnz == 0:
-        if p['A'] is None or p['A'].nnz == 0 and \
-           'xmin' not in p and \
-           'xmax' not in p:
-#           'xmin' not in p or len(p['xmin']) == 0 and \
-#           'xmax' not in p or len(p['xmax']) == 0:
-            print('qps_pips: LP problem must include constraints or variable bounds')
-            return
+    for k in ['H', 'c', 'A', 'l', 'u', 'xmin', 'xmax', 'x0']:
+        p.setdefault(k, None)
+
+    if p['H'] is None:
+        if (p['A'] is None or p['A'].nnz == 0) and \
+           (p['xmin'] is None or len(p['xmin']) == 0) and \
+           (p['xmax'] is None or len(p['xmax']) == 0):
+            raise ValueError('qps_pips: LP problem must include constraints '
+                             'or variable bounds')
+        if p['A'] is not None:
+            nx = p['A'].shape[1]
+        elif p['xmin'] is not None and len(p['xmin']) > 0:
+            nx = len(p['xmin'])
         else:
-            if p['A'] is not None and p['A'].nnz >= 0:
-                nx = p['A'].shape[1]
-            elif 'xmin' in p and len(p['xmin']) > 0:
-                nx = p['xmin'].shape[0]
-            elif 'xmax' in p and len(p['xmax']) > 0:
-                nx = p['xmax'].shape[0]
+            nx = len(p['xmax'])
         p['H'] = sparse((nx, nx))
     else:
         nx = p['H'].shape[0]
 
-    p['xmin'] = -inf * ones(nx) if 'xmin' not in p else p['xmin']
-    p['xmax'] =  inf * ones(nx) if 'xmax' not in p else p['xmax']
+    p['xmin'] = -inf * ones(nx) if p['xmin'] is None else p['xmin']
+    p['xmax'] =  inf * ones(nx) if p['xmax'] is None else p['xmax']
 
     p['c'] = zeros(nx) if p['c'] is None else p['c']
 
-    p['x0'] = zeros(nx) if 'x0' not in p else p['x0']
+    p['x0'] = zeros(nx) if p['x0'] is None else p['x0']
 
     def qp_f(x, return_hessian=False):
         f = 0.5 * dot(x * p['H'], x) + dot(p['c'], x)
-- 
2.43.0


From ed5df7f0eff767c313d517d616b76febdd15ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:29 +0000
Subject: [PATCH 62/85] fix: qps_pypower completed the caller's pips_opt and
 took max_it=0 literally

---
 pypower/qps_pypower.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index 8ece5e7..aceba09 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -167,12 +167,10 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
     ##----- call the appropriate solver  -----
     if alg == 200 or alg == 250:    ## use MIPS or sc-MIPS
         ## set up options
-        if 'pips_opt' in opt:
-            pips_opt = opt['pips_opt']
-        else:
-            pips_opt = {}
+        ## a copy, the options are completed below
+        pips_opt = dict(opt['pips_opt']) if opt.get('pips_opt') else {}
 
-        if 'max_it' in opt:
+        if opt.get('max_it'):       ## 0 means the default of the solver
             pips_opt['max_it'] = opt['max_it']
 
         if alg == 200:
-- 
2.43.0


From 989bda08a58bd50677ab94a1a7f995348d24d74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:45 +0000
Subject: [PATCH 63/85] fix: problem dicts of qps_pips and qps_pypower without
 H or dummy arguments

---
 pypower/qps_pips.py    | 2 +-
 pypower/qps_pypower.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/qps_pips.py b/pypower/qps_pips.py
index e05a381..a5307f2 100644
--- a/pypower/qps_pips.py
+++ b/pypower/qps_pips.py
@@ -14,7 +14,7 @@ from scipy.sparse import csr_matrix as sparse
 from pypower.pips import pips
 
 
-def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
+def qps_pips(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None, x0=None, opt=None):
     """Uses the Python Interior Point Solver (PIPS) to solve the following
     QP (quadratic programming) problem::
 
diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index aceba09..729ef90 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -127,7 +127,7 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
         if 'l' in p: l = p['l']
         if 'A' in p: A = p['A']
         if 'c' in p: c = p['c']
-        if 'H' in p: H = p['H']
+        H = p['H'] if 'H' in p else None
     else:                         ## individual args
 #        assert H is not None  zero dimensional sparse matrices not supported
         assert c is not None
-- 
2.43.0


From ebd8d11d97489d40cd3162bebf9bbb218599e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:08 +0000
Subject: [PATCH 64/85] fix: pips claimed convergence on non-finite constraint
 values

---
 pypower/pips.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pypower/pips.py b/pypower/pips.py
index adb6746..21fb072 100644
--- a/pypower/pips.py
+++ b/pypower/pips.py
@@ -5,7 +5,7 @@
 """Python Interior Point Solver (PIPS).
 """
 from math import inf
-from numpy import array, any, isnan, ones, r_, finfo, \
+from numpy import array, all, any, isnan, isfinite, ones, r_, finfo, \
     zeros, dot, absolute, log, flatnonzero as find
 
 from numpy.linalg import norm
@@ -351,7 +351,8 @@ def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None,
                  feascond, gradcond, compcond, costcond))
 
     if feascond < opt["feastol"] and gradcond < opt["gradtol"] and \
-        compcond < opt["comptol"] and costcond < opt["costtol"]:
+        compcond < opt["comptol"] and costcond < opt["costtol"] and \
+        isfinite(f) and all(isfinite(x)) and all(isfinite(h)):
         converged = True
         if opt["verbose"]:
             print("Converged!")
@@ -566,7 +567,8 @@ def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None,
                  compcond, costcond))
 
         if feascond < opt["feastol"] and gradcond < opt["gradtol"] and \
-            compcond < opt["comptol"] and costcond < opt["costtol"]:
+            compcond < opt["comptol"] and costcond < opt["costtol"] and \
+        isfinite(f) and all(isfinite(x)) and all(isfinite(h)):
             converged = True
             if opt["verbose"]:
                 print("Converged!")
-- 
2.43.0


From c7a41c9d1d35ed6dbed43af31f81235c6a1d0210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:36 +0000
Subject: [PATCH 65/85] fix: pips accepts an objective that always returns its
 Hessian, as documented

---
 pypower/pips.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/pips.py b/pypower/pips.py
index 21fb072..1667b99 100644
--- a/pypower/pips.py
+++ b/pypower/pips.py
@@ -258,7 +258,7 @@ def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None,
 
     # evaluate cost f(x0) and constraints g(x0), h(x0)
     x = x0
-    f, df = f_fcn(x)                 # cost
+    f, df = f_fcn(x)[:2]              # cost
     f = f * opt["cost_mult"]
     df = df * opt["cost_mult"]
     if nonlinear:
@@ -407,7 +407,7 @@ def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None,
             x1 = x + dx
 
             # evaluate cost, constraints, derivatives at x1
-            f1, df1 = f_fcn(x1)          # cost
+            f1, df1 = f_fcn(x1)[:2]       # cost
             f1 = f1 * opt["cost_mult"]
             df1 = df1 * opt["cost_mult"]
             if nonlinear:
@@ -465,7 +465,7 @@ def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None,
             for j in range(opt["max_red"]):
                 dx1 = alpha * dx
                 x1 = x + dx1
-                f1, _ = f_fcn(x1)             # cost
+                f1, _ = f_fcn(x1)[:2]          # cost
                 f1 = f1 * opt["cost_mult"]
                 if nonlinear:
                     hn1, gn1, _, _ = gh_fcn(x1)              # nonlinear constraints
@@ -504,7 +504,7 @@ def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None,
             gamma = sigma * dot(z, mu) / niq
 
         # evaluate cost, constraints, derivatives
-        f, df = f_fcn(x)             # cost
+        f, df = f_fcn(x)[:2]          # cost
         f = f * opt["cost_mult"]
         df = df * opt["cost_mult"]
         if nonlinear:
-- 
2.43.0


From e069332bdce8d67143d58dbc63acf569b82e2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:56 +0000
Subject: [PATCH 66/85] fix: gausspf changed the injections it was given

---
 pypower/gausspf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/gausspf.py b/pypower/gausspf.py
index 2ca8b2b..a8c6cba 100644
--- a/pypower/gausspf.py
+++ b/pypower/gausspf.py
@@ -47,6 +47,7 @@ def gausspf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
     converged = 0
     i = 0
     V = V0.copy()
+    Sbus = Sbus.copy()      ## reactive injections are updated below
     #Va = angle(V)
     Vm = abs(V)
 
-- 
2.43.0


From e0e802246936ae4d064a3a7e0201c97660b8e203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:39 +0000
Subject: [PATCH 67/85] fix: runcpf refuses a step that is not positive

---
 pypower/runcpf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index c449c68..70fbc8e 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -45,6 +45,8 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     # options
     verbose = ppopt["VERBOSE"]
     step = ppopt["CPF_STEP"]
+    if not step > 0:        # the continuation would never get anywhere
+        raise ValueError('runcpf: CPF_STEP must be positive, not %g' % step)
     parameterization = ppopt["CPF_PARAMETERIZATION"]
     adapt_step = ppopt["CPF_ADAPT_STEP"]
     cb_args = ppopt["CPF_USER_CALLBACK_ARGS"]
-- 
2.43.0


From b0c7200bbc88f0bbadae2b8b16a213c5db0fcf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:25 +0000
Subject: [PATCH 68/85] fix: cost Hessian of an OPF without user costs

---
 pypower/opf_costfcn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index dc90e6e..ab40253 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -160,7 +160,7 @@ def opf_costfcn(x, om, return_hessian=False):
     d2f = sparse((r_[d2f_dPg2, d2f_dQg2], (i, i)), (nxyz, nxyz))
 
     ## generalized cost
-    if N is not None and issparse(N):
+    if issparse(N) and N.nnz > 0:
         d2f = d2f + AA * H * AA.T + 2 * N.T * M * QQ * \
                 sparse((HwC, (range(nw), range(nw))), (nw, nw)) * N
 
-- 
2.43.0


From fe3ede6ef632c8297dff97f8bf261862b8ff2ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:10 +0000
Subject: [PATCH 69/85] fix: DC lines in power flow, with costs, out of service
 lines and saving

---
 pypower/idx_dcline.py    |   3 +
 pypower/toggle_dcline.py | 129 ++++++++++++++++++++-------------------
 pypower/util.py          |  19 ++++++
 3 files changed, 87 insertions(+), 64 deletions(-)

diff --git a/pypower/idx_dcline.py b/pypower/idx_dcline.py
index 0530517..d0c4829 100644
--- a/pypower/idx_dcline.py
+++ b/pypower/idx_dcline.py
@@ -71,3 +71,6 @@ c = {
     'MU_QMINT': 21,     ## Kuhn-Tucker multiplier on lower VAr lim at  "to"  bus (u/MVAr)
     'MU_QMAXT': 22      ## Kuhn-Tucker multiplier on upper VAr lim at  "to"  bus (u/MVAr)
 }
+
+## the same indices as module constants, as in the other idx modules
+globals().update(c)
diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 2f30ff4..a9405e4 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -15,12 +15,13 @@ from pypower import idx_dcline
 from pypower.add_userfcn import add_userfcn
 from pypower.remove_userfcn import remove_userfcn
 from pypower.isload import isload
+from pypower.util import write_array
 
 from pypower.idx_gen import MBASE, GEN_STATUS, PMIN, PMAX, GEN_BUS, PG, QG, \
     VG, QMIN, QMAX, MU_QMIN, MU_PMAX, MU_PMIN, MU_QMAX
 
 from pypower.idx_bus import BUS_TYPE, REF, PV
-from pypower.idx_cost import MODEL, POLYNOMIAL, NCOST
+from pypower.idx_cost import MODEL, POLYNOMIAL, NCOST, COST
 
 
 def toggle_dcline(ppc, on_off):
@@ -58,7 +59,7 @@ def toggle_dcline(ppc, on_off):
 
         if 'dcline' not in ppc or ppc['dcline'].shape[1] < c["LOSS1"] + 1:
             raise ValueError('toggle_dcline: case must contain a '
-                    '\'dcline\' field, an ndc x %d matrix.', c["LOSS1"])
+                    '\'dcline\' field, an ndc x %d matrix.' % (c["LOSS1"] + 1))
 
         if 'dclinecost' in ppc and ppc['dcline'].shape[0] != ppc['dclinecost'].shape[0]:
             raise ValueError('toggle_dcline: number of rows in \'dcline\''
@@ -66,10 +67,10 @@ def toggle_dcline(ppc, on_off):
                 (ppc['dcline'].shape[0], ppc['dclinecost'].shape[0]))
 
         k = find(ppc['dcline'][:, c["LOSS1"]] < 0)
-        if len(k) > 0:
+        for i in k:
             warn('toggle_dcline: linear loss term is negative for DC line '
                    'from bus %d to %d\n' %
-                  ppc['dcline'][k, c['F_BUS']:c['T_BUS'] + 1].T)
+                  tuple(ppc['dcline'][i, c['F_BUS']:c['T_BUS'] + 1]))
 
         ## add callback functions
         ## note: assumes all necessary data included in 1st arg (ppc, om, results)
@@ -129,8 +130,8 @@ def userfcn_dcline_ext2int(ppc, args):
     o = ppc['order']
 
     ##-----  convert stuff to internal indexing  -----
-    dc[:, c['F_BUS']] = o['bus']['e2i'][dc[:, c['F_BUS']]]
-    dc[:, c['T_BUS']] = o['bus']['e2i'][dc[:, c['T_BUS']]]
+    dc[:, c['F_BUS']] = o['bus']['e2i'][dc[:, c['F_BUS']].astype(int)]
+    dc[:, c['T_BUS']] = o['bus']['e2i'][dc[:, c['T_BUS']].astype(int)]
     ppc['dcline'] = dc
 
     ##-----  create gens to represent DC line terminals  -----
@@ -181,8 +182,8 @@ def userfcn_dcline_ext2int(ppc, args):
 
     ## set all terminal buses to PV (except ref bus)
     refbus = find(ppc['bus'][:, BUS_TYPE] == REF)
-    ppc['bus'][dc[:, c['F_BUS']], BUS_TYPE] = PV
-    ppc['bus'][dc[:, c['T_BUS']], BUS_TYPE] = PV
+    ppc['bus'][dc[:, c['F_BUS']].astype(int), BUS_TYPE] = PV
+    ppc['bus'][dc[:, c['T_BUS']].astype(int), BUS_TYPE] = PV
     ppc['bus'][refbus, BUS_TYPE] = REF
 
     ## append dummy gens
@@ -195,37 +196,35 @@ def userfcn_dcline_ext2int(ppc, args):
             ndccc = dcc.shape[1]           ## number of dclinecost columns
             ccc = max(r_[ngcc, ndccc])     ## number of columns in new gencost
             if ccc > ngcc:                 ## right zero-pad gencost
-                ppc.gencost = c_[ppc['gencost'], zeros(ngcr, ccc-ngcc)]
+                ppc['gencost'] = c_[ppc['gencost'], zeros((ngcr, ccc - ngcc))]
 
             ## flip function across vertical axis and append to gencost
             ## (PF for DC line = -PG for dummy gen at "from" bus)
             for k in range(ndc):
+                nc = int(dcc[k, NCOST])
                 if dcc[k, MODEL] == POLYNOMIAL:
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(nc + 1)]
+                    temp = dcc[k, COST:COST + nc].copy()
                     ## flip sign on coefficients of odd terms
                     ## (every other starting with linear term,
                     ##  that is, the next to last one)
-#                    temp((nc-1):-2:1) = -temp((nc-1):-2:1)
-                    temp[range(nc, 0, -2)] = -temp[range(nc, 0, -2)]
+                    temp[-2::-2] = -temp[-2::-2]
                 else:  ## dcc(k, MODEL) == PW_LINEAR
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(2*nc + 1)]
+                    temp = dcc[k, COST:COST + 2 * nc].copy()
                     ## switch sign on horizontal coordinate
-                    xx = -temp[range(0, 2 * nc + 1, 2)]
-                    yy =  temp[range(1, 2 * nc + 1, 2)]
-                    temp[range(0, 2*nc + 1, 2)] = xx[-1::-1]
-                    temp[range(1, 2*nc + 1, 2)] = yy[-1::-1]
+                    xx = -temp[0::2]
+                    yy =  temp[1::2].copy()
+                    temp[0::2] = xx[::-1]
+                    temp[1::2] = yy[::-1]
 
-                padding = zeros(ccc - NCOST - len(temp))
-                gck = c_[dcc[k, :NCOST + 1], temp, padding]
+                padding = zeros(ccc - COST - len(temp))
+                gck = r_[dcc[k, :COST], temp, padding]
 
                 ## append to gencost
-                ppc['gencost'] = r_[ppc['gencost'], gck]
+                ppc['gencost'] = r_[ppc['gencost'], [gck]]
 
             ## use zero cost on "to" end gen
-            tgc = ones((ndc, 1)) * [2, 0, 0, 2, zeros(ccc-4)]
-            ppc['gencost'] = c_[ppc['gencost'], tgc]
+            tgc = ones((ndc, 1)) * r_[[2, 0, 0, 2], zeros(ccc - 4)]
+            ppc['gencost'] = r_[ppc['gencost'], tgc]
         else:
             ## use zero cost as default
             dcgc = ones((2 * ndc, 1)) * concatenate([array([2, 0, 0, 2]), zeros(ngcc-4)])
@@ -293,7 +292,7 @@ def userfcn_dcline_int2ext(results, args):
 
     ## initialize some things
     o = results['order']
-    k = find(o['ext']['dcline'][:, c['BR_STATUS']])
+    k = find(o['ext']['dcline'][:, c['BR_STATUS']] > 0)
     ndc = len(k)                    ## number of in-service DC lines
     ng  = results['gen'].shape[0] - 2*ndc; ## number of original gens/disp loads
 
@@ -305,7 +304,8 @@ def userfcn_dcline_int2ext(results, args):
     #results['gen']     = results['gen'][:ng + 1, :]
     #results['gencost'] = results['gencost'][:ng + 1, :]
     results['gen']     = results['gen'][:ng, :]
-    results['gencost'] = results['gencost'][:ng, :]
+    if 'gencost' in results and len(results['gencost']) > 0:
+        results['gencost'] = results['gencost'][:ng, :]
 
     ## get the solved flows
     results['dcline'][:, c['PF']] = -fg[:, PG]
@@ -314,8 +314,10 @@ def userfcn_dcline_int2ext(results, args):
     results['dcline'][:, c['QT']] =  tg[:, QG]
     results['dcline'][:, c['VF']] =  fg[:, VG]
     results['dcline'][:, c['VT']] =  tg[:, VG]
-    if fg.shape[1] >= MU_QMIN:
-        results['dcline'] = c_[results['dcline'], zeros((ndc, 6))]
+    nmu = c['MU_QMAXT'] + 1
+    if fg.shape[1] > MU_QMIN:
+        results['dcline'] = c_[results['dcline'],
+                zeros((ndc, max(0, nmu - results['dcline'].shape[1])))]
         results['dcline'][:, c['MU_PMIN'] ] = fg[:, MU_PMAX] + tg[:, MU_PMIN]
         results['dcline'][:, c['MU_PMAX'] ] = fg[:, MU_PMIN] + tg[:, MU_PMAX]
         results['dcline'][:, c['MU_QMINF']] = fg[:, MU_QMIN]
@@ -323,17 +325,22 @@ def userfcn_dcline_int2ext(results, args):
         results['dcline'][:, c['MU_QMINT']] = tg[:, MU_QMIN]
         results['dcline'][:, c['MU_QMAXT']] = tg[:, MU_QMAX]
 
-    results['order']['int'] = {}
     ##-----  convert stuff back to external indexing  -----
-    results['order']['int']['dcline'] = results['dcline']  ## save internal version
+    if 'int' not in o:
+        o['int'] = {}
+    o['int']['dcline'] = results['dcline']  ## save internal version
     ## copy results to external version
     o['ext']['dcline'][k, c['PF']:c['VT'] + 1] = results['dcline'][:, c['PF']:c['VT'] + 1]
-    if results['dcline'].shape[1] == c['MU_QMAXT'] + 1:
-        o['ext']['dcline'] = c_[o['ext']['dcline'], zeros((ndc, 6))]
+    if results['dcline'].shape[1] >= nmu:
+        nc = o['ext']['dcline'].shape
+        o['ext']['dcline'] = c_[o['ext']['dcline'],
+                zeros((nc[0], max(0, nmu - nc[1])))]
         o['ext']['dcline'][k, c['MU_PMIN']:c['MU_QMAXT'] + 1] = \
                 results['dcline'][:, c['MU_PMIN']:c['MU_QMAXT'] + 1]
 
     results['dcline'] = o['ext']['dcline']            ## use external version
+    if 'dclinecost' in o['ext']:
+        results['dclinecost'] = o['ext']['dclinecost']
 
     return results
 
@@ -368,7 +375,11 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
     ##-----  print results  -----
     dc = results['dcline']
     ndc = dc.shape[0]
-    kk = find(dc[:, c['BR_STATUS']] != 0)
+    kk = find(dc[:, c['BR_STATUS']] > 0)
+    if dc.shape[1] > c['MU_PMAX']:
+        mu_pmin, mu_pmax = dc[:, c['MU_PMIN']], dc[:, c['MU_PMAX']]
+    else:                           ## power flow, no multipliers
+        mu_pmin = mu_pmax = zeros(ndc)
     if OUT_BRANCH:
         fd.write('\n================================================================================')
         fd.write('\n|     DC Line Data                                                             |')
@@ -378,21 +389,21 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
         fd.write('\n------  ------  ------  ---------  ---------  ---------  ---------  ---------')
         loss = 0
         for k in range(ndc):
-            if dc[k, c['BR_STATUS']]:   ## status on
+            if dc[k, c['BR_STATUS']] > 0:   ## status on
                 fd.write('\n{0:5.0f}{1:8.0f}{2:8.0f}{3:11.2f}{4:11.2f}{5:11.2f}{6:11.2f}{7:11.2f}'.format(*r_[k, dc[k, c['F_BUS']:c['T_BUS'] + 1], dc[k, c['PF']:c['PT'] + 1],dc[k, c['PF']] - dc[k, c['PT']], dc[k, c['QF']:c['QT'] + 1]]))
 
                 loss = loss + dc[k, c['PF']] - dc[k, c['PT']]
             else:
                 fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                            (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                            (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n                                              ---------')
         fd.write('\n                                     Total:{0:11.2f}\n'.format(loss))
 
     if OUT_LINE_LIM == 2 or (OUT_LINE_LIM == 1 and
             (any(dc[kk, c['PF']] > dc[kk, c['PMAX']] - ctol) or
-             any(dc[kk, c['MU_PMIN']] > ptol) or
-             any(dc[kk, c['MU_PMAX']] > ptol))):
+             any(mu_pmin[kk] > ptol) or
+             any(mu_pmax[kk] > ptol))):
         fd.write('\n================================================================================')
         fd.write('\n|     DC Line Constraints                                                      |')
         fd.write('\n================================================================================')
@@ -402,26 +413,26 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
         for k in range(ndc):
             if OUT_LINE_LIM == 2 or (OUT_LINE_LIM == 1 and
                     (dc[k, c['PF']] > dc[k, c['PMAX']] - ctol or
-                     dc[k, c['MU_PMIN']] > ptol or
-                     dc[k, c['MU_PMAX']] > ptol)):
-                if dc[k, c['BR_STATUS']]:   ## status on
+                     mu_pmin[k] > ptol or
+                     mu_pmax[k] > ptol)):
+                if dc[k, c['BR_STATUS']] > 0:   ## status on
                     fd.write('\n{0:5.0f}{1:8.0f}{2:8.0f}'.format(*r_[k, dc[k, c['F_BUS']:c['T_BUS'] + 1]]))
                     #fd.write('\n%5d%8d%8d' % (k + 1, dc[k, c['F_BUS']:c['T_BUS'] + 1] ))
-                    if dc[k, c['MU_PMIN']] > ptol:
-                        fd.write('{0:11.3f}'.format(dc[k, c['MU_PMIN']]) )
+                    if mu_pmin[k] > ptol:
+                        fd.write('{0:11.3f}'.format(mu_pmin[k]) )
                     else:
                         fd.write('%11s' % ('-  '))
 
                     fd.write('{0:11.2f}{1:11.2f}{2:11.2f}' \
                                 .format(*r_[dc[k, c['PMIN']], dc[k, c['PF']], dc[k, c['PMAX']]]))
-                    if dc[k, c['MU_PMAX']] > ptol:
-                        fd.write('{0:11.3f}'.format(dc[k, c['MU_PMAX']]))
+                    if mu_pmax[k] > ptol:
+                        fd.write('{0:11.3f}'.format(mu_pmax[k]))
                     else:
                         fd.write('%11s' % ('-  '))
 
                 else:
                     fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                                (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                                (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n')
 
@@ -433,26 +444,16 @@ def userfcn_dcline_savecase(ppc, fd, prefix, args):
     """This is the 'savecase' stage userfcn callback that prints the Py-file
     code to save the 'dcline' field in the case file. It expects a
     PYPOWER case dict (ppc), a file descriptor and variable prefix
-    (usually 'ppc.'). The optional args are not currently used.
+    (usually 'ppc'). The optional args are not currently used.
     """
-    ## define named indices into data matrices
-    c = idx_dcline.c
-
     ## save it
-    ncols = ppc['dcline'].shape[1]
-    fd.write('\n####-----  DC Line Data  -----####\n')
-    if ncols < c['MU_QMAXT']:
-        fd.write('##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\n')
-    else:
-        fd.write('##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\tmuPmin\tmuPmax\tmuQminF\tmuQmaxF\tmuQminT\tmuQmaxT\n')
-
-    template = '\t%d\t%d\t%d\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g'
-    if ncols == c['MU_QMAXT'] + 1:
-        template = [template, '\t%.4f\t%.4f\t%.4f\t%.4f\t%.4f\t%.4f']
-
-    template = template + ';\n'
-    fd.write('%sdcline = [\n' % prefix)
-    fd.write(template, ppc['dcline'].T)
-    fd.write('];\n')
+    fd.write('\n    ##-----  DC Line Data  -----##\n')
+    fd.write('    # fbus tbus status Pf Pt Qf Qt Vf Vt Pmin Pmax QminF QmaxF QminT QmaxT loss0 loss1')
+    if ppc['dcline'].shape[1] > idx_dcline.c['MU_QMAXT']:
+        fd.write(' muPmin muPmax muQminF muQmaxF muQminT muQmaxT')
+    fd.write('\n')
+    write_array(fd, "%s['dcline']" % prefix, ppc['dcline'])
+    if 'dclinecost' in ppc:
+        write_array(fd, "%s['dclinecost']" % prefix, ppc['dclinecost'])
 
     return ppc
diff --git a/pypower/util.py b/pypower/util.py
index efc7b2d..9e6048c 100644
--- a/pypower/util.py
+++ b/pypower/util.py
@@ -5,6 +5,8 @@
 """PYPOWER utilities.
 """
 
+from numpy import asarray
+
 
 def sub2ind(shape, I, J, row_major=False):
     """Returns the linear indices of subscripts
@@ -30,3 +32,20 @@ def have_fcn(name):
         return True
     except ImportError:
         return False
+
+
+def write_array(fd, name, val):
+    """Writes the assignment of a vector or matrix to C{name} as Python code,
+    for 'savecase' userfcn callbacks.
+    """
+    val = asarray(val, float)
+    fd.write('    %s = array([\n' % name)
+    for row in val:
+        if val.ndim == 1:
+            fd.write('        %.9g,\n' % row)
+        else:
+            fd.write('        [%s],\n' % ', '.join('%.9g' % x for x in row))
+    if val.ndim == 2 and val.shape[0] == 0:
+        fd.write('    ]).reshape((0, %d))\n' % val.shape[1])
+    else:
+        fd.write('    ])\n')
-- 
2.43.0


From 8ee7d6d83336db73bf777b272f862527de332064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:10 +0000
Subject: [PATCH 70/85] fix: reserve data checks raise, reserve data can be
 saved

---
 pypower/toggle_reserves.py | 83 ++++++++++++++------------------------
 1 file changed, 30 insertions(+), 53 deletions(-)

diff --git a/pypower/toggle_reserves.py b/pypower/toggle_reserves.py
index 0269cab..c2e58e6 100644
--- a/pypower/toggle_reserves.py
+++ b/pypower/toggle_reserves.py
@@ -8,10 +8,6 @@ from pypower.i2e_data import i2e_data
 """Enable or disable fixed reserve requirements.
 """
 
-from sys import stderr
-
-from pprint import pprint
-
 from numpy import zeros, ones, arange, inf, any, flatnonzero as find
 
 from scipy.sparse import eye as speye
@@ -22,6 +18,7 @@ from pypower.add_userfcn import add_userfcn
 from pypower.remove_userfcn import remove_userfcn
 from pypower.ext2int import ext2int
 from pypower.int2ext import int2ext
+from pypower.util import write_array
 from pypower.idx_gen import RAMP_10, PMAX, GEN_STATUS, GEN_BUS
 
 
@@ -65,11 +62,11 @@ def toggle_reserves(ppc, on_off):
     """
     if on_off == 'on':
         ## check for proper reserve inputs
-        if ('reserves' not in ppc) | (not isinstance(ppc['reserves'], dict)) | \
-                ('zones' not in ppc['reserves']) | \
-                ('req' not in ppc['reserves']) | \
-                ('cost' not in ppc['reserves']):
-            stderr.write('toggle_reserves: case must contain a \'reserves\' field, a struct defining \'zones\', \'req\' and \'cost\'\n')
+        if not isinstance(ppc.get('reserves'), dict) or \
+                'zones' not in ppc['reserves'] or \
+                'req' not in ppc['reserves'] or \
+                'cost' not in ppc['reserves']:
+            raise ValueError('toggle_reserves: case must contain a \'reserves\' field, a struct defining \'zones\', \'req\' and \'cost\'')
 
         ## add callback functions
         ## note: assumes all necessary data included in 1st arg (ppc, om, results)
@@ -86,7 +83,7 @@ def toggle_reserves(ppc, on_off):
         ppc = remove_userfcn(ppc, 'formulation', userfcn_reserves_formulation)
         ppc = remove_userfcn(ppc, 'ext2int', userfcn_reserves_ext2int)
     else:
-        stderr.write('toggle_reserves: 2nd argument must be either ''on'' or ''off''')
+        raise ValueError('toggle_reserves: 2nd argument must be either \'on\' or \'off\'')
 
     return ppc
 
@@ -111,15 +108,14 @@ def userfcn_reserves_ext2int(ppc, *args):
 
     ## check data for consistent dimensions
     if r['zones'].shape[0] != nrz:
-        stderr.write('userfcn_reserves_ext2int: the number of rows in ppc[\'reserves\'][\'req\'] (%d) and ppc[\'reserves\'][\'zones\'] (%d) must match\n' % (nrz, r['zones'].shape[0]))
+        raise ValueError('userfcn_reserves_ext2int: the number of rows in ppc[\'reserves\'][\'req\'] (%d) and ppc[\'reserves\'][\'zones\'] (%d) must match' % (nrz, r['zones'].shape[0]))
 
-    if (r['cost'].shape[0] != ng0) & (r['cost'].shape[0] != ngr):
-        stderr.write('userfcn_reserves_ext2int: the number of rows in ppc[\'reserves\'][\'cost\'] (%d) must equal the total number of generators (%d) or the number of generators able to provide reserves (%d)\n' % (r['cost'].shape[0], ng0, ngr))
+    if r['cost'].shape[0] != ng0 and r['cost'].shape[0] != ngr:
+        raise ValueError('userfcn_reserves_ext2int: the number of rows in ppc[\'reserves\'][\'cost\'] (%d) must equal the total number of generators (%d) or the number of generators able to provide reserves (%d)' % (r['cost'].shape[0], ng0, ngr))
 
     if 'qty' in r:
         if r['qty'].shape[0] != r['cost'].shape[0]:
-            stderr.write('userfcn_reserves_ext2int: ppc[\'reserves\'][\'cost\'] (%d x 1) and ppc[\'reserves\'][\'qty\'] (%d x 1) must be the same dimension\n' % (r['cost'].shape[0], r['qty'].shape[0]))
-
+            raise ValueError('userfcn_reserves_ext2int: ppc[\'reserves\'][\'cost\'] (%d x 1) and ppc[\'reserves\'][\'qty\'] (%d x 1) must be the same dimension' % (r['cost'].shape[0], r['qty'].shape[0]))
 
     ## convert both cost and qty from ngr x 1 to full ng x 1 vectors if necessary
     if r['cost'].shape[0] < ng0:
@@ -364,47 +360,28 @@ def userfcn_reserves_savecase(ppc, fd, prefix, *args):
     (usually 'ppc'). The optional args are not currently used.
     """
     r = ppc['reserves']
-
-    fd.write('\n####-----  Reserve Data  -----####\n')
-    fd.write('#### reserve zones, element i, j is 1 if gen j is in zone i, 0 otherwise\n')
-    fd.write('%sreserves.zones = [\n' % prefix)
-    template = ''
-    for _ in range(r['zones'].shape[1]):
-        template = template + '\t%d'
-    template = template + ';\n'
-    fd.write(template, r.zones.T)
-    fd.write('];\n')
-
-    fd.write('\n#### reserve requirements for each zone in MW\n')
-    fd.write('%sreserves.req = [\t%g' % (prefix, r['req'][0]))
-    if len(r['req']) > 1:
-        fd.write(';\t%g' % r['req'][1:])
-    fd.write('\t];\n')
-
-    fd.write('\n#### reserve costs in $/MW for each gen that belongs to at least 1 zone\n')
-    fd.write('#### (same order as gens, but skipping any gen that does not belong to any zone)\n')
-    fd.write('%sreserves.cost = [\t%g' % (prefix, r['cost'][0]))
-    if len(r['cost']) > 1:
-        fd.write(';\t%g' % r['cost'][1:])
-    fd.write('\t];\n')
-
+    name = "%s['reserves']" % prefix
+
+    fd.write('\n    ##-----  Reserve Data  -----##\n')
+    fd.write('    %s = {}\n' % name)
+    fd.write('    ## reserve zones, element i, j is 1 if gen j is in zone i, 0 otherwise\n')
+    write_array(fd, name + "['zones']", r['zones'])
+    fd.write('    ## reserve requirements for each zone in MW\n')
+    write_array(fd, name + "['req']", r['req'])
+    fd.write('    ## reserve costs in $/MW for each gen (or each gen that belongs to at least 1 zone)\n')
+    write_array(fd, name + "['cost']", r['cost'])
     if 'qty' in r:
-        fd.write('\n#### OPTIONAL max reserve quantities for each gen that belongs to at least 1 zone\n')
-        fd.write('#### (same order as gens, but skipping any gen that does not belong to any zone)\n')
-        fd.write('%sreserves.qty = [\t%g' % (prefix, r['qty'][0]))
-        if len(r['qty']) > 1:
-            fd.write(';\t%g' % r['qty'][1:])
-        fd.write('\t];\n')
+        fd.write('    ## OPTIONAL max reserve quantities for each gen (or each gen that belongs to at least 1 zone)\n')
+        write_array(fd, name + "['qty']", r['qty'])
 
     ## save output fields for solved case
     if 'R' in r:
-        fd.write('\n#### solved values\n')
-        fd.write('%sreserves.R = %s\n' % (prefix, pprint(r['R'])))
-        fd.write('%sreserves.Rmin = %s\n' % (prefix, pprint(r['Rmin'])))
-        fd.write('%sreserves.Rmax = %s\n' % (prefix, pprint(r['Rmax'])))
-        fd.write('%sreserves.mu.l = %s\n' % (prefix, pprint(r['mu']['l'])))
-        fd.write('%sreserves.mu.u = %s\n' % (prefix, pprint(r['mu']['u'])))
-        fd.write('%sreserves.prc = %s\n' % (prefix, pprint(r['prc'])))
-        fd.write('%sreserves.totalcost = %s\n' % (prefix, pprint(r['totalcost'])))
+        fd.write('    ## solved values\n')
+        for f in ['R', 'Rmin', 'Rmax', 'prc']:
+            write_array(fd, "%s['%s']" % (name, f), r[f])
+        fd.write("    %s['mu'] = {}\n" % name)
+        for f in ['l', 'u', 'Pmax']:
+            write_array(fd, "%s['mu']['%s']" % (name, f), r['mu'][f])
+        fd.write("    %s['totalcost'] = %.9g\n" % (name, r['totalcost']))
 
     return ppc
-- 
2.43.0


From 77d573e08e5ed3fd73f8f06819c29d42fc5ab3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:10 +0000
Subject: [PATCH 71/85] fix: interface limits on the first branch, with
 branches out of service and in any order

---
 pypower/toggle_iflims.py | 80 ++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 44 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 5328f28..adc9d96 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -7,15 +7,14 @@
 
 from sys import stderr
 
-from pprint import pprint
-
-from numpy import zeros, arange, unique, sign, delete, flatnonzero as find
+from numpy import zeros, arange, where, sign, delete, c_, flatnonzero as find
 
 from scipy.sparse import lil_matrix, csr_matrix as sparse
 
 from pypower.add_userfcn import add_userfcn
 from pypower.remove_userfcn import remove_userfcn
 from pypower.makeBdc import makeBdc
+from pypower.util import write_array
 from pypower.idx_brch import PF
 
 
@@ -53,10 +52,9 @@ def toggle_iflims(ppc, on_off):
     """
     if on_off == 'on':
         ## check for proper reserve inputs
-        if ('if' not in ppc) | (not isinstance(ppc['if'], dict)) | \
-                ('map' not in ppc['if']) | \
-                ('lims' not in ppc['if']):
-            stderr.write('toggle_iflims: case must contain an \'if\' field, a struct defining \'map\' and \'lims\'')
+        if not isinstance(ppc.get('if'), dict) or \
+                'map' not in ppc['if'] or 'lims' not in ppc['if']:
+            raise ValueError('toggle_iflims: case must contain an \'if\' field, a struct defining \'map\' and \'lims\'')
 
         ## add callback functions
         ## note: assumes all necessary data included in 1st arg (ppc, om, results)
@@ -73,7 +71,7 @@ def toggle_iflims(ppc, on_off):
         ppc = remove_userfcn(ppc, 'formulation', userfcn_iflims_formulation)
         ppc = remove_userfcn(ppc, 'ext2int', userfcn_iflims_ext2int)
     else:
-        stderr.write('toggle_iflims: 2nd argument must be either \'on\' or \'off\'')
+        raise ValueError('toggle_iflims: 2nd argument must be either \'on\' or \'off\'')
 
     return ppc
 
@@ -93,11 +91,12 @@ def userfcn_iflims_ext2int(ppc, *args):
     ppc['order']['ext']['ifmap'] = ifmap
 
     ##-----  convert stuff to internal indexing  -----
+    ## (internally stored as index + 1, so that the first branch has a sign too)
     e2i = zeros(nl0)
-    e2i[o['branch']['status']['on']] = arange(nl)  ## ext->int branch index mapping
-    d = sign(ifmap[:, 1])
+    e2i[o['branch']['status']['on']] = arange(nl) + 1  ## ext->int branch index mapping
+    d = where(ifmap[:, 1] < 0, -1, 1)
     br = abs(ifmap[:, 1]).astype(int)
-    ifmap[:, 1] = d * e2i[br]
+    ifmap = c_[ifmap[:, 0], d * e2i[br]]
 
     ifmap = delete(ifmap, find(ifmap[:, 1] == 0), 0)  ## delete branches that are out
 
@@ -123,19 +122,18 @@ def userfcn_iflims_formulation(om, *args):
     n = Bf.shape[1]                    ## dim of theta
 
     ## form constraints
-    ifidx = unique(iflims[:, 0])   ## interface number list
-    nifs = len(ifidx)              ## number of interfaces
+    nifs = iflims.shape[0]         ## number of interfaces
     Aif = lil_matrix((nifs, n))
     lif = zeros(nifs)
     uif = zeros(nifs)
     for k in range(nifs):
         ## extract branch indices
-        br = ifmap[ifmap[:, 0] == ifidx[k], 1]
+        br = ifmap[ifmap[:, 0] == iflims[k, 0], 1]
         if len(br) == 0:
-            stderr.write('userfcn_iflims_formulation: interface %d has no in-service branches\n' % k)
+            stderr.write('userfcn_iflims_formulation: interface %d has no in-service branches\n' % iflims[k, 0])
 
         d = sign(br)
-        br = abs(br)
+        br = abs(br).astype(int) - 1
         Ak = sparse((1, n))              ## Ak = sum( d(i) * Bf(i, :) )
         bk = 0                           ## bk = sum( d(i) * Pfinj(i) )
         for i in range(len(br)):
@@ -168,14 +166,13 @@ def userfcn_iflims_int2ext(results, *args):
     results['if']['map'] = results['order']['ext']['ifmap']
 
     ##-----  results post-processing  -----
-    ifidx = unique(iflims[:, 0])   ## interface number list
-    nifs = len(ifidx)           ## number of interfaces
+    nifs = iflims.shape[0]      ## number of interfaces
     results['if']['P'] = zeros(nifs)
     for k in range(nifs):
         ## extract branch indices
-        br = ifmap[ifmap[:, 0] == ifidx[k], 1]
+        br = ifmap[ifmap[:, 0] == iflims[k, 0], 1]
         d = sign(br)
-        br = abs(br)
+        br = abs(br).astype(int) - 1
         results['if']['P'][k] = sum( d * results['branch'][br, PF] )
 
     if 'mu' not in results['if']:
@@ -204,10 +201,9 @@ def userfcn_iflims_printpf(results, fd, ppopt, *args):
         fd.write('\n Interface  Shadow Prc  Lower Lim      Flow      Upper Lim   Shadow Prc')
         fd.write('\n     #        ($/MW)       (MW)        (MW)        (MW)       ($/MW)   ')
         fd.write('\n----------  ----------  ----------  ----------  ----------  -----------')
-        ifidx = unique(iflims[:, 0])   ## interface number list
-        nifs = len(ifidx)           ## number of interfaces
+        nifs = iflims.shape[0]      ## number of interfaces
         for k in range(nifs):
-            fd.write('\n%6d ', iflims(k, 1))
+            fd.write('\n%6d ' % iflims[k, 0])
             if results['if']['mu']['l'][k] > ptol:
                 fd.write('%14.3f' % results['if']['mu']['l'][k])
             else:
@@ -230,28 +226,24 @@ def userfcn_iflims_savecase(ppc, fd, prefix, *args):
     PYPOWER case dict (ppc), a file descriptor and variable prefix
     (usually 'ppc'). The optional args are not currently used.
     """
-    ifmap = ppc['if']['map']
-    iflims = ppc['if']['lims']
-
-    fd.write('\n####-----  Interface Flow Limit Data  -----####\n')
-    fd.write('#### interface<->branch map data\n')
-    fd.write('##\tifnum\tbranchidx (negative defines opposite direction)\n')
-    fd.write('%sif.map = [\n' % prefix)
-    fd.write('\t%d\t%d;\n' % ifmap.T)
-    fd.write('];\n')
-
-    fd.write('\n#### interface flow limit data (based on DC model)\n')
-    fd.write('#### (lower limit should be negative for opposite direction)\n')
-    fd.write('##\tifnum\tlower\tupper\n')
-    fd.write('%sif.lims = [\n' % prefix)
-    fd.write('\t%d\t%g\t%g;\n' % iflims.T)
-    fd.write('];\n')
+    name = "%s['if']" % prefix
+
+    fd.write('\n    ##-----  Interface Flow Limit Data  -----##\n')
+    fd.write('    %s = {}\n' % name)
+    fd.write('    ## interface<->branch map data\n')
+    fd.write('    # ifnum branchidx (negative defines opposite direction)\n')
+    write_array(fd, name + "['map']", ppc['if']['map'])
+    fd.write('    ## interface flow limit data (based on DC model)\n')
+    fd.write('    ## (lower limit should be negative for opposite direction)\n')
+    fd.write('    # ifnum lower upper\n')
+    write_array(fd, name + "['lims']", ppc['if']['lims'])
 
     ## save output fields for solved case
-    if ('P' in ppc['if']):
-        fd.write('\n#### solved values\n')
-        fd.write('%sif.P = %s\n' % (prefix, pprint(ppc['if']['P'])))
-        fd.write('%sif.mu.l = %s\n' % (prefix, pprint(ppc['if']['mu']['l'])))
-        fd.write('%sif.mu.u = %s\n' % (prefix, pprint(ppc['if']['mu']['u'])))
+    if 'P' in ppc['if']:
+        fd.write('    ## solved values\n')
+        write_array(fd, name + "['P']", ppc['if']['P'])
+        fd.write("    %s['mu'] = {}\n" % name)
+        for f in ['l', 'u']:
+            write_array(fd, "%s['mu']['%s']" % (name, f), ppc['if']['mu'][f])
 
     return ppc
-- 
2.43.0


From 6a6336937c900d8960e4a6ab3be7ad00531d63e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:10 +0000
Subject: [PATCH 72/85] fix: switching off a feature that is not on is no error

---
 pypower/remove_userfcn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypower/remove_userfcn.py b/pypower/remove_userfcn.py
index e9146ec..88fe04c 100644
--- a/pypower/remove_userfcn.py
+++ b/pypower/remove_userfcn.py
@@ -18,6 +18,9 @@ def remove_userfcn(ppc, stage, fcn):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
+    if stage not in ppc.get('userfcn', {}):
+        return ppc              ## nothing to remove
+
     n = len(ppc['userfcn'][stage])
 
     for k in range(n - 1, -1, -1):
-- 
2.43.0


From 6537f1259db4325e82723a0aec6b3c73732264e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:10 +0000
Subject: [PATCH 73/85] fix: a case with callbacks can be saved as MAT-file

---
 pypower/savecase.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index fd3c23d..53945d0 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -132,10 +132,7 @@ def savecase(fname, ppc, comment=None, version='2'):
                 ppc_mat['zl'] = array(ppc['zl'])
             if has_data(ppc, "zu"):
                 ppc_mat['zu'] = array(ppc['zu'])
-        if 'userfcn' in ppc and len(ppc['userfcn']) > 0:
-            ppc_mat['userfcn'] = array(ppc['userfcn'])
-        elif 'userfcn' in ppc:
-            ppc_mat['userfcn'] = ppc['userfcn']
+        ## (callback functions cannot be written to a MAT-file)
         for key in ['x', 'f']:
             if key in ppc:
                 ppc_mat[key] = ppc[key]
-- 
2.43.0


From 151bb4419bb48f32303b48564da983bb974fd807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:00 +0000
Subject: [PATCH 74/85] fix: a DC line to an isolated bus is out of service

---
 pypower/toggle_dcline.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index a9405e4..20b7b60 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -4,7 +4,7 @@
 
 from math import inf
 
-from numpy import array, ones, zeros, r_, c_, concatenate, shape
+from numpy import array, ones, zeros, r_, c_, concatenate, shape, isin
 from numpy import flatnonzero as find
 
 from scipy.sparse import spdiags, hstack, vstack, csr_matrix as sparse
@@ -20,7 +20,7 @@ from pypower.util import write_array
 from pypower.idx_gen import MBASE, GEN_STATUS, PMIN, PMAX, GEN_BUS, PG, QG, \
     VG, QMIN, QMAX, MU_QMIN, MU_PMAX, MU_PMIN, MU_QMAX
 
-from pypower.idx_bus import BUS_TYPE, REF, PV
+from pypower.idx_bus import BUS_I, BUS_TYPE, REF, PV, NONE
 from pypower.idx_cost import MODEL, POLYNOMIAL, NCOST, COST
 
 
@@ -93,6 +93,17 @@ def toggle_dcline(ppc, on_off):
     return ppc
 
 
+def dcline_on(dcline, bus):
+    """Mask of the DC lines that are in service and not connected to an
+    isolated bus (external indexing).
+    """
+    c = idx_dcline.c
+    live = bus[bus[:, BUS_TYPE] != NONE, BUS_I]
+
+    return (dcline[:, c['BR_STATUS']] > 0) & \
+        isin(dcline[:, c['F_BUS']], live) & isin(dcline[:, c['T_BUS']], live)
+
+
 ##-----  ext2int  ------------------------------------------------------
 def userfcn_dcline_ext2int(ppc, args):
     """This is the 'ext2int' stage userfcn callback that prepares the input
@@ -116,9 +127,10 @@ def userfcn_dcline_ext2int(ppc, args):
         ppc['order']['ext']['dclinecost'] = ppc['dclinecost']  ## external indexing
 
     ppc['order']['ext']['status']  = {}
-    ## work with only in-service DC lines
-    ppc['order']['ext']['status']['on']  = find(ppc['dcline'][:, c['BR_STATUS']] >  0)
-    ppc['order']['ext']['status']['off'] = find(ppc['dcline'][:, c['BR_STATUS']] <= 0)
+    ## work with only in-service DC lines, both terminals of which are connected
+    on = dcline_on(ppc['dcline'], ppc['order']['ext']['bus'])
+    ppc['order']['ext']['status']['on']  = find(on)
+    ppc['order']['ext']['status']['off'] = find(~on)
 
     ## remove out-of-service DC lines
     dc = ppc['dcline'][ppc['order']['ext']['status']['on'], :] ## only in-service DC lines
@@ -292,7 +304,7 @@ def userfcn_dcline_int2ext(results, args):
 
     ## initialize some things
     o = results['order']
-    k = find(o['ext']['dcline'][:, c['BR_STATUS']] > 0)
+    k = o['ext']['status']['on']
     ndc = len(k)                    ## number of in-service DC lines
     ng  = results['gen'].shape[0] - 2*ndc; ## number of original gens/disp loads
 
@@ -375,7 +387,8 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
     ##-----  print results  -----
     dc = results['dcline']
     ndc = dc.shape[0]
-    kk = find(dc[:, c['BR_STATUS']] > 0)
+    on = dcline_on(dc, results['bus'])
+    kk = find(on)
     if dc.shape[1] > c['MU_PMAX']:
         mu_pmin, mu_pmax = dc[:, c['MU_PMIN']], dc[:, c['MU_PMAX']]
     else:                           ## power flow, no multipliers
@@ -389,7 +402,7 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
         fd.write('\n------  ------  ------  ---------  ---------  ---------  ---------  ---------')
         loss = 0
         for k in range(ndc):
-            if dc[k, c['BR_STATUS']] > 0:   ## status on
+            if on[k]:   ## status on
                 fd.write('\n{0:5.0f}{1:8.0f}{2:8.0f}{3:11.2f}{4:11.2f}{5:11.2f}{6:11.2f}{7:11.2f}'.format(*r_[k, dc[k, c['F_BUS']:c['T_BUS'] + 1], dc[k, c['PF']:c['PT'] + 1],dc[k, c['PF']] - dc[k, c['PT']], dc[k, c['QF']:c['QT'] + 1]]))
 
                 loss = loss + dc[k, c['PF']] - dc[k, c['PT']]
@@ -415,7 +428,7 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
                     (dc[k, c['PF']] > dc[k, c['PMAX']] - ctol or
                      mu_pmin[k] > ptol or
                      mu_pmax[k] > ptol)):
-                if dc[k, c['BR_STATUS']] > 0:   ## status on
+                if on[k]:   ## status on
                     fd.write('\n{0:5.0f}{1:8.0f}{2:8.0f}'.format(*r_[k, dc[k, c['F_BUS']:c['T_BUS'] + 1]]))
                     #fd.write('\n%5d%8d%8d' % (k + 1, dc[k, c['F_BUS']:c['T_BUS'] + 1] ))
                     if mu_pmin[k] > ptol:
-- 
2.43.0


From 96963f1845c123ba7cfe6379a0e21ab93c3d6cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:00 +0000
Subject: [PATCH 75/85] fix: DC lines in a case with reactive power costs

---
 pypower/toggle_dcline.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 20b7b60..ee947ef 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -15,6 +15,7 @@ from pypower import idx_dcline
 from pypower.add_userfcn import add_userfcn
 from pypower.remove_userfcn import remove_userfcn
 from pypower.isload import isload
+from pypower.pqcost import pqcost
 from pypower.util import write_array
 
 from pypower.idx_gen import MBASE, GEN_STATUS, PMIN, PMAX, GEN_BUS, PG, QG, \
@@ -198,6 +199,11 @@ def userfcn_dcline_ext2int(ppc, args):
     ppc['bus'][dc[:, c['T_BUS']].astype(int), BUS_TYPE] = PV
     ppc['bus'][refbus, BUS_TYPE] = REF
 
+    ## split costs into active and (optional) reactive costs
+    qcost = []
+    if 'gencost' in ppc and len(ppc['gencost']) > 0:
+        ppc['gencost'], qcost = pqcost(ppc['gencost'], ppc['gen'].shape[0])
+
     ## append dummy gens
     ppc['gen'] = r_[ppc['gen'], fg, tg]
 
@@ -242,6 +248,13 @@ def userfcn_dcline_ext2int(ppc, args):
             dcgc = ones((2 * ndc, 1)) * concatenate([array([2, 0, 0, 2]), zeros(ngcc-4)])
             ppc['gencost'] = r_[ppc['gencost'], dcgc]
 
+        ## reactive power of both ends is free
+        if len(qcost) > 0:
+            ccc = ppc['gencost'].shape[1]
+            qcost = c_[qcost, zeros((len(qcost), ccc - ngcc))]
+            dcgc = ones((2 * ndc, 1)) * r_[[2, 0, 0, 2], zeros(ccc - 4)]
+            ppc['gencost'] = r_[ppc['gencost'], qcost, dcgc]
+
     return ppc
 
 
@@ -317,7 +330,10 @@ def userfcn_dcline_int2ext(results, args):
     #results['gencost'] = results['gencost'][:ng + 1, :]
     results['gen']     = results['gen'][:ng, :]
     if 'gencost' in results and len(results['gencost']) > 0:
-        results['gencost'] = results['gencost'][:ng, :]
+        pcost, qcost = pqcost(results['gencost'], ng + 2 * ndc)
+        results['gencost'] = pcost[:ng, :]
+        if len(qcost) > 0:
+            results['gencost'] = r_[results['gencost'], qcost[:ng, :]]
 
     ## get the solved flows
     results['dcline'][:, c['PF']] = -fg[:, PG]
-- 
2.43.0


From c6b4fc8a45846a8b59bf95d9511801894095b6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:01 +0000
Subject: [PATCH 76/85] fix: start point of variables with one infinite bound

---
 pypower/dcopf_solver.py   | 6 +++++-
 pypower/pipsopf_solver.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index 0974dcd..709bac4 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -191,7 +191,11 @@ def dcopf_solver(om, ppopt, out_opt=None):
         lb, ub = xmin.copy(), xmax.copy()
         lb[xmin == -inf] = -1e10   ## replace inf with numerical proxies
         ub[xmax ==  inf] =  1e10
-        x0 = (lb + ub) / 2;
+        x0 = (lb + ub) / 2     ## set x0 mid-way between bounds
+        k = find((xmin == -inf) & (xmax < inf))    ## if only bounded above
+        x0[k] = xmax[k] - 1                        ## set just below upper bound
+        k = find((xmin > -inf) & (xmax == inf))    ## if only bounded below
+        x0[k] = xmin[k] + 1                        ## set just above lower bound
         # angles set to first reference angle
         x0[vv["i1"]["Va"]:vv["iN"]["Va"]] = Varefs[0]
         if ny > 0:
diff --git a/pypower/pipsopf_solver.py b/pypower/pipsopf_solver.py
index 020755f..6734196 100644
--- a/pypower/pipsopf_solver.py
+++ b/pypower/pipsopf_solver.py
@@ -111,7 +111,11 @@ def pipsopf_solver(om, ppopt, out_opt=None):
     ll, uu = xmin.copy(), xmax.copy()
     ll[xmin == -inf] = -1e10   ## replace inf with numerical proxies
     uu[xmax ==  inf] =  1e10
-    x0 = (ll + uu) / 2
+    x0 = (ll + uu) / 2     ## set x0 mid-way between bounds
+    k = find((xmin == -inf) & (xmax < inf))    ## if only bounded above
+    x0[k] = xmax[k] - 1                        ## set just below upper bound
+    k = find((xmin > -inf) & (xmax == inf))    ## if only bounded below
+    x0[k] = xmin[k] + 1                        ## set just above lower bound
     Varefs = bus[bus[:, BUS_TYPE] == REF, VA] * (pi / 180)
     ## angles set to first reference angle
     x0[vv["i1"]["Va"]:vv["iN"]["Va"]] = Varefs[0]
-- 
2.43.0


From 5385af964cd6877b03621f468ed54f8dab5733c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:18 +0000
Subject: [PATCH 77/85] fix: reserve zones none of whose units is in service

---
 pypower/toggle_reserves.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pypower/toggle_reserves.py b/pypower/toggle_reserves.py
index c2e58e6..9835335 100644
--- a/pypower/toggle_reserves.py
+++ b/pypower/toggle_reserves.py
@@ -238,12 +238,13 @@ def userfcn_reserves_int2ext(results, *args):
     mu_l    = zeros(ng)
     mu_u    = zeros(ng)
     mu_Pmax = zeros(ng)
-    R[igr]       = results['var']['val']['R'] * results['baseMVA']
-    Rmin[igr]    = Rl * results['baseMVA']
-    Rmax[igr]    = Ru * results['baseMVA']
-    mu_l[igr]    = results['var']['mu']['l']['R'] / results['baseMVA']
-    mu_u[igr]    = results['var']['mu']['u']['R'] / results['baseMVA']
-    mu_Pmax[igr] = results['lin']['mu']['u']['Pg_plus_R'] / results['baseMVA']
+    if len(igr) > 0:              ## else no gen that could provide reserves is on-line
+        R[igr]       = results['var']['val']['R'] * results['baseMVA']
+        Rmin[igr]    = Rl * results['baseMVA']
+        Rmax[igr]    = Ru * results['baseMVA']
+        mu_l[igr]    = results['var']['mu']['l']['R'] / results['baseMVA']
+        mu_u[igr]    = results['var']['mu']['u']['R'] / results['baseMVA']
+        mu_Pmax[igr] = results['lin']['mu']['u']['Pg_plus_R'] / results['baseMVA']
 
     ## store in results in results struct
     z = zeros(ng0)
@@ -260,7 +261,7 @@ def userfcn_reserves_int2ext(results, *args):
         iz = find(r['zones'][:, k])
         results['reserves']['prc'][k] = sum(results['lin']['mu']['l']['Rreq'][iz]) / results['baseMVA']
 
-    results['reserves']['totalcost'] = results['cost']['Rcost']
+    results['reserves']['totalcost'] = results['cost'].get('Rcost', 0.0)
 
     ## replace ng x 1 cost, qty with ngr x 1 originals
     if 'original' in r:
-- 
2.43.0


From 5ec5c2d061543a776e0b372411113b5f56ec37f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:00 +0000
Subject: [PATCH 78/85] fix: power flow with infinite reactive limits returned
 NaN generator reactive outputs

---
 pypower/pfsoln.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pypower/pfsoln.py b/pypower/pfsoln.py
index 5ffd047..0f4c977 100644
--- a/pypower/pfsoln.py
+++ b/pypower/pfsoln.py
@@ -5,7 +5,7 @@
 """Updates bus, gen, branch data structures to match power flow soln.
 """
 
-from numpy import asarray, angle, pi, conj, zeros, ones, finfo, c_, ix_
+from numpy import asarray, angle, pi, conj, zeros, ones, finfo, c_, ix_, any, isinf, copysign
 from numpy import flatnonzero as find
 
 from scipy.sparse import csr_matrix
@@ -58,9 +58,19 @@ def pfsoln(baseMVA, bus0, gen0, branch0, Ybus, Yf, Yt, V, ref, pv, pq):
         ngg = asarray(ngg).flatten()  # 1D array
         gen[on, QG] = gen[on, QG] / ngg
 
+        ## replace infinite limits by proxies large enough for the bus total
+        Qmin, Qmax = gen[on, QMIN].astype(float), gen[on, QMAX].astype(float)
+        if any(isinf(Qmin)) or any(isinf(Qmax)):
+            M = abs(gen[on, QG])
+            M[~isinf(Qmin)] += abs(Qmin[~isinf(Qmin)])
+            M[~isinf(Qmax)] += abs(Qmax[~isinf(Qmax)])
+            M = Cg * (Cg.T * M)       ## sum over the generators at the bus
+            Qmin[isinf(Qmin)] = copysign(M, Qmin)[isinf(Qmin)]
+            Qmax[isinf(Qmax)] = copysign(M, Qmax)[isinf(Qmax)]
+
         ## divide proportionally
-        Cmin = csr_matrix((gen[on, QMIN], (range(ngon), gbus)), (ngon, nb))
-        Cmax = csr_matrix((gen[on, QMAX], (range(ngon), gbus)), (ngon, nb))
+        Cmin = csr_matrix((Qmin, (range(ngon), gbus)), (ngon, nb))
+        Cmax = csr_matrix((Qmax, (range(ngon), gbus)), (ngon, nb))
         Qg_tot = Cg.T * gen[on, QG]## nb x 1 vector of total Qg at each bus
         Qg_min = Cmin.sum(0).T       ## nb x 1 vector of min total Qg at each bus
         Qg_max = Cmax.sum(0).T       ## nb x 1 vector of max total Qg at each bus
@@ -69,9 +79,9 @@ def pfsoln(baseMVA, bus0, gen0, branch0, Ybus, Yf, Yt, V, ref, pv, pq):
         ## gens at buses with Qg range = 0
         ig = find(Cg * Qg_min == Cg * Qg_max)
         Qg_save = gen[on[ig], QG]
-        gen[on, QG] = gen[on, QMIN] + \
+        gen[on, QG] = Qmin + \
             (Cg * ((Qg_tot - Qg_min) / (Qg_max - Qg_min + EPS))) * \
-                (gen[on, QMAX] - gen[on, QMIN])    ##    ^ avoid div by 0
+                (Qmax - Qmin)    ##    ^ avoid div by 0
         gen[on[ig], QG] = Qg_save  ## (terms are mult by 0 anyway)
 
     ## update Pg for slack bus(es)
-- 
2.43.0


From 0208f413162123169df8d82c646c981685d56f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 79/85] fix: power flow raised ValueError on a network without
 PQ buses or with a single bus

---
 pypower/fdpf.py     | 8 ++++----
 pypower/gausspf.py  | 2 +-
 pypower/newtonpf.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypower/fdpf.py b/pypower/fdpf.py
index 64c1252..f427b84 100644
--- a/pypower/fdpf.py
+++ b/pypower/fdpf.py
@@ -60,8 +60,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
     Q = mis[pq].imag
 
     ## check tolerance
-    normP = linalg.norm(P, inf)
-    normQ = linalg.norm(Q, inf)
+    normP = linalg.norm(P, inf) if len(P) else 0.0
+    normQ = linalg.norm(Q, inf) if len(Q) else 0.0
     if verbose > 1:
         sys.stdout.write('\niteration     max mismatch (p.u.)  ')
         sys.stdout.write('\ntype   #        P            Q     ')
@@ -99,7 +99,7 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
 
         ## check tolerance
         normP = linalg.norm(P, inf)
-        normQ = linalg.norm(Q, inf)
+        normQ = linalg.norm(Q, inf) if len(Q) else 0.0
         if verbose > 1:
             sys.stdout.write("\n  %s  %3d   %10.3e   %10.3e" %
                              (type,i, normP, normQ))
@@ -124,7 +124,7 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
 
         ## check tolerance
         normP = linalg.norm(P, inf)
-        normQ = linalg.norm(Q, inf)
+        normQ = linalg.norm(Q, inf) if len(Q) else 0.0
         if verbose > 1:
             sys.stdout.write('\n  Q  %3d   %10.3e   %10.3e' % (i, normP, normQ))
         if normP < tol and normQ < tol:
diff --git a/pypower/gausspf.py b/pypower/gausspf.py
index a8c6cba..bffd5a8 100644
--- a/pypower/gausspf.py
+++ b/pypower/gausspf.py
@@ -62,7 +62,7 @@ def gausspf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
              mis[pq].imag   ]
 
     ## check tolerance
-    normF = linalg.norm(F, inf)
+    normF = linalg.norm(F, inf) if len(F) else 0.0   ## nothing to solve for a lone ref bus
     if verbose > 1:
         sys.stdout.write('\n it    max P & Q mismatch (p.u.)')
         sys.stdout.write('\n----  ---------------------------')
diff --git a/pypower/newtonpf.py b/pypower/newtonpf.py
index 79ed7ce..f743458 100644
--- a/pypower/newtonpf.py
+++ b/pypower/newtonpf.py
@@ -69,7 +69,7 @@ def newtonpf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
              mis[pq].imag  ]
 
     ## check tolerance
-    normF = linalg.norm(F, inf)
+    normF = linalg.norm(F, inf) if len(F) else 0.0   ## nothing to solve for a lone ref bus
     if verbose > 1:
         sys.stdout.write('\n it    max P & Q mismatch (p.u.)')
         sys.stdout.write('\n----  ---------------------------')
-- 
2.43.0


From ebfe527655c8a31e4897b1b2f2eda04d93f86892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:31 +0000
Subject: [PATCH 80/85] fix: printpf died on a network without branches

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 7f79415..c8f87cb 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -216,7 +216,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
         maxv = max(bus[:, VA])
         maxi = argmax(bus[:, VA])
         fd.write('\nVoltage Angle   %8.2f deg   @ bus %-4d   %8.2f deg   @ bus %-4d' % (minv, bus[mini, BUS_I], maxv, bus[maxi, BUS_I]))
-        if not isDC:
+        if not isDC and nl > 0:
             maxv = max(loss.real)
             maxi = argmax(loss.real)
             fd.write('\nP Losses (I^2*R)             -              %8.2f MW    @ line %d-%d' % (maxv, branch[maxi, F_BUS], branch[maxi, T_BUS]))
-- 
2.43.0


From 77ac05e0dae987e58f88ff8bf42acc21b578b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:31 +0000
Subject: [PATCH 81/85] fix: savecase lost the columns of a branch matrix
 without rows

---
 pypower/savecase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index 53945d0..0b02e4e 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -250,7 +250,10 @@ def savecase(fname, ppc, comment=None, version='2'):
             else:
                 for i in range(branch.shape[0]):
                     fd.write('%s[%d, %d, %.9g, %.9g, %.9g, %.9g, %.9g, %.9g, %.9g, %.9g, %d, %.9g, %.9g, %.4f, %.4f, %.4f, %.4f, %.4f, %.4f, %.4f, %.4f],\n' % ((indent2,) + tuple(branch[i, :MU_ANGMAX + 1])))
-        fd.write('%s])\n' % indent)
+        if branch.shape[0] > 0:
+            fd.write('%s])\n' % indent)
+        else:                            ## keep the columns of a matrix without rows
+            fd.write('%s]).reshape((0, %d))\n' % (indent, ncols))
 
         ## OPF data
         if (areas is not None) and (len(areas) > 0) or (gencost is not None) and (len(gencost) > 0):
-- 
2.43.0


From 66f945914776a69b749c3fba424dae32c560e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:29 +0000
Subject: [PATCH 82/85] fix: opf called with separate integer matrices
 truncated its results

---
 pypower/opf_args.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index 707bcb4..7ac1fe3 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -7,7 +7,7 @@
 
 from sys import stderr
 
-from numpy import array
+from numpy import array, integer, issubdtype
 from scipy.sparse import issparse
 
 from pypower._compat import PY2
@@ -342,6 +342,11 @@ def opf_args2(*args):
     ppc['branch'] = branch
     ppc['gencost'] = gencost
 
+    ## matrices entered as integers must be able to hold results
+    for k in ('bus', 'gen', 'branch', 'gencost'):
+        if ppc[k] is not None and issubdtype(ppc[k].dtype, integer):
+            ppc[k] = ppc[k].astype(float)
+
     if areas is not None and len(areas) > 0:
         ppc["areas"] = areas
     if lbu is not None and len(lbu) > 0:
-- 
2.43.0


From f0d972a7d3adffd0f6c9ada67555a691979eaef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:39 +0000
Subject: [PATCH 83/85] fix: RETURN_RAW_DER raised on a network without
 branches

---
 pypower/opf_execute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index 185fc4b..e090680 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -121,7 +121,7 @@ def opf_execute(om, ppopt):
                     Ybus, Yf, Yt = makeYbus(ppc['baseMVA'], ppc['bus'], ppc['branch'])
                     g, geq, dg, dgeq = opf_consfcn(results['x'], om, Ybus, Yf, Yt, ppopt)
                     raw['g'] = r_[geq, g]
-                    raw['dg'] = vstack([dgeq.T, dg.T], 'csr')   ## true Jacobian organization
+                    raw['dg'] = vstack([d.T for d in (dgeq, dg) if d is not None], 'csr')   ## true Jacobian organization
 
                 ## compute df, d2f
                 _, df, d2f = opf_costfcn(results['x'], om, True)
-- 
2.43.0


From a46cc6997f1669c9c67002bb42b4a62359eeb8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:04 +0000
Subject: [PATCH 84/85] fix: unit decommitment counted loads and units at
 isolated buses

---
 pypower/uopf.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pypower/uopf.py b/pypower/uopf.py
index ec5c556..83b1633 100644
--- a/pypower/uopf.py
+++ b/pypower/uopf.py
@@ -9,7 +9,7 @@ from time import time
 
 from copy import deepcopy
 
-from numpy import flatnonzero as find
+from numpy import isin, flatnonzero as find
 
 from pypower.opf_args import opf_args2
 from pypower.ppoption import ppoption
@@ -18,8 +18,8 @@ from pypower.totcost import totcost
 from pypower.fairmax import fairmax
 from pypower.opf import opf
 
-from pypower.idx_bus import PD
-from pypower.idx_gen import GEN_STATUS, PG, QG, PMIN, MU_PMIN
+from pypower.idx_bus import BUS_I, BUS_TYPE, NONE, PD
+from pypower.idx_gen import GEN_BUS, GEN_STATUS, PG, QG, PMIN, MU_PMIN
 
 
 def uopf(*args):
@@ -54,10 +54,14 @@ def uopf(*args):
 
     ##-----  do combined unit commitment/optimal power flow  -----
 
+    ## loads and units at isolated buses take no part
+    bconn = ppc["bus"][:, BUS_TYPE] != NONE
+    conn = ~isin(ppc["gen"][:, GEN_BUS], ppc["bus"][~bconn, BUS_I])
+
     ## check for sum(Pmin) > total load, decommit as necessary
-    on   = find( (ppc["gen"][:, GEN_STATUS] > 0) & ~isload(ppc["gen"]) )   ## gens in service
-    onld = find( (ppc["gen"][:, GEN_STATUS] > 0) &  isload(ppc["gen"]) )   ## disp loads in serv
-    load_capacity = sum(ppc["bus"][:, PD]) - sum(ppc["gen"][onld, PMIN])   ## total load capacity
+    on   = find( conn & (ppc["gen"][:, GEN_STATUS] > 0) & ~isload(ppc["gen"]) )   ## gens in service
+    onld = find( conn & (ppc["gen"][:, GEN_STATUS] > 0) &  isload(ppc["gen"]) )   ## disp loads in serv
+    load_capacity = sum(ppc["bus"][bconn, PD]) - sum(ppc["gen"][onld, PMIN])   ## total load capacity
     Pmin = ppc["gen"][on, PMIN]
     while sum(Pmin) > load_capacity and any(Pmin > 0):
         ## shut down most expensive unit
@@ -73,7 +77,7 @@ def uopf(*args):
         ppc["gen"][i, [PG, QG, GEN_STATUS]] = 0
 
         ## update minimum gen capacity
-        on  = find( (ppc["gen"][:, GEN_STATUS] > 0) & ~isload(ppc["gen"]) )   ## gens in service
+        on  = find( conn & (ppc["gen"][:, GEN_STATUS] > 0) & ~isload(ppc["gen"]) )   ## gens in service
         Pmin = ppc["gen"][on, PMIN]
 
     ## run initial opf
@@ -88,8 +92,9 @@ def uopf(*args):
 
     while True:
         ## get candidates for shutdown
-        candidates = find((results0["gen"][:, MU_PMIN] > 0) & (results0["gen"][:, PMIN] > 0))
-        if len(candidates) == 0 or sum(results0["gen"][:, GEN_STATUS] > 0) < 2:
+        inserv = conn & (results0["gen"][:, GEN_STATUS] > 0)
+        candidates = find(inserv & (results0["gen"][:, MU_PMIN] > 0) & (results0["gen"][:, PMIN] > 0))
+        if len(candidates) == 0 or sum(inserv) < 2:
             break   ## nothing to shut down, or only one unit left
 
         ## do not check for further decommitment unless we
-- 
2.43.0


From a7c7224e1169db81ad2ce62c2b2d1f2fc2eb5b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:12 +0000
Subject: [PATCH 85/85] fix: unit decommitment took reference angles from an
 unsolved start

---
 pypower/uopf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pypower/uopf.py b/pypower/uopf.py
index 83b1633..b6e1b55 100644
--- a/pypower/uopf.py
+++ b/pypower/uopf.py
@@ -18,7 +18,7 @@ from pypower.totcost import totcost
 from pypower.fairmax import fairmax
 from pypower.opf import opf
 
-from pypower.idx_bus import BUS_I, BUS_TYPE, NONE, PD
+from pypower.idx_bus import BUS_I, BUS_TYPE, NONE, REF, PD, VA
 from pypower.idx_gen import GEN_BUS, GEN_STATUS, PG, QG, PMIN, MU_PMIN
 
 
@@ -80,6 +80,10 @@ def uopf(*args):
         on  = find( conn & (ppc["gen"][:, GEN_STATUS] > 0) & ~isload(ppc["gen"]) )   ## gens in service
         Pmin = ppc["gen"][on, PMIN]
 
+    ## reference angles, to be kept when restarting from another solution
+    ref = find(ppc["bus"][:, BUS_TYPE] == REF)
+    Varef = ppc["bus"][ref, VA].copy()
+
     ## run initial opf
     results = opf(ppc, ppopt)
 
@@ -89,6 +93,7 @@ def uopf(*args):
     ## best case for this stage (ie. with n gens shut down, n=0,1,2 ...)
     results0 = deepcopy(results1)
     ppc["bus"] = results0["bus"].copy()     ## use these V as starting point for OPF
+    ppc["bus"][ref, VA] = Varef
 
     while True:
         ## get candidates for shutdown
@@ -127,6 +132,7 @@ def uopf(*args):
 
             results0 = deepcopy(results1)
             ppc["bus"] = results0["bus"].copy()     ## use these V as starting point for OPF
+            ppc["bus"][ref, VA] = Varef
 
     ## compute elapsed time
     et = time() - t0
-- 
2.43.0

