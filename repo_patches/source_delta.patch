From b0db277e2c7a1fd1c42b00bede6ecb2d22e2d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 01/80] fix: setpoints given as integers are treated as floats

---
 pySC/utils/classdef_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/classdef_tools.py b/pySC/utils/classdef_tools.py
index 9641d74..8514826 100644
--- a/pySC/utils/classdef_tools.py
+++ b/pySC/utils/classdef_tools.py
@@ -55,7 +55,7 @@ def check_input_and_setpoints(method, ords, setpoints):
     if method not in SETTING_METHODS:
         raise ValueError(f'Unsupported setpoint method: {method}. Allowed options are: {SETTING_METHODS}.')
     ords_1d = np.ravel(np.array([ords], dtype=int))
-    setpoints_1d = np.ravel(np.array([setpoints]))
+    setpoints_1d = np.ravel(np.array([setpoints], dtype=float))
     if len(setpoints_1d) not in (1, len(ords_1d)):
         raise ValueError(f'Setpoints have to have length of 1 or matching to the length or ordinates.')
     return ords_1d, (np.repeat(setpoints_1d, len(ords_1d)) if len(setpoints_1d) == 1 else setpoints_1d)
-- 
2.43.0


From 8dc94b5ec03716eece188aa8d66ce837bd8b2bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 02/80] fix: systematic multipole errors use the column of
 their target field and leave the input array untouched

---
 pySC/core/simulated_commissioning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index ed5ff31..be030a8 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -477,13 +477,13 @@ class SimulatedCommissioning:
         if BA.ndim != 2 or BA.shape[1] != 2:
             raise ValueError("BA has to  be numpy.array of shape N x 2.")
         ind, source = (1, "A") if skewness else (0, "B")
-        newBA = BA[:, :]
+        newBA = np.array(BA)
         newBA[order, ind] = 0
         for ord in ords:
-            for target in ("A", "B"):
+            for target_ind, target in enumerate(("B", "A")):
                 attr_name = f'SysPol{target}From{source}'
                 syspol = getattr(self.RING[ord], attr_name) if hasattr(self.RING[ord], attr_name) else DotDict()
-                syspol[order] = newBA[:, ind]
+                syspol[order] = newBA[:, target_ind].copy()
                 setattr(self.RING[ord], attr_name, syspol)
 
     def set_random_multipole_errors(self, ords: ndarray, BA):
-- 
2.43.0


From c538342e25ad06a466bd950bc3bf0ea7998f616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 03/80] fix: bunch particles follow the given beam size matrix
 for correlated planes

---
 pySC/core/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index bffd73d..195c5b3 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -163,7 +163,7 @@ def generate_bunches(SC: SimulatedCommissioning, nParticles=None) -> ndarray:
     Z = np.tile(np.transpose(SC.INJ.randomInjectionZ * sc_tools.randnc(2, (1, 6)) + SC.INJ.Z0), nParticles)
     if nParticles != 1:
         V, L = np.linalg.eig(SC.INJ.beamSize)
-        Z += np.diag(np.sqrt(V)) @ L @ sc_tools.randnc(3, (6, nParticles))
+        Z += L @ np.diag(np.sqrt(V)) @ sc_tools.randnc(3, (6, nParticles))
     return SC.INJ.postFun(Z)
 
 
-- 
2.43.0


From 4464c20001f0bb72b99717160d501eb9a69b32bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 04/80] fix: registering one support type keeps the
 uncertainties of the others

---
 pySC/core/simulated_commissioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index be030a8..2eac407 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -430,7 +430,8 @@ class SimulatedCommissioning:
         for ind in np.ravel(support_ords):
             setattr(self.RING[ind], f"{support_type}Offset", np.zeros(3))  # [x,y,z]
             setattr(self.RING[ind], f"{support_type}Roll", np.zeros(3))  # [az,ax,ay]
-            self.SIG.Support[ind] = DotDict()
+            if ind not in self.SIG.Support.keys():
+                self.SIG.Support[ind] = DotDict()
         for ord_pair in support_ords.T:
             for key, value in kwargs.items():
                 if isinstance(value, list):
-- 
2.43.0


From ab3bca052822206cf00142da91abbdeb450fa540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 05/80] fix: support crossing the end of the lattice rolls only
 the elements on it

---
 pySC/core/simulated_commissioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 2eac407..1c7d6c0 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -749,8 +749,8 @@ class SimulatedCommissioning:
                 offset2 = off0[0, ords[1]] - off0[0, ords[0]]
                 if ords[0] > ords[1]:
                     struct_length = ring_length + struct_length
-                    mask[ords[0]] = False
-                    mask = ~mask
+                    mask[ords[0]:] = True
+                    mask[:ords[1] + 1] = True
                 else:
                     mask[ords[1]] = True
                 roll0[0, mask] += roll_start0
-- 
2.43.0


From 99dbfa5647455aefee572513e486a8587e9ba6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 06/80] fix: support endpoints draw from their own
 uncertainties

---
 pySC/core/simulated_commissioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 1c7d6c0..5ceb105 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -584,7 +584,8 @@ class SimulatedCommissioning:
                         continue
                     setattr(self.RING[ordPair[0]], field, classdef_tools.randn_cutoff(value, nsigmas))
                     setattr(self.RING[ordPair[1]], field,
-                            classdef_tools.randn_cutoff(value, nsigmas) if field in self.SIG.Support[ordPair[1]].keys()
+                            classdef_tools.randn_cutoff(self.SIG.Support[ordPair[1]][field], nsigmas)
+                            if field in self.SIG.Support[ordPair[1]].keys()
                             else getattr(self.RING[ordPair[0]], field))
 
                 struct_length = np.remainder(s_pos[ordPair][1] - s_pos[ordPair][0], s_pos[-1])
-- 
2.43.0


From d6c69bd61b9981b97b8dcd32a5bb4d6740d35ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 07/80] fix: support errors can be applied repeatedly

---
 pySC/core/simulated_commissioning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 5ceb105..57fda73 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -579,6 +579,10 @@ class SimulatedCommissioning:
             for ordPair in self.ORD[support_type].T:
                 if ordPair[0] not in self.SIG.Support.keys():
                     continue
+                if any(support_type in field for field in self.SIG.Support[ordPair[0]]):
+                    for ind in ordPair:  # remove tilts and offsets of the previously applied errors
+                        setattr(self.RING[ind], f"{support_type}Offset", np.zeros(3))
+                        setattr(self.RING[ind], f"{support_type}Roll", np.zeros(3))
                 for field, value in self.SIG.Support[ordPair[0]].items():
                     if support_type not in field:
                         continue
-- 
2.43.0


From 239ad95577faa2d63f8dc5ff9711d14ed36eb74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 08/80] fix: model ring does not zero the dipole setpoints of
 the machine

---
 pySC/lattice_properties/response_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 5c3dea5..0fc2f8a 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -160,8 +160,8 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
     ring = SC.IDEALRING.deepcopy()
     for ord in range(len(SC.RING)):
         if hasattr(SC.RING[ord], 'SetPointA') and hasattr(SC.RING[ord], 'SetPointB'):
-            ring[ord].PolynomA = SC.RING[ord].SetPointA
-            ring[ord].PolynomB = SC.RING[ord].SetPointB
+            ring[ord].PolynomA = SC.RING[ord].SetPointA.copy()
+            ring[ord].PolynomB = SC.RING[ord].SetPointB.copy()
             ring[ord].PolynomA[0] = 0.0
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
-- 
2.43.0


From 4a26edd6ef43095a5d726d1425a899690348cb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 09/80] fix: model ring can include apertures

---
 pySC/lattice_properties/response_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 0fc2f8a..e506683 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -165,10 +165,10 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
             ring[ord].PolynomA[0] = 0.0
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
-            if 'EApertures' in SC.RING[ord]:
-                ring[ord].EApertures = SC.RING[ord].EApertures
-            if 'RApertures' in SC.RING[ord]:
-                ring[ord].RApertures = SC.RING[ord].RApertures
+            if hasattr(SC.RING[ord], 'EApertures'):
+                ring[ord].EApertures = SC.RING[ord].EApertures.copy()
+            if hasattr(SC.RING[ord], 'RApertures'):
+                ring[ord].RApertures = SC.RING[ord].RApertures.copy()
         if len(SC.ORD.RF) and hasattr(SC.RING[ord], 'Frequency'):
             for field in RF_PROPERTIES:
                 setattr(ring[ord], field, getattr(SC.RING[ord], f"{field}SetPoint"))
-- 
2.43.0


From d8e402497c83d1334408c743dc16c6b42aa144dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 10/80] fix: BPM noise of the lattice elements is not shared
 with the uncertainties

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 57fda73..c14b409 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -548,7 +548,7 @@ class SimulatedCommissioning:
         for ind in classdef_tools.intersect(self.ORD.BPM, self.SIG.BPM.keys()):
             for field in self.SIG.BPM[ind]:
                 if re.search('Noise', field):
-                    setattr(self.RING[ind], field, self.SIG.BPM[ind][field])
+                    setattr(self.RING[ind], field, copy.deepcopy(self.SIG.BPM[ind][field]))
                 else:
                     setattr(self.RING[ind], field, classdef_tools.randn_cutoff(self.SIG.BPM[ind][field], nsigmas))
         # Magnet
-- 
2.43.0


From 58f30a101fab45d686ca07ae6267965f0d5bef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 11/80] fix: magnet calibration errors can be given as a single
 value

---
 pySC/core/simulated_commissioning.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index c14b409..88b7b0c 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -554,8 +554,11 @@ class SimulatedCommissioning:
         # Magnet
         for ind in classdef_tools.intersect(self.ORD.Magnet, self.SIG.Magnet.keys()):
             for field in self.SIG.Magnet[ind]:
-                setattr(self.RING[ind], 'BendingAngleError' if field == 'BendingAngle' else field,
-                        classdef_tools.randn_cutoff(self.SIG.Magnet[ind][field], nsigmas))
+                error = classdef_tools.randn_cutoff(self.SIG.Magnet[ind][field], nsigmas)
+                if field in ("CalErrorA", "CalErrorB"):
+                    n_coefs = len(getattr(self.RING[ind], field.replace("CalError", "SetPoint")))
+                    error = classdef_tools.add_padded(np.zeros(n_coefs), np.atleast_1d(error))
+                setattr(self.RING[ind], 'BendingAngleError' if field == 'BendingAngle' else field, error)
         # Injection
         self.INJ.Z0 = self.INJ.Z0ideal + self.SIG.staticInjectionZ * sc_tools.randnc(nsigmas, (6,))
         self.INJ.randomInjectionZ = 1 * self.SIG.randomInjectionZ
-- 
2.43.0


From d91be2d3e72c6238d1d2e193f6aa457a06d17278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 12/80] fix: chromaticity fit keeps initial sextupole setpoints
 and applies its solution

---
 pySC/correction/chroma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/chroma.py b/pySC/correction/chroma.py
index 27b08ee..1ae818c 100644
--- a/pySC/correction/chroma.py
+++ b/pySC/correction/chroma.py
@@ -39,13 +39,13 @@ def fit_chroma(SC, s_ords, target_chroma=None, init_step_size=np.array([2, 2]),
     LOGGER.debug(f'Fitting chromaticities from {SC.RING.get_chrom()} to {target_chroma}.')  # first two elements
     SP0 = []
     for n in range(len(s_ords)):
-        SP0.append(np.zeros_like(s_ords[n]))
+        SP0.append(np.zeros(len(s_ords[n])))
     for nFam in range(len(s_ords)):
         for n in range(len(s_ords[nFam])):
             SP0[nFam][n] = SC.RING[s_ords[nFam][n]].SetPointB[2]
     fun = lambda x: _fit_chroma_fun(SC, s_ords, x, SP0, target_chroma)
     sol = fmin(fun, init_step_size, xtol=xtol, ftol=ftol)
-    # TODO needs to set the solution to SC
+    _fit_chroma_fun(SC, s_ords, sol, SP0, target_chroma)  # sets the solution to SC
     LOGGER.debug(f'        Final chromaticity: {SC.RING.get_chrom()}\n          Setpoints change: {sol}.')  # first two elements
     return SC
 
-- 
2.43.0


From 35d78cd0c86dcc5fe0edabca7fafbf56a615d6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 13/80] fix: injection trajectory fit minimises the deviation
 at every BPM

---
 pySC/correction/injection_fit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index 95a35e1..0df16fe 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -39,7 +39,8 @@ def fit_injection_trajectory(SC: SimulatedCommissioning, bpm_inds: ndarray = np.
     s_pos = at_wrapper.findspos(SC.RING)
     bref = bpm_reading(SC)[0][:, bpm_inds]
     delta_z0 = np.zeros(6)
-    delta_z0[0:4] = -fmin(_merit_function, np.zeros(4), args=(SC, bref, SC.ORD.BPM[bpm_inds]))
+    delta_z0[0:4] = -fmin(_merit_function, np.zeros(4), args=(SC, bref, SC.ORD.BPM[bpm_inds]),
+                           xtol=1e-8, ftol=1e-8)  # [m, rad] defaults are larger than the usual beam offsets
     if np.sum(np.isnan(delta_z0)):
         raise RuntimeError("Failed ")
     _log_initial_final_states(SC, delta_z0)
@@ -69,7 +70,7 @@ def _fit_bpm_data(s_bpm, bref):
 
 def _merit_function(x, SC, bref, ords_used):
     t = at_wrapper.lattice_track(SC.IDEALRING, np.concatenate((x, np.zeros(2))), 1, ords_used, keep_lattice=False)[[0, 2], 0, :, 0]
-    return np.sqrt(np.mean(bref - t) ** 2)
+    return np.sqrt(np.mean((bref - t) ** 2))
 
 
 def _log_initial_final_states(SC, delta_z0):
-- 
2.43.0


From 374bc68b71283c427ae128e238ecbfefcdd13672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 14/80] fix: tune scan restores the initial quadrupole
 setpoints

---
 pySC/correction/tune.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index cb38b9f..8403110 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -52,12 +52,13 @@ def tune_scan(SC, quad_ords, rel_quad_changes, target=1, n_points=60, do_plot=Fa
     inds = _golden_donut_inds(np.floor_divide(nqsp, 2), n_points=n_points)
     first_quads = [SC.RING[quad_ords[0][0]].FamName, SC.RING[quad_ords[1][0]].FamName]
     ords = np.hstack(quad_ords)
+    init_setpoints = np.array([SC.RING[ord].SetPointB[1] for ord in ords])
     for q1, q2 in inds.T:
         q_setpoints = np.hstack((np.ones(nq[0]) * rel_quad_changes[0][q1], np.ones(nq[1]) * rel_quad_changes[1][q2]))
         SC.set_magnet_setpoints(ords, q_setpoints, False, 1, method='rel')
         max_turns[q1, q2], surviving_fraction = beam_transmission(SC, nParticles=nParticles, nTurns=nTurns)
         transmission[q1, q2, :] = 1 * surviving_fraction
-        SC.set_magnet_setpoints(ords, 1 / q_setpoints, False, 1, method='rel')
+        SC.set_magnet_setpoints(ords, init_setpoints, False, 1, method='abs')
 
         if do_plot:
             f, ax = plot_scan(transmission[:, :, -1], max_turns, first_quads, rel_quad_changes)
-- 
2.43.0


From 5e6b91dc54e2ccd01e0b5b6d9f9cde77c6dd9c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 15/80] fix: tune scan accepts even numbers of scan values

---
 pySC/correction/tune.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index 8403110..9980e5e 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -49,7 +49,7 @@ def tune_scan(SC, quad_ords, rel_quad_changes, target=1, n_points=60, do_plot=Fa
     nqsp = np.array([len(rel_quad_changes[0]), len(rel_quad_changes[1])], dtype=int)
     max_turns = np.full((nqsp[0], nqsp[1]), np.nan)
     transmission = np.full((nqsp[0], nqsp[1], nTurns), np.nan)
-    inds = _golden_donut_inds(np.floor_divide(nqsp, 2), n_points=n_points)
+    inds = np.minimum(_golden_donut_inds(np.floor_divide(nqsp, 2), n_points=n_points), nqsp[:, np.newaxis] - 1)
     first_quads = [SC.RING[quad_ords[0][0]].FamName, SC.RING[quad_ords[1][0]].FamName]
     ords = np.hstack(quad_ords)
     init_setpoints = np.array([SC.RING[ord].SetPointB[1] for ord in ords])
-- 
2.43.0


From b4f630401072a0b5fa24f53985adf247959cda80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 16/80] fix: RF phase correction handles imprecise measurements
 and array free phase

---
 pySC/correction/rf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index 069b286..e417ad7 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -46,7 +46,7 @@ def correct_rf_phase(SC, cav_ords=None, bpm_ords=None, n_steps=15, plot_results=
 
     # Find zero crossing of fitted function
     sol = lambda x: _sin_fit_fun(x / lamb, param[0], param[1], param[2])
-    delta_phi = _fold_phase(fsolve(sol, test_vec[np.argmax(sol(test_vec))] - abs(test_vec[0]) / 2), lamb)
+    delta_phi = _fold_phase(fsolve(sol, test_vec[np.argmax(sol(test_vec))] - abs(test_vec[0]) / 2)[0], lamb)
     if np.abs(param[0]) < 2 * np.sqrt(param_cov[0, 0]) or np.abs(param[2]) < 2 * np.sqrt(param_cov[2, 2]):
         LOGGER.warning("Measurements is not sufficiently precise to make a correction")
         delta_phi = 0.0
@@ -54,7 +54,7 @@ def correct_rf_phase(SC, cav_ords=None, bpm_ords=None, n_steps=15, plot_results=
         raise RuntimeError('RF phase correction unsuccessful: NaN phase')
 
     SC.set_cavity_setpoints(cav_ords, delta_phi, 'TimeLag', 'add')
-    LOGGER.info(f'Time lag correction step: {delta_phi[0]:.3f} m\n')
+    LOGGER.info(f'Time lag correction step: {delta_phi:.3f} m\n')
     if plot_results:
         _plot_results((test_vec, bpm_shift, bpm_shift_err), sol, delta_phi, x_scale=360 / lamb, phase=True)
     return SC
-- 
2.43.0


From ae6ff188eb936a12c8e44acbd99a5d8030543466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 17/80] fix: static phase error is folded to half a period

---
 pySC/correction/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index e417ad7..5fb6c07 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -99,7 +99,7 @@ def phase_and_energy_error(SC, cav_ords):
     """This is not a simple observable in reality."""
     lamb = SPEED_OF_LIGHT / SC.RING[cav_ords[0]].Frequency
     orbit6 = at_wrapper.findorbit6(SC.RING)[0]
-    phase_error = _fold_phase((orbit6[5] - SC.INJ.Z0[5]) / lamb, lamb) * 360
+    phase_error = _fold_phase((orbit6[5] - SC.INJ.Z0[5]) / lamb, 1) * 360
     energy_error = SC.INJ.Z0[4] - orbit6[4]
     LOGGER.info(f'Static phase error {phase_error:.0f} deg')
     LOGGER.info(f'Energy error {1E2 * energy_error:.2f}%')
-- 
2.43.0


From 991487560655bfa4fb7dcc59166f2287703983a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 18/80] fix: LOCO least squares uses the Jacobian of the fitted
 parameters only

---
 pySC/correction/loco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 99568b4..272cab4 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -96,7 +96,7 @@ def loco_correction_ng(initial_guess0, orm_model, orm_measured, J, lengths, incl
     r = residuals.reshape(np.transpose(orm_model).shape)
     t2 = np.zeros([len(initial_guess[mask]), 1])
     for i in range(len(initial_guess[mask])):
-        t2[i] = np.sum(np.dot(np.dot(J[i].T, weights), r.T))
+        t2[i] = np.sum(np.dot(np.dot(J[mask][i].T, weights), r.T))
     return get_inverse(J[mask, :, :], t2, s_cut, weights, LM_lambda=LM_lambda)
 
 
-- 
2.43.0


From 12a133bbbabde567fbedddb04fdd739f78138419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 19/80] fix: measured response matrix restores clipped
 correctors

---
 pySC/correction/loco.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 272cab4..36cbd56 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -2,7 +2,7 @@ import at
 import numpy as np
 import multiprocessing
 from pySC.lattice_properties.response_model import SCgetModelRM, SCgetModelDispersion
-from pySC.core.constants import SETTING_ADD, TRACK_ORB
+from pySC.core.constants import SETTING_ABS, SETTING_ADD, TRACK_ORB
 from pySC.core.beam import bpm_reading
 import matplotlib.pyplot as plt
 from scipy.optimize import least_squares
@@ -71,9 +71,10 @@ def measure_closed_orbit_response_matrix(SC, bpm_ords, cm_ords, dkick=1e-5):
     cnt = 0
     for n_dim in range(2):
         for cm_ord in cm_ords[n_dim]:
+            init_setpoint = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim))
             SC.set_cm_setpoints(cm_ord, dkick, skewness=bool(n_dim), method=SETTING_ADD)
             closed_orbits1 = bpm_reading(SC, bpm_ords=bpm_ords)[0]
-            SC.set_cm_setpoints(cm_ord, -dkick, skewness=bool(n_dim), method=SETTING_ADD)
+            SC.set_cm_setpoints(cm_ord, init_setpoint, skewness=bool(n_dim), method=SETTING_ABS)
             response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / dkick)
             cnt = cnt + 1
     return response_matrix
-- 
2.43.0


From 00481f3ef75539db56e666fede43a0bcbc51d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 20/80] fix: stitching and balancing do not modify the given
 reference

---
 pySC/correction/orbit_trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 2d0d444..afa77a8 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -142,7 +142,7 @@ def stitch(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, n_b
             raise RuntimeError("Not enough transmission for stitching to work.")
 
     # Prepare reference
-    reference = reference.reshape(2, len(bpm_readings[0]))
+    reference = reference.copy().reshape(2, len(bpm_readings[0]))
     reference[:, len(bpm_ords):] = 0
     reference = reference.reshape(response_matrix.shape[0])
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
@@ -209,7 +209,7 @@ def balance(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, ep
         raise ValueError("Balancing works only with full 2 turn transmission.")
 
     # Prepare reference
-    reference = reference.reshape(2, len(bpm_readings[0]))
+    reference = reference.copy().reshape(2, len(bpm_readings[0]))
     reference[:, len(bpm_ords):] = 0
     reference = reference.reshape(response_matrix.shape[0])
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
-- 
2.43.0


From c2effda97cb9a89a68c4bd80a6c64328f78371ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 21/80] fix: structure verification handles split magnets

---
 pySC/core/simulated_commissioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 88b7b0c..a62924d 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1026,9 +1026,9 @@ class SimulatedCommissioning:
                         LOGGER.warning(f'Field "{field:s}" in SC.SIG.Magnet doesnt match lattice element (Magnet ord: {ord:d})')
             if hasattr(self.RING[ord],'MasterOf'):
                 for cOrd in self.RING[ord].MasterOf:
-                    for field in self.RING[cOrd]:
+                    for field in self.RING[cOrd].__dict__:
                         if not hasattr(self.RING[ord],field): 
-                            LOGGER.warning(f'Child magnet (ord: {ord:d}) has different field "{field:s}" than master magnet (ord: %{cOrd:d}).')
+                            LOGGER.warning(f'Child magnet (ord: {ord:d}) has different field "{field:s}" than master magnet (ord: {cOrd:d}).')
        
         if len(self.ORD.RF) == 0:
             LOGGER.warning('No cavity registered. Use "SCregisterCavity".')
-- 
2.43.0


From e974537e7ac0a72c1ffa6085e7f53a160f87ac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 22/80] fix: exactly reproducible orbits count as converged

---
 pySC/correction/orbit_trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index afa77a8..e6b8803 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -371,7 +371,7 @@ def _golden_donut_diffs(r0, r1, n_points):
 def _is_stable_or_converged(n, eps, hist):  # TODO rethink
     if len(hist) < n:
         return False
-    return (np.var(hist[-n:]) / np.std(hist[-n:])) < eps
+    return np.std(hist[-n:]) < eps
 
 
 def _wiggling(SC, bpm_ords, cm_ords, transmission_limit, nums_correctors=range(1, 9)):
-- 
2.43.0


From b2ee93938c955d175c49c8667e490204b740fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 23/80] fix: closed orbit deviation at magnets can be
 calculated

---
 pySC/lattice_properties/magnet_orbit.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pySC/lattice_properties/magnet_orbit.py b/pySC/lattice_properties/magnet_orbit.py
index 75423f0..ccd5214 100644
--- a/pySC/lattice_properties/magnet_orbit.py
+++ b/pySC/lattice_properties/magnet_orbit.py
@@ -8,15 +8,15 @@ LOGGER = logging_tools.get_logger(__name__)
 def SCgetCOD(SC, ords=None, plot=False):
     if ords is None:
         ords = SC.ORD.Magnet
-    T = at_wrapper.findorbit6(SC.RING, ords)
-    if any(np.isnan(T)):
+    T = np.transpose(at_wrapper.findorbit6(SC.RING, ords)[1])
+    if np.any(np.isnan(T)):
         LOGGER.error('Closed orbit could not be found.')
-        COD = np.nan(2, len(ords))
+        COD = np.full((2, len(ords)), np.nan)
         return COD
     magOffset = np.zeros((2, len(ords)))
     for i, ord in enumerate(ords):
-        magOffset[:, i] = SC.RING[ord].T2([1, 3])
-    COD = T[[1, 3], :] - magOffset
+        magOffset[:, i] = SC.RING[ord].T2[[0, 2]]
+    COD = T[[0, 2], :] - magOffset
     if plot:
         sPos = at_wrapper.findspos(SC.RING)[ords]
         ylabelStr = ['$\Delta x$ [mm]', '$\Delta y$ [mm]']
@@ -30,7 +30,6 @@ def SCgetCOD(SC, ords=None, plot=False):
             plt.legend(['COD in magnets', 'Magnet offset', 'Orbit'])
             plt.xlabel('s [m]')
             plt.ylabel(ylabelStr[nDim])
-            plt.gca().set_box(True)
             plt.gca().set_xlim([min(sPos), max(sPos)])
         plt.gcf().set_size_inches(8, 12)
         plt.gcf().set_dpi(100)
-- 
2.43.0


From 85ef8ed3ef8f4d160dd19fa6bc0e3d53fdfed1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 24/80] fix: multipole tables without unique nominal order can
 be read

---
 pySC/utils/sc_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/sc_tools.py b/pySC/utils/sc_tools.py
index ab1027d..21adb41 100644
--- a/pySC/utils/sc_tools.py
+++ b/pySC/utils/sc_tools.py
@@ -159,7 +159,7 @@ def read_multipoles(fname):  # TODO sample of the input anywhere?
     idx = np.where(AB == 1)
     if len(idx[0]) != 1:
         LOGGER.warning('Nominal order could not be (uniquely) determined. Continuing with idx=1.')
-        idx = 1
+        idx = (np.zeros(1, dtype=int), np.zeros(1, dtype=int))
     order, type = idx[0][0], idx[1][0]
     if type > 2:
         LOGGER.error('Ill-defined magnet type.')
-- 
2.43.0


From 2050e11cf9d015ef701a35f91513887fe1c64b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 25/80] fix: dispersion can be measured in more than two steps

---
 pySC/lattice_properties/response_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 33dbb60..63c9294 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -73,7 +73,7 @@ def dispersion(SC, rf_step, bpm_ords=None, cav_ords=None, n_steps=2):
         SC.set_cavity_setpoints(cav_ords, rf_steps[:, nStep], 'Frequency', 'abs')
         dB[nStep, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
     SC.set_cavity_setpoints(cav_ords, rf0, 'Frequency', 'abs')
-    return np.linalg.lstsq(np.linspace(-rf_step, rf_step, n_steps), dB)[0]
+    return np.linalg.lstsq(np.linspace(-rf_step, rf_step, n_steps)[:, np.newaxis], dB, rcond=None)[0].ravel()
 
 
 def _check_ords(SC, bpm_ords, cav_ords):
-- 
2.43.0


From 06bc0b488f4e6969740db8641e752e9b4b75e661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 26/80] fix: response matrix can be measured

---
 pySC/lattice_properties/response_measurement.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 63c9294..77d7bc4 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -8,7 +8,7 @@ LOGGER = logging_tools.get_logger(__name__)
 
 
 def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit_order=1):
-    if ((not isinstance(amp, list) and not len(amp) == 1) or
+    if ((not isinstance(amp, list) and not np.size(amp) == 1) or
             (isinstance(amp, list) and (len(amp[0]) != len(cm_ords[0]) or len(amp[1]) != len(cm_ords[1])))):
         raise ValueError('response_matrix amplitude must be defined as single value or '
                          'array matching the number of used HCM and VCM.')
@@ -40,15 +40,15 @@ def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit
                         gradient[n_step, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
                 dCM = real_cm_setpoint - cmstart[nCM]
                 cm_steps[n_dim][:, nCM] = dCM
-                rm[:, i] = gradient / dCM
-            else:
-                dCM = max_step
-                cm_steps[n_dim][:, nCM] = dCM
                 for nBPM in range(gradient.shape[1]):
                     x = dCM[~np.isnan(gradient[:, nBPM])]
                     y = gradient[~np.isnan(gradient[:, nBPM]), nBPM]
                     rm[nBPM, i] = np.polyfit(x, y, fit_order)[fit_order - 1]
                     error[nBPM, i] = np.sqrt(np.mean((rm[nBPM, i] * x - y).T ** 2))
+            else:
+                dCM = max_step
+                cm_steps[n_dim][:, nCM] = dCM
+                rm[:, i] = gradient / dCM
             i = i + 1
             SC.set_cm_setpoints(cm_ords[n_dim][nCM], cmstart[nCM], skewness=bool(n_dim))
     rm[np.isnan(rm)] = 0
@@ -100,7 +100,7 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
         else:
             max_step *= decrease_factor
             LOGGER.debug(
-                f'Insufficient beam reach ({max_pos:d}/{max_pos_ref:d}). '
+                f'Insufficient beam reach ({max_pos:.0f}/{max_pos_ref:.0f}). '
                 f'cm_step reduced to {1E6 * max_step:.1f}urad.')
     return max_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
 
-- 
2.43.0


From 5fb231fb3bc2228ca1a702a1b9ed58fed7e3214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 27/80] fix: tunes can be fitted with quadrupole families

---
 pySC/correction/tune.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index 9980e5e..4d6bbe6 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -135,19 +135,17 @@ def fit_tune(SC, q_ords, target_tune=None, xtol=1E-4, ftol=1E-3, fit_integer=Tru
     if target_tune is None:
         target_tune = tune(SC, fit_integer, ideal=True)
     LOGGER.debug(f'Fitting tunes from [{tune(SC, fit_integer)}] to [{target_tune}].')
-    SP0 = np.zeros((len(q_ords), len(q_ords[0])))  # TODO can the lengts vary
-    for nFam in range(len(q_ords)):
-        for n in range(len(q_ords[nFam])):
-            SP0[nFam][n] = SC.RING[q_ords[nFam][n]].SetPointB[1]
+    SP0 = [np.array([SC.RING[ord].SetPointB[1] for ord in fam_ords]) for fam_ords in q_ords]
     fun = lambda x: _fit_tune_fun(SC, q_ords, x, SP0, target_tune, fit_integer)
-    sol = fmin(fun, xtol=xtol, ftol=ftol)
-    SC.set_magnet_setpoints(q_ords, sol + SP0, False, 1, method='abs', dipole_compensation=True)
+    sol = fmin(fun, np.zeros(len(q_ords)), xtol=xtol, ftol=ftol)
+    _fit_tune_fun(SC, q_ords, sol, SP0, target_tune, fit_integer)  # sets the solution to SC
     LOGGER.debug(f'       Final tune: [{tune(SC, fit_integer)}]\n  Setpoints change: [{sol}]')
     return SC
 
 
 def _fit_tune_fun(SC, q_ords, setpoints, init_setpoints, target, fit_integer):
-    SC.set_magnet_setpoints(q_ords, setpoints + init_setpoints, False, 1, method='abs', dipole_compensation=True)
+    for n in range(len(q_ords)):
+        SC.set_magnet_setpoints(q_ords[n], setpoints[n] + init_setpoints[n], False, 1, method='abs', dipole_compensation=True)
     nu = tune(SC, fit_integer)
     return np.sqrt(np.mean((nu - target) ** 2))
 
@@ -155,7 +153,7 @@ def _fit_tune_fun(SC, q_ords, setpoints, init_setpoints, target, fit_integer):
 def tune(SC, fit_integer: bool = False, ideal: bool = False):
     ring = SC.IDEALRING if ideal else SC.RING
     if fit_integer:
-        ld, _, _ = atlinopt(ring, 0, range(len(ring) + 1))
-        return ld[-1].mu / 2 / np.pi
-    _, nu, _ = atlinopt(ring, 0)
-    return nu
+        _, _, ld = atlinopt(ring, range(len(ring) + 1))
+        return ld[-1].mu[0:2] / 2 / np.pi
+    _, ring_data, _ = atlinopt(ring)
+    return ring_data.tune[0:2]
-- 
2.43.0


From 428a2615e840aebc04c14f77b6eff5a10fdfcfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 28/80] fix: synchrotron energy correction wrapper calls the
 frequency correction with its options

---
 pySC/matlab_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index 082f0c9..a51800b 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -316,7 +316,7 @@ def SCsynchEnergyCorrection(SC, /, *, cavOrd=None, f_range=(-1E3, 1E3), nSteps=1
                             plotProgress=False, verbose=False):
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
-    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps, minTurns=minTurns,
+    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
                            plot_results=plotResults, plot_progress=plotProgress, )
     SC.INJ.nTurns = init_nturns
     return SC
-- 
2.43.0


From 3919904d2f572577902b27efc0cdb62f9cf55ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 29/80] fix: response matrix uses the actual kick of clipped
 correctors

---
 pySC/lattice_properties/response_measurement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 77d7bc4..c80e2dc 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -108,8 +108,9 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
 def _try_setpoint(SC, bpm_ords, cm_ord, cmstart, max_step, skewness):
     SC.set_cm_setpoints(cm_ord, cmstart + max_step, skewness)
     real_cm_setpoint = SC.get_cm_setpoints(cm_ord, skewness)
-    if real_cm_setpoint != (cmstart + max_step):
+    if not np.allclose(real_cm_setpoint, cmstart + max_step, rtol=1E-9, atol=0):
         LOGGER.debug('CM  clipped. Using different CM direction.')
         max_step *= -1
         SC.set_cm_setpoints(cm_ord, cmstart + max_step, skewness)
+        max_step = (SC.get_cm_setpoints(cm_ord, skewness) - cmstart)[0]
     return SC, max_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0])
-- 
2.43.0


From df22451538ceb84a8cb8ba8df1de5a1674c4425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 30/80] fix: LOCO measurement can be taken

---
 pySC/correction/loco_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index 1aff83e..e0b0e38 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -59,8 +59,8 @@ def loco_measurement(SC, CMstep, deltaRF, BPMords, CMords, **kwargs):
     loco_meas_data.RF = SC.RING[SC.ORD.RF[0]].Frequency
     loco_meas_data.DeltaRF = deltaRF
     loco_meas_data.BPMSTD = 1E-3 * np.ones(2 * len(BPMords))  # [mm]
-    RM, Err, CMsteps = response_matrix(SC, CMstep, BPMords, CMords, *kwargs)
-    CMsteps = [np.max(np.abs(CMsteps[0]), axis=1), np.max(np.abs(CMsteps[1]), axis=1)]
+    RM, Err, CMsteps = response_matrix(SC, CMstep, BPMords, CMords, **kwargs)
+    CMsteps = [np.max(np.abs(CMsteps[0]), axis=0), np.max(np.abs(CMsteps[1]), axis=0)]
     loco_meas_data.M = 2 * 1000 * np.concatenate((CMsteps[0], CMsteps[1])) * RM
     loco_meas_data.Eta = deltaRF * 1000 * dispersion(SC, rf_step=deltaRF, bpm_ords=BPMords, n_steps=3)
     return loco_meas_data, CMsteps
-- 
2.43.0


From 1ed1bcd4cf1f098756bbe96c9fd8df7203104927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 31/80] fix: LOCO corrector structure without corrector steps

---
 pySC/correction/loco_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index e0b0e38..d9462c2 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -43,6 +43,8 @@ def loco_cm_structure(SC, cmords=None, cm_steps=None, **kwargs):
                            HCMsteps=np.ones(n_hcms), VCMsteps=np.ones(n_vcms),
                            HCMKicks=2e3 * np.ones(n_hcms), VCMKicks=2e3 * np.ones(n_vcms)  # [mrad] TODO why 2?
                            ))
+    if cm_steps is None:
+        cm_steps = 1
     if isinstance(cm_steps, (int, float)) or len(cm_steps) == 1:
         cm_data.HCMsteps *= cm_steps
         cm_data.VCMsteps *= cm_steps
-- 
2.43.0


From 5b06d4a8d7d76832a73364aea747f5614a3358a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 32/80] fix: applying a lattice correction returns the machine

---
 pySC/correction/loco_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index d9462c2..0d289f9 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -107,7 +107,7 @@ def apply_lattice_correction(SC, fit_parameters, dipole_compensation=True, dampi
                 SC.set_magnet_setpoints(ord, setpoint, False, 1, dipole_compensation=dipole_compensation)
             elif field == 'SetPointA':  # Skew quadrupole
                 SC.set_magnet_setpoints(ord, setpoint, True, 1)
-    SC = SC.update_magnets(SC.ORD.Magnet)
+    SC.update_magnets(SC.ORD.Magnet)
     return SC
 
 
-- 
2.43.0


From 6131ce756c246ddba2a6d032be64e44094967a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 33/80] fix: diagnostic correction from LOCO results can be
 applied

---
 pySC/correction/loco_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index 0d289f9..0f87f1d 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -112,7 +112,7 @@ def apply_lattice_correction(SC, fit_parameters, dipole_compensation=True, dampi
 
 
 def applyDiagnosticCorrection(SC, cm_step, CMData, BPMData, CMcalOffsets=None, meanToZero=False, outlierRemovalAt=None):
-    if not isinstance(cm_step, list) and not len(cm_step) == 1:
+    if not isinstance(cm_step, list) and not np.size(cm_step) == 1:
         raise ValueError(
             'CM steps must be defined as single value or cell array matching the number of used HCM and VCM.')
     if not isinstance(cm_step, list):
@@ -132,11 +132,11 @@ def applyDiagnosticCorrection(SC, cm_step, CMData, BPMData, CMcalOffsets=None, m
                 fit_cal_cm = fit_cal_cm + np.mean(1 - fit_cal_cm)
             i = 0
             for ord in CMData[fields[nDim] + 'CMIndex']:
-                SC.RING[ord][sc_fields[nDim]][0] = SC.RING[ord][sc_fields[nDim]][0] + (1 - fit_cal_cm[i])
+                getattr(SC.RING[ord], sc_fields[nDim])[0] += 1 - fit_cal_cm[i]
                 i = i + 1
         if BPMData.FitGains:
-            fit_cal_bpm = BPMData[fields[nDim] + 'BPMGain']
-            if not outlierRemovalAt == []:
+            fit_cal_bpm = BPMData[fields[nDim] + 'BPMGain'].copy()
+            if outlierRemovalAt is not None:
                 fit_cal_bpm[np.abs(1 - fit_cal_bpm) >= outlierRemovalAt] = 1
             if meanToZero:
                 fit_cal_bpm = fit_cal_bpm + np.mean(1 - fit_cal_bpm)
-- 
2.43.0


From 739a8ae74ec1709a8299fff85068baca690634b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 34/80] fix: averaged turn-by-turn orbit handles BPMs not
 reached by the beam

---
 pySC/core/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index 195c5b3..dc856ca 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -55,7 +55,7 @@ def bpm_reading(SC: SimulatedCommissioning, bpm_ords: ndarray = None, calculate_
     if SC.plot:
         _plot_bpm_reading(SC, mean_bpm_orbits_3d, bpm_inds)
     if SC.INJ.trackMode == TRACK_PORB:   # ORB averaged over low amount of turns
-        mean_bpm_orbits_3d = np.average(np.ma.array(mean_bpm_orbits_3d, mask=np.isnan(mean_bpm_orbits_3d)),
+        mean_bpm_orbits_3d = np.ma.average(np.ma.array(mean_bpm_orbits_3d, mask=np.isnan(mean_bpm_orbits_3d)),
                                         weights=np.ma.array(mean_bpm_sums_3d, mask=np.isnan(mean_bpm_sums_3d)), axis=2,
                                         keepdims=True).filled(np.nan)
         mean_bpm_sums_3d = np.nansum(mean_bpm_sums_3d, axis=2, keepdims=True) / SC.INJ.nTurns
-- 
2.43.0


From 22e485734bb233fd7790f8eca2ac6280f6ecafb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 35/80] fix: multipole tables of a magnet can be replaced by
 shorter ones

---
 pySC/core/simulated_commissioning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index a62924d..6c0f8f6 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1092,6 +1092,8 @@ class SimulatedCommissioning:
                     polynom_errors = getattr(self.RING[target_ord], f'SysPol{target}From{source}')
                     for n in polynom_errors.keys():
                         new_polynom = classdef_tools.add_padded(new_polynom, polynoms[source][n] * polynom_errors[n])
+            if len(new_polynom) <= getattr(self.RING[target_ord], "MaxOrder", 0):
+                self.RING[target_ord].MaxOrder = len(new_polynom) - 1
             setattr(self.RING[target_ord], f"Polynom{target}", new_polynom)
 
         if hasattr(self.RING[source_ord], 'BendingAngleError'):
-- 
2.43.0


From a74afeb900cdef1460967d79c45fffdab467e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 36/80] fix: uncertainties are not shared with the caller's
 arrays or between elements

---
 pySC/core/simulated_commissioning.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 6c0f8f6..ada5ee4 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -127,7 +127,7 @@ class SimulatedCommissioning:
         for ind in np.unique(ords):
             if ind not in self.SIG.BPM.keys():
                 self.SIG.BPM[ind] = DotDict()
-            self.SIG.BPM[ind].update(kwargs)
+            self.SIG.BPM[ind].update(copy.deepcopy(kwargs))
 
             self.RING[ind].Noise = np.zeros(2)
             self.RING[ind].NoiseCO = np.zeros(2)
@@ -185,7 +185,7 @@ class SimulatedCommissioning:
         for ind in np.unique(ords):
             if ind not in self.SIG.RF.keys():
                 self.SIG.RF[ind] = DotDict()
-            self.SIG.RF[ind].update(kwargs)
+            self.SIG.RF[ind].update(copy.deepcopy(kwargs))
             for field in RF_PROPERTIES:
                 setattr(self.RING[ind], f"{field}SetPoint", getattr(self.RING[ind], field))
                 setattr(self.RING[ind], f"{field}Offset", 0)
@@ -325,7 +325,7 @@ class SimulatedCommissioning:
         for ind in ords:
             if ind not in self.SIG.Magnet.keys():
                 self.SIG.Magnet[ind] = DotDict()
-            self.SIG.Magnet[ind].update(nvpairs)
+            self.SIG.Magnet[ind].update(copy.deepcopy(nvpairs))
         # TODO Correctors
             for ab in AB:
                 order = len(getattr(self.RING[ind], f"Polynom{ab}"))
@@ -433,7 +433,7 @@ class SimulatedCommissioning:
             if ind not in self.SIG.Support.keys():
                 self.SIG.Support[ind] = DotDict()
         for ord_pair in support_ords.T:
-            for key, value in kwargs.items():
+            for key, value in copy.deepcopy(kwargs).items():
                 if isinstance(value, list):
                     if value[0].ndim == 1:
                         self.SIG.Support[ord_pair[0]][f"{support_type}{key}"] = value
-- 
2.43.0


From 189d67588d970e0a6883f8a3479178f36c54f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 37/80] fix: deep copy of a machine keeps its design lattice

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index ada5ee4..4506dad 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -960,7 +960,7 @@ class SimulatedCommissioning:
         copied_structure.IDEALRING = self.IDEALRING.deepcopy()
         for ind, element in enumerate(self.RING):
             copied_structure.RING[ind] = element.deepcopy()
-            copied_structure.IDEALRING[ind] = element.deepcopy()
+            copied_structure.IDEALRING[ind] = self.IDEALRING[ind].deepcopy()
         return copied_structure
 
     def verify_structure(self):
-- 
2.43.0


From f042ee7e66a9ee378d886427838a9dd271e3f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 38/80] fix: elements at the boundary of a support get the
 displacement of that support

---
 pySC/core/simulated_commissioning.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 4506dad..df7cca1 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -688,10 +688,10 @@ class SimulatedCommissioning:
         s_pos = at_wrapper.findspos(self.RING)
         if offset_magnets:
             if len(self.ORD.Magnet):
-                offsets, rolls = self.support_offset_and_roll(s_pos[self.ORD.Magnet])
-                for i, ind in enumerate(self.ORD.Magnet):
-                    setattr(self.RING[ind], "SupportOffset", offsets[:, i])
-                    setattr(self.RING[ind], "SupportRoll", rolls[:, i])
+                offsets, rolls = self.support_offset_and_roll(s_pos)
+                for ind in self.ORD.Magnet:
+                    setattr(self.RING[ind], "SupportOffset", offsets[:, ind])
+                    setattr(self.RING[ind], "SupportRoll", rolls[:, ind])
                     self.RING[ind] = sc_tools.update_transformation(self.RING[ind])
                     if hasattr(self.RING[ind], 'MasterOf'):
                         for child_ind in self.RING[ind].MasterOf:
@@ -701,11 +701,11 @@ class SimulatedCommissioning:
                 LOGGER.warning('SC: No magnets have been registered!')
         if offset_bpms:
             if len(self.ORD.BPM):
-                offsets, rolls = self.support_offset_and_roll(s_pos[self.ORD.BPM])
-                for i, ind in enumerate(self.ORD.BPM):
-                    setattr(self.RING[ind], "SupportOffset", offsets[0:2, i])  # No longitudinal BPM offsets implemented
+                offsets, rolls = self.support_offset_and_roll(s_pos)
+                for ind in self.ORD.BPM:
+                    setattr(self.RING[ind], "SupportOffset", offsets[0:2, ind])  # No longitudinal BPM offsets implemented
                     setattr(self.RING[ind], "SupportRoll",
-                            rolls[0, i])  # BPM pitch and yaw angles not  implemented
+                            rolls[0, ind])  # BPM pitch and yaw angles not  implemented
             else:
                 LOGGER.warning('SC: No BPMs have been registered!')
 
-- 
2.43.0


From c3d9f5bfd17e6b3ffdc510f026bb5adb71807381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 39/80] fix: magnets on a pitched support tilt with the support

---
 pySC/core/simulated_commissioning.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index df7cca1..ca24fb4 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -604,11 +604,11 @@ class SimulatedCommissioning:
                     if f"{support_type}Offset" in self.SIG.Support[ordPair[1]].keys():
                         raise Exception(f'Pitch angle errors can not be given explicitly if {support_type} '
                                         f'start and endpoints each have offset uncertainties.')
-                    offsets0[1] -= rolls0[1] * struct_length / 2
-                    offsets1[1] += rolls0[1] * struct_length / 2
+                    offsets0[1] += rolls0[1] * struct_length / 2  # positive rotation around x-axis lowers the end
+                    offsets1[1] -= rolls0[1] * struct_length / 2
 
                 else:
-                    rolls0[1] = (offsets1[1] - offsets0[1]) / struct_length
+                    rolls0[1] = -(offsets1[1] - offsets0[1]) / struct_length
                 if rolls0[2] != 0:
                     if f"{support_type}Offset" in self.SIG.Support[ordPair[1]].keys():
                         raise Exception(f'Yaw angle errors can not be given explicitly if {support_type} '
@@ -762,7 +762,7 @@ class SimulatedCommissioning:
                 else:
                     mask[ords[1]] = True
                 roll0[0, mask] += roll_start0
-                roll0[1, mask] = offset1 / struct_length
+                roll0[1, mask] = -offset1 / struct_length  # positive rotation around x-axis lowers the end
                 roll0[2, mask] = offset2 / struct_length
 
         if not np.array_equal(s_locations, s_pos):
-- 
2.43.0


From c7e9da659518e664a4268785a93cf83e5d324ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 40/80] fix: bunches follow beam size matrices with equal or
 vanishing eigenvalues

---
 pySC/core/beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index dc856ca..79b727b 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -162,8 +162,8 @@ def generate_bunches(SC: SimulatedCommissioning, nParticles=None) -> ndarray:
         nParticles = SC.INJ.nParticles
     Z = np.tile(np.transpose(SC.INJ.randomInjectionZ * sc_tools.randnc(2, (1, 6)) + SC.INJ.Z0), nParticles)
     if nParticles != 1:
-        V, L = np.linalg.eig(SC.INJ.beamSize)
-        Z += L @ np.diag(np.sqrt(V)) @ sc_tools.randnc(3, (6, nParticles))
+        V, L = np.linalg.eigh(SC.INJ.beamSize)
+        Z += L @ np.diag(np.sqrt(np.maximum(V, 0))) @ sc_tools.randnc(3, (6, nParticles))
     return SC.INJ.postFun(Z)
 
 
-- 
2.43.0


From 5dacd8f26494e650b418cfd0e1aa079b7f12fa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 41/80] fix: removing more singular values than there are
 leaves none

---
 pySC/utils/sc_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/sc_tools.py b/pySC/utils/sc_tools.py
index 21adb41..eff2a9f 100644
--- a/pySC/utils/sc_tools.py
+++ b/pySC/utils/sc_tools.py
@@ -87,7 +87,7 @@ def pinv(matrix: ndarray, num_removed: int = 0, alpha: float = 0, damping: float
         The pseudo-inverse of the matrix.
     """
     u_mat, s_mat, vt_mat = np.linalg.svd(matrix, full_matrices=False)
-    num_singular_values = s_mat.shape[0] - num_removed if num_removed > 0 else s_mat.shape[0]
+    num_singular_values = max(s_mat.shape[0] - num_removed, 0) if num_removed > 0 else s_mat.shape[0]
     available = np.sum(s_mat > 0.)
     keep = min(num_singular_values, available)
     d_mat = np.zeros(s_mat.shape)
-- 
2.43.0


From 6da9dcda067cbef773730142567437ff75f21350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 42/80] fix: pseudo-inverse of rank-deficient matrices ignores
 vanishing singular values

---
 pySC/utils/sc_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/sc_tools.py b/pySC/utils/sc_tools.py
index eff2a9f..b72b162 100644
--- a/pySC/utils/sc_tools.py
+++ b/pySC/utils/sc_tools.py
@@ -88,7 +88,7 @@ def pinv(matrix: ndarray, num_removed: int = 0, alpha: float = 0, damping: float
     """
     u_mat, s_mat, vt_mat = np.linalg.svd(matrix, full_matrices=False)
     num_singular_values = max(s_mat.shape[0] - num_removed, 0) if num_removed > 0 else s_mat.shape[0]
-    available = np.sum(s_mat > 0.)
+    available = np.sum(s_mat > np.max(s_mat, initial=0.) * max(matrix.shape) * np.finfo(float).eps)
     keep = min(num_singular_values, available)
     d_mat = np.zeros(s_mat.shape)
     d_mat[:available] = s_mat[:available] / (np.square(s_mat[:available]) + alpha**2) if alpha else 1/s_mat[:available]
-- 
2.43.0


From ec1e9341db14054334218e6635f0136f75722fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 43/80] fix: missing values do not count as samples in error
 estimates

---
 pySC/utils/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/stats.py b/pySC/utils/stats.py
index fafc5d8..f2cab68 100644
--- a/pySC/utils/stats.py
+++ b/pySC/utils/stats.py
@@ -286,7 +286,7 @@ def effective_sample_size(data, weights, axis=None):
         Returns the error of weighted circular average along the specified axis.
     """
     if weights is None:
-        sample_size = np.sum(np.ones(data.shape), axis=axis)
+        sample_size = np.ma.count(data, axis=axis)
     else:
         sample_size = np.square(np.sum(weights, axis=axis)) / np.sum(np.square(weights), axis=axis)
     return np.where(sample_size > 2, sample_size, 2)
-- 
2.43.0


From 01fe0665bec68f047ca1dc5374980cbdee16fbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 44/80] fix: circular rms has the unit of the data and is
 periodic

---
 pySC/utils/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/stats.py b/pySC/utils/stats.py
index f2cab68..35b83b4 100644
--- a/pySC/utils/stats.py
+++ b/pySC/utils/stats.py
@@ -186,7 +186,7 @@ def circular_rms(data, period=PI2, axis=None):
     Returns:
         Returns the circular root mean square along the specified axis.
     """
-    return np.sqrt(circular_mean(np.square(data / period), period=1, axis=axis) * period)
+    return rms(np.angle(np.exp(data * PI2I / period)) * period / PI2, axis=axis)
 
 
 def rms(data, axis=None):
-- 
2.43.0


From 8c05d073831147f27fd06fe35c48721826e39578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 45/80] fix: plot_lattice restores the plot range of the
 lattice when plotting fails

---
 pySC/plotting/plot_lattice.py | 63 ++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/pySC/plotting/plot_lattice.py b/pySC/plotting/plot_lattice.py
index 4e9fd08..43781da 100644
--- a/pySC/plotting/plot_lattice.py
+++ b/pySC/plotting/plot_lattice.py
@@ -56,37 +56,38 @@ def plot_lattice(SC,
     s_range = _get_s_range(ring, s_range, indices, n_sectors)
     # assign s_range in lattice, to be used by plot_beta and plot_synopt
     initial_s_range = ring.s_range
-    ring.s_range = s_range
-
-    # define figure
-    fig, (axtop, axcent, axbottom) = plt.subplots(nrows=3, ncols=1, figsize=(10, 8))
-    for ax in (axtop, axcent, axbottom):
-        ax.set_xlim(s_range)
-
-    # get input twiss for transferline mode
-    top_kwargs = dict(axes=(axtop, axtop.twinx()), s_range=s_range)
-    if transfer_line and hasattr(ring[0], 'TD'):
-        top_kwargs["twiss_in"] = ring[0].TD  # input optics of TL plot
-
-    axtop, _ = baseplot(ring, plot_data_beta_disp, **top_kwargs)
-    axsyntop = plot_synoptic(SC, axes=axtop)
-    handles, labels = axsyntop.get_legend_handles_labels()
-    axsyntop.legend(handles, labels, bbox_to_anchor=(0., 1.02, 1., .15), loc='lower center', ncols=5, borderaxespad=0.)
-
-    # plot apertures within +- 10 cm
-    axcent, _ = baseplot(ring, plot_data_apertures, axes=(axcent, None), s_range=s_range, cut_off=0.1)
-    plot_synoptic(SC, axes=axcent, famnames=plot_magnet_names)
-    axcent.set_ylim(np.array(axcent.get_ylim()) * 1.3)
-
-    axsynbottom = plot_synoptic(SC, axes=axbottom, correctors=True)
-    axsynbottom.legend(loc='upper center', ncol=4)
-    axsynbottom.set_ylim([-2.5, 2.5])
-    plot_synoptic(SC, axes=axbottom, correctors=False)
-    axbottom.set_yticks([], [])
-    axbottom.set_xlabel("s [m]")
-
-    # restore initial s_range
-    ring.s_range = initial_s_range
+    try:
+        ring.s_range = s_range
+
+        # define figure
+        fig, (axtop, axcent, axbottom) = plt.subplots(nrows=3, ncols=1, figsize=(10, 8))
+        for ax in (axtop, axcent, axbottom):
+            ax.set_xlim(s_range)
+
+        # get input twiss for transferline mode
+        top_kwargs = dict(axes=(axtop, axtop.twinx()), s_range=s_range)
+        if transfer_line and hasattr(ring[0], 'TD'):
+            top_kwargs["twiss_in"] = ring[0].TD  # input optics of TL plot
+
+        axtop, _ = baseplot(ring, plot_data_beta_disp, **top_kwargs)
+        axsyntop = plot_synoptic(SC, axes=axtop)
+        handles, labels = axsyntop.get_legend_handles_labels()
+        axsyntop.legend(handles, labels, bbox_to_anchor=(0., 1.02, 1., .15), loc='lower center', ncols=5, borderaxespad=0.)
+
+        # plot apertures within +- 10 cm
+        axcent, _ = baseplot(ring, plot_data_apertures, axes=(axcent, None), s_range=s_range, cut_off=0.1)
+        plot_synoptic(SC, axes=axcent, famnames=plot_magnet_names)
+        axcent.set_ylim(np.array(axcent.get_ylim()) * 1.3)
+
+        axsynbottom = plot_synoptic(SC, axes=axbottom, correctors=True)
+        axsynbottom.legend(loc='upper center', ncol=4)
+        axsynbottom.set_ylim([-2.5, 2.5])
+        plot_synoptic(SC, axes=axbottom, correctors=False)
+        axbottom.set_yticks([], [])
+        axbottom.set_xlabel("s [m]")
+    finally:
+        # restore initial s_range, also when the optics cannot be calculated
+        ring.s_range = initial_s_range
 
     plt.pause(1)  # MUST BE 1 second! less does not show figure
     fig.show()
-- 
2.43.0


From ff889beb977dceba97d2a1ac019e78657549c8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 46/80] fix: plot_support with x_lim pairs supports with their
 own offsets

---
 pySC/plotting/plot_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/plotting/plot_support.py b/pySC/plotting/plot_support.py
index 526e872..6b7b1be 100644
--- a/pySC/plotting/plot_support.py
+++ b/pySC/plotting/plot_support.py
@@ -84,7 +84,7 @@ def plot_support(SC: SimulatedCommissioning, font_size: int = 8, x_lim: Tuple[fl
         ax[3*n_dim, 1].plot(s_mag, 1e6 * roll_mag_support[:, n_dim], 'D', color=blu, label='Overall supports')
         # plot individual support and roll contributions
         for sup_type in SUPPORT_TYPES:
-            for i, val in enumerate(SC.ORD[sup_type].T):  # loop supports
+            for i, val in enumerate(supdict[sup_type]['Ords']):  # loop supports in range
                 ax[3*n_dim, 0] = _plot_support(ax[3 * n_dim, 0], s_pos[val],
                                                [1e6 * supdict[sup_type]['Off']['a'][i][n_dim],
                                                 1e6 * supdict[sup_type]['Off']['b'][i][n_dim]],
-- 
2.43.0


From b8a07c36a97efe6cce0498bcaa737513362bba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 47/80] fix: response_matrix measures with the corrector step
 it divides by

---
 pySC/lattice_properties/response_measurement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index c80e2dc..2f85461 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -102,6 +102,8 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
             LOGGER.debug(
                 f'Insufficient beam reach ({max_pos:.0f}/{max_pos_ref:.0f}). '
                 f'cm_step reduced to {1E6 * max_step:.1f}urad.')
+    else:  # the last change of the step has not been applied yet
+        SC, max_step, _ = _try_setpoint(SC, bpm_ords, cm_ord, cmstart, max_step, skewness)
     return max_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
 
 
-- 
2.43.0


From dbb640660129a141a0840de53100f34a608c6d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 48/80] fix: closed-orbit response measurement divides by the
 applied kick at corrector limits

---
 pySC/correction/loco.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 36cbd56..8c38b5b 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -73,9 +73,12 @@ def measure_closed_orbit_response_matrix(SC, bpm_ords, cm_ords, dkick=1e-5):
         for cm_ord in cm_ords[n_dim]:
             init_setpoint = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim))
             SC.set_cm_setpoints(cm_ord, dkick, skewness=bool(n_dim), method=SETTING_ADD)
+            if not np.allclose(SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim)) - init_setpoint, dkick):  # limited: other direction
+                SC.set_cm_setpoints(cm_ord, init_setpoint - dkick, skewness=bool(n_dim), method=SETTING_ABS)
+            step = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim)) - init_setpoint
             closed_orbits1 = bpm_reading(SC, bpm_ords=bpm_ords)[0]
             SC.set_cm_setpoints(cm_ord, init_setpoint, skewness=bool(n_dim), method=SETTING_ABS)
-            response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / dkick)
+            response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / step)
             cnt = cnt + 1
     return response_matrix
 
-- 
2.43.0


From ef6b93ec4bcf9affece3b3ca1ced7bc1b47e7e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 49/80] fix: response_matrix works with averaged turn readings
 (PORB) of several turns

---
 pySC/lattice_properties/response_measurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 2f85461..bafc5dd 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -18,12 +18,12 @@ def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit
                  f'{len(cm_ords[0])}|{len(cm_ords[1])} CMs with {mode=} and '
                  f'amplitudes {np.mean(amp[0])}|{np.mean(amp[1])} using {n_steps} steps ...')
     n_hcm, n_vcm = cm_ords[0].shape[0], cm_ords[1].shape[0]
-    rm = np.full((2 * SC.INJ.nTurns * bpm_ords.shape[0], n_hcm + n_vcm), np.nan)
-    error = np.full((2 * SC.INJ.nTurns * bpm_ords.shape[0], n_hcm + n_vcm), np.nan)
     cm_steps = [np.zeros((n_steps, n_hcm)), np.zeros((n_steps, n_vcm))]
     bref = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0])
     if SC.INJ.trackMode == 'ORB' and np.sum(np.isnan(bref)):
         raise ValueError('No closed orbit found.')
+    rm = np.full((len(bref), n_hcm + n_vcm), np.nan)
+    error = np.full((len(bref), n_hcm + n_vcm), np.nan)
     i = 0
     for n_dim in range(2):
         cmstart = SC.get_cm_setpoints(cm_ords[n_dim], bool(n_dim))
-- 
2.43.0


From 0d9f20cba4f0010b0f2f111eb9a71187158b7f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 50/80] fix: response_matrix with fixed offset ignores monitors
 without beam

---
 pySC/lattice_properties/response_measurement.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index bafc5dd..be553b3 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -94,7 +94,9 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
         max_pos, max_pos_ref = np.sum(~np.isnan(bpm_readings_ravel)) / 2, np.sum(~np.isnan(bref)) / 2
         if max_pos_ref <= max_pos:
             if mode == "fixedOffset":
-                max_step = max_step * amp / np.max(np.abs(bpm_readings_ravel - bref))
+                offsets = np.abs(bpm_readings_ravel - bref)
+                if np.any(offsets > 0):  # otherwise no monitor sees the kick
+                    max_step = max_step * amp / np.nanmax(offsets)
             else:
                 break
         else:
-- 
2.43.0


From 53b3c77380d4490421a925cad8ba43e4046e2fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 51/80] fix: response_matrix with several steps skips monitors
 without beam

---
 pySC/lattice_properties/response_measurement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index be553b3..c03cc03 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -43,6 +43,8 @@ def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit
                 for nBPM in range(gradient.shape[1]):
                     x = dCM[~np.isnan(gradient[:, nBPM])]
                     y = gradient[~np.isnan(gradient[:, nBPM]), nBPM]
+                    if len(np.unique(x)) <= fit_order:  # no beam at this BPM or blocked CM
+                        continue
                     rm[nBPM, i] = np.polyfit(x, y, fit_order)[fit_order - 1]
                     error[nBPM, i] = np.sqrt(np.mean((rm[nBPM, i] * x - y).T ** 2))
             else:
-- 
2.43.0


From ad0da55e363274a750f5a816075e79276b3917b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 52/80] fix: model ring of a machine with unregistered cavities

---
 pySC/lattice_properties/response_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index e506683..1792cb2 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -169,7 +169,7 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
                 ring[ord].EApertures = SC.RING[ord].EApertures.copy()
             if hasattr(SC.RING[ord], 'RApertures'):
                 ring[ord].RApertures = SC.RING[ord].RApertures.copy()
-        if len(SC.ORD.RF) and hasattr(SC.RING[ord], 'Frequency'):
+        if ord in SC.ORD.RF:
             for field in RF_PROPERTIES:
                 setattr(ring[ord], field, getattr(SC.RING[ord], f"{field}SetPoint"))
     return ring
-- 
2.43.0


From 1db622b9395c464bd9cd937ee9289b7ca6dcdfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 53/80] fix: parts of split magnets follow the setpoints of
 their master in the model ring

---
 pySC/lattice_properties/response_model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 1792cb2..6697873 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -160,10 +160,11 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
     ring = SC.IDEALRING.deepcopy()
     for ord in range(len(SC.RING)):
         if hasattr(SC.RING[ord], 'SetPointA') and hasattr(SC.RING[ord], 'SetPointB'):
-            ring[ord].PolynomA = SC.RING[ord].SetPointA.copy()
-            ring[ord].PolynomB = SC.RING[ord].SetPointB.copy()
-            ring[ord].PolynomA[0] = 0.0
-            ring[ord].PolynomB[0] = 0.0
+            for target in (ord, *getattr(SC.RING[ord], 'MasterOf', ())):  # split magnets follow their master
+                ring[target].PolynomA = SC.RING[ord].SetPointA.copy()
+                ring[target].PolynomB = SC.RING[ord].SetPointB.copy()
+                ring[target].PolynomA[0] = 0.0
+                ring[target].PolynomB[0] = 0.0
         if includeAperture:
             if hasattr(SC.RING[ord], 'EApertures'):
                 ring[ord].EApertures = SC.RING[ord].EApertures.copy()
-- 
2.43.0


From b7ead984043e0a09809b38035bd3728876310c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 54/80] fix: model ring uses all orders of the setpoints

---
 pySC/lattice_properties/response_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 6697873..a16bde3 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -165,6 +165,7 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
                 ring[target].PolynomB = SC.RING[ord].SetPointB.copy()
                 ring[target].PolynomA[0] = 0.0
                 ring[target].PolynomB[0] = 0.0
+                ring[target].MaxOrder = len(ring[target].PolynomB) - 1
         if includeAperture:
             if hasattr(SC.RING[ord], 'EApertures'):
                 ring[ord].EApertures = SC.RING[ord].EApertures.copy()
-- 
2.43.0


From f4616947a6c3c7b2bcbc5e636228b747470b6e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 55/80] fix: first_turn reads the monitors again after a search
 for transmission

---
 pySC/correction/orbit_trajectory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index e6b8803..b36c2da 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -85,6 +85,8 @@ def first_turn(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None,
             return SC
         if _is_repro(transmission_history, WIGGLE_AFTER):
             SC = _wiggling(SC, bpm_ords, cm_ords, transmission_history[-1] + 1)
+            bpm_readings, transmission_history, rms_orbit_history = _bpm_reading_and_logging(
+                SC, bpm_ords=bpm_ords, ind_history=transmission_history, orb_history=rms_orbit_history)
 
     raise RuntimeError('First turn threading: FAIL (maxsteps reached)')
 
-- 
2.43.0


From 99697cd345f088bc335c3bc62d91b3bd3fb5d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 56/80] fix: trajectory correction accepts response matrices in
 pseudo-orbit mode

---
 pySC/correction/orbit_trajectory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index b36c2da..fa0f171 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -12,7 +12,7 @@ import numpy as np
 from typing import Tuple
 
 from pySC.core.beam import bpm_reading
-from pySC.core.constants import SETTING_ADD
+from pySC.core.constants import SETTING_ADD, TRACK_PORB
 from pySC.utils import logging_tools, sc_tools
 
 LOGGER = logging_tools.get_logger(__name__)
@@ -326,7 +326,8 @@ def _check_ords(SC, response_matrix, reference, bpm_ords, cm_ords):
         cm_ords = SC.ORD.CM.copy()
     if bpm_ords is None:
         bpm_ords = SC.ORD.BPM.copy()
-    if response_matrix.shape[0] != 2 * len(bpm_ords) * SC.INJ.nTurns:
+    n_turns = 1 if SC.INJ.trackMode == TRACK_PORB else SC.INJ.nTurns  # pseudo-orbit readings are averaged over the turns
+    if response_matrix.shape[0] != 2 * len(bpm_ords) * n_turns:
         raise ValueError("Response matrix shape does not match the number of BPMs.")
     if response_matrix.shape[1] != len(cm_ords[0]) + len(cm_ords[1]):
         raise ValueError("Response matrix shape does not match the number of CMs.")
-- 
2.43.0


From ede7d37ff01b47540855ac94c6e3af9cdc049064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 57/80] fix: beam-based alignment works with monitors without
 noise

---
 pySC/correction/bba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index 77682aa..4e767fd 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -141,7 +141,7 @@ def _get_bpm_offset_from_mag(ring, bpm_ords, mag_ords):
 def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
     x = np.mean(bpm_pos, axis=1)
     x_mask = ~np.isnan(x)
-    err = np.mean(np.std(bpm_pos[x_mask, :], axis=1))
+    err = max(np.mean(np.std(bpm_pos[x_mask, :], axis=1)), np.finfo(float).eps)  # readings may be free of noise
     x = x[x_mask]
     new_tmp_tra = trajectories[x_mask, :, :]
 
-- 
2.43.0


From e1cd94826957979004cb801fbc703a57d7031a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 58/80] fix: beam-based alignment flags measurements without
 any result instead of raising

---
 pySC/correction/bba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index 4e767fd..fd60bfa 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -172,6 +172,8 @@ def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
         center[j] = -p[1] / (par.fit_order * p[0])  # zero-crossing if linear, minimum is quadratic
         center_err[j] = np.sqrt(center[j] ** 2 * (pcov[0,0]/p[0]**2 + pcov[1,1]/p[1]**2 - 2 * pcov[0, 1] / p[0] / p[1]))
     mask = ~np.isnan(center)
+    if not np.any(mask):
+        return np.nan, np.nan
     offset_change = stats.weighted_mean(center[mask], center_err[mask])
     offset_change_error = stats.weighted_error(center[mask]-offset_change, center_err[mask]) / np.sqrt(stats.effective_sample_size(center[mask], stats.weights_from_errors(center_err[mask])))
     if not par.dipole_compensation and n_dim == 0 and SC.RING[m_ord].NomPolynomB[1] != 0:
-- 
2.43.0


From ece0ecd9b2f693cc105e43ac0e69ba0f56ec71ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 59/80] fix: RF phase correction is applied when the energy
 offset of the scan vanishes

---
 pySC/correction/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index 5fb6c07..035b6c9 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -47,7 +47,7 @@ def correct_rf_phase(SC, cav_ords=None, bpm_ords=None, n_steps=15, plot_results=
     # Find zero crossing of fitted function
     sol = lambda x: _sin_fit_fun(x / lamb, param[0], param[1], param[2])
     delta_phi = _fold_phase(fsolve(sol, test_vec[np.argmax(sol(test_vec))] - abs(test_vec[0]) / 2)[0], lamb)
-    if np.abs(param[0]) < 2 * np.sqrt(param_cov[0, 0]) or np.abs(param[2]) < 2 * np.sqrt(param_cov[2, 2]):
+    if np.abs(param[0]) < 2 * np.sqrt(param_cov[0, 0]):
         LOGGER.warning("Measurements is not sufficiently precise to make a correction")
         delta_phi = 0.0
     if np.isnan(delta_phi):  # TODO does this ever happen?
-- 
2.43.0


From cb8352d6b762a9aaf238e911f8ce66d8afcd999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 60/80] fix: Gauss-Newton optics fit minimises the weighted
 residual of all elements and keeps the initial guess

---
 pySC/correction/loco.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 8c38b5b..b91f86b 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -96,12 +96,11 @@ def loco_correction_lm(initial_guess0, orm_model, orm_measured, Jn, lengths, inc
 def loco_correction_ng(initial_guess0, orm_model, orm_measured, J, lengths, including_fit_parameters, s_cut, weights=1, LM_lambda=0):
     initial_guess = initial_guess0.copy()
     mask = _get_parameters_mask(including_fit_parameters, lengths)
-    residuals = objective(initial_guess[mask], orm_measured - orm_model, J[mask, :, :], weights)
-    r = residuals.reshape(np.transpose(orm_model).shape)
+    r = orm_measured - orm_model - np.einsum("ijk,i->jk", J[mask, :, :], initial_guess[mask])
     t2 = np.zeros([len(initial_guess[mask]), 1])
     for i in range(len(initial_guess[mask])):
-        t2[i] = np.sum(np.dot(np.dot(J[mask][i].T, weights), r.T))
-    return get_inverse(J[mask, :, :], t2, s_cut, weights, LM_lambda=LM_lambda)
+        t2[i] = np.sum(J[mask][i] * np.dot(weights, r))
+    return initial_guess[mask] + get_inverse(J[mask, :, :], t2, s_cut, weights, LM_lambda=LM_lambda)
 
 
 def objective(masked_params, orm_residuals, masked_jacobian, weights):
@@ -181,8 +180,9 @@ def get_inverse(jacobian, B, s_cut, weights, LM_lambda=0, plot=False):
         Array of correction values of the same size as B.
     """
     n_resp_mats = len(jacobian)
-    Jt = np.sum(jacobian, axis=2)          # Sum over i and j for all planes
-    Jt_dot_J = np.dot(np.dot(Jt, weights), Jt.T)
+    Jt = jacobian.reshape(n_resp_mats, -1)
+    weighted_Jt = np.array([np.dot(weights, response) for response in jacobian]).reshape(n_resp_mats, -1)
+    Jt_dot_J = np.dot(Jt, weighted_Jt.T)  # Sum over all elements of the response matrices
     matrix = Jt_dot_J + LM_lambda * np.diag(np.diag(Jt_dot_J))
     inv_matrix = sc_tools.pinv(matrix, num_removed=n_resp_mats - min(n_resp_mats, s_cut), plot=plot)
     results = np.ravel(np.dot(inv_matrix, B))
-- 
2.43.0


From 3b4b0b1d22ebc871e43ad5adccf36898b9dada78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 61/80] fix: optics Jacobian restores each quadrupole for all
 setting methods

---
 pySC/correction/loco.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index b91f86b..b052f57 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -41,13 +41,14 @@ def calculate_jacobian(SC, C_model, dkick, used_cor_ind, bpm_indexes, quads_ind,
 def generating_quads_response_matrices(args):
     (quad_index, SC, C_model, correctors_kick, used_cor_indexes, used_bpm_indexes, dk, trackMode, useIdealRing,
      skewness, order, method, includeDispersion, rf_step, cav_ords) = args
-    LOGGER.debug('generating response to quad of index', quad_index)
+    LOGGER.debug(f'generating response to quad of index {quad_index}')
+    nominal = getattr(SC.RING[quad_index], 'SetPointA' if skewness else 'SetPointB')[order]
     if not includeDispersion:
         SC.set_magnet_setpoints(quad_index, dk, skewness, order, method)
         C_measured = SCgetModelRM(SC, used_bpm_indexes, used_cor_indexes, dkick=correctors_kick,
                                   useIdealRing=useIdealRing,
                                   trackMode=trackMode)
-        SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
+        SC.set_magnet_setpoints(quad_index, nominal, skewness, order, SETTING_ABS)
         return C_measured - C_model
 
     dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords)
@@ -55,7 +56,7 @@ def generating_quads_response_matrices(args):
     C_measured = SCgetModelRM(SC, used_bpm_indexes, used_cor_indexes, dkick=correctors_kick, useIdealRing=useIdealRing,
                               trackMode=trackMode)
     dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step)
-    SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
+    SC.set_magnet_setpoints(quad_index, nominal, skewness, order, SETTING_ABS)
     return np.hstack((C_measured - C_model, (dispersion_meas - dispersion_model).reshape(-1, 1)))
 
 
-- 
2.43.0


From d394fe5c156eddbc448bc977e43212b229db3684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 62/80] fix: dispersion column of the optics Jacobian follows
 the changed quadrupole and full Jacobian includes it

---
 pySC/correction/loco.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index b052f57..8c2d7d1 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -25,6 +25,10 @@ def calculate_jacobian(SC, C_model, dkick, used_cor_ind, bpm_indexes, quads_ind,
 
     results = [result / dk for result in results]
     if full_jacobian:  # Construct the complete Jacobian matrix for the LOCO
+        if includeDispersion:  # the last column
+            dispersion_model = SCgetModelDispersion(SC, bpm_indexes, CAVords=SC.ORD.RF if cav_ords is None else cav_ords,
+                                                    rfStep=rf_step, useIdealRing=useIdealRing)
+            C_model = np.hstack((C_model, dispersion_model.reshape(-1, 1)))
         # assuming only linear scaling errors of BPMs and corrector magnets
         n_correctors = len(np.concatenate(used_cor_ind))
         n_bpms = len(bpm_indexes) * 2  # in both planes
@@ -51,11 +55,14 @@ def generating_quads_response_matrices(args):
         SC.set_magnet_setpoints(quad_index, nominal, skewness, order, SETTING_ABS)
         return C_measured - C_model
 
-    dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords)
+    cav_ords = SC.ORD.RF if cav_ords is None else cav_ords
+    dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step,
+                                            useIdealRing=useIdealRing)
     SC.set_magnet_setpoints(quad_index, dk, skewness, order, method)
     C_measured = SCgetModelRM(SC, used_bpm_indexes, used_cor_indexes, dkick=correctors_kick, useIdealRing=useIdealRing,
                               trackMode=trackMode)
-    dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step)
+    dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step,
+                                           useIdealRing=useIdealRing)
     SC.set_magnet_setpoints(quad_index, nominal, skewness, order, SETTING_ABS)
     return np.hstack((C_measured - C_model, (dispersion_meas - dispersion_model).reshape(-1, 1)))
 
-- 
2.43.0


From 0b7087339d4051a3eecefb3ddfd2825d20c82609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 63/80] fix: default monitor structure of the optics correction
 carries the coupling flag

---
 pySC/correction/loco_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index 0f87f1d..e9db11d 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -26,7 +26,7 @@ def loco_bpm_structure(SC, bpmords=None, **kwargs):
     if bpmords is None:
         bpmords = SC.ORD.BPM
     n_bpms = bpmords.shape[0]
-    bpm_data = DotDict(dict(FamName='BPM', BPMIndex=bpmords.copy(), FitGains=False,
+    bpm_data = DotDict(dict(FamName='BPM', BPMIndex=bpmords.copy(), FitGains=False, FitCoupling=False,
                             HBPMIndex=np.arange(n_bpms, dtype=int), VBPMIndex=np.arange(n_bpms, dtype=int),
                             HBPMGain=np.ones(n_bpms), VBPMGain=np.ones(n_bpms),
                             HBPMCoupling=np.zeros(n_bpms), VBPMCoupling=np.zeros(n_bpms)))
-- 
2.43.0


From 06cbf251597e9040ee19ced677b9c0976904ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 64/80] fix: reading shown after the injection correction is
 not corrected twice

---
 pySC/correction/injection_fit.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index 0df16fe..adaa025 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -47,9 +47,7 @@ def fit_injection_trajectory(SC: SimulatedCommissioning, bpm_inds: ndarray = np.
     SC.INJ.Z0 += delta_z0
     if plot:
         fig, ax = plt.subplots(nrows=2, num=342, sharex="all")
-        SC.INJ.Z0 += delta_z0
         bnew = bpm_reading(SC)[0][:, bpm_inds]
-        SC.INJ.Z0 -= delta_z0
         s_bpm = s_pos[SC.ORD.BPM[bpm_inds]]
         for n_dim in range(2):
             ax[n_dim].plot(s_bpm, 1E3 * bref[n_dim, :], 'ro--', label="Initial")
-- 
2.43.0


From 569438858e7a144649728386e1344b4d4857bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 65/80] fix: injection fit uses the monitors which see beam
 instead of returning zero

---
 pySC/correction/injection_fit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index adaa025..a01d562 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -39,7 +39,10 @@ def fit_injection_trajectory(SC: SimulatedCommissioning, bpm_inds: ndarray = np.
     s_pos = at_wrapper.findspos(SC.RING)
     bref = bpm_reading(SC)[0][:, bpm_inds]
     delta_z0 = np.zeros(6)
-    delta_z0[0:4] = -fmin(_merit_function, np.zeros(4), args=(SC, bref, SC.ORD.BPM[bpm_inds]),
+    seen = ~np.isnan(bref[0, :])
+    if np.sum(seen) < 2:
+        raise RuntimeError("Failed ")
+    delta_z0[0:4] = -fmin(_merit_function, np.zeros(4), args=(SC, bref[:, seen], SC.ORD.BPM[bpm_inds][seen]),
                            xtol=1e-8, ftol=1e-8)  # [m, rad] defaults are larger than the usual beam offsets
     if np.sum(np.isnan(delta_z0)):
         raise RuntimeError("Failed ")
-- 
2.43.0


From 5953fe8f1b0fd1a2aabd17ac1e476456eb59a030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 66/80] fix: number of turns is restored when an RF correction
 raises in the MATLAB interface

---
 pySC/matlab_index.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index a51800b..cd8932d 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -316,9 +316,11 @@ def SCsynchEnergyCorrection(SC, /, *, cavOrd=None, f_range=(-1E3, 1E3), nSteps=1
                             plotProgress=False, verbose=False):
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
-    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
+    try:
+        SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
                            plot_results=plotResults, plot_progress=plotProgress, )
-    SC.INJ.nTurns = init_nturns
+    finally:
+        SC.INJ.nTurns = init_nturns
     return SC
 
 
@@ -326,8 +328,10 @@ def SCsynchPhaseCorrection(SC, /, *, cavOrd=None, nSteps=15, nTurns=20, plotResu
                            verbose=False):
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
-    SC = correct_rf_phase(SC, cav_ords=cavOrd, n_steps=nSteps, plot_results=plotResults, plot_progress=plotProgress, )
-    SC.INJ.nTurns = init_nturns
+    try:
+        SC = correct_rf_phase(SC, cav_ords=cavOrd, n_steps=nSteps, plot_results=plotResults, plot_progress=plotProgress, )
+    finally:
+        SC.INJ.nTurns = init_nturns
     return SC
 
 
-- 
2.43.0


From 76133372ba5f75c66c3a85e26f5e999b8f3c6a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 67/80] fix: lattice and phase space plots of the MATLAB
 interface work with their default arguments

---
 pySC/matlab_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index cd8932d..b3bd1b4 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -212,13 +212,13 @@ def SCplotCMstrengths(SC: SimulatedCommissioning):
     plot_cm_strengths(SC)
 
 
-def SCplotLattice(SC, /, *, transferLine=0, nSectors=1, oList=[], plotIdealRing=1, sRange=[], plotMagNames=0,
+def SCplotLattice(SC, /, *, transferLine=0, nSectors=1, oList=None, plotIdealRing=1, sRange=None, plotMagNames=0,
                   fontSize=16):
     return plot_lattice(SC, transfer_line=bool(transferLine), n_sectors=nSectors, indices=oList,
                         ideal_ring=bool(plotIdealRing), s_range=sRange, plot_magnet_names=bool(plotMagNames), font_size=fontSize)
 
 
-def SCplotPhaseSpace(SC, /, *, ord=np.zeros(1), customBunch=[], nParticles=None, nTurns=None, plotCO=False):
+def SCplotPhaseSpace(SC, /, *, ord=np.zeros(1, dtype=int), customBunch=None, nParticles=None, nTurns=None, plotCO=False):
     plot_phase_space(SC, ords=ord, custom_bunch=customBunch, nParticles=nParticles, nTurns=nTurns, plotCO=plotCO)
 
 
-- 
2.43.0


From 51e836b4280e538b3f6ebc20a4f117a5e8eef58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 68/80] fix: warning about differing fields names the child and
 the master magnet the right way around

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index ca24fb4..baf1995 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1028,7 +1028,7 @@ class SimulatedCommissioning:
                 for cOrd in self.RING[ord].MasterOf:
                     for field in self.RING[cOrd].__dict__:
                         if not hasattr(self.RING[ord],field): 
-                            LOGGER.warning(f'Child magnet (ord: {ord:d}) has different field "{field:s}" than master magnet (ord: {cOrd:d}).')
+                            LOGGER.warning(f'Child magnet (ord: {cOrd:d}) has different field "{field:s}" than master magnet (ord: {ord:d}).')
        
         if len(self.ORD.RF) == 0:
             LOGGER.warning('No cavity registered. Use "SCregisterCavity".')
-- 
2.43.0


From 32713ac3ea59517ab72a299dca682afcdfceafcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 69/80] fix: changing a skew quadrupole does not trigger the
 dipole compensation

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index baf1995..f75bb8b 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -941,7 +941,7 @@ class SimulatedCommissioning:
                 LOGGER.info(f'SkewLim \n Skew quadrupole (ord: {ord}) is clipping')
                 setpoints_1d[i] = np.sign(setpoints_1d[i]) * self.RING[ord].SkewQuadLimit
             # TODO should check CF magnets
-            if dipole_compensation and order == 1:  # quad  # TODO check also skewness?
+            if dipole_compensation and order == 1 and not skewness:  # quad  # TODO check also skewness?
                 self._dipole_compensation(ord, setpoints_1d[i])
             getattr(self.RING[ord], f"{SETPOINT}{letter}")[order] = setpoints_1d[i]
 
-- 
2.43.0


From 194c80ff8ef4d85f807da9b741cd2645b5af0dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 70/80] fix: dipole compensation of a bend without design
 gradient does not saturate its corrector

---
 pySC/core/simulated_commissioning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index f75bb8b..40c80f4 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -948,6 +948,8 @@ class SimulatedCommissioning:
         self.update_magnets(ords_1d)
 
     def _dipole_compensation(self, ord, setpoint):
+        if self.RING[ord].NomPolynomB[1] == 0:  # no combined function, the relative change is not defined
+            return
         if getattr(self.RING[ord], 'BendingAngle', 0) != 0 and ord in self.ORD.HCM:
             self.set_cm_setpoints(
                 ord,
-- 
2.43.0


From 820a8f3a6fd92aaa2039b2ca489209961114f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 71/80] fix: dynamic aperture can be calculated

---
 pySC/lattice_properties/apertures.py | 45 +++++++++++++---------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/pySC/lattice_properties/apertures.py b/pySC/lattice_properties/apertures.py
index 7aaf94a..34424d1 100644
--- a/pySC/lattice_properties/apertures.py
+++ b/pySC/lattice_properties/apertures.py
@@ -9,24 +9,25 @@ def SCdynamicAperture(RING, dE, bounds=np.array([0, 1e-3]), nturns=1000, thetas=
                       accuracy=1e-6, launchOnOrbit=False, centerOnOrbit=True, useOrbit6=False, auto=0, plot=False):
     inibounds = bounds
     if auto > 0:
-        _, thetas = _autothetas(RING, dE, auto)
+        _, thetas = _autothetas(RING, dE, auto, bounds=bounds, nturns=nturns, accuracy=accuracy,
+                                launchOnOrbit=launchOnOrbit, centerOnOrbit=centerOnOrbit, useOrbit6=useOrbit6)
     sidx = np.argsort(np.abs(inibounds))  # Sort bounds w.r.t absolute value
     inibounds = inibounds[sidx]
     ZCO = np.zeros(6)
     if launchOnOrbit:
         if useOrbit6:
-            ZCO = at_wrapper.findorbit6(RING)
+            ZCO = at_wrapper.findorbit6(RING)[0]
         else:
-            tmp = at_wrapper.findorbit4(RING, 0)
-            if ~np.isnan(tmp[0]):
-                ZCO[0:4] = tmp
-    ZCO[5] = ZCO[5] + dE
+            tmp = at_wrapper.findorbit4(RING, 0)[0]
+            if not np.isnan(tmp[0]):
+                ZCO[0:4] = tmp[0:4]
+    ZCO[4] = ZCO[4] + dE
     RMAXs = np.full(len(thetas), np.nan)  # Initialize output array
     DA = np.nan
     for cntt in range(len(thetas)):  # Loop over angles
         theta = thetas[cntt]
         limits = inibounds
-        at_wrapper.lattice_track(RING, np.full(6, np.nan), 1, [1])  # Fake Track to initialize lattice
+        at_wrapper.lattice_track(RING, np.full((6, 1), np.nan), 1, [1])  # Fake Track to initialize lattice
         scales = 0
         while scales < 16:
             if _check_bounds(RING, ZCO, nturns, theta, limits):
@@ -48,9 +49,9 @@ def SCdynamicAperture(RING, dE, bounds=np.array([0, 1e-3]), nturns=1000, thetas=
     DA = np.sum(np.sin(dthetas) * r0 * r1 / 2.)
     if centerOnOrbit:
         if useOrbit6:
-            tmp = at_wrapper.findorbit6(RING)
+            tmp = at_wrapper.findorbit6(RING)[0]
         else:
-            tmp = at_wrapper.findorbit4(RING, 0)
+            tmp = at_wrapper.findorbit4(RING, 0)[0]
         if not np.isnan(tmp[0]):
             x, y = pol2cart(RMAXs, thetas)
             x = x - tmp[0]
@@ -96,40 +97,36 @@ def SCmomentumAperture(RING, REFPTS, inibounds, nturns=1000, accuracy=1e-4, step
 
 
 def _check_bounds(RING, ZCO, nturns, theta, boundsIn):
-    Zmin = ZCO[:]
+    Zmin = ZCO.copy()
     Zmin[0] = boundsIn[0] * np.cos(theta)
     Zmin[2] = boundsIn[0] * np.sin(theta)
-    Zmax = ZCO[:]
+    Zmax = ZCO.copy()
     Zmax[0] = boundsIn[1] * np.cos(theta)
     Zmax[2] = boundsIn[1] * np.sin(theta)
-    ROUT = at_wrapper.lattice_track(RING, [Zmin, Zmax], nturns, len(RING), keep_lattice=True)  # Track
-    RLAST = ROUT[:, len(ROUT) - 1:len(ROUT)]  # Get positions after last turn
-    return ~np.isnan(RLAST[0, 0]) and np.isnan(RLAST[0, 1])
+    ROUT = at_wrapper.lattice_track(RING, np.column_stack((Zmin, Zmax)), nturns, len(RING), keep_lattice=True)  # Track
+    RLAST = ROUT[:, :, 0, -1]  # Get positions after last turn
+    return not np.isnan(RLAST[0, 0]) and np.isnan(RLAST[0, 1])
 
 
 def _refine_bounds(RING, ZCO, nturns, theta, boundsIn):
     rmin = boundsIn[0]
     rmax = boundsIn[1]
     rmid = np.mean(boundsIn)
-    Z = ZCO[:]
+    Z = ZCO.copy()
     Z[0] = rmid * np.cos(theta)
     Z[2] = rmid * np.sin(theta)
-    ROUT = at_wrapper.lattice_track(RING, Z, nturns, len(RING), keep_lattice=True)  # Track
-    RLAST = ROUT[:, len(ROUT) - 1]  # Get positions after last turn
+    ROUT = at_wrapper.lattice_track(RING, Z.reshape(6, 1), nturns, len(RING), keep_lattice=True)  # Track
+    RLAST = ROUT[:, 0, 0, -1]  # Get positions after last turn
     return [rmin, rmid] if np.isnan(RLAST[0]) else [rmid, rmax]  # Midpoint is outside or inside DA
 
 
-def _autothetas(RING, dE, nt):
+def _autothetas(RING, dE, nt, **kwargs):
     tin = np.linspace(0, 2 * np.pi * 3 / 4, 4)
-    [DA, rs, ts] = SCdynamicAperture(RING, dE, thetas=tin, auto=0)
+    [DA, rs, ts] = SCdynamicAperture(RING, dE, thetas=tin, auto=0, **kwargs)
     a = (rs[0] + rs[2]) / 2
     b = (rs[1] + rs[3]) / 2
-    e = np.sqrt(1 - b ** 2 / a ** 2)
-    mu = np.arccosh(1 / e)
     nu = np.linspace(0, 2 * np.pi, nt)
-    rout = np.abs(np.cosh(mu + 1j * nu))
-    tout = np.angle(np.cosh(mu + 1j * nu))
-    return rout, tout
+    return cart2pol(a * np.cos(nu), b * np.sin(nu))
 
 def cart2pol(x, y):
     rho = np.sqrt(x**2 + y**2)
-- 
2.43.0


From 15a2f4755aa17555717491ce0a37873b659fbaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:29 +0000
Subject: [PATCH 72/80] fix: momentum aperture can be calculated

---
 pySC/lattice_properties/apertures.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pySC/lattice_properties/apertures.py b/pySC/lattice_properties/apertures.py
index 34424d1..4a262af 100644
--- a/pySC/lattice_properties/apertures.py
+++ b/pySC/lattice_properties/apertures.py
@@ -64,16 +64,19 @@ def SCdynamicAperture(RING, dE, bounds=np.array([0, 1e-3]), nturns=1000, thetas=
 def SCmomentumAperture(RING, REFPTS, inibounds, nturns=1000, accuracy=1e-4, stepsize=1e-3, plot=0):
     dboundHI = np.zeros(len(REFPTS))
     dboundLO = np.zeros(len(REFPTS))
-    ZCOs = at_wrapper.findorbit6(RING, REFPTS)
-    if any(~np.isfinite(ZCOs.flatten())):
+    ZCOs = np.transpose(at_wrapper.findorbit6(RING, REFPTS)[1])
+    if np.any(~np.isfinite(ZCOs)):
         dbounds = np.array([dboundHI, dboundLO]).T
         LOGGER.info('Closed Orbit could not be determined during MA evaluation. MA set to zero.')
         return dbounds
     for i in range(len(REFPTS)):
         ord = REFPTS[i]
-        local_bounds = inibounds
-        SHIFTRING = RING.rotate(-ord)  # TODO +/-
+        local_bounds = np.array(inibounds, dtype=float)
+        SHIFTRING = RING.rotate(ord)  # Starts with the element of interest
         ZCO = ZCOs[:, i]
+        if np.isnan(at_wrapper.lattice_track(SHIFTRING, ZCO.reshape(6, 1), nturns, len(RING))[0, 0, 0, -1]):
+            LOGGER.info(f'Particle on closed orbit is lost when starting at ord: {ord}. MA set to zero.')
+            continue
         while not check_bounds(local_bounds, SHIFTRING, ZCO, nturns):
             local_bounds = increment_bounds(local_bounds, stepsize)
             LOGGER.debug(f'ord: {ord}; Incremented: {local_bounds}')
@@ -141,9 +144,9 @@ def pol2cart(rho, phi):
 
 def refine_bounds(local_bounds, RING, ZCO, nturns):
     dmean = np.mean(local_bounds)
-    Z0 = ZCO
+    Z0 = ZCO.copy()
     Z0[4] = Z0[4] + dmean
-    ROUT = at_wrapper.lattice_track(RING, Z0, nturns, len(RING))
+    ROUT = at_wrapper.lattice_track(RING, Z0.reshape(6, 1), nturns, len(RING))[:, 0, 0, -1]
     if np.isnan(ROUT[0]):  # Particle dead :(
         local_bounds[1] = dmean  # Set abs-upper bound to midpoint
     else:  # Particle alive :)
@@ -152,17 +155,17 @@ def refine_bounds(local_bounds, RING, ZCO, nturns):
 
 
 def check_bounds(local_bounds, RING, ZCO, nturns):
-    Z = np.array([ZCO, ZCO])
+    Z = np.column_stack((ZCO, ZCO))
     Z[4, :] = Z[4, :] + local_bounds[:]
-    ROUT = at_wrapper.lattice_track(RING, Z, nturns, len(RING))
+    ROUT = at_wrapper.lattice_track(RING, Z, nturns, len(RING))[:, :, 0, -1]
     if np.isnan(ROUT[0, 0]) and not np.isnan(ROUT[0, 1]):
         LOGGER.warning('Closer-to-momentum particle is unstable. This shouldnt be!')
     return not np.isnan(ROUT[0, 0]) and np.isnan(ROUT[0, 1])
 
 
 def increment_bounds(local_bounds, stepsize):
-    local_bounds = local_bounds + np.array([-1, 1]) * mysign(local_bounds) * stepsize
-    return local_bounds
+    # The inner bound does not go beyond the closed orbit
+    return mysign(local_bounds) * np.maximum(np.abs(local_bounds) + np.array([-1, 1]) * stepsize, 0)
 
 
 def mysign(v):
-- 
2.43.0


From 8b72096d842091ffa322098859ed5dc77420e36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:19 +0000
Subject: [PATCH 73/80] fix: errors can be ramped up

---
 pySC/correction/ramp_errors.py | 59 ++++++++++++++++------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/pySC/correction/ramp_errors.py b/pySC/correction/ramp_errors.py
index 27ba066..ddd5aaa 100644
--- a/pySC/correction/ramp_errors.py
+++ b/pySC/correction/ramp_errors.py
@@ -2,74 +2,72 @@ import numpy as np
 from pySC.core.constants import SUPPORT_TYPES, RF_PROPERTIES
 from pySC.correction import orbit_trajectory
 from pySC.lattice_properties.response_model import SCgetModelRM
-from pySC.utils import logging_tools, sc_tools
+from pySC.utils import at_wrapper, logging_tools, sc_tools
 
 LOGGER = logging_tools.get_logger(__name__)
 
 
 def SCrampUpErrors(SC, nStepsRamp=10, eps=1e-5, target=0, alpha=10, maxsteps=30):
-    errFieldsMag = ['CalErrorB', 'CalErrorA', 'PolynomAOffset', 'PolynomBOffset', 'MagnetOffset', 'MagnetRoll']
+    errFieldsMag = ['CalErrorB', 'CalErrorA', 'PolynomAOffset', 'PolynomBOffset', 'MagnetOffset', 'MagnetRoll',
+                    'BendingAngleError']
     errFieldsSup = ['Roll', 'Offset']
     errFieldsBPM = ['Noise', 'NoiseCO', 'Offset', 'SupportOffset', 'Roll', 'SupportRoll', 'CalError']
     errFieldsRF = ['Offset', 'CalError']
-    SC0 = SC
+    SC0 = SC.very_deep_copy()
     M = SCgetModelRM(SC, SC.ORD.BPM, SC.ORD.CM, nTurns=SC.INJ.nTurns, trackMode=SC.INJ.trackMode)
     for scale in np.linspace(1 / nStepsRamp, 1, nStepsRamp):
         LOGGER.debug(f'Ramping up errors with scaling factor {scale:.2f}.')
+        SC = scaleCircumference(SC, SC0, scale)
         SC = scaleSupport(SC, SC0, errFieldsSup, scale)
         SC = scaleMagnets(SC, SC0, errFieldsMag, scale)
         SC = scaleBPMs(SC, SC0, errFieldsBPM, scale)
         SC = scaleRF(SC, SC0, errFieldsRF, scale)
         SC = scaleInjection(SC, SC0, scale)
-        SC = scaleCircumference(SC, SC0, scale)
         try:
             SC = orbit_trajectory.correct(SC, M, alpha=alpha, target=target, maxsteps=maxsteps, eps=eps)
         except RuntimeError:
+            SC.RING, SC.INJ = SC0.RING, SC0.INJ  # back to the initial machine
             if 2 * nStepsRamp > 100:
                 raise Exception(f'Ramping up failed at scaling {scale:.2f} with {nStepsRamp} ramping steps. '
                                 f'Try different feedback parameters.')
-            else:
-                LOGGER.info(f'Feedback did not succeed at scaling {scale:.2f}. Trying with {2 * nStepsRamp} ramping steps.')
-                SC = SCrampUpErrors(SC0, nStepsRamp=2 * nStepsRamp, eps=eps, target=target, alpha=alpha,
-                                    maxsteps=maxsteps)
+            LOGGER.info(f'Feedback did not succeed at scaling {scale:.2f}. Trying with {2 * nStepsRamp} ramping steps.')
+            return SCrampUpErrors(SC, nStepsRamp=2 * nStepsRamp, eps=eps, target=target, alpha=alpha,
+                                  maxsteps=maxsteps)
 
     return SC
 
 
+def _scale_fields(element, element0, fields, scale):
+    for field in fields:
+        if hasattr(element0, field):
+            setattr(element, field, scale * getattr(element0, field))
+
+
 def scaleSupport(SC, SC0, fields, scale):
     for type in SUPPORT_TYPES:
-        if type in SC.ORD:
-            for ordPair in SC.ORD[type]:
-                for field in fields:
-                    for se in range(2):
-                        if field in SC.RING[ordPair[se]][type]:
-                            SC.RING[ordPair[se]][type][field] = scale * SC0.RING[ordPair[se]][type][field]
+        for ord in np.ravel(SC.ORD[type]):
+            _scale_fields(SC.RING[ord], SC0.RING[ord], [type + field for field in fields], scale)
     return SC
 
 
 def scaleMagnets(SC, SC0, fields, scale):
-    for ord in SC.ORD.Magnet:
-        for field in fields:
-            if field in SC.RING[ord]:
-                SC.RING[ord][field] = scale * SC0.RING[ord][field]
-    SC = SC.update_supports()
-    SC = SC.update_magnets()
+    for ord in range(len(SC.RING)):
+        _scale_fields(SC.RING[ord], SC0.RING[ord], fields, scale)
+    SC.update_supports()
+    SC.update_magnets()
     return SC
 
 
 def scaleBPMs(SC, SC0, fields, scale):
     for ord in SC.ORD.BPM:
-        for field in fields:
-            if field in SC.RING[ord]:
-                SC.RING[ord][field] = scale * SC0.RING[ord][field]
+        _scale_fields(SC.RING[ord], SC0.RING[ord], fields, scale)
     return SC
 
 
 def scaleRF(SC, SC0, fields, scale):
-    for type in RF_PROPERTIES:
-        for field in fields:
-            for ord in SC.ORD.RF:
-                SC.RING[ord][type + field] = scale * SC0.RING[ord][type + field]
+    for ord in SC.ORD.RF:
+        _scale_fields(SC.RING[ord], SC0.RING[ord], [type + field for type in RF_PROPERTIES for field in fields], scale)
+    SC.update_cavities()
     return SC
 
 
@@ -81,10 +79,7 @@ def scaleInjection(SC, SC0, scale):
 
 
 def scaleCircumference(SC, SC0, scale):
-    D = 0
-    D0 = 0
-    for ord in range(len(SC0.RING)):
-        D += SC0.RING[ord].Length
-        D0 += SC0.IDEALRING[ord].Length
+    D = at_wrapper.findspos(SC0.RING)[-1]
+    D0 = at_wrapper.findspos(SC0.IDEALRING)[-1]
     SC.RING = sc_tools.scale_circumference(SC.RING, scale * (D - D0) + D0, 'abs')
     return SC
-- 
2.43.0


From dbb40fde9b0b0edebbcb03d2c2d8986c2fde38cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 74/80] fix: closed-orbit based beam-based alignment can be
 performed

---
 pySC/correction/bba.py | 43 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index fd60bfa..053907f 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -50,8 +50,8 @@ def trajectory_bba(SC, bpm_ords, mag_ords, **kwargs):
 def orbit_bba(SC, bpm_ords, mag_ords, **kwargs):
     par = DotDict(dict(n_steps=10, fit_order=1, magnet_order=1, skewness=False, setpoint_method=SETTING_REL,
                        magnet_strengths=np.array([0.95, 1.05]), RMstruct=[], orbBumpWindow=5, BBABPMtarget=1E-3,
-                       maxNumOfDownstreamBPMs=len(SC.ORD.BPM), dipole_compensation=True,
-                       use_bpm_reading_for_orbit_bump_ref=False, plotResults=False))
+                       num_downstream_bpms=len(SC.ORD.BPM), dipole_compensation=True,
+                       use_bpm_reading_for_orbit_bump_ref=False, plot_results=False))
     par.update(**kwargs)
     par = _check_input(bpm_ords, mag_ords, par)
     if SC.INJ.trackMode == TRACK_TBT:
@@ -66,7 +66,6 @@ def orbit_bba(SC, bpm_ords, mag_ords, **kwargs):
             LOGGER.debug(f'BBA-BPM {j_bpm}/{bpm_ords.shape[1]}, n_dim = {n_dim}')
             bpm_ind = np.where(bpm_ords[n_dim, j_bpm] == SC.ORD.BPM)[0][0]
             m_ord = mag_ords[n_dim, j_bpm]
-            SC0 = SC.very_deep_copy
             bpm_pos, orbits = _data_measurement_orb(SC, m_ord, bpm_ind, j_bpm, n_dim, par,
                                                *_get_orbit_bump(SC, m_ord, bpm_ords[n_dim, j_bpm], n_dim, par))
             bba_offsets[n_dim, j_bpm], bba_offset_errors[n_dim, j_bpm] = _data_evaluation(SC, bpm_pos, orbits, par.magnet_strengths[n_dim, j_bpm], n_dim, m_ord, par)
@@ -310,8 +309,9 @@ def _scale_injection_to_reach_bpms(SC, n_dim, last_bpm_ind, max_injection_pos_an
 
 def _data_measurement_orb(SC, m_ord, bpm_ind, j_bpm, n_dim, par, cm_ords, cm_vec):
     meas_dim = 1 - n_dim if par.skewness else n_dim
-    initial_z0 = SC.INJ.Z0.copy()
     n_msteps = cm_vec[n_dim].shape[0]
+    init_setpoint = getattr(SC.RING[m_ord], f"SetPoint{NUM_TO_AB[int(par.skewness)]}")[par.magnet_order]
+    init_cm_setpoints = [SC.get_cm_setpoints(cm_ords[n_d], skewness=bool(n_d)) for n_d in range(2)]
     orbits = np.full((n_msteps, len(par.magnet_strengths[n_dim, j_bpm]), len(SC.ORD.BPM)), np.nan)
     bpm_pos = np.full((n_msteps, len(par.magnet_strengths[n_dim, j_bpm])), np.nan)
     for n_q, setpoint_q in enumerate(par.magnet_strengths[n_dim, j_bpm]):
@@ -324,32 +324,31 @@ def _data_measurement_orb(SC, m_ord, bpm_ind, j_bpm, n_dim, par, cm_ords, cm_vec
             bpm_pos[step, n_q] = bpm_readings[n_dim, bpm_ind]
             orbits[step, n_q, :] = bpm_readings[meas_dim, :]
 
-    SC.INJ.Z0 = initial_z0
+    for n_d in range(2):
+        SC.set_cm_setpoints(cm_ords[n_d], init_cm_setpoints[n_d], bool(n_d), method=SETTING_ABS)
+    SC.set_magnet_setpoints(m_ord, init_setpoint, par.skewness, par.magnet_order,
+                            method=SETTING_ABS, dipole_compensation=par.dipole_compensation)
     return bpm_pos, orbits
 
 
-def _get_orbit_bump(SC, cm_ord, bpm_ord, n_dim, par):  # TODO
-    tmpCMind = np.where(par.RMstruct.CMords[0] == cm_ord)[0]
+def _get_orbit_bump(SC, cm_ord, bpm_ord, n_dim, par):
+    rm, cm_ords, bpm_ords = par.RMstruct.RM, list(par.RMstruct.CMords), par.RMstruct.BPMords
+    tmpCMind = np.where(cm_ords[0] == cm_ord)[0]  # the magnet itself is not used for the bump
     if len(tmpCMind):
-        par.RMstruct.RM = np.delete(par.RMstruct.RM, tmpCMind, 1)  # TODO not nice
-        par.RMstruct.CMords[0] = np.delete(par.RMstruct.CMords[0], tmpCMind)
-    tmpBPMind = np.where(bpm_ord == par.RMstruct.BPMords)[0]
+        rm = np.delete(rm, tmpCMind, 1)
+        cm_ords[0] = np.delete(cm_ords[0], tmpCMind)
+    tmpBPMind = np.where(bpm_ord == bpm_ords)[0][0]
 
-    R0 = bpm_reading(SC) if par.use_bpm_reading_for_orbit_bump_ref else np.zeros((2, len(par.RMstruct.BPMords)))
+    R0 = bpm_reading(SC, bpm_ords=bpm_ords)[0] if par.use_bpm_reading_for_orbit_bump_ref else np.zeros((2, len(bpm_ords)))
     R0[n_dim, tmpBPMind] += par.BBABPMtarget
-    cm_ords = par.RMstruct.CMords
-
-    W0 = np.ones((2, len(par.RMstruct.BPMords)))  # TODO weight for SCFedbackRun
-    W0[n_dim, max(1, tmpBPMind - par.orbBumpWindow):(tmpBPMind - 1)] = 0
-    W0[n_dim, (tmpBPMind + 1):min(len(par.RMstruct.BPMords), tmpBPMind + par.orbBumpWindow)] = 0
-
-    CUR = orbit_trajectory.correct(SC, par.RMstruct.RM, reference=R0, cm_ords=cm_ords, bpm_ords=par.RMstruct.BPMords, eps=1E-6,
-                  target=0, maxsteps=50, scaleDisp=par.RMstruct.scaleDisp, )
+    # TODO weights within par.orbBumpWindow around the BPM
+    CUR = orbit_trajectory.correct(SC.very_deep_copy(), rm, reference=R0.ravel(), cm_ords=cm_ords, bpm_ords=bpm_ords,
+                                   eps=1E-3, target=0, maxsteps=50, scaleDisp=par.RMstruct.scaleDisp)
     cm_vec = []
     factor = np.linspace(-1, 1, par.n_steps)
-    for n_dim in range(2):
-        vec0 = SC.get_cm_setpoints(cm_ords[n_dim], skewness=bool(n_dim))
-        vec1 = CUR.get_cm_setpoints(cm_ords[n_dim], skewness=bool(n_dim))
+    for n_d in range(2):
+        vec0 = SC.get_cm_setpoints(cm_ords[n_d], skewness=bool(n_d))
+        vec1 = CUR.get_cm_setpoints(cm_ords[n_d], skewness=bool(n_d))
         cm_vec.append(vec0 + np.outer(factor, vec0 - vec1))
 
     return cm_ords, cm_vec
-- 
2.43.0


From 1af86943a90e668864ffad6a5c66dd8493a4817a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 75/80] fix: tune scan reports the setpoint of the second
 quadrupole family

---
 pySC/correction/tune.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index 4d6bbe6..8ff40f1 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -88,11 +88,11 @@ def tune_scan(SC, quad_ords, rel_quad_changes, target=1, n_points=60, do_plot=Fa
     if (max_transmission := np.max(testTrans)) == 0:
         LOGGER.warning(f'No transmission at final turn at all. Maximum of {testTurns[max_ind]} turns reached with:\n'
                        f'    {first_quads[0]} SetPoint: {setpoints[0]:.4f}\n'
-                       f'    {first_quads[1]} SetPoint: {setpoints[0]:.4f}')
+                       f'    {first_quads[1]} SetPoint: {setpoints[1]:.4f}')
     else:
         LOGGER.warning(f'Transmission target not reached. Best value ({max_transmission:.4f}) reached with:\n'
                        f'    {first_quads[0]} SetPoint: {setpoints[0]:.4f}\n'
-                       f'    {first_quads[1]} SetPoint: {setpoints[0]:.4f}')
+                       f'    {first_quads[1]} SetPoint: {setpoints[1]:.4f}')
     q_setpoints = np.hstack((setpoints[0] * np.ones(nq[0]), setpoints[1] * np.ones(nq[1])))
     SC.set_magnet_setpoints(ords, q_setpoints, False, 1, method='rel')
     return SC, setpoints, max_turns, transmission
-- 
2.43.0


From f68024f4e83b2752cf2df48a0349654815bf155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:02 +0000
Subject: [PATCH 76/80] fix: overall magnet offset of the support plot has the
 sign of its parts

---
 pySC/plotting/plot_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/plotting/plot_support.py b/pySC/plotting/plot_support.py
index 6b7b1be..a6f4d43 100644
--- a/pySC/plotting/plot_support.py
+++ b/pySC/plotting/plot_support.py
@@ -57,7 +57,7 @@ def plot_support(SC: SimulatedCommissioning, font_size: int = 8, x_lim: Tuple[fl
     roll_mag_support = at_wrapper.atgetfieldvalues(SC.RING, SC.ORD.Magnet, "SupportRoll")
     off_mag_individual = at_wrapper.atgetfieldvalues(SC.RING, SC.ORD.Magnet, "MagnetOffset")
     roll_mag_individual = at_wrapper.atgetfieldvalues(SC.RING, SC.ORD.Magnet, "MagnetRoll")
-    off_mag_total = at_wrapper.atgetfieldvalues(SC.RING, SC.ORD.Magnet, "T2")[:, [0, 2, 5]]
+    off_mag_total = off_mag_support + off_mag_individual
     roll_mag_total = roll_mag_support + roll_mag_individual
 
     # BPM offsets and rolls
-- 
2.43.0


From 6778dd4ef9873a86239ca6d766a90b3dc7c32e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:02 +0000
Subject: [PATCH 77/80] fix: maps of the tune scan agree with their axes

---
 pySC/correction/tune.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index 8ff40f1..274a999 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -113,15 +113,15 @@ def plot_scan(fin_trans, max_turns, first_quads, rel_quad_changes):
     ax3 = f.add_subplot(gs[1, :])
     ticks = np.array([[0, rel_quad_changes[0].shape[0] // 2, rel_quad_changes[0].shape[0] - 1],
                      [0, rel_quad_changes[1].shape[0] // 2, rel_quad_changes[1].shape[0] - 1]])
-    im = ax1.imshow(100 * fin_trans, vmin=0, vmax=100)
+    im = ax1.imshow(100 * fin_trans.T, vmin=0, vmax=100)
     c1 = plt.colorbar(im, ax=ax1, orientation='vertical', label='Beam transmission [%]', shrink=0.6)
-    im2 = ax2.imshow(max_turns, vmin=0)
+    im2 = ax2.imshow(max_turns.T, vmin=0)
     c2 = plt.colorbar(im2, ax=ax2, orientation='vertical', label='Number of turns', shrink=0.6)
     for ax in (ax1, ax2):
         ax.set_xlabel(rf'$\Delta${first_quads[0]} [relative]')
         ax.set_ylabel(rf'$\Delta${first_quads[1]} [relative]')
         ax.set_xticks(ticks[0], np.round(rel_quad_changes[0][ticks[0, :]]-1, 5))
-        ax.set_yticks(ticks[0], np.round(rel_quad_changes[1][ticks[1, :]]-1, 5))
+        ax.set_yticks(ticks[1], np.round(rel_quad_changes[1][ticks[1, :]]-1, 5))
         for item in ([ax.xaxis.label, ax.yaxis.label] + ax.get_xticklabels() + ax.get_yticklabels()):
             item.set_fontsize(18)
     for cx in (c1, c2):
-- 
2.43.0


From 85434581424dcbcc87f2d9770233eaba82ef1c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:02 +0000
Subject: [PATCH 78/80] fix: plot all singular values

---
 pySC/utils/sc_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/sc_tools.py b/pySC/utils/sc_tools.py
index b72b162..34a7572 100644
--- a/pySC/utils/sc_tools.py
+++ b/pySC/utils/sc_tools.py
@@ -169,7 +169,7 @@ def read_multipoles(fname):  # TODO sample of the input anywhere?
 
 def _plot_singular_values(s_mat, d_mat):
     fig, ax = plt.subplots(nrows=1, ncols=2, figsize=(12, 4), dpi=100, facecolor="w")
-    ax[0].semilogy(np.diag(s_mat) / np.max(np.diag(s_mat)), 'o--')
+    ax[0].semilogy(s_mat / np.max(s_mat), 'o--')
     ax[0].set_xlabel('Number of SV')
     ax[0].set_ylabel(r'$\sigma/\sigma_0$')
     ax[1].plot(s_mat * d_mat, 'o--')
-- 
2.43.0


From e91e02cf3ac334517229c935dbc1e985f74a94f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:02 +0000
Subject: [PATCH 79/80] fix: BBA plots show values at the index of their BPM

---
 pySC/correction/bba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index 053907f..2b0ebcc 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -187,7 +187,7 @@ def plot_bba_results(SC, bpm_ords, bba_offsets, bba_offset_errors):
     f, ax = plt.subplots(nrows=2, num=90, figsize=(8, 8), facecolor="w")
     plabels = ("Horizontal", "Vertical")
     for n_dim in range(bpm_ords.shape[0]):
-        x = np.where(np.in1d(SC.ORD.BPM, bpm_ords[n_dim, :]))[0]
+        x = np.array([np.where(SC.ORD.BPM == bpm_ord)[0][0] for bpm_ord in bpm_ords[n_dim, :]])
         mask = errors[n_dim, :]
         ax[n_dim].errorbar(x[~mask], to_um * bba_offsets[n_dim, ~mask], yerr=to_um * bba_offset_errors[n_dim, ~mask], fmt="bo",
                            label=plabels[n_dim])
@@ -220,7 +220,7 @@ def plot_bpm_offsets_from_magnets(SC, bpm_ords, mag_ords, error_flags):
 
     plabels = ("Horizontal", "Vertical")
     for n_dim in range(bpm_ords.shape[0]):
-        x = np.where(np.in1d(SC.ORD.BPM, bpm_ords[n_dim, :]))[0]
+        x = np.array([np.where(SC.ORD.BPM == bpm_ord)[0][0] for bpm_ord in bpm_ords[n_dim, :]])
         mask = ~error_flags[n_dim, :]
         if not np.all(np.isnan(fom[n_dim, mask])):
             ax[n_dim + 1].plot(x[mask], 1E6 * fom[n_dim, mask], 'bo', label=plabels[n_dim])
-- 
2.43.0


From 32d412b9ffcfd5b1b0cb93054c107bd21d294b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:58 +0000
Subject: [PATCH 80/80] fix: RF scan progress can be plotted while no setting
 has transmitted beam

---
 pySC/correction/rf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index 035b6c9..cffade4 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -132,7 +132,8 @@ def _plot_progress(data, mean_tbt, phase=True):
     f, ax = plt.subplots(nrows=2, num=2)
     y_scale = 1e6
     ax[0].plot(y_scale * mean_tbt, 'o')
-    ax[0].plot(y_scale * np.arange(len(mean_tbt)) * bpm_shift[~np.isnan(bpm_shift)][-1], '--')
+    if not np.all(np.isnan(bpm_shift)):
+        ax[0].plot(y_scale * np.arange(len(mean_tbt)) * bpm_shift[~np.isnan(bpm_shift)][-1], '--')
     ax[0].set_xlabel('Number of turns')
     ax[0].set_ylabel(r'$\overline{\Delta x}$ [$\mu$m / turn]')
     ax[1].errorbar(test_vec, y_scale * bpm_shift, yerr=y_scale * bpm_shift_err, fmt='o')
-- 
2.43.0

