From b7a3acdac35648668a1af76455cd938acb12b099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 01/46] fix: keep the simple-span end shears when both ends of
 a loaded member are released

---
 src/pycba/beam.py | 8 ++++----
 src/pycba/load.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 062f631..e800a7d 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -852,9 +852,9 @@ class Beam:
             # correction is ``(Ma + Mb)/L`` applied to the fixed-fixed CNL),
             # so the constant-EI limit is reproduced.
             Va_ff, Vb_ff = ref[0], ref[2]
-            ref[0] = Va_ff + (Ma + Mb) / L
+            ref[0] = Va_ff - (Ma + Mb) / L
             ref[1] = 0.0
-            ref[2] = Vb_ff - (Ma + Mb) / L
+            ref[2] = Vb_ff + (Ma + Mb) / L
             ref[3] = 0.0
         elif eType in (2, 3):
             # Single moment release: condense the released rotational DOF so
@@ -1607,9 +1607,9 @@ class Beam:
         if eType == 4:
             # Pinned-pinned: release both end moments (mirror _ref_nonprismatic).
             Va_ff, Vb_ff = ref[0], ref[2]
-            ref[0] = Va_ff + (Ma + Mb) / L
+            ref[0] = Va_ff - (Ma + Mb) / L
             ref[1] = 0.0
-            ref[2] = Vb_ff - (Ma + Mb) / L
+            ref[2] = Vb_ff + (Ma + Mb) / L
             ref[3] = 0.0
         elif eType in (2, 3):
             # Single moment release: condense the released rotational DOF using
diff --git a/src/pycba/load.py b/src/pycba/load.py
index 68e7929..6056cb9 100644
--- a/src/pycba/load.py
+++ b/src/pycba/load.py
@@ -116,9 +116,9 @@ class Load:
             ref[2] = -fm * cnl.Ma
             ref[3] = 0.5 * cnl.Ma
         elif eType == 4:  # keep only vertical, remove moments
-            ref[0] = -(cnl.Ma + cnl.Mb) / L
+            ref[0] = (cnl.Ma + cnl.Mb) / L
             ref[1] = 1.0 * cnl.Ma
-            ref[2] = (cnl.Ma + cnl.Mb) / L
+            ref[2] = -(cnl.Ma + cnl.Mb) / L
             ref[3] = 1.0 * cnl.Mb
         else:
             # no nothing if it is FF
-- 
2.43.0


From 07d7d93836bfcfe8e2aaf11c495395ba84d9f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 02/46] fix: ignore the part of a partial UDL beyond its span
 in member results as in its end forces

---
 src/pycba/load.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pycba/load.py b/src/pycba/load.py
index 6056cb9..3ac4a51 100644
--- a/src/pycba/load.py
+++ b/src/pycba/load.py
@@ -355,7 +355,7 @@ class LoadPUDL(Load):
         w = self.w
         # Check if on span, if not, return zeros
         if self.a > L:
-            return [0.0] * 4
+            return LoadCNL(Va=0.0, Ma=0.0, Vb=0.0, Mb=0.0)
         # Actual cover on span
         d = L - (a + c)
         # If cover hangs off span, adjust it
@@ -398,8 +398,11 @@ class LoadPUDL(Load):
         res.x = x
 
         a = self.a
-        c = self.c
         w = self.w
+        # Off-span load has no effect; cover hanging off the span is ignored
+        if a > L:
+            return res
+        c = min(self.c, L - a)
         b = c + a
 
         Va = (L - b + c / 2) * c * w / L
-- 
2.43.0


From 60a6615ac59899c9b9ec9b1f499e078c9661c5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 03/46] fix: query results at a coordinate from the load
 effects, not the diagram-closing stations

---
 src/pycba/results.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/pycba/results.py b/src/pycba/results.py
index cba6398..4e6bf5e 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -28,6 +28,22 @@ def _shear_point_offset(L: float) -> float:
     return _SHEAR_POINT_REL_OFFSET * L
 
 
+def _value_at(members: List[MemberResults], values: np.ndarray, x: float) -> float:
+    """
+    Interpolate the station ``values`` of all ``members`` at the coordinate ``x``.
+
+    The interpolation is within the member that holds ``x`` (the left-hand one at
+    a joint), clear of its first and last stations: those only close the diagrams
+    to the baseline and do not carry load effects.
+    """
+    starts = np.array([m.x[0] for m in members])
+    i = max(int(np.searchsorted(starts, x)) - 1, 0)
+    first = sum(len(m.x) for m in members[:i])
+    n = len(members[i].x)
+    return float(np.interp(x, members[i].x[1:-1], values[first + 1 : first + n - 1]))
+
+
+
 class BeamResults:
     """
     BeamResults Class for processing and containing the results for each member
@@ -310,16 +326,14 @@ class BeamResults:
         -------
         dict
             Each requested attribute mapped to its interpolated value at ``x``.
-            The station array repeats span-boundary coordinates, so it is
-            de-duplicated first; at a step in the shear (a support or point
-            load) the left-hand value is returned.
+            The stations that only close the diagrams at the member ends are
+            ignored; at a joint between members the left-hand value is returned.
         """
         res = self.results
-        ux, uidx = np.unique(res.x, return_index=True)
         out: Dict[str, float] = {}
         for a in attrs:
             vals = np.asarray(getattr(res, a))
-            out[a] = float(np.interp(float(x), ux, vals[uidx]))
+            out[a] = _value_at(self.vRes, vals, float(x))
         return out
 
     def deflection_curve(self):
@@ -781,11 +795,6 @@ class Envelopes:
 
         return Envelopes.combine([self, other], mode="sum")
 
-    def _unique_x(self) -> Tuple[np.ndarray, np.ndarray]:
-        """Return the de-duplicated station coordinates and their indices."""
-
-        return np.unique(self.x, return_index=True)
-
     def at(
         self,
         x: float,
@@ -795,9 +804,10 @@ class Envelopes:
         Return envelope values at a global coordinate by interpolation.
 
         The station array ``self.x`` repeats span-boundary coordinates (each span
-        contributes its own start and end), so this method de-duplicates the
-        stations with :func:`numpy.unique` before interpolating. It replaces the
-        manual ``idx = (np.abs(env.x - x)).argmin()`` lookup.
+        contributes its own start and end, and stations that only close the
+        diagrams), so this method interpolates within the member that holds
+        ``x``. It replaces the manual ``idx = (np.abs(env.x - x)).argmin()``
+        lookup.
 
         Parameters
         ----------
@@ -814,11 +824,11 @@ class Envelopes:
             at ``x``.
         """
 
-        unique_x, unique_index = self._unique_x()
+        members = self.vResults[0].vRes
         out: Dict[str, float] = {}
         for attr in attrs:
             values = np.asarray(getattr(self, attr))
-            out[attr] = float(np.interp(float(x), unique_x, values[unique_index]))
+            out[attr] = _value_at(members, values, float(x))
         return out
 
     def to_dataframe(self, attrs: Tuple[str, ...] = ("Mmax", "Mmin", "Vmax", "Vmin")):
-- 
2.43.0


From 60f23fc72984b02404be0e9c93ce7070d06053c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 04/46] fix: leave no unscaled rotation in the diagram-closing
 stations

---
 src/pycba/results.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycba/results.py b/src/pycba/results.py
index 4e6bf5e..17c4e41 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -306,6 +306,9 @@ class BeamResults:
 
         res.R[1:-1] = psi
         res.D[1:-1] = D
+        # The closure stations carry no load effect (V, M and D are already zero)
+        res.R[0] = 0.0
+        res.R[-1] = 0.0
 
         return res
 
-- 
2.43.0


From 04c9e21e2929586fc15d03cb44c5382f144dfd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 05/46] fix: include the shear rotation of an applied couple in
 shear-flexible fixed-end forces

---
 src/pycba/beam.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index e800a7d..ac478c3 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -4,7 +4,7 @@ PyCBA - Beam Class definition
 from typing import Optional, Sequence, Union
 import numpy as np
 from scipy import integrate
-from .load import parse_LM, LoadType, LoadMatrix, LoadCNL, LoadIC
+from .load import parse_LM, LoadType, LoadMatrix, LoadCNL, LoadIC, LoadML
 from .types import MemberType
 from .section import SectionEI
 from .utils import supports_to_R, SupportType
@@ -1584,6 +1584,10 @@ class Beam:
             denom = 2.0 * (1.0 + phi)
             Ma = ((2.0 + phi) * cnl.Ma - phi * cnl.Mb) / denom
             Mb = (-phi * cnl.Ma + (2.0 + phi) * cnl.Mb) / denom
+            if isinstance(load, LoadML):
+                # A couple leaves a net simple-span shear, which rotates the ends
+                Ma -= phi * load.M / denom
+                Mb -= phi * load.M / denom
         else:
             theta0 = self._timo_theta0(load, EI, GAv, L)
             Kth = np.linalg.inv(self._timo_flexibility(EI, GAv, L))
-- 
2.43.0


From 1bfa2c7223cf74c82a4f08bcf36ea984f475c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 06/46] fix: keep diagram-closing stations out of the inside of
 a foundation member

---
 src/pycba/foundation.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pycba/foundation.py b/src/pycba/foundation.py
index 99ae12e..e0b64a2 100644
--- a/src/pycba/foundation.py
+++ b/src/pycba/foundation.py
@@ -98,13 +98,24 @@ def _eb_member_values(L, EI, f, d, loads, npts) -> MemberResults:
     D = integrate.cumulative_trapezoid(psi, dx=dx, initial=0) + d[0]
     res.R[1:-1] = psi
     res.D[1:-1] = D
+    res.R[0] = 0.0
+    res.R[-1] = 0.0
     return res
 
 
 def _concat_results(res_list: List[MemberResults]) -> MemberResults:
-    """Concatenate per-sub-element results into a single member result."""
+    """
+    Concatenate per-sub-element results into a single member result.
+
+    The stations closing each sub-element's diagrams to the baseline are kept only
+    at the two ends of the member, where the member's own diagrams close.
+    """
     arrays = [
-        np.concatenate([getattr(r, a) for r in res_list])
+        np.concatenate(
+            [getattr(res_list[0], a)[:1]]
+            + [getattr(r, a)[1:-1] for r in res_list]
+            + [getattr(res_list[-1], a)[-1:]]
+        )
         for a in ("x", "M", "V", "R", "D")
     ]
     return MemberResults(vals=tuple(arrays))
-- 
2.43.0


From ca46903d985ef2eea107825f6d4e8b7a41267c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 07/46] fix: start the influence line positions afresh when
 they are created again

---
 src/pycba/inf_lines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index c1c061d..a033073 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -67,6 +67,7 @@ class InfluenceLines:
         None.
         """
         self.vResults = []  # reset
+        self.pos = []
 
         if step is None:
             step = self.L / 100
-- 
2.43.0


From dfe41574d62ef81adc3afb3c4222f192c01e3f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 08/46] fix: give reaction influence lines on beams that also
 have spring supports

---
 src/pycba/inf_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index a033073..5c24790 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -128,7 +128,7 @@ class InfluenceLines:
         # Get vector of the node locations
         node_locations = np.cumsum(np.insert(self.ba.beam.mbr_lengths, 0, 0))
         # Link the supported DOF to the index in the BeamAnalysis reactions vector
-        idx_mask = np.zeros_like(self.ba._beam.restraints)
+        idx_mask = np.zeros_like(self.ba._beam.restraints, dtype=int)
         idx_mask[np.where(np.array(self.ba._beam.restraints) == -1)] = np.arange(
             self.ba.beam.no_fixed_restraints
         )
-- 
2.43.0


From 1c496651441a93d21bf4a098c55b33fd60e8f398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 09/46] fix: keep the last influence line position on the beam
 when the steps round past its end

---
 src/pycba/inf_lines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index 5c24790..f8b44e0 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -77,6 +77,8 @@ class InfluenceLines:
         for i in range(npts):
             # load position
             pos = i * step
+            if pos > self.L and np.isclose(pos, self.L):
+                pos = self.L  # past the end only by rounding
             self.pos.append(pos)
             # locate load on span
             ispan, pos_in_span = self.ba.beam.get_local_span_coords(pos)
-- 
2.43.0


From 9cd3a1eb5fc4f00e290f053d6e5bb72563584273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 10/46] fix: sum the coincident load effects along with the
 envelopes they belong to

---
 src/pycba/results.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycba/results.py b/src/pycba/results.py
index 17c4e41..be0972b 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -758,6 +758,10 @@ class Envelopes:
 
         self.Mmax = np.add(self.Mmax, env.Mmax)
         self.Mmin = np.add(self.Mmin, env.Mmin)
+        self.Vco_Mmax = np.add(self.Vco_Mmax, env.Vco_Mmax)
+        self.Vco_Mmin = np.add(self.Vco_Mmin, env.Vco_Mmin)
+        self.Mco_Vmax = np.add(self.Mco_Vmax, env.Mco_Vmax)
+        self.Mco_Vmin = np.add(self.Mco_Vmin, env.Mco_Vmin)
 
         self.Rmaxval = np.add(self.Rmaxval, env.Rmaxval)
         self.Rminval = np.add(self.Rminval, env.Rminval)
-- 
2.43.0


From c8b3e96f58b4da13b7373ed58f369dcf6954d643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 11/46] fix: leave only its static loads on a bridge after a
 vehicle analysis

---
 src/pycba/bridge.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 3d00c78..14aa76e 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -356,7 +356,11 @@ class BridgeAnalysis:
         LM = add_LM(self.static_LM, self._axle_LM(pos))
 
         self.ba.set_loads(LM)
-        return self.ba.analyze()
+        try:
+            return self.ba.analyze()
+        finally:
+            # Leave the bridge with its static loads only
+            self.ba.set_loads(self.static_LM)
 
     def run_vehicle(
         self,
@@ -586,6 +590,8 @@ class BridgeAnalysis:
                 self.vResults.append(self.ba.beam_results)
         finally:
             self.ba.shear_points = None
+            # Leave the bridge with its static loads only
+            self.ba.set_loads(self.static_LM)
 
         env = Envelopes(self.vResults)
 
-- 
2.43.0


From 564ecbe53c4c534d97415503c0f776afa809d763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 12/46] fix: recover the shear on both sides of a shear point
 that lies on a node

---
 src/pycba/bridge.py  | 3 +++
 src/pycba/results.py | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 14aa76e..252571e 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -70,6 +70,9 @@ def resolve_shear_points(
         ispan, pos_in_span = beam.get_local_span_coords(g)
         if ispan != -1:
             sp.setdefault(ispan, []).append(pos_in_span)
+            # A section at a node is the end of one member and the start of the next
+            if pos_in_span == 0.0:
+                sp.setdefault(ispan - 1, []).append(beam.mbr_lengths[ispan - 1])
 
     return {k: np.array(sorted(v)) for k, v in sp.items()}, points_global
 
diff --git a/src/pycba/results.py b/src/pycba/results.py
index be0972b..4f849aa 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -207,13 +207,13 @@ class BeamResults:
         # Optionally splice in paired "shear point" stations either side of each
         # requested section so the closed-form shear is sampled just-left and
         # just-right of it (capturing the jump when a point load sits exactly
-        # there).  The points are fixed per member, so the station grid stays
-        # identical across a moving-load traverse, as :class:`Envelopes` requires.
+        # there; only the inner side at a member end).  The points are fixed per
+        # member, so the station grid stays identical across a moving-load traverse, as :class:`Envelopes` requires.
         sp = self.shear_points.get(i_span)
         augmented = sp is not None and len(sp) > 0
         if augmented:
             off = _shear_point_offset(L)
-            pairs = [p for xs in sp if off < xs < L - off for p in (xs - off, xs + off)]
+            pairs = [p for xs in sp for p in (xs - off, xs + off) if 0.0 < p < L]
             if pairs:
                 xr = np.sort(np.concatenate([xr, np.asarray(pairs, dtype=float)]))
             else:
-- 
2.43.0


From cb64ee7eaf03c4c046e78d2a122b61d7f0f4b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 13/46] fix: spread the tri-axle group load of the ABAG
 semi-trailer evenly over its axles

---
 src/pycba/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index f0796cd..caf7f87 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -278,7 +278,7 @@ class VehicleLibrary:
         ]
 
         abag_semitrailer_aw = (
-            np.array([6, 17 / 2, 17 / 2, 22.5 / 2, 22.5 / 2, 22.5 / 3]) * 9.81
+            np.array([6, 17 / 2, 17 / 2, 22.5 / 3, 22.5 / 3, 22.5 / 3]) * 9.81
         )  # t to kN
 
         abag_semitrailer_as = [
-- 
2.43.0


From 5233dc444b85f06cef20bfaa00aec2c5625ba614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 14/46] fix: turn the axle data of a vehicle round with its
 coordinates when reversed in place

---
 src/pycba/vehicle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index caf7f87..28da855 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -71,7 +71,9 @@ class Vehicle:
 
         """
         if in_place:
-            self.axle_coords = +self.L - self.axle_coords
+            self.axs = self.axs[::-1]
+            self.axw = self.axw[::-1]
+            self.axle_coords = self.L - self.axle_coords[::-1]
         else:
             return Vehicle(np.copy(self.axs[::-1]), np.copy(self.axw[::-1]))
 
-- 
2.43.0


From fd7b5a4ad600c965bbab9d55d621ab82404876b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 15/46] fix: join vehicles into a train whatever their axle
 spacings, with one spacing for all gaps as documented

---
 src/pycba/vehicle.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index 28da855..ac2b15e 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -196,6 +196,9 @@ def make_train(vehicles: List[Vehicle], spacings: np.ndarray):
 
     """
 
+    if len(spacings) == 1 and len(vehicles) > 1:
+        spacings = np.full(len(vehicles) - 1, spacings[0])
+
     if len(vehicles) - 1 != len(spacings):
         raise ValueError("Inconsistent vehicle and spacing counts")
 
@@ -205,12 +208,10 @@ def make_train(vehicles: List[Vehicle], spacings: np.ndarray):
     new_vehicle_axles = np.array([])
     new_vehicle_spaces = np.array([])
 
-    # loop through each vehicle
-    for veh in vehicles:
+    # loop through each vehicle, with the gap in front of it
+    for veh, gap in zip(vehicles, np.insert(spacings, 0, 0)):
         new_vehicle_axles = np.append(new_vehicle_axles, veh.axw)
-        new_vehicle_spaces = np.append(new_vehicle_spaces, np.insert(veh.axs, 0, 0))
-
-    new_vehicle_spaces[new_vehicle_spaces == 0] = np.insert(spacings, 0, 0)
+        new_vehicle_spaces = np.concatenate((new_vehicle_spaces, [gap], veh.axs))
 
     return Vehicle(new_vehicle_spaces[1:], new_vehicle_axles)
 
-- 
2.43.0


From 2627986dbf0f25a864fee83a473df4ac4bb6d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 16/46] fix: select a target combination by the load effects at
 the target, not the diagram-closing stations

---
 src/pycba/load_cases.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index c30c5ed..34cb91f 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -1045,9 +1045,18 @@ def _response_at(x: np.ndarray, B: np.ndarray, x_target: float) -> np.ndarray:
             f"[{x.min()}, {x.max()}]."
         )
 
-    unique_x, unique_index = np.unique(x, return_index=True)
-    unique_B = B[:, unique_index]
-    return np.array([np.interp(x_target, unique_x, row) for row in unique_B])
+    # A member's first and last stations only close its diagram to the baseline:
+    # interpolate from the last entry at a repeated coordinate to the first entry
+    # at the next one, which are the load effects within the member.
+    unique_x, first, counts = np.unique(x, return_index=True, return_counts=True)
+    last = first + counts - 1
+    k = max(int(np.searchsorted(unique_x, x_target)), 1)
+    return np.array(
+        [
+            np.interp(x_target, unique_x[k - 1 : k + 1], (row[last[k - 1]], row[first[k]]))
+            for row in B
+        ]
+    )
 
 
 def _make_target_combination(
-- 
2.43.0


From 45c85ee0b988be9a3565caec96ae34750ca04466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 17/46] fix: keep the foundation moduli of the beam when
 analysing load cases

---
 src/pycba/load_cases.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index 34cb91f..114a712 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -854,7 +854,7 @@ def build_pycba_model(
 
     ``beam_model`` is an existing PyCBA beam definition, normally a
     :class:`BeamAnalysis` with the required spans, stiffnesses, supports,
-    springs, releases, and prescribed displacements already defined. The
+    springs, releases, foundations, and prescribed displacements already defined. The
     returned model is a new analysis object so independent load cases do not
     mutate each other.
     """
@@ -868,6 +868,7 @@ def build_pycba_model(
         eletype=list(beam.mbr_eletype),
         D=list(beam.prescribed_displacements),
         GAv=list(getattr(beam, "mbr_GAv", [])) or None,
+        kf=list(getattr(beam, "mbr_kf", [])) or None,
     )
 
 
-- 
2.43.0


From 5cf9749d0b07ca0dbf1ab65c787474fb3236018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 18/46] fix: join the right-hand parabolas of a compound tendon
 with matching slope

---
 src/pycba/prestress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 79c5341..9ee4986 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -192,7 +192,7 @@ class CompoundParabola:
         el, em, er = self.e_left, self.e_mid, self.e_right
         a1 = (a / c) * (em - el)
         a2 = (em - el) - a1
-        a4 = (b / d) * (em - er)
+        a4 = (b / (L - c)) * (em - er)
         a3 = (em - er) - a4
         # epp of each segment from sag over its half-span (sag a_i over length):
         # piece 1 [0,a] concave down, piece 2 [a,c] concave up,
-- 
2.43.0


From 26176b85ba4ee53c2c9f3d0d2751a5e7a0ed1fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 19/46] fix: anchor a tendon at the ends of its stressed spans
 and where its force or eccentricity changes

---
 src/pycba/prestress.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 9ee4986..2923bde 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -347,10 +347,7 @@ def equivalent_loads(
         raise ValueError(f"expected {n} force values, got {len(F)}")
 
     LM: LoadMatrix = []
-    first_e: Optional[float] = None
-    first_F = 0.0
-    last_e: Optional[float] = None
-    last_F = 0.0
+    tendons: List[Optional[List[_Seg]]] = [None] * n
 
     for i, prof in enumerate(profiles):
         if prof is None:
@@ -382,28 +379,35 @@ def equivalent_loads(
                     LM.append([span, 2, P, s.x1])
             prev_end_slope = s.slope_end()
 
-        # remember tendon eccentricity AND slope at the two ends of the beam
-        if first_e is None:
-            first_e, first_F = segs[0].e1, Fi
-            first_slope = segs[0].slope_start()
-        last_e, last_F = segs[-1].e2, Fi
-        last_slope = segs[-1].slope_end()
+        tendons[i] = segs
 
     # Anchorage actions  M = F e (couple) and V = F e' (vertical).  At the left
     # end +F e; at the right end -F e, so the moment pair is self-equilibrating
-    # (a constant eccentricity gives the correct uniform -F e).  The vertical
+    # (a constant eccentricity gives the correct uniform -F e).  The tendon is
+    # anchored where the stressed spans begin and end, and in part where the
+    # force or the eccentricity changes from one span to the next.  The vertical
     # anchorage force is reacted directly by any support there, so it is applied
     # only at a free tip (where it is not absorbed).
+    for i, segs in enumerate(tendons):
+        if segs is None:
+            continue
+        m = F[i] * segs[0].e1
+        if i > 0 and tendons[i - 1] is not None:
+            m -= F[i - 1] * tendons[i - 1][-1].e2
+        if abs(m) > _TOL:
+            LM.append([i + 1, 4, m, 0.0])
+        if (i == n - 1 or tendons[i + 1] is None) and abs(segs[-1].e2) > _TOL:
+            LM.append([i + 1, 4, -F[i] * segs[-1].e2, L[i]])
     left_free = R[0] == 0 and R[1] == 0
     right_free = R[2 * n] == 0 and R[2 * n + 1] == 0
-    if first_e is not None and abs(first_e) > _TOL:
-        LM.append([1, 4, first_F * first_e, 0.0])
-    if last_e is not None and abs(last_e) > _TOL:
-        LM.append([n, 4, -last_F * last_e, L[-1]])
-    if left_free and abs(first_slope) > _TOL:
-        LM.append([1, 2, first_F * first_slope, 0.0])
-    if right_free and abs(last_slope) > _TOL:
-        LM.append([n, 2, -last_F * last_slope, L[-1]])
+    if left_free and tendons[0] is not None:
+        slope = tendons[0][0].slope_start()
+        if abs(slope) > _TOL:
+            LM.append([1, 2, F[0] * slope, 0.0])
+    if right_free and tendons[-1] is not None:
+        slope = tendons[-1][-1].slope_end()
+        if abs(slope) > _TOL:
+            LM.append([n, 2, -F[-1] * slope, L[-1]])
 
     return LM
 
-- 
2.43.0


From 3b15585f98a265ca06437f71764d82127dc971ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 20/46] fix: default the member type of a beam built without
 one to fixed-fixed as documented

---
 src/pycba/beam.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index ac478c3..e478dcb 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -120,7 +120,9 @@ class Beam:
                 raise ValueError("supports requires L to set the node count.")
             R = supports_to_R(supports, n_nodes=len(L) + 1)
 
-        if L is not None and eletype is not None:
+        if L is not None:
+            if eletype is None:
+                eletype = [1] * len(L)
             # Normalise GAv / kf to one entry per span (None => off).
             GAv_list = self._broadcast_GAv(GAv, len(L))
             kf_list = self._broadcast_kf(kf, len(L))
-- 
2.43.0


From 96075bac3b60a64a1c09c5efbe233905c6fd1170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 21/46] fix: refuse a modal analysis of spans on a foundation
 instead of ignoring it

---
 src/pycba/analysis.py | 3 ++-
 src/pycba/modal.py    | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pycba/analysis.py b/src/pycba/analysis.py
index addedb1..ead9e4f 100644
--- a/src/pycba/analysis.py
+++ b/src/pycba/analysis.py
@@ -494,7 +494,8 @@ class BeamAnalysis:
         Notes
         -----
         Supported for prismatic, fixed-fixed spans without shear flexibility
-        (``GAv``); other combinations raise a clear ``NotImplementedError``.
+        (``GAv``) or foundation (``kf``); other combinations raise a clear
+        ``NotImplementedError``.
         """
         from .modal import solve_modal
 
diff --git a/src/pycba/modal.py b/src/pycba/modal.py
index 5b0593a..75d1520 100644
--- a/src/pycba/modal.py
+++ b/src/pycba/modal.py
@@ -231,6 +231,10 @@ def solve_modal(beam, mass, n_modes: int = 10, nseg: int = 12) -> ModalResults:
             raise NotImplementedError(
                 "Modal analysis supports fixed-fixed spans only (no moment releases)."
             )
+        if beam.mbr_kf[i] is not None:
+            raise NotImplementedError(
+                "Modal analysis does not yet support spans on a foundation (kf)."
+            )
 
     mass_list = _broadcast_mass(mass, N)
     n_nodes = N * nseg + 1
-- 
2.43.0


From 35ef25b157b4d107a056380e5afb5113902525d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 22/46] fix: judge collapse by a mechanism of the hinges
 formed, not by the number of hinges

---
 docs/source/theory.md  |  2 +-
 src/pycba/nonlinear.py | 23 ++++++++++++++---------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/docs/source/theory.md b/docs/source/theory.md
index 89c3202..ce79b93 100644
--- a/docs/source/theory.md
+++ b/docs/source/theory.md
@@ -996,7 +996,7 @@ A collapse mechanism requires enough plastic hinges to render the structure
 kinematically unstable. `PyCBA` detects this with a **rank test**: nearby hinged
 nodes are first clustered (within $2 h_{\min}$, where $h_{\min}$ is the smallest
 element length) to absorb mesh discretisation; at each clustered hinge $R = 0$ is
-set at *both* element ends, fully releasing the node as in a true mechanism; the
+set at the element end that owns the hinge; the dimensionless
 test stiffness $\mathbf{K}_{\text{test}}$ is assembled with the boundary
 conditions applied; and if
 $\operatorname{rank}(\mathbf{K}_{\text{test}}) < n_{\text{dof}}$ the structure is
diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index d7feb32..b287998 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -15,8 +15,8 @@ Each plastic hinge is *owned* by a single element end so that the adjacent
 element retains rotational stiffness at the shared node.  This keeps the
 global stiffness matrix non-singular during load redistribution and allows
 the analysis to continue past first-hinge formation.  True collapse is
-detected by a separate rank test that zeros both element ends at every
-hinged node and checks for global singularity.
+detected by a separate rank test that fully releases every hinge and checks
+for global singularity.
 
 References
 ----------
@@ -864,22 +864,27 @@ class NonlinearBeamAnalysis:
     def _is_mechanism(self, hinged_nodes):
         """Test whether the current hinge pattern forms a collapse mechanism.
 
-        Builds a test stiffness matrix with *R* = 0 at both element ends
-        of every clustered hinge location.  If this matrix is rank-deficient
-        the structure has become a mechanism.
+        Builds a test stiffness matrix with *R* = 0 at the element end that
+        owns each clustered hinge location (releasing both ends would leave
+        the node without rotational stiffness whatever the other hinges).  If
+        this matrix is rank-deficient the structure has become a mechanism.
         """
         reps = self._cluster_hinges(hinged_nodes)
-        if len(reps) < 2:
+        if not reps:
             return False
         R_test = np.ones((self.n_elem, 2))
         for j in reps:
             if j > 0:
                 R_test[j - 1, 1] = 0.0
-            if j < self.n_elem:
-                R_test[j, 0] = 0.0
+            else:
+                R_test[0, 0] = 0.0
+        # Dimensionless, so that the rank does not depend on the units
+        h = float(self.elem_L.min())
+        s = np.tile([1.0, 1.0 / h], self.n_nodes)
         K_test = self._assemble_from_elem_R(R_test)
+        K_test = K_test * np.outer(s, s) * (h**3 / float(self.elem_EI.max()))
         self._apply_bc_inplace(K_test)
-        return np.linalg.matrix_rank(K_test, tol=1e-6) < self.n_dof
+        return np.linalg.matrix_rank(K_test) < self.n_dof
 
     # ---- Static incremental analysis ----
 
-- 
2.43.0


From 7094569796372a697e7c8eced2ecccf3463af2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 23/46] fix: report the moment at the first node with the sign
 of the others

---
 src/pycba/nonlinear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index b287998..afbd35a 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -778,7 +778,7 @@ class NonlinearBeamAnalysis:
                 k = R1 * self._ke_all[i] + (R2 - R1) * self._k1_all[i]
             fe = k @ u[d : d + 4]
             if i == 0:
-                moments[0] = fe[1]
+                moments[0] = -fe[1]  # sagging positive, as at the other nodes
             moments[i + 1] = fe[3]
         return moments
 
@@ -789,7 +789,7 @@ class NonlinearBeamAnalysis:
             d = 2 * i
             fe = self._ke_all[i] @ u[d : d + 4]
             if i == 0:
-                moments[0] = fe[1]
+                moments[0] = -fe[1]  # sagging positive, as at the other nodes
             moments[i + 1] = fe[3]
         return moments
 
-- 
2.43.0


From 0163190feda594226fd08419cba9fd00ed00a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 24/46] fix: refuse load types the nonlinear analysis does not
 cover instead of ignoring them

---
 src/pycba/nonlinear.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index afbd35a..d5363bc 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -731,6 +731,11 @@ class NonlinearBeamAnalysis:
                     F[2 * (ie + 1)] -= val * h / 2
             elif lt == 2:  # Point load
                 self._add_point_load(F, val, span_starts[i_span] + float(ld[3]))
+            else:
+                raise ValueError(
+                    "Nonlinear analysis supports UDL (type 1) and point load "
+                    f"(type 2) only, not load type {lt}."
+                )
         return F
 
     def _add_point_load(self, F: np.ndarray, P: float, x: float):
-- 
2.43.0


From 92d983b5533f498eb6d9eba8a9f7fef241a0f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 25/46] fix: let the weaker member govern the plastic moment at
 a support between spans

---
 src/pycba/nonlinear.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index d5363bc..12045b6 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -637,8 +637,14 @@ class NonlinearBeamAnalysis:
 
         # Per-element / per-node properties
         self.elem_EI = self.span_EI[self.node_to_span[: self.n_elem]]
-        self.node_Mp = self.span_Mp[self.node_to_span]
-        self.node_My = self.span_My[self.node_to_span]
+        # The weaker of the two members governs at a node between spans
+        node_span = self.node_to_span.copy()
+        for j in range(1, self.n_nodes - 1):
+            nxt = self.node_to_span[j + 1]
+            if self.span_Mp[nxt] < self.span_Mp[node_span[j]]:
+                node_span[j] = nxt
+        self.node_Mp = self.span_Mp[node_span]
+        self.node_My = self.span_My[node_span]
         self.node_gamma_y = self.node_My / self.node_Mp
 
         # ---- Precompute element stiffness matrices (n_elem, 4, 4) ----
-- 
2.43.0


From 3bbfb52bf20a64e434253b5a5700b28674933371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 26/46] fix: include spring supports in the nonlinear analysis

---
 src/pycba/nonlinear.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 12045b6..5ae0793 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -560,7 +560,8 @@ class NonlinearBeamAnalysis:
     EI : float or array_like
         Flexural rigidity (kNm²), scalar or per-span.
     R : array_like
-        Restraint vector in pycba convention (``-1`` = fixed, ``0`` = free).
+        Restraint vector in pycba convention (``-1`` = fixed, ``0`` = free,
+        positive = spring stiffness).
     Mp : float or array_like
         Plastic moment capacity (kNm), scalar or per-span.
     My : float or array_like, optional
@@ -630,6 +631,14 @@ class NonlinearBeamAnalysis:
         self.node_coords, self.elem_L, self.bc_dofs, self.node_to_span = _build_mesh(
             self.span_L, self.span_R, mesh_size
         )
+        self.spring_dofs = []
+        for i_sup, x in enumerate(np.concatenate(([0.0], np.cumsum(self.span_L)))):
+            mn = int(np.argmin(np.abs(self.node_coords - x)))
+            for d in range(2):
+                if self.span_R[2 * i_sup + d] > 0:
+                    self.spring_dofs.append(
+                        (2 * mn + d, float(self.span_R[2 * i_sup + d]))
+                    )
         self.n_nodes = len(self.node_coords)
         self.n_elem = len(self.elem_L)
         self.n_dof = 2 * self.n_nodes
@@ -672,6 +681,12 @@ class NonlinearBeamAnalysis:
         for i in range(self.n_elem):
             d = 2 * i
             K[d : d + 4, d : d + 4] += self._ke_all[i]
+        return self._add_springs(K)
+
+    def _add_springs(self, K: np.ndarray) -> np.ndarray:
+        """Add the stiffness of the spring supports to K (modifies and returns K)."""
+        for dof, k in self.spring_dofs:
+            K[dof, dof] += k
         return K
 
     def _assemble_from_elem_R(self, R_elem: np.ndarray) -> np.ndarray:
@@ -690,7 +705,7 @@ class NonlinearBeamAnalysis:
                 k = R1 * self._ke_all[i] + (R2 - R1) * self._k1_all[i]
             d = 2 * i
             K[d : d + 4, d : d + 4] += k
-        return K
+        return self._add_springs(K)
 
     def _apply_bc_inplace(self, K: np.ndarray) -> np.ndarray:
         """Apply BCs to K (modifies and returns K)."""
-- 
2.43.0


From 2d3d76c6e39ab888c48b15b3724490fcc7713f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 27/46] fix: resolve the collapse of a load that exceeds first
 yield below a load factor of one

---
 docs/source/theory.md  | 3 ++-
 src/pycba/nonlinear.py | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/docs/source/theory.md b/docs/source/theory.md
index ce79b93..d1d677e 100644
--- a/docs/source/theory.md
+++ b/docs/source/theory.md
@@ -967,7 +967,8 @@ The proportional-load analysis proceeds incrementally:
 1. **Initialise:** all $R = 1$, load factor $\lambda = 0$, moments
    $\mathbf{M} = \mathbf{0}$.
 2. **Increment:** choose a step $\Delta\lambda$ (adaptive — smaller when any $R$
-   is low, i.e. near plasticity).
+   is low, i.e. near plasticity; and scaled down to the load factor at first
+   yield where that is below one).
 3. **Solve** the current tangent system
    $\mathbf{K}\,\Delta\mathbf{u} = \Delta\lambda\,\mathbf{f}_{\text{ref}}$, where
    $\mathbf{f}_{\text{ref}}$ is the reference load vector.
diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 5ae0793..d3f8911 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -941,6 +941,11 @@ class NonlinearBeamAnalysis:
             distribution at end of analysis.
         """
         F_ref = self._build_force_vector(LM)
+        # Steps are relative to the load factor at first yield where that is
+        # below one, so that they resolve the collapse of a heavy load too.
+        K_bc, F_bc = self._apply_bc(self._assemble_elastic(), F_ref)
+        m_el = np.abs(self._extract_moments_elastic(np.linalg.solve(K_bc, F_bc)))
+        scale = 1.0 / max(1.0, float(np.max(m_el / self.node_My)))
         R_elem = np.ones((self.n_elem, 2))
         moments = np.zeros(self.n_nodes)
         gamma_max = np.zeros(self.n_nodes)
@@ -954,7 +959,7 @@ class NonlinearBeamAnalysis:
         while lam < lambda_max and step < max_steps:
             Rmin = float(R_elem.min())
             dl = 0.1 if Rmin > 0.5 else (0.01 if Rmin > 0.25 else 0.001)
-            dl = min(dl, lambda_max - lam)
+            dl = min(dl * scale, lambda_max - lam)
             lam += dl
             step += 1
 
-- 
2.43.0


From aca62ba64b013e22f0d58ffc3e90c4ee80fb5c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 28/46] fix: test for collapse when a hinge forms during the
 transfer of a moving load

---
 src/pycba/nonlinear.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index d3f8911..230dbaa 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -1145,7 +1145,7 @@ class NonlinearBeamAnalysis:
                     u_ul = np.linalg.solve(K_el_bc, F_ul)
                     moments += self._extract_moments_elastic(u_ul)
 
-                    self._update_R(
+                    nh = self._update_R(
                         moments,
                         gamma_max,
                         R_elem,
@@ -1154,6 +1154,16 @@ class NonlinearBeamAnalysis:
                         hinge_events,
                         x_front,
                     )
+                    if nh and self._is_mechanism(hinged):
+                        return self._mr(
+                            x_front,
+                            True,
+                            hinge_events,
+                            moments,
+                            R_elem,
+                            lam_hist,
+                            mom_hist,
+                        )
 
                     K = self._assemble_from_elem_R(R_elem)
                     K_bc, F_bc = self._apply_bc(K, d_frac * F_cur)
-- 
2.43.0


From d6493d9ea6474f9fbec39836a75dfddfcdd9bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 29/46] fix: keep hogging and sagging hinges apart when
 clustering them for the collapse test

---
 docs/source/theory.md  |  4 ++--
 src/pycba/nonlinear.py | 11 +++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/docs/source/theory.md b/docs/source/theory.md
index d1d677e..5c120a3 100644
--- a/docs/source/theory.md
+++ b/docs/source/theory.md
@@ -995,8 +995,8 @@ accuracy. This correctly accumulates plastic damage as the vehicle traverses
 
 A collapse mechanism requires enough plastic hinges to render the structure
 kinematically unstable. `PyCBA` detects this with a **rank test**: nearby hinged
-nodes are first clustered (within $2 h_{\min}$, where $h_{\min}$ is the smallest
-element length) to absorb mesh discretisation; at each clustered hinge $R = 0$ is
+nodes under moments of the same sign are first clustered (within $2 h_{\min}$,
+where $h_{\min}$ is the smallest element length) to absorb mesh discretisation; at each clustered hinge $R = 0$ is
 set at the element end that owns the hinge; the dimensionless
 test stiffness $\mathbf{K}_{\text{test}}$ is assembled with the boundary
 conditions applied; and if
diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 230dbaa..41dc7ff 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -858,7 +858,7 @@ class NonlinearBeamAnalysis:
                     HingeEvent(pos_label, self.node_coords[j], j, "initial_yield")
                 )
             if gamma[j] >= 1.0 and j not in hinged:
-                hinged.add(j)
+                hinged[j] = moments[j] > 0.0  # sagging or hogging
                 hinge_events.append(
                     HingeEvent(pos_label, self.node_coords[j], j, "plastic_hinge")
                 )
@@ -873,6 +873,7 @@ class NonlinearBeamAnalysis:
         Because the mesh may produce multiple hinged nodes at nearly the
         same physical location, this groups them within *tol* (default
         2 * min element length) and returns one representative per cluster.
+        Hinges formed by moments of opposite sign are distinct however close.
         """
         if not hinged_nodes:
             return []
@@ -881,7 +882,9 @@ class NonlinearBeamAnalysis:
         sn = sorted(hinged_nodes)
         clusters = [[sn[0]]]
         for n in sn[1:]:
-            if self.node_coords[n] - self.node_coords[clusters[-1][-1]] <= tol:
+            last = clusters[-1][-1]
+            near = self.node_coords[n] - self.node_coords[last] <= tol
+            if near and hinged_nodes[n] == hinged_nodes[last]:
                 clusters[-1].append(n)
             else:
                 clusters.append([n])
@@ -953,7 +956,7 @@ class NonlinearBeamAnalysis:
 
         lam = 0.0
         hinge_events, lam_hist, mom_hist = [], [], []
-        yielded, hinged = set(), set()
+        yielded, hinged = set(), {}
         step = 0
 
         while lam < lambda_max and step < max_steps:
@@ -1102,7 +1105,7 @@ class NonlinearBeamAnalysis:
         moments = np.zeros(self.n_nodes)
         gamma_max = np.zeros(self.n_nodes)
         hinge_events, lam_hist, mom_hist = [], [], []
-        yielded, hinged = set(), set()
+        yielded, hinged = set(), {}
 
         F_prev = np.zeros(self.n_dof)
         K_el_bc = self._K_elastic_bc
-- 
2.43.0


From d95ef25df8c8d78762ec6a180ac048accd052841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 30/46] fix: give the first element of each span the stiffness
 of its own span in the nonlinear analysis

---
 src/pycba/nonlinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 41dc7ff..ef91192 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -645,7 +645,7 @@ class NonlinearBeamAnalysis:
         self.support_coords = np.concatenate(([0.0], np.cumsum(self.span_L)))
 
         # Per-element / per-node properties
-        self.elem_EI = self.span_EI[self.node_to_span[: self.n_elem]]
+        self.elem_EI = self.span_EI[self.node_to_span[1:]]
         # The weaker of the two members governs at a node between spans
         node_span = self.node_to_span.copy()
         for j in range(1, self.n_nodes - 1):
-- 
2.43.0


From f860ce6bae6c2e48f8df31d48df6c332755463a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 31/46] fix: step just past first yield, not to a rounding
 error short of it

---
 src/pycba/nonlinear.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index ef91192..8a439d3 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -945,10 +945,11 @@ class NonlinearBeamAnalysis:
         """
         F_ref = self._build_force_vector(LM)
         # Steps are relative to the load factor at first yield where that is
-        # below one, so that they resolve the collapse of a heavy load too.
+        # below one, so that they resolve the collapse of a heavy load too (to
+        # just past it: not to a rounding error short of it).
         K_bc, F_bc = self._apply_bc(self._assemble_elastic(), F_ref)
         m_el = np.abs(self._extract_moments_elastic(np.linalg.solve(K_bc, F_bc)))
-        scale = 1.0 / max(1.0, float(np.max(m_el / self.node_My)))
+        scale = 1.001 / max(1.001, float(np.max(m_el / self.node_My)))
         R_elem = np.ones((self.n_elem, 2))
         moments = np.zeros(self.n_nodes)
         gamma_max = np.zeros(self.n_nodes)
-- 
2.43.0


From b225ad8b2c7d1f45a4d59d9382ec68481758e927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 32/46] fix: test for collapse at the first position of a
 moving load too

---
 src/pycba/nonlinear.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 8a439d3..d0c0e56 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -1116,7 +1116,7 @@ class NonlinearBeamAnalysis:
 
             if i_pos == 0:
                 for _ in range(n_sub):
-                    self._update_R(
+                    nh = self._update_R(
                         moments,
                         gamma_max,
                         R_elem,
@@ -1125,6 +1125,16 @@ class NonlinearBeamAnalysis:
                         hinge_events,
                         x_front,
                     )
+                    if nh and self._is_mechanism(hinged):
+                        return self._mr(
+                            x_front,
+                            True,
+                            hinge_events,
+                            moments,
+                            R_elem,
+                            lam_hist,
+                            mom_hist,
+                        )
                     K = self._assemble_from_elem_R(R_elem)
                     K_bc, F_bc = self._apply_bc(K, d_frac * F_cur)
                     try:
@@ -1140,6 +1150,14 @@ class NonlinearBeamAnalysis:
                             mom_hist,
                         )
                     moments += self._extract_moments(u, R_elem)
+
+                nh = self._update_R(
+                    moments, gamma_max, R_elem, yielded, hinged, hinge_events, x_front
+                )
+                if nh and self._is_mechanism(hinged):
+                    return self._mr(
+                        x_front, True, hinge_events, moments, R_elem, lam_hist, mom_hist
+                    )
             else:
                 for _ in range(n_sub):
                     # Elastic unload
-- 
2.43.0


From 03750522d073f74057c36538c68b1becbefd3a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 33/46] fix: refuse beam strings with spans that are not
 positive

---
 src/pycba/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycba/utils.py b/src/pycba/utils.py
index ebe3a53..7bddc8a 100644
--- a/src/pycba/utils.py
+++ b/src/pycba/utils.py
@@ -212,6 +212,8 @@ def parse_beam_string(
     ]
     if len(terminals) - 1 != len(L):
         raise ValueError("Inconsistent terminal count and span count")
+    if any(not 0 < l < np.inf for l in L):
+        raise ValueError("Span lengths must be positive")
 
     EI = 30 * 1e10 * np.ones(len(L)) * 1e-6  # kNm2 - arbitrary value
     R = []
-- 
2.43.0


From 15a7a59125938145986da1e269c1fc98cccbd1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 34/46] fix: refuse beam strings with text outside the first
 and last terminals

---
 src/pycba/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycba/utils.py b/src/pycba/utils.py
index 7bddc8a..8a1d890 100644
--- a/src/pycba/utils.py
+++ b/src/pycba/utils.py
@@ -205,6 +205,11 @@ def parse_beam_string(
         if any(t == "f" or t == "e" for t in terminals[1:-1]):
             raise ValueError("Do not define internal free or encastre terminals")
 
+    # Nothing but terminals and the span lengths between them
+    first_terminal = spans_str[0] - 1
+    if beam_string[:first_terminal].strip() or beam_string[spans_str[-1] :].strip():
+        raise ValueError("A beam string starts and ends with a terminal")
+
     # Get and check the span lengths
     L = [
         float(beam_string[spans_str[i] : spans_str[i + 1] - 1])
-- 
2.43.0


From 44a1fcf018e6798ef7cca009cf1f062543d745e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 35/46] fix: draw a partial UDL only where it is on its span

---
 src/pycba/render.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index cefdece..5588ff3 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -241,9 +241,12 @@ class BeamPlotter:
             if isinstance(ld, LoadUDL):
                 dist.append(DistLoad(ld.i_span, off, off + span_len, ld.w, ld.w))
             elif isinstance(ld, LoadPUDL):
-                dist.append(
-                    DistLoad(ld.i_span, off + ld.a, off + ld.a + ld.c, ld.w, ld.w)
-                )
+                # Only the part on the span is applied by the analysis
+                end = min(ld.a + ld.c, span_len)
+                if end > ld.a:
+                    dist.append(
+                        DistLoad(ld.i_span, off + ld.a, off + end, ld.w, ld.w)
+                    )
             elif isinstance(ld, LoadTrapez):
                 w1, w2, _dw, a, c = ld._resolve(span_len)
                 if c > 0:
-- 
2.43.0


From dca8ed5bdc54e46f72c05a779b97e32ac6d08e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 36/46] fix: label the dimensions of the schematic in the units
 asked for

---
 src/pycba/render.py | 4 ++--
 src/pycba/units.py  | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index 5588ff3..f344c03 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -851,7 +851,7 @@ class BeamPlotter:
             ax.text(
                 0.5 * (x0 + x1),
                 yd - 0.15 * sh,
-                f"{x1 - x0:g} m",
+                self._us.fmt_length(x1 - x0),
                 ha="center",
                 va="top",
                 color="0.35",
@@ -874,7 +874,7 @@ class BeamPlotter:
         ax.text(
             0.5 * (x0 + x1),
             yd - 0.12 * sh,
-            f"{x1 - x0:g} m",
+            self._us.fmt_length(x1 - x0),
             ha="center",
             va="top",
             color="0.45",
diff --git a/src/pycba/units.py b/src/pycba/units.py
index 616be23..164c97e 100644
--- a/src/pycba/units.py
+++ b/src/pycba/units.py
@@ -98,6 +98,9 @@ class UnitSystem:
     def fmt_moment(self, value: float) -> str:
         return self._val(f"{value:g}", self.moment)
 
+    def fmt_length(self, value: float) -> str:
+        return self._val(f"{value:g}", self.length)
+
     def fmt_distributed(self, w0: float, w1: Optional[float] = None) -> str:
         """Format a (possibly varying) distributed load, e.g. ``5→8 kN/m``."""
         if w1 is None or w1 == w0:
-- 
2.43.0


From 00a3dc0311da77261924881eea200db9de073dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 37/46] fix: keep sagging moments below when a second nonlinear
 result is drawn over one

---
 src/pycba/nonlinear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index d0c0e56..157c910 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -153,7 +153,8 @@ class NonlinearResult:
             ax.axhline(Mp, color="b", ls="--", lw=0.8, label=f"$M_p$ = {Mp}")
             ax.axhline(-Mp, color="b", ls="--", lw=0.8)
 
-        ax.invert_yaxis()
+        if not ax.yaxis_inverted():
+            ax.invert_yaxis()
         ax.grid()
         ax.set_ylabel(us.moment_axis)
         ax.set_xlabel(us.distance_axis)
-- 
2.43.0


From bb13035a23497b6ef4f3aa279e101a530321aa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 38/46] fix: draw upward distributed loads upward in TikZ

---
 src/pycba/render.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index f344c03..4a197e2 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -1100,9 +1100,21 @@ class BeamPlotter:
                 f1 = self._span_fraction(d.i_span, d.x1)
                 out.append(f"\\node (dl{k}a) at ($({ni})!{f0:g}!({nj})$){{}};")
                 out.append(f"\\node (dl{k}b) at ($({ni})!{f1:g}!({nj})$){{}};")
-                h0 = 0.3 + 0.4 * abs(d.w0) / wmax
-                h1 = 0.3 + 0.4 * abs(d.w1) / wmax
-                out.append(f"\\lineload{{1}}{{dl{k}a}}{{dl{k}b}}[{h0:g}][{h1:g}];")
+                parts = [("a", "b", d.w0, d.w1)]
+                if d.w0 * d.w1 < 0:  # changes direction within its extent
+                    fz = f0 + (f1 - f0) * d.w0 / (d.w0 - d.w1)
+                    out.append(f"\\node (dl{k}c) at ($({ni})!{fz:g}!({nj})$){{}};")
+                    parts = [("a", "c", d.w0, 0.0), ("c", "b", 0.0, d.w1)]
+                for p, q, wp, wq in parts:
+                    if wp + wq < 0:
+                        # stanli draws to the left of the direction p -> q, with
+                        # the arrows towards it: upward loads go from q to p
+                        p, q, wp, wq = q, p, wq, wp
+                    h0 = 0.3 + 0.4 * abs(wp) / wmax
+                    h1 = 0.3 + 0.4 * abs(wq) / wmax
+                    out.append(
+                        f"\\lineload{{1}}{{dl{k}{p}}}{{dl{k}{q}}}[{h0:g}][{h1:g}];"
+                    )
             out.append("\\end{scope}")
             if show_val:
                 pdist = -max(0.6, 0.055 * self.L)
@@ -1113,8 +1125,9 @@ class BeamPlotter:
                         lbl = f"${abs(d.w0):g}${du}"
                     else:
                         lbl = f"${abs(d.w0):g}\\rightarrow{abs(d.w1):g}${du}"
+                    side = "above" if d.w0 + d.w1 >= 0 else "below"
                     out.append(
-                        f"\\notation{{5}}{{dl{k}a}}{{dl{k}b}}[{lbl}][0.5][above=8mm];"
+                        f"\\notation{{5}}{{dl{k}a}}{{dl{k}b}}[{lbl}][0.5][{side}=8mm];"
                     )
                     # The extent of a partial distributed load is a load
                     # annotation (shown with the magnitudes), not a span
-- 
2.43.0


From 9693f50ead9a9e1f79643ddd8b1d169e9739aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:44 +0000
Subject: [PATCH 39/46] fix: leave the load list given alone when adding loads
 to a beam

---
 src/pycba/beam.py   | 4 ++--
 src/pycba/bridge.py | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index e478dcb..30bbc0f 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -152,7 +152,7 @@ class Beam:
             else:
                 self._prescribed_displacements = [None] * len(R)
         if LM is not None:
-            self.LM = LM
+            self.LM = list(LM)  # loads added later are not the caller's
 
     @staticmethod
     def _broadcast_GAv(GAv, n_spans: int) -> list:
@@ -304,7 +304,7 @@ class Beam:
         None
 
         """
-        self.LM = LM
+        self.LM = list(LM)  # loads added later are not the caller's
         self.no_loads = len(self.LM)
 
     def add_load(self, load: LoadType):
diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 252571e..9e76236 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -364,6 +364,7 @@ class BridgeAnalysis:
         finally:
             # Leave the bridge with its static loads only
             self.ba.set_loads(self.static_LM)
+            self.static_LM = self.ba.beam.loads
 
     def run_vehicle(
         self,
@@ -595,6 +596,7 @@ class BridgeAnalysis:
             self.ba.shear_points = None
             # Leave the bridge with its static loads only
             self.ba.set_loads(self.static_LM)
+            self.static_LM = self.ba.beam.loads
 
         env = Envelopes(self.vResults)
 
-- 
2.43.0


From d351bd1bd97f8bb0693c63f2251e3bb80218209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:37 +0000
Subject: [PATCH 40/46] fix: leave no unscaled deflection in the
 diagram-closing stations

---
 src/pycba/foundation.py | 2 ++
 src/pycba/results.py    | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycba/foundation.py b/src/pycba/foundation.py
index e0b64a2..c8b4a6b 100644
--- a/src/pycba/foundation.py
+++ b/src/pycba/foundation.py
@@ -100,6 +100,8 @@ def _eb_member_values(L, EI, f, d, loads, npts) -> MemberResults:
     res.D[1:-1] = D
     res.R[0] = 0.0
     res.R[-1] = 0.0
+    res.D[0] = 0.0
+    res.D[-1] = 0.0
     return res
 
 
diff --git a/src/pycba/results.py b/src/pycba/results.py
index 4f849aa..0ee0d4c 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -306,9 +306,11 @@ class BeamResults:
 
         res.R[1:-1] = psi
         res.D[1:-1] = D
-        # The closure stations carry no load effect (V, M and D are already zero)
+        # The closure stations carry no load effect (V and M are already zero)
         res.R[0] = 0.0
         res.R[-1] = 0.0
+        res.D[0] = 0.0
+        res.D[-1] = 0.0
 
         return res
 
-- 
2.43.0


From 0a3e3e30b4e97c2895deac044ce912a0b02315b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:37 +0000
Subject: [PATCH 41/46] fix: judge stability independently of the unit of
 length

---
 src/pycba/analysis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycba/analysis.py b/src/pycba/analysis.py
index ead9e4f..e314c95 100644
--- a/src/pycba/analysis.py
+++ b/src/pycba/analysis.py
@@ -550,6 +550,12 @@ class BeamAnalysis:
         if not free:
             return  # fully constrained: nothing to solve, trivially stable
 
+        # Translations and rotations differ by a length: measure it in mean spans,
+        # so that the ratio does not depend on the units in use.
+        s = np.ones(self._nDOF)
+        s[1::2] = self._beam.no_spans / sum(self._beam.mbr_lengths)
+        ksysU = ksysU * s[:, np.newaxis] * s
+
         kff = ksysU[np.ix_(free, free)]
         ev = np.abs(np.linalg.eigvalsh(kff))
         ev_max = ev.max()
-- 
2.43.0


From 57a7f2e7a4081942af43a961b1d5a7eaf5fa05d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:37 +0000
Subject: [PATCH 42/46] fix: a concentrated load beyond the span has no effect
 on it

---
 src/pycba/beam.py |  4 ++--
 src/pycba/load.py | 27 +++++++++++++++++++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 30bbc0f..fd25b9d 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -4,7 +4,7 @@ PyCBA - Beam Class definition
 from typing import Optional, Sequence, Union
 import numpy as np
 from scipy import integrate
-from .load import parse_LM, LoadType, LoadMatrix, LoadCNL, LoadIC, LoadML
+from .load import parse_LM, LoadType, LoadMatrix, LoadCNL, LoadIC, LoadML, _off_span
 from .types import MemberType
 from .section import SectionEI
 from .utils import supports_to_R, SupportType
@@ -1586,7 +1586,7 @@ class Beam:
             denom = 2.0 * (1.0 + phi)
             Ma = ((2.0 + phi) * cnl.Ma - phi * cnl.Mb) / denom
             Mb = (-phi * cnl.Ma + (2.0 + phi) * cnl.Mb) / denom
-            if isinstance(load, LoadML):
+            if isinstance(load, LoadML) and not _off_span(load.a, L):
                 # A couple leaves a net simple-span shear, which rotates the ends
                 Ma -= phi * load.M / denom
                 Mb -= phi * load.M / denom
diff --git a/src/pycba/load.py b/src/pycba/load.py
index 3ac4a51..cfef454 100644
--- a/src/pycba/load.py
+++ b/src/pycba/load.py
@@ -222,6 +222,11 @@ class LoadUDL(Load):
         return res
 
 
+def _off_span(a: float, L: float) -> bool:
+    """Whether a concentrated load at *a* lies beyond the span (not by mere rounding)."""
+    return a > L * (1 + 1e-9)
+
+
 class LoadPL(Load):
     """
     Point Load class: CNLs and member results
@@ -267,8 +272,12 @@ class LoadPL(Load):
 
         """
 
+        # Check if on span, if not, return zeros
+        if _off_span(self.a, L):
+            return LoadCNL(Va=0.0, Ma=0.0, Vb=0.0, Mb=0.0)
+
         P = self.P
-        a = self.a
+        a = min(self.a, L)
         b = max(L - a, 0)
 
         cnl = LoadCNL(
@@ -302,8 +311,11 @@ class LoadPL(Load):
         res = MemberResults(vals=None, n=npts)
         res.x = x
 
+        if _off_span(self.a, L):
+            return res
+
         P = self.P
-        a = self.a
+        a = min(self.a, L)
         b = max(L - a, 0)
 
         Va = P * b / L
@@ -780,8 +792,12 @@ class LoadML(Load):
             Consistent Nodal Loads for this load type
         """
 
+        # Check if on span, if not, return zeros
+        if _off_span(self.a, L):
+            return LoadCNL(Va=0.0, Ma=0.0, Vb=0.0, Mb=0.0)
+
         m = self.M
-        a = self.a
+        a = min(self.a, L)
         b = L - a
 
         cnl = LoadCNL(
@@ -815,8 +831,11 @@ class LoadML(Load):
         res = MemberResults(vals=None, n=npts)
         res.x = x
 
+        if _off_span(self.a, L):
+            return res
+
         m = self.M
-        a = self.a
+        a = min(self.a, L)
         b = L - a
 
         Va = m / L
-- 
2.43.0


From 41dcd9decce69feedb9252650443ee4a9a276889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:55 +0000
Subject: [PATCH 43/46] fix: tell critical vehicle positions apart in
 proportion to the load effect

---
 src/pycba/bridge.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 9e76236..709646c 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -644,26 +644,29 @@ class BridgeAnalysis:
         Vmax = env.Vmax.max()
         Vmin = env.Vmin.min()
 
-        # Find the indices of the critical vehicle positions
+        # Find the indices of the critical vehicle positions: equal values are
+        # told from others in proportion to the load effect, in any units
+        tol_M = 1e-8 * max(abs(Mmax), abs(Mmin))
+        tol_V = 1e-8 * max(abs(Vmax), abs(Vmin))
         indx["Mmax"] = [
             i
             for i, res in enumerate(self.vResults)
-            if np.isclose(res.results.M.max(), Mmax)
+            if np.isclose(res.results.M.max(), Mmax, atol=tol_M)
         ]
         indx["Mmin"] = [
             i
             for i, res in enumerate(self.vResults)
-            if np.isclose(res.results.M.min(), Mmin)
+            if np.isclose(res.results.M.min(), Mmin, atol=tol_M)
         ]
         indx["Vmax"] = [
             i
             for i, res in enumerate(self.vResults)
-            if np.isclose(res.results.V.max(), Vmax)
+            if np.isclose(res.results.V.max(), Vmax, atol=tol_V)
         ]
         indx["Vmin"] = [
             i
             for i, res in enumerate(self.vResults)
-            if np.isclose(res.results.V.min(), Vmin)
+            if np.isclose(res.results.V.min(), Vmin, atol=tol_V)
         ]
 
         # Now check for any errors
-- 
2.43.0


From c7bd1229d7d28d6e30d05e3ab18dd9a4c6b4758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:22 +0000
Subject: [PATCH 44/46] fix: equivalent loads of tendons in members that join
 away from rigid supports

---
 src/pycba/prestress.py | 45 ++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 2923bde..4c85672 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -20,8 +20,8 @@ are generated from first principles from the piecewise tendon profile ``e(x)``
 * a parabolic segment of constant curvature ``e''`` contributes a uniform
   transverse load ``w = F·e''`` over its length;
 * a slope change ``Δe'`` at an interior kink contributes a point load
-  ``P = F·Δe'`` there (slope changes *at* a support are reacted directly and
-  are not applied to the beam);
+  ``P = F·Δe'`` there (slope changes *at* a rigid support are reacted directly
+  and are not applied to the beam);
 * the tendon eccentricity at each end **anchorage** contributes a moment
   ``M = F·e`` there.
 
@@ -354,13 +354,7 @@ def equivalent_loads(
             continue
         span = i + 1
         Li, Fi = L[i], F[i]
-        # a span with a free end node is a cantilever (tendon anchored at the tip)
-        if R[2 * i] == 0 and R[2 * i + 1] == 0:
-            cant = "left"
-        elif R[2 * (i + 1)] == 0 and R[2 * (i + 1) + 1] == 0:
-            cant = "right"
-        else:
-            cant = None
+        cant = _cantilever_side(R, i, n)
         segs = prof.segments(Li, cant)
         # distributed loads from curvature; point loads from interior kinks
         prev_end_slope = None
@@ -385,9 +379,7 @@ def equivalent_loads(
     # end +F e; at the right end -F e, so the moment pair is self-equilibrating
     # (a constant eccentricity gives the correct uniform -F e).  The tendon is
     # anchored where the stressed spans begin and end, and in part where the
-    # force or the eccentricity changes from one span to the next.  The vertical
-    # anchorage force is reacted directly by any support there, so it is applied
-    # only at a free tip (where it is not absorbed).
+    # force or the eccentricity changes from one span to the next.
     for i, segs in enumerate(tendons):
         if segs is None:
             continue
@@ -398,16 +390,19 @@ def equivalent_loads(
             LM.append([i + 1, 4, m, 0.0])
         if (i == n - 1 or tendons[i + 1] is None) and abs(segs[-1].e2) > _TOL:
             LM.append([i + 1, 4, -F[i] * segs[-1].e2, L[i]])
-    left_free = R[0] == 0 and R[1] == 0
-    right_free = R[2 * n] == 0 and R[2 * n + 1] == 0
-    if left_free and tendons[0] is not None:
-        slope = tendons[0][0].slope_start()
-        if abs(slope) > _TOL:
-            LM.append([1, 2, F[0] * slope, 0.0])
-    if right_free and tendons[-1] is not None:
-        slope = tendons[-1][-1].slope_end()
-        if abs(slope) > _TOL:
-            LM.append([n, 2, -F[-1] * slope, L[-1]])
+    # The vertical components either side of a node are reacted directly by a rigid
+    # support there, so they are applied only where there is none: at a free tip,
+    # where members join between supports, and on a spring.
+    for j in range(n + 1):
+        if R[2 * j] == -1:
+            continue
+        P = 0.0
+        if j < n and tendons[j] is not None:
+            P += F[j] * tendons[j][0].slope_start()
+        if j > 0 and tendons[j - 1] is not None:
+            P -= F[j - 1] * tendons[j - 1][-1].slope_end()
+        if abs(P) > _TOL:
+            LM.append([j + 1, 2, P, 0.0] if j < n else [n, 2, P, L[-1]])
 
     return LM
 
@@ -421,9 +416,11 @@ def _eval_e(segs: List[_Seg], x: float) -> float:
 
 
 def _cantilever_side(R, i, n):
-    if R[2 * i] == 0 and R[2 * i + 1] == 0:
+    # the first or last span, where the end of the beam is free, is a cantilever
+    # (tendon anchored at the tip)
+    if i == 0 and R[0] == 0 and R[1] == 0:
         return "left"
-    if R[2 * (i + 1)] == 0 and R[2 * (i + 1) + 1] == 0:
+    if i == n - 1 and R[2 * n] == 0 and R[2 * n + 1] == 0:
         return "right"
     return None
 
-- 
2.43.0


From 9d59a57f57a088b7b36e8d862c12f02f7f8eb957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:22 +0000
Subject: [PATCH 45/46] fix: keep critical reactions and reaction histories to
 envelopes that have them

---
 src/pycba/bridge.py  | 11 ++++++++---
 src/pycba/results.py |  9 +++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 709646c..4e12bcc 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -669,8 +669,13 @@ class BridgeAnalysis:
             if np.isclose(res.results.V.min(), Vmin, atol=tol_V)
         ]
 
-        # Now check for any errors
-        if [] in indx.values():
+        # Now check for any errors, in the reactions too
+        own = Envelopes(self.vResults)
+        if (
+            [] in indx.values()
+            or not np.array_equal(env.Rmax, own.Rmax)
+            or not np.array_equal(env.Rmin, own.Rmin)
+        ):
             raise ValueError("Envelope not from the current bridge analysis")
 
         # Good to proceed
@@ -1211,7 +1216,7 @@ class BridgeAnalysis:
         # Reactions may be force or moment; show both unit labels.
         react_u = f" ({us.force}/{us.moment})" if us.force and us.moment else ""
         # Check if consistent envelope
-        if len(self.pos) == env.Rmax.shape[1]:
+        if len(self.pos) == env.Rmax.shape[1] and env._has_reaction_history():
             axsRight = np.atleast_1d(subfigs[1].subplots(nreactions, 1, sharex=True))
             pos = np.asarray(self.pos)
             for i, ax in enumerate(axsRight):
diff --git a/src/pycba/results.py b/src/pycba/results.py
index 0ee0d4c..9b107b3 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -726,6 +726,15 @@ class Envelopes:
             self.Rmax = np.zeros((self.nsup, self.nres))
             self.Rmin = np.zeros((self.nsup, self.nres))
 
+    def _has_reaction_history(self) -> bool:
+        """
+        Whether the reaction histories hold the reaction extremes: they do not
+        when they were dropped, or added up, in combining envelopes.
+        """
+        return np.array_equal(self.Rmax.max(axis=1), self.Rmaxval) and np.array_equal(
+            self.Rmin.min(axis=1), self.Rminval
+        )
+
     def sum(self, env: Envelopes):
         """
         Adds another compatible set of envelopes to this one element-wise. This is
-- 
2.43.0


From 29069347953ae811d285f6f3aea746f85b5c1a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:35 +0000
Subject: [PATCH 46/46] fix: equivalent loads keep small anchorage forces and
 moments in any unit of force

---
 src/pycba/prestress.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 4c85672..9e223b5 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -380,13 +380,14 @@ def equivalent_loads(
     # (a constant eccentricity gives the correct uniform -F e).  The tendon is
     # anchored where the stressed spans begin and end, and in part where the
     # force or the eccentricity changes from one span to the next.
+    tol = _TOL * max(abs(f) for f in F)
     for i, segs in enumerate(tendons):
         if segs is None:
             continue
         m = F[i] * segs[0].e1
         if i > 0 and tendons[i - 1] is not None:
             m -= F[i - 1] * tendons[i - 1][-1].e2
-        if abs(m) > _TOL:
+        if abs(m) > tol:
             LM.append([i + 1, 4, m, 0.0])
         if (i == n - 1 or tendons[i + 1] is None) and abs(segs[-1].e2) > _TOL:
             LM.append([i + 1, 4, -F[i] * segs[-1].e2, L[i]])
@@ -401,7 +402,7 @@ def equivalent_loads(
             P += F[j] * tendons[j][0].slope_start()
         if j > 0 and tendons[j - 1] is not None:
             P -= F[j - 1] * tendons[j - 1][-1].slope_end()
-        if abs(P) > _TOL:
+        if abs(P) > tol:
             LM.append([j + 1, 2, P, 0.0] if j < n else [n, 2, P, L[-1]])
 
     return LM
-- 
2.43.0

