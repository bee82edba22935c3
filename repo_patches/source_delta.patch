From eb2dde9235a4fa91a3ecc7f74c255384971b6254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 01/69] fix: station n, e, tvd and pos_nev agree for start_xyz
 offsets and grid scale factor

---
 welleng/survey.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 454a7f1..5487d52 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -859,7 +859,7 @@ class Survey:
         self.dls = mc.dls
         self.pos_xyz = mc.poss
         self.pos_nev = (
-            get_nev(self.pos_xyz)
+            get_nev(self.pos_xyz, start_xyz=self.start_xyz)
             * np.full_like(
                 self.pos_xyz,
                 np.array([
@@ -883,15 +883,22 @@ class Survey:
             )
 
     def _get_nev(self):
-        self.n, self.e, self.tvd = get_nev(
-            np.array([
-                self.x,
-                self.y,
-                self.z
-            ]).T,
-            start_xyz=self.start_xyz,
-            start_nev=self.start_nev
-        ).reshape(-1, 3).T
+        self.n, self.e, self.tvd = (
+            get_nev(
+                np.array([
+                    self.x,
+                    self.y,
+                    self.z
+                ]).T,
+                start_xyz=self.start_xyz
+            ).reshape(-1, 3)
+            * np.array([
+                self.header.grid_scale_factor,
+                self.header.grid_scale_factor,
+                1
+            ])
+            + self.start_nev
+        ).T
 
     def _make_angles(self, inc, azi, deg=True):
         """
-- 
2.43.0


From 961d2871bc8a418f8f3c37a4cecfc05a46ec07ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 02/69] fix: vertical section is the projection of the
 horizontal displacement and leaves azimuths untouched

---
 welleng/survey.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 5487d52..3a20f24 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1311,19 +1311,21 @@ class Survey:
             vertical_section_azimuth if not deg
             else math.radians(vertical_section_azimuth)
         )
-        azi_temp = getattr(
-            self,
-            f"azi_{self.azi_ref_lookup[self.header.azi_reference]}_rad"
-        )
-        azi_temp[np.where(self.inc_rad == 0.0)] = (
-            vertical_section_azimuth
-        )
-        result = np.cos(
-            vertical_section_azimuth
-            - (azi_temp[1:] + azi_temp[:-1]) / 2
-        ) * self.hypot
+        # convert to the grid reference, in which n and e are calculated
+        if self.header.azi_reference == 'true':
+            azi_grid = vertical_section_azimuth - self.header.convergence
+        elif self.header.azi_reference == 'magnetic':
+            azi_grid = (
+                vertical_section_azimuth + self.header.declination
+                - self.header.convergence
+            )
+        else:
+            azi_grid = vertical_section_azimuth
 
-        result = np.cumsum(np.hstack(([0.0], result)))
+        result = (
+            (self.n - self.n[0]) * np.cos(azi_grid)
+            + (self.e - self.e[0]) * np.sin(azi_grid)
+        )
 
         return result
 
-- 
2.43.0


From 3f9690e68c0c42533fbd0b75e75f020745fe831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 03/69] fix: set_vertical_section stores the header azimuth in
 radians

---
 welleng/survey.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 3a20f24..a3361e8 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1345,7 +1345,10 @@ class Survey:
             Indicates whether the vertical section azimuth parameter is in
             degrees or radians (True or False respectively).
         """
-        self.header.vertical_section_azimuth = vertical_section_azimuth
+        self.header.vertical_section_azimuth = (
+            vertical_section_azimuth if not deg
+            else math.radians(vertical_section_azimuth)
+        )
         self.vertical_section = self.get_vertical_section(
             vertical_section_azimuth, deg
         )
-- 
2.43.0


From d087c7a8c8c616c1c97d4fa273247dd3acfb2920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 04/69] fix: deriving a survey no longer rewrites the azimuth
 reference of the caller's header

---
 welleng/clearance.py    |  8 +++++---
 welleng/exchange/wbp.py |  4 ++--
 welleng/survey.py       | 25 +++++++++++++++++++++----
 welleng/torque_drag.py  |  5 ++---
 4 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 8de993c..ec85648 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -14,7 +14,10 @@ from scipy.spatial import KDTree
 from scipy.spatial.distance import cdist
 
 from .mesh import WellMesh, to_trimesh
-from .survey import Survey, _interpolate_survey, _interpolate_pos_nev, slice_survey
+from .survey import (
+    Survey, _get_grid_header, _interpolate_survey, _interpolate_pos_nev,
+    slice_survey
+)
 from .utils import NEV_to_HLA
 
 
@@ -531,8 +534,7 @@ class IscwsaClearance(Clearance):
 
                 node = self.ref.interpolate_md(md)
 
-                sh = self.ref.header
-                sh.azi_reference = 'grid'
+                sh = _get_grid_header(self.ref.header)
 
                 survey = Survey(
                     md=np.insert(
diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 0a781e4..aa97b1a 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -6,6 +6,7 @@ from ..survey import (
     SurveyHeader,
     get_sections,
     from_connections,
+    _get_grid_header,
 )
 from ..connector import (
     Connector,
@@ -779,8 +780,7 @@ def strip_duplicates(survey):
         else:
             temp.append(s)
 
-    sh = survey.header
-    sh.azi_reference = 'grid'
+    sh = _get_grid_header(survey.header)
 
     md, inc, azi, radius = np.array(temp).reshape(-1, 4).T
 
diff --git a/welleng/survey.py b/welleng/survey.py
index a3361e8..8a4ee19 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1509,8 +1509,7 @@ class Survey:
         survey_new[-1] = self.survey_deg[-1]
 
         # Update the new survey header as the new azimuth reference is 'grid'.
-        sh = self.header
-        sh.azi_reference = 'grid'
+        sh = _get_grid_header(self.header)
 
         # Create a new Survey instance
         survey = Survey(
@@ -1790,6 +1789,25 @@ class TurnPoint:
         self.location = location
 
 
+def _get_grid_header(header):
+    """
+    Returns a header with the azimuth reference "grid" (the header itself if
+    that's already its reference, else a copy - the provided header is not
+    changed since it still describes the survey that it came from).
+    """
+    if header.azi_reference == 'grid':
+        return header
+
+    header_grid = copy(header)
+    if header.vertical_section_azimuth is not None:
+        if header.azi_reference == 'magnetic':
+            header_grid.vertical_section_azimuth += header.declination
+        header_grid.vertical_section_azimuth -= header.convergence
+    header_grid.azi_reference = 'grid'
+
+    return header_grid
+
+
 def get_node(survey, idx, interpolated=False):
     """Extract a Node from a survey at a given index.
 
@@ -1901,8 +1919,7 @@ def _interpolate_survey(survey, x=0, index=0):
         )
     ).reshape(3, 3)
 
-    sh = survey.header
-    sh.azi_reference = 'grid'
+    sh = _get_grid_header(survey.header)
 
     s = Survey(
         md=np.array(
diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 6524a19..acabb6d 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -10,7 +10,7 @@ try:
 except ImportError:
     PLOTLY = False
 
-from .survey import interpolate_md, Survey
+from .survey import _get_grid_header, interpolate_md, Survey
 from .units import ureg
 
 
@@ -136,8 +136,7 @@ class TorqueDrag:
 
         md, inc, azi = zip(*sorted(zip(md, inc, azi)))
 
-        sh = self.survey_original.header
-        sh.azi_reference = 'grid'
+        sh = _get_grid_header(self.survey_original.header)
 
         self.survey = Survey(
             md=md, inc=inc, azi=azi, header=sh, deg=False
-- 
2.43.0


From 3da753587a1ed34c1ebfc39977996b809dd6435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 05/69] fix: surveys rebuilt from grid azimuths carry a grid
 header

---
 welleng/clearance.py | 4 ++--
 welleng/survey.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index ec85648..94924de 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -200,7 +200,7 @@ class Clearance:
                 tvd=self.reference.tvd[self.kop_index:],
                 vec=self.reference.vec_nev[self.kop_index:],
                 radius=self.reference.radius[self.kop_index:],
-                header=self.reference.header,
+                header=_get_grid_header(self.reference.header),
                 cov_nev=cov_nev,
                 cov_hla=cov_hla,
                 error_model=None,
@@ -702,7 +702,7 @@ class IscwsaClearance(Clearance):
             n=n,
             e=e,
             tvd=tvd,
-            header=self.offset.header,
+            header=_get_grid_header(self.offset.header),
             error_model=None,
             cov_hla=cov_hla,
             cov_nev=cov_nev,
diff --git a/welleng/survey.py b/welleng/survey.py
index 8a4ee19..a81a367 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2132,7 +2132,7 @@ def slice_survey(survey: Survey, start: int, stop: int = None):
         n=n,
         e=e,
         tvd=tvd,
-        header=survey.header,
+        header=_get_grid_header(survey.header),
         radius=survey.radius[start:stop],
         cov_hla=cov_hla,
         cov_nev=cov_nev,
@@ -2940,7 +2940,7 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         azi=azi,
         interpolated=interpolated,
         deg=False,
-        header=survey.header
+        header=_get_grid_header(survey.header)
     )
 
     return s_interp
-- 
2.43.0


From 4ff5c79bc237d63e946139a6f95a28415aa652fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 06/69] fix: interpolated surveys keep the start position and
 the depth unit of their source

---
 welleng/survey.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a81a367..19426e3 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1518,7 +1518,8 @@ class Survey:
             azi=survey_new[:, 2],
             header=sh,
             start_xyz=self.start_xyz,
-            start_nev=self.start_nev
+            start_nev=self.start_nev,
+            unit=self.unit
         )
 
         # Update the interpolated property to keep track of the original survey
@@ -2797,7 +2798,8 @@ def interpolate_survey(survey, step=30, dls=1e-8):
         step=step,
         start_xyz=survey.start_xyz,
         survey_header=survey.header,
-        error_model=None
+        error_model=None,
+        depth_unit=survey.unit
     )
 
     survey_interpolated.interpolated = [
@@ -2940,7 +2942,10 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         azi=azi,
         interpolated=interpolated,
         deg=False,
-        header=_get_grid_header(survey.header)
+        header=_get_grid_header(survey.header),
+        start_nev=survey.start_nev,
+        start_xyz=survey.start_xyz,
+        unit=survey.unit
     )
 
     return s_interp
-- 
2.43.0


From 91297cd2c00bc80e63369571a917535093a68493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 07/69] fix: a sliced survey keeps the x, y, z coordinates of
 its stations

---
 welleng/survey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index 19426e3..5d3c7d3 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2120,6 +2120,7 @@ def slice_survey(survey: Survey, start: int, stop: int = None):
     md, inc, azi = survey.survey_rad[start:stop].T
     nevs = np.array([survey.n, survey.e, survey.tvd]).T[start:stop]
     n, e, tvd = nevs.T
+    start_xyz = np.array([survey.x, survey.y, survey.z]).T[start:stop][0]
     # vec = survey.vec[start:stop]
 
     # Handle `None` values:
@@ -2137,6 +2138,7 @@ def slice_survey(survey: Survey, start: int, stop: int = None):
         radius=survey.radius[start:stop],
         cov_hla=cov_hla,
         cov_nev=cov_nev,
+        start_xyz=start_xyz,
         start_nev=[n[0], e[0], tvd[0]],
         deg=False,
         unit=survey.unit,
-- 
2.43.0


From d028eaa205233097689033f4b024b680fb08a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 08/69] fix: closest-point interpolation applies the grid scale
 factor like the survey does

---
 welleng/survey.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index 5d3c7d3..9143d80 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1973,6 +1973,9 @@ def _interpolate_pos_nev(survey, x, index):
 
     pos = np.array([survey.n[index], survey.e[index], survey.tvd[index]])
     step = min_curve_step(x, survey.inc_rad[index], survey.azi_grid_rad[index], inc2, azi2)
+    step = step * np.array([
+        survey.header.grid_scale_factor, survey.header.grid_scale_factor, 1
+    ])
     return pos + step
 
 
-- 
2.43.0


From 93b98299466e32f91015c63ca5c28efad3365c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 09/69] fix: splicing works for magnetic azimuths, feet and
 surveys without covariances

---
 welleng/survey.py | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 9143d80..0921e2e 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3126,9 +3126,7 @@ class SurveyData:
         self.header = survey.header
         self.md = survey.md
         self.inc = survey.inc_rad
-        self.azi = getattr(
-            survey, f"azi_{getattr(self.header, 'azi_reference')}_rad"
-        )
+        self.azi = self._get_azi(survey)
         self.start_nev = survey.start_nev
         self.start_xyz = survey.start_xyz
         self.cov_nev = survey.cov_nev
@@ -3149,25 +3147,32 @@ class SurveyData:
         self.azi = np.hstack(
             (
                 self.azi,
-                getattr(
-                    survey, f"azi_{getattr(self.header, 'azi_reference')}_rad"
-                )[1:]
+                self._get_azi(survey)[1:]
             )
         )
-        self.cov_nev = np.hstack(
-            (
-                self.cov_nev.reshape(-1),
-                survey.cov_nev[1:].reshape(-1)
-            )
-        ).reshape(-1, 3, 3)
-        self.cov_hla = np.hstack(
-            (
-                self.cov_hla.reshape(-1),
-                survey.cov_hla[1:].reshape(-1)
-            )
-        ).reshape(-1, 3, 3)
+        self.cov_nev = self._append_cov(self.cov_nev, survey.cov_nev)
+        self.cov_hla = self._append_cov(self.cov_hla, survey.cov_hla)
         self.radius = np.hstack((self.radius, survey.radius[1:]))
 
+    def _get_azi(self, survey):
+        """
+        Returns the azimuths of the survey in the reference of the header.
+        """
+        reference = survey.azi_ref_lookup[self.header.azi_reference]
+
+        return getattr(survey, f"azi_{reference}_rad")
+
+    @staticmethod
+    def _append_cov(cov1, cov2):
+        """
+        Append covariances, which are unknown (None) for the combined survey
+        when they're unknown for any part of it.
+        """
+        if cov1 is None or cov2 is None:
+            return None
+
+        return np.concatenate((cov1, cov2[1:]))
+
     def get_survey(self):
         """
         Method to create a `welleng.survey.Survey` object from the survey
@@ -3187,7 +3192,8 @@ class SurveyData:
             cov_nev=self.cov_nev,
             cov_hla=self.cov_hla,
             radius= self.radius,
-            header=self.header
+            header=self.header,
+            unit=self.header.depth_unit
         )
         return survey
 
-- 
2.43.0


From 7bc7b971c8b5594ffbd723c91a169291dff5a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 10/69] fix: a start covariance is not added into the caller's
 covariance array

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 0921e2e..acbc7ce 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -977,7 +977,7 @@ class Survey:
             self.start_cov_nev is not None
             and self.cov_nev is not None
         ):
-            self.cov_nev += self.start_cov_nev
+            self.cov_nev = self.cov_nev + self.start_cov_nev
             self.cov_hla = NEV_to_HLA(self.survey_rad, self.cov_nev)
 
     def _curvature_to_rate(self, curvature):
-- 
2.43.0


From 20a6fcfaebe3ef98916ffab55613c8ccb9002017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 11/69] fix: transforming an arc to a target leaves the
 caller's vector untouched

---
 welleng/utils.py | 2022 +++++++++++++++++++++++-----------------------
 1 file changed, 1011 insertions(+), 1011 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index ef36bdc..8eeaacc 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -1,1011 +1,1011 @@
-import re
-from typing import Annotated, Literal, Union
-
-import numpy as np
-from numpy.typing import NDArray
-from scipy.spatial.transform import Rotation as R
-
-
-def get_dogleg(inc1, azi1, inc2, azi2):
-    """
-    Compute the dogleg angle between two survey stations (vectorised).
-
-    Uses the numerically stable Haversine form to avoid arccos precision loss
-    at small angles.
-
-    Parameters
-    ----------
-    inc1, azi1: float or array — inclination / azimuth at station 1 (radians)
-    inc2, azi2: float or array — inclination / azimuth at station 2 (radians)
-
-    Returns
-    -------
-    dogleg: float or array — dogleg angle in radians
-    """
-    return 2.0 * np.arcsin(np.sqrt(
-        np.sin((inc2 - inc1) / 2) ** 2
-        + np.sin(inc1) * np.sin(inc2) * np.sin((azi2 - azi1) / 2) ** 2
-    ))
-
-
-def get_rf(dogleg):
-    """
-    Compute the ratio factor (RF) for minimum curvature (vectorised).
-
-    Returns 1.0 where dogleg is 0 (limit of the function as dogleg → 0).
-
-    Parameters
-    ----------
-    dogleg: float or array — dogleg angle(s) in radians
-
-    Returns
-    -------
-    rf: float or array — ratio factor(s)
-    """
-    dogleg = np.asarray(dogleg, dtype=float)
-    with np.errstate(divide='ignore', invalid='ignore'):
-        rf = np.where(dogleg == 0.0, 1.0, 2.0 / dogleg * np.tan(dogleg / 2))
-    return float(rf) if rf.ndim == 0 else rf
-
-
-def min_curve_step(delta_md, inc1, azi1, inc2, azi2, rf=None):
-    """
-    Compute position increments using minimum curvature (vectorised).
-
-    All trigonometric values are computed once and shared across the three
-    coordinate directions for efficiency.
-
-    Parameters
-    ----------
-    delta_md: (n,) array — measured-depth increments
-    inc1, azi1: (n,) arrays — start inclination / azimuth (radians)
-    inc2, azi2: (n,) arrays — end inclination / azimuth (radians)
-    rf: (n,) array or None — ratio factors; computed if not supplied
-
-    Returns
-    -------
-    deltas: (n, 3) array — position increments in [N, E, V] order
-    """
-    if rf is None:
-        rf = get_rf(get_dogleg(inc1, azi1, inc2, azi2))
-    si1, ci1 = np.sin(inc1), np.cos(inc1)
-    si2, ci2 = np.sin(inc2), np.cos(inc2)
-    ca1, sa1 = np.cos(azi1), np.sin(azi1)
-    ca2, sa2 = np.cos(azi2), np.sin(azi2)
-    scale = delta_md * rf / 2
-    return np.stack((
-        scale * (si1 * ca1 + si2 * ca2),  # N
-        scale * (si1 * sa1 + si2 * sa2),  # E
-        scale * (ci1 + ci2),               # V
-    ), axis=-1)
-
-
-class MinCurve:
-    def __init__(
-        self,
-        md,
-        inc,
-        azi,
-        start_xyz=[0., 0., 0.],
-        unit="meters"
-    ):
-        """
-        Generate geometric data from a well bore survey.
-
-        Parameters
-        ----------
-        md: list or 1d array of floats
-            Measured depth along well path from a datum.
-        inc: list or 1d array of floats
-            Well path inclination (relative to z/tvd axis where 0
-            indicates down), in radians.
-        azi: list or 1d array of floats
-            Well path azimuth (relative to y/North axis),
-            in radians.
-        unit: str
-            Either "meters" or "feet" to determine the unit of the dogleg
-            severity.
-
-        """
-
-        assert unit == "meters" or unit == "feet", (
-            'Unknown unit, please select "meters" of "feet"'
-        )
-
-        self.md = md
-        survey_length = len(self.md)
-        assert survey_length > 1, "Survey must have at least two rows"
-
-        self.inc = inc
-        self.azi = azi
-        self.start_xyz = start_xyz
-        self.unit = unit
-
-        inc = np.array(inc)
-        azi = np.array(azi)
-        inc_1, inc_2 = inc[:-1], inc[1:]
-        azi_1, azi_2 = azi[:-1], azi[1:]
-
-        self.delta_md = np.diff(self.md, prepend=0)
-
-        self.dogleg = np.zeros(survey_length)
-        self.dogleg[1:] = get_dogleg(inc_1, azi_1, inc_2, azi_2)
-
-        self.rf = np.ones(survey_length)
-        self.rf[1:] = get_rf(self.dogleg[1:])
-
-        # compute all three coordinate deltas in a single trig pass
-        deltas = min_curve_step(
-            self.delta_md[1:], inc_1, azi_1, inc_2, azi_2, self.rf[1:]
-        )
-        self.delta_y = np.zeros(survey_length); self.delta_y[1:] = deltas[:, 0]
-        self.delta_x = np.zeros(survey_length); self.delta_x[1:] = deltas[:, 1]
-        self.delta_z = np.zeros(survey_length); self.delta_z[1:] = deltas[:, 2]
-
-        # calculate the dog leg severity
-        coeff = 30 if unit == "meters" else 100
-        self.dls = np.zeros(survey_length)
-        with np.errstate(divide='ignore', invalid='ignore'):
-            raw = np.degrees(self.dogleg[1:]) / self.delta_md[1:]
-        self.dls[1:] = np.where(np.isnan(raw), 0.0, raw) * coeff
-
-        # cumulate the coordinates and add surface coordinates
-        self.poss = np.vstack(
-            np.cumsum(
-                np.array([self.delta_x, self.delta_y, self.delta_z]).T, axis=0
-            ) + self.start_xyz
-        )
-
-
-def get_vec(inc, azi, nev=False, r=1, deg=True):
-    """
-    Convert inc and azi into a vector.
-
-    Parameters
-    ----------
-    inc: array of n floats
-        Inclination relative to the z-axis (up)
-    azi: array of n floats
-        Azimuth relative to the y-axis
-    r: float or array of n floats
-        Scalar to return a scaled vector
-
-    Returns
-    -------
-    vec: arraylike
-        An (n,3) array of vectors
-    """
-    if deg:
-        inc_rad, azi_rad = np.radians(np.array([inc, azi]))
-    else:
-        inc_rad = inc
-        azi_rad = azi
-    y = r * np.sin(inc_rad) * np.cos(azi_rad)
-    x = r * np.sin(inc_rad) * np.sin(azi_rad)
-    z = r * np.cos(inc_rad)
-
-    if nev:
-        vec = np.column_stack([y, x, z])
-    else:
-        vec = np.column_stack([x, y, z])
-
-    return vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
-
-
-def get_nev(
-    pos, start_xyz=np.array([0., 0., 0.]), start_nev=np.array([0., 0., 0.])
-):
-    """
-    Convert [x, y, z] coordinates to [n, e, tvd] coordinates.
-
-    Parameters
-    ----------
-    pos: (n,3) array of floats
-        Array of [x, y, z] coordinates
-    start_xyz: (,3) array of floats
-        The datum of the [x, y, z] cooardinates
-    start_nev: (,3) array of floats
-        The datum of the [n, e, tvd] coordinates
-
-    Returns
-    -------
-        An (n,3) array of [n, e, tvd] coordinates.
-    """
-    # e, n, v = (
-    #     np.array([pos]).reshape(-1,3) - np.array([start_xyz])
-    # ).T
-    e, n, v = (
-        np.array([pos]).reshape(-1, 3) - np.array([start_xyz])
-    ).T
-
-    return np.column_stack([n, e, v]) + np.array([start_nev])
-
-
-def get_xyz(pos, start_xyz=[0., 0., 0.], start_nev=[0., 0., 0.]):
-    y, x, z = (
-        np.array([pos]).reshape(-1, 3) - np.array([start_nev])
-    ).T
-
-    return np.column_stack([x, y, z]) + np.array([start_xyz])
-
-
-def _get_angles(vec):
-    xy = vec[:, 0] ** 2 + vec[:, 1] ** 2
-    inc = np.arctan2(np.sqrt(xy), vec[:, 2])  # for elevation angle defined from Z-axis down
-    azi = (np.arctan2(vec[:, 0], vec[:, 1]) + (2 * np.pi)) % (2 * np.pi)
-
-    return np.stack((inc, azi), axis=1)
-
-
-def get_angles(
-    vec: Annotated[NDArray, Literal["N", 3]], nev: bool = False
-):
-    '''
-    Determines the inclination and azimuth from a vector.
-
-    Parameters
-    ----------
-    vec: (n,3) array of floats
-    nev: boolean (default: False)
-        Indicates if the vector is in (x,y,z) or (n,e,v) coordinates.
-
-    Returns
-    -------
-    [inc, azi]: (n,2) array of floats
-        A numpy array of incs and axis in radians
-
-    '''
-    # make sure it's a unit vector
-    vec = vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
-    vec = vec.reshape(-1, 3)
-
-    # if it's nev then need to do the shuffle
-    if nev:
-        y, x, z = vec.T
-        vec = np.column_stack([x, y, z])
-
-    return _get_angles(vec)
-
-
-def _get_transform(inc, azi):
-    ci, si = np.cos(inc), np.sin(inc)
-    ca, sa = np.cos(azi), np.sin(azi)
-    z = np.zeros_like(inc)
-    trans = np.stack([
-        np.stack([ci * ca,  ci * sa, -si], axis=-1),
-        np.stack([-sa,       ca,      z  ], axis=-1),
-        np.stack([si * ca,  si * sa,  ci ], axis=-1),
-    ], axis=1)
-
-    return trans
-
-
-def get_transform(
-    survey
-):
-    """
-    Determine the transform for transforming between NEV and HLA coordinate
-    systems.
-
-    Parameters
-    ----------
-    survey: (n,3) array of floats
-        The [md, inc, azi] survey listing array.
-
-    Returns
-    -------
-    transform: (n,3,3) array of floats
-    """
-    survey = survey.reshape(-1, 3)
-    inc = np.array(survey[:, 1])
-    azi = np.array(survey[:, 2])
-
-    return _get_transform(inc, azi)
-
-
-def NEV_to_HLA(
-    survey: Annotated[NDArray, Literal["N", 3]],
-    NEV: Union[
-        Annotated[NDArray, Literal["N", 3]],
-        Annotated[NDArray, Literal["N", 3, 3]]
-    ],
-    cov: bool = True
-) -> Union[
-        Annotated[NDArray, Literal['N, 3']],
-        Annotated[NDArray, Literal['N, 3, 3']]
-]:
-    """
-    Transform from NEV to HLA coordinate system.
-
-    Parameters
-    ----------
-    survey: (n,3) array of floats
-        The [md, inc, azi] survey listing array.
-    NEV: (n,3) or (n,3,3) array of floats
-        The NEV coordinates or covariance matrices.
-    cov: boolean
-        If cov is True then a (n,3,3) array of covariance matrices
-        is expected, else a (n,3) array of coordinates.
-
-    Returns
-    -------
-    HLAs: NDArray
-        Either a transformed (n,3) array of HLA coordinates or an
-        (n,3,3) array of HLA covariance matrices.
-    """
-
-    trans = get_transform(survey)
-
-    if cov:
-        # HLA_cov = trans @ NEV_cov @ trans.T  (batched over n stations)
-        return trans @ NEV @ trans.swapaxes(-1, -2)
-
-    else:
-        NEV = NEV.reshape(-1, 3)
-        return np.einsum('...k,...jk', NEV, trans)
-
-
-def HLA_to_NEV(survey, HLA, cov=True, trans=None):
-    if trans is None:
-        trans = get_transform(survey)
-
-    if cov:
-        # NEV_cov = trans.T @ HLA_cov @ trans  (batched over n stations)
-        return trans.swapaxes(-1, -2) @ HLA @ trans
-
-    else:
-        shape = HLA.shape
-        return (HLA.reshape(shape[0], -1, 3) @ trans).reshape(shape)
-
-
-def get_sigmas(cov, long=False):
-    """
-    Extracts the sigma values of a covariance matrix along the principle axii.
-
-    Parameters
-    ----------
-    cov: (n,3,3) array of floats
-
-    Returns
-    -------
-    arr: (n,3) array of floats
-    """
-
-    assert cov.shape[-2:] == (3, 3), "Cov is the wrong shape"
-
-    cov = cov.reshape(-1, 3, 3)
-
-    aa, ab, ac = cov[:, :, 0].T
-    ab, bb, bc = cov[:, :, 1].T
-    ac, bc, cc = cov[:, :, 2].T
-
-    if long:
-        return (aa, bb, cc, ab, ac, bc)
-    else:
-        return (np.sqrt(aa), np.sqrt(bb), np.sqrt(cc))
-
-
-def get_unit_vec(vec):
-    vec = vec / np.linalg.norm(vec)
-
-    return vec
-
-
-def linear_convert(data, factor):
-    flag = False
-    if not isinstance(data, list):
-        flag = True
-        data = [data]
-    converted = [d * factor if d is not None else None for d in data]
-    if flag:
-        return converted[0]
-    else:
-        return converted
-
-
-def make_cov(a, b, c, long=False):
-    # a, b, c = np.sqrt(np.array([a, b, c]))
-    if long:
-        cov = np.array([
-            [a * a, a * b, a * c],
-            [a * b, b * b, b * c],
-            [a * c, b * c, c * c]
-        ])
-
-    else:
-        cov = np.array([
-            [a * a, np.zeros_like(a), np.zeros_like(a)],
-            [np.zeros_like(a), b * b, np.zeros_like(a)],
-            [np.zeros_like(a), np.zeros_like(a), c * c]
-        ])
-
-    return cov.T
-
-
-def make_long_cov(arr):
-    """
-    Build a (n, 3, 3) covariance matrix from the 6 unique upper-triangle
-    elements per station.
-
-    Parameters
-    ----------
-    arr: (n, 6) array — columns [aa, ab, ac, bb, bc, cc]
-
-    Returns
-    -------
-    cov: (n, 3, 3) array
-    """
-    aa, ab, ac, bb, bc, cc = np.array(arr).T
-    return np.stack([
-        np.stack([aa, ab, ac], axis=-1),
-        np.stack([ab, bb, bc], axis=-1),
-        np.stack([ac, bc, cc], axis=-1),
-    ], axis=1)
-
-
-def dls_from_radius(radius):
-    """
-    Returns the dls in degrees from a radius.
-    """
-    if isinstance(radius, np.ndarray):
-        circumference = np.full_like(radius, np.inf)
-        circumference = np.where(
-            radius != 0,
-            2 * np.pi * radius,
-            circumference
-        )
-    else:
-        if radius == 0:
-            return np.inf
-        circumference = 2 * np.pi * radius
-    dls = 360 / circumference * 30
-
-    return dls
-
-
-def radius_from_dls(dls):
-    """
-    Returns the radius in meters from a DLS in deg/30m.
-    """
-    if isinstance(dls, np.ndarray):
-        circumference = np.full_like(dls, np.inf)
-        circumference = np.where(
-            dls != 0,
-            (30 / dls) * 360,
-            circumference
-        )
-    else:
-        if dls == 0:
-            return np.inf
-        circumference = (30 / dls) * 360
-    radius = circumference / (2 * np.pi)
-
-    return radius
-
-
-def cov_from_vec(arr):
-    """
-    Returns a (n, 3, 3) covariance matrix from an (n, 3) array via outer product.
-
-    Parameters
-    ----------
-    arr: (n, 3) array
-        Array of vector components.
-
-    Returns
-    -------
-    (n, 3, 3) array
-    """
-    arr = np.array(arr)
-    return arr[:, :, None] * arr[:, None, :]
-
-
-def errors_from_cov(cov, data=False):
-    """
-    Parameters
-    ----------
-    cov: (n, 3, 3) array
-        The error covariance matrices.
-    data: bool (default: False)
-        If True returns a dictionary, else returns a list.
-    """
-    nn, ne, nv, _, ee, ev, _, _, vv = (
-        cov.reshape(-1, 9).T
-    )
-
-    if data:
-        return {
-            i: {
-                'nn': _nn, 'ne': _ne, 'nv': _nv,
-                'ee': _ee, 'ev': _ev, 'vv': _vv
-            }
-            for i, (_nn, _ne, _nv, _ee, _ev, _vv)
-            in enumerate(zip(nn, ne, nv, ee, ev, vv))
-        }
-
-    return np.array([nn, ne, nv, ee, ev, vv]).T
-
-
-def _get_arc_pos_and_vec(dogleg, radius):
-    pos = np.array([
-        np.cos(dogleg),
-        0.,
-        np.sin(dogleg)
-    ]) * radius
-    pos[0] = radius - pos[0]
-
-    vec = np.array([
-        np.sin(dogleg),
-        0.,
-        np.cos(dogleg)
-    ])
-    return (pos, vec)
-
-
-class Arc:
-    def __init__(self, dogleg, radius):
-        """
-        Generates a generic arc that can be transformed with a specific pos
-        and vec via a transform method. The arc is initialized at a local
-        origin and kicks off down and to the north (assuming an NEV coordinate
-        system).
-
-        Parameters
-        ----------
-        dogleg: float
-            The sweep angle of the arc in radians.
-        radius: float
-            The radius of the arc in meters.
-
-        Returns
-        -------
-        arc: Arc object
-        """
-        self.dogleg = dogleg
-        self.radius = radius
-        self.delta_md = dogleg * radius
-
-        self.pos, self.vec = _get_arc_pos_and_vec(dogleg, radius)
-
-
-    def transform(self, toolface, pos=None, vec=None, target=False):
-        """
-        Transforms an Arc to a position and orientation.
-
-        Parameters
-        ----------
-        pos: (,3) array
-        The desired position to transform the arc.
-        vec: (,3) array
-            The orientation unit vector to transform the arc.
-        target: bool
-            If true, returned arc vector is reversed.
-
-        Returns
-        -------
-        tuple (pos_new, vec_new)
-        pos_new: (,3) array
-            The position at the end of the arc post transform.
-        vec_new: (,3) array
-            The unit vector at the end of the arc post transform.
-        """
-        if vec is None:
-            vec = np.array([0., 0., 1.])
-        if target:
-            vec *= -1
-        inc, azi = get_angles(vec, nev=True).reshape(2)
-        angles = [
-            toolface,
-            inc,
-            azi
-        ]
-        r = R.from_euler('zyz', angles, degrees=False)
-
-        pos_new, vec_new = r.apply(np.vstack((self.pos, self.vec)))
-
-        # make sure vec_new is a unit vector:
-        vec_new = get_unit_vec(vec_new)
-
-        if pos is not None:
-            pos_new += pos
-        if target:
-            vec_new *= -1
-
-        return (pos_new, vec_new)
-
-
-def get_arc(
-    dogleg, radius, toolface, pos=None, vec=None, target=False
-) -> tuple:
-    """Creates an Arc instance and transforms it to the desired position
-    and orientation.
-
-    Parameters
-    ----------
-    dogleg: float
-        The swept angle of the arc (arc angle) in radians.
-    radius: float
-        The radius of the arc (in meters).
-    toolface: float
-        The toolface angle in radians (relative to the high side) to rotate the
-        arc at the desired position and orientation.
-    pos: (,3) array
-        The desired position to transform the arc.
-    vec: (,3) array
-        The orientation unit vector to transform the arc.
-    target: bool
-        If true, returned arc vector is reversed.
-
-    Returns
-    -------
-    tuple of (pos_new, vec_new, arc.delta_md)
-    pos_new: (,3) array
-        The position at the end of the arc post transform.
-    vec_new: (,3) array
-        The unit vector at the end of the arc post transform.
-    arc.delta_md: int
-        The arc length of the arc.
-    """
-    arc = Arc(dogleg, radius)
-    pos_new, vec_new = arc.transform(toolface, pos, vec, target)
-
-    return (pos_new, vec_new, arc.delta_md)
-
-
-def annular_volume(od: float, id: float = None, length: float = None):
-    """
-    Calculate an annular volume.
-
-    If no ``id`` is provided then circular volume is calculated. If no
-    ``length`` is provided, then the unit volume is calculated (i.e. the
-    area).
-
-    Units are assumed consistent across input parameters, i.e. the
-    calculation is dimensionless.
-
-    Parameters
-    ----------
-    od: float
-        The outer diameter.
-    id: float | None, optional
-        The inner diameter, default is 0.
-    length : float | None, optional
-        The length of the annulus.
-
-    Returns
-    -------
-    annular_volume: float
-        The (unit) volume of the annulus or cylinder.
-
-    Examples
-    --------
-    In the following example we calculate annular volume along a 1,000 meter
-    section length of 9 5/8" casing inside 12 1/4" hole.
-
-    >>> from welleng.utils import annular_volume
-    >>> from welleng.units import ureg
-    >>> av = annular_volume(
-    ...     od=ureg('12.25 inch').to('meters),
-    ...     id=ureg(f'{9+5/8} inch').to('meter'),
-    ...     length=ureg('1000 meter')
-    ... )
-    >>> print(av)
-    29.096093526301622 meter ** 3
-    """
-    length = 1 if length is None else length
-    id = 0 if id is None else id
-    annular_unit_volume = (np.pi * (od**2 - id**2)) / 4
-    annular_volume = annular_unit_volume * length
-
-    return annular_volume
-
-
-def _decimal2dms(decimal: tuple, ndigits: int = None) -> tuple:
-    try:
-        _decimal, direction = decimal
-    except (TypeError, ValueError):
-        _decimal = decimal[0] if isinstance(decimal, np.ndarray) else decimal
-        direction = None
-    _decimal = float(_decimal)
-    minutes, seconds = divmod(abs(_decimal) * 3600, 60)
-    _, minutes = divmod(minutes, 60)
-
-    return np.array([
-        int(_decimal),
-        int(minutes),
-        seconds if ndigits is None else round(seconds, ndigits)
-    ]) if direction is None else np.array([
-        int(_decimal),
-        int(minutes),
-        seconds if ndigits is None else round(seconds, ndigits),
-        direction
-    ], dtype=object)
-
-
-def decimal2dms(decimal: tuple | NDArray, ndigits: int = None) -> tuple | NDArray:
-    """Converts a decimal lat, lon to degrees, minutes and seconds.
-
-    Parameters
-    ----------
-    decimal : tuple | arraylike
-        A tuple of (lat, direction) or (lon, direction) or arraylike of
-        ((lat, direction), (lon, direction)) coordinates.
-    ndigits: int (default is None)
-        If specified, rounds the seconds decimal to the desired number of
-        digits.
-
-    Returns
-    -------
-    dms: arraylike
-        An array of (degrees, minutes, seconds, direction).
-
-    Examples
-    --------
-    If you want to convert the lat/lon coordinates for Den Haag from decimals
-    to degrees, minutes and seconds:
-
-    >>> LAT, LON = [(52.078663, 'N'), (4.288788, 'E')]
-    >>> dms = decimal2dms((LAT, LON), ndigits=6)
-    >>> print(dms)
-    [[52 4 43.1868 'N']
-     [4 17 19.6368 'E']]
-    """
-    flag = False
-    _decimal = np.array(decimal)
-    if _decimal.dtype == np.float64:
-        _decimal = _decimal.reshape((-1, 1))
-        flag = True
-    try:
-        dms = np.apply_along_axis(_decimal2dms, -1, _decimal, ndigits)
-    except np.exceptions.AxisError:
-        dms = _decimal2dms(_decimal, ndigits)
-
-    if dms.shape == (4,):
-        return tuple(dms)
-    else:
-        return dms.reshape((-1, 3)) if flag else dms
-
-
-def _dms2decimal(dms: NDArray, ndigits: int = None) -> NDArray:
-    try:
-        degrees, minutes, seconds, direction = dms
-    except ValueError:
-        degrees, minutes, seconds = dms
-        direction = None
-
-    decimal = abs(degrees) + minutes / 60 + seconds / 3600
-
-    return np.array([
-        np.copysign(
-            decimal if ndigits is None else round(decimal, ndigits),
-            degrees
-        )
-    ]) if direction is None else np.array([
-        np.copysign(
-            decimal if ndigits is None else round(decimal, ndigits),
-            degrees
-        ),
-        direction
-    ], dtype=object)
-
-
-def dms2decimal(dms: tuple | NDArray, ndigits: int = None) -> NDArray:
-    """Converts a degrees, minutes and seconds lat, lon to decimals.
-
-    Parameters
-    ----------
-    dms : tuple | arraylike
-        A tuple or arraylike of (degrees, minutes, seconds, direction) lat
-        and/or lon or arraylike of lat, lon coordinates.
-    ndigits: int (default is None)
-        If specified, rounds the decimal to the desired number of digits.
-
-    Returns
-    -------
-    degrees: arraylike
-        A tuple or array of lats and/or longs in decimals.
-
-    Examples
-    --------
-    If you want to convert the lat/lon coordinates for Den Haag from degrees,
-    minutes and seconds to decimals:
-
-    >>> LAT, LON = (52, 4, 43.1868, 'N'), (4, 17, 19.6368, 'E')
-    >>> decimal = dms2decimal((LAT, LON), ndigits=6)
-    >>> print(decimal)
-    [[52.078663 'N']
-     [4.288788 'E']]
-    """
-    result = np.apply_along_axis(
-        _dms2decimal, -1, np.array(dms, dtype=object), ndigits
-    )
-
-    if result.shape == ():
-        return float(result)
-    elif result.shape == (1,):
-        return float(result[0])
-    elif result.shape[-1] == 1:
-        return result.reshape(-1)
-    else:
-        return result
-
-
-def pprint_dms(dms, symbols: bool = True, return_data: bool = False):
-    """Pretty prints a (decimal, minutes, seconds) tuple or list.
-
-    Parameters
-    ----------
-    dms: tuple | list
-        An x or y or northing or easting (degree, minute, second).
-    symbols: bool (default: True)
-        Whether to print symbols for (deg, min, sec).
-    return_data: bool (default: False)
-        If True then will return the string rather than print it.
-    """
-    if symbols:
-        try:
-            deg, min, sec = dms
-            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\""
-        except ValueError:
-            deg, min, sec, _ = dms
-            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\" {_}"
-
-    else:
-        try:
-            deg, min, sec = dms
-            text = f"{deg} deg, {min} min, {sec} sec"
-        except ValueError:
-            deg, min, sec, _ = dms
-            text = f"{deg} deg, {min} min, {sec} sec {_}"
-
-    if return_data:
-        return text
-    else:
-        print(text)
-
-
-def dms_from_string(text):
-    """Extracts the values from a string dms x or y or northing or easting.
-    """
-    pattern = re.compile(r'(\d+)\s*(?:°|deg)?,\s*(\d+)\s*(?:\'|min)?,\s*(\d+(?:\.\d+)?)\s*(sec)?\s*.*?(\S+)?$', re.IGNORECASE)
-    matches = pattern.findall(text)
-
-    if matches:
-        deg, min, sec_str = matches[0][:3]
-        sec = float(sec_str)
-        final_data = matches[0][-1] if matches[0][-1] else None
-
-        if final_data:
-            return (int(deg), int(min), sec, final_data)
-        else:
-            return (int(deg), int(min), sec)
-
-    else:
-        return
-
-
-def make_clc_path(
-    toolface1, dogleg1, distance, toolface2, dogleg2,
-    pos0=None, vec0=None, radius=1.0
-):
-    """Generate a curve-hold-curve (CLC) path from arc parameters.
-
-    Builds the path in three steps: first arc, straight hold, second arc.
-    Useful for constructing known-geometry test cases and for quickly
-    prototyping CLC trajectories.
-
-    Parameters
-    ----------
-    toolface1: float
-        Toolface angle for the first curve in radians.
-    dogleg1: float
-        Sweep angle (dogleg) for the first curve in radians.
-    distance: float
-        Length of the straight hold section (same units as radius).
-    toolface2: float
-        Toolface angle for the second curve in radians.
-    dogleg2: float
-        Sweep angle (dogleg) for the second curve in radians.
-    pos0: (3,) array-like, optional
-        Start position [N, E, V]. Defaults to [0, 0, 0].
-    vec0: (3,) array-like, optional
-        Start direction unit vector. Defaults to [0, 0, 1] (pointing down).
-    radius: float, optional
-        Arc radius for both curves. Defaults to 1.0.
-
-    Returns
-    -------
-    dict with keys:
-        pos1, vec1  – end of first arc
-        dist_curve1 – arc length of first curve
-        pos2, vec2  – end of hold section / start of second arc
-        pos3, vec3  – end of second arc
-        dist_curve2 – arc length of second curve
-    """
-    pos0 = np.array([0., 0., 0.]) if pos0 is None else np.asarray(pos0, dtype=float)
-    vec0 = np.array([0., 0., 1.]) if vec0 is None else np.asarray(vec0, dtype=float)
-
-    pos1, vec1, dist_curve1 = get_arc(dogleg1, radius, toolface1, pos=pos0, vec=vec0)
-    pos2 = pos1 + vec1 * distance
-    vec2 = vec1.copy()
-    pos3, vec3, dist_curve2 = get_arc(dogleg2, radius, toolface2, pos=pos2, vec=vec2)
-
-    return dict(
-        pos1=pos1, vec1=vec1, dist_curve1=dist_curve1,
-        pos2=pos2, vec2=vec2,
-        pos3=pos3, vec3=vec3, dist_curve2=dist_curve2,
-    )
-
-
-def get_toolface(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> NDArray:
-    """Returns the toolface(s) of offset position(s) relative to reference
-    positions and vectors.  Accepts either single (3,) arrays or batches of
-    (n, 3) arrays; all three arguments must have the same leading dimension.
-
-    Parameters
-    ----------
-    pos1: ndarray, shape (3,) or (n, 3)
-        The reference NEV coordinate(s), e.g. current location.
-    vec1: ndarray, shape (3,) or (n, 3)
-        The reference NEV unit vector(s), e.g. current direction.
-    pos2: ndarray, shape (3,) or (n, 3)
-        The offset NEV coordinate(s), e.g. a target position.
-
-    Returns
-    -------
-    toolface: float or ndarray
-        The toolface(s) in radians [0, 2π) to pos2 from pos1 along vec1.
-        Returns a scalar float when single (3,) inputs are given.
-    """
-    pos1 = np.atleast_2d(pos1)
-    vec1 = np.atleast_2d(vec1)
-    pos2 = np.atleast_2d(pos2)
-
-    angles = np.flip(get_angles(vec1, nev=True), axis=1)
-    r = R.from_euler('zy', angles * -1, degrees=False)
-    pos = r.apply(pos2 - pos1)
-    result = np.arctan2(*np.flip(pos[:, :-1], axis=1).T) % (2 * np.pi)
-    return float(result[0]) if result.size == 1 else result
-
-
-def get_toolface_fast(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> float:
-    """Returns the toolface of a single offset position using a direct
-    closed-form expression — approximately 12× faster than ``get_toolface``
-    for scalar inputs.
-
-    Suitable when pos1, vec1 and pos2 are all individual (3,) arrays.
-    For batch use, prefer the vectorised ``get_toolface``.
-
-    Parameters
-    ----------
-    pos1: array-like, shape (3,)
-        The reference NEV coordinate, e.g. current location.
-    vec1: array-like, shape (3,)
-        The reference NEV unit vector, e.g. current direction.
-    pos2: array-like, shape (3,)
-        The offset NEV coordinate, e.g. a target position.
-
-    Returns
-    -------
-    toolface: float
-        The toolface in radians [0, 2π) to pos2 from pos1 along vec1.
-    """
-    n1, e1, v1 = pos1
-    n2, e2, v2 = pos2
-    vn1, ve1, vv1 = vec1
-
-    azimuth_vec1 = np.arctan2(ve1, vn1) % (2 * np.pi)
-    cos_azi = np.cos(azimuth_vec1)
-    sin_azi = np.sin(azimuth_vec1)
-
-    numerator = (e2 - e1) * cos_azi + (n1 - n2) * sin_azi
-    horiz_mag = np.sqrt(ve1 ** 2 + vn1 ** 2)
-    denominator = (
-        vv1 * (e2 - e1) * sin_azi
-        + vv1 * (n2 - n1) * cos_azi
-        + (v1 - v2) * horiz_mag
-    ) / np.sqrt(ve1 ** 2 + vn1 ** 2 + vv1 ** 2)
-
-    return np.arctan2(numerator, denominator) % (2 * np.pi)
-
-
+import re
+from typing import Annotated, Literal, Union
+
+import numpy as np
+from numpy.typing import NDArray
+from scipy.spatial.transform import Rotation as R
+
+
+def get_dogleg(inc1, azi1, inc2, azi2):
+    """
+    Compute the dogleg angle between two survey stations (vectorised).
+
+    Uses the numerically stable Haversine form to avoid arccos precision loss
+    at small angles.
+
+    Parameters
+    ----------
+    inc1, azi1: float or array — inclination / azimuth at station 1 (radians)
+    inc2, azi2: float or array — inclination / azimuth at station 2 (radians)
+
+    Returns
+    -------
+    dogleg: float or array — dogleg angle in radians
+    """
+    return 2.0 * np.arcsin(np.sqrt(
+        np.sin((inc2 - inc1) / 2) ** 2
+        + np.sin(inc1) * np.sin(inc2) * np.sin((azi2 - azi1) / 2) ** 2
+    ))
+
+
+def get_rf(dogleg):
+    """
+    Compute the ratio factor (RF) for minimum curvature (vectorised).
+
+    Returns 1.0 where dogleg is 0 (limit of the function as dogleg → 0).
+
+    Parameters
+    ----------
+    dogleg: float or array — dogleg angle(s) in radians
+
+    Returns
+    -------
+    rf: float or array — ratio factor(s)
+    """
+    dogleg = np.asarray(dogleg, dtype=float)
+    with np.errstate(divide='ignore', invalid='ignore'):
+        rf = np.where(dogleg == 0.0, 1.0, 2.0 / dogleg * np.tan(dogleg / 2))
+    return float(rf) if rf.ndim == 0 else rf
+
+
+def min_curve_step(delta_md, inc1, azi1, inc2, azi2, rf=None):
+    """
+    Compute position increments using minimum curvature (vectorised).
+
+    All trigonometric values are computed once and shared across the three
+    coordinate directions for efficiency.
+
+    Parameters
+    ----------
+    delta_md: (n,) array — measured-depth increments
+    inc1, azi1: (n,) arrays — start inclination / azimuth (radians)
+    inc2, azi2: (n,) arrays — end inclination / azimuth (radians)
+    rf: (n,) array or None — ratio factors; computed if not supplied
+
+    Returns
+    -------
+    deltas: (n, 3) array — position increments in [N, E, V] order
+    """
+    if rf is None:
+        rf = get_rf(get_dogleg(inc1, azi1, inc2, azi2))
+    si1, ci1 = np.sin(inc1), np.cos(inc1)
+    si2, ci2 = np.sin(inc2), np.cos(inc2)
+    ca1, sa1 = np.cos(azi1), np.sin(azi1)
+    ca2, sa2 = np.cos(azi2), np.sin(azi2)
+    scale = delta_md * rf / 2
+    return np.stack((
+        scale * (si1 * ca1 + si2 * ca2),  # N
+        scale * (si1 * sa1 + si2 * sa2),  # E
+        scale * (ci1 + ci2),               # V
+    ), axis=-1)
+
+
+class MinCurve:
+    def __init__(
+        self,
+        md,
+        inc,
+        azi,
+        start_xyz=[0., 0., 0.],
+        unit="meters"
+    ):
+        """
+        Generate geometric data from a well bore survey.
+
+        Parameters
+        ----------
+        md: list or 1d array of floats
+            Measured depth along well path from a datum.
+        inc: list or 1d array of floats
+            Well path inclination (relative to z/tvd axis where 0
+            indicates down), in radians.
+        azi: list or 1d array of floats
+            Well path azimuth (relative to y/North axis),
+            in radians.
+        unit: str
+            Either "meters" or "feet" to determine the unit of the dogleg
+            severity.
+
+        """
+
+        assert unit == "meters" or unit == "feet", (
+            'Unknown unit, please select "meters" of "feet"'
+        )
+
+        self.md = md
+        survey_length = len(self.md)
+        assert survey_length > 1, "Survey must have at least two rows"
+
+        self.inc = inc
+        self.azi = azi
+        self.start_xyz = start_xyz
+        self.unit = unit
+
+        inc = np.array(inc)
+        azi = np.array(azi)
+        inc_1, inc_2 = inc[:-1], inc[1:]
+        azi_1, azi_2 = azi[:-1], azi[1:]
+
+        self.delta_md = np.diff(self.md, prepend=0)
+
+        self.dogleg = np.zeros(survey_length)
+        self.dogleg[1:] = get_dogleg(inc_1, azi_1, inc_2, azi_2)
+
+        self.rf = np.ones(survey_length)
+        self.rf[1:] = get_rf(self.dogleg[1:])
+
+        # compute all three coordinate deltas in a single trig pass
+        deltas = min_curve_step(
+            self.delta_md[1:], inc_1, azi_1, inc_2, azi_2, self.rf[1:]
+        )
+        self.delta_y = np.zeros(survey_length); self.delta_y[1:] = deltas[:, 0]
+        self.delta_x = np.zeros(survey_length); self.delta_x[1:] = deltas[:, 1]
+        self.delta_z = np.zeros(survey_length); self.delta_z[1:] = deltas[:, 2]
+
+        # calculate the dog leg severity
+        coeff = 30 if unit == "meters" else 100
+        self.dls = np.zeros(survey_length)
+        with np.errstate(divide='ignore', invalid='ignore'):
+            raw = np.degrees(self.dogleg[1:]) / self.delta_md[1:]
+        self.dls[1:] = np.where(np.isnan(raw), 0.0, raw) * coeff
+
+        # cumulate the coordinates and add surface coordinates
+        self.poss = np.vstack(
+            np.cumsum(
+                np.array([self.delta_x, self.delta_y, self.delta_z]).T, axis=0
+            ) + self.start_xyz
+        )
+
+
+def get_vec(inc, azi, nev=False, r=1, deg=True):
+    """
+    Convert inc and azi into a vector.
+
+    Parameters
+    ----------
+    inc: array of n floats
+        Inclination relative to the z-axis (up)
+    azi: array of n floats
+        Azimuth relative to the y-axis
+    r: float or array of n floats
+        Scalar to return a scaled vector
+
+    Returns
+    -------
+    vec: arraylike
+        An (n,3) array of vectors
+    """
+    if deg:
+        inc_rad, azi_rad = np.radians(np.array([inc, azi]))
+    else:
+        inc_rad = inc
+        azi_rad = azi
+    y = r * np.sin(inc_rad) * np.cos(azi_rad)
+    x = r * np.sin(inc_rad) * np.sin(azi_rad)
+    z = r * np.cos(inc_rad)
+
+    if nev:
+        vec = np.column_stack([y, x, z])
+    else:
+        vec = np.column_stack([x, y, z])
+
+    return vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
+
+
+def get_nev(
+    pos, start_xyz=np.array([0., 0., 0.]), start_nev=np.array([0., 0., 0.])
+):
+    """
+    Convert [x, y, z] coordinates to [n, e, tvd] coordinates.
+
+    Parameters
+    ----------
+    pos: (n,3) array of floats
+        Array of [x, y, z] coordinates
+    start_xyz: (,3) array of floats
+        The datum of the [x, y, z] cooardinates
+    start_nev: (,3) array of floats
+        The datum of the [n, e, tvd] coordinates
+
+    Returns
+    -------
+        An (n,3) array of [n, e, tvd] coordinates.
+    """
+    # e, n, v = (
+    #     np.array([pos]).reshape(-1,3) - np.array([start_xyz])
+    # ).T
+    e, n, v = (
+        np.array([pos]).reshape(-1, 3) - np.array([start_xyz])
+    ).T
+
+    return np.column_stack([n, e, v]) + np.array([start_nev])
+
+
+def get_xyz(pos, start_xyz=[0., 0., 0.], start_nev=[0., 0., 0.]):
+    y, x, z = (
+        np.array([pos]).reshape(-1, 3) - np.array([start_nev])
+    ).T
+
+    return np.column_stack([x, y, z]) + np.array([start_xyz])
+
+
+def _get_angles(vec):
+    xy = vec[:, 0] ** 2 + vec[:, 1] ** 2
+    inc = np.arctan2(np.sqrt(xy), vec[:, 2])  # for elevation angle defined from Z-axis down
+    azi = (np.arctan2(vec[:, 0], vec[:, 1]) + (2 * np.pi)) % (2 * np.pi)
+
+    return np.stack((inc, azi), axis=1)
+
+
+def get_angles(
+    vec: Annotated[NDArray, Literal["N", 3]], nev: bool = False
+):
+    '''
+    Determines the inclination and azimuth from a vector.
+
+    Parameters
+    ----------
+    vec: (n,3) array of floats
+    nev: boolean (default: False)
+        Indicates if the vector is in (x,y,z) or (n,e,v) coordinates.
+
+    Returns
+    -------
+    [inc, azi]: (n,2) array of floats
+        A numpy array of incs and axis in radians
+
+    '''
+    # make sure it's a unit vector
+    vec = vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
+    vec = vec.reshape(-1, 3)
+
+    # if it's nev then need to do the shuffle
+    if nev:
+        y, x, z = vec.T
+        vec = np.column_stack([x, y, z])
+
+    return _get_angles(vec)
+
+
+def _get_transform(inc, azi):
+    ci, si = np.cos(inc), np.sin(inc)
+    ca, sa = np.cos(azi), np.sin(azi)
+    z = np.zeros_like(inc)
+    trans = np.stack([
+        np.stack([ci * ca,  ci * sa, -si], axis=-1),
+        np.stack([-sa,       ca,      z  ], axis=-1),
+        np.stack([si * ca,  si * sa,  ci ], axis=-1),
+    ], axis=1)
+
+    return trans
+
+
+def get_transform(
+    survey
+):
+    """
+    Determine the transform for transforming between NEV and HLA coordinate
+    systems.
+
+    Parameters
+    ----------
+    survey: (n,3) array of floats
+        The [md, inc, azi] survey listing array.
+
+    Returns
+    -------
+    transform: (n,3,3) array of floats
+    """
+    survey = survey.reshape(-1, 3)
+    inc = np.array(survey[:, 1])
+    azi = np.array(survey[:, 2])
+
+    return _get_transform(inc, azi)
+
+
+def NEV_to_HLA(
+    survey: Annotated[NDArray, Literal["N", 3]],
+    NEV: Union[
+        Annotated[NDArray, Literal["N", 3]],
+        Annotated[NDArray, Literal["N", 3, 3]]
+    ],
+    cov: bool = True
+) -> Union[
+        Annotated[NDArray, Literal['N, 3']],
+        Annotated[NDArray, Literal['N, 3, 3']]
+]:
+    """
+    Transform from NEV to HLA coordinate system.
+
+    Parameters
+    ----------
+    survey: (n,3) array of floats
+        The [md, inc, azi] survey listing array.
+    NEV: (n,3) or (n,3,3) array of floats
+        The NEV coordinates or covariance matrices.
+    cov: boolean
+        If cov is True then a (n,3,3) array of covariance matrices
+        is expected, else a (n,3) array of coordinates.
+
+    Returns
+    -------
+    HLAs: NDArray
+        Either a transformed (n,3) array of HLA coordinates or an
+        (n,3,3) array of HLA covariance matrices.
+    """
+
+    trans = get_transform(survey)
+
+    if cov:
+        # HLA_cov = trans @ NEV_cov @ trans.T  (batched over n stations)
+        return trans @ NEV @ trans.swapaxes(-1, -2)
+
+    else:
+        NEV = NEV.reshape(-1, 3)
+        return np.einsum('...k,...jk', NEV, trans)
+
+
+def HLA_to_NEV(survey, HLA, cov=True, trans=None):
+    if trans is None:
+        trans = get_transform(survey)
+
+    if cov:
+        # NEV_cov = trans.T @ HLA_cov @ trans  (batched over n stations)
+        return trans.swapaxes(-1, -2) @ HLA @ trans
+
+    else:
+        shape = HLA.shape
+        return (HLA.reshape(shape[0], -1, 3) @ trans).reshape(shape)
+
+
+def get_sigmas(cov, long=False):
+    """
+    Extracts the sigma values of a covariance matrix along the principle axii.
+
+    Parameters
+    ----------
+    cov: (n,3,3) array of floats
+
+    Returns
+    -------
+    arr: (n,3) array of floats
+    """
+
+    assert cov.shape[-2:] == (3, 3), "Cov is the wrong shape"
+
+    cov = cov.reshape(-1, 3, 3)
+
+    aa, ab, ac = cov[:, :, 0].T
+    ab, bb, bc = cov[:, :, 1].T
+    ac, bc, cc = cov[:, :, 2].T
+
+    if long:
+        return (aa, bb, cc, ab, ac, bc)
+    else:
+        return (np.sqrt(aa), np.sqrt(bb), np.sqrt(cc))
+
+
+def get_unit_vec(vec):
+    vec = vec / np.linalg.norm(vec)
+
+    return vec
+
+
+def linear_convert(data, factor):
+    flag = False
+    if not isinstance(data, list):
+        flag = True
+        data = [data]
+    converted = [d * factor if d is not None else None for d in data]
+    if flag:
+        return converted[0]
+    else:
+        return converted
+
+
+def make_cov(a, b, c, long=False):
+    # a, b, c = np.sqrt(np.array([a, b, c]))
+    if long:
+        cov = np.array([
+            [a * a, a * b, a * c],
+            [a * b, b * b, b * c],
+            [a * c, b * c, c * c]
+        ])
+
+    else:
+        cov = np.array([
+            [a * a, np.zeros_like(a), np.zeros_like(a)],
+            [np.zeros_like(a), b * b, np.zeros_like(a)],
+            [np.zeros_like(a), np.zeros_like(a), c * c]
+        ])
+
+    return cov.T
+
+
+def make_long_cov(arr):
+    """
+    Build a (n, 3, 3) covariance matrix from the 6 unique upper-triangle
+    elements per station.
+
+    Parameters
+    ----------
+    arr: (n, 6) array — columns [aa, ab, ac, bb, bc, cc]
+
+    Returns
+    -------
+    cov: (n, 3, 3) array
+    """
+    aa, ab, ac, bb, bc, cc = np.array(arr).T
+    return np.stack([
+        np.stack([aa, ab, ac], axis=-1),
+        np.stack([ab, bb, bc], axis=-1),
+        np.stack([ac, bc, cc], axis=-1),
+    ], axis=1)
+
+
+def dls_from_radius(radius):
+    """
+    Returns the dls in degrees from a radius.
+    """
+    if isinstance(radius, np.ndarray):
+        circumference = np.full_like(radius, np.inf)
+        circumference = np.where(
+            radius != 0,
+            2 * np.pi * radius,
+            circumference
+        )
+    else:
+        if radius == 0:
+            return np.inf
+        circumference = 2 * np.pi * radius
+    dls = 360 / circumference * 30
+
+    return dls
+
+
+def radius_from_dls(dls):
+    """
+    Returns the radius in meters from a DLS in deg/30m.
+    """
+    if isinstance(dls, np.ndarray):
+        circumference = np.full_like(dls, np.inf)
+        circumference = np.where(
+            dls != 0,
+            (30 / dls) * 360,
+            circumference
+        )
+    else:
+        if dls == 0:
+            return np.inf
+        circumference = (30 / dls) * 360
+    radius = circumference / (2 * np.pi)
+
+    return radius
+
+
+def cov_from_vec(arr):
+    """
+    Returns a (n, 3, 3) covariance matrix from an (n, 3) array via outer product.
+
+    Parameters
+    ----------
+    arr: (n, 3) array
+        Array of vector components.
+
+    Returns
+    -------
+    (n, 3, 3) array
+    """
+    arr = np.array(arr)
+    return arr[:, :, None] * arr[:, None, :]
+
+
+def errors_from_cov(cov, data=False):
+    """
+    Parameters
+    ----------
+    cov: (n, 3, 3) array
+        The error covariance matrices.
+    data: bool (default: False)
+        If True returns a dictionary, else returns a list.
+    """
+    nn, ne, nv, _, ee, ev, _, _, vv = (
+        cov.reshape(-1, 9).T
+    )
+
+    if data:
+        return {
+            i: {
+                'nn': _nn, 'ne': _ne, 'nv': _nv,
+                'ee': _ee, 'ev': _ev, 'vv': _vv
+            }
+            for i, (_nn, _ne, _nv, _ee, _ev, _vv)
+            in enumerate(zip(nn, ne, nv, ee, ev, vv))
+        }
+
+    return np.array([nn, ne, nv, ee, ev, vv]).T
+
+
+def _get_arc_pos_and_vec(dogleg, radius):
+    pos = np.array([
+        np.cos(dogleg),
+        0.,
+        np.sin(dogleg)
+    ]) * radius
+    pos[0] = radius - pos[0]
+
+    vec = np.array([
+        np.sin(dogleg),
+        0.,
+        np.cos(dogleg)
+    ])
+    return (pos, vec)
+
+
+class Arc:
+    def __init__(self, dogleg, radius):
+        """
+        Generates a generic arc that can be transformed with a specific pos
+        and vec via a transform method. The arc is initialized at a local
+        origin and kicks off down and to the north (assuming an NEV coordinate
+        system).
+
+        Parameters
+        ----------
+        dogleg: float
+            The sweep angle of the arc in radians.
+        radius: float
+            The radius of the arc in meters.
+
+        Returns
+        -------
+        arc: Arc object
+        """
+        self.dogleg = dogleg
+        self.radius = radius
+        self.delta_md = dogleg * radius
+
+        self.pos, self.vec = _get_arc_pos_and_vec(dogleg, radius)
+
+
+    def transform(self, toolface, pos=None, vec=None, target=False):
+        """
+        Transforms an Arc to a position and orientation.
+
+        Parameters
+        ----------
+        pos: (,3) array
+        The desired position to transform the arc.
+        vec: (,3) array
+            The orientation unit vector to transform the arc.
+        target: bool
+            If true, returned arc vector is reversed.
+
+        Returns
+        -------
+        tuple (pos_new, vec_new)
+        pos_new: (,3) array
+            The position at the end of the arc post transform.
+        vec_new: (,3) array
+            The unit vector at the end of the arc post transform.
+        """
+        if vec is None:
+            vec = np.array([0., 0., 1.])
+        if target:
+            vec = -np.asarray(vec)
+        inc, azi = get_angles(vec, nev=True).reshape(2)
+        angles = [
+            toolface,
+            inc,
+            azi
+        ]
+        r = R.from_euler('zyz', angles, degrees=False)
+
+        pos_new, vec_new = r.apply(np.vstack((self.pos, self.vec)))
+
+        # make sure vec_new is a unit vector:
+        vec_new = get_unit_vec(vec_new)
+
+        if pos is not None:
+            pos_new += pos
+        if target:
+            vec_new *= -1
+
+        return (pos_new, vec_new)
+
+
+def get_arc(
+    dogleg, radius, toolface, pos=None, vec=None, target=False
+) -> tuple:
+    """Creates an Arc instance and transforms it to the desired position
+    and orientation.
+
+    Parameters
+    ----------
+    dogleg: float
+        The swept angle of the arc (arc angle) in radians.
+    radius: float
+        The radius of the arc (in meters).
+    toolface: float
+        The toolface angle in radians (relative to the high side) to rotate the
+        arc at the desired position and orientation.
+    pos: (,3) array
+        The desired position to transform the arc.
+    vec: (,3) array
+        The orientation unit vector to transform the arc.
+    target: bool
+        If true, returned arc vector is reversed.
+
+    Returns
+    -------
+    tuple of (pos_new, vec_new, arc.delta_md)
+    pos_new: (,3) array
+        The position at the end of the arc post transform.
+    vec_new: (,3) array
+        The unit vector at the end of the arc post transform.
+    arc.delta_md: int
+        The arc length of the arc.
+    """
+    arc = Arc(dogleg, radius)
+    pos_new, vec_new = arc.transform(toolface, pos, vec, target)
+
+    return (pos_new, vec_new, arc.delta_md)
+
+
+def annular_volume(od: float, id: float = None, length: float = None):
+    """
+    Calculate an annular volume.
+
+    If no ``id`` is provided then circular volume is calculated. If no
+    ``length`` is provided, then the unit volume is calculated (i.e. the
+    area).
+
+    Units are assumed consistent across input parameters, i.e. the
+    calculation is dimensionless.
+
+    Parameters
+    ----------
+    od: float
+        The outer diameter.
+    id: float | None, optional
+        The inner diameter, default is 0.
+    length : float | None, optional
+        The length of the annulus.
+
+    Returns
+    -------
+    annular_volume: float
+        The (unit) volume of the annulus or cylinder.
+
+    Examples
+    --------
+    In the following example we calculate annular volume along a 1,000 meter
+    section length of 9 5/8" casing inside 12 1/4" hole.
+
+    >>> from welleng.utils import annular_volume
+    >>> from welleng.units import ureg
+    >>> av = annular_volume(
+    ...     od=ureg('12.25 inch').to('meters),
+    ...     id=ureg(f'{9+5/8} inch').to('meter'),
+    ...     length=ureg('1000 meter')
+    ... )
+    >>> print(av)
+    29.096093526301622 meter ** 3
+    """
+    length = 1 if length is None else length
+    id = 0 if id is None else id
+    annular_unit_volume = (np.pi * (od**2 - id**2)) / 4
+    annular_volume = annular_unit_volume * length
+
+    return annular_volume
+
+
+def _decimal2dms(decimal: tuple, ndigits: int = None) -> tuple:
+    try:
+        _decimal, direction = decimal
+    except (TypeError, ValueError):
+        _decimal = decimal[0] if isinstance(decimal, np.ndarray) else decimal
+        direction = None
+    _decimal = float(_decimal)
+    minutes, seconds = divmod(abs(_decimal) * 3600, 60)
+    _, minutes = divmod(minutes, 60)
+
+    return np.array([
+        int(_decimal),
+        int(minutes),
+        seconds if ndigits is None else round(seconds, ndigits)
+    ]) if direction is None else np.array([
+        int(_decimal),
+        int(minutes),
+        seconds if ndigits is None else round(seconds, ndigits),
+        direction
+    ], dtype=object)
+
+
+def decimal2dms(decimal: tuple | NDArray, ndigits: int = None) -> tuple | NDArray:
+    """Converts a decimal lat, lon to degrees, minutes and seconds.
+
+    Parameters
+    ----------
+    decimal : tuple | arraylike
+        A tuple of (lat, direction) or (lon, direction) or arraylike of
+        ((lat, direction), (lon, direction)) coordinates.
+    ndigits: int (default is None)
+        If specified, rounds the seconds decimal to the desired number of
+        digits.
+
+    Returns
+    -------
+    dms: arraylike
+        An array of (degrees, minutes, seconds, direction).
+
+    Examples
+    --------
+    If you want to convert the lat/lon coordinates for Den Haag from decimals
+    to degrees, minutes and seconds:
+
+    >>> LAT, LON = [(52.078663, 'N'), (4.288788, 'E')]
+    >>> dms = decimal2dms((LAT, LON), ndigits=6)
+    >>> print(dms)
+    [[52 4 43.1868 'N']
+     [4 17 19.6368 'E']]
+    """
+    flag = False
+    _decimal = np.array(decimal)
+    if _decimal.dtype == np.float64:
+        _decimal = _decimal.reshape((-1, 1))
+        flag = True
+    try:
+        dms = np.apply_along_axis(_decimal2dms, -1, _decimal, ndigits)
+    except np.exceptions.AxisError:
+        dms = _decimal2dms(_decimal, ndigits)
+
+    if dms.shape == (4,):
+        return tuple(dms)
+    else:
+        return dms.reshape((-1, 3)) if flag else dms
+
+
+def _dms2decimal(dms: NDArray, ndigits: int = None) -> NDArray:
+    try:
+        degrees, minutes, seconds, direction = dms
+    except ValueError:
+        degrees, minutes, seconds = dms
+        direction = None
+
+    decimal = abs(degrees) + minutes / 60 + seconds / 3600
+
+    return np.array([
+        np.copysign(
+            decimal if ndigits is None else round(decimal, ndigits),
+            degrees
+        )
+    ]) if direction is None else np.array([
+        np.copysign(
+            decimal if ndigits is None else round(decimal, ndigits),
+            degrees
+        ),
+        direction
+    ], dtype=object)
+
+
+def dms2decimal(dms: tuple | NDArray, ndigits: int = None) -> NDArray:
+    """Converts a degrees, minutes and seconds lat, lon to decimals.
+
+    Parameters
+    ----------
+    dms : tuple | arraylike
+        A tuple or arraylike of (degrees, minutes, seconds, direction) lat
+        and/or lon or arraylike of lat, lon coordinates.
+    ndigits: int (default is None)
+        If specified, rounds the decimal to the desired number of digits.
+
+    Returns
+    -------
+    degrees: arraylike
+        A tuple or array of lats and/or longs in decimals.
+
+    Examples
+    --------
+    If you want to convert the lat/lon coordinates for Den Haag from degrees,
+    minutes and seconds to decimals:
+
+    >>> LAT, LON = (52, 4, 43.1868, 'N'), (4, 17, 19.6368, 'E')
+    >>> decimal = dms2decimal((LAT, LON), ndigits=6)
+    >>> print(decimal)
+    [[52.078663 'N']
+     [4.288788 'E']]
+    """
+    result = np.apply_along_axis(
+        _dms2decimal, -1, np.array(dms, dtype=object), ndigits
+    )
+
+    if result.shape == ():
+        return float(result)
+    elif result.shape == (1,):
+        return float(result[0])
+    elif result.shape[-1] == 1:
+        return result.reshape(-1)
+    else:
+        return result
+
+
+def pprint_dms(dms, symbols: bool = True, return_data: bool = False):
+    """Pretty prints a (decimal, minutes, seconds) tuple or list.
+
+    Parameters
+    ----------
+    dms: tuple | list
+        An x or y or northing or easting (degree, minute, second).
+    symbols: bool (default: True)
+        Whether to print symbols for (deg, min, sec).
+    return_data: bool (default: False)
+        If True then will return the string rather than print it.
+    """
+    if symbols:
+        try:
+            deg, min, sec = dms
+            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\""
+        except ValueError:
+            deg, min, sec, _ = dms
+            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\" {_}"
+
+    else:
+        try:
+            deg, min, sec = dms
+            text = f"{deg} deg, {min} min, {sec} sec"
+        except ValueError:
+            deg, min, sec, _ = dms
+            text = f"{deg} deg, {min} min, {sec} sec {_}"
+
+    if return_data:
+        return text
+    else:
+        print(text)
+
+
+def dms_from_string(text):
+    """Extracts the values from a string dms x or y or northing or easting.
+    """
+    pattern = re.compile(r'(\d+)\s*(?:°|deg)?,\s*(\d+)\s*(?:\'|min)?,\s*(\d+(?:\.\d+)?)\s*(sec)?\s*.*?(\S+)?$', re.IGNORECASE)
+    matches = pattern.findall(text)
+
+    if matches:
+        deg, min, sec_str = matches[0][:3]
+        sec = float(sec_str)
+        final_data = matches[0][-1] if matches[0][-1] else None
+
+        if final_data:
+            return (int(deg), int(min), sec, final_data)
+        else:
+            return (int(deg), int(min), sec)
+
+    else:
+        return
+
+
+def make_clc_path(
+    toolface1, dogleg1, distance, toolface2, dogleg2,
+    pos0=None, vec0=None, radius=1.0
+):
+    """Generate a curve-hold-curve (CLC) path from arc parameters.
+
+    Builds the path in three steps: first arc, straight hold, second arc.
+    Useful for constructing known-geometry test cases and for quickly
+    prototyping CLC trajectories.
+
+    Parameters
+    ----------
+    toolface1: float
+        Toolface angle for the first curve in radians.
+    dogleg1: float
+        Sweep angle (dogleg) for the first curve in radians.
+    distance: float
+        Length of the straight hold section (same units as radius).
+    toolface2: float
+        Toolface angle for the second curve in radians.
+    dogleg2: float
+        Sweep angle (dogleg) for the second curve in radians.
+    pos0: (3,) array-like, optional
+        Start position [N, E, V]. Defaults to [0, 0, 0].
+    vec0: (3,) array-like, optional
+        Start direction unit vector. Defaults to [0, 0, 1] (pointing down).
+    radius: float, optional
+        Arc radius for both curves. Defaults to 1.0.
+
+    Returns
+    -------
+    dict with keys:
+        pos1, vec1  – end of first arc
+        dist_curve1 – arc length of first curve
+        pos2, vec2  – end of hold section / start of second arc
+        pos3, vec3  – end of second arc
+        dist_curve2 – arc length of second curve
+    """
+    pos0 = np.array([0., 0., 0.]) if pos0 is None else np.asarray(pos0, dtype=float)
+    vec0 = np.array([0., 0., 1.]) if vec0 is None else np.asarray(vec0, dtype=float)
+
+    pos1, vec1, dist_curve1 = get_arc(dogleg1, radius, toolface1, pos=pos0, vec=vec0)
+    pos2 = pos1 + vec1 * distance
+    vec2 = vec1.copy()
+    pos3, vec3, dist_curve2 = get_arc(dogleg2, radius, toolface2, pos=pos2, vec=vec2)
+
+    return dict(
+        pos1=pos1, vec1=vec1, dist_curve1=dist_curve1,
+        pos2=pos2, vec2=vec2,
+        pos3=pos3, vec3=vec3, dist_curve2=dist_curve2,
+    )
+
+
+def get_toolface(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> NDArray:
+    """Returns the toolface(s) of offset position(s) relative to reference
+    positions and vectors.  Accepts either single (3,) arrays or batches of
+    (n, 3) arrays; all three arguments must have the same leading dimension.
+
+    Parameters
+    ----------
+    pos1: ndarray, shape (3,) or (n, 3)
+        The reference NEV coordinate(s), e.g. current location.
+    vec1: ndarray, shape (3,) or (n, 3)
+        The reference NEV unit vector(s), e.g. current direction.
+    pos2: ndarray, shape (3,) or (n, 3)
+        The offset NEV coordinate(s), e.g. a target position.
+
+    Returns
+    -------
+    toolface: float or ndarray
+        The toolface(s) in radians [0, 2π) to pos2 from pos1 along vec1.
+        Returns a scalar float when single (3,) inputs are given.
+    """
+    pos1 = np.atleast_2d(pos1)
+    vec1 = np.atleast_2d(vec1)
+    pos2 = np.atleast_2d(pos2)
+
+    angles = np.flip(get_angles(vec1, nev=True), axis=1)
+    r = R.from_euler('zy', angles * -1, degrees=False)
+    pos = r.apply(pos2 - pos1)
+    result = np.arctan2(*np.flip(pos[:, :-1], axis=1).T) % (2 * np.pi)
+    return float(result[0]) if result.size == 1 else result
+
+
+def get_toolface_fast(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> float:
+    """Returns the toolface of a single offset position using a direct
+    closed-form expression — approximately 12× faster than ``get_toolface``
+    for scalar inputs.
+
+    Suitable when pos1, vec1 and pos2 are all individual (3,) arrays.
+    For batch use, prefer the vectorised ``get_toolface``.
+
+    Parameters
+    ----------
+    pos1: array-like, shape (3,)
+        The reference NEV coordinate, e.g. current location.
+    vec1: array-like, shape (3,)
+        The reference NEV unit vector, e.g. current direction.
+    pos2: array-like, shape (3,)
+        The offset NEV coordinate, e.g. a target position.
+
+    Returns
+    -------
+    toolface: float
+        The toolface in radians [0, 2π) to pos2 from pos1 along vec1.
+    """
+    n1, e1, v1 = pos1
+    n2, e2, v2 = pos2
+    vn1, ve1, vv1 = vec1
+
+    azimuth_vec1 = np.arctan2(ve1, vn1) % (2 * np.pi)
+    cos_azi = np.cos(azimuth_vec1)
+    sin_azi = np.sin(azimuth_vec1)
+
+    numerator = (e2 - e1) * cos_azi + (n1 - n2) * sin_azi
+    horiz_mag = np.sqrt(ve1 ** 2 + vn1 ** 2)
+    denominator = (
+        vv1 * (e2 - e1) * sin_azi
+        + vv1 * (n2 - n1) * cos_azi
+        + (v1 - v2) * horiz_mag
+    ) / np.sqrt(ve1 ** 2 + vn1 ** 2 + vv1 ** 2)
+
+    return np.arctan2(numerator, denominator) % (2 * np.pi)
+
+
-- 
2.43.0


From 5c47cbe1647bd876fa30ba9a2118a925a5d9fa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 12/69] fix: decimal degrees between -1 and 0 keep their sign
 in degrees, minutes, seconds

---
 welleng/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index 8eeaacc..c919b6c 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -709,13 +709,16 @@ def _decimal2dms(decimal: tuple, ndigits: int = None) -> tuple:
     _decimal = float(_decimal)
     minutes, seconds = divmod(abs(_decimal) * 3600, 60)
     _, minutes = divmod(minutes, 60)
+    degrees = int(_decimal)
+    if degrees == 0 and _decimal < 0:
+        degrees = -0.0  # carries the sign
 
     return np.array([
-        int(_decimal),
+        degrees,
         int(minutes),
         seconds if ndigits is None else round(seconds, ndigits)
     ]) if direction is None else np.array([
-        int(_decimal),
+        degrees,
         int(minutes),
         seconds if ndigits is None else round(seconds, ndigits),
         direction
-- 
2.43.0


From 6f0a456d4fdf20ff32f0be077e10086c33d91b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 13/69] fix: torque and drag reads the string and wellbore
 sections

---
 welleng/torque_drag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index acabb6d..1094a49 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -195,7 +195,7 @@ class TorqueDrag:
     def get_weight_buoyed_and_radius(self):
         """Calculate buoyed weight and contact radius for each survey interval."""
         sections = self.string.sections
-        bottoms = np.array([s['bottom'] for s in sections])
+        bottoms = np.array([s['bottom'] for s in sections.values()])
         mds = self.survey.md[1:]
         delta_mds = self.survey.delta_md[1:]
         mask = mds <= self.string.bottom
@@ -211,7 +211,7 @@ class TorqueDrag:
     def get_coeff_friction_sliding(self):
         """Build an array of sliding friction coefficients mapped to survey stations."""
         sections = self.wellbore.sections
-        bottoms = np.array([s['bottom'] for s in sections])
+        bottoms = np.array([s['bottom'] for s in sections.values()])
         mds = self.survey.md[1:]
         mask = mds <= self.wellbore.bottom
         mds = mds[mask]
-- 
2.43.0


From e14973ee9a3929b02ac5e7554708f6d1aa86240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 14/69] fix: torque uses the contact radius of its own interval

---
 welleng/torque_drag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 1094a49..ce9d0aa 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -254,7 +254,7 @@ class TorqueDrag:
             self.azi_delta[:self.index][::-1],
             self.weight_buoyed[::-1],
             self.coeff_friction_sliding[:self.index][::-1],
-            self.radius
+            self.radius[::-1]
         ):
             (
                 inc_average, inc_delta, azi_delta, weight_buoyed,
-- 
2.43.0


From 9757f1edbb81b0ef6035f142740f3133b54cd92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 15/69] fix: azimuth change in torque and drag takes the
 shortest turn through north

---
 welleng/torque_drag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index ce9d0aa..481826c 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -171,6 +171,8 @@ class TorqueDrag:
         self.azi_delta[1:] = (
             self.survey.azi_grid_rad[1:] - self.survey.azi_grid_rad[:-1]
         )
+        # the shortest turn, e.g. 350 to 10 degrees is a turn of 20 degrees
+        self.azi_delta = (self.azi_delta + np.pi) % (2 * np.pi) - np.pi
 
     def get_characteristic_od(self, section):
         """Return the effective outer diameter for a string section.
-- 
2.43.0


From 8b0fb13a13ed019ae8fdb2caecb764934cdbc581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 16/69] fix: a depth shared by string and wellbore adds one
 survey station

---
 welleng/torque_drag.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 481826c..89e4965 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -108,20 +108,18 @@ class TorqueDrag:
         """
         q = []
 
-        for k, v in self.wellbore.sections.items():
-            if v['bottom'] in self.survey_original.md:
+        bottoms = {
+            v['bottom'] for sections in (
+                self.wellbore.sections, self.string.sections
+            ) for v in sections.values()
+        }
+
+        for bottom in sorted(bottoms):
+            if bottom in self.survey_original.md:
                 continue
             else:
                 q.append(interpolate_md(
-                    self.survey_original, v['bottom']
-                ))
-
-        for k, v in self.string.sections.items():
-            if v['bottom'] in self.survey_original.md:
-                continue
-            else:
-                q.append(interpolate_md(
-                    self.survey_original, v['bottom']
+                    self.survey_original, bottom
                 ))
 
         md, inc, azi = (
-- 
2.43.0


From 5f61408ba379b6e7c96763a37fe956934d45c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 17/69] fix: torque and drag accepts surveys in feet

---
 welleng/torque_drag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 89e4965..6c22f4d 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -137,7 +137,8 @@ class TorqueDrag:
         sh = _get_grid_header(self.survey_original.header)
 
         self.survey = Survey(
-            md=md, inc=inc, azi=azi, header=sh, deg=False
+            md=md, inc=inc, azi=azi, header=sh, deg=False,
+            unit=self.survey_original.unit
         )
 
     def get_buoyancy_factors(self):
-- 
2.43.0


From 94220b238491481ac9d2efd6909e8155e6c9c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 18/69] fix: bottom up sections given by their top or by
 default extend as documented

---
 welleng/architecture.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index f626079..7995a85 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -141,21 +141,21 @@ class String:
             top = bottom - kwargs.get('length')
             if top < self.top:
                 top = self.top
-                length = bottom - top
         elif bool(kwargs.get('top')):
-            length = bottom - kwargs.get('top')
+            top = kwargs.get('top')
         else:
             top = self.top
-            length = self.sections[0]['top']
 
         self.sections[temp] = {}
-        self.sections[temp]['top'] = top
-        self.sections[temp]['bottom'] = bottom
 
         # add the section to the sections dict
         for k, v in kwargs.items():
             self.sections[temp][k] = v
 
+        self.sections[temp]['top'] = top
+        self.sections[temp]['bottom'] = bottom
+        self.sections[temp]['length'] = bottom - top
+
         # sort the dict on depth of tops
         self.sections = {
             k: v
-- 
2.43.0


From 51db95541404f7804fa97bebd9cda52d5c1c3052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 19/69] fix: top down sections know their length, so a string
 can be run to any depth

---
 welleng/architecture.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index 7995a85..7861f98 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -90,6 +90,8 @@ class String:
         for k, v in kwargs.items():
             self.sections[temp][k] = v
 
+        self.sections[temp]['length'] = self.sections[temp]['bottom'] - top
+
         # sort the dict on depth of tops
         self.sections = {
             k: v
-- 
2.43.0


From 9c192c7a6297abd8c3bd21f28e4f3d33f8589260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 20/69] fix: a node without direction has an azi_deg of None

---
 welleng/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/node.py b/welleng/node.py
index cc1c9cb..6142367 100644
--- a/welleng/node.py
+++ b/welleng/node.py
@@ -97,7 +97,7 @@ class Node:
             self.inc_rad = None
             self.inc_deg = None
             self.azi_rad = None
-            self.azi_rad = None
+            self.azi_deg = None
             return
         elif vec is None:
             assert inc is not None and azi is not None, (
-- 
2.43.0


From e95f28f82a45d6bcdd5fa2278159c2e926b04398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 21/69] fix: diesel density interpolation without the removed
 scipy interp2d

---
 welleng/fluid.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/welleng/fluid.py b/welleng/fluid.py
index b33ae53..4014b99 100644
--- a/welleng/fluid.py
+++ b/welleng/fluid.py
@@ -31,8 +31,6 @@ class DensityDiesel:
         psia = np.array([15., 3_000., 7_000., 10_000., 12_500.])
         temp = np.array([100., 200., 300., 350.])
 
-        psia_psia, temp_temp = np.meshgrid(psia, temp)
-
         rho = np.array([
             [6.9597, 7.0597, 7.1621, 7.2254, 7.2721],
             [6.6598, 6.7690, 6.8789, 6.9464, 6.9930],
@@ -40,8 +38,8 @@ class DensityDiesel:
             [6.2083, 6.3350, 6.4624, 6.5366, 6.5874]
         ])
 
-        self.density_diesel = interpolate.interp2d(
-            psia_psia, temp_temp, rho, kind='cubic'
+        self.density_diesel = interpolate.RectBivariateSpline(
+            psia, temp, rho.T
         )
 
     def get_density(self, pressure, temperature):
@@ -51,9 +49,9 @@ class DensityDiesel:
         """
         density = self.density_diesel(
             pressure, temperature
-        )
+        ).T
 
-        return density
+        return density[0] if len(density) == 1 else density
 
 class Fluid:
     def __init__(
-- 
2.43.0


From d2831793e31b0cd956835546fe7f6a3c2aa0245b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 22/69] fix: flag the original stations of an interpolated
 survey by nearest depth, not float equality

---
 welleng/survey.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index acbc7ce..065951c 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2807,9 +2807,14 @@ def interpolate_survey(survey, step=30, dls=1e-8):
         depth_unit=survey.unit
     )
 
+    # the original stations' mds may have been reproduced with a rounding
+    # error, so match each to the nearest md rather than looking for equality
+    originals = [
+        np.argmin(np.abs(survey_interpolated.md - md)) for md in survey.md
+    ]
     survey_interpolated.interpolated = [
-        False if md in survey.md else True
-        for md in survey_interpolated.md
+        False if i in originals else True
+        for i in range(len(survey_interpolated.md))
     ]
 
     i = -1
-- 
2.43.0


From fabbf3c2bf9bf7835f20770efaa1434cb6fcc674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 23/69] fix: interpolate_tvd for small doglegs and at the end
 of an interval

---
 welleng/survey.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 065951c..9b53714 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2054,26 +2054,16 @@ def interpolate_tvd(survey, tvd, **kwargs):
             * dogleg
             * np.sin(dogleg)
             / delta_md
-        ) + b
-
-        d1 = 2 * np.arctan2(
-            (
-                a + (a ** 2 + b ** 2 - c ** 2) ** 0.5
-            ),
-            (
-                b + c
-            )
         )
+
+        # the roots of (2b + c)t^2 - 2at + c = 0, where t = tan(d / 2),
+        # written such that there's no cancellation for small doglegs
+        root = (a ** 2 - c * (2 * b + c)) ** 0.5
+
+        d1 = 2 * np.arctan2(c, a + root)
         d1 = tidy_up_angle(d1)
 
-        d2 = 2 * np.arctan2(
-            (
-                a - (a ** 2 + b ** 2 - c ** 2) ** 0.5
-            ),
-            (
-                b + c
-            )
-        )
+        d2 = 2 * np.arctan2(c, a - root)
         d2 = tidy_up_angle(d2)
 
         assert d1 >= 0 or d2 >= 0
@@ -2089,7 +2079,8 @@ def interpolate_tvd(survey, tvd, **kwargs):
         if node_origin:
             x -= survey.md[idx] - node_origin.md
 
-        assert x <= delta_md
+        assert x <= delta_md or np.isclose(x, delta_md)
+        x = min(x, delta_md)
 
     interpolated_survey = _interpolate_survey(survey, x=x, index=idx)
 
-- 
2.43.0


From 8b4e4cd0132f7eec70a15d8316a8e4008d87af1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 24/69] fix: closest approach arc is in the plane of the start
 direction and the target

---
 welleng/connector.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index ff4bb2c..bd6b997 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -572,17 +572,18 @@ class Connector:
 
     def _closest_approach(self):
         vec_pos1_pos_target = self.pos_target - self.pos1
-        vec_pos1_pos_target /= np.linalg.norm(vec_pos1_pos_target)
-
-        cross_product = np.cross(vec_pos1_pos_target, self.vec1)
-        cross_product /= np.linalg.norm(cross_product)
-
-        factor = cross_product / vec_pos1_pos_target
-        factor /= abs(factor)
+        vec_pos1_pos_target = (
+            vec_pos1_pos_target / np.linalg.norm(vec_pos1_pos_target)
+        )
 
-        cc = (
-            self.pos1 + cross_product * factor * self.radius_design
+        # the center of the arc is perpendicular to vec1, towards the target
+        vec_center = (
+            vec_pos1_pos_target
+            - np.dot(vec_pos1_pos_target, self.vec1) * self.vec1
         )
+        vec_center /= np.linalg.norm(vec_center)
+
+        cc = self.pos1 + vec_center * self.radius_design
 
         cc_pos_target = self.pos_target - cc
         cc_pos_target /= np.linalg.norm(cc_pos_target)
-- 
2.43.0


From 91d7c8e571ae2df45c0e779e83c123058612f117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 25/69] fix: a target directly ahead is reached, not moved by
 up to a metre

---
 welleng/connector.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/welleng/connector.py b/welleng/connector.py
index bd6b997..41a548d 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -532,6 +532,17 @@ class Connector:
         else:
             self.method = self.initial_method
 
+        # no curve is required to reach a target that's directly ahead
+        if self.method == 'curve_hold':
+            vec_to_target = self.pos_target - self.pos1
+            with np.errstate(divide='ignore', invalid='ignore'):
+                vec_to_target = vec_to_target / np.linalg.norm(vec_to_target)
+            if np.array_equal(self.vec1, vec_to_target):
+                self.method = 'hold'
+                self.vec_target, self.inc_target, self.azi_target = (
+                    self.vec1, self.inc1, self.azi1
+                )
+
     def _get_initial_methods(self):
         # TODO: probably better to load this in from a yaml file
         # [md2, inc2, azi2, pos2, vec2] forms the booleans
@@ -697,6 +708,8 @@ class Connector:
         )
 
     def _get_pos2(self, pos1, vec1, pos_target, radius):
+        # this may be moved if it's directly ahead, but the caller's shouldn't
+        pos_target = np.array(pos_target, dtype=float)
         distances = self._get_distances(pos1, vec1, pos_target)
 
         radius_temp = get_radius_critical(
-- 
2.43.0


From 6ac9f3db09c56e01254f4e36bfeee6aa2cd8a37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:43 +0000
Subject: [PATCH 26/69] fix: connect_points with an integer or one design dls
 per point

---
 welleng/connector.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 41a548d..b0eb4be 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2405,10 +2405,9 @@ def connect_points(
         vec_nev = np.zeros_like(pos_nev)
         vec_nev[0] = get_nev(vec_start)
 
-    if type(dls_design) is float:
-        dls = np.full(len(pos_nev), dls_design)
-    else:
-        dls = np.array(dls_design).reshape(-1, 1)
+    dls = np.broadcast_to(
+        np.array(dls_design, dtype=float).reshape(-1), len(pos_nev)
+    )
 
     connections = []
     for i, (p, v, d) in enumerate(zip(pos_nev, vec_nev, dls)):
-- 
2.43.0


From 5bb6cdced0bbecd3e239ce5019a335752c83f192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 27/69] fix: a connector whose target is the direction it
 starts in no longer raises

---
 welleng/connector.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/welleng/connector.py b/welleng/connector.py
index b0eb4be..48a2a54 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -616,6 +616,11 @@ class Connector:
         )
 
         self.dogleg = check_dogleg(self.dogleg)
+        if self.dogleg == 0. and self.md_target is not None:
+            # no curve is required when already in the target direction
+            self.method = 'hold'
+            self._hold()
+            return
         if self.md_target is None:
             if not np.isfinite(self.radius_design):
                 raise ValueError(
@@ -684,6 +689,9 @@ class Connector:
 
     def _hold(self):
         if self.pos_target is None:
+            if self.md_target is None:
+                # the target is the direction that the start is already in
+                self.md_target = self.md1
             self.pos_target = (
                 self.pos1 + self.vec1 * (self.md_target - self.md1)
             )
-- 
2.43.0


From 0fd856e8c648b99dae41385d4ccab13e7cf709f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 28/69] fix: curve and hold to a target nearly directly ahead
 keeps its precision and its length

---
 welleng/connector.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 48a2a54..da2a615 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -494,7 +494,13 @@ class Connector:
             self.distances = self._get_distances(
                 self.pos1, self.vec1, self.pos_target
             )
-            if self.radius_design <= get_radius_critical(
+            (
+                _, dist_perp_to_target, dist_norm_to_target
+            ) = self.distances
+            directly_ahead = (
+                dist_norm_to_target == 0 and dist_perp_to_target > 0
+            )
+            if directly_ahead or self.radius_design <= get_radius_critical(
                 self.radius_design, self.distances, self.min_error
             ):
                 self.method = 'min_dist_to_target'
@@ -1325,11 +1331,10 @@ class Connector:
                 # wrong and need to be caught.
                 dist_perp_to_target = dist_to_target
 
-            dist_norm_to_target = (
-                (
-                    dist_to_target ** 2
-                    - dist_perp_to_target ** 2
-                ) ** 0.5
+            # not the difference of the squares, which is lost to rounding
+            # for a target that's nearly directly ahead
+            dist_norm_to_target = np.linalg.norm(
+                (pos_target - pos1) - dist_perp_to_target * vec1
             )
 
             return (
@@ -1786,8 +1791,8 @@ def solve_curve_hold_batch(pos1, vec1, pos_target, radius):
     # where the projected distance can marginally exceed the straight-line
     # distance.
     dist_perp_to_target = np.minimum(dist_perp_to_target, dist_to_target)
-    dist_norm_to_target = np.sqrt(
-        np.clip(dist_to_target ** 2 - dist_perp_to_target ** 2, 0.0, None)
+    dist_norm_to_target = np.linalg.norm(
+        delta - dist_perp_to_target[..., None] * vec1, axis=-1
     )
 
     distances = (dist_to_target, dist_perp_to_target, dist_norm_to_target)
@@ -1848,10 +1853,19 @@ def min_dist_to_target(radius, distances):
         - 2 * radius * dist_norm_to_target
     ) ** 0.5
 
-    # determine the dogleg angle of the curve section
+    # determine the dogleg angle of the curve section (for a target ahead it's
+    # the same angle without the loss of precision, which can turn the small
+    # angle to a target that's nearly directly ahead into a full circle)
+    ahead = (dist_perp_to_target > 0) & (dist_norm_to_target < radius)
     dogleg = 2 * np.arctan2(
-        (dist_perp_to_target - tangent_length),
-        (
+        np.where(
+            ahead,
+            dist_norm_to_target,
+            dist_perp_to_target - tangent_length
+        ),
+        np.where(
+            ahead,
+            dist_perp_to_target + tangent_length,
             2 * radius - dist_norm_to_target
         )
     )
-- 
2.43.0


From 4a6ad28299b9f10b086615584b7c9ee5f2ea3082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 29/69] fix: utils.py keeps its line endings

---
 welleng/utils.py | 2028 +++++++++++++++++++++++-----------------------
 1 file changed, 1014 insertions(+), 1014 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index c919b6c..5d08034 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -1,1014 +1,1014 @@
-import re
-from typing import Annotated, Literal, Union
-
-import numpy as np
-from numpy.typing import NDArray
-from scipy.spatial.transform import Rotation as R
-
-
-def get_dogleg(inc1, azi1, inc2, azi2):
-    """
-    Compute the dogleg angle between two survey stations (vectorised).
-
-    Uses the numerically stable Haversine form to avoid arccos precision loss
-    at small angles.
-
-    Parameters
-    ----------
-    inc1, azi1: float or array — inclination / azimuth at station 1 (radians)
-    inc2, azi2: float or array — inclination / azimuth at station 2 (radians)
-
-    Returns
-    -------
-    dogleg: float or array — dogleg angle in radians
-    """
-    return 2.0 * np.arcsin(np.sqrt(
-        np.sin((inc2 - inc1) / 2) ** 2
-        + np.sin(inc1) * np.sin(inc2) * np.sin((azi2 - azi1) / 2) ** 2
-    ))
-
-
-def get_rf(dogleg):
-    """
-    Compute the ratio factor (RF) for minimum curvature (vectorised).
-
-    Returns 1.0 where dogleg is 0 (limit of the function as dogleg → 0).
-
-    Parameters
-    ----------
-    dogleg: float or array — dogleg angle(s) in radians
-
-    Returns
-    -------
-    rf: float or array — ratio factor(s)
-    """
-    dogleg = np.asarray(dogleg, dtype=float)
-    with np.errstate(divide='ignore', invalid='ignore'):
-        rf = np.where(dogleg == 0.0, 1.0, 2.0 / dogleg * np.tan(dogleg / 2))
-    return float(rf) if rf.ndim == 0 else rf
-
-
-def min_curve_step(delta_md, inc1, azi1, inc2, azi2, rf=None):
-    """
-    Compute position increments using minimum curvature (vectorised).
-
-    All trigonometric values are computed once and shared across the three
-    coordinate directions for efficiency.
-
-    Parameters
-    ----------
-    delta_md: (n,) array — measured-depth increments
-    inc1, azi1: (n,) arrays — start inclination / azimuth (radians)
-    inc2, azi2: (n,) arrays — end inclination / azimuth (radians)
-    rf: (n,) array or None — ratio factors; computed if not supplied
-
-    Returns
-    -------
-    deltas: (n, 3) array — position increments in [N, E, V] order
-    """
-    if rf is None:
-        rf = get_rf(get_dogleg(inc1, azi1, inc2, azi2))
-    si1, ci1 = np.sin(inc1), np.cos(inc1)
-    si2, ci2 = np.sin(inc2), np.cos(inc2)
-    ca1, sa1 = np.cos(azi1), np.sin(azi1)
-    ca2, sa2 = np.cos(azi2), np.sin(azi2)
-    scale = delta_md * rf / 2
-    return np.stack((
-        scale * (si1 * ca1 + si2 * ca2),  # N
-        scale * (si1 * sa1 + si2 * sa2),  # E
-        scale * (ci1 + ci2),               # V
-    ), axis=-1)
-
-
-class MinCurve:
-    def __init__(
-        self,
-        md,
-        inc,
-        azi,
-        start_xyz=[0., 0., 0.],
-        unit="meters"
-    ):
-        """
-        Generate geometric data from a well bore survey.
-
-        Parameters
-        ----------
-        md: list or 1d array of floats
-            Measured depth along well path from a datum.
-        inc: list or 1d array of floats
-            Well path inclination (relative to z/tvd axis where 0
-            indicates down), in radians.
-        azi: list or 1d array of floats
-            Well path azimuth (relative to y/North axis),
-            in radians.
-        unit: str
-            Either "meters" or "feet" to determine the unit of the dogleg
-            severity.
-
-        """
-
-        assert unit == "meters" or unit == "feet", (
-            'Unknown unit, please select "meters" of "feet"'
-        )
-
-        self.md = md
-        survey_length = len(self.md)
-        assert survey_length > 1, "Survey must have at least two rows"
-
-        self.inc = inc
-        self.azi = azi
-        self.start_xyz = start_xyz
-        self.unit = unit
-
-        inc = np.array(inc)
-        azi = np.array(azi)
-        inc_1, inc_2 = inc[:-1], inc[1:]
-        azi_1, azi_2 = azi[:-1], azi[1:]
-
-        self.delta_md = np.diff(self.md, prepend=0)
-
-        self.dogleg = np.zeros(survey_length)
-        self.dogleg[1:] = get_dogleg(inc_1, azi_1, inc_2, azi_2)
-
-        self.rf = np.ones(survey_length)
-        self.rf[1:] = get_rf(self.dogleg[1:])
-
-        # compute all three coordinate deltas in a single trig pass
-        deltas = min_curve_step(
-            self.delta_md[1:], inc_1, azi_1, inc_2, azi_2, self.rf[1:]
-        )
-        self.delta_y = np.zeros(survey_length); self.delta_y[1:] = deltas[:, 0]
-        self.delta_x = np.zeros(survey_length); self.delta_x[1:] = deltas[:, 1]
-        self.delta_z = np.zeros(survey_length); self.delta_z[1:] = deltas[:, 2]
-
-        # calculate the dog leg severity
-        coeff = 30 if unit == "meters" else 100
-        self.dls = np.zeros(survey_length)
-        with np.errstate(divide='ignore', invalid='ignore'):
-            raw = np.degrees(self.dogleg[1:]) / self.delta_md[1:]
-        self.dls[1:] = np.where(np.isnan(raw), 0.0, raw) * coeff
-
-        # cumulate the coordinates and add surface coordinates
-        self.poss = np.vstack(
-            np.cumsum(
-                np.array([self.delta_x, self.delta_y, self.delta_z]).T, axis=0
-            ) + self.start_xyz
-        )
-
-
-def get_vec(inc, azi, nev=False, r=1, deg=True):
-    """
-    Convert inc and azi into a vector.
-
-    Parameters
-    ----------
-    inc: array of n floats
-        Inclination relative to the z-axis (up)
-    azi: array of n floats
-        Azimuth relative to the y-axis
-    r: float or array of n floats
-        Scalar to return a scaled vector
-
-    Returns
-    -------
-    vec: arraylike
-        An (n,3) array of vectors
-    """
-    if deg:
-        inc_rad, azi_rad = np.radians(np.array([inc, azi]))
-    else:
-        inc_rad = inc
-        azi_rad = azi
-    y = r * np.sin(inc_rad) * np.cos(azi_rad)
-    x = r * np.sin(inc_rad) * np.sin(azi_rad)
-    z = r * np.cos(inc_rad)
-
-    if nev:
-        vec = np.column_stack([y, x, z])
-    else:
-        vec = np.column_stack([x, y, z])
-
-    return vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
-
-
-def get_nev(
-    pos, start_xyz=np.array([0., 0., 0.]), start_nev=np.array([0., 0., 0.])
-):
-    """
-    Convert [x, y, z] coordinates to [n, e, tvd] coordinates.
-
-    Parameters
-    ----------
-    pos: (n,3) array of floats
-        Array of [x, y, z] coordinates
-    start_xyz: (,3) array of floats
-        The datum of the [x, y, z] cooardinates
-    start_nev: (,3) array of floats
-        The datum of the [n, e, tvd] coordinates
-
-    Returns
-    -------
-        An (n,3) array of [n, e, tvd] coordinates.
-    """
-    # e, n, v = (
-    #     np.array([pos]).reshape(-1,3) - np.array([start_xyz])
-    # ).T
-    e, n, v = (
-        np.array([pos]).reshape(-1, 3) - np.array([start_xyz])
-    ).T
-
-    return np.column_stack([n, e, v]) + np.array([start_nev])
-
-
-def get_xyz(pos, start_xyz=[0., 0., 0.], start_nev=[0., 0., 0.]):
-    y, x, z = (
-        np.array([pos]).reshape(-1, 3) - np.array([start_nev])
-    ).T
-
-    return np.column_stack([x, y, z]) + np.array([start_xyz])
-
-
-def _get_angles(vec):
-    xy = vec[:, 0] ** 2 + vec[:, 1] ** 2
-    inc = np.arctan2(np.sqrt(xy), vec[:, 2])  # for elevation angle defined from Z-axis down
-    azi = (np.arctan2(vec[:, 0], vec[:, 1]) + (2 * np.pi)) % (2 * np.pi)
-
-    return np.stack((inc, azi), axis=1)
-
-
-def get_angles(
-    vec: Annotated[NDArray, Literal["N", 3]], nev: bool = False
-):
-    '''
-    Determines the inclination and azimuth from a vector.
-
-    Parameters
-    ----------
-    vec: (n,3) array of floats
-    nev: boolean (default: False)
-        Indicates if the vector is in (x,y,z) or (n,e,v) coordinates.
-
-    Returns
-    -------
-    [inc, azi]: (n,2) array of floats
-        A numpy array of incs and axis in radians
-
-    '''
-    # make sure it's a unit vector
-    vec = vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
-    vec = vec.reshape(-1, 3)
-
-    # if it's nev then need to do the shuffle
-    if nev:
-        y, x, z = vec.T
-        vec = np.column_stack([x, y, z])
-
-    return _get_angles(vec)
-
-
-def _get_transform(inc, azi):
-    ci, si = np.cos(inc), np.sin(inc)
-    ca, sa = np.cos(azi), np.sin(azi)
-    z = np.zeros_like(inc)
-    trans = np.stack([
-        np.stack([ci * ca,  ci * sa, -si], axis=-1),
-        np.stack([-sa,       ca,      z  ], axis=-1),
-        np.stack([si * ca,  si * sa,  ci ], axis=-1),
-    ], axis=1)
-
-    return trans
-
-
-def get_transform(
-    survey
-):
-    """
-    Determine the transform for transforming between NEV and HLA coordinate
-    systems.
-
-    Parameters
-    ----------
-    survey: (n,3) array of floats
-        The [md, inc, azi] survey listing array.
-
-    Returns
-    -------
-    transform: (n,3,3) array of floats
-    """
-    survey = survey.reshape(-1, 3)
-    inc = np.array(survey[:, 1])
-    azi = np.array(survey[:, 2])
-
-    return _get_transform(inc, azi)
-
-
-def NEV_to_HLA(
-    survey: Annotated[NDArray, Literal["N", 3]],
-    NEV: Union[
-        Annotated[NDArray, Literal["N", 3]],
-        Annotated[NDArray, Literal["N", 3, 3]]
-    ],
-    cov: bool = True
-) -> Union[
-        Annotated[NDArray, Literal['N, 3']],
-        Annotated[NDArray, Literal['N, 3, 3']]
-]:
-    """
-    Transform from NEV to HLA coordinate system.
-
-    Parameters
-    ----------
-    survey: (n,3) array of floats
-        The [md, inc, azi] survey listing array.
-    NEV: (n,3) or (n,3,3) array of floats
-        The NEV coordinates or covariance matrices.
-    cov: boolean
-        If cov is True then a (n,3,3) array of covariance matrices
-        is expected, else a (n,3) array of coordinates.
-
-    Returns
-    -------
-    HLAs: NDArray
-        Either a transformed (n,3) array of HLA coordinates or an
-        (n,3,3) array of HLA covariance matrices.
-    """
-
-    trans = get_transform(survey)
-
-    if cov:
-        # HLA_cov = trans @ NEV_cov @ trans.T  (batched over n stations)
-        return trans @ NEV @ trans.swapaxes(-1, -2)
-
-    else:
-        NEV = NEV.reshape(-1, 3)
-        return np.einsum('...k,...jk', NEV, trans)
-
-
-def HLA_to_NEV(survey, HLA, cov=True, trans=None):
-    if trans is None:
-        trans = get_transform(survey)
-
-    if cov:
-        # NEV_cov = trans.T @ HLA_cov @ trans  (batched over n stations)
-        return trans.swapaxes(-1, -2) @ HLA @ trans
-
-    else:
-        shape = HLA.shape
-        return (HLA.reshape(shape[0], -1, 3) @ trans).reshape(shape)
-
-
-def get_sigmas(cov, long=False):
-    """
-    Extracts the sigma values of a covariance matrix along the principle axii.
-
-    Parameters
-    ----------
-    cov: (n,3,3) array of floats
-
-    Returns
-    -------
-    arr: (n,3) array of floats
-    """
-
-    assert cov.shape[-2:] == (3, 3), "Cov is the wrong shape"
-
-    cov = cov.reshape(-1, 3, 3)
-
-    aa, ab, ac = cov[:, :, 0].T
-    ab, bb, bc = cov[:, :, 1].T
-    ac, bc, cc = cov[:, :, 2].T
-
-    if long:
-        return (aa, bb, cc, ab, ac, bc)
-    else:
-        return (np.sqrt(aa), np.sqrt(bb), np.sqrt(cc))
-
-
-def get_unit_vec(vec):
-    vec = vec / np.linalg.norm(vec)
-
-    return vec
-
-
-def linear_convert(data, factor):
-    flag = False
-    if not isinstance(data, list):
-        flag = True
-        data = [data]
-    converted = [d * factor if d is not None else None for d in data]
-    if flag:
-        return converted[0]
-    else:
-        return converted
-
-
-def make_cov(a, b, c, long=False):
-    # a, b, c = np.sqrt(np.array([a, b, c]))
-    if long:
-        cov = np.array([
-            [a * a, a * b, a * c],
-            [a * b, b * b, b * c],
-            [a * c, b * c, c * c]
-        ])
-
-    else:
-        cov = np.array([
-            [a * a, np.zeros_like(a), np.zeros_like(a)],
-            [np.zeros_like(a), b * b, np.zeros_like(a)],
-            [np.zeros_like(a), np.zeros_like(a), c * c]
-        ])
-
-    return cov.T
-
-
-def make_long_cov(arr):
-    """
-    Build a (n, 3, 3) covariance matrix from the 6 unique upper-triangle
-    elements per station.
-
-    Parameters
-    ----------
-    arr: (n, 6) array — columns [aa, ab, ac, bb, bc, cc]
-
-    Returns
-    -------
-    cov: (n, 3, 3) array
-    """
-    aa, ab, ac, bb, bc, cc = np.array(arr).T
-    return np.stack([
-        np.stack([aa, ab, ac], axis=-1),
-        np.stack([ab, bb, bc], axis=-1),
-        np.stack([ac, bc, cc], axis=-1),
-    ], axis=1)
-
-
-def dls_from_radius(radius):
-    """
-    Returns the dls in degrees from a radius.
-    """
-    if isinstance(radius, np.ndarray):
-        circumference = np.full_like(radius, np.inf)
-        circumference = np.where(
-            radius != 0,
-            2 * np.pi * radius,
-            circumference
-        )
-    else:
-        if radius == 0:
-            return np.inf
-        circumference = 2 * np.pi * radius
-    dls = 360 / circumference * 30
-
-    return dls
-
-
-def radius_from_dls(dls):
-    """
-    Returns the radius in meters from a DLS in deg/30m.
-    """
-    if isinstance(dls, np.ndarray):
-        circumference = np.full_like(dls, np.inf)
-        circumference = np.where(
-            dls != 0,
-            (30 / dls) * 360,
-            circumference
-        )
-    else:
-        if dls == 0:
-            return np.inf
-        circumference = (30 / dls) * 360
-    radius = circumference / (2 * np.pi)
-
-    return radius
-
-
-def cov_from_vec(arr):
-    """
-    Returns a (n, 3, 3) covariance matrix from an (n, 3) array via outer product.
-
-    Parameters
-    ----------
-    arr: (n, 3) array
-        Array of vector components.
-
-    Returns
-    -------
-    (n, 3, 3) array
-    """
-    arr = np.array(arr)
-    return arr[:, :, None] * arr[:, None, :]
-
-
-def errors_from_cov(cov, data=False):
-    """
-    Parameters
-    ----------
-    cov: (n, 3, 3) array
-        The error covariance matrices.
-    data: bool (default: False)
-        If True returns a dictionary, else returns a list.
-    """
-    nn, ne, nv, _, ee, ev, _, _, vv = (
-        cov.reshape(-1, 9).T
-    )
-
-    if data:
-        return {
-            i: {
-                'nn': _nn, 'ne': _ne, 'nv': _nv,
-                'ee': _ee, 'ev': _ev, 'vv': _vv
-            }
-            for i, (_nn, _ne, _nv, _ee, _ev, _vv)
-            in enumerate(zip(nn, ne, nv, ee, ev, vv))
-        }
-
-    return np.array([nn, ne, nv, ee, ev, vv]).T
-
-
-def _get_arc_pos_and_vec(dogleg, radius):
-    pos = np.array([
-        np.cos(dogleg),
-        0.,
-        np.sin(dogleg)
-    ]) * radius
-    pos[0] = radius - pos[0]
-
-    vec = np.array([
-        np.sin(dogleg),
-        0.,
-        np.cos(dogleg)
-    ])
-    return (pos, vec)
-
-
-class Arc:
-    def __init__(self, dogleg, radius):
-        """
-        Generates a generic arc that can be transformed with a specific pos
-        and vec via a transform method. The arc is initialized at a local
-        origin and kicks off down and to the north (assuming an NEV coordinate
-        system).
-
-        Parameters
-        ----------
-        dogleg: float
-            The sweep angle of the arc in radians.
-        radius: float
-            The radius of the arc in meters.
-
-        Returns
-        -------
-        arc: Arc object
-        """
-        self.dogleg = dogleg
-        self.radius = radius
-        self.delta_md = dogleg * radius
-
-        self.pos, self.vec = _get_arc_pos_and_vec(dogleg, radius)
-
-
-    def transform(self, toolface, pos=None, vec=None, target=False):
-        """
-        Transforms an Arc to a position and orientation.
-
-        Parameters
-        ----------
-        pos: (,3) array
-        The desired position to transform the arc.
-        vec: (,3) array
-            The orientation unit vector to transform the arc.
-        target: bool
-            If true, returned arc vector is reversed.
-
-        Returns
-        -------
-        tuple (pos_new, vec_new)
-        pos_new: (,3) array
-            The position at the end of the arc post transform.
-        vec_new: (,3) array
-            The unit vector at the end of the arc post transform.
-        """
-        if vec is None:
-            vec = np.array([0., 0., 1.])
-        if target:
-            vec = -np.asarray(vec)
-        inc, azi = get_angles(vec, nev=True).reshape(2)
-        angles = [
-            toolface,
-            inc,
-            azi
-        ]
-        r = R.from_euler('zyz', angles, degrees=False)
-
-        pos_new, vec_new = r.apply(np.vstack((self.pos, self.vec)))
-
-        # make sure vec_new is a unit vector:
-        vec_new = get_unit_vec(vec_new)
-
-        if pos is not None:
-            pos_new += pos
-        if target:
-            vec_new *= -1
-
-        return (pos_new, vec_new)
-
-
-def get_arc(
-    dogleg, radius, toolface, pos=None, vec=None, target=False
-) -> tuple:
-    """Creates an Arc instance and transforms it to the desired position
-    and orientation.
-
-    Parameters
-    ----------
-    dogleg: float
-        The swept angle of the arc (arc angle) in radians.
-    radius: float
-        The radius of the arc (in meters).
-    toolface: float
-        The toolface angle in radians (relative to the high side) to rotate the
-        arc at the desired position and orientation.
-    pos: (,3) array
-        The desired position to transform the arc.
-    vec: (,3) array
-        The orientation unit vector to transform the arc.
-    target: bool
-        If true, returned arc vector is reversed.
-
-    Returns
-    -------
-    tuple of (pos_new, vec_new, arc.delta_md)
-    pos_new: (,3) array
-        The position at the end of the arc post transform.
-    vec_new: (,3) array
-        The unit vector at the end of the arc post transform.
-    arc.delta_md: int
-        The arc length of the arc.
-    """
-    arc = Arc(dogleg, radius)
-    pos_new, vec_new = arc.transform(toolface, pos, vec, target)
-
-    return (pos_new, vec_new, arc.delta_md)
-
-
-def annular_volume(od: float, id: float = None, length: float = None):
-    """
-    Calculate an annular volume.
-
-    If no ``id`` is provided then circular volume is calculated. If no
-    ``length`` is provided, then the unit volume is calculated (i.e. the
-    area).
-
-    Units are assumed consistent across input parameters, i.e. the
-    calculation is dimensionless.
-
-    Parameters
-    ----------
-    od: float
-        The outer diameter.
-    id: float | None, optional
-        The inner diameter, default is 0.
-    length : float | None, optional
-        The length of the annulus.
-
-    Returns
-    -------
-    annular_volume: float
-        The (unit) volume of the annulus or cylinder.
-
-    Examples
-    --------
-    In the following example we calculate annular volume along a 1,000 meter
-    section length of 9 5/8" casing inside 12 1/4" hole.
-
-    >>> from welleng.utils import annular_volume
-    >>> from welleng.units import ureg
-    >>> av = annular_volume(
-    ...     od=ureg('12.25 inch').to('meters),
-    ...     id=ureg(f'{9+5/8} inch').to('meter'),
-    ...     length=ureg('1000 meter')
-    ... )
-    >>> print(av)
-    29.096093526301622 meter ** 3
-    """
-    length = 1 if length is None else length
-    id = 0 if id is None else id
-    annular_unit_volume = (np.pi * (od**2 - id**2)) / 4
-    annular_volume = annular_unit_volume * length
-
-    return annular_volume
-
-
-def _decimal2dms(decimal: tuple, ndigits: int = None) -> tuple:
-    try:
-        _decimal, direction = decimal
-    except (TypeError, ValueError):
-        _decimal = decimal[0] if isinstance(decimal, np.ndarray) else decimal
-        direction = None
-    _decimal = float(_decimal)
-    minutes, seconds = divmod(abs(_decimal) * 3600, 60)
-    _, minutes = divmod(minutes, 60)
-    degrees = int(_decimal)
-    if degrees == 0 and _decimal < 0:
-        degrees = -0.0  # carries the sign
-
-    return np.array([
-        degrees,
-        int(minutes),
-        seconds if ndigits is None else round(seconds, ndigits)
-    ]) if direction is None else np.array([
-        degrees,
-        int(minutes),
-        seconds if ndigits is None else round(seconds, ndigits),
-        direction
-    ], dtype=object)
-
-
-def decimal2dms(decimal: tuple | NDArray, ndigits: int = None) -> tuple | NDArray:
-    """Converts a decimal lat, lon to degrees, minutes and seconds.
-
-    Parameters
-    ----------
-    decimal : tuple | arraylike
-        A tuple of (lat, direction) or (lon, direction) or arraylike of
-        ((lat, direction), (lon, direction)) coordinates.
-    ndigits: int (default is None)
-        If specified, rounds the seconds decimal to the desired number of
-        digits.
-
-    Returns
-    -------
-    dms: arraylike
-        An array of (degrees, minutes, seconds, direction).
-
-    Examples
-    --------
-    If you want to convert the lat/lon coordinates for Den Haag from decimals
-    to degrees, minutes and seconds:
-
-    >>> LAT, LON = [(52.078663, 'N'), (4.288788, 'E')]
-    >>> dms = decimal2dms((LAT, LON), ndigits=6)
-    >>> print(dms)
-    [[52 4 43.1868 'N']
-     [4 17 19.6368 'E']]
-    """
-    flag = False
-    _decimal = np.array(decimal)
-    if _decimal.dtype == np.float64:
-        _decimal = _decimal.reshape((-1, 1))
-        flag = True
-    try:
-        dms = np.apply_along_axis(_decimal2dms, -1, _decimal, ndigits)
-    except np.exceptions.AxisError:
-        dms = _decimal2dms(_decimal, ndigits)
-
-    if dms.shape == (4,):
-        return tuple(dms)
-    else:
-        return dms.reshape((-1, 3)) if flag else dms
-
-
-def _dms2decimal(dms: NDArray, ndigits: int = None) -> NDArray:
-    try:
-        degrees, minutes, seconds, direction = dms
-    except ValueError:
-        degrees, minutes, seconds = dms
-        direction = None
-
-    decimal = abs(degrees) + minutes / 60 + seconds / 3600
-
-    return np.array([
-        np.copysign(
-            decimal if ndigits is None else round(decimal, ndigits),
-            degrees
-        )
-    ]) if direction is None else np.array([
-        np.copysign(
-            decimal if ndigits is None else round(decimal, ndigits),
-            degrees
-        ),
-        direction
-    ], dtype=object)
-
-
-def dms2decimal(dms: tuple | NDArray, ndigits: int = None) -> NDArray:
-    """Converts a degrees, minutes and seconds lat, lon to decimals.
-
-    Parameters
-    ----------
-    dms : tuple | arraylike
-        A tuple or arraylike of (degrees, minutes, seconds, direction) lat
-        and/or lon or arraylike of lat, lon coordinates.
-    ndigits: int (default is None)
-        If specified, rounds the decimal to the desired number of digits.
-
-    Returns
-    -------
-    degrees: arraylike
-        A tuple or array of lats and/or longs in decimals.
-
-    Examples
-    --------
-    If you want to convert the lat/lon coordinates for Den Haag from degrees,
-    minutes and seconds to decimals:
-
-    >>> LAT, LON = (52, 4, 43.1868, 'N'), (4, 17, 19.6368, 'E')
-    >>> decimal = dms2decimal((LAT, LON), ndigits=6)
-    >>> print(decimal)
-    [[52.078663 'N']
-     [4.288788 'E']]
-    """
-    result = np.apply_along_axis(
-        _dms2decimal, -1, np.array(dms, dtype=object), ndigits
-    )
-
-    if result.shape == ():
-        return float(result)
-    elif result.shape == (1,):
-        return float(result[0])
-    elif result.shape[-1] == 1:
-        return result.reshape(-1)
-    else:
-        return result
-
-
-def pprint_dms(dms, symbols: bool = True, return_data: bool = False):
-    """Pretty prints a (decimal, minutes, seconds) tuple or list.
-
-    Parameters
-    ----------
-    dms: tuple | list
-        An x or y or northing or easting (degree, minute, second).
-    symbols: bool (default: True)
-        Whether to print symbols for (deg, min, sec).
-    return_data: bool (default: False)
-        If True then will return the string rather than print it.
-    """
-    if symbols:
-        try:
-            deg, min, sec = dms
-            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\""
-        except ValueError:
-            deg, min, sec, _ = dms
-            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\" {_}"
-
-    else:
-        try:
-            deg, min, sec = dms
-            text = f"{deg} deg, {min} min, {sec} sec"
-        except ValueError:
-            deg, min, sec, _ = dms
-            text = f"{deg} deg, {min} min, {sec} sec {_}"
-
-    if return_data:
-        return text
-    else:
-        print(text)
-
-
-def dms_from_string(text):
-    """Extracts the values from a string dms x or y or northing or easting.
-    """
-    pattern = re.compile(r'(\d+)\s*(?:°|deg)?,\s*(\d+)\s*(?:\'|min)?,\s*(\d+(?:\.\d+)?)\s*(sec)?\s*.*?(\S+)?$', re.IGNORECASE)
-    matches = pattern.findall(text)
-
-    if matches:
-        deg, min, sec_str = matches[0][:3]
-        sec = float(sec_str)
-        final_data = matches[0][-1] if matches[0][-1] else None
-
-        if final_data:
-            return (int(deg), int(min), sec, final_data)
-        else:
-            return (int(deg), int(min), sec)
-
-    else:
-        return
-
-
-def make_clc_path(
-    toolface1, dogleg1, distance, toolface2, dogleg2,
-    pos0=None, vec0=None, radius=1.0
-):
-    """Generate a curve-hold-curve (CLC) path from arc parameters.
-
-    Builds the path in three steps: first arc, straight hold, second arc.
-    Useful for constructing known-geometry test cases and for quickly
-    prototyping CLC trajectories.
-
-    Parameters
-    ----------
-    toolface1: float
-        Toolface angle for the first curve in radians.
-    dogleg1: float
-        Sweep angle (dogleg) for the first curve in radians.
-    distance: float
-        Length of the straight hold section (same units as radius).
-    toolface2: float
-        Toolface angle for the second curve in radians.
-    dogleg2: float
-        Sweep angle (dogleg) for the second curve in radians.
-    pos0: (3,) array-like, optional
-        Start position [N, E, V]. Defaults to [0, 0, 0].
-    vec0: (3,) array-like, optional
-        Start direction unit vector. Defaults to [0, 0, 1] (pointing down).
-    radius: float, optional
-        Arc radius for both curves. Defaults to 1.0.
-
-    Returns
-    -------
-    dict with keys:
-        pos1, vec1  – end of first arc
-        dist_curve1 – arc length of first curve
-        pos2, vec2  – end of hold section / start of second arc
-        pos3, vec3  – end of second arc
-        dist_curve2 – arc length of second curve
-    """
-    pos0 = np.array([0., 0., 0.]) if pos0 is None else np.asarray(pos0, dtype=float)
-    vec0 = np.array([0., 0., 1.]) if vec0 is None else np.asarray(vec0, dtype=float)
-
-    pos1, vec1, dist_curve1 = get_arc(dogleg1, radius, toolface1, pos=pos0, vec=vec0)
-    pos2 = pos1 + vec1 * distance
-    vec2 = vec1.copy()
-    pos3, vec3, dist_curve2 = get_arc(dogleg2, radius, toolface2, pos=pos2, vec=vec2)
-
-    return dict(
-        pos1=pos1, vec1=vec1, dist_curve1=dist_curve1,
-        pos2=pos2, vec2=vec2,
-        pos3=pos3, vec3=vec3, dist_curve2=dist_curve2,
-    )
-
-
-def get_toolface(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> NDArray:
-    """Returns the toolface(s) of offset position(s) relative to reference
-    positions and vectors.  Accepts either single (3,) arrays or batches of
-    (n, 3) arrays; all three arguments must have the same leading dimension.
-
-    Parameters
-    ----------
-    pos1: ndarray, shape (3,) or (n, 3)
-        The reference NEV coordinate(s), e.g. current location.
-    vec1: ndarray, shape (3,) or (n, 3)
-        The reference NEV unit vector(s), e.g. current direction.
-    pos2: ndarray, shape (3,) or (n, 3)
-        The offset NEV coordinate(s), e.g. a target position.
-
-    Returns
-    -------
-    toolface: float or ndarray
-        The toolface(s) in radians [0, 2π) to pos2 from pos1 along vec1.
-        Returns a scalar float when single (3,) inputs are given.
-    """
-    pos1 = np.atleast_2d(pos1)
-    vec1 = np.atleast_2d(vec1)
-    pos2 = np.atleast_2d(pos2)
-
-    angles = np.flip(get_angles(vec1, nev=True), axis=1)
-    r = R.from_euler('zy', angles * -1, degrees=False)
-    pos = r.apply(pos2 - pos1)
-    result = np.arctan2(*np.flip(pos[:, :-1], axis=1).T) % (2 * np.pi)
-    return float(result[0]) if result.size == 1 else result
-
-
-def get_toolface_fast(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> float:
-    """Returns the toolface of a single offset position using a direct
-    closed-form expression — approximately 12× faster than ``get_toolface``
-    for scalar inputs.
-
-    Suitable when pos1, vec1 and pos2 are all individual (3,) arrays.
-    For batch use, prefer the vectorised ``get_toolface``.
-
-    Parameters
-    ----------
-    pos1: array-like, shape (3,)
-        The reference NEV coordinate, e.g. current location.
-    vec1: array-like, shape (3,)
-        The reference NEV unit vector, e.g. current direction.
-    pos2: array-like, shape (3,)
-        The offset NEV coordinate, e.g. a target position.
-
-    Returns
-    -------
-    toolface: float
-        The toolface in radians [0, 2π) to pos2 from pos1 along vec1.
-    """
-    n1, e1, v1 = pos1
-    n2, e2, v2 = pos2
-    vn1, ve1, vv1 = vec1
-
-    azimuth_vec1 = np.arctan2(ve1, vn1) % (2 * np.pi)
-    cos_azi = np.cos(azimuth_vec1)
-    sin_azi = np.sin(azimuth_vec1)
-
-    numerator = (e2 - e1) * cos_azi + (n1 - n2) * sin_azi
-    horiz_mag = np.sqrt(ve1 ** 2 + vn1 ** 2)
-    denominator = (
-        vv1 * (e2 - e1) * sin_azi
-        + vv1 * (n2 - n1) * cos_azi
-        + (v1 - v2) * horiz_mag
-    ) / np.sqrt(ve1 ** 2 + vn1 ** 2 + vv1 ** 2)
-
-    return np.arctan2(numerator, denominator) % (2 * np.pi)
-
-
+import re
+from typing import Annotated, Literal, Union
+
+import numpy as np
+from numpy.typing import NDArray
+from scipy.spatial.transform import Rotation as R
+
+
+def get_dogleg(inc1, azi1, inc2, azi2):
+    """
+    Compute the dogleg angle between two survey stations (vectorised).
+
+    Uses the numerically stable Haversine form to avoid arccos precision loss
+    at small angles.
+
+    Parameters
+    ----------
+    inc1, azi1: float or array — inclination / azimuth at station 1 (radians)
+    inc2, azi2: float or array — inclination / azimuth at station 2 (radians)
+
+    Returns
+    -------
+    dogleg: float or array — dogleg angle in radians
+    """
+    return 2.0 * np.arcsin(np.sqrt(
+        np.sin((inc2 - inc1) / 2) ** 2
+        + np.sin(inc1) * np.sin(inc2) * np.sin((azi2 - azi1) / 2) ** 2
+    ))
+
+
+def get_rf(dogleg):
+    """
+    Compute the ratio factor (RF) for minimum curvature (vectorised).
+
+    Returns 1.0 where dogleg is 0 (limit of the function as dogleg → 0).
+
+    Parameters
+    ----------
+    dogleg: float or array — dogleg angle(s) in radians
+
+    Returns
+    -------
+    rf: float or array — ratio factor(s)
+    """
+    dogleg = np.asarray(dogleg, dtype=float)
+    with np.errstate(divide='ignore', invalid='ignore'):
+        rf = np.where(dogleg == 0.0, 1.0, 2.0 / dogleg * np.tan(dogleg / 2))
+    return float(rf) if rf.ndim == 0 else rf
+
+
+def min_curve_step(delta_md, inc1, azi1, inc2, azi2, rf=None):
+    """
+    Compute position increments using minimum curvature (vectorised).
+
+    All trigonometric values are computed once and shared across the three
+    coordinate directions for efficiency.
+
+    Parameters
+    ----------
+    delta_md: (n,) array — measured-depth increments
+    inc1, azi1: (n,) arrays — start inclination / azimuth (radians)
+    inc2, azi2: (n,) arrays — end inclination / azimuth (radians)
+    rf: (n,) array or None — ratio factors; computed if not supplied
+
+    Returns
+    -------
+    deltas: (n, 3) array — position increments in [N, E, V] order
+    """
+    if rf is None:
+        rf = get_rf(get_dogleg(inc1, azi1, inc2, azi2))
+    si1, ci1 = np.sin(inc1), np.cos(inc1)
+    si2, ci2 = np.sin(inc2), np.cos(inc2)
+    ca1, sa1 = np.cos(azi1), np.sin(azi1)
+    ca2, sa2 = np.cos(azi2), np.sin(azi2)
+    scale = delta_md * rf / 2
+    return np.stack((
+        scale * (si1 * ca1 + si2 * ca2),  # N
+        scale * (si1 * sa1 + si2 * sa2),  # E
+        scale * (ci1 + ci2),               # V
+    ), axis=-1)
+
+
+class MinCurve:
+    def __init__(
+        self,
+        md,
+        inc,
+        azi,
+        start_xyz=[0., 0., 0.],
+        unit="meters"
+    ):
+        """
+        Generate geometric data from a well bore survey.
+
+        Parameters
+        ----------
+        md: list or 1d array of floats
+            Measured depth along well path from a datum.
+        inc: list or 1d array of floats
+            Well path inclination (relative to z/tvd axis where 0
+            indicates down), in radians.
+        azi: list or 1d array of floats
+            Well path azimuth (relative to y/North axis),
+            in radians.
+        unit: str
+            Either "meters" or "feet" to determine the unit of the dogleg
+            severity.
+
+        """
+
+        assert unit == "meters" or unit == "feet", (
+            'Unknown unit, please select "meters" of "feet"'
+        )
+
+        self.md = md
+        survey_length = len(self.md)
+        assert survey_length > 1, "Survey must have at least two rows"
+
+        self.inc = inc
+        self.azi = azi
+        self.start_xyz = start_xyz
+        self.unit = unit
+
+        inc = np.array(inc)
+        azi = np.array(azi)
+        inc_1, inc_2 = inc[:-1], inc[1:]
+        azi_1, azi_2 = azi[:-1], azi[1:]
+
+        self.delta_md = np.diff(self.md, prepend=0)
+
+        self.dogleg = np.zeros(survey_length)
+        self.dogleg[1:] = get_dogleg(inc_1, azi_1, inc_2, azi_2)
+
+        self.rf = np.ones(survey_length)
+        self.rf[1:] = get_rf(self.dogleg[1:])
+
+        # compute all three coordinate deltas in a single trig pass
+        deltas = min_curve_step(
+            self.delta_md[1:], inc_1, azi_1, inc_2, azi_2, self.rf[1:]
+        )
+        self.delta_y = np.zeros(survey_length); self.delta_y[1:] = deltas[:, 0]
+        self.delta_x = np.zeros(survey_length); self.delta_x[1:] = deltas[:, 1]
+        self.delta_z = np.zeros(survey_length); self.delta_z[1:] = deltas[:, 2]
+
+        # calculate the dog leg severity
+        coeff = 30 if unit == "meters" else 100
+        self.dls = np.zeros(survey_length)
+        with np.errstate(divide='ignore', invalid='ignore'):
+            raw = np.degrees(self.dogleg[1:]) / self.delta_md[1:]
+        self.dls[1:] = np.where(np.isnan(raw), 0.0, raw) * coeff
+
+        # cumulate the coordinates and add surface coordinates
+        self.poss = np.vstack(
+            np.cumsum(
+                np.array([self.delta_x, self.delta_y, self.delta_z]).T, axis=0
+            ) + self.start_xyz
+        )
+
+
+def get_vec(inc, azi, nev=False, r=1, deg=True):
+    """
+    Convert inc and azi into a vector.
+
+    Parameters
+    ----------
+    inc: array of n floats
+        Inclination relative to the z-axis (up)
+    azi: array of n floats
+        Azimuth relative to the y-axis
+    r: float or array of n floats
+        Scalar to return a scaled vector
+
+    Returns
+    -------
+    vec: arraylike
+        An (n,3) array of vectors
+    """
+    if deg:
+        inc_rad, azi_rad = np.radians(np.array([inc, azi]))
+    else:
+        inc_rad = inc
+        azi_rad = azi
+    y = r * np.sin(inc_rad) * np.cos(azi_rad)
+    x = r * np.sin(inc_rad) * np.sin(azi_rad)
+    z = r * np.cos(inc_rad)
+
+    if nev:
+        vec = np.column_stack([y, x, z])
+    else:
+        vec = np.column_stack([x, y, z])
+
+    return vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
+
+
+def get_nev(
+    pos, start_xyz=np.array([0., 0., 0.]), start_nev=np.array([0., 0., 0.])
+):
+    """
+    Convert [x, y, z] coordinates to [n, e, tvd] coordinates.
+
+    Parameters
+    ----------
+    pos: (n,3) array of floats
+        Array of [x, y, z] coordinates
+    start_xyz: (,3) array of floats
+        The datum of the [x, y, z] cooardinates
+    start_nev: (,3) array of floats
+        The datum of the [n, e, tvd] coordinates
+
+    Returns
+    -------
+        An (n,3) array of [n, e, tvd] coordinates.
+    """
+    # e, n, v = (
+    #     np.array([pos]).reshape(-1,3) - np.array([start_xyz])
+    # ).T
+    e, n, v = (
+        np.array([pos]).reshape(-1, 3) - np.array([start_xyz])
+    ).T
+
+    return np.column_stack([n, e, v]) + np.array([start_nev])
+
+
+def get_xyz(pos, start_xyz=[0., 0., 0.], start_nev=[0., 0., 0.]):
+    y, x, z = (
+        np.array([pos]).reshape(-1, 3) - np.array([start_nev])
+    ).T
+
+    return np.column_stack([x, y, z]) + np.array([start_xyz])
+
+
+def _get_angles(vec):
+    xy = vec[:, 0] ** 2 + vec[:, 1] ** 2
+    inc = np.arctan2(np.sqrt(xy), vec[:, 2])  # for elevation angle defined from Z-axis down
+    azi = (np.arctan2(vec[:, 0], vec[:, 1]) + (2 * np.pi)) % (2 * np.pi)
+
+    return np.stack((inc, azi), axis=1)
+
+
+def get_angles(
+    vec: Annotated[NDArray, Literal["N", 3]], nev: bool = False
+):
+    '''
+    Determines the inclination and azimuth from a vector.
+
+    Parameters
+    ----------
+    vec: (n,3) array of floats
+    nev: boolean (default: False)
+        Indicates if the vector is in (x,y,z) or (n,e,v) coordinates.
+
+    Returns
+    -------
+    [inc, azi]: (n,2) array of floats
+        A numpy array of incs and axis in radians
+
+    '''
+    # make sure it's a unit vector
+    vec = vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
+    vec = vec.reshape(-1, 3)
+
+    # if it's nev then need to do the shuffle
+    if nev:
+        y, x, z = vec.T
+        vec = np.column_stack([x, y, z])
+
+    return _get_angles(vec)
+
+
+def _get_transform(inc, azi):
+    ci, si = np.cos(inc), np.sin(inc)
+    ca, sa = np.cos(azi), np.sin(azi)
+    z = np.zeros_like(inc)
+    trans = np.stack([
+        np.stack([ci * ca,  ci * sa, -si], axis=-1),
+        np.stack([-sa,       ca,      z  ], axis=-1),
+        np.stack([si * ca,  si * sa,  ci ], axis=-1),
+    ], axis=1)
+
+    return trans
+
+
+def get_transform(
+    survey
+):
+    """
+    Determine the transform for transforming between NEV and HLA coordinate
+    systems.
+
+    Parameters
+    ----------
+    survey: (n,3) array of floats
+        The [md, inc, azi] survey listing array.
+
+    Returns
+    -------
+    transform: (n,3,3) array of floats
+    """
+    survey = survey.reshape(-1, 3)
+    inc = np.array(survey[:, 1])
+    azi = np.array(survey[:, 2])
+
+    return _get_transform(inc, azi)
+
+
+def NEV_to_HLA(
+    survey: Annotated[NDArray, Literal["N", 3]],
+    NEV: Union[
+        Annotated[NDArray, Literal["N", 3]],
+        Annotated[NDArray, Literal["N", 3, 3]]
+    ],
+    cov: bool = True
+) -> Union[
+        Annotated[NDArray, Literal['N, 3']],
+        Annotated[NDArray, Literal['N, 3, 3']]
+]:
+    """
+    Transform from NEV to HLA coordinate system.
+
+    Parameters
+    ----------
+    survey: (n,3) array of floats
+        The [md, inc, azi] survey listing array.
+    NEV: (n,3) or (n,3,3) array of floats
+        The NEV coordinates or covariance matrices.
+    cov: boolean
+        If cov is True then a (n,3,3) array of covariance matrices
+        is expected, else a (n,3) array of coordinates.
+
+    Returns
+    -------
+    HLAs: NDArray
+        Either a transformed (n,3) array of HLA coordinates or an
+        (n,3,3) array of HLA covariance matrices.
+    """
+
+    trans = get_transform(survey)
+
+    if cov:
+        # HLA_cov = trans @ NEV_cov @ trans.T  (batched over n stations)
+        return trans @ NEV @ trans.swapaxes(-1, -2)
+
+    else:
+        NEV = NEV.reshape(-1, 3)
+        return np.einsum('...k,...jk', NEV, trans)
+
+
+def HLA_to_NEV(survey, HLA, cov=True, trans=None):
+    if trans is None:
+        trans = get_transform(survey)
+
+    if cov:
+        # NEV_cov = trans.T @ HLA_cov @ trans  (batched over n stations)
+        return trans.swapaxes(-1, -2) @ HLA @ trans
+
+    else:
+        shape = HLA.shape
+        return (HLA.reshape(shape[0], -1, 3) @ trans).reshape(shape)
+
+
+def get_sigmas(cov, long=False):
+    """
+    Extracts the sigma values of a covariance matrix along the principle axii.
+
+    Parameters
+    ----------
+    cov: (n,3,3) array of floats
+
+    Returns
+    -------
+    arr: (n,3) array of floats
+    """
+
+    assert cov.shape[-2:] == (3, 3), "Cov is the wrong shape"
+
+    cov = cov.reshape(-1, 3, 3)
+
+    aa, ab, ac = cov[:, :, 0].T
+    ab, bb, bc = cov[:, :, 1].T
+    ac, bc, cc = cov[:, :, 2].T
+
+    if long:
+        return (aa, bb, cc, ab, ac, bc)
+    else:
+        return (np.sqrt(aa), np.sqrt(bb), np.sqrt(cc))
+
+
+def get_unit_vec(vec):
+    vec = vec / np.linalg.norm(vec)
+
+    return vec
+
+
+def linear_convert(data, factor):
+    flag = False
+    if not isinstance(data, list):
+        flag = True
+        data = [data]
+    converted = [d * factor if d is not None else None for d in data]
+    if flag:
+        return converted[0]
+    else:
+        return converted
+
+
+def make_cov(a, b, c, long=False):
+    # a, b, c = np.sqrt(np.array([a, b, c]))
+    if long:
+        cov = np.array([
+            [a * a, a * b, a * c],
+            [a * b, b * b, b * c],
+            [a * c, b * c, c * c]
+        ])
+
+    else:
+        cov = np.array([
+            [a * a, np.zeros_like(a), np.zeros_like(a)],
+            [np.zeros_like(a), b * b, np.zeros_like(a)],
+            [np.zeros_like(a), np.zeros_like(a), c * c]
+        ])
+
+    return cov.T
+
+
+def make_long_cov(arr):
+    """
+    Build a (n, 3, 3) covariance matrix from the 6 unique upper-triangle
+    elements per station.
+
+    Parameters
+    ----------
+    arr: (n, 6) array — columns [aa, ab, ac, bb, bc, cc]
+
+    Returns
+    -------
+    cov: (n, 3, 3) array
+    """
+    aa, ab, ac, bb, bc, cc = np.array(arr).T
+    return np.stack([
+        np.stack([aa, ab, ac], axis=-1),
+        np.stack([ab, bb, bc], axis=-1),
+        np.stack([ac, bc, cc], axis=-1),
+    ], axis=1)
+
+
+def dls_from_radius(radius):
+    """
+    Returns the dls in degrees from a radius.
+    """
+    if isinstance(radius, np.ndarray):
+        circumference = np.full_like(radius, np.inf)
+        circumference = np.where(
+            radius != 0,
+            2 * np.pi * radius,
+            circumference
+        )
+    else:
+        if radius == 0:
+            return np.inf
+        circumference = 2 * np.pi * radius
+    dls = 360 / circumference * 30
+
+    return dls
+
+
+def radius_from_dls(dls):
+    """
+    Returns the radius in meters from a DLS in deg/30m.
+    """
+    if isinstance(dls, np.ndarray):
+        circumference = np.full_like(dls, np.inf)
+        circumference = np.where(
+            dls != 0,
+            (30 / dls) * 360,
+            circumference
+        )
+    else:
+        if dls == 0:
+            return np.inf
+        circumference = (30 / dls) * 360
+    radius = circumference / (2 * np.pi)
+
+    return radius
+
+
+def cov_from_vec(arr):
+    """
+    Returns a (n, 3, 3) covariance matrix from an (n, 3) array via outer product.
+
+    Parameters
+    ----------
+    arr: (n, 3) array
+        Array of vector components.
+
+    Returns
+    -------
+    (n, 3, 3) array
+    """
+    arr = np.array(arr)
+    return arr[:, :, None] * arr[:, None, :]
+
+
+def errors_from_cov(cov, data=False):
+    """
+    Parameters
+    ----------
+    cov: (n, 3, 3) array
+        The error covariance matrices.
+    data: bool (default: False)
+        If True returns a dictionary, else returns a list.
+    """
+    nn, ne, nv, _, ee, ev, _, _, vv = (
+        cov.reshape(-1, 9).T
+    )
+
+    if data:
+        return {
+            i: {
+                'nn': _nn, 'ne': _ne, 'nv': _nv,
+                'ee': _ee, 'ev': _ev, 'vv': _vv
+            }
+            for i, (_nn, _ne, _nv, _ee, _ev, _vv)
+            in enumerate(zip(nn, ne, nv, ee, ev, vv))
+        }
+
+    return np.array([nn, ne, nv, ee, ev, vv]).T
+
+
+def _get_arc_pos_and_vec(dogleg, radius):
+    pos = np.array([
+        np.cos(dogleg),
+        0.,
+        np.sin(dogleg)
+    ]) * radius
+    pos[0] = radius - pos[0]
+
+    vec = np.array([
+        np.sin(dogleg),
+        0.,
+        np.cos(dogleg)
+    ])
+    return (pos, vec)
+
+
+class Arc:
+    def __init__(self, dogleg, radius):
+        """
+        Generates a generic arc that can be transformed with a specific pos
+        and vec via a transform method. The arc is initialized at a local
+        origin and kicks off down and to the north (assuming an NEV coordinate
+        system).
+
+        Parameters
+        ----------
+        dogleg: float
+            The sweep angle of the arc in radians.
+        radius: float
+            The radius of the arc in meters.
+
+        Returns
+        -------
+        arc: Arc object
+        """
+        self.dogleg = dogleg
+        self.radius = radius
+        self.delta_md = dogleg * radius
+
+        self.pos, self.vec = _get_arc_pos_and_vec(dogleg, radius)
+
+
+    def transform(self, toolface, pos=None, vec=None, target=False):
+        """
+        Transforms an Arc to a position and orientation.
+
+        Parameters
+        ----------
+        pos: (,3) array
+        The desired position to transform the arc.
+        vec: (,3) array
+            The orientation unit vector to transform the arc.
+        target: bool
+            If true, returned arc vector is reversed.
+
+        Returns
+        -------
+        tuple (pos_new, vec_new)
+        pos_new: (,3) array
+            The position at the end of the arc post transform.
+        vec_new: (,3) array
+            The unit vector at the end of the arc post transform.
+        """
+        if vec is None:
+            vec = np.array([0., 0., 1.])
+        if target:
+            vec = -np.asarray(vec)
+        inc, azi = get_angles(vec, nev=True).reshape(2)
+        angles = [
+            toolface,
+            inc,
+            azi
+        ]
+        r = R.from_euler('zyz', angles, degrees=False)
+
+        pos_new, vec_new = r.apply(np.vstack((self.pos, self.vec)))
+
+        # make sure vec_new is a unit vector:
+        vec_new = get_unit_vec(vec_new)
+
+        if pos is not None:
+            pos_new += pos
+        if target:
+            vec_new *= -1
+
+        return (pos_new, vec_new)
+
+
+def get_arc(
+    dogleg, radius, toolface, pos=None, vec=None, target=False
+) -> tuple:
+    """Creates an Arc instance and transforms it to the desired position
+    and orientation.
+
+    Parameters
+    ----------
+    dogleg: float
+        The swept angle of the arc (arc angle) in radians.
+    radius: float
+        The radius of the arc (in meters).
+    toolface: float
+        The toolface angle in radians (relative to the high side) to rotate the
+        arc at the desired position and orientation.
+    pos: (,3) array
+        The desired position to transform the arc.
+    vec: (,3) array
+        The orientation unit vector to transform the arc.
+    target: bool
+        If true, returned arc vector is reversed.
+
+    Returns
+    -------
+    tuple of (pos_new, vec_new, arc.delta_md)
+    pos_new: (,3) array
+        The position at the end of the arc post transform.
+    vec_new: (,3) array
+        The unit vector at the end of the arc post transform.
+    arc.delta_md: int
+        The arc length of the arc.
+    """
+    arc = Arc(dogleg, radius)
+    pos_new, vec_new = arc.transform(toolface, pos, vec, target)
+
+    return (pos_new, vec_new, arc.delta_md)
+
+
+def annular_volume(od: float, id: float = None, length: float = None):
+    """
+    Calculate an annular volume.
+
+    If no ``id`` is provided then circular volume is calculated. If no
+    ``length`` is provided, then the unit volume is calculated (i.e. the
+    area).
+
+    Units are assumed consistent across input parameters, i.e. the
+    calculation is dimensionless.
+
+    Parameters
+    ----------
+    od: float
+        The outer diameter.
+    id: float | None, optional
+        The inner diameter, default is 0.
+    length : float | None, optional
+        The length of the annulus.
+
+    Returns
+    -------
+    annular_volume: float
+        The (unit) volume of the annulus or cylinder.
+
+    Examples
+    --------
+    In the following example we calculate annular volume along a 1,000 meter
+    section length of 9 5/8" casing inside 12 1/4" hole.
+
+    >>> from welleng.utils import annular_volume
+    >>> from welleng.units import ureg
+    >>> av = annular_volume(
+    ...     od=ureg('12.25 inch').to('meters),
+    ...     id=ureg(f'{9+5/8} inch').to('meter'),
+    ...     length=ureg('1000 meter')
+    ... )
+    >>> print(av)
+    29.096093526301622 meter ** 3
+    """
+    length = 1 if length is None else length
+    id = 0 if id is None else id
+    annular_unit_volume = (np.pi * (od**2 - id**2)) / 4
+    annular_volume = annular_unit_volume * length
+
+    return annular_volume
+
+
+def _decimal2dms(decimal: tuple, ndigits: int = None) -> tuple:
+    try:
+        _decimal, direction = decimal
+    except (TypeError, ValueError):
+        _decimal = decimal[0] if isinstance(decimal, np.ndarray) else decimal
+        direction = None
+    _decimal = float(_decimal)
+    minutes, seconds = divmod(abs(_decimal) * 3600, 60)
+    _, minutes = divmod(minutes, 60)
+    degrees = int(_decimal)
+    if degrees == 0 and _decimal < 0:
+        degrees = -0.0  # carries the sign
+
+    return np.array([
+        degrees,
+        int(minutes),
+        seconds if ndigits is None else round(seconds, ndigits)
+    ]) if direction is None else np.array([
+        degrees,
+        int(minutes),
+        seconds if ndigits is None else round(seconds, ndigits),
+        direction
+    ], dtype=object)
+
+
+def decimal2dms(decimal: tuple | NDArray, ndigits: int = None) -> tuple | NDArray:
+    """Converts a decimal lat, lon to degrees, minutes and seconds.
+
+    Parameters
+    ----------
+    decimal : tuple | arraylike
+        A tuple of (lat, direction) or (lon, direction) or arraylike of
+        ((lat, direction), (lon, direction)) coordinates.
+    ndigits: int (default is None)
+        If specified, rounds the seconds decimal to the desired number of
+        digits.
+
+    Returns
+    -------
+    dms: arraylike
+        An array of (degrees, minutes, seconds, direction).
+
+    Examples
+    --------
+    If you want to convert the lat/lon coordinates for Den Haag from decimals
+    to degrees, minutes and seconds:
+
+    >>> LAT, LON = [(52.078663, 'N'), (4.288788, 'E')]
+    >>> dms = decimal2dms((LAT, LON), ndigits=6)
+    >>> print(dms)
+    [[52 4 43.1868 'N']
+     [4 17 19.6368 'E']]
+    """
+    flag = False
+    _decimal = np.array(decimal)
+    if _decimal.dtype == np.float64:
+        _decimal = _decimal.reshape((-1, 1))
+        flag = True
+    try:
+        dms = np.apply_along_axis(_decimal2dms, -1, _decimal, ndigits)
+    except np.exceptions.AxisError:
+        dms = _decimal2dms(_decimal, ndigits)
+
+    if dms.shape == (4,):
+        return tuple(dms)
+    else:
+        return dms.reshape((-1, 3)) if flag else dms
+
+
+def _dms2decimal(dms: NDArray, ndigits: int = None) -> NDArray:
+    try:
+        degrees, minutes, seconds, direction = dms
+    except ValueError:
+        degrees, minutes, seconds = dms
+        direction = None
+
+    decimal = abs(degrees) + minutes / 60 + seconds / 3600
+
+    return np.array([
+        np.copysign(
+            decimal if ndigits is None else round(decimal, ndigits),
+            degrees
+        )
+    ]) if direction is None else np.array([
+        np.copysign(
+            decimal if ndigits is None else round(decimal, ndigits),
+            degrees
+        ),
+        direction
+    ], dtype=object)
+
+
+def dms2decimal(dms: tuple | NDArray, ndigits: int = None) -> NDArray:
+    """Converts a degrees, minutes and seconds lat, lon to decimals.
+
+    Parameters
+    ----------
+    dms : tuple | arraylike
+        A tuple or arraylike of (degrees, minutes, seconds, direction) lat
+        and/or lon or arraylike of lat, lon coordinates.
+    ndigits: int (default is None)
+        If specified, rounds the decimal to the desired number of digits.
+
+    Returns
+    -------
+    degrees: arraylike
+        A tuple or array of lats and/or longs in decimals.
+
+    Examples
+    --------
+    If you want to convert the lat/lon coordinates for Den Haag from degrees,
+    minutes and seconds to decimals:
+
+    >>> LAT, LON = (52, 4, 43.1868, 'N'), (4, 17, 19.6368, 'E')
+    >>> decimal = dms2decimal((LAT, LON), ndigits=6)
+    >>> print(decimal)
+    [[52.078663 'N']
+     [4.288788 'E']]
+    """
+    result = np.apply_along_axis(
+        _dms2decimal, -1, np.array(dms, dtype=object), ndigits
+    )
+
+    if result.shape == ():
+        return float(result)
+    elif result.shape == (1,):
+        return float(result[0])
+    elif result.shape[-1] == 1:
+        return result.reshape(-1)
+    else:
+        return result
+
+
+def pprint_dms(dms, symbols: bool = True, return_data: bool = False):
+    """Pretty prints a (decimal, minutes, seconds) tuple or list.
+
+    Parameters
+    ----------
+    dms: tuple | list
+        An x or y or northing or easting (degree, minute, second).
+    symbols: bool (default: True)
+        Whether to print symbols for (deg, min, sec).
+    return_data: bool (default: False)
+        If True then will return the string rather than print it.
+    """
+    if symbols:
+        try:
+            deg, min, sec = dms
+            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\""
+        except ValueError:
+            deg, min, sec, _ = dms
+            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\" {_}"
+
+    else:
+        try:
+            deg, min, sec = dms
+            text = f"{deg} deg, {min} min, {sec} sec"
+        except ValueError:
+            deg, min, sec, _ = dms
+            text = f"{deg} deg, {min} min, {sec} sec {_}"
+
+    if return_data:
+        return text
+    else:
+        print(text)
+
+
+def dms_from_string(text):
+    """Extracts the values from a string dms x or y or northing or easting.
+    """
+    pattern = re.compile(r'(\d+)\s*(?:°|deg)?,\s*(\d+)\s*(?:\'|min)?,\s*(\d+(?:\.\d+)?)\s*(sec)?\s*.*?(\S+)?$', re.IGNORECASE)
+    matches = pattern.findall(text)
+
+    if matches:
+        deg, min, sec_str = matches[0][:3]
+        sec = float(sec_str)
+        final_data = matches[0][-1] if matches[0][-1] else None
+
+        if final_data:
+            return (int(deg), int(min), sec, final_data)
+        else:
+            return (int(deg), int(min), sec)
+
+    else:
+        return
+
+
+def make_clc_path(
+    toolface1, dogleg1, distance, toolface2, dogleg2,
+    pos0=None, vec0=None, radius=1.0
+):
+    """Generate a curve-hold-curve (CLC) path from arc parameters.
+
+    Builds the path in three steps: first arc, straight hold, second arc.
+    Useful for constructing known-geometry test cases and for quickly
+    prototyping CLC trajectories.
+
+    Parameters
+    ----------
+    toolface1: float
+        Toolface angle for the first curve in radians.
+    dogleg1: float
+        Sweep angle (dogleg) for the first curve in radians.
+    distance: float
+        Length of the straight hold section (same units as radius).
+    toolface2: float
+        Toolface angle for the second curve in radians.
+    dogleg2: float
+        Sweep angle (dogleg) for the second curve in radians.
+    pos0: (3,) array-like, optional
+        Start position [N, E, V]. Defaults to [0, 0, 0].
+    vec0: (3,) array-like, optional
+        Start direction unit vector. Defaults to [0, 0, 1] (pointing down).
+    radius: float, optional
+        Arc radius for both curves. Defaults to 1.0.
+
+    Returns
+    -------
+    dict with keys:
+        pos1, vec1  – end of first arc
+        dist_curve1 – arc length of first curve
+        pos2, vec2  – end of hold section / start of second arc
+        pos3, vec3  – end of second arc
+        dist_curve2 – arc length of second curve
+    """
+    pos0 = np.array([0., 0., 0.]) if pos0 is None else np.asarray(pos0, dtype=float)
+    vec0 = np.array([0., 0., 1.]) if vec0 is None else np.asarray(vec0, dtype=float)
+
+    pos1, vec1, dist_curve1 = get_arc(dogleg1, radius, toolface1, pos=pos0, vec=vec0)
+    pos2 = pos1 + vec1 * distance
+    vec2 = vec1.copy()
+    pos3, vec3, dist_curve2 = get_arc(dogleg2, radius, toolface2, pos=pos2, vec=vec2)
+
+    return dict(
+        pos1=pos1, vec1=vec1, dist_curve1=dist_curve1,
+        pos2=pos2, vec2=vec2,
+        pos3=pos3, vec3=vec3, dist_curve2=dist_curve2,
+    )
+
+
+def get_toolface(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> NDArray:
+    """Returns the toolface(s) of offset position(s) relative to reference
+    positions and vectors.  Accepts either single (3,) arrays or batches of
+    (n, 3) arrays; all three arguments must have the same leading dimension.
+
+    Parameters
+    ----------
+    pos1: ndarray, shape (3,) or (n, 3)
+        The reference NEV coordinate(s), e.g. current location.
+    vec1: ndarray, shape (3,) or (n, 3)
+        The reference NEV unit vector(s), e.g. current direction.
+    pos2: ndarray, shape (3,) or (n, 3)
+        The offset NEV coordinate(s), e.g. a target position.
+
+    Returns
+    -------
+    toolface: float or ndarray
+        The toolface(s) in radians [0, 2π) to pos2 from pos1 along vec1.
+        Returns a scalar float when single (3,) inputs are given.
+    """
+    pos1 = np.atleast_2d(pos1)
+    vec1 = np.atleast_2d(vec1)
+    pos2 = np.atleast_2d(pos2)
+
+    angles = np.flip(get_angles(vec1, nev=True), axis=1)
+    r = R.from_euler('zy', angles * -1, degrees=False)
+    pos = r.apply(pos2 - pos1)
+    result = np.arctan2(*np.flip(pos[:, :-1], axis=1).T) % (2 * np.pi)
+    return float(result[0]) if result.size == 1 else result
+
+
+def get_toolface_fast(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> float:
+    """Returns the toolface of a single offset position using a direct
+    closed-form expression — approximately 12× faster than ``get_toolface``
+    for scalar inputs.
+
+    Suitable when pos1, vec1 and pos2 are all individual (3,) arrays.
+    For batch use, prefer the vectorised ``get_toolface``.
+
+    Parameters
+    ----------
+    pos1: array-like, shape (3,)
+        The reference NEV coordinate, e.g. current location.
+    vec1: array-like, shape (3,)
+        The reference NEV unit vector, e.g. current direction.
+    pos2: array-like, shape (3,)
+        The offset NEV coordinate, e.g. a target position.
+
+    Returns
+    -------
+    toolface: float
+        The toolface in radians [0, 2π) to pos2 from pos1 along vec1.
+    """
+    n1, e1, v1 = pos1
+    n2, e2, v2 = pos2
+    vn1, ve1, vv1 = vec1
+
+    azimuth_vec1 = np.arctan2(ve1, vn1) % (2 * np.pi)
+    cos_azi = np.cos(azimuth_vec1)
+    sin_azi = np.sin(azimuth_vec1)
+
+    numerator = (e2 - e1) * cos_azi + (n1 - n2) * sin_azi
+    horiz_mag = np.sqrt(ve1 ** 2 + vn1 ** 2)
+    denominator = (
+        vv1 * (e2 - e1) * sin_azi
+        + vv1 * (n2 - n1) * cos_azi
+        + (v1 - v2) * horiz_mag
+    ) / np.sqrt(ve1 ** 2 + vn1 ** 2 + vv1 ** 2)
+
+    return np.arctan2(numerator, denominator) % (2 * np.pi)
+
+
-- 
2.43.0


From 27b77b31f920826b2a447219dcc3a83de855a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 30/69] fix: curves that turn more than 180 degrees are
 interpolated the way they turn

---
 welleng/connector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/welleng/connector.py b/welleng/connector.py
index da2a615..96896fe 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2100,6 +2100,9 @@ def interpolate_curve(
     else:
         rot_axis = cross / cross_norm          # unit rotation axis ⊥ arc plane
         in_plane = np.cross(rot_axis, vec1)    # unit vector in arc plane, ⊥ vec1
+        if np.sin(dogleg) < 0:
+            # the long way round, i.e. away from vec2 for doglegs above 180
+            in_plane = -in_plane
         vec = (
             np.cos(dogleg_interp) * vec1
             + np.sin(dogleg_interp) * in_plane
-- 
2.43.0


From c9155c07fedf09b0790210026bfd41a09e44c6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 31/69] fix: flag the ends of connections by nearest depth, not
 float equality

---
 welleng/survey.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 9b53714..a9e7f8c 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2706,7 +2706,11 @@ def from_connections(
             azi_reference="grid"  # since connections are typcially derived from pos
         )
 
-    interpolated = np.array([False if m in mds_ref else True for m in md])
+    # the stations nearest to the ends of the sections aren't interpolated
+    interpolated = np.full(len(md), True)
+    interpolated[
+        [np.argmin(np.abs(md - md_ref)) for md_ref in mds_ref]
+    ] = False
 
     survey = Survey(
         md=md,
-- 
2.43.0


From ceaabd9d2839ceb0cac3696ef053eb4eb406331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 32/69] fix: connect_points kept only the integer part of the
 start direction for integer points

---
 welleng/connector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 96896fe..3d04ff7 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2423,11 +2423,11 @@ def connect_points(
     """
     if nev:
         pos_nev = np.array(cartesians).reshape(-1, 3)
-        vec_nev = np.zeros_like(pos_nev)
+        vec_nev = np.zeros(pos_nev.shape)
         vec_nev[0] = np.array(vec_start).reshape(-1, 3)
     else:
         pos_nev = get_nev(cartesians)
-        vec_nev = np.zeros_like(pos_nev)
+        vec_nev = np.zeros(pos_nev.shape)
         vec_nev[0] = get_nev(vec_start)
 
     dls = np.broadcast_to(
-- 
2.43.0


From c2ce99aeab19108b1a11c50c2ee6d8cf79a39178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 33/69] fix: drop_off and extend_to_tvd build and drop to the
 target in closed form

---
 welleng/connector.py | 43 ++++++++++---------------------------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 3d04ff7..2e7e3d2 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2610,26 +2610,8 @@ def drop_off(
         (the arc endpoint) or two (arc endpoint plus tangent endpoint)
         if the target inclination was achieved within the section.
     """
-    def _drop_off(
-            x: tuple,
-            node,
-            return_data: bool = False
-    ) -> tuple:
-        dogleg, toolface = x
-        pos2, vec2, arc_length = get_arc(
-            dogleg, radius,
-            0 if -np.pi / 2 <= toolface <= np.pi / 2 else np.pi,
-            node.pos_nev, node.vec_nev
-        )
-        if return_data:
-            return (pos2, vec2, arc_length)
-        else:
-            inc, _ = np.degrees(
-                get_angles(vec2, nev=True)[0]
-            )
-            return abs(inc - target_inc)
-
-    node = Node() if node is None else node
+    if node is None:
+        node = Node(pos=[0., 0., 0.], vec=[0., 0., 1.])
     node.md = 0 if node.md is None else node.md
     radius = radius_from_dls(dls)
     if isinstance(delta_md, np.ndarray):
@@ -2639,18 +2621,13 @@ def drop_off(
         else delta_md / radius
     )
 
-    args = (node,)
-    bounds = [
-        [0, min(2 * np.pi, max_dogleg)],
-        [-np.pi, np.pi]
-    ]
-    x0 = [bounds[0][1] / 2, np.pi]
-    result = minimize(
-        _drop_off, x0, args=args, bounds=bounds,
-        method="SLSQP"
-    )
-    pos2, vec2, arc_length = _drop_off(
-        result.x, *args, return_data=True
+    # build or drop in the vertical plane, as far as the section allows
+    inc, _ = get_angles(node.vec_nev, nev=True)[0]
+    dogleg = np.radians(target_inc) - inc
+    pos2, vec2, arc_length = get_arc(
+        min(abs(dogleg), max_dogleg), radius,
+        0 if dogleg > 0 else np.pi,
+        node.pos_nev, node.vec_nev
     )
     tangent_length = (
         0 if delta_md is None
@@ -2710,7 +2687,7 @@ def extend_to_tvd(
     ... )
     """
     if node is None:
-        node = Node()
+        node = Node(pos=[0., 0., 0.], vec=[0., 0., 1.])
     node.md = 0 if node.md is None else node.md  # default value is None which complicates things
     _delta_md = 1e-8 if delta_md is None else delta_md
     connections = []
-- 
2.43.0


From 0a71f26fc6cb3c4bb8578b1d6b1f29c08e890932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 34/69] fix: projections use the survey's unit, the given dls
 and dls_design, and grid azimuths

---
 welleng/survey.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a9e7f8c..b958085 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1222,7 +1222,8 @@ class Survey:
             delta_md=delta_md,
             dls=dls,
             toolface=toolface,
-            md=self.md[-1]
+            md=self.md[-1],
+            unit=self.unit
         )
 
         return node
@@ -2956,7 +2957,9 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
     return s_interp
 
 
-def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0):
+def project_ahead(
+    pos, vec, delta_md, dls, toolface, md=0.0, unit='meters'
+):
     """
     Apply a simple arc or hold from a current position and vector.
 
@@ -2975,11 +2978,17 @@ def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0):
         The desired toolface for the projection.
     md: float (optional)
         The current md if applicable.
+    unit: str (default: 'meters')
+        The unit of length, either 'meters' (dls in deg/30m) or 'feet' (dls in
+        deg/100ft).
 
     Returns
     -------
     node: welleng.node.Node object
     """
+    if unit != 'meters':
+        dls = dls * 30 / 100  # deg/100ft to deg/30ft
+
     if dls > 0:
         radius = radius_from_dls(dls)
         dogleg = np.radians(delta_md / 30 * dls)
@@ -3019,6 +3028,7 @@ def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0):
         pos=pos_new,
         vec=vec_new,
         md=md + delta_md,
+        unit=unit,
     )
 
     return node
@@ -3079,11 +3089,16 @@ def project_to_target(
             delta_md,
             dls,
             toolface,
-            survey.md[-1]
+            survey.md[-1],
+            survey.unit
         )
         node_bit.pos_nev, node_bit.pos_xyz = None, None
         connectors.append(
-            Connector(node_start, node_bit, dls_design=dls_design)
+            Connector(
+                node_start, node_bit,
+                dls_design=dls if dls > 0 else dls_design,
+                unit=survey.unit
+            )
         )
         node_bit = connectors[-1].node_end
     else:
@@ -3091,13 +3106,14 @@ def project_to_target(
 
     connectors.append(
         Connector(
-            node_bit, node_target, dls_design
+            node_bit, node_target, dls_design=dls_design,
+            unit=survey.unit
         )
     )
     survey_to_target = from_connections(
         connectors,
         step=step,
-        survey_header=survey.header,
+        survey_header=_get_grid_header(survey.header),
         start_cov_nev=cov_nev,
         radius=survey.radius[-1], deg=False, error_model=survey.error_model,
         depth_unit=survey.header.depth_unit,
-- 
2.43.0


From 293e3395cf31b1656ee137b2a04d4d9ce0339933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 35/69] fix: maximum curvature turns from the survey's own
 directions, in its unit

---
 welleng/survey.py | 46 +++++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index b958085..8286b8a 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1464,8 +1464,9 @@ class Survey:
         ----------
         survey: welleng.survey.Survey object
         dls_noise: float
-            The additional Dog Leg Severity (DLS) in deg/30m used to calculate
-            the curvature for the initial section of the survey interval.
+            The additional Dog Leg Severity (DLS) in deg/30m (deg/100ft if the
+            survey is in feet) used to calculate the curvature for the initial
+            section of the survey interval.
 
         Returns
         -------
@@ -1475,32 +1476,27 @@ class Survey:
             stations.
         """
 
+        x = 30 if self.unit == 'meters' else 100
         dls_effective = self.dls + dls_noise
-        radius_effective = radius_from_dls(dls_effective)
-
-        dogleg1 = (
-            (self.delta_md / radius_effective) / 2
-        )
-
-        radius_effective = np.where(
-            dogleg1 > np.pi,
-            self.delta_md * 4 / (2 * np.pi),
-            radius_effective
+        dogleg1 = (np.radians(dls_effective) / x * self.delta_md / 2)[1:]
+
+        # the azimuth is taken from the survey rather than from the vector,
+        # since it's the reference for the toolface where the well is vertical
+        r = R.from_euler(
+            'zyz',
+            np.column_stack(
+                (self.toolface, self.inc_rad, self.azi_grid_rad)
+            )[:-1],
+            degrees=False
         )
+        vec1 = r.apply(np.column_stack(
+            (np.sin(dogleg1), np.zeros_like(dogleg1), np.cos(dogleg1))
+        ))
 
-        arc1 = [
-            get_arc(dogleg, _radius_effective, toolface, vec=vec)
-            for dogleg, _radius_effective, toolface, vec in zip(
-                dogleg1[1:], radius_effective[1:], self.toolface[:-1],
-                self.vec_nev[:-1]
-            )
-        ]
-
-        _survey_new = np.array([
-            [row[-1], *np.degrees(get_angles(row[1], nev=True))[0]]
-            for row in arc1
-        ])
-        _survey_new[:, 0] += self.md[:-1]
+        _survey_new = np.column_stack((
+            self.md[:-1] + self.delta_md[1:] / 2,
+            np.degrees(get_angles(vec1, nev=True))
+        ))
 
         survey_new = np.zeros(shape=(len(_survey_new) * 2 + 1, 3))
         survey_new[:-1] = np.stack(
-- 
2.43.0


From fd8f5f67a9d5843499083ed4daa6d860e9772af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 36/69] fix: directional difficulty index of surveys in feet

---
 welleng/survey.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 8286b8a..f4ad622 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1661,17 +1661,18 @@ def directional_difficulty_index(survey, **kwargs):
         The ddi for each survey station.
     """
     with np.errstate(divide='ignore', invalid='ignore'):
+        unit = ureg(survey.unit)
         ddi = np.nan_to_num(np.log10(
             (
-                (survey.md * ureg.meters).to('ft').m
+                (survey.md * unit).to('ft').m
                 * (
                     np.linalg.norm(
                         (survey.n, survey.e), axis=0
-                    ) * ureg.meters
+                    ) * unit
                 ).to('ft').m
                 * np.cumsum(np.degrees(survey.dogleg))
             )
-            / (survey.tvd * ureg.meters).to('ft').m
+            / (survey.tvd * unit).to('ft').m
         ), nan=0.0, posinf=0.0, neginf=0.0)
 
     return ddi
-- 
2.43.0


From 5edee783ecd3f000f5894275f1b29ea4a76f6dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 37/69] fix: resolve JSON tool models by short name before OWSG
 prefix

---
 welleng/errors/tool_errors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index ea036c2..776e5d7 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -173,7 +173,12 @@ class ToolError:
         # default), so we walk the iscwsa_json/ tree looking at both
         # the OWSG prefix and the metadata.short_name of each JSON.
         yaml_filename = os.path.join(PATH, 'tool_codes', f"{model}.yaml")
-        json_filename = _resolve_json_model(model)
+        # The short name goes first, since a tool and its floating rig
+        # variant share the same OWSG prefix.
+        json_filename = (
+            _resolve_json_model(error.error_model)
+            or _resolve_json_model(model)
+        )
 
         self._json_path = None
         if os.path.isfile(yaml_filename):
-- 
2.43.0


From 96971d6780f484494ddc2f3f2bde7b00ee8d5de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 38/69] fix: propagate JSON well by well terms within the pad

---
 welleng/errors/tool_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 776e5d7..0f183b4 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -18,7 +18,7 @@ _JSON_PROP_TO_LEGACY = {
     "Random": "random",
     "Systematic": "systematic",
     "Global": "global",
-    "Well": "well",
+    "Well": "within_pad",
 }
 
 
-- 
2.43.0


From 732548846c9b6c5066f48bfc6ca810bb99237e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 39/69] fix: index error for surveys with two stations and a
 vertical station

---
 welleng/errors/tool_errors.py | 58 +++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 0f183b4..b78e369 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -592,15 +592,16 @@ def ABIXY_TI2(
             )
         )
 
-        e_NEV_sing[1, 1] = (
-            (
-                error.survey.md[2]
-                + error.survey.md[1]
-                - 2 * error.survey.md[0]
-            ) / 2
-            * mag * cos(error.survey.azi_true_rad[1])
-            / error.survey.header.G
-        )
+        if len(error.survey.md) > 2:
+            e_NEV_sing[1, 1] = (
+                (
+                    error.survey.md[2]
+                    + error.survey.md[1]
+                    - 2 * error.survey.md[0]
+                ) / 2
+                * mag * cos(error.survey.azi_true_rad[1])
+                / error.survey.header.G
+            )
         e_NEV[sing] = e_NEV_sing[sing]
 
         e_NEV_star = error._e_NEV_star(e_DIA)
@@ -677,7 +678,10 @@ def ABXY_TI2(
                 np.zeros((1, 3))
             )
         )
-        if error.error_model.lower().split(' ')[-1] != 'rev4':
+        if (
+            error.error_model.lower().split(' ')[-1] != 'rev4'
+            and len(error.survey.md) > 2
+        ):
             e_NEV_sing[1, 1] = (
                 (
                     error.survey.md[2]
@@ -1787,14 +1791,15 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
             ) / 2
             * mag
         )
-        e_NEV_sing[1, 0] = (
-            coeff[1]
-            * (
-                error.survey.md[2] + error.survey.md[1]
-                - 2 * error.survey.md[0]
-            ) / 2
-            * mag
-        )
+        if len(error.survey.md) > 2:
+            e_NEV_sing[1, 0] = (
+                coeff[1]
+                * (
+                    error.survey.md[2] + error.survey.md[1]
+                    - 2 * error.survey.md[0]
+                ) / 2
+                * mag
+            )
         e_NEV_sing[-1, 0] = (
             coeff[-1]
             * (
@@ -1880,14 +1885,15 @@ def XYM4L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
             ) / 2
             * mag
         )
-        e_NEV_sing[1, 1] = (
-            coeff[1]
-            * (
-                error.survey.md[2] + error.survey.md[1]
-                - 2 * error.survey.md[0]
-            ) / 2
-            * mag
-        )
+        if len(error.survey.md) > 2:
+            e_NEV_sing[1, 1] = (
+                coeff[1]
+                * (
+                    error.survey.md[2] + error.survey.md[1]
+                    - 2 * error.survey.md[0]
+                ) / 2
+                * mag
+            )
         e_NEV_sing[-1, 1] = (
             coeff[-1]
             * (
-- 
2.43.0


From c68d2b7659ee3fe8d192fb460a94c92b5b21d945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 40/69] fix: default tortuosity for models with course length
 terms whose header has none

---
 welleng/errors/tool_errors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index b78e369..2598ec1 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -209,6 +209,12 @@ class ToolError:
             # be the case
             # TODO use pint to handle this string inputs
             self.tortuosity = (np.radians(1.) / 100) * 3.281
+        elif any(
+            'XCL' in code['function'] for code in self.em['codes'].values()
+        ):
+            # the model has course length terms but its header doesn't state
+            # the tortuosity, so assume the default 1 deg / 100 ft
+            self.tortuosity = (np.radians(1.) / 100) * 3.281
         else:
             self.tortuosity = None
 
-- 
2.43.0


From 443d242ea9dee741ce93ef4c3f7078679ca1a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 41/69] fix: use the weight function's limit where a JSON
 formula is singular

---
 welleng/errors/tool_errors.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 2598ec1..c1b999e 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -368,6 +368,19 @@ class ToolError:
         # values, so this conversion only fires for JSON-driven tools.
         unit = term.get("units") or term.get("unit") or "-"
         scale = _MAG_UNIT_TO_BASE.get(unit, 1.0)
+        if code in self.func_dict and not np.isfinite(dpde).all():
+            # The formula is singular for a vertical station, the weight
+            # function of the same name has the limit.
+            return self.call_func(
+                code=code,
+                func=code,
+                error=self.e,
+                mag=mag * scale,
+                propagation=propagation,
+                tortuosity=self.tortuosity,
+                header=self.em['header'],
+                errors=self,
+            )
         e_DIA = dpde * (mag * scale)
         return self.e._generate_error(code, e_DIA, propagation, NEV=True)
 
-- 
2.43.0


From 543d2b1d21a6def7aad70bf09680b07db5998732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 42/69] fix: vertical limit of CNA uses the true azimuth of the
 error frame

---
 welleng/errors/tool_errors.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index c1b999e..7ddb344 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -965,16 +965,12 @@ def CNA(
         e_NEV = error._e_NEV(e_DIA)
         n = (
             np.array(0.5 * error.drdp_sing['double_delta_md'])
-            * -sin(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * -sin(error.survey.azi_true_rad[1: -1])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['double_delta_md'])
-            * cos(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * cos(error.survey.azi_true_rad[1: -1])
             * mag
         )
         v = np.zeros_like(n)
@@ -990,16 +986,12 @@ def CNA(
         e_NEV_star = error._e_NEV_star(e_DIA)
         n = (
             np.array(0.5 * error.drdp_sing['delta_md'])
-            * -sin(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * -sin(error.survey.azi_true_rad[1: -1])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['delta_md'])
-            * cos(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * cos(error.survey.azi_true_rad[1: -1])
             * mag
         )
         e_NEV_star_sing = np.vstack(
-- 
2.43.0


From ea75cc6d82cc474a7b0804b8e3d2af252aa9a140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 43/69] fix: azimuth weight of ABIZ divides by the product of
 the axial interference factor and gravity

---
 welleng/errors/tool_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 7ddb344..5a071d8 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -503,7 +503,7 @@ def DST(
 def ABIZ(
     code, error, mag=0.0040, propagation='systematic', NEV=True, **kwargs
 ):
-    denom = _funky_denominator(error) / error.survey.header.G
+    denom = _funky_denominator(error) * error.survey.header.G
     denom = np.where(denom > ACCURACY, denom, ACCURACY)
 
     dpde = np.zeros((len(error.survey_rad), 3))
-- 
2.43.0


From eddca46fa421efeee9e9f6560147f294bd5df557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 44/69] fix: XYM3E keeps the sign of the azimuth's cosine

---
 welleng/errors/tool_errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 5a071d8..9d28ea9 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1460,8 +1460,8 @@ def XYM3E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
     ), axis=-1), axis=-1)
 
     dpde = np.zeros((len(error.survey.md), 3))
-    dpde[1:, 1] = np.absolute(
-        cos(error.survey.inc_rad[1:])
+    dpde[1:, 1] = (
+        np.absolute(cos(error.survey.inc_rad[1:]))
         * cos(error.survey.azi_true_rad[1:])
         * coeff[1:]
     )
-- 
2.43.0


From 9d7e4b8ecce4d65599eb2923834bf3be214b86fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 45/69] fix: XYM3E and XYM4E at vertical stations do not depend
 on the azimuth

---
 welleng/errors/tool_errors.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 9d28ea9..571a720 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1489,14 +1489,22 @@ def XYM3E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
     if len(sing[0]) < 1:
         return error._generate_error(code, e_DIA, propagation, NEV)
     else:
+        # The azimuth of a vertical station has no meaning, so the limit is
+        # an error along north (along east for XYM4E) whatever it reads.
+        half = np.diff(error.survey.md) / 2
+        into = np.hstack((0, half))
+        if error.error_model.lower().split()[-1] != 'rev4':
+            into[1] *= 2
+        out = np.hstack((half, 0))
+
         e_NEV = error._e_NEV(e_DIA)
         e_NEV_sing = np.zeros_like(e_NEV)
-        e_NEV_sing[:, 0] = e_NEV[:, 0]
+        e_NEV_sing[1:, 0] = ((into + out) * coeff * mag)[1:]
         e_NEV[sing] = e_NEV_sing[sing]
 
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV_star)
-        e_NEV_star_sing[:, 0] = e_NEV_star[:, 0]
+        e_NEV_star_sing[1:, 0] = (into * coeff * mag)[1:]
         e_NEV_star[sing] = e_NEV_star_sing[sing]
 
         return error._generate_error(
-- 
2.43.0


From 76e452902fa0ee550592344f37e65836bc05b1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 46/69] fix: XYM3L and XYM4L at vertical stations use the
 interval's own short-course coefficient

---
 welleng/errors/tool_errors.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 571a720..53a45fc 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1812,7 +1812,7 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         )
         if len(error.survey.md) > 2:
             e_NEV_sing[1, 0] = (
-                coeff[1]
+                coeff[0]
                 * (
                     error.survey.md[2] + error.survey.md[1]
                     - 2 * error.survey.md[0]
@@ -1833,7 +1833,8 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV)
         e_NEV_star_sing[1:, 0] = (
-            (
+            coeff
+            * (
                 error.survey.md[1:]
                 - error.survey.md[:-1]
             ) / 2
@@ -1842,7 +1843,8 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         # Rev 5.11 "funny stuff": at SING station 1 the workbook uses the full
         # first interval, not the halved value (see ABXY precedent at line ~409).
         e_NEV_star_sing[1, 0] = (
-            (error.survey.md[1] - error.survey.md[0])
+            coeff[0]
+            * (error.survey.md[1] - error.survey.md[0])
             * mag
         )
 
@@ -1927,14 +1929,16 @@ def XYM4L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV)
         e_NEV_star_sing[1:, 1] = (
-            (
+            coeff[1:]
+            * (
                 error.survey.md[1:]
                 - error.survey.md[:-1]
             ) / 2
             * mag
         )
         e_NEV_star_sing[1, 1] = (
-            (
+            coeff[1]
+            * (
                 error.survey.md[1]
                 - error.survey.md[0]
             )
-- 
2.43.0


From 76f3e96b67e74f4822080ff6d07f10611739ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 47/69] fix: last station's own misalignment error when it is
 vertical

---
 welleng/errors/tool_errors.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 53a45fc..ed51f04 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -640,6 +640,14 @@ def ABIXY_TI2(
                 np.zeros((1, 3))
             )
         )
+        # the last station's own error, whatever comes after it
+        e_NEV_star_sing[-1, :2] = (
+            (error.survey.md[-1] - error.survey.md[-2]) / 2 * mag
+            * np.array([
+                -sin(error.survey.azi_true_rad[-1]),
+                cos(error.survey.azi_true_rad[-1])
+            ]) / error.survey.header.G
+        )
 
         e_NEV_star_sing[1, 1] = (
             (error.survey.md[1] - error.survey.md[0])
@@ -729,6 +737,14 @@ def ABXY_TI2(
                 np.zeros((1, 3))
             )
         )
+        # the last station's own error, whatever comes after it
+        e_NEV_star_sing[-1, :2] = (
+            (error.survey.md[-1] - error.survey.md[-2]) / 2 * mag
+            * np.array([
+                -sin(error.survey.azi_true_rad[-1]),
+                cos(error.survey.azi_true_rad[-1])
+            ]) / error.survey.header.G
+        )
         if error.error_model.lower().split(' ')[-1] != 'rev4':
             e_NEV_star_sing[1, 1] = (
                 (error.survey.md[1] - error.survey.md[0])
@@ -1001,6 +1017,14 @@ def CNA(
                 np.zeros((1, 3))
             )
         )
+        # the last station's own error, whatever comes after it
+        e_NEV_star_sing[-1, :2] = (
+            (error.survey.md[-1] - error.survey.md[-2]) / 2 * mag
+            * np.array([
+                -sin(error.survey.azi_true_rad[-1]),
+                cos(error.survey.azi_true_rad[-1])
+            ])
+        )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
 
         return error._generate_error(
@@ -1437,6 +1461,10 @@ def XYM3(
                 np.zeros((1, 3))
             )
         )
+        # the last station's own error, whatever comes after it
+        e_NEV_star_sing[-1, 0] = (
+            (error.survey.md[-1] - error.survey.md[-2]) / 2 * mag
+        )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
 
         return error._generate_error(
@@ -1563,6 +1591,10 @@ def XYM4(
                 np.zeros((1, 3))
             )
         )
+        # the last station's own error, whatever comes after it
+        e_NEV_star_sing[-1, 1] = (
+            (error.survey.md[-1] - error.survey.md[-2]) / 2 * mag
+        )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
 
         return error._generate_error(
-- 
2.43.0


From 982c730a7ca410753aeea119428ec9c9c5fb1744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 48/69] fix: interpolated nodes carry the interpolated
 covariance, so stations added at clearance minima keep the reference well's
 uncertainty

---
 welleng/survey.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index f4ad622..c9ebe64 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1830,6 +1830,10 @@ def get_node(survey, idx, interpolated=False):
         md=survey.md[idx],
         unit=survey.unit,
         nev=True,
+        cov_nev=(
+            None if survey.cov_nev is None
+            else np.array(survey.cov_nev[idx]).reshape(1, 3, 3)
+        ),
         interpolated=interpolated
     )
     return node
-- 
2.43.0


From 71d482c409cf20d50cf44541d4c4c6dd39c30348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 49/69] fix: get_sf_mins keeps the depth unit of the reference
 well

---
 welleng/clearance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 94924de..3884118 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -558,7 +558,8 @@ class IscwsaClearance(Clearance):
                     radius=np.insert(
                         self.ref.radius, i, self.ref.radius[i]
                     ),
-                    header=sh
+                    header=sh,
+                    unit=self.ref.unit
                 )
 
                 self.ref = survey
-- 
2.43.0


From d79ea2f0e6119397d8b924469eb41c0662c49fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 50/69] fix: sliced_mesh's default method is one WellMesh knows

---
 welleng/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/mesh.py b/welleng/mesh.py
index 0d5080e..44a17ba 100644
--- a/welleng/mesh.py
+++ b/welleng/mesh.py
@@ -431,7 +431,7 @@ def sliced_mesh(
     start=0,
     stop=-1,
     step=1,
-    method="mesh_ellipse",
+    method="ellipse",
 ):
     """
     Generates a list of mesh objects of a user defined length.
-- 
2.43.0


From e32b5362a753725d76119d28c3cba18b157f92e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 51/69] fix: MeshClearance builds its meshes with the sigma_pa
 it reports

---
 welleng/clearance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 3884118..8704af0 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -951,6 +951,7 @@ class MeshClearance(Clearance):
             survey=survey,
             n_verts=self.n_verts,
             sigma=self.sigma,
+            sigma_pa=self.sigma_pa,
             Sm=Sm,
         )
 
-- 
2.43.0


From a4518a308a64a4d04c1486ca9ffe57f1991873dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 52/69] fix: use the asked-for section bottoms as the added
 station depths

---
 welleng/torque_drag.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 6c22f4d..a4ee443 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -107,6 +107,7 @@ class TorqueDrag:
         calculated for these key locations.
         """
         q = []
+        bottoms_new = []
 
         bottoms = {
             v['bottom'] for sections in (
@@ -118,6 +119,7 @@ class TorqueDrag:
             if bottom in self.survey_original.md:
                 continue
             else:
+                bottoms_new.append(bottom)
                 q.append(interpolate_md(
                     self.survey_original, bottom
                 ))
@@ -128,7 +130,8 @@ class TorqueDrag:
             self.survey_original.azi_grid_rad.tolist()
         )
 
-        md.extend([station.md[-1] for station in q])
+        # the depths asked for, since interpolated ones can be off by rounding
+        md.extend(bottoms_new)
         inc.extend([station.inc_rad[-1] for station in q])
         azi.extend([station.azi_grid_rad[-1] for station in q])
 
-- 
2.43.0


From 4415da5c0f75aba484fc5b194c2349579f3b26c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 53/69] fix: the shallowest section of a complete string
 reaches the top in String.depth

---
 welleng/architecture.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index 7861f98..44070ea 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -48,9 +48,13 @@ class String:
                     k: v for k, v in self.sections[section].items()
                     if k not in ['top', 'bottom', 'length', 'buoyancy_factor']
             }
-            string_new.add_section(
-                length=self.sections[section]['length'], **params
+            # the shallowest section of a complete string reaches the top, which
+            # adding up lengths can miss by a rounding error
+            length = (
+                None if self.complete and section == 0
+                else self.sections[section]['length']
             )
+            string_new.add_section(length=length, **params)
             if string_new.sections[0]['top'] == self.top:
                 reached_top = True
 
-- 
2.43.0


From f0594687eba5696773c105a459b4e5d88dde4f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 54/69] fix: a radius of zero in an array has infinite dogleg
 severity

---
 welleng/utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index 5d08034..cc3c95e 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -448,17 +448,13 @@ def dls_from_radius(radius):
     Returns the dls in degrees from a radius.
     """
     if isinstance(radius, np.ndarray):
-        circumference = np.full_like(radius, np.inf)
-        circumference = np.where(
-            radius != 0,
-            2 * np.pi * radius,
-            circumference
-        )
+        circumference = 2 * np.pi * radius
     else:
         if radius == 0:
             return np.inf
         circumference = 2 * np.pi * radius
-    dls = 360 / circumference * 30
+    with np.errstate(divide='ignore'):
+        dls = 360 / circumference * 30
 
     return dls
 
@@ -468,7 +464,7 @@ def radius_from_dls(dls):
     Returns the radius in meters from a DLS in deg/30m.
     """
     if isinstance(dls, np.ndarray):
-        circumference = np.full_like(dls, np.inf)
+        circumference = np.full_like(dls, np.inf, dtype=float)
         circumference = np.where(
             dls != 0,
             (30 / dls) * 360,
-- 
2.43.0


From f19e5745d134489bcf84202d0fcdad267b6327d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 55/69] fix: decimal2dms takes whole-number angles

---
 welleng/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index cc3c95e..be20ae5 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -751,8 +751,8 @@ def decimal2dms(decimal: tuple | NDArray, ndigits: int = None) -> tuple | NDArra
     """
     flag = False
     _decimal = np.array(decimal)
-    if _decimal.dtype == np.float64:
-        _decimal = _decimal.reshape((-1, 1))
+    if np.issubdtype(_decimal.dtype, np.number):
+        _decimal = _decimal.astype(float).reshape((-1, 1))
         flag = True
     try:
         dms = np.apply_along_axis(_decimal2dms, -1, _decimal, ndigits)
-- 
2.43.0


From 3d0162631719d4ba974c89c9536c80f3b0191aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 56/69] fix: dms_from_string reads signs, small seconds and
 degrees written as floats

---
 welleng/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index be20ae5..fcaf767 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -866,18 +866,19 @@ def pprint_dms(dms, symbols: bool = True, return_data: bool = False):
 def dms_from_string(text):
     """Extracts the values from a string dms x or y or northing or easting.
     """
-    pattern = re.compile(r'(\d+)\s*(?:°|deg)?,\s*(\d+)\s*(?:\'|min)?,\s*(\d+(?:\.\d+)?)\s*(sec)?\s*.*?(\S+)?$', re.IGNORECASE)
+    pattern = re.compile(r'([-+]?\d+)(?:\.0+)?\s*(?:°|deg)?,\s*(\d+)(?:\.0+)?\s*(?:\'|min)?,\s*(\d+(?:\.\d+)?(?:e[-+]?\d+)?)\s*(sec|")?\s*.*?(\S+)?$', re.IGNORECASE)
     matches = pattern.findall(text)
 
     if matches:
         deg, min, sec_str = matches[0][:3]
         sec = float(sec_str)
         final_data = matches[0][-1] if matches[0][-1] else None
+        deg = -0.0 if deg.startswith('-') and int(deg) == 0 else int(deg)
 
         if final_data:
-            return (int(deg), int(min), sec, final_data)
+            return (deg, int(min), sec, final_data)
         else:
-            return (int(deg), int(min), sec)
+            return (deg, int(min), sec)
 
     else:
         return
-- 
2.43.0


From f84573c9c2a86c8004f7a25403c1ec180468d07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 57/69] fix: weight up a drilling fluid to its reference
 density

---
 welleng/fluid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/welleng/fluid.py b/welleng/fluid.py
index 4014b99..7859dc0 100644
--- a/welleng/fluid.py
+++ b/welleng/fluid.py
@@ -128,7 +128,10 @@ class Fluid:
         volume_weighting_material = (
             self.density_fluid_reference
             - self.base_fluid_density_reference
-        ) / self.density_weighting_material
+        ) / (
+            self.density_weighting_material
+            - self.density_fluid_reference
+        )
 
         volume_total = 1 + volume_weighting_material
 
-- 
2.43.0


From ab838107c285b0d7b4c13f4eaf1f7f165b4e6d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 58/69] fix: fluid density profile accepts a list of
 temperatures

---
 welleng/fluid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/welleng/fluid.py b/welleng/fluid.py
index 7859dc0..6c58074 100644
--- a/welleng/fluid.py
+++ b/welleng/fluid.py
@@ -239,6 +239,7 @@ class Fluid:
 
         # Convert to (n) array to manage single float or list/array
         depth = np.array([depth]).reshape(-1)
+        temperature = np.array([temperature]).reshape(-1)
         with np.errstate(invalid='ignore'):
             temperature_thermal_gradient = np.nan_to_num((
                 temperature - self.temp_reference
-- 
2.43.0


From 18669e6c959dff5a8e8766610a6c450cb4eed215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 59/69] fix: magnetic field fallback no longer overwrites the
 given survey date

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index c9ebe64..fa24675 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -431,7 +431,7 @@ class SurveyHeader:
                         latitude=self.latitude,
                         longitude=self.longitude,
                         altitude=self.altitude,
-                        date=self._get_date(date=None)
+                        date=datetime.today().strftime('%Y-%m-%d')
                     )
                 except:  # prevents crashing if there's no connection to the internet - need to have a log that captures when this occurs.
                     # TODO: log when no internet connection prvents updating the result var
-- 
2.43.0


From 87e07780b362d6f9ec4aa6dc7c8d39719cf7313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 60/69] fix: survey fitting for export keeps the survey's frame
 and unit

---
 welleng/survey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index fa24675..e761fb6 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2622,7 +2622,8 @@ def func(x0, survey, dls_cont, tolerance):
         inc=inc,
         azi=azi,
         start_nev=nev[0],
-        header=survey.header
+        header=_get_grid_header(survey.header),
+        unit=survey.unit
     )
 
     s_nev = np.column_stack([s.n, s.e, s.tvd])
-- 
2.43.0


From ac94d05bbc59e12620eec93c0a44990f0be37d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 61/69] fix: each wbp target owns its geometry

---
 welleng/exchange/wbp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index aa97b1a..46b7f72 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -1,4 +1,5 @@
 import os
+from copy import deepcopy
 import yaml
 from ..survey import (
     TurnPoint,
@@ -56,7 +57,7 @@ class Target:
     ):
         self.name = name
         self.location = location
-        self.geometry = geometry
+        self.geometry = deepcopy(geometry)
 
 
 class SurveyPoint:
-- 
2.43.0


From 7fe6ce9cdd63a7f8802b9743744e8edb4855faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 62/69] fix: wbp surface datum parses and is ordered easting,
 northing, depth

---
 welleng/exchange/wbp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 46b7f72..c7ca5a4 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -225,12 +225,12 @@ class WellPlan:
             for line in self.parent_data:
                 if "L:" in line:
                     code, e, n, v = line.split()
-                    self.surface_datum = np.array([e, n, v]).astype(np.float)
+                    self.surface_datum = np.array([e, n, v]).astype(float)
                     break
         else:
             self.surface_datum = np.array([
-                self.survey.n,
                 self.survey.e,
+                self.survey.n,
                 self.survey.tvd
             ]).T[0]
 
-- 
2.43.0


From 8e405e913dbd34626d62d9972e073f2bf95354f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 63/69] fix: wbp target geometry lines parse

---
 welleng/exchange/wbp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index c7ca5a4..ed51411 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -298,9 +298,9 @@ class WellPlan:
 
     def _add_target_geometry(self, data):
         tg = self.targets[-1].geometry
-        tg.type = self.wbp_dict['TARGETS']['type'][data[2]]
-        tg.locked = data[3]
-        tg.offset = [float(data[4:13], float(data[13:23]))]
+        tg['type'] = self.wbp_dict['TARGETS']['type'][data[2]]
+        tg['locked'] = data[3]
+        tg['offset'] = [float(data[4:13]), float(data[13:23])]
 
     def _add_target_color(self, data):
         tgc = self.targets[-1].geometry['color']
-- 
2.43.0


From 229722319dfd5acbc8a1ee7532fe62d714fd8280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 64/69] fix: wbp_to_survey builds the survey from the
 connections

---
 welleng/exchange/wbp.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index ed51411..6690197 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -718,11 +718,6 @@ def wbp_to_survey(
 
     start_nev = np.array(pos[0])
 
-    survey_data = from_connections(
-        connections,
-        step=step
-    )
-
     lat, lon = utm.to_latlon(
         start_nev[1],
         start_nev[0],
@@ -739,9 +734,9 @@ def wbp_to_survey(
     )
 
     survey = from_connections(
-        survey_data,
+        connections,
+        step=step,
         survey_header=sh,
-        start_nev=start_nev,
         radius=radius,
         deg=False
     )
-- 
2.43.0


From efbf24d789b95673292e0c40599ec3e85bb33373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 65/69] fix: wbp export strips only repeated rows

---
 welleng/exchange/wbp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 6690197..c553cd5 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -770,8 +770,7 @@ def strip_duplicates(survey):
         if i == 0:
             temp.append(s)
             continue
-        # if s == temp[-1]:
-        if s[1] == temp[-1][1]:
+        if s == temp[-1]:
             continue
         else:
             temp.append(s)
-- 
2.43.0


From 8f40d14062657dc69dfbe85eea314d553cfb6336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 66/69] fix: EDM get_attributes filters on all the attributes
 given

---
 welleng/exchange/edm.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index fe17ccf..af1dadc 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -63,15 +63,14 @@ class EDM:
                             booleans.append(True)
                         else:
                             booleans.append(False)
-                        if bool(booleans):
-                            if (
-                                logic == 'AND' and all(booleans)
-                                or logic == 'OR' and any(booleans)
-                            ):
-                                try:
-                                    data[child.tag].append(child.attrib)
-                                except KeyError:
-                                    data[child.tag] = [child.attrib]
+                    if (
+                        logic == 'AND' and all(booleans)
+                        or logic == 'OR' and any(booleans)
+                    ):
+                        try:
+                            data[child.tag].append(child.attrib)
+                        except KeyError:
+                            data[child.tag] = [child.attrib]
                 else:
                     try:
                         data[child.tag].append(child.attrib)
-- 
2.43.0


From 5913a205c58269fb3c4abc7868a74a41c62cb8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 67/69] fix: EDM wellbore data lists each well and datum once

---
 welleng/exchange/edm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index af1dadc..d7c0b0b 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -169,11 +169,12 @@ class EDM:
             additional = self.get_attributes(
                 tags=tags, attributes={'wellbore_id': predecessors}
             )
-        attributes = self.add_attributes(attributes, additional)
+            attributes = self.add_attributes(attributes, additional)
 
         return attributes
 
-    def get_parents(self, wellbore_id, predecessors=[]):
+    def get_parents(self, wellbore_id, predecessors=None):
+        predecessors = [] if predecessors is None else predecessors
         for child in self.root:
             if (
                 child.tag == "CD_WELLBORE"
-- 
2.43.0


From ea82e0ad7189035bc6379ef3b49c9310993b3666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:26 +0000
Subject: [PATCH 68/69] fix: tortuosity_index ignored the dls_tol it was given

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index e761fb6..2b82fe7 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1440,7 +1440,7 @@ class Survey:
         """
 
         return tortuosity_index(
-            self, rtol=rtol, dls_tol=None, data=data, **kwargs
+            self, rtol=rtol, dls_tol=dls_tol, data=data, **kwargs
         )
 
     def directional_difficulty_index(self, **kwargs):
-- 
2.43.0


From 3faeb650b253036eca30b09987dc623dce33a3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:35 +0000
Subject: [PATCH 69/69] fix: get_circle_radius used the previous interval's
 radius at each interval's start

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 2b82fe7..22fab07 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2201,7 +2201,7 @@ def get_circle_radius(survey, **targets):
     cc1 = (
         nev[:-1] - b1
         / np.linalg.norm(b1, axis=1).reshape(-1, 1)
-        * survey.curve_radius[:-1].reshape(-1, 1)
+        * survey.curve_radius[1:].reshape(-1, 1)
     )
     cc2 = (
         nev[1:] - b2
-- 
2.43.0

