From 457b2b3a8380c5e7b7122e9699b6a9ed9829aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 01/22] fix: container dataclasses must not use array objects
 as field defaults

Python >= 3.11 refuses unhashable defaults, so importing pySailingVLM.runner.container (and with
it the command line program) failed; on 3.10 the default arrays were shared between instances.
---
 pySailingVLM/runner/container.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pySailingVLM/runner/container.py b/pySailingVLM/runner/container.py
index 869bc71..3fe02e2 100644
--- a/pySailingVLM/runner/container.py
+++ b/pySailingVLM/runner/container.py
@@ -67,10 +67,10 @@ class Rig:
 class MainSail:
     centerline_twist_deg: np.ndarray = None
     
-    girths: np.ndarray = np.array([0.00, 1./8, 1./4, 1./2, 3./4, 7./8, 1.00])
-    chords: np.ndarray = np.array([4.00, 3.82, 3.64, 3.20, 2.64, 2.32, 2.00])
-    camber: np.ndarray = 5*np.array([0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01])
-    camber_distance_from_luff: np.ndarray = np.array([0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5]) # starting from leading edge
+    girths: np.ndarray = field(default_factory=lambda: np.array([0.00, 1./8, 1./4, 1./2, 3./4, 7./8, 1.00]))
+    chords: np.ndarray = field(default_factory=lambda: np.array([4.00, 3.82, 3.64, 3.20, 2.64, 2.32, 2.00]))
+    camber: np.ndarray = field(default_factory=lambda: 5*np.array([0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01]))
+    camber_distance_from_luff: np.ndarray = field(default_factory=lambda: np.array([0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5])) # starting from leading edge
     
     def __post_init__(self):
         if self.centerline_twist_deg is None:
@@ -80,10 +80,10 @@ class MainSail:
 class JibSail:
     centerline_twist_deg: np.ndarray = None
     
-    girths: np.ndarray = np.array([0.00, 1./4, 1./2, 3./4, 1.00])
-    chords: np.ndarray =np.array([3.80, 2.98, 2.15, 1.33, 0.5])
-    camber: np.ndarray = 0*np.array([0.01, 0.01, 0.01, 0.01, 0.01])
-    camber_distance_from_luff: np.ndarray = np.array([0.5, 0.5, 0.5, 0.5, 0.5]) # starting from leading edge   
+    girths: np.ndarray = field(default_factory=lambda: np.array([0.00, 1./4, 1./2, 3./4, 1.00]))
+    chords: np.ndarray = field(default_factory=lambda: np.array([3.80, 2.98, 2.15, 1.33, 0.5]))
+    camber: np.ndarray = field(default_factory=lambda: 0*np.array([0.01, 0.01, 0.01, 0.01, 0.01]))
+    camber_distance_from_luff: np.ndarray = field(default_factory=lambda: np.array([0.5, 0.5, 0.5, 0.5, 0.5])) # starting from leading edge   
     def __post_init__(self):
         if self.centerline_twist_deg is None:
             self.centerline_twist_deg = 15. * self.girths + 7
@@ -103,7 +103,7 @@ class JibSail:
 # heeling_reference [m] - distance from the water level,  at which the heeling moment is calculated.
 @dataclass
 class Csys:
-    reference_level_for_moments: np.ndarray =  np.array([0, 0, 0])  # [yaw_reference, sway_reference, heeling_reference]
+    reference_level_for_moments: np.ndarray = field(default_factory=lambda: np.array([0, 0, 0]))  # [yaw_reference, sway_reference, heeling_reference]
 
 
 # GEOMETRY OF THE KEEL
@@ -111,4 +111,4 @@ class Csys:
 # reminder: the z coord shall be negative (under the water)
 @dataclass
 class Keel:
-    center_of_lateral_resistance_upright: np.ndarray =  np.array([0, 0, -1.0])  # [m] the coordinates for a yacht standing in upright position
+    center_of_lateral_resistance_upright: np.ndarray = field(default_factory=lambda: np.array([0, 0, -1.0]))  # [m] the coordinates for a yacht standing in upright position
-- 
2.43.0


From b8174e2c4b94b8ef8e80dddd8ddc29a97389c5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 02/22] fix: mirror the camber position of the underwater sail
 image

The underwater lattice runs head to tack: chords and camber are flipped for it, the position of
maximum camber was not, so the image was not a mirror of a sail whose camber position varies.
---
 pySailingVLM/yacht_geometry/sail_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/yacht_geometry/sail_geometry.py b/pySailingVLM/yacht_geometry/sail_geometry.py
index 44e0f87..4fad021 100644
--- a/pySailingVLM/yacht_geometry/sail_geometry.py
+++ b/pySailingVLM/yacht_geometry/sail_geometry.py
@@ -89,7 +89,7 @@ class SailGeometry(BaseGeometry, ABC):
         sh0, sh1, sh2 = mesh.shape
         mesh = mesh.reshape(sh0*sh1, sh2)
         
-        mesh_underwater = make_airfoil_mesh([le_SW_underwater, le_NW_underwater],[self.__n_chordwise, self.__n_spanwise],fchords_vec, interpolated_distance_from_luff, np.flip(interpolated_camber))
+        mesh_underwater = make_airfoil_mesh([le_SW_underwater, le_NW_underwater],[self.__n_chordwise, self.__n_spanwise],fchords_vec, np.flip(interpolated_distance_from_luff), np.flip(interpolated_camber))
         ### zero mesh
         zero_mesh_under = np.swapaxes(mesh_underwater, 0, 1)
         panels_under_zero, _, _= make_panels_from_mesh_spanwise(zero_mesh_under)
-- 
2.43.0


From 2fd295e0ffcdebcb5680a2c0b3be15adf58962c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 03/22] fix: apply the selected LLT_twist mode

The twist distribution chosen by LLT_twist was computed and then overwritten with the real twist.
---
 pySailingVLM/yacht_geometry/sail_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/yacht_geometry/sail_geometry.py b/pySailingVLM/yacht_geometry/sail_geometry.py
index 4fad021..353d6fa 100644
--- a/pySailingVLM/yacht_geometry/sail_geometry.py
+++ b/pySailingVLM/yacht_geometry/sail_geometry.py
@@ -125,7 +125,7 @@ class SailGeometry(BaseGeometry, ABC):
                 'real_twist': initial_sail_twist_deg
             }
             sail_twist_deg = twist_dict[LLT_twist]
-            sail_twist_deg = np.hstack([initial_sail_twist_deg] * (sh1))
+            sail_twist_deg = np.hstack([sail_twist_deg] * (sh1))
             sail_twist_deg = sail_twist_deg.reshape(sh1, sh0).transpose().flatten()
 
             p2 = mesh[::sh1][-1]
-- 
2.43.0


From 1f4d4f2708bce166d175841038b293c34725c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 04/22] fix: take the keel moment about the reference point
 used for the sails

M_total adds the two, but the keel part was always taken about the original origin.
---
 pySailingVLM/results/inviscid_flow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySailingVLM/results/inviscid_flow.py b/pySailingVLM/results/inviscid_flow.py
index c223b38..0bf85a0 100644
--- a/pySailingVLM/results/inviscid_flow.py
+++ b/pySailingVLM/results/inviscid_flow.py
@@ -102,7 +102,9 @@ class InviscidFlowResults:
         self.M_total_above_water_in_centerline_csys = M_total_above_water_in_centerline_csys
 
     def estimate_heeling_moment_from_keel(self, underwater_centre_of_effort_xyz):
-        self.M_xyz_underwater_estimate_total = np.cross(underwater_centre_of_effort_xyz, -self.F_xyz_total)
+        # the same reference point as for the moments of the sails
+        r = underwater_centre_of_effort_xyz - self.csys_transformations.v_from_original_xyz_2_reference_csys_xyz
+        self.M_xyz_underwater_estimate_total = np.cross(r, -self.F_xyz_total)
         self.M_centerline_csys_underwater_estimate_total = self.csys_transformations.from_xyz_to_centerline_csys([self.M_xyz_underwater_estimate_total])[0]
 
     def __iter__(self):
-- 
2.43.0


From 5aa80b2a81f2e0d7bed94eec32512b3ea825821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 05/22] fix: report AWA_fs in the right quadrant

arctan(y/x) is off by 180 deg when the flow at a panel comes from abaft the beam; AWA_infs
already uses arctan2.
---
 pySailingVLM/results/inviscid_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/results/inviscid_flow.py b/pySailingVLM/results/inviscid_flow.py
index 0bf85a0..b29f1f2 100644
--- a/pySailingVLM/results/inviscid_flow.py
+++ b/pySailingVLM/results/inviscid_flow.py
@@ -24,7 +24,7 @@ class InviscidFlowResults:
         self.V_induced_length = np.linalg.norm(self.V_induced_at_cp, axis=1)
         self.V_app_fs_at_cp = myvlm.V_app_fs_at_cp#V_app_fs
         self.V_app_fs_length = np.linalg.norm(self.V_app_fs_at_cp, axis=1)
-        self.AWA_app_fs = np.arctan(myvlm.V_app_fs_at_cp[:, 1] / myvlm.V_app_fs_at_cp[:, 0])
+        self.AWA_app_fs = np.arctan2(myvlm.V_app_fs_at_cp[:, 1], myvlm.V_app_fs_at_cp[:, 0])
   
         self.F_xyz = myvlm.force
         self.F_xyz_above_water, self.F_xyz_total = extract_above_water_quantities(self.F_xyz)
-- 
2.43.0


From c7f45cf64bd41cabeb38fec88991fb22ed634783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 06/22] fix: do not swap the section lift and drag plots

---
 pySailingVLM/runner/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 8cd596d..e555420 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -89,6 +89,6 @@ def main():
     plot_cp(sail_set.zero_mesh, myvlm.p_coeffs, out.name)
     
     mean_cp, cl_data, cd_data = get_data_for_coeff_plot(myvlm, solver)
-    plot_section_coeff(cd_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
-    plot_section_coeff(cl_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
+    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
+    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
     
\ No newline at end of file
-- 
2.43.0


From a1f8472a11c68fcd28c3f97e85bd25e8679e1748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 07/22] fix: rotation about an axis parallel to x divided by
 zero

---
 pySailingVLM/rotations/geometry_calc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/rotations/geometry_calc.py b/pySailingVLM/rotations/geometry_calc.py
index f03d205..15c872d 100644
--- a/pySailingVLM/rotations/geometry_calc.py
+++ b/pySailingVLM/rotations/geometry_calc.py
@@ -52,12 +52,14 @@ def rotate_points_around_arbitrary_axis(ps : np.ndarray, p1 : np.array, p2 : np.
     l = norm(axis)
     a,b,c = axis
     v = np.sqrt(b**2 + c**2)
+    # axis parallel to x: any rotation about x will do to bring it into the x-z plane
+    cos_x, sin_x = (c/v, b/v) if v > 0 else (1., 0.)
 
     D = np.array([[1,0,0,-x1],[0,1,0,-y1],[0,0,1,-z1],[0,0,0,1]])
     D_inv = np.array([[1,0,0,x1],[0,1,0,y1],[0,0,1,z1],[0,0,0,1]])
 
-    R_x = np.array([[1,0,0,0],[0,c/v,-b/v,0],[0,b/v,c/v,0],[0,0,0,1]])
-    R_x_inv = np.array([[1,0,0,0],[0,c/v,b/v,0],[0,-b/v,c/v,0],[0,0,0,1]])
+    R_x = np.array([[1,0,0,0],[0,cos_x,-sin_x,0],[0,sin_x,cos_x,0],[0,0,0,1]])
+    R_x_inv = np.array([[1,0,0,0],[0,cos_x,sin_x,0],[0,-sin_x,cos_x,0],[0,0,0,1]])
 
     R_y = np.array([[v/l,0,-a/l,0],[0,1,0,0],[a/l,0,v/l,0],[0,0,0,1]])
     R_y_inv = np.array([[v/l,0,a/l,0],[0,1,0,0],[-a/l,0,v/l,0],[0,0,0,1]])
-- 
2.43.0


From f226d585742a1535294993ab5b4931c081d06d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 08/22] fix: Aircraft.CL is the lift coefficient, not the
 spanwise one

The wing spans z; the coefficient was taken from the z component, which is zero.
---
 pySailingVLM/runner/aircraft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/aircraft.py b/pySailingVLM/runner/aircraft.py
index 1de797e..130b4d0 100644
--- a/pySailingVLM/runner/aircraft.py
+++ b/pySailingVLM/runner/aircraft.py
@@ -4,7 +4,7 @@ import numpy as np
 
 from pySailingVLM.rotations.geometry_calc import rotation_matrix
 from pySailingVLM.solver.panels import make_panels_from_le_te_points, get_panels_area
-from pySailingVLM.solver.coefs import get_CL_CD_free_wing, get_vlm_CL_CD_free_wing, get_vlm_Cxyz
+from pySailingVLM.solver.coefs import get_CL_CD_free_wing, get_vlm_Cxyz
 from pySailingVLM.solver.coefs import calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points, \
                                 solve_eq, calculate_RHS, calc_velocity_coefs
 
@@ -66,7 +66,8 @@ class Aircraft:
         self.__force, _, _ = calc_force_wrapper(self.__V_app_infw, self.__gamma_magnitude, self.rho, cp, rings, self.n_spanwise, normals, span_vectors, trailing_edge_info, leading_edge_info, 'force_xyz', self.gamma_orientation)
         self.__pressure = calc_pressure(self.__force, normals, areas)
 
-        self.__CL, self.__CD = get_vlm_CL_CD_free_wing(self.__force, self.V, self.rho, self.__S)
+        # the span is along z here, so the lift is the y component
+        self.__CD, self.__CL, _ = get_vlm_Cxyz(self.__force, self.V, self.rho, self.__S)
 
         total_p = np.sum(self.__pressure, axis=0)
         q = 0.5 * rho * (np.linalg.norm(self.V) ** 2) * self.__S
-- 
2.43.0


From 5a4a1e464bf5d0dfb4da068d4bd4169d2c949be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 09/22] fix: load variables.py from the directory given with
 -dv

The directory was appended to sys.path, so a variables.py anywhere earlier on the path (the
current directory under python -m) silently won.
---
 pySailingVLM/runner/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index e555420..51a94e7 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -17,7 +17,7 @@ from pySailingVLM.solver.coefs import get_data_for_coeff_plot
 
 def load_variable_module(args):
     try:
-        sys.path.append(args.dvars)
+        sys.path.insert(0, args.dvars)
         globals()['vr'] = __import__('variables')
     except ImportError as e:
         print(f'No variables.py file found in {args.dvars}\n{e}')
-- 
2.43.0


From 5e6548b9cc74fa79c90cb736a899d63dba522256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:16 +0000
Subject: [PATCH 10/22] fix: validate the exponential wind profile and reject
 unknown profiles

The misspelled name meant that missing exponential parameters were never reported, and any
unknown profile silently became the logarithmic one.
---
 pySailingVLM/runner/sail.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index 28d131c..f7a4bcf 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -44,10 +44,12 @@ class Wind:
     
     def __post_init__(self):
         try: 
+            if self.conditions.wind_profile not in ('exponential', 'flat', 'logarithmic'):
+                raise ValueError(f"ERROR: unknown wind_profile {self.conditions.wind_profile!r}!")
             if self.conditions.wind_profile == 'logarithmic' and None in [self.conditions.roughness, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in logarithmic mode!: Roughness or wind_reference_measurment_height badly defined!")
-            elif self.conditions.wind_profile == 'expotentional' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
-                raise ValueError("ERROR in expotentional mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
+            elif self.conditions.wind_profile == 'exponential' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
+                raise ValueError("ERROR in exponential mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
             elif self.conditions.wind_profile == 'flat' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in flat mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
         except ValueError as err:
-- 
2.43.0


From eba22054552780e3eeaa26e923ad7c646dec17c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:16 +0000
Subject: [PATCH 11/22] fix: report a missing sail or an unknown sails_def

Both escaped the validation as UnboundLocalError or as a failure to concatenate no sails.
---
 pySailingVLM/runner/sail.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index f7a4bcf..ae29cdd 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -87,6 +87,10 @@ class Sail:
      
     def __post_init__(self):
         try:
+            if self.rig.sails_def not in ('jib', 'main', 'jib_and_main'):
+                raise ValueError(f'Unknown sails_def {self.rig.sails_def!r}!')
+            jib_stuff = [None]
+            main_stuff = [None]
             if self.jib_sail is not None:
                 jib_stuff = [self.rig.foretriangle_base, self.rig.foretriangle_height, self.rig.jib_luff, self.jib_sail.girths, self.jib_sail.centerline_twist_deg, self.jib_sail.camber, self.jib_sail.camber_distance_from_luff]
             if self.main_sail is not None:
-- 
2.43.0


From 4bfd0dabe228ba4e153fc5c722f2cb311c4ea56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:16 +0000
Subject: [PATCH 12/22] fix: include the chords in the sail input checks

A chords array of the wrong length was interpolated against the girths without a message (the
linear one fails inside numpy, a missing one inside the interpolator).
---
 pySailingVLM/runner/sail.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index ae29cdd..37e3c19 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -92,9 +92,9 @@ class Sail:
             jib_stuff = [None]
             main_stuff = [None]
             if self.jib_sail is not None:
-                jib_stuff = [self.rig.foretriangle_base, self.rig.foretriangle_height, self.rig.jib_luff, self.jib_sail.girths, self.jib_sail.centerline_twist_deg, self.jib_sail.camber, self.jib_sail.camber_distance_from_luff]
+                jib_stuff = [self.rig.foretriangle_base, self.rig.foretriangle_height, self.rig.jib_luff, self.jib_sail.girths, self.jib_sail.chords, self.jib_sail.centerline_twist_deg, self.jib_sail.camber, self.jib_sail.camber_distance_from_luff]
             if self.main_sail is not None:
-                main_stuff = [self.rig.main_sail_luff, self.main_sail.girths, self.main_sail.centerline_twist_deg, self.main_sail.camber, self.main_sail.camber_distance_from_luff]
+                main_stuff = [self.rig.main_sail_luff, self.main_sail.girths, self.main_sail.chords, self.main_sail.centerline_twist_deg, self.main_sail.camber, self.main_sail.camber_distance_from_luff]
             
             if self.rig.sails_def == 'jib' and check_list_for_none(jib_stuff): # if JIB and all vars are not NONE
                 raise ValueError('Not all JIB variables are speciified!')
-- 
2.43.0


From 7a31a6e3c68dd781575181dbf9428fda67fa7c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:16 +0000
Subject: [PATCH 13/22] fix: exit with a failure status when the input is
 rejected

---
 pySailingVLM/runner/cli.py  | 2 +-
 pySailingVLM/runner/sail.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 51a94e7..86a6553 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -21,7 +21,7 @@ def load_variable_module(args):
         globals()['vr'] = __import__('variables')
     except ImportError as e:
         print(f'No variables.py file found in {args.dvars}\n{e}')
-        sys.exit(0)
+        sys.exit(1)
     
 def parse_cli():
 
diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index 37e3c19..8d0e468 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -54,7 +54,7 @@ class Wind:
                 raise ValueError("ERROR in flat mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
         except ValueError as err:
             print(err)
-            sys.exit()
+            sys.exit(1)
             
     def __get_profile(self):
         if self.conditions.wind_profile == 'exponential':
@@ -112,7 +112,7 @@ class Sail:
                 check_input_arr_shapes(main_stuff[1:], self.rig.sails_def)
         except ValueError as e:
             print(e)
-            sys.exit()
+            sys.exit(1)
 
     def __get_sail_set(self):
         
-- 
2.43.0


From 0a1973ea3b1de44980f92335098055a637fbe1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 14/22] fix: label the section plots with the sails they show

A set with only a main sail was plotted with the label 'jib'.
---
 pySailingVLM/runner/cli.py            | 5 +++--
 pySailingVLM/solver/panels_plotter.py | 5 ++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 86a6553..42f0a6f 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -88,7 +88,8 @@ def main():
     
     plot_cp(sail_set.zero_mesh, myvlm.p_coeffs, out.name)
     
+    labels = [sail.name for sail in sail_set.sails]
     mean_cp, cl_data, cd_data = get_data_for_coeff_plot(myvlm, solver)
-    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
-    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
+    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'], labels)
+    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'], labels)
     
\ No newline at end of file
diff --git a/pySailingVLM/solver/panels_plotter.py b/pySailingVLM/solver/panels_plotter.py
index ee058b8..e8453cd 100644
--- a/pySailingVLM/solver/panels_plotter.py
+++ b/pySailingVLM/solver/panels_plotter.py
@@ -369,7 +369,7 @@ def plot_cp(mesh : np.ndarray, p_coeffs : np.ndarray, path_to_save : str):
     except NameError:
         hv.save(hvpolys, path_to_save + '/cp_plot.html', backend='bokeh')
         
-def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name: str, colors : list):
+def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name: str, colors : list, labels : list = ['jib', 'main']):
     
     allowed_names = ('lift', 'drag')
     try:
@@ -384,7 +384,6 @@ def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name:
     ax1 = fig.add_subplot(111)
     
     l = len(y_data)
-    lbs = ['jib', 'main']
     markers = ["o", "^"]
     
     c_name = 'cl'
@@ -394,7 +393,7 @@ def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name:
         str_latex = '$c_d$'
         
     for i in range(l):
-        ax1.scatter(x_data[i], y_data[i], label=lbs[i], s=5, marker=markers[i], color=colors[i])
+        ax1.scatter(x_data[i], y_data[i], label=labels[i], s=5, marker=markers[i], color=colors[i])
 
     plt.ylabel('Height [m]')
     plt.xlabel(fr'Section {str_latex}')
-- 
2.43.0


From df8fb9e9e7b305e172e2d3b433b7fb493d9afcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 15/22] fix: apparent wind angle of a wind from port

The angle between true and apparent wind was subtracted whatever the side the wind came from.
---
 pySailingVLM/inlet/winds.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pySailingVLM/inlet/winds.py b/pySailingVLM/inlet/winds.py
index b3ce3f0..48fca07 100644
--- a/pySailingVLM/inlet/winds.py
+++ b/pySailingVLM/inlet/winds.py
@@ -42,13 +42,8 @@ class WindBase:
         tws_l = np.linalg.norm(tws_at_h)  # true wind speed - length of the vector
         # tws_l = np.sqrt(tws_at_h[0]*tws_at_h[0]+tws_at_h[1]*tws_at_h[1])  # true wind speed
 
-        alfa_yacht = np.arccos((self.V_yacht * np.cos(self.alpha_true_wind) + tws_l) /
-                               np.sqrt(
-                                   self.V_yacht*self.V_yacht
-                                   + 2*self.V_yacht*tws_l*np.cos(self.alpha_true_wind)
-                                   + tws_l*tws_l))  # result in [rad]
-
-        alpha_app_infs = self.alpha_true_wind - alfa_yacht  # result in [rad]
+        alpha_app_infs = np.arctan2(tws_l * np.sin(self.alpha_true_wind),
+                                    tws_l * np.cos(self.alpha_true_wind) + self.V_yacht)  # result in [rad]
 
         return alpha_app_infs
 
-- 
2.43.0


From 9439e9f445481efef94f62b9e61f39d984ac36ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 16/22] fix: a flat wind needs no profile parameters

It does not use the exponent or the reference height, but was refused without them.
---
 pySailingVLM/runner/sail.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index 8d0e468..3705701 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -50,8 +50,6 @@ class Wind:
                 raise ValueError("ERROR in logarithmic mode!: Roughness or wind_reference_measurment_height badly defined!")
             elif self.conditions.wind_profile == 'exponential' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in exponential mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
-            elif self.conditions.wind_profile == 'flat' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
-                raise ValueError("ERROR in flat mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
         except ValueError as err:
             print(err)
             sys.exit(1)
-- 
2.43.0


From 86c7a7ec7d471b4ae578f82609e077e9452b60c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:44 +0000
Subject: [PATCH 17/22] fix: do not take another directory's variables.py when
 the given one has none

---
 pySailingVLM/runner/cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 42f0a6f..e67cd17 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -16,6 +16,10 @@ from pySailingVLM.runner.container import Output, Rig, Conditions, Solver, MainS
 from pySailingVLM.solver.coefs import get_data_for_coeff_plot
 
 def load_variable_module(args):
+    # no other variables module on the path may stand in for it
+    if not os.path.isfile(os.path.join(args.dvars, 'variables.py')):
+        print(f'No variables.py file found in {args.dvars}')
+        sys.exit(1)
     try:
         sys.path.insert(0, args.dvars)
         globals()['vr'] = __import__('variables')
-- 
2.43.0


From 242e98de1473bfa8dda22eb7ee5b568779874aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:07 +0000
Subject: [PATCH 18/22] fix: results may be stored in the directory of the case
 file

---
 pySailingVLM/runner/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index e67cd17..bb0026f 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -82,7 +82,9 @@ def main():
           f"\tNumber of panels (sail sail_set with mirror): {sail_set.panels.shape}")
 
     df_components, df_integrals, df_inlet_IC = save_results_to_file(myvlm, csys_transformations, inviscid_flow_results, sail_set, out.name, out.file_name)
-    shutil.copy(os.path.join(out.case_dir, out.case_name), os.path.join(out.name, out.case_name))
+    case_file, case_copy = os.path.join(out.case_dir, out.case_name), os.path.join(out.name, out.case_name)
+    if not (os.path.exists(case_copy) and os.path.samefile(case_file, case_copy)):
+        shutil.copy(case_file, case_copy)
 
     print(df_integrals)
     #print(f"\nCPU time: {float(timeit.default_timer() - start):.2f} [s]")
-- 
2.43.0


From 6a6bff5e76232fc23ff4928f341727fcad89b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 19/22] fix: spline interpolation reproduces its data exactly
 (zero camber at an end was refused as negative)

---
 pySailingVLM/solver/interpolator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySailingVLM/solver/interpolator.py b/pySailingVLM/solver/interpolator.py
index a047c1e..343c5c6 100644
--- a/pySailingVLM/solver/interpolator.py
+++ b/pySailingVLM/solver/interpolator.py
@@ -14,6 +14,9 @@ class Interpolator:
     def interpolate_girths(self, x, y, n_points):
         x_new = np.linspace(0., 1., num=n_points, endpoint=True)
         y_new = self.interpolation_switch[self.interpolation_type](x_new, x, y)
+        # data are reproduced exactly, not up to rounding: a zero must not come out negative
+        known = np.isin(x_new, x)
+        y_new[known] = np.asarray(y)[np.searchsorted(x, x_new[known])]
         return y_new
 
     def interpolate_and_mirror_girths(self, girths, y_data_for_interpolation, n_points):
-- 
2.43.0


From 4f404d9f4a6e53d29ba765b2e5a14d5f5b877184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 20/22] fix: centre of effort is drawn in the coordinates of
 the panels

---
 pySailingVLM/solver/panels_plotter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySailingVLM/solver/panels_plotter.py b/pySailingVLM/solver/panels_plotter.py
index e8453cd..fe58ec0 100644
--- a/pySailingVLM/solver/panels_plotter.py
+++ b/pySailingVLM/solver/panels_plotter.py
@@ -297,7 +297,9 @@ def display_CE_CLR(ax : plt.Axes,
 
     scale = 0.8*np.mean(inviscid_flow_results.V_app_fs_length)  # ~10 gives nice plot
     clr = hull.center_of_lateral_resistance
-    ce = inviscid_flow_results.above_water_centre_of_effort_estimate_xyz
+    # the estimate is measured from the reference point of the moments
+    ce = inviscid_flow_results.above_water_centre_of_effort_estimate_xyz \
+        + inviscid_flow_results.csys_transformations.v_from_original_xyz_2_reference_csys_xyz
 
     F = scale * normalize(inviscid_flow_results.F_xyz_total)
     plot_vector(ce, F)
-- 
2.43.0


From 44977e389d3624c5d6cefc447880a6485157405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 21/22] fix: panels coloured by circulation show the
 circulation

---
 pySailingVLM/solver/panels_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/solver/panels_plotter.py b/pySailingVLM/solver/panels_plotter.py
index fe58ec0..27e072b 100644
--- a/pySailingVLM/solver/panels_plotter.py
+++ b/pySailingVLM/solver/panels_plotter.py
@@ -86,7 +86,7 @@ def display_panels_xyz(vlm : Vlm, color_panels_by : str) -> Tuple[plt.axes, int]
 
     data = None
     if color_panels_by == 'gamma_magnitude':
-        data = vlm.pressure
+        data = vlm.gamma_magnitude
     elif color_panels_by == 'p_coeffs':
         data = vlm.p_coeffs
     else:
-- 
2.43.0


From 709219ac38fda22f5b3d316458e308e6354fd2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:57 +0000
Subject: [PATCH 22/22] fix: the jib of a boat whose forestay leans forward was
 set on a forestay leaning aft

---
 pySailingVLM/yacht_geometry/sail_factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySailingVLM/yacht_geometry/sail_factory.py b/pySailingVLM/yacht_geometry/sail_factory.py
index 852c31d..da7b2ce 100644
--- a/pySailingVLM/yacht_geometry/sail_factory.py
+++ b/pySailingVLM/yacht_geometry/sail_factory.py
@@ -43,6 +43,9 @@ class SailFactory:
                                   - 2 * foretriangle_base * foretriangle_height * np.cos(self.rake))
         # sine theorem
         forestay_angle = np.arcsin(foretriangle_height * np.sin(self.rake) / forestay_length)
+        # the sine does not tell a forestay that leans forward (hounds ahead of the stem) from one that leans aft
+        if foretriangle_height * np.cos(self.rake) > foretriangle_base:
+            forestay_angle = np.pi - forestay_angle
 
         # define sail mounting points
         tack_mounting = np.array([-foretriangle_base + self.sheer_above_waterline_xyz[0] - mast_LOA/np.sin(self.rake),
-- 
2.43.0

