From 00f2cb914f6e0d641b459c40ef377cd5f393c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:30 +0000
Subject: [PATCH 01/17] fix: discard the previous run's wake history and final
 loads when an unsteady solver is run again

---
 .../unsteady_ring_vortex_lattice_method.py    | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 5f48792..563193e 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -205,6 +205,17 @@ class UnsteadyRingVortexLatticeMethodSolver:
         )
         logging.basicConfig(level=logging_level_value)
 
+        # Discard the wake histories and the streamlines of any previous run (including
+        # a run that was interrupted or that failed).
+        self.num_wake_ring_vortices_list = []
+        self.wake_ring_vortex_strengths_list = []
+        self.wake_ring_vortex_ages_list = []
+        self.wake_ring_vortex_front_right_vertices_list = []
+        self.wake_ring_vortex_front_left_vertices_list = []
+        self.wake_ring_vortex_back_left_vertices_list = []
+        self.wake_ring_vortex_back_right_vertices_list = []
+        self.streamline_points = None
+
         # The following loop iterates through the steps to populate currently empty
         # attributes with lists of pre-allocated arrays. During the simulation,
         # these arrays will be filled with data that describe the wake. Using this
@@ -1640,6 +1651,20 @@ class UnsteadyRingVortexLatticeMethodSolver:
 
             results_step += 1
 
+        # Discard the final results of any previous run on this problem.
+        self.unsteady_problem.final_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_near_field_moment_coefficients_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_moment_coefficients_wind_axes = []
+
         # For each airplane object, calculate and then save the final or
         # cycle-averaged forces, moments, force coefficients, and moment coefficients.
         for airplane_id, airplane in enumerate(self.steady_problems[0].airplanes):
-- 
2.43.0


From 361cde8eca6702cbfd8893e85054105df31b6c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:30 +0000
Subject: [PATCH 02/17] fix: reset the streamline seeds and update the
 freestream when a steady solver is run again

---
 pterasoftware/steady_horseshoe_vortex_lattice_method.py | 8 ++++++++
 pterasoftware/steady_ring_vortex_lattice_method.py      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/pterasoftware/steady_horseshoe_vortex_lattice_method.py b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
index 597273b..dd71299 100644
--- a/pterasoftware/steady_horseshoe_vortex_lattice_method.py
+++ b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
@@ -115,6 +115,14 @@ class SteadyHorseshoeVortexLatticeMethodSolver:
         )
         logging.basicConfig(level=logging_level_value)
 
+        # Discard the streamlines of any previous run, and use the operating point as it
+        # is now.
+        self.seed_points = np.empty((0, 3))
+        self.streamline_points = None
+        self.freestream_velocity = (
+            self.operating_point.calculate_freestream_velocity_geometry_axes()
+        )
+
         # Initialize this problem's panels to have vortices congruent with this
         # solver type.
         logging.info("Initializing the panel vortices.")
diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index d392b07..5bf1b97 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -137,6 +137,14 @@ class SteadyRingVortexLatticeMethodSolver:
         )
         logging.basicConfig(level=logging_level_value)
 
+        # Discard the streamlines of any previous run, and use the operating point as it
+        # is now.
+        self.seed_points = np.empty((0, 3))
+        self.streamline_points = None
+        self.freestream_velocity = (
+            self.operating_point.calculate_freestream_velocity_geometry_axes()
+        )
+
         # Initialize this problem's panels to have vortices congruent with this
         # solver type.
         logging.info("Initializing panel vortices.")
-- 
2.43.0


From c5547e9b95b2238ee7c19f9b5264621af2292200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:45 +0000
Subject: [PATCH 03/17] fix: use unit vortex strengths for the steady ring
 solver's influences on every run

---
 pterasoftware/steady_ring_vortex_lattice_method.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index 5bf1b97..0a5fd5e 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -324,15 +324,15 @@ class SteadyRingVortexLatticeMethodSolver:
         """
         # Find the matrix of normalized velocities induced at every panel's
         # collocation point by every panel's ring vortex. The answer is normalized
-        # because the solver's vortex strength list was initialized to all ones. This
-        # will be updated once the correct vortex strengths' are calculated.
+        # because every ring vortex is given a strength of one, even if this solver has
+        # already been run and its vortex strengths are those of the previous run.
         ring_vortex_influences = aerodynamics.expanded_velocities_from_ring_vortices(
             points=self.panel_collocation_points,
             back_right_vortex_vertices=self.panel_back_right_vortex_vertices,
             front_right_vortex_vertices=self.panel_front_right_vortex_vertices,
             front_left_vortex_vertices=self.panel_front_left_vortex_vertices,
             back_left_vortex_vertices=self.panel_back_left_vortex_vertices,
-            strengths=self.vortex_strengths,
+            strengths=np.ones(self.num_panels),
         )
 
         # Find the matrix of normalized velocities induced at every panel's
-- 
2.43.0


From 93119038817e3f90857bd1eac54045d234fabd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:57 +0000
Subject: [PATCH 04/17] fix: don't move the recorded wake ring vortices of
 earlier time steps

---
 pterasoftware/unsteady_ring_vortex_lattice_method.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 563193e..6460aad 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -12,6 +12,7 @@ This module contains the following functions:
     None
 """
 
+import copy
 import logging
 
 import numpy as np
@@ -1396,6 +1397,15 @@ class UnsteadyRingVortexLatticeMethodSolver:
                         (new_row_of_wake_ring_vortices, this_wing_wake_ring_vortices)
                     )
 
+                    # Replace the ring vortices that were shed at earlier steps with
+                    # copies, so that moving and aging them doesn't alter the wake of
+                    # the current time step's wing.
+                    for position, vortex in np.ndenumerate(
+                        next_wing.wake_ring_vortices
+                    ):
+                        if vortex is not None:
+                            next_wing.wake_ring_vortices[position] = copy.copy(vortex)
+
                     # Iterate through the vertex positions.
                     for chordwise_vertex_position in range(num_chordwise_vertices):
                         for spanwise_vertex_position in range(num_spanwise_vertices):
-- 
2.43.0


From f0f17a08850aff4744f145c4beff09d29230400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:19 +0000
Subject: [PATCH 05/17] fix: keep the base operating point's viscosity and
 external thrust at every time step

---
 pterasoftware/movement.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 8ba9b6e..d081178 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -1332,6 +1332,8 @@ class OperatingPointMovement:
         density = self.base_operating_point.density
         alpha = self.base_operating_point.alpha
         beta = self.base_operating_point.beta
+        external_thrust = self.base_operating_point.external_thrust
+        nu = self.base_operating_point.nu
 
         # Iterate through the time steps.
         for step in range(num_steps):
@@ -1340,7 +1342,12 @@ class OperatingPointMovement:
 
             # Make a new operating point object for this time step.
             this_operating_point = operating_point.OperatingPoint(
-                density=density, velocity=velocity, alpha=alpha, beta=beta
+                density=density,
+                velocity=velocity,
+                alpha=alpha,
+                beta=beta,
+                external_thrust=external_thrust,
+                nu=nu,
             )
 
             # Add this new object to the list of operating points.
-- 
2.43.0


From 1fbf70a25043bfae243069f0f6bf2325a02aac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:19 +0000
Subject: [PATCH 06/17] fix: keep the base airplane's weight and given
 reference dimensions at every time step

---
 pterasoftware/geometry.py |  6 ++++++
 pterasoftware/movement.py | 17 +++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 7ed0784..fd10be0 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -114,6 +114,12 @@ class Airplane:
         if b_ref is not None:
             self.b_ref = b_ref
 
+        # Remember which reference dimensions were passed, as opposed to populated from
+        # the main wing, so that copies of this airplane can be given the same ones.
+        self.passed_s_ref = s_ref
+        self.passed_c_ref = c_ref
+        self.passed_b_ref = b_ref
+
         # Calculate the number of panels in the entire current_airplane.
         self.num_panels = 0
         for wing_position, wing in enumerate(self.wings):
diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index d081178..82bbaa1 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -426,8 +426,13 @@ class AirplaneMovement:
         # Create an empty list of airplanes.
         airplanes = []
 
-        # Generate the airplane name.
+        # Generate the airplane name, weight, and any reference dimensions that weren't
+        # populated from the base airplane's main wing.
         name = self.base_airplane.name
+        weight = self.base_airplane.weight
+        s_ref = self.base_airplane.passed_s_ref
+        c_ref = self.base_airplane.passed_c_ref
+        b_ref = self.base_airplane.passed_b_ref
 
         # Iterate through the time steps.
         for step in range(num_steps):
@@ -439,7 +444,15 @@ class AirplaneMovement:
 
             # Make a new airplane object for this time step.
             this_airplane = geometry.Airplane(
-                name=name, x_ref=x_ref, y_ref=y_ref, z_ref=z_ref, wings=these_wings
+                name=name,
+                x_ref=x_ref,
+                y_ref=y_ref,
+                z_ref=z_ref,
+                weight=weight,
+                s_ref=s_ref,
+                c_ref=c_ref,
+                b_ref=b_ref,
+                wings=these_wings,
             )
 
             # Add this new object to the list of airplanes.
-- 
2.43.0


From 2e0d4eec3b3a98f4c4f7ae172ac3db55acf6dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:20 +0000
Subject: [PATCH 07/17] fix: keep the base wings' and cross sections' unit
 vectors at every time step

---
 pterasoftware/movement.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 82bbaa1..0733b61 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -794,7 +794,9 @@ class WingMovement:
 
         # Generate the non-changing wing attributes.
         name = self.base_wing.name
+        unit_normal_vector = self.base_wing.unit_normal_vector
         symmetric = self.base_wing.symmetric
+        unit_chordwise_vector = self.base_wing.unit_chordwise_vector
         num_chordwise_panels = self.base_wing.num_chordwise_panels
         chordwise_spacing = self.base_wing.chordwise_spacing
 
@@ -814,7 +816,9 @@ class WingMovement:
                 y_le=y_le,
                 z_le=z_le,
                 wing_cross_sections=cross_sections,
+                unit_normal_vector=unit_normal_vector,
                 symmetric=symmetric,
+                unit_chordwise_vector=unit_chordwise_vector,
                 num_chordwise_panels=num_chordwise_panels,
                 chordwise_spacing=chordwise_spacing,
             )
@@ -1199,6 +1203,7 @@ class WingCrossSectionMovement:
         # Generate the non-changing wing cross section attributes.
         chord = self.base_wing_cross_section.chord
         airfoil = self.base_wing_cross_section.airfoil
+        unit_normal_vector = self.base_wing_cross_section.unit_normal_vector
         control_surface_deflection = self.control_surface_deflection_base
         control_surface_type = self.base_wing_cross_section.control_surface_type
         control_surface_hinge_point = (
@@ -1223,6 +1228,7 @@ class WingCrossSectionMovement:
                 chord=chord,
                 twist=twist,
                 airfoil=airfoil,
+                unit_normal_vector=unit_normal_vector,
                 control_surface_type=control_surface_type,
                 control_surface_hinge_point=control_surface_hinge_point,
                 control_surface_deflection=control_surface_deflection,
-- 
2.43.0


From 10301958e90e6c0584b737b52fc308c97f77dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:20 +0000
Subject: [PATCH 08/17] fix: generate cross sections from their base positions
 relative to the inner cross section

---
 pterasoftware/movement.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 0733b61..05d3fe3 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -729,33 +729,36 @@ class WingMovement:
                     last_y_les.append(last_wing_cross_section.y_le)
                     last_z_les.append(last_wing_cross_section.z_le)
 
+                # Find the distances between this wing cross section's and the inner
+                # wing cross section's base leading edges.
+                last_base_wing_cross_section = self.wing_cross_section_movements[
+                    wing_cross_section_movement_location - 1
+                ].base_wing_cross_section
+                base_x_distance = this_x_le - last_base_wing_cross_section.x_le
+                base_y_distance = this_y_le - last_base_wing_cross_section.y_le
+                base_z_distance = this_z_le - last_base_wing_cross_section.z_le
+
                 # Find the span between this wing cross section and the inner wing
                 # cross section.
                 wing_cross_section_span = np.sqrt(
-                    (this_x_le - last_x_les[0]) ** 2
-                    + (this_y_le - last_y_les[0]) ** 2
-                    + (this_z_le - last_z_les[0]) ** 2
+                    base_x_distance**2 + base_y_distance**2 + base_z_distance**2
                 )
 
-                if this_y_le != last_y_les[0]:
+                if base_y_distance != 0:
                     # Find the base sweep angle of this wing cross section compared
-                    # to the inner wing cross section at the first time step.
+                    # to the inner wing cross section.
                     base_wing_cross_section_sweep = (
                         np.arctan(
-                            (this_z_le - last_z_les[0]) / (this_y_le - last_y_les[0])
+                            base_z_distance / np.hypot(base_x_distance, base_y_distance)
                         )
                         * 180
                         / np.pi
                     )
 
                     # Find the base heave angle of this wing cross section compared
-                    # to the inner wing cross section at the first time step.
+                    # to the inner wing cross section.
                     base_wing_cross_section_heave = (
-                        np.arctan(
-                            (this_x_le - last_x_les[0]) / (this_y_le - last_y_les[0])
-                        )
-                        * 180
-                        / np.pi
+                        np.arctan2(base_x_distance, base_y_distance) * 180 / np.pi
                     )
                 else:
                     base_wing_cross_section_sweep = 0.0
-- 
2.43.0


From 9094968017306d529924716222a07598daa88d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:38 +0000
Subject: [PATCH 09/17] fix: don't silently drop airfoil coordinates after text
 that isn't a number

---
 pterasoftware/geometry.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index fd10be0..90b1aef 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -895,11 +895,17 @@ class Airfoil:
             # Read the text from the airfoil file.
             raw_text = importlib.resources.read_text(airfoils, name + ".dat")
 
-            # Trim the text at the return characters.
-            trimmed_text = raw_text[raw_text.find("\n") :]
-
-            # Input the coordinates into a 1D array.
-            coordinates_1d = np.fromstring(trimmed_text, sep="\n")
+            # Trim the title line, and anything after a line of text that follows the
+            # coordinates.
+            coordinate_lines = []
+            for line in raw_text.split("\n")[1:]:
+                if line.strip()[:1].isalpha():
+                    break
+                coordinate_lines.append(line)
+
+            # Input the coordinates into a 1D array. This raises an error if there is
+            # anything in the coordinate lines that isn't a number.
+            coordinates_1d = np.array(" ".join(coordinate_lines).split(), dtype=float)
 
             # Check to make sure the number of elements in the array is even.
             assert len(coordinates_1d) % 2 == 0, (
-- 
2.43.0


From bb90d36caf71e2cbad62d1420c10756152b987b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:55 +0000
Subject: [PATCH 10/17] fix: make the unsteady trim analysis read the final
 coefficients that exist

---
 pterasoftware/trim.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pterasoftware/trim.py b/pterasoftware/trim.py
index d4e6bb9..fd37d71 100644
--- a/pterasoftware/trim.py
+++ b/pterasoftware/trim.py
@@ -283,12 +283,22 @@ def analyze_unsteady_trim(
 
         this_solver.run(logging_level="Critical")
 
-        force_coefficients = (
-            this_solver.unsteady_problem.final_total_near_field_force_coefficients_wind_axes
-        )
-        moment_coefficients = (
-            this_solver.unsteady_problem.final_total_near_field_moment_coefficients_wind_axes
-        )
+        # Use the final coefficients if the movement is static, and the coefficients
+        # averaged over the last cycle otherwise. There is only one airplane.
+        if this_movement.get_max_period() == 0:
+            force_coefficients = (
+                this_problem.final_near_field_force_coefficients_wind_axes[0]
+            )
+            moment_coefficients = (
+                this_problem.final_near_field_moment_coefficients_wind_axes[0]
+            )
+        else:
+            force_coefficients = (
+                this_problem.final_mean_near_field_force_coefficients_wind_axes[0]
+            )
+            moment_coefficients = (
+                this_problem.final_mean_near_field_moment_coefficients_wind_axes[0]
+            )
 
         net_force_coefficients = np.linalg.norm(
             force_coefficients - external_force_coefficients
-- 
2.43.0


From 591b38a7155240e784768290d0cd6096c4f8ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:55 +0000
Subject: [PATCH 11/17] fix: keep the trim analyses' global search within the
 given bounds

---
 pterasoftware/trim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pterasoftware/trim.py b/pterasoftware/trim.py
index fd37d71..f274c42 100644
--- a/pterasoftware/trim.py
+++ b/pterasoftware/trim.py
@@ -187,6 +187,7 @@ def analyze_steady_trim(
             maxfun=num_calls,
             minimizer_kwargs={
                 "method": "L-BFGS-B",
+                "bounds": bounds,
                 "options": {"maxfun": num_calls, "eps": 0.01},
             },
         )
@@ -355,6 +356,7 @@ def analyze_unsteady_trim(
             maxfun=num_calls,
             minimizer_kwargs={
                 "method": "L-BFGS-B",
+                "bounds": bounds,
                 "options": {"maxfun": num_calls, "eps": 0.01},
             },
         )
-- 
2.43.0


From 2e142128bd9bf9db2f80abf0f9977edaec3898b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:52 +0000
Subject: [PATCH 12/17] fix: keep the reference airplanes' given reference
 dimensions in convergence studies

---
 pterasoftware/convergence.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index 9d8bdea..2cdb7d2 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -257,11 +257,12 @@ def analyze_steady_convergence(
                         y_ref=ref_airplane.y_ref,
                         z_ref=ref_airplane.z_ref,
                         weight=ref_airplane.weight,
-                        # These are kept as None so that they are recalculated with
-                        # this airplane's mesh.
-                        s_ref=None,
-                        c_ref=None,
-                        b_ref=None,  # This value changes.
+                        # The reference dimensions that weren't given are kept as
+                        # None so that they are recalculated with this airplane's
+                        # mesh.
+                        s_ref=ref_airplane.passed_s_ref,
+                        c_ref=ref_airplane.passed_c_ref,
+                        b_ref=ref_airplane.passed_b_ref,
                         wings=these_wings,
                     )
                 )
@@ -902,11 +903,12 @@ def analyze_unsteady_convergence(
                             y_ref=ref_base_airplane.y_ref,
                             z_ref=ref_base_airplane.z_ref,
                             weight=ref_base_airplane.weight,
-                            # These are kept as None so that they are recalculated
-                            # with this airplane's mesh.
-                            s_ref=None,
-                            c_ref=None,
-                            b_ref=None,  # This value changes.
+                            # The reference dimensions that weren't given are kept
+                            # as None so that they are recalculated with this
+                            # airplane's mesh.
+                            s_ref=ref_base_airplane.passed_s_ref,
+                            c_ref=ref_base_airplane.passed_c_ref,
+                            b_ref=ref_base_airplane.passed_b_ref,
                             wings=these_base_wings,
                         )
 
-- 
2.43.0


From 1bfa1bbe0b416397b366721e452338e44fcd0f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 13/17] fix: print an unsteady solver's final loads for static
 geometry as well

---
 pterasoftware/output.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 23baf45..4a4170b 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -972,21 +972,34 @@ def print_steady_results(steady_solver):
 
 
 def print_unsteady_results(unsteady_solver):
-    """This function prints the final cycle-averaged of the forces, moments,
-    force coefficients, and moment coefficients calculated by an unsteady solver.
+    """This function prints the final forces, moments, force coefficients, and moment
+    coefficients calculated by an unsteady solver. For variable geometry, they are the
+    cycle-averaged values. For static geometry, they are those of the last time step.
 
     :param unsteady_solver: UnsteadyRingVortexLatticeMethodSolver or
         This is the solver object with the results to be printed.
     :return: None
     """
-    forces = unsteady_solver.unsteady_problem.final_mean_near_field_forces_wind_axes
-    moments = unsteady_solver.unsteady_problem.final_mean_near_field_moments_wind_axes
-    force_coefficients = (
-        unsteady_solver.unsteady_problem.final_mean_near_field_force_coefficients_wind_axes
-    )
-    moment_coefficients = (
-        unsteady_solver.unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes
-    )
+    unsteady_problem = unsteady_solver.unsteady_problem
+
+    if unsteady_problem.movement.get_max_period() == 0:
+        forces = unsteady_problem.final_near_field_forces_wind_axes
+        moments = unsteady_problem.final_near_field_moments_wind_axes
+        force_coefficients = (
+            unsteady_problem.final_near_field_force_coefficients_wind_axes
+        )
+        moment_coefficients = (
+            unsteady_problem.final_near_field_moment_coefficients_wind_axes
+        )
+    else:
+        forces = unsteady_problem.final_mean_near_field_forces_wind_axes
+        moments = unsteady_problem.final_mean_near_field_moments_wind_axes
+        force_coefficients = (
+            unsteady_problem.final_mean_near_field_force_coefficients_wind_axes
+        )
+        moment_coefficients = (
+            unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes
+        )
 
     # For each airplane object, calculate and print the average force, moment,
     # force coefficient, and moment coefficient values.
-- 
2.43.0


From bd13a8ec3b221384a694e9157d1a687653b8b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 14/17] fix: animate the scalars of problems that only have
 final results

---
 pterasoftware/output.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 4a4170b..ac79ddf 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -378,9 +378,10 @@ def animate(
     # Check if the user wants to show scalars on the wing panels.
     if show_scalars:
 
-        # Now iterate through each time step and gather all the scalars for its list
-        # of airplanes. These values will be used to configure the color map.
-        for airplanes in step_airplanes:
+        # Now iterate through each time step with results and gather all the scalars
+        # for its list of airplanes. These values will be used to configure the color
+        # map.
+        for airplanes in step_airplanes[first_results_step:]:
             scalars_to_add = get_scalars(airplanes, scalar_type)
             all_scalars = np.hstack((all_scalars, scalars_to_add))
 
-- 
2.43.0


From 230a5c7486e7ea9e91f0969275682d76bb8ad71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:27 +0000
Subject: [PATCH 15/17] fix: run the example that the chosen menu entry names,
 every time it is chosen

---
 main.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/main.py b/main.py
index 36000a0..e8c6350 100644
--- a/main.py
+++ b/main.py
@@ -1,7 +1,6 @@
 """This script opens the GUI to demonstrate Ptera Software analyzing example models.
 It is in development and will be able to run custom models in the future"""
 
-import os
 import sys
 import time
 import importlib
@@ -18,6 +17,20 @@ from PySide6.QtWidgets import QMainWindow, QApplication, QSplashScreen, QDialog
 from pterasoftware.ui_resources.main_window import Ui_MainWindowDesign
 from pterasoftware.ui_resources.textdialog import Ui_TextAboutDialog
 
+# The examples' modules in the order of the menu's entries.
+examples = [
+    "analyze_steady_trim_example",
+    "analyze_unsteady_trim_example",
+    "steady_convergence_example",
+    "steady_horseshoe_vortex_lattice_method_solver",
+    "steady_ring_vortex_lattice_method_solver",
+    "unsteady_ring_vortex_lattice_method_solver_static",
+    "unsteady_ring_vortex_lattice_method_solver_variable",
+    "unsteady_ring_vortex_lattice_method_solver_variable_formation",
+    "unsteady_static_convergence_example",
+    "unsteady_variable_convergence_example",
+]
+
 
 class TextAboutDialog(QDialog):
     def __init__(self, title):
@@ -48,14 +61,11 @@ class MainWindow(QMainWindow, Ui_MainWindowDesign):
         self.displayText = ""
 
     def exampleMenu(self, ex_num):
-        files = []
-        for i, filename in enumerate(os.listdir("examples")):
-            f = "examples." + filename
-            files.append(f)
-        file = files[ex_num]
-        file = file.replace(".py", "")
+        file = "examples." + examples[ex_num]
         self.printTerminalOutput(f"Example {ex_num + 1} executed")
         print(file)
+        # Importing a module that has already been imported doesn't run it again.
+        sys.modules.pop(file, None)
         importlib.import_module(file)
 
     def printTerminalOutput(self, text):
-- 
2.43.0


From de19395872f3530e4be609c93b9911e58dab4bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:44 +0000
Subject: [PATCH 16/17] fix: keep reference dimensions that were changed after
 an airplane was built

---
 pterasoftware/convergence.py |  8 ++------
 pterasoftware/geometry.py    | 31 +++++++++++++++++++++++++------
 pterasoftware/movement.py    |  8 ++------
 3 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index 2cdb7d2..2521f5b 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -260,9 +260,7 @@ def analyze_steady_convergence(
                         # The reference dimensions that weren't given are kept as
                         # None so that they are recalculated with this airplane's
                         # mesh.
-                        s_ref=ref_airplane.passed_s_ref,
-                        c_ref=ref_airplane.passed_c_ref,
-                        b_ref=ref_airplane.passed_b_ref,
+                        **ref_airplane.get_given_reference_dimensions(),
                         wings=these_wings,
                     )
                 )
@@ -906,9 +904,7 @@ def analyze_unsteady_convergence(
                             # The reference dimensions that weren't given are kept
                             # as None so that they are recalculated with this
                             # airplane's mesh.
-                            s_ref=ref_base_airplane.passed_s_ref,
-                            c_ref=ref_base_airplane.passed_c_ref,
-                            b_ref=ref_base_airplane.passed_b_ref,
+                            **ref_base_airplane.get_given_reference_dimensions(),
                             wings=these_base_wings,
                         )
 
diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 90b1aef..7f5dc75 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -109,16 +109,13 @@ class Airplane:
         # dimension to be what was passed.
         if s_ref is not None:
             self.s_ref = s_ref
+            self.main_wing_s_ref = None
         if c_ref is not None:
             self.c_ref = c_ref
+            self.main_wing_c_ref = None
         if b_ref is not None:
             self.b_ref = b_ref
-
-        # Remember which reference dimensions were passed, as opposed to populated from
-        # the main wing, so that copies of this airplane can be given the same ones.
-        self.passed_s_ref = s_ref
-        self.passed_c_ref = c_ref
-        self.passed_b_ref = b_ref
+            self.main_wing_b_ref = None
 
         # Calculate the number of panels in the entire current_airplane.
         self.num_panels = 0
@@ -152,6 +149,28 @@ class Airplane:
         self.b_ref = main_wing.span
         self.c_ref = main_wing.mean_aerodynamic_chord
 
+        # Remember these values, so that the reference dimensions that were given can
+        # be told from the ones that come from the main wing.
+        self.main_wing_s_ref = self.s_ref
+        self.main_wing_b_ref = self.b_ref
+        self.main_wing_c_ref = self.c_ref
+
+    def get_given_reference_dimensions(self):
+        """This method returns the reference dimensions that don't come from the main
+        wing, so that copies of the airplane can be given the same ones.
+
+        :return: dict
+            This maps the names of the reference dimensions ("s_ref", "c_ref",
+            and "b_ref") to their values, or to None for those that come from the main
+            wing.
+        """
+
+        return {
+            "s_ref": None if self.s_ref == self.main_wing_s_ref else self.s_ref,
+            "c_ref": None if self.c_ref == self.main_wing_c_ref else self.c_ref,
+            "b_ref": None if self.b_ref == self.main_wing_b_ref else self.b_ref,
+        }
+
 
 class Wing:
     """This is a class used to contain the wings of an Airplane object.
diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 05d3fe3..8e9e2a0 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -430,9 +430,7 @@ class AirplaneMovement:
         # populated from the base airplane's main wing.
         name = self.base_airplane.name
         weight = self.base_airplane.weight
-        s_ref = self.base_airplane.passed_s_ref
-        c_ref = self.base_airplane.passed_c_ref
-        b_ref = self.base_airplane.passed_b_ref
+        reference_dimensions = self.base_airplane.get_given_reference_dimensions()
 
         # Iterate through the time steps.
         for step in range(num_steps):
@@ -449,10 +447,8 @@ class AirplaneMovement:
                 y_ref=y_ref,
                 z_ref=z_ref,
                 weight=weight,
-                s_ref=s_ref,
-                c_ref=c_ref,
-                b_ref=b_ref,
                 wings=these_wings,
+                **reference_dimensions,
             )
 
             # Add this new object to the list of airplanes.
-- 
2.43.0


From af49a875946d6a798e73ab738567288296fa249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:12 +0000
Subject: [PATCH 17/17] fix: convergence studies solve wings with the
 orientation of the reference problem's wings

The meshes were built with the default unit normal and chordwise vectors, so inclined wings and
wing cross sections were solved with another geometry, and studies of vertical wings failed.
---
 pterasoftware/convergence.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index 2521f5b..87753b4 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -187,9 +187,12 @@ def analyze_steady_convergence(
                             # ToDo: Modify this to allow for new geometry with custom
                             #  planes for the wing cross sections. As of now,
                             #  it fails for vertical wings.
-                            section_length = (
-                                next_ref_wing_cross_section.y_le
-                                - ref_wing_cross_section.y_le
+                            section_length = abs(
+                                np.dot(
+                                    next_ref_wing_cross_section.leading_edge
+                                    - ref_wing_cross_section.leading_edge,
+                                    ref_wing.unit_normal_vector,
+                                )
                             )
                             root_chord = ref_wing_cross_section.chord
                             tip_chord = next_ref_wing_cross_section.chord
@@ -219,6 +222,7 @@ def analyze_steady_convergence(
                                 z_le=ref_wing_cross_section.z_le,
                                 chord=ref_wing_cross_section.chord,
                                 twist=ref_wing_cross_section.twist,
+                                unit_normal_vector=ref_wing_cross_section.unit_normal_vector,
                                 control_surface_type=ref_wing_cross_section.control_surface_type,
                                 control_surface_hinge_point=ref_wing_cross_section.control_surface_hinge_point,
                                 control_surface_deflection=ref_wing_cross_section.control_surface_deflection,
@@ -241,7 +245,9 @@ def analyze_steady_convergence(
                             x_le=ref_wing.x_le,
                             y_le=ref_wing.y_le,
                             z_le=ref_wing.z_le,
+                            unit_normal_vector=ref_wing.unit_normal_vector,
                             symmetric=ref_wing.symmetric,
+                            unit_chordwise_vector=ref_wing.unit_chordwise_vector,
                             chordwise_spacing=ref_wing.chordwise_spacing,
                             # These values change.
                             num_chordwise_panels=num_chordwise_panels,
@@ -756,9 +762,12 @@ def analyze_unsteady_convergence(
                                     # ToDo: Modify this to allow for new geometry
                                     #  with custom planes for the wing cross
                                     #  sections. As of now, it fails for vertical wings.
-                                    section_length = (
-                                        next_ref_base_wing_cross_section.y_le
-                                        - ref_base_wing_cross_section.y_le
+                                    section_length = abs(
+                                        np.dot(
+                                            next_ref_base_wing_cross_section.leading_edge
+                                            - ref_base_wing_cross_section.leading_edge,
+                                            ref_base_wing.unit_normal_vector,
+                                        )
                                     )
                                     root_chord = ref_base_wing_cross_section.chord
                                     tip_chord = next_ref_base_wing_cross_section.chord
@@ -806,6 +815,7 @@ def analyze_unsteady_convergence(
                                     z_le=ref_base_wing_cross_section.z_le,
                                     chord=ref_base_wing_cross_section.chord,
                                     twist=ref_base_wing_cross_section.twist,
+                                    unit_normal_vector=ref_base_wing_cross_section.unit_normal_vector,
                                     control_surface_type=ref_base_wing_cross_section.control_surface_type,
                                     control_surface_hinge_point=ref_base_wing_cross_section.control_surface_hinge_point,
                                     control_surface_deflection=ref_base_wing_cross_section.control_surface_deflection,
@@ -860,7 +870,9 @@ def analyze_unsteady_convergence(
                                 x_le=ref_base_wing.x_le,
                                 y_le=ref_base_wing.y_le,
                                 z_le=ref_base_wing.z_le,
+                                unit_normal_vector=ref_base_wing.unit_normal_vector,
                                 symmetric=ref_base_wing.symmetric,
+                                unit_chordwise_vector=ref_base_wing.unit_chordwise_vector,
                                 chordwise_spacing=ref_base_wing.chordwise_spacing,
                                 # These values change.
                                 num_chordwise_panels=num_chordwise_panels,
-- 
2.43.0

