From 6dce92d2c028a8d6ca854d06d2530b531b6adc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:35 +0000
Subject: [PATCH 01/29] fix: use integer indices in the periodic drag-only
 resistance

---
 .../functions/generate_grand_resistance_matrix.py      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index b7737d2..506899d 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -170,11 +170,11 @@ def generate_grand_resistance_matrix_periodic(
             num_elements_array, element_type, uv_start, uv_size,
             element_start_count) = posdata_data(posdata)
         Minfinity_inverse = mu * np.diag(
-            [sphere_sizes[i/3] for i in range(3*num_spheres)]
-            + [1/0.75 * sphere_sizes[i/3]**3 for i in range(3*num_spheres)]
-            + [1/0.9 * sphere_sizes[i/5]**3 for i in range(5*num_spheres)]
-            + [2 * dumbbell_sizes[i/3] for i in range(3*num_dumbbells)]
-            + [2 * dumbbell_sizes[i/3] for i in range(3*num_dumbbells)])
+            [sphere_sizes[i//3] for i in range(3*num_spheres)]
+            + [1/0.75 * sphere_sizes[i//3]**3 for i in range(3*num_spheres)]
+            + [1/0.9 * sphere_sizes[i//5]**3 for i in range(5*num_spheres)]
+            + [2 * dumbbell_sizes[i//3] for i in range(3*num_dumbbells)]
+            + [2 * dumbbell_sizes[i//3] for i in range(3*num_dumbbells)])
         Minfinity_elapsed_time = 0
         Minfinity_inverse_elapsed_time = 0
 
-- 
2.43.0


From 58c38f4b581962b092e5fcaa8d26ee01fbd34fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:35 +0000
Subject: [PATCH 02/29] fix: scale the drag-only resistance by 6 pi like the
 other terms

---
 .../functions/generate_grand_resistance_matrix.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index 506899d..dcbe004 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -60,7 +60,7 @@ def generate_grand_resistance_matrix(
             element_sizes, element_positions, element_deltax, num_elements,
             num_elements_array, element_type, uv_start, uv_size,
             element_start_count) = posdata_data(posdata)
-        Minfinity_inverse = mu*np.diag(
+        Minfinity_inverse = 6*np.pi*mu*np.diag(
             [sphere_sizes[i//3] for i in range(3*num_spheres)]
             + [1/0.75 * sphere_sizes[i//3]**3 for i in range(3*num_spheres)]
             + [1/0.9 * sphere_sizes[i//5]**3 for i in range(5*num_spheres)]
@@ -169,7 +169,7 @@ def generate_grand_resistance_matrix_periodic(
             element_sizes, element_positions, element_deltax, num_elements,
             num_elements_array, element_type, uv_start, uv_size,
             element_start_count) = posdata_data(posdata)
-        Minfinity_inverse = mu * np.diag(
+        Minfinity_inverse = 6*np.pi*mu * np.diag(
             [sphere_sizes[i//3] for i in range(3*num_spheres)]
             + [1/0.75 * sphere_sizes[i//3]**3 for i in range(3*num_spheres)]
             + [1/0.9 * sphere_sizes[i//5]**3 for i in range(5*num_spheres)]
-- 
2.43.0


From 31ddfabb246ce4086ca5b5a033c592c8afa0456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:16 +0000
Subject: [PATCH 03/29] fix: start the two-step scheme for dumbbells with an
 Euler step

---
 stokesian_dynamics/run_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 96a4ddb..5a629c6 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -279,7 +279,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
                     Ub_out_k1, HalfDUb_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
-                if timestepping_scheme == "euler" or frameno - checkpoint_filename == 0:
+                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_dumbbell_positions = euler_timestep(
                         dumbbell_positions, Ub_out_plus_infinities_k1, timestep)
                     new_dumbbell_deltax = euler_timestep(
-- 
2.43.0


From e55bd33595e8ccadf155860c2a240e85a76848cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:16 +0000
Subject: [PATCH 04/29] fix: use the second-stage strain rate for dumbbells in
 RK4

---
 stokesian_dynamics/run_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 5a629c6..c61da26 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -413,7 +413,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k2, HalfDUb_out_plus_infinities_k2 = add_background_flow_dumbbells(
-                    Ub_out_k2, HalfDUb_out_k2, Ea_out_k1, U_infinity_k2, O_infinity_k2,
+                    Ub_out_k2, HalfDUb_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
                 dumbbell_positions_k2 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k2, timestep/2)
-- 
2.43.0


From bc363b744aea2676d600384a9e32598138a6485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:03 +0000
Subject: [PATCH 05/29] fix: let periodic boxes with integer or list
 displacements through

---
 stokesian_dynamics/functions/shared.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index ba09bbf..f1aa985 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -424,7 +424,6 @@ def feed_particles_from_bottom(posdata, feed_every_n_timesteps, feed_from_file,
             new_dumbbell_sizes, new_dumbbell_positions, new_dumbbell_deltax)
 
 
-@njit(cache=True)
 def shear_basis_vectors(basis_canonical, box_dimensions,
                         Ot_infinity, Et_infinity):
     """Shear the basis vectors representing the periodic box."""
-- 
2.43.0


From 24afff36768b748d312f5b90756a1602cf5f4521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:46 +0000
Subject: [PATCH 06/29] fix: keep sphere orientations attached when a sphere is
 wrapped

---
 stokesian_dynamics/run_simulation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index c61da26..0eb9338 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -258,22 +258,24 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_positions = euler_timestep(
                         sphere_positions, Ua_out_plus_infinities_k1, timestep)
+                else:
+                    new_sphere_positions = ab2_timestep(
+                        sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
+                if periodic:
+                    new_sphere_positions = wrap_around(
+                        new_sphere_positions, box_bottom_left, box_top_right,
+                        Ot_infinity_k1, Et_infinity_k1)
+                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_rotations = euler_timestep_rotation(
                         sphere_positions, sphere_rotations,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, timestep)
                 else:
-                    new_sphere_positions = ab2_timestep(
-                        sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
                     new_sphere_rotations = ab2_timestep_rotation(
                         sphere_positions, sphere_rotations,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, last_velocities[3],
                         timestep)
-                if periodic:
-                    new_sphere_positions = wrap_around(
-                        new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
-- 
2.43.0


From 4a6bc5f8338548ce4bb8de874066cc47c17a5b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:47 +0000
Subject: [PATCH 07/29] fix: evaluate the background flow at the stage
 positions in RK4

---
 stokesian_dynamics/run_simulation.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 0eb9338..2f6f964 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -402,7 +402,8 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k2, Oa_out_plus_infinities_k2 = add_background_flow_spheres(
                     Ua_out_k2, Oa_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
-                    sphere_positions, centre_of_background_flow)
+                    euler_timestep(sphere_positions, Ua_out_plus_infinities_k1, timestep/2),
+                    centre_of_background_flow)
                 sphere_positions_k2 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k2, timestep/2)
                 sphere_rotations_k2 = euler_timestep_rotation(
@@ -416,7 +417,8 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k2, HalfDUb_out_plus_infinities_k2 = add_background_flow_dumbbells(
                     Ub_out_k2, HalfDUb_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    euler_timestep(dumbbell_positions, Ub_out_plus_infinities_k1, timestep/2),
+                    dumbbell_deltax_k1, centre_of_background_flow)
                 dumbbell_positions_k2 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k2, timestep/2)
                 dumbbell_deltax_k2 = euler_timestep(
@@ -451,7 +453,8 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k3, Oa_out_plus_infinities_k3 = add_background_flow_spheres(
                     Ua_out_k3, Oa_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
-                    sphere_positions, centre_of_background_flow)
+                    euler_timestep(sphere_positions, Ua_out_plus_infinities_k2, timestep/2),
+                    centre_of_background_flow)
                 sphere_positions_k3 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k3, timestep)
                 sphere_rotations_k3 = euler_timestep_rotation(
@@ -465,7 +468,8 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k3, HalfDUb_out_plus_infinities_k3 = add_background_flow_dumbbells(
                     Ub_out_k3, HalfDUb_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    euler_timestep(dumbbell_positions, Ub_out_plus_infinities_k2, timestep/2),
+                    dumbbell_deltax_k2, centre_of_background_flow)
                 dumbbell_positions_k3 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k3, timestep)
                 dumbbell_deltax_k3 = euler_timestep(
@@ -499,11 +503,13 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k4, Oa_out_plus_infinities_k4 = add_background_flow_spheres(
                     Ua_out_k4, Oa_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
-                    sphere_positions, centre_of_background_flow)
+                    euler_timestep(sphere_positions, Ua_out_plus_infinities_k3, timestep),
+                    centre_of_background_flow)
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k4, HalfDUb_out_plus_infinities_k4 = add_background_flow_dumbbells(
                     Ub_out_k4, HalfDUb_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    euler_timestep(dumbbell_positions, Ub_out_plus_infinities_k3, timestep),
+                    dumbbell_deltax_k3, centre_of_background_flow)
             for i in range(len(gen_times)):
                 gen_times[i] = gen_times[i] + gen_times_2[i]
 
-- 
2.43.0


From f45028dbbab197d9f0f5750b4b8205f4e3afcc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:41:16 +0000
Subject: [PATCH 08/29] fix: save the archive when only positions or only
 forces are kept

The final save names every history array, so a run that keeps positions
but not forces (or the reverse) stopped with a NameError after its last
frame and lost its output. The histories now start out empty.
---
 stokesian_dynamics/run_simulation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 2f6f964..3bd2f8c 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -74,6 +74,13 @@ error = False
 previous_step_posdata = posdata
 previous_timestamp = time.time()
 saved_element_positions = np.array([])
+saved_sphere_rotations = np.array([])
+saved_deltax = np.array([])
+saved_Fa_out = np.array([])
+saved_Fb_out = np.array([])
+saved_DFb_out = np.array([])
+saved_Sa_out = np.array([])
+saved_force_on_wall_due_to_dumbbells = np.array([])
 times = [0 for _ in range(num_frames)]
 output_folder = "output"
 legion_random_id = ""
-- 
2.43.0


From bf7ef72f03133e36ecbcb3e915c8ab655e13dc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:41:20 +0000
Subject: [PATCH 09/29] fix: start the saved history at the first sampled frame

Saving began only if the first frame to be saved was itself a multiple
of the saving interval. Any other combination appended to a history that
did not exist and stopped the run.
---
 stokesian_dynamics/run_simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 3bd2f8c..ab29a31 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -618,7 +618,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             and frameno % save_positions_every_n_timesteps == 0
             and frameno >= start_saving_after_first_n_timesteps
         ):
-            if frameno == start_saving_after_first_n_timesteps:  # usually 0
+            if frameno < start_saving_after_first_n_timesteps + save_positions_every_n_timesteps:  # usually 0
                 saved_element_positions = np.array([element_positions])
                 saved_sphere_rotations = np.array([sphere_rotations])
                 saved_deltax = np.array([dumbbell_deltax])
@@ -643,7 +643,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             and frameno % save_forces_every_n_timesteps == 0
             and frameno >= start_saving_after_first_n_timesteps
         ):
-            if frameno == start_saving_after_first_n_timesteps:  # usually 0
+            if frameno < start_saving_after_first_n_timesteps + save_forces_every_n_timesteps:  # usually 0
                 saved_Fa_out = np.array([Fa_out])
                 saved_Fb_out = np.array([Fb_out])
                 saved_DFb_out = np.array([DFb_out])
-- 
2.43.0


From 6a04042f5ee95eeb00b6b5a0142da3602fafdb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:44:26 +0000
Subject: [PATCH 10/29] fix: continue an interrupted run from the frame of its
 last saved state

The restart frame was taken as the number of saved states, which is one
more than the frame of the last of them, and ignored the saving interval.
A continued run skipped a step and ended early. It now restarts at the
frame its state belongs to.
---
 stokesian_dynamics/setups/positions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index bb6b78d..aca2aca 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -12,7 +12,9 @@ import numpy as np
 from functions.shared import (add_sphere_rotations_to_positions, same_setup_as,
                               throw_error)
 import glob
-from settings import setup_number, input_number, num_frames, timestep
+from settings import (setup_number, input_number, num_frames, timestep,
+                      save_positions_every_n_timesteps,
+                      start_saving_after_first_n_timesteps)
 from setups.tests.positions import pos_setup_tests
 from setups.functions_positions import (simple_cubic_8, randomise_spheres,
                                         randomise_dumbbells)
@@ -230,7 +232,12 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
                        dumbbell_sizes, dumbbell_positions, dumbbell_deltax)
 
             checkpoint_filename = filename
-            checkpoint_start_from_frame = positions_centres.shape[0]
+            # Continue from the frame of the last saved position
+            first_saved_frame = save_positions_every_n_timesteps * -(
+                -start_saving_after_first_n_timesteps
+                // save_positions_every_n_timesteps)
+            checkpoint_start_from_frame = first_saved_frame + (
+                positions_centres.shape[0] - 1)*save_positions_every_n_timesteps
 
             word_checkpoint = "\033[42m\033[01m CHECKPOINT FOUND \033[0m\033[49m "
             print(
-- 
2.43.0


From 3125f69e7af4806d1603996d9c28d63730acadd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:44:31 +0000
Subject: [PATCH 11/29] fix: restore sphere orientations when continuing an
 interrupted run

Orientations were reset to their initial directions although the backup
file holds them.
---
 stokesian_dynamics/setups/positions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index aca2aca..3812e8b 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -217,6 +217,7 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
             with np.load(filename) as data1:
                 positions_centres = data1['centres']
                 positions_deltax = data1['deltax']
+                saved_rotations = data1['sphere_rotations']
             num_particles = positions_centres.shape[1]
             num_dumbbells = positions_deltax.shape[1]
             num_spheres = num_particles - num_dumbbells
@@ -226,8 +227,7 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
             dumbbell_deltax = positions_deltax[-1, :, :]
             sphere_sizes = ignored_posdata[0]
             dumbbell_sizes = ignored_posdata[3]
-            sphere_rotations = add_sphere_rotations_to_positions(
-                sphere_positions, sphere_sizes, np.array([[1,0,0],[0,0,1]]))
+            sphere_rotations = saved_rotations[-1]
             posdata = (sphere_sizes, sphere_positions, sphere_rotations,
                        dumbbell_sizes, dumbbell_positions, dumbbell_deltax)
 
-- 
2.43.0


From 5951f6c1d79123cb010c3216868fabbce677dac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:01 +0000
Subject: [PATCH 12/29] fix: do not repeat forces saved after the restart frame
 when continuing a run

---
 stokesian_dynamics/run_simulation.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index ab29a31..8692971 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -804,16 +804,23 @@ if error == 0:
                     + descdash + str(desc))
     else:
         filename = checkpoint_filename.replace("output\\", "").replace("output/", "").replace("_TEMP.npz", "")
+        # Forces saved after the last saved position will be computed again
+        num_saved_forces = None
+        if save_forces_every_n_timesteps > 0:
+            num_saved_forces = (
+                checkpoint_start_from_frame // save_forces_every_n_timesteps
+                + -start_saving_after_first_n_timesteps
+                // save_forces_every_n_timesteps + 1)
         with np.load(checkpoint_filename) as saved_data:
-            saved_Fa_out = saved_data['Fa']
-            saved_Fb_out = saved_data['Fb']
-            saved_DFb_out = saved_data['DFb']
-            saved_Sa_out = saved_data['Sa']
+            saved_Fa_out = saved_data['Fa'][:num_saved_forces]
+            saved_Fb_out = saved_data['Fb'][:num_saved_forces]
+            saved_DFb_out = saved_data['DFb'][:num_saved_forces]
+            saved_Sa_out = saved_data['Sa'][:num_saved_forces]
             saved_element_positions = saved_data['centres']
             saved_sphere_rotations = saved_data['sphere_rotations']
             saved_deltax = saved_data['deltax']
             saved_force_on_wall_due_to_dumbbells = saved_data[
-                'force_on_wall_due_to_dumbbells']
+                'force_on_wall_due_to_dumbbells'][:num_saved_forces]
 
     warning_formatting_start = "\033[43m\033[30m"
     warning_formatting_end = "\033[39m\033[49m"
-- 
2.43.0


From fa7b898b3a27e74dc2dc16d455f73054c02545f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:59 +0000
Subject: [PATCH 13/29] fix: subtract the wavespace self term from the periodic
 rotational mobility

---
 .../functions/generate_Minfinity_periodic.py             | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index d1ce422..2f2734a 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -640,7 +640,7 @@ def M13(i, j, k, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
 
 
 @njit(cache=True)
-def M22(i, j, r, s, a1, a2, erfcs, L, X_lmn, Xdash_lmn, Sdash_lmn,
+def M22(i, j, r, s, a1, a2, erfcs, L, lamb, X_lmn, Xdash_lmn, Sdash_lmn,
         erfcs_Sdash_lmn, K_lmn, Ks_lmn, RR_K, num_X_points, num_Xdash_points,
         num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ij of Minfinity submatrix c. Same form as PhD thesis
@@ -673,8 +673,9 @@ def M22(i, j, r, s, a1, a2, erfcs, L, X_lmn, Xdash_lmn, Sdash_lmn,
         for q in range(num_K_points):
             sum_ck += cktilde(K_lmn[q], Ks_lmn[q], a1, a1, i, j, RR_K[q], c)
         sum_ck *= 1./L**3
-        # (5) = 0
-        return c_aa + sum_cr + sum_ck
+        # (5)
+        c_k0 = c*kronmatrix[i][j]*40*lamb**3/(3*spi)
+        return c_aa + sum_cr + sum_ck - c_k0
 
 
 @njit(cache=True)
@@ -993,7 +994,7 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[C_c[0]:C_c[0]+3,
                       C_c[1]:C_c[1]+3] = np.array([[
-                          M22(i, j, r, s, a1, a2, erfcs, L,
+                          M22(i, j, r, s, a1, a2, erfcs, L, lamb,
                               X_lmn, Xdash_lmn, Sdash_lmn, erfcs_Sdash_lmn,
                               K_lmn, Ks_lmn, RR_K,
                               num_X_points, num_Xdash_points, num_K_points,
-- 
2.43.0


From 0eba87d0612ca353b7aeebfe28fcaf3931a4d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:59 +0000
Subject: [PATCH 14/29] fix: use the bead radius for the bead velocity in
 periodic sphere-dumbbell mobilities

---
 .../functions/generate_Minfinity_periodic.py              | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index 2f2734a..c7965e9 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -1088,12 +1088,12 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[M24_c[0]:M24_c[0]+3,
                       M24_c[1]:M24_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2,
+                          M12(j, i, mr, s, a2, a1,
                               X_lmn, num_X_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, X_lmn, num_X_points, c, mu, m_s_lmn,
+            args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu, m_s_lmn,
                     m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
@@ -1123,11 +1123,11 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                           for j in range(3)] for i in range(3)])
             Minfinity[M25_c[0]:M25_c[0]+3,
                       M25_c[1]:M25_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2, X_lmn, num_X_points,
+                          M12(j, i, mr, s, a2, a1, X_lmn, num_X_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, X_lmn, num_X_points, c, mu, m_s_lmn,
+            args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu, m_s_lmn,
                     m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
-- 
2.43.0


From 60d633728e0df898cf40b376b30855a82f566e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:01 +0000
Subject: [PATCH 15/29] fix: include the wavespace sum in the periodic
 velocity-torque and velocity-stresslet mobilities

---
 .../functions/generate_Minfinity_periodic.py  | 84 +++++++++++++------
 1 file changed, 59 insertions(+), 25 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index c7965e9..c72a4dc 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -503,6 +503,27 @@ def aktilde(kk, ss, a1, a2, i, j, RR, c):
               + (a1**2 + a2**2)/6. * Lap_Jtilde(kki, kkj, ss, i, j, RR))
 
 
+@njit(cache=True)
+def btktilde(kk, ss, a1, a2, i, j, RR, c):
+    """Element ij of the wavespace periodic version of Minfinity submatrix
+    b tilde, divided by i (it is imaginary). See docstring for aktilde."""
+    k = (j+1) % 3
+    l = (j+2) % 3
+    return c*(1 - a1**2/6.*ss**2)*-0.5*(
+        kk[k]*Jtilde(kk[i], kk[l], ss, i, l, RR)
+        - kk[l]*Jtilde(kk[i], kk[k], ss, i, k, RR))
+
+
+@njit(cache=True)
+def gtktilde(kk, ss, a1, a2, i, j, k, RR, c):
+    """Element ijk of the uncontracted wavespace periodic version of Minfinity
+    submatrix g tilde, divided by i (it is imaginary). See docstring for
+    aktilde."""
+    return -c*(1 - (a1**2/6. + a2**2/10.)*ss**2)*0.5*(
+        kk[k]*Jtilde(kk[i], kk[j], ss, i, j, RR)
+        + kk[j]*Jtilde(kk[i], kk[k], ss, i, k, RR))
+
+
 @njit(cache=True)
 def cktilde(kk, ss, a1, a2, i, j, RR, c):
     """Element ij of the wavespace periodic version of Minfinity submatrix c.
@@ -598,43 +619,47 @@ def M11(i, j, r, s, a1, a2, erfcs, L, lamb, X_lmn, Xdash_lmn, Sdash_lmn,
 
 
 @njit(cache=True)
-def M12(i, j, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
+def M12(i, j, r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K, num_X_points,
+        num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ij of Minfinity submatrix b tilde. Same form as PhD thesis
     (2.155)-(2.156), and see note at bottom of page."""
     if s > 1e-10:
         # (2)
-        # Return value below is just sum_btr
         bt = 0.
         for q in range(num_X_points):
             bt += btr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, erfcs_lmn[q], c,
                       mu)
-        return bt
         # (4)
-        # I think sum_btk always ends up being 0 (given that it's imaginary,
-        # over the sum it looks like it cancels out)
-        # Imaginary part of e(i*k.r) always cancels out over the sum I think
-        # (should probably try to show this but I'm pretty certain)
-        # return sum_btr
+        # btktilde is odd and imaginary, so the sine part of e(i*k.r) remains
+        sum_btk = 0.
+        for q in range(num_K_points):
+            sum_btk -= (math.sin(np.dot(K_lmn[q], r))
+                        * btktilde(K_lmn[q], Ks_lmn[q], a1, a2, i, j, RR_K[q],
+                                   c))
+        return bt + sum_btk/L**3
     else:
         return 0
 
 
 @njit(cache=True)
-def M13(i, j, k, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
+def M13(i, j, k, r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K, num_X_points,
+        num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ijk of uncontracted Minfinity submatrix g tilde. Same form as
     PhD thesis (2.155)-(2.156), and see note at bottom of page."""
     if s > 1e-10:
         # (2)
-        # Return value below is just sum_gtr
         gt = 0.
         for q in range(num_X_points):
             gt += gtr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, k, erfcs_lmn[q],
                       c, mu)
-        return gt
         # (4)
-        # I think gtk always ends up being 0 (given that it's imaginary, over
-        # the sum it looks like it cancels out)
-        # return sum_gtr
+        # gtktilde is odd and imaginary, so the sine part of e(i*k.r) remains
+        sum_gtk = 0.
+        for q in range(num_K_points):
+            sum_gtk -= (math.sin(np.dot(K_lmn[q], r))
+                        * gtktilde(K_lmn[q], Ks_lmn[q], a1, a2, i, j, k,
+                                   RR_K[q], c))
+        return gt + sum_gtk/L**3
     else:
         return 0
 
@@ -987,8 +1012,9 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[Bt_c[0]:Bt_c[0]+3,
                       Bt_c[1]:Bt_c[1]+3] = np.array([[
-                          M12(i, j, r, s, a1, a2,
-                              X_lmn, num_X_points,
+                          M12(i, j, r, s, a1, a2, L,
+                              X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, s_lmn, erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
@@ -1001,7 +1027,8 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                               c, mu, s_lmn, erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn)
+            args = (r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, s_lmn, erfcs_lmn)
             for i in range(3):
                 Minfinity[Gt_c[0]+i,
                           Gt_c[1]:Gt_c[1]+5] = con_M13_row(i, args)
@@ -1043,12 +1070,14 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                 m_erfcs_lmn = [generate_erfcs(S, lamb) for S in m_s_lmn]
                 Minfinity[Bt21_c[0]:Bt21_c[0]+3,
                           Bt21_c[1]:Bt21_c[1]+3] = np.array([[
-                              M12(i, j, mr, s, a2, a1,
-                                  X_lmn, num_X_points,
+                              M12(i, j, mr, s, a2, a1, L,
+                                  X_lmn, K_lmn, Ks_lmn, RR_K,
+                                  num_X_points, num_K_points,
                                   c, mu, m_s_lmn, m_erfcs_lmn)
                               for j in range(3)] for i in range(3)])
 
-                args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu,
+                args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                        num_X_points, num_K_points, c, mu,
                         m_s_lmn, m_erfcs_lmn)
                 for i in range(3):
                     Minfinity[Gt21_c[0]+i,
@@ -1088,12 +1117,14 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[M24_c[0]:M24_c[0]+3,
                       M24_c[1]:M24_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a2, a1,
-                              X_lmn, num_X_points,
+                          M12(j, i, mr, s, a2, a1, L,
+                              X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu, m_s_lmn,
+            args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, m_s_lmn,
                     m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
@@ -1123,11 +1154,14 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                           for j in range(3)] for i in range(3)])
             Minfinity[M25_c[0]:M25_c[0]+3,
                       M25_c[1]:M25_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a2, a1, X_lmn, num_X_points,
+                          M12(j, i, mr, s, a2, a1, L,
+                              X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu, m_s_lmn,
+            args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, m_s_lmn,
                     m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
-- 
2.43.0


From 6b8893b58f39d31dede9d59909b17c11e2d18e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:09 +0000
Subject: [PATCH 16/29] fix: find close pairs of large particles in a periodic
 box

The first pass compared unscaled distances with the scaled cutoff, so pairs
of particles larger than the unit radius were never listed.
---
 stokesian_dynamics/functions/shared.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index f1aa985..153a776 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -457,7 +457,9 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
             basis_canonical)
         closer_than_cutoff_pairs = []
         displacements_pairs = np.empty([0, 3])
-        # This lists pairs that are closer than 4 units, regardless of size ratio.
+        # This lists pairs that could be close enough given the largest size,
+        # regardless of size ratio.
+        cutoff_unscaled = cutoff*np.max(bead_sizes, initial=0)
         for i in range(len(unsheared_positions)):
             sphere_position = unsheared_positions[i]
             sheared_centred_box = np.dot(np.mod(np.dot(unsheared_positions-sphere_position,
@@ -466,10 +468,10 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
                                          sheared_basis_vectors)
             # Shear again
             # Take particles only within a cube of the correct radius:
-            particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= cutoff)
+            particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= cutoff_unscaled)
             # Take particles only within a sphere of the correct radius:
             particles_in_radius = np.where(
-                np.linalg.norm(sheared_centred_box[particles_in_cube], axis=1) <= cutoff)
+                np.linalg.norm(sheared_centred_box[particles_in_cube], axis=1) <= cutoff_unscaled)
             particles_in_radius_ids = particles_in_cube[0][particles_in_radius][
                 particles_in_cube[0][particles_in_radius] >= i]
             closer_than_cutoff_pairs += [(i, j) for j in particles_in_radius_ids]
-- 
2.43.0


From 462ae168525540ce71a688f5791d36c6153f726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:20 +0000
Subject: [PATCH 17/29] fix: write the readable combined scalar table instead
 of stopping

combine_scalars.py asked a plain list for its shape, so it raised
AttributeError before the readable table was written.
---
 find_resistance_scalars/combine_scalars.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/find_resistance_scalars/combine_scalars.py b/find_resistance_scalars/combine_scalars.py
index 3dea844..e0c1840 100755
--- a/find_resistance_scalars/combine_scalars.py
+++ b/find_resistance_scalars/combine_scalars.py
@@ -27,8 +27,8 @@ values_of_s_dash_nearfield = np.loadtxt('values_of_s_dash_nearfield.txt',
                                         ndmin=1)
 values_of_s_dash_midfield = np.loadtxt('values_of_s_dash_midfield.txt',
                                        ndmin=1)
-values_of_s_dash = sorted(np.concatenate((values_of_s_dash_nearfield,
-                                          values_of_s_dash_midfield)))
+values_of_s_dash = np.sort(np.concatenate((values_of_s_dash_nearfield,
+                                           values_of_s_dash_midfield)))
 np.savetxt('values_of_s_dash.txt', values_of_s_dash, fmt="% .8e")
 s_dash_range = values_of_s_dash
 s_dash_length = len(s_dash_range)
-- 
2.43.0


From 46853320ce28fb18b8bf63b071518a8557da0fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:20 +0000
Subject: [PATCH 18/29] fix: keep combined scalars in step with the sorted
 distances

The distances were sorted but the table kept the near-field entries first,
so near- and mid-field ranges that overlap gave scalars filed under the
wrong distance.
---
 find_resistance_scalars/combine_scalars.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/find_resistance_scalars/combine_scalars.py b/find_resistance_scalars/combine_scalars.py
index e0c1840..85f4ba2 100755
--- a/find_resistance_scalars/combine_scalars.py
+++ b/find_resistance_scalars/combine_scalars.py
@@ -27,8 +27,10 @@ values_of_s_dash_nearfield = np.loadtxt('values_of_s_dash_nearfield.txt',
                                         ndmin=1)
 values_of_s_dash_midfield = np.loadtxt('values_of_s_dash_midfield.txt',
                                        ndmin=1)
-values_of_s_dash = np.sort(np.concatenate((values_of_s_dash_nearfield,
-                                           values_of_s_dash_midfield)))
+values_of_s_dash = np.concatenate((values_of_s_dash_nearfield,
+                                   values_of_s_dash_midfield))
+order = np.argsort(values_of_s_dash)
+values_of_s_dash = values_of_s_dash[order]
 np.savetxt('values_of_s_dash.txt', values_of_s_dash, fmt="% .8e")
 s_dash_range = values_of_s_dash
 s_dash_length = len(s_dash_range)
@@ -46,7 +48,8 @@ print(XYZ_mid_raw.shape)
 print(XYZ_near_raw.shape)
 
 
-XYZ_general_table = np.concatenate((XYZ_near_raw, XYZ_mid_raw), axis=2)
+XYZ_general_table = np.concatenate((XYZ_near_raw, XYZ_mid_raw),
+                                   axis=2)[:, :, order, :]
 general_scalars_length = len(general_resistance_scalars_names)
 
 with open('scalars_general_resistance.npy', 'wb') as outputfile:
-- 
2.43.0


From 5de420806b27fc8170e65a92210063b36e298e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:20 +0000
Subject: [PATCH 19/29] fix: save the reduced scalar table next to its inputs

The script reads its tables from the current directory but wrote the result
to a subdirectory which does not exist there, and stopped with
FileNotFoundError.
---
 find_resistance_scalars/subtract_R2Binfinity_from_scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
index 3e69284..96bc435 100755
--- a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
@@ -103,7 +103,7 @@ for lam_index, lam in enumerate(lam_range_with_reciprocals):
         XYZd_raw[10, 1, s_dash_index, lam_index] = XYZ_raw[10, 1, s_dash_index, lam_index] - ZM1
 
 # computer readable
-with open('find_resistance_scalars/scalars_general_resistance_d.npy', 'wb+') as outputfile:
+with open('scalars_general_resistance_d.npy', 'wb') as outputfile:
     np.save(outputfile, XYZd_raw)
 
 # human readable
-- 
2.43.0


From ca8c0fc73e37b6aff8607e5b98203acd67ac8a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:20 +0000
Subject: [PATCH 20/29] fix: read the drag-only scalars only when they are
 asked for

The choice made by use_drag_R2Binfinity was the wrong way round: the
drag-only table was read when the setting was off, and the full one when it
was on.
---
 stokesian_dynamics/resistance_scalars/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/resistance_scalars/data.py b/stokesian_dynamics/resistance_scalars/data.py
index 74fada9..c65a037 100755
--- a/stokesian_dynamics/resistance_scalars/data.py
+++ b/stokesian_dynamics/resistance_scalars/data.py
@@ -23,7 +23,7 @@ lam_range_with_reciprocals.sort()
 
 # The resistance scalars already have R2Binfinity subtracted off. Decide here
 # whether this is with the full R2Binfinity or the drag-only R2Binfinity.
-if not use_drag_Minfinity or (use_drag_Minfinity and use_drag_R2Binfinity):
+if not (use_drag_Minfinity and use_drag_R2Binfinity):
     filename = f'{resistance_scalars_folder}/scalars_general_resistance_d.npy'
 else:
     filename = f'{resistance_scalars_folder}/scalars_general_resistance_d_drag.npy'
-- 
2.43.0


From a344f717b451f811cfa784a0e9bd164785e23b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:04:34 +0000
Subject: [PATCH 21/29] fix: return the solution when the wall force is
 extracted

With extract_force_on_wall_due_to_dumbbells set, the solved vector was
never unpacked and the result was reshaped with a float, so UFTE problems
stopped with TypeError.
---
 stokesian_dynamics/functions/timestepping.py | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 613320a..3d884f9 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -380,16 +380,16 @@ def generate_output_FTSUOE(
             else:
                 velocity_vector = np.linalg.solve(grand_resistance_matrix_ufte,
                                                   force_vector)
-                (FUa_out, Oa_out, Sa_out, Ub_out, HalfDUb_out) = deconstruct_velocity_vector_for_fts(
-                    posdata, velocity_vector)
-                Fa_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
-                Ua_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
-                Fa_out[0:num_fixed_velocity_spheres] = FUa_out[0:num_fixed_velocity_spheres]
-                Fa_out[num_fixed_velocity_spheres:num_spheres] = Fa_in[num_fixed_velocity_spheres:num_spheres]
-                Ua_out[0:num_fixed_velocity_spheres] = Ua_in[0:num_fixed_velocity_spheres]
-                Ua_out[num_fixed_velocity_spheres:num_spheres] = FUa_out[num_fixed_velocity_spheres:num_spheres]
-                (Ta_out, Ea_out, Fb_out, DFb_out) = (
-                    Ta_in[:], Ea_in[:], Fb_in[:], DFb_in[:])
+            (FUa_out, Oa_out, Sa_out, Ub_out, HalfDUb_out) = deconstruct_velocity_vector_for_fts(
+                posdata, velocity_vector)
+            Fa_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
+            Ua_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
+            Fa_out[0:num_fixed_velocity_spheres] = FUa_out[0:num_fixed_velocity_spheres]
+            Fa_out[num_fixed_velocity_spheres:num_spheres] = Fa_in[num_fixed_velocity_spheres:num_spheres]
+            Ua_out[0:num_fixed_velocity_spheres] = Ua_in[0:num_fixed_velocity_spheres]
+            Ua_out[num_fixed_velocity_spheres:num_spheres] = FUa_out[num_fixed_velocity_spheres:num_spheres]
+            (Ta_out, Ea_out, Fb_out, DFb_out) = (
+                Ta_in[:], Ea_in[:], Fb_in[:], DFb_in[:])
 
             if extract_force_on_wall_due_to_dumbbells:
                 # For finding effect of the dumbbells on the measured Force on the walls.
@@ -401,7 +401,7 @@ def generate_output_FTSUOE(
                 force_on_wall_due_to_dumbbells_flat = np.dot(
                     force_on_wall_due_to_dumbbells_matrix, dumbbell_forces)
                 force_on_wall_due_to_dumbbells = force_on_wall_due_to_dumbbells_flat.reshape(
-                    len(force_on_wall_due_to_dumbbells_flat)/3, 3)
+                    len(force_on_wall_due_to_dumbbells_flat)//3, 3)
 
         elif input_form == 'ufteu':
             num_fixed_velocity_spheres = (num_spheres
-- 
2.43.0


From b8d5324773b9a87bb02b4d51fbca5ea4ef6060c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:04:34 +0000
Subject: [PATCH 22/29] fix: keep the wall-force flag given on the command line

The sixth argument was read and then overwritten by the default further
down in the settings.
---
 stokesian_dynamics/settings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stokesian_dynamics/settings.py b/stokesian_dynamics/settings.py
index 9f8c847..448ecdd 100755
--- a/stokesian_dynamics/settings.py
+++ b/stokesian_dynamics/settings.py
@@ -124,7 +124,8 @@ if start_saving_after_first_n_timesteps > num_frames:
 # Work out the force on any particles whose velocities are specified in the
 # input file. (Typical use case: these 'fixed' particles are acting as walls.)
 # This is saved to `force_on_wall_due_to_dumbbells` in the output NPZ file.
-extract_force_on_wall_due_to_dumbbells = False
+if number_of_args < 6:
+    extract_force_on_wall_due_to_dumbbells = False
 
 # Just use diagonal terms of Minfinity. Good(?) approximation for dense
 # suspensions only.
-- 
2.43.0


From f74b5edca79a6454aa771d9885442d617337fe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:04:51 +0000
Subject: [PATCH 23/29] fix: make the Stokes-drag form for dumbbells usable

The bead velocities were split with float indices, which raises TypeError.
The drag was that of the first dumbbell for all of them and lacked the
factor 6 pi used everywhere else.
---
 stokesian_dynamics/functions/timestepping.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 3d884f9..21294f9 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -267,15 +267,14 @@ def generate_output_FTSUOE(
         solve_time_start = time.time()
         Fbeads = 0.5*np.concatenate([np.array(Fb_in) + np.array(DFb_in),
                                      np.array(Fb_in) - np.array(DFb_in)])
-        a = dumbbell_sizes[0]
-        drag_coeff = mu*a
-        Ubeads = Fbeads/drag_coeff
+        drag_coeff = 6*np.pi*mu*np.concatenate([dumbbell_sizes, dumbbell_sizes])
+        Ubeads = Fbeads/drag_coeff[:, None]
         Nbeads = len(Fbeads)
         (Fa_out, Ta_out, Sa_out, Fb_out, DFb_out) = (
             Fa_in[:], Ta_in[:], Sa_in[:], Fb_in[:], DFb_in[:])
         (Ua_out, Oa_out, Ea_out) = (Fa_in[:], Fa_in[:], Ea_in[:])
-        Ub_out = 0.5*(Ubeads[:Nbeads/2] + Ubeads[Nbeads/2:])
-        HalfDUb_out = 0.5*(Ubeads[:Nbeads/2] - Ubeads[Nbeads/2:])
+        Ub_out = 0.5*(Ubeads[:Nbeads//2] + Ubeads[Nbeads//2:])
+        HalfDUb_out = 0.5*(Ubeads[:Nbeads//2] - Ubeads[Nbeads//2:])
         gen_times = [0, 0, 0]
 
     else:
-- 
2.43.0


From 5c53e806c48bd710fdfec332156a6d16e13cb008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:39 +0000
Subject: [PATCH 24/29] fix: give runs without spheres a zero background strain
 rate by default

---
 stokesian_dynamics/setups/inputs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stokesian_dynamics/setups/inputs.py b/stokesian_dynamics/setups/inputs.py
index f76d4f0..445127f 100755
--- a/stokesian_dynamics/setups/inputs.py
+++ b/stokesian_dynamics/setups/inputs.py
@@ -102,6 +102,9 @@ def input_ftsuoe(n, posdata, frameno, timestep, last_velocities,
         Ea_in[:] = [[[0, 0, 0], [0, 0, 0], [0, 0, 0]] for _ in range(num_spheres)]
         Fb_in[:] = [[0, 0, 0] for _ in range(num_dumbbells)]
         DFb_in[:] = [[0, 0, 0] for _ in range(num_dumbbells)]
+    if num_spheres == 0:
+        # Dumbbells are still advected by the background flow.
+        Ea_in = [[[0, 0, 0], [0, 0, 0], [0, 0, 0]]]
     centre_of_background_flow = np.array([0, 0, 0])
     Ot_infinity = np.array([0, 0, 0])
     Et_infinity = np.array([[0, 0, 0], [0, 0, 0], [0, 0, 0]])
-- 
2.43.0


From 51ebd8b85e7364025fb03cb0ec68097d2d5e6198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:21 +0000
Subject: [PATCH 25/29] fix: allow a single sphere to be placed at random

The closest-pair report took the minimum of an empty array and raised
ValueError when only one sphere was placed.
---
 stokesian_dynamics/setups/functions_positions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 0269ebc..645840e 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -62,12 +62,13 @@ def randomise_spheres(random_box_bottom_left, random_box_top_right,
 
     random_sphere_positions = sphere_positions_out[
         current_sphere_positions.shape[0]:all_sphere_sizes.shape[0]]
-    distance_matrix = np.linalg.norm(
-        random_sphere_positions-random_sphere_positions[:, None], axis=2)
-    min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
-    two_closest_elements = np.where(distance_matrix == min_element_distance)
-    print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
-    print("Closest two spheres: " + str(two_closest_elements[0]))
+    if len(random_sphere_sizes) > 1:
+        distance_matrix = np.linalg.norm(
+            random_sphere_positions-random_sphere_positions[:, None], axis=2)
+        min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
+        two_closest_elements = np.where(distance_matrix == min_element_distance)
+        print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
+        print("Closest two spheres: " + str(two_closest_elements[0]))
 
     box_dimensions = abs(np.asarray(random_box_top_right)
                          - np.asarray(random_box_bottom_left))
-- 
2.43.0


From 607f34a9c7c283fa2d263f9c461737c4a8767985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:21 +0000
Subject: [PATCH 26/29] fix: drop leftover debugger call from periodic dumbbell
 placement

Beads closer than 0.2, which is fine for small beads, opened an
interactive shell or failed when IPython was not installed.
---
 stokesian_dynamics/setups/functions_positions.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 645840e..e77d7f5 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -265,19 +265,6 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
                 if bingo == 1:
                     break
 
-        q = 1000
-        qq = 1000
-        for m in [-1, 0, 1]:
-            for n in [-1, 0, 1]:
-                dxy = np.array([m*Dx, 0, n*Dz])
-                for p in bead_positions[:i]:
-                    q = min(q, np.linalg.norm(proposed_bead2_position - (p+dxy)))
-                    qq = min(qq, np.linalg.norm(proposed_bead1_position - (p+dxy)))
-        if min(q, qq) < 0.2:
-            print(min(q, qq))
-            from IPython import embed
-            embed()
-
         sys.stdout.write('|')
         sys.stdout.flush()
         bead_positions[2*i] = proposed_bead1_position
-- 
2.43.0


From 456686e82cfbff11be75a8a6c331851e20e00f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:21 +0000
Subject: [PATCH 27/29] fix: return dumbbells placed inside a quadrilateral

The reshape used a float and always raised TypeError. The beads are now
paired in the order their sizes assume, and the full bead-to-bead vector
is returned, as everywhere else.
---
 stokesian_dynamics/setups/functions_positions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index e77d7f5..b49e6ca 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -359,9 +359,9 @@ def randomise_beads_inside_quadrilateral(quadrilateral, dumbbell_sizes,
         sys.stdout.flush()
         bead_positions[i] = proposed_bead1_position
 
-    pos3 = bead_positions.reshape([2, bead_positions.shape[0]/2, 3])
-    pos3_dumbbell = 0.5*(pos3[0] + pos3[1])
-    pos3_deltax = 0.5*(pos3[1] - pos3[0])
+    pos3 = bead_positions.reshape([num_dumbbells, 2, 3])
+    pos3_dumbbell = 0.5*(pos3[:, 0] + pos3[:, 1])
+    pos3_deltax = pos3[:, 1] - pos3[:, 0]
 
     print("... succeeded.")
 
-- 
2.43.0


From 6a541baa6ae21325dace32e02f3d78292dee0f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:28:35 +0000
Subject: [PATCH 28/29] fix: draw dumbbells in the plotting scripts

---
 stokesian_dynamics/plotting/make_video.py     | 2 +-
 stokesian_dynamics/plotting/plot_positions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 1c962a9..47417d4 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -276,7 +276,7 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
             sphere_trace_lines, FaX)
     if num_dumbbells > 0:
         (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
-            ax, real_frameno, posdata, trace_paths,
+            ax, posdata, trace_paths,
             dumbbell_trace_lines, FbX, DFbX, no_line=no_line)
 
     if view_labels:
diff --git a/stokesian_dynamics/plotting/plot_positions.py b/stokesian_dynamics/plotting/plot_positions.py
index e3ff14a..dc22526 100755
--- a/stokesian_dynamics/plotting/plot_positions.py
+++ b/stokesian_dynamics/plotting/plot_positions.py
@@ -102,7 +102,7 @@ if num_spheres > 0:
         sphere_trace_lines, Fa_out[frameno])
 if num_dumbbells > 0:
     (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
-        ax, frameno, posdata, trace_paths, dumbbell_trace_lines,
+        ax, posdata, trace_paths, dumbbell_trace_lines,
         Fb_out[frameno], DFb_out[frameno])
 if view_labels:
     torque_lines = plot_all_torque_lines(ax, posdata, Ta_out)
-- 
2.43.0


From 2658a7511cc630c8840af63203a7bd4dc4d5c68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:28:35 +0000
Subject: [PATCH 29/29] fix: scale the force arrows of all spheres alike

---
 stokesian_dynamics/functions/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/graphics.py b/stokesian_dynamics/functions/graphics.py
index 6a9cb06..fd3dc57 100755
--- a/stokesian_dynamics/functions/graphics.py
+++ b/stokesian_dynamics/functions/graphics.py
@@ -257,11 +257,11 @@ def plot_all_force_lines(ax, posdata, f_spheres):
     (sphere_sizes, sphere_positions, sphere_rotations, dumbbell_sizes,
      dumbbell_positions, dumbbell_deltax) = posdata
     force_lines = force_text = []
+    f_spheres = f_spheres*6  # so we can see it
     for i in range(sphere_sizes.size):
         # Make invisible if hidden
         if ((f_spheres[i, :] != np.array([0, 0, 0])).any()
                 and (sphere_positions[i, 1] < 0.05 and sphere_positions[i, 1] > -1)):
-            f_spheres = f_spheres*6  # so we can see it
             line = Arrow3D([sphere_positions[i, 0],
                             sphere_positions[i, 0]+f_spheres[i, 0]],
                            [sphere_positions[i, 1],
-- 
2.43.0

