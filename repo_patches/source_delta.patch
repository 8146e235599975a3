From fb5955af15b213c54dea21a50f95cdab0bca1da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 01/22] fix: hold particles seeded on the first row or column
 at the boundary

---
 dorado/lagrangian_walker.py | 8 ++++++--
 dorado/particle_track.py    | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 5dd6cce..33f2e76 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -398,8 +398,12 @@ def check_for_boundary(new_inds, current_inds, cell_type):
     # If so, then stop moving particle
     for i in range(0, len(new_inds)):
         # If particle borders an edge, cancel out any additional steps
-        if -1 in cell_type[current_inds[i][0]-1:current_inds[i][0]+2,
-                           current_inds[i][1]-1:current_inds[i][1]+2]:
+        # (clip the window at the first row/column, where a negative lower
+        # bound would give an empty slice)
+        if -1 in cell_type[max(current_inds[i][0]-1, 0):
+                           current_inds[i][0]+2,
+                           max(current_inds[i][1]-1, 0):
+                           current_inds[i][1]+2]:
             new_inds[i][0] = current_inds[i][0]
             new_inds[i][1] = current_inds[i][1]
 
diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 00ec552..76b6488 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -735,9 +735,9 @@ class Particles():
                 _iter_particles = []
 
                 # Only iterate if this particle isn't already at a boundary:
-                if -1 not in self.cell_type[all_xinds[ii][-1]-1:
+                if -1 not in self.cell_type[max(all_xinds[ii][-1]-1, 0):
                                             all_xinds[ii][-1]+2,
-                                            all_yinds[ii][-1]-1:
+                                            max(all_yinds[ii][-1]-1, 0):
                                             all_yinds[ii][-1]+2]:
                     # Loop until |target time - current time| <
                     #            |target time - estimated next time|
-- 
2.43.0


From 2d083086b0ca2429f49935e27d29d19a31ba4958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:58 +0000
Subject: [PATCH 02/22] fix: keep a particle in place when no neighbor has any
 weight

---
 dorado/lagrangian_walker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 33f2e76..3ef88b2 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -430,6 +430,8 @@ def random_pick(probs):
     """
     probs[np.isnan(probs)] = 0  # any nans are assigned as 0
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
+    if cutoffs[-1] <= 0:
+        return 4  # nowhere to go, stay in the current cell
     # randomly pick indices from cutoffs based on uniform distribution
     idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
 
@@ -466,6 +468,8 @@ def steep_descent(probs):
     # is just 1, or it will randomly choose between values in the event
     # of a tie
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
+    if cutoffs[-1] <= 0:
+        return 4  # current cell is the only choice, stay there
     idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
 
     return idx
-- 
2.43.0


From 2839c4d8e80626f6d91076442210a04d871b576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:01 +0000
Subject: [PATCH 03/22] fix: never pick a zero-weight cell when the uniform
 draw is exactly zero

---
 dorado/lagrangian_walker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 3ef88b2..60fe06f 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -433,7 +433,9 @@ def random_pick(probs):
     if cutoffs[-1] <= 0:
         return 4  # nowhere to go, stay in the current cell
     # randomly pick indices from cutoffs based on uniform distribution
-    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
+    # (side='right' so that a draw of exactly 0 skips zero-weight cells)
+    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]),
+                               side='right')
 
     return idx
 
@@ -470,7 +472,9 @@ def steep_descent(probs):
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
     if cutoffs[-1] <= 0:
         return 4  # current cell is the only choice, stay there
-    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
+    # (side='right' so that a draw of exactly 0 skips zero-weight cells)
+    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]),
+                               side='right')
 
     return idx
 
-- 
2.43.0


From 96a3869b5b78db579da4cbb3a7670a7d90d58146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:05 +0000
Subject: [PATCH 04/22] fix: report every particle that exceeds the iteration
 limit

---
 dorado/particle_track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 76b6488..aa439bd 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -722,6 +722,9 @@ class Particles():
         else:
             # If we ARE aiming for a specific time
             # iterate each particle until we get there
+            # init list for too many particle iterations
+            _iter_particles = []
+
             # Loop through all particles
             for ii in list(range(self.Np_tracer)):
                 if len(all_times[ii]) > 1:
@@ -731,9 +734,6 @@ class Particles():
                     est_next_dt = 0.1
                 count = 1
 
-                # init list for too many particle iterations
-                _iter_particles = []
-
                 # Only iterate if this particle isn't already at a boundary:
                 if -1 not in self.cell_type[max(all_xinds[ii][-1]-1, 0):
                                             all_xinds[ii][-1]+2,
-- 
2.43.0


From a9d1f2e6254368a6cd058a438c54401c8ea11cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:09 +0000
Subject: [PATCH 05/22] fix: close saved json files explicitly so that write
 errors are raised

---
 dorado/routines.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index 1de0eaa..a48ffe9 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -110,7 +110,8 @@ def steady_plots(particle, num_iter,
     if save_output:
         # save data as json text file - technically human readable
         fpath = folder_name+os.sep+'data'+os.sep+'data.txt'
-        json.dump(walk_data, open(fpath, 'w'))
+        with open(fpath, 'w') as f:
+            json.dump(walk_data, f)
 
         # example code to load the dictionary back from the output json file
         # data = json.load(open('data.txt'))
@@ -286,7 +287,8 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
 
     # save data as a json text file - technically human readable
     fpath = folder_name+os.sep+'data'+os.sep+'data.txt'
-    json.dump(walk_data, open(fpath, 'w'))
+    with open(fpath, 'w') as f:
+        json.dump(walk_data, f)
 
     # example code for loading the dict back from the output json file:
     # data = json.load(open('data.txt'))
@@ -379,7 +381,8 @@ def time_plots(particle, num_iter, folder_name=None, verbose=None):
 
     # save data as a json text file - technically human readable
     fpath = folder_name+os.sep+'data'+os.sep+'data.txt'
-    json.dump(walk_data, open(fpath, 'w'))
+    with open(fpath, 'w') as f:
+        json.dump(walk_data, f)
 
     # example code for loading the dict back from the output json file:
     # data = json.load(open('data.txt'))
@@ -644,7 +647,8 @@ def plot_exposure_time(walk_data,
 
         # Save exposure times by particle ID
         fpath = folder_name+os.sep+'data'+os.sep+'exposure_times.txt'
-        json.dump(exposure_times, open(fpath, 'w'))
+        with open(fpath, 'w') as f:
+            json.dump(exposure_times, f)
     exposure_times = np.array(exposure_times)
 
     # For default settings (False), dorado will set end of ETD as the minimum travel 
-- 
2.43.0


From b918be16261677d156cd288534eea13378cc8e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:19 +0000
Subject: [PATCH 06/22] fix: let the plotting routines work with and without
 tracked variables

---
 dorado/routines.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index a48ffe9..8a60861 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -84,10 +84,10 @@ def steady_plots(particle, num_iter,
         walk_data = particle.run_iteration()
         if save_output:
             # Get current location
-            xi, yi, ti = get_state(walk_data)
+            xi, yi, ti = get_state(walk_data)[:3]
             if i == 0:
                 # Initialize figure
-                x0, y0, t0 = get_state(walk_data, 0)
+                x0, y0, t0 = get_state(walk_data, 0)[:3]
                 fig = plt.figure(dpi=200)
                 ax = fig.add_subplot(111)
                 im = ax.imshow(particle.depth)
@@ -260,9 +260,9 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
 
         walk_data = particle.run_iteration(target_time=target_times[i])
 
-        xi, yi, ti = get_state(walk_data)
+        xi, yi, ti = get_state(walk_data)[:3]
         if i == 0:
-            x0, y0, t0 = get_state(walk_data, 0)
+            x0, y0, t0 = get_state(walk_data, 0)[:3]
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = fig.add_subplot(111)
@@ -348,10 +348,10 @@ def time_plots(particle, num_iter, folder_name=None, verbose=None):
         walk_data = particle.run_iteration()
 
         # collect latest travel times
-        xi, yi, temptimes = get_state(walk_data)
+        xi, yi, temptimes = get_state(walk_data)[:3]
 
         if i == 0:
-            x0, y0, t0 = get_state(walk_data, 0)
+            x0, y0, t0 = get_state(walk_data, 0)[:3]
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = plt.gca()
@@ -617,7 +617,7 @@ def plot_exposure_time(walk_data,
     # Initialize arrays to record exposure time of each particle
     Np_tracer = len(walk_data['xinds'])  # Number of particles
     # Record final travel times
-    x, y, end_time, optional_state = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     # Handle the timedelta
     if timedelta == 1:
@@ -822,7 +822,7 @@ def plot_exposure_time_thresholds(walk_data,
     """
 
     Np_tracer = len(walk_data['xinds'])
-    x, y, end_time = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     if timedelta == 1:
         timeunit = '[s]'
@@ -1091,9 +1091,9 @@ def plot_state(grid, walk_data, iteration=-1, target_time=None, c='b'):
 
     """
     if target_time is None:
-        x, y, t = get_state(walk_data, int(iteration))
+        x, y, t = get_state(walk_data, int(iteration))[:3]
     else:
-        x, y, t = get_time_state(walk_data, target_time)
+        x, y, t = get_time_state(walk_data, target_time)[:3]
     ax = plt.gca()
     ax.imshow(grid)
     plt.scatter(y, x, c=c)
-- 
2.43.0


From c67f5580351bfd8dd56791862c2fa5ffc3394148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:23 +0000
Subject: [PATCH 07/22] fix: do not modify the previous_walk_data given to
 generate_particles

---
 dorado/particle_track.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index aa439bd..a325667 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -594,10 +594,11 @@ class Particles():
             # If the generator has been run before, or if new
             # particles are going to be added to a set of pre-existing
             # particles, then the walk_data dictionary from either can
-            # be fed into this function as input
-            prev_xinds = previous_walk_data['xinds']
-            prev_yinds = previous_walk_data['yinds']
-            prev_times = previous_walk_data['travel_times']
+            # be fed into this function as input (copied, so that moving
+            # particles does not alter the data that was passed in)
+            prev_xinds = [list(i) for i in previous_walk_data['xinds']]
+            prev_yinds = [list(i) for i in previous_walk_data['yinds']]
+            prev_times = [list(i) for i in previous_walk_data['travel_times']]
 
             # combine previous and new lists of particle information
             start_xindices = prev_xinds + start_xindices
@@ -607,7 +608,7 @@ class Particles():
             # merge optional variables with previous_walk_data
             for var, new_var_list in optional_start_vars.items():
                 if var in previous_walk_data:
-                    prev_var = previous_walk_data[var]
+                    prev_var = [list(i) for i in previous_walk_data[var]]
                     optional_start_vars[var] = prev_var + new_var_list
 
         # determine the new total number of particles we have now
-- 
2.43.0


From 054be26d951b847f3b53bd9889d0c79d1095d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:27 +0000
Subject: [PATCH 08/22] fix: do not modify the arrays and lists held by
 modelParams

---
 dorado/particle_track.py | 18 +++++++++---------
 dorado/routines.py       |  6 +++---
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index a325667..4f9403b 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -158,7 +158,7 @@ class Particles():
         # Define the water depth array
         if getattr(params, 'depth', None) is not None:
             try:
-                self.depth = params.depth
+                self.depth = params.depth.copy()
                 self.depth[np.isnan(self.depth)] = 0
             except Exception:
                 raise ValueError("Water depth array incorrectly defined.")
@@ -179,7 +179,7 @@ class Particles():
         # Define the water stage array
         if getattr(params, 'stage', None) is not None:
             try:
-                self.stage = params.stage
+                self.stage = params.stage.copy()
                 self.stage[self.depth == 0] = np.nan
             except Exception:
                 raise ValueError("Water stage array incorrectly defined.")
@@ -205,22 +205,22 @@ class Particles():
         # Define discharge and velocities for all cells in domain
         if params.model == 'DeltaRCM':
             if params.qx is not None and params.qy is not None:
-                self.qx = params.qx
+                self.qx = params.qx.copy()
                 self.qx[np.isnan(self.qx)] = 0
                 self.u = self.qx*self.depth/(self.depth**2 + 1e-8)
                 self.u[np.isnan(self.u)] = 0
 
-                self.qy = params.qy
+                self.qy = params.qy.copy()
                 self.qy[np.isnan(self.qy)] = 0
                 self.v = self.qy*self.depth/(self.depth**2 + 1e-8)
                 self.v[np.isnan(self.v)] = 0
 
             elif params.u is not None and params.v is not None:
-                self.u = params.u
+                self.u = params.u.copy()
                 self.u[np.isnan(self.u)] = 0
                 self.qx = self.u*self.depth
 
-                self.v = params.v
+                self.v = params.v.copy()
                 self.v[np.isnan(self.v)] = 0
                 self.qy = self.v*self.depth
 
@@ -234,7 +234,7 @@ class Particles():
                 self.u = self.qx*self.depth/(self.depth**2 + 1e-8)
                 self.u[np.isnan(self.u)] = 0
 
-                self.qy = params.qx
+                self.qy = params.qx.copy()
                 self.qy[np.isnan(self.qy)] = 0
                 self.v = self.qy*self.depth/(self.depth**2 + 1e-8)
                 self.v[np.isnan(self.v)] = 0
@@ -244,7 +244,7 @@ class Particles():
                 self.u[np.isnan(self.u)] = 0
                 self.qx = self.u*self.depth
 
-                self.v = params.u
+                self.v = params.u.copy()
                 self.v[np.isnan(self.v)] = 0
                 self.qy = self.v*self.depth
 
@@ -429,7 +429,7 @@ class Particles():
 
         # Read optional variables from params
         if getattr(params, 'particle_variables', None) is not None:
-            self.particle_variables = params.particle_variables
+            self.particle_variables = list(params.particle_variables)
         else:
             self.particle_variables = []
 
diff --git a/dorado/routines.py b/dorado/routines.py
index 8a60861..e53b2ea 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -266,7 +266,7 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = fig.add_subplot(111)
-            im = ax.imshow(params.depth)
+            im = ax.imshow(particle.depth)
             cax = fig.add_axes([ax.get_position().x1+0.01,
                                 ax.get_position().y0,
                                 0.02,
@@ -277,8 +277,8 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
             newloc = ax.scatter(yi, xi, c='r', s=0.75)
         else:
             # Update figure with new locations
-            im.set_data(params.depth)
-            im.set_clim(np.min(params.depth), np.max(params.depth))
+            im.set_data(particle.depth)
+            im.set_clim(np.min(particle.depth), np.max(particle.depth))
             newloc.set_offsets(np.array([yi,xi]).T)
             plt.draw()
         ax.set_title('Depth at Time ' + str(target_times[i]))
-- 
2.43.0


From 2514a380a5da37f7b978e7627c9bdd1a25273162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:31 +0000
Subject: [PATCH 09/22] fix: record tracked variables as plain numbers that can
 be saved to json

---
 dorado/lagrangian_walker.py | 2 +-
 dorado/particle_track.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 60fe06f..6070d81 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -554,6 +554,6 @@ def particle_stepper(Particles, current_inds, travel_times, start_optional):
         if var not in updated_optional:
             if var in Particles.available_particle_vars:
                 grid = Particles.available_particle_vars[var]
-                updated_optional[var] = [grid[x, y] for x, y in new_inds]
+                updated_optional[var] = [grid[x, y].item() for x, y in new_inds]
 
     return new_inds, travel_times, updated_optional
diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 4f9403b..09c62bc 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -566,7 +566,7 @@ class Particles():
                                                 for x, y in zip(new_start_xindices, new_start_yindices)]
                 elif var in self.available_particle_vars:
                     grid_values = self.available_particle_vars[var]
-                    optional_start_vars[var] = [[grid_values[x, y]] for x, y in zip(new_start_xindices, new_start_yindices)]
+                    optional_start_vars[var] = [[grid_values[x, y].item()] for x, y in zip(new_start_xindices, new_start_yindices)]
                 else:
                     raise ValueError(f"Variable {var} is not a recognized variable to track. Available variables are: {list(self.available_particle_vars.keys())} and 'roi_flag' (if roi_grid is provided).")
 
-- 
2.43.0


From f163956e31f5ea3fb31beb7e1ec6c966f7225715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:35 +0000
Subject: [PATCH 10/22] fix: keep tracked variables aligned when resuming from
 data without them

---
 dorado/particle_track.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 09c62bc..643f8a2 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -588,7 +588,10 @@ class Particles():
             for var, new_var_list in optional_start_vars.items():
                 if var in self.walk_data:
                     internal_var = self.walk_data[var]
-                    optional_start_vars[var] = internal_var + new_var_list
+                else:
+                    # not tracked until now, pad to keep records aligned
+                    internal_var = [[None]*len(i) for i in internal_xinds]
+                optional_start_vars[var] = internal_var + new_var_list
 
         if previous_walk_data is not None:
             # If the generator has been run before, or if new
@@ -609,7 +612,10 @@ class Particles():
             for var, new_var_list in optional_start_vars.items():
                 if var in previous_walk_data:
                     prev_var = [list(i) for i in previous_walk_data[var]]
-                    optional_start_vars[var] = prev_var + new_var_list
+                else:
+                    # not tracked until now, pad to keep records aligned
+                    prev_var = [[None]*len(i) for i in prev_xinds]
+                optional_start_vars[var] = prev_var + new_var_list
 
         # determine the new total number of particles we have now
         self.Np_tracer = len(start_xindices)
@@ -687,7 +693,8 @@ class Particles():
                 if var in self.walk_data:
                     optional_vars[var] = self.walk_data[var]
                 else:
-                    optional_vars[var] = [[None] for _ in range(self.Np_tracer)]
+                    optional_vars[var] = [[None]*len(all_xinds[i])
+                                          for i in range(self.Np_tracer)]
         
         start_optional = {var: [optional_vars[var][i][-1] for i in range(self.Np_tracer)]
                         for var in optional_vars}
-- 
2.43.0


From 7c5002df84cf662abb8a6790898ee80f6d1b63d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:38 +0000
Subject: [PATCH 11/22] fix: give each parallel worker its own random stream

---
 dorado/parallel_routing.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/dorado/parallel_routing.py b/dorado/parallel_routing.py
index 38aee2a..2ce30dd 100644
--- a/dorado/parallel_routing.py
+++ b/dorado/parallel_routing.py
@@ -37,6 +37,10 @@ def run_iter(pobj):
             any optional variables, with details same as input previous_walk_data
 
     """
+    # every task draws from its own random stream, no matter which worker
+    # process picks it up
+    if getattr(pobj, 'seed', None) is not None:
+        np.random.seed(pobj.seed)
     pobj.particles.generate_particles(pobj.Np_tracer, pobj.seed_xloc,
                                       pobj.seed_yloc)
     # do iterations
@@ -90,6 +94,7 @@ class parallel_obj:
         parallel_obj.Np_tracer = None
         parallel_obj.seed_xloc = None
         parallel_obj.seed_yloc = None
+        parallel_obj.seed = None
 
 
 def parallel_routing(particles, num_iter, Np_tracer, seed_xloc, seed_yloc,
@@ -129,16 +134,22 @@ def parallel_routing(particles, num_iter, Np_tracer, seed_xloc, seed_yloc,
             and travel times for each particle computed by that process/core
 
     """
-    # make parallel object to assign to function
-    pobj = parallel_obj()
-    pobj.particles = particles
-    pobj.num_iter = num_iter
-    pobj.Np_tracer = Np_tracer
-    pobj.seed_xloc = seed_xloc
-    pobj.seed_yloc = seed_yloc
+    # worker processes start with a copy of the same random state, so draw a
+    # separate seed for each of them
+    seeds = np.random.randint(0, 2**32, size=(num_cores, 4), dtype=np.uint32)
 
     # define list to pass to actual function that will be mapped to in parallel
-    p_list = [pobj] * num_cores
+    p_list = []
+    for i in list(range(0, num_cores)):
+        # make parallel object to assign to function
+        pobj = parallel_obj()
+        pobj.particles = particles
+        pobj.num_iter = num_iter
+        pobj.Np_tracer = Np_tracer
+        pobj.seed_xloc = seed_xloc
+        pobj.seed_yloc = seed_yloc
+        pobj.seed = seeds[i]
+        p_list.append(pobj)
 
     # create the parallel pool and run the process
     p = Pool(processes=num_cores)
-- 
2.43.0


From 9509355844bd044a0106927f1ef023abf312ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 12/22] fix: terminate the worker pool when parallel routing
 fails

---
 dorado/parallel_routing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dorado/parallel_routing.py b/dorado/parallel_routing.py
index 2ce30dd..c9d642f 100644
--- a/dorado/parallel_routing.py
+++ b/dorado/parallel_routing.py
@@ -153,8 +153,10 @@ def parallel_routing(particles, num_iter, Np_tracer, seed_xloc, seed_yloc,
 
     # create the parallel pool and run the process
     p = Pool(processes=num_cores)
-    par_result = p.map(run_iter, p_list)
-    p.terminate()
+    try:
+        par_result = p.map(run_iter, p_list)
+    finally:
+        p.terminate()
 
     # combine results before returning to user
     combined = combine_result(par_result)
-- 
2.43.0


From ea212c19759e1e0e21ed0aa9b139927bbf47e9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:57 +0000
Subject: [PATCH 13/22] fix: keep tracked variables added by single iterations

---
 dorado/particle_track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 643f8a2..04a7f23 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -791,8 +791,8 @@ class Particles():
                               " time-step. Particles are: " +
                               str(_iter_particles))
 
-            # re-write the walk_data attribute of self
-            self.walk_data = all_walk_data
+        # re-write the walk_data attribute of self
+        self.walk_data = all_walk_data
 
         return all_walk_data
 
-- 
2.43.0


From 241c1de54b802b7a6f606ed71bc697ffd83a3dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:44 +0000
Subject: [PATCH 14/22] fix: refuse unsteady runs whose outputs are incomplete

---
 dorado/routines.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dorado/routines.py b/dorado/routines.py
index e53b2ea..2ffc7c7 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -211,6 +211,13 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
     qxlist = sorted(qxlist)
     qylist = sorted(qylist)
     datalist = sorted(datalist)
+    # fields are paired up by position, so a missing file would silently
+    # combine fields of different timesteps
+    if output_type in ('csv', 'npy'):
+        if not (len(depthlist) == len(stagelist) ==
+                len(qxlist) == len(qylist)):
+            raise ValueError('Number of depth, stage, qx and qy files in'
+                             ' output_base differ')
     if num_steps > max(len(depthlist), len(datalist)):
         handle_verbose_deprecation(verbose)
         logger.warning('num_steps exceeds number of model outputs in'
-- 
2.43.0


From d4b6bf3a0d1dbd66d509e830ea9868a55119670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:08 +0000
Subject: [PATCH 15/22] fix: drawing travel paths leaves the simulation's
 random draws alone

---
 dorado/routines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index 2ffc7c7..6b5710c 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -1035,9 +1035,11 @@ def draw_travel_path(grid, walk_data,
 
     paths = []  # Place to store particle paths
     colors = []  # Place to store colors
+    # Own generator, so that plotting leaves the draws of a seeded run alone
+    rng = np.random.default_rng()
     for i in tqdm(particles_to_follow):
         # Set color for this particle
-        c = np.random.rand(3,)
+        c = rng.random(3)
         colors.append([c[0], c[1], c[2], 0.9])
 
         x = walk_data['xinds'][i][0::interval]
-- 
2.43.0


From 546f97a424e2522a4d20084bb86a203c83865700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:09 +0000
Subject: [PATCH 16/22] fix: plot exposure thresholds that are not reached

---
 dorado/routines.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index 6b5710c..5ad9e3e 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -882,19 +882,16 @@ def plot_exposure_time_thresholds(walk_data,
     ax1.set_xlim([0, end_time / timedelta])
     ax1.set_ylim([0, 1])
 
-    # Percentile markers
-    E50_idx = np.searchsorted(smooth_CDF, 0.50)
-    E75_idx = np.searchsorted(smooth_CDF, 0.75)
-    E90_idx = np.searchsorted(smooth_CDF, 0.90)
-
-    E50_time = int(smooth_time_vect[E50_idx] / timedelta)
-    E75_time = int(smooth_time_vect[E75_idx] / timedelta)
-    E90_time = int(smooth_time_vect[E90_idx] / timedelta)
-
+    # Percentile markers, of which the curve may not reach all
     handle_verbose_deprecation(verbose)
-    logger.info(f'E50: {E50_time} {timeunit}')
-    logger.info(f'E75: {E75_time} {timeunit}')
-    logger.info(f'E90: {E90_time} {timeunit}')
+    for level in (0.50, 0.75, 0.90):
+        idx = np.searchsorted(smooth_CDF, level)
+        if idx < len(smooth_CDF):
+            etime = int(smooth_time_vect[idx] / timedelta)
+            logger.info(f'E{int(level*100)}: {etime} {timeunit}')
+        else:
+            logger.info(f'E{int(level*100)}: not reached'
+                        f' (max F={smooth_CDF.max():.3f})')
 
     for yval in [0.5, 0.75, 0.90]:
         ax1.axhline(y=yval, color='gray', linestyle='--', linewidth=0.75)
-- 
2.43.0


From ef7eb365e63aee8fd4d4933a7393878c51b03ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 17/22] fix: refuse an invalid max_iter before particles move

---
 dorado/particle_track.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 04a7f23..ef233ed 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -730,6 +730,8 @@ class Particles():
         else:
             # If we ARE aiming for a specific time
             # iterate each particle until we get there
+            # (refusing a limit that is not a number before any one moves)
+            max_iter = float(max_iter)
             # init list for too many particle iterations
             _iter_particles = []
 
-- 
2.43.0


From bede13debafc9ca2e4891301c5c44a4789d27dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:26 +0000
Subject: [PATCH 18/22] fix: setup_logging ignored a handler given after the
 first call

---
 dorado/logging_config.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dorado/logging_config.py b/dorado/logging_config.py
index 37df7c6..1afeaa0 100644
--- a/dorado/logging_config.py
+++ b/dorado/logging_config.py
@@ -46,12 +46,13 @@ def setup_logging(level="WARNING", handler=None):
             f"Invalid logging level: {level}. Must be one of DEBUG, INFO, WARNING, ERROR, CRITICAL"
         )
     logger.setLevel(numeric_level)
-    if not logger.handlers:
-        h = handler or logging.StreamHandler()
-        h.setFormatter(
+    if handler is None and not logger.handlers:
+        handler = logging.StreamHandler()
+    if handler is not None and handler not in logger.handlers:
+        handler.setFormatter(
             logging.Formatter("%(name)s - %(levelname)s - %(message)s")
         )
-        logger.addHandler(h)
+        logger.addHandler(handler)
 
 
 def handle_verbose_deprecation(verbose):
-- 
2.43.0


From c9a8785269cf21f0a1ac1cfa4209ea4b5609d71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:30 +0000
Subject: [PATCH 19/22] fix: two threads setting up logging at once installed
 the default handler twice

---
 dorado/logging_config.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/dorado/logging_config.py b/dorado/logging_config.py
index 1afeaa0..4ac0ea0 100644
--- a/dorado/logging_config.py
+++ b/dorado/logging_config.py
@@ -8,11 +8,15 @@ of the deprecated `verbose` parameter.
 Project Homepage: https://github.com/passaH2O/dorado
 """
 import logging
+import threading
 import warnings
 
 # Package-level logger
 logger = logging.getLogger("dorado")
 
+# Guards the choice of handlers when several threads set up logging
+_setup_lock = threading.Lock()
+
 
 def setup_logging(level="WARNING", handler=None):
     """Configure dorado logging.
@@ -46,13 +50,14 @@ def setup_logging(level="WARNING", handler=None):
             f"Invalid logging level: {level}. Must be one of DEBUG, INFO, WARNING, ERROR, CRITICAL"
         )
     logger.setLevel(numeric_level)
-    if handler is None and not logger.handlers:
-        handler = logging.StreamHandler()
-    if handler is not None and handler not in logger.handlers:
-        handler.setFormatter(
-            logging.Formatter("%(name)s - %(levelname)s - %(message)s")
-        )
-        logger.addHandler(handler)
+    with _setup_lock:
+        if handler is None and not logger.handlers:
+            handler = logging.StreamHandler()
+        if handler is not None and handler not in logger.handlers:
+            handler.setFormatter(
+                logging.Formatter("%(name)s - %(levelname)s - %(message)s")
+            )
+            logger.addHandler(handler)
 
 
 def handle_verbose_deprecation(verbose):
-- 
2.43.0


From 16e3d047a093290ceb66f7bcb5c19593402d2c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 20/22] fix: unstruct2grid crop deleted empty rows and columns
 inside the boundary

Cropping removed every row and column without a value, not only those at
the border, so that with a narrow boundary (a strait thinner than a cell)
the parts on both sides were joined and cells ended up in the wrong place.
---
 dorado/particle_track.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index ef233ed..9a2cb70 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1293,6 +1293,15 @@ def unstruct2grid(coordinates,
         path = matplotlib.path.Path(boundary)
         outside = ~path.contains_points(gridXY_array)
 
+    # Function to delete the all-nan border, keeping rows and columns inside
+    def crop_border(gridded_data):
+        mask = ~np.isnan(gridded_data)
+        if not mask.any():
+            return gridded_data[:0, :0]
+        rows = np.flatnonzero(mask.any(1))
+        cols = np.flatnonzero(mask.any(0))
+        return gridded_data[rows[0]:rows[-1]+1, cols[0]:cols[-1]+1]
+
     # Create Interpolation function
     if k_nearest_neighbors == 1:  # Only use nearest neighbor
         index_qFun = interpolate.NearestNDInterpolator(inputXY,
@@ -1309,9 +1318,7 @@ def unstruct2grid(coordinates,
             gridded_data.shape = (len(yvect), len(xvect))
             gridded_data = np.flipud(gridded_data)
             if boundary is not None and crop is True:
-                mask = ~np.isnan(gridded_data) # Delete all-nan border
-                gridded_data = gridded_data[np.ix_(mask.any(1),
-                                                   mask.any(0))]
+                gridded_data = crop_border(gridded_data)
             return gridded_data
     else:
         # Inverse-distance interpolation
@@ -1335,9 +1342,7 @@ def unstruct2grid(coordinates,
             gridded_data.shape = (len(yvect), len(xvect))
             gridded_data = np.flipud(gridded_data)
             if boundary is not None and crop is True:
-                mask = ~np.isnan(gridded_data) # Delete all-nan border
-                gridded_data = gridded_data[np.ix_(mask.any(1),
-                                                   mask.any(0))]
+                gridded_data = crop_border(gridded_data)
             return gridded_data
 
     # Finally, call the interpolation function to create array:
-- 
2.43.0


From 55503ef1280d15e5243bab976ee9fc4c0122f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:17 +0000
Subject: [PATCH 21/22] fix: distribute the remaining particles when the
 discharge is a column

---
 dorado/particle_track.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 9a2cb70..ba5b3b9 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1400,8 +1400,9 @@ def flux_proportional_seeding(Q,
     N_remaining = N_total - N_int.sum()
 
     if N_remaining > 0:
-        add_idx = np.argsort(remainders)[-N_remaining:]
-        N_int[add_idx] += 1
+        # (flat indices, as the discharge may be given as a column)
+        add_idx = np.argsort(remainders, axis=None)[-N_remaining:]
+        N_int.flat[add_idx] += 1
 
     # Final check
     assert N_int.sum() == N_total, "Particle rounding failed!"
-- 
2.43.0


From 9bec03d1f99b9b535948d20db7f4661d9acaf02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:17 +0000
Subject: [PATCH 22/22] fix: only distribute seeded particles over the
 requested time steps

---
 dorado/particle_track.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index ba5b3b9..b948148 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1386,6 +1386,9 @@ def flux_proportional_seeding(Q,
     if len(Q_abs) < num_steps:
         raise ValueError("Not enough timesteps in the discharge array to match num_steps.")
 
+    # Particles are only seeded during the first num_steps
+    Q_abs = Q_abs[:num_steps]
+
     # Ensure total discharge is nonzero
     Q_sum = Q_abs.sum()
     if Q_sum == 0:
-- 
2.43.0

