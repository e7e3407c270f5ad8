From 191fd9e371867ec9a24a59eb9ac410bc907959d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 001/107] fix: A* may not cut the corner of a blocked cell when
 moving down-left

---
 omgtools/problems/globalplanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index e376a6b..87dd134 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -346,7 +346,7 @@ class Grid(object):
                     accessible = True
             # diagonal down left
             elif (point1[0] - 1 == point2[0] and point1[1] - 1 == point2[1]):
-                if (self.free([point1[0], point1[1] - self.cell_height]) and self.free([point1[0] - 1,point1[1]])):
+                if (self.free([point1[0], point1[1] - 1]) and self.free([point1[0] - 1,point1[1]])):
                     accessible = True
 
         return accessible
-- 
2.43.0


From 0c5309f8f4d01259d98d58b7f3ae9d6c803a6342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 002/107] fix: A* gave up when the goal was the last node left
 in the open list

---
 omgtools/problems/globalplanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index 87dd134..d84bf28 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -198,7 +198,7 @@ class AStarPlanner(GlobalPlanner):
             self.remove_from_open_list(self.current_node)
             self.closed_list.append(self.current_node)
 
-            if not self.open_list:
+            if not self.open_list and self.current_node.pos != self.goal:
                 # current node is not the goal, and open list is empty
                 # check if there are neigbors left which you can reach and are not yet visited
                 neighbors = self.grid.get_neighbors(self.current_node.pos)
-- 
2.43.0


From c7504668334e516dc660370a25c5a63f6decb034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 003/107] fix: move_to_gridpoint measured distances from the
 candidate picked so far

---
 omgtools/problems/globalplanner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index d84bf28..e27347d 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -394,8 +394,9 @@ class Grid(object):
                 # use an upper bound on this to avoid taking sqrt a lot to
                 # initialize d_min
                 d_min = 2*max(self.cell_height, self.cell_width)
+                occupied_point = moved_point
                 for p in points_to_check:
-                    distance = self.distance_between_cells(p, moved_point)
+                    distance = self.distance_between_cells(p, occupied_point)
                     if distance < d_min:
                         d_min = distance
                         moved_point = p
-- 
2.43.0


From 592de94b8e3528c715b7cc0aade4e62b7e981df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:07 +0000
Subject: [PATCH 004/107] fix: cells crossed by an obstacle without sharing a
 vertex were left free

---
 omgtools/problems/globalplanner.py | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index e27347d..c43821c 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -479,7 +479,6 @@ class Grid(object):
 
                 occ_cells = []
                 for cell in cells:
-                    blocked = False  # boolean to indicate if cell is blocked
                     # calculate cell vertices
                     cell_vertices = []
                     cell_vertices.append([cell['pos'][0] - 0.5*self.cell_width, cell['pos'][1] - 0.5*self.cell_height])
@@ -487,29 +486,12 @@ class Grid(object):
                     cell_vertices.append([cell['pos'][0] - 0.5*self.cell_width, cell['pos'][1] + 0.5*self.cell_height])
                     cell_vertices.append([cell['pos'][0] + 0.5*self.cell_width, cell['pos'][1] + 0.5*self.cell_height])
                     cell_vertices = np.array(cell_vertices)
-                    # cell center is inside the convex hull of the vertices of an obstacle
-                    if (min(vertices[:,0]) < cell['pos'][0] < max(vertices[:,0]) and
-                        min(vertices[:,1]) < cell['pos'][1] < max(vertices[:,1])):
+                    cell_vertices = np.round(cell_vertices, 4)  # same accuracy as the obstacle vertices
+                    # cell is blocked if it overlaps with the box around the obstacle, also when none of
+                    # their vertices are inside each other, e.g. for a thin wall running through the cell
+                    if (min(vertices[:,0]) < max(cell_vertices[:,0]) and min(cell_vertices[:,0]) < max(vertices[:,0]) and
+                        min(vertices[:,1]) < max(cell_vertices[:,1]) and min(cell_vertices[:,1]) < max(vertices[:,1])):
                         occ_cells.append(cell)
-                    else:
-                        # check if any of the cell vertices are inside the convex hull of the obstacle vertices
-                        for cell_v in cell_vertices:
-                            if (min(vertices[:,0]) < cell_v[0] < max(vertices[:,0]) and
-                                min(vertices[:,1]) < cell_v[1] < max(vertices[:,1])):
-                                    # avoid adding the same cell multiple times
-                                    if cell not in occ_cells:
-                                        occ_cells.append(cell)
-                                    blocked = True  # cell is blocked, go to next cell
-                                    break
-                        # check if any of the obstacle vertices are inside the convex hull of the cell vertices
-                        if not blocked:  # cell was not detected as blocked yet
-                            for v in vertices:
-                                if (min(cell_vertices[:,0]) < v[0] < max(cell_vertices[:,0]) and
-                                    min(cell_vertices[:,1]) < v[1] < max(cell_vertices[:,1])):
-                                        # avoid adding the same cell multiple times
-                                        if cell not in occ_cells:
-                                            occ_cells.append(cell)
-                                        break  # one obstacle vertex is inside the cell, go to next cell
                 # if cell is found to be occupied, remove it, i.e. don't check again for next obstacle
                 for cell in occ_cells:
                     cells.remove(cell)
-- 
2.43.0


From 6b2b47ee7a1f9ca193202996660d1ceeaa64e62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 005/107] fix: A* grid crashed on, or reused another obstacle's
 box for, obstacles that are no rectangle or circle

---
 omgtools/problems/globalplanner.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index c43821c..60e0619 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -465,7 +465,7 @@ class Grid(object):
                         else:
                             v_y = vertex_y[k] + pos[1] + self.offset[1]
                         vertices.append([v_x, v_y])
-                if isinstance(obstacle.shape, Circle):
+                elif isinstance(obstacle.shape, Circle):
                     r = obstacle.shape.radius
                     # approximate circle by a square and add these vertices
                     # take into account offset, e.g. to avoid waypoints which
@@ -474,6 +474,12 @@ class Grid(object):
                                 [pos[0] + r + self.offset[0], pos[1] - r - self.offset[1]],
                                 [pos[0] - r - self.offset[0], pos[1] + r + self.offset[1]],
                                 [pos[0] - r - self.offset[0], pos[1] - r - self.offset[1]]]
+                else:
+                    # other shapes: use the box around the checkpoints
+                    chck, rad = obstacle.shape.get_checkpoints()
+                    x_lim = [f([c[0] + s*r for c, r in zip(chck, rad)]) + s*self.offset[0] for f, s in ((min, -1), (max, 1))]
+                    y_lim = [f([c[1] + s*r for c, r in zip(chck, rad)]) + s*self.offset[1] for f, s in ((min, -1), (max, 1))]
+                    vertices = [[pos[0] + x, pos[1] + y] for x in x_lim for y in y_lim]
                 vertices = np.array(vertices)
                 vertices = np.round(vertices, 4)  # rounding off vertex positions, for easier comparison below
 
-- 
2.43.0


From 9d1826eb4c9cb182c2981e5b73d33e00c14ed044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 006/107] fix: a single vehicle size for the A* grid became a
 nested list

---
 omgtools/problems/globalplanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index 60e0619..b3df90f 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -63,7 +63,7 @@ class AStarPlanner(GlobalPlanner):
             if not isinstance(options['veh_size'], list):
                 options['veh_size'] = [options['veh_size']]
             if len(options['veh_size']) == 1:
-                self.veh_size = 2*[options['veh_size']]
+                self.veh_size = 2*options['veh_size']
             else:
                 self.veh_size = options['veh_size']
         else:
-- 
2.43.0


From 20b30bb2ab9c0f57aadb43ad09da3268cf2e38ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 007/107] fix: vehicle simulation lost a sample when
 update_time/sample_time is just below a whole number

---
 omgtools/vehicles/vehicle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 56333cc..98fd1f8 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -393,7 +393,7 @@ class Vehicle(OptiChild, PlotLayer):
             self.traj_storage = {}
             self.traj_storage_kn = {}
             self.pred_storage = {}
-        repeat = int(simulation_time/sample_time)
+        repeat = int(np.round(simulation_time/sample_time, 6))
         self._add_to_memory(self.traj_storage, self.trajectories, repeat)
         self._add_to_memory(self.traj_storage_kn, self.trajectories_kn, repeat)
         self._add_to_memory(self.pred_storage, self.prediction, repeat)
@@ -412,7 +412,7 @@ class Vehicle(OptiChild, PlotLayer):
     def integrate_ode(self, state0, input, integration_time, sample_time, ode=None):
         if ode is None:
             ode = self._ode
-        n_samp = int(integration_time/sample_time)+1
+        n_samp = int(np.round(integration_time/sample_time, 6))+1
         time_axis = np.linspace(0., (n_samp-1)*sample_time, n_samp)
         # make interpolation function which returns the input at a certain time
         time_interp = np.linspace(
-- 
2.43.0


From 4c1e7a4615c69689765c4b27ced2e7d3136db587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 008/107] fix: deployer lost a sample of the delay when the
 division is just below a whole number

---
 omgtools/execution/deployer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/execution/deployer.py b/omgtools/execution/deployer.py
index 4d8fd64..8f2ea9a 100644
--- a/omgtools/execution/deployer.py
+++ b/omgtools/execution/deployer.py
@@ -58,7 +58,7 @@ class Deployer:
             self.problem.initialize(current_time)
             delay = 0
         else:
-            delay = int((current_time - self.current_time - update_time)/self.sample_time)
+            delay = int(np.round((current_time - self.current_time - update_time)/self.sample_time, 6))
 
         # if the update time + delay is more than the time which is left, leave out the delay
         if hasattr(self.problem.vehicles[0], 'trajectories'):
-- 
2.43.0


From 075a751aeade0fa45701efe7a099b37d441d5578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 009/107] fix: Simulator.step(update_time) moved the clock over
 update_time but simulated the default one

---
 omgtools/execution/simulator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index 565daa3..879cb8a 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -62,7 +62,7 @@ class Simulator:
         return trajectories, signals
 
     def step(self, update_time=0.1):
-        stop = self.update()
+        stop = self.update(update_time)
         if stop:
             update_time = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
             self.update_timing(update_time)
@@ -89,13 +89,14 @@ class Simulator:
                 curr_state[str(vehicle)] = vehicle.signals['state'][:,-1]
         return curr_state, self.current_time, motion_time, stop, trajectories, signals
 
-    def update(self):
+    def update(self, update_time=None):
+        update_time = self.update_time if not update_time else update_time
         # update deployer
         self.deployer.update(self.current_time)
         # simulate problem
-        self.problem.simulate(self.current_time, self.update_time, self.sample_time)
+        self.problem.simulate(self.current_time, update_time, self.sample_time)
         # check stop condition
-        stop = self.problem.stop_criterium(self.current_time, self.update_time)
+        stop = self.problem.stop_criterium(self.current_time, update_time)
         return stop
 
     def reset_timing(self):
-- 
2.43.0


From 58575b14093e67e3932cbfd8611ed0ae521c550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 010/107] fix: knot time was computed from a horizon time
 truncated to milliseconds

---
 omgtools/problems/point2point.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 2381500..885d9ba 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -131,8 +131,7 @@ class FixedTPoint2point(Point2pointProblem):
         if self.vehicles[0].knot_intervals is None:
             raise ValueError('A constant knot interval should be used for ' +
                              'a fixed T point2point problem.')
-        self.knot_time = (int(self.options['horizon_time']*1000.) /
-                          self.vehicles[0].knot_intervals) / 1000.
+        self.knot_time = float(self.options['horizon_time']) / self.vehicles[0].knot_intervals
 
     def set_default_options(self):
         Point2pointProblem.set_default_options(self)
-- 
2.43.0


From cadce829abee2281a809a55832a85035f19ef31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 011/107] fix: time since the last knot was a full knot
 interval at knots that floats cannot represent

---
 omgtools/problems/point2point.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 885d9ba..298fbc0 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -173,7 +173,7 @@ class FixedTPoint2point(Point2pointProblem):
     def set_parameters(self, current_time):
         parameters = Point2pointProblem.set_parameters(self, current_time)
         if self.init_time is None:
-            parameters[self]['t'] = np.round(current_time, 6) % self.knot_time
+            parameters[self]['t'] = self.time_since_knot(current_time)
         else:
             parameters[self]['t'] = self.init_time
         parameters[self]['T'] = self.options['horizon_time']
@@ -183,12 +183,21 @@ class FixedTPoint2point(Point2pointProblem):
     # Deploying related functions
     # ========================================================================
 
+    def knots_passed(self, time):
+        # amount of knot intervals that have completely passed
+        return int(np.round(time/self.knot_time, 6))
+
+    def time_since_knot(self, time):
+        # relative time with respect to the last passed knot. Don't use the % operator
+        # here: with floats 0.6 % 0.2 = 0.2, while also 3 knots have passed
+        return max(0., np.round(time, 6) - self.knots_passed(time)*self.knot_time)
+
     def init_step(self, current_time, update_time):
         # transform spline variables
         if not hasattr(self, 'current_time_prev'):
             self.current_time_prev = 0
-        interval_prev = int(np.round(self.current_time_prev/self.knot_time, 6))
-        interval_now = int(np.round(current_time/self.knot_time, 6))
+        interval_prev = self.knots_passed(self.current_time_prev)
+        interval_now = self.knots_passed(current_time)
         if (interval_prev < interval_now): # passed a knot
             self.father.transform_primal_splines(lambda coeffs, basis, T:
                                                  T.dot(coeffs))
@@ -216,7 +225,7 @@ class FixedTPoint2point(Point2pointProblem):
             # its time horizon lies in the past. Therefore, we need to pass the
             # current time relatively to the begin of this time horizon. In this
             # way, only the future, relevant, part will be saved/plotted.
-            rel_current_time = np.round(current_time-self.start_time, 6) % self.knot_time
+            rel_current_time = self.time_since_knot(current_time-self.start_time)
         else:
             rel_current_time = self.init_time
         # store trajectories in vehicles
@@ -234,7 +243,7 @@ class FixedTPoint2point(Point2pointProblem):
     def simulate(self, current_time, simulation_time, sample_time):
         horizon_time = self.options['horizon_time']
         if self.init_time is None:
-            rel_current_time = np.round(current_time-self.start_time, 6) % self.knot_time
+            rel_current_time = self.time_since_knot(current_time-self.start_time)
         else:
             rel_current_time = self.init_time
         if horizon_time - rel_current_time < simulation_time:
@@ -243,7 +252,7 @@ class FixedTPoint2point(Point2pointProblem):
         Problem.simulate(self, current_time, simulation_time, sample_time)
 
     def compute_partial_objective(self, current_time, update_time):
-        rel_current_time = np.round(current_time-self.start_time, 6) % self.knot_time
+        rel_current_time = self.time_since_knot(current_time-self.start_time)
         horizon_time = self.options['horizon_time']
         t0 = rel_current_time/horizon_time
         t1 = t0 + update_time/horizon_time
-- 
2.43.0


From 3aba307aa638f46e5c2ddddd30d34434edcaa8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 012/107] fix: only one knot was shifted when an update passed
 several knots

---
 omgtools/problems/point2point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 298fbc0..a2d19fd 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -198,7 +198,7 @@ class FixedTPoint2point(Point2pointProblem):
             self.current_time_prev = 0
         interval_prev = self.knots_passed(self.current_time_prev)
         interval_now = self.knots_passed(current_time)
-        if (interval_prev < interval_now): # passed a knot
+        for _ in range(interval_prev, interval_now): # passed a knot
             self.father.transform_primal_splines(lambda coeffs, basis, T:
                                                  T.dot(coeffs))
             # self.father.transform_dual_splines(lambda coeffs, basis, T:
-- 
2.43.0


From 9bf3d6fefabc732379ee3eb06b2305c5111ebcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 013/107] fix: the start time was subtracted twice before
 shifting the free time guess

---
 omgtools/problems/point2point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index a2d19fd..6c165ce 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -360,7 +360,7 @@ class FreeTPoint2point(Point2pointProblem):
         return Point2pointProblem.stop_criterium(self, current_time, update_time)
 
     def init_step(self, current_time, update_time):
-        if (current_time - self.start_time) > 0:
+        if current_time > 0:  # current_time is already relative to start_time
             T = self.father.get_variables(self, 'T')[0][0]
             # check if almost arrived, if so lower the update time
             if T < 2*update_time:
-- 
2.43.0


From a76365e72ca71a4216801b6ebcf8289af576e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 014/107] fix: the free time guess was cut at
 update_time/(T-update_time) instead of update_time/T

---
 omgtools/problems/point2point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 6c165ce..f3085fa 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -372,7 +372,7 @@ class FreeTPoint2point(Point2pointProblem):
             # to goal position at target_time. Approximate/Represent this spline in
             # a new basis with new equidistant knots.
             self.father.transform_primal_splines(
-                lambda coeffs, basis: shift_spline(coeffs, update_time/target_time, basis))
+                lambda coeffs, basis: shift_spline(coeffs, update_time/T, basis))
             self.father.set_variables(target_time, self, 'T')
 
     def compute_partial_objective(self, current_time):
-- 
2.43.0


From c1d5203cf166a62456e54687b0940197a1109896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 015/107] fix: shifting a guess over a knot was wrong with
 fewer knot intervals than the degree or repeated knots

---
 omgtools/basics/spline_extra.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index dbf2e1e..e94b63a 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -171,24 +171,11 @@ def shiftoverknot_T(basis):
     m = 1  # number of repeating internal knots
     while knots[-deg-2-m] >= knots[-deg-2]:
         m += 1
-    t_shift = knots[deg+1] - knots[0]
-    T = np.diag(np.ones(len(basis)-m), m)
-    _T = np.eye(deg+1)
-    for k in range(deg):
-        _t = np.zeros((deg+1+k+1, deg+1+k))
-        for j in range(deg+1+k+1):
-            if j >= deg+1:
-                _t[j, j-1] = 1.
-            elif j <= k:
-                _t[j, j] = 1.
-            else:
-                _t[j, j-1] = (knots[j+deg-k]-t_shift)/(knots[j+deg-k]-knots[j])
-                _t[j, j] = (t_shift-knots[j])/(knots[j+deg-k]-knots[j])
-        _T = _t.dot(_T)
-    T[:deg, :deg+1] = _T[deg+1:, :]
-    T_extr = extrapolate_T(basis, knots[-1] - knots[-deg-2])
-    T[-(deg+1):, -(deg+1):] = T_extr[-(deg+1):, -(deg+1):]
-    return T
+    t_extra = knots[-1] - knots[-deg-2]
+    knots_ext = np.r_[knots[:-deg-1], knots[-1]*np.ones(m), (knots[-1] + t_extra)*np.ones(deg+1)]
+    T_extr = extrapolate_T(basis, t_extra)
+    T, _ = get_interval_T(BSplineBasis(knots_ext, deg), knots[deg+1], knots[-1] + t_extra)
+    return T.dot(T_extr)
 
 
 def shift_knot1_fwd(cfs, basis, t_shift):
-- 
2.43.0


From ce440a4c282788e8e41ab2e2adeb09223c562e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 016/107] fix: coordination variables were shifted over a knot
 once per iteration, and not at all when a knot was passed between updates

---
 omgtools/problems/admm.py              | 13 ++++++-------
 omgtools/problems/dualdecomposition.py | 11 +++++------
 omgtools/problems/point2point.py       |  1 +
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/omgtools/problems/admm.py b/omgtools/problems/admm.py
index 20b2c3f..0d8eb8b 100644
--- a/omgtools/problems/admm.py
+++ b/omgtools/problems/admm.py
@@ -409,7 +409,7 @@ class ADMM(DualUpdater):
         t0 = time.time()
         self.var_admm['z_i_p'] = self.var_admm['z_i']
         self.var_admm['z_ij_p'] = self.var_admm['z_ij']
-        current_time = np.round(current_time, 6) % self.problem.knot_time
+        current_time = self.problem.time_since_knot(current_time)
         horizon_time = self.problem.options['horizon_time']
         rho = self.options['rho']
         if self._lineq_updz:
@@ -456,7 +456,7 @@ class ADMM(DualUpdater):
         l_i = self.var_admm['l_i']
         l_ij = self.var_admm['l_ij']
         x_j = self.var_admm['x_j']
-        t = np.round(current_time, 6) % self.problem.knot_time
+        t = self.problem.time_since_knot(current_time)
         T = self.problem.options['horizon_time']
         rho = self.options['rho']
         out = self.problem_upd_l(x_i, z_i, z_ij, l_i, l_ij, x_j, rho)
@@ -475,10 +475,9 @@ class ADMM(DualUpdater):
             self.var_admm['x_j'][str(nghb)] = x_j
 
     def init_step(self, current_time, update_time):
-        self.problem.init_step(current_time, update_time)
-        # transform spline variables
-        if ((current_time > 0. and
-             np.round(current_time, 6) % self.problem.knot_time == 0)):
+        knots_passed = self.problem.init_step(current_time, update_time)
+        # transform spline variables: once for every knot the horizon has moved
+        for _ in range(knots_passed):
             tf = shift_over_knot
             for key in ['x_i', 'z_i', 'z_i_p', 'l_i', 'l_i_p']:
                 self.var_admm[key] = self._transform_spline(
@@ -499,7 +498,7 @@ class ADMM(DualUpdater):
         z_ij = self.var_admm['z_ij']
         z_ij_p = self.var_admm['z_ij_p']
         x_j = self.var_admm['x_j']
-        t = np.round(current_time, 6) % self.problem.knot_time
+        t = self.problem.time_since_knot(current_time)
         T = self.problem.options['horizon_time']
         rho = self.options['rho']
         out = self.problem_upd_res(x_i, z_i, z_i_p, z_ij, z_ij_p, x_j, t, T, rho)
diff --git a/omgtools/problems/dualdecomposition.py b/omgtools/problems/dualdecomposition.py
index 0dd2ac7..2412194 100644
--- a/omgtools/problems/dualdecomposition.py
+++ b/omgtools/problems/dualdecomposition.py
@@ -214,7 +214,7 @@ class DDUpdater(DualUpdater):
         x_j = self.var_dd['x_j']
         z_ij = self.var_dd['z_ij']
         l_ij = self.var_dd['l_ij']
-        t = np.round(current_time, 6) % self.problem.knot_time
+        t = self.problem.time_since_knot(current_time)
         T = self.problem.options['horizon_time']
         rho = self.options['rho']
         out = self.problem_upd_l(x_j, z_ij, l_ij, t, T, rho)
@@ -230,10 +230,9 @@ class DDUpdater(DualUpdater):
             self.var_dd['x_j'][str(nghb)] = x_j
 
     def init_step(self, current_time, update_time):
-        self.problem.init_step(current_time, update_time)
-        # transform spline variables
-        if ((current_time > 0. and
-             np.round(current_time, 6) % self.problem.knot_time == 0)):
+        knots_passed = self.problem.init_step(current_time, update_time)
+        # transform spline variables: once for every knot the horizon has moved
+        for _ in range(knots_passed):
             tf = shift_over_knot
             for key in ['x_i']:
                 self.var_dd[key] = self._transform_spline(
@@ -247,7 +246,7 @@ class DDUpdater(DualUpdater):
 
     def get_residuals(self, current_time):
         t0 = time.time()
-        current_time = np.round(current_time, 6) % self.problem.knot_time
+        current_time = self.problem.time_since_knot(current_time)
         horizon_time = self.problem.options['horizon_time']
         tf = lambda cfs, basis: shift_knot1_fwd(
             cfs, basis, current_time/horizon_time)
diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index f3085fa..dfd2437 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -204,6 +204,7 @@ class FixedTPoint2point(Point2pointProblem):
             # self.father.transform_dual_splines(lambda coeffs, basis, T:
             #                                    T.dot(coeffs))
         self.current_time_prev = current_time
+        return max(0, interval_now - interval_prev)  # amount of shifted knots
 
     def init_primal_transform(self, basis):
         return shiftoverknot_T(basis)
-- 
2.43.0


From e00e6bd9ba45677669e7d67b86364a8d576c67c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 017/107] fix: distributed problems predicted without the delay
 and ignored enforced states

---
 omgtools/problems/distributedproblem.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/distributedproblem.py b/omgtools/problems/distributedproblem.py
index 88b52e6..1689705 100644
--- a/omgtools/problems/distributedproblem.py
+++ b/omgtools/problems/distributedproblem.py
@@ -196,8 +196,13 @@ class DistributedProblem(Problem):
     def predict(self, current_time, predict_time, sample_time, states=None, inputs=None, dinputs=None, delay=0, enforce_states=False, enforce_inputs=False):
         if states is None:
             states = [None for k in range(len(self.problems))]
-        for problem, state in zip(self.problems, states):
-            problem.predict(current_time, predict_time, sample_time, state, delay)
+        if inputs is None:
+            inputs = [None for k in range(len(self.problems))]
+        if dinputs is None:
+            dinputs = [None for k in range(len(self.problems))]
+        for problem, state, inp, dinp in zip(self.problems, states, inputs, dinputs):
+            problem.predict(current_time, predict_time, sample_time, state, inp, dinp, delay,
+                            enforce_states, enforce_inputs)
 
     # ========================================================================
     # Simulation related functions
-- 
2.43.0


From d39d0c0facda27706894446c283babad05509f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 018/107] fix: Simulator.step crashed on problems that are no
 point to point problem themselves

---
 omgtools/execution/simulator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index 879cb8a..f510717 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -75,9 +75,12 @@ class Simulator:
         # depends on problem type, for fixedT motion_time is always = horizon_time
         # local import required to avoid circular dependency
         from ..problems.point2point import FixedTPoint2point, FreeTPoint2point
-        if isinstance(self.problem, FixedTPoint2point):
-            motion_time = self.problem.options['horizon_time']
-        elif isinstance(self.problem, FreeTPoint2point):
+        # in a distributed problem every vehicle has its own point2point problem
+        problem = self.problem.problems[0] if hasattr(self.problem, 'problems') else self.problem
+        motion_time = None
+        if isinstance(problem, FixedTPoint2point):
+            motion_time = problem.options['horizon_time']
+        elif isinstance(problem, FreeTPoint2point):
             motion_time = self.problem.father.get_variables(self.problem, 'T')[0][0]
 
         if len(self.problem.vehicles) == 1:
-- 
2.43.0


From bc2809970ceed1800118fd8bddb6d023557dabab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 019/107] fix: the shift to the part of the horizon still ahead
 was discarded for z and the multipliers

---
 omgtools/problems/admm.py              | 16 ++++++++--------
 omgtools/problems/dualdecomposition.py |  6 +++---
 omgtools/problems/dualmethod.py        |  4 ++--
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/omgtools/problems/admm.py b/omgtools/problems/admm.py
index 0d8eb8b..d2648b6 100644
--- a/omgtools/problems/admm.py
+++ b/omgtools/problems/admm.py
@@ -84,8 +84,8 @@ class ADMM(DualUpdater):
             x_i = self._get_x_variables(symbolic=True)
             # transform spline variables: only consider future piece of spline
             tf = lambda cfs, basis: shift_knot1_fwd(cfs, basis, t0)
-            self._transform_spline([x_i, z_i, l_i], tf, self.q_i)
-            self._transform_spline([z_ji, l_ji], tf, self.q_ji)
+            x_i, z_i, l_i = self._transform_spline([x_i, z_i, l_i], tf, self.q_i)
+            z_ji, l_ji = self._transform_spline([z_ji, l_ji], tf, self.q_ji)
             # construct objective
             obj = 0.
             for child, q_i in self.q_i.items():
@@ -141,8 +141,8 @@ class ADMM(DualUpdater):
         l_ij = self.q_ij_struct(l_ij)
         # transform spline variables: only consider future piece of spline
         tf = lambda cfs, basis: shift_knot1_fwd(cfs, basis, t0)
-        self._transform_spline([x_i, l_i], tf, self.q_i)
-        self._transform_spline([x_j, l_ij], tf, self.q_ij)
+        x_i, l_i = self._transform_spline([x_i, l_i], tf, self.q_i)
+        x_j, l_ij = self._transform_spline([x_j, l_ij], tf, self.q_ij)
         # fill in parameters
         A = A(par.cat)
         b = b(par.cat)
@@ -159,8 +159,8 @@ class ADMM(DualUpdater):
         z_ij_new = self.q_ij_struct(z[l_qi:l_qi+l_qij])
         # transform back
         tf = lambda cfs, basis: shift_knot1_bwd(cfs, basis, t0)
-        self._transform_spline(z_i_new, tf, self.q_i)
-        self._transform_spline(z_ij_new, tf, self.q_ij)
+        z_i_new = self._transform_spline(z_i_new, tf, self.q_i)
+        z_ij_new = self._transform_spline(z_ij_new, tf, self.q_ij)
         out = [z_i_new.cat, z_ij_new.cat]
         # create problem
         prob, buildtime = create_function('upd_z_'+str(self._index), inp, out, self.options)
@@ -292,8 +292,8 @@ class ADMM(DualUpdater):
         x_j = self.q_ij_struct(x_j)
         # transform spline variables: only consider future piece of spline
         tf = lambda cfs, basis: shift_knot1_fwd(cfs, basis, t0)
-        self._transform_spline([x_i, z_i, z_i_p], tf, self.q_i)
-        self._transform_spline([x_j, z_ij, z_ij_p], tf, self.q_ij)
+        x_i, z_i, z_i_p = self._transform_spline([x_i, z_i, z_i_p], tf, self.q_i)
+        x_j, z_ij, z_ij_p = self._transform_spline([x_j, z_ij, z_ij_p], tf, self.q_ij)
         # compute residuals
         pr = mtimes((x_i.cat-z_i.cat).T, (x_i.cat-z_i.cat))
         pr += mtimes((x_j.cat-z_ij.cat).T, (x_j.cat-z_ij.cat))
diff --git a/omgtools/problems/dualdecomposition.py b/omgtools/problems/dualdecomposition.py
index 2412194..5978549 100644
--- a/omgtools/problems/dualdecomposition.py
+++ b/omgtools/problems/dualdecomposition.py
@@ -89,9 +89,9 @@ class DDUpdater(DualUpdater):
             t0 = t/T
             # transform spline variables: only consider future piece of spline
             tf = lambda cfs, basis: shift_knot1_fwd(cfs, basis, t0)
-            self._transform_spline(x_i, tf, self.q_i)
-            self._transform_spline([z_ij, l_ij], tf, self.q_ij)
-            self._transform_spline(l_ji, tf, self.q_ji)
+            x_i = self._transform_spline(x_i, tf, self.q_i)
+            z_ij, l_ij = self._transform_spline([z_ij, l_ij], tf, self.q_ij)
+            l_ji = self._transform_spline(l_ji, tf, self.q_ji)
             # construct objective
             obj = 0.
             for child, q_i in self.q_i.items():
diff --git a/omgtools/problems/dualmethod.py b/omgtools/problems/dualmethod.py
index bba4538..a4eff5a 100644
--- a/omgtools/problems/dualmethod.py
+++ b/omgtools/problems/dualmethod.py
@@ -118,7 +118,7 @@ class DualUpdater(Problem):
                 for child, q in var[nghb].items():
                     for name in q.keys():
                         ret[nghb, child, name] = var[nghb][child][name]
-            return ret
+            return stru(ret.cat) if isinstance(chck, MX) else ret
         else:
             chck = list(list(var.values())[0].values())[0]
             if isinstance(chck, SX):
@@ -130,7 +130,7 @@ class DualUpdater(Problem):
             for child, q in var.items():
                 for name in q.keys():
                     ret[child, name] = var[child][name]
-            return ret
+            return stru(ret.cat) if isinstance(chck, MX) else ret
 
     def _get_x_variables(self, **kwargs):
         symbolic = kwargs['symbolic'] if 'symbolic' in kwargs else False
-- 
2.43.0


From 2bc9cfc2a99ba250f1fd4b65bb5e43e2ca565091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 020/107] fix: dual decomposition summed squares of already
 squared residuals

---
 omgtools/problems/dualdecomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/dualdecomposition.py b/omgtools/problems/dualdecomposition.py
index 5978549..4d205f8 100644
--- a/omgtools/problems/dualdecomposition.py
+++ b/omgtools/problems/dualdecomposition.py
@@ -290,7 +290,7 @@ class DDProblem(DualProblem):
             t2, pr = updater.get_residuals(current_time)
             t_upd_l = max(t_upd_l, t1)
             t_res = max(t_res, t2)
-            p_res += pr**2
+            p_res += pr  # pr represents a squared value
         p_res = np.sqrt(p_res)
         for updater in self.updaters:
             updater.communicate()
-- 
2.43.0


From 83975ff18664f1a1b599e764cd85b3ab53b8188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 021/107] fix: non-holonomic vehicles publish a motion that
 starts from the predicted state

---
 omgtools/vehicles/agv.py     | 12 ++++--------
 omgtools/vehicles/bicycle.py | 15 +++------------
 omgtools/vehicles/dubins.py  | 17 +++++------------
 3 files changed, 12 insertions(+), 32 deletions(-)

diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index 4c2efa5..18a183f 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -248,14 +248,10 @@ class AGV(Vehicle):
         ddtg_ha = tg_ha.derivative(2)
         dx = v_til*(1-tg_ha**2)
         dy = v_til*(2*tg_ha)
-        if not hasattr(self, 'signals'):  # first iteration
-            dx_int, dy_int = running_integral(dx), running_integral(dy)
-            x = dx_int - dx_int(time[0]) + self.pose0[0]
-            y = dy_int - dy_int(time[0]) + self.pose0[1]
-        else:
-            dx_int, dy_int = running_integral(dx), running_integral(dy)  # current state
-            x = dx_int - dx_int(time[0]) + self.signals['state'][0, -1]
-            y = dy_int - dy_int(time[0]) + self.signals['state'][1, -1]
+        # integrate from the state the plan starts from
+        dx_int, dy_int = running_integral(dx), running_integral(dy)
+        x = dx_int - dx_int(time[0]) + self.prediction['state'][0]
+        y = dy_int - dy_int(time[0]) + self.prediction['state'][1]
         # sample splines
         tg_ha = np.array(sample_splines([tg_ha], time))
         v_til = np.array(sample_splines([v_til], time))
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index cec332b..8a6951d 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -294,18 +294,9 @@ class Bicycle(Vehicle):
         ddtg_ha = tg_ha.derivative(2)
         dx = v_til*(1-tg_ha**2)
         dy = v_til*(2*tg_ha)
-        if not hasattr(self, 'signals'):  # first iteration
-            x = self.integrate_once(dx, self.pose0[0], time[0])
-            y = self.integrate_once(dy, self.pose0[1], time[0])
-            # dx_int, dy_int = running_integral(dx), running_integral(dy)
-            # x = dx_int - dx_int(time[0]) + self.pose0[0]
-            # y = dy_int - dy_int(time[0]) + self.pose0[1]
-        else:
-            x = self.integrate_once(dx, self.signals['state'][0, -1], time[0])
-            y = self.integrate_once(dy, self.signals['state'][1, -1], time[0])
-            # dx_int, dy_int = running_integral(dx), running_integral(dy)  # current state
-            # x = dx_int - dx_int(time[0]) + self.signals['state'][0, -1]
-            # y = dy_int - dy_int(time[0]) + self.signals['state'][1, -1]
+        # integrate from the state the plan starts from
+        x = self.integrate_once(dx, self.prediction['state'][0], time[0])
+        y = self.integrate_once(dy, self.prediction['state'][1], time[0])
         # sample splines
         tg_ha = np.array(sample_splines([tg_ha], time))
         v_til = np.array(sample_splines([v_til], time))
diff --git a/omgtools/vehicles/dubins.py b/omgtools/vehicles/dubins.py
index f7aaacc..f70652c 100644
--- a/omgtools/vehicles/dubins.py
+++ b/omgtools/vehicles/dubins.py
@@ -275,12 +275,9 @@ class Dubins(Vehicle):
         dtg_ha = tg_ha.derivative()
         dx = v_til*(1-tg_ha**2)
         dy = v_til*(2*tg_ha)
-        if not hasattr(self, 'signals'):  # first iteration
-            x = self.integrate_once(dx, self.pose0[0], time[0])
-            y = self.integrate_once(dy, self.pose0[1], time[0])
-        else:
-            x = self.integrate_once(dx, self.signals['state'][0, -1], time[0])
-            y = self.integrate_once(dy, self.signals['state'][1, -1], time[0])
+        # integrate from the state the plan starts from
+        x = self.integrate_once(dx, self.prediction['state'][0], time[0])
+        y = self.integrate_once(dy, self.prediction['state'][1], time[0])
         x_s, y_s, v_til_s, tg_ha_s, dtg_ha_s = sample_splines([x, y, v_til, tg_ha, dtg_ha], time)
         den = sample_splines([(1+tg_ha**2)], time)[0]
         theta = 2*np.arctan2(tg_ha_s,1)
@@ -307,12 +304,8 @@ class Dubins(Vehicle):
                 horizon_time = self.problem.options['horizon_time']
             dx2 = concat_splines([dx2], [horizon_time])[0]
             dy2 = concat_splines([dy2], [horizon_time])[0]
-            if not hasattr(self, 'signals'): # first iteration
-                x2 = self.integrate_once(dx2, self.pose0[0], time[0])
-                y2 = self.integrate_once(dy2, self.pose0[1], time[0])
-            else:
-                x2 = self.integrate_once(dx2, self.signals['state'][0, -1], time[0])
-                y2 = self.integrate_once(dy2, self.signals['state'][1, -1], time[0])
+            x2 = self.integrate_once(dx2, self.prediction['state'][0], time[0])
+            y2 = self.integrate_once(dy2, self.prediction['state'][1], time[0])
             dx_s, dy_s = sample_splines([dx, dy], time)
             x_s2, y_s2, dx_s2, dy_s2 = sample_splines([x2, y2, dx2, dy2], time)
             signals['err_dpos'] = np.c_[dx_s-dx_s2, dy_s-dy_s2].T
-- 
2.43.0


From c66e4ed84b66f1a23462e5d5bf87302da4098f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 022/107] fix: Dubins fleet centre signal agrees with the
 formation constraint

---
 omgtools/vehicles/dubins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/vehicles/dubins.py b/omgtools/vehicles/dubins.py
index f70652c..bfb8642 100644
--- a/omgtools/vehicles/dubins.py
+++ b/omgtools/vehicles/dubins.py
@@ -290,8 +290,8 @@ class Dubins(Vehicle):
         signals['input'] = np.c_[v_s, dtheta.T].T
         signals['acc'] = np.c_[acc_s].T
         if hasattr(self, 'rel_pos_c'):
-            x_c = x_s + sample_splines([self.rel_pos_c[0]*2*tg_ha + self.rel_pos_c[1]*(1-tg_ha**2)], time)[0]/den
-            y_c = y_s + sample_splines([self.rel_pos_c[1]*2*tg_ha - self.rel_pos_c[0]*(1-tg_ha**2)], time)[0]/den
+            x_c = x_s + sample_splines([self.rel_pos_c[0]*(1-tg_ha**2) - self.rel_pos_c[1]*2*tg_ha], time)[0]/den
+            y_c = y_s + sample_splines([self.rel_pos_c[0]*2*tg_ha + self.rel_pos_c[1]*(1-tg_ha**2)], time)[0]/den
             signals['fleet_center'] = np.c_[x_c, y_c].T
 
         if (self.options['substitution']): # and not self.options['exact_substitution']):  # don't plot error for exact_subs
-- 
2.43.0


From 907fc450d7277562caaa9124e805481504c2a001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 023/107] fix: trailer's stop criterion works on the pulling
 vehicle's current signals, drawn or not

---
 omgtools/vehicles/trailer.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index fc0648b..0b1893a 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -139,6 +139,7 @@ class Trailer(Vehicle):
                 result = True
         else:  # theta_trT reached or not specified
             result = True
+        self.update_lead_signals()
         result = (self.lead_veh.check_terminal_conditions() and result)  #arrived if lead_veh and trailer checks both True
         return result
 
@@ -206,6 +207,14 @@ class Trailer(Vehicle):
         pose_tr = state[:3]
         return np.r_[pose_tr , pose_veh]
 
+    def update_lead_signals(self):
+        # since this vehicle is not simulated separately it doesn't get a self.signals attribute
+        signals_veh = {}
+        signals_veh['pose'] = self.signals['pose'][3:, ]
+        signals_veh['state'] = self.signals['state'][3:, ]
+        signals_veh['input'] = self.signals['input']
+        self.lead_veh.update_signals(signals_veh)
+
     def draw(self, t=-1):
         surfaces, lines = [], []
         for shape in self.shapes:
@@ -227,11 +236,6 @@ class Trailer(Vehicle):
                                                                          np.sin(self.signals['pose'][2, t])])
             lines += [np.array([pt1, pt2]).T]
         # signals are required for drawing
-        # since this vehicle is not simulated separately it doesn't get a self.signals attribute
-        signals_veh = {}
-        signals_veh['pose'] = self.signals['pose'][3:, ]
-        signals_veh['state'] = self.signals['state'][3:, ]
-        signals_veh['input'] = self.signals['input']
-        self.lead_veh.update_signals(signals_veh)
+        self.update_lead_signals()
         surfaces += self.lead_veh.draw(t)[0]
         return surfaces, lines
-- 
2.43.0


From 681cf5a1572128c2f5d6b1f65530a5f9f7339742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 024/107] fix: Quadrotor3D has arrived only when it hovers at
 the goal

---
 omgtools/vehicles/quadrotor3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/vehicles/quadrotor3d.py b/omgtools/vehicles/quadrotor3d.py
index 9d87896..dd03875 100755
--- a/omgtools/vehicles/quadrotor3d.py
+++ b/omgtools/vehicles/quadrotor3d.py
@@ -200,7 +200,8 @@ class Quadrotor3D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['pose'][:3, -1] - self.poseT[:3]) > tol or
-                np.linalg.norm(self.signals['input'][:, -1]) - self.g > tol):
+                np.linalg.norm(self.signals['state'][3:6, -1]) > tol or
+                np.abs(np.linalg.norm(self.signals['input'][:, -1]) - self.g) > tol):
             return False
         else:
             return True
-- 
2.43.0


From 44ad1522c3dbc8c25bc18a55cd46625994515c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 025/107] fix: resetting the guess after an optimizer time-out
 crashed

---
 omgtools/problems/problem.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/omgtools/problems/problem.py b/omgtools/problems/problem.py
index 9f530a8..f3eb107 100644
--- a/omgtools/problems/problem.py
+++ b/omgtools/problems/problem.py
@@ -163,22 +163,20 @@ class Problem(OptiChild, PlotLayer):
             vehicle.predict(current_time, predict_time, sample_time, states[k], inputs[k], dinputs[k], delay, enforce_states, enforce_inputs)
 
     def reset_init_guess(self, init_guess=None):
-            if init_guess is None:  # no user provided initial guess
-                init_guess = []
-                for k, vehicle in enumerate(self.vehicles):  # build list
-                    init_guess.append(vehicle.get_init_spline_value())
-            elif not isinstance(init_guess, list):  # guesses must be in a list
+            if init_guess is not None and not isinstance(init_guess, list):  # guesses must be in a list
                 init_guess = [init_guess]
 
             for k, vehicle in enumerate(self.vehicles):
-                if len(init_guess) != vehicle.n_seg:
+                # no user provided initial guess: use the one of the vehicle (one per segment)
+                guess = vehicle.get_init_spline_value() if init_guess is None else init_guess
+                if len(guess) != vehicle.n_seg:
                     raise ValueError('Each spline segment of the vehicle should receive an initial guess.')
                 else:
                     for l in range(vehicle.n_seg):
-                        if init_guess[l].shape[1] != vehicle.n_spl:
+                        if guess[l].shape[1] != vehicle.n_spl:
                             raise ValueError('Each vehicle spline should receive an initial guess.')
                         else:
-                            self.father.set_variables(init_guess[l].tolist(),child=vehicle, name='splines_seg'+str(l))
+                            self.father.set_variables(guess[l].tolist(),child=vehicle, name='splines_seg'+str(l))
 
     # ========================================================================
     # Simulation related functions
-- 
2.43.0


From 1a54f5cb61d7eb28f21388119f4c7bc8ecc95184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 026/107] fix: Quadrotor3D error signals needed a fixed horizon
 time option

---
 omgtools/vehicles/quadrotor3d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omgtools/vehicles/quadrotor3d.py b/omgtools/vehicles/quadrotor3d.py
index dd03875..466758b 100755
--- a/omgtools/vehicles/quadrotor3d.py
+++ b/omgtools/vehicles/quadrotor3d.py
@@ -279,9 +279,10 @@ class Quadrotor3D(Vehicle):
             ddx2 = self.problem.father.get_variables(self, 'ddx')
             ddy2 = self.problem.father.get_variables(self, 'ddy')
             ddz2 = self.problem.father.get_variables(self, 'ddz')
-            ddx2 = concat_splines([ddx2], [self.problem.options['horizon_time']])[0]
-            ddy2 = concat_splines([ddy2], [self.problem.options['horizon_time']])[0]
-            ddz2 = concat_splines([ddz2], [self.problem.options['horizon_time']])[0]
+            horizon_time = f_til.basis.knots[-1]  # also known when the motion time is free
+            ddx2 = concat_splines([ddx2], [horizon_time])[0]
+            ddy2 = concat_splines([ddy2], [horizon_time])[0]
+            ddz2 = concat_splines([ddz2], [horizon_time])[0]
 
             x2, dx2 = self.integrate_twice(ddx2, self.prediction['state'][3], self.prediction['state'][0], time[0])
             y2, dy2 = self.integrate_twice(ddy2, self.prediction['state'][4], self.prediction['state'][1], time[0])
-- 
2.43.0


From 23c7b1cee67757197c0d87984a67d9ac01f33e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 027/107] fix: 3D room constraints ignored the radius of
 spheres and the height of plates

---
 omgtools/basics/shape.py     |  6 ++++++
 omgtools/vehicles/vehicle.py | 12 ++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/omgtools/basics/shape.py b/omgtools/basics/shape.py
index c394bc3..1362bd2 100644
--- a/omgtools/basics/shape.py
+++ b/omgtools/basics/shape.py
@@ -452,3 +452,9 @@ class Plate(Polyhedron3D):
             shape2d.vertices, np.zeros((1, shape2d.vertices.shape[1]))]
         surfaces = [np.r_[surf, np.zeros((1, surf.shape[1]))] for surf in shape2d.surfaces]
         Polyhedron3D.__init__(self, vertices, surfaces, orientation, 0.5*height)
+
+    def get_canvas_limits(self):
+        # the plate's height stretches out along its normal
+        normal = self.rotate(self.orientation, np.array([0., 0., 1.]))
+        return [lims + self.radius*abs(n)*np.array([-1., 1.])
+                for lims, n in zip(Polyhedron3D.get_canvas_limits(self), normal)]
diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 98fd1f8..311fb7e 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -224,12 +224,12 @@ class Vehicle(OptiChild, PlotLayer):
                 lims = room['shape'].get_canvas_limits()
                 room_limits = []
                 room_limits += [lims[k]+room['position'][k] for k in range(self.n_dim)]
-                for chck in checkpoints:
-                    for k in range(3):
-                        self.define_constraint(-
-                                               (chck[k]+position[k]) + room_limits[k][0], -inf, 0.)
-                        self.define_constraint(
-                            (chck[k]+position[k]) - room_limits[k][1], -inf, 0.)
+                extent = shape.get_canvas_limits()
+                for k in range(3):
+                    self.define_constraint(-
+                                           (extent[k][0]+position[k]) + room_limits[k][0], -inf, 0.)
+                    self.define_constraint(
+                        (extent[k][1]+position[k]) - room_limits[k][1], -inf, 0.)
 
     def get_fleet_center(self, splines, rel_pos, substitute=True):
         rel_pos = rel_pos if isinstance(rel_pos,list) else vertsplit(rel_pos)
-- 
2.43.0


From fc9ca69096c0c5d31038f4eba4e729ca5247e7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 028/107] fix: splines with (almost) coinciding knots could not
 be multiplied or added

---
 omgtools/basics/spline.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/omgtools/basics/spline.py b/omgtools/basics/spline.py
index ce8ac4d..8e7ab02 100644
--- a/omgtools/basics/spline.py
+++ b/omgtools/basics/spline.py
@@ -121,6 +121,12 @@ class Basis(object):
         self.knots = np.array(knots)
         self.degree = degree
         self._x = np.linspace(knots[0], knots[-1], NO_POINTS)
+        # knot intervals that are too narrow for this grid get points of their own
+        breaks = np.unique(self.knots)
+        narrow = np.diff(breaks) < (degree + 2)*(breaks[-1] - breaks[0])/NO_POINTS
+        self._x = np.unique(np.hstack([self._x] + [
+            np.linspace(a, b, 2*degree + 3)
+            for a, b in zip(breaks[:-1][narrow], breaks[1:][narrow])]))
 
     def __len__(self):
         return len(self.knots) - self.degree - 1
@@ -137,9 +143,13 @@ class Basis(object):
 
     def _combine(self, other, degree):
         """Combine two bases to a new basis of specified degree"""
+        # knots that only differ by rounding errors are the same knot
+        breaks = np.unique(self.knots)
+        nearest = breaks[np.argmin(abs(other.knots[:, None] - breaks), axis=1)]
+        same = abs(other.knots - nearest) < 1e-10*max(1., abs(breaks[-1]))
         c_self = Counter(self.knots)
-        c_other = Counter(other.knots)
-        breaks = set(self.knots).union(other.knots)
+        c_other = Counter(np.where(same, nearest, other.knots))
+        breaks = set(c_self).union(c_other)
         # Should be corrected!
         multiplicity = [max(c_self.get(b, -np.inf) + degree - self.degree,
                             c_other.get(b, -np.inf) + degree - other.degree)
-- 
2.43.0


From 91574b4e1570375309d282f38a02b6dafbc0491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 029/107] fix: obstacles changed the dictionary of initial
 values of the user

---
 omgtools/environment/obstacle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index c34a5de..124a044 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -46,6 +46,7 @@ class ObstaclexD(OptiChild):
 
     def __init__(self, initial, shape, simulation, options):
         OptiChild.__init__(self, 'obstacle')
+        initial = dict(initial)  # do not change the dictionary of the user
         self.simulation = simulation
         if 'trajectories' in simulation:
             for key in simulation['trajectories']:
-- 
2.43.0


From d9b46cfe2c0b2dea1e402fc0ce1e668746bc99ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 030/107] fix: accelerating obstacles started every next
 segment of the horizon with their first velocity

---
 omgtools/environment/obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index 124a044..eeb4480 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -103,8 +103,9 @@ class ObstaclexD(OptiChild):
                 for horizon_time in horizon_times:
                     for k in range(self.n_dim):
                         self.pos_spline[k] = BSpline(self.basis, vertcat(pos0[k], 0.5*v0[k]*horizon_time + pos0[k], pos0[k] + v0[k]*horizon_time + 0.5*a0[k]*(horizon_time**2)))
-                    # update start position for next segment
+                    # update start position and velocity for next segment
                     pos0 = [self.pos_spline[k](1) for k in range(self.n_dim)]
+                    v0 = [v0[k] + a0[k]*horizon_time for k in range(self.n_dim)]
             else:
                 # horizon_times was None
                 # pos spline over time horizon
-- 
2.43.0


From d6e38964a9b8ef6e4677647cef179cb6f2156c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 031/107] fix: drawing a hidden 2D obstacle crashed

---
 omgtools/environment/obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index eeb4480..89a9730 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -511,7 +511,7 @@ class Obstacle2D(ObstaclexD):
 
     def draw(self, t=-1):
         if not self.options['draw']:
-            return []
+            return [], []
         pose = np.zeros(2*self.n_dim)
         pose[:self.n_dim] = self.signals['position'][:, t]
         pose[2] = self.signals['orientation'][:, t]
-- 
2.43.0


From 4ae87648a619910027c365ca38d828fd7d27d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:02 +0000
Subject: [PATCH 032/107] fix: splines without interior knots could not be
 extrapolated

---
 omgtools/basics/spline_extra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index e94b63a..114c42b 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -111,7 +111,7 @@ def extrapolate_T(basis, t_extra):
     deg = basis.degree
     N = len(basis)
     m = 1  # number of repeating internal knots
-    while knots[-deg-2-m] >= knots[-deg-2]:
+    while m < deg+1 and knots[-deg-2-m] >= knots[-deg-2]:
         m += 1
     knots2 = np.r_[knots[:-deg-1], knots[-deg-1]*np.ones(m),
                    (knots[-1]+t_extra)*np.ones(deg+1)]
@@ -169,7 +169,7 @@ def shiftoverknot_T(basis):
     knots = basis.knots
     deg = basis.degree
     m = 1  # number of repeating internal knots
-    while knots[-deg-2-m] >= knots[-deg-2]:
+    while m < deg+1 and knots[-deg-2-m] >= knots[-deg-2]:
         m += 1
     t_extra = knots[-1] - knots[-deg-2]
     knots_ext = np.r_[knots[:-deg-1], knots[-1]*np.ones(m), (knots[-1] + t_extra)*np.ones(deg+1)]
-- 
2.43.0


From 53151355284f18a8e64586ae6b199a332be72031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:02 +0000
Subject: [PATCH 033/107] fix: backward shift of the first knot of splines
 without interior knots crashed

---
 omgtools/basics/spline_extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index 114c42b..16ef033 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -236,7 +236,7 @@ def shiftfirstknot_T(basis, t_shift, inverse=False):
             Tinv[i, i] = 1./T[i, i]
             for j in range(deg, i, -1):
                 Tinv[i, j] = (-1./T[i, i])*sum([T[i, k]*Tinv[k, j]
-                                                for k in range(i+1, deg+2)])
+                                                for k in range(i+1, deg+1)])
         return T, Tinv
     else:
         return T
-- 
2.43.0


From 0c9ed7fc04595aad49082bfa2953707321fd7a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 034/107] fix: concatenated splines were distorted when a jump
 of negative values passed for continuous

---
 omgtools/basics/spline_extra.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index 16ef033..e6aa13b 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -303,13 +303,14 @@ def concat_splines(segments, segment_times, n_insert=None):
     coeffs = [s.coeffs for s in spl0]
     prev_segment = [s.scale(segment_times[0], shift=0) for s in spl0]  # save the combined segment until now (with dimenions)
     prev_time = segment_times[0]  # save the motion time of combined segment
+    check_continuity = n_insert is None
     for k in range(1, len(segments)):
         for l, s in enumerate(segments[k]):
             if s.basis.degree != degree[l]:
                 # all concatenated splines should be of the same degree
                 raise ValueError(
-                    'Splines at index ' + l + 'should have same degree.')
-            if n_insert is None:
+                    'Splines at index ' + str(l) + ' should have same degree.')
+            if check_continuity:
                 # check continuity, n_insert can be different for each l
                 n_insert = degree[l]+1  # starts at max value
                 for d in range(degree[l]+1):
@@ -322,7 +323,7 @@ def concat_splines(segments, segment_times, n_insert=None):
                     # this seems due to the finite tolerance of ipopt? and due to the fact that these are floating point numbers
                     val1 = segments[k][l].scale(segment_times[k], shift = prev_time).derivative(d)(prev_time)
                     val2 = prev_segment[l].derivative(d)(prev_time)
-                    if ( abs(val1 - val2)*0.5/(val1 + val2) <= 1e-3):
+                    if ( abs(val1 - val2)*0.5 <= 1e-3*abs(val1 + val2)):
                         # more continuity = insert less knots
                         n_insert -= 1
                     else:
-- 
2.43.0


From 0a9c07b7bd5ed6f54a0deaf0e42c605708526255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:54 +0000
Subject: [PATCH 035/107] fix: concatenated splines took twice the value at the
 joint, or no joint at the end of a segment

---
 omgtools/basics/spline_extra.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index e6aa13b..b93952f 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -347,7 +347,8 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # make knot vector for two segments to concatenate
                 end_idx_concat = len(prev_segment[l].basis.knots)-(degree[l]+1)+n_insert
                 knots1 = prev_segment[l].basis.knots[:end_idx_concat]
-                knots2 = s.basis.knots[degree[l]+1:]*segment_times[k] + knots1[-1]  # last term = time shift
+                joint = prev_segment[l].basis.knots[-1]
+                knots2 = s.basis.knots[degree[l]+1:]*segment_times[k] + joint  # last term = time shift
                 knots_concat = np.r_[knots1, knots2]
 
                 # make union basis for two segments to concatenate
@@ -367,11 +368,11 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # first give the segment dimensions, by scaling it and shifting it appropriatly
                 # this is necessary, since by default the domain is [0,1]
                 # then evaluate the splines that you want to concatenate on greville points
-                # of union basis, will give 0 outside their domain
+                # of union basis
                 s_1 = prev_segment[l](grev_bc)
-                s_2 = segments[k][l].scale(segment_times[k], shift = prev_time)(grev_bc)
-                # sum to get total evaluation
-                eval_sc = s_1 + s_2
+                s_2 = segments[k][l].scale(segment_times[k], shift = joint)(grev_bc)
+                # combine to get total evaluation, both segments have a value at the joint itself
+                eval_sc = np.where(grev_bc <= joint, s_1, s_2)
 
                 # solve system to find new coeffs
                 coeffs_concat = la.solve(eval_bc, eval_sc)
-- 
2.43.0


From 7ac79381a0e716234cce2c6e53f57c0f82cb3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:07 +0000
Subject: [PATCH 036/107] fix: circular fleets of one or two vehicles had
 doubled or own neighbours

---
 omgtools/vehicles/fleet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/vehicles/fleet.py b/omgtools/vehicles/fleet.py
index c4ebacf..d9a643c 100644
--- a/omgtools/vehicles/fleet.py
+++ b/omgtools/vehicles/fleet.py
@@ -51,7 +51,8 @@ class Fleet(PlotLayer):
         self.nghb_list = {}
         for l, vehicle in enumerate(self.vehicles):
             if self.interconnection == 'circular':
-                nghb_ind = [(self.N+l+1) % self.N, (self.N+l-1) % self.N]
+                # with less than three vehicles, next and previous coincide
+                nghb_ind = [(self.N+l+1) % self.N, (self.N+l-1) % self.N][:self.N-1]
             elif self.interconnection == 'full':
                 nghb_ind = [k for k in range(self.N) if k != l]
             else:
-- 
2.43.0


From 2b70ba706d60e78c5f2a9e89c6ff8446e712dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:07 +0000
Subject: [PATCH 037/107] fix: fleet configuration given as dictionary was
 rotated as a list of coordinates

---
 omgtools/vehicles/fleet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/vehicles/fleet.py b/omgtools/vehicles/fleet.py
index d9a643c..f30f040 100644
--- a/omgtools/vehicles/fleet.py
+++ b/omgtools/vehicles/fleet.py
@@ -67,7 +67,7 @@ class Fleet(PlotLayer):
                              'for each vehicle.')
         cth, sth = np.cos(-orientation), np.sin(-orientation)
         for l, config in enumerate(configuration):
-            if len(config) == 2:
+            if not isinstance(config, dict) and len(config) == 2:
                 config = [config[0]*cth-config[1]*sth, config[0]*sth+config[1]*cth]
             if isinstance(config, dict):
                 self.configuration[self.vehicles[l]] = config
-- 
2.43.0


From 2e3a1d571f35db243ee9811f886ebb51a8f7720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:07 +0000
Subject: [PATCH 038/107] fix: no formation constraints in a circular fleet of
 two vehicles

---
 omgtools/problems/formation_central.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/formation_central.py b/omgtools/problems/formation_central.py
index 459ac9d..970cc1b 100644
--- a/omgtools/problems/formation_central.py
+++ b/omgtools/problems/formation_central.py
@@ -53,7 +53,7 @@ class FormationPoint2pointCentral(FixedTPoint2point):
             for nghb in self.fleet.get_neighbors(veh):
                 if veh not in couples[nghb] and nghb not in couples[veh]:
                     couples[veh].append(nghb)
-        if self.fleet.interconnection == 'circular':
+        if self.fleet.interconnection == 'circular' and self.fleet.N > 2:
             couples.pop(self.vehicles[-1], None)
             couples.pop(self.vehicles[-2], None)
 
-- 
2.43.0


From e4162faa885a7a5a362101966f603276b3fa7ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:31 +0000
Subject: [PATCH 039/107] fix: formations in coordinates other than the first
 ones used the wrong spline or crashed

---
 omgtools/problems/formation.py         |  7 ++++---
 omgtools/problems/formation_central.py | 11 ++++++-----
 omgtools/problems/formation_dualdec.py |  7 ++++---
 omgtools/problems/rendezvous.py        |  4 ++--
 4 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/omgtools/problems/formation.py b/omgtools/problems/formation.py
index 46b8418..6d8ba6a 100644
--- a/omgtools/problems/formation.py
+++ b/omgtools/problems/formation.py
@@ -42,7 +42,8 @@ class FormationPoint2point(ADMMProblem):
         for veh in self.vehicles:
             splines[veh] = veh.define_spline_symbol('splines_seg0', veh.n_spl)
             ind_veh = sorted(config[veh].keys())
-            centra[veh] = veh.get_fleet_center(splines[veh], rel_pos_c[veh])
+            centra[veh] = veh.get_fleet_center(
+                [splines[veh][ind] for ind in ind_veh], rel_pos_c[veh])
         # formation constraints
         couples = {veh: [] for veh in self.vehicles}
         for veh in self.vehicles:
@@ -53,8 +54,8 @@ class FormationPoint2point(ADMMProblem):
                     couples[veh].append(nghb)
                     ind_nghb = sorted(config[nghb].keys())
                     pos_c_nghb = centra[nghb]
-                    for ind_v, ind_n in zip(ind_veh, ind_nghb):
-                        self.define_constraint(pos_c_veh[ind_v] - pos_c_nghb[ind_n], 0., 0.)
+                    for k in range(min(len(ind_veh), len(ind_nghb))):
+                        self.define_constraint(pos_c_veh[k] - pos_c_nghb[k], 0., 0.)
         # terminal constraints (stability issue)
         for veh in self.vehicles:
             for spline in centra[veh]:
diff --git a/omgtools/problems/formation_central.py b/omgtools/problems/formation_central.py
index 970cc1b..28cc56f 100644
--- a/omgtools/problems/formation_central.py
+++ b/omgtools/problems/formation_central.py
@@ -46,7 +46,8 @@ class FormationPoint2pointCentral(FixedTPoint2point):
         for veh in self.vehicles:
             splines[veh] = self.father.get_variables(veh, 'splines_seg0', symbolic=True)
             ind_veh = sorted(config[veh].keys())
-            centra[veh] = veh.get_fleet_center(splines[veh], rel_pos_c[veh], substitute=False)
+            centra[veh] = veh.get_fleet_center(
+                [splines[veh][ind] for ind in ind_veh], rel_pos_c[veh], substitute=False)
         # formation constraints
         couples = {veh: [] for veh in self.vehicles}
         for veh in self.vehicles:
@@ -66,19 +67,19 @@ class FormationPoint2pointCentral(FixedTPoint2point):
             for nghb in nghbs:
                 ind_nghb = sorted(config[nghb].keys())
                 pos_c_nghb = centra[nghb]
-                for ind_v, ind_n in zip(ind_veh, ind_nghb):
+                for k, (ind_v, ind_n) in enumerate(zip(ind_veh, ind_nghb)):
                     if self.options['soft_formation']:
                         weight = self.options['soft_formation_weight']
                         eps = self.define_spline_variable('eps_form_'+str(ind_v)+str(ind_n), basis=veh.basis)[0]
                         obj = weight*definite_integral(eps, t/T, 1.)
                         self.define_objective(obj)
-                        self.define_constraint(pos_c_veh[ind_v] - pos_c_nghb[ind_n] - eps, -inf, 0.)
-                        self.define_constraint(-pos_c_veh[ind_v] + pos_c_nghb[ind_n] - eps, -inf, 0.)
+                        self.define_constraint(pos_c_veh[k] - pos_c_nghb[k] - eps, -inf, 0.)
+                        self.define_constraint(-pos_c_veh[k] + pos_c_nghb[k] - eps, -inf, 0.)
                         if self.options['max_formation_deviation'] != inf:
                             max_dev = abs(self.options['max_formation_deviation'])
                             self.define_constraint(eps, -max_dev, max_dev)
                     else:
-                        self.define_constraint(pos_c_veh[ind_v] - pos_c_nghb[ind_n], 0., 0.)
+                        self.define_constraint(pos_c_veh[k] - pos_c_nghb[k], 0., 0.)
 
     def update(self, current_time, update_time, sample_time):
         FixedTPoint2point.update(self, current_time, update_time, sample_time)
diff --git a/omgtools/problems/formation_dualdec.py b/omgtools/problems/formation_dualdec.py
index 07eb887..d7ca334 100644
--- a/omgtools/problems/formation_dualdec.py
+++ b/omgtools/problems/formation_dualdec.py
@@ -41,7 +41,8 @@ class FormationPoint2pointDualDecomposition(DDProblem):
         for veh in self.vehicles:
             splines[veh] = veh.define_spline_symbol('splines_seg0', veh.n_spl)
             ind_veh = sorted(config[veh].keys())
-            centra[veh] = veh.get_fleet_center(splines[veh], rel_pos_c[veh])
+            centra[veh] = veh.get_fleet_center(
+                [splines[veh][ind] for ind in ind_veh], rel_pos_c[veh])
         # formation constraints
         couples = {veh: [] for veh in self.vehicles}
         for veh in self.vehicles:
@@ -52,8 +53,8 @@ class FormationPoint2pointDualDecomposition(DDProblem):
                     couples[veh].append(nghb)
                     ind_nghb = sorted(config[nghb].keys())
                     pos_c_nghb = centra[nghb]
-                    for ind_v, ind_n in zip(ind_veh, ind_nghb):
-                        self.define_constraint(pos_c_veh[ind_v] - pos_c_nghb[ind_n], 0., 0.)
+                    for k in range(min(len(ind_veh), len(ind_nghb))):
+                        self.define_constraint(pos_c_veh[k] - pos_c_nghb[k], 0., 0.)
         # terminal constraints (stability issue)
         for veh in self.vehicles:
             for spline in centra[veh]:
diff --git a/omgtools/problems/rendezvous.py b/omgtools/problems/rendezvous.py
index 366f921..02ef517 100644
--- a/omgtools/problems/rendezvous.py
+++ b/omgtools/problems/rendezvous.py
@@ -55,8 +55,8 @@ class RendezVous(ADMMProblem):
                     couples[veh].append(nghb)
                     ind_nghb = sorted(config[nghb].keys())
                     pos_c_nghb = centra[nghb]
-                    for ind_v, ind_n in zip(ind_veh, ind_nghb):
-                        self.define_constraint(pos_c_veh[ind_v] - pos_c_nghb[ind_n], 0., 0.)
+                    for k in range(min(len(ind_veh), len(ind_nghb))):
+                        self.define_constraint(pos_c_veh[k] - pos_c_nghb[k], 0., 0.)
         ADMMProblem.construct(self)
 
     def set_parameters(self, current_time):
-- 
2.43.0


From 8f085247e186d054e7009044dc383df834f9453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 040/107] fix: constraints with a shutdown condition crashed
 (exec does not define local names in Python 3)

---
 omgtools/basics/optilayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/basics/optilayer.py b/omgtools/basics/optilayer.py
index 75a23aa..53e7e49 100644
--- a/omgtools/basics/optilayer.py
+++ b/omgtools/basics/optilayer.py
@@ -313,7 +313,7 @@ class OptiFather(object):
     def update_bounds(self, current_time):
         lb, ub = copy.deepcopy(self._lb), copy.deepcopy(self._ub)
         for name, shutdown in self._constraint_shutdown.items():
-            exec('shutdown_fun = lambda t: %s' % shutdown)
+            shutdown_fun = eval('lambda t: %s' % shutdown)
             if shutdown_fun(current_time):
                 lb[name], ub[name] = -inf, +inf
         return lb, ub
-- 
2.43.0


From 939b2a67633967a2bbbea54af813522c7df045e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 041/107] fix: segments with an index of two digits were
 shifted along with the one of their first digit

---
 omgtools/basics/optilayer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omgtools/basics/optilayer.py b/omgtools/basics/optilayer.py
index 53e7e49..5ea7aa8 100644
--- a/omgtools/basics/optilayer.py
+++ b/omgtools/basics/optilayer.py
@@ -33,6 +33,7 @@ import time
 import numpy as np
 import copy
 import os
+import re
 import shutil
 import collections as col
 
@@ -479,7 +480,8 @@ class OptiFather(object):
             for name, spl in child._splines_prim.items():
                 if name in child._variables:
                     # check if n in 'segn' is in the index list of segments to shift
-                    if ('seg' in name and int(name[name.index('seg')+3]) in seg_shift):
+                    seg = re.search('seg([0-9]+)', name)
+                    if (seg is not None and int(seg.group(1)) in seg_shift):
                         basis = spl['basis']
                         init = spl['init']
                         if init is not None:
-- 
2.43.0


From 6f59d6e6168b4e52cd31de1db34772b6cabcb571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:42 +0000
Subject: [PATCH 042/107] fix: evaluation of a constraint or objective crashed
 with present-day CasADi

---
 omgtools/basics/optilayer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/omgtools/basics/optilayer.py b/omgtools/basics/optilayer.py
index 5ea7aa8..8e2edd2 100644
--- a/omgtools/basics/optilayer.py
+++ b/omgtools/basics/optilayer.py
@@ -296,8 +296,7 @@ class OptiFather(object):
 
     def _evaluate_symbols(self, expression, variables, parameters):
         symbols = symvar(expression)
-        f = Function(symbols, [expression])
-        f.init()
+        f = Function('f', symbols, [expression])
         f_in = []
         for sym in symbols:
             [child, name] = self.symbol_dict[sym.name()]
@@ -305,7 +304,7 @@ class OptiFather(object):
                 f_in.append(variables[child.label, name])
             elif name in child._parameters:
                 f_in.append(parameters[child.label, name])
-        return evalf(f, f_in)
+        return evalf(f, f_in)[0]
 
     # ========================================================================
     # Problem evaluation
-- 
2.43.0


From f4990a37d893eb8cc7588d6e86cf12c797367464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:24 +0000
Subject: [PATCH 043/107] fix: a disc overlapping a polygon went unnoticed at
 most corners and at falling sides

---
 omgtools/basics/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/basics/geometry.py b/omgtools/basics/geometry.py
index 8ae0717..f7943fa 100644
--- a/omgtools/basics/geometry.py
+++ b/omgtools/basics/geometry.py
@@ -144,7 +144,7 @@ def circle_polyhedron_intersection(circle, polyhedron_shape, polyhedron_position
     vertices[1] +=  polyhedron_position[1]
 
     center = circle.signals['position'][:,-1]
-    for i in range(len(vertices)):
+    for i in range(len(vertices[0])-1):
         # first quickly check if any vertex is inside the circle
         dist = distance_between_points(center, [vertices[0][i], vertices[1][i]])
         if dist <= circle.shape.radius:
@@ -161,7 +161,7 @@ def circle_polyhedron_intersection(circle, polyhedron_shape, polyhedron_position
         # see if intersection point is within the two end points of line
         # and check distance between intersection point and circle center
         line1 = [[x1,y1],[x2,y2]]  # side of polyhedron
-        if (((x1-eps<=x4<=x2+eps and y1-eps<=y4<=y2+eps) or (x1+eps>=x4>=x2-eps and y1+eps>=y4>=y2-eps)) and
+        if ((min(x1,x2)-eps<=x4<=max(x1,x2)+eps and min(y1,y2)-eps<=y4<=max(y1,y2)+eps) and
            (distance_between_points(center, [x4,y4]) <= circle.shape.radius)):
             return True
     return False
-- 
2.43.0


From 99d4bb22905f4593c737bd8d2f37e54dba97fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:24 +0000
Subject: [PATCH 044/107] fix: full rings could not be made

---
 omgtools/basics/shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/basics/shape.py b/omgtools/basics/shape.py
index 1362bd2..282c778 100644
--- a/omgtools/basics/shape.py
+++ b/omgtools/basics/shape.py
@@ -88,7 +88,7 @@ class Ring(Shape2D):
     def get_surfaces(self):
         if (self.start == self.end).all():
             # full ring, placed in the origin
-            s = linspace(0, 2*np.pi, 1000)
+            self.start_angle, self.end_angle = 0., 2*np.pi
         else:
             # part of a ring, placed in the origin
             self.start_angle = np.arctan2(self.start[1], self.start[0])
@@ -99,7 +99,7 @@ class Ring(Shape2D):
             elif self.direction == 'CCW':
                 if self.start_angle > self.end_angle:  # arctan2 returned a negative end_angle, make positive
                     self.end_angle += 2*np.pi
-            s = np.linspace(self.start_angle, self.end_angle, 1000)
+        s = np.linspace(self.start_angle, self.end_angle, 1000)
         # inner radius
         points_in = np.vstack(
             (self.radius_in*np.cos(s), self.radius_in*np.sin(s)))
-- 
2.43.0


From 133a37081c6faa80b4ef7a1eac09257d6968be89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 045/107] fix: reading G-code with an empty line crashed

---
 omgtools/gui/gcode_reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index 3583a43..37909c5 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -130,8 +130,8 @@ class GCodeReader(object):
         for line in file_str:
             line = line.strip().decode("utf-8")
             # extract commands
-            if line[0] == '(':
-                # this is a commented line
+            if not line or line[0] == '(':
+                # this is an empty or a commented line
                 pass
             elif line[0] == 'G' or (line[0] == 'N' and (any([code in line for code in self.GCodes]))):
                 self.commands.append(line)
@@ -153,7 +153,10 @@ class GCodeReader(object):
             for line in file_str:
                 line = line.strip().decode("utf-8")
                 # extract commands
-                if line[0] == 'G' or (line[0] == 'N' and 'G' in line):
+                if not line:
+                    # this is an empty line
+                    pass
+                elif line[0] == 'G' or (line[0] == 'N' and 'G' in line):
                     self.commands.append(line)
 
     def create_blocks(self):
-- 
2.43.0


From 3a61704a45a027c6183abe97ac7f456bed749cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 046/107] fix: subfiles of a G-code file that was loaded by
 name could not be found

---
 omgtools/gui/gcode_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index 37909c5..4263861 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -46,6 +46,8 @@ class GCodeReader(object):
             except Exception as details:
                 print(details)
                 return
+            # save file path without the file name
+            self.filepath = file.rsplit('/',1)[0] if '/' in file else '.'
         self.file = data
 
     def convert(self):
-- 
2.43.0


From 83338f23ac6b60a7b729b7f4259ef30f642ee0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 047/107] fix: comments of several words were read as G-code
 words

---
 omgtools/gui/gcode_block.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index 967437c..0b8549f 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+import re
 import warnings
 
 class GCodeBlock(object):
@@ -293,14 +294,12 @@ def distance_between(point1, point2):
 
 def generate_gcodeblock(command, number, prev_block):
     # convert string to a dictionary representation
+    command = re.sub(r'\(.*?\)', '', command)  # neglect comments
     command = command.split()  # split at white spaces
     command_dict = {}
     for c in command:
         if c in ['G00','G01','G02','G03']:
             command_dict['type'] = c
-        elif '(' in c:
-            # neglect this command, since it is a comment
-            pass
         elif 'X' in c:
             command_dict['X'] = float(c[1:])
         elif 'Y' in c:
-- 
2.43.0


From fc2739fab17b1abdc087b82b20259ac855066d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 048/107] fix: an arc with one offset left out got its centre
 on an axis

---
 omgtools/gui/gcode_block.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index 0b8549f..d5d63f5 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -67,7 +67,8 @@ class G02(GCodeBlock):
 
         self.plane = 'XY'  # in which plane is the arc formed
 
-        self.center = [0, 0, 0]  # initialize
+        # offsets that are not given are zero
+        self.center = [self.X0, self.Y0, self.Z0]  # initialize
         if 'I' in command:
             self.I = command['I']
             self.center[0] = self.X0+self.I
@@ -177,7 +178,8 @@ class G03(GCodeBlock):
 
         self.plane = 'XY'  # in which plane is the arc formed
 
-        self.center = [0, 0, 0]  # initialize
+        # offsets that are not given are zero
+        self.center = [self.X0, self.Y0, self.Z0]  # initialize
         if 'I' in command:
             self.I = command['I']
             self.center[0] = self.X0+self.I
-- 
2.43.0


From e51701cbc3feff1dfac236ac7163f6b593b00cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 049/107] fix: counter-clockwise arcs had no radius until they
 were drawn

---
 omgtools/gui/gcode_block.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index d5d63f5..ad6d260 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -189,6 +189,7 @@ class G03(GCodeBlock):
         if 'K' in command:
             self.K = command['K']
             self.center[2] = self.Z0+self.K
+        self.radius = distance_between(self.center, [self.X0, self.Y0,self.Z0])
 
         # Todo: add check if IJ, IK, or JK present, if not throw error
 
-- 
2.43.0


From a1495aac6ee659dc52d2b5fc0ce4bd644234deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 050/107] fix: shifting or scaling G-code crashed (bytes in
 Python 3)

---
 omgtools/gui/gcode_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index 4263861..bca6a2e 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -60,7 +60,7 @@ class GCodeReader(object):
 
         if answer == 'yes':
             # shift and scale the GCode file
-            lines = self.file.read().splitlines()
+            lines = self.file.read().decode("utf-8").splitlines()
 
             # get user input for offset and scaling factor
             offset = []
-- 
2.43.0


From 09269dda167d32d04ba4881caa4c9732cfe29a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 051/107] fix: dividing G-code that ends with a move in z gave
 an empty part

---
 omgtools/gui/gcode_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index bca6a2e..f80d814 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -221,7 +221,8 @@ class GCodeReader(object):
                 blocks = []
                 # add z-block separately
                 GCode_blocks.append([block])
-        GCode_blocks.append(blocks)
+        if blocks:
+            GCode_blocks.append(blocks)
         return GCode_blocks
 
     def get_connections(self):
-- 
2.43.0


From c7a658003745ac425f24fbaad9e6f749d000a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 052/107] fix: the last point was missing from the connections
 of G-code

---
 omgtools/gui/gcode_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index f80d814..4854fa3 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -230,7 +230,7 @@ class GCodeReader(object):
         connections = []
         for block in self.blocks:
             connections.append([block.X0,block.Y0, block.Z0])
-        connections.append([self.blocks[-1].X0, self.blocks[-1].Y0, self.blocks[-1].Z0])  # add last point
+        connections.append([self.blocks[-1].X1, self.blocks[-1].Y1, self.blocks[-1].Z1])  # add last point
         connections.append([self.blocks[0].X0, self.blocks[0].Y0, self.blocks[0].Z0])  # close contour
         self.connections = np.array(connections)
 
-- 
2.43.0


From 43a6792e674875e5879ab2ecdbc8d772f3e271fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 053/107] fix: G-code with arcs could be used for one problem
 only

---
 omgtools/problems/gcodeschedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index ddf4ee9..07317b6 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -549,7 +549,7 @@ class GCodeSchedulerProblem(Problem):
             # make a single ring segment
             shape = Ring(radius_in = radius_in, radius_out = radius_out,
                          start = start, end = end, direction = direction)
-            pose = block.center
+            pose = list(block.center)
             pose.extend([0.,0.,0.])  # [x,y,z,orientation], ring always has orientation 0
             new_room = [{'shape': shape, 'pose': pose, 'position': pose[:2], 'draw':True,
                         'start': block.start, 'end': block.end, 'number':number}]
-- 
2.43.0


From f792818d3ccc0b08d009efcb500feb88f7f8af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 054/107] fix: parts of split circles with variable tolerance
 had wrong ends and numbers

---
 omgtools/problems/gcodeschedulerproblem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index 07317b6..bfacb6f 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -490,15 +490,16 @@ class GCodeSchedulerProblem(Problem):
 
                         divided_rooms.extend([
                                         {'shape': shape1, 'pose': pose, 'position': pose[:2], 'draw':True,
-                                        'start': block.start, 'end': seg_end1, 'number':number},
+                                        'start': r['start'], 'end': seg_end1, 'number':number},
                                         {'shape': shape2, 'pose': pose, 'position': pose[:2], 'draw':True,
                                         'start': seg_start2 , 'end': seg_end2, 'number':number+1},
                                         {'shape': shape3, 'pose': pose, 'position': pose[:2], 'draw':True,
-                                        'start': seg_start3, 'end': block.end, 'number':number+2}])
+                                        'start': seg_start3, 'end': r['end'], 'number':number+2}])
                     # assign divided rooms to old variable
                     new_room = divided_rooms
             # save original GCode block in the room description
             for r in new_room:
+                r['number'] = number
                 room.append(r)
                 number += 1
         return Environment(room=room)
-- 
2.43.0


From 535d17fa9f4fb5efb017295461ad1aa30e22ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 055/107] fix: the tool stuck at a G-code block equal to the
 last one

---
 omgtools/problems/gcodeschedulerproblem.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index bfacb6f..ea953c4 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -564,8 +564,7 @@ class GCodeSchedulerProblem(Problem):
         # between the two segments), we will add an extra segment and drop the first one
 
         # if final goal is not on the current segment, check if current state overlaps with the next segment
-        if (self.segments[0]['end'] == self.goal_state and
-            self.segments[0]['start'] == self.environment.room[-1]['start']):
+        if self.segments[0]['number'] == self.cnt:
             # this is the last segment, keep it until arrival
             valid = True
             return valid
-- 
2.43.0


From 3fb3174b3c9751a38595aa3783c8d36d69ceacca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 056/107] fix: the first G-code block was left out when it
 starts in line with the second

---
 omgtools/problems/gcodeschedulerproblem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index ea953c4..14f896e 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -119,7 +119,8 @@ class GCodeSchedulerProblem(Problem):
 
         # did we move far enough over the current segment yet?
         print('Current GCode block: ', self.n_current_block)
-        segments_valid = self.check_segments()
+        # nothing was solved yet in the first iteration, so no movement was made
+        segments_valid = not self.update_times or self.check_segments()
         if not segments_valid:
             # add new segment and remove first one
             if hasattr(self, 'no_update') and self.no_update:
-- 
2.43.0


From 0676b50c12704f5e2716109307f5d2668244f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:53 +0000
Subject: [PATCH 057/107] fix: a tool exactly on the tolerance of the next
 G-code block never went on to it

---
 omgtools/problems/gcodeschedulerproblem.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index 14f896e..275ecb5 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -676,11 +676,14 @@ class GCodeSchedulerProblem(Problem):
 
         # distance is the margin to take into account (due to the tool size)
 
+        # a solution may be on the border of the shape: allow for the accuracy of the solver
+        distance = distance - 1e-4
+
         if (isinstance(segment['shape'], (Rectangle, Square))):
             if (segment['shape'].orientation%(np.pi) == 0):
                 # horizontal line segment
-                if (point[1] < max(segment['shape'].vertices[1,:]+segment['position'][1]) and
-                    point[1] > min(segment['shape'].vertices[1,:]+segment['position'][1])):
+                if (point[1] < max(segment['shape'].vertices[1,:]+segment['position'][1]) - distance and
+                    point[1] > min(segment['shape'].vertices[1,:]+segment['position'][1]) + distance):
                     return True
                 else:
                     return False
@@ -688,8 +691,8 @@ class GCodeSchedulerProblem(Problem):
                 # vertical line segment
                 # Note: also a shape with orientation 0 would pass this test, but this was
                 # already captured in first if-test
-                if (point[0] < max(segment['shape'].vertices[0,:]+segment['position'][0]) and
-                    point[0] > min(segment['shape'].vertices[0,:]+segment['position'][0])):
+                if (point[0] < max(segment['shape'].vertices[0,:]+segment['position'][0]) - distance and
+                    point[0] > min(segment['shape'].vertices[0,:]+segment['position'][0]) + distance):
                     return True
                 else:
                     return False
-- 
2.43.0


From 9c553e096c7750c2b9d2920edd6322ce23d6ff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:26 +0000
Subject: [PATCH 058/107] fix: vehicles with a free end (rendez-vous) were not
 planned to come to rest

---
 omgtools/problems/point2point.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index dfd2437..ee4246b 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -423,5 +423,6 @@ class FreeEndPoint2point(FixedTPoint2point):
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
             for con in term_con_der:
+                spline, condition = con[0], con[1]
                 self.define_constraint(spline(1.) - condition, 0., 0.)
         self.define_objective(objective)
-- 
2.43.0


From 80c10fb95b99252aacedeb7a7bc306eaccf5e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:15 +0000
Subject: [PATCH 059/107] fix: exported ADMM counted two neighbours, whatever
 the fleet

---
 omgtools/export/export_admm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/export/export_admm.py b/omgtools/export/export_admm.py
index 6a5f78e..f91d351 100755
--- a/omgtools/export/export_admm.py
+++ b/omgtools/export/export_admm.py
@@ -42,7 +42,7 @@ class ExportADMM(Export):
             else:
                 for veh_type, nghb_nr in updaters.items():
                     for nr, upd in nghb_nr.items():
-                        dest_dir = os.path.join(self.options['directory'], veh_type+'_'+nr+'nghb')
+                        dest_dir = os.path.join(self.options['directory'], veh_type+'_'+str(nr)+'nghb')
                         self.export(source_dirs, dest_dir, src_files, upd.father_updx, upd, upd.problem)
 
     def set_default_options(self):
@@ -89,7 +89,7 @@ class ExportADMM(Export):
         constants['double RHO'] = problem.options['rho']
         constants['int INITITER'] = problem.options['init_iter']
         constants['int N_SHARED'] = problem.q_i_struct(0).cat.size(1)
-        constants['int N_NGHB'] = len(problem.fleet.get_neighbors(problem.vehicle))
+        constants['int N_NGHB'] = len(problem.q_ji)
         constants['std::string UPDZPROBLEM'] = '"' + problem.problem_upd_z.name() + '"'
         constants['std::string UPDLPROBLEM'] = '"' + problem.problem_upd_l.name() + '"'
         constants['std::string UPDRESPROBLEM'] = '"' + problem.problem_upd_res.name() + '"'
-- 
2.43.0


From 120d45e44bc8cd97a3dc5c8c47e22576fc746859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:18 +0000
Subject: [PATCH 060/107] fix: a waypoint back from the last one cut the start
 out of the frame

---
 omgtools/environment/frame.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index d951fe7..37be2e8 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -639,15 +639,14 @@ class CorridorFrame(Frame):
         xmin,ymin,xmax,ymax = self.border['limits']
         xmin_new,ymin_new,xmax_new,ymax_new = xmin,ymin,xmax,ymax
         if point[0] > prev_point[0]:
-            xmax_new = point[0] + self.veh_size*self.margin
+            xmax_new = max(xmax, point[0] + self.veh_size*self.margin)
         elif point[0] < prev_point[0]:
-            xmin_new = point[0] - self.veh_size*self.margin
+            xmin_new = min(xmin, point[0] - self.veh_size*self.margin)
         # else: xmin and xmax are kept
         if point[1] > prev_point[1]:
-            ymax_new = point[1] + self.veh_size*self.margin
+            ymax_new = max(ymax, point[1] + self.veh_size*self.margin)
         elif point[1] < prev_point[1]:
-            ymin_new = point[1] - self.veh_size*self.margin
-            ymax_new = ymax
+            ymin_new = min(ymin, point[1] - self.veh_size*self.margin)
         # else: ymin and ymax are kept
 
         self.border = self.make_border(xmin_new,ymin_new,xmax_new,ymax_new)
-- 
2.43.0


From 084478f21614bb2a9c25900262f3c2b4bdc5815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:46 +0000
Subject: [PATCH 061/107] fix: waypoints closer to the frame border than needed
 were given up, or crashed

---
 omgtools/environment/frame.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 37be2e8..504ce88 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -252,7 +252,7 @@ class Frame(object):
         elif method == 'move_point':  # move waypoint, keep frame borders
             new_waypoint = None
             # compute distance from last waypoint to border
-            if (not inside_border or any(abs(d) <= self.veh_size*self.margin for d in dist_to_border)):
+            if (not inside_border or any(abs(d) <= self.veh_size for d in dist_to_border)):
                 # waypoint was outside of border, or too close to border
                 count = 1
                 while True:  # find waypoint that is far enough from border
@@ -568,7 +568,7 @@ class CorridorFrame(Frame):
         # run over all waypoints, starting from the waypoint closest to start_pos
         # first try if endpoint can be inside the frame without obstacles
         point = self.global_path[-1]
-        if not self.point_in_frame(point):
+        if not self.point_in_frame(point, distance=self.veh_size*self.margin):
             # next waypoint is not inside frame,
             # enlarge frame such that it is in there
             # determine which borders to move
@@ -589,7 +589,7 @@ class CorridorFrame(Frame):
                     # update limits of frame
                     xmin,ymin,xmax,ymax = self.border['limits']
 
-                    if not self.point_in_frame(point):
+                    if not self.point_in_frame(point, distance=self.veh_size*self.margin):
                         # next waypoint is not inside frame,
                         # enlarge frame such that it is in there
                         # determine which borders to move
@@ -608,10 +608,10 @@ class CorridorFrame(Frame):
                             # there is an obstacle inside the frame after enlarging
                             # don't add point and keep old frame
                             self.border = self.make_border(xmin,ymin,xmax,ymax)
-                            # frame is finished
-                            break
-                        else:
-                            points_in_frame.append(point)
+                            if not self.point_in_frame(point):
+                                # frame is finished
+                                break
+                        points_in_frame.append(point)
                     else:
                         # next waypoint is inside frame, without enlarging it
                         # so add it anyway
-- 
2.43.0


From 18abe94a04689ed8bd3197c08ad762bf9c7fa910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:46 +0000
Subject: [PATCH 062/107] fix: a frame stuck out of the room, over a thin
 obstacle at its lower side

---
 omgtools/environment/frame.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 504ce88..74e9559 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -755,6 +755,9 @@ class CorridorFrame(Frame):
                     self.border = self.make_border(xmin,ymin,xmax,ymax)
                     break
 
+        # the last enlargement that was tried may have left the room
+        self.border = self.make_border(xmin,ymin,xmax,ymax)
+
         # update waypoints
         # starting from the last waypoint that was already in the frame
         # vehicle size was already taken into account above, when shifting borders
-- 
2.43.0


From 411da3daaa745e0e1bff0ccf9818c5fae53707a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:08 +0000
Subject: [PATCH 063/107] fix: frames of the type shift had no end point, or
 crashed

---
 omgtools/environment/frame.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 74e9559..e9d5ff2 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -384,6 +384,7 @@ class ShiftFrame(Frame):
         waypoint = None  # holds waypoint outside the frame
         endpoint = None  # holds the goal point if it is inside the frame
         points_in_frame = []  # holds all waypoints in the frame
+        delta_x, delta_y = 0., 0.  # no need to shift, unless a point is outside the frame
 
         # start with waypoint that is closest to start_pos
         _, start_idx = self.find_closest_waypoint()
@@ -425,8 +426,6 @@ class ShiftFrame(Frame):
             self.waypoints.append(waypoint)
             # move the waypoint, such that it is reachable within the frame
             self.make_last_waypoint_reachable(method='move_point')
-            points_in_frame = self.waypoints  # update points_in_frame
-            self.endpoint = points_in_frame[-1]  # assign end point
 
             # # make line between last reachable waypoint inside frame and first waypoint outside frame,
             # waypoint_line = [points_in_frame[-1], waypoint]
@@ -435,8 +434,8 @@ class ShiftFrame(Frame):
             # # move endpoint away from border
             # endpoint = self.move_from_border(points_in_frame[-1], intersection_point, frame,
             #                                                          distance=self.veh_size*self.margin)
-        elif self.endpoint is not None:
-            # vehicle goal is inside frame after shifting
+        else:
+            # vehicle goal is inside frame, possibly only after shifting
             # shift frame over calculated distance
             xmin, ymin, xmax, ymax = self.move_frame(delta_x, delta_y)
             self.border = self.make_border(xmin, ymin, xmax, ymax)
@@ -444,12 +443,15 @@ class ShiftFrame(Frame):
             # assign waypoints to frame, is used in next function
             self.waypoints = points_in_frame
             # append endpoint, that may not be reachable for the moment (too close to border)
-            self.waypoints.append(endpoint)
+            if endpoint is not None:
+                self.waypoints.append(endpoint)
             # if vehicle goal is too close to the frame border, move the frame extra in that direction
             self.make_last_waypoint_reachable(method='move_frame')
-        else:
-            # all waypoints are within the frame, even without shifting, so don't shift the frame
-            self.endpoint = self.global_path[-1]
+
+        # If generated frame contains goal position, endpoint will be = goal position, since the goal position
+        # was added to the global path. This was necessary because otherwise you will end up on a grid point
+        # and not necessarily in the goal position (which can lie between grid points, anywhere on the map)
+        self.endpoint = self.waypoints[-1]
 
         # finish frame description
         # frame['border'] is already determined
@@ -458,10 +460,6 @@ class ShiftFrame(Frame):
             print('Stationary obstacles inside new frame: ', self.stationary_obstacles)
             print('first waypoint in new frame: ', self.waypoints[0])
             print('last waypoint in new frame:', self.endpoint)
-        # If generated frame contains goal position, endpoint will be = goal position, since the goal position
-        # was added to the global path. This was necessary because otherwise you will end up on a grid point
-        # and not necessarily in the goal position (which can lie between grid points, anywhere on the map)
-        self.waypoints.append(endpoint)
 
     def move_frame(self, delta_x, delta_y, start_pos=None):
         # if no start position is given, default position is used
-- 
2.43.0


From c84999077fc68237203807bd94c401426efcba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:08 +0000
Subject: [PATCH 064/107] fix: no next frame of the type shift could be made

---
 omgtools/problems/schedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 0225a76..468f54e 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -393,7 +393,7 @@ class SchedulerProblem(Problem):
             start_position = frame.endpoint  # start at end of current frame
             if frame.type is 'shift':
                 next_frame = ShiftFrame(self.environment, start_position, self.frame_size, self.move_limit,
-                                   self.global_path, self.options)
+                                   self.global_path, self.veh_size, self.margin, self.options)
             elif frame.type is 'corridor':
                 next_frame = CorridorFrame(self.environment, start_position, self.global_path,
                                    self.veh_size, self.margin, self.options)
-- 
2.43.0


From 2c5baf355a7a9ebc6c4b0eb0cac0639b47b0e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:31 +0000
Subject: [PATCH 065/107] fix: a frame of which all waypoints are close to the
 border crashed

---
 omgtools/environment/frame.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index e9d5ff2..15a2e43 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -256,6 +256,10 @@ class Frame(object):
                 # waypoint was outside of border, or too close to border
                 count = 1
                 while True:  # find waypoint that is far enough from border
+                    if count == len(self.waypoints):
+                        # there is none, start from the start position of the frame
+                        self.waypoints.insert(0, self.start_pos)
+                        break
                     inside_border = point_in_rectangle(self.waypoints[-1-count], self.border['limits'])
                     dist_to_border = self.distance_to_border(self.waypoints[-1-count])
                     if (not inside_border or any(abs(d) <= self.veh_size for d in dist_to_border)):
-- 
2.43.0


From b7550ce80fa17417505e4437cd63681055fe5de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:53 +0000
Subject: [PATCH 066/107] fix: a waypoint exactly on the upper or right border
 was taken to the opposite one

---
 omgtools/environment/frame.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 15a2e43..0c269d0 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -231,7 +231,7 @@ class Frame(object):
                     move_distance = abs(dist_to_border[0]) + self.veh_size*self.margin
                 else:
                     move_distance = -abs(dist_to_border[0]) + self.veh_size*self.margin
-                if dist_to_border[0] <= 0:
+                if self.waypoints[-1][0] < 0.5*(xmin+xmax):
                     xmin = xmin - move_distance
                 else:
                     xmax = xmax + move_distance
@@ -244,7 +244,7 @@ class Frame(object):
                     move_distance = abs(dist_to_border[1]) + self.veh_size*self.margin
                 else:
                     move_distance = -abs(dist_to_border[1]) + self.veh_size*self.margin
-                if dist_to_border[1] <= 0:
+                if self.waypoints[-1][1] < 0.5*(ymin+ymax):
                     ymin = ymin - move_distance
                 else:
                     ymax = ymax + move_distance
@@ -280,7 +280,7 @@ class Frame(object):
                     # to avoid floating point comparison problems, check distance without margin here
                     # problem lies in the x-direction
                     new_waypoint = [0, 0]
-                    if dist_to_border[0]<=0:
+                    if x2 < 0.5*(xmin+xmax):
                         new_waypoint[0] = xmin + desired_distance[0]
                     else:
                         new_waypoint[0] = xmax - desired_distance[0]
@@ -299,7 +299,7 @@ class Frame(object):
                     # to avoid floating point comparison problems, check distance without margin here
                     # problem lies in the y-direction
                     new_waypoint = [0, 0]
-                    if dist_to_border[1]<=0:
+                    if y2 < 0.5*(ymin+ymax):
                         new_waypoint[1] = ymin + desired_distance[1]
                     else:
                         new_waypoint[1] = ymax - desired_distance[1]
-- 
2.43.0


From a63f8ed5cac46be6259ee3e36e79c477a2ec9225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:53 +0000
Subject: [PATCH 067/107] fix: a change in the moving obstacles went unnoticed
 in all frames but the last

---
 omgtools/problems/schedulerproblem.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 468f54e..607d9d4 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -187,8 +187,6 @@ class SchedulerProblem(Problem):
                     # the amount of moving obstacles changed, or there is a new obstacle
                     new_problem = True
                     frame.moving_obstacles = moving_obs_in_frame
-                else:
-                    new_problem = False
             if new_problem:
                 # new moving obstacle in one of the frames or obstacle disappeared from frame
                 # np.array converts DM to array
-- 
2.43.0


From 6e2383ebdc7c85ed3a57c850829dc90535359760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:53 +0000
Subject: [PATCH 068/107] fix: the vehicle stayed in a frame that has the goal
 too close to its border

---
 omgtools/problems/schedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 607d9d4..1063566 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -407,7 +407,7 @@ class SchedulerProblem(Problem):
     def check_frames(self):
         # if final goal is not in the current frame, compare current distance
         # to the local goal with the initial distance
-        if not self.frames[0].point_in_frame(self.goal_state[:2]):
+        if not self.frames[0].endpoint == self.goal_state[:2]:  # remove orientation info
             if (self.n_frames == 1 and hasattr(self, 'next_frame')):
                 if self.next_frame.point_in_frame(self.curr_state[:2], distance=self.veh_size):
                     # only called if self.n_frames = 1,
-- 
2.43.0


From 3e312b061f0c1ec0beb8314334519f62dd8f0d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 069/107] fix: moving obstacles larger than a frame, turned, or
 at rest for the moment went unnoticed

---
 omgtools/environment/frame.py | 72 ++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 39 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 0c269d0..faf3fb6 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -46,6 +46,15 @@ class Frame(object):
         # e.g. 0.5 then check if obstacle is inside frame on time [s] 0,0.5,1,...
         self.check_moving_obs_ts = options['check_moving_obs_ts'] if 'check_moving_obs_ts' in options else 0.5
 
+    def is_stationary(self, obstacle):
+        # check if obstacle is stationary, this is when it has no velocity now, and:
+        # there is no entry trajectories or there are trajectories but no velocity or
+        # all velocities are 0.
+        if not all(obstacle.signals['velocity'][:,-1] == [0.]*obstacle.n_dim):
+            return False
+        return ((not 'trajectories' in obstacle.simulation) or (not 'velocity' in obstacle.simulation['trajectories'])
+                or (all(vel == [0.]*obstacle.n_dim for vel in obstacle.simulation['trajectories']['velocity']['values'])))
+
     def get_stationary_obstacles(self, frame=None):
         if frame is None:
             frame = self
@@ -57,11 +66,7 @@ class Frame(object):
         checkpoints = [[xmin, ymin],[xmin, ymax],[xmax, ymax],[xmax, ymin]]
 
         for obstacle in frame.environment.obstacles:
-            # check if obstacle is stationary, this is when:
-            # there is no entry trajectories or there are trajectories but no velocity or
-            # all velocities are 0.
-            if ((not 'trajectories' in obstacle.simulation) or (not 'velocity' in obstacle.simulation['trajectories'])
-               or (all(vel == [0.]*obstacle.n_dim for vel in obstacle.simulation['trajectories']['velocity']['values']))):
+            if self.is_stationary(obstacle):
                 # we have a stationary obstacle, Circle or Rectangle
                 # now check if frame intersects with the obstacle
 
@@ -122,42 +127,18 @@ class Frame(object):
 
         moving_obstacles = []
         for obstacle in self.environment.obstacles:
-            # check if obstacle is moving, this is when:
-            # not all velocities, saved in signals, are 0
-            if not all(obstacle.signals['velocity'][:,-1] == [0.]*obstacle.n_dim):
-                # get obstacle checkpoints
-                if not isinstance(obstacle.shape, Circle):
-                    # element [0] gives vertices, not the corresponding radii
-                    obs_chck = obstacle.shape.get_checkpoints()[0]
-                else:
-                    # for a circle only the center is returned as a checkpoint
-                    # make a square representation of it and use those checkpoints
-
-                    [[xmin, xmax],[ymin, ymax]] = obstacle.shape.get_canvas_limits()
-                    obs_chck = [[xmin, ymin], [xmin, ymax], [xmax, ymax], [xmax, ymin]]
-                    # also check center, because vertices of square approximation may be outside
-                    # of the frame, while the center is in the frame
-                    obs_chck.insert(0, [0,0])
+            # all obstacles that are not stationary, also the ones that only stand still for the moment
+            if not self.is_stationary(obstacle):
+                # a rectangle around the obstacle (in its current orientation) represents it: vertices
+                # alone are not enough, a frame may be smaller than the obstacle
+                box = obstacle.shape.get_canvas_limits()
                 obs_pos = obstacle.signals['position'][:,-1]
                 obs_vel = obstacle.signals['velocity'][:,-1]
-
-                for chck in obs_chck:
-                    # if it is not a circle, rotate the vertices
-                    if hasattr(obstacle.shape, 'orientation'):
-                        vertex = obstacle.shape.rotate(obstacle.shape.orientation, chck)
-                    else:
-                        vertex = chck
-                    # move to correct position
-                    vertex += obs_pos
-                    # check if vertex is in frame during movement
-                    if self.point_in_frame(vertex, time=motion_time,
-                                           sample_time=self.check_moving_obs_ts, velocity=obs_vel):
-                        # avoid corresponding obstacle
-                        obstacle.set_options({'avoid': True})
-                        moving_obstacles.append(obstacle)
-                        # break from for chck in obs_chck, move on to next obstacle, since
-                        # obstacle is added to the frame if any of its vertices is in the frame
-                        break
+                # check if obstacle is in frame during movement
+                if self.box_in_frame(box, obs_pos, obs_vel, motion_time, self.check_moving_obs_ts):
+                    # avoid corresponding obstacle
+                    obstacle.set_options({'avoid': True})
+                    moving_obstacles.append(obstacle)
 
         end_time = time.time()
         if self.options['verbose'] >= 3:
@@ -347,6 +328,19 @@ class Frame(object):
         else:
             raise RuntimeError('Argument time was of the wrong type, not None, float or int')
 
+    def box_in_frame(self, box, position, velocity, time, sample_time):
+        # check if a moving box overlaps with the frame at one of the samples
+        xmin, ymin, xmax, ymax = self.border['limits']
+        [[xmin_b, xmax_b], [ymin_b, ymax_b]] = box
+        N = int(round(time/sample_time)+1)
+        for l in range(N+1):
+            x = position[0] + l*sample_time*velocity[0]
+            y = position[1] + l*sample_time*velocity[1]
+            if (xmin <= x + xmax_b and x + xmin_b <= xmax and
+                ymin <= y + ymax_b and y + ymin_b <= ymax):
+                return True
+        return False
+
     def find_closest_waypoint(self, position=None, waypoints=None):
         # if no specific arguments provided, use default arguments
         if position is None:
-- 
2.43.0


From 8c4f25c0c63e93e9b68805f9b75d395b0c0afca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:27 +0000
Subject: [PATCH 070/107] fix: the type of frames had to be the very string
 object that the scheduler compares with

---
 omgtools/problems/schedulerproblem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 1063566..45ce6e3 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -81,12 +81,12 @@ class SchedulerProblem(Problem):
         self._n_frames = self.n_frames  # save original value
         self.frame_type = options['frame_type'] if 'frame_type' in options else 'shift'
         # set frame size for frame_type shift
-        if self.frame_type is 'shift':
+        if self.frame_type == 'shift':
             # by default frame size is set to 1/5 of total environment width
             self.frame_size = options['frame_size'] if 'frame_size' in options else environment.room[0]['shape'].width*0.2
             # by default move limit is set to 1/4 of frame size
             self.move_limit = options['move_limit'] if 'move_limit' in options else self.frame_size*0.25
-        if self.frame_type is 'corridor':
+        if self.frame_type == 'corridor':
             # scale up frame with small steps or not
             self.scale_up_fine = options['scale_up_fine'] if 'scale_up_fine' in options else True
             self.l_shape = options['l_shape'] if 'l_shape' in options else False
@@ -389,10 +389,10 @@ class SchedulerProblem(Problem):
         if not frame.endpoint == self.goal_state[:2]:  # remove orientation info
             start = time.time()
             start_position = frame.endpoint  # start at end of current frame
-            if frame.type is 'shift':
+            if frame.type == 'shift':
                 next_frame = ShiftFrame(self.environment, start_position, self.frame_size, self.move_limit,
                                    self.global_path, self.veh_size, self.margin, self.options)
-            elif frame.type is 'corridor':
+            elif frame.type == 'corridor':
                 next_frame = CorridorFrame(self.environment, start_position, self.global_path,
                                    self.veh_size, self.margin, self.options)
 
-- 
2.43.0


From a18a5ca12df7e487fbabdaf35d9d964d7f045004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:27 +0000
Subject: [PATCH 071/107] fix: vehicles had no velocity limits if their option
 was an equal, but not the same string

---
 omgtools/vehicles/agv.py             | 4 ++--
 omgtools/vehicles/bicycle.py         | 4 ++--
 omgtools/vehicles/holonomic.py       | 8 ++++----
 omgtools/vehicles/holonomic3d.py     | 4 ++--
 omgtools/vehicles/holonomicorient.py | 4 ++--
 omgtools/vehicles/tool.py            | 4 ++--
 6 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index 18a183f..1b2cc0c 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -301,7 +301,7 @@ class AGV(Vehicle):
 
     def draw(self, t=-1):
         surfaces = []
-        if self.options['plot_type'] is 'car':
+        if self.options['plot_type'] == 'car':
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(width=self.length/8., height=self.length/10.)
             surfaces += car.draw(self.signals['pose'][:3, t])[0]  # vehicle
@@ -320,7 +320,7 @@ class AGV(Vehicle):
             surfaces += wheel.draw(np.r_[pos_back_l, orient_back])[0]  # back wheel left
             surfaces += wheel.draw(np.r_[pos_back_r, orient_back])[0]  # back wheel right
 
-        if self.options['plot_type'] is 'agv':
+        if self.options['plot_type'] == 'agv':
             # plot approximation of vehicle
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(width=self.length/10., height=self.length/14.)
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index 8a6951d..01e3b35 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -367,7 +367,7 @@ class Bicycle(Vehicle):
 
     def draw(self, t=-1):
         surfaces = []
-        if self.options['plot_type'] is 'car':
+        if self.options['plot_type'] == 'car':
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(self.length/8., self.length/10.)
             surfaces += car.draw(self.signals['pose'][:3, t])[0]  # vehicle
@@ -386,7 +386,7 @@ class Bicycle(Vehicle):
             surfaces += wheel.draw(np.r_[pos_back_l, orient_back])[0]  # back wheel left
             surfaces += wheel.draw(np.r_[pos_back_r, orient_back])[0]  # back wheel right
 
-        if self.options['plot_type'] is 'bicycle':
+        if self.options['plot_type'] == 'bicycle':
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(self.length/2., self.length/6.)
             surfaces += car.draw(self.signals['pose'][:3, t])[0]  # vehicle
diff --git a/omgtools/vehicles/holonomic.py b/omgtools/vehicles/holonomic.py
index aef5c59..d84bfa1 100644
--- a/omgtools/vehicles/holonomic.py
+++ b/omgtools/vehicles/holonomic.py
@@ -32,7 +32,7 @@ class Holonomic(Vehicle):
             self, n_spl=2, degree=3, shapes=shapes, options=options)
 
         if ((not 'syslimit' in self.options) or  # default choose norm_inf
-                (self.options['syslimit'] is 'norm_inf')):
+                (self.options['syslimit'] == 'norm_inf')):
             # user specified separate velocities for x and y
             self.vxmin = bounds['vxmin'] if 'vxmin' in bounds else -0.5
             self.vymin = bounds['vymin'] if 'vymin' in bounds else -0.5
@@ -51,7 +51,7 @@ class Holonomic(Vehicle):
                 self.axmin = self.aymin = bounds['amin']
             if 'amax' in bounds:
                 self.axmax = self.aymax = bounds['amax']
-        elif self.options['syslimit'] is 'norm_2':
+        elif self.options['syslimit'] == 'norm_2':
             self.vmax = bounds['vmax'] if 'vmax' in bounds else 0.5
             self.amax = bounds['amax'] if 'amax' in bounds else 1.
 
@@ -64,13 +64,13 @@ class Holonomic(Vehicle):
         dx, dy = x.derivative(), y.derivative()
         ddx, ddy = x.derivative(2), y.derivative(2)
         # constrain total velocity
-        if self.options['syslimit'] is 'norm_2':
+        if self.options['syslimit'] == 'norm_2':
             self.define_constraint(
                 (dx**2+dy**2) - (horizon_time**2)*self.vmax**2, -inf, 0.)
             self.define_constraint(
                 (ddx**2+ddy**2) - (horizon_time**4)*self.amax**2, -inf, 0.)
         # constrain local velocity
-        elif self.options['syslimit'] is 'norm_inf':
+        elif self.options['syslimit'] == 'norm_inf':
             self.define_constraint(-dx + horizon_time*self.vxmin, -inf, 0.)
             self.define_constraint(-dy + horizon_time*self.vymin, -inf, 0.)
             self.define_constraint(dx - horizon_time*self.vxmax, -inf, 0.)
diff --git a/omgtools/vehicles/holonomic3d.py b/omgtools/vehicles/holonomic3d.py
index 7ced526..3c76411 100644
--- a/omgtools/vehicles/holonomic3d.py
+++ b/omgtools/vehicles/holonomic3d.py
@@ -47,12 +47,12 @@ class Holonomic3D(Vehicle):
         x, y, z = splines
         dx, dy, dz = x.derivative(), y.derivative(), z.derivative()
         ddx, ddy, ddz = x.derivative(2), y.derivative(2), z.derivative(2)
-        if self.options['syslimit'] is 'norm_2':
+        if self.options['syslimit'] == 'norm_2':
             self.define_constraint(
                 (dx**2+dy**2+dz**2) - (horizon_time**2)*self.vmax**2, -inf, 0.)
             self.define_constraint(
                 (ddx**2+ddy**2+ddz**2) - (horizon_time**4)*self.amax**2, -inf, 0.)
-        elif self.options['syslimit'] is 'norm_inf':
+        elif self.options['syslimit'] == 'norm_inf':
             self.define_constraint(-dx + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(-dy + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(-dz + horizon_time*self.vmin, -inf, 0.)
diff --git a/omgtools/vehicles/holonomicorient.py b/omgtools/vehicles/holonomicorient.py
index 90c7ff1..9a8bc0f 100644
--- a/omgtools/vehicles/holonomicorient.py
+++ b/omgtools/vehicles/holonomicorient.py
@@ -52,12 +52,12 @@ class HolonomicOrient(Vehicle):
         x, y, tg_ha = splines
         dx, dy, dtg_ha = x.derivative(), y.derivative(), tg_ha.derivative()
         ddx, ddy = x.derivative(2), y.derivative(2)
-        if self.options['syslimit'] is 'norm_2':
+        if self.options['syslimit'] == 'norm_2':
             self.define_constraint(
                 (dx**2+dy**2) - (horizon_time**2)*self.vmax**2, -inf, 0.)
             self.define_constraint(
                 (ddx**2+ddy**2) - (horizon_time**4)*self.amax**2, -inf, 0.)
-        elif self.options['syslimit'] is 'norm_inf':
+        elif self.options['syslimit'] == 'norm_inf':
             self.define_constraint(-dx + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(-dy + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(dx - horizon_time*self.vmax, -inf, 0.)
diff --git a/omgtools/vehicles/tool.py b/omgtools/vehicles/tool.py
index 89da6a3..a7760a0 100644
--- a/omgtools/vehicles/tool.py
+++ b/omgtools/vehicles/tool.py
@@ -87,7 +87,7 @@ class Tool(Vehicle):
         dddx, dddy, dddz = x.derivative(3), y.derivative(3), z.derivative(3)  # jerk
 
         # constrain local velocity
-        if self.options['vel_limit'] is 'machining':
+        if self.options['vel_limit'] == 'machining':
             # the machining process is the limiting factor, so limit the total velocity
             # in x- and y-axis combined
             if self.vxmax != 0.:
@@ -99,7 +99,7 @@ class Tool(Vehicle):
                 self.define_constraint(
                     (dz**2) - (horizon_time**2)*self.vzmax**2, -inf, 0., skip=skip)
 
-        elif self.options['vel_limit'] is 'axes':
+        elif self.options['vel_limit'] == 'axes':
             # the axes themselves are the limiting factor, so limit the x- and y- axis separately
             self.define_constraint(-dx + horizon_time*self.vxmin, -inf, 0., skip=skip)
             self.define_constraint(-dy + horizon_time*self.vymin, -inf, 0., skip=skip)
-- 
2.43.0


From 01e3f64c84b820c3ad410f067dfad85a6ce374b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:01 +0000
Subject: [PATCH 072/107] fix: more frames were expected than there are until
 the goal

---
 omgtools/problems/schedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 45ce6e3..251fb25 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -335,7 +335,7 @@ class SchedulerProblem(Problem):
             # check if previously created frame was last one
             if frame and frame.waypoints[-1] == self.goal_state[:2]:  # remove orientation info
                 # reduce amount of frames that are considered and stop loop
-                self.n_frames -= 1
+                self.n_frames = len(self.frames)
                 break
             # set start position for computation of frame that we will add
             if frame:
-- 
2.43.0


From d14776f4ac64d32623e3fed652b6c79927cf42d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:01 +0000
Subject: [PATCH 073/107] fix: L-shapes: crashed when the first frame has the
 goal

---
 omgtools/problems/schedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 251fb25..5523195 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -361,7 +361,7 @@ class SchedulerProblem(Problem):
 
         if (self.frame_type == 'corridor' and self.l_shape):
             # reshape the current frames into an L-shape
-            if (self.n_frames == 1 and hasattr(self, 'next_frame')):
+            if (self.n_frames == 1 and getattr(self, 'next_frame', None) is not None):
                 # looking only one frame ahead
                 frames = self.frames[0].create_l_shape(self.next_frame)
                 self.frames = [frames[0]]
-- 
2.43.0


From 92ffaab23f44ca5e0fae848a5255c869ba806b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:30 +0000
Subject: [PATCH 074/107] fix: fewer frames than samples were stored

---
 omgtools/problems/schedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 5523195..d1aa782 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -223,7 +223,7 @@ class SchedulerProblem(Problem):
         if simulation_time == np.inf:
             # using simulator.run_once()
             simulation_time = sum(self.motion_times)
-        repeat = int(simulation_time/sample_time)
+        repeat = int(round(simulation_time/sample_time, 6))
         # copy frames, to avoid problems when removing elements from self.frames
         frames_to_save = self.frames[:]
         for k in range(repeat):
-- 
2.43.0


From 44a181e85802f82097db45069d2d28339f9bf39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:51 +0000
Subject: [PATCH 075/107] fix: the only waypoint of a frame, its endpoint, was
 replaced by the current position

---
 omgtools/problems/schedulerproblem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index d1aa782..2a44e46 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -535,7 +535,8 @@ class SchedulerProblem(Problem):
                     # take second-last waypoint, since last one was moved in make_reachable()
                     x1,y1 = self.frames[-1].waypoints[-2]
                     # take second waypoint, since first will be == second-last of previous frame
-                    x2,y2 = self.next_frame.waypoints[1]
+                    # (if there is a second one)
+                    x2,y2 = self.next_frame.waypoints[:2][-1]
                     # compute angle
                     angle = np.arctan2((y2-y1),(x2-x1))
                 else:
@@ -566,6 +567,9 @@ class SchedulerProblem(Problem):
         # the global path that are inside the frame
 
         waypoints = frame.waypoints
+        if len(waypoints) == 1:
+            # only the endpoint, go there from the start of the frame
+            waypoints.insert(0, list(frame.start_pos))
         if frame is self.frames[0]:
             # current frame: change first waypoint to current state,
             # the startpoint of the init guess
-- 
2.43.0


From 2e2a290936ce965c69147d32ea16acb9f2ee3aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:59 +0000
Subject: [PATCH 076/107] fix: the scheduler went on simulating when the
 planned motion was over: signals of different lengths

---
 omgtools/problems/schedulerproblem.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 2a44e46..0892957 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -223,6 +223,13 @@ class SchedulerProblem(Problem):
         if simulation_time == np.inf:
             # using simulator.run_once()
             simulation_time = sum(self.motion_times)
+        if self.problem_options['freeT']:
+            # the motion that was planned may be over sooner
+            horizon_time = sum([self.local_problem.father.get_variables(self.local_problem, 'T'+str(k))[0][0]
+                                for k in range(self.n_frames)])
+            if horizon_time < sample_time: # then nothing was stored either
+                return
+            simulation_time = min(simulation_time, horizon_time)
         repeat = int(round(simulation_time/sample_time, 6))
         # copy frames, to avoid problems when removing elements from self.frames
         frames_to_save = self.frames[:]
-- 
2.43.0


From e7049115e21f478895ac524bf5cf12eaf75ff4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:27 +0000
Subject: [PATCH 077/107] fix: exported update functions did not return whether
 they succeeded

---
 omgtools/export/point2point/Point2Point.cpp                 | 2 +-
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp        | 5 ++++-
 .../point2point/admm/formation/FormationPoint2Point.cpp     | 6 +++---
 omgtools/export/point2point/admm/rendezvous/RendezVous.cpp  | 6 +++---
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/omgtools/export/point2point/Point2Point.cpp b/omgtools/export/point2point/Point2Point.cpp
index 3f39a42..d448c62 100755
--- a/omgtools/export/point2point/Point2Point.cpp
+++ b/omgtools/export/point2point/Point2Point.cpp
@@ -118,7 +118,7 @@ void Point2Point::recover(){
 
 bool Point2Point::update(vector<double>& condition0, vector<double>& conditionT,
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory, vector<obstacle_t>& obstacles){
-    update(condition0, conditionT, state_trajectory, input_trajectory, obstacles, 0);
+    return update(condition0, conditionT, state_trajectory, input_trajectory, obstacles, 0);
 }
 
 bool Point2Point::update(vector<double>& condition0, vector<double>& conditionT,
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index dd5e03f..72f65be 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -108,7 +108,7 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles){
-    update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, 0);
+    return update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, 0);
 }
 
 bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& conditionT,
@@ -303,6 +303,7 @@ bool ADMMPoint2Point::solveUpdz(){
         {horizon_time}, {rho}, {}}, res);
     variables_admm["z_i"] = res.at(0);
     variables_admm["z_ij"] = res.at(1);
+    return true;
 }
 
 bool ADMMPoint2Point::solveUpdl(){
@@ -314,6 +315,7 @@ bool ADMMPoint2Point::solveUpdl(){
         variables_admm["x_j"], {rho}}, res);
     variables_admm["l_i"] = res.at(0);
     variables_admm["l_ij"] = res.at(1);
+    return true;
 }
 
 bool ADMMPoint2Point::computeResiduals(){
@@ -326,6 +328,7 @@ bool ADMMPoint2Point::computeResiduals(){
     residuals[0] = res.at(0).at(0);
     residuals[1] = res.at(1).at(0);
     residuals[2] = res.at(2).at(0);
+    return true;
 }
 
 void ADMMPoint2Point::initVariablesADMM(){
diff --git a/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp b/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp
index 11f5b69..2e36aba 100755
--- a/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp
@@ -52,7 +52,7 @@ bool FormationPoint2Point::update1(vector<double>& condition0, vector<double>& c
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c){
-    update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
+    return update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
 }
 
 bool FormationPoint2Point::update1(vector<double>& condition0, vector<double>& conditionT,
@@ -60,14 +60,14 @@ bool FormationPoint2Point::update1(vector<double>& condition0, vector<double>& c
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c, int predict_shift){
     this->rel_pos_c = rel_pos_c;
-    ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
+    return ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
         x_var, z_ji_var, l_ji_var, obstacles, predict_shift);
 }
 
 bool FormationPoint2Point::update2(vector<vector<double>>& x_j_var,
     vector<vector<double>>& z_ij_var, vector<vector<double>>& l_ij_var,
     vector<double>& residuals){
-    ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
+    return ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
 }
 
 void FormationPoint2Point::fillParameterDict(vector<obstacle_t>& obstacles, map<string, map<string, vector<double>>>& par_dict){
diff --git a/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp b/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp
index 5393a6a..89af092 100755
--- a/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp
+++ b/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp
@@ -52,7 +52,7 @@ bool RendezVous::update1(vector<double>& condition0, vector<double>& conditionT,
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c){
-    update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
+    return update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
 }
 
 bool RendezVous::update1(vector<double>& condition0, vector<double>& conditionT,
@@ -60,14 +60,14 @@ bool RendezVous::update1(vector<double>& condition0, vector<double>& conditionT,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c, int predict_shift){
     this->rel_pos_c = rel_pos_c;
-    ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
+    return ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
         x_var, z_ji_var, l_ji_var, obstacles, predict_shift);
 }
 
 bool RendezVous::update2(vector<vector<double>>& x_j_var,
     vector<vector<double>>& z_ij_var, vector<vector<double>>& l_ij_var,
     vector<double>& residuals){
-    ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
+    return ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
 }
 
 void RendezVous::fillParameterDict(vector<obstacle_t>& obstacles, map<string, map<string, vector<double>>>& par_dict){
-- 
2.43.0


From 4e62a3d0f50b371edb5491d6ea633f05b6519448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:27 +0000
Subject: [PATCH 078/107] fix: exported integration of the state did not use
 the state that was reached, nor the input halfway

---
 omgtools/export/vehicles/Vehicle.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/omgtools/export/vehicles/Vehicle.cpp b/omgtools/export/vehicles/Vehicle.cpp
index 65b7226..6c31107 100755
--- a/omgtools/export/vehicles/Vehicle.cpp
+++ b/omgtools/export/vehicles/Vehicle.cpp
@@ -86,21 +86,25 @@ void Vehicle::integrate(vector<double>& state0, vector<vector<double>>& input, v
     vector<double> k3(n_st);
     vector<double> k4(n_st);
     vector<double> st(n_st);
+    vector<double> input_mid(n_in);
     for (int j=0; j<n_st; j++){
         stateT[j] = state0[j];
     }
     for (int i=0; i<steps; i++){
-        this->ode(state0, input[i], k1);
+        for (int j=0; j<input_mid.size(); j++){
+            input_mid[j] = 0.5*(input[i][j] + input[i+1][j]);
+        }
+        this->ode(stateT, input[i], k1);
         for (int j=0; j<n_st; j++){
-            st[j] = state0[j] + 0.5*sample_time*k1[j];
+            st[j] = stateT[j] + 0.5*sample_time*k1[j];
         }
-        this->ode(st, input[i], k2);
+        this->ode(st, input_mid, k2);
         for (int j=0; j<n_st; j++){
-            st[j] = state0[j] + 0.5*sample_time*k2[j];
+            st[j] = stateT[j] + 0.5*sample_time*k2[j];
         }
-        this->ode(st, input[i], k3);
+        this->ode(st, input_mid, k3);
         for (int j=0; j<n_st; j++){
-            st[j] = state0[j] + sample_time*k3[j];
+            st[j] = stateT[j] + sample_time*k3[j];
         }
         this->ode(st, input[i+1], k4);
         for (int j=0; j<n_st; j++){
-- 
2.43.0


From 40d9a35a47bb7dd813cd11061a304505e8a5e4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:51 +0000
Subject: [PATCH 079/107] fix: exported shift of the splines did not count the
 columns of the variables before them

---
 omgtools/export/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index 3968452..af4a7a6 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -436,7 +436,7 @@ class Export(object):
                                  str(var.shape[0])+'+i] = spline_tf[i];\n')
                         code += '\t\t\t}\n'
                         code += '\t\t}\n'
-                    cnt += var.size(1)
+                    cnt += var.size(1)*var.size(2)
             code += '\t}\n'
         elif point2point.__class__.__name__ == 'FreeTPoint2point':
             raise Warning('Initialization for free time problem ' +
-- 
2.43.0


From 0743ba6406b2e5c10e4e28bfba102a9f10a01bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:51 +0000
Subject: [PATCH 080/107] fix: exported splines were shifted over one knot
 only, and not in line with the time since that knot

---
 omgtools/export/export.py                          |  6 +++---
 omgtools/export/export_admm.py                     |  6 +++---
 omgtools/export/point2point/Point2Point.cpp        | 14 ++++++++++++--
 omgtools/export/point2point/Point2Point.hpp        |  2 ++
 .../export/point2point/admm/ADMMPoint2Point.cpp    |  4 ++--
 5 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index af4a7a6..cc86715 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -407,9 +407,9 @@ class Export(object):
         code, cnt = '', 0
         tf_len = len(problem.vehicles[0].basis)
         if point2point.__class__.__name__ == 'FixedTPoint2point':
-            code += '\tint interval_prev = (int)(round((current_time_prev*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
-            code += '\tint interval_now = (int)(round((current_time*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
-            code += '\tif(interval_now > interval_prev){\n'
+            code += '\tint interval_prev = knotsPassed(current_time_prev);\n'
+            code += '\tint interval_now = knotsPassed(current_time);\n'
+            code += '\tfor(int interval=interval_prev; interval<interval_now; interval++){\n'
             code += ('\t\tvector<double> spline_tf(' + str(len(problem.vehicles[0].basis)) + ');\n')
             for label, child in father.children.items():
                 for name, var in child._variables.items():
diff --git a/omgtools/export/export_admm.py b/omgtools/export/export_admm.py
index f91d351..862c68d 100755
--- a/omgtools/export/export_admm.py
+++ b/omgtools/export/export_admm.py
@@ -159,9 +159,9 @@ class ExportADMM(Export):
 
     def _create_transformSharedSplines(self, father, problem, point2point):
         code = ''
-        code += '\tint interval_prev = (int)(round((current_time_prev*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
-        code += '\tint interval_now = (int)(round((current_time*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
-        code += '\tif(interval_now > interval_prev){\n'
+        code += '\tint interval_prev = knotsPassed(current_time_prev);\n'
+        code += '\tint interval_now = knotsPassed(current_time);\n'
+        code += '\tfor(int interval=interval_prev; interval<interval_now; interval++){\n'
         for var in ['x_i', 'z_i', 'l_i', 'z_ji', 'l_ji', 'z_ij', 'l_ij']:
             code += '\t\tvector<double> ' + var + '_tf(variables_admm["' + var + '"]);\n'
         cnt = 0
diff --git a/omgtools/export/point2point/Point2Point.cpp b/omgtools/export/point2point/Point2Point.cpp
index d448c62..78ccb2e 100755
--- a/omgtools/export/point2point/Point2Point.cpp
+++ b/omgtools/export/point2point/Point2Point.cpp
@@ -265,7 +265,7 @@ void Point2Point::fillParameterDict(vector<obstacle_t>& obstacles, map<string, m
     vehicle->setParameters(par_dict_veh);
     par_dict[VEHICLELBL] = par_dict_veh;
     if (!freeT){
-        par_dict[P2PLBL]["t"] = {fmod(round(current_time*1000.)/1000., horizon_time/(vehicle->getKnotIntervals()))};
+        par_dict[P2PLBL]["t"] = {timeSinceKnot(current_time)};
         par_dict[P2PLBL]["T"] = {horizon_time};
     } else{
         par_dict[P2PLBL]["t"] = {0.0};
@@ -297,7 +297,7 @@ void Point2Point::retrieveTrajectories(vector<vector<double>>& spline_coeffs){
     vector<double> time(this->time);
     if (!freeT){
         for (int k=0; k<time.size(); k++){
-            time[k] += fmod(round(current_time*1000.)/1000., horizon_time/vehicle->getKnotIntervals());
+            time[k] += timeSinceKnot(current_time);
         }
     }
     vehicle->splines2State(spline_coeffs, time, state_trajectory);
@@ -320,6 +320,16 @@ void Point2Point::updateBounds(double current_time, vector<obstacle_t>& obstacle
 @updateBounds@
 }
 
+int Point2Point::knotsPassed(double time){
+    return int(round((time*vehicle->getKnotIntervals()/horizon_time)*1.e6)/1.e6);
+}
+
+double Point2Point::timeSinceKnot(double time){
+    // consistent with the amount of knots that the splines are shifted
+    double since_knot = round(time*1.e6)/1.e6 - knotsPassed(time)*horizon_time/vehicle->getKnotIntervals();
+    return since_knot > 0.0 ? since_knot : 0.0;
+}
+
 void Point2Point::transformSplines(double current_time, double current_time_prev){
 @transformSplines@
 }
diff --git a/omgtools/export/point2point/Point2Point.hpp b/omgtools/export/point2point/Point2Point.hpp
index 9140c6d..7c68fcf 100755
--- a/omgtools/export/point2point/Point2Point.hpp
+++ b/omgtools/export/point2point/Point2Point.hpp
@@ -85,6 +85,8 @@ class Point2Point{
         void getVariableVector(std::vector<double>&, std::map<std::string, std::map<std::string, std::vector<double>>>&);
         void getVariableDict(std::vector<double>&, std::map<std::string, std::map<std::string, std::vector<double>>>&);
         void transformSplines(double, double);
+        int knotsPassed(double);
+        double timeSinceKnot(double);
 
         virtual void generateProblem();
         virtual void fillParameterDict(std::vector<obstacle_t>&, std::map<std::string, std::map<std::string, std::vector<double>>>&);
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index 72f65be..3f3f986 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -299,7 +299,7 @@ bool ADMMPoint2Point::solveUpdz(){
     vector<vector<double>> res;
     updz_problem({variables_admm["x_i"], variables_admm["l_i"],
         variables_admm["l_ij"], variables_admm["x_j"],
-        {fmod(round(current_time*1000.)/1000., horizon_time/(vehicle->getKnotIntervals()))},
+        {timeSinceKnot(current_time)},
         {horizon_time}, {rho}, {}}, res);
     variables_admm["z_i"] = res.at(0);
     variables_admm["z_ij"] = res.at(1);
@@ -323,7 +323,7 @@ bool ADMMPoint2Point::computeResiduals(){
     get_residuals({variables_admm["x_i"], variables_admm["z_i"],
         variables_admm["z_i_p"], variables_admm["z_ij"], variables_admm["z_ij_p"],
         variables_admm["x_j"],
-        {fmod(round(current_time*1000.)/1000., horizon_time/(vehicle->getKnotIntervals()))},
+        {timeSinceKnot(current_time)},
         {horizon_time}, {rho}}, res);
     residuals[0] = res.at(0).at(0);
     residuals[1] = res.at(1).at(0);
-- 
2.43.0


From c8d49fb7c41ee143e4e36d08c48283ffb9e97e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:51 +0000
Subject: [PATCH 081/107] fix: exported number of samples in a period was one
 too few, when rounded off (0.3/0.1)

---
 omgtools/export/point2point/Point2Point.cpp          | 12 ++++++------
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp |  2 +-
 omgtools/export/vehicles/Vehicle.cpp                 |  8 ++++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/omgtools/export/point2point/Point2Point.cpp b/omgtools/export/point2point/Point2Point.cpp
index 78ccb2e..3e7db1d 100755
--- a/omgtools/export/point2point/Point2Point.cpp
+++ b/omgtools/export/point2point/Point2Point.cpp
@@ -31,18 +31,18 @@ namespace omg{
 Point2Point::Point2Point(Vehicle* vehicle,
     double update_time, double sample_time, double horizon_time, int trajectory_length, bool initialize):
 parameters(N_PAR), variables(N_VAR), lbg(LBG_DEF), ubg(UBG_DEF), _recover(false) {
-    if (trajectory_length > int(horizon_time/sample_time)){
+    if (trajectory_length > int(horizon_time/sample_time + 1.e-6)){
         cerr << "trajectory_length > (horizon_time/sample_time)!" << endl;
     }
-    if (trajectory_length > int(update_time/sample_time)){
+    if (trajectory_length > int(update_time/sample_time + 1.e-6)){
         time.resize(trajectory_length+1);
         state_trajectory.resize(trajectory_length+1, vector<double>(vehicle->getNState()));
         input_trajectory.resize(trajectory_length+1, vector<double>(vehicle->getNInput()));
     }
     else {
-        time.resize(int(update_time/sample_time)+1);
-        state_trajectory.resize(int(update_time/sample_time)+1, vector<double>(vehicle->getNState()));
-        input_trajectory.resize(int(update_time/sample_time)+1, vector<double>(vehicle->getNInput()));
+        time.resize(int(update_time/sample_time + 1.e-6)+1);
+        state_trajectory.resize(int(update_time/sample_time + 1.e-6)+1, vector<double>(vehicle->getNState()));
+        input_trajectory.resize(int(update_time/sample_time + 1.e-6)+1, vector<double>(vehicle->getNInput()));
     }
     this->vehicle = vehicle;
     this->update_time = update_time;
@@ -59,7 +59,7 @@ parameters(N_PAR), variables(N_VAR), lbg(LBG_DEF), ubg(UBG_DEF), _recover(false)
 
 Point2Point::Point2Point(Vehicle* vehicle,
     double update_time, double sample_time, double horizon_time):
-Point2Point(vehicle, update_time, sample_time, horizon_time, int(update_time/sample_time), true){
+Point2Point(vehicle, update_time, sample_time, horizon_time, int(update_time/sample_time + 1.e-6), true){
 }
 
 Point2Point::Point2Point(Vehicle* vehicle,
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index 3f3f986..68799a8 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -50,7 +50,7 @@ residuals(3) {
 
 ADMMPoint2Point::ADMMPoint2Point(Vehicle* vehicle,
     double update_time, double sample_time, double horizon_time):
-ADMMPoint2Point(vehicle, update_time, sample_time, horizon_time, int(update_time/sample_time), INITITER, RHO){
+ADMMPoint2Point(vehicle, update_time, sample_time, horizon_time, int(update_time/sample_time + 1.e-6), INITITER, RHO){
 }
 
 ADMMPoint2Point::ADMMPoint2Point(Vehicle* vehicle,
diff --git a/omgtools/export/vehicles/Vehicle.cpp b/omgtools/export/vehicles/Vehicle.cpp
index 6c31107..13de550 100755
--- a/omgtools/export/vehicles/Vehicle.cpp
+++ b/omgtools/export/vehicles/Vehicle.cpp
@@ -61,14 +61,14 @@ void Vehicle::setPrediction(vector<double>& state, vector<double>& input){
 void Vehicle::predict(vector<double>& state0, vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory, double predict_time, double sample_time, int predict_shift)
 {
     if (ideal_prediction){
-        vector<double> stateT = state_trajectory[int(predict_time/sample_time)+predict_shift];
-        vector<double> inputT = input_trajectory[int(predict_time/sample_time)+predict_shift];
+        vector<double> stateT = state_trajectory[int(predict_time/sample_time + 1.e-6)+predict_shift];
+        vector<double> inputT = input_trajectory[int(predict_time/sample_time + 1.e-6)+predict_shift];
         setPrediction(stateT, inputT);
     } else if (provide_prediction){
-        vector<double> inputT = input_trajectory[int(predict_time/sample_time)+predict_shift];
+        vector<double> inputT = input_trajectory[int(predict_time/sample_time + 1.e-6)+predict_shift];
         setPrediction(state0, inputT);
     } else {
-        int steps = int(predict_time/sample_time);
+        int steps = int(predict_time/sample_time + 1.e-6);
         vector<vector<double>> input(steps+1, vector<double>(input_trajectory[0].size()));
         for (int k=0; k<steps+1; k++){
             input[k] = input_trajectory[k+predict_shift];
-- 
2.43.0


From 3681d011f0d559a1b29d4e986770c141cce659d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:51 +0000
Subject: [PATCH 082/107] fix: exported program moved the obstacles on for a
 motion that starts right now

---
 omgtools/export/export.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index cc86715..f2841a5 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -454,14 +454,15 @@ class Export(object):
                     if not classic_obst_present:
                         code += '\tstd::vector<double> pos0(2), vel0(2), acc0(2);\n'
                         code += '\tstd::vector<double> posT(2), velT(2), accT(2);\n'
+                        code += '\tdouble predict_time = (fabs(current_time)<=1.e-6) ? 0.0 : update_time;\n'
                         classic_obst_present = True
                     code += '\tpos0 = obstacles['+str(obst_ind)+'].position;\n'
                     code += '\tvel0 = obstacles['+str(obst_ind)+'].velocity;\n'
                     code += '\tacc0 = obstacles['+str(obst_ind)+'].acceleration;\n'
-                    code += '\t// prediction over update_time\n'
+                    code += '\t// prediction over update_time, unless the motion starts right now\n'
                     code += '\tfor (int j=0; j<2; j++){\n'
-                    code += '\t\tposT[j] = pos0[j] + update_time*vel0[j] + 0.5*pow(update_time,2)*acc0[j];\n'
-                    code += '\t\tvelT[j] = vel0[j] + update_time*acc0[j];\n'
+                    code += '\t\tposT[j] = pos0[j] + predict_time*vel0[j] + 0.5*pow(predict_time,2)*acc0[j];\n'
+                    code += '\t\tvelT[j] = vel0[j] + predict_time*acc0[j];\n'
                     code += '\t\taccT[j] = acc0[j];\n'
                     code += '\t}\n'
                     code += '\tpar_dict["'+label+'"]["x"] = posT;\n'
-- 
2.43.0


From b1cfd53264aa69c34cd3a9d20935ec8f55c2b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:51 +0000
Subject: [PATCH 083/107] fix: exported ADMM wrote beyond the trajectories that
 it was given

---
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index 68799a8..400fb4a 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -190,8 +190,7 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
     tmeas = double(end-begin)/CLOCKS_PER_SEC;
     cout << "time in extractData: " << tmeas << "s" << endl;
     #endif
-    // ref state and input for system are one sample shorter!!
-    for (int k=0; k<time.size()-1; k++){
+    for (int k=0; k<trajectory_length; k++){
         for (int j=0; j<state_trajectory[0].size(); j++){
             state_trajectory[k][j] = this->state_trajectory[k][j];
         }
-- 
2.43.0


From b8262657a65a95a67a2765dd586d7fb445f05517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:36 +0000
Subject: [PATCH 084/107] fix: exported problem with a free end never shifted
 its splines

---
 omgtools/export/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index f2841a5..d3f0c84 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -406,7 +406,7 @@ class Export(object):
     def _create_transformSplines(self, father, problem, point2point):
         code, cnt = '', 0
         tf_len = len(problem.vehicles[0].basis)
-        if point2point.__class__.__name__ == 'FixedTPoint2point':
+        if point2point.__class__.__name__ in ('FixedTPoint2point', 'FreeEndPoint2point'):
             code += '\tint interval_prev = knotsPassed(current_time_prev);\n'
             code += '\tint interval_now = knotsPassed(current_time);\n'
             code += '\tfor(int interval=interval_prev; interval<interval_now; interval++){\n'
-- 
2.43.0


From 646821add62239ac5aeff9207e465a8eaa957bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:36 +0000
Subject: [PATCH 085/107] fix: exported problem with a scalar variable did not
 compile

---
 omgtools/export/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index d3f0c84..469788d 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -348,7 +348,7 @@ class Export(object):
                     code += '\tvar_dict["'+label+'"]["'+name+'"] = vec;\n'
                 else:
                     code += '\tvar_dict["'+label+'"]["' + \
-                        name+'"] = var_vect['+str(cnt)+'];\n'
+                        name+'"] = {var_vect['+str(cnt)+']};\n'
                 cnt += var.size(1)*var.size(2)
         return {'getVariableDict': code}
 
-- 
2.43.0


From c037259072f8bf6d68ee91b5b0ad96df8a0521e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:58 +0000
Subject: [PATCH 086/107] fix: exported ADMM computed its residuals with the
 time of the next update

---
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp | 6 ++++--
 omgtools/export/point2point/admm/ADMMPoint2Point.hpp | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index 400fb4a..9d4bf05 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -131,6 +131,8 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
     #endif
     // correct current_time with predict_shift:
     current_time += predict_shift*sample_time;
+    // remember what time this update is about: current_time moves on at the end of update1
+    update_start = current_time;
     // transform splines: good init guess for this update + required transformation for ADMM updates
     #ifdef DEBUG
     begin = clock();
@@ -298,7 +300,7 @@ bool ADMMPoint2Point::solveUpdz(){
     vector<vector<double>> res;
     updz_problem({variables_admm["x_i"], variables_admm["l_i"],
         variables_admm["l_ij"], variables_admm["x_j"],
-        {timeSinceKnot(current_time)},
+        {timeSinceKnot(update_start)},
         {horizon_time}, {rho}, {}}, res);
     variables_admm["z_i"] = res.at(0);
     variables_admm["z_ij"] = res.at(1);
@@ -322,7 +324,7 @@ bool ADMMPoint2Point::computeResiduals(){
     get_residuals({variables_admm["x_i"], variables_admm["z_i"],
         variables_admm["z_i_p"], variables_admm["z_ij"], variables_admm["z_ij_p"],
         variables_admm["x_j"],
-        {timeSinceKnot(current_time)},
+        {timeSinceKnot(update_start)},
         {horizon_time}, {rho}}, res);
     residuals[0] = res.at(0).at(0);
     residuals[1] = res.at(1).at(0);
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.hpp b/omgtools/export/point2point/admm/ADMMPoint2Point.hpp
index eb2ab4b..1af89ff 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.hpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.hpp
@@ -35,6 +35,7 @@ class ADMMPoint2Point: public Point2Point{
         std::map<std::string, std::vector<double>> variables_admm;
         std::vector<double> residuals;
         double rho;
+        double update_start=0.0;
 
         const int n_nghb = N_NGHB;
 
-- 
2.43.0


From 4d2443fb3c83af381cc27c073529df85d963c5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:58 +0000
Subject: [PATCH 087/107] fix: export of a fleet with several types of vehicles
 failed

---
 omgtools/export/export_admm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/export/export_admm.py b/omgtools/export/export_admm.py
index 862c68d..0fddcf6 100755
--- a/omgtools/export/export_admm.py
+++ b/omgtools/export/export_admm.py
@@ -42,8 +42,8 @@ class ExportADMM(Export):
             else:
                 for veh_type, nghb_nr in updaters.items():
                     for nr, upd in nghb_nr.items():
-                        dest_dir = os.path.join(self.options['directory'], veh_type+'_'+str(nr)+'nghb')
-                        self.export(source_dirs, dest_dir, src_files, upd.father_updx, upd, upd.problem)
+                        dest_dir = os.path.join(self.options['directory'], veh_type+'_'+str(nr)+'nghb') + '/'
+                        self.export(source_dirs, dest_dir, src_files, upd[0].father_updx, upd[0], upd[0].problem)
 
     def set_default_options(self):
         Export.set_default_options(self)
-- 
2.43.0


From 141c872c0d5b480962f2740ae05797878af0bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:07 +0000
Subject: [PATCH 088/107] fix: lines of an svg drawing could not be read, and
 lay half their width off

---
 omgtools/gui/svg_reader.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/omgtools/gui/svg_reader.py b/omgtools/gui/svg_reader.py
index f2a5ea3..405b5ac 100644
--- a/omgtools/gui/svg_reader.py
+++ b/omgtools/gui/svg_reader.py
@@ -199,24 +199,17 @@ class SVGReader(object):
                 obstacle['velocity'] = [0, 0]
                 obstacle['bounce'] = False
 
-                # Note: to avoid explicitly checking if the line goes from
-                # left to right / right to left
-                # bottom to top / top to bottom
-                # we use w and h separate from obstacle width and height
                 line = np.array(vertices[l+1]) - np.array(vertices[l])
                 if line[0] == 0:  # vertical line
                     obstacle['width'] =  stroke_width
                     obstacle['height'] = abs(line[1])
-                    h = line[1]
-                    w = cmp(h,0)*stroke_width  # give stroke_width same sign as h
                 elif line[1] == 0:  # horizontal line
                     obstacle['width'] = abs(line[0])
                     obstacle['height'] = stroke_width
-                    w = line[0]
-                    h = cmp(w,0)*stroke_width  # give stroke_width same sign as w
                 else:
                     raise RuntimeError('Diagonal lines are not yet supported')
-                obstacle['pos'] = [vertices[l][0] + w*0.5, vertices[l][1] + h*0.5]
+                # the stroke lies around the line: half of its width at each side
+                obstacle['pos'] = [vertices[l][0] + line[0]*0.5, vertices[l][1] + line[1]*0.5]
                 self.obstacles.append(obstacle)
 
         for line in self.lines:
@@ -242,19 +235,14 @@ class SVGReader(object):
             if x1 == x2:  # vertical line
                 obstacle['width'] =  stroke_width
                 obstacle['height'] = abs(y2-y1)
-                h = y2-y1  # signed value
-                w = cmp(h,0)*stroke_width
             elif y1 == y2:  # horizontal line
                 obstacle['width'] = abs(x2-x1)
                 obstacle['height'] = stroke_width
-                w = x2-x1  # signed value
-                h = cmp(w,0)*stroke_width
             else:
                 raise RuntimeError('Diagonal lines are not yet supported')
 
-            # don't use width and height since then you have to check if x1 > x2 etc,
-            # to decide if the line goes from left to right or the other way around
-            obstacle['pos'] = [x1 + w*0.5, y1 + h*0.5]
+            # the stroke lies around the line: half of its width at each side
+            obstacle['pos'] = [(x1 + x2)*0.5, (y1 + y2)*0.5]
             self.obstacles.append(obstacle)
 
     def compute_transform(self):
-- 
2.43.0


From 4ba63edef24fb87638e5b7610ffe0122983da46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:07 +0000
Subject: [PATCH 089/107] fix: translation of an svg drawing was lost, and made
 its shapes unusable

---
 omgtools/gui/svg_reader.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/omgtools/gui/svg_reader.py b/omgtools/gui/svg_reader.py
index 405b5ac..c4f346b 100644
--- a/omgtools/gui/svg_reader.py
+++ b/omgtools/gui/svg_reader.py
@@ -28,6 +28,11 @@ class SVGReader(object):
             self.width_px = float(self.tree.get('width'))  # get width from svg
             self.height_px = float(self.tree.get('height'))  # get height from svg
 
+        # forget the transforms of a figure that was read before
+        for transform in ('transform1', 'transform2'):
+            if hasattr(self, transform):
+                delattr(self, transform)
+
         self.position = [0, 0]  # default, [px]
         self.obstacles = []
 
@@ -125,7 +130,7 @@ class SVGReader(object):
             pos = [float(rectangle.get('x')), float(rectangle.get('y'))]  # Note: [x,y] is the top left corner
             # axis are placed in the top left corner and point to the right(x) and downward(y)
             obstacle['pos'] = [pos[0]+float(rectangle.get('width'))*0.5, pos[1]+float(rectangle.get('height'))*0.5]
-            obstacle['pos'] += self.transform  # apply transform
+            obstacle['pos'] = list(obstacle['pos'] + self.transform)  # apply transform
             obstacle['width'] = float(rectangle.get('width'))
             obstacle['height'] = float(rectangle.get('height'))
             obstacle['velocity'] = [0, 0]
@@ -136,7 +141,7 @@ class SVGReader(object):
             obstacle = {}
             obstacle['shape'] = 'circle'
             obstacle['pos'] = [float(circle.get('cx')), float(circle.get('cy'))]  # Note: [x,y] is the top left corner
-            obstacle['pos'] += self.transform  # apply transform
+            obstacle['pos'] = list(obstacle['pos'] + self.transform)  # apply transform
             obstacle['radius'] = float(circle.get('r'))
             obstacle['velocity'] = [0, 0]
             obstacle['bounce'] = False
@@ -189,7 +194,7 @@ class SVGReader(object):
                         stroke_width = float(element.split(':')[1])
             vertices = polyline.get('points').split(' ')
             vertices[:] = (v for v in vertices if v != '')  # remove all empty strings
-            vertices = np.array(list(map(eval, vertices)))  # gives array of arrays [[x,y],[],...]
+            vertices = np.array(list(map(eval, vertices)), dtype=float)  # gives array of arrays [[x,y],[],...]
             vertices += self.transform
 
             # make rectangle of each vertex couple
@@ -252,14 +257,14 @@ class SVGReader(object):
             trans1 = self.tree.find("{%s}g" %self.ns).get('transform')
             trans1 = trans1.split('translate')
             trans1.remove('')
-            self.transform1 = np.array(map(eval, trans1)[0])
+            self.transform1 = np.array(eval(trans1[0]))
         except:
             print('No transform1 found')
         try:
             trans2 = self.tree.find("{%s}g" %self.ns).find("{%s}g" %self.ns).get('transform')
             trans2 = trans2.split('translate')
             trans2.remove('')
-            self.transform2 = np.array(map(eval, trans2)[0])
+            self.transform2 = np.array(eval(trans2[0]))
         except:
             print('No transform2 found')
         if hasattr(self, 'transform1') and hasattr(self, 'transform2'):
@@ -269,7 +274,7 @@ class SVGReader(object):
         elif hasattr(self, 'transform2') :
             self.transform = self.transform2
         else:
-            self.transform = [0, 0]  # no transforms found
+            self.transform = np.zeros(2)  # no transforms found
 
     def reconstruct(self, file):
         # help function, re-draws the loaded figure, allowing to check if it has the desired shapes
-- 
2.43.0


From 4e626c6346fa82d6146bd4db142b6b00db0ae76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:24 +0000
Subject: [PATCH 090/107] fix: scale of an svg drawing in millimeter was not
 used

---
 omgtools/gui/gui.py        |  2 ++
 omgtools/gui/svg_reader.py | 13 ++++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/omgtools/gui/gui.py b/omgtools/gui/gui.py
index 12a7419..a4db1b9 100644
--- a/omgtools/gui/gui.py
+++ b/omgtools/gui/gui.py
@@ -518,6 +518,8 @@ class EnvironmentGUI(tk.Frame):
                     print('Please fill in a natural number')
                 if self.meter_to_pixel < 0:
                     print('Please fill in a positive number')
+        else:
+            self.meter_to_pixel = self.reader.meter_to_pixel
 
         if not hasattr(self.reader, 'n_cells'):
             #  give pop-up to ask user for n_cells in horizontal and vertical direction
diff --git a/omgtools/gui/svg_reader.py b/omgtools/gui/svg_reader.py
index c4f346b..b00ef9f 100644
--- a/omgtools/gui/svg_reader.py
+++ b/omgtools/gui/svg_reader.py
@@ -13,13 +13,16 @@ class SVGReader(object):
     def init(self, data):
         self.data = data
         self.tree = self.et.parse(data)
+        if hasattr(self, 'meter_to_pixel'):
+            # belongs to a figure that was read before
+            del self.meter_to_pixel
         if (self.tree.get('width')[-2:] in ['mm', 'px']):  # units millimeter or pixels
             viewbox = self.tree.get('viewBox').split(' ')
             xmin, ymin, xmax, ymax = viewbox
-            if (self.tree.get('width')[-2:] is 'mm'):
+            if (self.tree.get('width')[-2:] == 'mm'):
                 self.width_px = float(xmax) - float(xmin)
                 self.height_px = float(ymax) - float(ymin)
-                self.meter_to_pixel = self.width_px/float(self.tree.get('width')[:-2])
+                self.meter_to_pixel = 1000*self.width_px/float(self.tree.get('width')[:-2])
             else: # [px]
                 self.width_px = float(xmax) - float(xmin)
                 self.height_px = float(ymax) - float(ymin)
@@ -29,9 +32,9 @@ class SVGReader(object):
             self.height_px = float(self.tree.get('height'))  # get height from svg
 
         # forget the transforms of a figure that was read before
-        for transform in ('transform1', 'transform2'):
-            if hasattr(self, transform):
-                delattr(self, transform)
+        for attribute in ('transform1', 'transform2'):
+            if hasattr(self, attribute):
+                delattr(self, attribute)
 
         self.position = [0, 0]  # default, [px]
         self.obstacles = []
-- 
2.43.0


From bc5da27d50e18e8ebbc7b3d987f0ce101e3cb64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:24 +0000
Subject: [PATCH 091/107] fix: centre of an arc in an svg drawing was wrong if
 two of its points are level

---
 omgtools/gui/svg_reader.py | 62 ++++++++------------------------------
 1 file changed, 12 insertions(+), 50 deletions(-)

diff --git a/omgtools/gui/svg_reader.py b/omgtools/gui/svg_reader.py
index b00ef9f..0f75bb5 100644
--- a/omgtools/gui/svg_reader.py
+++ b/omgtools/gui/svg_reader.py
@@ -402,56 +402,18 @@ class SVGReader(object):
                             p1, p2, p3 = circle_points[:3]
                             mid1 = [(p2[0]+p1[0])*0.5, (p2[1]+p1[1])*0.5]  # midpoint of first bisector
                             mid2 = [(p3[0]+p2[0])*0.5, (p3[1]+p2[1])*0.5]
-                            cx, cy = [], []  # will hold circle center
-
-                            if (p1[0] == p2[0] and p2[1] == p3[1]):
-                                # vertical and horizontal bisectors
-                                cx = mid1[0]
-                                cy = mid2[1]
-                            elif (p1[1] == p2[1] and p2[0] == p3[0]):
-                                # horizontal and vertical bisectors
-                                cx = mid2[0]
-                                cy = mid1[1]
-                            elif p2[0] == p1[0]:
-                                # vertical bisector1
-                                cx = mid1[0]
-                                rico2 = (p3[1]-p2[1])/(p3[0]-p2[0])
-                                normal2 = -1/rico2
-                                cy = mid2[1] + normal2*(x-mid2[0])
-                            elif p2[1] == p1[1]:
-                                # horizontal bisector1
-                                cy = mid1[1]
-                                rico2 = (p3[1]-p2[1])/(p3[0]-p2[0])
-                                normal2 = -1/rico2
-                                cx = (cy-mid2[1])/normal2 + mid2[0]
-                            elif p2[0] == p3[0]:
-                                # vertical bisector2
-                                cx = mid2[0]
-                                rico1 = (p2[1]-p1[1])/(p2[0]-p1[0])
-                                normal1 = -1/rico1
-                                cy = mid1[1] + normal1*(x-mid1[0])
-                            elif p2[1] == p3[1]:
-                                # horizontal bisector2
-                                cy = mid2[1]
-                                rico1 = (p2[1]-p1[1])/(p2[0]-p1[0])
-                                normal1 = -1/rico1
-                                cx = (cy-mid1[1])/normal1 + mid1[0]
-                            else:
-                                # two diagonal bisectors
-                                rico1 = (p2[1]-p1[1])/(p2[0]-p1[0])
-                                normal1 = -1/rico1
-                                # y = mid1[1] + normal1*(x-mid1[0]) [1]
-                                rico2 = (p3[1]-p2[1])/(p3[0]-p2[0])
-                                normal2 = -1/rico2
-                                # y = mid2[1] + normal2*(x-mid2[0]) [2]
-
-                                # [1] = [2] --> x =
-                                if normal2 != normal1:
-                                    cx = (mid1[1]-mid2[1]-normal1*mid1[0]+normal2*mid2[0])/(normal2-normal1)
-                                else:
-                                    raise RuntimeError('Normals are equal, something went wrong')
-
-                                cy = mid1[1] + normal1*(cx-mid1[0])
+                            # the center (cx, cy) lies on both bisectors:
+                            # (x-mid1[0])*d1[0] + (y-mid1[1])*d1[1] = 0
+                            # (x-mid2[0])*d2[0] + (y-mid2[1])*d2[1] = 0
+                            d1 = [p2[0]-p1[0], p2[1]-p1[1]]
+                            d2 = [p3[0]-p2[0], p3[1]-p2[1]]
+                            determinant = d1[0]*d2[1] - d1[1]*d2[0]
+                            if determinant == 0:
+                                raise RuntimeError('Bisectors are parallel, something went wrong')
+                            c1 = d1[0]*mid1[0] + d1[1]*mid1[1]
+                            c2 = d2[0]*mid2[0] + d2[1]*mid2[1]
+                            cx = (c1*d2[1] - c2*d1[1])/determinant
+                            cy = (d1[0]*c2 - d2[0]*c1)/determinant
 
                             # compute radius
                             r = np.sqrt((p1[0]-cx)**2+(p1[1]-cy)**2)
-- 
2.43.0


From 2962a1764b4101e540bad11d0f4e09315b43848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:24 +0000
Subject: [PATCH 092/107] fix: G-code of an svg drawing could not be made, or
 not if it starts with an arc

---
 omgtools/gui/svg_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omgtools/gui/svg_reader.py b/omgtools/gui/svg_reader.py
index 0f75bb5..43295bc 100644
--- a/omgtools/gui/svg_reader.py
+++ b/omgtools/gui/svg_reader.py
@@ -324,7 +324,7 @@ class SVGReader(object):
         # The paths are supposed to represent circle segments, if they don't,
         # a circle approximation of the curve is used.
 
-        children = self.tree.getchildren()  # the xml-tree
+        children = list(self.tree)  # the xml-tree
         self.commands = []  # holds the GCode commands
 
         for idx, child in enumerate(children):
@@ -441,6 +441,10 @@ class SVGReader(object):
                             # add relative positions of all curves
                             curve_point2 += np.array([float(curve[-2]), -float(curve[-1])])
 
+                        if not self.commands:
+                            # this is the first command, so make it a G00
+                            self.commands.append('G00 X'+str(curve_point1[0])+' Y'+str(curve_point1[1]))
+
                         # now decide what is start and end of curve, because start must connect to end of previous command
                         prev_seg_end = [float(self.commands[-1].split(' ')[1].split('X')[1]),
                                         float(self.commands[-1].split(' ')[2].split('Y')[1])]
-- 
2.43.0


From 4cda4883a47579c03663812f848c7d636f465466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:47 +0000
Subject: [PATCH 093/107] fix: rectangle in the GUI was selected by a click
 next to it

---
 omgtools/gui/gui.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omgtools/gui/gui.py b/omgtools/gui/gui.py
index a4db1b9..4e63a4e 100644
--- a/omgtools/gui/gui.py
+++ b/omgtools/gui/gui.py
@@ -267,10 +267,10 @@ class EnvironmentGUI(tk.Frame):
                         self.selected_obstacle = None
                 elif obstacle['shape'] == 'rectangle':
                     # was the clicked position inside the rectangle shape
-                    xmin = obstacle['pos'][0] - obstacle['width']
-                    ymin = obstacle['pos'][1] - obstacle['height']
-                    xmax = obstacle['pos'][0] + obstacle['width']
-                    ymax = obstacle['pos'][1] + obstacle['height']
+                    xmin = obstacle['pos'][0] - obstacle['width']*0.5
+                    ymin = obstacle['pos'][1] - obstacle['height']*0.5
+                    xmax = obstacle['pos'][0] + obstacle['width']*0.5
+                    ymax = obstacle['pos'][1] + obstacle['height']*0.5
                     rectangle_limits = [xmin, ymin, xmax, ymax]
                     if point_in_rectangle(pos, rectangle_limits):
                         self.selected_obstacle = obstacle['variable']
-- 
2.43.0


From 15a914d337927d3709e2d96e2fe306715c82eeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:47 +0000
Subject: [PATCH 094/107] fix: selection in the GUI outlived the obstacles that
 a load removes

---
 omgtools/gui/gui.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/omgtools/gui/gui.py b/omgtools/gui/gui.py
index 4e63a4e..0f5f8d2 100644
--- a/omgtools/gui/gui.py
+++ b/omgtools/gui/gui.py
@@ -315,6 +315,8 @@ class EnvironmentGUI(tk.Frame):
             obs_to_move = self.selected_obstacle
         else:
             # the user wants to move the last obstacle
+            if not self.obstacles:
+                return
             obs_to_move = self.obstacles[-1]['variable']
         for idx, obstacle in enumerate(self.obstacles):
             # select the obstacle that the user wants to move
@@ -438,9 +440,6 @@ class EnvironmentGUI(tk.Frame):
             pickle.dump(env_to_save, handle, protocol=pickle.HIGHEST_PROTOCOL)
 
     def load_environment(self):
-        # first remove all obstacles which were already present in canvas
-        for obstacle in self.obstacles:
-            self.canvas.delete(obstacle['variable'])
         # show a popup window to let the user select an environment pickle
         filename = tkfiledialog.askopenfilename(filetypes=[('Pickle files', '.pickle'), ('all files','.*')])
         try:
@@ -449,6 +448,8 @@ class EnvironmentGUI(tk.Frame):
             tkmessagebox.showerror(('Error'),details)
             return
         saved_env = pickle.load(data)
+        data.close()
+        self.selected_obstacle = None  # obstacles which were already present, are removed
         env = saved_env[0]  # the environment itself
         self.meter_to_pixel = env['meter_to_pixel']
         self.position = env['position']
@@ -548,6 +549,7 @@ class EnvironmentGUI(tk.Frame):
 
         self.position = self.reader.position  # top left corner of the image [px]
         self.obstacles = self.reader.obstacles
+        self.selected_obstacle = None  # obstacles which were already present, are removed
 
         self.frame_width_px = int(self.reader.width_px)  # assign width of loaded SVG [px]
         self.frame_height_px = int(self.reader.height_px)  # assign height of loaded SVG [px]
-- 
2.43.0


From bfccd61d583bfe0bc22a20bc8cf6f82cfc9b13d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:47 +0000
Subject: [PATCH 095/107] fix: position of the frame was forgotten for start,
 goal and loaded obstacles in the GUI

---
 omgtools/gui/gui.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/omgtools/gui/gui.py b/omgtools/gui/gui.py
index 0f5f8d2..10ae828 100644
--- a/omgtools/gui/gui.py
+++ b/omgtools/gui/gui.py
@@ -363,7 +363,8 @@ class EnvironmentGUI(tk.Frame):
     def get_position(self, event):
         clicked_x = self.canvas.canvasx(event.x)  # get the position in the canvas, not in the window
         clicked_y = self.canvas.canvasy(event.y)  # this deals with the scrollbars
-        clicked = [clicked_x, clicked_y]
+        # shift clicked position over the position of the frame
+        clicked = [click+pos for click,pos in zip([clicked_x, clicked_y],self.position)]
         clicked = self.pixel_to_world(clicked)
         print('You clicked on: ', clicked)
         self.clicked_positions.append(clicked)  # save position which the user clicked on
@@ -468,7 +469,7 @@ class EnvironmentGUI(tk.Frame):
         self.obstacles = saved_env[1]  # obstacles in the environment
         for obs in self.obstacles:
             # obstacle position is saved in world coordinates [m], convert to pixels to plot
-            obs_pos = self.world_to_pixel(obs['pos'])
+            obs_pos = [pix-pos for pix,pos in zip(self.world_to_pixel(obs['pos']),self.position)]
             if obs['shape'] == 'rectangle':
                 obs['variable'] = self.canvas.create_rectangle(obs_pos[0]-obs['width']*self.meter_to_pixel*0.5, obs_pos[1]-obs['height']*self.meter_to_pixel*0.5,
                                              obs_pos[0]+obs['width']*self.meter_to_pixel*0.5, obs_pos[1]+obs['height']*self.meter_to_pixel*0.5,
@@ -575,10 +576,10 @@ class EnvironmentGUI(tk.Frame):
         # check distance to border or obstacles, if not reachable, move point
         if margin is not None:
             # compute environment border limits
-            env_min_x = 0
-            env_max_x = self.frame_width_m
-            env_min_y = 0
-            env_max_y = self.frame_height_m
+            env_min_x = self.position[0]*1./self.meter_to_pixel
+            env_max_x = env_min_x + self.frame_width_m
+            env_min_y = self.position[1]*1./self.meter_to_pixel
+            env_max_y = env_min_y + self.frame_height_m
             for idx, click in enumerate(self.clicked_positions):
                 # make sure the click is inside the environment border
                 # if not, shift click
-- 
2.43.0


From 924cf0993fe8a5355dc219abc6d84c7279eca95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:47 +0000
Subject: [PATCH 096/107] fix: circle larger than the frame was accepted by the
 GUI

---
 omgtools/gui/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/gui/gui.py b/omgtools/gui/gui.py
index 10ae828..6956748 100644
--- a/omgtools/gui/gui.py
+++ b/omgtools/gui/gui.py
@@ -242,7 +242,7 @@ class EnvironmentGUI(tk.Frame):
         elif self.shape.get() == 'circle':
             if (self.radius.get() <= 0):
                 print('Select a strictly positive radius before making a circle')
-            elif (self.radius.get()*self.meter_to_pixel >= (self.frame_width_px or self.frame_height_px)):
+            elif (self.radius.get()*self.meter_to_pixel >= min(self.frame_width_px, self.frame_height_px)):
                 print('Selected radius is too big')
             else:  # valid, draw and add to self.obstacles
                 obstacle_var = self.canvas.create_circle(snapped_pos[0], snapped_pos[1], self.radius.get()*self.meter_to_pixel, fill="black")
-- 
2.43.0


From 7464909fbad8479d71d0e571ed30b25853bb03bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:47 +0000
Subject: [PATCH 097/107] fix: grid of the GUI had rows and columns swapped

---
 omgtools/gui/gui.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omgtools/gui/gui.py b/omgtools/gui/gui.py
index 6956748..5f079c2 100644
--- a/omgtools/gui/gui.py
+++ b/omgtools/gui/gui.py
@@ -54,8 +54,8 @@ class EnvironmentGUI(tk.Frame):
         # round up sizes, such that frame width is guaranteed to be reached
         self.cell_width_px = int(np.ceil(self.frame_width_px*1./self.n_cells[0]))
         self.cell_height_px = int(np.ceil(self.frame_height_px*1./self.n_cells[1]))
-        self.rows = self.n_cells[0]
-        self.columns = self.n_cells[1]
+        self.columns = self.n_cells[0]
+        self.rows = self.n_cells[1]
 
         self.draw_grid()  # draw grid in canvas
 
@@ -87,7 +87,7 @@ class EnvironmentGUI(tk.Frame):
         label_save.grid(row=7,column=0)
 
         # indicate cell size
-        self.cell_size_label = tk.Label(self.root, text='Cell size: ' + str(np.round(self.frame_width_m*1./self.n_cells[0],3)) + 'x' + str(np.round(self.frame_height_m*1./self.n_cells[0],3)) + ' [m]')
+        self.cell_size_label = tk.Label(self.root, text='Cell size: ' + str(np.round(self.frame_width_m*1./self.n_cells[0],3)) + 'x' + str(np.round(self.frame_height_m*1./self.n_cells[1],3)) + ' [m]')
         self.cell_size_label.grid(row=1, column=0)
 
         # indicate clicked position
-- 
2.43.0


From 1487e70ea4e0065c3fd0f8360dac8408d62756c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:27 +0000
Subject: [PATCH 098/107] fix: frame of the GUI was a pixel too small if its
 size in pixels was rounded below

---
 omgtools/gui/gui.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omgtools/gui/gui.py b/omgtools/gui/gui.py
index 5f079c2..d6a29d4 100644
--- a/omgtools/gui/gui.py
+++ b/omgtools/gui/gui.py
@@ -41,8 +41,8 @@ class EnvironmentGUI(tk.Frame):
         self.n_cells = options['n_cells'] if 'n_cells' in options else [20, 20]  # [horizontal, vertical]
 
         # make environment frame and size it
-        self.frame_width_px = int(width*self.meter_to_pixel)
-        self.frame_height_px = int(height*self.meter_to_pixel)
+        self.frame_width_px = int(round(width*self.meter_to_pixel))
+        self.frame_height_px = int(round(height*self.meter_to_pixel))
         self.frame_width_m = width
         self.frame_height_m = height
         # top left corner point of the frame [px]
@@ -176,8 +176,8 @@ class EnvironmentGUI(tk.Frame):
         self.meter_to_pixel = meter_to_pixel
 
         # make environment frame and size it
-        self.frame_width_px = int(width*self.meter_to_pixel)
-        self.frame_height_px = int(height*self.meter_to_pixel)
+        self.frame_width_px = int(round(width*self.meter_to_pixel))
+        self.frame_height_px = int(round(height*self.meter_to_pixel))
         self.frame_width_m = width
         self.frame_height_m = height
         self.position = position # top left corner point of the frame [px]
-- 
2.43.0


From 0a111341b34c9850b89dce339bff33f9b662593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:16 +0000
Subject: [PATCH 099/107] fix: G-code scheduling refused a tool whose y-axis is
 slower than its x-axis: the guess of the motion time kept to the limits of x
 only

---
 omgtools/problems/gcodeschedulerproblem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index 275ecb5..bd80944 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -1164,7 +1164,7 @@ class GCodeSchedulerProblem(Problem):
             j_lim = self.vehicles[0].jxmax
             if j_lim != 0.:
                 # xy-plane movement
-                motion_time_j = (max(np.r_[abs(jerk_x(eval)), abs(jerk_y(eval))])/float(j_lim))**(1/3.)
+                motion_time_j = max(np.r_[abs(jerk_x(eval))/float(j_lim), abs(jerk_y(eval))/float(self.vehicles[0].jymax)])**(1/3.)
             else:
                 # z-movement
                 j_lim = self.vehicles[0].jzmax
@@ -1172,7 +1172,7 @@ class GCodeSchedulerProblem(Problem):
             a_lim = self.vehicles[0].axmax  # jerk limit
             if a_lim != 0.:
                 # xy-plane movement
-                motion_time_a = np.sqrt(max(np.r_[abs(acc_x(eval)), abs(acc_y(eval))])/float(a_lim))
+                motion_time_a = np.sqrt(max(np.r_[abs(acc_x(eval))/float(a_lim), abs(acc_y(eval))/float(self.vehicles[0].aymax)]))
             else:
                 # z-movement
                 a_lim = self.vehicles[0].azmax
@@ -1180,7 +1180,7 @@ class GCodeSchedulerProblem(Problem):
             v_lim = self.vehicles[0].vxmax  # jerk limit
             if v_lim != 0.:
                 # xy-plane movement
-                motion_time_v = max(np.r_[abs(vel_x(eval)), abs(vel_y(eval))])/float(v_lim)
+                motion_time_v = max(np.r_[abs(vel_x(eval))/float(v_lim), abs(vel_y(eval))/float(self.vehicles[0].vymax)])
             else:
                 # z-movement
                 v_lim = self.vehicles[0].vzmax
-- 
2.43.0


From 7c28f7be6ae3c38347e1f3b46ec05b7a54eef11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:18 +0000
Subject: [PATCH 100/107] fix: after run_once() the time of the simulator was
 an array, which went on changing in the hands of who read it

---
 omgtools/execution/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index f510717..d5d7024 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -129,7 +129,7 @@ class Simulator:
             self.problem.simulate(self.current_time, np.inf, self.sample_time)
         self.problem.final()
         # determine timing
-        update_time = self.problem.vehicles[0].signals['time'][:, -1] - self.current_time
+        update_time = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
         self.update_timing(update_time)
         # return trajectories
         trajectories = {}
-- 
2.43.0


From 5b7b0121b570fcfff4ae25515aec1a59e1784369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:29 +0000
Subject: [PATCH 101/107] fix: plot of a moment in the second half of a sample,
 or after the end, failed

---
 omgtools/execution/simulator.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index d5d7024..bf760b8 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -151,8 +151,5 @@ class Simulator:
         self.update_timing(sleep_time)
 
     def time2index(self, time):
-        Ts = self.sample_time
-        for k, t in enumerate(self.time):
-            t = np.round(t, 6)
-            if (t <= time) and (time < (t+Ts)) and ((time-t) <= (t+Ts-time)):
-                return k
+        # the sample that is closest to the given time
+        return int(np.argmin(np.abs(np.round(self.time - time, 6))))
-- 
2.43.0


From b0867fe9e7f29cd1940b32a3ffce3799f621b151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:29 +0000
Subject: [PATCH 102/107] fix: plot of the last sample failed, and so did the
 end of a movie

---
 omgtools/problems/problem.py | 4 +++-
 omgtools/vehicles/vehicle.py | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/omgtools/problems/problem.py b/omgtools/problems/problem.py
index f3eb107..d6c4f72 100644
--- a/omgtools/problems/problem.py
+++ b/omgtools/problems/problem.py
@@ -238,7 +238,9 @@ class Problem(OptiChild, PlotLayer):
                 return None
             data = self.environment.update_plot(None, t, **kwargs)
             for vehicle in self.vehicles:
-                data[0][0]['lines'] += [vehicle.traj_storage['pose'][t][:3, :]]
+                # plans are stored per interval: there is one less than there are samples
+                p = min(t, len(vehicle.traj_storage['pose'])-1)
+                data[0][0]['lines'] += [vehicle.traj_storage['pose'][p][:3, :]]
             for vehicle in self.vehicles:
                 if t == -1:
                     data[0][0]['lines'] += [vehicle.signals['pose'][:3, :]]
diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 311fb7e..c600187 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -505,21 +505,23 @@ class Vehicle(OptiChild, PlotLayer):
         if not hasattr(self, 'signals'):
             return None
         size = self.signals[signal].shape[0]
+        # plans are stored per interval: there is one less than there are samples
+        p = min(t, len(self.traj_storage['time'])-1)
         ax_r, ax_c = size, 1
         data = []
         for k in range(ax_r):
             dat = []
             for l in range(ax_c):
                 lines = []
-                lines += [np.vstack((self.traj_storage['time'][t], self.traj_storage[signal][t][k, :]))]
+                lines += [np.vstack((self.traj_storage['time'][p], self.traj_storage[signal][p][k, :]))]
                 if t == -1:
                     lines += [np.vstack((self.signals['time'], self.signals[signal][k, :]))]
                 else:
                     lines += [np.vstack((self.signals['time'][:, :t+1], self.signals[signal][k, :t+1]))]
                 if 'knots' in kwargs and kwargs['knots']:
-                    lines += [np.vstack((self.traj_storage_kn['time'][t], self.traj_storage_kn[signal][t][k, :]))]
+                    lines += [np.vstack((self.traj_storage_kn['time'][p], self.traj_storage_kn[signal][p][k, :]))]
                 if 'prediction' in kwargs and kwargs['prediction']:
-                    lines += [np.vstack((self.traj_storage['time'][t][:, 0], self.pred_storage[signal][t][k]))]
+                    lines += [np.vstack((self.traj_storage['time'][p][:, 0], self.pred_storage[signal][p][k]))]
                 dat.append({'lines': lines})
             data.append(dat)
         return data
-- 
2.43.0


From e4ab7bdd14096a99feaddd4b8c1c6a60edeb8c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:10 +0000
Subject: [PATCH 103/107] fix: run() left the clock of the simulator a sample
 behind what was simulated

---
 omgtools/execution/simulator.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index bf760b8..cbee1a4 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -41,14 +41,12 @@ class Simulator:
         stop = False
         while not stop:
             stop = self.update()
-            ### adapted ###
-            if (stop or self.update_time - float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)) > self.sample_time:
-                update_time = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
-                 # correcting for first time
-                 # avoid negative update times
-                self.update_timing(max(0,update_time-self.sample_time))
-            else:
+            # the motion may have been over before the update was
+            update_time = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
+            if update_time > self.update_time - 0.5*self.sample_time:
                 self.update_timing()
+            elif update_time > 0.5*self.sample_time:
+                self.update_timing(update_time)
 
         self.problem.final()
         # return trajectories and signals
-- 
2.43.0


From afe4f3efdd3f7d1078c820263bb2e2dea0f749b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:10 +0000
Subject: [PATCH 104/107] fix: figure of the residuals of dual decomposition
 stayed empty

---
 omgtools/problems/dualdecomposition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omgtools/problems/dualdecomposition.py b/omgtools/problems/dualdecomposition.py
index 4d205f8..241cb19 100644
--- a/omgtools/problems/dualdecomposition.py
+++ b/omgtools/problems/dualdecomposition.py
@@ -337,14 +337,14 @@ class DDProblem(DualProblem):
                 if t == -1:
                     n_it = len(residual)
                     iterations = np.linspace(1, n_it, n_it)
-                    lines.append([iterations, np.log10(residual)])
+                    lines += [np.vstack((iterations, np.log10(residual)))]
                 else:
                     ind = (self.options['init_iter'] +
                            t*self.options['max_iter_per_update'])
                     n_it = ind + 1
                     iterations = np.linspace(1, n_it, n_it)
-                    lines.append([iterations, np.log10(residual[:ind+1])])
-                data.append([lines])
+                    lines += [np.vstack((iterations, np.log10(residual[:ind+1])))]
+                data.append([{'lines': lines}])
             return data
         else:
             return Problem.update_plot(self, argument, t, **kwargs)
-- 
2.43.0


From 98ea3899aff45adaf8faea4942dcbdc740d3bc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:10 +0000
Subject: [PATCH 105/107] fix: scene of a scheduler could not be shown for the
 last sample

---
 omgtools/problems/schedulerproblem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 0892957..f7c4172 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -291,6 +291,8 @@ class SchedulerProblem(Problem):
         # plot environment
         data = Problem.update_plot(self, argument, t)
         if data is not None:
+            # frames are stored per interval: there is one less than there are samples
+            t = min(t, len(self.frame_storage)-1)
             for k in range(len(self.frame_storage[t])):
                 # for every frame at this point in time
                 # plot frame border
-- 
2.43.0


From 4ed1aa2c043e220ba29ef0041252ce4b31c9667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:25 +0000
Subject: [PATCH 106/107] fix: step() let the clock of the simulator run ahead
 of a motion that was over sooner

---
 omgtools/execution/simulator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index cbee1a4..bfbcb36 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -61,12 +61,14 @@ class Simulator:
 
     def step(self, update_time=0.1):
         stop = self.update(update_time)
-        if stop:
-            update_time = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
+        # the motion may have been over before the update was
+        simulated = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
+        if simulated > update_time - 0.5*self.sample_time:
             self.update_timing(update_time)
+        elif simulated > 0.5*self.sample_time:
+            self.update_timing(simulated)
+        if stop:
             self.problem.final()
-        else:
-            self.update_timing(update_time)
         # return trajectories and signals
         trajectories, signals, curr_state = {}, {}, {}
         # determine remaining motion time
-- 
2.43.0


From 311d74fe975342a1644e839412501ed3811b234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:25 +0000
Subject: [PATCH 107/107] fix: scene of a scheduler went on showing a frame
 that was left behind

---
 omgtools/execution/plotlayer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omgtools/execution/plotlayer.py b/omgtools/execution/plotlayer.py
index e1f1728..dd4bd8c 100644
--- a/omgtools/execution/plotlayer.py
+++ b/omgtools/execution/plotlayer.py
@@ -94,6 +94,9 @@ def _update_axis_2d(axis, info, data):
     if 'surfaces' in data:
         for p, dat in enumerate(data['surfaces']):
             axis.collections[p].set_verts([dat.T.tolist()])
+        # those that are no longer there
+        for col in list(axis.collections)[len(data['surfaces']):]:
+            col.set_verts([])
     axis.relim()
     scalex = ('xlim' not in info or info['xlim'] is None)
     scaley = ('ylim' not in info or info['ylim'] is None)
-- 
2.43.0

