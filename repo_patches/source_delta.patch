From 605fead483455eec6d2a1053633d7589fd5236d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 01/49] fix: report the volume the ray enters when leaving a
 container as adjacent

---
 pvtrace/algorithm/photon_tracer.py | 12 +++++++++++-
 pvtrace/engine/_kernel.pyx         | 16 ++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index 857dae1..bc9477f 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -103,7 +103,17 @@ def next_hit(scene, ray):
     hit_node = hit.hit
     distance = distance_between(ray.position, point)
     if container == hit_node:
-        adjacent = intersections[1].hit
+        # Leaving the container: the adjacent node is the one which contains the
+        # ray beyond this interface. The next intersection is not necessarily with
+        # that node; it may be with another node further along the ray.
+        beyond = [
+            x
+            for x in intersections[1:]
+            if x.distance > hit.distance and not close_to_zero(x.distance - hit.distance)
+        ]
+        count = collections.Counter(x.hit for x in beyond)
+        candidates = [x.hit for x in beyond if count[x.hit] == 1]
+        adjacent = candidates[0] if candidates else intersections[1].hit
     else:
         adjacent = hit_node
     return hit_node, (container, adjacent), point, distance
diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index f2a3fae..a1e33a2 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -709,7 +709,23 @@ cdef int trace_one(
             if container < 0:
                 container = hit
             if container == hit:
+                # Leaving the container: the adjacent node is the nearest one
+                # with exactly one intersection beyond this interface
+                # (photon_tracer.next_hit).
+                for node in range(S.n_nodes):
+                    node_hits[node] = 0
+                    node_min_t[node] = INFINITY
+                for i in range(nhits):
+                    if hit_t[i] - t0 > EPS:
+                        node_hits[hit_node[i]] += 1
+                        if hit_t[i] < node_min_t[hit_node[i]]:
+                            node_min_t[hit_node[i]] = hit_t[i]
                 adjacent = hit_node[second]
+                best = INFINITY
+                for node in range(S.n_nodes):
+                    if node_hits[node] == 1 and node_min_t[node] < best:
+                        best = node_min_t[node]
+                        adjacent = node
             else:
                 adjacent = hit
 
-- 
2.43.0


From 7df5bc6f4a2e3d34c9460aa82685e503736d40b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 02/49] fix: leave room for the KILL event after a two-event
 step

---
 pvtrace/engine/_kernel.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index a1e33a2..b4240fb 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -656,8 +656,9 @@ cdef int trace_one(
         count += 1
 
         # Kill the ray when its event budget is exhausted rather than
-        # silently dropping events (leave room for the KILL record).
-        if base >= 0 and nevents >= elog.max_events - 1:
+        # silently dropping events (leave room for the KILL record; a step
+        # records up to two events, ABSORB and EMIT).
+        if base >= 0 and nevents >= elog.max_events - 2:
             record(elog, base, &nevents, EV_KILL, -1, -1, -1, -1, source,
                    pos, direction, NULL, wavelength, travelled, duration)
             break
-- 
2.43.0


From 81e3d8aa7a05d75f87dea106259d894fd8eeb247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 03/49] fix: sample phase functions in the container's frame in
 the engine

---
 pvtrace/engine/_kernel.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index b4240fb..8d0fa14 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -806,8 +806,8 @@ cdef int trace_one(
                 # Radiative: re-emit with new direction (and wavelength)
                 sample_phase(S.comp_phase_type[comp], S.comp_phase_param[comp],
                              &rng, new_dir)
-                for i in range(3):
-                    direction[i] = new_dir[i]
+                # Phase functions are sampled in the frame of the container
+                transform_vector(S.l2w + container * 16, new_dir, direction)
                 source = comp
                 if ctype == COMP_LUMINOPHORE:
                     ax = S.ems_x + S.ems_start[comp]
-- 
2.43.0


From 760411da1f959ab520e8c260ae13f320f8badd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 04/49] fix: propagate a ray by zero distance without dividing
 by it

---
 pvtrace/light/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/light/ray.py b/pvtrace/light/ray.py
index 7860ea3..c3dbe73 100644
--- a/pvtrace/light/ray.py
+++ b/pvtrace/light/ray.py
@@ -70,7 +70,7 @@ class Ray:
             position=new_position,
             travelled=self.travelled + distance,
             duration=self.duration
-            + 1 / (speed_of_light_cm_per_s / refractive_index / distance),
+            + distance * refractive_index / speed_of_light_cm_per_s,
         )
         return new_ray
 
-- 
2.43.0


From 79663af0e3fc71c78ee5637729db7e368cef466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 05/49] fix: sample Henyey-Greenstein with g=0 as isotropic
 instead of dividing by zero

---
 pvtrace/material/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 905a2f1..9b04caa 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -114,13 +114,13 @@ def isotropic() -> numpy.ndarray:
 def henyey_greenstein(g=0.0) -> numpy.ndarray:
     """Henyey-Greenstein phase function."""
     # https://www.astro.umd.edu/~jph/HG_note.pdf
-    p = np.random.uniform(0, 1)
-    s = 2 * p - 1
-    mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
     # Inverse is not defined at g=0 but in the limit
     # tends to the isotropic case.
     if close_to_zero(g):
         return isotropic()
+    p = np.random.uniform(0, 1)
+    s = 2 * p - 1
+    mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
     phi = 2 * np.pi * np.random.uniform()
     theta = np.arccos(mu)
     coords = spherical_to_cart(theta, phi)
-- 
2.43.0


From 1a5db5323fcf94fed87c16c8ee2a2619ede87cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:38 +0000
Subject: [PATCH 06/49] fix: leave values below a histogram's range out of its
 first bin

---
 pvtrace/engine/_kernel.pyx | 5 +++--
 pvtrace/engine/tally.py    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 8d0fa14..e17830c 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -20,6 +20,7 @@ from libc.math cimport (
     asin,
     cos,
     fabs,
+    floor,
     log,
     sin,
     sqrt,
@@ -542,7 +543,7 @@ cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
         for h in range(S.rec_hist_start[r], S.rec_hist_start[r] + S.rec_hist_n[r]):
             va = prop_value(S.h_prop_a[h], wavelength, angle, duration,
                             travelled, lpos)
-            ia = <int>((va - S.h_lo_a[h]) / (S.h_hi_a[h] - S.h_lo_a[h]) * S.h_na[h])
+            ia = <int>floor((va - S.h_lo_a[h]) / (S.h_hi_a[h] - S.h_lo_a[h]) * S.h_na[h])
             if ia < 0 or ia >= S.h_na[h]:
                 continue
             if S.h_prop_b[h] < 0:
@@ -550,7 +551,7 @@ cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
             else:
                 vb = prop_value(S.h_prop_b[h], wavelength, angle, duration,
                                 travelled, lpos)
-                ib = <int>((vb - S.h_lo_b[h]) / (S.h_hi_b[h] - S.h_lo_b[h]) * S.h_nb[h])
+                ib = <int>floor((vb - S.h_lo_b[h]) / (S.h_hi_b[h] - S.h_lo_b[h]) * S.h_nb[h])
                 if ib < 0 or ib >= S.h_nb[h]:
                     continue
                 bins[S.h_offset[h] + ia * S.h_nb[h] + ib] += 1
diff --git a/pvtrace/engine/tally.py b/pvtrace/engine/tally.py
index ae9d8c6..fd6bbf6 100644
--- a/pvtrace/engine/tally.py
+++ b/pvtrace/engine/tally.py
@@ -79,7 +79,7 @@ class _TallyState:
 
 
 def _bin_index(value, hist):
-    index = int((value - hist.start) / (hist.stop - hist.start) * hist.bins)
+    index = int(np.floor((value - hist.start) / (hist.stop - hist.start) * hist.bins))
     return index if 0 <= index < hist.bins else -1
 
 
-- 
2.43.0


From aea90d8b6b89c01b71390459e631ef01878d6f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 07/49] fix: absorb rays in the world's material before they
 reach its boundary

---
 pvtrace/algorithm/photon_tracer.py |  6 ++---
 pvtrace/engine/_kernel.pyx         | 38 +++++++++++++++---------------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index bc9477f..afd3153 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -183,7 +183,9 @@ def step_forward(scene, ray, maxsteps=1000, maxpathlength=np.inf, emit_method="k
             break
 
         refractive_index = container.geometry.material.refractive_index
-        if hit is scene.root:
+        material = container.geometry.material
+        absorbed, at_distance = material.is_absorbed(ray, full_distance)
+        if hit is scene.root and not absorbed:
             yield (
                 ray.propagate(full_distance, refractive_index),
                 Event.EXIT,
@@ -195,8 +197,6 @@ def step_forward(scene, ray, maxsteps=1000, maxpathlength=np.inf, emit_method="k
             )
             break
 
-        material = container.geometry.material
-        absorbed, at_distance = material.is_absorbed(ray, full_distance)
         if absorbed:
             ray = ray.propagate(at_distance, refractive_index)
             component = material.component(ray.wavelength)
diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index e17830c..49770cc 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -742,25 +742,6 @@ cdef int trace_one(
 
         n_container = S.nidx[container]
 
-        # --- exit through the root boundary ---------------------------
-        if hit == S.root:
-            for i in range(3):
-                pos[i] = pos[i] + direction[i] * t0
-            travelled += t0
-            duration += t0 * n_container / C_CM_PER_S
-            record(elog, base, &nevents, EV_EXIT, hit, container, adjacent, -1, source,
-                   pos, direction, NULL, wavelength, travelled, duration)
-            if S.n_recorders > 0:
-                transform_point(S.w2l + hit * 16, pos, local_p)
-                local_normal(S, hit, local_p, nrm_local)
-                transform_vector(S.l2w + hit * 16, nrm_local, nrm)
-                ddot = fabs(dot3(nrm, direction))
-                if ddot > 1.0:
-                    ddot = 1.0
-                tally(S, AB, tid, REC_EXIT, hit, rseen, nrm,
-                      local_p, acos(ddot), wavelength, travelled, duration)
-            break
-
         # --- volume absorption ----------------------------------------
         cbase = S.comp_start[container]
         ccount = S.comp_count[container]
@@ -849,6 +830,25 @@ cdef int trace_one(
                           local_p, 0.0, wavelength, travelled, duration)
                 break
 
+        # --- exit through the root boundary ---------------------------
+        if hit == S.root:
+            for i in range(3):
+                pos[i] = pos[i] + direction[i] * t0
+            travelled += t0
+            duration += t0 * n_container / C_CM_PER_S
+            record(elog, base, &nevents, EV_EXIT, hit, container, adjacent, -1, source,
+                   pos, direction, NULL, wavelength, travelled, duration)
+            if S.n_recorders > 0:
+                transform_point(S.w2l + hit * 16, pos, local_p)
+                local_normal(S, hit, local_p, nrm_local)
+                transform_vector(S.l2w + hit * 16, nrm_local, nrm)
+                ddot = fabs(dot3(nrm, direction))
+                if ddot > 1.0:
+                    ddot = 1.0
+                tally(S, AB, tid, REC_EXIT, hit, rseen, nrm,
+                      local_p, acos(ddot), wavelength, travelled, duration)
+            break
+
         # --- surface interaction --------------------------------------
         for i in range(3):
             pos[i] = pos[i] + direction[i] * t0
-- 
2.43.0


From ba22f4348c45607e309543479bf699c2a1017bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 08/49] fix: refuse scenes with more geometry nodes than the
 engine supports as unsupported

---
 pvtrace/engine/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 9bc600c..8cd9656 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -20,6 +20,7 @@ from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
 
 # Volume interaction selectors cannot be restricted by surface facet
 VOLUME_EVENTS = {"lost", "reacted", "killed"}
+MAX_NODES = 128  # per-ray intersection array size in the kernel
 MAX_RECORDERS = 256  # per-ray distinct tracking array size in the kernel
 
 # Geometry type tags
@@ -66,6 +67,11 @@ class CompiledScene:
         if scene.root.geometry is None:
             raise UnsupportedSceneError("Root node must have a geometry.")
 
+        if len(nodes) > MAX_NODES:
+            raise UnsupportedSceneError(
+                f"At most {MAX_NODES} geometry nodes are supported."
+            )
+
         n = len(nodes)
         self.scene = scene
         self.nodes = nodes
-- 
2.43.0


From fc6313e13ad27017340ad7e05609b1a60f98914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 09/49] fix: refuse subclassed phase functions, which the
 engine would trace as their base class

---
 pvtrace/engine/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 8cd9656..a344980 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -307,9 +307,9 @@ class CompiledScene:
         phase = component.phase_function
         if phase is isotropic:
             return PHASE_ISOTROPIC, 0.0
-        if isinstance(phase, HenyeyGreenstein):
+        if type(phase) is HenyeyGreenstein:
             return PHASE_HENYEY_GREENSTEIN, float(phase.g)
-        if isinstance(phase, Cone):
+        if type(phase) is Cone:
             return PHASE_CONE, float(phase.theta_max)
         raise UnsupportedSceneError(
             f"Node {node.name!r}: custom phase functions are not supported."
-- 
2.43.0


From d70459dfc6047e6efb525a2911d6517d703206b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 10/49] fix: keep the throws of every simulation task apart
 when one process runs several tasks

---
 pvtrace/scene/scene.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pvtrace/scene/scene.py b/pvtrace/scene/scene.py
index 63f5263..9b648fe 100644
--- a/pvtrace/scene/scene.py
+++ b/pvtrace/scene/scene.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import itertools
 import multiprocessing
 import os
 from typing import Optional, Sequence, Tuple
@@ -18,6 +19,9 @@ import logging
 
 logger = logging.getLogger(__name__)
 
+# Numbers the simulation tasks run by this process
+_task_number = itertools.count()
+
 
 def do_simulation(scene, num_rays, seed):
     """Worker function for multiple processing."""
@@ -66,7 +70,9 @@ def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays):
         np.random.seed(seed)
 
     count = 0
-    pid = os.getpid()
+    # One process of the pool may run several tasks, each counting its throws
+    # from zero: the process id alone does not identify the task.
+    pid = f"{os.getpid()}-{next(_task_number)}"
 
     # What is an "end ray"?
     # Only record major ray events should as entering/reflecting from nodes
-- 
2.43.0


From 40bacb2a5fa22687324bb4a957d91c784686c1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 11/49] fix: share the lights evenly when several workers share
 a simulation

---
 pvtrace/scene/scene.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pvtrace/scene/scene.py b/pvtrace/scene/scene.py
index 9b648fe..0572fd2 100644
--- a/pvtrace/scene/scene.py
+++ b/pvtrace/scene/scene.py
@@ -23,14 +23,14 @@ logger = logging.getLogger(__name__)
 _task_number = itertools.count()
 
 
-def do_simulation(scene, num_rays, seed):
+def do_simulation(scene, num_rays, seed, first=0):
     """Worker function for multiple processing."""
     # Re-seed for this thread/process
     if seed is not None:
         np.random.seed(seed)
 
     results = []
-    for ray in scene.emit(num_rays):
+    for ray in scene.emit(num_rays, first):
         ray_history = photon_tracer.follow(scene, ray)
         results.append(ray_history)
     return results
@@ -63,7 +63,7 @@ def is_end_ray(event, metadata):
     return False
 
 
-def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays):
+def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays, first=0):
     """Worker function for multiple processing puts results into queue."""
     # Re-seed for this thread/process
     if seed is not None:
@@ -83,7 +83,7 @@ def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays):
     # that remain from internal propagation is the total path length travelled
     # and the duration it took.
 
-    for idx, ray in enumerate(scene.emit(num_rays)):
+    for idx, ray in enumerate(scene.emit(num_rays, first)):
         count = count + 1
         for info in photon_tracer.step_forward(scene, ray):
             ray, event, metadata = info
@@ -144,15 +144,17 @@ class Scene(object):
                     found_nodes.extend(node.geometry.material.components)
         return found_nodes
 
-    def emit(self, num_rays):
+    def emit(self, num_rays, first=0):
         """Rays are emitted in the coordinate system of the world node.
 
         Internally the scene cycles through Light nodes, askes them to emit
-        a ray and the converts the ray to the world coordinate system.
+        a ray and the converts the ray to the world coordinate system. The
+        cycle starts at the light of ray number `first`, so that workers which
+        share a simulation share the lights as a single worker would.
         """
         lights = self.light_nodes
         for idx in range(num_rays):
-            light = lights[idx % len(lights)]
+            light = lights[(first + idx) % len(lights)]
             for ray in light.emit(1):
                 yield ray.representation(light, self.root)
 
@@ -285,6 +287,7 @@ class Scene(object):
         )
         rays = [num_rays_per_worker] * workers
         rays[0] += remainder
+        firsts = [sum(rays[:idx]) for idx in range(workers)]
         if seed is None:
             seeds = np.random.randint(0, (2 ** 31) - 1, workers)
         else:
@@ -299,7 +302,7 @@ class Scene(object):
             results_proxy = [
                 pool.apply_async(
                     do_simulation_add_to_queue,
-                    (self, rays[idx], seeds[idx], queue, end_rays),
+                    (self, rays[idx], seeds[idx], queue, end_rays, firsts[idx]),
                 )
                 for idx in range(workers)
             ]
@@ -308,7 +311,9 @@ class Scene(object):
 
         # Results are processed directly and returned
         results_proxy = [
-            pool.apply_async(do_simulation, (self, rays[idx], seeds[idx]))
+            pool.apply_async(
+                do_simulation, (self, rays[idx], seeds[idx], firsts[idx])
+            )
             for idx in range(workers)
         ]
         results = []
-- 
2.43.0


From 87773f9231842b7a914a9697d23595dfca35a537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 12/49] fix: let the time commands report rays lost, reacted or
 killed in a node

---
 pvtrace/cli/time.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index 4a45856..93ef085 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -234,8 +234,7 @@ def lost(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when reacted in node")
@@ -270,8 +269,7 @@ def reacted(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when killed in node")
@@ -306,8 +304,7 @@ def killed(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 def main():
-- 
2.43.0


From a49288c69dc2873a2d1032f013a8032d3ec17b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 13/49] fix: list every value of a throw, in full precision, in
 JSON output

---
 pvtrace/cli/spectrum.py | 9 +++++----
 pvtrace/cli/time.py     | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pvtrace/cli/spectrum.py b/pvtrace/cli/spectrum.py
index 378ff3d..27edf26 100644
--- a/pvtrace/cli/spectrum.py
+++ b/pvtrace/cli/spectrum.py
@@ -4,6 +4,7 @@ import numpy
 import pandas
 import enum
 import io
+import json
 import termplotlib as apl
 from typing import Optional
 from pathlib import Path
@@ -48,11 +49,11 @@ def handle_output(result, output, vertical=None):
         print(buffer.getvalue())
 
     if output == OutputChoice.json:
-        buffer = io.StringIO()
-        pandas.DataFrame(
+        # A throw can have more than one value, so it can't be a key
+        frame = pandas.DataFrame(
             result[:, 1], columns=["nanometers"], index=result[:, 0].astype(int)
-        ).to_json(buffer)
-        print(buffer.getvalue())
+        )
+        print(json.dumps(frame.to_dict(orient="split")))
 
 
 @app.command(short_help="Spectrum reflected by node")
diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index 93ef085..013546c 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -4,6 +4,7 @@ import numpy
 import pandas
 import enum
 import io
+import json
 import termplotlib as apl
 from typing import Optional
 from pathlib import Path
@@ -48,11 +49,11 @@ def handle_output(result, output, vertical=None):
         print(buffer.getvalue())
 
     if output == OutputChoice.json:
-        buffer = io.StringIO()
-        pandas.DataFrame(
+        # A throw can have more than one value, so it can't be a key
+        frame = pandas.DataFrame(
             result[:, 1], columns=["seconds"], index=result[:, 0].astype(int)
-        ).to_json(buffer)
-        print(buffer.getvalue())
+        )
+        print(json.dumps(frame.to_dict(orient="split")))
 
 
 @app.command(short_help="Time when reflected by node")
-- 
2.43.0


From 818bc99d8d6224edde7369e0395adf367c2510c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 14/49] fix: plot samples which differ by rounding only

---
 pvtrace/cli/spectrum.py | 7 ++++++-
 pvtrace/cli/time.py     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pvtrace/cli/spectrum.py b/pvtrace/cli/spectrum.py
index 27edf26..c760c0d 100644
--- a/pvtrace/cli/spectrum.py
+++ b/pvtrace/cli/spectrum.py
@@ -31,7 +31,12 @@ def handle_output(result, output, vertical=None):
     # col 2: samples
     result = numpy.array(result)
     if output == OutputChoice.plot:
-        counts, bin_edges = numpy.histogram(result[:, 1])
+        samples = result[:, 1]
+        limits = samples.min(), samples.max()
+        if numpy.isclose(*limits, rtol=1e-9, atol=0.0):
+            # Too narrow for bins of finite size, use unit width
+            limits = limits[0] - 0.5, limits[1] + 0.5
+        counts, bin_edges = numpy.histogram(samples, range=limits)
         fig = apl.figure()
 
         orientation = "horizontal"
diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index 013546c..8043299 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -31,7 +31,12 @@ def handle_output(result, output, vertical=None):
     # col 2: samples
     result = numpy.array(result)
     if output == OutputChoice.plot:
-        counts, bin_edges = numpy.histogram(result[:, 1])
+        samples = result[:, 1]
+        limits = samples.min(), samples.max()
+        if numpy.isclose(*limits, rtol=1e-9, atol=0.0):
+            # Too narrow for bins of finite size, use unit width
+            limits = limits[0] - 0.5, limits[1] + 0.5
+        counts, bin_edges = numpy.histogram(samples, range=limits)
         fig = apl.figure()
 
         orientation = "horizontal"
-- 
2.43.0


From 868524c6c32bf4e89831002aac1ef1e735a97d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 15/49] fix: keep ray directions unit vectors over long
 histories

---
 pvtrace/light/ray.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvtrace/light/ray.py b/pvtrace/light/ray.py
index c3dbe73..2c83c3c 100644
--- a/pvtrace/light/ray.py
+++ b/pvtrace/light/ray.py
@@ -91,5 +91,10 @@ class Ray:
         """
         new_position = from_node.point_to_node(self.position, to_node)
         new_direction = from_node.vector_to_node(self.direction, to_node)
+        # Rounding in the transformation accumulates over long ray histories;
+        # the direction must remain a unit vector.
+        magnitude = np.linalg.norm(new_direction)
+        if magnitude > 0.0:
+            new_direction = tuple(x / magnitude for x in new_direction)
         new_ray = replace(self, position=new_position, direction=new_direction)
         return new_ray
-- 
2.43.0


From 2041c7149d4e4a92c873abd139f28ef3005a3bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:40 +0000
Subject: [PATCH 16/49] fix: point nodes along directions of any length and
 from any pose

---
 pvtrace/scene/node.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/pvtrace/scene/node.py b/pvtrace/scene/node.py
index 017bcab..9ef2259 100644
--- a/pvtrace/scene/node.py
+++ b/pvtrace/scene/node.py
@@ -6,7 +6,6 @@ from pvtrace.common.errors import AppError
 from pvtrace.geometry.intersection import Intersection
 from pvtrace.geometry.transformable import Transformable
 from pvtrace.geometry.utils import distance_between
-from pvtrace.geometry.transformations import rotation_from_matrix
 import logging
 
 logger = logging.getLogger(__name__)
@@ -50,23 +49,20 @@ class Node(NodeMixin, Transformable):
         ----------
         [1] https://math.stackexchange.com/q/476311
         """
-        a = np.array([0, 0, 1])  # +z direction
-        b = np.array(vector)  # direction we want to face
-        c = np.dot(a, b)
-        if np.isclose(c, -1.0):
-            # Anti-parallel rotation can be done without computation
-            self.rotate(np.pi, [0, 1, 0])
+        a = self.pose[0:3, 2]  # current direction of the +z face
+        b = np.array(vector, dtype=float)  # direction we want to face
+        length = np.linalg.norm(b)
+        if length == 0.0:
+            raise ValueError("Direction must not be a null vector.")
+        b = b / length
+        axis = np.cross(a, b)
+        s, c = np.linalg.norm(axis), np.dot(a, b)
+        if s < 1e-12:
+            # Parallel needs no rotation, anti-parallel has no unique axis
+            if c < 0.0:
+                self.rotate(np.pi, self.pose[0:3, 1])
             return
-
-        v = np.cross(a, b)
-        C = 1 / (1 + c)
-        v1, v2, v3 = v[0], v[1], v[2]
-        vx = np.array([[0, -v3, v2], [v3, 0, -v1], [-v2, v1, 0]])
-        r = np.identity(3) + vx + vx @ vx * C
-        R = np.identity(4)
-        R[:3, :3] = r
-        angle, direc, point = rotation_from_matrix(R)
-        self.rotate(angle, direc)
+        self.rotate(np.arctan2(s, c), axis)
 
     # Convert between coordinate systems
 
-- 
2.43.0


From 0b09e58a53013b524374e353a64facd93dc78142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:13 +0000
Subject: [PATCH 17/49] fix: keep fractional translations of nodes placed with
 integers

---
 pvtrace/geometry/transformable.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvtrace/geometry/transformable.py b/pvtrace/geometry/transformable.py
index a405999..d82fbb2 100644
--- a/pvtrace/geometry/transformable.py
+++ b/pvtrace/geometry/transformable.py
@@ -46,7 +46,9 @@ class Transformable(object):
         """
         super(Transformable, self).__init__()
         self._location = (
-            np.zeros(3, dtype=float) if location is None else np.array(location)
+            np.zeros(3, dtype=float)
+            if location is None
+            else np.array(location, dtype=float)
         )
         self._pose = translation_matrix(self._location)
 
@@ -65,7 +67,7 @@ class Transformable(object):
     @pose.setter
     def pose(self, new_value):
         self._location = translation_from_matrix(new_value)
-        self._pose = np.array(new_value)
+        self._pose = np.array(new_value, dtype=float)
         return self
 
     @property
@@ -74,7 +76,7 @@ class Transformable(object):
 
     @location.setter
     def location(self, new_value):
-        self._location = np.array(new_value)
+        self._location = np.array(new_value, dtype=float)
         self._pose[0:3, 3] = np.array(new_value)
         return self
 
-- 
2.43.0


From 3841685b88609ba70abe6dc20230ef7a70e8184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:38 +0000
Subject: [PATCH 18/49] fix: scale spectra read from files with integer values

---
 pvtrace/cli/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index c2fb7db..91e6122 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -239,7 +239,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             index_col=0,
         )
         # like numpy.column_stack((x, y))
-        spectrum = df.iloc[:, 0:2].values
+        spectrum = df.iloc[:, 0:2].values.astype(float)
         return spectrum
 
     def parse_absorber(spec, name):
-- 
2.43.0


From f66e7d1cdc234310dd67a63ff6f8a26a77b92126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 19/49] fix: accept every form of attenuation coefficient the
 scene schema allows

---
 pvtrace/cli/parse.py | 123 +++++++++++--------------------------------
 1 file changed, 31 insertions(+), 92 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 91e6122..25c4891 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -242,39 +242,34 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         spectrum = df.iloc[:, 0:2].values.astype(float)
         return spectrum
 
-    def parse_absorber(spec, name):
+    def parse_coefficient(spec):
+        """Returns the attenuation coefficient as a constant or a spectrum. When
+        both are specified the spectrum is scaled to have peak value `coefficient`.
+        """
+        coefficient = spec.get("coefficient", None)
+        if "spectrum" not in spec:
+            if coefficient is None:
+                raise ValueError("Requires a coefficient or a spectrum.")
+            return float(coefficient)
 
-        coefficient = None
-        if "coefficient" in spec:
-            coefficient = spec["coefficient"]
+        spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
+        if coefficient is not None:
+            spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
+        return spectrum
+
+    def parse_absorber(spec, name):
 
         hist = False
         if "hist" in spec:
             hist = spec["hist"]
 
-        spectrum = None
-        if "spectrum" in spec:
-            spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
-
-        if coefficient and (spectrum is not None):
-            spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
-            return Absorber(spectrum, name=name, hist=hist)
-        elif spectrum:
-            return Absorber(spectrum, name=name, hist=hist)
-        elif coefficient:
-            return Absorber(coefficient, name=name)
-
-        raise ValueError("Unexpected absorber format.")
+        return Absorber(parse_coefficient(spec), name=name, hist=hist)
 
     def parse_phase_function(spec):
         return parse_direction_mask(spec)
 
     def parse_scatterer(spec, name):
 
-        coefficient = None
-        if "coefficient" in spec:
-            coefficient = spec["coefficient"]
-
         hist = False
         if "hist" in spec:
             hist = spec["hist"]
@@ -287,42 +282,16 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if "quantum-yield" in spec:
             quantum_yield = spec["quantum-yield"]
 
-        spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
-
-        if coefficient and (spectrum is not None):
-            spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
-            return Scatterer(
-                spectrum,
-                quantum_yield=quantum_yield,
-                phase_function=phase_function,
-                name=name,
-                hist=hist,
-            )
-        elif spectrum:
-            return Scatterer(
-                spectrum,
-                quantum_yield=quantum_yield,
-                phase_function=phase_function,
-                name=name,
-                hist=hist,
-            )
-        elif coefficient:
-            return Scatterer(
-                coefficient,
-                quantum_yield=quantum_yield,
-                phase_function=phase_function,
-                name=name,
-                hist=hist,
-            )
-
-        raise ValueError("Unexpected scatterer format.")
+        return Scatterer(
+            parse_coefficient(spec),
+            quantum_yield=quantum_yield,
+            phase_function=phase_function,
+            name=name,
+            hist=hist,
+        )
 
     def parse_luminophore(spec, name):
 
-        coefficient = None
-        if "coefficient" in spec["absorption"]:
-            coefficient = spec["absorption"]["coefficient"]
-
         hist = False
         if "hist" in spec:
             hist = spec["hist"]
@@ -338,10 +307,6 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             if "quantum-yield" in spec["emission"]:
                 quantum_yield = spec["emission"]["quantum-yield"]
 
-        absorption_spectrum = parse_spectrum(
-            spec["absorption"]["spectrum"], named_type="absorption"
-        )
-
         emission_spectrum = parse_spectrum(
             spec["emission"]["spectrum"], named_type="emission"
         )
@@ -349,40 +314,14 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if emission_spectrum is None:
             raise ValueError("Luminophore must have an emission spectrum")
 
-        if coefficient and (absorption_spectrum is not None):
-            absorption_spectrum[:, 1] = (
-                absorption_spectrum[:, 1]
-                / numpy.max(absorption_spectrum[:, 1])
-                * coefficient
-            )
-            return Luminophore(
-                absorption_spectrum,
-                emission=emission_spectrum,
-                quantum_yield=quantum_yield,
-                phase_function=phase_function,
-                name=name,
-                hist=hist,
-            )
-        elif absorption_spectrum:
-            return Luminophore(
-                absorption_spectrum,
-                emission=emission_spectrum,
-                quantum_yield=quantum_yield,
-                phase_function=phase_function,
-                name=name,
-                hist=hist,
-            )
-        elif coefficient:
-            return Luminophore(
-                coefficient,
-                emission=emission_spectrum,
-                quantum_yield=quantum_yield,
-                phase_function=phase_function,
-                name=name,
-                hist=hist,
-            )
-
-        raise ValueError("Unexpected luminophore format.")
+        return Luminophore(
+            parse_coefficient(spec["absorption"]),
+            emission=emission_spectrum,
+            quantum_yield=quantum_yield,
+            phase_function=phase_function,
+            name=name,
+            hist=hist,
+        )
 
     def parse_component(spec, name):
         if "absorber" in spec:
-- 
2.43.0


From 0c9a2a23ab17a3a92b1a2dbabeec5bc267d8b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:39 +0000
Subject: [PATCH 20/49] fix: accept fixed positions, directions and wavelengths
 as light masks

---
 pvtrace/cli/parse.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 25c4891..ea1dd6c 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -4,6 +4,7 @@ Parses the pvtrace-scene.yml file and generates Python objects.
 
 from pvtrace.material.distribution import Distribution
 from pvtrace.material.component import Luminophore, Scatterer
+import functools
 import jsonschema
 import yaml
 import json
@@ -138,6 +139,10 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         return Mesh(trimesh=mesh, material=material)
 
     def parse_position_mask(spec):
+        if isinstance(spec, list):
+            x, y, z = (float(v) for v in spec)
+            return functools.partial(tuple, (x, y, z))
+
         if "rect" in spec:
             return RectangularMask(*spec["rect"])
 
@@ -160,6 +165,13 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         return HenyeyGreensteinPhaseFunction(g)
 
     def parse_direction_mask(spec) -> Callable:
+        if isinstance(spec, list):
+            x, y, z = (float(v) for v in spec)
+            length = float(np.linalg.norm((x, y, z)))
+            if length == 0.0:
+                raise ValueError("Direction must not be a null vector.")
+            return functools.partial(tuple, (x / length, y / length, z / length))
+
         if "isotropic" in spec:
             return isotropic_phase_function
 
@@ -175,6 +187,9 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         raise ValueError("Missing attribute")
 
     def parse_wavelength_mask(spec) -> Callable:
+        if isinstance(spec, (int, float)):
+            return ConstantWavelengthMask(spec)
+
         if "nanometers" in spec:
             nm = float(spec["nanometers"])
             return ConstantWavelengthMask(nm)
-- 
2.43.0


From 6bf6ea35c792d850c1be66b0c0182630dac53b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 21/49] fix: sampling a spectrum with unevenly spaced
 wavelengths weights each interval by its width

---
 pvtrace/material/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index 235ef22..ef128b6 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -51,7 +51,7 @@ class Distribution(object):
                 self._cdf = cdf
                 self._edges = np.insert(x, x.size, 2 * x[-1] - x[-2])
             else:
-                cdf = np.cumsum((y[:-1] + y[1:]) * 0.5)
+                cdf = np.cumsum((y[:-1] + y[1:]) * 0.5 * np.diff(x))
                 cdf = cdf / np.max(cdf)
                 cdf = np.hstack([0.0, cdf])
                 self._cdf = cdf
-- 
2.43.0


From 1f3de18a4f33658a0fbba1d97aee55ba32c0e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 22/49] fix: Cylinder.is_on_surface missed surface points and
 contains included them; normals near the rim

---
 pvtrace/geometry/cylinder.py | 45 ++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/pvtrace/geometry/cylinder.py b/pvtrace/geometry/cylinder.py
index 70181b8..85e8187 100644
--- a/pvtrace/geometry/cylinder.py
+++ b/pvtrace/geometry/cylinder.py
@@ -1,6 +1,6 @@
 from pvtrace.geometry.geometry import Geometry
 from pvtrace.common.errors import GeometryError
-from pvtrace.geometry.utils import angle_between, norm, close_to_zero, ray_z_cylinder
+from pvtrace.geometry.utils import angle_between, norm, ray_z_cylinder, EPS_ZERO
 import numpy as np
 import logging
 
@@ -26,24 +26,23 @@ class Cylinder(Geometry):
     def set_material(self, new_value):
         self._material = new_value
 
+    @property
+    def _tolerance(self):
+        # Rounding errors grow with the size of the shape
+        return EPS_ZERO * max(1.0, self.radius, self.length)
+
     def is_on_surface(self, point):
-        # Just use any direction for a fake ray, we only need the distance
-        _, dist = ray_z_cylinder(self.length, self.radius, point, norm((1, 1, 1)))
-        if len(dist) == 0:
-            return False
-        dist = dist[0]  # Only need closest intersection
-        if close_to_zero(dist):
-            # print("dist from point {} {} is_on_surface True".format(dist, point))
-            return True
-        # print("dist from point {} {} is_on_surface False".format(dist, point))
-        return False
+        r = np.sqrt(np.sum(np.array(point[:2]) ** 2))
+        side = r - self.radius
+        cap = np.abs(point[2]) - 0.5 * self.length
+        tol = self._tolerance
+        return bool(max(side, cap) < tol and max(side, cap) > -tol)
 
     def contains(self, point):
         z = point[2]
         r = np.sqrt(np.sum(np.array(point[:2]) ** 2))
-        if z > -0.5 * self.length and z < 0.5 * self.length and r < self.radius:
-            return True
-        return False
+        tol = self._tolerance
+        return bool(np.abs(z) < 0.5 * self.length - tol and r < self.radius - tol)
 
     def intersections(self, origin, direction):
         points, _ = ray_z_cylinder(self.length, self.radius, origin, direction)
@@ -53,16 +52,16 @@ class Cylinder(Geometry):
         """ Normal faces outwards by convention.
         """
         z = surface_point[2]
-        if np.isclose(z, -0.5 * self.length):
-            return (0.0, 0.0, -1.0)
-        elif np.isclose(z, 0.5 * self.length):
-            return (0.0, 0.0, 1.0)
-        elif np.isclose(self.radius, np.sqrt(np.sum(np.array(surface_point[:2]) ** 2))):
-            v = np.array(surface_point) - np.array([0.0, 0.0, surface_point[2]])
-            n = tuple(norm(v).tolist())
-            return n
-        else:
+        r = np.sqrt(np.sum(np.array(surface_point[:2]) ** 2))
+        half = 0.5 * self.length
+        if not (np.isclose(np.abs(z), half) or np.isclose(self.radius, r)):
             raise GeometryError("Not a surface point.")
+        # Close to the rim the point belongs to the nearer surface
+        if np.abs(np.abs(z) - half) < np.abs(r - self.radius):
+            return (0.0, 0.0, 1.0) if z > 0.0 else (0.0, 0.0, -1.0)
+        v = np.array(surface_point) - np.array([0.0, 0.0, surface_point[2]])
+        n = tuple(norm(v).tolist())
+        return n
 
     def is_entering(self, surface_point, direction) -> bool:
         """ Returns True if the ray at surface point with direction is heading 
-- 
2.43.0


From 2271855f8fc9611a967f471421d7ae82ae077dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 23/49] fix: Box.contains is exact and its surface tolerance
 grows with its size

---
 pvtrace/geometry/box.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pvtrace/geometry/box.py b/pvtrace/geometry/box.py
index d5ca672..99cd07d 100644
--- a/pvtrace/geometry/box.py
+++ b/pvtrace/geometry/box.py
@@ -43,13 +43,22 @@ class Box(Mesh):
         mesh = trimesh.creation.box(size)
         super(Box, self).__init__(mesh, material=material)
 
+    @property
+    def _tolerance(self):
+        # Rounding errors grow with the size of the shape
+        return EPS_ZERO * max(1.0, np.max(self._size))
+
+    def contains(self, point):
+        distance = np.abs(np.array(point)) - 0.5 * self._size
+        return bool(np.all(distance <= -self._tolerance))
+
     def is_on_surface(self, point):
-        on_surf, _ = on_aabb_surface(self._size, point, atol=2 * EPS_ZERO)
-        return on_surf
+        distance = np.abs(np.array(point)) - 0.5 * self._size
+        return bool(np.abs(np.max(distance)) < self._tolerance)
 
     def normal(self, surface_point: tuple) -> tuple:
         on_surf, surf_indexes = on_aabb_surface(
-            self._size, surface_point, atol=2 * EPS_ZERO
+            self._size, surface_point, atol=2 * self._tolerance
         )
         if not on_surf:
             raise GeometryError(
-- 
2.43.0


From 06cfd3a2cedfed500c15689080f8341225b179e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 24/49] fix: Sphere keeps both crossings of small spheres and
 its surface tolerance grows with its size

---
 pvtrace/geometry/sphere.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pvtrace/geometry/sphere.py b/pvtrace/geometry/sphere.py
index 45b4c4f..aa89a83 100644
--- a/pvtrace/geometry/sphere.py
+++ b/pvtrace/geometry/sphere.py
@@ -24,13 +24,18 @@ class Sphere(Geometry):
     def set_material(self, new_value):
         self._material = new_value
 
+    @property
+    def _tolerance(self):
+        # Rounding errors grow with the size of the shape
+        return EPS_ZERO * max(1.0, self.radius)
+
     def is_on_surface(self, point):
         r = np.sqrt(np.sum(np.array(point) ** 2))
-        return np.abs(r - self.radius) < EPS_ZERO
+        return np.abs(r - self.radius) < self._tolerance
 
     def contains(self, point):
         r = np.sqrt(np.sum(np.array(point) ** 2))
-        return self.radius - (r + EPS_ZERO) > 0.0
+        return self.radius - (r + self._tolerance) > 0.0
 
     def intersections(self, origin, direction):
         # Compute a, b and b coefficients
@@ -48,7 +53,7 @@ class Sphere(Geometry):
             return []
 
         # Discriminant is zero = one solution, positive == two solutions.
-        if np.isclose(discriminant, 0.0):
+        if np.isclose(discriminant, 0.0, atol=1e-14 * a * self.radius ** 2):
             t = np.array([-b / (2 * a)])
         else:
             t = np.array(
-- 
2.43.0


From 08eced85502a1dbe4a238a0acf95e96de8cddede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 25/49] fix: studio edits write numbers and names the scene
 parser reads back unchanged

---
 pvtrace/studio/server.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index e5f9de7..bccc102 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -303,8 +303,26 @@ SNIPPETS = {
 
 def _round_trip_yaml():
     from ruamel.yaml import YAML
+    from ruamel.yaml.representer import RoundTripRepresenter
+
+    class Representer(RoundTripRepresenter):
+        """Writes scalars so that PyYAML, which follows YAML 1.1 and parses the
+        document, reads back the same values (1.0e-05 not 1e-05, 'on' not on).
+        """
+
+        def represent_scalar(self, tag, value, style=None, anchor=None):
+            kind = str(tag)
+            if kind.endswith(":float") and "e" in value and "." not in value:
+                value = value.replace("e", ".0e", 1)
+            elif style is None and kind.endswith(":str"):
+                resolved = yaml.SafeLoader("").resolve(
+                    yaml.ScalarNode, str(value), (True, False))
+                if resolved != yaml.SafeLoader.DEFAULT_SCALAR_TAG:
+                    style = "'"
+            return super().represent_scalar(tag, value, style=style, anchor=anchor)
 
     ryaml = YAML()
+    ryaml.Representer = Representer
     ryaml.preserve_quotes = True
     return ryaml
 
-- 
2.43.0


From bd23da1a170e68aa2d1c9d6aedb104f5df9c9431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 26/49] fix: studio resolves files relative to the scene
 document's folder

---
 pvtrace/studio/server.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index bccc102..91e13c6 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -44,8 +44,9 @@ class NoCacheStaticFiles(StaticFiles):
 class Studio:
     """Holds the current document and its parsed scene."""
 
-    def __init__(self, document=""):
+    def __init__(self, document="", directory=None):
         self.document = document
+        self.directory = directory or os.getcwd()
         self.scene = None
         self.spec = None
 
@@ -55,13 +56,15 @@ class Studio:
         if not isinstance(spec, dict):
             raise ValueError("Document is not a YAML mapping.")
 
-        # parse() validates against the JSON schema and reads from disk
-        with tempfile.NamedTemporaryFile(
-            "w", suffix=".yml", delete=False, dir=os.getcwd()
-        ) as fp:
-            fp.write(text)
-            path = fp.name
+        # parse() validates against the JSON schema and reads from disk, and
+        # takes file names relative to the folder of the document
+        fp = tempfile.NamedTemporaryFile(
+            "w", suffix=".yml", delete=False, dir=self.directory
+        )
+        path = fp.name
         try:
+            with fp:
+                fp.write(text)
             scene = parse_scene_file(path)
         finally:
             os.unlink(path)
@@ -139,9 +142,11 @@ class Studio:
 def create_app(document_path=None):
     app = FastAPI(title="pvtrace studio")
     text = ""
+    directory = None
     if document_path:
         text = Path(document_path).read_text()
-    studio = Studio(text)
+        directory = Path(document_path).resolve().parent
+    studio = Studio(text, directory)
 
     @app.get("/")
     async def index():
-- 
2.43.0


From 37cb9aab6a4b013f682e0fc7ec98ba294e44e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 27/49] fix: a studio upload that cannot be encoded leaves no
 file behind

---
 pvtrace/studio/server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 91e13c6..f470c14 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -175,7 +175,9 @@ def create_app(document_path=None):
             return JSONResponse({"error": "Only .csv or .txt files."},
                                 status_code=422)
         target = Path(document_path).parent / name
-        target.write_text(payload["content"])
+        # Encode first, so content that cannot be saved leaves no file behind
+        content = payload["content"].encode("utf-8")
+        target.write_bytes(content)
         return {"saved": name}
 
     @app.post("/api/save")
-- 
2.43.0


From 54696002e1367bc3a5a00dff550cb3f184c4777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 28/49] fix: a new studio run replaces the one before it, keeps
 its scene and reports its errors

---
 pvtrace/engine/api.py    |  2 ++
 pvtrace/studio/server.py | 23 ++++++++++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/pvtrace/engine/api.py b/pvtrace/engine/api.py
index 3653372..ff091ac 100644
--- a/pvtrace/engine/api.py
+++ b/pvtrace/engine/api.py
@@ -254,6 +254,8 @@ def simulate_stream(scene, num_rays, bundle=50000, seed=None, **kwargs):
     same seed. Accumulate recorder tallies across bundles by summing
     the `rec_*` arrays.
     """
+    if bundle < 1:
+        raise ValueError("A bundle requires at least one ray.")
     if seed is None:
         seed = np.random.randint(0, 2 ** 31 - 1)
     traced = 0
diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index f470c14..92681a7 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -208,7 +208,17 @@ def create_app(document_path=None):
         stop = {"flag": False}
         task = None
 
-        async def run(params):
+        async def run(params, scene, stop, previous):
+            try:
+                # A new run replaces the one before it, whose last update
+                # goes out before the new run starts.
+                if previous is not None:
+                    await previous
+                await stream_run(params, scene, stop)
+            except Exception as exception:
+                await ws.send_json({"type": "error", "message": str(exception)})
+
+        async def stream_run(params, scene, stop):
             loop = asyncio.get_running_loop()
             num_rays = int(params.get("rays", 100000))
             bundle = int(params.get("bundle", 25000))
@@ -216,7 +226,7 @@ def create_app(document_path=None):
             record_every = int(params.get("record_every", 1000))
             max_paths = int(params.get("max_paths", 200))
 
-            compiled = engine.compile_scene(studio.scene)
+            compiled = engine.compile_scene(scene)
             hist_meta = _histogram_meta(compiled)
             await ws.send_json({"type": "started", "total": num_rays,
                                 "histograms": hist_meta})
@@ -230,7 +240,7 @@ def create_app(document_path=None):
             tic = time.perf_counter()
 
             stream = engine.simulate_stream(
-                studio.scene, num_rays, bundle=bundle, seed=seed,
+                scene, num_rays, bundle=bundle, seed=seed,
                 record_every=record_every,
             )
             while True:
@@ -271,8 +281,11 @@ def create_app(document_path=None):
                         await ws.send_json({"type": "error",
                                             "message": "Apply a scene first."})
                         continue
-                    stop["flag"] = False
-                    task = asyncio.create_task(run(message))
+                    stop["flag"] = True
+                    stop = {"flag": False}
+                    task = asyncio.create_task(
+                        run(message, studio.scene, stop, task)
+                    )
                 elif command == "stop":
                     stop["flag"] = True
         except WebSocketDisconnect:
-- 
2.43.0


From 1d117455a467ee514914c26cd5e61449e8bfcd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 29/49] fix: simulate LSC devices again: keep the stored rays
 and refresh counts

---
 pvtrace/device/lsc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index df5116c..5e0f610 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -342,7 +342,8 @@ class LSC(object):
 
         # Simulate can be called multiple time to append rays to the store
         if self._store is None:
-            store = {"entrance_rays": [], "exit_rays": []}
+            self._store = {"entrance_rays": [], "exit_rays": []}
+        store = self._store
 
         vis = self._renderer
         count = 0
@@ -367,7 +368,7 @@ class LSC(object):
                 count += 1
                 progress(count)
 
-        self._store = store
+        self._counts = None  # out of date
         print("Tracing finished.")
         print("Preparing results.")
         df = self._make_dataframe()
@@ -379,22 +380,23 @@ class LSC(object):
     def _make_dataframe(self):
 
         # to-do: Only need to process additional rays not whole dataframe! Optimise!
-        df = pd.DataFrame()
+        rows = []
 
         # Rays entering the scene
         for ray, event in self._store["entrance_rays"]:
             rep = asdict(ray)
             rep["kind"] = "entrance"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            rows.append(rep)
 
         # Rays exiting the scene
         for ray, event in self._store["exit_rays"]:
             rep = asdict(ray)
             rep["kind"] = "exit"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            rows.append(rep)
 
+        df = pd.DataFrame(rows)
         self._df = df
         return df
 
-- 
2.43.0


From 2d211028dd852fe4cfa5a519442b548a04dca6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 30/49] fix: LSC devices count rays absorbed without
 re-emission as lost

---
 pvtrace/device/lsc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 5e0f610..d72fbb7 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -351,9 +351,13 @@ class LSC(object):
             history = photon_tracer.follow(scene, ray, emit_method=emit_method)
             rays, events = zip(*history)
             store["entrance_rays"].append((rays[1], events[1]))
-            if events[-1] in (Event.ABSORB, Event.KILL):
+            if events[-1] == Event.KILL:
                 # final event is a lost store path information at final event
                 store["exit_rays"].append((rays[-1], events[-1]))
+            elif events[-1] in (Event.NONRADIATIVE, Event.REACT):
+                # absorbed and not emitted again. Store path information at the
+                # absorption event
+                store["exit_rays"].append((rays[-2], events[-2]))
             elif events[-1] == Event.EXIT:
                 # final event hits the world node. Store path information at
                 # penultimate location
-- 
2.43.0


From 5ad6ae1b9698645e337c4483627d51c77e44b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 31/49] fix: LSC near and far facets mean the same for solar
 cells and counts

---
 pvtrace/device/lsc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index d72fbb7..7037986 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -453,8 +453,8 @@ class LSC(object):
         zmin, zmax = -0.5 * height, 0.5 * height
         df.loc[(np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
         df.loc[(np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
-        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "far"
-        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
         df.loc[(np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
         df.loc[(np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
         return df
-- 
2.43.0


From 839fea198672e7d6092752c79ae1fc625230d61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 32/49] fix: LSC devices accept a wavelength range and
 scatterers

---
 pvtrace/device/lsc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 7037986..ce457d7 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -1,4 +1,4 @@
-from pvtrace.material.component import Absorber, Luminophore
+from pvtrace.material.component import Absorber, Luminophore, Scatterer
 from pvtrace.light.light import Light, rectangular_mask
 from pvtrace.light.event import Event
 from pvtrace.scene.node import Node
@@ -95,7 +95,8 @@ class LSC(object):
     def __init__(self, size, wavelength_range=None, n0=1.0, n1=1.5):
         super(LSC, self).__init__()
         if wavelength_range is None:
-            self.wavelength_range = np.arange(400, 800)
+            wavelength_range = np.arange(400, 800)
+        self.wavelength_range = wavelength_range
 
         self.size = size  # centimetres
         self.n0 = n0
-- 
2.43.0


From 295aa4a858e80d3c1cd362ba1c711e2a512d6b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 33/49] fix: LSC air gap mirror reflects specularly

---
 pvtrace/device/lsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index ce457d7..68e18c8 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -73,7 +73,7 @@ class AirGapMirror(FresnelSurfaceDelegate):
     def reflected_direction(self, surface, ray, geometry, container, adjacent):
         if not self.lsc._air_gap_mirror_info["lambertian"]:
             # Specular reflection
-            return super(AirGapMirror, self).transmitted_direction(
+            return super(AirGapMirror, self).reflected_direction(
                 surface, ray, geometry, container, adjacent
             )
         else:
-- 
2.43.0


From b8d2cdd654629d5ac7bb3cf31178af3b96f3f12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 34/49] fix: LSC counts leave out rays lost near a facet and
 see past the air gap mirror

---
 pvtrace/device/lsc.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 68e18c8..56281ec 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -217,6 +217,7 @@ class LSC(object):
             if light_data["rotation"]:
                 light_node.rotate(*light_data["rotation"])
 
+        self._geometry = lsc.geometry
         self._scene = Scene(world)
 
     def component_names(self):
@@ -350,7 +351,15 @@ class LSC(object):
         count = 0
         for ray in scene.emit(n):
             history = photon_tracer.follow(scene, ray, emit_method=emit_method)
-            rays, events = zip(*history)
+            # Reflections from the air gap mirror are not interactions with the LSC
+            rays, events = zip(
+                *[
+                    (ray, event)
+                    for ray, event in history
+                    if event not in (Event.REFLECT, Event.TRANSMIT)
+                    or self._geometry.is_on_surface(ray.position)
+                ]
+            )
             store["entrance_rays"].append((rays[1], events[1]))
             if events[-1] == Event.KILL:
                 # final event is a lost store path information at final event
@@ -452,12 +461,14 @@ class LSC(object):
         xmin, xmax = -0.5 * length, 0.5 * length
         ymin, ymax = -0.5 * width, 0.5 * width
         zmin, zmax = -0.5 * height, 0.5 * height
-        df.loc[(np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
-        df.loc[(np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
-        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
-        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
-        df.loc[(np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
-        df.loc[(np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
+        # Rays which missed, or were lost close to a facet, did not cross it
+        on_facet = df["event"].isin({"reflect", "transmit"})
+        df.loc[on_facet & (np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
+        df.loc[on_facet & (np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
+        df.loc[on_facet & (np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[on_facet & (np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
+        df.loc[on_facet & (np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
+        df.loc[on_facet & (np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
         return df
 
     def _make_counts(self, df):
-- 
2.43.0


From ad5be46c7eb065955cf3c0475f9e20ef07a30f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 35/49] fix: refuse subclassed geometries and components, which
 the engine would trace as their base class

---
 pvtrace/engine/compiler.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index a344980..3a6ad6e 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -212,14 +212,15 @@ class CompiledScene:
     # -- geometry ------------------------------------------------------
 
     def _compile_geometry(self, i, geometry):
-        if isinstance(geometry, Box):
+        # Subclasses may override behaviour the kernel does not know about
+        if type(geometry) is Box:
             self.geom_type[i] = GEOM_BOX
             size = np.asarray(geometry._size, dtype=np.float64)
             self.geom_params[i, :3] = size
-        elif isinstance(geometry, Sphere):
+        elif type(geometry) is Sphere:
             self.geom_type[i] = GEOM_SPHERE
             self.geom_params[i, 0] = float(geometry.radius)
-        elif isinstance(geometry, Cylinder):
+        elif type(geometry) is Cylinder:
             self.geom_type[i] = GEOM_CYLINDER
             self.geom_params[i, 0] = float(geometry.length)
             self.geom_params[i, 1] = float(geometry.radius)
@@ -255,14 +256,14 @@ class CompiledScene:
     # -- components ----------------------------------------------------
 
     def _compile_component(self, node, component, abs_x, abs_y, ems_x, ems_cdf):
-        # Order matters: Reactor < Absorber < Scatterer, Luminophore < Scatterer
-        if isinstance(component, Reactor):
+        # Subclasses may override behaviour the kernel does not know about
+        if type(component) is Reactor:
             ctype = COMP_REACTOR
-        elif isinstance(component, Absorber):
+        elif type(component) is Absorber:
             ctype = COMP_ABSORBER
-        elif isinstance(component, Luminophore):
+        elif type(component) is Luminophore:
             ctype = COMP_LUMINOPHORE
-        elif isinstance(component, Scatterer):
+        elif type(component) is Scatterer:
             ctype = COMP_SCATTERER
         else:
             raise UnsupportedSceneError(
-- 
2.43.0


From 0e81c1caaaed858ca2247fffe5a79d32acaa3f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 36/49] fix: histograms can be sampled up to their last value:
 the cumulative distribution ends at one

---
 pvtrace/material/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index ef128b6..b23ab19 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -47,7 +47,7 @@ class Distribution(object):
             self._y = y
             if hist:
                 cdf = np.cumsum(y, dtype=float)
-                cdf *= 1.0 / cdf[-1]
+                cdf /= cdf[-1]
                 self._cdf = cdf
                 self._edges = np.insert(x, x.size, 2 * x[-1] - x[-2])
             else:
-- 
2.43.0


From 01e2e5bebe08f3082550ff356806e21b2eafd097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 37/49] fix: emit bundles from subclassed lights and delegates
 as their overrides say

---
 pvtrace/engine/emit.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 339a60a..79919a0 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -20,13 +20,11 @@ def _sphere_directions(theta, phi):
 
 
 def _sample_wavelengths(delegate, n):
-    if delegate is light_module.default_wavelength or isinstance(
-        delegate, light_module.DefaultWavelength
-    ):
+    if delegate is light_module.default_wavelength or type(delegate) is light_module.DefaultWavelength:
         return np.full(n, 555.0)
-    if isinstance(delegate, light_module.ConstantWavelengthMask):
+    if type(delegate) is light_module.ConstantWavelengthMask:
         return np.full(n, delegate.nanometers)
-    if isinstance(delegate, light_module.SpectrumWavelengthMask):
+    if type(delegate) is light_module.SpectrumWavelengthMask:
         return np.asarray(
             delegate.distribution.sample(np.random.uniform(0, 1, n)), dtype=float
         )
@@ -34,23 +32,21 @@ def _sample_wavelengths(delegate, n):
 
 
 def _sample_positions(delegate, n):
-    if delegate is light_module.default_position or isinstance(
-        delegate, light_module.DefaultPosition
-    ):
+    if delegate is light_module.default_position or type(delegate) is light_module.DefaultPosition:
         return np.zeros((n, 3))
-    if isinstance(delegate, light_module.RectangularMask):
+    if type(delegate) is light_module.RectangularMask:
         return np.column_stack((
             np.random.uniform(-delegate.x, delegate.x, n),
             np.random.uniform(-delegate.y, delegate.y, n),
             np.zeros(n),
         ))
-    if isinstance(delegate, light_module.CircularMask):
+    if type(delegate) is light_module.CircularMask:
         angle = np.random.uniform(0, 2 * np.pi, n)
         radius = np.sqrt(np.random.uniform(0, 1, n)) * delegate.radius
         return np.column_stack(
             (radius * np.cos(angle), radius * np.sin(angle), np.zeros(n))
         )
-    if isinstance(delegate, light_module.CubeMask):
+    if type(delegate) is light_module.CubeMask:
         return np.column_stack((
             np.random.uniform(-delegate.x, delegate.x, n),
             np.random.uniform(-delegate.y, delegate.y, n),
@@ -60,11 +56,9 @@ def _sample_positions(delegate, n):
 
 
 def _sample_directions(delegate, n):
-    if delegate is light_module.default_direction or isinstance(
-        delegate, light_module.DefaultDirection
-    ):
+    if delegate is light_module.default_direction or type(delegate) is light_module.DefaultDirection:
         return np.tile((0.0, 0.0, 1.0), (n, 1))
-    if isinstance(delegate, Cone):
+    if type(delegate) is Cone:
         theta = np.arcsin(
             np.sqrt(np.random.uniform(0, 1, n)) * np.sin(delegate.theta_max)
         )
@@ -78,7 +72,7 @@ def _sample_directions(delegate, n):
         theta = np.arcsin(np.sqrt(np.random.uniform(0, 1, n)))
         phi = 2 * np.pi * np.random.uniform(0, 1, n)
         return _sphere_directions(theta, phi)
-    if isinstance(delegate, HenyeyGreenstein):
+    if type(delegate) is HenyeyGreenstein:
         g = delegate.g
         if abs(g) < 1e-12:
             return _sample_directions(isotropic, n)
@@ -109,12 +103,14 @@ def emit_bundle(scene, num_rays):
         if n == 0:
             continue
         light = node.light
-        wav = _sample_wavelengths(light.wavelength, n)
-        pos = _sample_positions(light.position, n)
-        direction = _sample_directions(light.direction, n)
+        wav = pos = direction = None
+        if type(light) is light_module.Light:
+            wav = _sample_wavelengths(light.wavelength, n)
+            pos = _sample_positions(light.position, n)
+            direction = _sample_directions(light.direction, n)
 
         if wav is None or pos is None or direction is None:
-            # Unknown delegate: per-ray Python fallback for this light
+            # Unknown delegate or light: per-ray Python fallback for this light
             for row, ray in zip(rows, node.emit(n)):
                 world = ray.representation(node, scene.root)
                 positions[row] = world.position
-- 
2.43.0


From a6f079265e4794cc5f87287c29adc4295c353952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 38/49] fix: Henyey-Greenstein cosines stay within [-1, 1]
 after rounding

---
 pvtrace/engine/_kernel.pyx | 4 ++++
 pvtrace/engine/emit.py     | 1 +
 pvtrace/material/utils.py  | 1 +
 3 files changed, 6 insertions(+)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 49770cc..072f9ee 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -460,6 +460,10 @@ cdef inline void sample_phase(int phase_type, double phase_param, RNG* rng, doub
         g1 = rng_uniform(rng)
         s = 2.0 * g1 - 1.0
         mu = 1.0 / (2.0 * g) * (1.0 + g * g - ((1.0 - g * g) / (1.0 + g * s)) ** 2)
+        if mu > 1.0:  # rounding
+            mu = 1.0
+        elif mu < -1.0:
+            mu = -1.0
         phi = 2.0 * M_PI * rng_uniform(rng)
         theta = acos(mu)
     elif phase_type == PHASE_CONE:
diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 79919a0..3118bb7 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -78,6 +78,7 @@ def _sample_directions(delegate, n):
             return _sample_directions(isotropic, n)
         s = 2 * np.random.uniform(0, 1, n) - 1
         mu = (1 + g * g - ((1 - g * g) / (1 + g * s)) ** 2) / (2 * g)
+        mu = np.clip(mu, -1.0, 1.0)  # rounding
         phi = 2 * np.pi * np.random.uniform(0, 1, n)
         return _sphere_directions(np.arccos(mu), phi)
     return None
diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 9b04caa..1cd4a3d 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -121,6 +121,7 @@ def henyey_greenstein(g=0.0) -> numpy.ndarray:
     p = np.random.uniform(0, 1)
     s = 2 * p - 1
     mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
+    mu = min(max(mu, -1.0), 1.0)  # rounding
     phi = 2 * np.pi * np.random.uniform()
     theta = np.arccos(mu)
     coords = spherical_to_cart(theta, phi)
-- 
2.43.0


From 6dc7f0accd2073cc6206f9ca7ef306f38e3b0c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:08 +0000
Subject: [PATCH 39/49] fix: remove the renderer's exit markers with the
 history they belong to

---
 pvtrace/scene/renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 9f9df80..9ac44df 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -309,14 +309,14 @@ class MeshcatRenderer(object):
             if baubles:
                 event = start_part[1]
                 if event in {Event.TRANSMIT}:
-                    baubid = self.get_next_identifer()
-                    vis[f"exit/{baubid}"].set_object(
+                    baubid = f"exit/{self.get_next_identifer()}"
+                    vis[baubid].set_object(
                         g.Sphere(bauble_radius),
                         g.MeshBasicMaterial(
                             color=colour, transparency=False, opacity=1
                         ),
                     )
-                    vis[f"exit/{baubid}"].set_transform(tf.translation_matrix(start))
+                    vis[baubid].set_transform(tf.translation_matrix(start))
 
                     ids.append(baubid)
 
-- 
2.43.0


From 067b09bef8d4ccc703e050a1b6ebef4eedc5cbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 40/49] fix: the renderer removes the oldest history when there
 are more than its limit

---
 pvtrace/scene/renderer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 9ac44df..56eabf6 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -39,7 +39,7 @@ class MeshcatRenderer(object):
         self.vis = meshcat.Visualizer(zmq_url=zmq_url)
         if open_browser:
             self.vis.open()
-        self.ray_histories = deque(maxlen=max_histories)
+        self.ray_histories = deque()
         self.max_histories = max_histories
         self.added_index = 0
         self.wireframe = wireframe
@@ -321,7 +321,9 @@ class MeshcatRenderer(object):
                     ids.append(baubid)
 
         self.ray_histories.append(ids)
-        if len(self.ray_histories) == self.max_histories:
+        if self.max_histories is not None and (
+            len(self.ray_histories) > self.max_histories
+        ):
             ids_to_remove = self.ray_histories.popleft()
             for id_to_remove in ids_to_remove:
                 self.remove_object(id_to_remove)
-- 
2.43.0


From 9d08595189c72bc70cf818c20d1752300c4c4620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 41/49] fix: shorten the segment which leaves the world, not
 those which end where the ray does

---
 pvtrace/scene/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 56eabf6..9a14acf 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -298,7 +298,7 @@ class MeshcatRenderer(object):
             start = start_ray.position
             end = end_ray.position
             if world_segment == "short":
-                if end_ray == history[-1][0]:
+                if end_part is history[-1] and end_part[1] == Event.EXIT:
                     end = (
                         np.array(start_ray.position)
                         + np.array(start_ray.direction) * short_length
-- 
2.43.0


From 66e8499cb9d8ab49fb14d3ab5480f7506579865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 42/49] fix: coefficient and emission lists of numbers, and
 numbers of any kind

---
 pvtrace/material/component.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index 82d3b44..cd90f0d 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -2,6 +2,7 @@
 volume include: absorption, scattering and luminescence (absorption and reemission).
 """
 from dataclasses import replace
+from numbers import Real
 from typing import Union, Optional, Callable
 import numpy as np
 from pvtrace.material.distribution import Distribution
@@ -15,6 +16,17 @@ q = 1.60217662e-19  # C
 kB = 1.380649e-23 / q  # eV K-1
 
 
+def _from_list(x, values, hist):
+    """ Distribution from a list of functions of the wavelengths `x`, which are summed,
+        or from a list of values, one for each wavelength.
+    """
+    if all(callable(value) for value in values):
+        return Distribution.from_functions(x, values, hist=hist)
+    if len(values) != len(x):
+        raise ValueError("Requires one value for each element of `x`.")
+    return Distribution(np.array(x, dtype=float), np.array(values, dtype=float), hist=hist)
+
+
 class Component(object):
     """ Base class for all things that can be added to a host material.
     """
@@ -107,8 +119,8 @@ class Scatterer(Component):
         self._coefficient = coefficient
         if coefficient is None:
             raise ValueError("Coefficient must be specified.")
-        elif isinstance(coefficient, (float,)):
-            self._abs_dist = Distribution(x=None, y=coefficient, hist=hist)
+        elif isinstance(coefficient, Real):
+            self._abs_dist = Distribution(x=None, y=float(coefficient), hist=hist)
         elif isinstance(coefficient, np.ndarray):
             self._abs_dist = Distribution(
                 x=coefficient[:, 0], y=coefficient[:, 1], hist=hist
@@ -116,7 +128,9 @@ class Scatterer(Component):
         elif isinstance(coefficient, (list, tuple)):
             if x is None:
                 raise ValueError("Requires `x`.")
-            self._abs_dist = Distribution.from_functions(x, coefficient, hist=hist)
+            self._abs_dist = _from_list(x, coefficient, hist)
+        else:
+            raise ValueError("`coefficient` arg has wrong type.")
 
         # Force specification of either `quantum_yield` or both `tau_rad` and `tau_nr`
         qy = np.nan
@@ -374,7 +388,7 @@ class Luminophore(Scatterer):
         elif isinstance(emission, (tuple, list)):
             if x is None:
                 raise ValueError("Requires `x`.")
-            self._ems_dist = Distribution.from_functions(x, emission, hist=hist)
+            self._ems_dist = _from_list(x, emission, hist)
         else:
             raise ValueError("Luminophore `emission` arg has wrong type.")
 
-- 
2.43.0


From bc42b2272d5a5c3962aaf4754c2c9e4e87f21410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:56 +0000
Subject: [PATCH 43/49] fix: rays at the critical angle keep a direction

---
 pvtrace/engine/_kernel.pyx | 5 +++--
 pvtrace/material/utils.py  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 072f9ee..5c0201a 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -410,7 +410,8 @@ cdef inline double fresnel_reflectivity(double angle, double n1, double n2) noex
         return 1.0
     c = cos(angle)
     s = sin(angle)
-    k = sqrt(1.0 - (n1 / n2 * s) ** 2)
+    # Rounding can take this below zero at the critical angle
+    k = sqrt(max(0.0, 1.0 - (n1 / n2 * s) ** 2))
     rs1 = n1 * c - n2 * k
     rs2 = n1 * c + n2 * k
     rs = (rs1 / rs2) ** 2
@@ -438,7 +439,7 @@ cdef inline void fresnel_refract(double* d, double* normal, double n1, double n2
     """`normal` must already be flipped to point along the ray direction."""
     cdef double n = n1 / n2
     cdef double dd = dot3(d, normal)
-    cdef double c = sqrt(1.0 - n * n * (1.0 - dd * dd))
+    cdef double c = sqrt(max(0.0, 1.0 - n * n * (1.0 - dd * dd)))
     cdef double sign = 1.0
     cdef int i
     if dd < 0.0:
diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 1cd4a3d..7bca520 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -11,7 +11,8 @@ def fresnel_reflectivity(angle, n1, n2):
         return 1.0
     c = np.cos(angle)
     s = np.sin(angle)
-    k = np.sqrt(1 - (n1 / n2 * s) ** 2)
+    # Rounding can take this below zero at the critical angle
+    k = np.sqrt(max(0.0, 1 - (n1 / n2 * s) ** 2))
     Rs1 = n1 * c - n2 * k
     Rs2 = n1 * c + n2 * k
     Rs = (Rs1 / Rs2) ** 2
@@ -37,7 +38,7 @@ def fresnel_refraction(direction, normal, n1, n2):
     normal = np.array(normal)
     n = n1 / n2
     dot = np.dot(vector, normal)
-    c = np.sqrt(1 - n ** 2 * (1 - dot ** 2))
+    c = np.sqrt(max(0.0, 1 - n ** 2 * (1 - dot ** 2)))
     sign = 1
     if dot < 0.0:
         sign = -1
-- 
2.43.0


From 94e3397c9270961f740eb33b4a68fac61dab99fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 44/49] fix: the engine takes the nearer surface for cylinder
 hits close to the rim

---
 pvtrace/engine/_kernel.pyx | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 5c0201a..7d7ccd0 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -385,17 +385,13 @@ cdef inline void local_normal(SceneT* S, int node, double* p, double* out) noexc
         out[2] = p[2] / mag
     else:
         half = 0.5 * params[0]
-        # np.isclose default tolerances
-        if fabs(p[2] + half) <= 1e-8 + 1e-5 * fabs(half):
+        r = sqrt(p[0] * p[0] + p[1] * p[1])
+        # Close to the rim the point belongs to the nearer surface
+        if fabs(fabs(p[2]) - half) < fabs(r - params[1]):
             out[0] = 0.0
             out[1] = 0.0
-            out[2] = -1.0
-        elif fabs(p[2] - half) <= 1e-8 + 1e-5 * fabs(half):
-            out[0] = 0.0
-            out[1] = 0.0
-            out[2] = 1.0
+            out[2] = 1.0 if p[2] > 0.0 else -1.0
         else:
-            r = sqrt(p[0] * p[0] + p[1] * p[1])
             out[0] = p[0] / r
             out[1] = p[1] / r
             out[2] = 0.0
-- 
2.43.0


From 10bf368f01e3d1675ad4a873a8e4cb3798ab79c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:27 +0000
Subject: [PATCH 45/49] fix: rays cross a surface once, however large the
 scene's coordinates

---
 pvtrace/algorithm/photon_tracer.py | 12 ++++++++++--
 pvtrace/engine/_kernel.pyx         | 15 +++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index afd3153..26ba47c 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -57,6 +57,12 @@ def find_container(intersections):
     return container
 
 
+def distance_resolution(point):
+    """ Distances shorter than this are rounding errors of the coordinates of `point`.
+    """
+    return EPS_ZERO * max(1.0, np.linalg.norm(point))
+
+
 def next_hit(scene, ray):
     """Returns information about the next interface the ray makes with the scene.
 
@@ -81,7 +87,8 @@ def next_hit(scene, ray):
     intersections = scene.intersections(ray.position, ray.direction)
 
     # Remove on surface intersections
-    intersections = [x for x in intersections if not close_to_zero(x.distance)]
+    resolution = distance_resolution(ray.position)
+    intersections = [x for x in intersections if x.distance >= resolution]
 
     # Convert intersection points to world node
     intersections = [x.to(scene.root) for x in intersections]
@@ -106,10 +113,11 @@ def next_hit(scene, ray):
         # Leaving the container: the adjacent node is the one which contains the
         # ray beyond this interface. The next intersection is not necessarily with
         # that node; it may be with another node further along the ray.
+        resolution = distance_resolution(point)
         beyond = [
             x
             for x in intersections[1:]
-            if x.distance > hit.distance and not close_to_zero(x.distance - hit.distance)
+            if x.distance - hit.distance >= resolution
         ]
         count = collections.Counter(x.hit for x in beyond)
         candidates = [x.hit for x in beyond if count[x.hit] == 1]
diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 7d7ccd0..9eb5ad2 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -357,6 +357,11 @@ cdef inline int intersect_node(SceneT* S, int node, double* o, double* d, double
         return intersect_cylinder(params, o, d, ts)
 
 
+cdef inline double distance_resolution(double* p) noexcept nogil:
+    """Distances shorter than this are rounding errors of the coordinates of `p`."""
+    return EPS * max(1.0, sqrt(dot3(p, p)))
+
+
 cdef inline void local_normal(SceneT* S, int node, double* p, double* out) noexcept nogil:
     """Outward surface normal at local point `p`."""
     cdef int gtype = S.geom_type[node]
@@ -640,7 +645,7 @@ cdef int trace_one(
     cdef double new_dir[3]
 
     cdef int hit, container, adjacent, first, second
-    cdef double t0, t1, best
+    cdef double t0, t1, best, resolution
     cdef double n_container, n1, n2, alpha, depth, u, r, angle, ddot
     cdef int comp, cbase, ccount, ctype
     cdef double total, target, running
@@ -667,6 +672,7 @@ cdef int trace_one(
 
         # --- next_hit: intersect every node ---------------------------
         nhits = 0
+        resolution = distance_resolution(pos)
         for node in range(S.n_nodes):
             node_hits[node] = 0
             node_min_t[node] = INFINITY
@@ -674,6 +680,8 @@ cdef int trace_one(
             transform_vector(S.w2l + node * 16, direction, local_d)
             nlocal = intersect_node(S, node, local_o, local_d, ts)
             for k in range(nlocal):
+                if ts[k] < resolution:
+                    continue
                 if nhits < MAX_HITS:
                     hit_t[nhits] = ts[k]
                     hit_node[nhits] = node
@@ -718,8 +726,11 @@ cdef int trace_one(
                 for node in range(S.n_nodes):
                     node_hits[node] = 0
                     node_min_t[node] = INFINITY
+                for i in range(3):
+                    local_p[i] = pos[i] + t0 * direction[i]
+                resolution = distance_resolution(local_p)
                 for i in range(nhits):
-                    if hit_t[i] - t0 > EPS:
+                    if hit_t[i] - t0 >= resolution:
                         node_hits[hit_node[i]] += 1
                         if hit_t[i] < node_min_t[hit_node[i]]:
                             node_min_t[hit_node[i]] = hit_t[i]
-- 
2.43.0


From fb8811c79a7496f5a51ce9a07b4f83ce932e32dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:38 +0000
Subject: [PATCH 46/49] fix: rays inside concave meshes are attributed to the
 mesh

---
 pvtrace/algorithm/photon_tracer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index 26ba47c..706e42c 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -43,8 +43,10 @@ def find_container(intersections):
     """
     if len(intersections) == 1:
         return intersections[0].hit
+    # A surface around the ray is crossed an odd number of times: once, or more
+    # often when the shape is not convex
     count = collections.Counter([x.hit for x in intersections]).most_common()
-    candidates = [x[0] for x in count if x[1] == 1]
+    candidates = [x[0] for x in count if x[1] % 2 == 1]
     pairs = []
     for intersection in intersections:
         node = intersection.hit
@@ -120,7 +122,7 @@ def next_hit(scene, ray):
             if x.distance - hit.distance >= resolution
         ]
         count = collections.Counter(x.hit for x in beyond)
-        candidates = [x.hit for x in beyond if count[x.hit] == 1]
+        candidates = [x.hit for x in beyond if count[x.hit] % 2 == 1]
         adjacent = candidates[0] if candidates else intersections[1].hit
     else:
         adjacent = hit_node
-- 
2.43.0


From f4ec01d49b1242f293a3a61a575fb26a23b9ef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 47/49] fix: spectra with any value which is not finite are
 refused

---
 pvtrace/material/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index b23ab19..d82d418 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -33,9 +33,9 @@ class Distribution(object):
             self._x = None
             self._y = y
         else:
-            if not np.all(np.diff(x) > 0):
+            if not (np.isfinite(x).all() and np.all(np.diff(x) > 0)):
                 raise ValueError("x must be sorted and ascending.")
-            if not np.isfinite(y).any():
+            if not np.isfinite(y).all():
                 raise ValueError("All values of y must be finite.")
             if np.any(y < 0.0):
                 raise ValueError(
-- 
2.43.0


From 7f1bd64528433d67828e2b502ce9a75f8099b295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:14 +0000
Subject: [PATCH 48/49] fix: luminophores which emit at no wavelength are
 refused

---
 pvtrace/material/component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index cd90f0d..34b679e 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -391,6 +391,8 @@ class Luminophore(Scatterer):
             self._ems_dist = _from_list(x, emission, hist)
         else:
             raise ValueError("Luminophore `emission` arg has wrong type.")
+        if not np.any(self._ems_dist._y > 0.0):
+            raise ValueError("Luminophore `emission` must not be zero everywhere.")
 
     def emit(self, ray: Ray, method="kT", T=300.0, **kwargs) -> Ray:
         """ Change ray direction or wavelength based on physics of the interaction.
-- 
2.43.0


From eed26c34ff7524ef00ce278b2253adc3e99990f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:54 +0000
Subject: [PATCH 49/49] fix: an absorber whose lifetime is zero divided by zero

---
 pvtrace/material/component.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index 34b679e..429523c 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -135,7 +135,8 @@ class Scatterer(Component):
         # Force specification of either `quantum_yield` or both `tau_rad` and `tau_nr`
         qy = np.nan
         if tau_rad is not None and tau_nr is not None:
-            qy = tau_nr / (tau_nr + tau_rad)
+            if tau_nr + tau_rad > 0.0:
+                qy = tau_nr / (tau_nr + tau_rad)
         elif quantum_yield is not None:
             qy = quantum_yield
 
@@ -231,7 +232,7 @@ class Absorber(Scatterer):
             x=x,
             quantum_yield=0.0,
             tau_nr=tau_nr,
-            tau_rad=0.0,
+            tau_rad=None,
             phase_function=None,
             hist=hist,
             name=name,
-- 
2.43.0

