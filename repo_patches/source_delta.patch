From 10a9eafff49a6b70d5c70561778b30b78329c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 01/44] fix: resolve neighbour ranks from the global map in 3D

init_neighbor_rank_3d ignored the patch_rank_map it is given and indexed the
local patch list with global patch indices, so a 3D moving window on more than
one rank raised IndexError or recorded wrong neighbour ranks.
---
 src/lambdapic/core/patch/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/core/patch/patch.py b/src/lambdapic/core/patch/patch.py
index 0b666d8..b5fcd44 100644
--- a/src/lambdapic/core/patch/patch.py
+++ b/src/lambdapic/core/patch/patch.py
@@ -633,7 +633,7 @@ class Patches:
             for bound in Boundary3D:
                 neighbor_index = p.neighbor_index[bound]
                 if neighbor_index >= 0:
-                    neighbor_rank = self.patches[neighbor_index].rank
+                    neighbor_rank = patch_rank_map[neighbor_index]
                     if neighbor_rank != p.rank:
                         p.set_neighbor_rank(**{bound.name.lower(): neighbor_rank})
 
-- 
2.43.0


From d6078b8a4b7df46570a91c28b74a6433630eecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 02/44] fix: never leave a rank without patches

METIS returns empty parts when patch weights are very uneven (e.g. two patches
with loads 8 and 1008 on two ranks), after which the empty rank crashes or the
run hangs. Give every empty rank one patch of the most loaded rank.
---
 src/lambdapic/core/patch/metis.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/lambdapic/core/patch/metis.py b/src/lambdapic/core/patch/metis.py
index 553b79b..445ad32 100644
--- a/src/lambdapic/core/patch/metis.py
+++ b/src/lambdapic/core/patch/metis.py
@@ -17,6 +17,8 @@ def compute_rank(patches: Patches, nrank: int, weights: NDArray[np.int64], rank_
 
     ncut, ranks = pymetis.part_graph(nrank, adjacency=adjacency_list, vweights=weights.astype(np.int64), options=opt)
 
+    ranks = fill_empty_ranks(ranks, nrank, weights)
+
     npatch = len(patches)
     if rank_prev is None:
         rank_prev = np.zeros(npatch, dtype=int)
@@ -42,6 +44,26 @@ def compute_rank(patches: Patches, nrank: int, weights: NDArray[np.int64], rank_
     return ranks, npatch_per_rank
 
 
+def fill_empty_ranks(ranks, nrank: int, weights: NDArray) -> NDArray[np.int64]:
+    """
+    METIS leaves parts empty when the weights are very uneven, while every rank
+    needs at least one patch. Give each empty rank the heaviest patch of the most
+    loaded rank which can spare one.
+    """
+    ranks = np.array(ranks, dtype=np.int64)
+    weights = np.asarray(weights)
+    for empty in range(nrank):
+        if np.any(ranks == empty):
+            continue
+        spare = [r for r in range(nrank) if np.count_nonzero(ranks == r) > 1]
+        if not spare:
+            break
+        donor = max(spare, key=lambda r: weights[ranks == r].sum())
+        members = np.flatnonzero(ranks == donor)
+        ranks[members[np.argmax(weights[members])]] = empty
+    return ranks
+
+
 def arg_sort_rows_by_diagonal_max(matrix) -> np.ndarray:
     # sort according to the max value of each row
     # larger value first
-- 
2.43.0


From 76e2d304726167717a58798787ae3f7d9fb833f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 03/44] fix: do not lose particles that cross a patch face by
 rounding

Neighbouring patches round their common face differently. A particle between
the two values was moved to the neighbour without periodic shift or was marked
dead there.
---
 src/lambdapic/core/mpi/sync_particles_2d.c   |  6 ++-
 src/lambdapic/core/mpi/sync_particles_3d.c   |  6 ++-
 src/lambdapic/core/patch/sync_particles_2d.c | 35 ++++++++++++++++-
 src/lambdapic/core/patch/sync_particles_3d.c | 40 +++++++++++++++++++-
 4 files changed, 79 insertions(+), 8 deletions(-)

diff --git a/src/lambdapic/core/mpi/sync_particles_2d.c b/src/lambdapic/core/mpi/sync_particles_2d.c
index 8db2d0d..d79695c 100644
--- a/src/lambdapic/core/mpi/sync_particles_2d.c
+++ b/src/lambdapic/core/mpi/sync_particles_2d.c
@@ -194,12 +194,14 @@ static void handle_periodic(
     double min_patch, double max_patch,
     double cell_size
 ) {
+    // the sender may have rounded the boundary differently
+    const double tol = 1e-9 * cell_size;
     double coord = buffer[ibuff];
     
-    if (coord > max_global && fabs(min_patch - min_global) < cell_size) {
+    if (coord > max_global - tol && fabs(min_patch - min_global) < cell_size) {
         buffer[ibuff] -= L;
     }
-    if (coord < min_global && fabs(max_patch - max_global) < cell_size) {
+    if (coord < min_global + tol && fabs(max_patch - max_global) < cell_size) {
         buffer[ibuff] += L;
     }
 }
diff --git a/src/lambdapic/core/mpi/sync_particles_3d.c b/src/lambdapic/core/mpi/sync_particles_3d.c
index 286c647..13e7499 100644
--- a/src/lambdapic/core/mpi/sync_particles_3d.c
+++ b/src/lambdapic/core/mpi/sync_particles_3d.c
@@ -332,12 +332,14 @@ static void handle_periodic(
     double min_patch, double max_patch,
     double cell_size
 ) {
+    // the sender may have rounded the boundary differently
+    const double tol = 1e-9 * cell_size;
     double coord = buffer[ibuff];
     
-    if (coord > max_global && fabs(min_patch - min_global) < cell_size) {
+    if (coord > max_global - tol && fabs(min_patch - min_global) < cell_size) {
         buffer[ibuff] -= L;
     }
-    if (coord < min_global && fabs(max_patch - max_global) < cell_size) {
+    if (coord < min_global + tol && fabs(max_patch - max_global) < cell_size) {
         buffer[ibuff] += L;
     }
 }
diff --git a/src/lambdapic/core/patch/sync_particles_2d.c b/src/lambdapic/core/patch/sync_particles_2d.c
index e661380..cad67c1 100644
--- a/src/lambdapic/core/patch/sync_particles_2d.c
+++ b/src/lambdapic/core/patch/sync_particles_2d.c
@@ -171,16 +171,37 @@ static void handle_periodic(
     double min_patch, double max_patch,
     double cell_size
 ) {
+    // the sender may have rounded the boundary differently
+    const double tol = 1e-9 * cell_size;
     double coord = buffer[ibuff];
     
-    if (coord > max_global && fabs(min_patch - min_global) < cell_size) {
+    if (coord > max_global - tol && fabs(min_patch - min_global) < cell_size) {
         buffer[ibuff] -= L;
     }
-    if (coord < min_global && fabs(max_patch - max_global) < cell_size) {
+    if (coord < min_global + tol && fabs(max_patch - max_global) < cell_size) {
         buffer[ibuff] += L;
     }
 }
 
+// Neighbouring patches may round their common face differently, and so may the
+// periodic shift. Put a received particle that is outside by rounding only back
+// onto the face, or it would be marked as dead by its new patch.
+static void snap_to_patch(
+    double* buffer, npy_intp ibuff,
+    double min_patch, double max_patch,
+    double cell_size
+) {
+    const double tol = 1e-9 * cell_size;
+    double coord = buffer[ibuff];
+
+    if (coord < min_patch && min_patch - coord < tol) {
+        buffer[ibuff] = min_patch;
+    }
+    if (coord > max_patch && coord - max_patch < tol) {
+        buffer[ibuff] = max_patch;
+    }
+}
+
 // Mark out-of-bound particles as dead
 static void mark_out_of_bound_as_dead(
     double *x, double *y, npy_bool *is_dead, npy_intp npart, 
@@ -479,6 +500,11 @@ PyObject* fill_particles_from_boundary_2d(PyObject* self, PyObject* args) {
                                 xmin_list[ipatch], xmax_list[ipatch],
                                 dx
                             );
+                            snap_to_patch(
+                                buffer, ibuff*nattrs+iattr,
+                                xmin_list[ipatch], xmax_list[ipatch],
+                                dx
+                            );
                         }
                         if (iattr == iattr_y) {
                             handle_periodic(
@@ -487,6 +513,11 @@ PyObject* fill_particles_from_boundary_2d(PyObject* self, PyObject* args) {
                                 ymin_list[ipatch], ymax_list[ipatch],
                                 dy
                             );
+                            snap_to_patch(
+                                buffer, ibuff*nattrs+iattr,
+                                ymin_list[ipatch], ymax_list[ipatch],
+                                dy
+                            );
                         }
                         attrs_list[ipatch*nattrs + iattr][ipart] = buffer[ibuff*nattrs+iattr];
                     }
diff --git a/src/lambdapic/core/patch/sync_particles_3d.c b/src/lambdapic/core/patch/sync_particles_3d.c
index bbe3d05..af53da1 100644
--- a/src/lambdapic/core/patch/sync_particles_3d.c
+++ b/src/lambdapic/core/patch/sync_particles_3d.c
@@ -322,6 +322,25 @@ static void fill_boundary_particles_to_buffer(
     }
 }
 
+// Neighbouring patches may round their common face differently, and so may the
+// periodic shift. Put a received particle that is outside by rounding only back
+// onto the face, or it would be marked as dead by its new patch.
+static void snap_to_patch(
+    double* buffer, npy_intp ibuff,
+    double min_patch, double max_patch,
+    double cell_size
+) {
+    const double tol = 1e-9 * cell_size;
+    double coord = buffer[ibuff];
+
+    if (coord < min_patch && min_patch - coord < tol) {
+        buffer[ibuff] = min_patch;
+    }
+    if (coord > max_patch && coord - max_patch < tol) {
+        buffer[ibuff] = max_patch;
+    }
+}
+
 // Mark out-of-bound particles as dead
 static void mark_out_of_bound_as_dead(
     double *x, double *y, double *z, npy_bool *is_dead, npy_intp npart, 
@@ -352,12 +371,14 @@ static void handle_periodic(
     double min_patch, double max_patch,
     double cell_size
 ) {
+    // the sender may have rounded the boundary differently
+    const double tol = 1e-9 * cell_size;
     double coord = buffer[ibuff];
     
-    if (coord > max_global && fabs(min_patch - min_global) < cell_size) {
+    if (coord > max_global - tol && fabs(min_patch - min_global) < cell_size) {
         buffer[ibuff] -= L;
     }
-    if (coord < min_global && fabs(max_patch - max_global) < cell_size) {
+    if (coord < min_global + tol && fabs(max_patch - max_global) < cell_size) {
         buffer[ibuff] += L;
     }
 }
@@ -646,6 +667,11 @@ PyObject* fill_particles_from_boundary_3d(PyObject* self, PyObject* args) {
                                 xmin_list[ipatch], xmax_list[ipatch],
                                 dx
                             );
+                            snap_to_patch(
+                                buffer, ibuff*nattrs+iattr,
+                                xmin_list[ipatch], xmax_list[ipatch],
+                                dx
+                            );
                         }
                         if (iattr == iattr_y) {
                             handle_periodic(
@@ -654,6 +680,11 @@ PyObject* fill_particles_from_boundary_3d(PyObject* self, PyObject* args) {
                                 ymin_list[ipatch], ymax_list[ipatch],
                                 dy
                             );
+                            snap_to_patch(
+                                buffer, ibuff*nattrs+iattr,
+                                ymin_list[ipatch], ymax_list[ipatch],
+                                dy
+                            );
                         }
                         if (iattr == iattr_z) {
                             handle_periodic(
@@ -662,6 +693,11 @@ PyObject* fill_particles_from_boundary_3d(PyObject* self, PyObject* args) {
                                 zmin_list[ipatch], zmax_list[ipatch],
                                 dz
                             );
+                            snap_to_patch(
+                                buffer, ibuff*nattrs+iattr,
+                                zmin_list[ipatch], zmax_list[ipatch],
+                                dz
+                            );
                         }
                         attrs_list[ipatch*nattrs + iattr][ipart] = buffer[ibuff*nattrs+iattr];
                     }
-- 
2.43.0


From 15aa4f290b7c68cb6ca0764f981fe80a459f3332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 04/44] fix: put particles received from other processes back
 onto the face

The same rounding of patch faces applies to particles exchanged over MPI.
---
 src/lambdapic/core/mpi/sync_particles_2d.c | 29 ++++++++++++++++++
 src/lambdapic/core/mpi/sync_particles_3d.c | 34 ++++++++++++++++++++++
 2 files changed, 63 insertions(+)

diff --git a/src/lambdapic/core/mpi/sync_particles_2d.c b/src/lambdapic/core/mpi/sync_particles_2d.c
index d79695c..68a3cd0 100644
--- a/src/lambdapic/core/mpi/sync_particles_2d.c
+++ b/src/lambdapic/core/mpi/sync_particles_2d.c
@@ -206,6 +206,25 @@ static void handle_periodic(
     }
 }
 
+// Neighbouring patches may round their common face differently, and so may the
+// periodic shift. Put a received particle that is outside by rounding only back
+// onto the face, or the exchange within the new process would drop it.
+static void snap_to_patch(
+    double* buffer, npy_intp ibuff,
+    double min_patch, double max_patch,
+    double cell_size
+) {
+    const double tol = 1e-9 * cell_size;
+    double coord = buffer[ibuff];
+
+    if (coord < min_patch && min_patch - coord < tol) {
+        buffer[ibuff] = min_patch;
+    }
+    if (coord > max_patch && coord - max_patch < tol) {
+        buffer[ibuff] = max_patch;
+    }
+}
+
 
 /* ------------------------------------------------------------------ */
 /* Handle struct for split _start/_wait particle fill                  */
@@ -538,6 +557,11 @@ static PyObject* fill_particles_from_boundary_2d_wait(PyObject* self, PyObject*
                             h->xmin_list[ipatch], h->xmax_list[ipatch],
                             h->dx
                         );
+                        snap_to_patch(
+                            buffer, ibuff*h->nattrs+iattr,
+                            h->xmin_list[ipatch], h->xmax_list[ipatch],
+                            h->dx
+                        );
                     }
                     if (iattr == h->iattr_y) {
                         handle_periodic(
@@ -546,6 +570,11 @@ static PyObject* fill_particles_from_boundary_2d_wait(PyObject* self, PyObject*
                             h->ymin_list[ipatch], h->ymax_list[ipatch],
                             h->dy
                         );
+                        snap_to_patch(
+                            buffer, ibuff*h->nattrs+iattr,
+                            h->ymin_list[ipatch], h->ymax_list[ipatch],
+                            h->dy
+                        );
                     }
                     h->attrs_list[ipatch*h->nattrs + iattr][ipart] = buffer[ibuff*h->nattrs + iattr];
                 }
diff --git a/src/lambdapic/core/mpi/sync_particles_3d.c b/src/lambdapic/core/mpi/sync_particles_3d.c
index 13e7499..fa721bf 100644
--- a/src/lambdapic/core/mpi/sync_particles_3d.c
+++ b/src/lambdapic/core/mpi/sync_particles_3d.c
@@ -344,6 +344,25 @@ static void handle_periodic(
     }
 }
 
+// Neighbouring patches may round their common face differently, and so may the
+// periodic shift. Put a received particle that is outside by rounding only back
+// onto the face, or the exchange within the new process would drop it.
+static void snap_to_patch(
+    double* buffer, npy_intp ibuff,
+    double min_patch, double max_patch,
+    double cell_size
+) {
+    const double tol = 1e-9 * cell_size;
+    double coord = buffer[ibuff];
+
+    if (coord < min_patch && min_patch - coord < tol) {
+        buffer[ibuff] = min_patch;
+    }
+    if (coord > max_patch && coord - max_patch < tol) {
+        buffer[ibuff] = max_patch;
+    }
+}
+
 
 /* ------------------------------------------------------------------ */
 /* Handle struct for split _start/_wait particle fill                  */
@@ -695,6 +714,11 @@ static PyObject* fill_particles_from_boundary_3d_wait(PyObject* self, PyObject*
                             h->xmin_list[ipatch], h->xmax_list[ipatch],
                             h->dx
                         );
+                        snap_to_patch(
+                            buffer, ibuff*h->nattrs+iattr,
+                            h->xmin_list[ipatch], h->xmax_list[ipatch],
+                            h->dx
+                        );
                     }
                     if (iattr == h->iattr_y) {
                         handle_periodic(
@@ -703,6 +727,11 @@ static PyObject* fill_particles_from_boundary_3d_wait(PyObject* self, PyObject*
                             h->ymin_list[ipatch], h->ymax_list[ipatch],
                             h->dy
                         );
+                        snap_to_patch(
+                            buffer, ibuff*h->nattrs+iattr,
+                            h->ymin_list[ipatch], h->ymax_list[ipatch],
+                            h->dy
+                        );
                     }
                     if (iattr == h->iattr_z) {
                         handle_periodic(
@@ -711,6 +740,11 @@ static PyObject* fill_particles_from_boundary_3d_wait(PyObject* self, PyObject*
                             h->zmin_list[ipatch], h->zmax_list[ipatch],
                             h->dz
                         );
+                        snap_to_patch(
+                            buffer, ibuff*h->nattrs+iattr,
+                            h->zmin_list[ipatch], h->zmax_list[ipatch],
+                            h->dz
+                        );
                     }
                     h->attrs_list[ipatch*h->nattrs + iattr][ipart] = buffer[ibuff*h->nattrs + iattr];
                 }
-- 
2.43.0


From 6e833d3df2dd4c98ec713d18203c229d68d549fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 05/44] fix: combine the absorbing layers on both ends of one
 patch

With one patch across an open axis in 3D, kappa of the second layer replaced
that of the first, whose auxiliary currents then no longer matched.
---
 src/lambdapic/core/maxwell/solver/solver.py | 28 ++++++---------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/lambdapic/core/maxwell/solver/solver.py b/src/lambdapic/core/maxwell/solver/solver.py
index 147690b..5602b3f 100644
--- a/src/lambdapic/core/maxwell/solver/solver.py
+++ b/src/lambdapic/core/maxwell/solver/solver.py
@@ -5,8 +5,7 @@ from scipy.constants import c, e, epsilon_0, mu_0
 
 from ...utils.pickle_list import PickleableTypedList
 
-from ...boundary.cpml import (PMLX, PMLY, PMLZ,
-                             update_bfield_cpml_patches_2d,
+from ...boundary.cpml import (update_bfield_cpml_patches_2d,
                              update_efield_cpml_patches_2d,
                              update_bfield_cpml_patches_3d,
                              update_efield_cpml_patches_3d)
@@ -86,24 +85,13 @@ class MaxwellSolver(PickleableTypedList):
         self.kappa_bz_list = typed.List()
 
         for p in self.patches_pml_boundary:
-            kappa_ex = p.pml_boundary[0].kappa_ex
-            kappa_ey = p.pml_boundary[0].kappa_ey
-            kappa_ez = p.pml_boundary[0].kappa_ez
-            kappa_bx = p.pml_boundary[0].kappa_bx
-            kappa_by = p.pml_boundary[0].kappa_by
-            kappa_bz = p.pml_boundary[0].kappa_bz
-
-            # Populate kappa values from PML boundaries
-            for pml in p.pml_boundary:
-                if isinstance(pml, PMLX):
-                    kappa_ex = pml.kappa_ex
-                    kappa_bx = pml.kappa_bx
-                elif isinstance(pml, PMLY):
-                    kappa_ey = pml.kappa_ey
-                    kappa_by = pml.kappa_by
-                elif isinstance(pml, PMLZ):
-                    kappa_ez = pml.kappa_ez
-                    kappa_bz = pml.kappa_bz
+            # kappa is one outside the layer, so layers on both ends of an axis combine
+            kappa_ex = np.prod([pml.kappa_ex for pml in p.pml_boundary], axis=0)
+            kappa_ey = np.prod([pml.kappa_ey for pml in p.pml_boundary], axis=0)
+            kappa_ez = np.prod([pml.kappa_ez for pml in p.pml_boundary], axis=0)
+            kappa_bx = np.prod([pml.kappa_bx for pml in p.pml_boundary], axis=0)
+            kappa_by = np.prod([pml.kappa_by for pml in p.pml_boundary], axis=0)
+            kappa_bz = np.prod([pml.kappa_bz for pml in p.pml_boundary], axis=0)
 
             self.kappa_ex_list.append(kappa_ex)
             self.kappa_ey_list.append(kappa_ey)
-- 
2.43.0


From d68f918adcb19135c93339f1afa43fc6bb5f8777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 06/44] fix: leave the main loop on all ranks together

---
 src/lambdapic/simulation/simulation.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index a36f7a8..5b68e20 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -1121,16 +1121,19 @@ class Simulation:
                 stage_callbacks.run('maxwell_2')
                 stage_callbacks.run('end')
         
-            if restart_cb and restart_cb._dump_requested:
+            if restart_cb and self._requested_on_any_rank(restart_cb._dump_requested):
                 pbar.close()
                 restart_cb._call(self)
+                restart_cb._dump_requested = False
+                self.time += self.dt
+                self.itime += 1
                 return
             
             self.time += self.dt
             self.itime += 1
 
 
-            if stop_callback():
+            if self._requested_on_any_rank(stop_callback()):
                 pbar.close()
                 return "stop by callback"
 
@@ -1187,6 +1190,16 @@ class Simulation:
         self._current_sync_handle = None
         self.current_synced = True
 
+    def _requested_on_any_rank(self, requested: bool) -> bool:
+        """Whether any rank requested to leave the main loop.
+
+        Signals and file changes reach the ranks at different times. All ranks
+        must leave in the same step, or the others wait for them forever.
+        """
+        if self.mpi.size == 1:
+            return bool(requested)
+        return bool(self.mpi.comm.allreduce(int(bool(requested))))
+
     def _handle_nsteps(self, nsteps, sim_time):
         if nsteps is not None and sim_time is not None:
             raise ValueError("Cannot specify both nsteps and sim_time in run() method")
-- 
2.43.0


From 299ca6d2ca366146afbeb609afbcc47001a22e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 07/44] fix: push positions in 3D when the stages run
 separately

---
 src/lambdapic/core/pusher/cpu.py    | 41 ++++++++++++++++++++++++++++-
 src/lambdapic/core/pusher/pusher.py | 12 ++++++++-
 2 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/pusher/cpu.py b/src/lambdapic/core/pusher/cpu.py
index 35a5824..1fae570 100644
--- a/src/lambdapic/core/pusher/cpu.py
+++ b/src/lambdapic/core/pusher/cpu.py
@@ -88,4 +88,43 @@ def push_position_patches_2d(
 
         is_dead = is_dead_list[ipatch]
         npart = len(is_dead)
-        push_position_2d( x, y, ux, uy, inv_gamma, npart, is_dead, dt )
\ No newline at end of file
+        push_position_2d( x, y, ux, uy, inv_gamma, npart, is_dead, dt )
+
+
+@njit(cache=True)
+def push_position_3d( x, y, z, ux, uy, uz, inv_gamma, N, is_dead, dt):
+    """
+    Advance the particles' positions over `dt` using the momenta `ux`, `uy`, `uz`,
+    """
+    # Timestep, multiplied by c
+    cdt = c*dt
+
+    for ip in range(N) :
+        if is_dead[ip]:
+            continue
+        x[ip] += cdt * inv_gamma[ip] * ux[ip]
+        y[ip] += cdt * inv_gamma[ip] * uy[ip]
+        z[ip] += cdt * inv_gamma[ip] * uz[ip]
+
+@jit_spinner
+@njit(parallel=True, cache=True)
+def push_position_patches_3d(
+    x_list, y_list, z_list,
+    ux_list, uy_list, uz_list, inv_gamma_list,
+    is_dead_list, 
+    npatches, dt,
+) -> None:
+    for _ipatch in prange(npatches):
+        ipatch = np.int64(_ipatch)
+        x = x_list[ipatch]
+        y = y_list[ipatch]
+        z = z_list[ipatch]
+
+        ux = ux_list[ipatch]
+        uy = uy_list[ipatch]
+        uz = uz_list[ipatch]
+        inv_gamma = inv_gamma_list[ipatch]
+
+        is_dead = is_dead_list[ipatch]
+        npart = len(is_dead)
+        push_position_3d( x, y, z, ux, uy, uz, inv_gamma, npart, is_dead, dt )
diff --git a/src/lambdapic/core/pusher/pusher.py b/src/lambdapic/core/pusher/pusher.py
index 4fab2dd..718107d 100644
--- a/src/lambdapic/core/pusher/pusher.py
+++ b/src/lambdapic/core/pusher/pusher.py
@@ -9,7 +9,10 @@ from lambdapic.core.particles import SpinParticles
 from ..patch import Patches
 from ..utils.pickle_list import PickleableTypedList
 from ..utils.enable_mixin import EnableMixin, if_enabled
-from .cpu import boris_push_patches, photon_push_patches, push_position_patches_2d
+from .cpu import (
+    boris_push_patches, photon_push_patches, push_position_patches_2d,
+    push_position_patches_3d,
+)
 
 
 class PusherBase(PickleableTypedList,EnableMixin):
@@ -108,6 +111,13 @@ class PusherBase(PickleableTypedList,EnableMixin):
                 self.is_dead_list, 
                 self.npatches, dt,
             )
+        elif self.dimension == 3:
+            push_position_patches_3d(
+                self.x_list, self.y_list, self.z_list,
+                self.ux_list, self.uy_list, self.uz_list, self.inv_gamma_list,
+                self.is_dead_list,
+                self.npatches, dt,
+            )
 
     def __call__(self, dt: float) -> None:
         raise NotImplementedError
-- 
2.43.0


From 2239817fa08e54c4d7b09a6a5ed572b84a761b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 08/44] fix: sort particles on a patch face into their own cell

Full 2D/3D buckets put a particle lying exactly on (or rounded across) a
face of its patch into the last bucket of the patch, i.e. into an unrelated
cell, where it then collided with particles far away. The mirrored ordering
already clamped each axis; do so for both orderings.
---
 src/lambdapic/core/sort/cpu2d.c | 23 ++++++++---------------
 src/lambdapic/core/sort/cpu3d.c | 25 +++++++++----------------
 2 files changed, 17 insertions(+), 31 deletions(-)

diff --git a/src/lambdapic/core/sort/cpu2d.c b/src/lambdapic/core/sort/cpu2d.c
index f09b16e..2503afc 100644
--- a/src/lambdapic/core/sort/cpu2d.c
+++ b/src/lambdapic/core/sort/cpu2d.c
@@ -22,25 +22,18 @@ static void calculate_bucket_index(
         if (!is_dead[ip]) {
             ix = (npy_intp) floor((x[ip] - x0) / dx);
             iy = (npy_intp) floor((y[ip] - y0) / dy);
+            // particles on (or rounded across) a face of the patch belong to
+            // the outermost cell of that axis
+            if (ix < 0) ix = 0; else if (ix >= nx) ix = nx - 1;
+            if (iy < 0) iy = 0; else if (iy >= ny) iy = ny - 1;
             if (reverse_x) {
                 // mirror x so that bucket 0 sits at the physical right edge,
                 // i.e. the inflow side of a -x drifting species
-                if (ix < 0) ix = 0; else if (ix >= nx) ix = nx - 1;
-                if (iy < 0) iy = 0; else if (iy >= ny) iy = ny - 1;
-                icell = iy + (nx - 1 - ix) * ny;
-                particle_index[ip] = icell;
-                bucket_count[icell] += 1;
-            } else {
-                icell = iy + ix * ny;  // Calculate the cell index
-                if (0 <= ix && ix < nx && 0 <= iy && iy < ny) {
-                    particle_index[ip] = icell;  // Store the cell index for the particle
-                    bucket_count[icell] += 1;  // Increment the count of particles in the cell
-                } else {
-                    particle_index[ip] = nbin - 1; // out-of-bound particles to the last bucket
-                    bucket_count[nbin - 1] += 1;
-                    icell = nbin - 1; // keep the inherit chain in-bounds
-                }
+                ix = nx - 1 - ix;
             }
+            icell = iy + ix * ny;  // Calculate the cell index
+            particle_index[ip] = icell;  // Store the cell index for the particle
+            bucket_count[icell] += 1;  // Increment the count of particles in the cell
         } else {
             // dead stay in the same bucket with the previous particle.
             // NOTE: pinning dead particles to their last bucket instead was
diff --git a/src/lambdapic/core/sort/cpu3d.c b/src/lambdapic/core/sort/cpu3d.c
index aa3950b..7a184ee 100644
--- a/src/lambdapic/core/sort/cpu3d.c
+++ b/src/lambdapic/core/sort/cpu3d.c
@@ -23,26 +23,19 @@ static void calculate_cell_index(
             ix = (npy_intp)floor((x[ip] - x0)/dx);
             iy = (npy_intp)floor((y[ip] - y0)/dy);
             iz = (npy_intp)floor((z[ip] - z0)/dz);
+            // particles on (or rounded across) a face of the patch belong to
+            // the outermost cell of that axis
+            if (ix < 0) ix = 0; else if (ix >= nx) ix = nx - 1;
+            if (iy < 0) iy = 0; else if (iy >= ny) iy = ny - 1;
+            if (iz < 0) iz = 0; else if (iz >= nz) iz = nz - 1;
             if (reverse_x) {
                 // mirror x so that bucket 0 sits at the physical right edge,
                 // i.e. the inflow side of a -x drifting species
-                if (ix < 0) ix = 0; else if (ix >= nx) ix = nx - 1;
-                if (iy < 0) iy = 0; else if (iy >= ny) iy = ny - 1;
-                if (iz < 0) iz = 0; else if (iz >= nz) iz = nz - 1;
-                icell = iz + iy*nz + (nx - 1 - ix)*ny*nz;
-                particle_index[ip] = icell;
-                bucket_count[icell] += 1;
-            } else {
-                icell = iz + iy*nz + ix*ny*nz;
-                if (0 <= ix && ix < nx && 0 <= iy && iy < ny && 0 <= iz && iz < nz) {
-                    particle_index[ip] = icell;
-                    bucket_count[icell] += 1;
-                } else {
-                    particle_index[ip] = nbin - 1; // out-of-bound particles to the last bucket
-                    bucket_count[nbin - 1] += 1;
-                    icell = nbin - 1; // keep the inherit chain in-bounds
-                }
+                ix = nx - 1 - ix;
             }
+            icell = iz + iy*nz + ix*ny*nz;
+            particle_index[ip] = icell;
+            bucket_count[icell] += 1;
         } else {
             // dead stay in the same bucket with the previous particle.
             // NOTE: pinning dead particles to their last bucket instead was
-- 
2.43.0


From cecf02039612aa58190431f544bfc99cd8ac27a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 09/44] fix: never take the square root of a negative quantum
 parameter

For momenta (nearly) along the electric field the difference of squares in
chi may round to a negative number, giving chi = nan, for which the table
lookups are undefined.
---
 src/lambdapic/core/qed/inline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/qed/inline.py b/src/lambdapic/core/qed/inline.py
index 56cad79..e50c79f 100644
--- a/src/lambdapic/core/qed/inline.py
+++ b/src/lambdapic/core/qed/inline.py
@@ -5,11 +5,13 @@ from scipy.constants import c, e, hbar, m_e
 def calculate_chi_inline(Ex, Ey, Ez, Bx, By, Bz, ux, uy, uz, inv_gamma):
     factor = e*hbar / (m_e**2 * c**3)
     gamma = 1.0 / inv_gamma
-    return factor * (
+    # rounding may leave a slightly negative difference (momentum along E)
+    return factor * max(
         (gamma*Ex + (uy*Bz - uz*By)*c)**2 +
         (gamma*Ey + (uz*Bx - ux*Bz)*c)**2 +
         (gamma*Ez + (ux*By - uy*Bx)*c)**2 -
-        (ux*Ex + uy*Ey + uz*Ez)**2
+        (ux*Ex + uy*Ey + uz*Ez)**2,
+        0.0
     ) ** 0.5
 
 
-- 
2.43.0


From e78350595d58983473eb6926734fcdadc08d6cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 10/44] fix: keep QED table lookups inside the tables

A quantum parameter at or above the last node (chi >= 100) read past the end
of both tables. The bisection never ended when the random number fell exactly
on a tabulated value (or in a column of equal or undefined values), and its
interval could lie outside the table. Above the table the last interval is
used with a constant extrapolation.
---
 .../core/qed/optical_depth_tables.py          | 26 +++++++-------
 .../core/qed/optical_depth_tables_sigmoid.py  | 34 ++++++++-----------
 2 files changed, 26 insertions(+), 34 deletions(-)

diff --git a/src/lambdapic/core/qed/optical_depth_tables.py b/src/lambdapic/core/qed/optical_depth_tables.py
index 268f38f..10b44b7 100644
--- a/src/lambdapic/core/qed/optical_depth_tables.py
+++ b/src/lambdapic/core/qed/optical_depth_tables.py
@@ -34,12 +34,10 @@ def _get_chi_idx(chi):
     log_chi = np.log10(chi)
     if log_chi < _log_chi_range[0]:
         return -1
-    if log_chi > _log_chi_range[1]:
-        idx = _chi_N - 1
-    if _log_chi_range[0] <= log_chi <= _log_chi_range[1]:
-        idx = math.floor((log_chi - _log_chi_range[0]) / _log_chi_delta)
-
-    return idx
+    if log_chi >= _log_chi_range[1]:
+        return _chi_N - 2
+    # left node of an interval, at most the last but one
+    return min(math.floor((log_chi - _log_chi_range[0]) / _log_chi_delta), _chi_N - 2)
 
 @njit
 def _linear_interp1d(chi, table1d):
@@ -47,8 +45,8 @@ def _linear_interp1d(chi, table1d):
     if idx == -1:
         return 0.0
     log_chi_left = _log_chi_range[0] + idx*_log_chi_delta
-    # linear interp
-    log_chi = np.log10(chi)
+    # linear interp, constant above the table
+    log_chi = min(np.log10(chi), _log_chi_range[1])
     k = (table1d[idx+1] - table1d[idx]) / _log_chi_delta
     prob_rate = table1d[idx] + k * (log_chi-log_chi_left)
     return prob_rate
@@ -60,7 +58,7 @@ def _bisect_interp(chi, table2d):
     chi_idx = _get_chi_idx(chi)
     
     # Calculate fractional position between chi grid points
-    log_chi = np.log10(chi)
+    log_chi = min(np.log10(chi), _log_chi_range[1])
     log_chi_left = _log_chi_range[0] + chi_idx * _log_chi_delta
     t = (log_chi - log_chi_left) / _log_chi_delta
     
@@ -75,17 +73,17 @@ def _bisect_interp(chi, table2d):
 
         if mid_delta < r:
             low = mid + 1
-        elif mid_delta > r:
+        else:
             high = mid - 1
     
     # interp
-    delta_idx = high
+    delta_idx = min(max(high, 0), _delta_N - 2)
     
     y1 = table2d[chi_idx, delta_idx] * (1 - t) + table2d[chi_idx+1, delta_idx] * t
     y2 = table2d[chi_idx, delta_idx+1] * (1 - t) + table2d[chi_idx+1, delta_idx+1] * t
-    k = _log_delta_delta / (y2 - y1)
-    log_delta_left = _log_delta_range[0] + delta_idx*_log_delta_delta
-    log_delta = log_delta_left + k * (r - y1)   
+    log_delta = _log_delta_range[0] + delta_idx*_log_delta_delta
+    if y2 > y1:
+        log_delta += _log_delta_delta * min(max((r - y1) / (y2 - y1), 0.0), 1.0)
 
     return 10**log_delta
     
diff --git a/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py b/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
index 64bee9a..c60baff 100644
--- a/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
+++ b/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
@@ -34,21 +34,19 @@ def _get_chi_idx(chi):
     log_chi = np.log10(chi)
     if log_chi < _log_chi_range[0]:
         return -1
-    if log_chi > _log_chi_range[1]:
-        idx = _chi_N - 1
-    if _log_chi_range[0] <= log_chi <= _log_chi_range[1]:
-        idx = (log_chi - _log_chi_range[0]) / _log_chi_delta
-
-    return idx
+    if log_chi >= _log_chi_range[1]:
+        return _chi_N - 2
+    # left node of an interval, at most the last but one
+    return min(math.floor((log_chi - _log_chi_range[0]) / _log_chi_delta), _chi_N - 2)
 
 @njit
 def _linear_interp1d(chi, table1d):
-    idx = math.floor(_get_chi_idx(chi))
+    idx = _get_chi_idx(chi)
     if idx == -1:
         return 0.0
     log_chi_left = _log_chi_range[0] + idx*_log_chi_delta
-    # linear interp
-    log_chi = np.log10(chi)
+    # linear interp, constant above the table
+    log_chi = min(np.log10(chi), _log_chi_range[1])
     k = (table1d[idx+1] - table1d[idx]) / _log_chi_delta
     prob_rate = table1d[idx] + k * (log_chi-log_chi_left)
     return prob_rate
@@ -61,12 +59,12 @@ def _sigmoid(x, A):
 @njit
 def _bisect_interp(chi, table2d):
     low, high = 0, _delta_N-1
-    chi_idx = _get_chi_idx(chi)
-    chi_idx_low = math.floor(chi_idx)
+    chi_idx_low = _get_chi_idx(chi)
     chi_idx_high = chi_idx_low + 1
 
     chi_low = 10**(_log_chi_range[0] + chi_idx_low * _log_chi_delta)
     chi_high = 10**(_log_chi_range[0] + chi_idx_high * _log_chi_delta)
+    chi = min(max(chi, chi_low), chi_high)
     
     k = (table2d[chi_idx_high,  0] - table2d[chi_idx_low,  0]) / (chi_high - chi_low)
     cdf_min = table2d[chi_idx_low,  0] + k * (chi - chi_low)
@@ -75,21 +73,17 @@ def _bisect_interp(chi, table2d):
     cdf_max = table2d[chi_idx_low, -1] + k * (chi - chi_low)
 
     r = np.random.rand() * (cdf_max-cdf_min) + cdf_min
-    # linear interp for r < cdf_min
-    if r < cdf_min:
-        return r/cdf_min * _delta_range[0]
-
     while low <= high:
         mid = int((low + high)/2)
         k = (table2d[chi_idx_high, mid] - table2d[chi_idx_low, mid]) / (chi_high - chi_low)
         mid_delta = table2d[chi_idx_low, mid] + k * (chi - chi_low)
         if mid_delta < r:
             low = mid + 1
-        elif mid_delta > r:
+        else:
             high = mid - 1
     
     # interp
-    delta_idx = high # high = low - 1, the left index
+    delta_idx = min(max(high, 0), _delta_N - 2) # high = low - 1, the left index
 
     k = (table2d[chi_idx_high, delta_idx] - table2d[chi_idx_low, delta_idx]) / (chi_high - chi_low)
     cdf_left = table2d[chi_idx_low, delta_idx] + k * (chi - chi_low)
@@ -99,9 +93,9 @@ def _bisect_interp(chi, table2d):
 
     delta_left  = 1 / (1 + np.exp(-_A * (-1 + 2/(_delta_N-1)* delta_idx   )))
     delta_right = 1 / (1 + np.exp(-_A * (-1 + 2/(_delta_N-1)*(delta_idx+1))))
-    k = (delta_right - delta_left) / (cdf_right - cdf_left)
-
-    return delta_left + k * (r - cdf_left)
+    if cdf_right > cdf_left:
+        return delta_left + (delta_right - delta_left) * min(max((r - cdf_left) / (cdf_right - cdf_left), 0.0), 1.0)
+    return delta_left
     
 
 @njit
-- 
2.43.0


From dfb617e16980899c06295c2123eec84209a69d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 11/44] fix: leave the event flags alone when a QED particle
 extension is empty

---
 src/lambdapic/core/particles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lambdapic/core/particles.py b/src/lambdapic/core/particles.py
index d94c74d..5849036 100644
--- a/src/lambdapic/core/particles.py
+++ b/src/lambdapic/core/particles.py
@@ -255,6 +255,8 @@ class QEDParticles(ParticlesBase):
         Args:
             n (int): Number of elements to add
         """
+        if n <= 0:
+            return
         self.event.resize(n + self.npart, refcheck=False)
         self.event[-n:] = False
         super().extend(n)
-- 
2.43.0


From 073755c254bfa37d3d72ae14faa897c0a8e0385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 12/44] fix: give photons and pairs created in reused slots an
 id of their own

---
 src/lambdapic/core/particles.py           | 13 +++++++++++++
 src/lambdapic/core/qed/pair_production.py |  8 ++++++++
 src/lambdapic/core/qed/radiation.py       |  8 ++++++++
 3 files changed, 29 insertions(+)

diff --git a/src/lambdapic/core/particles.py b/src/lambdapic/core/particles.py
index 5849036..fd83e3f 100644
--- a/src/lambdapic/core/particles.py
+++ b/src/lambdapic/core/particles.py
@@ -115,6 +115,19 @@ class ParticlesBase:
         # Convert to float64 while preserving bit pattern
         return id_int.view(np.float64)
 
+    def renew_ids(self, slots: NDArray[bool_]) -> None:
+        """Generate new IDs for particles created in existing (dead) slots,
+        whose previous occupants may still be alive in another patch.
+
+        Args:
+            slots (NDArray[bool]): mask of the slots occupied by new particles
+        """
+        n = int(np.count_nonzero(slots))
+        if n == 0:
+            return
+        self._id[slots] = self._generate_ids(self._npart_created, n)
+        self._npart_created += n
+
     def initialize(self, npart: int) -> None:
         """Initialize particle arrays with given size.
         You can extend the particle attributes before calling initialize.
diff --git a/src/lambdapic/core/qed/pair_production.py b/src/lambdapic/core/qed/pair_production.py
index 66a7726..5ac4d22 100644
--- a/src/lambdapic/core/qed/pair_production.py
+++ b/src/lambdapic/core/qed/pair_production.py
@@ -255,6 +255,12 @@ class NonlinearPairProductionLCFA(PairProductionBase):
             if n1 > 0 or n2 > 0:
                 self.patches.update_particle_lists(ipatch)
                 self.update_particle_lists(ipatch)
+        # slots to be filled are those dead now and alive afterwards
+        created = [
+            (p.particles[ispec], p.particles[ispec].is_dead.copy())
+            for p, event in zip(self.patches, self.event_list) if event.any()
+            for ispec in (self.electron_ispec, self.positron_ispec)
+        ]
         # fillin pairs
         if self.dimension == 2:
             create_pair_patches_2d(
@@ -272,6 +278,8 @@ class NonlinearPairProductionLCFA(PairProductionBase):
                 self.delta_list, self.event_list,
                 self.npatches
             )
+        for particles, was_dead in created:
+            particles.renew_ids(was_dead & particles.is_alive)
 
     @if_enabled
     def reaction(self) -> None:
diff --git a/src/lambdapic/core/qed/radiation.py b/src/lambdapic/core/qed/radiation.py
index f2899c1..e1d8342 100644
--- a/src/lambdapic/core/qed/radiation.py
+++ b/src/lambdapic/core/qed/radiation.py
@@ -213,6 +213,12 @@ class NonlinearComptonLCFA(RadiationBase):
                 self.patches[ipatch].particles[self.photon_ispec].extend(n)
                 self.patches.update_particle_lists(ipatch)
                 self.update_particle_lists(ipatch)
+        # slots to be filled are those dead now and alive afterwards
+        created = [
+            (p.particles[ispec], p.particles[ispec].is_dead.copy())
+            for p, event in zip(self.patches, self.event_list) if event.any()
+            for ispec in (self.photon_ispec,)
+        ]
         # fillin photons
         if self.dimension == 2:
             create_photon_patches_2d(
@@ -228,6 +234,8 @@ class NonlinearComptonLCFA(RadiationBase):
                 self.delta_list, self.event_list,
                 self.npatches
             )
+        for particles, was_dead in created:
+            particles.renew_ids(was_dead & particles.is_alive)
 
     @if_enabled
     def reaction(self) -> None:
-- 
2.43.0


From 488f7279ad75f8dac7365cb4a0fd66836e7106f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 13/44] fix: leave no old particles in the patches a moving
 window recycles

---
 src/lambdapic/callback/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 3a93972..096dd3c 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -730,6 +730,11 @@ class MovingWindow:
         if not new_patches:
             return
         
+        # particles of the recycled patches are left behind by the window
+        for p in new_patches:
+            for particles in p.particles:
+                particles.is_dead[:] = True
+
         if not self.inject_particles:
             return
         
@@ -779,6 +784,7 @@ class MovingWindow:
 
             for ipatch, p in enumerate(patches):
                 p.particles[ispec].initialize(num_macro_particles[ipatch])
+                p.particles[ispec].extended = True
 
                 x_list[ipatch] = p.particles[ispec].x
                 y_list[ipatch] = p.particles[ispec].y
@@ -821,6 +827,7 @@ class MovingWindow:
 
             for ipatch, p in enumerate(patches):
                 p.particles[ispec].initialize(num_macro_particles[ipatch])
+                p.particles[ispec].extended = True
 
                 x_list[ipatch] = p.particles[ispec].x
                 y_list[ipatch] = p.particles[ispec].y
-- 
2.43.0


From 5f70afaec0571f24bdbe7cfdea25d3e40a985b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 14/44] fix: give collisions registered after initialize()
 sorters with one bucket per cell

add_collision() on an initialised simulation kept the sorters made without
collisions, whose buckets span the whole domain in y (and z), so particles
of different cells were paired.
---
 src/lambdapic/simulation/simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 5b68e20..0fb186b 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -612,8 +612,10 @@ class Simulation:
         # Store groups; actual Collision is created in _init_collision
         self._collision_groups = collision_groups
 
-        # If already initialized, construct the Collision module now
+        # If already initialized, construct the Collision module now. Collisions
+        # need one bucket per cell, which the sorters made without them lack.
         if self.initialized:
+            self._init_sorter()
             self._init_collision()
         return None
 
-- 
2.43.0


From be2df6e0035eb0303ee2c2ddbd1da3ccf9b25b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 15/44] fix: let collisions use the new buckets after a
 moving-window shift

A shift replaces the sorters' bucket arrays; the collision module kept the
old ones, so collisions after the first shift used stale particle ranges.
---
 src/lambdapic/callback/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 096dd3c..e889d26 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -589,6 +589,10 @@ class MovingWindow:
         for sorter in sim.sorter:
             sorter.generate_field_lists()
             sorter.generate_particle_lists()
+        if sim.collision is not None:
+            # the buckets are new arrays
+            sim.collision.generate_field_lists()
+            sim.collision.generate_particle_lists()
 
 
     def _shift_right(self, sim: Simulation) -> Sequence[Union[Patch3D, Patch2D]]:
-- 
2.43.0


From dda8b039fec824b392111063bd285a80137a70af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 16/44] fix: keep collisions of fast particles finite and
 conservative

The centre-of-mass Lorentz factor was computed from 1 - v^2/c^2, which has
no digits left for gamma >~ 1e4 (energy and momentum errors of 1e-8 growing
with gamma^2) and is zero for gamma ~ 1e8 (division by zero, NaN momenta).
Compute it and the particles' energies from the invariant mass instead.
---
 src/lambdapic/core/collision/utils.py | 43 +++++++++++++++++++++------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/lambdapic/core/collision/utils.py b/src/lambdapic/core/collision/utils.py
index c488873..544ab52 100644
--- a/src/lambdapic/core/collision/utils.py
+++ b/src/lambdapic/core/collision/utils.py
@@ -47,20 +47,45 @@ def collision_data(
     vy_com = (py1 + py2) / (gamma1*m1 + gamma2*m2)
     vz_com = (pz1 + pz2) / (gamma1*m1 + gamma2*m2)
     v_com_square = vx_com**2 + vy_com**2 + vz_com**2
-    gamma_com = 1.0 / sqrt(1 - v_com_square/c**2 )
-    v_com_square = vx_com**2 + vy_com**2 + vz_com**2
-    
+    # X = gamma1*gamma2 - u1.u2 of the two particles and E*sqrt(1-v_com^2) from it:
+    # 1 - v_com^2/c^2 itself has no digits left for fast particles
+    gamma_sum = gamma1 + gamma2
+    dux, duy, duz = ux1 - ux2, uy1 - uy2, uz1 - uz2
+    dot = ux1*ux2 + uy1*uy2 + uz1*uz2
+    u1_square = ux1**2 + uy1**2 + uz1**2
+    u2_square = ux2**2 + uy2**2 + uz2**2
+    if dot > 0:
+        dgamma = (dux*(ux1 + ux2) + duy*(uy1 + uy2) + duz*(uz1 + uz2)) / gamma_sum
+        du_square = dux**2 + duy**2 + duz**2
+        cross_square = (uy1*uz2 - uz1*uy2)**2 + (uz1*ux2 - ux1*uz2)**2 + (ux1*uy2 - uy1*ux2)**2
+        X = (1 + u1_square + u2_square + cross_square) / (gamma1*gamma2 + dot)
+        if du_square < X:
+            Xm1 = max(0.5*(du_square - dgamma**2), 0.0)
+        else:
+            Xm1 = max(X - 1, 0.0)
+    else:
+        Xm1 = (u1_square + u2_square + u1_square*u2_square) / (gamma1*gamma2 + 1) - dot
+    # invariant mass
+    m_com = sqrt((m1 + m2)**2 + 2*m1*m2*Xm1)
+    gamma_com = (gamma1*m1 + gamma2*m2) / m_com
+    gamma1_com = (m1 + m2 + m2*Xm1) / m_com
+    gamma2_com = (m1 + m2 + m1*Xm1) / m_com
+    p1_com = m1*m2*c * sqrt(Xm1*(Xm1 + 2)) / m_com
+
     fac = (gamma_com-1)/v_com_square if v_com_square > 0 else 0.0
     px1_com = px1 + (fac * (vx1*vx_com + vy1*vy_com + vz1*vz_com) - gamma_com) * m1*gamma1*vx_com
     py1_com = py1 + (fac * (vx1*vx_com + vy1*vy_com + vz1*vz_com) - gamma_com) * m1*gamma1*vy_com
     pz1_com = pz1 + (fac * (vx1*vx_com + vy1*vy_com + vz1*vz_com) - gamma_com) * m1*gamma1*vz_com
-    p1_com = sqrt(px1_com**2 + py1_com**2 + pz1_com**2)
-    
+
     # p2_com = -p1_com
-    
-    gamma1_com = (1 - (vx_com*vx1 + vy_com*vy1 + vz_com*vz1) / c**2) * gamma_com*gamma1
-    gamma2_com = (1 - (vx_com*vx2 + vy_com*vy2 + vz_com*vz2) / c**2) * gamma_com*gamma2
-    
+
+    # rounding must not leave a length that is at odds with the energies
+    p = sqrt(px1_com**2 + py1_com**2 + pz1_com**2)
+    if p > 0:
+        px1_com, py1_com, pz1_com = px1_com*p1_com/p, py1_com*p1_com/p, pz1_com*p1_com/p
+    else:
+        pz1_com = p1_com
+
     p_perp = sqrt(px1_com**2 + py1_com**2)
 
     return CollisionData(
-- 
2.43.0


From a2f2d99113228d224363bc9a81ad412ebc5e9fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 17/44] fix: do not reverse particles scattered along -z

The branch of rotate_momentum for momenta along z ignored the direction, so
a particle moving towards -z in the centre-of-mass frame was turned around
by a scattering of zero angle.
---
 src/lambdapic/core/collision/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/core/collision/utils.py b/src/lambdapic/core/collision/utils.py
index 544ab52..1d228bf 100644
--- a/src/lambdapic/core/collision/utils.py
+++ b/src/lambdapic/core/collision/utils.py
@@ -197,7 +197,7 @@ def rotate_momentum(
     else:
         px_new = p * sinXcosPhi
         py_new = p * sinXsinPhi
-        pz_new = p * cosX
+        pz_new = pz * cosX
     
     return px_new, py_new, pz_new
 
-- 
2.43.0


From 790b988ec5a13b4b82ef48bae09fbac17cddfd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 18/44] fix: reset the total density with the Debye length

It was accumulated over all steps, so the lower bound of the screening
length shrank as the simulation went on.
---
 src/lambdapic/core/collision/cpu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lambdapic/core/collision/cpu.py b/src/lambdapic/core/collision/cpu.py
index 47e0738..9b9b00f 100644
--- a/src/lambdapic/core/collision/cpu.py
+++ b/src/lambdapic/core/collision/cpu.py
@@ -148,6 +148,7 @@ def debye_length_patches(
         ipatch = np.int64(_ipatch)
         if reset:
             debye_length_inv_square_list[ipatch].fill(0)
+            total_density_list[ipatch].fill(0)
         for icell in range(bucket_bound_min_list[ipatch].size):
             ip_start = bucket_bound_min_list[ipatch].flat[icell]
             ip_end   = bucket_bound_max_list[ipatch].flat[icell]
-- 
2.43.0


From 0a0f7b637b87d3330e3c7207a4fd5423f0c05155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 19/44] fix: leave neutral species out of the Debye length

A photon species has zero thermal energy (m = 0), which made the screening
length vanish in every cell holding a photon.
---
 src/lambdapic/core/collision/collision.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/core/collision/collision.py b/src/lambdapic/core/collision/collision.py
index 6057e7c..dac97d4 100644
--- a/src/lambdapic/core/collision/collision.py
+++ b/src/lambdapic/core/collision/collision.py
@@ -151,7 +151,11 @@ class Collision(PickleableTypedList):
         self.generate_field_lists()
 
     def calculate_debye_length(self) -> None:
+        reset = True
         for s in self.all_species:
+            if s.q == 0:
+                # neutral particles do not screen
+                continue
             debye_length_patches(
                 self.part_lists[s.ispec],
                 self.bucket_bound_min_lists[s.ispec],
@@ -159,8 +163,9 @@ class Collision(PickleableTypedList):
                 self.cell_vol,
                 self.debye_length_inv_square_list,
                 self.total_density_list,
-                reset=s.ispec==0
+                reset=reset
             )
+            reset = False
         constrain_debye_length_patches(
             self.debye_length_inv_square_list,
             self.total_density_list
-- 
2.43.0


From 08502d7b66dd8e6dcfc2102279298a99d83771a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 20/44] fix: continue the random streams of collisions after a
 restart

Unpickling spawned new generators, so a resumed run drew other numbers
than the run that was never stopped.
---
 src/lambdapic/core/collision/collision.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lambdapic/core/collision/collision.py b/src/lambdapic/core/collision/collision.py
index dac97d4..120577c 100644
--- a/src/lambdapic/core/collision/collision.py
+++ b/src/lambdapic/core/collision/collision.py
@@ -77,7 +77,7 @@ class Collision(PickleableTypedList):
                 if p.particles[ispec].extended:
                     self.part_lists[ispec][ipatch] = pack_particle_data(p.particles[ispec], s.m, s.q)
 
-    def generate_field_lists(self) -> None:
+    def generate_field_lists(self, spawn_generators: bool=True) -> None:
         if self.patches.dimension == 2:
             self.debye_length_inv_square_list = typed.List(# type: ignore
                 [np.zeros((p.nx, p.ny), dtype=np.float64) for p in self.patches]
@@ -95,7 +95,8 @@ class Collision(PickleableTypedList):
         self._check_shared_bucket_ordering()
         self.bucket_bound_min_lists = [typed.List(s.bucket_bound_min_list) for s in self.sorter] # type: ignore
         self.bucket_bound_max_lists = [typed.List(s.bucket_bound_max_list) for s in self.sorter] # type: ignore
-        self.gen_list = typed.List(self.gen.spawn(self.patches.npatches)) # type: ignore
+        if spawn_generators:
+            self.gen_list = typed.List(self.gen.spawn(self.patches.npatches)) # type: ignore
 
     def _check_shared_bucket_ordering(self) -> None:
         """Verify that sorters in collision groups share the same bucket
@@ -148,7 +149,8 @@ class Collision(PickleableTypedList):
     def __setstate__(self, state: Dict) -> None:
         super().__setstate__(state)
         self.generate_particle_lists()
-        self.generate_field_lists()
+        # gen_list is restored to continue the random streams
+        self.generate_field_lists(spawn_generators=False)
 
     def calculate_debye_length(self) -> None:
         reset = True
-- 
2.43.0


From bcd49bf4c27f6619dc547992cc3e3d5381532571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 21/44] fix: let all modules see the particles of a loaded
 checkpoint

The particle arrays are copied while unpickling, but the lists held by the
pushers and the QED modules kept referring to the arrays before copying:
radiation and pair production worked on stale data and, with callbacks in
the pusher stages, particles did not move any more. The time is summed up
as in the main loop, so that a resumed run is bitwise the same.
---
 src/lambdapic/callback/restart.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/callback/restart.py b/src/lambdapic/callback/restart.py
index 0f5d8f2..28b405d 100644
--- a/src/lambdapic/callback/restart.py
+++ b/src/lambdapic/callback/restart.py
@@ -148,12 +148,16 @@ class RestartDump(Callback):
         with open(shard_path, "rb") as f:
             sim = pickle.load(f)
 
+        # the lists held by the modules refer to copies of the loaded arrays
+        for p in sim.patches:
+            for particles in p.particles:
+                particles.extended = True
         sim.update_lists()
 
         # inc by 1, since restart is called before itime inc
         sim.itime += 1
-        # keep time in sync with itime
-        sim.time = sim.itime * sim.dt
+        # keep time in sync with itime, summed up as in the main loop
+        sim.time += sim.dt
         comm.Barrier()
 
         logger.info(f"Rank {rank}: Checkpoint loaded from {ckpt_dir}, itime={sim.itime}")
-- 
2.43.0


From 3e2708d3e8b7b891998a788d479e971a3af8a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 22/44] fix: continue a moving window after a restart

The progress of the window was kept in the callback only, so the window
created for the resumed run shifted at once by a whole patch.
---
 src/lambdapic/callback/utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index e889d26..7442454 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -531,6 +531,12 @@ class MovingWindow:
         if self.start_time is None:
             self.start_time = sim.Lx/c
 
+        if self.total_shift is None and self.patch_this_shift is None:
+            # a window of an earlier run, e.g. before a restart, is continued
+            progress = getattr(sim, "_window_progress", None)
+            if progress is not None:
+                self.total_shift, self.patch_this_shift, self.num_shifts = progress
+
         if self.total_shift is None:
             self.total_shift = patch_Lx
 
@@ -571,6 +577,10 @@ class MovingWindow:
             new_patches = self._shift_left(sim)
             self.patch_this_shift += patch_Lx
         else:
+            new_patches = None
+
+        sim._window_progress = (self.total_shift, self.patch_this_shift, self.num_shifts)
+        if new_patches is None:
             return
         
         self._update_patch_info(sim)
-- 
2.43.0


From 3889235dc15766b08430dd8e06a6c3912f601072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 23/44] fix: write checkpoints aside and refuse partial, mixed
 or mismatched ones

A dump wrote its shards in place: an interrupted one left a partial or mixed
set that loaded silently, and loading with fewer processes dropped patches.
Retention sorted by name (wrong from step 1000000 on) and counted foreign
ckpt_* directories.
---
 src/lambdapic/callback/restart.py | 68 ++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 14 deletions(-)

diff --git a/src/lambdapic/callback/restart.py b/src/lambdapic/callback/restart.py
index 28b405d..f861998 100644
--- a/src/lambdapic/callback/restart.py
+++ b/src/lambdapic/callback/restart.py
@@ -1,3 +1,5 @@
+import os
+import shutil
 import signal
 from pathlib import Path
 from typing import Callable, Dict, List, Optional, Sequence, Union
@@ -89,39 +91,63 @@ class RestartDump(Callback):
         comm = sim.mpi.comm
         rank = sim.mpi.rank
 
+        # Written aside first: an interrupted dump leaves no partial checkpoint
+        # and does not touch an existing one of the same step
         ckpt_dir = self._ckpt_dir(sim.itime)
+        tmp_dir = ckpt_dir.with_name(f".{ckpt_dir.name}.tmp")
         if rank == 0:
-            ckpt_dir.mkdir(parents=True, exist_ok=True)
+            self._remove_dir(tmp_dir)
+            tmp_dir.mkdir(parents=True)
         comm.Barrier()
 
         # All ranks write shards
-        with open(self._rank_shard_path(sim.itime, rank), "wb") as f:
+        with open(tmp_dir / self._rank_shard_path(sim.itime, rank).name, "wb") as f:
             pickle.dump(sim, f, byref=True, recurse=True)
+            f.flush()
+            os.fsync(f.fileno())
 
         comm.Barrier()
 
+        if rank == 0:
+            self._commit(tmp_dir, ckpt_dir)
+
         # Optionally trim old checkpoints (rank 0 only)
         if rank == 0 and self.keep is not None and self.keep > 0:
             self._gc_old_checkpoints(self.keep)
 
         comm.Barrier()
 
+    @staticmethod
+    def _remove_dir(d: Path) -> None:
+        if d.exists():
+            shutil.rmtree(d)
+
+    def _commit(self, tmp_dir: Path, ckpt_dir: Path) -> None:
+        """Give the complete set of shards its name, in place of an earlier one."""
+        old_dir = ckpt_dir.with_name(f".{ckpt_dir.name}.old")
+        if ckpt_dir.exists():
+            self._remove_dir(old_dir)
+            ckpt_dir.rename(old_dir)
+        tmp_dir.rename(ckpt_dir)
+        self._remove_dir(old_dir)
+
     def _gc_old_checkpoints(self, keep: int) -> None:
         # Keep most recent N ckpt_* directories
-        subdirs = [d for d in self.out_dir.iterdir() if d.is_dir() and d.name.startswith("ckpt_")]
-        subdirs.sort(key=lambda p: p.name)
+        subdirs = [
+            d for d in self.out_dir.iterdir()
+            if d.is_dir() and d.name.startswith("ckpt_") and d.name[len("ckpt_"):].isdigit()
+        ]
+        subdirs.sort(key=lambda p: int(p.name[len("ckpt_"):]))
         if len(subdirs) <= keep:
             return
         to_delete = subdirs[: len(subdirs) - keep]
         for d in to_delete:
             try:
-                # remove directory recursively
-                for path in sorted(d.rglob("*"), key=lambda p: len(p.parts), reverse=True):
-                    if path.is_file():
-                        path.unlink(missing_ok=True)
-                    elif path.is_dir():
-                        path.rmdir()
-                d.rmdir()
+                # a partly removed checkpoint must not keep its name
+                trash = d.with_name(f".{d.name}.old")
+                self._remove_dir(trash)
+                d.rename(trash)
+                self._remove_dir(trash)
             except Exception as e:
                 logger.warning(f"Failed to remove old checkpoint {d}: {e}")
 
@@ -144,9 +170,23 @@ class RestartDump(Callback):
 
         rank = comm.Get_rank()
 
-        shard_path = ckpt_dir / f"rank_{rank:06d}.pkl"
-        with open(shard_path, "rb") as f:
-            sim = pickle.load(f)
+        nshards = comm.bcast(len(list(ckpt_dir.glob("rank_*.pkl"))) if rank == 0 else None, root=0)
+        if nshards != comm.Get_size():
+            raise ValueError(f"Checkpoint {ckpt_dir} has {nshards} shards, cannot be loaded by {comm.Get_size()} ranks")
+
+        sim, error = None, None
+        try:
+            with open(ckpt_dir / f"rank_{rank:06d}.pkl", "rb") as f:
+                sim = pickle.load(f)
+        except Exception as e:
+            error = e
+
+        # all ranks refuse a set with an unreadable shard, or of different dumps
+        shards = comm.allgather(None if sim is None else (sim.mpi.rank, sim.mpi.size, sim.itime))
+        if error is not None:
+            raise error
+        if shards != [(r, comm.Get_size(), sim.itime) for r in range(comm.Get_size())]:
+            raise ValueError(f"Checkpoint {ckpt_dir} is incomplete or mixed: (rank, size, itime) of its shards are {shards}")
 
         # the lists held by the modules refer to copies of the loaded arrays
         for p in sim.patches:
-- 
2.43.0


From 89f3e3e87e0b3af1f169de0886b3f9dd4c05bc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 24/44] fix: fire callbacks with a time interval once per
 interval

Rounding of the accumulated time made them fire twice, or one step late, when
the interval is a multiple of the time step.
---
 src/lambdapic/callback/callback.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/callback.py b/src/lambdapic/callback/callback.py
index f297410..e4f3644 100644
--- a/src/lambdapic/callback/callback.py
+++ b/src/lambdapic/callback/callback.py
@@ -40,7 +40,9 @@ def _interval_triggered(sim: Simulation, interval: int | float | Callable) -> bo
                 "Simulation instance must provide `dt` when using float interval callbacks."
             )
 
-        return (time_value % interval) < dt_reference
+        # time is a sum of rounded steps: a multiple of the interval reached
+        # but for rounding counts, and only once
+        return ((time_value + 1e-3 * dt_reference) % interval) < dt_reference
 
     return True
 
-- 
2.43.0


From 8f33ead61b1edb42ffe7e1ec1d586e13fc37812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 25/44] fix: run k steps for a sim_time of k time steps

Rounding of the quotient lost the last step.
---
 src/lambdapic/simulation/simulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 0fb186b..a6e343f 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -1202,6 +1202,10 @@ class Simulation:
             return bool(requested)
         return bool(self.mpi.comm.allreduce(int(bool(requested))))
 
+    def _nsteps_until(self, sim_time):
+        """Number of whole steps in `sim_time`, a multiple of dt being exact but for rounding."""
+        return int(sim_time / self.dt + 1e-6)
+
     def _handle_nsteps(self, nsteps, sim_time):
         if nsteps is not None and sim_time is not None:
             raise ValueError("Cannot specify both nsteps and sim_time in run() method")
@@ -1211,12 +1215,12 @@ class Simulation:
                 nsteps_total = self.nsteps
             elif self.sim_time is not None:
                 # Calculate nsteps from simulation time
-                nsteps_total = int(self.sim_time / self.dt)
+                nsteps_total = self._nsteps_until(self.sim_time)
             else:
                 raise ValueError("Must provide either nsteps or sim_time, either in Simulation or as an argument to run()")
         elif sim_time is not None and nsteps is None:
             # Calculate nsteps from simulation time parameter
-            nsteps_total = int(sim_time / self.dt)
+            nsteps_total = self._nsteps_until(sim_time)
         elif nsteps is not None and sim_time is None:
             nsteps_total = nsteps + self.itime
         else:
-- 
2.43.0


From b8ca2417c60bb2990a697db8087a7f03a87f6aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 26/44] fix: give each direction the requested temperature

The momenta were stretched by the ratio of the temperatures instead of its
root, and a zero temperature along x gave nan.
---
 src/lambdapic/callback/utils.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 7442454..d334098 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -978,17 +978,19 @@ class SetTemperature(Callback):
             if n == 0:
                 continue
             
-            thetax = self.temperature[0]*e / (self.species.m * c**2)
-            ux, uy, uz = self.sample_maxwell_juttner(n, thetax, rand_gen)
-            # stretch to simulate temperature anisotropy
+            t_max = max(self.temperature)
+            theta = t_max*e / (self.species.m * c**2)
+            # stretch to simulate temperature anisotropy, <u^2> is proportional to the temperature
+            stretch = [(t / t_max)**0.5 if t_max > 0 else 0.0 for t in self.temperature]
+            ux, uy, uz = (u * k for u, k in zip(self.sample_maxwell_juttner(n, theta, rand_gen), stretch))
             if self.add:
                 part.ux[alive] += ux
-                part.uy[alive] += uy * self.temperature[1]/self.temperature[0]
-                part.uz[alive] += uz * self.temperature[2]/self.temperature[0]
+                part.uy[alive] += uy
+                part.uz[alive] += uz
             else:
                 part.ux[alive] = ux
-                part.uy[alive] = uy * self.temperature[1]/self.temperature[0]
-                part.uz[alive] = uz * self.temperature[2]/self.temperature[0]
+                part.uy[alive] = uy
+                part.uz[alive] = uz
             part.inv_gamma[alive] = 1 / np.sqrt(1 + part.ux[alive]**2 + part.uy[alive]**2 + part.uz[alive]**2)
 
     @staticmethod
-- 
2.43.0


From 5684a30632ae311678cf80fb991e7e6820cd8a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 27/44] fix: do not lose parts of outputs written by several
 processes

Ranks writing to the same chunk of a sliced dataset, or to neighbouring parts
of a particle dataset, wrote back stale data of each other. The collective
writer created the datasets in the order of a set, different on every rank.
---
 src/lambdapic/callback/hdf5.py | 43 ++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/lambdapic/callback/hdf5.py b/src/lambdapic/callback/hdf5.py
index 63c75a2..40ac578 100644
--- a/src/lambdapic/callback/hdf5.py
+++ b/src/lambdapic/callback/hdf5.py
@@ -250,6 +250,17 @@ class _HDF5SliceWriter:
                         dset[:] = np.nan
         comm.Barrier()
 
+        # chunks coincide with patches only without a slice: ranks sharing
+        # chunks would overwrite each other's data, so they write in turn
+        in_turn = any(n != d for n, d in zip(shape, dims))
+        for turn in range(comm.Get_size() if in_turn else 1):
+            if not in_turn or turn == rank:
+                self._write_patches(filename, sim, components, patch_data_fn, normalized_slice, ndim, dims, per_patch, pre_sliced)
+            comm.Barrier()
+
+    def _write_patches(
+        self, filename, sim, components, patch_data_fn, normalized_slice, ndim, dims, per_patch, pre_sliced: bool = False,
+    ):
         with h5py.File(filename, 'a', locking=False) as f:
             for comp in components:
                 dset = f[comp]
@@ -270,7 +281,6 @@ class _HDF5SliceWriter:
                         data = data[tuple(local_slices)]
                     out_idx = tuple(slice(o, o + n) for o, n in zip(out_starts, nums))
                     dset[out_idx] = data
-        comm.Barrier()
 
     @staticmethod
     def _patch_offsets(p, sim, ndim: int):
@@ -324,7 +334,8 @@ class SaveFieldsToHDF5(Callback):
         # Available field components
         self.all_components = {'ex','ey','ez','bx','by','bz','jx','jy','jz','rho'}
         if components is None:
-            self.components = list(self.all_components)
+            # in a fixed order: ranks create the datasets collectively
+            self.components = sorted(self.all_components)
         else:
             # Validate field components
             invalid = set(components) - self.all_components
@@ -679,19 +690,21 @@ class SaveParticlesToHDF5(Callback):
         
         comm.Barrier()
         
-        # Create chunked dataset with parallel access
-        with h5py.File(filename, 'a', locking=False) as f:
-            start = sum([sum(n) for n in npart_allpatches[:rank]])
-            for ipatch, p in enumerate(sim.patches):
-                is_alive = p.particles[self.species.ispec].is_alive
-                for attr in self.attrs:
-                    dset = f[attr]
-                    data = getattr(p.particles[self.species.ispec], attr)
-                    dset[start:start+npart_patches[ipatch]] = data[is_alive]
-                f['id'][start:start+npart_patches[ipatch]] = p.particles[self.species.ispec].id[is_alive]
-                start += npart_patches[ipatch]
-
-        comm.Barrier()
+        # Ranks write in turn: their parts of a dataset share the buffers of HDF5,
+        # which would write back stale data of other ranks
+        for turn in range(comm.Get_size()):
+            if turn == rank:
+                with h5py.File(filename, 'a', locking=False) as f:
+                    start = sum([sum(n) for n in npart_allpatches[:rank]])
+                    for ipatch, p in enumerate(sim.patches):
+                        is_alive = p.particles[self.species.ispec].is_alive
+                        for attr in self.attrs:
+                            dset = f[attr]
+                            data = getattr(p.particles[self.species.ispec], attr)
+                            dset[start:start+npart_patches[ipatch]] = data[is_alive]
+                        f['id'][start:start+npart_patches[ipatch]] = p.particles[self.species.ispec].id[is_alive]
+                        start += npart_patches[ipatch]
+            comm.Barrier()
         # Only rank 0 writes metadata
         if rank == 0:
             with h5py.File(filename, 'a') as f:
-- 
2.43.0


From 537bb0198ba734eade9527c8399e969115e86fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:20 +0000
Subject: [PATCH 28/44] fix: keep the cells outside of a masked domain nan in
 collective output

---
 src/lambdapic/callback/hdf5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lambdapic/callback/hdf5.py b/src/lambdapic/callback/hdf5.py
index 40ac578..4d2b8dc 100644
--- a/src/lambdapic/callback/hdf5.py
+++ b/src/lambdapic/callback/hdf5.py
@@ -218,6 +218,8 @@ class _HDF5SliceWriter:
         with h5py.File(filename, 'w', driver='mpio', comm=comm) as f:
             for comp in components:
                 dset = f.create_dataset(comp, data=np.zeros(shape, dtype='f8'), chunks=chunk_size)
+                # every rank writes the zeros, only some know the mask
+                comm.Barrier()
                 if hasattr(sim, 'domain_mask'):
                     dset[:] = np.nan
                 comm.Barrier()
-- 
2.43.0


From 2554799d7e90faf02a96d13b10bfd10080da7343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:20 +0000
Subject: [PATCH 29/44] fix: gather the right plane and sliced densities from
 other processes

Other ranks sent a plane shifted by the guard cells, positions between the
cell centres of two patches gave zeros, and a sliced density was received into
an array of another shape.
---
 src/lambdapic/callback/utils.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index d334098..8571855 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -163,21 +163,21 @@ def get_fields_3d(sim: Simulation3D, fields: Sequence[str], slice_at: Optional[f
     if slice_at < 0 or slice_at > sim.Lz:
         raise ValueError(f"Slice position {slice_at} is outside the simulation domain [0, {sim.Lz}]")
     
+    # Calculate the z-index for the slice
+    z_global = slice_at + sim.dz / 2  # Convert position to grid index
+    iz_global = min(int(z_global / sim.dz), nz - 1)
+
+    # The patches containing the slice and the index within them
+    ipatch_z_slice, iz_local = divmod(iz_global, nz_per_patch)
+
     # Create mapping from patch coordinates to patch index, only for patches containing the slice
     local_index_info = {}
     for ipatch, p in enumerate(patches):
-        # Check if this patch contains the slice_at position
-        if p.zmin <= slice_at <= p.zmax:
+        if p.ipatch_z == ipatch_z_slice:
             local_index_info[(p.ipatch_x, p.ipatch_y, p.ipatch_z)] = p.index
     
     index_info = sim.mpi.comm.gather(local_index_info)
     
-    # Calculate the z-index for the slice
-    z_global = slice_at + sim.dz / 2  # Convert position to grid index
-    iz_global = int(z_global / sim.dz)
-
-    iz_local = iz_global - iz_global // nz_per_patch * nz_per_patch
-    
     if sim.mpi.rank == 0:
         patch_index_map = {k: v for d in index_info for k, v in d.items()} if index_info else {}
         local_patches = {p.index: ipatch for ipatch, p in enumerate(patches)}
@@ -214,10 +214,7 @@ def get_fields_3d(sim: Simulation3D, fields: Sequence[str], slice_at: Optional[f
             req = []
             for p in patches:
                 # Only send data if this patch contains the z-slice
-                if p.zmin <= slice_at <= p.zmax:
-                    # Calculate local z-index within this patch
-                    iz_local = iz_global - p.ipatch_z * nz_per_patch + ng  # Add guard cells
-                    
+                if p.ipatch_z == ipatch_z_slice:
                     # Extract the z-slice from the 3D field data
                     field_data = getattr(p.fields, field)
                     slice_data = field_data[:, :, iz_local].copy()
@@ -320,7 +317,6 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                     local_y, out_y, num_y = y_info
                     self.density[out_x:out_x+num_x, out_y:out_y+num_y] = density_per_patch[ip]
 
-                buf = np.zeros((nx_per_patch, ny_per_patch))
                 for ipatch_x in range(npatch_x):
                     for ipatch_y in range(npatch_y):
                         x_info = _compute_patch_slice(sim.nx, sx, ipatch_x * nx_per_patch, nx_per_patch)
@@ -334,10 +330,11 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                             continue
                         if index in local_patches:
                             continue
-                        sim.mpi.comm.Recv(buf, tag=index)
                         local_x, out_x, num_x = x_info
                         local_y, out_y, num_y = y_info
-                        self.density[out_x:out_x+num_x, out_y:out_y+num_y] = buf[:num_x, :num_y]
+                        buf = np.zeros((num_x, num_y))
+                        sim.mpi.comm.Recv(buf, tag=index)
+                        self.density[out_x:out_x+num_x, out_y:out_y+num_y] = buf
             else:
                 # local
                 for ip, p in enumerate(sim.patches):
@@ -410,7 +407,6 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                     local_z, out_z, num_z = z_info
                     self.density[out_x:out_x+num_x, out_y:out_y+num_y, out_z:out_z+num_z] = density_per_patch[ip]
 
-                buf = np.zeros((nx_per_patch, ny_per_patch, nz_per_patch))
                 for ipatch_x in range(npatch_x):
                     for ipatch_y in range(npatch_y):
                         for ipatch_z in range(npatch_z):
@@ -422,11 +418,12 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                             index = patch_index_map[(ipatch_x, ipatch_y, ipatch_z)]
                             if index in local_patches:
                                 continue
-                            sim.mpi.comm.Recv(buf, tag=index)
                             local_x, out_x, num_x = x_info
                             local_y, out_y, num_y = y_info
                             local_z, out_z, num_z = z_info
-                            self.density[out_x:out_x+num_x, out_y:out_y+num_y, out_z:out_z+num_z] = buf[:num_x, :num_y, :num_z]
+                            buf = np.zeros((num_x, num_y, num_z))
+                            sim.mpi.comm.Recv(buf, tag=index)
+                            self.density[out_x:out_x+num_x, out_y:out_y+num_y, out_z:out_z+num_z] = buf
             else:
                 # local
                 for ip, p in enumerate(sim.patches):
-- 
2.43.0


From ca6b357384755b68ca2b7df3b08322ca3dfa2d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 30/44] fix: let photons with a set momentum move at the speed
 of light

---
 src/lambdapic/callback/utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 8571855..86d026a 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -857,6 +857,14 @@ class MovingWindow:
                 gens
             )
 
+def _inv_gamma(species: Species, ux: NDArray[np.float64], uy: NDArray[np.float64], uz: NDArray[np.float64]) -> NDArray[np.float64]:
+    """Inverse gamma factor, 1/|u| for moving massless particles."""
+    u2 = ux**2 + uy**2 + uz**2
+    if species.m == 0:
+        return 1 / np.sqrt(np.where(u2 > 0, u2, 1.0))
+    return 1 / np.sqrt(1 + u2)
+
+
 class SetMomentum(Callback):
     """
     Callback to set the particle momenta (ux, uy, uz) to specific values.
@@ -903,7 +911,7 @@ class SetMomentum(Callback):
                 part.uz[alive] = uz_target
             
             # Update inverse gamma factor from the resulting momenta
-            part.inv_gamma[alive] = 1 / np.sqrt(1 + part.ux[alive]**2 + part.uy[alive]**2 + part.uz[alive]**2)
+            part.inv_gamma[alive] = _inv_gamma(self.species, part.ux[alive], part.uy[alive], part.uz[alive])
 
 
 class SetMomentumAndTemperature(Callback):
@@ -988,7 +996,7 @@ class SetTemperature(Callback):
                 part.ux[alive] = ux
                 part.uy[alive] = uy
                 part.uz[alive] = uz
-            part.inv_gamma[alive] = 1 / np.sqrt(1 + part.ux[alive]**2 + part.uy[alive]**2 + part.uz[alive]**2)
+            part.inv_gamma[alive] = _inv_gamma(self.species, part.ux[alive], part.uy[alive], part.uz[alive])
 
     @staticmethod
     def maxwell_juttner_pdf(gamma: np.ndarray[float], theta: float) -> np.ndarray[float]:
-- 
2.43.0


From 5baeac1a0b8837d1606d075370a0ce5100403000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 31/44] fix: load particles at their gamma, once, with the
 attributes of their species

The inverse gamma was inverted, the attributes were taken from the first
species, momenta missing in the file were nan, and particles at the faces of
patches were lost or loaded twice.
---
 src/lambdapic/callback/utils.py | 42 +++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 86d026a..73ead30 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -1129,6 +1129,7 @@ class LoadParticles(Callback):
         
     def _load_from_file(self, sim: Simulation) -> None:
         attrs = self._filter_attributes(sim)
+        edges = self._patch_edges(sim)
         with h5py.File(self.file, 'r', locking=False) as f:
             total_particles = f['x'].shape[0]
             
@@ -1148,13 +1149,13 @@ class LoadParticles(Callback):
                 
                 # Process particle distribution for each patch
                 for ip, p in enumerate(sim.patches):
-                    inbound = (x >= p.xmin - p.dx/2) & (x < p.xmax + p.dx/2)
-                    
+                    inbound = self._inbound(x, p.xmin - p.dx/2, p.xmax + p.dx/2, edges['x'].get(p.ipatch_x + 1))
+
                     if sim.dimension >= 2:
-                        inbound &= (y >= p.ymin - p.dy/2) & (y < p.ymax + p.dy/2)
+                        inbound &= self._inbound(y, p.ymin - p.dy/2, p.ymax + p.dy/2, edges['y'].get(p.ipatch_y + 1))
                     
                     if sim.dimension == 3:
-                        inbound &= (z >= p.zmin - p.dz/2) & (z < p.zmax + p.dz/2)
+                        inbound &= self._inbound(z, p.zmin - p.dz/2, p.zmax + p.dz/2, edges['z'].get(p.ipatch_z + 1))
                     
                     npart = np.sum(inbound)
                     if npart == 0:
@@ -1164,19 +1165,46 @@ class LoadParticles(Callback):
                     part = p.particles[self.species.ispec]
                     part.extend(npart)
                     
+                    # particles are at rest unless the file says otherwise
+                    for attr in ('ux', 'uy', 'uz'):
+                        getattr(part, attr)[-npart:] = 0
+
                     # Assign particle attributes for this batch
                     for attr in attrs:
                         attr_data = data[attr][inbound]
                         getattr(part, attr)[-npart:] = attr_data
 
                     # update inv_gamma
-                    if 'ux' in attrs or 'uy' in attrs or 'uz' in attrs:
-                        part.inv_gamma[-npart:] = np.sqrt(1 + part.ux[-npart:]**2 + part.uy[-npart:]**2 + part.uz[-npart:]**2)
+                    part.inv_gamma[-npart:] = _inv_gamma(self.species, part.ux[-npart:], part.uy[-npart:], part.uz[-npart:])
 
                     # mark particles as alive
                     part.is_dead[-npart:] = False
         sim.update_lists()
 
+    @staticmethod
+    def _patch_edges(sim: Simulation) -> dict[str, dict[int, float]]:
+        """Lower edges of all patches along each axis.
+
+        A patch ends where the next one starts: its own upper edge differs
+        from that by rounding, particles in between would be lost or doubled.
+        """
+        edges = {
+            axis: {getattr(p, f'ipatch_{axis}'): getattr(p, f'{axis}0') - getattr(p, f'd{axis}')/2 for p in sim.patches}
+            for axis in 'xyz'[:sim.dimension]
+        }
+        merged: dict[str, dict[int, float]] = {axis: {} for axis in edges}
+        for edges_rank in sim.mpi.comm.allgather(edges):
+            for axis in merged:
+                merged[axis].update(edges_rank[axis])
+        return merged
+
+    @staticmethod
+    def _inbound(pos: NDArray[np.float64], lower: float, upper: float, lower_next: float|None) -> NDArray[np.bool_]:
+        if lower_next is None or upper < lower_next - 1e-6*(upper - lower):
+            # end of the domain or of its inner part: nothing follows
+            return (pos >= lower) & (pos <= upper)
+        return (pos >= lower) & (pos < lower_next)
+
     def _filter_attributes(self, sim: Simulation, ) -> set[str]:
         with h5py.File(self.file, 'r', locking=False) as f:
             attrs_file: set[str] = set(f.keys())
@@ -1190,7 +1218,7 @@ class LoadParticles(Callback):
         if 'w' not in attrs_file:
             raise ValueError(f"Attribute 'w' not found in {self.file}")
 
-        attrs = attrs_file.intersection(sim.patches[0].particles[0].attrs)
+        attrs = attrs_file.intersection(sim.patches[0].particles[self.species.ispec].attrs)
         if '_id' in attrs:
             attrs.remove('_id')
         if 'inv_gamma' in attrs:
-- 
2.43.0


From bb1c52d37f058c0b7e3cd3f098fae4baead25393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:30 +0000
Subject: [PATCH 32/44] fix: leave disabled species out of collisions and of
 the Debye length

---
 src/lambdapic/core/collision/collision.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/collision/collision.py b/src/lambdapic/core/collision/collision.py
index 120577c..1be5538 100644
--- a/src/lambdapic/core/collision/collision.py
+++ b/src/lambdapic/core/collision/collision.py
@@ -155,8 +155,9 @@ class Collision(PickleableTypedList):
     def calculate_debye_length(self) -> None:
         reset = True
         for s in self.all_species:
-            if s.q == 0:
-                # neutral particles do not screen
+            if s.q == 0 or not s.is_enabled():
+                # neutral particles do not screen, and the buckets of a
+                # species that is not sorted are stale
                 continue
             debye_length_patches(
                 self.part_lists[s.ispec],
@@ -193,6 +194,9 @@ class Collision(PickleableTypedList):
                 continue
 
             ispec1, ispec2 = pair
+            if not (self.all_species[ispec1].is_enabled() and self.all_species[ispec2].is_enabled()):
+                continue
+
             if ispec1 == ispec2:
                 ispec = ispec1
                 intra_collision_patches(
-- 
2.43.0


From e3b65e5b3765bbd80b2b3c5642ea7817e6c466b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:30 +0000
Subject: [PATCH 33/44] fix: density of a species that follows disabled ones

---
 src/lambdapic/callback/hdf5.py | 39 ++++++++++++++++------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/lambdapic/callback/hdf5.py b/src/lambdapic/callback/hdf5.py
index 4d2b8dc..b1d6b6d 100644
--- a/src/lambdapic/callback/hdf5.py
+++ b/src/lambdapic/callback/hdf5.py
@@ -472,26 +472,23 @@ class SaveSpeciesDensityToHDF5(Callback):
             self._normalized_slice = None
         filename = self.prefix / f"{self.species.name}_{sim.itime:06d}.h5"
             
-        if self.ispec_target == 0:
-            if sim.ispec == 0:
-                sim.sync_currents()
-                density = self._compute_density(sim, self._normalized_slice)
-                if sim.dimension == 2:
-                    self._write_2d(sim, density, filename)
-                elif sim.dimension == 3:
-                    self._write_3d(sim, density, filename)
-        else:
-            if sim.ispec == self.ispec_target - 1:
-                sim.sync_currents()
-                self.prev_rho = self._extract_prev_rho(sim, self._normalized_slice)
-            elif sim.ispec == self.ispec_target:
-                sim.sync_currents()
-                density = self._compute_density(sim, self._normalized_slice)
-                if sim.dimension == 2:
-                    self._write_2d(sim, density, filename)
-                elif sim.dimension == 3:
-                    self._write_3d(sim, density, filename)
+        # charge is accumulated species by species: the density is the difference
+        # to the last species before that is enabled, if there is any
+        previous = [i for i in range(self.ispec_target) if sim.patches.species[i].is_enabled()]
+
+        if previous and sim.ispec == previous[-1]:
+            sim.sync_currents()
+            self.prev_rho = self._extract_prev_rho(sim, self._normalized_slice)
+        elif sim.ispec == self.ispec_target:
+            if not previous:
                 self.prev_rho = None
+            sim.sync_currents()
+            density = self._compute_density(sim, self._normalized_slice)
+            if sim.dimension == 2:
+                self._write_2d(sim, density, filename)
+            elif sim.dimension == 3:
+                self._write_3d(sim, density, filename)
+            self.prev_rho = None
 
     def _extract_prev_rho(self, sim: Union[Simulation, Simulation3D], normalized_slice: tuple[slice, ...] | None) -> List[np.ndarray | None]:
         if normalized_slice is None:
@@ -535,7 +532,7 @@ class SaveSpeciesDensityToHDF5(Callback):
                     rho = p.fields.rho[:p.fields.nx, :p.fields.ny]
                 else:
                     rho = p.fields.rho[:p.fields.nx, :p.fields.ny, :p.fields.nz]
-                if self.ispec_target == 0:
+                if self.prev_rho is None:
                     d = rho / self.species.q
                 else:
                     d = (rho - self.prev_rho[ip]) / self.species.q
@@ -565,7 +562,7 @@ class SaveSpeciesDensityToHDF5(Callback):
                 continue
 
             local_slices = tuple(si[0] for si in slices_info)
-            if self.ispec_target == 0:
+            if self.prev_rho is None:
                 rho = p.fields.rho[local_slices]
             else:
                 rho = p.fields.rho[local_slices] - self.prev_rho[ip]
-- 
2.43.0


From bf5cbba593ade17ae14bb3956770e1fc8629d59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:30 +0000
Subject: [PATCH 34/44] fix: a disabled load balancer must not rebalance

---
 src/lambdapic/core/mpi/load_balancer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lambdapic/core/mpi/load_balancer.py b/src/lambdapic/core/mpi/load_balancer.py
index 093dcf7..a39eb61 100644
--- a/src/lambdapic/core/mpi/load_balancer.py
+++ b/src/lambdapic/core/mpi/load_balancer.py
@@ -245,6 +245,9 @@ class LoadBalancer(EnableMixin):
             logger.debug(f"Rank {self.rank}: patch {p.index} load: {self.local_loads[ipatch]}")
 
     def should_rebalance(self) -> bool:
+        if not self.is_enabled():
+            return False
+
         if self.local_loads is None or len(self.local_loads) == 0:
             return False
 
-- 
2.43.0


From 804dde8423294119696896599802bff795ac964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:30 +0000
Subject: [PATCH 35/44] fix: take a species through a whole step or none,
 respect disabled modules in the unified pusher

---
 src/lambdapic/simulation/simulation.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index a6e343f..0ecda69 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -963,11 +963,12 @@ class Simulation:
                 
             with Timer("maxwell_1"):
                 stage_callbacks.run('maxwell_1')
-                
 
-            for ispec, s in enumerate(self.patches.species):
-                if not s.is_enabled():
-                    continue
+            # a species takes part in the whole step or not at all, also when
+            # a callback enables or disables it in between
+            active_species = [(ispec, s) for ispec, s in enumerate(self.patches.species) if s.is_enabled()]
+
+            for ispec, s in active_species:
                 self.ispec = ispec
 
                 with Timer(f"Sorting {self.species[ispec].name}"):
@@ -982,12 +983,14 @@ class Simulation:
             if self.current_depositor:
                 self.current_depositor.reset()
             self.current_synced = False
-            for ispec, s in enumerate(self.patches.species):
-                if not s.is_enabled():
-                    continue
+            for ispec, s in active_species:
                 self.ispec = ispec
 
-                if use_unified_pusher[ispec]:
+                # the unified pusher also interpolates and deposits
+                if use_unified_pusher[ispec] and \
+                    self.pusher[ispec].is_enabled() and \
+                    self.interpolator and self.interpolator.is_enabled() and \
+                    self.current_depositor and self.current_depositor.is_enabled():
                     with Timer(f"unified pusher for {self.species[ispec].name}"):
                         self.pusher[ispec](self.dt, unified=True)
                     self.current_synced = False
@@ -1051,9 +1054,7 @@ class Simulation:
             # TODO: the position and momentum of ele are pushed
             # before photons are created, so the photons are created
             # at t+dt. It will be fixed later.
-            for ispec, s in enumerate(self.patches.species):
-                if not s.is_enabled():
-                    continue
+            for ispec, s in active_species:
                 with Timer(f'create photons for {self.species[ispec].name}'):
                     if self.radiation[ispec] is not None:
                         # creating photons involves two species
-- 
2.43.0


From 449153c3b1efb8c37d3bcf92c5756da34dce9a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 36/44] fix: lasers read B of the neighbouring patches of this
 step

---
 src/lambdapic/simulation/simulation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 0ecda69..acf7ad2 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -1100,6 +1100,12 @@ class Simulation:
             with Timer('update B field'):
                 self.maxwell.update_bfield(0.5*self.dt)
                 
+            if stage_callbacks.stage_callbacks['_laser']:
+                # lasers read B beyond the patch
+                with Timer('sync B field'):
+                    self.patches.sync_guard_fields(['bx', 'by', 'bz'])
+                    self.mpi.sync_guard_fields(['bx', 'by', 'bz'])
+
             with Timer("laser"):
                 stage_callbacks.run('_laser')
                 
-- 
2.43.0


From 3d17e9b7fe3f03615eac7fe1b74cff2450371b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 37/44] fix: a laser centred at y0=0 or z0=0 is not a laser
 centred in the domain

---
 src/lambdapic/callback/laser.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lambdapic/callback/laser.py b/src/lambdapic/callback/laser.py
index 25ae4b9..51b85f2 100644
--- a/src/lambdapic/callback/laser.py
+++ b/src/lambdapic/callback/laser.py
@@ -153,19 +153,19 @@ class Laser:
 class Laser2D(Laser):
     def _get_r(self, sim: Simulation, patch: Patch2D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
         r = abs(f.yaxis[0, :] - sim.dy/2 - y0)
         return r
     
     def _get_phi(self, sim: Simulation2D, patch: Patch2D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
         phi = np.arctan2(0.0, f.yaxis[0, :] - sim.dy/2 - y0)
         return phi
         
     def _get_boundary_coordinates(self, sim: Simulation2D, patch: Patch2D):
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
         y = f.yaxis[0, :] - sim.dy/2 - y0
         z = 0.0
         r = abs(y)
@@ -192,24 +192,24 @@ class Laser2D(Laser):
 class Laser3D(Laser):
     def _get_r(self, sim: Simulation3D, patch: Patch3D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
-        z0 = self.z0 or sim.Lz/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
+        z0 = sim.Lz/2 if self.z0 is None else self.z0
         r = ((f.yaxis[0, :, :] - sim.dy/2 - y0)**2 + 
              (f.zaxis[0, :, :] - sim.dz/2 - z0)**2)**0.5
         return r
     
     def _get_phi(self, sim: Simulation3D, patch: Patch3D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
-        z0 = self.z0 or sim.Lz/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
+        z0 = sim.Lz/2 if self.z0 is None else self.z0
         phi = np.arctan2(f.zaxis[0, :, :] - sim.dz/2 - z0,
                          f.yaxis[0, :, :] - sim.dy/2 - y0)
         return phi
         
     def _get_boundary_coordinates(self, sim: Simulation3D, patch: Patch3D):
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
-        z0 = self.z0 or sim.Lz/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
+        z0 = sim.Lz/2 if self.z0 is None else self.z0
         
         y = f.yaxis[0, :, :] - sim.dy/2 - y0
         z = f.zaxis[0, :, :] - sim.dz/2 - z0
-- 
2.43.0


From 965c4330081626bdd88968d47a0f740916375928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 38/44] fix: an oblique laser must not emit before its front
 arrives

---
 src/lambdapic/callback/laser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/laser.py b/src/lambdapic/callback/laser.py
index 51b85f2..dd83eea 100644
--- a/src/lambdapic/callback/laser.py
+++ b/src/lambdapic/callback/laser.py
@@ -364,7 +364,7 @@ class SimpleLaser(Laser):
 
         # Calculate temporal profile (sin² envelope for smooth turn-on/off)
         t_rot = c*time - y * np.sin(self.angle_y)
-        tprof = np.sin(t_rot/(2*self.ctau)*pi)**2 * (t_rot < 2*self.ctau)
+        tprof = np.sin(t_rot/(2*self.ctau)*pi)**2 * (t_rot > 0) * (t_rot < 2*self.ctau)
 
         # Amplitude envelope (Gaussian transverse profile + temporal envelope)
         amp = self.E0 * np.exp(-r_rot**2/self.w0**2) * tprof
-- 
2.43.0


From 6f4d8b0d87d03735358dfba6f65c0b7c55eae91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 39/44] fix: a laser on patches too small for it is an error,
 not a lost pulse

---
 src/lambdapic/callback/laser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lambdapic/callback/laser.py b/src/lambdapic/callback/laser.py
index dd83eea..cc3bbd4 100644
--- a/src/lambdapic/callback/laser.py
+++ b/src/lambdapic/callback/laser.py
@@ -119,6 +119,8 @@ class Laser:
         if self.side == "xmin":
             ipatch_x = 0
             laserpos = sim.cpml_thickness + 2
+            if sim.nx_per_patch < laserpos:
+                raise ValueError(f"Patches with {sim.nx_per_patch} cells in x are too small to inject a laser, at least {laserpos} cells are needed.")
             patches = list(filter(lambda p: p.ipatch_x == ipatch_x, sim.patches))
             n_pmlxmin = sum(isinstance(pml, PMLXmin) for p in patches for pml in p.pml_boundary)
             if n_pmlxmin < len(patches):
-- 
2.43.0


From b77be0a3425b8438432d3a7eda7700d067738acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 40/44] fix: a disabled laser within a sum must not emit

---
 src/lambdapic/callback/laser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/callback/laser.py b/src/lambdapic/callback/laser.py
index cc3bbd4..162deb4 100644
--- a/src/lambdapic/callback/laser.py
+++ b/src/lambdapic/callback/laser.py
@@ -255,8 +255,8 @@ class _CombinedLaser(Laser):
 
     def _calculate_bound_fields(self, sim: Simulation, patch: Patch) -> tuple[NDArray[np.float64], NDArray[np.float64]]:
         # Calculate source fields from both lasers and sum them
-        ey1, ez1 = self.laser1._calculate_bound_fields(sim, patch)
-        ey2, ez2 = self.laser2._calculate_bound_fields(sim, patch)
+        ey1, ez1 = (None, None) if self.laser1.disabled else self.laser1._calculate_bound_fields(sim, patch)
+        ey2, ez2 = (None, None) if self.laser2.disabled else self.laser2._calculate_bound_fields(sim, patch)
 
         if ey1 is None and ey2 is None:
             return None, None
-- 
2.43.0


From e2d034c3ceefdd9dca4cab8139913bc9352e9428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 41/44] fix: the laser must not write into the PML of z as it
 does not into that of y

---
 src/lambdapic/callback/laser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/laser.py b/src/lambdapic/callback/laser.py
index 162deb4..48f1990 100644
--- a/src/lambdapic/callback/laser.py
+++ b/src/lambdapic/callback/laser.py
@@ -56,7 +56,8 @@ def _update_laser_bfields_3d(
     ey_source: NDArray[np.float64], ez_source: NDArray[np.float64], 
 ):
     for iy in prange(iy_start, iy_end):
-        bx[laserpos-1, iy, :] = bx[0, iy, :]
+        for iz in range(iz_start, iz_end):
+            bx[laserpos-1, iy, iz] = bx[0, iy, iz]
     for iy in prange(iy_start, iy_end):
         for iz in range(iz_start, iz_end):
             bz[laserpos-1, iy, iz] = 1 / ((c*dt / dx + 1)*c) * (
-- 
2.43.0


From c0a89fb89374a07cc3931463739173593726ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:00 +0000
Subject: [PATCH 42/44] fix: threads must not add to the same currents at once
 when they come from other processes

---
 src/lambdapic/core/mpi/sync_fields2d.c | 3 ++-
 src/lambdapic/core/mpi/sync_fields3d.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/mpi/sync_fields2d.c b/src/lambdapic/core/mpi/sync_fields2d.c
index d011de3..8d85f17 100644
--- a/src/lambdapic/core/mpi/sync_fields2d.c
+++ b/src/lambdapic/core/mpi/sync_fields2d.c
@@ -472,7 +472,8 @@ static PyObject* sync_currents_2d_wait(PyObject* self, PyObject* args) {
     }
 
     Py_BEGIN_ALLOW_THREADS
-    #pragma omp parallel for collapse(2)
+    // one thread per patch: the boundaries of a patch overlap
+    #pragma omp parallel for
     for (npy_intp ipatch = 0; ipatch < h->npatches; ipatch++) {
         for (int ibound = 0; ibound < NUM_BOUNDARIES; ibound++) {
             npy_intp i = ipatch * NUM_BOUNDARIES + ibound;
diff --git a/src/lambdapic/core/mpi/sync_fields3d.c b/src/lambdapic/core/mpi/sync_fields3d.c
index d05d587..c2debff 100644
--- a/src/lambdapic/core/mpi/sync_fields3d.c
+++ b/src/lambdapic/core/mpi/sync_fields3d.c
@@ -824,7 +824,8 @@ static PyObject* sync_currents_3d_wait(PyObject* self, PyObject* args) {
     }
 
     Py_BEGIN_ALLOW_THREADS
-    #pragma omp parallel for collapse(2)
+    // one thread per patch: the boundaries of a patch overlap
+    #pragma omp parallel for
     for (npy_intp ipatch = 0; ipatch < h->npatches; ipatch++) {
         for (int ibound = 0; ibound < NUM_BOUNDARIES; ibound++) {
             npy_intp i = ipatch * NUM_BOUNDARIES + ibound;
-- 
2.43.0


From a88643b829da7dec53eef578beac8e4c6c71e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:07 +0000
Subject: [PATCH 43/44] fix: counting migrating particles leaked its result
 arrays in every step

PyTuple_Pack takes references of its own, those of the arrays were never
given up. The local exchange freed the data of two of them by hand, which
was safe only because the arrays themselves stayed alive for ever.
---
 src/lambdapic/core/mpi/sync_particles_2d.c   | 3 ++-
 src/lambdapic/core/mpi/sync_particles_3d.c   | 3 ++-
 src/lambdapic/core/patch/sync_particles_2d.c | 7 ++++---
 src/lambdapic/core/patch/sync_particles_3d.c | 7 ++++---
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lambdapic/core/mpi/sync_particles_2d.c b/src/lambdapic/core/mpi/sync_particles_2d.c
index 68a3cd0..ff71bc1 100644
--- a/src/lambdapic/core/mpi/sync_particles_2d.c
+++ b/src/lambdapic/core/mpi/sync_particles_2d.c
@@ -795,7 +795,8 @@ PyObject* get_npart_to_extend_2d(PyObject* self, PyObject* args) {
     
     Py_END_ALLOW_THREADS
     
-    PyObject *ret = PyTuple_Pack(3, npart_to_extend_array, npart_incoming_array, npart_outgoing_array);
+    // "N": the tuple takes over the references
+    PyObject *ret = Py_BuildValue("NNN", npart_to_extend_array, npart_incoming_array, npart_outgoing_array);
     return ret;
 }
 
diff --git a/src/lambdapic/core/mpi/sync_particles_3d.c b/src/lambdapic/core/mpi/sync_particles_3d.c
index fa721bf..2d90e5f 100644
--- a/src/lambdapic/core/mpi/sync_particles_3d.c
+++ b/src/lambdapic/core/mpi/sync_particles_3d.c
@@ -974,7 +974,8 @@ PyObject* get_npart_to_extend_3d(PyObject* self, PyObject* args) {
     
     Py_END_ALLOW_THREADS
     
-    PyObject *ret = PyTuple_Pack(3, npart_to_extend_array, npart_incoming_array, npart_outgoing_array);
+    // "N": the tuple takes over the references
+    PyObject *ret = Py_BuildValue("NNN", npart_to_extend_array, npart_incoming_array, npart_outgoing_array);
     return ret;
 }
 
diff --git a/src/lambdapic/core/patch/sync_particles_2d.c b/src/lambdapic/core/patch/sync_particles_2d.c
index cad67c1..757502d 100644
--- a/src/lambdapic/core/patch/sync_particles_2d.c
+++ b/src/lambdapic/core/patch/sync_particles_2d.c
@@ -335,7 +335,8 @@ PyObject* get_npart_to_extend_2d(PyObject* self, PyObject* args) {
     }
     Py_END_ALLOW_THREADS
     
-    PyObject *ret = PyTuple_Pack(4, npart_to_extend_array, npart_incoming_array, npart_outgoing_array, npart_patches_array);
+    // "N": the tuple takes over the references
+    PyObject *ret = Py_BuildValue("NNNN", npart_to_extend_array, npart_incoming_array, npart_outgoing_array, npart_patches_array);
     return ret;
 }
 
@@ -379,8 +380,8 @@ PyObject* fill_particles_from_boundary_2d(PyObject* self, PyObject* args) {
     AUTOFREE double *ymin_list = get_attr_double(patch_list, npatches, "ymin");
     AUTOFREE double *ymax_list = get_attr_double(patch_list, npatches, "ymax");
 
-    AUTOFREE npy_intp *npart_incoming = PyArray_DATA(npart_incoming_array);
-    AUTOFREE npy_intp *npart_outgoing = PyArray_DATA(npart_outgoing_array);
+    npy_intp *npart_incoming = PyArray_DATA(npart_incoming_array);
+    npy_intp *npart_outgoing = PyArray_DATA(npart_outgoing_array);
 
     npy_intp nattrs = PyList_Size(attrs);
 
diff --git a/src/lambdapic/core/patch/sync_particles_3d.c b/src/lambdapic/core/patch/sync_particles_3d.c
index af53da1..4023a3f 100644
--- a/src/lambdapic/core/patch/sync_particles_3d.c
+++ b/src/lambdapic/core/patch/sync_particles_3d.c
@@ -497,7 +497,8 @@ PyObject* get_npart_to_extend_3d(PyObject* self, PyObject* args) {
     }
     Py_END_ALLOW_THREADS
     
-    PyObject *ret = PyTuple_Pack(4, npart_to_extend_array, npart_incoming_array, npart_outgoing_array, npart_array);
+    // "N": the tuple takes over the references
+    PyObject *ret = Py_BuildValue("NNNN", npart_to_extend_array, npart_incoming_array, npart_outgoing_array, npart_array);
     return ret;
 }
 
@@ -555,8 +556,8 @@ PyObject* fill_particles_from_boundary_3d(PyObject* self, PyObject* args) {
         zmax_list[ipatch] += 0.5 * dz;
     }
 
-    AUTOFREE npy_intp *npart_incoming = PyArray_DATA(npart_incoming_array);
-    AUTOFREE npy_intp *npart_outgoing = PyArray_DATA(npart_outgoing_array);
+    npy_intp *npart_incoming = PyArray_DATA(npart_incoming_array);
+    npy_intp *npart_outgoing = PyArray_DATA(npart_outgoing_array);
 
     npy_intp nattrs = PyList_Size(attrs);
     Py_ssize_t iattr_x = -1, iattr_y = -1, iattr_z = -1;
-- 
2.43.0


From 51a86ed1f786f1730ebd986487f400e99c810ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:07 +0000
Subject: [PATCH 44/44] fix: every rebalancing kept all particle arrays of the
 time alive

The lists of current deposition and interpolation were appended to, so the
arrays of patches sent away or extended since were never freed and went
into each checkpoint.
---
 src/lambdapic/core/current/deposition.py             | 12 ++++++++++++
 .../core/interpolation/field_interpolation.py        | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/lambdapic/core/current/deposition.py b/src/lambdapic/core/current/deposition.py
index 1579566..ec501f5 100644
--- a/src/lambdapic/core/current/deposition.py
+++ b/src/lambdapic/core/current/deposition.py
@@ -51,6 +51,18 @@ class CurrentDeposition(EnableMixin):
             List of particles of all patches. 
         """
 
+        # generated anew: older lists would keep the arrays of patches sent away
+        self.x_list = []
+        self.y_list = []
+        self.z_list = []
+        self.w_list = []
+        self.ux_list = []
+        self.uy_list = []
+        self.uz_list = []
+        self.inv_gamma_list = []
+        self.is_dead_list = []
+        self.q = []
+
         for ispec, s in enumerate(self.patches.species):
             self.x_list.append([p.particles[ispec].x for p in self.patches])
             self.w_list.append([p.particles[ispec].w for p in self.patches])
diff --git a/src/lambdapic/core/interpolation/field_interpolation.py b/src/lambdapic/core/interpolation/field_interpolation.py
index b5c64f8..f28ce92 100644
--- a/src/lambdapic/core/interpolation/field_interpolation.py
+++ b/src/lambdapic/core/interpolation/field_interpolation.py
@@ -54,6 +54,18 @@ class FieldInterpolation(EnableMixin):
             List of particles of all patches. 
         """
 
+        # generated anew: older lists would keep the arrays of patches sent away
+        self.x_list = []
+        self.y_list = []
+        self.z_list = []
+        self.ex_part_list = []
+        self.ey_part_list = []
+        self.ez_part_list = []
+        self.bx_part_list = []
+        self.by_part_list = []
+        self.bz_part_list = []
+        self.is_dead_list = []
+
         for ispec, s in enumerate(self.patches.species):
             self.x_list.append([p.particles[ispec].x for p in self.patches])
             self.ex_part_list.append([p.particles[ispec].ex_part for p in self.patches])
-- 
2.43.0

