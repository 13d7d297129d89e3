From ae4f54cdd6cb4583fe69383584ea2f774fcf335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 01/57] fix: keep points on the upper box boundary in the last
 grid cell

The cell index was clipped to num_cells instead of num_cells - 1, so a point
on the upper boundary got the key of another cell or of the next batch entry
and fell out of the fast access data structure.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 5ed51f3..024a6fa 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -43,7 +43,7 @@ def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, name=None):
   cell_ind = tf.cast(cell_ind, tf.int32)
   cell_ind = tf.minimum(
       tf.maximum(cell_ind, tf.zeros_like(cell_ind)),
-      num_cells)
+      num_cells - 1)
   cell_multiplier = tf.math.cumprod(num_cells, reverse=True)
   cell_multiplier = tf.concat((cell_multiplier, [1]), axis=0)
   keys = point_cloud._batch_ids * cell_multiplier[0] + \
-- 
2.43.0


From 840ff02a89c98c96955b29cc64c9cdfcebe6e58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 02/57] fix: clip the cells visited by find_neighbors_tf to the
 grid

The upper limit was num_cells, one past the last cell, which made gather_nd
fail (or return zeros) for centers next to the upper boundary.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 024a6fa..a116daa 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -158,7 +158,7 @@ def find_neighbors_tf(grid,
   center_cell_ind_2D = tf.cast(center_cell_ind_2D, tf.int32)
   center_cell_ind_2D = tf.minimum(
       tf.maximum(center_cell_ind_2D, tf.zeros_like(center_cell_ind_2D)),
-      grid._num_cells[:2])
+      grid._num_cells[:2] - 1)
   # find neighbors using fast 2D grid datastructure
   neighbor_points = grid._sorted_points
   neighbor_batch_ids = grid._sorted_batch_ids
@@ -185,7 +185,7 @@ def find_neighbors_tf(grid,
     # clip to range between 0 and max num cells
     adj_cell_ids_2D = tf.minimum(
       tf.maximum(adj_cell_ids_2D, tf.zeros_like(adj_cell_ids_2D)),
-      grid._num_cells[:2])
+      grid._num_cells[:2] - 1)
     # get min and max point ids of the adjacent cells
     adj_ids = tf.gather_nd(data_structure[cur_batch_id], [adj_cell_ids_2D])
     adj_ids_start = tf.reduce_min(adj_ids[0, :, 0])
-- 
2.43.0


From b0c4a248533d54cf7cdd8ce30e04a21776731d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 03/57] fix: stack the scalar neighborhood ranges in
 find_neighbors_tf

tf.concat does not accept scalars, so every call failed.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index a116daa..b99d151 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -207,7 +207,7 @@ def find_neighbors_tf(grid,
     center_neigh_ranges.append(cur_neigh_range)
 
   neighbors = tf.concat(neighbors, axis=0)
-  center_neigh_ranges = tf.concat(center_neigh_ranges, axis=0)
+  center_neigh_ranges = tf.stack(center_neigh_ranges, axis=0)
 
   return center_neigh_ranges, neighbors
 tf.no_gradient('FindNeighborsTF')
-- 
2.43.0


From 40f8eeaf871c9bef5e6835fd0cfe74a170327351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 04/57] fix: locate centers with the cell sizes of the grid in
 find_neighbors_tf

The cell of a center was computed with the radii, so with radii smaller than
the cell sizes the wrong cells were searched and neighbors were missed.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index b99d151..cef386b 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -154,7 +154,8 @@ def find_neighbors_tf(grid,
   aabb_min_per_center_point_2D = tf.gather(
       abb_min_per_batch_2D, center_batch_ids)
   center_cell_ind_2D = tf.math.floor(
-      (center_points[:, :2] - aabb_min_per_center_point_2D) / radii[:2])
+      (center_points[:, :2] - aabb_min_per_center_point_2D) /
+      grid._cell_sizes[:2])
   center_cell_ind_2D = tf.cast(center_cell_ind_2D, tf.int32)
   center_cell_ind_2D = tf.minimum(
       tf.maximum(center_cell_ind_2D, tf.zeros_like(center_cell_ind_2D)),
-- 
2.43.0


From ba3f19391879d2a2346ad539e4415471b437ee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 05/57] fix: use the radius of every dimension in
 find_neighbors_tf

Only the first radius was compared with the distance; the radii of the other
dimensions were ignored.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index cef386b..7268ba0 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -195,8 +195,9 @@ def find_neighbors_tf(grid,
     adj_points = neighbor_points[adj_ids_start:adj_ids_end]
     adj_batch_ids = neighbor_batch_ids[adj_ids_start:adj_ids_end]
     distances = tf.linalg.norm(
-        adj_points - tf.reshape(cur_point, [1, -1]), axis=1)
-    close = (distances < radii[0])
+        (adj_points - tf.reshape(cur_point, [1, -1])) /
+        tf.reshape(radii, [1, -1]), axis=1)
+    close = (distances < 1.0)
     same_batch = (adj_batch_ids == cur_batch_id)
     close = tf.math.logical_and(close, same_batch)
     close_ids = tf.boolean_mask(tf.range(adj_ids_start, adj_ids_end), close)
-- 
2.43.0


From 26ddeff66c15770f043e857c11b609a3fb71d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 06/57] fix: accept a single float as radius in
 find_neighbors_tf

The documented float failed when its shape was indexed.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 7268ba0..38ad862 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -138,9 +138,9 @@ def find_neighbors_tf(grid,
       `grid._sorted_points`.
 
   """
-  radii = tf.convert_to_tensor(value=radii)
+  radii = tf.reshape(tf.convert_to_tensor(value=radii, dtype=tf.float32), [-1])
   radii = tf.cond(
-      tf.logical_or(tf.shape(radii)[0] == [], tf.shape(radii)[0] == 1),
+      tf.shape(radii)[0] == 1,
       lambda: tf.repeat(radii, grid._point_cloud._dimension),
       lambda: radii)
   # condition without graph mode
-- 
2.43.0


From 2cc31cdd813bda2ccd36229076605be57bd6bef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 07/57] fix: respect max_neighbors in find_neighbors_tf

The argument was ignored.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 38ad862..3b83e11 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -201,6 +201,8 @@ def find_neighbors_tf(grid,
     same_batch = (adj_batch_ids == cur_batch_id)
     close = tf.math.logical_and(close, same_batch)
     close_ids = tf.boolean_mask(tf.range(adj_ids_start, adj_ids_end), close)
+    if max_neighbors > 0:
+      close_ids = close_ids[:max_neighbors]
 
     cur_neighbors = tf.stack(
         (close_ids, tf.ones_like(close_ids) * i), axis=1)
-- 
2.43.0


From 58b3d6557ad9138b4f98883c63dfb7d3df7d25b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 08/57] fix: ranges of centers without neighbors in
 find_neighbors_no_grid

The range end of a center without neighbors was the smallest int32.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 3b83e11..d099783 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -242,7 +242,6 @@ def find_neighbors_no_grid(point_cloud,
   batch_ids = point_cloud._batch_ids
   center_points = point_cloud_centers._points
   center_batch_ids = point_cloud_centers._batch_ids
-  num_center_points = tf.shape(center_points)[0]
 
   distances = tf.linalg.norm(tf.expand_dims(points, axis=0) - \
                              tf.expand_dims(center_points, axis=1),
@@ -254,11 +253,8 @@ def find_neighbors_no_grid(point_cloud,
 
   neighbors = tf.where(close)
   neighbors = tf.reverse(neighbors, axis=[1])
-  num_neighbors = tf.shape(neighbors)[0]
-  neigh_ranges = tf.math.unsorted_segment_max(
-      tf.range(1, num_neighbors + 1),
-      neighbors[:, 1],
-      num_center_points)
+  neigh_ranges = tf.math.cumsum(
+      tf.reduce_sum(tf.cast(close, tf.int32), axis=1))
   return neigh_ranges, neighbors
 tf.no_gradient('FindNeighborsNoGrid')
 
-- 
2.43.0


From 3f452f1e9b198b9855185f473325d6655229cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 09/57] fix: repeat the converted radius in Neighborhood

The raw argument was repeated, so an int or float64 radius produced radii of
the wrong type and the neighbor search failed.
---
 pylib/pc/Neighborhood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index 8819547..d2f2284 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -224,7 +224,7 @@ class Neighborhood:
     radii = tf.reshape(tf.cast(tf.convert_to_tensor(value=radius),
                                tf.float32), [-1])
     if radii.shape[0] == 1:
-      radii = tf.repeat(radius, grid._point_cloud._dimension)
+      radii = tf.repeat(radii, grid._point_cloud._dimension)
     #Save the attributes.
     if point_cloud_sample is None:
       self._equal_samples = True
-- 
2.43.0


From 4c8d5c6f84c3053555e789c156be8ba7c0664be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 10/57] fix: make find_neighbors_tf usable in graph mode

Collecting the neighbors of every center in a Python list fails inside a
tf.function. The pairs of centers and points in adjacent cells are built at
once instead, which also avoids a loop over all the centers.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 84 +++++++++++++---------------
 1 file changed, 39 insertions(+), 45 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index d099783..84ad2f5 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -165,53 +165,47 @@ def find_neighbors_tf(grid,
   neighbor_batch_ids = grid._sorted_batch_ids
   data_structure = grid.get_DS()
 
-  neighbors = []
-  center_neigh_ranges = []
-  cur_neigh_range = 0
-  for i in range(tf.shape(center_points)[0]):
-    cur_point = center_points[i]
-    cur_batch_id = center_batch_ids[i]
-    # get cell_ids of adjacent 2D cells (9 in total)
-    cur_cell_id_2D = center_cell_ind_2D[i]
-    adj_cell_ids_2D = tf.stack(
-        (cur_cell_id_2D + [-1, -1],
-         cur_cell_id_2D + [-1, 0],
-         cur_cell_id_2D + [-1, 1],
-         cur_cell_id_2D + [0, 1],
-         cur_cell_id_2D,
-         cur_cell_id_2D + [0, -1],
-         cur_cell_id_2D + [1, -1],
-         cur_cell_id_2D + [1, 0],
-         cur_cell_id_2D + [1, 1]), axis=0)
-    # clip to range between 0 and max num cells
-    adj_cell_ids_2D = tf.minimum(
+  # get cell_ids of adjacent 2D cells (9 in total), shape [N, 9, 2]
+  cell_offsets_2D = tf.constant([[-1, -1], [-1, 0], [-1, 1],
+                                 [0, 1], [0, 0], [0, -1],
+                                 [1, -1], [1, 0], [1, 1]])
+  adj_cell_ids_2D = tf.expand_dims(center_cell_ind_2D, 1) + \
+      tf.expand_dims(cell_offsets_2D, 0)
+  # clip to range between 0 and max num cells
+  adj_cell_ids_2D = tf.minimum(
       tf.maximum(adj_cell_ids_2D, tf.zeros_like(adj_cell_ids_2D)),
       grid._num_cells[:2] - 1)
-    # get min and max point ids of the adjacent cells
-    adj_ids = tf.gather_nd(data_structure[cur_batch_id], [adj_cell_ids_2D])
-    adj_ids_start = tf.reduce_min(adj_ids[0, :, 0])
-    adj_ids_end = tf.reduce_max(adj_ids[0, :, 1])
-    # choose points below certain distance and in same batch
-    adj_points = neighbor_points[adj_ids_start:adj_ids_end]
-    adj_batch_ids = neighbor_batch_ids[adj_ids_start:adj_ids_end]
-    distances = tf.linalg.norm(
-        (adj_points - tf.reshape(cur_point, [1, -1])) /
-        tf.reshape(radii, [1, -1]), axis=1)
-    close = (distances < 1.0)
-    same_batch = (adj_batch_ids == cur_batch_id)
-    close = tf.math.logical_and(close, same_batch)
-    close_ids = tf.boolean_mask(tf.range(adj_ids_start, adj_ids_end), close)
-    if max_neighbors > 0:
-      close_ids = close_ids[:max_neighbors]
-
-    cur_neighbors = tf.stack(
-        (close_ids, tf.ones_like(close_ids) * i), axis=1)
-    neighbors.append(cur_neighbors)
-    cur_neigh_range = cur_neigh_range + tf.shape(cur_neighbors)[0]
-    center_neigh_ranges.append(cur_neigh_range)
-
-  neighbors = tf.concat(neighbors, axis=0)
-  center_neigh_ranges = tf.stack(center_neigh_ranges, axis=0)
+  # get min and max point ids of the adjacent cells, ignoring empty cells
+  adj_ids = tf.gather_nd(tf.gather(data_structure, center_batch_ids),
+                         adj_cell_ids_2D, batch_dims=1)
+  adj_ids_end = tf.reduce_max(adj_ids[:, :, 1], axis=1)
+  adj_ids_start = tf.reduce_min(
+      tf.where(adj_ids[:, :, 1] > adj_ids[:, :, 0],
+               adj_ids[:, :, 0],
+               tf.expand_dims(adj_ids_end, 1)), axis=1)
+  # pairs of points in the adjacent cells and centers
+  num_adj = adj_ids_end - adj_ids_start
+  center_ids = tf.repeat(tf.range(tf.shape(num_adj)[0]), num_adj)
+  adj_point_ids = tf.range(tf.reduce_sum(num_adj)) + tf.gather(
+      adj_ids_start - tf.cumsum(num_adj, exclusive=True), center_ids)
+  # choose points below certain distance and in same batch
+  distances = tf.linalg.norm(
+      (tf.gather(neighbor_points, adj_point_ids) -
+       tf.gather(center_points, center_ids)) /
+      tf.reshape(radii, [1, -1]), axis=1)
+  close = (distances < 1.0)
+  same_batch = tf.equal(tf.gather(neighbor_batch_ids, adj_point_ids),
+                        tf.gather(center_batch_ids, center_ids))
+  close = tf.math.logical_and(close, same_batch)
+  neighbors = tf.boolean_mask(
+      tf.stack((adj_point_ids, center_ids), axis=1), close)
+  if max_neighbors > 0:
+    # keep the first neighbors of each center
+    first = tf.searchsorted(neighbors[:, 1], neighbors[:, 1], side='left')
+    rank = tf.range(tf.shape(neighbors)[0]) - first
+    neighbors = tf.boolean_mask(neighbors, rank < max_neighbors)
+  center_neigh_ranges = tf.searchsorted(
+      neighbors[:, 1], tf.range(tf.shape(num_adj)[0]), side='right')
 
   return center_neigh_ranges, neighbors
 tf.no_gradient('FindNeighborsTF')
-- 
2.43.0


From 617dd6df2824bcb228e0bdf08d53848d3f345293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 11/57] fix: sampling modes of the sampling functions

poisson_disk_sampling and cell_average_sampling passed each other's mode.
---
 pylib/pc/custom_ops/custom_ops_tf.py      |   2 +-
 pylib/pc/custom_ops/custom_ops_wrapper.py |   2 +-
 pylib/pc/sampling.py                      | 300 +++++++++++-----------
 3 files changed, 152 insertions(+), 152 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 84ad2f5..2f1ba4a 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -260,7 +260,7 @@ def sampling_tf(neighborhood, sample_mode, name=None):
     neighborhood: A `Neighborhood` instance, which contains a point cloud with
       its neighbors.
     sample_mode: An `int`specifiying the sample mode,
-      `0` for average, `1` for poisson.
+      `0` for poisson, `1` for average.
 
   Returns:
     sampled_points: A `float` `Tensor` of shape [S, D], the sampled points.
diff --git a/pylib/pc/custom_ops/custom_ops_wrapper.py b/pylib/pc/custom_ops/custom_ops_wrapper.py
index 694ee4d..b6f6b2f 100644
--- a/pylib/pc/custom_ops/custom_ops_wrapper.py
+++ b/pylib/pc/custom_ops/custom_ops_wrapper.py
@@ -112,7 +112,7 @@ def sampling(neighborhood, sample_mode, name=None):
     neighborhood: A `Neighborhood` instance, which contains a point cloud with
       its neighbors.
     sample_mode: An `int`specifiying the sample mode,
-      `0` for average, `1` for poisson.
+      `0` for poisson, `1` for average.
 
   Returns:
     sampled_points: A `float` `Tensor` of shape `[S, D]`, the sampled points.
diff --git a/pylib/pc/sampling.py b/pylib/pc/sampling.py
index b10cff4..51125b6 100755
--- a/pylib/pc/sampling.py
+++ b/pylib/pc/sampling.py
@@ -1,150 +1,150 @@
-# Copyright 2020 The TensorFlow Authors
-#
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-#
-#    https://www.apache.org/licenses/LICENSE-2.0
-#
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-"""Methods to sample point clouds. """
-
-import tensorflow as tf
-
-from pylib.pc.custom_ops import sampling
-
-from pylib.pc import PointCloud, Neighborhood, Grid
-from pylib.pc.utils import cast_to_num_dims
-
-sample_modes = {'average': 1,
-                'cell average': 1,
-                'cell_average': 1,
-                'poisson': 0,
-                'poisson disk': 0,
-                'poisson_disk': 0}
-
-
-def poisson_disk_sampling(point_cloud,
-                          radius=None,
-                          neighborhood=None,
-                          return_ids=False,
-                          name=None):
-  """ Poisson disk sampling of a point cloud.
-
-  Note: Either `radius` or `neighborhood` must be provided.
-
-  Args:
-    point_cloud: A `PointCloud` instance.
-    radius: A `float` or a `float` `Tensor` of shape `[D]`, the radius for the
-      Poisson disk sampling.
-    neighborhood: A `Neighborhood` instance.
-    return_ids: A `bool`, if `True` returns the indices of the sampled points.
-      (optional)
-
-    Returns:
-      A `PointCloud` instance.
-      An `int` `Tensor` of shape `[S]`, if `return_ids` is `True`.
-
-    Raises:
-      ValueError: If no radius or neighborhood is given.
-
-  """
-  if radius is None and neighborhood is None:
-    raise ValueError(
-        "Missing Argument! Either radius or neighborhood must be given!")
-  if neighborhood is None:
-    # compute neighborhood
-    radii = cast_to_num_dims(radius, point_cloud)
-    grid = Grid(point_cloud, radii)
-    neighborhood = Neighborhood(grid, radii)
-
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, 1)
-
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size)
-
-  if return_ids:
-    sampled_indices = tf.gather(neighborhood._grid._sorted_indices,
-                                sampled_indices)
-    return sampled_point_cloud, sampled_indices
-  else:
-    return sampled_point_cloud
-
-
-def cell_average_sampling(point_cloud,
-                          cell_sizes=None,
-                          grid=None,
-                          name=None):
-  """ Cell average sampling of a point cloud.
-
-  Note: Either `cell_sizes` or `grid` must be provided.
-
-  Args:
-    point_cloud: A `PointCloud` instance.
-    cell_sizes: A `float` or a `float` `Tensor` of shape `[D]`, the cell sizes
-      for the sampling.
-    grid: A `Grid` instance.
-
-    Returns:
-      A `PointCloud` instance.
-
-    Raises:
-      ValueError: If no radius or grid is given.
-
-  """
-  if cell_sizes is None and grid is None:
-    raise ValueError(
-        "Missing Argument! Either cell_sizes or grid must be given!")
-  if grid is None:
-    # compute grid
-    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud)
-    grid = Grid(point_cloud, cell_sizes)
-
-  neighborhood = Neighborhood(grid, cell_sizes)
-
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, 0)
-
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size)
-
-  return sampled_point_cloud
-
-
-def sample(neighborhood, sample_mode='poisson', name=None):
-  """ Sampling for a neighborhood.
-
-  Args:
-    neighborhood: A `Neighborhood` instance.
-    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
-
-  Returns:
-    A `PointCloud` instance, the sampled points.
-    An `int` `Tensor` of shape `[S]`, the indices of the sampled points,
-      `None` for cell average sampling.
-
-  """
-  sample_mode_value = sample_modes[sample_mode.lower()]
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, sample_mode_value)
-
-  #Save the sampled point cloud.
-  if sample_mode_value == 0:
-    sampled_indices = tf.gather(
-        neighborhood._grid._sorted_indices, sampled_indices)
-  else:
-    sampled_indices = None
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size_numpy)
-  return sampled_point_cloud, sampled_indices
+# Copyright 2020 The TensorFlow Authors
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#    https://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+"""Methods to sample point clouds. """
+
+import tensorflow as tf
+
+from pylib.pc.custom_ops import sampling
+
+from pylib.pc import PointCloud, Neighborhood, Grid
+from pylib.pc.utils import cast_to_num_dims
+
+sample_modes = {'average': 1,
+                'cell average': 1,
+                'cell_average': 1,
+                'poisson': 0,
+                'poisson disk': 0,
+                'poisson_disk': 0}
+
+
+def poisson_disk_sampling(point_cloud,
+                          radius=None,
+                          neighborhood=None,
+                          return_ids=False,
+                          name=None):
+  """ Poisson disk sampling of a point cloud.
+
+  Note: Either `radius` or `neighborhood` must be provided.
+
+  Args:
+    point_cloud: A `PointCloud` instance.
+    radius: A `float` or a `float` `Tensor` of shape `[D]`, the radius for the
+      Poisson disk sampling.
+    neighborhood: A `Neighborhood` instance.
+    return_ids: A `bool`, if `True` returns the indices of the sampled points.
+      (optional)
+
+    Returns:
+      A `PointCloud` instance.
+      An `int` `Tensor` of shape `[S]`, if `return_ids` is `True`.
+
+    Raises:
+      ValueError: If no radius or neighborhood is given.
+
+  """
+  if radius is None and neighborhood is None:
+    raise ValueError(
+        "Missing Argument! Either radius or neighborhood must be given!")
+  if neighborhood is None:
+    # compute neighborhood
+    radii = cast_to_num_dims(radius, point_cloud)
+    grid = Grid(point_cloud, radii)
+    neighborhood = Neighborhood(grid, radii)
+
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, sample_modes['poisson'])
+
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size)
+
+  if return_ids:
+    sampled_indices = tf.gather(neighborhood._grid._sorted_indices,
+                                sampled_indices)
+    return sampled_point_cloud, sampled_indices
+  else:
+    return sampled_point_cloud
+
+
+def cell_average_sampling(point_cloud,
+                          cell_sizes=None,
+                          grid=None,
+                          name=None):
+  """ Cell average sampling of a point cloud.
+
+  Note: Either `cell_sizes` or `grid` must be provided.
+
+  Args:
+    point_cloud: A `PointCloud` instance.
+    cell_sizes: A `float` or a `float` `Tensor` of shape `[D]`, the cell sizes
+      for the sampling.
+    grid: A `Grid` instance.
+
+    Returns:
+      A `PointCloud` instance.
+
+    Raises:
+      ValueError: If no radius or grid is given.
+
+  """
+  if cell_sizes is None and grid is None:
+    raise ValueError(
+        "Missing Argument! Either cell_sizes or grid must be given!")
+  if grid is None:
+    # compute grid
+    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud)
+    grid = Grid(point_cloud, cell_sizes)
+
+  neighborhood = Neighborhood(grid, cell_sizes)
+
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, sample_modes['average'])
+
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size)
+
+  return sampled_point_cloud
+
+
+def sample(neighborhood, sample_mode='poisson', name=None):
+  """ Sampling for a neighborhood.
+
+  Args:
+    neighborhood: A `Neighborhood` instance.
+    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
+
+  Returns:
+    A `PointCloud` instance, the sampled points.
+    An `int` `Tensor` of shape `[S]`, the indices of the sampled points,
+      `None` for cell average sampling.
+
+  """
+  sample_mode_value = sample_modes[sample_mode.lower()]
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, sample_mode_value)
+
+  #Save the sampled point cloud.
+  if sample_mode_value == 0:
+    sampled_indices = tf.gather(
+        neighborhood._grid._sorted_indices, sampled_indices)
+  else:
+    sampled_indices = None
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size_numpy)
+  return sampled_point_cloud, sampled_indices
-- 
2.43.0


From d7fe9f95dacd48b7aa77aa3083554160473d3b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 12/57] fix: pass the dimension to cast_to_num_dims in the
 sampling functions

The point cloud was passed, so a single float could not be used.
---
 pylib/pc/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/sampling.py b/pylib/pc/sampling.py
index 51125b6..536d362 100755
--- a/pylib/pc/sampling.py
+++ b/pylib/pc/sampling.py
@@ -58,7 +58,7 @@ def poisson_disk_sampling(point_cloud,
         "Missing Argument! Either radius or neighborhood must be given!")
   if neighborhood is None:
     # compute neighborhood
-    radii = cast_to_num_dims(radius, point_cloud)
+    radii = cast_to_num_dims(radius, point_cloud._dimension)
     grid = Grid(point_cloud, radii)
     neighborhood = Neighborhood(grid, radii)
 
@@ -104,7 +104,7 @@ def cell_average_sampling(point_cloud,
         "Missing Argument! Either cell_sizes or grid must be given!")
   if grid is None:
     # compute grid
-    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud)
+    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud._dimension)
     grid = Grid(point_cloud, cell_sizes)
 
   neighborhood = Neighborhood(grid, cell_sizes)
-- 
2.43.0


From 70154f90e5510f7cab922bf4cd83fd23eccb93e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 13/57] fix: cell_average_sampling with a given grid

The cell sizes are None if a grid is passed.
---
 pylib/pc/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/sampling.py b/pylib/pc/sampling.py
index 536d362..9ea0303 100755
--- a/pylib/pc/sampling.py
+++ b/pylib/pc/sampling.py
@@ -107,7 +107,7 @@ def cell_average_sampling(point_cloud,
     cell_sizes = cast_to_num_dims(cell_sizes, point_cloud._dimension)
     grid = Grid(point_cloud, cell_sizes)
 
-  neighborhood = Neighborhood(grid, cell_sizes)
+  neighborhood = Neighborhood(grid, grid._cell_sizes)
 
   #Compute the sampling.
   sampled_points, sampled_batch_ids, sampled_indices = \
-- 
2.43.0


From de66a70d7f2d02d3b00c58e741ff0b52d370faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 14/57] fix: call compute_pdf with a neighborhood in
 density_estimation

The arguments did not match the signature of compute_pdf, so every call failed.
---
 pylib/pc/Neighborhood.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index d2f2284..97b6df4 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -134,16 +134,8 @@ def density_estimation(point_cloud,
     pdf = tf.ones_like(point_cloud._points[:, 0], dtype=tf.float32)
   else:
     grid = Grid(point_cloud, scaling)
-    pdf_neighbors, nb_ranges = \
-        compute_neighborhoods(grid,
-                              scaling,
-                              return_ranges=True,
-                              return_sorted_ids=True)
-    pdf_sorted = compute_pdf(grid,
-                             pdf_neighbors,
-                             nb_ranges,
+    pdf_sorted = compute_pdf(Neighborhood(grid, scaling),
                              bandwidth,
-                             scaling,
                              mode.value)
     unsorted_indices = tf.math.invert_permutation(grid._sorted_indices)
     pdf = tf.gather(pdf_sorted, unsorted_indices)
-- 
2.43.0


From 7a5967a8d870ffee42c350d8ad355fa2894fbc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 15/57] fix: normalize density_estimation by the size of the
 neighborhoods

The values were divided by the number of points of the whole batch instead of
by the size of the respective neighborhood, as documented.
---
 pylib/pc/Neighborhood.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index 97b6df4..ebb193f 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -130,17 +130,20 @@ def density_estimation(point_cloud,
 
   bandwidth = cast_to_num_dims(bandwidth, point_cloud._dimension)
   scaling = cast_to_num_dims(scaling, point_cloud._dimension)
+  grid = Grid(point_cloud, scaling)
+  neighborhood = Neighborhood(grid, scaling)
+  unsorted_indices = tf.math.invert_permutation(grid._sorted_indices)
   if mode == KDEMode.no_pdf:
     pdf = tf.ones_like(point_cloud._points[:, 0], dtype=tf.float32)
   else:
-    grid = Grid(point_cloud, scaling)
-    pdf_sorted = compute_pdf(Neighborhood(grid, scaling),
-                             bandwidth,
-                             mode.value)
-    unsorted_indices = tf.math.invert_permutation(grid._sorted_indices)
+    pdf_sorted = compute_pdf(neighborhood, bandwidth, mode.value)
     pdf = tf.gather(pdf_sorted, unsorted_indices)
   if normalize:
-    pdf = pdf / point_cloud._points.shape[0]
+    neigh_sizes = tf.math.bincount(
+        neighborhood._neighbors[:, 1],
+        minlength=tf.shape(unsorted_indices)[0],
+        dtype=tf.float32)
+    pdf = pdf / tf.gather(neigh_sizes, unsorted_indices)
   return pdf
 
 
-- 
2.43.0


From 94e057306a7c9a5983f98dc754242b9c44ac1939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 16/57] fix: reject batch indices out of range in
 PointCloud.get_points

An index equal to the batch size, or a negative one, returned no points.
---
 pylib/pc/PointCloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index e08cf27..c6eefad 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -176,7 +176,7 @@ class PointCloud:
         for slice_id in id:
           slice = slice[slice_id]
         id = slice
-      if id > self._batch_size:
+      if id < 0 or id >= self._batch_size:
         raise IndexError('batch index out of range')
       return self._points[self._batch_ids == id]
     else:
-- 
2.43.0


From b2deecb0f0409b3854418367594d5692971d8785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 17/57] fix: count empty point clouds in PointCloud.get_sizes

Batch entries without points were dropped from the sizes.
---
 pylib/pc/PointCloud.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index c6eefad..7c1c273 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -196,10 +196,8 @@ class PointCloud:
 
     """
     if self._sizes is None:
-      _ids, _, self._sizes = tf.unique_with_counts(
-          self._batch_ids)
-      _ids_sorted = tf.argsort(_ids)
-      self._sizes = tf.gather(self._sizes, _ids_sorted)
+      self._sizes = tf.math.unsorted_segment_sum(
+          tf.ones_like(self._batch_ids), self._batch_ids, self._batch_size)
       if self._batch_shape is not None:
         self._sizes = tf.reshape(self._sizes, self._batch_shape)
     return self._sizes
-- 
2.43.0


From e1fde8fa4b82ed599454fe25935fd5721e2bca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 18/57] fix: respect max_num_points in every call of
 PointCloud.get_unflatten

The value of the first call was kept for all the later ones, and it was
ignored for point clouds built from padded points.
---
 pylib/pc/PointCloud.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 7c1c273..6a138d9 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -223,12 +223,15 @@ class PointCloud:
       ValueError: When trying to unflatten unsorted points.
 
     """
-    if self._unflatten is None:
-      self._unflatten = lambda data: unflatten_2d_to_batch(
-          data=tf.gather(data, self._sorted_indices_batch),
-          sizes=self.get_sizes(),
-          max_rows=max_num_points)
-    return self._unflatten
+    if self._unflatten is not None and max_num_points is None:
+      return self._unflatten
+    unflatten = lambda data: unflatten_2d_to_batch(
+        data=tf.gather(data, self._sorted_indices_batch),
+        sizes=self.get_sizes(),
+        max_rows=max_num_points)
+    if max_num_points is None:
+      self._unflatten = unflatten
+    return unflatten
 
   def get_AABB(self) -> _AABB:
     """ Returns the axis aligned bounding box of the point cloud.
-- 
2.43.0


From 282ce63c0ae2cc81469e8bc6e6eec485d7936817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 19/57] fix: padded format after PointCloud.set_batch_shape

Point clouds built from padded points kept their old batch shape when
unflattening, and removing the batch shape kept the old shape of the sizes.
---
 pylib/pc/PointCloud.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 6a138d9..cd8585e 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -276,7 +276,10 @@ class PointCloud:
       self._batch_shape = batch_shape
       self._get_segment_id = tf.reshape(
           tf.range(0, self._batch_size), self._batch_shape)
-      if self._sizes is not None:
-        self._sizes = tf.reshape(self._sizes, self._batch_shape)
     else:
+      batch_shape = [-1]
       self._batch_shape = None
+    if self._sizes is not None:
+      self._sizes = tf.reshape(self._sizes, batch_shape)
+    # the method to unflatten depends on the batch shape
+    self._unflatten = None
-- 
2.43.0


From 4ffb1c7b474dae944e043316223abccd5ef786d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 20/57] fix: shape of the bounding box diameters after
 set_batch_shape

The bounding box is cached and kept the batch shape it was created with.
---
 pylib/pc/PointCloud.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index cd8585e..73a1236 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -32,7 +32,6 @@ class _AABB:
   def __init__(self, point_cloud, name=None):
 
     self._batch_size = point_cloud._batch_size
-    self._batch_shape = point_cloud._batch_shape
     self.point_cloud_ = point_cloud
 
     self._aabb_min = tf.math.unsorted_segment_min(
@@ -59,10 +58,11 @@ class _AABB:
     """
 
     diam = tf.linalg.norm(self._aabb_max - self._aabb_min, ord=ord, axis=-1)
-    if self._batch_shape is None:
+    batch_shape = self.point_cloud_._batch_shape
+    if batch_shape is None:
       return diam
     else:
-      return tf.reshape(diam, self._batch_shape)
+      return tf.reshape(diam, batch_shape)
 
 
 class PointCloud:
-- 
2.43.0


From bd5c1bec677735d8ed6ade7be86bf54430b894b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 21/57] fix: segmented points with sizes of shape [A1, ..., An]

The documented sizes with more than one batch dimension failed.
---
 pylib/pc/PointCloud.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 73a1236..09c1bdd 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -144,7 +144,10 @@ class PointCloud:
     if self._batch_ids is None:
       if self._batch_size is None:
         self._batch_size = tf.reduce_prod(self._sizes.shape)
-      self._batch_ids = tf.repeat(tf.range(0, self._batch_size), self._sizes)
+      self._batch_ids = tf.repeat(tf.range(0, self._batch_size),
+                                  tf.reshape(self._sizes, [-1]))
+      if self._sizes.shape.ndims > 1:
+        self.set_batch_shape(self._sizes.shape)
     if self._batch_size is None:
       self._batch_size = tf.reduce_max(self._batch_ids) + 1
     self._points = points
-- 
2.43.0


From a3d279770a30a8f0cff504a5c28080f588c0602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 22/57] fix: accept floats as cell sizes of a PointHierarchy

The documented list of floats failed when the shape was indexed.
---
 pylib/pc/PointHierarchy.py | 376 ++++++++++++++++++-------------------
 1 file changed, 188 insertions(+), 188 deletions(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index 81e574e..c6d62b9 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -1,188 +1,188 @@
-# Copyright 2020 The TensorFlow Authors
-#
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-#
-#    https://www.apache.org/licenses/LICENSE-2.0
-#
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-"""Class to represent a point cloud hierarchy."""
-
-import numpy as np
-import tensorflow as tf
-
-from pylib.pc.utils import check_valid_point_hierarchy_input
-
-from pylib.pc import PointCloud
-from pylib.pc import Grid
-from pylib.pc import Neighborhood
-from pylib.pc import sample
-from pylib.pc.utils import cast_to_num_dims
-
-
-class PointHierarchy:
-  """ A hierarchy of sampled point clouds.
-
-  Args:
-    point_cloud: A `PointCloud` instance..
-    cell_sizes: A list of  `floats` or `float` `Tensors` of shape `[D]`,
-      the cell sizes for the sampling. The length of the list defines
-      the number of samplings.
-    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
-
-  """
-
-  def __init__(self,
-               point_cloud: PointCloud,
-               cell_sizes,
-               sample_mode='poisson',
-               name=None):
-    #Initialize the attributes.
-    self._aabb = point_cloud.get_AABB()
-    self._point_clouds = [point_cloud]
-    self._cell_sizes = []
-    self._neighborhoods = []
-
-    self._dimension = point_cloud._dimension
-    self._batch_shape = point_cloud._batch_shape
-
-    #Create the different sampling operations.
-    cur_point_cloud = point_cloud
-    for sample_iter, cur_cell_sizes in enumerate(cell_sizes):
-      cur_cell_sizes  = tf.convert_to_tensor(
-        value=cur_cell_sizes, dtype=tf.float32)
-
-      # Check if the cell size is defined for all the dimensions.
-      # If not, the last cell size value is tiled until all the dimensions
-      # have a value.
-      cur_num_dims = tf.gather(cur_cell_sizes.shape, 0)
-      cur_cell_sizes = tf.cond(
-          cur_num_dims < self._dimension,
-          lambda: tf.concat((cur_cell_sizes,
-                             tf.tile(tf.gather(cur_cell_sizes,
-                                               [tf.rank(cur_cell_sizes) - 1]),
-                                     [self._dimension - cur_num_dims])),
-                            axis=0),
-          lambda: cur_cell_sizes)
-      tf.assert_greater(
-          self._dimension + 1,
-          cur_num_dims,
-          f'Too many dimensions in cell sizes {cur_num_dims} ' + \
-          f'instead of max. {self._dimension}')
-      # old version, does not run in graph mode
-      # if cur_num_dims < self._dimension:
-      #   cur_cell_sizes = tf.concat((cur_cell_sizes,
-      #                  tf.tile(tf.gather(cur_cell_sizes,
-      #                                    [tf.rank(cur_cell_sizes) - 1]),
-      #                    [self._dimension - cur_num_dims])),
-      #                       axis=0)
-      # if cur_num_dims > self._dimension:
-      #   raise ValueError(
-      #       f'Too many dimensions in cell sizes {cur_num_dims} ' + \
-      #       f'instead of max. {self._dimension}')
-
-      self._cell_sizes.append(cur_cell_sizes)
-
-      #Create the sampling operation.
-      cur_grid = Grid(cur_point_cloud, cur_cell_sizes, self._aabb)
-      cur_neighborhood = Neighborhood(cur_grid, cur_cell_sizes)
-      cur_point_cloud, _ = sample(cur_neighborhood, sample_mode)
-
-      self._neighborhoods.append(cur_neighborhood)
-      cur_point_cloud.set_batch_shape(self._batch_shape)
-      self._point_clouds.append(cur_point_cloud)
-
-  def get_points(self, batch_id=None, max_num_points=None, name=None):
-    """ Returns the points.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-      If called withoud specifying 'id' returns the points in padded format
-      `[A1, ..., An, V, D]`.
-
-    Args:
-      batch_id: An `int`, identifier of point cloud in the batch, if `None`
-        returns all points.
-
-    Return:
-      A list of `float` `Tensors` of shape
-          `[N_i, D]`, if 'batch_id' was given
-      or
-        `[A1, ..., An, V_i, D]`, if no 'batch_id' was given.
-    """
-    points = []
-    for point_cloud in self._point_clouds:
-      points.append(point_cloud.get_points(batch_id))
-    return points
-
-  def get_sizes(self, name=None):
-    """ Returns the sizes of the point clouds in the point hierarchy.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-    Returns:
-      A `list` of `Tensors` of shape '`[A1, .., An]`'
-
-    """
-
-    sizes = []
-    for point_cloud in self._point_clouds:
-      sizes.append(point_cloud.get_sizes())
-    return sizes
-
-  def set_batch_shape(self, batch_shape, name=None):
-    """ Function to change the batch shape.
-
-      Use this to set a batch shape instead of using 'self._batch_shape'
-      to also change dependent variables.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-    Args:
-      batch_shape: An 1D `int` `Tensor` `[A1, ..., An]`.
-
-    Raises:
-      ValueError: if shape does not sum up to batch size.
-
-    """
-    for point_cloud in self._point_clouds:
-      point_cloud.set_batch_shape(batch_shape)
-
-  def get_neighborhood(self, i=None, transposed=False):
-    """ Returns the neighborhood between level `i` and `i+1` of the hierarchy.
-    If called without argument returns a list of all neighborhoods.
-
-    Args:
-      i: An `int`, can be negative but must be in range
-        `[-num_levels, num_levels-1]`.
-      transposed: A `bool`, if `True` returns the neighborhood between
-        level `i+1` and `i`.
-
-    Returs:
-      A `Neighborhood` instance or a `list` of `Neighborhood` instances.
-
-    """
-    if i is None:
-      if transposed:
-        return [nb.transposed() for nb in self._neighborhoods]
-      else:
-        return self._neighborhoods
-    else:
-      if transposed:
-        return self._neighborhoods[i].transpose()
-      else:
-        return self._neighborhoods[i]
-
-  def __getitem__(self, index):
-    return self._point_clouds[index]
-
-  def __len__(self):
-    return len(self._point_clouds)
+# Copyright 2020 The TensorFlow Authors
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#    https://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+"""Class to represent a point cloud hierarchy."""
+
+import numpy as np
+import tensorflow as tf
+
+from pylib.pc.utils import check_valid_point_hierarchy_input
+
+from pylib.pc import PointCloud
+from pylib.pc import Grid
+from pylib.pc import Neighborhood
+from pylib.pc import sample
+from pylib.pc.utils import cast_to_num_dims
+
+
+class PointHierarchy:
+  """ A hierarchy of sampled point clouds.
+
+  Args:
+    point_cloud: A `PointCloud` instance..
+    cell_sizes: A list of  `floats` or `float` `Tensors` of shape `[D]`,
+      the cell sizes for the sampling. The length of the list defines
+      the number of samplings.
+    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
+
+  """
+
+  def __init__(self,
+               point_cloud: PointCloud,
+               cell_sizes,
+               sample_mode='poisson',
+               name=None):
+    #Initialize the attributes.
+    self._aabb = point_cloud.get_AABB()
+    self._point_clouds = [point_cloud]
+    self._cell_sizes = []
+    self._neighborhoods = []
+
+    self._dimension = point_cloud._dimension
+    self._batch_shape = point_cloud._batch_shape
+
+    #Create the different sampling operations.
+    cur_point_cloud = point_cloud
+    for sample_iter, cur_cell_sizes in enumerate(cell_sizes):
+      cur_cell_sizes = tf.reshape(tf.convert_to_tensor(
+          value=cur_cell_sizes, dtype=tf.float32), [-1])
+
+      # Check if the cell size is defined for all the dimensions.
+      # If not, the last cell size value is tiled until all the dimensions
+      # have a value.
+      cur_num_dims = tf.gather(cur_cell_sizes.shape, 0)
+      cur_cell_sizes = tf.cond(
+          cur_num_dims < self._dimension,
+          lambda: tf.concat((cur_cell_sizes,
+                             tf.tile(tf.gather(cur_cell_sizes,
+                                               [tf.rank(cur_cell_sizes) - 1]),
+                                     [self._dimension - cur_num_dims])),
+                            axis=0),
+          lambda: cur_cell_sizes)
+      tf.assert_greater(
+          self._dimension + 1,
+          cur_num_dims,
+          f'Too many dimensions in cell sizes {cur_num_dims} ' + \
+          f'instead of max. {self._dimension}')
+      # old version, does not run in graph mode
+      # if cur_num_dims < self._dimension:
+      #   cur_cell_sizes = tf.concat((cur_cell_sizes,
+      #                  tf.tile(tf.gather(cur_cell_sizes,
+      #                                    [tf.rank(cur_cell_sizes) - 1]),
+      #                    [self._dimension - cur_num_dims])),
+      #                       axis=0)
+      # if cur_num_dims > self._dimension:
+      #   raise ValueError(
+      #       f'Too many dimensions in cell sizes {cur_num_dims} ' + \
+      #       f'instead of max. {self._dimension}')
+
+      self._cell_sizes.append(cur_cell_sizes)
+
+      #Create the sampling operation.
+      cur_grid = Grid(cur_point_cloud, cur_cell_sizes, self._aabb)
+      cur_neighborhood = Neighborhood(cur_grid, cur_cell_sizes)
+      cur_point_cloud, _ = sample(cur_neighborhood, sample_mode)
+
+      self._neighborhoods.append(cur_neighborhood)
+      cur_point_cloud.set_batch_shape(self._batch_shape)
+      self._point_clouds.append(cur_point_cloud)
+
+  def get_points(self, batch_id=None, max_num_points=None, name=None):
+    """ Returns the points.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+      If called withoud specifying 'id' returns the points in padded format
+      `[A1, ..., An, V, D]`.
+
+    Args:
+      batch_id: An `int`, identifier of point cloud in the batch, if `None`
+        returns all points.
+
+    Return:
+      A list of `float` `Tensors` of shape
+          `[N_i, D]`, if 'batch_id' was given
+      or
+        `[A1, ..., An, V_i, D]`, if no 'batch_id' was given.
+    """
+    points = []
+    for point_cloud in self._point_clouds:
+      points.append(point_cloud.get_points(batch_id))
+    return points
+
+  def get_sizes(self, name=None):
+    """ Returns the sizes of the point clouds in the point hierarchy.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+    Returns:
+      A `list` of `Tensors` of shape '`[A1, .., An]`'
+
+    """
+
+    sizes = []
+    for point_cloud in self._point_clouds:
+      sizes.append(point_cloud.get_sizes())
+    return sizes
+
+  def set_batch_shape(self, batch_shape, name=None):
+    """ Function to change the batch shape.
+
+      Use this to set a batch shape instead of using 'self._batch_shape'
+      to also change dependent variables.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+    Args:
+      batch_shape: An 1D `int` `Tensor` `[A1, ..., An]`.
+
+    Raises:
+      ValueError: if shape does not sum up to batch size.
+
+    """
+    for point_cloud in self._point_clouds:
+      point_cloud.set_batch_shape(batch_shape)
+
+  def get_neighborhood(self, i=None, transposed=False):
+    """ Returns the neighborhood between level `i` and `i+1` of the hierarchy.
+    If called without argument returns a list of all neighborhoods.
+
+    Args:
+      i: An `int`, can be negative but must be in range
+        `[-num_levels, num_levels-1]`.
+      transposed: A `bool`, if `True` returns the neighborhood between
+        level `i+1` and `i`.
+
+    Returs:
+      A `Neighborhood` instance or a `list` of `Neighborhood` instances.
+
+    """
+    if i is None:
+      if transposed:
+        return [nb.transposed() for nb in self._neighborhoods]
+      else:
+        return self._neighborhoods
+    else:
+      if transposed:
+        return self._neighborhoods[i].transpose()
+      else:
+        return self._neighborhoods[i]
+
+  def __getitem__(self, index):
+    return self._point_clouds[index]
+
+  def __len__(self):
+    return len(self._point_clouds)
-- 
2.43.0


From edac6de3c71ffade8099c6165d99af5efc3d60ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 23/57] fix: repeat the last cell size in PointHierarchy

The first one was repeated, as the rank was used as index.
---
 pylib/pc/PointHierarchy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index c6d62b9..75d6185 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -64,8 +64,7 @@ class PointHierarchy:
       cur_cell_sizes = tf.cond(
           cur_num_dims < self._dimension,
           lambda: tf.concat((cur_cell_sizes,
-                             tf.tile(tf.gather(cur_cell_sizes,
-                                               [tf.rank(cur_cell_sizes) - 1]),
+                             tf.tile(cur_cell_sizes[-1:],
                                      [self._dimension - cur_num_dims])),
                             axis=0),
           lambda: cur_cell_sizes)
-- 
2.43.0


From 8986814f199c525e622f88965832e55d8660591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 24/57] fix: pass max_num_points on in
 PointHierarchy.get_points

---
 pylib/pc/PointHierarchy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index 75d6185..33695ff 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -117,7 +117,7 @@ class PointHierarchy:
     """
     points = []
     for point_cloud in self._point_clouds:
-      points.append(point_cloud.get_points(batch_id))
+      points.append(point_cloud.get_points(batch_id, max_num_points))
     return points
 
   def get_sizes(self, name=None):
-- 
2.43.0


From 02cd9d6a0ad97f87d5268ea6b89ae08f58b36803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 25/57] fix: name of the transpose method in
 PointHierarchy.get_neighborhood

---
 pylib/pc/PointHierarchy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index 33695ff..fa1b6b5 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -171,7 +171,7 @@ class PointHierarchy:
     """
     if i is None:
       if transposed:
-        return [nb.transposed() for nb in self._neighborhoods]
+        return [nb.transpose() for nb in self._neighborhoods]
       else:
         return self._neighborhoods
     else:
-- 
2.43.0


From b8c8bba6c84bf1684046315cc70d31b6bf405a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 26/57] fix: use the bounding box passed to Grid

The documented argument was ignored, the bounding box of the point cloud was
always used.
---
 pylib/pc/Grid.py                          | 4 ++--
 pylib/pc/custom_ops/custom_ops_tf.py      | 8 ++++++--
 pylib/pc/custom_ops/custom_ops_wrapper.py | 8 ++++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pylib/pc/Grid.py b/pylib/pc/Grid.py
index 5fc8565..447c472 100755
--- a/pylib/pc/Grid.py
+++ b/pylib/pc/Grid.py
@@ -39,7 +39,7 @@ class Grid:
     self._batch_size = point_cloud._batch_size_numpy
     self._cell_sizes = cell_sizes
     self._point_cloud = point_cloud
-    self._aabb = point_cloud.get_AABB()
+    self._aabb = point_cloud.get_AABB() if aabb is None else aabb
     #Compute the number of cells in the grid.
     aabb_sizes = self._aabb._aabb_max - self._aabb._aabb_min
     batch_num_cells = tf.cast(
@@ -50,7 +50,7 @@ class Grid:
     #Compute the key for each point.
     self._cur_keys = compute_keys(
         self._point_cloud, self._num_cells,
-        self._cell_sizes)
+        self._cell_sizes, aabb=self._aabb)
 
     #Sort the keys.
     self._sorted_indices = tf.argsort(
diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 2f1ba4a..6d7d14e 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -18,7 +18,8 @@ import numpy as np
 from pylib.pc import PointCloud, Grid
 
 
-def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, name=None):
+def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, aabb=None,
+                    name=None):
   """ Computes the regular grid cell keys of a point cloud.
 
     For a point in cell `c` the key is computed as
@@ -30,12 +31,15 @@ def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, name=None):
         per dimension.
       cell_size: An `int` `Tensor` of shape `[D]`, the cell sizes per
         dimension.
+      aabb: An `AABB` instance, the bounding box of the grid, if `None`
+        the bounding box of `point_cloud` is used. (optional)
 
     Returns:
       An `int` `Tensor` of shape `[N]`, the keys per point.
 
   """
-  aabb = point_cloud.get_AABB()
+  if aabb is None:
+    aabb = point_cloud.get_AABB()
   abb_min_per_batch = aabb._aabb_min
   aabb_min_per_point = tf.gather(abb_min_per_batch, point_cloud._batch_ids)
   cell_ind = tf.math.floor(
diff --git a/pylib/pc/custom_ops/custom_ops_wrapper.py b/pylib/pc/custom_ops/custom_ops_wrapper.py
index b6f6b2f..3488d05 100644
--- a/pylib/pc/custom_ops/custom_ops_wrapper.py
+++ b/pylib/pc/custom_ops/custom_ops_wrapper.py
@@ -17,7 +17,8 @@ import tensorflow as tf
 import tfg_custom_ops
 
 
-def compute_keys(point_cloud, num_cells, cell_size, name=None):
+def compute_keys(point_cloud, num_cells, cell_size, aabb=None,
+                 name=None):
   """ Method to compute the regular grid keys of a point cloud.
 
     For a point in cell `c` the key is computed as
@@ -29,12 +30,15 @@ def compute_keys(point_cloud, num_cells, cell_size, name=None):
         per dimension.
       cell_size: An `int` `Tensor` of shape `[D]`, the cell sizes per
         dimension.
+      aabb: An `AABB` instance, the bounding box of the grid, if `None`
+        the bounding box of `point_cloud` is used. (optional)
 
     Returns:
       An `int` `Tensor` of shape `[N]`, the keys per point.
 
   """
-  aabb = point_cloud.get_AABB()
+  if aabb is None:
+    aabb = point_cloud.get_AABB()
   return tfg_custom_ops.compute_keys(
     point_cloud._points,
     point_cloud._batch_ids,
-- 
2.43.0


From 6d0f0af33412b78a0fc2eb1d2d4425918f5a184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 27/57] fix: arguments of Conv1x1 in PointResNetBottleNeck

Conv1x1 has no use_bias argument (it always has a bias), so the block could
not be built.
---
 pylib/pc/layers/network_blocks.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 87c731e..251d189 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -222,12 +222,10 @@ class PointResNetBottleNeck(tf.Module):
         self._projection_layers.append(_identity)
       # up- and downwampling in feature domain
       self._downsampling_layers.append(Conv1x1(num_features,
-                                               bottle_neck_num_features,
-                                               use_bias=True))
+                                               bottle_neck_num_features))
       self._batch_norm_layers.append(tf.keras.layers.BatchNormalization())
       self._upsampling_layers.append(Conv1x1(bottle_neck_num_features,
-                                             num_features,
-                                             use_bias=True))
+                                             num_features))
       self._batch_norm_layers.append(tf.keras.layers.BatchNormalization())
 
   def __call__(self,
-- 
2.43.0


From 5d059a51954a04a072941950880a9bb704f6d37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 28/57] fix: centers of the neighborhoods computed by the
 ResNet blocks

Without centers the neighborhood is that of the points as sorted in the grid,
but the layers use the centers as indices into the point cloud, so the output
was assigned to the wrong points.
---
 pylib/pc/layers/network_blocks.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 251d189..2ba7da5 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -129,7 +129,7 @@ class PointResNet(tf.Module):
       #Compute the grid.
       grid = Grid(point_cloud, radii_tensor)
       #Compute the neighborhood key.
-      neighborhood = Neighborhood(grid, radii_tensor)
+      neighborhood = Neighborhood(grid, radii_tensor, point_cloud)
     for i in range(self._num_blocks):
       skip = features
       # first residual convolution
@@ -264,7 +264,7 @@ class PointResNetBottleNeck(tf.Module):
       #Compute the grid.
       grid = Grid(point_cloud, radii_tensor)
       #Compute the neighborhood key.
-      neighborhood = Neighborhood(grid, radii_tensor)
+      neighborhood = Neighborhood(grid, radii_tensor, point_cloud)
     for i in range(self._num_blocks):
       skip = features
       # downsampling
@@ -415,7 +415,8 @@ class PointResNetSpatialBottleNeck(tf.Module):
       # intra-downsampled
       grid = Grid(point_cloud_downsampled, radii_tensor[1])
       neighborhoods.append(Neighborhood(grid,
-                                        radii_tensor[1]))
+                                        radii_tensor[1],
+                                        point_cloud_downsampled))
       # upsampling
       if conv_radii[0] == conv_radii[2]:
         neighborhoods.append(neighborhoods[0].transpose())
-- 
2.43.0


From 681401b54e5da32302266359f65b498addb5e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 29/57] fix: use KPConv in the ResNet blocks

The radius was passed as the keyword radius, which KPConv calls conv_radius.
It is passed by position now.
---
 pylib/pc/layers/network_blocks.py | 48 +++++++++++++++----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 2ba7da5..d99f699 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -136,20 +136,20 @@ class PointResNet(tf.Module):
       features = self._batch_norm_layers[2 * i](features,
                                                 training=training)
       features = self._activation(features)
-      features = self._conv_layers[2 * i](features=features,
-                                          point_cloud_in=point_cloud,
-                                          point_cloud_out=point_cloud,
-                                          radius=radius,
+      features = self._conv_layers[2 * i](features,
+                                          point_cloud,
+                                          point_cloud,
+                                          radius,
                                           neighborhood=neighborhood,
                                           **kwargs)
       # second residual convolution
       features = self._batch_norm_layers[2 * i + 1](features,
                                                     training=training)
       features = self._activation(features)
-      features = self._conv_layers[2 * i + 1](features=features,
-                                              point_cloud_in=point_cloud,
-                                              point_cloud_out=point_cloud,
-                                              radius=radius,
+      features = self._conv_layers[2 * i + 1](features,
+                                              point_cloud,
+                                              point_cloud,
+                                              radius,
                                               neighborhood=neighborhood,
                                               **kwargs)
       # skip connection
@@ -276,10 +276,10 @@ class PointResNetBottleNeck(tf.Module):
       features = self._batch_norm_layers[3 * i + 1](features,
                                                     training=training)
       features = self._activation(features)
-      features = self._conv_layers[i](features=features,
-                                      point_cloud_in=point_cloud,
-                                      point_cloud_out=point_cloud,
-                                      radius=radius,
+      features = self._conv_layers[i](features,
+                                      point_cloud,
+                                      point_cloud,
+                                      radius,
                                       neighborhood=neighborhood,
                                       **kwargs)
       # upsampling
@@ -431,30 +431,30 @@ class PointResNetSpatialBottleNeck(tf.Module):
                                                 training=training)
       features = self._activation(features)
       features = self._downsampling_layers[i](
-          features=features,
-          point_cloud_in=point_cloud,
-          point_cloud_out=point_cloud_downsampled,
-          radius=radii[0],
+          features,
+          point_cloud,
+          point_cloud_downsampled,
+          radii[0],
           neighborhood=neighborhoods[0],
           **kwargs)
       features = self._batch_norm_layers[3 * i + 1](features,
                                                     training=training)
       features = self._activation(features)
       features = self._conv_layers[i](
-        features=features,
-        point_cloud_in=point_cloud_downsampled,
-        point_cloud_out=point_cloud_downsampled,
-        radius=radii[1],
+        features,
+        point_cloud_downsampled,
+        point_cloud_downsampled,
+        radii[1],
         neighborhood=neighborhoods[1],
         **kwargs)
       features = self._batch_norm_layers[3 * i + 2](features,
                                                     training=training)
       features = self._activation(features)
       features = self._upsampling_layers[i](
-          features=features,
-          point_cloud_in=point_cloud_downsampled,
-          point_cloud_out=point_cloud,
-          radius=radii[2],
+          features,
+          point_cloud_downsampled,
+          point_cloud,
+          radii[2],
           neighborhood=neighborhoods[2],
           **kwargs)
       features = features + self._projection_layers[i](skip, point_cloud)
-- 
2.43.0


From e90bc9223915a5ded8112938f58d24d6c4c6609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 30/57] fix: initialize tf.Module in the ResNet blocks

Without it the documented name is lost and name scopes are not available.
---
 pylib/pc/layers/network_blocks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index d99f699..376e948 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -64,6 +64,8 @@ class PointResNet(tf.Module):
                activation=tf.nn.relu,
                name=None,
                **kwargs):
+    super().__init__(name=name)
+
     self._num_dims = num_dims
     self._num_blocks = num_blocks
     self._activation = activation
@@ -195,6 +197,8 @@ class PointResNetBottleNeck(tf.Module):
                activation=tf.nn.relu,
                name=None,
                **kwargs):
+    super().__init__(name=name)
+
     self._num_dims = num_dims
     self._num_blocks = num_blocks
     self._activation = activation
@@ -327,6 +331,8 @@ class PointResNetSpatialBottleNeck(tf.Module):
                activation=tf.nn.relu,
                name=None,
                **kwargs):
+    super().__init__(name=name)
+
     self._num_dims = num_dims
     self._num_blocks = num_blocks
     self._activation = activation
-- 
2.43.0


From 1e638d78fd6fab81381aba5b3f4801229db57273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 31/57] fix: accept a float as pooling radius

The documented float failed when its shape was indexed.
---
 pylib/pc/layers/Pooling.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pylib/pc/layers/Pooling.py b/pylib/pc/layers/Pooling.py
index 77fcb8e..dec157b 100644
--- a/pylib/pc/layers/Pooling.py
+++ b/pylib/pc/layers/Pooling.py
@@ -14,7 +14,7 @@
 """Classes for point cloud spatial pooling operations"""
 
 import tensorflow as tf
-from pylib.pc.utils import _flatten_features
+from pylib.pc.utils import _flatten_features, cast_to_num_dims
 from pylib.pc.layers.utils import _format_output
 
 from pylib.pc import PointCloud
@@ -142,10 +142,8 @@ class _LocalPointPooling:
     """
     features = tf.convert_to_tensor(value=features)
     features = _flatten_features(features, point_cloud_in)
-    pooling_radius = tf.convert_to_tensor(
-        value=pooling_radius, dtype=tf.float32)
-    if pooling_radius.shape[0] == 1:
-      pooling_radius = tf.repeat(pooling_radius, point_cloud_in._dimension)
+    pooling_radius = cast_to_num_dims(
+        pooling_radius, point_cloud_in._dimension)
 
     # Compute the grid.
     grid_in = Grid(point_cloud_in, pooling_radius)
-- 
2.43.0


From bb47abe41a567ef404e68097fd8bc4cb05db1f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 32/57] fix: default influence distance of the kernel points in
 KPConv

It was the convolution radius instead of conv_radius / 2.5, as documented.
---
 pylib/pc/layers/KPConv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index 9e71127..6f12261 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -282,7 +282,7 @@ class KPConv(tf.Module):
 
     if kernel_influence_dist is None:
       # normalized
-      self._sigma = tf.constant(1.0)
+      self._sigma = tf.constant(1.0 / 2.5)
     else:
       self._sigma = tf.convert_to_tensor(
         value=kernel_influence_dist / conv_radius, dtype=tf.float32)
-- 
2.43.0


From b0868b92b92e9eb521d419151310b8af2111197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 33/57] fix: icosahedron kernel points

tf.sqrt does not accept an int, so the 13 kernel points could not be created.
---
 pylib/pc/layers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 7c25139..9ab6fe1 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -187,7 +187,7 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
                           [0, 0, -1]], dtype=tf.float32)
   elif num_points == 13:
     # Icosahedron
-    phi = (1 + tf.sqrt(5)) / 2
+    phi = (1 + np.sqrt(5)) / 2
     points = tf.Variable([[0, 0, 0],
                           [0, 1, phi],
                           [0, 1, -phi],
-- 
2.43.0


From 5046b1d8baac7a3756e4c25ed8cb284df43bfd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 34/57] fix: scale the icosahedron kernel points to the unit
 sphere

They were at a distance of 1.9 from the center.
---
 pylib/pc/layers/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 9ab6fe1..46e365a 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -201,6 +201,7 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
                           [-phi, 0, 1],
                           [phi, 0, -1],
                           [-phi, 0, -1]], dtype=tf.float32)
+    points = points / np.sqrt(1 + phi**2)
   elif num_points == 15:
     hex1 = _hexagon(0.5, np.sqrt(3) / 2)
     hex2 = _hexagon(-0.5, np.sqrt(3) / 2)[:,[1, 0, 2]]  # rotated 90 deg in xy
-- 
2.43.0


From edabc1dd69bba2a9f8e0bc932a21db8ad635fea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 35/57] fix: corners of the hexagon of kernel points

One corner was there twice and the others did not form a regular hexagon.
---
 pylib/pc/layers/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 46e365a..02f2e28 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -91,10 +91,10 @@ def _hexagon(scale, z_shift):
   phi = np.sqrt(3) / 2
   points = [[0, 1, 0],
             [0, -1, 0],
-            [0.5, phi, 0],
-            [0.5, -phi, 0],
-            [-0.5, phi, 0],
-            [0.5, -phi, 0]]
+            [phi, 0.5, 0],
+            [phi, -0.5, 0],
+            [-phi, 0.5, 0],
+            [-phi, -0.5, 0]]
   points = np.array(points) * scale
   points[:, 2] += z_shift
   return points
-- 
2.43.0


From d6b7a9188dd5fa99870eb7621ef613f67b40ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 36/57] fix: distribute the rings of kernel points on both
 sides of the center

The two hexagons of the 15 and the outer pentagons of the 18 kernel points
were at the same height.
---
 pylib/pc/layers/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 02f2e28..0490cbd 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -204,14 +204,14 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
     points = points / np.sqrt(1 + phi**2)
   elif num_points == 15:
     hex1 = _hexagon(0.5, np.sqrt(3) / 2)
-    hex2 = _hexagon(-0.5, np.sqrt(3) / 2)[:,[1, 0, 2]]  # rotated 90 deg in xy
+    hex2 = _hexagon(-0.5, -np.sqrt(3) / 2)[:,[1, 0, 2]]  # rotated 90 deg in xy
     points = np.concatenate(([[0, 0, 0], [0, 0, 1], [0, 0, -1]], hex1, hex2),
                             axis=0)
     points = tf.Variable(points, dtype=tf.float32)
   elif num_points == 18:
     penta1 = _pentagon(1 / np.sqrt(2), 0.5)
     penta2 = -_pentagon(1.0, 0.0) # flipped in xy
-    penta3 = _pentagon(-1 / np.sqrt(2), 0.5)
+    penta3 = _pentagon(1 / np.sqrt(2), -0.5)
     points = np.concatenate(([[0, 0, 0], [0, 0, 1], [0, 0, -1]],
                              penta1, penta2, penta3),
                             axis=0)
-- 
2.43.0


From 003826901e12dddecb100402b7ff9b879a28543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 37/57] fix: make the name of cube_kernel_points optional

The undocumented argument had to be given.
---
 pylib/pc/layers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 0490cbd..0302242 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -221,7 +221,7 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
   return points
 
 
-def cube_kernel_points(cbrt_num_points, name):
+def cube_kernel_points(cbrt_num_points, name=None):
   """ Regularily distributed points in a unit cube.
 
   Args:
-- 
2.43.0


From 7b9bdb25a3be7fb20b6c029afc0543378f9b5d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 38/57] fix: keep the last character of a point file

The last character of every line was dropped, also if it was not a line break.
---
 pylib/io/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index cac6bde..1181140 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -49,7 +49,7 @@ def load_points_from_file_to_tensor(filename,
     if tf.io.gfile.exists(filename):
       with tf.io.gfile.GFile(filename, 'r') as in_file:
         for line in in_file:
-          line_elements = line[:-1].split(delimiter)
+          line_elements = line.rstrip('\r\n').split(delimiter)
           points.append(line_elements[0:dimension])
           if len(line_elements) > 3:
             features.append(line_elements[dimension:])
@@ -98,7 +98,7 @@ def load_points_from_file_to_numpy(filename,
         i = 0
         for line in in_file:
           if max_num_points is not None and i < max_num_points:
-            line_elements = line[:-1].split(delimiter)
+            line_elements = line.rstrip('\r\n').split(delimiter)
             points.append(line_elements[0:dimension])
             if len(line_elements) > 3:
               features.append(line_elements[dimension:])
-- 
2.43.0


From a042c7b90908eb24801abb56982d85997513d01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 39/57] fix: read features of points with other than three
 dimensions

---
 pylib/io/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index 1181140..6bb0b17 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -51,7 +51,7 @@ def load_points_from_file_to_tensor(filename,
         for line in in_file:
           line_elements = line.rstrip('\r\n').split(delimiter)
           points.append(line_elements[0:dimension])
-          if len(line_elements) > 3:
+          if len(line_elements) > dimension:
             features.append(line_elements[dimension:])
 
       points = tf.convert_to_tensor(value=points)
@@ -100,7 +100,7 @@ def load_points_from_file_to_numpy(filename,
           if max_num_points is not None and i < max_num_points:
             line_elements = line.rstrip('\r\n').split(delimiter)
             points.append(line_elements[0:dimension])
-            if len(line_elements) > 3:
+            if len(line_elements) > dimension:
               features.append(line_elements[dimension:])
           else:
             break
-- 
2.43.0


From 579b92d38c9cec94442684fb07c9035c8c700b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 40/57] fix: read all the points if max_num_points is None

Nothing was read by default.
---
 pylib/io/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index 6bb0b17..0c0a975 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -97,7 +97,7 @@ def load_points_from_file_to_numpy(filename,
       with tf.io.gfile.GFile(filename, 'r') as in_file:
         i = 0
         for line in in_file:
-          if max_num_points is not None and i < max_num_points:
+          if max_num_points is None or i < max_num_points:
             line_elements = line.rstrip('\r\n').split(delimiter)
             points.append(line_elements[0:dimension])
             if len(line_elements) > dimension:
-- 
2.43.0


From 3067bbbfce3b5ec1a0f9ae061e9fd7f38715e860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 41/57] fix: pass the point dimension on in
 load_batch_of_points

---
 pylib/io/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index 0c0a975..cb14da2 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -148,7 +148,8 @@ def load_batch_of_points(filenames,
   sizes = []
   for filename in filenames:
     curr_points, curr_features = load_points_from_file_to_tensor(
-        filename=filename, delimiter=delimiter, dtype=dtype)
+        filename=filename, delimiter=delimiter,
+        dimension=point_dimension, dtype=dtype)
     points.append(curr_points)
     features.append(curr_features)
     sizes.append(len(curr_points))
-- 
2.43.0


From d1ab8ac0345ba8471b1882ae238b95254a3be276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 42/57] fix: read point files without features

The empty list of features became a float tensor that cannot be parsed; the
features have the documented shape [N, 0] now.
---
 pylib/io/points.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index cb14da2..99fa95f 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -51,11 +51,10 @@ def load_points_from_file_to_tensor(filename,
         for line in in_file:
           line_elements = line.rstrip('\r\n').split(delimiter)
           points.append(line_elements[0:dimension])
-          if len(line_elements) > dimension:
-            features.append(line_elements[dimension:])
+          features.append(line_elements[dimension:])
 
-      points = tf.convert_to_tensor(value=points)
-      features = tf.convert_to_tensor(value=features)
+      points = tf.convert_to_tensor(value=points, dtype=tf.string)
+      features = tf.convert_to_tensor(value=features, dtype=tf.string)
       points = tf.strings.to_number(input=points, out_type=dtype)
       features = tf.strings.to_number(input=features, out_type=dtype)
       return points, features
@@ -100,8 +99,7 @@ def load_points_from_file_to_numpy(filename,
           if max_num_points is None or i < max_num_points:
             line_elements = line.rstrip('\r\n').split(delimiter)
             points.append(line_elements[0:dimension])
-            if len(line_elements) > dimension:
-              features.append(line_elements[dimension:])
+            features.append(line_elements[dimension:])
           else:
             break
           i += 1
-- 
2.43.0


From 83fad8dd85ee69849c2164e2c18a975e313b88ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 43/57] fix: deformable KPConv with an unknown number of points
 in graph mode

---
 pylib/pc/layers/KPConv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index 6f12261..5f44acc 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -278,7 +278,7 @@ class KPConv(tf.Module):
     features = tf.cast(tf.convert_to_tensor(value=features),
                        dtype=tf.float32)
     features = _flatten_features(features, point_cloud_in)
-    self._num_output_points = point_cloud_out._points.shape[0]
+    self._num_output_points = tf.shape(point_cloud_out._points)[0]
 
     if kernel_influence_dist is None:
       # normalized
@@ -380,14 +380,14 @@ class KPConv(tf.Module):
         self._kernel_offsets_weights)
 
     # save for regularization loss computation
-    self._offsets = tf.reshape(offset_per_center, [self._num_output_points,
+    self._offsets = tf.reshape(offset_per_center, [-1,
                                                    self._num_kernel_points,
                                                    self._num_dims])
     # project back onto neighbor pairs, shape [M, D*K]
     offset_per_nb = tf.gather(offset_per_center, neighbors[:, 1])
     # reshape to shape [M, K, self._num_dims]
     return  tf.reshape(offset_per_nb,
-                       [neighbors.shape[0],
+                       [-1,
                         self._num_kernel_points,
                         self._num_dims])
 
-- 
2.43.0


From 051fc31596541f949226e51549965fc53c16a7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 44/57] fix: compute cell keys with 64 bit integers

---
 pylib/pc/custom_ops/custom_ops_tf.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 6d7d14e..ba394b8 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -48,12 +48,14 @@ def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, aabb=None,
   cell_ind = tf.minimum(
       tf.maximum(cell_ind, tf.zeros_like(cell_ind)),
       num_cells - 1)
-  cell_multiplier = tf.math.cumprod(num_cells, reverse=True)
+  # the total number of cells can be larger than 2^31
+  cell_ind = tf.cast(cell_ind, tf.int64)
+  cell_multiplier = tf.math.cumprod(tf.cast(num_cells, tf.int64), reverse=True)
   cell_multiplier = tf.concat((cell_multiplier, [1]), axis=0)
-  keys = point_cloud._batch_ids * cell_multiplier[0] + \
+  keys = tf.cast(point_cloud._batch_ids, tf.int64) * cell_multiplier[0] + \
       tf.math.reduce_sum(cell_ind * tf.reshape(cell_multiplier[1:], [1, -1]),
                          axis=1)
-  return tf.cast(keys, tf.int64)
+  return keys
 tf.no_gradient('ComputeKeysTF')
 
 
@@ -73,7 +75,7 @@ def build_grid_ds_tf(sorted_keys, num_cells, batch_size, name=None):
     An `int` `Tensor` of shape `[batch_size, num_cells[0], num_cells[1], 2]`.
 
   """
-  sorted_keys = tf.cast(tf.convert_to_tensor(value=sorted_keys), tf.int32)
+  sorted_keys = tf.cast(tf.convert_to_tensor(value=sorted_keys), tf.int64)
   num_cells = tf.cast(tf.convert_to_tensor(value=num_cells), tf.int32)
 
   num_keys = tf.shape(sorted_keys)[0]
@@ -83,8 +85,8 @@ def build_grid_ds_tf(sorted_keys, num_cells, batch_size, name=None):
       'Points must have dimensionality >1.')
   cells_per_2D_cell = tf.cond(
     tf.shape(num_cells)[0] > 2,
-    lambda: tf.reduce_prod(num_cells[2:]),
-    lambda: 1
+    lambda: tf.reduce_prod(tf.cast(num_cells[2:], tf.int64)),
+    lambda: tf.constant(1, dtype=tf.int64)
   )
   # condition without graph mode
   # if tf.shape(num_cells)[0] > 2:
@@ -92,8 +94,7 @@ def build_grid_ds_tf(sorted_keys, num_cells, batch_size, name=None):
   # elif tf.shape(num_cells)[0] == 2:
   #     cells_per_2D_cell = 1
 
-  ds_indices = tf.cast(tf.floor(sorted_keys / cells_per_2D_cell),
-                       dtype=tf.int32)
+  ds_indices = tf.cast(sorted_keys // cells_per_2D_cell, dtype=tf.int32)
   indices = tf.range(0, num_keys, dtype=tf.int32)
   first_per_cell = tf.math.unsorted_segment_min(
       indices, ds_indices, num_cells_2D)
-- 
2.43.0


From bd905ae35e90f32368a22fa6d1f3c8c3d008e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 45/57] fix: restore the line endings of PointHierarchy.py and
 sampling.py

---
 pylib/pc/PointHierarchy.py | 374 ++++++++++++++++++-------------------
 pylib/pc/sampling.py       | 300 ++++++++++++++---------------
 2 files changed, 337 insertions(+), 337 deletions(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index fa1b6b5..8d4fe20 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -1,187 +1,187 @@
-# Copyright 2020 The TensorFlow Authors
-#
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-#
-#    https://www.apache.org/licenses/LICENSE-2.0
-#
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-"""Class to represent a point cloud hierarchy."""
-
-import numpy as np
-import tensorflow as tf
-
-from pylib.pc.utils import check_valid_point_hierarchy_input
-
-from pylib.pc import PointCloud
-from pylib.pc import Grid
-from pylib.pc import Neighborhood
-from pylib.pc import sample
-from pylib.pc.utils import cast_to_num_dims
-
-
-class PointHierarchy:
-  """ A hierarchy of sampled point clouds.
-
-  Args:
-    point_cloud: A `PointCloud` instance..
-    cell_sizes: A list of  `floats` or `float` `Tensors` of shape `[D]`,
-      the cell sizes for the sampling. The length of the list defines
-      the number of samplings.
-    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
-
-  """
-
-  def __init__(self,
-               point_cloud: PointCloud,
-               cell_sizes,
-               sample_mode='poisson',
-               name=None):
-    #Initialize the attributes.
-    self._aabb = point_cloud.get_AABB()
-    self._point_clouds = [point_cloud]
-    self._cell_sizes = []
-    self._neighborhoods = []
-
-    self._dimension = point_cloud._dimension
-    self._batch_shape = point_cloud._batch_shape
-
-    #Create the different sampling operations.
-    cur_point_cloud = point_cloud
-    for sample_iter, cur_cell_sizes in enumerate(cell_sizes):
-      cur_cell_sizes = tf.reshape(tf.convert_to_tensor(
-          value=cur_cell_sizes, dtype=tf.float32), [-1])
-
-      # Check if the cell size is defined for all the dimensions.
-      # If not, the last cell size value is tiled until all the dimensions
-      # have a value.
-      cur_num_dims = tf.gather(cur_cell_sizes.shape, 0)
-      cur_cell_sizes = tf.cond(
-          cur_num_dims < self._dimension,
-          lambda: tf.concat((cur_cell_sizes,
-                             tf.tile(cur_cell_sizes[-1:],
-                                     [self._dimension - cur_num_dims])),
-                            axis=0),
-          lambda: cur_cell_sizes)
-      tf.assert_greater(
-          self._dimension + 1,
-          cur_num_dims,
-          f'Too many dimensions in cell sizes {cur_num_dims} ' + \
-          f'instead of max. {self._dimension}')
-      # old version, does not run in graph mode
-      # if cur_num_dims < self._dimension:
-      #   cur_cell_sizes = tf.concat((cur_cell_sizes,
-      #                  tf.tile(tf.gather(cur_cell_sizes,
-      #                                    [tf.rank(cur_cell_sizes) - 1]),
-      #                    [self._dimension - cur_num_dims])),
-      #                       axis=0)
-      # if cur_num_dims > self._dimension:
-      #   raise ValueError(
-      #       f'Too many dimensions in cell sizes {cur_num_dims} ' + \
-      #       f'instead of max. {self._dimension}')
-
-      self._cell_sizes.append(cur_cell_sizes)
-
-      #Create the sampling operation.
-      cur_grid = Grid(cur_point_cloud, cur_cell_sizes, self._aabb)
-      cur_neighborhood = Neighborhood(cur_grid, cur_cell_sizes)
-      cur_point_cloud, _ = sample(cur_neighborhood, sample_mode)
-
-      self._neighborhoods.append(cur_neighborhood)
-      cur_point_cloud.set_batch_shape(self._batch_shape)
-      self._point_clouds.append(cur_point_cloud)
-
-  def get_points(self, batch_id=None, max_num_points=None, name=None):
-    """ Returns the points.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-      If called withoud specifying 'id' returns the points in padded format
-      `[A1, ..., An, V, D]`.
-
-    Args:
-      batch_id: An `int`, identifier of point cloud in the batch, if `None`
-        returns all points.
-
-    Return:
-      A list of `float` `Tensors` of shape
-          `[N_i, D]`, if 'batch_id' was given
-      or
-        `[A1, ..., An, V_i, D]`, if no 'batch_id' was given.
-    """
-    points = []
-    for point_cloud in self._point_clouds:
-      points.append(point_cloud.get_points(batch_id, max_num_points))
-    return points
-
-  def get_sizes(self, name=None):
-    """ Returns the sizes of the point clouds in the point hierarchy.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-    Returns:
-      A `list` of `Tensors` of shape '`[A1, .., An]`'
-
-    """
-
-    sizes = []
-    for point_cloud in self._point_clouds:
-      sizes.append(point_cloud.get_sizes())
-    return sizes
-
-  def set_batch_shape(self, batch_shape, name=None):
-    """ Function to change the batch shape.
-
-      Use this to set a batch shape instead of using 'self._batch_shape'
-      to also change dependent variables.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-    Args:
-      batch_shape: An 1D `int` `Tensor` `[A1, ..., An]`.
-
-    Raises:
-      ValueError: if shape does not sum up to batch size.
-
-    """
-    for point_cloud in self._point_clouds:
-      point_cloud.set_batch_shape(batch_shape)
-
-  def get_neighborhood(self, i=None, transposed=False):
-    """ Returns the neighborhood between level `i` and `i+1` of the hierarchy.
-    If called without argument returns a list of all neighborhoods.
-
-    Args:
-      i: An `int`, can be negative but must be in range
-        `[-num_levels, num_levels-1]`.
-      transposed: A `bool`, if `True` returns the neighborhood between
-        level `i+1` and `i`.
-
-    Returs:
-      A `Neighborhood` instance or a `list` of `Neighborhood` instances.
-
-    """
-    if i is None:
-      if transposed:
-        return [nb.transpose() for nb in self._neighborhoods]
-      else:
-        return self._neighborhoods
-    else:
-      if transposed:
-        return self._neighborhoods[i].transpose()
-      else:
-        return self._neighborhoods[i]
-
-  def __getitem__(self, index):
-    return self._point_clouds[index]
-
-  def __len__(self):
-    return len(self._point_clouds)
+# Copyright 2020 The TensorFlow Authors
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#    https://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+"""Class to represent a point cloud hierarchy."""
+
+import numpy as np
+import tensorflow as tf
+
+from pylib.pc.utils import check_valid_point_hierarchy_input
+
+from pylib.pc import PointCloud
+from pylib.pc import Grid
+from pylib.pc import Neighborhood
+from pylib.pc import sample
+from pylib.pc.utils import cast_to_num_dims
+
+
+class PointHierarchy:
+  """ A hierarchy of sampled point clouds.
+
+  Args:
+    point_cloud: A `PointCloud` instance..
+    cell_sizes: A list of  `floats` or `float` `Tensors` of shape `[D]`,
+      the cell sizes for the sampling. The length of the list defines
+      the number of samplings.
+    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
+
+  """
+
+  def __init__(self,
+               point_cloud: PointCloud,
+               cell_sizes,
+               sample_mode='poisson',
+               name=None):
+    #Initialize the attributes.
+    self._aabb = point_cloud.get_AABB()
+    self._point_clouds = [point_cloud]
+    self._cell_sizes = []
+    self._neighborhoods = []
+
+    self._dimension = point_cloud._dimension
+    self._batch_shape = point_cloud._batch_shape
+
+    #Create the different sampling operations.
+    cur_point_cloud = point_cloud
+    for sample_iter, cur_cell_sizes in enumerate(cell_sizes):
+      cur_cell_sizes = tf.reshape(tf.convert_to_tensor(
+          value=cur_cell_sizes, dtype=tf.float32), [-1])
+
+      # Check if the cell size is defined for all the dimensions.
+      # If not, the last cell size value is tiled until all the dimensions
+      # have a value.
+      cur_num_dims = tf.gather(cur_cell_sizes.shape, 0)
+      cur_cell_sizes = tf.cond(
+          cur_num_dims < self._dimension,
+          lambda: tf.concat((cur_cell_sizes,
+                             tf.tile(cur_cell_sizes[-1:],
+                                     [self._dimension - cur_num_dims])),
+                            axis=0),
+          lambda: cur_cell_sizes)
+      tf.assert_greater(
+          self._dimension + 1,
+          cur_num_dims,
+          f'Too many dimensions in cell sizes {cur_num_dims} ' + \
+          f'instead of max. {self._dimension}')
+      # old version, does not run in graph mode
+      # if cur_num_dims < self._dimension:
+      #   cur_cell_sizes = tf.concat((cur_cell_sizes,
+      #                  tf.tile(tf.gather(cur_cell_sizes,
+      #                                    [tf.rank(cur_cell_sizes) - 1]),
+      #                    [self._dimension - cur_num_dims])),
+      #                       axis=0)
+      # if cur_num_dims > self._dimension:
+      #   raise ValueError(
+      #       f'Too many dimensions in cell sizes {cur_num_dims} ' + \
+      #       f'instead of max. {self._dimension}')
+
+      self._cell_sizes.append(cur_cell_sizes)
+
+      #Create the sampling operation.
+      cur_grid = Grid(cur_point_cloud, cur_cell_sizes, self._aabb)
+      cur_neighborhood = Neighborhood(cur_grid, cur_cell_sizes)
+      cur_point_cloud, _ = sample(cur_neighborhood, sample_mode)
+
+      self._neighborhoods.append(cur_neighborhood)
+      cur_point_cloud.set_batch_shape(self._batch_shape)
+      self._point_clouds.append(cur_point_cloud)
+
+  def get_points(self, batch_id=None, max_num_points=None, name=None):
+    """ Returns the points.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+      If called withoud specifying 'id' returns the points in padded format
+      `[A1, ..., An, V, D]`.
+
+    Args:
+      batch_id: An `int`, identifier of point cloud in the batch, if `None`
+        returns all points.
+
+    Return:
+      A list of `float` `Tensors` of shape
+          `[N_i, D]`, if 'batch_id' was given
+      or
+        `[A1, ..., An, V_i, D]`, if no 'batch_id' was given.
+    """
+    points = []
+    for point_cloud in self._point_clouds:
+      points.append(point_cloud.get_points(batch_id, max_num_points))
+    return points
+
+  def get_sizes(self, name=None):
+    """ Returns the sizes of the point clouds in the point hierarchy.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+    Returns:
+      A `list` of `Tensors` of shape '`[A1, .., An]`'
+
+    """
+
+    sizes = []
+    for point_cloud in self._point_clouds:
+      sizes.append(point_cloud.get_sizes())
+    return sizes
+
+  def set_batch_shape(self, batch_shape, name=None):
+    """ Function to change the batch shape.
+
+      Use this to set a batch shape instead of using 'self._batch_shape'
+      to also change dependent variables.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+    Args:
+      batch_shape: An 1D `int` `Tensor` `[A1, ..., An]`.
+
+    Raises:
+      ValueError: if shape does not sum up to batch size.
+
+    """
+    for point_cloud in self._point_clouds:
+      point_cloud.set_batch_shape(batch_shape)
+
+  def get_neighborhood(self, i=None, transposed=False):
+    """ Returns the neighborhood between level `i` and `i+1` of the hierarchy.
+    If called without argument returns a list of all neighborhoods.
+
+    Args:
+      i: An `int`, can be negative but must be in range
+        `[-num_levels, num_levels-1]`.
+      transposed: A `bool`, if `True` returns the neighborhood between
+        level `i+1` and `i`.
+
+    Returs:
+      A `Neighborhood` instance or a `list` of `Neighborhood` instances.
+
+    """
+    if i is None:
+      if transposed:
+        return [nb.transpose() for nb in self._neighborhoods]
+      else:
+        return self._neighborhoods
+    else:
+      if transposed:
+        return self._neighborhoods[i].transpose()
+      else:
+        return self._neighborhoods[i]
+
+  def __getitem__(self, index):
+    return self._point_clouds[index]
+
+  def __len__(self):
+    return len(self._point_clouds)
diff --git a/pylib/pc/sampling.py b/pylib/pc/sampling.py
index 9ea0303..18090c1 100755
--- a/pylib/pc/sampling.py
+++ b/pylib/pc/sampling.py
@@ -1,150 +1,150 @@
-# Copyright 2020 The TensorFlow Authors
-#
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-#
-#    https://www.apache.org/licenses/LICENSE-2.0
-#
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-"""Methods to sample point clouds. """
-
-import tensorflow as tf
-
-from pylib.pc.custom_ops import sampling
-
-from pylib.pc import PointCloud, Neighborhood, Grid
-from pylib.pc.utils import cast_to_num_dims
-
-sample_modes = {'average': 1,
-                'cell average': 1,
-                'cell_average': 1,
-                'poisson': 0,
-                'poisson disk': 0,
-                'poisson_disk': 0}
-
-
-def poisson_disk_sampling(point_cloud,
-                          radius=None,
-                          neighborhood=None,
-                          return_ids=False,
-                          name=None):
-  """ Poisson disk sampling of a point cloud.
-
-  Note: Either `radius` or `neighborhood` must be provided.
-
-  Args:
-    point_cloud: A `PointCloud` instance.
-    radius: A `float` or a `float` `Tensor` of shape `[D]`, the radius for the
-      Poisson disk sampling.
-    neighborhood: A `Neighborhood` instance.
-    return_ids: A `bool`, if `True` returns the indices of the sampled points.
-      (optional)
-
-    Returns:
-      A `PointCloud` instance.
-      An `int` `Tensor` of shape `[S]`, if `return_ids` is `True`.
-
-    Raises:
-      ValueError: If no radius or neighborhood is given.
-
-  """
-  if radius is None and neighborhood is None:
-    raise ValueError(
-        "Missing Argument! Either radius or neighborhood must be given!")
-  if neighborhood is None:
-    # compute neighborhood
-    radii = cast_to_num_dims(radius, point_cloud._dimension)
-    grid = Grid(point_cloud, radii)
-    neighborhood = Neighborhood(grid, radii)
-
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, sample_modes['poisson'])
-
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size)
-
-  if return_ids:
-    sampled_indices = tf.gather(neighborhood._grid._sorted_indices,
-                                sampled_indices)
-    return sampled_point_cloud, sampled_indices
-  else:
-    return sampled_point_cloud
-
-
-def cell_average_sampling(point_cloud,
-                          cell_sizes=None,
-                          grid=None,
-                          name=None):
-  """ Cell average sampling of a point cloud.
-
-  Note: Either `cell_sizes` or `grid` must be provided.
-
-  Args:
-    point_cloud: A `PointCloud` instance.
-    cell_sizes: A `float` or a `float` `Tensor` of shape `[D]`, the cell sizes
-      for the sampling.
-    grid: A `Grid` instance.
-
-    Returns:
-      A `PointCloud` instance.
-
-    Raises:
-      ValueError: If no radius or grid is given.
-
-  """
-  if cell_sizes is None and grid is None:
-    raise ValueError(
-        "Missing Argument! Either cell_sizes or grid must be given!")
-  if grid is None:
-    # compute grid
-    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud._dimension)
-    grid = Grid(point_cloud, cell_sizes)
-
-  neighborhood = Neighborhood(grid, grid._cell_sizes)
-
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, sample_modes['average'])
-
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size)
-
-  return sampled_point_cloud
-
-
-def sample(neighborhood, sample_mode='poisson', name=None):
-  """ Sampling for a neighborhood.
-
-  Args:
-    neighborhood: A `Neighborhood` instance.
-    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
-
-  Returns:
-    A `PointCloud` instance, the sampled points.
-    An `int` `Tensor` of shape `[S]`, the indices of the sampled points,
-      `None` for cell average sampling.
-
-  """
-  sample_mode_value = sample_modes[sample_mode.lower()]
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, sample_mode_value)
-
-  #Save the sampled point cloud.
-  if sample_mode_value == 0:
-    sampled_indices = tf.gather(
-        neighborhood._grid._sorted_indices, sampled_indices)
-  else:
-    sampled_indices = None
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size_numpy)
-  return sampled_point_cloud, sampled_indices
+# Copyright 2020 The TensorFlow Authors
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#    https://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+"""Methods to sample point clouds. """
+
+import tensorflow as tf
+
+from pylib.pc.custom_ops import sampling
+
+from pylib.pc import PointCloud, Neighborhood, Grid
+from pylib.pc.utils import cast_to_num_dims
+
+sample_modes = {'average': 1,
+                'cell average': 1,
+                'cell_average': 1,
+                'poisson': 0,
+                'poisson disk': 0,
+                'poisson_disk': 0}
+
+
+def poisson_disk_sampling(point_cloud,
+                          radius=None,
+                          neighborhood=None,
+                          return_ids=False,
+                          name=None):
+  """ Poisson disk sampling of a point cloud.
+
+  Note: Either `radius` or `neighborhood` must be provided.
+
+  Args:
+    point_cloud: A `PointCloud` instance.
+    radius: A `float` or a `float` `Tensor` of shape `[D]`, the radius for the
+      Poisson disk sampling.
+    neighborhood: A `Neighborhood` instance.
+    return_ids: A `bool`, if `True` returns the indices of the sampled points.
+      (optional)
+
+    Returns:
+      A `PointCloud` instance.
+      An `int` `Tensor` of shape `[S]`, if `return_ids` is `True`.
+
+    Raises:
+      ValueError: If no radius or neighborhood is given.
+
+  """
+  if radius is None and neighborhood is None:
+    raise ValueError(
+        "Missing Argument! Either radius or neighborhood must be given!")
+  if neighborhood is None:
+    # compute neighborhood
+    radii = cast_to_num_dims(radius, point_cloud._dimension)
+    grid = Grid(point_cloud, radii)
+    neighborhood = Neighborhood(grid, radii)
+
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, sample_modes['poisson'])
+
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size)
+
+  if return_ids:
+    sampled_indices = tf.gather(neighborhood._grid._sorted_indices,
+                                sampled_indices)
+    return sampled_point_cloud, sampled_indices
+  else:
+    return sampled_point_cloud
+
+
+def cell_average_sampling(point_cloud,
+                          cell_sizes=None,
+                          grid=None,
+                          name=None):
+  """ Cell average sampling of a point cloud.
+
+  Note: Either `cell_sizes` or `grid` must be provided.
+
+  Args:
+    point_cloud: A `PointCloud` instance.
+    cell_sizes: A `float` or a `float` `Tensor` of shape `[D]`, the cell sizes
+      for the sampling.
+    grid: A `Grid` instance.
+
+    Returns:
+      A `PointCloud` instance.
+
+    Raises:
+      ValueError: If no radius or grid is given.
+
+  """
+  if cell_sizes is None and grid is None:
+    raise ValueError(
+        "Missing Argument! Either cell_sizes or grid must be given!")
+  if grid is None:
+    # compute grid
+    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud._dimension)
+    grid = Grid(point_cloud, cell_sizes)
+
+  neighborhood = Neighborhood(grid, grid._cell_sizes)
+
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, sample_modes['average'])
+
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size)
+
+  return sampled_point_cloud
+
+
+def sample(neighborhood, sample_mode='poisson', name=None):
+  """ Sampling for a neighborhood.
+
+  Args:
+    neighborhood: A `Neighborhood` instance.
+    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
+
+  Returns:
+    A `PointCloud` instance, the sampled points.
+    An `int` `Tensor` of shape `[S]`, the indices of the sampled points,
+      `None` for cell average sampling.
+
+  """
+  sample_mode_value = sample_modes[sample_mode.lower()]
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, sample_mode_value)
+
+  #Save the sampled point cloud.
+  if sample_mode_value == 0:
+    sampled_indices = tf.gather(
+        neighborhood._grid._sorted_indices, sampled_indices)
+  else:
+    sampled_indices = None
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size_numpy)
+  return sampled_point_cloud, sampled_indices
-- 
2.43.0


From fc2401d378788365795df80ada068b807bed6bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 46/57] fix: subtract points before the division by the
 bandwidth in compute_pdf_tf

---
 pylib/pc/custom_ops/custom_ops_tf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index ba394b8..b6c5edc 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -401,15 +401,16 @@ def compute_pdf_tf(neighborhood, bandwidth, mode, name=None):
   bandwidth = tf.convert_to_tensor(value=bandwidth)
 
   rel_bandwidth = tf.reshape(bandwidth * neighborhood._radii, [1, -1])
-  points = neighborhood._grid._sorted_points / rel_bandwidth
+  points = neighborhood._grid._sorted_points
   num_points = tf.shape(points)[0]
   neighbors = neighborhood._neighbors
-  # point differences
+  # point differences, subtracted before the division to keep the precision
   nb_diff = tf.gather(points, neighbors[:, 0]) - \
       tf.gather(points, neighbors[:, 1])
   # kde on point differences
-  # gaussian kernel, note division by bandwidth was already done above
-  nb_kernel_value = tf.exp(-tf.pow(nb_diff, 2) / 2) / tf.sqrt(2 * _pi)
+  kernel_input = nb_diff / rel_bandwidth
+  # gaussian kernel
+  nb_kernel_value = tf.exp(-tf.pow(kernel_input, 2) / 2) / tf.sqrt(2 * _pi)
   nb_kernel_value = tf.reduce_prod(nb_kernel_value, axis=1)
   # sum over influence of neighbors
   pdf = tf.math.unsorted_segment_sum(nb_kernel_value,
-- 
2.43.0


From 2eccc5ff5d35dde9f86a3962a936afa6350715de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 47/57] fix: normalize the densities in neighborhoods with an
 unknown number of points in graph mode

---
 pylib/pc/Neighborhood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index ebb193f..fd7ff0d 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -284,7 +284,7 @@ class Neighborhood:
       norm_factors = tf.math.unsorted_segment_sum(
           tf.ones_like(self._pdf),
           self._neighbors[:, 1],
-          self._point_cloud_sampled._points.shape[0])
+          tf.shape(self._point_cloud_sampled._points)[0])
       self._pdf = self._pdf / tf.gather(norm_factors, self._neighbors[:, 1])
 
   def get_pdf(self, **kwargs):
-- 
2.43.0


From ed4aff8bf643b52954196fbbcbab47ab3cd70cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 48/57] fix: normalize densities of neighbor pairs in any order

---
 pylib/pc/Neighborhood.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index fd7ff0d..1c197e4 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -189,9 +189,7 @@ def density_estimation_in_neighborhoods(point_cloud,
                              False)
     pdf = tf.gather(pdf, neighbors[:, 0])
   if normalize:
-    norm_factors = tf.math.segment_sum(
-        tf.ones_like(pdf),
-        neighbors[:, 1])
+    norm_factors = tf.math.bincount(neighbors[:, 1], dtype=pdf.dtype)
     pdf = pdf / tf.gather(norm_factors, neighbors[:, 1])
   return pdf
 
-- 
2.43.0


From ab691a267d57f7f536e6c9558ca1b5c3c55fc620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 49/57] fix: no neighbor twice from the CUDA kernels if a grid
 has few cells along the last of more than three dimensions

---
 .../cc/kernels/find_ranges_grid_ds_kernels.cu.cc   | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
index aa4dfb3..533f974 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
@@ -61,9 +61,6 @@ __global__ void find_ranges_grid_ds_gpu_kernel(
     int initPtIndex = mccnn::compute_global_index_gpu_funct();
     int totalThreads = mccnn::compute_total_threads_gpu_funct();
 
-    //Calculate the total number of cells.
-    mccnn::int64_m totalCells = mccnn::compute_total_num_cells_gpu_funct(pNumCells[0]);
-
     for(int curIter = initPtIndex; curIter < pNumSamples*pNumOffsets; curIter += totalThreads)
     {
         //Calculate the point and offset index.
@@ -98,13 +95,14 @@ __global__ void find_ranges_grid_ds_gpu_kernel(
             //Tube has at least 1 element.
             if(rangeSize >= 0){
 
-                //Compute max key of the range.
+                //Compute max key of the range, without leaving the row of cells
+                //along the last dimension (the other rows have their own offset).
                 mccnn::ipoint<D> auxCell(&cellIndex[1]);
                 mccnn::int64_m auxKey = mccnn::compute_key_gpu_funct(auxCell, pNumCells[0], cellIndex[0]);
-                mccnn::int64_m maxKey = auxKey+pLastDOffsets;
-                mccnn::int64_m minKey = auxKey-pLastDOffsets;
-                maxKey = (auxKey/totalCells == maxKey/totalCells)?maxKey:((auxKey/totalCells)*totalCells) + totalCells - 1;
-                minKey = (auxKey/totalCells == minKey/totalCells)?minKey:((auxKey/totalCells)*totalCells);
+                int maxLastCell = min(cellIndex[D]+(int)pLastDOffsets, pNumCells[0][D-1]-1);
+                int minLastCell = max(cellIndex[D]-(int)pLastDOffsets, 0);
+                mccnn::int64_m maxKey = auxKey+(maxLastCell-cellIndex[D]);
+                mccnn::int64_m minKey = auxKey-(cellIndex[D]-minLastCell);
 
                 //Declare iterators and auxiliar variables.
                 int2 curMinRange = make_int2(0, rangeSize);
-- 
2.43.0


From 93498913784a307fc76e42ece4871146b48d0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 50/57] fix: keep the number of stored neighbors between the
 calls of the CUDA kernel if the number of neighbors is limited

---
 .../find_neighbors/cc/kernels/store_neighbors.h          | 4 ++++
 .../cc/kernels/store_neighbors_kernels.cu.cc             | 9 +++------
 .../find_neighbors/cc/ops/find_neighbors_ops.cpp         | 8 +++++++-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
index 68a941d..36473c0 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
@@ -43,6 +43,9 @@ namespace mccnn{
      *  @param  pOutGPUPtrNumNeighsU    Input/Output pointer to the vector  
      *      with the number of neighbors for each sample without the limit of
      *      pMaxNeighbors.
+     *  @param  pOutGPUPtrAuxCounter    Input/Output pointer to the vector
+     *      with the number of neighbors for each sample found so far. Zero 
+     *      before the first of the calls for the same samples.
      *  @param  pOutGPUPtrNumNeighs     Input/Output pointer to the vector  
      *      with the number of neighbors for each sample on the GPU.
      *  @param  pOutGPUPtrNeighs        Output pointer to the vector with the 
@@ -60,6 +63,7 @@ namespace mccnn{
         const int* pInGPUPtrRanges,
         const float* pInGPUPtrInvRadii,
         int* pOutGPUPtrNumNeighsU,
+        int* pOutGPUPtrAuxCounter,
         int* pOutGPUPtrNumNeighs,
         int* pOutGPUPtrNeighs);
         
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
index 011ea22..4ee539f 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
@@ -181,6 +181,7 @@ void mccnn::store_neighbors(
     const int* pInGPUPtrRanges,
     const float* pInGPUPtrInvRadii,
     int* pOutGPUPtrNumNeighsU,
+    int* pOutGPUPtrAuxCounter,
     int* pOutGPUPtrNumNeighs,
     int* pOutGPUPtrNeighs)
 {
@@ -193,11 +194,6 @@ void mccnn::store_neighbors(
     unsigned int numBlocks;
     unsigned int blockSize;
     if(pMaxNeighbors > 0){
-        //Create a temporal tensor.
-        int* tmpVect = pDevice->getIntTmpGPUBuffer(pNumSamples);
-        pDevice->memset(tmpVect, 0, sizeof(int)*pNumSamples);
-        pDevice->check_error(__FILE__, __LINE__);
-
         //Calculate the ideal number of blocks for the selected block size.
         unsigned int numMP = gpuProps.numMPs_;
         blockSize = gpuProps.warpSize_*2;
@@ -222,7 +218,7 @@ void mccnn::store_neighbors(
             (const int2*)pInGPUPtrRanges,
             (const mccnn::fpoint<D>*)pInGPUPtrInvRadii,
             pOutGPUPtrNumNeighsU,
-            tmpVect,
+            pOutGPUPtrAuxCounter,
             pOutGPUPtrNumNeighs,
             (int2*)pOutGPUPtrNeighs);
         pDevice->check_error(__FILE__, __LINE__);
@@ -282,6 +278,7 @@ void mccnn::store_neighbors(
         const int* pInGPUPtrRanges,             \
         const float* pInGPUPtrInvRadii,         \
         int* pOutGPUPtrNumNeighsU,              \
+        int* pOutGPUPtrAuxCounter,              \
         int* pOutGPUPtrNumNeighs,               \
         int* pOutGPUPtrNeighs);
 
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
index 4371275..b7f61b0 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
@@ -207,10 +207,16 @@ namespace mccnn{
 
                 //Clamp the number of neighbors if required.
                 int* tmpGPUPtr4 = nullptr;
+                int* tmpGPUPtr5 = nullptr;
                 if(maxNeighs_ > 0){
                     tmpGPUPtr4 = gpuDevice->getIntTmpGPUBuffer(numSamples);
                     gpuDevice->memcpy_device_to_device(tmpGPUPtr4, outputGPUPtr1, sizeof(int)*numSamples);
                     mccnn::elem_wise_min_value<int>(gpuDevice, numSamples, maxNeighs_, outputGPUPtr1);
+
+                    //Counter shared by all the calls that store neighbors.
+                    tmpGPUPtr5 = gpuDevice->getIntTmpGPUBuffer(numSamples);
+                    gpuDevice->memset(tmpGPUPtr5, 0, sizeof(int)*numSamples);
+                    gpuDevice->check_error(__FILE__, __LINE__);
                 }
 
                 //Scan algorithm of the number of neighbors per sample.
@@ -245,7 +251,7 @@ namespace mccnn{
                     DIMENSION_SWITCH_CALL(numDimensions, mccnn::store_neighbors,
                         gpuDevice, maxNeighs_, numSamples, NUM_OFFSETS_X_COMPUTE_BLOCK,  
                         samplesGPUPtr, ptsGPUPtr, tmpGPUPtr2, invRadiiGPUPtr, 
-                        tmpGPUPtr4, outputGPUPtr1, outputGPUPtr2);
+                        tmpGPUPtr4, tmpGPUPtr5, outputGPUPtr1, outputGPUPtr2);
                 }
             }
 
-- 
2.43.0


From 812eac8a2d0fc346e9727dbc383c103e640a0f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 51/57] fix: write inside of the range of a center if the CUDA
 kernel replaces neighbors

---
 .../find_neighbors/cc/kernels/store_neighbors.h      |  3 +++
 .../cc/kernels/store_neighbors_kernels.cu.cc         | 12 ++++++++++--
 .../find_neighbors/cc/ops/find_neighbors_ops.cpp     | 10 +++++++++-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
index 36473c0..4d65a15 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
@@ -43,6 +43,8 @@ namespace mccnn{
      *  @param  pOutGPUPtrNumNeighsU    Input/Output pointer to the vector  
      *      with the number of neighbors for each sample without the limit of
      *      pMaxNeighbors.
+     *  @param  pInGPUPtrStartNeighs    Input pointer to the vector with the
+     *      first position of each sample in the list of neighbors.
      *  @param  pOutGPUPtrAuxCounter    Input/Output pointer to the vector
      *      with the number of neighbors for each sample found so far. Zero 
      *      before the first of the calls for the same samples.
@@ -63,6 +65,7 @@ namespace mccnn{
         const int* pInGPUPtrRanges,
         const float* pInGPUPtrInvRadii,
         int* pOutGPUPtrNumNeighsU,
+        const int* pInGPUPtrStartNeighs,
         int* pOutGPUPtrAuxCounter,
         int* pOutGPUPtrNumNeighs,
         int* pOutGPUPtrNeighs);
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
index 4ee539f..403feec 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
@@ -42,6 +42,8 @@
  *      search of neighbors in each dimension.
  *  @param  pOutNumNeighsU  Number of neighbors for each sample
  *      without the limit imposed by pMaxNeighbors.
+ *  @param  pStartNeighs    First position of each sample in the list
+ *      of neighbors.
  *  @param  pAuxCounter     Auxiliar counter.
  *  @param  pOutNumNeighs   Number of neighbors for each sample.
  *  @param  pOutNeighs      Final beighbors.
@@ -58,6 +60,7 @@
     const int2* __restrict__ pRanges,
     const mccnn::fpoint<D>* __restrict__ pInvRadii,
     const int* __restrict__ pOutNumNeighsU,
+    const int* __restrict__ pStartNeighs,
     int* __restrict__ pAuxCounter,
     int* __restrict__ pOutNumNeighs,
     int2* __restrict__ pOutNeighs)
@@ -102,8 +105,10 @@
                     if(uniformVal < ratio){
                         curSeed = mccnn::rand_xorshift(curSeed);
                         uniformVal = mccnn::seed_to_float(curSeed);
-                        neighIndex = (int)floor(uniformVal*((float)pMaxNeighbors))+1;
-                        pOutNeighs[pOutNumNeighs[sampleIndex] - neighIndex] = make_int2(curPtIter, sampleIndex);
+                        neighIndex = (int)floor(uniformVal*((float)pMaxNeighbors));
+                        neighIndex = min(neighIndex, pMaxNeighbors-1);
+                        //(other threads may still be increasing pOutNumNeighs)
+                        pOutNeighs[pStartNeighs[sampleIndex] + neighIndex] = make_int2(curPtIter, sampleIndex);
                     }
                 }
             }
@@ -181,6 +186,7 @@ void mccnn::store_neighbors(
     const int* pInGPUPtrRanges,
     const float* pInGPUPtrInvRadii,
     int* pOutGPUPtrNumNeighsU,
+    const int* pInGPUPtrStartNeighs,
     int* pOutGPUPtrAuxCounter,
     int* pOutGPUPtrNumNeighs,
     int* pOutGPUPtrNeighs)
@@ -218,6 +224,7 @@ void mccnn::store_neighbors(
             (const int2*)pInGPUPtrRanges,
             (const mccnn::fpoint<D>*)pInGPUPtrInvRadii,
             pOutGPUPtrNumNeighsU,
+            pInGPUPtrStartNeighs,
             pOutGPUPtrAuxCounter,
             pOutGPUPtrNumNeighs,
             (int2*)pOutGPUPtrNeighs);
@@ -278,6 +285,7 @@ void mccnn::store_neighbors(
         const int* pInGPUPtrRanges,             \
         const float* pInGPUPtrInvRadii,         \
         int* pOutGPUPtrNumNeighsU,              \
+        const int* pInGPUPtrStartNeighs,        \
         int* pOutGPUPtrAuxCounter,              \
         int* pOutGPUPtrNumNeighs,               \
         int* pOutGPUPtrNeighs);
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
index b7f61b0..cb6041a 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
@@ -223,6 +223,14 @@ namespace mccnn{
                 unsigned int numNeighbors =  mccnn::scan_alg(
                     gpuDevice, numSamples, outputGPUPtr1);
 
+                //Keep the start positions, the output becomes the end positions.
+                int* tmpGPUPtr6 = nullptr;
+                if(maxNeighs_ > 0){
+                    tmpGPUPtr6 = gpuDevice->getIntTmpGPUBuffer(numSamples);
+                    gpuDevice->memcpy_device_to_device(tmpGPUPtr6, outputGPUPtr1, sizeof(int)*numSamples);
+                    gpuDevice->check_error(__FILE__, __LINE__);
+                }
+
                 //Create the second output tensor.
                 int* outputGPUPtr2 = nullptr;
                 TensorShape outShape2 = TensorShape{numNeighbors, 2};
@@ -251,7 +259,7 @@ namespace mccnn{
                     DIMENSION_SWITCH_CALL(numDimensions, mccnn::store_neighbors,
                         gpuDevice, maxNeighs_, numSamples, NUM_OFFSETS_X_COMPUTE_BLOCK,  
                         samplesGPUPtr, ptsGPUPtr, tmpGPUPtr2, invRadiiGPUPtr, 
-                        tmpGPUPtr4, tmpGPUPtr5, outputGPUPtr1, outputGPUPtr2);
+                        tmpGPUPtr4, tmpGPUPtr6, tmpGPUPtr5, outputGPUPtr1, outputGPUPtr2);
                 }
             }
 
-- 
2.43.0


From 4ded910ad771552cafd1dbf16f7c7c7e93f665b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 52/57] fix: no copy of the cell offsets from memory that may
 have been freed

---
 .../cc/ops/find_neighbors_ops.cpp             | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
index cb6041a..9f184ee 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
@@ -166,8 +166,6 @@ namespace mccnn{
                 mccnn::int64_m* tmpGPUPtr1 = gpuDevice->getInt64TmpGPUBuffer(numSamples);
                 int* tmpGPUPtr2 = gpuDevice->getIntTmpGPUBuffer(
                     numSamples*NUM_OFFSETS_X_COMPUTE_BLOCK*2);
-                int* tmpGPUPtr3 = gpuDevice->getIntTmpGPUBuffer(
-                    NUM_OFFSETS_X_COMPUTE_BLOCK*numDimensions);
 
                 //Compute the keys of the samples.
                 DIMENSION_SWITCH_CALL(numDimensions, mccnn::compute_keys_gpu,
@@ -185,18 +183,20 @@ namespace mccnn{
                 int* combOffsetsPinnedMem = gpuDevice->getIntTmpGPUBuffer(bufferSize, true);
                 memcpy((void*)combOffsetsPinnedMem, (void*)&combOffsets[0], sizeof(int)*bufferSize);
 
+                //Copy to device all the offsets. (The pinned memory is only valid
+                //until the end of this method, later copies might read it too late.)
+                int* tmpGPUPtr3 = gpuDevice->getIntTmpGPUBuffer(bufferSize);
+                gpuDevice->memcpy_host_to_device(tmpGPUPtr3, 
+                    combOffsetsPinnedMem, sizeof(int)*bufferSize);
+                gpuDevice->check_error(__FILE__, __LINE__);
+
                 for(int i = 0; i < numOfComputations; ++i)
                 {
-                    //Copy to device the offsets.
-                    gpuDevice->memcpy_host_to_device(tmpGPUPtr3, 
-                        &combOffsetsPinnedMem[numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK*i], 
-                        sizeof(int)*numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK);
-                    gpuDevice->check_error(__FILE__, __LINE__);
-
                     //Find ranges of points to check in the data structure.
                     DIMENSION_SWITCH_CALL(numDimensions, mccnn::find_ranges_grid_ds_gpu,
                         gpuDevice, numSamples, numPts, 1, NUM_OFFSETS_X_COMPUTE_BLOCK, 
-                        tmpGPUPtr3, tmpGPUPtr1, ptKeysGPUPtr,
+                        &tmpGPUPtr3[numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK*i], 
+                        tmpGPUPtr1, ptKeysGPUPtr,
                         gridDsGPUPtr, numCellsGPUPtr, tmpGPUPtr2);
 
                     //Count neighbors.
@@ -242,16 +242,11 @@ namespace mccnn{
                 for(int i = 0; i < numOfComputations; ++i)
                 {
                     if(numOfComputations > 1){
-                        //Copy to device the offsets.
-                        gpuDevice->memcpy_host_to_device(tmpGPUPtr3, 
-                            &combOffsetsPinnedMem[numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK*i], 
-                            sizeof(int)*numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK);
-                        gpuDevice->check_error(__FILE__, __LINE__);
-
                         //Find ranges of points to check in the data structure.
                         DIMENSION_SWITCH_CALL(numDimensions, mccnn::find_ranges_grid_ds_gpu,
                             gpuDevice, numSamples, numPts, 1, NUM_OFFSETS_X_COMPUTE_BLOCK, 
-                            tmpGPUPtr3, tmpGPUPtr1, ptKeysGPUPtr,
+                            &tmpGPUPtr3[numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK*i], 
+                            tmpGPUPtr1, ptKeysGPUPtr,
                             gridDsGPUPtr, numCellsGPUPtr, tmpGPUPtr2);
                     }
 
-- 
2.43.0


From 7b54b4f57be0db3057866279e403ca88c1a4ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 53/57] fix: no race on the offset of a block in the scan of
 the neighbor counts

---
 .../find_neighbors/cc/kernels/scan_alg_kernels.cu.cc           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
index a4ab33a..1e0ab4e 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
@@ -165,6 +165,9 @@
 
         //Update the counters.
         pElems[curElemIndex] += blockOffset;
+
+        //Wait before the offset is changed for the next elements.
+        __syncthreads();
     }
 }
 
-- 
2.43.0


From 9cb3cf60da5f1da81bfb0901dfc67f4d82d63393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 54/57] fix: read point files without lines

The documented shapes [N, D1] are returned with N = 0, and a batch may contain
empty files.
---
 pylib/io/points.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index 99fa95f..eb099fd 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -53,6 +53,8 @@ def load_points_from_file_to_tensor(filename,
           points.append(line_elements[0:dimension])
           features.append(line_elements[dimension:])
 
+      if not points:
+        return tf.zeros([0, dimension], dtype), tf.zeros([0, 0], dtype)
       points = tf.convert_to_tensor(value=points, dtype=tf.string)
       features = tf.convert_to_tensor(value=features, dtype=tf.string)
       points = tf.strings.to_number(input=points, out_type=dtype)
@@ -104,6 +106,8 @@ def load_points_from_file_to_numpy(filename,
             break
           i += 1
 
+      if not points:
+        return np.zeros([0, dimension], dtype), np.zeros([0, 0], dtype)
       points = np.array(points, dtype=dtype)
       features = np.array(features, dtype=dtype)
       return points, features
@@ -155,8 +159,10 @@ def load_batch_of_points(filenames,
   sizes = tf.convert_to_tensor(value=sizes)
   max_num_points = tf.reduce_max(sizes)
 
-  feature_dimension = features[0].shape[1]
+  feature_dimension = max(curr.shape[1] for curr in features)
   for i in range(batch_size):
+    if sizes[i] == 0:
+      features[i] = tf.zeros(shape=[0, feature_dimension], dtype=dtype)
     pad_size = max_num_points - sizes[i]
     points[i] = tf.concat(
         (points[i], tf.zeros(shape=[pad_size, point_dimension], dtype=dtype)),
@@ -168,6 +174,8 @@ def load_batch_of_points(filenames,
   points = tf.stack(values=points, axis=0)
   features = tf.stack(values=features, axis=0)
 
+  if batch_shape == [-1]:
+    batch_shape = [batch_size]
   points = tf.reshape(
       tensor=points, shape=batch_shape + [max_num_points, point_dimension])
   features = tf.reshape(
-- 
2.43.0


From 3feb571baedbf4049c4c90c96a1755999487726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 55/57] fix: create the folder of the binary data in
 modelnet40_small.py

---
 modelnet40_small.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modelnet40_small.py b/modelnet40_small.py
index a11b335..d242a02 100644
--- a/modelnet40_small.py
+++ b/modelnet40_small.py
@@ -67,6 +67,9 @@ with open(data_dir + f'modelnet{num_classes}_test.txt') as inFile:
     test_labels.append(category_names.index(category))
 
 num_classes = len(category_names)
+if not os.path.exists(hdf5_tmp_dir):
+  os.mkdir(hdf5_tmp_dir)
+
 print(f'### loading modelnet{num_classes} train ###')
 if os.path.exists(hdf5_tmp_dir + "/train_data_small.hdf5"):
   h5File = h5py.File(hdf5_tmp_dir + "/train_data_small.hdf5", "r")
-- 
2.43.0


From 62abd8cc8ba7276930d42b7f0b659879c526c525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 56/57] fix: Poisson disk sampling inside of traced
 constructors (PointHierarchy in graph mode)

---
 pylib/pc/custom_ops/custom_ops_tf.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index b6c5edc..8fe3a97 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -288,8 +288,11 @@ def sampling_tf(neighborhood, sample_mode, name=None):
     # to set log prob to -inf <=> prob to zero
     tf_neg_inf = tf.constant(-np.inf)
 
-    #sample points until all log probabilites are set to -inf
-    while not tf.reduce_all(tf.math.is_inf(log_probabilities)):
+    def points_left(log_probabilities, sampled_indices):
+      return tf.logical_not(
+          tf.reduce_all(tf.math.is_inf(log_probabilities)))
+
+    def sample_point(log_probabilities, sampled_indices):
       choice = tf.random.categorical(
           tf.expand_dims(log_probabilities, axis=0), 1)[0]
       # add choice to sampled indices
@@ -302,6 +305,13 @@ def sampling_tf(neighborhood, sample_mode, name=None):
           log_probabilities,
           tf.expand_dims(sample_neighbors, axis=1),
           tf.repeat(tf_neg_inf, num_neighbors))
+      return log_probabilities, sampled_indices
+
+    #sample points until all log probabilites are set to -inf
+    # (a Python loop cannot be traced inside of the constructors of classes)
+    _, sampled_indices = tf.while_loop(
+        points_left, sample_point, (log_probabilities, sampled_indices),
+        shape_invariants=(tf.TensorShape([None]), tf.TensorShape([None])))
     sampled_points = tf.gather(points, sampled_indices)
     sampled_batch_ids = tf.gather(batch_ids, sampled_indices)
 
-- 
2.43.0


From bb1feb89faba70b24aaec92d6fa3b7b581184ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:37 +0000
Subject: [PATCH 57/57] fix: PointResNetSpatialBottleNeck in graph mode (the
 choice of the neighborhoods is made while tracing)

---
 pylib/pc/layers/network_blocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 376e948..7b92364 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -424,7 +424,8 @@ class PointResNetSpatialBottleNeck(tf.Module):
                                         radii_tensor[1],
                                         point_cloud_downsampled))
       # upsampling
-      if conv_radii[0] == conv_radii[2]:
+      static_radii = tf.get_static_value(radii)
+      if static_radii is not None and static_radii[0] == static_radii[2]:
         neighborhoods.append(neighborhoods[0].transpose())
       else:
         grid_up = Grid(point_cloud_downsampled, radii_tensor[2])
-- 
2.43.0

