From 305ea0eaddb3f3e2e0a3a70cf37a8692c10aa9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 01/47] fix: subset() of scaled regions and clusters respects
 the view

SpatioTemporalRegion.subset() sliced the array directly, so a scaled region kept
the scaling data of other points and a cluster kept a partition that does not
match the subset.
---
 spta/region/temporal.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index c98e948..314a801 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -76,9 +76,8 @@ class SpatioTemporalRegion(DomainRegion):
         region: Region
         ti: TimeInterval
         '''
-        numpy_region_subset = \
-            self.numpy_dataset[ti.t1:ti.t2, region.x1:region.x2, region.y1:region.y2]
-        return self.new_spatio_temporal_region(numpy_region_subset)
+        # rely on the individual subsets, these may be overridden (e.g. scaled regions, clusters)
+        return self.region_subset(region).interval_subset(ti)
 
     def repeat_series(self, series):
         '''
-- 
2.43.0


From f12268318230c8b0840ebe787e010a107e1807a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 02/47] fix: repeat_point() of decorated spatio-temporal
 regions

The method resolved to SpatialRegion.repeat_point(), which asks for value_at()
and raises AttributeError on clusters and scaled regions.
---
 spta/region/temporal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 314a801..4a0f4af 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -236,6 +236,10 @@ class SpatioTemporalDecorator(SpatialDecorator, SpatioTemporalRegion):
     def series_at(self, point):
         return self.decorated_region.series_at(point)
 
+    def repeat_point(self, point):
+        # not the 2d implementation found first in SpatialDecorator
+        return SpatioTemporalRegion.repeat_point(self, point)
+
     def has_centroid(self):
         # if a centroid has been set at parent, honor it
         # TODO we should avoid this?
-- 
2.43.0


From 4097cb623f3e621d95396793a38df035be5138d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 03/47] fix: a descaled cluster does not claim to be scaled

Descaling a cluster of a scaled region wrapped the descaled data in the scaled
region again: has_scaling() stayed True and a second descale() was accepted.
---
 spta/region/temporal.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 4a0f4af..0070e9f 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -357,6 +357,16 @@ class SpatioTemporalCluster(SpatialCluster, SpatioTemporalDecorator):
         subset_cluster.region_metadata = None
         return subset_cluster
 
+    def descale(self):
+        '''
+        Descale the decorated region and wrap the result. Using new_spatio_temporal_region() here
+        would wrap the descaled data in the scaled region again.
+        '''
+        return SpatioTemporalCluster(decorated_region=self.decorated_region.descale(),
+                                     partition=self.partition,
+                                     cluster_index=self.cluster_index,
+                                     region_metadata=self.region_metadata)
+
     def series_at(self, point):
         '''
         Returns the time series at specified point, the point must belong to cluster
-- 
2.43.0


From a7ccb4abb25c5c4a157e44fbf7652ae983f16fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 04/47] fix: saving a scaled region with its minimum and
 maximum

SpatioTemporalScaled.save() delegated to a region without metadata and used
metadata attributes that do not exist, so it always failed.
---
 spta/region/scaling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index b815b9b..132fb3d 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -5,7 +5,7 @@ This module handles scale and descale of spatio-temporal regions.
 import numpy as np
 
 from .function import FunctionRegionScalarSame, FunctionRegionSeries, FunctionRegionSeriesSame
-from .temporal import SpatioTemporalDecorator
+from .temporal import SpatioTemporalDecorator, SpatioTemporalRegion
 
 
 class ScaleFunction(FunctionRegionSeriesSame):
@@ -205,16 +205,16 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
         Requires the metadata!
         '''
 
-        # save dataset
-        super(SpatioTemporalScaled, self).save()
+        # save dataset, the metadata is available here and not in the decorated region
+        SpatioTemporalRegion.save(self)
 
         # save min
-        min_filename = self.region_metadata.scale_min_filename
+        min_filename = self.region_metadata.scaled_min_filename
         np.save(min_filename, self.scale_min.numpy_dataset)
         self.logger.info('Saved scale_min to {}'.format(min_filename))
 
         # save max
-        max_filename = self.region_metadata.scale_max_filename
+        max_filename = self.region_metadata.scaled_max_filename
         np.save(max_filename, self.scale_max.numpy_dataset)
         self.logger.info('Saved scale_max to {}'.format(max_filename))
 
-- 
2.43.0


From 13d99344f2b612f3f584256f5bf30697ae98bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 05/47] fix: merge_clusters_2d() accepts the clusters in any
 order

The result of sorted() was discarded, so clusters that are not given by index were refused.
---
 spta/region/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index 7db158a..7ee36d3 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -302,7 +302,7 @@ class PartitionRegionCrisp(PartitionRegion):
             assert cluster.y_len == self.y_len
 
         # order clusters by their index
-        sorted(spatial_clusters, key=lambda cluster: cluster.cluster_index)
+        spatial_clusters = sorted(spatial_clusters, key=lambda cluster: cluster.cluster_index)
 
         # sanity checks: there are k clusters, and all indices are present
         indices = [
-- 
2.43.0


From a3062d78ce0abec3c90d23dd98b7fc9ff3d845db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 06/47] fix: PartitionRegion.cluster_len() counts the members

---
 spta/region/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index 7ee36d3..9df9900 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -109,7 +109,7 @@ class PartitionRegion(BaseRegion):
         members = 0
         for point in self:
             if self.is_member(point, cluster_index):
-                members += 0
+                members += 1
         return members
 
     def clone(self):
-- 
2.43.0


From 47ab5e7649f8a37664159248d7df598f01816139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 07/47] fix: create_all_spt_clusters() accepts arrays of
 centroids or medoids

The documented 1-d array raised ValueError (ambiguous truth value).
---
 spta/region/partition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index 9df9900..7048468 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -182,7 +182,7 @@ class PartitionRegion(BaseRegion):
             cluster_i.name = 'cluster{}'.format(i)
 
             # centroids available?
-            if centroid_indices:
+            if centroid_indices is not None:
                 centroid_index = centroid_indices[i]
                 ci = int(centroid_index / self.y_len)
                 cj = centroid_index % self.y_len
@@ -190,7 +190,7 @@ class PartitionRegion(BaseRegion):
                 cluster_i.centroid = centroid_i
 
             # medoids available?
-            if medoids:
+            if medoids is not None:
                 cluster_i.centroid = medoids[i]
 
             clusters.append(cluster_i)
-- 
2.43.0


From 89a6de1f2b93f500328e2ea2c6399317a88d69bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 08/47] fix: region_with_zeroes uses the given rectangle

---
 spta/region/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/region/spatial.py b/spta/region/spatial.py
index f17654a..c93862a 100644
--- a/spta/region/spatial.py
+++ b/spta/region/spatial.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from . import base
-from . import Region, reshape_1d_to_2d
+from . import reshape_1d_to_2d
 
 from spta.util import arrays as arrays_util
 
@@ -206,7 +206,7 @@ class SpatialRegion(DomainRegion):
         Creates a spatial region filled with zeroes, with the dimensions given by the region.
         Notice that indices will start at (0, 0)
         '''
-        (x_len, y_len) = (Region.x2 - Region.x1, Region.y2 - Region.y1)
+        (x_len, y_len) = (region.x2 - region.x1, region.y2 - region.y1)
         zero_array = np.zeros((x_len, y_len))
         return SpatialRegion(zero_array)
 
-- 
2.43.0


From 15e7ca55bbddc9cdacd08129e01317076ba8bcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 09/47] fix: get_centroid calls the existing centroid
 calculation

---
 spta/region/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 0070e9f..04acd76 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -108,7 +108,7 @@ class SpatioTemporalRegion(DomainRegion):
             # calculate the centroid, ugly but works...
             from . import centroid
             centroid_calc = centroid.CalculateCentroid(distance_measure)
-            self.centroid, _ = centroid_calc.find_centroid_and_cost(self)
+            self.centroid, _ = centroid_calc.find_centroid_and_distances(self)
             return self.centroid
 
     def has_centroid(self):
-- 
2.43.0


From 6cab3e9e7b74a89874666f14b26de195c47eb9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 10/47] fix: the centroid of a cluster is found among its own
 points

---
 spta/region/temporal.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 04acd76..700b923 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -381,6 +381,14 @@ class SpatioTemporalCluster(SpatialCluster, SpatioTemporalDecorator):
         else:
             raise ValueError('Point not in cluster: {}'.format(point))
 
+    def has_centroid(self):
+        # the centroid of the decorated region is not the centroid of this cluster
+        return SpatioTemporalRegion.has_centroid(self)
+
+    def get_centroid(self, distance_measure=None):
+        # calculate over the points of this cluster
+        return SpatioTemporalRegion.get_centroid(self, distance_measure)
+
     @property
     def all_point_indices(self):
         '''
-- 
2.43.0


From 2406ca47ce10b6ecf49e46cd22006f9af99f673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 11/47] fix: a missing distance matrix file is handled like any
 other failure to load it

---
 spta/distance/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/distance/__init__.py b/spta/distance/__init__.py
index 24c33c5..a3bd50d 100644
--- a/spta/distance/__init__.py
+++ b/spta/distance/__init__.py
@@ -122,7 +122,8 @@ class DistanceBetweenSeries(log_util.LoggerMixin):
             try:
                 # can we load a saved distance matrix?
                 # this requires the metadata of the region
-                self.load_distance_matrix_md(spt_region.region_metadata)
+                if self.load_distance_matrix_md(spt_region.region_metadata) is None:
+                    raise ValueError('Saved distance matrix could not be loaded')
 
             except Exception as err:
 
-- 
2.43.0


From 4fec533e216a36c0fed7d19e340718fc0dbadf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 12/47] fix: spatial weights are added once to every matrix
 loaded or computed

---
 spta/distance/dtw.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/spta/distance/dtw.py b/spta/distance/dtw.py
index 81908a7..66b29cf 100644
--- a/spta/distance/dtw.py
+++ b/spta/distance/dtw.py
@@ -194,11 +194,21 @@ class DistanceBySpatialDTW(DistanceByDTW):
         '''
 
         # read normally
-        super(DistanceBySpatialDTW, self).load_distance_matrix_2d(filename, expected_region)
+        loaded_matrix = super(DistanceBySpatialDTW, self).load_distance_matrix_2d(filename,
+                                                                                  expected_region)
+        if loaded_matrix is None:
+            return None
 
-        # add the weight
+        # add the weight to the matrix that was just loaded
+        self.weighted = False
         return self.weight_distance_matrix(expected_region)
 
+    def compute_distance_matrix(self, temporal_data):
+        # the computed matrix replaces any previous matrix, and it has no weights yet
+        distance_matrix = super(DistanceBySpatialDTW, self).compute_distance_matrix(temporal_data)
+        self.weighted = False
+        return distance_matrix
+
 
 if __name__ == '__main__':
     from spta.util import log as log_util
-- 
2.43.0


From f3d2e072d54b9a225969cb3842c07a698de67e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 13/47] fix: each default centroid calculation uses its own
 distance measure

---
 spta/region/centroid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spta/region/centroid.py b/spta/region/centroid.py
index e305ef6..73cdd24 100644
--- a/spta/region/centroid.py
+++ b/spta/region/centroid.py
@@ -61,13 +61,17 @@ class CalculateCentroid(log_util.LoggerMixin):
         return centroid, distances_to_centroid
 
     @classmethod
-    def for_sptr_metadata(cls, spt_region_metadata, distance_measure=DistanceByDTW()):
+    def for_sptr_metadata(cls, spt_region_metadata, distance_measure=None):
         '''
         Calculate the centroid of the spatio temporal region using provided distance measure.
         If distance matrix is not available, it will be calculated first.
 
         Uses DTW by default.
         '''
+        # a new measure each time: it keeps the distance matrix of the region it is used for
+        if distance_measure is None:
+            distance_measure = DistanceByDTW()
+
         spt_region = spt_region_metadata.create_instance()
 
         # calculate centroid, should reuse a saved distance matrix if it is available
-- 
2.43.0


From 86d39ee243fc0ae8cc2189c48b928ad2bc6284aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 14/47] fix: an interrupted iteration no longer hides points
 from the next one

---
 spta/model/error.py    | 5 +++++
 spta/region/base.py    | 2 ++
 spta/region/scaling.py | 5 +++++
 3 files changed, 12 insertions(+)

diff --git a/spta/model/error.py b/spta/model/error.py
index ffed9b7..a460a51 100644
--- a/spta/model/error.py
+++ b/spta/model/error.py
@@ -67,6 +67,11 @@ class ErrorRegion(SpatialDecorator):
         # return arrays_util.root_mean_squared(error_list)
         return self.error_combine_func(error_list)
 
+    def __iter__(self):
+        # the iteration is delegated, restart it there
+        iter(self.decorated_region)
+        return self
+
     def __next__(self):
         '''
         Use the decorated iteration, which may be more interesting than the default iteration
diff --git a/spta/region/base.py b/spta/region/base.py
index 91c1112..8270d7a 100644
--- a/spta/region/base.py
+++ b/spta/region/base.py
@@ -77,6 +77,8 @@ class BaseRegion(log_util.LoggerMixin):
         '''
         Used for iterating over points
         '''
+        # always start from the first point, a previous iteration may have been interrupted
+        self.point_index = 0
         return self
 
     def __next__(self):
diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index 132fb3d..58e213a 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -218,6 +218,11 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
         np.save(max_filename, self.scale_max.numpy_dataset)
         self.logger.info('Saved scale_max to {}'.format(max_filename))
 
+    def __iter__(self):
+        # the iteration is delegated, restart it there
+        iter(self.decorated_region)
+        return self
+
     def __next__(self):
         '''
         Don't use the default iterator here, which comes from SpatialDecorator.
-- 
2.43.0


From d3a3308356384dbb6c35a395eb63ebe4a5c8bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 15/47] fix: k-medoids with equal series keeps each medoid in
 its own cluster

---
 spta/kmedoids/kmedoids.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spta/kmedoids/kmedoids.py b/spta/kmedoids/kmedoids.py
index 13d4198..389c9da 100644
--- a/spta/kmedoids/kmedoids.py
+++ b/spta/kmedoids/kmedoids.py
@@ -83,6 +83,10 @@ def _get_cost(X, medoids, distance_measure):
     # this effectively represents the membership of each point to a cluster
     labels = np.argmin(dist_mat, axis=1)
 
+    # a medoid always belongs to its own cluster, even if its series is equal to the series of
+    # another medoid
+    labels[get_medoid_indices(medoids)] = np.arange(k)
+
     # calculate intra-cluster cost for each cluster
     costs = np.zeros(k)
     for i in range(0, k):
-- 
2.43.0


From 945a44db276018c2938242ecabbca74a911658fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 16/47] fix: fuzzy memberships are defined for series equal to
 a medoid

---
 spta/kmedoids/kmedoids_fuzzy.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spta/kmedoids/kmedoids_fuzzy.py b/spta/kmedoids/kmedoids_fuzzy.py
index 4249091..7d255cd 100644
--- a/spta/kmedoids/kmedoids_fuzzy.py
+++ b/spta/kmedoids/kmedoids_fuzzy.py
@@ -136,11 +136,20 @@ def compute_membership_fcm(X, m, medoids, distance_measure, tol):
         # divide by the denominator
         uij[:, i] = uij[:, i] / uij_den
 
+    # points without distance to some medoid, also (inf / inf): their membership is shared by the
+    # medoids that are equal to them
+    at_medoid = dist_mat == 0
+    without_distance = at_medoid.any(axis=1)
+    uij[without_distance] = at_medoid[without_distance] / \
+        at_medoid[without_distance].sum(axis=1, keepdims=True)
+
+    for i in range(0, k):
         # special case for medoids (i = medoid index):
         # uij is (inf / inf) when j is the medoid's cluster, 0 for other clusters
         # 0 is calculated correctly, but (inf / inf) returns nan.
         # Here we set that value to 1 to indicate that the medoid has full membership
         # to its cluster
+        uij[medoids[i].index, :] = 0
         uij[medoids[i].index, i] = 1
 
     # sanity check: adding all the membership values of a point should return 1 or very close to it
-- 
2.43.0


From dcfca13aee06212499f352b9ea9b1d72dc4bec8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 17/47] fix: fuzzy k-medoids returns memberships when the
 initial medoids are never swapped

---
 spta/kmedoids/kmedoids_fuzzy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spta/kmedoids/kmedoids_fuzzy.py b/spta/kmedoids/kmedoids_fuzzy.py
index 7d255cd..815f147 100644
--- a/spta/kmedoids/kmedoids_fuzzy.py
+++ b/spta/kmedoids/kmedoids_fuzzy.py
@@ -176,8 +176,7 @@ def run_kmedoids_fuzzy(X, k, m, distance_measure, initial_medoids=None, random_s
     medoids = choose_initial_medoids(X, k, random_seed, initial_medoids)
 
     # assign initial members
-    labels, costs, tot_cost, dist_mat = compute_membership_fcm(X, m, medoids, distance_measure,
-                                                               tol)
+    uij, costs, tot_cost, dist_mat = compute_membership_fcm(X, m, medoids, distance_measure, tol)
     cc, SWAPPED = 0, True
 
     while True:
-- 
2.43.0


From fe73267b7742b0017fd575d825194edff79b421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 18/47] fix: partitions are saved at the requested pickle
 location

---
 spta/clustering/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 243fa1a..9be71cb 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -210,7 +210,7 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
         Saves a partition as a pickle objct, using its to_pickle(path) method. The path is
         calculated by the clustering metadata.
         '''
-        pickle_full_path = self.pickle_full_path(region_metadata)
+        pickle_full_path = self.pickle_full_path(region_metadata, pickle_home)
 
         # the partition can save itself
         partition.to_pickle(pickle_full_path)
@@ -241,19 +241,19 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
         Should be successful if save_partition() was called before, will raise an exception
         if no saved partition is found.
         '''
-        pickle_full_path = self.pickle_full_path(region_metadata)
+        pickle_full_path = self.pickle_full_path(region_metadata, pickle_home)
         partition = PartitionRegion.try_from_pickle(pickle_full_path)
 
         self.logger.info('Loaded previously calculated partition from {}'.format(pickle_full_path))
         return partition
 
-    def pickle_full_path(self, region_metadata):
+    def pickle_full_path(self, region_metadata, pickle_home='pickle'):
         '''
         Calculates the path for persisting partition objects via pickle. The path is calculated by
         the clustering metadata.
         '''
         # path to store/load pickle objects given metadata
-        pickle_dir = self.metadata.pickle_dir(region_metadata, self.distance_measure)
+        pickle_dir = self.metadata.pickle_dir(region_metadata, self.distance_measure, pickle_home)
 
         # use a fixed name, assuming that the metadata uniquely identifies the created partition...
         return os.path.join(pickle_dir, self.partition_pickle_filename)
-- 
2.43.0


From 49f31535b8fa50f3eb5770fb9dde2a5f335d2cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 19/47] fix: clustering metadata with different parameters are
 different

---
 spta/clustering/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 9be71cb..81858bc 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -60,10 +60,11 @@ class ClusteringMetadata():
         return '{}: k={}'.format(self.name.capitalize(), self.k)
 
     def __eq__(self, other):
-        return self.name == other.name and self.k == other.k
+        # the representation has all the parameters that identify a clustering
+        return isinstance(other, ClusteringMetadata) and repr(self) == repr(other)
 
     def __hash__(self):
-        return hash((self.name, self.k))
+        return hash(repr(self))
 
 
 class ClusteringAlgorithm(log_util.LoggerMixin):
-- 
2.43.0


From cbbc9d36522a2f272cda141296416e33256d7066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 20/47] fix: the initial medoids are recovered from the
 k-medoids representation

---
 spta/clustering/kmedoids.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/spta/clustering/kmedoids.py b/spta/clustering/kmedoids.py
index 672db74..51e8023 100644
--- a/spta/clustering/kmedoids.py
+++ b/spta/clustering/kmedoids.py
@@ -57,7 +57,6 @@ class KmedoidsClusteringMetadata(ClusteringMetadata):
     def from_repr(cls, repr_string):
         '''
         Given the representation, recover the instance.
-        NOTE: This implementation assumes that initial_medoids has not been set!
         '''
         parts = repr_string.split('_')
         assert parts[0] == 'kmedoids'
@@ -72,7 +71,19 @@ class KmedoidsClusteringMetadata(ClusteringMetadata):
 
         # 3. mode
         mode = parts[3]   # e.g. lite
-        return KmedoidsClusteringMetadata(k, random_seed=random_seed, mode=mode)
+
+        # 4. initial medoids, only present when they were set
+        initial_medoids = None
+        if len(parts) > 4:
+            initial_medoids_string = parts[4]
+            initial_medoids = [
+                int(index_string)
+                for index_string
+                in initial_medoids_string[2:].split('-')  # e.g. im0-3
+            ]
+
+        return KmedoidsClusteringMetadata(k, random_seed=random_seed, mode=mode,
+                                          initial_medoids=initial_medoids)
 
     @classmethod
     def from_classifier_label(cls, classifier_label, mode='lite'):
-- 
2.43.0


From 0e8f7c83c375bd2eab7ab27a56a5428ad9893a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 21/47] fix: DTW with spatial weights does not share the
 identity of plain DTW

---
 spta/distance/dtw.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spta/distance/dtw.py b/spta/distance/dtw.py
index 66b29cf..afdeb8e 100644
--- a/spta/distance/dtw.py
+++ b/spta/distance/dtw.py
@@ -149,6 +149,13 @@ class DistanceBySpatialDTW(DistanceByDTW):
         self.weight = weight
         self.weighted = False
 
+    def __repr__(self):
+        '''
+        The weight is a part of the identity of this distance_measure, results are not the same
+        as with DTW
+        '''
+        return 'dtw-spatial{}'.format(self.weight)
+
     def weight_distance_matrix(self, region):
         '''
         Uses a pre-calculated distance matrix using DTW, but then adds the weigths for the
-- 
2.43.0


From e2f7bd34bcc5c569de33574fe2dbe11fa23ec42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 22/47] fix: a partition saved without medoids is not reused
 when medoids are requested

---
 spta/clustering/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 81858bc..bb756b5 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -104,6 +104,10 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
             the_partition = self.try_load_previous_partition(spt_region.region_metadata,
                                                              pickle_home)
 
+            # a partition that was saved without medoids cannot be used when they are requested
+            if with_medoids and not hasattr(the_partition, 'medoids'):
+                the_partition = None
+
             # flag to avoid saving a loaded partition
             if the_partition is not None:
                 loaded_from_pickle = True
-- 
2.43.0


From 22aa2ed24afe17a90dd0001292e47e8e72ff69a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 23/47] fix: the elbow of each seed is found among the costs of
 that seed

---
 spta/clustering/suite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/clustering/suite.py b/spta/clustering/suite.py
index 777eab8..ae26cef 100644
--- a/spta/clustering/suite.py
+++ b/spta/clustering/suite.py
@@ -394,7 +394,8 @@ class FindSuiteElbow(log_util.LoggerMixin):
             for metadata in ordered_metadata_instances:
                 costs_by_metadata_for_this_seed[metadata] = costs_by_metadata[metadata]
 
-            elbow_for_this_seed = self.find_cost_elbow_given_order(costs_by_metadata, ordered_metadata_instances)
+            elbow_for_this_seed = self.find_cost_elbow_given_order(costs_by_metadata_for_this_seed,
+                                                                   ordered_metadata_instances)
             elbows_by_seed[seed] = elbow_for_this_seed
 
         return elbows_by_seed
-- 
2.43.0


From 6876bf49099c1801d4a77246efae7ce2aad041ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 24/47] fix: merging clusters keeps values of clusters with
 different types

---
 spta/region/partition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index 7048468..415e968 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -315,7 +315,8 @@ class PartitionRegionCrisp(PartitionRegion):
             raise ValueError(error_msg.format(list(range(0, self.k)), indices))
 
         # assuming 2d dataset
-        dtype = spatial_clusters[0].as_numpy.dtype
+        # the clusters may hold different types, the merged values have to fit in all of them
+        dtype = np.result_type(*[cluster.as_numpy.dtype for cluster in spatial_clusters])
         merged_dataset = np.empty((self.x_len, self.y_len), dtype=dtype)
 
         # this will iterate all the points in the region (not over clusters)!
-- 
2.43.0


From b089c4de94589892d0ceca33210092ef7aac05f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 25/47] fix: a series too short for ARIMA has no model instead
 of stopping the training

---
 spta/arima/train.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spta/arima/train.py b/spta/arima/train.py
index d864606..e846ec2 100644
--- a/spta/arima/train.py
+++ b/spta/arima/train.py
@@ -74,6 +74,10 @@ class TrainerArimaPDQ(ModelTrainer):
         except ValueError as err:
             self.logger.warn('ARIMA {} failed with ValueError: {}'.format(arima_pdq, err))
             fitted_model = None
+        except IndexError as err:
+            # the series is too short for the order
+            self.logger.warn('ARIMA {} failed with IndexError: {}'.format(arima_pdq, err))
+            fitted_model = None
         except np.linalg.LinAlgError as err:
             # the "SVD did not converge" can create an error
             self.logger.warn('ARIMA {} failed with LinAlgError: {}'.format(arima_pdq, err))
@@ -157,6 +161,11 @@ class TrainerAutoArima(ModelTrainer):
             self.logger.warn('ARIMA failed with ValueError: {}'.format(err))
             fitted_model = None
 
+        except IndexError as err:
+            # the series is too short for the grid search
+            self.logger.warn('ARIMA failed with IndexError: {}'.format(err))
+            fitted_model = None
+
         except np.linalg.LinAlgError as err:
             # the "SVD did not converge" can create an error
             self.logger.warn('ARIMA failed with LinAlgError: {}'.format(err))
-- 
2.43.0


From e02a9e124aae250ef1f17a500618c7cdb7fc74e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 26/47] fix: models refitted for different test lengths are
 saved in different files

---
 spta/solver/metadata.py | 5 +++--
 spta/solver/model.py    | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/spta/solver/metadata.py b/spta/solver/metadata.py
index eb922f4..f750434 100644
--- a/spta/solver/metadata.py
+++ b/spta/solver/metadata.py
@@ -55,12 +55,13 @@ class SolverMetadataBasic(object):
         for forecasting, an adequate test_len has to be specified by the user.
 
         If a model region was trained with the full dataset, then use with_test_samples=False,
-        the filename will not include test_len.
+        the filename reflects this. It still includes test_len, because the models may depend on
+        it: they can be refits of models that were found using the training subset.
         '''
         test_len_str = 'tp{}'.format(self.test_len)
         if not with_test_samples:
             # assume that the models are using the whole dataset (no test subset)
-            test_len_str = 'whole'
+            test_len_str += '_whole'
 
         return '{}__{!r}__{}.pkl'.format(name_prefix, self.model_params, test_len_str)
 
diff --git a/spta/solver/model.py b/spta/solver/model.py
index 9c7f6d3..e0a96ca 100644
--- a/spta/solver/model.py
+++ b/spta/solver/model.py
@@ -238,7 +238,7 @@ class SolverPickler(log_util.LoggerMixin):
                     |- errors__<model_params>__tp<tp>__<error>.pkl
                     |- partition_<clustering_metadata>.pkl
                     |- models-at-medoids-<model_params>__tp<tp>.pkl
-                    |- models-at-medoids-<model_params>__whole.pkl
+                    |- models-at-medoids-<model_params>__tp<tp>_whole.pkl
     '''
 
     def __init__(self, solver_metadata):
@@ -369,8 +369,8 @@ class SolverPickler(log_util.LoggerMixin):
     def model_whole_pickle_path(self):
         '''
         Full path of the pickle object of the model region based on the whole dataset
-        (as opposed to just the training dataset); given by the region, clustering, distance and
-        model parameters.
+        (as opposed to just the training dataset); given by the region, clustering, distance,
+        model parameters and number of test samples used to find the models.
         '''
         solver_pickle_dir = self.metadata.pickle_dir()
         model_filename = self.metadata.trained_model_region_filename('models-at-medoids',
-- 
2.43.0


From 2ac9d2e274270104220f4aa6b1cf88a582d81e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 27/47] fix: a solver loaded with a partition saved without
 medoids has its medoids

---
 spta/solver/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/solver/model.py b/spta/solver/model.py
index e0a96ca..a34a8de 100644
--- a/spta/solver/model.py
+++ b/spta/solver/model.py
@@ -340,8 +340,8 @@ class SolverPickler(log_util.LoggerMixin):
         partition = clustering_algorithm.try_load_previous_partition(self.region_metadata,
                                                                      pickle_home='pickle')
 
-        if partition is None:
-            # the partition was deleted T_T
+        if partition is None or not hasattr(partition, 'medoids'):
+            # the partition was deleted T_T, or it was saved without its medoids
             # calculate it again, for that we need the region
             spt_region = self.region_metadata.create_instance()
             partition = clustering_algorithm.partition(spt_region,
-- 
2.43.0


From b06ea8a44c8b45d5b2407cd44d6063c435279a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 28/47] fix: long series are written completely in the
 prediction result

---
 spta/solver/result.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spta/solver/result.py b/spta/solver/result.py
index a03d269..ce2cb2e 100644
--- a/spta/solver/result.py
+++ b/spta/solver/result.py
@@ -1,6 +1,7 @@
 import csv
 import numpy as np
 import os
+import sys
 
 from spta.region import Point
 from spta.region.base import BaseRegion
@@ -188,7 +189,8 @@ class PredictionQueryResult(BaseRegion):
         csv_dir = self.metadata.csv_dir(self.output_home, self.prediction_region)
         fs_util.mkdir(csv_dir)
 
-        np.set_printoptions(formatter={'float': '{: 0.3f}'.format})
+        # write all the samples, numpy would summarize long series
+        np.set_printoptions(formatter={'float': '{: 0.3f}'.format}, threshold=sys.maxsize)
 
         self.write_prediction_results(csv_dir)
         self.write_prediction_summary(csv_dir)
-- 
2.43.0


From 62bdbe3123c99fda4ebcff4150153c1c68005b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 29/47] fix: k-NN parameters with different distances have
 different names

---
 spta/distance/rmse.py | 9 +++++++++
 spta/model/knn.py     | 6 +++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/spta/distance/rmse.py b/spta/distance/rmse.py
index 242e007..d958309 100644
--- a/spta/distance/rmse.py
+++ b/spta/distance/rmse.py
@@ -29,3 +29,12 @@ class DistanceByRMSE(DistanceBetweenSeries):
         Note that the errors of each series can be added using Root Mean Squared.
         '''
         return arrays_util.root_mean_squared(distances_for_point)
+
+    def __repr__(self):
+        '''
+        Used for naming the files that depend on this distance measure.
+        '''
+        return 'rmse'
+
+    def __str__(self):
+        return 'RMSE'
diff --git a/spta/model/knn.py b/spta/model/knn.py
index 4cb5f04..c00ec58 100644
--- a/spta/model/knn.py
+++ b/spta/model/knn.py
@@ -24,9 +24,9 @@ class KNNParams(namedtuple('KNNParams', 'k distance_measure')):
         # https://stackoverflow.com/a/7914212/3175179
         '''
 
-        # assuming DTW, could be RMSE or some other euclidean distance
-        as_str = 'knn-k{}-dtw'
-        return as_str.format(self.k)
+        # the distance could be DTW, RMSE or some other euclidean distance
+        as_str = 'knn-k{}-{!r}'
+        return as_str.format(self.k, self.distance_measure)
 
     def __str__(self):
         return super(KNNParams, self).__repr__()
-- 
2.43.0


From ccecc15158eebe03426340a45fc335cf477a0ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 30/47] fix: errors of scaled data can be measured without a
 training region

---
 spta/model/error.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spta/model/error.py b/spta/model/error.py
index a460a51..a6ce7ad 100644
--- a/spta/model/error.py
+++ b/spta/model/error.py
@@ -109,7 +109,10 @@ class MeasureForecastingError(FunctionRegionScalar):
         if observation_region.has_scaling():
             self.logger.debug('About to descale observation and training regions')
             self.observation_region = observation_region.descale()
-            self.training_region = training_region.descale()
+            # the training region is optional
+            self.training_region = None
+            if training_region is not None:
+                self.training_region = training_region.descale()
         else:
             self.logger.debug('MeasureForecastingError - No scaling detected')
             self.observation_region = observation_region
-- 
2.43.0


From 17f485fa78d85b44c9a24c24ce10f1429650e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 31/47] fix: forecasts of previous models are not used after
 training again

---
 spta/model/forecast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spta/model/forecast.py b/spta/model/forecast.py
index 2748630..f30334f 100644
--- a/spta/model/forecast.py
+++ b/spta/model/forecast.py
@@ -61,6 +61,9 @@ class ForecastAnalysis(log_util.LoggerMixin):
         self.logger.info('Training models using: {}'.format(self.trainer.__class__.__name__))
         self.model_region = self.trainer.apply_to(self.training_region)
 
+        # the forecasts of previous models are not valid anymore
+        self.forecast_region_each = None
+
         return self.model_region
 
     def forecast_at_each_point(self, forecast_len, error_type):
-- 
2.43.0


From 0254a343d7be98b027223b243c860ee90c70bc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 32/47] fix: the analysis uses the centroid known by a
 decorated region

---
 spta/model/forecast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/model/forecast.py b/spta/model/forecast.py
index f30334f..fd5b127 100644
--- a/spta/model/forecast.py
+++ b/spta/model/forecast.py
@@ -256,8 +256,8 @@ class ForecastAnalysis(log_util.LoggerMixin):
         # Use the model at the centroid
         # ask the region for its centroid. If not available, the error is np.nan
         #
-        if spt_region.has_centroid:
-            centroid = spt_region.centroid
+        if spt_region.has_centroid():
+            centroid = spt_region.get_centroid()
             overall_error_centroid = overall_error_region.value_at(centroid)
         else:
             centroid = None
-- 
2.43.0


From 899a4d5433e77f7c18a52f7b10932f6cc589f694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 33/47] fix: parallel DTW distances of an undefined series to
 itself are undefined, as in the serial matrix

---
 spta/distance/dtw_parallel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spta/distance/dtw_parallel.py b/spta/distance/dtw_parallel.py
index 38bb14e..8c46b2f 100644
--- a/spta/distance/dtw_parallel.py
+++ b/spta/distance/dtw_parallel.py
@@ -55,9 +55,9 @@ class DistanceByDTWParallel(DistanceByDTW):
 
 def dtw_i_j(spt_region, k1, k2):
 
-    if k1 <= k2:
-        # since distance_matrix is triangular and the diag is zero,
-        # we don't need all values, store 0
+    if k1 < k2:
+        # since distance_matrix is symmetric, we don't need all values, store 0
+        # the diagonal is needed: it is zero, but undefined for a series with undefined values
         return 0
     else:
 
-- 
2.43.0


From 388ebf3654a7c7e6d6894ebf99ac63c8e573bf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 34/47] fix: a second inter-point operation does not overwrite
 the result of the first one

---
 spta/util/parallel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/util/parallel.py b/spta/util/parallel.py
index f441689..61fb56b 100644
--- a/spta/util/parallel.py
+++ b/spta/util/parallel.py
@@ -155,4 +155,5 @@ class InterPointsOperation(object):
             pool.map(inter_points_task_wrapper, k_with_task, chunksize=self.chunksize)
 
         # return 2D representation of the shared output array
-        return self.output_2d
+        # this needs to be a copy, the shared array is written again if another task is executed
+        return self.output_2d.copy()
-- 
2.43.0


From 493e68173d2f9772d0a5d63e99a90c1d0edc8231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 35/47] fix: sampled training points differ from the medoids
 also when the region has an offset

---
 spta/classifier/train_input.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/spta/classifier/train_input.py b/spta/classifier/train_input.py
index 621ea99..b4e4d78 100644
--- a/spta/classifier/train_input.py
+++ b/spta/classifier/train_input.py
@@ -79,8 +79,11 @@ class TrainDataWithRandomPoints(log_util.LoggerMixin):
         # we are saving a series as CSV, here we will use 3 decimal places for each value
         np.set_printoptions(formatter={'float': '{: 0.3f}'.format})
 
+        # the medoids are in absolute coordinates, the indices are relative to the region
         medoid_indices = extract_all_medoid_indices_from_suite_result(suite_result,
-                                                                      self.spt_region)
+                                                                      self.spt_region,
+                                                                      x_offset=self.region_metadata.region.x1,
+                                                                      y_offset=self.region_metadata.region.y1)
 
         random_points = self.get_random_points_different_to_medoids(count, random_seed, medoid_indices,
                                                                     x_len, y_len)
@@ -611,10 +614,13 @@ class MedoidSeriesFormatter(log_util.LoggerMixin):
         self.logger.info(msg.format(csv_filepath))
 
 
-def extract_all_medoid_indices_from_suite_result(suite_result, spt_region):
+def extract_all_medoid_indices_from_suite_result(suite_result, spt_region, x_offset=0, y_offset=0):
     '''
     Given the suite_result dictionary built from its CSV, obtain a set of all the medoid indices.
     This is because we want to filter these indices at some point (evaluate_random_points).
+
+    The medoids are in absolute coordinates, the offset of the region is needed to get indices that are
+    relative to the region.
     '''
     # get all medoid as points, we don't want repeated so we use a set
     unique_medoid_points = set()
@@ -624,7 +630,7 @@ def extract_all_medoid_indices_from_suite_result(suite_result, spt_region):
     # to get the indices, we need the region
     y_len = spt_region.y_len
     unique_medoid_indices = [
-        unique_medoid_point.x * y_len + unique_medoid_point.y
+        (unique_medoid_point.x - x_offset) * y_len + (unique_medoid_point.y - y_offset)
         for unique_medoid_point in unique_medoid_points
     ]
 
-- 
2.43.0


From 56736f94133e6efb88c87313ec0b513f99ac949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 36/47] fix: silhouette analysis names a best clustering also
 when every score is -1

---
 spta/clustering/silhouette.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/clustering/silhouette.py b/spta/clustering/silhouette.py
index f4032b0..e376762 100644
--- a/spta/clustering/silhouette.py
+++ b/spta/clustering/silhouette.py
@@ -1,4 +1,5 @@
 import matplotlib.pyplot as plt
+import numpy as np
 import os
 
 from .factory import ClusteringFactory
@@ -30,7 +31,7 @@ class SilhouetteAnalysis(log_util.LoggerMixin):
                                                           self.region_metadata.region)
 
         # updated at every iteration
-        best_silhouette_avg = -1
+        best_silhouette_avg = -np.inf
         best_clustering_algorithm = None
 
         for clustering_metadata in self.clustering_suite:
-- 
2.43.0


From 4213b23807a8270b2326057696dace3509579d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 37/47] fix: the classifier's query results are written where
 the caller asked

---
 spta/classifier/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/classifier/model.py b/spta/classifier/model.py
index 99bacaf..5ea257d 100644
--- a/spta/classifier/model.py
+++ b/spta/classifier/model.py
@@ -261,7 +261,7 @@ class SolverFromClassifier(log_util.LoggerMixin):
                                                       error_subregion=error_region_each,
                                                       prediction_region=prediction_region,
                                                       spt_region=self.spt_region,
-                                                      output_home='outputs',
+                                                      output_home=output_home,
                                                       is_out_of_sample=False)
         prediction_result = result_builder.from_classifier(self.clustering_suite, classifier_labels_by_point).build()
         return prediction_result
-- 
2.43.0


From 8c2489856813f31989edb55ac7f081ff918c0db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 38/47] fix: every query of the classifier solver uses the
 region it names, not the one of the first query

---
 spta/classifier/model.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/spta/classifier/model.py b/spta/classifier/model.py
index 5ea257d..ccbd085 100644
--- a/spta/classifier/model.py
+++ b/spta/classifier/model.py
@@ -77,10 +77,9 @@ class SolverFromClassifier(log_util.LoggerMixin):
         # cache solvers so that we don't reconstruct them every single time
         self.solvers = {}
 
-    def prepare(self, out_of_sample_region):
+    def prepare(self):
         '''
         Here we make sure that the classifier is loaded so that it can answer with a label.
-        The target_spt_region is used to extract the series used on the classifier to retrieve a label.
         '''
         # need actual code...
         # self.classifier = RandomClassifier()
@@ -89,13 +88,6 @@ class SolverFromClassifier(log_util.LoggerMixin):
 
         self.spt_region = self.region_metadata.create_instance()
 
-        if out_of_sample_region is None:
-            # no out-of-sample target specified, us the same region
-            self.target_spt_region = self.spt_region
-        else:
-            # use a different, 'out-of-sample' region
-            self.target_spt_region = out_of_sample_region.create_instance()
-
         metadata_builder = SolverMetadataBuilder(region_metadata=self.region_metadata,
                                                  model_params=self.model_params,
                                                  test_len=self.test_len,
@@ -117,9 +109,17 @@ class SolverFromClassifier(log_util.LoggerMixin):
         '''
 
         if self.classifier is None:
-            self.prepare(out_of_sample_region)
+            self.prepare()
         assert self.classifier is not None
-        assert self.target_spt_region is not None
+
+        # the target_spt_region is used to extract the series used on the classifier to retrieve a label,
+        # it can be different for each query
+        if out_of_sample_region is None:
+            # no out-of-sample target specified, us the same region
+            self.target_spt_region = self.spt_region
+        else:
+            # use a different, 'out-of-sample' region
+            self.target_spt_region = out_of_sample_region.create_instance()
 
         # get d(point, medoid labels)
         classifier_labels_by_point = self.get_labels_from_classifier(prediction_region, tp)
-- 
2.43.0


From c08f3b5b50210e2948bba3e8e8d448e03a7cdebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 39/47] fix: the classifier network could not be built (Adam
 has no argument lr)

---
 spta/classifier/dnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/classifier/dnn.py b/spta/classifier/dnn.py
index 759fdc8..7c29d95 100644
--- a/spta/classifier/dnn.py
+++ b/spta/classifier/dnn.py
@@ -51,7 +51,7 @@ class ClassifierDNN(log_util.LoggerMixin):
         model.add(Dropout(0.4))
         model.add(LSTM(100))
         model.add(Dense(num_labels, activation='softmax'))
-        optimizer = keras.optimizers.Adam(lr=0.0001)
+        optimizer = keras.optimizers.Adam(learning_rate=0.0001)
 
         model.compile(optimizer=optimizer, loss='categorical_crossentropy', metrics=['categorical_accuracy'])
 
-- 
2.43.0


From 80cba4b043339c35bcaf59dd63264e94716c1849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 40/47] fix: the classifier program's reports name the
 clustering suite of the experiment

---
 experiments/classifier/solver_dnn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experiments/classifier/solver_dnn.py b/experiments/classifier/solver_dnn.py
index b94a646..ef3f67f 100644
--- a/experiments/classifier/solver_dnn.py
+++ b/experiments/classifier/solver_dnn.py
@@ -140,6 +140,7 @@ def metadata_from_args(args):
 
     clustering_suite = get_clustering_suite(experiment.clustering_type,
                                             experiment.clustering_suite_id)
+    clustering_suite.identifier = experiment.clustering_suite_id
 
     auto_arima_params = predefined_auto_arima()[experiment.auto_arima_id]
     classifier_params = classifier_experiments()[args.classifier]
-- 
2.43.0


From c80ddf9dd6d0b069a985089ea13fc38744bdd742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:06 +0000
Subject: [PATCH 41/47] fix: statistics of a cluster with a single cell

---
 spta/distance/variance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spta/distance/variance.py b/spta/distance/variance.py
index 21ef80a..3031d8e 100644
--- a/spta/distance/variance.py
+++ b/spta/distance/variance.py
@@ -80,7 +80,9 @@ class DistanceHistogram(log_util.LoggerMixin):
         # min is the minimum distance after removing the mandatory 0 value from the point of
         # interest, this idiom puts the second-lowest distance at the right place
         # https://stackoverflow.com/a/22546769
-        min_distance_not_zero = np.partition(distances, 1)[1]
+        # (unless the point of interest is the only one)
+        second = min(1, len(distances) - 1)
+        min_distance_not_zero = np.partition(distances, second)[second]
         max_distance = np.max(distances)
 
         mean = np.mean(distances)
-- 
2.43.0


From ccc8d171ed5ef1540639f6532834d1e972ceb84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:06 +0000
Subject: [PATCH 42/47] fix: a number of bins was taken for the name of a
 binning strategy

---
 experiments/clustering/partition_analysis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/experiments/clustering/partition_analysis.py b/experiments/clustering/partition_analysis.py
index 1ccae9e..732273b 100644
--- a/experiments/clustering/partition_analysis.py
+++ b/experiments/clustering/partition_analysis.py
@@ -193,6 +193,11 @@ def analyze_partition(region_metadata, clustering_algorithm, output_home, logger
         if args.random:
             random_points = int(args.random)
 
+        # the number of bins is an integer, otherwise it is the name of a binning strategy
+        bins = args.bins
+        if bins.isdigit():
+            bins = int(bins)
+
         # build a suitable name for the current plot: need info on region, k
         plot_dir = clustering_algorithm.output_dir(output_home, region_metadata)
         fs_util.mkdir(plot_dir)
@@ -201,7 +206,7 @@ def analyze_partition(region_metadata, clustering_algorithm, output_home, logger
         DistanceHistogramClusters.cluster_histograms(clusters=clusters,
                                                      clustering_algorithm=clustering_algorithm,
                                                      random_points=random_points,
-                                                     bins=args.bins,
+                                                     bins=bins,
                                                      with_statistics=True,
                                                      plot_dir=plot_dir,
                                                      alpha=0.5)
-- 
2.43.0


From a4bcc9100eea4e3789f64ac41f308d8538c49977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:06 +0000
Subject: [PATCH 43/47] fix: the axis of the variance figures was chosen for
 other random points than the ones shown

---
 spta/distance/variance.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/spta/distance/variance.py b/spta/distance/variance.py
index 3031d8e..001196c 100644
--- a/spta/distance/variance.py
+++ b/spta/distance/variance.py
@@ -496,21 +496,28 @@ class DistanceHistogramClusters(DistanceHistogram):
     def distances_to_point(self, point_of_interest):
         raise NotImplementedError
 
-    def max_distance(self):
+    def distances_to_centroids(self):
+        '''
+        The distances of each cluster to its centroid, as a list.
+        These should be calculated once, since the random points are different for each calculation.
+        '''
+        # should also work with decorated histograms
+        return [
+            histogram.distances_to_point(cluster.centroid)
+            for cluster, histogram
+            in zip(self.clusters, self.histograms)
+        ]
+
+    def max_distance(self, all_distances):
         '''
         Calculate maximum overall distance among all cluster distances.
-        Uses the centroids of each cluster to find the distances for each cluster.
+        Uses the result of distances_to_centroids.
         '''
         # idiom to find overall maximum
         max_dist = -np.Inf
 
         # iterate clusters and access all histograms
-        for i, cluster_i in enumerate(self.clusters):
-            cluster_i_hist = self.histograms[i]
-
-            # find the distances to the centroid
-            # should also work with decorated histograms
-            cluster_i_dists = cluster_i_hist.distances_to_point(cluster_i.centroid)
+        for cluster_i_hist, cluster_i_dists in zip(self.histograms, all_distances):
 
             # since max_distance keeps maximum, use this instead of asking which is larger
             # should also work with decorated histograms
@@ -545,8 +552,11 @@ class DistanceHistogramClusters(DistanceHistogram):
 
         _, subplots = plt.subplots(div_x, div_y, figsize=figsize)
 
+        # find the distances to the centroids
+        all_distances = self.distances_to_centroids()
+
         # use maximum distance to override x_lim of all subplots
-        max_override = self.max_distance()
+        max_override = self.max_distance(all_distances)
 
         # if saving plot, the filename is calculated using the clustering algorithm and possible
         # random points
@@ -561,7 +571,7 @@ class DistanceHistogramClusters(DistanceHistogram):
             plot_name = '{}/{}.pdf'.format(plot_dir, plot_partial_name)
 
         # plot histogram of each cluster, use the grid subplots
-        for i, cluster in enumerate(self.clusters):
+        for i, distances_i in enumerate(all_distances):
 
             # if subplot is either (1, y) or (x, 1), it becomes one-dimensional, treat cases
             # don't bother with (1, 1), assume k >= 2
@@ -579,7 +589,6 @@ class DistanceHistogramClusters(DistanceHistogram):
             # don't pass plot_name to avoid saving each subplot
             # should also work with decorated histograms
             histogram_i = self.histograms[i]
-            distances_i = histogram_i.distances_to_point(cluster.centroid)
             histogram_i.plot(distances=distances_i,
                              subplot=subplot,
                              with_statistics=with_statistics,
-- 
2.43.0


From d518dd4a87871c4f1d33986de028408b7cf22084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:06 +0000
Subject: [PATCH 44/47] fix: figures of distances and errors when the model of
 the medoid could not be trained

---
 experiments/auto_arima/distance_errors.py | 5 ++++-
 spta/model/forecast.py                    | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/experiments/auto_arima/distance_errors.py b/experiments/auto_arima/distance_errors.py
index 1759e35..6d43319 100644
--- a/experiments/auto_arima/distance_errors.py
+++ b/experiments/auto_arima/distance_errors.py
@@ -225,8 +225,11 @@ def distance_vs_errors_for_cluster(cluster, solver_trainer, partition, forecast_
     if with_plots:
 
         # get ARIMA order at point of interest, need the value to get the actual ARIMA object
+        # (there is none if the model could not be trained)
         fitted_arima_at_medoid = arima_model_region.value_at(cluster.centroid)
-        arima_order = fitted_arima_at_medoid.model.order
+        arima_order = None
+        if fitted_arima_at_medoid is not None:
+            arima_order = fitted_arima_at_medoid.model.order
 
         # add some info about plot
         info_text = '\n'.join((
diff --git a/spta/model/forecast.py b/spta/model/forecast.py
index fd5b127..50965d8 100644
--- a/spta/model/forecast.py
+++ b/spta/model/forecast.py
@@ -317,9 +317,11 @@ class ForecastAnalysis(log_util.LoggerMixin):
         _, subplot = plt.subplots(1, 1, figsize=(7, 5))
         subplot.plot(distances_to_point, forecast_errors, 'bo')
 
-        # get ARIMA order at point of interest
+        # get ARIMA order at point of interest, there is none if the model could not be trained
         fitted_arima_at_point = self.model_region.value_at(point_of_interest)
-        arima_order = fitted_arima_at_point.model.order
+        arima_order = None
+        if fitted_arima_at_point is not None:
+            arima_order = fitted_arima_at_point.model.order
 
         # title
         title = 'Distances to medoid vs forecast errors at medoid'
-- 
2.43.0


From e1c7722539bab374006a99a39b82f03165a0c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:06 +0000
Subject: [PATCH 45/47] fix: figures of distances and silhouettes were saved
 after they were shown, and their folder was not created

---
 experiments/region/distance.py | 22 +++++++++++-----------
 spta/kmedoids/silhouette.py    | 22 ++++++++++++----------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/experiments/region/distance.py b/experiments/region/distance.py
index 184b29d..3437d5e 100644
--- a/experiments/region/distance.py
+++ b/experiments/region/distance.py
@@ -5,7 +5,6 @@ in a file.
 
 import argparse
 import numpy as np
-import matplotlib.pyplot as plt
 
 from experiments.metadata.region import predefined_regions
 
@@ -13,6 +12,7 @@ from spta.region.spatial import SpatialRegion
 from spta.distance.dtw import DistanceByDTW
 from spta.distance.dtw_parallel import DistanceByDTWParallel
 
+from spta.util import fs as fs_util
 from spta.util import log as log_util
 from spta.util import plot as plot_util
 
@@ -91,14 +91,16 @@ def show_distances(spt_region, distance_matrix):
     (_, x_len, y_len) = spt_region.shape
     metadata = spt_region.region_metadata
 
+    # the figures are saved after they were shown, so save the figures themselves (not the current
+    # figure, which is another one when the windows were closed)
+    fs_util.mkdir('plots')
+
     # work on Point at (0, 0)
     distances_0_0_as_region = SpatialRegion(distance_matrix[0].reshape((x_len, y_len)))
-    plot_util.plot_discrete_spatial_region(distances_0_0_as_region,
-                                           'Distances to point at (0,0)', clusters=False)
-    plt.draw()
+    fig = plot_util.plot_discrete_spatial_region(distances_0_0_as_region,
+                                                 'Distances to point at (0,0)', clusters=False)
     distances_0_0_output = 'plots/distances_0_0_{}.eps'.format(metadata.name)
-    plt.savefig(distances_0_0_output)
-    plt.show()
+    fig.savefig(distances_0_0_output)
 
     # work on Point at center of graph
     center = int(x_len * y_len / 2)
@@ -106,12 +108,10 @@ def show_distances(spt_region, distance_matrix):
         # so far the center variable points to first element of 'center' row, add half row
         center = center + int(y_len / 2)
     distances_center_as_region = SpatialRegion(distance_matrix[center].reshape((x_len, y_len)))
-    plot_util.plot_discrete_spatial_region(distances_center_as_region,
-                                           'Distances to center point', clusters=False)
-    plt.draw()
+    fig = plot_util.plot_discrete_spatial_region(distances_center_as_region,
+                                                 'Distances to center point', clusters=False)
     distances_center_output = 'plots/distances_center_{}.eps'.format(metadata.name)
-    plt.savefig(distances_center_output)
-    plt.show()
+    fig.savefig(distances_center_output)
 
 
 if __name__ == '__main__':
diff --git a/spta/kmedoids/silhouette.py b/spta/kmedoids/silhouette.py
index df32441..7fb3ac6 100644
--- a/spta/kmedoids/silhouette.py
+++ b/spta/kmedoids/silhouette.py
@@ -7,6 +7,7 @@ import sys
 
 from spta.region.spatial import SpatialRegion
 from spta.region.temporal import SpatioTemporalRegion
+from spta.util import fs as fs_util
 from spta.util import plot as plot_util
 from spta.distance.dtw import DistanceByDTW
 
@@ -129,14 +130,16 @@ class KmedoidsWithSilhouette(object):
         distance_matrix = distance_measure.load_distance_matrix_2d(
             self.sptr_metadata.distances_filename, self.sptr_metadata.region)
 
+        # the figures are saved after they were shown, so save the figures themselves (not the current
+        # figure, which is another one when the windows were closed)
+        fs_util.mkdir('plots')
+
         # work on Point at (0, 0)
         distances_0_0_as_region = SpatialRegion(distance_matrix[0].reshape((x_len, y_len)))
-        plot_util.plot_discrete_spatial_region(distances_0_0_as_region,
-                                               'Distances to point at (0,0)', clusters=False)
-        plt.draw()
+        fig = plot_util.plot_discrete_spatial_region(distances_0_0_as_region,
+                                                     'Distances to point at (0,0)', clusters=False)
         distances_0_0_output = 'plots/distances_0_0_{}.eps'.format(self.sptr_metadata.name)
-        plt.savefig(distances_0_0_output)
-        plt.show()
+        fig.savefig(distances_0_0_output)
 
         # work on Point at center of graph
         center = int(x_len * y_len / 2)
@@ -145,12 +148,10 @@ class KmedoidsWithSilhouette(object):
             center = center + int(y_len / 2)
 
         distances_center_as_region = SpatialRegion(distance_matrix[center].reshape((x_len, y_len)))
-        plot_util.plot_discrete_spatial_region(distances_center_as_region,
-                                               'Distances to center point', clusters=False)
-        plt.draw()
+        fig = plot_util.plot_discrete_spatial_region(distances_center_as_region,
+                                                     'Distances to center point', clusters=False)
         distances_center_output = 'plots/distances_center_{}.eps'.format(self.sptr_metadata.name)
-        plt.savefig(distances_center_output)
-        plt.show()
+        fig.savefig(distances_center_output)
 
     def execute_command(self, command):
         self.commands[command]()
@@ -264,6 +265,7 @@ def single_silhouette(kmedoids_result, silhouette_metadata, shape_2d):
     if save_graphs is not None:
         # save the figure for this k
         filename_k = '{}_k{}_seed{}.eps'.format(save_graphs, str(k), str(random_seed))
+        fs_util.mkdir(os.path.dirname(filename_k))
         fig.savefig(filename_k)
 
     # the silhouette score
-- 
2.43.0


From 636a8e6d4ebcf309ef3193151b320c314b14da14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:34 +0000
Subject: [PATCH 46/47] fix: a model that could not be trained, offered first,
 was returned as the only best model

---
 spta/arima/optimize.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spta/arima/optimize.py b/spta/arima/optimize.py
index 23a6c93..c630545 100644
--- a/spta/arima/optimize.py
+++ b/spta/arima/optimize.py
@@ -32,6 +32,11 @@ def find_best_models(results_data, show=True):
     pareto = oapackage.ParetoDoubleLong()
 
     for ii in range(0, samples):
+
+        # a model that could not be trained has nothing to compare
+        if np.isnan(perf_points[ii]).any():
+            continue
+
         # invert to 'minimize' instead of 'maximize' objectives
         w = oapackage.doubleVector((1.0 / perf_points[ii, 0], 1.0 / perf_points[ii, 1]))
         # w = oapackage.doubleVector((perf_points[ii, 0], perf_points[ii, 1]))
-- 
2.43.0


From ff3ac9dcfca98bc477bc2279bb173e1c2db02ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:34 +0000
Subject: [PATCH 47/47] fix: the cost reported for the best model was the one
 of the last model

---
 spta/arima/optimize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spta/arima/optimize.py b/spta/arima/optimize.py
index c630545..7725037 100644
--- a/spta/arima/optimize.py
+++ b/spta/arima/optimize.py
@@ -118,9 +118,10 @@ def sweep_cost_factors(optimal_results):
             cost = costs[i]
             log.info(msg % (str(model), str(cost), (alpha, beta)))
 
-        min_cost_index = costs == np.min(costs)
+        min_cost = np.min(costs)
+        min_cost_index = costs == min_cost
         msg = 'best model is %s with cost %s for (alpha, beta) = %s'
-        log.info(msg % (str(optimal_results[min_cost_index, :]), str(cost), (alpha, beta)))
+        log.info(msg % (str(optimal_results[min_cost_index, :]), str(min_cost), (alpha, beta)))
 
 
 if __name__ == '__main__':
-- 
2.43.0

