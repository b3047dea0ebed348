From 04d9aa88173847d1213b2a9c11a6a5860599afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:03 +0000
Subject: [PATCH 01/27] fix: pick two distinct centers when all points of a
 cluster are identical

Hierarchical clustering used the same point as both centers when no two
members of a cluster differ, so points were lost and the labels of others
were never written.
---
 src/hierarchical_clustering.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 910ba91..ef5f66b 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -796,6 +796,11 @@ static scc_ErrorCode iscc_hi_find_centers(iscc_hi_ClusterItem* const cl,
 		return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);
 	}
 
+	if (*out_center1 == *out_center2) {
+		// All members are identical, so any two distinct members will do.
+		*out_center2 = (cl->members[0] == *out_center1) ? cl->members[1] : cl->members[0];
+	}
+
 	return iscc_no_error();
 }
 
-- 
2.43.0


From ad9e2e386990eb0a8c46336f3ba8067dd2fa619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:26 +0000
Subject: [PATCH 02/27] fix: count the first cluster when sizing hierarchical
 work areas

The size of the largest existing cluster was found without looking at
cluster 0, so the edge stores and distance array overflowed when cluster 0
was the largest.
---
 src/hierarchical_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index ef5f66b..28a4a88 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -335,7 +335,7 @@ static scc_ErrorCode iscc_hi_init_cl_stack(const scc_Clustering* const in_cl,
 		}
 	}
 
-	size_t size_largest_cluster = 0;
+	size_t size_largest_cluster = clusters[0].size;
 	clusters[0].members = out_cl_stack->pointindex_store + clusters[0].size;
 	for (size_t c = 1; c < in_cl->num_clusters; ++c) {
 		clusters[c].members = clusters[c - 1].members + clusters[c].size;
-- 
2.43.0


From 692117887435a94a67e4d20d5392d9872b931673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:16 +0000
Subject: [PATCH 03/27] fix: report failed allocation when assigning points by
 the NNG

iscc_assign_by_nng returned the error code as the number of assigned points.
The caller continued with a wrong count and wrote outside its buffer.
---
 src/nng_core.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index 358ce44..50e0f87 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -482,7 +482,12 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 	// (NNG already contains radius constraint.)
 	if ((unassigned_method == SCC_UM_ANY_NEIGHBOR) ||
 	        (nng_is_ordered && (unassigned_method == SCC_UM_CLOSEST_ASSIGNED))) {
-		total_assigned += iscc_assign_by_nng(clustering, nng);
+		const size_t num_assigned_by_nng = iscc_assign_by_nng(clustering, nng);
+		if (num_assigned_by_nng == SIZE_MAX) {
+			free(seed_or_neighbor);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
+		total_assigned += num_assigned_by_nng;
 
 		// Ignore remaining points if SCC_UM_ANY_NEIGHBOR
 		if (unassigned_method == SCC_UM_ANY_NEIGHBOR) {
@@ -955,6 +960,7 @@ static size_t iscc_assign_seeds_and_neighbors(scc_Clustering* const clustering,
 }
 
 
+// Returns number of assigned points, or `SIZE_MAX` if memory could not be allocated
 static size_t iscc_assign_by_nng(scc_Clustering* const clustering,
                                  iscc_Digraph* const nng)
 {
@@ -963,7 +969,7 @@ static size_t iscc_assign_by_nng(scc_Clustering* const clustering,
 	assert(!iscc_digraph_is_empty(nng));
 
 	bool* const scratch = malloc(sizeof(bool[clustering->num_data_points]));
-	if (scratch == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
+	if (scratch == NULL) return SIZE_MAX;
 	for (size_t i = 0; i < clustering->num_data_points; ++i) {
 		scratch[i] = (clustering->cluster_label[i] == SCC_CLABEL_NA);
 	}
-- 
2.43.0


From 6d1d0eba368212103a5f6c213d053b5552b379f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:42 +0000
Subject: [PATCH 04/27] fix: report errors from the assignment of secondary
 points

The error code of the last search was dropped, so a failed search gave a
clustering with unassigned points reported as a success.
---
 src/nng_core.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index 50e0f87..8117d69 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -635,6 +635,8 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 		iscc_close_nn_search_object(&nn_seed_search_object);
 	}
 
+	if (ec != SCC_ER_OK) return ec;
+
 	return iscc_no_error();
 }
 
-- 
2.43.0


From cc8bcf6acd68046b4857d364cbbb414e65efe657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:23 +0000
Subject: [PATCH 05/27] fix: return when the exclusion seed finder cannot
 allocate memory

The error was made but not returned, so freed and null memory was used.
---
 src/nng_findseeds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_findseeds.c b/src/nng_findseeds.c
index 45acca3..058a512 100644
--- a/src/nng_findseeds.c
+++ b/src/nng_findseeds.c
@@ -320,7 +320,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	scc_PointIndex* tmp_index_not_excluded = malloc(sizeof(scc_PointIndex[nng->vertices]));
 	if (tmp_index_not_excluded == NULL) {
 		free(not_excluded);
-		iscc_make_error(SCC_ER_NO_MEMORY);
+		return iscc_make_error(SCC_ER_NO_MEMORY);
 	}
 	assert(nng->vertices <= ISCC_POINTINDEX_MAX);
 	const scc_PointIndex vertices_pi = (scc_PointIndex) nng->vertices; // If `scc_PointIndex` is signed
-- 
2.43.0


From 53507bd856c8277678315b38509c31d987b02dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:00 +0000
Subject: [PATCH 06/27] fix: release scratch memory when building the exclusion
 graph fails

---
 src/nng_findseeds.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nng_findseeds.c b/src/nng_findseeds.c
index 058a512..10ff499 100644
--- a/src/nng_findseeds.c
+++ b/src/nng_findseeds.c
@@ -344,6 +344,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	iscc_Digraph exclusion_graph;
 	if ((ec = iscc_fs_exclusion_graph(nng, tmp_num_not_excluded, tmp_index_not_excluded, &exclusion_graph)) != SCC_ER_OK) {
 		free(not_excluded);
+		free(tmp_index_not_excluded);
 		return ec;
 	}
 
-- 
2.43.0


From 5f7db4d30055a5db089d521cee6e7994174124bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:16 +0000
Subject: [PATCH 07/27] fix: keep the direct ANN search from falling through to
 the translating one

A misplaced brace made the branch for `scc_PointIndex` being `int` release
its scratch memory and return inside the radius search: a radius search stopped
after the first query, and a search without radius leaked and was run twice.
---
 examples/ann/ann_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/ann/ann_wrapper.cpp b/examples/ann/ann_wrapper.cpp
index 8a88430..3d40f50 100644
--- a/examples/ann/ann_wrapper.cpp
+++ b/examples/ann/ann_wrapper.cpp
@@ -259,6 +259,7 @@ bool iscc_ann_nearest_neighbor_search(iscc_NNSearchObject* const nn_search_objec
 						++num_ok_queries;
 						write_nnidx += k_int;
 					}
+				}
 			}
 
 			delete[] dist_scratch;
@@ -267,7 +268,6 @@ bool iscc_ann_nearest_neighbor_search(iscc_NNSearchObject* const nn_search_objec
 
 			return true;
 		}
-	}
 
 	#endif // #ifdef SCC_M_POINTINDEX_TYPE_int
 
-- 
2.43.0


From 2f54a997e804599cddefa6b1e9c82e97f5a19896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:16 +0000
Subject: [PATCH 08/27] fix: release memory when the second allocation of the
 ANN wrapper fails

---
 examples/ann/ann_wrapper.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/examples/ann/ann_wrapper.cpp b/examples/ann/ann_wrapper.cpp
index 3d40f50..19ab457 100644
--- a/examples/ann/ann_wrapper.cpp
+++ b/examples/ann/ann_wrapper.cpp
@@ -119,11 +119,12 @@ bool iscc_ann_init_nn_search_object(void* const data_set,
 
 	scc_DataSet* const data_set_cast = static_cast<scc_DataSet*>(data_set);
 
-	ANNpoint* search_points;
+	ANNpoint* search_points = NULL;
 	try {
 		search_points = new ANNpoint[len_search_indices];
 		*out_nn_search_object = new iscc_NNSearchObject;
 	} catch (...) {
+		delete[] search_points;
 		return false;
 	}
 
@@ -272,12 +273,13 @@ bool iscc_ann_nearest_neighbor_search(iscc_NNSearchObject* const nn_search_objec
 	#endif // #ifdef SCC_M_POINTINDEX_TYPE_int
 
 
-	ANNidx* idx_scratch;
-	ANNdist* dist_scratch;
+	ANNidx* idx_scratch = NULL;
+	ANNdist* dist_scratch = NULL;
 	try {
 		idx_scratch = new ANNidx[k];
 		dist_scratch = new ANNdist[k];
 	} catch (...) {
+		delete[] idx_scratch;
 		return false;
 	}
 
-- 
2.43.0


From fb791f6265f13cee8a69b34b8a7c1a7a69dfcae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:38 +0000
Subject: [PATCH 09/27] fix: report failed allocation of the primary point
 marks in batch clustering

---
 src/nng_batch_clustering.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index d4644f6..31fd76a 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -141,6 +141,13 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	bool* tmp_primary_data_points = NULL;
 	if (primary_data_points != NULL) {
 		tmp_primary_data_points = calloc(clustering->num_data_points, sizeof(bool));
+		if (tmp_primary_data_points == NULL) {
+			free(batch_indices);
+			free(out_indices);
+			free(assigned);
+			iscc_close_nn_search_object(&nn_search_object);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
 		for (size_t i = 0; i < len_primary_data_points; ++i) {
 			tmp_primary_data_points[primary_data_points[i]] = true;
 		}
-- 
2.43.0


From bcc9a2af03d8336921f9711641059362e84e3b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:38 +0000
Subject: [PATCH 10/27] fix: compute the size of the batch neighbor buffer in
 size_t

The product of the size constraint and the batch size wrapped at 32 bits and
the search wrote beyond the buffer.
---
 src/nng_batch_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index 31fd76a..2037996 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -115,7 +115,7 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	}
 
 	scc_PointIndex* const batch_indices = malloc(sizeof(scc_PointIndex[batch_size]));
-	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[size_constraint * batch_size]));
+	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[(size_t) size_constraint * batch_size]));
 	bool* const assigned = calloc(clustering->num_data_points, sizeof(bool));
 	if ((batch_indices == NULL) || (out_indices == NULL) || (assigned == NULL)) {
 		free(batch_indices);
-- 
2.43.0


From c1d277df2f61d2f0d84d121546dca217ccdfe4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:38 +0000
Subject: [PATCH 11/27] fix: report failed allocation when assigning points by
 search

---
 src/nng_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index 8117d69..f717cb4 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -1018,6 +1018,7 @@ static scc_ErrorCode iscc_assign_by_nn_search(scc_Clustering* const clustering,
 		out_ok_query = to_assign;
 	}
 	scc_PointIndex* const out_nn_indices = malloc(sizeof(scc_PointIndex[num_to_assign]));
+	if (out_nn_indices == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
 
 	if (!iscc_nearest_neighbor_search(nn_search_object,
 	                                  num_to_assign,
-- 
2.43.0


From 0bcc89b519a19b834ad93797afadd6b9639e9dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:06 +0000
Subject: [PATCH 12/27] fix: handle type constraints that are all zero

The union of an empty list of graphs read an uninitialized graph.
---
 src/nng_core.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index f717cb4..afc0019 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -250,6 +250,23 @@ scc_ErrorCode iscc_get_nng_with_type_constraint(void* const data_set,
 		return ec;
 	}
 
+	if (tc.sum_type_constraints == 0) {
+		// No type is constrained, so there are no type NNGs to combine
+		free(seedable);
+		free(nng_by_type);
+		free(tc.type_group_size);
+		free(tc.point_store);
+		free(tc.type_groups);
+		return iscc_get_nng_with_size_constraint(data_set,
+		                                         num_data_points,
+		                                         size_constraint,
+		                                         len_primary_data_points,
+		                                         primary_data_points,
+		                                         radius_constraint,
+		                                         radius,
+		                                         out_nng);
+	}
+
 	uint_fast16_t num_non_zero_type_constraints = 0;
 	for (uint_fast16_t i = 0; i < num_types; ++i) {
 		if (type_constraints[i] > 0) {
-- 
2.43.0


From fef90b96f0997d2a2c5f905ff61902abfce0d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:06 +0000
Subject: [PATCH 13/27] fix: respect a primary radius that is tighter than the
 seed radius

With `SCC_UM_CLOSEST_ASSIGNED`, points were assigned along NNG arcs without
checking the arcs against the primary radius.
---
 src/nng_clustering.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index 0dcabbf..18ec35e 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -222,11 +222,18 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 		}
 	}
 
+	// The NNG can stand in for a search for the closest assigned point only when
+	// its arcs are ordered and they all satisfy the primary radius constraint.
+	const bool nng_is_ordered = (options->num_types < 2) &&
+		((primary_radius != SCC_RM_USE_SUPPLIED) ||
+		    ((options->seed_radius == SCC_RM_USE_SUPPLIED) &&
+		        (options->seed_supplied_radius <= primary_supplied_radius)));
+
 	ec = iscc_make_nng_clusters_from_seeds(clustering,
 	                                       data_set,
 	                                       &seed_result,
 	                                       nng,
-	                                       (options->num_types < 2),
+	                                       nng_is_ordered,
 	                                       options->primary_unassigned_method,
 	                                       (primary_radius == SCC_RM_USE_SUPPLIED),
 	                                       primary_supplied_radius,
-- 
2.43.0


From 31bf51545f05e92114ea63d8adb23684d3a37884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:06 +0000
Subject: [PATCH 14/27] fix: do not leave clusters behind when a clustering
 call fails

---
 src/nng_clustering.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index 18ec35e..649ceac 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -244,5 +244,11 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 	                                       secondary_supplied_radius);
 
 	free(seed_result.seeds);
+
+	if (ec != SCC_ER_OK) {
+		// Labels are incomplete
+		clustering->num_clusters = 0;
+	}
+
 	return ec;
 }
-- 
2.43.0


From 8c13d7c2445c7455293b3b3aea9dc6a448eb09f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:06 +0000
Subject: [PATCH 15/27] fix: change nothing when installing distance functions
 is refused

---
 src/scclust_spi.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/scclust_spi.c b/src/scclust_spi.c
index 5c84411..2dc09a5 100644
--- a/src/scclust_spi.c
+++ b/src/scclust_spi.c
@@ -78,6 +78,24 @@ bool scc_set_dist_functions(scc_check_data_set check_data_set,
                             scc_nearest_neighbor_search nearest_neighbor_search,
                             scc_close_nn_search_object close_nn_search_object)
 {
+	// Search objects need all of their functions. Check before anything is changed.
+	const bool any_max_dist = (init_max_dist_object != NULL) ||
+		(get_max_dist != NULL) ||
+		(close_max_dist_object != NULL);
+	const bool all_max_dist = (init_max_dist_object != NULL) &&
+		(get_max_dist != NULL) &&
+		(close_max_dist_object != NULL);
+	const bool any_nn_search = (init_nn_search_object != NULL) ||
+		(nearest_neighbor_search != NULL) ||
+		(close_nn_search_object != NULL);
+	const bool all_nn_search = (init_nn_search_object != NULL) &&
+		(nearest_neighbor_search != NULL) &&
+		(close_nn_search_object != NULL);
+
+	if ((any_max_dist && !all_max_dist) || (any_nn_search && !all_nn_search)) {
+		return false;
+	}
+
 	if (check_data_set != NULL) {
 		iscc_dist_functions.check_data_set = check_data_set;
 	}
@@ -94,28 +112,16 @@ bool scc_set_dist_functions(scc_check_data_set check_data_set,
 		iscc_dist_functions.get_dist_rows = get_dist_rows;
 	}
 
-	if (init_max_dist_object != NULL &&
-			get_max_dist != NULL &&
-			close_max_dist_object != NULL) {
+	if (all_max_dist) {
 		iscc_dist_functions.init_max_dist_object = init_max_dist_object;
 		iscc_dist_functions.get_max_dist = get_max_dist;
 		iscc_dist_functions.close_max_dist_object = close_max_dist_object;
-	} else if (init_max_dist_object != NULL ||
-			get_max_dist != NULL ||
-			close_max_dist_object != NULL) {
-		return false;
 	}
 
-	if (init_nn_search_object != NULL &&
-			nearest_neighbor_search != NULL &&
-			close_nn_search_object != NULL) {
+	if (all_nn_search) {
 		iscc_dist_functions.init_nn_search_object = init_nn_search_object;
 		iscc_dist_functions.nearest_neighbor_search = nearest_neighbor_search;
 		iscc_dist_functions.close_nn_search_object = close_nn_search_object;
-	} else if (init_nn_search_object != NULL ||
-			nearest_neighbor_search != NULL ||
-			close_nn_search_object != NULL) {
-		return false;
 	}
 
 	return true;
-- 
2.43.0


From 5dbbb3fc673b028014d367769267ec83dc6bf66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:05 +0000
Subject: [PATCH 16/27] fix: restore the labels when refining an existing
 clustering fails

---
 src/hierarchical_clustering.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 28a4a88..8f6ba1c 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -26,6 +26,7 @@
 #include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 #include "dist_search.h"
 #include "clustering_struct.h"
 #include "error.h"
@@ -202,6 +203,7 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 	scc_ErrorCode ec;
 	size_t size_largest_cluster = 0; // Initialize to avoid gcc warning
 	iscc_hi_ClusterStack cl_stack;
+	scc_Clabel* old_labels = NULL;
 	if (out_clustering->num_clusters == 0) {
 		if (out_clustering->cluster_label == NULL) {
 			out_clustering->external_labels = false;
@@ -214,7 +216,13 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 			return ec;
 		}
 	} else {
+		// Labels are overwritten as clusters are broken; keep the old ones so they can be restored on error
+		old_labels = malloc(sizeof(scc_Clabel[out_clustering->num_data_points]));
+		if (old_labels == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
+		memcpy(old_labels, out_clustering->cluster_label, sizeof(scc_Clabel[out_clustering->num_data_points]));
+
 		if ((ec = iscc_hi_init_cl_stack(out_clustering, &cl_stack, &size_largest_cluster)) != SCC_ER_OK) {
+			free(old_labels);
 			return ec;
 		}
 	}
@@ -258,6 +266,11 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 	free(cl_stack.clusters);
 	free(cl_stack.pointindex_store);
 
+	if ((ec != SCC_ER_OK) && (old_labels != NULL)) {
+		memcpy(out_clustering->cluster_label, old_labels, sizeof(scc_Clabel[out_clustering->num_data_points]));
+	}
+	free(old_labels);
+
 	return ec;
 }
 
-- 
2.43.0


From b6b4d1a0eca5add3c98a372cfae3d33ef597c075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:10 +0000
Subject: [PATCH 17/27] Revert the changes to examples/ann/ann_wrapper.cpp

The files under examples/ are to stay as they are; the two defects are recorded as findings instead.
---
 examples/ann/ann_wrapper.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/examples/ann/ann_wrapper.cpp b/examples/ann/ann_wrapper.cpp
index 19ab457..8a88430 100644
--- a/examples/ann/ann_wrapper.cpp
+++ b/examples/ann/ann_wrapper.cpp
@@ -119,12 +119,11 @@ bool iscc_ann_init_nn_search_object(void* const data_set,
 
 	scc_DataSet* const data_set_cast = static_cast<scc_DataSet*>(data_set);
 
-	ANNpoint* search_points = NULL;
+	ANNpoint* search_points;
 	try {
 		search_points = new ANNpoint[len_search_indices];
 		*out_nn_search_object = new iscc_NNSearchObject;
 	} catch (...) {
-		delete[] search_points;
 		return false;
 	}
 
@@ -260,7 +259,6 @@ bool iscc_ann_nearest_neighbor_search(iscc_NNSearchObject* const nn_search_objec
 						++num_ok_queries;
 						write_nnidx += k_int;
 					}
-				}
 			}
 
 			delete[] dist_scratch;
@@ -269,17 +267,17 @@ bool iscc_ann_nearest_neighbor_search(iscc_NNSearchObject* const nn_search_objec
 
 			return true;
 		}
+	}
 
 	#endif // #ifdef SCC_M_POINTINDEX_TYPE_int
 
 
-	ANNidx* idx_scratch = NULL;
-	ANNdist* dist_scratch = NULL;
+	ANNidx* idx_scratch;
+	ANNdist* dist_scratch;
 	try {
 		idx_scratch = new ANNidx[k];
 		dist_scratch = new ANNdist[k];
 	} catch (...) {
-		delete[] idx_scratch;
 		return false;
 	}
 
-- 
2.43.0


From a6cc4a5c075d923ffb4c1edc2dfd966b8578448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:03 +0000
Subject: [PATCH 18/27] fix: compare the data matrix length without overflow

---
 src/data_set.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_set.c b/src/data_set.c
index 95d6191..6f87d0e 100644
--- a/src/data_set.c
+++ b/src/data_set.c
@@ -63,7 +63,7 @@ scc_ErrorCode scc_init_data_set(const uint64_t num_data_points,
 	if (num_dimensions > UINT16_MAX) {
 		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many data dimensions.");
 	}
-	if (len_data_matrix < num_data_points * num_dimensions) {
+	if (len_data_matrix / num_dimensions < num_data_points) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid data matrix.");
 	}
 	if (data_matrix == NULL) {
-- 
2.43.0


From b551c96eeeda8c9b043a4563858c3fe1615cba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:45 +0000
Subject: [PATCH 19/27] fix: keep the farthest neighbor last in batches with
 SCC_STABLE_NNG

Sorting all neighbors of a point by index made the neighbor with the largest
index, rather than the farthest one, give way when the point is missing among
its own neighbors (duplicate points).
---
 src/nng_batch_clustering.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index 2037996..6250812 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -264,7 +264,8 @@ static scc_ErrorCode iscc_run_nng_batches(scc_Clustering* const clustering,
 
 		#ifdef SCC_STABLE_NNG
 		for (size_t i = 0; i < num_ok_in_batch; ++i) {
-			qsort(out_indices + i * size_constraint, size_constraint, sizeof(scc_PointIndex), iscc_compare_PointIndex);
+			// Last (i.e., farthest) neighbor stays last, it gives way when the point itself is missing
+			qsort(out_indices + i * size_constraint, size_constraint - 1, sizeof(scc_PointIndex), iscc_compare_PointIndex);
 		}
 		#endif // ifdef SCC_STABLE_NNG
 
-- 
2.43.0


From 56d5b02ac05568518e086178f1fc95fe69ea4ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:45 +0000
Subject: [PATCH 20/27] fix: closest-assigned ignores distances with
 SCC_STABLE_NNG

With SCC_STABLE_NNG the arcs of the NNG are sorted by index, so the first
assigned neighbor need not be the closest one.
---
 src/nng_clustering.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index 649ceac..240a693 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -224,10 +224,14 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 
 	// The NNG can stand in for a search for the closest assigned point only when
 	// its arcs are ordered and they all satisfy the primary radius constraint.
+	#ifdef SCC_STABLE_NNG
+	const bool nng_is_ordered = false; // Arcs are sorted by index
+	#else
 	const bool nng_is_ordered = (options->num_types < 2) &&
 		((primary_radius != SCC_RM_USE_SUPPLIED) ||
 		    ((options->seed_radius == SCC_RM_USE_SUPPLIED) &&
 		        (options->seed_supplied_radius <= primary_supplied_radius)));
+	#endif // ifdef SCC_STABLE_NNG
 
 	ec = iscc_make_nng_clusters_from_seeds(clustering,
 	                                       data_set,
-- 
2.43.0


From 3b799357e08826f5e11665eded585936a01dbfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:56 +0000
Subject: [PATCH 21/27] fix: do not wrap when doubling the size constraint in
 hierarchical clustering

---
 src/hierarchical_clustering.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 8f6ba1c..c84f8ce 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -397,7 +397,7 @@ static scc_ErrorCode iscc_hi_run_hierarchical_clustering(iscc_hi_ClusterStack* c
 
 		iscc_hi_ClusterItem* current_cluster = &cl_stack->clusters[cl_stack->items - 1];
 
-		if (current_cluster->size < (2 * size_constraint)) {
+		if (current_cluster->size < (2 * (size_t) size_constraint)) {
 			if (current_cluster->size > 0) {
 				if (current_label == SCC_CLABEL_MAX) {
 					return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many clusters (adjust the `scc_Clabel` type).");
@@ -550,7 +550,7 @@ static scc_ErrorCode iscc_hi_break_cluster_into_two(iscc_hi_ClusterItem* const c
 
 	assert((cluster1->size == size_constraint) && (cluster2->size == size_constraint));
 
-	num_unassigned -= 2 * size_constraint;
+	num_unassigned -= 2 * (size_t) size_constraint;
 
 	if (batch_assign) {
 		uint32_t num_assign_in_batch = size_constraint;
-- 
2.43.0


From b4e3230060f22de7f55674a46ecedad569d626dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:56 +0000
Subject: [PATCH 22/27] fix: refuse statistics of clusters whose distance
 matrix size wraps around

---
 src/utilities.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utilities.c b/src/utilities.c
index b9d2028..6329731 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -236,6 +236,10 @@ scc_ErrorCode scc_get_clustering_stats(void* const data_set,
 		return iscc_no_error();
 	}
 
+	if (tmp_stats.max_cluster_size > (SIZE_MAX / sizeof(double)) / tmp_stats.max_cluster_size) {
+		free(cluster_size);
+		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many data points in a cluster.");
+	}
 	const size_t largest_dist_matrix = (tmp_stats.max_cluster_size * (tmp_stats.max_cluster_size - 1)) / 2;
 	scc_PointIndex* const id_store = malloc(sizeof(scc_PointIndex[tmp_stats.num_assigned]));
 	scc_PointIndex** const cl_members = malloc(sizeof(scc_PointIndex*[clustering->num_clusters]));
-- 
2.43.0


From d20bd6dd07773152282f35218d884100e06ebcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:26 +0000
Subject: [PATCH 23/27] fix: refuse batches whose neighbor buffer size wraps
 around

With size_constraint * batch_size of 2^62 or more the byte count of
`out_indices` wrapped, and the search wrote past a buffer too small for it.
---
 src/nng_batch_clustering.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index 6250812..1175ac4 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -105,6 +105,9 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	if (batch_size > clustering->num_data_points) {
 		batch_size = (uint32_t) clustering->num_data_points;
 	}
+	if (size_constraint > SIZE_MAX / sizeof(scc_PointIndex) / batch_size) {
+		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too large batch (use a smaller batch size).");
+	}
 
 	iscc_NNSearchObject* nn_search_object;
 	if (!iscc_init_nn_search_object(data_set,
-- 
2.43.0


From 2344e26358ab196cecb3ac11cc6db3c9669b3a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:26 +0000
Subject: [PATCH 24/27] fix: num_types * num_clusters may wrap in
 scc_check_clustering

The counts were then written past a buffer too small for them.
---
 src/utilities.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utilities.c b/src/utilities.c
index 6329731..5e42d38 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -138,6 +138,7 @@ scc_ErrorCode scc_check_clustering(const scc_Clustering* const clustering,
 
 	} else { // num_types >= 2
 
+		if (clustering->num_clusters > SIZE_MAX / num_types) return iscc_make_error(SCC_ER_NO_MEMORY);
 		size_t* const cluster_type_sizes = calloc(num_types * clustering->num_clusters, sizeof(size_t));
 		if (cluster_type_sizes == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
 
-- 
2.43.0


From 98682584789575764469eb6c9b9cb5f12d9837ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:26 +0000
Subject: [PATCH 25/27] fix: sum of type constraints may wrap around 32 bits

Constraints adding up to 2^32 or more were taken for a small sum and the
contradicting size constraint was not noticed.
---
 src/nng_core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index afc0019..1ae26c3 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -41,7 +41,7 @@
 // =============================================================================
 
 typedef struct iscc_TypeCount {
-	uint32_t sum_type_constraints;
+	uint64_t sum_type_constraints;
 	size_t* type_group_size;
 	scc_PointIndex* point_store;
 	scc_PointIndex** type_groups;
@@ -320,7 +320,7 @@ scc_ErrorCode iscc_get_nng_with_type_constraint(void* const data_set,
 	}
 
 	if (size_constraint > tc.sum_type_constraints) {
-		uint32_t additional_nn_needed = size_constraint - tc.sum_type_constraints;
+		uint32_t additional_nn_needed = (uint32_t) (size_constraint - tc.sum_type_constraints);
 		iscc_Digraph nng_sum[2];
 		nng_sum[0] = *out_nng;
 
-- 
2.43.0


From 961d2a994efcb7f5b02d3b2f44f664b5f7ec8809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:51 +0000
Subject: [PATCH 26/27] fix: refuse graphs whose arc storage size wraps around

The number of arcs was checked, but neither the product it comes from nor
its size in bytes, so that the search wrote past a buffer too small for it.
---
 src/digraph_core.c | 6 +++---
 src/nng_core.c     | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/digraph_core.c b/src/digraph_core.c
index 79ada46..b180ad4 100644
--- a/src/digraph_core.c
+++ b/src/digraph_core.c
@@ -89,7 +89,7 @@ scc_ErrorCode iscc_init_digraph(const size_t vertices,
 	assert(vertices <= ISCC_POINTINDEX_MAX);
 	assert(vertices < SIZE_MAX);
 	assert(out_dg != NULL);
-	if ((max_arcs > ISCC_ARCINDEX_MAX) || (max_arcs > SIZE_MAX)) {
+	if ((max_arcs > ISCC_ARCINDEX_MAX) || (max_arcs > SIZE_MAX / sizeof(scc_PointIndex))) {
 		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many arcs in graph (adjust the `iscc_ArcIndex` type).");
 	}
 
@@ -123,7 +123,7 @@ scc_ErrorCode iscc_empty_digraph(const size_t vertices,
 	assert(vertices <= ISCC_POINTINDEX_MAX);
 	assert(vertices < SIZE_MAX);
 	assert(out_dg != NULL);
-	if ((max_arcs > ISCC_ARCINDEX_MAX) || (max_arcs > SIZE_MAX)) {
+	if ((max_arcs > ISCC_ARCINDEX_MAX) || (max_arcs > SIZE_MAX / sizeof(scc_PointIndex))) {
 		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many arcs in graph (adjust the `iscc_ArcIndex` type).");
 	}
 
@@ -154,7 +154,7 @@ scc_ErrorCode iscc_change_arc_storage(iscc_Digraph* const dg,
 {
 	assert(iscc_digraph_is_initialized(dg));
 	assert(dg->tail_ptr[dg->vertices] <= new_max_arcs);
-	if ((new_max_arcs > ISCC_ARCINDEX_MAX) || (new_max_arcs > SIZE_MAX)) {
+	if ((new_max_arcs > ISCC_ARCINDEX_MAX) || (new_max_arcs > SIZE_MAX / sizeof(scc_PointIndex))) {
 		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many arcs in graph (adjust the `iscc_ArcIndex` type).");
 	}
 	if (dg->max_arcs == new_max_arcs) return iscc_no_error();
diff --git a/src/nng_core.c b/src/nng_core.c
index 1ae26c3..7e8f6c6 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -732,6 +732,10 @@ static scc_ErrorCode iscc_make_nng_from_search_object(iscc_NNSearchObject* const
 	assert(!radius_search || (radius > 0.0));
 	assert(out_nng != NULL);
 
+	if (len_query_indices > SIZE_MAX / k) {
+		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many arcs in graph.");
+	}
+
 	scc_PointIndex* internal_out_query_indices = NULL;
 	scc_PointIndex* dist_out_query_indices = NULL;
 
-- 
2.43.0


From 6ce598e0f08d7230080b47fcaf2b0f0e58d08cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:19 +0000
Subject: [PATCH 27/27] fix: capacity of the cluster stack may wrap around

A clustering claiming close to SIZE_MAX clusters got a stack too small for it.
---
 src/hierarchical_clustering.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index c84f8ce..b4bca3e 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -202,7 +202,7 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 
 	scc_ErrorCode ec;
 	size_t size_largest_cluster = 0; // Initialize to avoid gcc warning
-	iscc_hi_ClusterStack cl_stack;
+	iscc_hi_ClusterStack cl_stack = { 0, 0, NULL, NULL }; // Initialize to avoid gcc warning
 	scc_Clabel* old_labels = NULL;
 	if (out_clustering->num_clusters == 0) {
 		if (out_clustering->cluster_label == NULL) {
@@ -324,7 +324,7 @@ static scc_ErrorCode iscc_hi_init_cl_stack(const scc_Clustering* const in_cl,
 	assert(out_size_largest_cluster != NULL);
 
 	const uint64_t tmp_capacity = in_cl->num_clusters + 1 + ((uint64_t) (10 * log2((double) in_cl->num_data_points)));
-	if (tmp_capacity > SIZE_MAX) {
+	if ((tmp_capacity > SIZE_MAX) || (tmp_capacity < in_cl->num_clusters)) {
 		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many clusters.");
 	}
 	*out_cl_stack = (iscc_hi_ClusterStack) {
-- 
2.43.0

