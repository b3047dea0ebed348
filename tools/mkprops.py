import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs,"hook_needed":None}})
p("C01","Size-constrained clustering: success means a valid clustering",
 "Whenever size-constrained clustering reports success, the result has at least one cluster, every label is either 'unassigned' or in 0..num_clusters-1, no label is unused, and every cluster holds at least the requested number of points and at least the requested number of points of every type. This holds for every legal answer of the distance backend (ties broken any way, a point omitted from its own neighbours when duplicates exist, approximate neighbours), every allocation failure the call survives and every interleaving with other clients. A feasible problem is not refused while nothing fails.",
 ["inputs","fault_sequences","schedules","configurations"],"all data sets, options, tie-breakings and approximation errors of the backend, allocation-failure patterns, interleavings, integer-type configurations",
 "The tests run a few dozen hand-made data sets through the built-in backend with its own tie-breaking, no faults and one client.",
 ["src/nng_clustering.c","src/nng_core.c","src/nng_findseeds.c","src/nng_batch_clustering.c","src/digraph_operations.c"],
 [("per-type neighbour graphs, self-match repair, union/difference","iscc_get_nng_with_type_constraint, iscc_ensure_self_match"),("seed selection over disjoint neighbourhoods","iscc_find_seeds"),("batch assignment","iscc_run_nng_batches")],
 ["scc_sc_clustering","scc_get_cluster_labels","scc_get_clustering_info"])
p("C02","No point is silently left out",
 "On success, when no radius limits apply, every primary point is assigned to a cluster unless the caller asked to ignore unassigned primary points; and when a secondary assignment method with no radius limit is requested, every point of the data set is assigned. With all points primary and any non-ignore method this means a complete partition.",
 ["inputs","fault_sequences","configurations"],"all data sets, primary subsets, seed methods, unassigned methods, type constraints, backend tie-breakings, survivable faults",
 "Coverage depends on the maximality of the seed set for every graph a backend can produce; tests compare labels for single fixed graphs.",
 ["src/nng_core.c","src/nng_batch_clustering.c","src/nng_findseeds.c"],
 [("assignment of leftovers by graph or by search","iscc_make_nng_clusters_from_seeds, iscc_assign_by_nng, iscc_assign_by_nn_search"),("preliminary labels in batch mode","iscc_run_nng_batches")],
 ["scc_sc_clustering","scc_get_cluster_labels"])
p("C03","Hierarchical clustering only splits, and splits within the size limits",
 "On success hierarchical clustering turns an empty clustering into a complete partition, and refines an existing one without ever merging clusters or labelling an unassigned point: every cluster of at least twice the size constraint is split into clusters of at least the constraint and fewer than twice the constraint, and smaller clusters keep exactly their members. Labels are exactly 0..num_clusters-1 with none unused. In unbatched mode, when a cluster consists of two groups that are far apart compared with their diameters and each hold at least the constraint, the groups are never mixed.",
 ["inputs","histories","fault_sequences","configurations"],"all data sets including duplicates and ties, all prior clusterings (any cluster largest, empty labels, unassigned points), any history of refinements, batched or not, survivable faults",
 "Tests refine a few fixed clusterings; duplicate points, ties, skewed cluster orders and repeated refinement are sampled barely or not at all.",
 ["src/hierarchical_clustering.c"],
 [("cluster stack and two-way split with markers","iscc_hi_run_hierarchical_clustering, iscc_hi_break_cluster_into_two"),("centre search","iscc_hi_find_centers")],
 ["scc_hierarchical_clustering","scc_get_cluster_labels"])
p("C04","No failure is swallowed or misreported",
 "If an allocation or the distance backend fails at any point inside a call, the call either returns success with exactly the result it would have given without the failure, or returns an error that names a cause that really occurred: out-of-memory for a failed allocation, distance-search error for a failed backend. A call during which the backend reported a failed set-up, search or distance computation never returns success.",
 ["fault_sequences","inputs","configurations"],"every allocation and backend call of every public operation, single faults, pairs, bursts, outages from some point on, size-dependent allocation failures",
 "Tests never make an allocation or a backend call fail, so no error path inside the algorithms is executed.",
 ["src/nng_core.c","src/nng_clustering.c","src/nng_findseeds.c","src/nng_batch_clustering.c","src/digraph_core.c","src/digraph_operations.c","src/hierarchical_clustering.c","src/utilities.c","src/scclust.c","src/data_set.c"],
 [("error-code propagation","all functions returning scc_ErrorCode"),("recount-and-retry when the generous arc allocation fails","iscc_digraph_union_and_delete, iscc_adjacency_product")],
 ["return codes and results of every public function"])
p("C05","A failed call changes nothing and can be retried",
 "After any call that returns an error, the clustering it was given still reports the same number of clusters and the same labels as before, the caller's options and data are untouched, and object-creating or reporting calls leave a null object or an all-zero report. Repeating the same call once the cause has gone gives exactly the result a first, undisturbed call would have given.",
 ["fault_sequences","histories","inputs"],"every failure point of every operation, any number of failures before the retry, empty and existing clusterings, internal and external label storage",
 "Tests check return codes of invalid calls but never interrupt an operation half way and look at, or reuse, what is left.",
 ["src/nng_clustering.c","src/nng_core.c","src/nng_batch_clustering.c","src/hierarchical_clustering.c","src/scclust.c","src/utilities.c","src/data_set.c"],
 [("cluster count published only on success","iscc_run_nng_batches, iscc_make_clustering_from_nng, iscc_hi_run_hierarchical_clustering"),("outputs nulled first","scc_init_*, scc_copy_clustering, scc_get_clustering_stats")],
 ["scc_get_clustering_info","scc_get_cluster_labels","retry of the failed call"])
p("C06","Resources are released exactly once on every path",
 "Every block of memory the library allocates and every search object it opens in a backend is released exactly once, whatever succeeds or fails in between; nothing is used after its release, and the arrays handed to a search object are valid and unchanged for every search made with it. After the caller has freed its objects nothing allocated by the library remains.",
 ["fault_sequences","histories","schedules","configurations"],"every failure point of every operation, failing close calls, repeated and interleaved operations, built-in, custom and ANN backends",
 "Tests are not run under a leak accountant and never take the error paths where clean-up differs.",
 ["src/nng_core.c","src/nng_findseeds.c","src/nng_batch_clustering.c","src/digraph_core.c","src/digraph_operations.c","src/hierarchical_clustering.c","src/utilities.c","src/scclust.c","src/data_set.c","src/dist_search_imp.c","examples/ann/ann_wrapper.cpp"],
 [("manual free on each exit","all allocating functions"),("open/close pairing of search objects","iscc_make_nng, iscc_make_nng_clusters_from_seeds, scc_nng_clustering_batches, iscc_hi_find_centers")],
 ["allocator and backend call history"])
p("C07","Memory-safe, and independent of what memory contained",
 "No call made with valid arguments reads or writes outside the memory it owns or was given, whatever fails during it, and no result depends on the previous contents of freshly allocated memory or on where it lies.",
 ["inputs","fault_sequences","histories","configurations"],"all valid inputs including extreme sizes and degenerate data, all fault sequences, all heap contents, all integer-type configurations",
 "Tests run with the heap as it happens to be and no checker; stale memory is usually zero and small overruns go unnoticed.",
 ["src/hierarchical_clustering.c","src/nng_core.c","src/nng_batch_clustering.c","src/digraph_operations.c","src/nng_findseeds.c","src/utilities.c"],
 [("buffer sizing","work area, seed capacity growth, arc storage, out_indices"),("initialisation of markers and counters","row_markers, vertex_markers")],
 ["heap checker, results under different heap contents"])
p("C08","Distance backends are called within their contract",
 "Every call the library makes to a distance backend is well formed: a data set handle passed through untouched, non-empty index lists with every index inside the data set, no more neighbours requested than points searched, a positive radius whenever a radius is used, output buffers large enough for any legal answer, and only handles that the backend itself returned and that are still open.",
 ["inputs","fault_sequences","histories","configurations"],"all operations, options, sizes (including products beyond 32 bits), prior failures",
 "Tests only use the built-in backend, which trusts its arguments.",
 ["src/dist_search.h","src/nng_core.c","src/nng_batch_clustering.c","src/hierarchical_clustering.c","src/utilities.c"],
 [("argument construction at each call site","callers of iscc_nearest_neighbor_search, iscc_get_max_dist, iscc_get_dist_rows, iscc_get_dist_matrix")],
 ["scc_set_dist_functions callbacks"])
p("C09","Backend installation is exact and all-or-nothing",
 "After any sequence of installations and resets, every distance operation goes to the function most recently installed for it, or to the built-in one after a reset. Functions passed as null leave the installed one in place, and an installation that is refused (an incomplete search-object triple) changes nothing.",
 ["histories","inputs"],"all sequences of installs (any subset of functions), refused installs and resets, interleaved with clustering calls",
 "No test calls the installation functions.",
 ["src/scclust_spi.c","src/dist_search.h","include/scclust_spi.h"],
 [("function table","iscc_dist_functions"),("set/reset","scc_set_dist_functions, scc_reset_dist_functions")],
 ["callbacks actually invoked"],
 [{"name":"function table","meaning":"currently installed backend","where":"src/scclust_spi.c"}])
p("C10","Results do not depend on history or on interleaved clients",
 "The result of a call depends only on its arguments and on the installed backend: not on earlier calls, successful or failed, nor on other clients' calls that run partly before, during or after it with their own objects, nor on which of them fail.",
 ["schedules","histories","fault_sequences"],"all interleavings of several clients at allocator and backend calls, all earlier histories, faults hitting other clients only",
 "Tests are single-client and each starts in a fresh fixture.",
 ["src/error.c","src/scclust_spi.c","src/nng_core.c","src/hierarchical_clustering.c"],
 [("no mutable state outside caller-owned objects except error record and function table","all sources")],
 ["results of interleaved calls compared with undisturbed calls"],
 [{"name":"latest error record","meaning":"last error","where":"src/error.c"}])
p("C11","Every failure can be explained to the user",
 "After a call returns an error, the latest-error text exists, is not the 'no error' text, and does not describe a different error code. The text written into the caller's buffer is always terminated, is a prefix of the full text, and never exceeds the given length; a null or zero-length buffer is refused.",
 ["fault_sequences","histories","inputs"],"every way any operation can fail, every buffer length, any history of failures, recovered failures and successes",
 "Tests look at a few direct error constructions, not at errors raised deep inside operations after recovered failures.",
 ["src/error.c","src/error.h","src/digraph_operations.c"],
 [("error record set at the raising site","iscc_make_error__"),("record reset before a retry","iscc_reset_error")],
 ["scc_get_latest_error"])
p("C12","Shipped distance backends are exact, or say they failed",
 "The built-in and the ANN backend, for any search set, query set, neighbour count and radius, return exactly the k nearest points in ascending order for exactly those queries that have k points within the radius, exact farthest points and exact distances, also when query and output lists share storage; or they return failure and release everything (two leaks in the ANN example wrapper are recorded as known findings). Several open search objects do not disturb each other.",
 ["inputs","fault_sequences","histories"],"all data (duplicates, ties, points exactly at the radius), search and query subsets, open/search/close histories with failing allocations",
 "Tests cover fixed data; ANN wrapper error paths and several open objects are not tested.",
 ["src/dist_search_imp.c","examples/ann/ann_wrapper.cpp"],
 [("bounded insertion sort","iscc_add_dist_to_list, iscc_imp_nearest_neighbor_search"),("kd-tree wrapper","iscc_ann_nearest_neighbor_search")],
 ["backend functions through the installed interface"])
p("C13","Clustering checks and statistics are exact, or an error",
 "The clustering check reports OK if and only if labels are in range, listed primary points are assigned, and every cluster meets the size and type constraints; the statistics equal what the labels and the backend's distances imply (counts, sizes, sums, minima, maxima, averages). If anything fails they return an error and a false or all-zero report, and they never modify what they inspect.",
 ["inputs","fault_sequences","configurations"],"all clusterings (empty clusters, singletons, unassigned points, out-of-range labels), options, metrics, failure points",
 "Tests compare a few fixed clusterings.",
 ["src/utilities.c"],
 [("counting and distance loops","scc_check_clustering, scc_get_clustering_stats")],
 ["scc_check_clustering","scc_get_clustering_stats"])
p("C14","Clustering and data set objects behave as values",
 "Any history of creating, copying, inspecting, clustering and freeing objects behaves like a simple model: a deep copy or copied clustering is independent of its source, caller-supplied label arrays are used in place and never freed, label export truncates or pads with 'unassigned', freeing is idempotent and nulls the pointer, and a creation that fails yields no object.",
 ["histories","fault_sequences","inputs"],"all operation sequences on several objects, label lengths shorter/longer than the data, allocation failures anywhere",
 "Tests exercise each call in isolation.",
 ["src/scclust.c","src/data_set.c","src/clustering_struct.h"],
 [("ownership flag for labels","external_labels"),("version and bounds checks","scc_is_initialized_clustering, scc_is_initialized_data_set")],
 ["all object functions"])
p("C15","Batch size never shows in the result",
 "In batch mode the clustering is the same for every batch size, down to the labels. With no duplicate points and unassigned points ignored it is also the same clustering that lexical seeding gives.",
 ["inputs","configurations","schedules"],"all data sets, radii, primary subsets, unassigned methods, pairs of batch sizes, cut points between batches",
 "Tests compare a few batch sizes on fixed data.",
 ["src/nng_batch_clustering.c"],
 [("batch loop","iscc_run_nng_batches")],
 ["scc_sc_clustering with different batch_size"])
p("C16","Clusters are a maximal packing of neighbourhoods, in the documented order",
 "Ignoring leftover assignment, every cluster is exactly one primary seed point together with its nearest neighbours that meet the constraints, clusters are disjoint, and no further eligible point's neighbourhood could be added. Seeds are chosen in the order the chosen method documents: by point number (lexical, batches), by fewest incoming arcs, by fewest incoming arcs from points not yet assigned or considered, by fewest exclusion-graph edges, or by fewest remaining exclusion-graph edges.",
 ["inputs","fault_sequences","configurations"],"all neighbour graphs a backend can produce, all seed methods, type constraints, primary subsets, radii, survivable allocation failures",
 "Tests fix one graph and one expected output per method.",
 ["src/nng_findseeds.c","src/nng_core.c","src/digraph_operations.c","src/nng_batch_clustering.c"],
 [("greedy independent set","iscc_findseeds_lexical, iscc_findseeds_inwards, iscc_findseeds_exclusion"),("bucket order maintenance","iscc_fs_sort_by_inwards, iscc_fs_decrease_v_in_sort")],
 ["scc_sc_clustering","backend answers"])
p("C17","Every call finishes in bounded work",
 "Every call returns after a number of allocations and backend calls bounded by the size of the problem, for any data including duplicates and ties, any legal backend answers and any fault sequence; once faults stop, the repeated call finishes within the work of an undisturbed call.",
 ["inputs","fault_sequences","schedules"],"all inputs incl. degenerate data, backend answers, fault sequences",
 "Tests cannot show that no input or fault makes a loop run away.",
 ["src/hierarchical_clustering.c","src/nng_core.c","src/nng_findseeds.c","src/nng_batch_clustering.c"],
 [("loops driven by markers, stacks and batches","iscc_hi_find_centers, iscc_hi_get_next_dist, iscc_run_nng_batches")],
 ["number of allocator and backend calls per operation"])
p("C18","Radius limits are honoured",
 "With a seed radius, every cluster is built around a seed that has its core members within that radius; a leftover point assigned by a closest-point method under a primary or secondary radius (supplied, inherited or estimated) lies within that radius of the point or seed it was matched to, and a point for which nothing lies within the radius stays unassigned. A neighbour-based assignment is limited by the seed radius.",
 ["inputs","configurations","fault_sequences"],"all combinations of seed, primary and secondary radii and methods, points exactly at the radius, survivable faults",
 "Tests fix few combinations; combinations where the radii differ are missing.",
 ["src/nng_core.c","src/nng_clustering.c","src/nng_batch_clustering.c","src/dist_search_imp.c"],
 [("radius resolution","iscc_make_clustering_from_nng"),("radius search","iscc_assign_by_nn_search"),("radius estimation","iscc_estimate_avg_seed_dist")],
 ["scc_sc_clustering","backend distances"])
p("C19","Capacity limits are reported, never wrapped",
 "For every number of points an address space can hold, a problem that exceeds the configured integer types (points, clusters, neighbour arcs) or whose buffer sizes exceed memory is refused with too-large or out-of-memory and leaves the clustering unchanged; one that fits is solved with the same guarantees as any other. No size computation wraps around.",
 ["inputs","configurations","fault_sequences"],"all sizes around every configured limit, narrow and wide type configurations, size products beyond 32 bits",
 "Limits of the 32/64-bit configurations tested are too large to reach with real data in a unit test.",
 ["src/digraph_core.c","src/digraph_operations.c","src/nng_findseeds.c","src/nng_batch_clustering.c","src/hierarchical_clustering.c","src/scclust.c","src/data_set.c","templates/scclust_types.h"],
 [("limit checks","iscc_init_digraph, iscc_change_arc_storage, iscc_fs_add_seed, iscc_run_nng_batches, iscc_hi_run_hierarchical_clustering, scc_init_*")],
 ["return codes and results at the limits"])
p("C20","Leftover points go to the cluster the caller asked for",
 "A point outside all cluster cores ends up, under neighbour assignment, in a cluster whose core holds one of its own neighbours; under closest-assigned, in the cluster of the nearest core point; under closest-seed, in the cluster of the nearest seed; and points the primary method leaves unassigned follow the secondary method. With an exact metric backend and all points primary, no two members of a cluster are farther apart than four times the longest neighbour distance (two times for size two with updated inward ordering).",
 ["inputs","configurations","fault_sequences"],"all data sets, primary subsets, type constraints, seed and unassigned methods, radii, survivable faults",
 "Tests compare fixed labellings.",
 ["src/nng_core.c","src/nng_batch_clustering.c","src/nng_findseeds.c"],
 [("leftover assignment","iscc_assign_by_nng, iscc_assign_by_nn_search, iscc_run_nng_batches")],
 ["scc_sc_clustering","backend distances"])
p("C21","Malformed requests are refused before any work",
 "A call with an invalid argument (null or uninitialised objects, mismatching sizes, unknown methods, non-positive radius, unsorted primary points, inconsistent type information, unsupported combinations) returns the documented error class without calling the backend's search functions, changing any object, or leaking anything, at any point of any history.",
 ["histories","inputs","fault_sequences"],"all single corruptions of otherwise valid requests injected anywhere into client histories",
 "Tests cover the option table once, not in the middle of histories nor with effects on objects and backend observed.",
 ["src/utilities.c","src/nng_clustering.c","src/hierarchical_clustering.c","src/scclust.c","src/data_set.c"],
 [("argument checks","iscc_check_cluster_options and heads of public functions")],
 ["return codes, backend call history"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['statement'].split('. '))<=3,(x['id'],len(x['statement'].split('. ')))
print(len(P))
