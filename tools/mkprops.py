#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the list stays in step with the checks)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech])))

prop('C01', 'Iterating a region or cluster yields exactly its own points and values',
     'Iterating any region, cluster, error map or stacked view yields every point that belongs to it exactly once, in row-major order, paired with the value or series stored there, and an iteration, completed or left early, can be repeated from the start any number of times. Flat point listings and list/matrix exports agree with that iteration, and asking a cluster for a point outside it is refused with an error. Time and area subsets contain exactly the requested samples and points, keep cluster membership and view type, and never alter the region they came from.',
     ['histories', 'inputs'],
     'Every sequence of create / decorate / subset / iterate operations over every region shape, membership and data.',
     'Tests iterate one or two fixed regions once; they do not compose views, interleave full iterations on different views of the same data, or vary shapes.',
     ['spta/region/base.py', 'spta/region/spatial.py', 'spta/region/temporal.py', 'spta/region/scaling.py', 'spta/model/error.py'],
     [('self-resetting point cursor', 'spta/region/base.py BaseRegion.__next__'), ('cluster iteration filter', 'spta/region/temporal.py SpatioTemporalCluster.__next__'), ('polymorphic subset construction', 'spta/region/spatial.py new_spatial_region / new_spatio_temporal_region')],
     [('point cursor', 'next point of the running iteration', 'spta/region/base.py')])

prop('C02', 'A partition covers every point once; merging clusters restores the region',
     'In a crisp partition every point of the region is a member of exactly one cluster, and all ways of asking (point membership, index membership, cluster sizes, cluster iteration, clusters touching an area and their medoids) agree. Merging the clusters of a partition, given in any order, yields at every point the value of the cluster that owns it. Merging with representatives puts at every point the value held by the representative of its own cluster, and a set of clusters that is incomplete, duplicated or whose representative is not a member is refused.',
     ['inputs', 'histories'],
     'Every membership assignment, region shape, cluster order, query area and representative choice.',
     'Tests use one 2-3 cluster layout in index order; agreement between the query forms and out-of-order merges are never compared.',
     ['spta/region/partition.py', 'spta/region/spatial.py', 'spta/region/temporal.py'],
     [('membership matrix', 'spta/region/partition.py PartitionRegionCrisp'), ('merge by owner', 'spta/region/partition.py merge_clusters_2d / merge_with_representatives_2d')],
     [('membership matrix', 'cluster index of each point', 'spta/region/partition.py')])

prop('C03', 'Per-point functions act on each member point only and keep the kind of region',
     'Applying a per-point function to a region gives, at every point that belongs to it, the result of the function at that same point on the value stored there, and leaves points outside a cluster untouched by the function. The result has the shape of the input and the requested length, and stays a cluster or scaled view of the same partition when the input was one. Searching for the minimum or maximum considers exactly the member points, ignores undefined values, and reports a point that really holds the extreme value.',
     ['inputs', 'histories'],
     'Every region kind, stack of views, function assignment, output length and data including undefined values.',
     'Tests apply one constant function to a couple of regions; position-dependent functions on clusters of scaled regions, and undefined values, are not sampled.',
     ['spta/region/function.py', 'spta/region/spatial.py', 'spta/region/temporal.py', 'spta/region/scaling.py'],
     [('visitor dispatch', 'spta/region/function.py apply_to'), ('application over own iterator', 'spta/region/spatial.py apply_function_scalar / apply_function_series')])

prop('C04', 'Scaling to [0,1] is per point and always undone exactly, through any view',
     'Scaling maps every point\'s own series linearly onto [0,1] using only that series\' minimum and maximum (a constant series becomes zeros, a fully undefined one stays undefined). Whatever sequence of time subsets, area subsets, clustering, repetition or function application follows, undoing the scaling returns the values in original units of exactly the points and samples that are left, and the result no longer claims to be scaled. The stored minima and maxima always belong to the points they are attached to, also when written to disk.',
     ['inputs', 'histories'],
     'Every data set, and every sequence of scale / subset / cluster / repeat / apply / undo operations.',
     'Tests undo scaling right after applying it or through one decorator; longer chains, combined time+area subsets and saved scaling data are not covered.',
     ['spta/region/scaling.py', 'spta/region/temporal.py', 'spta/region/metadata.py'],
     [('per-point min/max maps', 'spta/region/scaling.py ScaleFunction / SpatioTemporalScaled'), ('chain-of-responsibility undo', 'spta/region/temporal.py SpatioTemporalDecorator.descale')],
     [('scale minima / maxima', 'original range of each point', 'spta/region/scaling.py')])

prop('C05', 'Relative and absolute coordinates always name the same place',
     'Positions relative to a query area, positions relative to the study region and absolute dataset positions convert into one another by the area and region offsets, consistently for points, flat indices and rectangles. The data delivered for a point of a sub-area is the data of that same absolute place in the underlying dataset.',
     ['inputs', 'configurations'],
     'Every study region offset and shape, query area inside it, point and flat index.',
     'Tests convert a few points of one square region; non-square regions, offsets with nested areas and the link to the delivered data are not enumerated.',
     ['spta/region/metadata.py', 'spta/solver/result.py', 'spta/kmedoids/__init__.py', 'spta/classifier/train_input.py'],
     [('offset arithmetic', 'spta/region/metadata.py absolute_position_of_point / index_to_absolute_point'), ('nested offsets', 'spta/solver/result.py')])

prop('C06', 'Dataset retrieval returns the requested years whether cached or not',
     'Asking for a range of years at one or four samples per day returns exactly the samples of those calendar years, leap years included, with daily values being the mean of that day\'s four samples, and invalid ranges are refused. The result is the same whether it comes from the source or from a previously saved copy, whatever was requested before and whether saved copies were deleted or became unreadable in between. Creating a region from its description always gives the described area, scaled or not as described, and carries that description.',
     ['histories', 'inputs', 'fault_sequences'],
     'Every sequence of retrievals of year ranges and resolutions, interleaved with deletion or corruption of saved copies.',
     'The tests have no dataset; they check two year-to-sample conversions and never exercise the cache.',
     ['spta/dataset/temp_brazil.py', 'spta/util/maths.py', 'spta/region/metadata.py'],
     [('saved copy keyed by years and resolution', 'spta/dataset/temp_brazil.py retrieve_dataset_interval'), ('calendar arithmetic', 'spta/util/maths.py years_to_series_interval')],
     [('saved copies', 'one file per (years, samples per day)', 'raw/*.npy')])

prop('C07', 'k-medoids ends in a cost-consistent local optimum and is reproducible',
     'A k-medoids run returns k distinct medoids taken from the data, assigns every series to a nearest medoid (each medoid to itself), and reports a total cost equal to the sum of those distances. Along the run the cost only decreases, it never ends above the cost of the initial medoids, and unless the iteration limit stopped it no swap of a medoid with an eligible candidate (members of its own cluster in the light mode, all series in the robust mode) improves the cost by more than the tolerance. The same data, settings and seed give the same result, whether distances come from a precomputed matrix or are measured on the fly.',
     ['inputs', 'configurations', 'histories'],
     'Every distance structure, k, mode, seed, initial medoids, tolerance and iteration limit.',
     'Tests run three fixed data sets and compare the final medoids; optimality, cost consistency and the mode-specific candidate sets are never checked.',
     ['spta/kmedoids/kmedoids.py', 'spta/kmedoids/__init__.py', 'spta/clustering/kmedoids.py'],
     [('swap loop', 'spta/kmedoids/kmedoids.py run_kmedoids'), ('nearest-medoid labels', 'spta/kmedoids/kmedoids.py _get_cost')],
     [('medoids', 'current representatives', 'spta/kmedoids/kmedoids.py'), ('total cost', 'sum of distances to nearest medoid', 'spta/kmedoids/kmedoids.py')])

prop('C08', 'Fuzzy memberships are normalised and threshold masks are nested',
     'A fuzzy k-medoids run gives each series non-negative memberships that add up to one, full membership of a medoid in its own cluster and otherwise larger membership in nearer medoids (inverse to the distance when m is two), and a cost that never ends above that of its initial medoids and that, unless the iteration limit stopped the run, exchanging a medoid for another series cannot lower by more than the tolerance. A thresholded mask contains a point exactly when its membership is within the threshold of its best membership: threshold zero keeps only best clusters, threshold one keeps all, and raising the threshold never removes a point. Mask iteration, size and membership queries agree, and out-of-range thresholds or cluster indices are refused.',
     ['inputs', 'configurations'],
     'Every data set, k, fuzziness, seed, membership matrix, threshold and cluster index.',
     'Tests check two masks at three thresholds and one fuzzy run; monotonicity and normalisation over arbitrary matrices are universal statements.',
     ['spta/kmedoids/kmedoids_fuzzy.py', 'spta/region/mask.py'],
     [('membership update', 'spta/kmedoids/kmedoids_fuzzy.py'), ('threshold test', 'spta/region/mask.py MaskRegionFuzzy.is_member')])

prop('C09', 'A regular partition tiles the region with k non-empty rectangles',
     'For every k that a region can hold, the regular partition splits the region into exactly k non-empty axis-aligned rectangles numbered 0 to k-1 along the region, using the most balanced factorisation of k, whose side lengths along an axis differ by at most the leftover of that axis. Each reported medoid belongs to its own rectangle and minimises the sum of distances to the members of that rectangle.',
     ['inputs', 'configurations'],
     'Every region shape and every k whose balanced factors fit in it.',
     'Tests compare a handful of (shape, k) results; uneven divisions and orientation have no general oracle there.',
     ['spta/util/arrays.py', 'spta/util/maths.py', 'spta/clustering/regular.py', 'spta/region/partition.py'],
     [('balanced divisors', 'spta/util/maths.py'), ('regular labelling', 'spta/util/arrays.py regular_partitioning')])

prop('C10', 'Distances, centroids and cluster costs agree with the series they describe',
     'A distance matrix computed for a region is symmetric with a zero diagonal and holds, at each pair of points, the dynamic-time-warping distance of their two series, whichever implementation computes it. A matrix of the wrong size is refused, a missing one is reported without inventing distances, and spatial weights are added exactly once however often the measure is used. Distances to a point and the centroid are taken only among the points of the region or cluster asked about, the centroid minimising the sum of distances, and the intra-cluster cost is the sum of squared distances of members to their own medoid; when several distances are combined into one figure, an undefined one is never passed over as if it were not there.',
     ['inputs', 'histories'],
     'Every data set, region or cluster, and every sequence of load / compute / weight / query operations on a distance measure.',
     'Tests use one precomputed matrix and one cluster; the life cycle of the stored matrix and centroid minimality over clusters are not explored.',
     ['spta/distance/__init__.py', 'spta/distance/dtw.py', 'spta/distance/dtw_parallel.py', 'spta/region/centroid.py', 'spta/region/partition.py'],
     [('matrix life cycle', 'spta/distance/__init__.py load_distance_matrix_2d / distances_to_point'), ('minimum sum search', 'spta/region/centroid.py'), ('weighted flag', 'spta/distance/dtw.py DistanceBySpatialDTW')],
     [('distance matrix', 'cached distances of the current region', 'spta/distance/__init__.py')])

prop('C11', 'Saved partitions are only ever reused for the settings that produced them',
     'Asking for a partition with a storage location returns what the clustering would compute, whether it is computed now or read back, and a saved partition (memberships and medoids) is returned only for the same storage location, region, distance, algorithm, number of clusters, seed, mode and initial medoids. A missing or unreadable saved partition is recomputed and saved again, and nothing is stored when no location is given; the report written with a partition lists the number and percentage of points of each of its clusters. A clustering description is recovered exactly from its textual form, and descriptions that differ in any of these settings are different, both in text and when compared.',
     ['histories', 'configurations', 'fault_sequences'],
     'Every sequence of partition requests over settings and locations, interleaved with deletion or corruption of stored files.',
     'Tests stub out storage or round-trip one textual form; no test requests two different settings against the same store.',
     ['spta/clustering/__init__.py', 'spta/clustering/kmedoids.py', 'spta/clustering/regular.py', 'spta/clustering/factory.py', 'spta/region/partition.py'],
     [('path derived from settings', 'spta/clustering/__init__.py pickle_full_path'), ('try-load then compute', 'spta/clustering/__init__.py ClusteringAlgorithm.partition')],
     [('stored partitions', 'file per settings', 'pickle/<region>/<distance>/<clustering>/')])

prop('C12', 'A clustering suite covers all combinations and finds the elbow of each seed',
     'A clustering suite contains each combination of cluster count and seed exactly once, and organising it groups every element under its own seed in increasing number of clusters. The elbow reported for each seed is, among that seed\'s interior cluster counts only, one where the discrete second derivative of the intra-cluster cost is largest, each cost being that of the partition with exactly those settings. Results of a suite written to its report file are read back as the same medoids, in order, for each clustering.',
     ['configurations', 'inputs'],
     'Every set of cluster counts (unevenly spaced, in any order), seeds, costs and medoid lists.',
     'Tests use a single seed with hand-made costs; several seeds, unordered counts and ties between seeds are not exercised.',
     ['spta/clustering/suite.py', 'spta/clustering/factory.py', 'spta/region/partition.py', 'spta/kmedoids/__init__.py'],
     [('cartesian product', 'spta/clustering/suite.py ClusteringSuite'), ('second derivative search', 'spta/clustering/suite.py FindSuiteElbow')])

prop('C13', 'Training uses only training samples, only at representatives, for whole clusters',
     'Splitting keeps every series intact: training samples followed by exactly the requested number of test samples, with no overlap and no loss. Models evaluated on the test samples are trained without seeing them, only at the cluster representatives, and each point is assigned the model trained at the representative of its own cluster; the models for future forecasts are refitted on the whole series with the settings found in training. A point whose model cannot be trained is counted as missing, gives an undefined forecast, and does not disturb any other point.',
     ['inputs', 'configurations'],
     'Every data set, test length, partition, medoid set and trainer, including trainers that fail at some points.',
     'Tests train on one region with fixed test lengths; independence of models from test data and from other clusters is a universally quantified (non-interference) statement.',
     ['spta/model/train.py', 'spta/model/base.py', 'spta/solver/train.py', 'spta/arima/train.py', 'spta/arima/model.py', 'spta/model/mean.py'],
     [('split by time interval', 'spta/model/train.py SplitTrainingAndTestLast'), ('training only at representatives', 'spta/model/train.py TrainAtRepresentatives'), ('replication over clusters', 'spta/solver/train.py replicate_representative_models'), ('refit', 'spta/arima/train.py TrainerRefitArima')])

prop('C14', 'Forecast errors compare each forecast with its own observation in original units',
     'The error at a point compares the forecast and the observation of that same point over the same samples, in original units even for scaled data, and the overall error is the root mean square over the member points, ignoring undefined ones. Repeating one forecast over a region, or evaluating every point\'s forecast as a representative of all points, gives the errors of exactly that forecast against every member\'s own observation. The summary reports the errors of the best, locally best, centroid and worst representative consistently with those maps, and unknown error types or requests of a different length are refused.',
     ['inputs', 'configurations', 'histories'],
     'Every forecast, observation and training data, error type, region kind (plain, scaled, cluster) and request order.',
     'Tests compare a few numbers on constant data; swapped axes, wrong point, unit mixing or order of requests are not distinguishable there.',
     ['spta/model/error.py', 'spta/model/forecast.py', 'spta/util/error.py', 'spta/util/arrays.py'],
     [('per-point measurement', 'spta/model/error.py MeasureForecastingError'), ('representative errors', 'spta/model/error.py OverallErrorForEachForecast'), ('analysis summary', 'spta/model/forecast.py ForecastAnalysis')])

prop('C15', 'A solver answers each point with its cluster representative, in any order',
     'Asked for an area, a solver gives at each point the forecast of the model of the cluster that owns the point: with no requested length the training-time models over the held-out samples together with those samples, otherwise the refitted models over the requested number of future samples. Errors shown are the errors measured during training at those same points, and forecasts and observations are in original units for scaled regions. An answer depends only on the question, never on the questions asked before it.',
     ['histories', 'inputs', 'configurations'],
     'Every sequence of queries (areas, lengths, in-sample or future) on every trained solver.',
     'No test trains and queries a solver end to end; order independence over query histories is a universal statement.',
     ['spta/solver/model.py', 'spta/solver/train.py', 'spta/solver/result.py'],
     [('model selection by query kind', 'spta/solver/model.py predict'), ('area subsetting of models and errors', 'spta/solver/model.py predict')],
     [('prepared flag', 'observation data loaded', 'spta/solver/model.py')])

prop('C16', 'A saved solver answers like the one saved, and stores never mix settings',
     'A solver that is saved and loaded again answers every query exactly like the original, even if the stored partition was deleted in between. Solvers that differ in region, scaling, clustering, distance, model settings, held-out length or error type never overwrite or serve one another\'s stored models and errors. Loading a solver that was never saved fails instead of returning something else.',
     ['histories', 'configurations', 'fault_sequences'],
     'Every sequence of train / save / load / query operations over several settings sharing one store, with partition files removed in between.',
     'No existing test saves a solver; isolation between settings concerns all pairs of settings and orders of operations.',
     ['spta/solver/model.py', 'spta/solver/metadata.py', 'spta/clustering/__init__.py'],
     [('file naming by settings', 'spta/solver/metadata.py trained_model_region_filename; spta/solver/model.py SolverPickler')],
     [('stored models', 'training / whole model regions and errors', 'pickle/<region>/<distance>/<clustering>/')])

prop('C17', 'Query reports say exactly what the query answered',
     'A query report lists each point of the queried area once, with its absolute position, the cluster and representative (or classifier label) that answered it, its error, and exactly the requested number of forecast samples, plus the observed samples for held-out queries and none for future ones. The summary agrees with the per-point report: number of points, distinct clusters touched, overall error and how far the held-out series of the area are from those of their representatives. Reports of different queries or settings never overwrite one another.',
     ['inputs', 'configurations', 'histories'],
     'Every solver, query area, length and sequence of reports written to one output location.',
     'Tests check a few string outputs with stubs; agreement of rows, summary and positions is not checked for arbitrary areas.',
     ['spta/solver/result.py', 'spta/solver/metadata.py'],
     [('row and summary builders', 'spta/solver/result.py'), ('file naming', 'spta/solver/metadata.py csv_filename')])

prop('C18', 'Medoid choice is optimal among available medoids and respects the usage limit',
     'For each point, the chosen medoid has the smallest score among all medoids of the suite that have not reached the usage limit, the usage record is increased for exactly that medoid, and no medoid is ever chosen more often than the limit. When every medoid is exhausted the request is refused, and choices never alter the distances or results they are based on. Sampled training points are distinct from every medoid and lie inside the region, reproducibly for a given seed.',
     ['histories', 'inputs', 'configurations'],
     'Every suite, sequence of points, limit, and scores (distances or forecast errors).',
     'Tests choose for one or two points with a stub; the limit is an invariant over unbounded sequences of choices.',
     ['spta/classifier/train_input.py', 'spta/util/maths.py'],
     [('score minimisation', 'spta/classifier/train_input.py choose_medoid'), ('limit suppression', 'spta/classifier/train_input.py supress_medoids_that_reached_threshold'), ('blacklist sampling', 'spta/util/maths.py random_integers_with_blacklist')],
     [('usage record', 'times each medoid was chosen', 'spta/classifier/train_input.py')])

prop('C19', 'Sliding windows enumerate every contiguous window exactly once',
     'Cutting a series into windows yields every contiguous window of the requested length at the requested stride, in order, with unchanged values. For labelled tables each row yields exactly its own windows, in row order, each keeping the label of its row and its offset within that row.',
     ['inputs'],
     'Every series length, window length, stride, number of labelled rows and (possibly repeated) labels.',
     'Tests use two small tables and one series; boundary lengths and repeated labels are sampled at most once.',
     ['spta/util/arrays.py', 'spta/classifier/sliding_window.py'],
     [('window extraction', 'spta/util/arrays.py sliding_window; spta/classifier/sliding_window.py')])

prop('C20', 'Baseline forecasts are the mean of the past and of the k nearest windows',
     'The mean baseline forecasts, at every point and for every requested sample, the mean of the last samples of that point\'s own training series. The nearest-neighbour baseline forecasts the element-wise mean of k earlier windows none of which is farther from the last window than any window left out, and refuses when fewer than k earlier windows exist. Both use only training data and give forecasts of exactly the requested length.',
     ['inputs', 'configurations'],
     'Every training series, past length, k, forecast length and distance.',
     'Tests check single examples; the optimality of the neighbour set for all series is not sampled.',
     ['spta/model/mean.py', 'spta/model/knn.py', 'spta/model/base.py'],
     [('mean of last samples', 'spta/model/mean.py'), ('nearest window selection', 'spta/model/knn.py find_k_nearest_neighbors')])

prop('C21', 'A classifier-driven solver answers with the model its label names',
     'For each point of a query the classifier is given the last samples of that point\'s own series (in the out-of-sample region, if that query names one), and the point is answered with the held-out-sample forecast of the model stored for exactly the clustering and cluster that the returned label names, whatever labels other points or earlier queries had. Errors compare that forecast with the point\'s own observation, and forecast and observation are in original units. Each stored solver is loaded at most once, and a label naming a solver that was never stored is an error.',
     ['histories', 'inputs', 'configurations'],
     'Every assignment of labels to points, sequence of queries, suite of stored solvers, scaled or not.',
     'Tests map one stub label for a 2x2 region; mixtures of labels over several stored solvers and repeated queries are not exercised.',
     ['spta/classifier/model.py', 'spta/solver/result.py', 'spta/clustering/kmedoids.py'],
     [('label to settings', 'spta/clustering/kmedoids.py from_classifier_label'), ('solver cache', 'spta/classifier/model.py retrieve_model_for_solver')],
     [('loaded solvers', 'cache by settings', 'spta/classifier/model.py')])

prop('C22', 'Parallel computations give the serial result under every schedule',
     'Distance matrices and representative-error maps computed with parallel workers equal the ones computed serially, for any number of workers and any order in which the workers execute and complete the tasks. Every task writes exactly its own result, none is lost, and running a parallel computation neither modifies its inputs nor is affected by an earlier one.',
     ['schedules', 'inputs'],
     'Every interleaving and assignment of tasks to workers, region shape and data (including undefined values), on regions and clusters.',
     'Tests run one pool once on one machine schedule; the claim is about all interleavings.',
     ['spta/util/parallel.py', 'spta/model/error_parallel.py', 'spta/distance/dtw_parallel.py', 'spta/model/error.py'],
     [('disjoint writes to a shared array', 'spta/util/parallel.py inter_points_task_wrapper'), ('task generation', 'spta/util/parallel.py InterPointsOperation.operate; spta/model/error_parallel.py')],
     [('shared output array', 'one cell per task', 'spta/util/parallel.py')])

prop('C23', 'Silhouette analysis scores partitions correctly and selects the best',
     'The silhouette analysis of a suite evaluates each clustering of the suite exactly once on its own partition, reports for it the mean silhouette coefficient of that partition under the region\'s distances, and names as best a clustering with the highest reported score.',
     ['inputs', 'configurations'],
     'Every suite, region, distance structure.',
     'No test runs the analysis; the best-so-far logic holds for all score sequences or not at all.',
     ['spta/clustering/silhouette.py', 'spta/kmedoids/silhouette.py', 'experiments/clustering/silhouette.py', 'spta/clustering/__init__.py', 'spta/kmedoids/__init__.py'],
     [('best-score tracking', 'spta/clustering/silhouette.py SilhouetteAnalysis')])

prop('C24', 'Medoid tables list every medoid of a report and labels lead back to it',
     'The table of medoid series written for a suite has exactly one row per medoid of each clustering in the suite\'s report, with that clustering\'s number of clusters and seed, the index of the cluster, and the medoid\'s own series over all the samples (or only the requested last ones). The label of a row leads back to exactly the clustering and cluster it was written for, distinct medoids of a report get distinct labels, and tables of different suites, regions, distances or lengths never overwrite one another.',
     ['inputs', 'configurations', 'histories'],
     'Every suite, report, region, window length and sequence of tables written to one location.',
     'Tests write one table with stubs; correspondence of rows, series and labels over all reports is not sampled.',
     ['spta/classifier/train_input.py', 'spta/clustering/kmedoids.py', 'spta/clustering/suite.py'],
     [('one row per medoid', 'spta/classifier/train_input.py MedoidSeriesFormatter'), ('label to settings', 'spta/clustering/kmedoids.py from_classifier_label')])

prop('C25', 'The solver programs answer from the solver of exactly the options given',
     'Training programs store the solver of exactly the options given on the command line (documented defaults for those not given: seed 1, 8 held-out samples, sMAPE), and a query program answers from the solver of exactly its options, whatever else was trained or queried or died while training, while a query for options never trained fails without writing a report. What is printed and what is reported give each point of the queried area once, by its absolute position, with the forecast of the model of its cluster\'s representative (in the per-point programs, of its own model; in the classifier program, of the model its label names) in original units and of the requested length, the observation for held-out queries only, and the error of its own held-out forecast. Reports of different questions do not overwrite one another.',
     ['inputs', 'configurations', 'histories', 'crash_points'],
     'Every combination of options, order of options on the command line, queried area, and history of training, querying and dying programs that share a directory.',
     'No test runs a program; which stored files an answer comes from depends on every option and on the whole history of earlier runs.',
     ['experiments/auto_arima/solver.py', 'experiments/auto_arima/solver_each.py', 'experiments/baseline/solver_mean_past.py', 'experiments/baseline/solver_knn_medoids.py', 'experiments/baseline/solver_knn_each.py', 'experiments/classifier/solver_dnn.py', 'spta/solver/model.py', 'spta/solver/train.py', 'spta/solver/result.py', 'spta/model/forecast.py'],
     [('options to settings', 'experiments/auto_arima/solver.py metadata_from_args, train_request, predict_request'), ('per-point answer', 'experiments/auto_arima/solver_each.py process_request')],
     [('stored solver', 'one set of files per settings', 'spta/solver/model.py SolverPickler')])

prop('C26', 'The analysis programs write tables that are true of every clustering',
     'For every region and suite of clusterings, each analysis program writes, for every clustering of the suite exactly once, a table that is true of that clustering on the present data: its medoids and total cost, distances and forecast errors between its medoids, distance and error of each member from its medoid, error summaries of its clusters (mean of own models, best single model, extremes, medoid model, failed models), its elbows, and its medoid series with random other points and the best medoid for each. The region-wide summaries likewise compare the models of all points under each set of parameters. The tables are the same whatever other programs ran, died or run at the same time in the directory.',
     ['inputs', 'configurations', 'histories', 'schedules', 'crash_points'],
     'Every region (scaled or not), suite, option, order of options on the command line and history of finished, dead and concurrent programs that share a directory.',
     'No test runs an analysis program; the tables depend on every stored file left behind by earlier runs, for any data and suite.',
     ['experiments/clustering/partition_analysis.py', 'experiments/clustering/medoid_distances.py', 'experiments/clustering/find_elbows.py', 'experiments/clustering/extraction_lstm.py', 'experiments/auto_arima/distance_errors.py', 'experiments/auto_arima/error_between_medoids.py', 'experiments/auto_arima/training_error_analysis.py', 'experiments/arima/training_error_analysis.py', 'experiments/arima/forecast.py', 'experiments/region/distance.py', 'spta/clustering/suite.py', 'spta/model/error.py', 'spta/model/forecast.py'],
     [('table per clustering', 'experiments/*/*.py and spta/clustering/suite.py'), ('summary of a cluster', 'spta/model/error.py ErrorAnalysis')],
     [('shared files', 'distance matrices, partitions, tables', 'pickle/ and csv/ under the working directory')])

prop('C27', 'Figures show exactly the data they are drawn from',
     'Every figure a program saves shows, whether or not windows are shown before it is saved, exactly the data it is drawn from: maps of query areas (the pixel of each cell coloured by its cluster, every medoid marked in the pixel of its cell, a frame around the cells of the area and no others, its absolute corners in the title), silhouette figures (the map, the coefficients of every cell grouped by cluster with the number of the cluster beside them, the average), maps of the distances from the first cell and from the centre, and points with the distance to the medoid and the forecast error at the medoid for every member of a cluster exactly once, also when a model could not be trained. Figures of different clusterings, clusters, parameters or areas do not share a file.',
     ['inputs', 'configurations', 'histories'],
     'Every region shape and placement, partition, area, suite, set of parameters and history of programs, with or without windows.',
     'No test looks at a figure; rows and columns, x and y, clusters and colours are mixed up without any failure.',
     ['spta/util/plot.py', 'spta/solver/model.py', 'spta/clustering/silhouette.py', 'spta/kmedoids/silhouette.py', 'spta/model/forecast.py', 'experiments/region/distance.py', 'experiments/auto_arima/distance_errors.py', 'experiments/clustering/silhouette.py', 'experiments/clustering/partition_analysis.py'],
     [('pixel, mark, frame', 'spta/util/plot.py and spta/solver/model.py'), ('silhouette values', 'spta/kmedoids/silhouette.py'), ('points', 'spta/model/forecast.py ForecastAnalysis')],
     [('current figure', 'matplotlib state: open figures', 'process'), ('figure file', 'pdf/eps', 'outputs/ and plots/')])

prop('C28', 'Variance analysis describes each cluster by its own distances',
     'For every partition, the variance analysis gives every cluster exactly one panel, in their order and row by row, on a grid oriented like the region. A panel shows how often each distance of the cells of this cluster to its medoid occurs (every cell counted once), and their number, smallest (other than the medoid itself), largest, mean, median and standard deviation, also for clusters of a single cell. If random points are asked for, they are distinct cells outside the cluster (the requested number, or as many as the cluster has, but not more than there are), the numbers of them and of those nearer than the farthest member are true, and the points counted are the points shown. All panels share an axis that starts at 0 and reaches the largest distance shown, not farther. Distances of all cells of a region to a chosen one are described alike.',
     ['inputs', 'configurations', 'randomness'],
     'Every region, partition, binning, number of random points and random choice, with measured or loaded distances.',
     'No test runs the analysis; a panel of another cluster, other points, or one lost distance look plausible.',
     ['spta/distance/variance.py', 'experiments/clustering/partition_analysis.py', 'spta/util/arrays.py'],
     [('statistics of a panel', 'spta/distance/variance.py DistanceHistogram'), ('random points', 'spta/distance/variance.py decorated histograms')],
     [('figure file', 'one per partition and number of random points', 'outputs/')])

prop('C29', 'The models chosen by time and error are exactly the ones no other one beats',
     'For every table of ARIMA models with their computing times and errors, the selection returns exactly the models that no other model beats (not worse in both, and better in one of them): each once, with its row unchanged, with models of equal time and error included; models that could not be trained (undefined time or error) are ignored and the table is left as it was. When weights are swept, each compared model gets the weighted sum of its time and its error, each relative to the largest of the compared models, the factors of both are true, the model named best for a weight has the lowest cost, and the cost reported for it is its own. The program compares the models it selected from the stored table.',
     ['inputs', 'configurations'],
     'Every table: any number of models, any order, equal times or errors, models that could not be trained, every weight of the sweep.',
     'No test runs the selection; a lost or a beaten model among the best looks plausible, and it depends on order and equal values.',
     ['spta/arima/optimize.py', 'scripts/arima_pareto.sh'],
     [('archive of best models', 'spta/arima/optimize.py find_best_models'), ('costs', 'spta/arima/optimize.py sweep_cost_factors')],
     [('raw/performance.npy', 'table of models', 'raw/')])

prop('C30', 'Synthetic series and tables are what their labels say',
     'A synthetic table has exactly the requested number of rows. Each has one of the given numbers of clusters, one of the given seeds, a cluster of that clustering (0 <= index < k), and the place of a medoid inside the given region, with no more distinct medoids than asked for; its series has the requested length and is a line whose slope is (k - cluster) times the weight, rising for odd seeds and falling for even ones, that starts within the given bounds, with noise of the given deviation. The same random seed gives the same labels (and, without noise, the same series), and the stored CSV has these rows under the documented header, with the given names and three decimals. A series made from a profile has the requested length and is the profile, complete, delayed by at most 15% of the length (and at most 30 samples), padded with zeros, with 2% noise; the sine, square and gaussian profiles have the known values. In a group, series i uses function i modulo their number, and the mask of a synthetic region names the function of the series of every cell.',
     ['inputs', 'configurations', 'randomness'],
     'Every set of clusterings, number of rows and medoids, region, length, noise and random seed; every profile and number of functions.',
     'No test covers the generators; clusterings and classifiers are tried on their data, and a wrong label looks like a bad classifier.',
     ['spta/classifier/synthetic.py', 'spta/dataset/synthetic_temporal.py', 'spta/kmedoids/example1d.py', 'spta/kmedoids/example2d.py'],
     [('random state', 'spta/classifier/synthetic.py generate_synthetic_series'), ('delay', 'spta/dataset/synthetic_temporal.py delayed_function_with_noise')],
     [('synthetic CSV', 'labelled series for training a classifier', 'as given')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
