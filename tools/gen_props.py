#!/usr/bin/env python3
"""Writes properties.jsonl (the property list) and MANIFEST.json (from lib/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = hook
    PR.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

p('K01', 'Every assignment step gives each row a nearest centroid',
  'In every iteration of the unpruned k-means engines (thread based and OpenMP), each row is assigned to a cluster whose centroid, among those in force at the start of that iteration, is at minimum distance to the row under the selected metric. This holds for any data, starting centers, thread and memory-node count, and whether the data is passed in memory or read from a file.',
  ['inputs', 'configurations'], 'all data sets and starting centers; all thread/node counts, metrics, iteration counts',
  'The tests run one 50x5 matrix with one set of centers and compare two engines with each other; nearness is never checked.',
  ['libman/kmeans_coordinator.cpp', 'libman/kmeans_thread.cpp', 'libauto/kmeans.cpp', 'libkcommon/util.hpp'],
  [('per-row minimum search', 'libman/kmeans_thread.cpp EM_step'), ('OpenMP row loop', 'libauto/kmeans.cpp EM_step'), ('metric dispatch', 'libkcommon/util.hpp dist_comp_raw')],
  observe=['the returned clustering result after m iterations versus the result after m-1'])
p('K02', 'Cluster sizes and centroids agree with the reported labels',
  'In the result of a k-means run that made at least one iteration, every label names one of the k clusters, each reported cluster size is the number of rows carrying that label (so the sizes add up to the number of rows), and the centroid of every non-empty cluster is the arithmetic mean of the rows carrying its label. This holds for all four engines (thread based and OpenMP, pruned and not), every iteration count, thread count and data set.',
  ['inputs', 'configurations'], 'all data sets, starting centers, iteration counts, thread and node counts, engines',
  'Tests print the sizes and compare centroids against one stored run; the arithmetic relation is never evaluated on other inputs.',
  ['libman/kmeans_coordinator.cpp', 'libman/kmeans_task_coordinator.cpp', 'libman/kmeans_task_thread.cpp', 'libauto/kmeans.cpp', 'libauto/min-tri-kmeans.cpp', 'libkcommon/clusters.cpp'],
  [('per-thread accumulation and merge', 'update_clusters in both coordinators'), ('incremental membership swap', 'libkcommon/clusters.hpp swap_membership'), ('divide / undo divide', 'libkcommon/clusters.cpp finalize, unfinalize')])
p('K03', 'Triangle-inequality pruning never changes the k-means result',
  'With the Euclidean metric, after every iteration of the pruned engines (thread based and OpenMP) each row is assigned to a centroid at minimum distance among those in force at the start of that iteration, exactly as an exhaustive search would do (ties may be broken either way). Skipping a distance computation is never allowed to leave a row with a centroid that is not nearest, in the first or any later iteration.',
  ['inputs', 'histories'], 'all data sets, starting centers and iteration histories; all thread counts',
  'The pruned and unpruned engines are compared on one matrix; a wrong skip needs a particular geometry of rows, old and new centers.',
  ['libman/kmeans_task_thread.cpp', 'libman/kmeans_task_coordinator.cpp', 'libauto/min-tri-kmeans.cpp', 'libkcommon/dist_matrix.cpp', 'libkcommon/clusters.hpp'],
  [('upper bound and its drift', 'EM_step, prev_dist'), ('half distance between centers', 'libkcommon/dist_matrix.cpp compute_dist'), ('nearest other center', 's_val')],
  [('dist_v', 'upper bound on the distance of a row to its center', 'kmeans_task_coordinator'), ('recalculated_v', 'bound is tight in this iteration', 'thd_safe_bool_vector')])
p('K04', 'Rows are split over threads exactly once; thread count is irrelevant',
  'For every number of rows, threads and memory nodes, the row ranges given to the threads are contiguous, disjoint and cover every row exactly once, and looking up any row by its index yields exactly that row of the input no matter which thread holds it or whether the data came from a file or from memory. Running the same k-means with a different number of threads or memory nodes gives the same labels, sizes and (up to rounding) centroids.',
  ['inputs', 'configurations'], 'all row counts, thread counts, node counts and data',
  'Tests use 50 or 150 rows on 2 threads; remainders, one-row threads and other splits are not reached.',
  ['libman/coordinator.cpp', 'libman/thread.cpp', 'libman/kmeans_coordinator.cpp', 'libman/kmeans_task_coordinator.cpp', 'libman/task_thread.cpp'],
  [('range split', 'libman/coordinator.cpp get_rid_len_tup'), ('row lookup', 'libman/coordinator.cpp get_thd_data'), ('per-thread file read', 'libman/thread.cpp numa_alloc_mem')])
p('K05', 'The task queue hands out each row exactly once per round',
  'For any number of rows, the tasks a thread draws from its queue between two resets cover its rows in order, without gap or overlap, each task carrying the right first row, row count and data; once the queue is exhausted it says so and hands out no further rows. Resetting the queue makes the next round hand out the very same rows again.',
  ['inputs', 'histories'], 'all row counts and draw/reset histories',
  'The unit test walks one 50-row matrix with one task size.',
  ['libman/task_queue.hpp', 'libman/task_thread.cpp', 'libman/kmeans_task_thread.cpp'],
  [('task cursor', 'libman/task_queue.hpp get_task'), ('reset', 'libman/task_queue.hpp reset'), ('task loop', 'libman/task_thread.cpp request_task')])
p('K06', 'Workers and coordinator never lose a wake-up or stall',
  'Whatever the interleaving of the coordinator and its worker threads, every round that the coordinator starts is executed exactly once by every worker, the coordinator resumes only after all workers finished that round, and neither side waits forever. Shutting down terminates every worker.',
  ['schedules'], 'all interleavings of the coordinator and the workers over several rounds, including start-up and shutdown',
  'Tests see the few schedules the machine happens to produce; a lost wake-up needs a switch between a check and a wait.',
  ['libman/thread.cpp', 'libman/thread.hpp', 'libman/task_thread.cpp', 'libman/coordinator.cpp', 'libman/kmeans_thread.cpp', 'libman/kmeans_task_thread.cpp'],
  [('pending counter and condition', 'libman/coordinator.cpp wait4complete / wake4run'), ('worker sleep', 'libman/thread.cpp sleep, wait'), ('task worker sleep', 'libman/task_thread.cpp lock_sleep, sleep')])
p('K07', 'Pairwise distance tables return the right distance for every pair',
  'After storing or computing the table of distances between n items, looking up any two different items in either order gives the value of that unordered pair, and a write to one pair changes no other pair. The center table used for pruning holds half the Euclidean distance of each pair of centers together with, per center, the smallest such half distance; the table over data rows holds the distance of each pair in the selected metric.',
  ['inputs'], 'all table sizes, index pairs, values and data; every metric',
  'The unit test fills one table from one center file.',
  ['libkcommon/dist_matrix.cpp', 'libkcommon/dist_matrix.hpp'],
  [('triangular index translation', 'dist_matrix::translate'), ('center table', 'dist_matrix::compute_dist'), ('row table', 'dist_matrix::compute_pairwise_dist')])
p('K08', 'The distance metrics compute what their names say',
  'For vectors of any length, the Euclidean, squared Euclidean, Manhattan and cosine distances equal their definitions, and selecting a metric by name or by code applies that metric; an unknown metric or initialisation name is rejected. Each metric is non-negative, symmetric, and zero between a non-zero vector and itself; the cosine distance involving a zero vector is a number.',
  ['inputs'], 'all vectors within the value grid, all metric and initialisation names',
  'Metrics are exercised on one data set and never compared with their definitions.',
  ['libkcommon/util.hpp', 'libkcommon/util.cpp', 'libkcommon/types.hpp'],
  [('metric functions', 'libkcommon/util.hpp eucl_dist, sqeucl_dist, taxi_dist, cos_dist'), ('dispatch', 'libkcommon/util.hpp dist_comp_raw'), ('name parsing', 'libkcommon/util.cpp get_dist_type, get_init_type')])
p('K09', 'Cluster accumulators keep exact sums, counts and means',
  'After any sequence of adding, removing and moving members, merging accumulators, and switching between sum and mean form, each cluster holds exactly the sum (or, in mean form, the mean) of the members currently in it and their number. Switching to mean form twice, or back and forth, changes nothing, and clearing resets sums, counts and form.',
  ['histories', 'inputs'], 'all operation sequences up to the bound over all vectors on the grid',
  'The unit test follows one fixed sequence.',
  ['libkcommon/clusters.cpp', 'libkcommon/clusters.hpp'],
  [('add / remove / swap', 'libkcommon/clusters.hpp'), ('finalize / unfinalize', 'libkcommon/clusters.cpp'), ('merge', 'clusters::peq, operator+=, sparse_clusters::peq')])
p('K10', 'k-means++ picks centers among the rows in proportion to distance',
  'k-means++ initialisation makes every starting center a row of the data; the first is the uniformly drawn row, and each later one is the row into which a uniform draw over the cumulated distances to the nearest already chosen center falls, so a row at distance zero is not drawn while others remain, and rows far away can be drawn (draws lie strictly between 0 and 1). The labels and nearest-center distances it leaves behind are those of the chosen centers.',
  ['inputs', 'configurations'], 'all data, all random draws, all engines, thread counts and metrics',
  'Tests run it with a fixed seed and only check that the program ends.',
  ['libman/kmeans_coordinator.cpp', 'libman/kmeans_task_coordinator.cpp', 'libauto/kmeans.cpp', 'libauto/min-tri-kmeans.cpp', 'libman/kmeans_thread.cpp', 'libman/kmeans_task_thread.cpp', 'libman/skmeans_coordinator.cpp'],
  [('cumulated distance draw', 'kmeanspp_init in each engine'), ('distance to the newest center', 'kmspp_dist')])
p('K11', 'Random and Forgy initialisation start from the data',
  'Forgy initialisation makes every starting center an existing row chosen by the random draw. Random-partition initialisation puts every row into exactly one of the k groups chosen by its draw and makes each non-empty group\'s center the mean of its rows; both leave the subsequent iterations correct.',
  ['inputs', 'configurations'], 'all data, all random draws, all engines and thread counts',
  'Tests use a fixed seed and check nothing about the centers.',
  ['libman/kmeans_coordinator.cpp', 'libman/kmeans_task_coordinator.cpp', 'libauto/kmeans.cpp', 'libauto/min-tri-kmeans.cpp', 'libman/fcm_coordinator.cpp', 'libman/skmeans_coordinator.cpp'],
  [('forgy', 'forgy_init'), ('random partition', 'random_partition_init')])
p('K12', 'Binary files are read exactly, row by row and per thread',
  'Reading a binary matrix of doubles returns exactly the stored values in row-major order, whether read at once, line by line, or in per-thread pieces starting at any row; a piece never contains values of another row range. Data handed over in memory reach the threads the same way, whether each thread points into it or copies its part. Writing a matrix, or the rows of one cluster, and reading it back gives the same values. A file that is missing or too short is refused; no row beyond the end is fabricated.',
  ['inputs', 'configurations'], 'all file contents, dimensions, row offsets and thread splits',
  'One 5x3 file is read by the tests.',
  ['libkcommon/io.hpp', 'libkcommon/io.cpp', 'libman/thread.cpp'],
  [('reader', 'libkcommon/io.hpp bin_rm_reader, bin_io'), ('per-thread read', 'libman/thread.cpp numa_alloc_mem')])
p('K13', 'Cluster id generator never hands out an id that is in use',
  'Over any history of taking and returning ids, an id handed out is never one that is currently in use, and returned ids become available again.',
  ['histories'], 'all take/return histories up to the bound',
  'The unit test follows one history.',
  ['libman/hclust_id_generator.hpp'], [('recycler', 'hclust_id_generator::next, reclaim_id')])
p('K14', 'Hierarchical clustering ends with a partition of all rows',
  'When hierarchical k-means, x-means or g-means ends, every row carries exactly one final cluster, no two clusters share an identifier, the reported sizes equal the number of rows carrying each label, and each reported center is the mean of its rows. In every round a row only moves between the two children of its own cluster, to the nearer of their two centers; finished clusters are never touched again, only clusters with at least the minimal size (and two rows) are split, starting from two of their rows, and a split is taken back for all rows of a cluster or for none. The number of final clusters does not exceed the requested maximum by more than one round of splitting, and before it is exceeded every cluster that is large enough is split, unless a split came out empty or was taken back.',
  ['inputs', 'configurations'], 'all data, random draws, iteration limits, maximum cluster numbers and thread counts',
  'The tests run iris once per program and print the sizes.',
  ['libman/hclust_coordinator.cpp', 'libman/hclust.cpp', 'libman/xmeans_coordinator.cpp', 'libman/xmeans.cpp', 'libman/gmeans_coordinator.cpp', 'libman/gmeans.cpp'],
  [('split bookkeeping', 'libman/hclust_coordinator.cpp'), ('two-way assignment', 'libman/hclust.cpp H_EM_step')])
p('K15', 'Clustering results are packaged without loss',
  'The result object carries the given labels, sizes and centroids unchanged; when built from sparse cluster ids it renumbers them so that rows share a new label exactly when they shared an old one, and every size and centroid follows its cluster. Two results compare equal exactly when labels, sizes and centroids agree.',
  ['inputs'], 'all labelings, sizes, centroids within the bound',
  'No test builds a result with sparse ids or compares two results.',
  ['libkcommon/types.cpp', 'libkcommon/types.hpp', 'libkcommon/hclust_compactor.hpp'],
  [('constructors', 'cluster_t'), ('renumbering', 'cluster_t sparse constructor')])
p('K16', 'Matrix operations follow their mathematical definitions',
  'Construction from a list, element access, copying, equality, sum, difference and in-place sum, product, subtraction of a vector from every row, division by a number or a vector, row and column sums and means, index of the maximum, powers, zeroing and resizing of the dense matrix produce exactly the mathematically defined result for every shape and content; operations on incompatible shapes are rejected.',
  ['inputs'], 'all shapes up to the bound and all contents on the grid',
  'The unit test checks one product and one sum.',
  ['libkcommon/dense_matrix.hpp'], [('operators', 'libkcommon/dense_matrix.hpp')])
p('K17', 'Determinant, adjoint and inverse are algebraically consistent',
  'For square matrices, the determinant equals its definition, the matrix times its adjoint is the determinant times the identity, and when the determinant is non-zero the matrix times the computed inverse is the identity. A singular matrix is reported as not invertible.',
  ['inputs'], 'all square matrices up to the bound with entries on the grid',
  'One 6x6 matrix is tried and the result is printed, not checked.',
  ['libkcommon/linalg.hpp'], [('cofactor expansion', 'libkcommon/linalg.hpp')])
p('K18', 'Vector helpers follow their definitions',
  'In-place sums, differences, Euclidean norms, dot products, products of a vector with a matrix, multiplication by a factor, powers, standardisation (zero mean and unit deviation; a constant vector becomes zero), scaling of rows to unit length, comparison of vectors with each other and with a constant, the powers of two next to a number and the node count of a full binary tree return the mathematically defined value for every length and content, including empty, equal-prefix and last-element cases and whether or not a result vector of the right size is passed in.',
  ['inputs'], 'all vectors up to the bound on the grid', 'A few fixed vectors are tried.',
  ['libkcommon/linalg.hpp', 'libkcommon/util.hpp', 'libkcommon/util.cpp'], [('helpers', 'libkcommon/linalg.hpp, libkcommon/util.hpp')])
p('K19', 'Fuzzy c-means memberships and centers obey the update equations',
  'In fuzzy c-means every membership lies between 0 and 1, the memberships of each row over all clusters sum to one, a row that coincides with a center belongs entirely to centers it coincides with, and each new center is the mean of the rows weighted by the fuzzified memberships. The reported label of a row is a cluster of maximal membership and the reported sizes count the labels.',
  ['inputs', 'configurations'], 'all data, centers and thread counts on the grid', 'The test runs iris and prints.',
  ['libman/fcm.cpp', 'libman/fcm_coordinator.cpp'], [('membership update', 'libman/fcm.cpp Estep'), ('center update', 'libman/fcm_coordinator.cpp')])
p('K20', 'Spherical k-means assigns rows by direction of maximal similarity',
  'Spherical k-means normalises features and rows as documented, and in every iteration assigns each row to a center of minimal cosine distance; sizes count labels and each center is recomputed from exactly the rows assigned to it.',
  ['inputs', 'configurations'], 'all data, centers and thread counts on the grid', 'The test runs iris and prints.',
  ['libman/skmeans.cpp', 'libman/skmeans_coordinator.cpp'], [('preprocessing', 'skmeans'), ('assignment', 'skmeans EM step')])
p('K21', 'k-medoids centers are data rows and no sampled swap is missed',
  'k-medoids always uses rows of the data as centers, assigns each row to a nearest medoid under the selected metric, reports sizes that count the labels, and replaces a medoid only by a row of the same cluster whose summed distance to the members is strictly smaller; with full sampling the medoid of each cluster is one of minimal summed distance. The run ends with the first step that moves no row, and reports that step.',
  ['inputs', 'configurations'], 'all data, random draws and thread counts on the grid', 'The test runs iris and prints.',
  ['libman/medoid.cpp', 'libman/medoid_coordinator.cpp'], [('medoid step', 'libman/medoid.cpp'), ('global choice', 'libman/medoid_coordinator.cpp')])
p('K22', 'Mini-batch k-means ends with a consistent nearest-center labeling',
  'Mini-batch k-means moves a center only toward rows sampled in that iteration with weights between 0 and 1, and its result labels every row with a cluster whose final center is nearest and reports sizes that count the labels.',
  ['inputs', 'configurations'], 'all data, draws, batch sizes and thread counts on the grid', 'The test runs iris and prints.',
  ['libman/kmeans_task_coordinator.cpp', 'libman/kmeans_task_thread.cpp', 'libkcommon/clusters.cpp'], [('sampling', 'mb_EM_step'), ('center move', 'mb_finalize_centroids'), ('final labeling', 'mb_run')])
p('K23', 'x-means keeps a split exactly when its score says so',
  'x-means compares the Bayesian information criterion of a cluster with that of its two children (distances taken to the mean of the rows of the cluster and to the nearer child center) and keeps the split unless the parent scores higher, whatever the unit of the data; two rows, for which the children have no criterion, stay together. Otherwise it restores the parent: the rows carry the parent label again, the parent center is the mean of its rows, sizes follow, and the identifiers of the dissolved children, and no others, become free.',
  ['inputs'], 'all data and draws on the grid', 'The test runs iris and prints.',
  ['libman/xmeans_coordinator.cpp', 'libman/xmeans.cpp'], [('score', 'compute_bic'), ('split decision', 'xmeans_coordinator')])
p('K24', 'g-means normality statistic matches its definition',
  'The Anderson-Darling statistic of a sample equals the statistic of its standardised, sorted values and does not depend on the order or the unit of the sample. g-means computes it on the rows of each cluster projected on the line between its two centers, and keeps a split exactly when the statistic exceeds the critical value of the selected significance level for that number of rows; a sample without variance is never split. When a split is taken back the rows, sizes, center and cluster count of the parent are restored.',
  ['inputs'], 'all samples on the grid', 'One sample with a known statistic is tried.',
  ['libkcommon/AndersonDarling.hpp', 'libman/gmeans_coordinator.cpp'], [('statistic', 'libkcommon/AndersonDarling.hpp'), ('decision', 'gmeans_coordinator')])
p('K25', 'Id map and flag vector behave like a map and an array of flags',
  'The id map returns for each present key the value last stored, reports absent keys as absent for any key, keeps unrelated keys unchanged on insertion, growth and erasure, and iterates exactly the present entries. The flag vector returns for each index the value last set.',
  ['histories', 'inputs'], 'all operation histories up to the bound', 'The unit tests follow one history each.',
  ['libkcommon/types.hpp', 'libkcommon/thd_safe_bool_vector.cpp', 'libkcommon/thd_safe_bool_vector.hpp'], [('map', 'vmap'), ('flags', 'thd_safe_bool_vector')])
p('K26', 'Distributed k-means equals single-process k-means',
  'For any number of processes up to the number of rows, the rows are split over processes without gap or overlap, every process ends each iteration with the same centroids, and the collected labels, sizes and centroids of distributed k-means (pruned or not) are those that single-process k-means reports for the same data and starting centers (ties may be broken either way).',
  ['inputs', 'configurations'], 'all data, starting centers, process and thread counts on the grid', 'One matrix with two processes is compared.',
  ['libdist/dist_coordinator.cpp', 'libdist/dist_task_coordinator.cpp', 'libdist/mpi.hpp'], [('row split', 'init, local_rid, is_local'), ('global aggregation', 'run'), ('result collection', 'run')])
p('K27', 'Iteration limits, convergence and bad parameters are honoured',
  'A run performs at most the requested number of iterations, stops early exactly when no row (or a fraction of rows within the tolerance) changed its label in the last iteration (fuzzy c-means: when the centers moved less than the tolerance), returns the labels, sizes and centers of the iteration it stopped in, and reports the number of that iteration. Zero clusters (with the OpenMP entry points: fewer than two or more than the rows), and unknown names of a metric or an initialisation, are rejected instead of producing a result.',
  ['inputs', 'configurations'], 'all data, starting centers, iteration limits, tolerances and cluster numbers', 'Tests use one limit.',
  ['libman/kmeans_coordinator.cpp', 'libman/kmeans_task_coordinator.cpp', 'libauto/kmeans.cpp', 'libauto/min-tri-kmeans.cpp', 'libman/coordinator.cpp'], [('loop and stop test', 'run'), ('parameter checks', 'libman/coordinator.cpp constructor')])

p('K28', 'Repeated k-means++ keeps the best start',
  'k-means++ with several starts performs as many starts as asked for (at least one), reports the least total distance of any start together with the number of a start that attains it, and returns exactly the centers of that start, labels naming a nearest of them, and sizes counting the labels; nothing of an earlier start influences a later one but the state of the generator.',
  ['inputs', 'histories'], 'all data and draws on the grid', 'No test runs more than one start and none looks at the energy.',
  ['binding/kmeanspp.hpp', 'libman/kmeans_task_coordinator.cpp'], [('choice among the starts', 'kmeansPP'), ('reset between starts', 'reinit'), ('energy', 'compute_cluster_energy')])
p('K29', 'Command-line programs run what was asked for and write its result',
  'Each command-line program (all but gmm, which is unfinished and writes nothing; the hierarchical ones with at least one iteration) reads its data (and centers) file, runs the algorithm it is named after with exactly the number of clusters, iterations, metric, initialisation, centers, tolerance and algorithm options given (documented defaults where absent), and with an output directory writes a text file with the number of clusters, iterations, rows and columns, the sizes, the label of every row and the coordinates of every center of that very result; a data file whose size does not fit the stated shape is rejected.',
  ['inputs', 'configurations'], 'all options on the grid and data', 'No test runs the programs.',
  ['exec/knori.cpp', 'exec/medoids.cpp', 'exec/fcm.cpp', 'exec/skmeans.cpp', 'exec/xmeans.cpp', 'exec/gmeans.cpp', 'exec/hmeans.cpp', 'exec/mb_knori.cpp', 'exec/kmeanspp.cpp', 'exec/knord.cpp', 'libkcommon/types.cpp'], [('options', 'main'), ('text output', 'cluster_t::write')])

NA = {}
def main():
    sys.path.insert(0, os.path.join(V, 'lib'))
    import props
    for x in PR: assert len(x['title']) <= 80, x['title']
    open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in PR))
    checks = []; na = []
    for x in PR:
        i = x['id']; P = props.PROPS.get(i)
        if P and i not in NA:
            checks.append({'property': i, 'quick_cmd': 'python3 lib/driver.py %s --tier quick' % i, 'thorough_cmd': 'python3 lib/driver.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
              'technique': P.get('technique', 'symbolic execution of the LLVM IR of the real code, z3 decides every branch and assertion'), 'level': P.get('level', 'model_checking'), 'level_note': P.get('note', P.get('bounds', '')) or 'bounded'})
        else: na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
    m = {'version': 1, 'setup_cmd': 'python3 lib/driver.py build', 'checks': checks, 'not_applicable': na,
         'hooks': {'guard': 'MIN_TASK_ROWS', 'enable': 'some cases of K03 and K05 compile libman with -DMIN_TASK_ROWS=1 or 2, so that a worker draws several tasks per round on few rows', 'source_commits': ['16dca14']},
         'notes': 'Harnesses compile /repo\'s sources with -fno-access-control. Bounds of every case are in lib/props.py and in the evidence files.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
def section(t, name, rows):
    a, b = t.split('<!-- auto:%s -->\n' % name); c = b.index('<!-- end -->')
    return a + '<!-- auto:%s -->\n' % name + '\n'.join(rows) + '\n' + b[c:]
def design():
    import props, glob
    f = os.path.join(V, 'DESIGN.md'); t = open(f).read()
    rows = ['| id | quick cases | thorough cases | bounds |', '|---|---|---|---|']
    for x in PR:
        P = props.PROPS.get(x['id'])
        if P: rows.append('| %s | %d | %d | %s |' % (x['id'], sum(c.tier == 'quick' for c in P['cases']), sum(c.tier != 'quickonly' for c in P['cases']), P.get('bounds', '')))
    t = section(t, 'bounds', rows)
    rows = ['| change | property (caught by its check) | needs | breaks |', '|---|---|---|---|']
    for g in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        m = json.load(open(g)); rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(g)), m['property'] + m.get('note', ''), m['needs'], m['what_it_breaks']))
    t = section(t, 'seeds', rows)
    rows = ['| finding | property | commit | what failed |', '|---|---|---|---|']
    for k in json.load(open(os.path.join(V, 'known-findings.json'))): rows.append('| %s | %s | %s | %s |' % (k['id'], k['property'], k.get('commit', k['status']), k['what'].split(k.get('commit') or ' ', 1)[1].strip()))
    t = section(t, 'fixes', rows)
    open(f, 'w').write(t)
main()
if os.path.isdir(os.path.join(V, 'seeded')): design()
