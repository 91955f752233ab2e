NOTE = ('TLC decides every recorded call against the TLA+ specification; exhaustive over all small graphs up to the stated size, seeded samples above; '
        'trusts TLC, the driver that records arguments and results, and the compiler.')
TV = 'TLA+ specification, TLC; calls to the real library recorded and validated as behaviours of the specification (trace validation)'
DAGQ = 'every acyclic dependence graph given as a lower-triangular compressed-column pattern with the diagonal first in each column, every cost vector, every parameter setting in the accepted ranges'
prop('L01', 'Level sets are exactly the longest-path wavefronts of the dependence DAG',
 'For every acyclic graph, each level-set builder for compressed-column graphs returns levels in which level k holds exactly the nodes whose longest dependence path from a source has k edges, every node once; the returned level count is the number of levels, and a node-to-level map, where one is returned, is its inverse. The input graph is left unmodified.',
 ['inputs'], 'all acyclic compressed-column patterns (any labelling, any row order, diagonal first), any number of nodes from 1', TESTS + 'None looks at level sets at all.',
 ['utils/sparse_inspector.cpp', 'src/hdagg/hdagg.cpp', 'include/aggregation/sparse_inspector.h', 'include/aggregation/hdagg.h'],
 [('build_levelSet_CSC', 'utils/sparse_inspector.cpp'), ('buildLevelSet_CSC_Queue', 'utils/sparse_inspector.cpp'), ('computingLevelSet_CSC', 'utils/sparse_inspector.cpp'), ('HDAGG::build_levelSet_CSC, computingNode2Level', 'src/hdagg/hdagg.cpp')],
 ['return of each builder: level pointer, level set, level count, node-to-level map'], tech=TV)
prop('L02', 'Level sets of trees, blocked matrices and chained graphs are exact wavefronts',
 'For every rooted forest, every column-blocked lower-triangular matrix, and every chain of k copies of a graph whose node v in one copy precedes v in the next, the corresponding level-set builder returns levels in which level k holds exactly the nodes (blocks) whose longest dependence path has k edges, every node once, and the right level count.',
 ['inputs'], 'all forests given by parent vectors with parent > child, all column-blocked lower-triangular patterns with consistent block maps, all lower-triangular graphs with 1 to 3 copies', TESTS + 'None looks at level sets at all.',
 ['utils/sparse_inspector.cpp', 'src/lbc_tree.cpp', 'include/aggregation/sparse_inspector.h'],
 [('build_level_set_tree, build_level_set_tree_efficient', 'utils/sparse_inspector.cpp'), ('build_levelSet_BCSC', 'utils/sparse_inspector.cpp'), ('level_set_multi_graphs', 'utils/sparse_inspector.cpp')],
 ['return of each builder'], tech=TV)
SCHED = 'returns a schedule of coarsened levels and w-partitions that contains every node exactly once, and such that running the levels one after another, and the w-partitions of one level concurrently in any interleaving, each in its listed order, never runs a node before all nodes it depends on'
prop('S01', 'Sequential LBC schedules of DAGs are complete and safe under every interleaving',
 'For every lower-triangular dependence graph, the load-balanced coarsening inspectors for compressed-column DAGs (the original and the third-generation one) ' + SCHED + '. The level and partition pointers are monotone and stay inside the arrays, and the input graph is left unmodified.',
 ['inputs', 'schedules', 'configurations'], DAGQ + ' (inner partitions >= 1, division rate >= 1, minimum level distance >= -1), and every interleaving of the resulting schedule', TESTS + 'One interleaving of one schedule per run, on matrices where a misplaced node often changes nothing visible.',
 ['src/lbc_csc.cpp', 'src/lbc_csc_dag.cpp', 'src/lbc_utils.cpp', 'include/aggregation/lbc.h'],
 [('get_coarse_levelSet_DAG_CSC', 'src/lbc_csc.cpp'), ('get_coarse_Level_set_DAG_CSC03', 'src/lbc_csc_dag.cpp'), ('height_partitioning_DAG_trng, worst_fit_bin_pack, modified BFS', 'src/lbc_utils.cpp')],
 ['returned level pointer, partition pointer, node list'], tech=TV,
 state=[dict(name='done, level, position per w-partition', meaning='which nodes have run, and what may run next', where='the executors that walk the returned arrays')])
prop('S02', 'LBC schedules of trees and of elimination-tree based DAGs are complete and safe',
 'For every rooted forest with positive or zero costs, and every lower-triangular DAG scheduled through its elimination tree, the inspector ' + SCHED + '.',
 ['inputs', 'schedules', 'configurations'], 'every forest with parent > child and every lower-triangular pattern (passed as unsymmetric, as stored lower half, or as stored upper half); inner partitions >= 1, minimum level distance >= -1, division rate >= 2 for trees', TESTS + 'Trees are not tested.',
 ['src/lbc_tree.cpp', 'src/lbc_csc.cpp', 'utils/etree.cpp', 'src/lbc_utils.cpp'],
 [('get_coarse_levelSet_tree', 'src/lbc_tree.cpp'), ('get_coarse_levelSet_DAG_CSC_tree', 'src/lbc_csc.cpp'), ('height_partitioning', 'src/lbc_utils.cpp')], ['returned schedule'], tech=TV)
prop('S03', 'LBC schedules of column-blocked (supernodal) matrices are complete and safe',
 'For every column-blocked lower-triangular matrix, the blocked inspector ' + SCHED.replace('node', 'block') + '.',
 ['inputs', 'schedules', 'configurations'], 'every column-blocked lower-triangular pattern with consistent column/block maps, inner partitions >= 1, minimum level distance >= -1, division rate >= 2', TESTS + 'The blocked inspector is not tested.',
 ['src/lbc_blocked.cpp', 'utils/sparse_inspector.cpp', 'utils/sparse_utilities.cpp'],
 [('getCoarseLevelSet_DAG_BCSC02', 'src/lbc_blocked.cpp'), ('modified_BFS_BCSC', 'utils/sparse_utilities.cpp')], ['returned schedule'], tech=TV)
prop('S04', 'HDAGG and GLC schedules are complete and safe under every interleaving',
 'For every lower-triangular dependence graph, every cost vector and core count, with and without bin packing and inner post-ordering, the HDAGG and the global-level-coarsening inspectors each return a schedule that contains every node exactly once, and such that running the levels one after another, and the w-partitions of one level concurrently in any interleaving, each in its listed order, never runs a node before all nodes it depends on.',
 ['inputs', 'schedules', 'configurations'], DAGQ + ' (cores >= 1), any number of inspector threads, and every interleaving of the resulting schedule', TESTS,
 ['src/hdagg/hdagg.cpp', 'include/aggregation/hdagg.h'],
 [('HDAGG::HDAGG', 'src/hdagg/hdagg.cpp'), ('HDAGG::GLC_V2', 'src/hdagg/hdagg.cpp')], ['returned schedule'], tech=TV)
prop('S05', 'Schedules built by the multi-threaded coarseners are complete and safe',
 'For every lower-triangular dependence graph and every number of threads, the parallel load-balanced coarsening inspector and the parallel coarsened-level builder ' + SCHED.replace('returns a schedule', 'each return a schedule') + '.',
 ['inputs', 'schedules', 'configurations'], DAGQ + ', any number of inspector threads, with and without bin packing, and every interleaving of the resulting schedule', TESTS,
 ['src/lbc_csc_dag.cpp', 'src/hdagg/hdagg.cpp', 'src/lbc_utils.cpp'],
 [('get_coarse_Level_set_DAG_CSC03_parallel', 'src/lbc_csc_dag.cpp'), ('HDAGG::build_coarsened_level_parallel', 'src/hdagg/hdagg.cpp')], ['returned schedule'], tech=TV)
prop('P01', 'No coarsened level is wider than the requested parallelism',
 'With bin packing on and at least two inner partitions (or any core count for HDAGG and GLC), every coarsened level of every returned schedule has at most as many w-partitions as the caller requested, so an executor with that many threads needs one pass per level.',
 ['inputs', 'configurations'], DAGQ + ', forests and column-blocked patterns likewise', TESTS + 'None looks at the width of a level.',
 ['src/lbc_csc.cpp', 'src/lbc_csc_dag.cpp', 'src/lbc_tree.cpp', 'src/lbc_blocked.cpp', 'src/lbc_utils.cpp', 'src/hdagg/hdagg.cpp'],
 [('worst_fit_bin_pack', 'src/lbc_utils.cpp'), ('bin packing in HDAGG and GLC_V2', 'src/hdagg/hdagg.cpp')], ['returned level pointer'], tech=TV)
prop('P02', 'Packed coarse levels are balanced by the costs of what they hold',
 'With bin packing on, the load-balanced coarsening inspectors (sequential and parallel DAG, blocked, tree) pack the connected components of each coarsened level by that level\'s own costs, heaviest first onto the least loaded part: no part, without its lightest component, costs more than any other part of its level. HDAGG and GLC give every component its own part when a level has fewer components than cores, and otherwise close each part but the last exactly when it reaches the average of the cost not yet handed out.',
 ['inputs', 'configurations'], DAGQ + ' (non-negative integral costs, bin packing on, at least 2 inner partitions or cores), forests and column-blocked patterns likewise', TESTS + 'Balance, which the library is named for, is never looked at.',
 ['src/lbc_csc.cpp', 'src/lbc_csc_dag.cpp', 'src/lbc_tree.cpp', 'src/lbc_blocked.cpp', 'src/lbc_utils.cpp', 'src/hdagg/hdagg.cpp'],
 [('component costs and worst_fit_bin_pack in each LBC inspector', 'src/lbc_utils.cpp'), ('chunk computation in HDAGG and GLC_V2', 'src/hdagg/hdagg.cpp')], ['returned schedule and the costs passed in'], tech=TV,
 state=[dict(name='cost per component, load per part', meaning='what is packed, and what each part carries already', where='outCost, newOutCost, partition_cost, chunk_array inside the inspectors')])
prop('P03', 'Wavefronts are coarsened exactly as the balance parameters and the loads ask',
 'With the sequential and parallel DAG inspectors, every coarsened level is a run of consecutive wavefronts: the first run has the requested initial distance, each further cut follows after the requested step, and nothing is cut above the last wavefront wider than one (the parallel coarsened level takes 1, 6 or 9 wavefronts as the matrix has less than 10, less than 100 or more entries per column); for trees and blocked matrices each cut lies the initial distance below the last wavefront wider than the inner parts, then than those divided by the divisor, and so on. HDAGG and GLC go on merging consecutive wavefronts as long as every core that can be busy has work and the loads stay even (divergence below 0.003), and stop as soon as they do not.',
 ['inputs', 'configurations'], DAGQ + ' (positive costs for HDAGG and GLC, with and without bin packing), forests and column-blocked patterns likewise', TESTS + 'How much is coarsened is never looked at.',
 ['src/lbc_utils.cpp', 'src/lbc_csc.cpp', 'src/lbc_csc_dag.cpp', 'src/lbc_tree.cpp', 'src/lbc_blocked.cpp', 'src/hdagg/hdagg.cpp'],
 [('height_partitioning_DAG_trng, height_partitioning', 'src/lbc_utils.cpp'), ('merge decision in HDAGG and GLC_V2, build_coarsened_level_parallel', 'src/hdagg/hdagg.cpp'), ('lbc_config', 'src/lbc_csc_dag.cpp')], ['returned schedule, the graph, the parameters and costs passed in'], tech=TV,
 state=[dict(name='current run of wavefronts', meaning='from its first wavefront to the next candidate; the cuts made so far', where='partition2Level; lb_level, ub_level, WM in HDAGG and GLC_V2')])
prop('G01', 'DAG coarsening groups partition the nodes and never depend cyclically',
 'For every lower-triangular dependence graph, tree-based, breadth-first tree-based and chain grouping, with and without the limit on leaf groups, return groups that partition the nodes, none empty, whose quotient graph has no cycle.',
 ['inputs', 'configurations'], 'every lower-triangular compressed-column pattern with the diagonal first and ascending rows, each grouping policy, any number of threads', TESTS + 'The groupings are never looked at.',
 ['src/hdagg/hdagg.cpp'], [('treeBasedGrouping, treeBasedGroupingBFS, chainGrouping', 'src/hdagg/hdagg.cpp')], ['returned group pointer and group set'], tech=TV)
prop('G02', 'Row/column group inspectors give executable groups and exact group dependences',
 'For every lower-triangular matrix, the grouping inspectors for triangular solve and incomplete Cholesky return groups that partition the rows (columns) with a correct inverse map, list every member after the members it depends on, and do not depend on each other cyclically; the dependence-graph builders return exactly the dependences between different rows or groups.',
 ['inputs'], 'every lower-triangular pattern in row (diagonal last) or column (diagonal first) form, every grouping for the dependence builders', TESTS + 'Grouping inspectors are used only in demos, on one matrix.',
 ['src/group.cpp', 'src/group_utils.cpp', 'include/aggregation/group.h'], [('group::inspection_*, NaiveGrouping', 'src/group.cpp'), ('fs_csr_inspector_dep, fs_ic0csc_inspector_group, Group_DAG', 'src/group_utils.cpp')], ['returned group arrays and dependence lists'], tech=TV)
prop('G03', 'Quotient graphs contain exactly the dependences between different groups',
 'For every dependence graph and every partition of its nodes into groups, the group graph has one column per group, in ascending order without duplicates, whose rows are that group and exactly the groups that depend on it; the final schedule graph is that quotient for the non-empty w-partitions in order.',
 ['inputs'], 'every lower-triangular pattern, every partition into groups, every schedule shape including empty w-partitions', TESTS + 'The quotient is only used as an input of other steps.',
 ['src/hdagg/hdagg.cpp'], [('HDAGG::buildGroupDAG, getFinalScheduleDAG', 'src/hdagg/hdagg.cpp')], ['returned graph'], tech=TV)
prop('G04', 'The whole HDAGG pipeline yields a safe schedule of the original matrix',
 'For every lower-triangular dependence graph, sparsifying, grouping, building the group graph and its costs, scheduling the groups with HDAGG or GLC, and ungrouping with sorted or post order yields a schedule of the original nodes that contains each exactly once and respects every dependence of the original graph under every interleaving.',
 ['inputs', 'schedules', 'configurations'], 'every lower-triangular pattern, every combination of grouping policy, order and scheduler, any number of cores and inspector threads', TESTS + 'The demo runs one combination on one matrix.',
 ['src/hdagg/hdagg.cpp', 'example/SpTRSV_runtime.h'], [('partialSparsification, grouping, buildGroupDAG, costComputation, HDAGG, GLC_V2, ungroupingScheduleAndApplyOrdering, getFinalScheduleDAG', 'src/hdagg/hdagg.cpp')], ['schedule after ungrouping'], tech=TV)
prop('G05', 'Sparsification removes only redundant dependences',
 'For every lower-triangular dependence graph with ascending rows, partial sparsification returns a subgraph that keeps the diagonal and the order and has exactly the same reachability, for any number of threads, and leaves its input unmodified.',
 ['inputs', 'schedules'], 'every lower-triangular pattern with ascending rows and any number of threads', TESTS + 'The sparsified graph is never compared with the original.',
 ['src/hdagg/hdagg.cpp'], [('HDAGG::partialSparsification', 'src/hdagg/hdagg.cpp')], ['returned graph'], tech=TV)
prop('G06', 'Reordering a schedule keeps its contents and respects dependences',
 'Ungrouping a group schedule puts exactly the members of each w-partition\'s groups in that w-partition, ascending when sorted order is asked for and in dependence order when post order is asked for; post ordering a graph returns a topological order of all nodes; and two-dimensional reordering gives each w-partition exactly the nonzeros of its rows, with no entry read before its row is finished.',
 ['inputs'], 'every lower-triangular pattern, every grouping and group schedule, every valid node schedule for the two-dimensional reordering', TESTS + 'Orders are not examined.',
 ['src/hdagg/hdagg.cpp'], [('ungroupingScheduleAndApplyOrdering, computePostOrder, twoDReordering', 'src/hdagg/hdagg.cpp')], ['returned orders'], tech=TV)
prop('G07', 'Grouping and sparsification coarsen as far as they promise',
 'Without a limit, tree grouping returns exactly the maximal trees of nodes whose only successor is in the tree (breadth-first tree grouping likewise on forests, and subtrees otherwise), and chain grouping exactly the maximal chains; with the limit, no group exceeds its share of the nodes (a thousandth for trees, a ten-thousandth breadth first, at least one) and a tree is cut into no more pieces than that takes; groups are listed by their smallest members. Sparsification keeps no edge that a path of two edges makes redundant.',
 ['inputs', 'configurations'], 'every lower-triangular compressed-column pattern with the diagonal first and ascending rows, each grouping policy, with and without clique simplification, any number of threads', TESTS + 'Grouping everything alone, or keeping every edge, would pass every test.',
 ['src/hdagg/hdagg.cpp'], [('treeBasedGrouping, treeBasedGroupingBFS, chainGrouping, partialSparsification', 'src/hdagg/hdagg.cpp')], ['returned groups and sparsified graph'], tech=TV)
prop('G08', 'Runs and blocks of consecutive nodes are exact, with exact group graphs',
 'For every lower-triangular graph, greedy grouping returns exactly the runs of consecutive nodes in which each node depends on an earlier member within the search range, their costs and graph, and merging small groups joins each group below the threshold to its cheaper neighbour without losing a node; collection grouping returns exactly the chains of consecutive nodes (or single nodes) with their graph. Blocks of columns with equal patterns, in lower or upper halves, are as wide as the pattern and the limit allow. The inspectors of src/Group meet the same guarantees as those of src/group.cpp.',
 ['inputs', 'configurations'], 'every lower-triangular compressed-column pattern with the diagonal first and ascending rows, any search range >= 1, any threshold, any limit', TESTS + 'None of these is called by a test.',
 ['src/Group/Group.cpp', 'src/Group/Group_Utils.cpp', 'utils/BCSCMatrix.cpp', 'include/aggregation/group.h'], [('GreedyGrouping, CollectionGrouping, group::inspection_*', 'src/Group/Group.cpp'), ('fs_csr_inspector_dep, fs_ic0csc_inspector_group, Group_DAG', 'src/Group/Group_Utils.cpp'), ('BCSCMatrix::supernodes', 'utils/BCSCMatrix.cpp')], ['returned groups, ranges, costs, graphs and blocks'], tech=TV)
prop('E01', 'HDAGG elimination tree and row patterns equal symbolic elimination',
 'For every lower-triangular matrix given by rows, the computed parent vector is the elimination tree defined by symbolic Cholesky factorisation, the tree in column form has exactly the parent edges, and the nonzero pattern computed for row k is exactly row k of the factor, each column once and children before parents, with the caller\'s work flags restored.',
 ['inputs'], 'every lower-triangular row pattern with ascending columns and the diagonal last', TESTS + 'Never checked.',
 ['src/hdagg/hdagg.cpp'], [('computeParents, buildETree, computeNoneZeroPatternOfRowK', 'src/hdagg/hdagg.cpp')], ['parent vector, tree, row patterns'], tech=TV)
prop('K01', 'Kernel cost estimates are exactly the work of a group\'s members',
 'For every matrix, kernel and grouping, the cost assigned to a group is the sum over its members of the kernel\'s work for that row or column: entries touched for the triangular-solve kernels, and the summed lengths of the rows or columns an entry refers to for the factorisation kernels.',
 ['inputs', 'configurations'], 'every lower-triangular pattern in both forms, each of the seven kernels, grouped or not, any number of threads', TESTS + 'Costs only influence balance, so no test can fail on them.',
 ['src/hdagg/hdagg.cpp'], [('HDAGG::costComputation', 'src/hdagg/hdagg.cpp')], ['returned cost vector'], tech=TV)
prop('M01', 'Format conversions keep every matrix entry, value and dimension',
 'For every sparse matrix, of any shape and with or without values where the form allows it, converting between column, row, dense and one-based form, transposing and copying yield exactly the same entries (transposed where asked), each once, ascending within a row or column where the form is rebuilt, with the right dimensions and without changing or sharing storage with the source. Column counts, empty-column counts, diagonal positions, permutation inverses, and the constructed diagonal and tridiagonal matrices equal their definitions.',
 ['inputs'], 'every sparse pattern without duplicates (rectangular ones included, rows of a column in any order), with arbitrary values', TESTS + 'Conversions are exercised on one square lower-triangular shape only.',
 ['utils/sparse_utilities.cpp', 'utils/sparse_inspector.cpp', 'utils/utils.cpp', 'include/aggregation/def.h'],
 [('csc_to_csr, csr_to_csc, transpose_general, copy_sparse, copy_from_to, sparse2dense', 'utils/sparse_utilities.cpp'), ('dense_to_csc, convert_to_one_based', 'utils/sparse_io.cpp')], ['returned matrix'], tech=TV)
prop('M02', 'Stored halves, expansion and permutation represent the same symmetric matrix',
 'For every square matrix, extracting a triangular half gives exactly that half with its storage type set; for every stored half, expanding it gives exactly the symmetric matrix, making it symmetric gives the other requested half, and a symmetric transpose with a permutation gives exactly the renumbered opposite half. Anything that is not a permutation, or not a stored half, is refused; coarsening by k consecutive columns gives exactly the quotient pattern.',
 ['inputs'], 'every square pattern without duplicates, both stored halves, with or without values, every permutation, every block width', TESTS + 'Only a lower half of one matrix family is used.',
 ['utils/sparse_utilities.cpp'], [('make_half, make_full, transpose_symmetric, make_symmetric, coarsen_k_times', 'utils/sparse_utilities.cpp')], ['returned matrix and storage type'], tech=TV)
prop('M03', 'Merged and fused graphs contain exactly the dependences of their parts',
 'Merging k graphs of equal size gives one graph whose copies keep their own edges and in which each node precedes its counterpart (or the nodes given by the dependence matrices) in the next copy, and nothing else; the fused graph and the fused levels of two blocked solves with a product between them are exactly those of the combined block dependences; the depth of a node is the longest dependence path that starts at it.',
 ['inputs'], 'every list of lower-triangular graphs of equal size with any dependence matrices between neighbours; every pair of column-blocked triangular matrices with any product matrix (with full diagonal for the fused levels)', TESTS + 'Merging is never called by a test.',
 ['utils/sparse_inspector.cpp', 'utils/sparse_utilities.cpp'], [('merge_graph, merge_DAGs_with_partial_order', 'utils/sparse_utilities.cpp'), ('bcsc_csc_bcsc_levelset, level_set_bn, compute_depth', 'utils/sparse_inspector.cpp')], ['returned graph, levels, depths'], tech=TV)
prop('M04', 'The blocked (supernodal) format represents exactly the same matrix',
 'For every lower-triangular matrix, converting to the blocked column format with computed or given blocks covers all columns by consecutive blocks, stores for every block the ascending union of its columns\' rows and every entry\'s value (zero where the matrix has none), and the compressed block graph has exactly the blocks those rows belong to. Computed blocks join only columns with the same pattern below them.',
 ['inputs'], 'every lower-triangular pattern with full diagonal and ascending rows, every division of the columns into consecutive blocks', TESTS + 'The blocked format is not tested.',
 ['utils/BCSCMatrix.cpp', 'include/aggregation/BCSCMatrix.h'], [('BCSC::supernodes, calcSize, createFormat, compressed_BCSC_to_CSC', 'utils/BCSCMatrix.cpp')], ['blocked arrays'], tech=TV)
prop('E02', 'Elimination trees, counts and factor patterns equal symbolic elimination',
 'For every symmetric pattern, the elimination tree, row and column counts, tree levels, operation count, row patterns (in topological order, marks restored) and the factor pattern are exactly those of symbolic Cholesky elimination, for unsymmetric patterns the tree is that of A\'A, and the returned postorder visits every subtree contiguously, children before parents, lightest first when weights are given. The symbolic factorisation returns a fill-reducing permutation with its inverse such that all of these hold for the permuted matrix.',
 ['inputs'], 'every square symmetric pattern with full diagonal, every rectangular pattern for the column tree', TESTS + 'Never checked.',
 ['utils/etree.cpp', 'utils/lfactor_creation.cpp', 'utils/sparse_inspector.cpp'], [('compute_etree', 'utils/etree.cpp'), ('tree_post_order, row_col_counts_symmetric, build_L_pattern_from_col_counts, build_symbolic_simplicial_lfactor', 'utils/lfactor_creation.cpp'), ('ereach', 'utils/sparse_inspector.cpp')], ['returned tree, postorder, counts, factor'], tech=TV)
prop('T01', 'Tree measures are exact and subtree splitting gives independent, complete parts',
 'For every rooted forest, child lists, node depth, height and subtree cost (weighted or not) equal their definitions; splitting the nodes of a level range into parts puts every node in exactly one part, in order children before parents, never separates a node from its parent in the range, and reports each part\'s cost and the node-to-part map correctly.',
 ['inputs'], 'every forest given by parent vectors with parent > child, any costs, any level range and part count', TESTS + 'Trees are not tested.',
 ['utils/etree.cpp', 'utils/sparse_inspector.cpp', 'src/lbc_tree.cpp', 'utils/sparse_utilities.cpp', 'src/lbc_utils.cpp'], [('get_tree_height, get_tree_height_efficient, compute_subtree_cost, populate_children, post_order_spliting', 'utils/sparse_utilities.cpp')], ['returned measures and parts'], tech=TV)
prop('N01', 'METIS front ends return valid numberings and part labels',
 'For every symmetric matrix, general or stored as a half, the fill-reducing front ends return a permutation of all columns (and refuse an unsymmetric matrix where a half is required), and the partitioning front ends label every column with a part below k; partitioning a coarsened matrix gives all columns of one coarse node the same label.',
 ['inputs'], 'every symmetric pattern with full diagonal, k >= 2 parts, any coarsening width', TESTS + 'METIS is called in demos on one matrix.',
 ['utils/metis_interface.cpp'], [('metis_perm_general, metis_perm_symmetric, metis_partition_*', 'utils/metis_interface.cpp')], ['returned vectors'], tech=TV)
prop('W01', 'Weight and breadth-first partitions cover all nodes and are cut at their targets',
 'For every list of nodes, weights and part count, with equal or given target weights, the weight partition cuts the list into consecutive parts that cover it, each part but the last ending as soon as its weight reaches its target; the breadth-first partition does the same with a breadth-first order of the graph, every node once.',
 ['inputs'], 'every node list, non-negative weights (integral where the targets are equal), targets and part count; every lower-triangular or relabelled acyclic graph', TESTS + 'Never called by a test.',
 ['utils/utils.cpp'], [('partition_by_weight, partition_by_bfs', 'utils/utils.cpp')], ['part boundaries'], tech=TV)
prop('C01', 'Parallel connected components equal the components of the level range',
 'For every dependence graph and level range, the component labellers give two nodes of the range the same label exactly when an undirected path inside the range joins them, label nothing outside it, and report label count and component costs correctly, for any number of threads; the depth-first component builder returns, for each root, exactly what it reaches first, predecessors first, and the earlier trees it runs into.',
 ['inputs', 'schedules'], 'every lower-triangular graph, every level range, any node order and number of threads', TESTS + 'Races and label propagation need particular graphs and interleavings.',
 ['src/hdagg/hdagg.cpp', 'src/lbc_csc_dag.cpp', 'src/lbc_utils.cpp'], [('HDAGG::parallel_cc', 'src/hdagg/hdagg.cpp'), ('sym_lib::parallel_cc', 'src/lbc_csc_dag.cpp'), ('dfs_CSC_CC', 'src/lbc_utils.cpp')], ['labels, counts, costs'], tech=TV)
prop('B01', 'Bin packing keeps every item whole and balances; level cuts cover all levels',
 'For every list of items with costs, worst-fit bin packing puts every item whole into exactly one of the requested bins, reports the bin costs, and balances as longest-item-first onto the least loaded bin does; merging in order closes a part as soon as its cost reaches the threshold. Cutting a level set into coarse levels gives strictly ascending cuts from the first to the last level, with a part count between one and the requested parallelism for each.',
 ['inputs', 'configurations'], 'every list of non-negative item costs and sizes, every number of bins, every level set, inner partitions >= 1, minimum distance >= -1, division rate >= 1 (>= 2 for trees)', TESTS + 'Balance is never looked at.',
 ['src/lbc_utils.cpp'], [('worst_fit_bin_pack, merge_inner_part', 'src/lbc_utils.cpp'), ('height_partitioning, height_partitioning_DAG_trng', 'src/lbc_utils.cpp')], ['bins, bin costs, cut points'], tech=TV)
prop('I01', 'Matrix files are read exactly and survive a write-read round trip',
 'For every well-formed Matrix Market file (general or symmetric; real, integer or pattern; entries in any order; empty columns; comments; any letter case in the header) both readers return exactly the file\'s entries, dimensions and storage type, with zero diagonals inserted where asked; malformed or unsupported headers raise the documented exception. Writing a matrix, a blocked matrix, a dense array, a constant or a text and reading it back gives the same entries and values.',
 ['inputs'], 'every well-formed coordinate file, and every matrix with values that fit a double exactly', TESTS + 'One file is read.',
 ['utils/sparse_io.cpp', 'include/aggregation/sparse_io.h'], [('read_mtx, read_mtx_csc_real, CSC_to_mtx, BCSC_to_mtx, print_csc, print_dense, read/write of vectors', 'utils/sparse_io.cpp')], ['matrix read, exception raised'], tech=TV)
prop('X01', 'Triangular solve executors are exact with every schedule the library builds',
 'For every lower-triangular system, solving it serially, by level sets, by any of the library\'s coarsened schedules, or by groups of rows with level sets or coarsened group schedules, sequentially or with any number of threads, gives exactly the solution of the system, whatever the balance parameters.',
 ['inputs', 'schedules', 'configurations'], 'every lower-triangular matrix with integer entries and solution (so that arithmetic is exact), every executor combined with every inspector and parameter setting, any number of threads', TESTS + 'One random matrix per run, so an unsafe schedule usually goes unnoticed.',
 ['src/lbc_csc.cpp', 'src/lbc_csc_dag.cpp', 'src/hdagg/hdagg.cpp', 'src/group.cpp', 'src/group_utils.cpp', 'utils/sparse_inspector.cpp', 'example/sptrsv_src/executor.cpp'],
 [('sptrsv_csr, sptrsv_csr_levelset, sptrsv_csr_lbc, sptrsv_csr_group_*', 'example/sptrsv_src')], ['solution vector'], tech=TV)
prop('A01', 'AMD ordering returns a permutation and statistics its documentation promises',
 'For every square pattern, symmetric or not, jumbled or with duplicates, amd_order returns a permutation with exactly the dense rows last, creates no fill for a forest, leaves its inputs alone, and reports the documented status and statistics: exact counts, symmetry and memory, and bounds the factor of the permuted matrix never exceeds. Invalid arguments are refused with the documented status, whatever is wrong with them. The validity test, the sorted transpose and the postordering of the assembly tree (largest child last) obey their own contracts.',
 ['inputs', 'configurations'], 'patterns with in-range pointers, every setting of the dense and aggressive controls, with and without statistics', TESTS + 'No test calls the ordering.',
 ['utils/external/amd_order.c', 'utils/external/amd_2.c', 'utils/external/amd_aat.c', 'utils/external/amd_postorder.c', 'include/aggregation/amd.h'],
 [('amd_order, amd_1, amd_2, amd_aat', 'utils/external/amd_order.c, utils/external/amd_2.c'), ('amd_valid, amd_preprocess, amd_postorder, amd_post_tree', 'utils/external/amd_valid.c, utils/external/amd_postorder.c')],
 ['P, Control, Info, returned status, orderings and transposes'], tech=TV,
 state=[dict(name='left, adj, ord, cols', meaning='elimination graph, order so far and column counts', where='amd_2')])
prop('I02', 'Printed matrices, vectors and schedules show every entry once, in order',
 'For every matrix, dense matrix, vector, level set and schedule, the printing functions write exactly the documented text: heading, sizes, then every entry or member once, in stored order, 1-based where the format says so, with the value it has, and zero where no values are stored. They change nothing they are given.',
 ['inputs'], 'square compressed matrices with and without values, column-major dense matrices, empty levels and w-partitions included; values that are quarters', TESTS + 'Nothing reads what is printed.',
 ['utils/sparse_io.cpp', 'include/aggregation/sparse_io.h', 'utils/sparse_utilities.cpp'],
 [('print_csc, print_csr, print_dense, print_level_set, print_hlevel_set, print_vec, type_str, format_str, shape2int', 'utils/sparse_io.cpp, include/aggregation/sparse_io.h'), ('save_vector', 'utils/sparse_utilities.cpp')], ['text printed'], tech=TV)
prop('I03', 'Matrix Market primitives accept, refuse and write exactly the format',
 'For every type of matrix and every text, well formed or not, the Matrix Market primitives return the entries, sizes and type code the text holds, or refuse it with the status that says why: missing file, no banner, unsupported type, truncated sizes or entries. Whatever they write they report as written, and it reads back as the same matrix, values bit by bit; what cannot be written is reported as not written. Every call returns and leaves no file open.',
 ['inputs', 'faults'], 'real, complex, pattern and integer; coordinate and array; all symmetries; banners in capitals, wrong, overlong or cut short; comments and blank lines; truncation at any number', TESTS + 'The tests never read or write through these functions.',
 ['utils/external/mmio.cpp', 'include/aggregation/mmio.h'],
 [('mm_read_banner, mm_read_mtx_crd_size, mm_read_mtx_array_size, mm_read_mtx_crd, mm_read_mtx_crd_data, mm_read_mtx_crd_entry, mm_read_unsymmetric_sparse', 'utils/external/mmio.cpp'), ('mm_write_banner, mm_write_mtx_crd, mm_write_mtx_crd_size, mm_write_mtx_array_size, mm_is_valid, mm_typecode_to_str', 'utils/external/mmio.cpp')],
 ['returned status, sizes, entries, type codes, files written, files left open'], tech=TV)
prop('U01', 'Numeric, comparison and random-matrix helpers equal their definitions',
 'Vector and matrix comparison, permutation test, right-hand sides of the all-ones solution, sums, medians, overflow-checked size arithmetic, file-name stripping, random index sets and random square matrices, and the operation statistics of the solve and incomplete-Cholesky kernels return exactly what they are defined to return, for every input.',
 ['inputs'], 'every vector, matrix, range and seed in the helpers\' domains', TESTS + 'The helpers are trusted by the tests themselves.',
 ['utils/test_utils.cpp', 'utils/utils.cpp', 'example/sptrsv_src/executor.cpp'], [('is_equal, test_unique, rhs_init, time_median, mult_size_t, add_size_t, random_square_sparse', 'utils/test_utils.cpp, utils/utils.cpp')], ['returned values'], tech=TV)
prop('R01', 'No data race between threads in any parallel region, under any scheduling',
 'For every input, number of threads and scheduling of the threads, two threads of a parallel region of the inspectors, the grouping, quotient, sparsification, cost and component routines, or the executors never access the same memory location between two barriers when one of the accesses is a plain write, or one a plain read and the other an atomic update; and every such call returns. So what a phase computes does not depend on how its threads are interleaved, except through the atomic reads it makes on purpose.',
 ['inputs', 'schedules', 'configurations'], 'every lower-triangular graph, valid schedule and grouping in the domains of S04, S05, G01, G03, G04, G05, K01, C01, X01; 2 to 16 threads; every preemption point; groups of threads as GNU OpenMP hands out loop iterations', TESTS + 'The test build has no threads at all, and a race shows in one interleaving out of many.',
 ['src/hdagg/hdagg.cpp', 'src/lbc_csc_dag.cpp', 'src/lbc_utils.cpp', 'example/sptrsv_src/executor.cpp'],
 [('HDAGG::parallel_cc, HDAGG, GLC_V2, partialSparsification, costComputation', 'src/hdagg/hdagg.cpp'), ('sym_lib::parallel_cc, partition_DAG', 'src/lbc_csc_dag.cpp'), ('sptrsv_csr_levelset, sptrsv_csr_lbc and group versions', 'example/sptrsv_src/executor.cpp')],
 ['kinds of access (plain or atomic, read or write) per thread, memory location and phase'], tech='TLA+ specification, TLC; calls run on a simulated OpenMP runtime with seeded preemption at every memory access, the recorded access signatures validated against the specification',
 state=[dict(name='mem, reg, pc', meaning='memory, and where each thread is in its phase', where='between two barriers of a parallel region')])
prop('R02', 'Every call is a function of its arguments, whatever ran before or beside it',
 'For every input, making the same call again in the same process, after another call of the library and with another number or interleaving of threads, returns exactly the same schedule, grouping, graph, matrix, vector or text: no result depends on state left over from earlier calls, on uninitialised memory, or on how threads are scheduled. Sparsification (alone or in the grouping pipeline) and the statistics of repeated runs, whose results are defined per thread, are repeated with the same number of threads.',
 ['inputs', 'histories', 'schedules'], 'the calls in the domains of the other properties (up to 900 rows), every pair of successive calls, 1 to 16 threads, every interleaving', TESTS + 'Every test calls each function once per process state and compares one result.',
 ['src/lbc_csc_dag.cpp', 'src/hdagg/hdagg.cpp', 'src/lbc_csc.cpp', 'src/lbc_tree.cpp', 'src/lbc_blocked.cpp', 'src/group.cpp', 'utils/sparse_inspector.cpp', 'utils/sparse_utilities.cpp', 'utils/utils.cpp', 'utils/sparse_io.cpp', 'utils/etree.cpp', 'utils/lfactor_creation.cpp', 'example/sptrsv_src/executor.cpp'],
 [('per-thread work arrays of make_partitions_parallel', 'src/lbc_csc_dag.cpp'), ('component labels in parallel_cc, computeCC', 'src/hdagg/hdagg.cpp'), ('work arrays of every inspector and conversion', 'utils/sparse_inspector.cpp')],
 ['everything each call returns, twice'], tech=TV,
 state=[dict(name='one, two', meaning='what the first and the second call returned', where='returned values')])
prop('D01', 'Record files hold exactly the header and the committed records, at any point',
 'For every history of opening record writers on new or existing files, setting columns in any order, committing and closing, every file holds at every point exactly its header followed by one line per committed record, in commit order, with the last value set for each column; an incomplete record is not written, unknown columns are ignored, and an existing file is extended, not overwritten, unless a fresh file is forced.',
 ['histories', 'crash points'], 'every history of any number of events on writers with distinct files, one to many columns, values of every accepted type', TESTS + 'No test writes records.',
 ['include/aggregation/csv_utils.h'], [('CSVManager::CSVManager, addElementToRecord, addRecord, ~CSVManager', 'include/aggregation/csv_utils.h')],
 ['bytes of each file after every event, header names'], tech=TV,
 state=[dict(name='column_names, row being filled, changed flags', meaning='the record in progress', where='include/aggregation/csv_utils.h'), dict(name='file text', meaning='header and committed records', where='the CSV file')])

prop('D02', 'The measurement protocol runs, resets, compares and reports as documented',
 'For every number of runs, run times, solution and reference, and every sequence of evaluations, a demo object inspects once per evaluation, runs the kernel exactly the requested number of times (five by default), each time on an input of ones and an output of zeros, compares the last output with the reference once after the runs and reports it exactly when an entry differs by more than the tolerance, and returns the median run. The stopwatch reports the time since its first start, and the common result columns print their arguments.',
 ['histories', 'inputs'], 'every sequence of evaluations and run counts from 0, every list of run times, every solution with and without a reference, NaN included', TESTS + 'The protocol is only ever run, never observed.',
 ['utils/FusionDemo.cpp', 'include/aggregation/FusionDemo.h', 'include/aggregation/def.h', 'utils/utils.cpp'],
 [('FusionDemo::evaluate, setting_up, testing, print_common', 'utils/FusionDemo.cpp'), ('timing_measurement', 'include/aggregation/def.h'), ('time_median', 'utils/utils.cpp')],
 ['order and state of the callbacks, text printed, time returned'], tech=TV,
 state=[dict(name='phase, runs left, times', meaning='where an evaluation stands', where='FusionDemo::evaluate')])
