prop("C07", "Scheduled triangular solves equal the sequential solve",
 "Executing the shipped row-oriented sparse triangular solve kernels (wavefront, LBC, HDagg and grouped schedules) yields, up to rounding, the solution the sequential solve gives for the same matrix and right-hand side. This holds for every order in which the parts of one level happen to run, and with any number of threads when OpenMP is on.",
 ["inputs", "schedules"], "all non-singular lower-triangular matrices, right-hand sides, schedulers, tunings and interleavings of the concurrent parts",
 "The demos compare one matrix with one interleaving (OpenMP is off in the build).",
 ["src/lbc_csc_dag.cpp", "src/lbc_tree.cpp", "src/hdagg/hdagg.cpp", "src/group.cpp", "utils/sparse_inspector.cpp"],
 [("schedule semantics", "level barriers, concurrent parts, sequential nodes")],
 ["solution vector", "example/sptrsv_src kernels"])
prop("C08", "OpenMP inspectors are race-free and thread-count independent",
 "With OpenMP enabled, the inspectors (LBC with serial and parallel components, on trees and on blocks, HDagg and GLC merging, level sets, sparsification, tree, chain and row grouping, group-DAG construction, cost computation, schedule post-processing, group dependence inspection) and the solve kernels contain no data race. Their outputs are valid for every thread count and scheduling of the team, and, except for sparsification with clique simplification (which may keep different redundant edges), the same as those obtained with one thread.",
 ["schedules", "inputs", "configurations"], "all DAGs, team sizes and interleavings of the team",
 "The build has OpenMP off, so no test runs any of this code with more than one thread.",
 ["src/lbc_csc_dag.cpp", "src/hdagg/hdagg.cpp"],
 [("parallel regions", "src/hdagg/hdagg.cpp computeCC, parallel_cc, partialSparsification, treeBasedGrouping*, buildGroupDAG, HDAGG, GLC_V2")],
 ["TSan reports", "inspector outputs"])
prop("C09", "Sparsification preserves the dependence relation",
 "For every DAG the transitive sparsification returns a subgraph of the input (no new edge, every node kept) in which v is reachable from u exactly when it was in the input. The result has sorted columns, and exactly the edges bridged by two other edges are gone; with clique simplification on, runs of nested columns become chains first and the same rule applies to the rest.",
 ["inputs", "configurations"], "all DAGs with sorted columns, with the clique simplification on and off",
 "A schedule built from a graph with one lost dependence is still correct on most inputs; the tests never compare reachability.",
 ["src/hdagg/hdagg.cpp"],
 [("two-hop edge removal and clique simplification", "src/hdagg/hdagg.cpp partialSparsification")],
 ["HDAGG::partialSparsification"])
prop("C10", "HDagg groupings partition the nodes and keep dependences acyclic",
 "For every DAG each HDagg grouping (tree based, breadth-first tree based, aggressive, chain and post-order chain) puts every node in exactly one group with a consistent node-to-group map. The group graph built from a grouping has an edge between two different groups exactly when some node edge crosses them, and it is acyclic; the nodes of a chain group are listed in dependence order. Tree groupings join exactly the nodes linked to their only dependent (the breadth-first one may stop early except on forests), or with a size limit pieces of those trees within the limit and no more pieces than needed; chain groupings join exactly the links between an only dependent and its only dependence.",
 ["inputs"], "all DAGs, including trees, chains, forests, hubs and already-sparsified graphs",
 BASE + "group shapes depend on in/out-degree patterns that one matrix does not cover.",
 ["src/hdagg/hdagg.cpp"],
 [("grouping", "src/hdagg/hdagg.cpp treeBasedGrouping, treeBasedGroupingBFS, chainGrouping, computePostOrderAndGroup"), ("group graph", "src/hdagg/hdagg.cpp buildGroupDAG")],
 ["HDAGG::treeBasedGrouping", "HDAGG::treeBasedGroupingBFS", "HDAGG::chainGrouping", "HDAGG::buildGroupDAG"])
prop("C11", "Schedule post-processing conserves nodes, order and dependences",
 "Expanding a group schedule to nodes (sorted or post-ordered), collapsing a schedule to a part graph, converting it between grouping and supernode form, and tiling it in two dimensions keep every node (for tiling: every stored nonzero) exactly once, keep each item in its part, and preserve all dependences of the original DAG.",
 ["inputs", "configurations"], "all valid schedules of all DAGs, all groupings, all tile sizes >=1",
 "Only one expansion path is exercised, by one demo.",
 ["src/hdagg/hdagg.cpp"],
 [("expansion", "src/hdagg/hdagg.cpp ungroupingScheduleAndApplyOrdering"), ("part graph", "src/hdagg/hdagg.cpp getFinalScheduleDAG"), ("tiling", "src/hdagg/hdagg.cpp twoDReordering"), ("conversion", "src/hdagg/hdagg.cpp convertCNScheduleToSuperNode, aggressiveSupernodeGrouping")],
 ["HDAGG::ungroupingScheduleAndApplyOrdering", "HDAGG::getFinalScheduleDAG", "HDAGG::twoDReordering"])
prop("C12", "Row and column groupings partition and keep dependences",
 "For every triangular matrix the row/column grouping inspectors return groups that cover every row exactly once with a consistent inverse map; all variants but the second column-oriented one return runs of consecutive indices, chaining exactly the neighbours linked by a dependence (the naive one: blocks of the given size). Row dependence inspection and group graphs contain exactly the dependences between different rows (groups), and the graph over groups is acyclic (every edge points forward for runs of consecutive indices); the check for nodes that depend on each other names exactly those pairs.",
 ["inputs", "configurations"], "all lower-triangular CSR/CSC patterns with full diagonal, all block sizes >=1",
 BASE + "empty rows, dense rows and chains exercise different grouping branches.",
 ["src/group.cpp", "src/group_utils.cpp"],
 [("grouping inspectors", "src/group.cpp inspection_*"), ("group graphs", "src/group_utils.cpp")],
 ["sym_lib::group", "sym_lib::Group_DAG", "sym_lib::fs_csr_inspector_dep", "sym_lib::fs_ic0csc_inspector_group"])
prop("C13", "Schedules respect the requested parallelism and pack evenly",
 "With bin packing on, no level of an LBC schedule has more parts than the requested number of parts, and no level of an HDagg or GLC schedule has more parts than cores. Worst-fit packing assigns every item to exactly one bin, reports every bin's cost as the sum of its items, and always puts the next heaviest item in a currently lightest bin; the packed levels of LBC schedules are packed that way. A packed HDagg or GLC level exceeds the average load of its cores by at most one connected piece, and a level that joins several wavefronts is balanced over its workers (cores, or nodes of its first wavefront if fewer) within the schedulers' tolerance of 0.003 bits of divergence from even shares.",
 ["inputs", "configurations"], "all DAGs, all cost vectors, all part counts >=1",
 "Nothing in the suite looks at part counts or loads.",
 ["src/lbc_utils.cpp", "src/hdagg/hdagg.cpp", "src/lbc_csc_dag.cpp", "src/lbc_tree.cpp"],
 [("bin packing", "src/lbc_utils.cpp worst_fit_bin_pack, find_min"), ("cost merge", "src/lbc_utils.cpp merge_inner_part")],
 ["sym_lib::worst_fit_bin_pack", "level part counts"])
prop("C14", "Sparse format conversions preserve the matrix",
 "Converting between CSC, CSR and dense form, copying, transposing, permuting rows and columns and re-basing indices give exactly the expected matrix: the same (row, column, value) set (moved by the permutation or transpose), correct dimensions, monotone pointers, and sorted indices where the conversion promises them. Pattern-only matrices are handled as well (except by the dense form, which needs values), converting there and back is the identity, and inputs are unchanged.",
 ["inputs"], "all sparse matrices, rectangular, with empty rows/columns, and pattern-only matrices",
 BASE + "its matrix is square with a full diagonal.",
 ["utils/sparse_utilities.cpp", "utils/sparse_io.cpp"],
 [("conversions", "utils/sparse_utilities.cpp csc_to_csr, csr_to_csc, transpose_general, copy_sparse, copy_from_to, sparse2dense; utils/sparse_io.cpp dense_to_csc, convert_to_one_based")],
 ["converted matrices"])
prop("C15", "Symmetric storage operations preserve the symmetric matrix",
 "Taking the lower or upper half, expanding a half to full, transposing or symmetrically permuting a half-stored matrix, adding two matrices, and symmetrising a general one represent exactly the mathematically expected matrix (P A P^T for a permutation, (A+A^T)/2 for symmetrising). The storage type reported by the result matches the half it stores, and an array that is not a permutation is refused.",
 ["inputs"], "all symmetric matrices in lower or upper form, all permutations, all square general matrices",
 "The tests use one symmetric matrix and never compare against a dense reference.",
 ["utils/sparse_utilities.cpp"],
 [("symmetric transforms", "utils/sparse_utilities.cpp make_half, make_full, transpose_symmetric, make_symmetric, compute_inv_perm")],
 ["resulting CSC matrices"])
prop("C16", "Elimination tree, post order, counts and factor pattern are exact",
 "For every symmetric pattern the computed elimination tree (and, for a general one, the column elimination tree of A'A) is the true one; the post order visits every node exactly once with children before parents and subtrees contiguous, siblings by weight where weights are given. Row and column counts, first descendants and levels equal those of the Cholesky factor and its tree, and row reach and factor pattern are exactly the factor's nonzeros.",
 ["inputs"], "all symmetric sparsity patterns, including forests, dense and diagonal ones",
 "No test computes any of these against a reference.",
 ["utils/etree.cpp", "utils/lfactor_creation.cpp", "utils/sparse_inspector.cpp", "src/hdagg/hdagg.cpp"],
 [("etree", "utils/etree.cpp compute_etree"), ("post order", "utils/lfactor_creation.cpp tree_post_order"), ("counts", "utils/lfactor_creation.cpp row_col_counts_symmetric"), ("pattern", "utils/lfactor_creation.cpp build_L_pattern_from_col_counts, utils/etree.cpp ereach")],
 ["sym_lib::compute_etree", "sym_lib::tree_post_order", "sym_lib::row_col_counts_symmetric", "sym_lib::ereach", "HDAGG::computeParents"])
prop("C17", "The symbolic factorization pipeline is self-consistent",
 "For every symmetric matrix the symbolic factorization returns a fill-reducing permutation that is a permutation with its inverse, a post-ordered elimination tree of the permuted matrix, and exactly the pattern of that matrix's Cholesky factor with matching counts and operation count.",
 ["inputs"], "all symmetric matrices with full diagonal",
 "No test runs the symbolic pipeline on more than one matrix or checks its parts against each other.",
 ["utils/lfactor_creation.cpp", "utils/metis_interface.cpp", "utils/etree.cpp"],
 [("pipeline", "utils/lfactor_creation.cpp build_symbolic_simplicial_lfactor")],
 ["sym_lib::build_symbolic_simplicial_lfactor"])
prop("C18", "Matrix Market files round-trip and malformed ones are rejected",
 "Reading a well-formed supported Matrix Market file gives exactly the matrix it describes whatever the entry order, symmetry, numeric field and header case, with columns sorted; writing and reading back is the identity to the printed precision. A file that is truncated, has entries out of range or numbers that are not, or is not a supported kind of matrix is refused with an error, never with memory corruption or an endless loop.",
 ["inputs", "fault_sequences"], "all coordinate/array files of supported field and symmetry, all entry orders, truncated and corrupted files",
 "The suite reads no file.",
 ["utils/sparse_io.cpp"],
 [("reader", "utils/sparse_io.cpp read_mtx, read_header, read_triplets_real, compress_triplets_to_csc"), ("writer", "utils/sparse_io.cpp CSC_to_mtx, print_csc")],
 ["sym_lib::read_mtx", "sym_lib::CSC_to_mtx", "sym_lib::read_mtx_csc_real"])
prop("C19", "Blocked (supernodal) form holds exactly the original matrix",
 "Converting a lower-triangular matrix to blocked form yields supernodes that partition the columns in order (detected ones are the maximal runs of nested columns within the size limit), and blocks whose stored values are the original entries with explicit zeros elsewhere, so that expanding them gives the original matrix. The compressed block graph has an edge from a block to another exactly when the block stores a row of the other.",
 ["inputs"], "all lower-triangular matrices with full diagonal, detected or supplied supernodes",
 "No test looks at blocked storage.",
 ["utils/BCSCMatrix.cpp", "utils/sparse_inspector.cpp"],
 [("supernode detection and layout", "utils/BCSCMatrix.cpp"), ("compression", "utils/sparse_inspector.cpp compressed_BCSC_to_CSC")],
 ["sym_lib::BCSCMatrix"])
prop("C20", "METIS orderings are permutations and partitions cover all nodes",
 "For every matrix in lower, upper or general storage the nested-dissection interface returns a permutation of all rows, and the partitioning interfaces assign every row a part number in range, rows merged by coarsening sharing one part; the input matrix is unchanged. The graph handed to METIS is the matrix's own: orderings keep the fill of forests low and partitions of chains are balanced with few cuts.",
 ["inputs", "configurations"], "all square matrices in lower, upper or general storage, all part counts >=2, all coarsening factors >=1",
 "The demos order one matrix and check nothing about the ordering itself.",
 ["utils/metis_interface.cpp", "utils/sparse_utilities.cpp"],
 [("graph construction", "utils/metis_interface.cpp"), ("coarsening", "utils/sparse_utilities.cpp coarsen_k_times")],
 ["sym_lib::metis_perm_symmetric", "sym_lib::metis_perm_general", "sym_lib::metis_partition_*"])
prop("C21", "Merged DAGs contain exactly the union of their dependences",
 "Merging a sequence of DAGs (plain, blocked, with identity or explicit inter-DAG dependences) gives a graph over all their nodes whose edges are exactly the shifted edges of each DAG plus the inter-DAG dependences, with the number of edges it reports. Coarsening every k rows maps each edge to the edge between the groups of its end points and nothing else.",
 ["inputs", "configurations"], "any number of DAGs of equal size, any inter-DAG dependence pattern, any coarsening factor >=1",
 "No test merges graphs.",
 ["utils/sparse_utilities.cpp", "utils/sparse_inspector.cpp"],
 [("merging", "utils/sparse_utilities.cpp merge_graph, merge_DAGs_with_partial_order"), ("coarsening", "utils/sparse_utilities.cpp coarsen_k_times")],
 ["sym_lib::merge_graph", "sym_lib::merge_DAGs_with_partial_order", "sym_lib::coarsen_k_times"])
prop("C22", "Cost models equal the work they stand for",
 "Node cost equals the work the chosen kernel's cost model stands for on that row or column (stored nonzeros of the row/column for triangular solve, plus the nonzeros of the columns it updates for the factorizations), a group's cost is the sum over its nodes, subtree cost is the sum over the subtree, and tree height and node depth are the longest weighted paths.",
 ["inputs", "configurations"], "all matrices, kernels, groupings, forests and weights",
 "No test checks any cost.",
 ["src/hdagg/hdagg.cpp", "utils/sparse_utilities.cpp"],
 [("kernel cost", "src/hdagg/hdagg.cpp costComputation"), ("tree cost", "utils/sparse_utilities.cpp compute_subtree_cost, get_tree_height*")],
 ["HDAGG::costComputation", "sym_lib::compute_subtree_cost", "sym_lib::get_tree_height"])
prop("C23", "Weight and breadth-first partitions keep every element",
 "Partitioning a sequence by target weights returns monotone boundaries that start at zero, end at the sequence length and cut as soon as a part reaches its target, the last part taking the remainder. The breadth-first partitioner lists every node exactly once in breadth-first order, cut by the same rule.",
 ["inputs", "configurations"], "all weight vectors, part counts >=1, target weights and graphs",
 "No test calls them.",
 ["utils/utils.cpp"],
 [("partitioners", "utils/utils.cpp partition_by_weight, partition_by_bfs")],
 ["sym_lib::partition_by_weight", "sym_lib::partition_by_bfs"])
prop("C24", "Inspection never touches memory it does not own",
 "On every admissible input the schedulers, groupings, converters and symbolic routines finish without reading or writing outside their arrays, using uninitialised values or invoking undefined behaviour, and the result does not depend on the previous content of the heap.",
 ["inputs", "configurations"], "all admissible inputs of all public inspection routines",
 "A stray access usually goes unnoticed in an uninstrumented run of three tests.",
 ["src", "utils", "include/aggregation"],
 [("array sizing", "all inspectors")],
 ["AddressSanitizer, UBSan and Memcheck reports"])
prop("C25", "Inspectors are deterministic and leave their inputs alone",
 "Running any scheduler, wavefront builder, grouping or sparsification twice on the same input, with other work in between, gives identical outputs, and the input graph, costs and trees are bit-identical afterwards.",
 ["inputs", "histories"], "all admissible inputs; any history of earlier inspector calls in the process",
 "The tests run each routine once.",
 ["src", "utils"],
 [("no hidden state", "all inspectors")],
 ["outputs of repeated calls", "input arrays"])
prop("C26", "AMD ordering always returns a permutation",
 "For every valid square pattern the bundled minimum-degree ordering succeeds and returns a permutation of the columns that causes no fill on forests, puts dense rows last and reports correct statistics (upper bounds for factor size and operations), which the printed reports of settings and results show as they are; unsorted or duplicated entries are accepted with the documented warning status, and invalid patterns are rejected with the documented error status. Running out of memory at any allocation is reported as such with nothing leaked.",
 ["inputs"], "all square patterns including dense rows, empty columns, duplicates; invalid pointers or indices",
 "No test calls it.",
 ["utils/external/amd_order.c", "utils/external/amd_1.c", "utils/external/amd_2.c", "utils/external/amd_aat.c", "utils/external/amd_valid.c", "utils/external/amd_preprocess.c", "utils/external/amd_postorder.c", "utils/external/amd_control.c", "utils/external/amd_info.c"],
 [("ordering", "utils/external/amd_order.c amd_order"), ("validation", "utils/external/amd_valid.c amd_valid"), ("reports", "utils/external/amd_control.c, amd_info.c")],
 ["amd_order, amd_valid"])
prop("C27", "Matrix Market library routines write and read back what they are given",
 "For every type code and every coordinate matrix, the bundled Matrix Market routines report success exactly when they did their job: banner, size line and entries that were written are read back unchanged (values to the printed precision) by each of the reading routines, type names and validity follow the format's rules in any letter case, and comments and blank lines are skipped. Missing, truncated or unsupported files and malformed headers are reported with an error and never as data.",
 ["inputs", "faults"], "all type codes, sizes and entry lists; banners in any case and spacing; files cut anywhere in their entries",
 "No test calls these routines directly; the readers use three of them on two files.",
 ["utils/external/mmio.cpp", "include/aggregation/mmio.h"],
 [("headers", "utils/external/mmio.cpp mm_read_banner, mm_write_banner, mm_*_size, mm_is_valid, mm_typecode_to_str"), ("entries", "utils/external/mmio.cpp mm_read_mtx_crd*, mm_write_mtx_crd, mm_read_unsymmetric_sparse")],
 ["status codes", "arrays read back"])
prop("C28", "Helper computations, records and the measuring driver do what they say",
 "Maximum norm and residual, range copies, sums, tridiagonal matrices (of any size), the time measured since the start and the median of measured times, overflow-checked size arithmetic, file-name stripping (the directories and the last extension are removed) and trimming give the defined result for every input. The memory wrappers refuse sizes that do not fit and keep the old block when memory runs out; hypotenuse and complex division (by nonzero numbers) are accurate without spurious overflow, and elapsed times match the clock. The measuring driver inspects once, resets its vectors before every run, returns a median of the runs and reports a solution as wrong exactly when it is, and the time of the inspection; a result row has one value for each column of its header; the CSV writer stores exactly the complete records, after a header written once per new file.",
 ["inputs", "histories"], "all vectors and ranges, all operand pairs of size arithmetic, all sequences of record operations",
 "No test calls them; an off-by-one at a range end or an undetected overflow shows for particular inputs only.",
 ["utils/utils.cpp", "utils/sparse_utilities.cpp", "utils/FusionDemo.cpp", "utils/external/SuiteSparse_config_s.c", "include/aggregation/csv_utils.h", "include/aggregation/utils.h"],
 [("size arithmetic", "utils/utils.cpp mult_size_t, add_size_t, time_median, strip_name"), ("vectors", "utils/sparse_utilities.cpp norm, residual, copy_vector_dense, tridiag, save_vector"), ("driver", "utils/FusionDemo.cpp evaluate"), ("memory, arithmetic, timer", "utils/external/SuiteSparse_config_s.c"), ("records", "include/aggregation/csv_utils.h CSVManager")],
 ["return values", "call order of the driver", "record file"])
prop("C29", "Aggregated schedules keep wavefronts whole and add no synchronisation",
 "For every DAG and tuning, the levels of an LBC (general, tree, blocked), HDagg or GLC schedule are consecutive, non-empty ranges of whole wavefronts of the graph (tree, supernode graph) that was scheduled, in order and covering all of them, so a schedule never has more levels (barriers) than there are wavefronts. With bin packing off, every part is a connected piece of the subgraph its level executes, so independent work is never tied together. Equal independent pieces with one source each, as many per core, are run by HDagg and GLC in a single level without any barrier, the same number by each core. LBC cuts where its tuning asks: the general one after the initial cut and then every coarsening factor's number of wavefronts, up to the last one wider than a node; the tree-based and the blocked one the given distance below the last wavefront wider than the part count, which the ratio divides for each further cut.",
 ["inputs", "configurations"], "all DAGs, forests, supernode graphs, cost vectors, tunings and core counts",
 "The tests only compare solutions, which more barriers or needlessly merged parts do not change.",
 ["src/lbc_csc_dag.cpp", "src/lbc_csc.cpp", "src/lbc_tree.cpp", "src/lbc_blocked.cpp", "src/lbc_utils.cpp", "src/hdagg/hdagg.cpp"],
 [("cuts", "src/lbc_utils.cpp height_partitioning, height_partitioning_DAG_trng"), ("components", "src/lbc_csc_dag.cpp, src/hdagg/hdagg.cpp computeCC, parallel_cc")],
 ["level, part and node arrays"])
prop("C30", "A matrix file goes through the whole pipeline and comes out solved",
 "For every symmetric positive definite matrix in a Matrix Market file, the documented chain of steps fits together. Reading, expanding to full, ordering (natural, METIS, minimum degree), halving and permuting twice give exactly the lower half of the reordered matrix, diagonal first and sorted, by columns and by rows. Every chain of inspectors run on it (wavefronts; general, tree, parallel and self-tuned LBC; coarsened levels; HDagg and GLC directly or after sparsification, grouping and expansion; row groups scheduled by LBC; blocked LBC over detected supernodes) yields an order in which the triangular system is solved to its solution. Factorizing on the pattern of the symbolic factorization and solving forward and backward in the order of the tree schedule, with its permutation undone, solves the original system A x = b.",
 ["inputs", "configurations"], "all symmetric positive definite matrices, orderings, chains of inspectors, tunings and core counts",
 "Each step can be right alone while two disagree on what they hand over (the direction of a permutation, which half is stored, diagonal first); the demos show it for one matrix.",
 ["utils/sparse_io.cpp", "utils/sparse_utilities.cpp", "utils/metis_interface.cpp", "utils/lfactor_creation.cpp", "utils/BCSCMatrix.cpp", "src/lbc_csc_dag.cpp", "src/lbc_tree.cpp", "src/lbc_blocked.cpp", "src/hdagg/hdagg.cpp", "src/group.cpp", "example/lbc_demo.cpp", "example/SpTRSV_runtime.cpp"],
 [("preparation", "example/lbc_demo.cpp, example/SpTRSV_runtime.cpp: read_mtx, make_full, metis_perm_general, make_half, transpose_symmetric, csc_to_csr"), ("inspectors", "src/lbc_csc_dag.cpp, src/lbc_tree.cpp, src/lbc_blocked.cpp, src/hdagg/hdagg.cpp, src/group.cpp"), ("factorization", "utils/lfactor_creation.cpp build_symbolic_simplicial_lfactor, utils/BCSCMatrix.cpp")],
 ["reordered matrix", "schedules", "solutions"])
prop("C31", "Independent inspections can run at the same time",
 "Threads of one program that each call the library on objects of their own (matrices, files, trees, graphs, groupings, schedules), or that share only what the calls take as input (a matrix, graph, tree, ordering, cost vector), do not affect one another: the inspectors, groupings, matrix operations, symbolic analysis, file readers and writers of a serial build keep no hidden state and never write to their inputs, not even to restore them afterwards, so there is no data race between such calls, and each call returns exactly what it returns when it is made alone. Routines that hand their work to METIS, whose random generator is one per process, and those that print to standard output or set process-wide switches are excepted.",
 ["schedules", "histories", "inputs"], "all combinations of calls in different threads, all their interleavings, all inputs",
 "The tests are single threaded; a work array or counter that became static would pass each of them.",
 ["src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/lbc_tree.cpp", "src/lbc_blocked.cpp", "src/lbc_utils.cpp", "src/sparse_inspector.cpp", "src/group.cpp", "src/hdagg/hdagg.cpp", "utils/sparse_utilities.cpp", "utils/sparse_io.cpp", "utils/lfactor_creation.cpp", "utils/external/SuiteSparse_config_s.c", "utils/external/mmio.c"],
 [("inspectors", "src/*.cpp, src/hdagg/hdagg.cpp: every routine allocates what it works with"), ("process-wide data", "utils/external/SuiteSparse_config_s.c SuiteSparse_config1, read only after start")],
 ["accesses to shared memory", "outputs per thread"])
