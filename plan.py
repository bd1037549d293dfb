"""What every check runs: which monitors (sub), in which build (mode), over how many generated
cases per tier, and which observations must be non-zero for the run to count."""
SCHED = "generated inputs run through the real scheduler; an online monitor checks the emitted schedule (coverage, part counts, every edge) against the input graph; ASan/UBSan watch the run"
DIFF = "generated inputs run through the real routine under ASan/UBSan; the result is compared with an independent reference computed by the monitor from the dense/set form of the input"
NT = "distinct = different hash of the generated input and tuning; non-trivial = the input has at least two nodes/rows and at least one dependence (or, for matrices, an off-diagonal entry)"
SAMPLED = ["inputs are sampled, not enumerated: sizes up to about 100 nodes with occasional inputs of a few thousand, a handful per run beyond 65536 rows",
           "admissible input as described in DESIGN.md (sorted columns, diagonal first, total cost below 2^31)"]


def one(sub, quick, thorough, technique, note, require, mode="asan", **kw):
    d = dict(technique=technique, note=note, rule=NT, require=require, assumptions=SAMPLED,
             steps=[dict(sub=sub, mode=mode, quick=quick, thorough=thorough)])
    d.update(kw)
    return d


S = "runtime monitoring of sampled executions: "
OBS = ["obs.nodes", "obs.levels_with_parallelism", "obs.edges_cross_level", "obs.edges_same_part", "obs.parts_with_several_nodes"]
PLAN = {
 "C01": one("C01", 60000, 120000, SCHED, S + "six entry points per case over 20 graph shapes", OBS + ["call.lbc_dag", "call.lbc_dag03", "call.lbc_dag03_par", "call.lbc_dag_nobin", "obs.large_windows"]),
 "C02": one("C02", 80000, 600000, SCHED, S + "tree and DAG-through-tree entry points", OBS + ["call.lbc_tree", "call.lbc_dag_tree"]),
 "C03": one("C03", 50000, 600000, SCHED, S + "supernode graphs of factor patterns", OBS + ["in.wide_supernodes"]),
 "C04": one("C04", 35000, 400000, SCHED, S + "eight flag combinations per case", OBS + ["obs.merged_levels", "obs.ordered_parts"]),
 "C05": one("C05", 120000, 600000, SCHED, S + "self-tuned scheduler and its tuning", ["obs.nodes", "obs.edges_cross_level", "obs.edges_same_part", "obs.config_coarsen", "obs.config_wavefront", "obs.coarsened_graphs", "obs.wavefront_graphs", "obs.levels_with_parallelism"]),
 "C06": one("C06", 40000, 400000, DIFF, S + "longest-path reference for every builder, cyclic inputs included", ["in.acyclic", "in.cyclic", "obs.cycles_reported", "obs.fused_levels", "obs.levels"]),
 "C07": dict(technique="the shipped kernels run over schedules from every scheduler, with parts permuted inside levels and with OpenMP teams under a runtime shim that controls size and order; solutions compared with an independent long-double solve; ASan/UBSan watch the run", note=S + "all shipped kernels and schedulers, serial permutations plus real teams", rule=NT,
             require=["obs.solves", "obs.parallel_levels", "obs.regions", "obs.barriers"], assumptions=SAMPLED + ["well conditioned matrices; equality up to 1e-9 of the largest entry"],
             steps=[dict(sub="C07", mode="asan", quick=4000, thorough=100000), dict(sub="C07", mode="omp", quick=1500, thorough=30000, jobs=4)]),
 "C08": dict(technique="OpenMP build of the real sources on a runtime shim that controls team size, delays and the order of threads between barriers: ThreadSanitizer (happens-before race detector) watches every access in one build, ASan/UBSan in the other, and monitors compare every team's output with the one-thread output and check its validity", note=S + "races and thread-count dependence over sampled inputs, team sizes 2-32 and three scheduling modes", rule=NT,
             require=["obs.team_runs", "obs.regions", "obs.barriers", "obs.singles", "obs.large_windows", "obs.wide_teams"], cpu=120, assumptions=SAMPLED + ["integer node costs so that sums do not depend on order", "gcc's OpenMP lowering; the shim stands for libgomp"],
             steps=[dict(sub="C08", mode="tsan", quick=900, thorough=15000, jobs=4), dict(sub="C08", mode="omp", quick=900, thorough=15000, jobs=4)]),
 "C09": one("C09", 150000, 600000, "generated DAGs through the real sparsification under ASan/UBSan; monitor compares edge sets and transitive closures before and after", S + "closure comparison", ["obs.edges_removed", "obs.edges_kept", "obs.cliques"]),
 "C10": one("C10", 6000, 120000, DIFF, S + "seven groupings per case, plain and sparsified graphs", ["obs.groups", "obs.group_edges", "obs.grouped_nodes", "obs.exact_groups"]),
 "C11": one("C11", 6000, 120000, SCHED, S + "expansion, part graph, tiling and conversion of real schedules", ["obs.nodes", "obs.tiled_nonzeros", "obs.group_edges", "call.ungroup_post", "call.ungroup_sort"]),
 "C12": one("C12", 50000, 400000, DIFF, S + "five grouping variants and their dependence inspectors", ["obs.dependences", "obs.groups", "obs.multi_groups", "obs.two_cycles"]),
 "C13": one("C13", 50000, 400000, "monitors on part counts of emitted schedules and replay of each packing decision against a greedy reference", S + "packing replay", ["obs.large_windows", "obs.levels_packed", "obs.levels_checked", "obs.hdagg_levels", "obs.unit_packings", "obs.windows_shared", "obs.windows_serial"]),
 "C14": one("C14", 50000, 400000, DIFF, S + "entry-set reference", ["obs.entries", "in.pattern", "in.rectangular", "in.unsorted"]),
 "C15": one("C15", 15000, 300000, DIFF, S + "dense reference", ["obs.entries", "obs.rejected", "in.pattern"]),
 "C16": one("C16", 5000, 100000, DIFF, S + "brute-force symbolic elimination as reference", ["obs.counts_checked", "obs.postordered_nodes", "obs.row_entries", "obs.tree_nodes"]),
 "C17": one("C17", 20000, 400000, DIFF, S + "pipeline outputs checked against brute-force elimination of the permuted matrix", ["obs.factor_nnz", "obs.forests", "obs.moved_rows", "obs.tree_nodes"]),
 "C18": one("C18", 120000, 400000, "generated well-formed, truncated, corrupted and unsupported files are read by the real readers under ASan/UBSan with exit() and the CPU clock watched; results compared with the generator's own description", S + "file mutation plus round trips", ["obs.files_read", "obs.round_trips", "obs.entries_read", "obs.refused_by_null", "obs.refused_by_exception", "obs.bad_arrays", "obs.diagonals_inserted", "obs.bad_huge_size", "in.wide_files", "in.tall_files"]),
 "C19": one("C19", 20000, 400000, DIFF, S + "entry-set and supernode reference", ["obs.blocks", "obs.wide_blocks", "obs.padding_zeros", "in.detected", "in.given"]),
 "C20": one("C20", 8000, 150000, DIFF + "; quality monitors on forests and chains", S + "every ordering and partition interface in three storages", ["obs.ordered_rows", "obs.partitioned_rows", "obs.forests", "obs.chains_partitioned"]),
 "C21": one("C21", 50000, 400000, DIFF, S + "edge-set reference", ["obs.entries", "in.graphs"]),
 "C22": one("C22", 40000, 400000, DIFF, S + "kernel formulas and tree recursions recomputed independently", ["obs.costs", "obs.tree_height"]),
 "C23": one("C23", 150000, 600000, DIFF, S + "cut rule replayed", ["obs.weight_parts", "obs.nodes", "obs.parts"]),
 "C26": one("C26", 15000, 300000, DIFF + "; allocation failures injected at every allocation of the call with leak accounting", S + "ordering, validation and fault injection", ["obs.ordered_rows", "obs.rejections", "obs.injected_failures", "obs.jumbled", "obs.with_dense_rows", "obs.forests", "obs.reports"]),
}
PLAN["C27"] = one("C27", 80000, 400000, "generated headers, type codes and coordinate files written and read back by the real library routines under ASan/UBSan; status codes and contents compared with the generator's own description", S + "every routine of the library on every type", ["obs.headers", "obs.entries", "obs.truncated_files", "obs.banners_refused", "obs.banners_read", "obs.invalid_types", "obs.size_lines", "obs.printed", "obs.bad_files"])
PLAN["C28"] = one("C28", 60000, 400000, DIFF + "; a probe subclass records the driver's calls and the record file is compared with the calls made", S + "helpers recomputed independently", ["obs.vectors", "obs.matrices", "obs.medians", "obs.overflows", "obs.products", "obs.names", "obs.evaluations", "obs.records", "obs.partial_records", "obs.refused_sizes", "obs.reallocations", "obs.timings", "obs.result_rows"])
PLAN["C29"] = one("C29", 40000, 400000, "generated inputs run through the real schedulers under ASan/UBSan; a monitor maps every schedule level to the wavefronts (longest-path reference) it executes and every part to the connected pieces of its level", S + "all schedulers, wavefront and component reference", ["obs.merged_wavefronts", "obs.connected_parts", "obs.equal_pieces", "obs.dag_cuts", "obs.tree_cuts", "obs.levels", "call.lbc_dag", "obs.large_windows", "call.lbc_tree", "call.lbc_blocked", "call.hdagg_nobin", "call.glc_nobin"])
PLAN["C30"] = one("C30", 50000, 600000, "generated matrix files run through the real pipelines under ASan/UBSan; the reordered matrix is compared entry by entry with one derived from the file, each schedule is replayed with the parts of a level in random order and the solutions compared with long double references and with the known solution of A x = b", S + "whole chains of steps, four orderings, fourteen schedules per matrix", ["obs.systems_solved", "obs.parallel_levels", "obs.ordered_natural", "obs.ordered_metis_general", "obs.ordered_metis_symmetric", "obs.ordered_amd", "obs.solves_wavefronts", "obs.solves_lbc", "obs.solves_lbc03", "obs.solves_lbc03_par", "obs.solves_lbc_tree", "obs.solves_lbc_config", "obs.solves_coarsened", "obs.solves_hdagg", "obs.solves_glc", "obs.solves_group_wavefronts", "obs.solves_hdagg_groups", "obs.solves_row_group_lbc", "obs.solves_blocked", "obs.solves_factor_tree", "obs.solves_factor_blocked"])
PLAN["C31"] = one("C31", 5000, 100000, "serial build of the real sources under ThreadSanitizer: two to four threads inspect inputs of their own, or inputs they share, at the same time; the happens-before detector watches every access, and each thread's outputs are compared with those of the same calls made alone afterwards", S + "races on state shared behind the callers' backs and results that depend on other threads, over the calls of the other workloads, and writes to inputs over 48 calls on shared matrices, graphs and trees", ["obs.threads", "obs.shared_calls", "obs.shared_threads", "obs.overlapping_inspections", "obs.at_once_2", "obs.at_once_3", "obs.at_once_4", "obs.same_input", "obs.same_routine", "obs.mixed_routines", "obs.outputs_compared", "obs.calls_C01", "obs.calls_C02", "obs.calls_C03", "obs.calls_C04", "obs.calls_C05", "obs.calls_C06", "obs.calls_C09", "obs.calls_C10", "obs.calls_C11", "obs.calls_C12", "obs.calls_C13", "obs.calls_C14", "obs.calls_C15", "obs.calls_C16", "obs.calls_C18", "obs.calls_C19", "obs.calls_C21", "obs.calls_C22", "obs.calls_C23", "obs.calls_C26", "obs.calls_C27"], mode="mt", cpu=120)
PLAN["C31"]["steps"][0]["jobs"] = 4
PLAN["C31"]["steps"].append(dict(sub="C31S", mode="mt", quick=8000, thorough=200000, jobs=4))
MALLOC = {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}
PLAN["C24"] = dict(technique="the workloads of every inspection property run under AddressSanitizer and UBSan, under Valgrind Memcheck (uninitialised values), and with two different contents of freshly allocated memory whose outputs are compared", note=S + "three memory monitors over 24 workloads", rule=NT,
             require=["obs.calls", "obs.heap_fills", "obs.outputs_compared"] + ["obs.calls_C%02d" % k for k in (1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 26, 27, 28)], cpu=60, assumptions=SAMPLED + ["leaks are not claimed"],
             steps=[dict(sub="C24", mode="asan", quick=16800, thorough=600000), dict(sub="C24", mode="plain", quick=16800, thorough=600000, env=MALLOC),
                    dict(sub="C24", mode="plain", memcheck=True, quick=2400, thorough=60000, offset=10000000, env={"VH_MEMCHECK": "1"})])
PLAN["C25"] = dict(technique="record and repeat: every output of a workload is digested, other inspectors run and the heap is stirred, the same inputs are inspected again and the digests compared; snapshots of every input are compared after each call", note=S + "repeated calls over 21 workloads with random histories", rule=NT,
             require=["obs.repeats", "obs.history_calls", "obs.outputs_compared"] + ["obs.calls_C%02d" % k for k in (1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 21, 22, 23, 26)], cpu=60, assumptions=SAMPLED,
             steps=[dict(sub="C25", mode="asan", quick=6300, thorough=200000), dict(sub="C25", mode="plain", quick=21000, thorough=600000, env=MALLOC)])
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20", "C21", "C22", "C23", "C26", "C29", "C30"):
    PLAN[_p]["require"] = PLAN[_p]["require"] + ["in.beyond_65536_rows"]
PLAN = dict(sorted(PLAN.items()))
PENDING = {}
