#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

BASE = "The suite has one Catch case (an LBC run on one random lower-triangular matrix) and two demos on a single generated matrix; "
prop("C01", "General-DAG LBC schedules are complete and dependence-safe",
 "For every lower-triangular CSC dependence DAG (diagonal first, rows ascending), every node cost vector and every admissible tuning, each general-DAG LBC entry point (standard, direct, and parallel-inspector variants, with and without bin packing) terminates and returns level, part and node arrays in which every node occurs exactly once. For every edge u->v either u's level is strictly earlier than v's, or both are in the same part of the same level with u before v. The reported part count equals the number of parts in the schedule.",
 ["inputs", "configurations"], "all DAGs with n>=1, costs >=0, innerParts>=1, initial cut -1 or >=1, divRate>=1 (>=2 with cut -1)",
 BASE + "validity must hold for every graph shape (diagonal, chains, forests, fill-in factors, hubs) and tuning; a wrong component, cut or bin-packing decision shows only on specific shapes.",
 ["src/lbc_csc_dag.cpp", "src/lbc_csc.cpp", "src/lbc_utils.cpp", "utils/sparse_inspector.cpp", "utils/sparse_utilities.cpp"],
 [("height partitioning", "src/lbc_utils.cpp height_partitioning_DAG_trng"), ("connected components per window", "src/lbc_csc_dag.cpp, src/lbc_utils.cpp dfs_CSC_CC"), ("worst-fit bin packing", "src/lbc_utils.cpp worst_fit_bin_pack"), ("in-part topological order", "utils/sparse_utilities.cpp modified_BFS_CSC")],
 ["sym_lib::get_coarse_levelSet_DAG_CSC", "sym_lib::get_coarse_Level_set_DAG_CSC03", "sym_lib::get_coarse_Level_set_DAG_CSC03_parallel"])
prop("C02", "Elimination-tree LBC schedules are complete and dependence-safe",
 "For every forest of parent pointers, and for every DAG scheduled through its elimination tree (symmetric lower half), tree-based LBC terminates and returns a schedule in which every node occurs exactly once and every child executes before its parent: in an earlier level, or earlier inside the same part of the same level. For the DAG entry point the same holds for every edge of the input DAG, and the reported part count equals the number of parts.",
 ["inputs", "configurations"], "all forests/DAGs with n>=1, non-negative costs, innerParts>=1, initial cut -1 or >=1, divRate>=2",
 BASE + "neither explores forest shapes, degenerate trees or tunings.",
 ["src/lbc_tree.cpp", "src/lbc_csc.cpp", "src/lbc_utils.cpp", "utils/sparse_inspector.cpp", "utils/sparse_utilities.cpp"],
 [("subtree splitting", "utils/sparse_utilities.cpp post_order_spliting"), ("tree level cut", "src/lbc_utils.cpp height_partitioning"), ("tree level sets", "utils/sparse_inspector.cpp build_level_set_tree_efficient")],
 ["sym_lib::get_coarse_levelSet_tree", "sym_lib::get_coarse_levelSet_DAG_CSC_tree"])
prop("C03", "Blocked LBC schedules are valid for the supernode graph",
 "For every lower-triangular factor pattern with a partition of its columns into supernodes, blocked LBC returns a schedule in which every supernode occurs exactly once. Whenever a supernode updates a row of another supernode, the updating one runs in an earlier level or earlier in the same part. The reported part count matches the schedule.",
 ["inputs", "configurations"], "all Cholesky-factor patterns with fundamental, maximal-chain or singleton supernodes and all admissible tunings",
 "No test runs the blocked scheduler at all.",
 ["src/lbc_blocked.cpp", "src/lbc_utils.cpp", "utils/sparse_inspector.cpp", "utils/sparse_utilities.cpp"],
 [("blocked components", "src/lbc_utils.cpp dfs_BCSC_CC"), ("blocked level set", "utils/sparse_inspector.cpp build_levelSet_BCSC"), ("blocked BFS", "utils/sparse_utilities.cpp modified_BFS_BCSC")],
 ["sym_lib::getCoarseLevelSet_DAG_BCSC02"])
prop("C04", "HDagg and GLC schedules are complete and dependence-safe",
 "For every dependence DAG, node cost vector and core count, HDagg and GLC (with bin packing on or off, sorted or post-ordered) return a schedule in which every node occurs exactly once and every edge u->v goes to a strictly later level or stays inside one part with u before v. The level boundaries they report cover all wavefronts, and their input graph is left as it was. Packed HDagg parts list their nodes ascending, or in the DAG's post order if that is asked for.",
 ["inputs", "configurations"], "all lower-triangular DAGs with n>=1, non-negative costs, cores>=1, every flag combination that is supported",
 BASE + "the merge/pack decision depends on wavefront widths and costs which a single matrix cannot vary.",
 ["src/hdagg/hdagg.cpp"],
 [("window merging", "src/hdagg/hdagg.cpp HDAGG, GLC_V2"), ("incremental components", "src/hdagg/hdagg.cpp computeCC, parallel_cc"), ("schedule emission", "src/hdagg/hdagg.cpp computeSchedule")],
 ["HDAGG::HDAGG", "HDAGG::GLC_V2"])
prop("C05", "The coarsened-level scheduler is complete and dependence-safe",
 "For every DAG and core count the coarsened-level scheduler, which picks its own tuning, terminates with a schedule holding every node exactly once in which every edge goes to a later level or stays in one part with the source first. The tuning it derives has as many parts as cores and a coarsening factor that is not negative and no smaller for a denser matrix of the same size. Every level of the schedule covers exactly the next so many wavefronts and its parts are the connected pieces of the level (one part per wavefront when the factor is zero).",
 ["inputs", "configurations"], "all lower-triangular DAGs with n>=1 and all core counts >=1",
 "No test calls it; the derived tuning varies with size, density and cores.",
 ["src/hdagg/hdagg.cpp", "src/lbc_utils.cpp", "src/lbc_csc_dag.cpp"],
 [("coarsening", "src/hdagg/hdagg.cpp build_coarsened_level_parallel"), ("tuning", "lbc_config")],
 ["HDAGG::build_coarsened_level_parallel", "sym_lib::lbc_config"])
prop("C06", "Level sets are the longest-path wavefronts of the graph",
 "For every acyclic graph each wavefront builder (general CSC, queue based, tree based, blocked, fused multi-graph and HDagg variants) returns as level of a node the length of the longest path reaching it, lists every node exactly once grouped by level, and reports the number of levels. The builders that detect cycles report a graph with a cycle as such instead of yielding a schedule.",
 ["inputs"], "all DAGs in CSC form, any topological numbering, forests, blocked patterns, and cyclic graphs for the builders that promise detection",
 BASE + "level numbers on chains, isolated nodes and cyclic inputs are never looked at.",
 ["utils/sparse_inspector.cpp", "src/hdagg/hdagg.cpp"],
 [("in-degree peeling", "utils/sparse_inspector.cpp build_levelSet_CSC, buildLevelSet_CSC_Queue"), ("tree levels", "utils/sparse_inspector.cpp build_level_set_tree*"), ("HDagg wavefronts", "src/hdagg/hdagg.cpp build_levelSet_CSC, computingLevelSet_CSC, computingNode2Level")],
 ["sym_lib::build_levelSet_CSC", "sym_lib::buildLevelSet_CSC_Queue", "sym_lib::build_level_set_tree_efficient", "HDAGG::build_levelSet_CSC"])
json_path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")).read())
with open(json_path, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
