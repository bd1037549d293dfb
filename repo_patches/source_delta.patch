From 230d4c9a6d01c7048a1e0df4391bb933e570f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:10 +0000
Subject: [PATCH 01/69] fix: level-set builders report a cycle only when no
 node is ready

An acyclic graph with as many levels as nodes (a chain, a single node) was
reported as cyclic.
---
 src/hdagg/hdagg.cpp        |  6 +++++-
 utils/sparse_inspector.cpp | 11 +++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index b46dfd8..8f17b1b 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -40,8 +40,12 @@ namespace HDAGG
             }
             cur_level++; //all nodes_ with zero indegree are processed.
             //assert(cur_level < n);
-            if (cur_level >= n)
+            if (cur_levelCol == levelPtr[cur_level - 1])
+            { // no node became ready
+                delete[] inDegree;
+                delete[] visited;
                 return -1; // The input graph has a cycle
+            }
                 levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
                 while (inDegree[begin] == 1) // Why? Behrooz
                     {
diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 90dc525..44c5f53 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -34,8 +34,11 @@ namespace sym_lib {
    }
    cur_level++;//all nodes_ with zero indegree are processed.
    //assert(cur_level < n);
-   if (cur_level >= n)
+   if (cur_levelCol == levelPtr[cur_level - 1]) { // no node became ready
+    delete[]inDegree;
+    delete[]visited;
     return -1; // The input graph has a cycle
+   }
    levelPtr[cur_level] = cur_levelCol;
    while (inDegree[begin] == 1) {
     begin++;
@@ -981,8 +984,12 @@ namespace sym_lib {
      }
      cur_level++; //all nodes_ with zero indegree are processed.
      //assert(cur_level < n);
-     if (cur_level >= n)
+     if (cur_levelCol == levelPtr[cur_level - 1])
+     { // no node became ready
+       delete[] inDegree;
+       delete[] visited;
        return -1; // The input graph has a cycle
+     }
      levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
      while (inDegree[begin] == 1) // Why? Behrooz
      {
-- 
2.43.0


From d16502549cd22ce8e25d8f1f62eb70705984f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:10 +0000
Subject: [PATCH 02/69] fix: blocked level set scans past the last block

---
 utils/sparse_inspector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 44c5f53..588c057 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -163,7 +163,7 @@ namespace sym_lib {
    assert((size_t) cur_levelCol >= 0);
    assert((size_t) cur_level <= blockNo);
    levelPtr[cur_level] = cur_levelCol;
-   while (inDegree[begin] == 1)
+   while (begin <= end && inDegree[begin] == 1)
     begin++;
    while (inDegree[end] == 1 && begin <= end)
     end--;
-- 
2.43.0


From e58eb420508defb34b14cc2ce72eb29479bfa968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:10 +0000
Subject: [PATCH 03/69] fix: tree level set writes past its counters for a
 single node

---
 utils/sparse_inspector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 588c057..d23c0d6 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -463,7 +463,7 @@ namespace sym_lib {
                                     const int *nChild1,
                                     int *levelPtr, int *levelSet, int *node2level) {
   int maxLen = 0, level = 0, num_levels=0;
-  auto *level_cnt = new int[n]();
+  auto *level_cnt = new int[n + 1]();
   for (int i = 0; i < n; ++i) {
    if (nChild1[i] == 0) {
     levelSet[levelPtr[1]] = i;
-- 
2.43.0


From 1a9448eb8531015163ccdd01416d1e88da42799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:10 +0000
Subject: [PATCH 04/69] fix: last l-partition ends at the last level, not one
 past it

The schedulers read one level pointer (and level cost) past the end.
---
 src/lbc_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 4b97bb0..30d71a8 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -253,7 +253,7 @@ namespace sym_lib{
    partition2Level[++lClusterCnt] = tmp;
    tmp += divRate;
   }
-  partition2Level[++lClusterCnt] = originalHeight + 1;
+  partition2Level[++lClusterCnt] = originalHeight;
   innerPartsSize.push_back(1);//The last partition has one element TODO is this true??
   delete[]accuSlackGroups;
   return lClusterCnt;
@@ -312,7 +312,7 @@ namespace sym_lib{
     }
    }
    if (f_spart){
-       partition2Level[++lClusterCnt] = originalHeight + 1;
+       partition2Level[++lClusterCnt] = originalHeight;
        innerPartsSize.push_back(1);//The last partition has one element
    }
   } else {
@@ -336,7 +336,7 @@ namespace sym_lib{
     preLevelCut = levelCut;
     levelCut = 0; // starting from the root
    }
-   partition2Level[++lClusterCnt] = originalHeight + 1;
+   partition2Level[++lClusterCnt] = originalHeight;
    innerPartsSize.push_back(1);//The last partition has one element
   }
   delete[]accuSlackGroups;
-- 
2.43.0


From 90731c0003faafd7f045c72a4c1ad3346f3ef2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:10 +0000
Subject: [PATCH 05/69] fix: part pointer needs one entry more than the number
 of parts

---
 src/lbc_blocked.cpp | 2 +-
 src/lbc_csc.cpp     | 2 +-
 src/lbc_csc_dag.cpp | 4 ++--
 src/lbc_tree.cpp    | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 8b009f4..a325f2c 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -44,7 +44,7 @@ namespace sym_lib {
   int clusterCnt = 0;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
   int *inDegree = new int[n];
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 0213797..9d5a4fd 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -37,7 +37,7 @@ namespace sym_lib {
   std::vector<std::vector<int>> newLeveledParList, mergedLeveledParList;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 8361691..6ced3aa 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -334,7 +334,7 @@ int get_coarse_Level_set_DAG_CSC03_parallel(
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  finaLevelPtr[0] = 0;
 
@@ -419,7 +419,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  int *inDegree = new int[n];
  finaLevelPtr[0] = 0;
diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index fc8552a..41ade6b 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -18,7 +18,7 @@ namespace sym_lib {
                               int minLevelDist,
                               int divRate,
                               double *nodeCost) {
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 //  auto *nodeColWidth = new int[n]();
   partNo = 0;
-- 
2.43.0


From fafa8302e2e6796e23adb411d8c584921a97b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:10 +0000
Subject: [PATCH 06/69] fix: LBC reports the number of parts it produced

---
 src/lbc_blocked.cpp | 1 +
 src/lbc_csc.cpp     | 1 +
 src/lbc_csc_dag.cpp | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index a325f2c..ee67eba 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -260,6 +260,7 @@ namespace sym_lib {
   }
 
   finaLevelNo = lClusterCnt;
+  partNo = finaLevelPtr[finaLevelNo];
   if (true) {//Verification of the set.
    bool *checkExist = new bool[n];
    for (int i = 0; i < n; ++i) checkExist[i] = false;
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 9d5a4fd..0c88502 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -261,6 +261,7 @@ namespace sym_lib {
   }
 
   finaLevelNo = lClusterCnt;
+  partNo = finaLevelPtr[finaLevelNo];
 #ifdef CHECK
   if (true) {//Verification of the set.
       bool *checkExist = new bool[n];
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 6ced3aa..f63dacf 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -372,6 +372,7 @@ int get_coarse_Level_set_DAG_CSC03_parallel(
                           levelPtr, levelSet, numThreads, binPacking);
 
  finaLevelNo = lClusterCnt;
+ partNo = finaLevelPtr[finaLevelNo];
  if (true) { // Verification of the set.
   bool *checkExist = new bool[n];
   for (int i = 0; i < n; ++i)
@@ -650,6 +651,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
  }
 
  finaLevelNo = lClusterCnt;
+ partNo = finaLevelPtr[finaLevelNo];
  //  std::cout<<tt_ts<<",";
  if (true) { // Verification of the set.
   bool *checkExist = new bool[n];
-- 
2.43.0


From 92e9b862bdb1d89d6f32a276e3f48daaded2b227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:58 +0000
Subject: [PATCH 07/69] fix: blocked LBC merges all clusters a component
 touches

Only the clusters after the first listed one were merged into the smallest
one, and the cluster count was reduced although ids stay in use, so dependent
blocks could land in concurrent parts.
---
 src/lbc_blocked.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index ee67eba..3d82231 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -124,16 +124,17 @@ namespace sym_lib {
 
      isCC = needAliased.size() == 0;
      if (!isCC) {//There are some intersection between found CCs.
-      for (int j = 1; j < needAliased.size(); ++j) {//the first is min
+      for (int j = 0; j < needAliased.size(); ++j) {
        int tn = node2partition[needAliased[j]];
-       for (int i = 0; i < n; ++i) {
-        //Replace all needAliased node with their min part number.
-        if (node2partition[i] == tn) {
-         node2partition[i] = minAliasedPar;
+       if (tn != minAliasedPar) {
+        for (int i = 0; i < n; ++i) {
+         //Replace all needAliased node with their min part number.
+         if (node2partition[i] == tn) {
+          node2partition[i] = minAliasedPar;
+         }
         }
        }
       }
-      cc -= (needAliased.size() - 1);//TODO not sure
       needAliased.erase(needAliased.begin(), needAliased.end());
       //Set the nodes in the current cluster
       for (int i = stackStart; i < n; ++i) {
-- 
2.43.0


From c64bc1598ec7ffae61dd8af8e450be4d2a5b2634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:56 +0000
Subject: [PATCH 08/69] fix: post order does not read an empty stack

---
 src/hdagg/hdagg.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 8f17b1b..3c147ea 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -118,7 +118,9 @@ namespace HDAGG
                     post_order[n - 1 - order_cnt] = stack.back();
                     order_cnt++;
                     stack.pop_back();
-                    head = stack.back();
+                    if(!stack.empty()){
+                        head = stack.back();
+                    }
                 }
             }
         }
@@ -261,7 +263,9 @@ namespace HDAGG
                     post_order[n - 1 - order_cnt] = stack.back();
                     order_cnt++;
                     stack.pop_back();
-                    head = stack.back();
+                    if(!stack.empty()){
+                        head = stack.back();
+                    }
                 }
             }
         }
-- 
2.43.0


From 2978814458284a837376e66233bcc265766cce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:56 +0000
Subject: [PATCH 09/69] fix: clique search stays inside the columns of its
 thread

---
 src/hdagg/hdagg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 3c147ea..543f6aa 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2046,7 +2046,7 @@ namespace HDAGG
           int tid = omp_get_thread_num();
 #else
           int bins =1;
-       int tid=1;
+       int tid=0;
 #endif
                 int start_col = (n / bins) * tid;
                 int end_col = (n / bins) * (tid + 1);
@@ -2060,7 +2060,7 @@ namespace HDAGG
                     int width = 1;
                     int first = col;
                     int last = col + 1;
-                    while (last < n && width < limit) {
+                    while (last < end_col && width < limit) {
                         int diff = last - first;
                         // compare number of off diagonals
                         int off_last  = Lp[last + 1] - Lp[last];
-- 
2.43.0


From f68d01369de0de274f64c655832fa4c6dcc7b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:56 +0000
Subject: [PATCH 10/69] fix: sparsification and tiling overwrite their outputs

---
 src/hdagg/hdagg.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 543f6aa..9579d7f 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2203,7 +2203,8 @@ namespace HDAGG
                 }
             }
 
-            DAG_ptr.resize(n + 1, 0);
+            DAG_ptr.assign(n + 1, 0);
+            DAG_set.clear();
             DAG_set.reserve(edge_cnt);
             int edge_counter = 0;
             for(int i = 0; i < n; i++) {
@@ -2248,7 +2249,8 @@ namespace HDAGG
 //                }
 //            }
 
-            DAG_ptr.resize(n + 1, 0);
+            DAG_ptr.assign(n + 1, 0);
+            DAG_set.clear();
             DAG_set.reserve(nnz);
             int edge_counter = 0;
             for(int i = 0; i < n; i++) {
@@ -2422,6 +2424,7 @@ namespace HDAGG
         //Unpack the loops iterations and define consecutive groups
         final_iter_ptr.clear();
         final_iter_ptr.reserve(nnz);
+        final_tuple_ptr.clear();
         int cnt = 0;
         std::vector<int> cnc_group_ptr;
         cnc_group_ptr.push_back(0);
-- 
2.43.0


From 5a30786e87b6b6108f23ffc641bf27c0d46ca098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:56 +0000
Subject: [PATCH 11/69] fix: HDagg assigns every component when costs run out
 early

---
 src/hdagg/hdagg.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 9579d7f..6ed31d6 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -720,7 +720,7 @@ namespace HDAGG
                     thread_id = part_cnt;
                 } else {
                     for(int part = 0; part < part_cnt; ){
-                        if(cost[thread_id - 1] < cost_per_core){
+                        if(thread_id == cores || cost[thread_id - 1] < cost_per_core){
                             cost[thread_id - 1] += partition_cost[part++];
                             chunk_array[thread_id] = part;
                             assert(cores != thread_id - 1);//I had a small optimization for last core
@@ -748,7 +748,7 @@ namespace HDAGG
                 }
 
                 //Fix the last partitions of chunk_array
-                for(int i = thread_id; i < cores; i++){
+                for(int i = std::max(thread_id - 1, 0); i < cores; i++){
                     chunk_array[i + 1] = part_cnt;
                 }
 
@@ -938,7 +938,7 @@ namespace HDAGG
                     thread_id = part_cnt;
                 } else {
                     for(int part = 0; part < part_cnt; ){
-                        if(cost[thread_id - 1] < cost_per_core){
+                        if(thread_id == cores || cost[thread_id - 1] < cost_per_core){
                             cost[thread_id - 1] += partition_cost[part++];
                             chunk_array[thread_id] = part;
                             assert(cores != thread_id - 1);//I had a small optimization for last core
@@ -966,7 +966,7 @@ namespace HDAGG
                 }
 
                 //Fix the last partitions of chunk_array
-                for(int i = thread_id; i < cores; i++){
+                for(int i = std::max(thread_id - 1, 0); i < cores; i++){
                     chunk_array[i + 1] = part_cnt;
                 }
 
-- 
2.43.0


From 65217e9a812ca08a54c934618045d3a20c60db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:56 +0000
Subject: [PATCH 12/69] fix: wavefront fallback starts from a cleared level
 pointer

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 6ed31d6..8c7b55b 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2579,7 +2579,7 @@ namespace HDAGG
                           bin_pack, postOrder);
   } else{ // fall back to basic wavefront for very sparse DAGs
    std::vector<int> node_to_level;
-   coarse_part_ptr.resize(n + 1);
+   coarse_part_ptr.assign(n + 1, 0);
    coarse_node_ptr.resize(n);
    node_to_level.resize(n);
    coarse_level_no = HDAGG::build_levelSet_CSC(n, Lp, Li, coarse_part_ptr.data(),
-- 
2.43.0


From bafdf104a3f6fa27f8d1f253210724a6b2695f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:54 +0000
Subject: [PATCH 13/69] fix: post-order chains do not read a child of a node
 without any

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 8c7b55b..412b403 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -140,7 +140,7 @@ namespace HDAGG
             if(i < n - 1){
                 next = post_order[i + 1];
                 in_edges = in_degree[next];
-                child = DAG_set[DAG_ptr[curr] + 1];//TODO: Ugly coding
+                child = DAG_ptr[curr + 1] - DAG_ptr[curr] > 1 ? DAG_set[DAG_ptr[curr] + 1] : -1;//TODO: Ugly coding
             } else {
                 in_edges = 1;
                 child = next;
-- 
2.43.0


From 5f9e1f45b2749cd2f8c3673f0a9d453162e9613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:36 +0000
Subject: [PATCH 14/69] fix: HDagg core boundaries never carry over from an
 earlier window

---
 src/hdagg/hdagg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 412b403..51e7120 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -689,6 +689,7 @@ namespace HDAGG
             while(!done_flag){
                 iteration_counter++;
                 chunk_sizes[WM.size() - 1] = chunk_array;
+                std::fill(chunk_array.begin(), chunk_array.end(), 0);
                 std::vector<double> partition_cost(n, 0);
                 //===================================== Greedy Merge ===================================
                 //Compute the cc's and w-partitions of these levels and compute the critical path
@@ -731,6 +732,7 @@ namespace HDAGG
                             cost_per_core = (total_cost - cost_to_this_core) / (cores - thread_id);
                             //Let's do the next thread
                             thread_id++;
+                            chunk_array[thread_id] = part;
                             if(cost_per_core == 0){
                                 if(part != part_cnt - 1){
                                     std::cerr << "Not all the parts are assigned" << std::endl;
@@ -906,6 +908,7 @@ namespace HDAGG
             while(!done_flag){
                 iteration_counter++;
                 chunk_sizes[WM.size() - 1] = chunk_array;
+                std::fill(chunk_array.begin(), chunk_array.end(), 0);
                 std::vector<double> partition_cost(n, 0);
                 //===================================== Greedy Merge ===================================
                 //Compute the cc's and w-partitions of these levels and compute the critical path
@@ -949,6 +952,7 @@ namespace HDAGG
                             cost_per_core = (total_cost - cost_to_this_core) / (cores - thread_id);
                             //Let's do the next thread
                             thread_id++;
+                            chunk_array[thread_id] = part;
                             if(cost_per_core == 0){
                                 if(part != part_cnt - 1){
                                     std::cerr << "Not all the parts are assigned" << std::endl;
-- 
2.43.0


From 794efed831c1df1dc5f80e3dde9290dd1577f0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:33 +0000
Subject: [PATCH 15/69] fix: component and bin costs start from zero in every
 level window

Costs carried over from earlier windows (and were left behind when
clusters merged), so bins were chosen by the load of other levels.
---
 src/lbc_blocked.cpp | 3 +++
 src/lbc_csc.cpp     | 3 +++
 src/lbc_csc_dag.cpp | 4 ++++
 src/lbc_utils.cpp   | 5 +++--
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 3d82231..92f7c23 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -127,6 +127,8 @@ namespace sym_lib {
       for (int j = 0; j < needAliased.size(); ++j) {
        int tn = node2partition[needAliased[j]];
        if (tn != minAliasedPar) {
+        outCost[minAliasedPar] += outCost[tn];
+        outCost[tn] = 0.0;
         for (int i = 0; i < n; ++i) {
          //Replace all needAliased node with their min part number.
          if (node2partition[i] == tn) {
@@ -253,6 +255,7 @@ namespace sym_lib {
     mergedLeveledParList[i].erase(mergedLeveledParList[i].begin(), mergedLeveledParList[i].end());
    }
    mergedLeveledParList.erase(mergedLeveledParList.begin(), mergedLeveledParList.end());
+   std::fill(outCost, outCost + newLeveledParList.size(), 0.0);
    for (int i = 0; i < newLeveledParList.size(); ++i) {
     newLeveledParList[i].erase(newLeveledParList[i].begin(), newLeveledParList[i].end());
    }
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 0c88502..e10ba56 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -135,6 +135,8 @@ namespace sym_lib {
        int tn = node2partition[j];
        if (tn != minAliasedPar) {
        // cc--;
+        outCost[minAliasedPar] += outCost[tn];
+        outCost[tn] = 0.0;
         for (int i = 0; i < n; ++i) {
          // Replace all needAliased node with their min part number.
          if (node2partition[i] == tn) {
@@ -254,6 +256,7 @@ namespace sym_lib {
    for (auto &i : mergedLeveledParList)
     i.clear();
    mergedLeveledParList.clear();
+   std::fill(outCost, outCost + newLeveledParList.size(), 0.0);
    for (auto &i : newLeveledParList)
     i.clear();
    newLeveledParList.clear();
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index f63dacf..7cddeda 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -181,6 +181,7 @@ void process_l_partition(
  outinnerPartsList[l] = outinnerParts;
 
  // Cleaning the current sets.
+ std::fill(outCost, outCost + newLeveledParList.size(), 0.0);
  for (int i = 0; i < newLeveledParList.size(); ++i) {
   newLeveledParList[i].erase(newLeveledParList[i].begin(),
                              newLeveledParList[i].end());
@@ -506,6 +507,8 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
       int tn = node2partition[needAliased[j]];
       if (tn != minAliasedPar) {
        //        cc--;
+       outCost[minAliasedPar] += outCost[tn];
+       outCost[tn] = 0.0;
        for (int i = 0; i < n; ++i) {
         // Replace all needAliased node with their min part number.
         if (node2partition[i] == tn) {
@@ -643,6 +646,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
   }
   mergedLeveledParList.erase(mergedLeveledParList.begin(),
                              mergedLeveledParList.end());
+  std::fill(outCost, outCost + newLeveledParList.size(), 0.0);
   for (int i = 0; i < newLeveledParList.size(); ++i) {
    newLeveledParList[i].erase(newLeveledParList[i].begin(),
                               newLeveledParList[i].end());
diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 30d71a8..347c519 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -147,9 +147,9 @@ namespace sym_lib{
 
 
  int find_min(double *cost, int size) {
-  double min = INT_MAX;
+  double min = cost[0];
   int minBin = 0;
-  for (int i = 0; i < size; ++i) {
+  for (int i = 1; i < size; ++i) {
    if (cost[i] < min) {
     min = cost[i];
     minBin = i;
@@ -174,6 +174,7 @@ namespace sym_lib{
                                newLeveledParList[i].begin(), newLeveledParList[i].end());
   }
   std::sort(partList.begin(), partList.end(), cmp_cost);
+  std::fill(outCost, outCost + numOfBins, 0.0);//all bins are empty
   int minBin = 0;
   for (int i = 0; i < partNo; i++) {
    minBin = find_min(outCost, numOfBins);
-- 
2.43.0


From 62cdfdeef6f86c4b18d809429f76433f66b0afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:22 +0000
Subject: [PATCH 16/69] fix: merge_inner_part stores the cost of a part at the
 index of that part

---
 src/lbc_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 347c519..705b9b2 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -134,8 +134,8 @@ namespace sym_lib{
       newLeveledParList[i].begin(), newLeveledParList[i].end());
     i++;
    }
-   lClusterCnt++;
    outCost[lClusterCnt] = curCost;
+   lClusterCnt++;
   }
   return lClusterCnt;
  }
-- 
2.43.0


From a393132a1f2133a300f52cf89298f8382943cb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:16 +0000
Subject: [PATCH 17/69] fix: row and column grouping stay inside their arrays
 at the last column

---
 src/group.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group.cpp b/src/group.cpp
index c21f26d..40f3cbd 100644
--- a/src/group.cpp
+++ b/src/group.cpp
@@ -88,7 +88,7 @@ namespace sym_lib
 
         int tcurIdx = curIdx+1;
         int len=0;
-        while (child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
+        while (tcurIdx<ncol && child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
         {
          visited[tcurIdx] = true;
          next[tcurIdx-1]=tcurIdx;
@@ -221,7 +221,7 @@ namespace sym_lib
        visited[curIdx] = true;
        int chIdx = child[curIdx];
 
-       while ((chIdx-curIdx==1 || rCnt[chIdx]) && !visited[chIdx] )
+       while (chIdx!=-1 && (chIdx-curIdx==1 || rCnt[chIdx]) && !visited[chIdx] )
        {
         visited[chIdx]=true;
         pre[chIdx] = curIdx;
-- 
2.43.0


From 3c25994c48052c1c3eed7e00f853fb1ed342bf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:47 +0000
Subject: [PATCH 18/69] fix: cost computation sizes an empty cost vector

---
 src/hdagg/hdagg.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 51e7120..3ecf0dd 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2274,10 +2274,7 @@ namespace HDAGG
     void costComputation(int nodes, const int* CSC_Lp, const int* CSC_Li, const int* CSR_Lp, const int* CSR_Li,
                          Kernel kernel, const int* group_ptr, const int* group_set, bool grouped,
                          std::vector<double>& cost){
-        if(!cost.empty()){
-            cost.clear();
-            cost.resize(nodes, 0);
-        }
+        cost.assign(nodes, 0);
         if(kernel == SpTrSv_LL || kernel == SpTrSv_RL){
             const int* Lp;
             if(kernel == SpTrSv_LL){
-- 
2.43.0


From f0985349f6a4b73c40b509422c2a09d3c0cb94c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:48 +0000
Subject: [PATCH 19/69] fix: weighted tree height counts the weight of the leaf

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 002a33d..9154423 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -715,7 +715,7 @@ namespace sym_lib {
   auto *touch = new int[n]();
   for (int i = 0; i < n; ++i) {
    if (nChild1[i] == 0) {
-    int node = i; level = 0;
+    int node = i; level = weight == NULLPNTR ? 0 : weight[i];
     while (tree[node] >= 0) {
      node = tree[node];
      if (weight == NULLPNTR)
-- 
2.43.0


From d5c739259b7a9a9473f2fb31f6085b89d7d6dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:37 +0000
Subject: [PATCH 20/69] fix: weight partition keeps the trailing elements in
 its last part

---
 utils/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/utils.cpp b/utils/utils.cpp
index 427cb57..be78c72 100644
--- a/utils/utils.cpp
+++ b/utils/utils.cpp
@@ -76,6 +76,8 @@ namespace sym_lib{
    }
    indices[i+1] = j;
   }
+  // if anything is remained add it to last part
+  indices[n_parts] = n;
   if(!target_weight)
    delete []even_weight;
   return indices;
-- 
2.43.0


From 2a07059566cbb43c8f37e8a1ffd6bba23701bd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:45 +0000
Subject: [PATCH 21/69] fix: CSR to CSC conversion handles matrices that are
 not square

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 9154423..d42fa7c 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -109,7 +109,7 @@ namespace sym_lib {
      CSC *B = new CSC(A->m,A->n,A->nnz,NULLPNTR,NULLPNTR,A->stype);
      B->pre_alloc = false;
      B->is_pattern = false;
-     int st = csc_to_csr(A->m, A->n, A->p, A->i, A->x, B->p, B->i, B->x);
+     int st = csc_to_csr(A->n, A->m, A->p, A->i, A->x, B->p, B->i, B->x);
      B->nnz = B->p[B->n];
      return B;
     }
-- 
2.43.0


From 3b1a38c9614dc41494933023dc2fd0cec71c3055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:45 +0000
Subject: [PATCH 22/69] fix: copy_from_to copies the pointers and one-based
 copy the values

---
 utils/sparse_io.cpp        | 2 +-
 utils/sparse_utilities.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 1a2dcf9..89a2c20 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -119,7 +119,7 @@ namespace sym_lib {
   else
    for (int j = 0; j < A->nnz; ++j) {
     A_one->i[j] = A->i[j]+1;
-    A_one->x[j] = A_one->x[j];
+    A_one->x[j] = A->x[j];
    }
 
   for (int k = 0; k < A->n + 1; ++k) {
diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index d42fa7c..626dc40 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -518,7 +518,7 @@ namespace sym_lib {
 
     void copy_from_to(CSR *src, CSR *dst){
      for (int i = 0; i < src->m; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i + 1] = src->p[i + 1];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
        dst->x[j] = src->x[j];
@@ -528,7 +528,7 @@ namespace sym_lib {
 
     void copy_from_to(CSC *src, CSC *dst){
      for (int i = 0; i < src->n; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i + 1] = src->p[i + 1];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
        dst->x[j] = src->x[j];
-- 
2.43.0


From 467bbb526647eb96790624b145f7aeeea017575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:45 +0000
Subject: [PATCH 23/69] fix: upper half is reported as upper

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 626dc40..9480e07 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -222,7 +222,7 @@ namespace sym_lib {
       }
       Bp[i+1] = nnz_cnt;
      }
-     B->stype = -1;
+     B->stype = lower ? -1 : 1;
      return B;
     }
 
-- 
2.43.0


From 9c394a7520580c9a5c8c1c1c28bfe6361b1a7393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:45 +0000
Subject: [PATCH 24/69] fix: CSC to CSR conversion keeps the storage type

---
 utils/sparse_utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 9480e07..a7c0641 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -88,6 +88,7 @@ namespace sym_lib {
       }
      }
      delete[]rowCnt;
+     B->stype = A->stype;
      return B;
     }
 
-- 
2.43.0


From 7da8eff89488b18c7e3d11d87696ff19703df6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:45 +0000
Subject: [PATCH 25/69] fix: symmetric transpose rejects a permutation entry
 equal to n

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index a7c0641..f96494a 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -307,7 +307,7 @@ namespace sym_lib {
       }
       for (k = 0; k < n; k++) {
        i = Perm[k];
-       if (i < 0 || i > n || Pinv[i] != EMPTY) {
+       if (i < 0 || i >= n || Pinv[i] != EMPTY) {
         return NULLPNTR;
        }
        Pinv[i] = k;
-- 
2.43.0


From c7139fd1a122dff15ce8806565a272742a787737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:45 +0000
Subject: [PATCH 26/69] fix: symmetric expansion, transpose and copy work on
 pattern matrices

---
 utils/sparse_utilities.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index f96494a..889ad34 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -233,7 +233,7 @@ namespace sym_lib {
       return nullptr;
      }
 
-     CSC *Afull = new CSC(A->m, A->n, A->nnz * 2 );
+     CSC *Afull = new CSC(A->m, A->n, A->nnz * 2, A->is_pattern);
      auto ind = new int[A->n]();
 
      for(size_t i = 0; i < A->n; i++) {
@@ -255,12 +255,14 @@ namespace sym_lib {
        int row = A->i[p];
        int index = Afull->p[i] + ind[i];
        Afull->i[index] = row;
-       Afull->x[index] = A->x[p];
+       if(!A->is_pattern)
+        Afull->x[index] = A->x[p];
        ind[i]++;
        if(row != i) {
         index = Afull->p[row] + ind[row];
         Afull->i[index] = i;
-        Afull->x[index] = A->x[p];
+        if(!A->is_pattern)
+         Afull->x[index] = A->x[p];
         ind[row]++;
        }
       }
@@ -291,7 +293,7 @@ namespace sym_lib {
      n = A->m;
      permute = (Perm != NULLPNTR);
      upper = (A->stype > 0);
-     F = new CSC(A->n,A->m,A->nnz);
+     F = new CSC(A->n,A->m,A->nnz,A->is_pattern);
      Fp = F->p;        /* size A->nrow+1, row pointers of F */
      Fi = F->i;
      Fx = F->x;
@@ -505,13 +507,14 @@ namespace sym_lib {
 
 
     CSC *copy_sparse(CSC *A){
-     CSC *clone = new CSC(A->m,A->n,A->nnz);
+     CSC *clone = new CSC(A->m,A->n,A->nnz,A->is_pattern);
      for (int i = 0; i < A->n+1; ++i) {
       clone->p[i] = A->p[i];
      }
      for (int j = 0; j < A->nnz; ++j) {
       clone->i[j] = A->i[j];
-      clone->x[j] = A->x[j];
+      if(!A->is_pattern)
+       clone->x[j] = A->x[j];
      }
      clone->stype = A->stype;
      return clone;
-- 
2.43.0


From 831e5f0610411d053cf9be725d1baa5d9b9deece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:45 +0000
Subject: [PATCH 27/69] fix: matrix sum reports its number of nonzeros and its
 kind

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 889ad34..a360b54 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -1102,7 +1102,6 @@ int post_order_spliting(int inSize, int *inTree, double *inCost,
      x = !values ? new double[m]() : NULLPNTR;
      CSC *C = new CSC(m,n,anz+bnz,values);
      C->stype = A->stype;
-     C->is_pattern = A->is_pattern;
      Cp = C->p ; Ci = C->i ; Cx = C->x ;
      for (j = 0 ; j < n ; j++){
       Cp [j] = nz ;                   /* column j of C starts here */
@@ -1112,6 +1111,7 @@ int post_order_spliting(int inSize, int *inTree, double *inCost,
       if (!values) for (p = Cp [j] ; p < nz ; p++) Cx [p] = x [Ci [p]] ;
      }
      Cp [n] = nz ;
+     C->nnz = nz ;
      delete []x;
      delete []w;
      return C;
-- 
2.43.0


From 519fe09e10d6183a0228f45f621ae519515994dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:45 +0000
Subject: [PATCH 28/69] fix: merging DAGs with explicit dependences reports the
 number of edges

---
 utils/sparse_utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index a360b54..0b5f414 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -930,6 +930,7 @@ namespace sym_lib {
     i_counter++;
    }
   }
+  merged_graph->nnz = i_counter;
   return merged_graph;
  }
 
-- 
2.43.0


From 917d2f0400cf009e9279872ad94cf0c5068d4f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:03 +0000
Subject: [PATCH 29/69] fix: general permutation works on pattern matrices

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 0b5f414..41f12d9 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -1164,7 +1164,7 @@ int post_order_spliting(int inSize, int *inTree, double *inCost,
   int nz = 0, n, *Ap, *Ai, *Cp, *Ci ;
   double *Cx, *Ax ;
   int m = A->m; n = A->n ; Ap = A->p ; Ai = A->i ; Ax = A->x ;
-  CSC *C = new CSC(m, n, A->nnz);
+  CSC *C = new CSC(m, n, A->nnz, A->is_pattern);
   Cp = C->p ; Ci = C->i ; Cx = C->x ;
   for (int k = 0 ; k < n ; k++)
   {
-- 
2.43.0


From 7d93806e1a57ac6478de7833e006500120e6da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:03 +0000
Subject: [PATCH 30/69] fix: CSC view over existing arrays starts with a
 defined storage type

---
 include/aggregation/def.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/aggregation/def.h b/include/aggregation/def.h
index 96d2188..428ecc4 100644
--- a/include/aggregation/def.h
+++ b/include/aggregation/def.h
@@ -147,6 +147,7 @@ namespace sym_lib {
    m = M;
    n = N;
    nnz = NNZ;
+   stype = 0;
    p = Ap;
    i = Ai;
    x = Ax;
-- 
2.43.0


From a51c2a6851ae51f1fcbd2d1ecb5580fb8296e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 31/69] fix: compressed block graph holds only blocks of the
 matrix

---
 utils/BCSCMatrix.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/utils/BCSCMatrix.cpp b/utils/BCSCMatrix.cpp
index ed835ee..a8db13b 100644
--- a/utils/BCSCMatrix.cpp
+++ b/utils/BCSCMatrix.cpp
@@ -275,10 +275,6 @@ namespace sym_lib {
    for (int k = 0; k < count; k++)
     inplace[temp[k]] = false;
    count = 0;
-
-   Ai[i] = j + nodes;
-   Ap[p]++;
-   i++;
    p++;
   }
 
-- 
2.43.0


From a97b02e683eb0fd3c0802f5c4dc732695222819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 32/69] fix: merged blocked graphs keep every dependence of the
 middle matrix

---
 utils/sparse_inspector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index d23c0d6..14e2d6c 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -778,7 +778,7 @@ namespace sym_lib {
   // Count # nnz in B
   for (int i = 0; i < nodes; i++) {
    for (int r = 0; r < nB->nrows[i]; r++) {
-    int row = supers[nB->i[nB->p[i]]];
+    int row = supers[nB->i[nB->p[i] + r]];
     if (!inplace[row]) {
      inplace[row] = true;
      temp[count] = row;
@@ -842,7 +842,7 @@ namespace sym_lib {
    Mi[i] = j + nodes;
    i++;
    for (int r = 0; r < nB->nrows[j]; r++) {
-    int row = supers[nB->i[nB->p[j]]];
+    int row = supers[nB->i[nB->p[j] + r]];
     if (!inplace[row]) {
      inplace[row] = true;
      temp[count] = row;
-- 
2.43.0


From 1c611efcad311e5a801ebf12c0a61853ef48a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 33/69] fix: coarsened partition maps every coarse part back to
 its own rows

---
 utils/metis_interface.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 3982474..c7a1948 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -332,14 +332,14 @@ namespace sym_lib {
   part = new int[A->n]();
   for (int i = 0; i < tmp->n; ++i) {
    int i2p = part_cors[i];
-   int bnd = i+coarsen; // std::max<int>(i + coarsen, A->n);
-   for (int j = i; j < bnd; ++j) {
+   int bnd = std::min<int>((i + 1) * coarsen, A->n);
+   for (int j = i * coarsen; j < bnd; ++j) {
     part[j] = i2p;
    }
   }
   //t.measure_elapsed_time();
   //t.print_t_array();
-  delete part_cors;
+  delete []part_cors;
   delete tmp;
   return 0;
  }
-- 
2.43.0


From 8804aa3f00b5fcf7a63ba6f4456a4956a2337170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 34/69] fix: METIS graph of a symmetric matrix has no slots for
 the diagonal

---
 utils/metis_interface.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index c7a1948..853fd7d 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -48,16 +48,17 @@ namespace sym_lib {
   }
 
   perm = new int[A->n]();
-  int nnzFull = 2 * A->nnz - A->n;
+  int nnzFull = 2 * A->nnz;
   auto Afullp = new idx_t[A->n + 1]();
   auto Afulli = new idx_t[nnzFull]();
   auto ind = new int[A->n]();
   for (size_t i = 0; i < A->n; i++) {
    for (size_t p = A->p[i]; p < A->p[i + 1]; p++) {
     int row = A->i[p];
-    ind[i]++;
-    if (row != i)
+    if (row != i) {
+     ind[i]++;
      ind[row]++;
+    }
    }
   }
   Afullp[0] = 0;
@@ -173,16 +174,17 @@ namespace sym_lib {
   part = new int[A->n]();
 
   int n = A->n;
-  int nnzFull = 2 * A->nnz - A->n;
+  int nnzFull = 2 * A->nnz;
   auto Afullp = new idx_t[n + 1]();
   auto Afulli = new idx_t[nnzFull]();
   auto ind = new int[n]();
   for (size_t i = 0; i < n; i++) {
    for (size_t p = A->p[i]; p < A->p[i + 1]; p++) {
     int row = A->i[p];
-    ind[i]++;
-    if (row != i)
+    if (row != i) {
+     ind[i]++;
      ind[row]++;
+    }
    }
   }
   Afullp[0] = 0;
-- 
2.43.0


From f396c9cb2525fb0e7ca8cc9f81591d2c40befa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 35/69] fix: symmetric partitioning frees its counters

---
 utils/metis_interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 853fd7d..b675f22 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -232,6 +232,7 @@ namespace sym_lib {
    part[i] = partIDX[i];
   delete[]Afullp;
   delete[]Afulli;
+  delete[]ind;
   delete[]weigt;
   delete[]partIDX;
 
-- 
2.43.0


From 14b584e195a58632b829f92cc2952ea97ede3208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 36/69] fix: METIS permutation is released as the array it is

---
 utils/lfactor_creation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/lfactor_creation.cpp b/utils/lfactor_creation.cpp
index 588200a..f674077 100644
--- a/utils/lfactor_creation.cpp
+++ b/utils/lfactor_creation.cpp
@@ -395,7 +395,7 @@ namespace sym_lib{
   At_ord = transpose_symmetric(A, perm_metis);
   A_ord = transpose_symmetric(At_ord, NULLPNTR);
   std::copy(perm_metis,perm_metis+n, perm);
-  delete perm_metis;
+  delete []perm_metis;
   delete A_full;
 #else
   for(int i=0; i<n; i++) perm[i] = i; // no permutation
-- 
2.43.0


From 7ef14ba7c2281a17f204505b69a0854e11eba748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:21 +0000
Subject: [PATCH 37/69] fix: CSR to CSC conversion works on pattern matrices

---
 utils/sparse_utilities.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 41f12d9..83a88e8 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -38,7 +38,7 @@ namespace sym_lib {
      rowptr[nrow] = nnz;
 
      colind = new int[nnz]();
-     values = new double[nnz]();
+     values = Ax ? new double[nnz]() : NULLPNTR;
 
      memset(rowCnt, 0, sizeof(int) * nrow);
      for (int i = 0; i < ncol; i++) {
@@ -46,7 +46,8 @@ namespace sym_lib {
        int row = Ai[j];
        int index = rowptr[row] + rowCnt[row];
        colind[index] = i;
-       values[index] = Ax[j];
+       if (Ax)
+        values[index] = Ax[j];
        rowCnt[row]++;
       }
      }
@@ -109,7 +110,7 @@ namespace sym_lib {
     CSC* csr_to_csc(CSR *A) {
      CSC *B = new CSC(A->m,A->n,A->nnz,NULLPNTR,NULLPNTR,A->stype);
      B->pre_alloc = false;
-     B->is_pattern = false;
+     B->is_pattern = A->is_pattern;
      int st = csc_to_csr(A->n, A->m, A->p, A->i, A->x, B->p, B->i, B->x);
      B->nnz = B->p[B->n];
      return B;
-- 
2.43.0


From 835c6add45a7288d8dada667a23c4616109feb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:17 +0000
Subject: [PATCH 38/69] fix: blocked form checks the column end before reading
 its next row

---
 utils/BCSCMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/BCSCMatrix.cpp b/utils/BCSCMatrix.cpp
index a8db13b..2fcb84e 100644
--- a/utils/BCSCMatrix.cpp
+++ b/utils/BCSCMatrix.cpp
@@ -202,7 +202,7 @@ namespace sym_lib {
     for (p = 0; p < temp_cnt; p++) {
      int row_i = tempvec[p];
      M->i[counter] = row_i;
-     if (row_i == Ai[index] && index < Ap[j + 1]) {
+     if (index < Ap[j + 1] && row_i == Ai[index]) {
       M->x[counter] = Ax[index];
       index++;
      } else {
-- 
2.43.0


From 6b2dcb8bed441fe627b724f3ae80d66c0e997270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:55 +0000
Subject: [PATCH 39/69] fix: row pattern of k sets its last entry before
 reading it

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 3ecf0dd..73d5b00 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -1350,11 +1350,11 @@ namespace HDAGG
             }
             while(len > 0) s[--top] = s[--len];
         }
+        s[n - 1] = k;
         for(int p = top; p < n; p++){
             w[s[p]] = false;
         }
         w[k] = false;
-        s[n - 1] = k;
         return top;
     }
 
-- 
2.43.0


From 4780adc0cbd8f70a7dc495ef4e754bb699d8fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:33 +0000
Subject: [PATCH 40/69] fix: coarsened partition treats an upper half as
 symmetric too

---
 utils/metis_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index b675f22..51beec1 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -326,7 +326,7 @@ namespace sym_lib {
   CSC *tmp = coarsen_k_times(A->n, A->nnz, A->p, A->i, A->stype, coarsen);
   int *part_cors;
  // t.start_timer();
-  if(A->stype < 0){
+  if(A->stype != 0){
    metis_partition_symmetric(tmp, part_cors, k);
   } else{
    metis_partition_general(tmp, part_cors, k);
-- 
2.43.0


From 1f5ad418e48b84747d1d28b02eceb540c287ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:33 +0000
Subject: [PATCH 41/69] fix: general partition starts numbering at zero with
 more parts than rows

---
 utils/metis_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 51beec1..07b2954 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -299,7 +299,7 @@ namespace sym_lib {
                                      nullptr, nullptr, &nparsIDX, nullptr,
                                      nullptr, options1, &objvalIDX, partIDX);
   assert(retMet == METIS_OK);
-  int min_p_no = n; // it happens to start from a value other than zero, maybe a bug.
+  int min_p_no = k; // it happens to start from a value other than zero, maybe a bug.
   for (int i = 0; i < n; ++i) {
    part[i] = partIDX[i];
    min_p_no = std::min(min_p_no,part[i]);
-- 
2.43.0


From 24c5510261aee772c174fc0eb54912eb72ce8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:05 +0000
Subject: [PATCH 42/69] fix: reading a matrix accepts empty columns and any
 entry order, and checks its entries

---
 utils/sparse_io.cpp | 42 ++++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 89a2c20..15577f5 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -26,41 +26,31 @@ namespace sym_lib {
 
   int m, n, nnz;
   if (mm_read_mtx_crd_size(mf, &m, &n, &nnz) != 0) exit(1);
-  CSC *A = new CSC(m, n, nnz);
-  int *J = new int[nnz]();
-
-  A->stype = mm_is_symmetric(mcode) ? -1 : 0;
+  if (m <= 0 || n <= 0 || nnz < 0) {
+   std::cerr << "Error processing matrix size\n";
+   fclose(mf);
+   return nullptr;
+  }
 
   // Copy matrix data into COO format
+  std::vector<triplet> entries;
   for (int i = 0; i < nnz; i++) {
-   if (fscanf(mf, "%d %d %lg\n", (A->i) + i, &J[i], (A->x) + i) == EOF) {
+   triplet e;
+   if (fscanf(mf, "%d %d %lg\n", &e.row, &e.col, &e.val) != 3 ||
+       e.row < 1 || e.row > m || e.col < 1 || e.col > n) {
     std::cerr << "Failed to load matrix at " << i + 1 << "th element\n";
     fclose(mf);
-    delete (A);
     return nullptr;
    }
-   (A->i)[i]--;
-   J[i]--;
+   e.row--;
+   e.col--;
+   entries.push_back(e);
   }
-  int i = 0, j;
-  int index = 0, cur;
-  for (; i < nnz; i++) {
-   A->p[index] = i;
-   cur = J[i];
-   for (j = i + 1; j < nnz; j++) {
-    if (J[j] != cur)
-     break;
-    else
-     i++;
-   }
-   index += 1;
-  }
-  A->p[n] = nnz;
-  delete[]J;
+  fclose(mf);
 
-  A->m = m;
-  A->n = n;
-  A->nnz = nnz;
+  CSC *A = new CSC(m, n, nnz);
+  A->stype = mm_is_symmetric(mcode) ? -1 : 0;
+  compress_triplets_to_csc(entries, A, false);
   return A;
  }
 
-- 
2.43.0


From 71b267119eb22b853da400568b0f2b20eae910cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:05 +0000
Subject: [PATCH 43/69] fix: reading a matrix refuses kinds of matrices it
 would misread

---
 utils/sparse_io.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 15577f5..3f067a9 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -24,6 +24,14 @@ namespace sym_lib {
    return nullptr;
   }
 
+  if (!mm_is_coordinate(mcode) ||
+      !(mm_is_real(mcode) || mm_is_integer(mcode)) ||
+      !(mm_is_general(mcode) || mm_is_symmetric(mcode))) {
+   std::cerr << "Matrix type is not supported\n";
+   fclose(mf);
+   return nullptr;
+  }
+
   int m, n, nnz;
   if (mm_read_mtx_crd_size(mf, &m, &n, &nnz) != 0) exit(1);
   if (m <= 0 || n <= 0 || nnz < 0) {
-- 
2.43.0


From 4aa1130692474777a93ab0d2851c75c0d873192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:05 +0000
Subject: [PATCH 44/69] fix: matrices are written with their full precision

---
 utils/sparse_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 3f067a9..17fcfc3 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -76,7 +76,7 @@ namespace sym_lib {
 
   for (int i = 0; i < A->n; i++)
    for (int j = A->p[i]; j < A->p[i + 1]; j++)
-    fprintf(fp, "%d %d %10.3g\n", A->i[j] + 1, i + 1, A->x[j]);
+    fprintf(fp, "%d %d %.17g\n", A->i[j] + 1, i + 1, A->x[j]);
   fclose(fp);
  }
 
@@ -100,7 +100,7 @@ namespace sym_lib {
    for (int j = 0; j < width; j++) {
     for (int k = 0; k < nrows; k++) {
      int pos = index + j * nrows + k;
-     fprintf(f, "%d %d %10.3g\n", A->i[pos] + 1, A->supernodes[i] + j + 1,
+     fprintf(f, "%d %d %.17g\n", A->i[pos] + 1, A->supernodes[i] + j + 1,
              A->x[pos]);
     }
    }
-- 
2.43.0


From 8f967b328ead42579f1eab4f59e6ebbf7e94d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:05 +0000
Subject: [PATCH 45/69] fix: a stored lower half is written as a symmetric
 matrix

---
 utils/sparse_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 17fcfc3..1ed22d3 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -70,6 +70,8 @@ namespace sym_lib {
   mm_set_matrix(&matcode);
   mm_set_coordinate(&matcode);
   mm_set_real(&matcode);
+  if (A->stype < 0)
+   mm_set_symmetric(&matcode);
 
   mm_write_banner(fp, matcode);
   mm_write_mtx_crd_size(fp, A->m, A->n, A->nnz);
-- 
2.43.0


From 6302c88c97a5fec94e5a6890cf17670326d8e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:05 +0000
Subject: [PATCH 46/69] fix: a long token in a matrix banner stays inside its
 buffer

---
 utils/external/mmio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index ace5551..7cd54b9 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -101,7 +101,7 @@ namespace sym_lib {
   if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL)
    return MM_PREMATURE_EOF;
 
-  if (sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if (sscanf(line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type,
              storage_scheme) != 5)
    return MM_PREMATURE_EOF;
 
-- 
2.43.0


From 7047aec9cb663070e0a2b7f51d071b74bf3652ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:05 +0000
Subject: [PATCH 47/69] fix: a size line without numbers is an error instead of
 an endless loop

---
 utils/external/mmio.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 7cd54b9..ff51184 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -190,7 +190,7 @@ namespace sym_lib {
   else
    do {
     num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-    if (num_items_read == EOF) return MM_PREMATURE_EOF;
+    if (num_items_read <= 0) return MM_PREMATURE_EOF;
    } while (num_items_read != 3);
 
   return 0;
@@ -216,7 +216,7 @@ namespace sym_lib {
   else /* we have a blank line */
    do {
     num_items_read = fscanf(f, "%d %d", M, N);
-    if (num_items_read == EOF) return MM_PREMATURE_EOF;
+    if (num_items_read <= 0) return MM_PREMATURE_EOF;
    } while (num_items_read != 2);
 
   return 0;
-- 
2.43.0


From 8f401dd51a2dcc2f11b996bb8a4c3ea51b270ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:05 +0000
Subject: [PATCH 48/69] fix: negative or impossible matrix dimensions are
 header errors

---
 utils/sparse_io.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 1ed22d3..2ec6588 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -327,10 +327,17 @@ namespace sym_lib {
    if (!(issDim >> n_row >> n_col >> n_nnz)){
     throw mtx_header_error("Unknown", "The matrix dimension is missing");
    }
+   if (n_row <= 0 || n_col <= 0 ||
+       n_nnz / (size_t) n_row > (size_t) n_col){
+    throw mtx_header_error("Unknown", "The matrix dimension is invalid");
+   }
   } else{
    if (!(issDim >> n_row >> n_col)){
     throw mtx_header_error("Unknown", "The matrix dimension is missing");
    }
+   if (n_row <= 0 || n_col <= 0){
+    throw mtx_header_error("Unknown", "The matrix dimension is invalid");
+   }
    n_nnz = n_row*n_col;
   }
  }
-- 
2.43.0


From b08715148a00552e236eed2f1e280c1283a2c12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:05 +0000
Subject: [PATCH 49/69] fix: truncated and out of range matrix entries are
 errors

---
 utils/sparse_io.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 2ec6588..aba47d9 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -377,6 +377,8 @@ namespace sym_lib {
    if(!zero_indexing){
     tmp.col--; tmp.row--;
    }
+   if(!inFile)
+    throw mtx_error("Unknown", "A matrix entry is missing or malformed");
    triplet_vec.push_back(tmp);
   }
  }
@@ -422,8 +424,11 @@ namespace sym_lib {
   bool read_val = true;
   if(arith == PATTERN)
     read_val = false;
-  A = new CSC(m,n,nnz,false, shape2int(shape));
   read_triplets_real(in_file, nnz, triplet_vec, read_val);
+  for (const auto &t : triplet_vec)
+   if(t.row < 0 || t.row >= m || t.col < 0 || t.col >= n)
+    throw mtx_error("Unknown", "A matrix entry is out of range");
+  A = new CSC(m,n,nnz,false, shape2int(shape));
   compress_triplets_to_csc(triplet_vec, A, insert_diag);
   A->nnz = A->p[n]; // if insert diag is true, it will be different.
   //print_csc(A->n, A->p, A->i, A->x);
-- 
2.43.0


From af689675916a66d039c18d69ab7037c331f3fd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:05 +0000
Subject: [PATCH 50/69] fix: diagonals inserted while reading do not push out
 other entries

---
 utils/sparse_io.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index aba47d9..e099346 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -395,7 +395,7 @@ namespace sym_lib {
   }
   A->p[0] = 0;
   for (auto j = 0; j < A->n; ++j) {
-   if(count[j] == 0 && add_diags){ // insert zero diag for empty cols
+   if(count[j] == 0 && add_diags && j < A->m){ // insert zero diag for empty cols
     triplet tmp; tmp.col = tmp.row = j; tmp.val=0;
     triplet_vec.insert(triplet_vec.begin()+A->p[j], tmp);
     A->p[j+1] = A->p[j] + 1;
@@ -404,6 +404,13 @@ namespace sym_lib {
    }
   }
   delete []count;
+  if(triplet_vec.size() > A->nnz){ // room for the inserted diagonals
+   delete []A->i;
+   delete []A->x;
+   A->nnz = triplet_vec.size();
+   A->i = new int[A->nnz]();
+   A->x = new double[A->nnz]();
+  }
   for (auto k = 0; k < A->nnz; ++k) {
    A->i[k] = triplet_vec[k].row;
    A->x[k] = triplet_vec[k].val;
-- 
2.43.0


From 23dad2576d3a511b5d5d917a33b4501fadd47a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:05 +0000
Subject: [PATCH 51/69] fix: truncated or symmetric array files are errors

---
 utils/sparse_io.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index e099346..d0e6732 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -451,10 +451,17 @@ namespace sym_lib {
    throw mtx_arith_error("REAL", type_str(arith));
   else if (mtx_format != ARRAY)
    throw mtx_format_error("ARRAY", format_str(mtx_format));
+  if (shape != GENERAL)
+   throw mtx_format_error("GENERAL", "SYMMETRIC");
   A = new Dense(m, n, 1);//
   for (int i = 0; i < m * n; i++) {//writing from file row by row
    in_file >> A->a[i];
   }
+  if (!in_file) {
+   delete A;
+   A = NULLPNTR;
+   throw mtx_error("Unknown", "An array entry is missing or malformed");
+  }
   std::ofstream file;
   //print_dense(A->row, A->col, A->lda, A->a);
  }
-- 
2.43.0


From ea09ad973bdd7c45d6db56f7ecf0976bec2f5a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:01 +0000
Subject: [PATCH 52/69] fix: parallel LBC finds connected components without
 data races

---
 src/lbc_csc_dag.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 7cddeda..31f06b9 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -54,14 +54,21 @@ int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level,
     if (level < dfsLevel || level >= ubLevel)
      continue;
 
-    int comp_u = node2partition[u];
-    int comp_v = node2partition[v];
+    int comp_u, comp_v, root;
+#pragma omp atomic read
+    comp_u = node2partition[u];
+#pragma omp atomic read
+    comp_v = node2partition[v];
     if (comp_u == comp_v)
      continue;
     int high_comp = comp_u > comp_v ? comp_u : comp_v;
     int low_comp = comp_u + (comp_v - high_comp);
-    if (high_comp == node2partition[nodes[high_comp]]) {
+#pragma omp atomic read
+    root = node2partition[nodes[high_comp]];
+    if (high_comp == root) {
+#pragma omp atomic write
      change = true;
+#pragma omp atomic write
      node2partition[nodes[high_comp]] = low_comp;
     }
    }
@@ -70,8 +77,15 @@ int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level,
 #pragma omp parallel for num_threads(numThreads)
   for (int i = 0; i < numNodes; ++i) {
    int node = nodes[i];
-   while (node2partition[node] != node2partition[nodes[node2partition[node]]]) {
-    node2partition[node] = node2partition[nodes[node2partition[node]]];
+   int comp = node2partition[node], parent;
+#pragma omp atomic read
+   parent = node2partition[nodes[comp]];
+   while (comp != parent) {
+    comp = parent;
+#pragma omp atomic write
+    node2partition[node] = comp;
+#pragma omp atomic read
+    parent = node2partition[nodes[comp]];
    }
   }
  }
@@ -81,6 +95,7 @@ int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level,
  for (int i = 0; i < numNodes; ++i) {
   int node = nodes[i];
   int cc = node2partition[node];
+#pragma omp atomic
   outCost[cc] += nodeCost[node];
   max_cc = std::max(max_cc, cc + 1);
  }
-- 
2.43.0


From 22a0e7a587ae2b8814384df4f926f83d1f625594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:20 +0000
Subject: [PATCH 53/69] fix: HDagg finds connected components without data
 races

---
 src/hdagg/hdagg.cpp | 49 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 73d5b00..3905ec0 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -296,14 +296,21 @@ namespace HDAGG
                 if (level < lbLevel || level >= ubLevel)
                     continue;
 
-                int comp_u = node2partition[u];
-                int comp_v = node2partition[v];
+                int comp_u, comp_v, root;
+                #pragma omp atomic read
+                comp_u = node2partition[u];
+                #pragma omp atomic read
+                comp_v = node2partition[v];
                 if (comp_u == comp_v)
                     continue;
                 int high_comp = comp_u > comp_v ? comp_u : comp_v;
                 int low_comp = comp_u + (comp_v - high_comp);
-                if (high_comp == node2partition[nodes[high_comp]]) {
+                #pragma omp atomic read
+                root = node2partition[nodes[high_comp]];
+                if (high_comp == root) {
+                    #pragma omp atomic write
                     change = true;
+                    #pragma omp atomic write
                     node2partition[nodes[high_comp]] = low_comp;
                 }
             }
@@ -312,8 +319,15 @@ namespace HDAGG
         #pragma omp parallel for
         for (int i = 0; i < numNodes; ++i) {
             int node = nodes[i];
-            while (node2partition[node] != node2partition[nodes[node2partition[node]]]) {
-                node2partition[node] = node2partition[nodes[node2partition[node]]];
+            int comp = node2partition[node], parent;
+            #pragma omp atomic read
+            parent = node2partition[nodes[comp]];
+            while (comp != parent) {
+                comp = parent;
+                #pragma omp atomic write
+                node2partition[node] = comp;
+                #pragma omp atomic read
+                parent = node2partition[nodes[comp]];
             }
         }
     }
@@ -560,15 +574,22 @@ namespace HDAGG
                             if (level < lb_level || level >= ub_level)
                                 continue;
 
-                            int comp_u = node2partition[u];
-                            int comp_v = node2partition[v];
+                            int comp_u, comp_v, root;
+                            #pragma omp atomic read
+                            comp_u = node2partition[u];
+                            #pragma omp atomic read
+                            comp_v = node2partition[v];
                             if (comp_u == comp_v)
                                 continue;
                             int high_comp = comp_u > comp_v ? comp_u : comp_v;
                             int low_comp = comp_u + (comp_v - high_comp);
                             //Change the root partition indicator to the low component
-                            if (high_comp == node2partition[sub_DAG_nodes[high_comp]]) {
+                            #pragma omp atomic read
+                            root = node2partition[sub_DAG_nodes[high_comp]];
+                            if (high_comp == root) {
+                                #pragma omp atomic write
                                 change = true;
+                                #pragma omp atomic write
                                 node2partition[sub_DAG_nodes[high_comp]] = low_comp;
                             }
                         }
@@ -577,8 +598,15 @@ namespace HDAGG
                     #pragma omp for
                     for (int i = 0; i < num_nodes_in_sub_DAG; ++i) {
                         int node = sub_DAG_nodes[i];
-                        while (node2partition[node] != node2partition[sub_DAG_nodes[node2partition[node]]]) {
-                            node2partition[node] = node2partition[sub_DAG_nodes[node2partition[node]]];
+                        int comp = node2partition[node], parent;
+                        #pragma omp atomic read
+                        parent = node2partition[sub_DAG_nodes[comp]];
+                        while (comp != parent) {
+                            comp = parent;
+                            #pragma omp atomic write
+                            node2partition[node] = comp;
+                            #pragma omp atomic read
+                            parent = node2partition[sub_DAG_nodes[comp]];
                         }
                     }
                 }
@@ -587,6 +615,7 @@ namespace HDAGG
                 for(int i = 0; i < node2partition.size(); i++){
                     int node_partition = node2partition[i];
                     if(node_partition != -1){
+                        #pragma omp atomic write
                         part_exist[node_partition] = 1;
                     }
                 }
-- 
2.43.0


From e66ea3dc90fb208f857d07a972482ed06cef6476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 54/69] fix: Matrix Market writers report success when they
 wrote the line

fprintf returns the number of characters, not of items, so a written
banner or size line was always reported as a failure.
---
 utils/external/mmio.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index ff51184..518a5d6 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -164,7 +164,7 @@ namespace sym_lib {
  }
 
  int mm_write_mtx_crd_size(FILE *f, int M, int N, int nz) {
-  if (fprintf(f, "%d %d %d\n", M, N, nz) != 3)
+  if (fprintf(f, "%d %d %d\n", M, N, nz) < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
@@ -223,7 +223,7 @@ namespace sym_lib {
  }
 
  int mm_write_mtx_array_size(FILE *f, int M, int N) {
-  if (fprintf(f, "%d %d\n", M, N) != 2)
+  if (fprintf(f, "%d %d\n", M, N) < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
@@ -344,7 +344,7 @@ namespace sym_lib {
 
   ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
   free(str);
-  if (ret_code != 2)
+  if (ret_code < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
-- 
2.43.0


From cb003f46deddb93ca10b03902a14588b192660ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 55/69] fix: a truncated file is an error for
 mm_read_unsymmetric_sparse

Missing entries were returned as uninitialised memory with success.
---
 utils/external/mmio.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 518a5d6..ebc514b 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -67,7 +67,10 @@ namespace sym_lib {
   /*  (ANSI C X3.159-1989, Sec. 4.9.6.2, p. 136 lines 13-15)            */
 
   for (i = 0; i < nz; i++) {
-   fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]);
+   if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3) {
+    fclose(f);
+    return MM_PREMATURE_EOF;
+   }
    I[i]--;  /* adjust from 1-based to 0-based */
    J[i]--;
   }
-- 
2.43.0


From 04a29e6de827ed65fe5e2552d15b2cea2a33487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 56/69] fix: mm_read_mtx_crd refuses integer matrices it does
 not read

They were reported as read although no entry had been.
---
 utils/external/mmio.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index ebc514b..c05ddb9 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -335,7 +335,8 @@ namespace sym_lib {
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
    if (ret_code != 0) return ret_code;
-  }
+  } else
+   return MM_UNSUPPORTED_TYPE;
 
   if (f != stdin) fclose(f);
   return 0;
-- 
2.43.0


From 48a0894d3f06721dd4f47e11ceb5cf6fb989d36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 57/69] fix: no type string for a type code that is not a
 matrix

The first word was taken from an uninitialised pointer.
---
 utils/external/mmio.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index c05ddb9..1e9a4c7 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -408,13 +408,12 @@ namespace sym_lib {
   char buffer[MM_MAX_LINE_LENGTH];
   char *types[4];
   char *mm_strdup(const char *);
-  int error = 0;
 
   /* check for MTX type */
   if (mm_is_matrix(matcode))
    types[0] = MM_MTX_STR;
   else
-   error = 1;
+   return NULL;
 
   /* check for CRD or ARR matrix */
   if (mm_is_sparse(matcode))
-- 
2.43.0


From 3981b86bfc0574899bf1f916bcd60f24d0ba7e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 58/69] fix: tridiagonal matrix says it stores all of its
 entries and may have one row

It was marked as a pattern and as a stored lower half, and with one row it
wrote past its arrays.
---
 utils/sparse_utilities.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 83a88e8..de8fb62 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -118,11 +118,16 @@ namespace sym_lib {
 
     CSC *tridiag(int n, double a0, double a1, double a2) {
      CSC *A = new CSC(n, n, 3 * n - 2);
-     A->is_pattern = true;
-     A->stype = -1;
+     A->stype = 0;
 
      int ind = 0;
      A->p[0] = 0;
+     if(n == 1) {
+      A->p[1] = 1;
+      A->i[0] = 0;
+      A->x[0] = a1;
+      return A;
+     }
      for(int i = 0; i < n; i++) {
       if(i == 0 || i == n-1) {
        A->p[i+1] = A->p[i] + 2;
-- 
2.43.0


From 64fda1719e75aca06706781880a60bf07002eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 59/69] fix: overflowing product of sizes is zero also when the
 last addition overflows

The routine says it returns 0 on overflow, but returned the wrapped sum
when the overflow happened for the highest bit of the factor.
---
 utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/utils.cpp b/utils/utils.cpp
index be78c72..4dc471c 100644
--- a/utils/utils.cpp
+++ b/utils/utils.cpp
@@ -38,7 +38,7 @@ namespace sym_lib{
     (*ok) = (*ok) && (p >= a);
    }
    k = k / 2;
-   if (!k) return (p);
+   if (!k) return ((*ok) ? p : 0);
    s = a + a;
    (*ok) = (*ok) && (s >= a);
    a = s;
-- 
2.43.0


From dfa08649b022121cb407b3fa936367c447d3dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 60/69] fix: one-based indices of a Matrix Market entry are
 range checked before they are decremented

---
 utils/sparse_io.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index d0e6732..7de8bd6 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -374,11 +374,13 @@ namespace sym_lib {
       inFile >> tmp.val;
     else
       tmp.val = 1.0;
+   if(!inFile)
+    throw mtx_error("Unknown", "A matrix entry is missing or malformed");
    if(!zero_indexing){
+    if(tmp.row < 1 || tmp.col < 1)
+     throw mtx_error("Unknown", "A matrix entry is out of range");
     tmp.col--; tmp.row--;
    }
-   if(!inFile)
-    throw mtx_error("Unknown", "A matrix entry is missing or malformed");
    triplet_vec.push_back(tmp);
   }
  }
-- 
2.43.0


From 387d70907c77ee4114a9b4cf8f4a22355b499727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 61/69] fix: copy_from_to works on pattern matrices

---
 utils/sparse_utilities.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index de8fb62..91ba73f 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -531,7 +531,8 @@ namespace sym_lib {
       dst->p[i + 1] = src->p[i + 1];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
-       dst->x[j] = src->x[j];
+       if(!src->is_pattern)
+        dst->x[j] = src->x[j];
       }
      }
     }
@@ -541,7 +542,8 @@ namespace sym_lib {
       dst->p[i + 1] = src->p[i + 1];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
-       dst->x[j] = src->x[j];
+       if(!src->is_pattern)
+        dst->x[j] = src->x[j];
       }
      }
     }
-- 
2.43.0


From fd681634e2ef3f9e2a716d62f97012d68eca3687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:13 +0000
Subject: [PATCH 62/69] fix: skip blank lines before the size line of a Matrix
 Market file

---
 utils/sparse_io.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 7de8bd6..e10cee7 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -317,9 +317,10 @@ namespace sym_lib {
   else{
    throw mtx_header_error("Unknown", "Unknown shape, unable to handle");
   }
-  while (!line.compare(0,1,"%"))
+  while (line.empty() || !line.compare(0,1,"%"))
   {
-   std::getline(inFile, line);
+   if (!std::getline(inFile, line))
+    break;
    trim(line);
   }
   std::istringstream issDim(line);
-- 
2.43.0


From 8585ddb424ca63625c87790a93683d156cab2a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:25 +0000
Subject: [PATCH 63/69] fix: a Matrix Market size line that does not fit the
 int indices is refused

---
 utils/sparse_io.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index e10cee7..902f9df 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -1,6 +1,7 @@
 //
 // Created by Kazem on 10/10/19.
 //
+#include <climits>
 #include <iostream>
 #include <sstream>
 #include <vector>
@@ -328,7 +329,7 @@ namespace sym_lib {
    if (!(issDim >> n_row >> n_col >> n_nnz)){
     throw mtx_header_error("Unknown", "The matrix dimension is missing");
    }
-   if (n_row <= 0 || n_col <= 0 ||
+   if (n_row <= 0 || n_col <= 0 || n_nnz > INT_MAX ||
        n_nnz / (size_t) n_row > (size_t) n_col){
     throw mtx_header_error("Unknown", "The matrix dimension is invalid");
    }
@@ -336,7 +337,7 @@ namespace sym_lib {
    if (!(issDim >> n_row >> n_col)){
     throw mtx_header_error("Unknown", "The matrix dimension is missing");
    }
-   if (n_row <= 0 || n_col <= 0){
+   if (n_row <= 0 || n_col <= 0 || n_row > INT_MAX / n_col){
     throw mtx_header_error("Unknown", "The matrix dimension is invalid");
    }
    n_nnz = n_row*n_col;
-- 
2.43.0


From a73d5bae4cc6c9a06880dbdbf85e2dcf1b64cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:50 +0000
Subject: [PATCH 64/69] fix: read_mtx refuses entry indices that do not fit an
 int

---
 utils/sparse_io.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 902f9df..258ad00 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -45,14 +45,15 @@ namespace sym_lib {
   std::vector<triplet> entries;
   for (int i = 0; i < nnz; i++) {
    triplet e;
-   if (fscanf(mf, "%d %d %lg\n", &e.row, &e.col, &e.val) != 3 ||
-       e.row < 1 || e.row > m || e.col < 1 || e.col > n) {
+   long row, col;
+   if (fscanf(mf, "%ld %ld %lg\n", &row, &col, &e.val) != 3 ||
+       row < 1 || row > m || col < 1 || col > n) {
     std::cerr << "Failed to load matrix at " << i + 1 << "th element\n";
     fclose(mf);
     return nullptr;
    }
-   e.row--;
-   e.col--;
+   e.row = row - 1;
+   e.col = col - 1;
    entries.push_back(e);
   }
   fclose(mf);
-- 
2.43.0


From c63804748c46183c0970e2c997065c3ed65d3da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:50 +0000
Subject: [PATCH 65/69] fix: mm_read_mtx_crd_size refuses sizes that do not fit
 an int

---
 utils/external/mmio.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 1e9a4c7..c6d0242 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -176,6 +176,7 @@ namespace sym_lib {
  int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz) {
   char line[MM_MAX_LINE_LENGTH];
   int num_items_read;
+  long m, n, z;
 
   /* set return null parameter values, in case we exit with errors */
   *M = *N = *nz = 0;
@@ -187,15 +188,18 @@ namespace sym_lib {
   } while (line[0] == '%');
 
   /* line[] is either blank or has M,N, nz */
-  if (sscanf(line, "%d %d %d", M, N, nz) == 3)
-   return 0;
-
-  else
+  if (sscanf(line, "%ld %ld %ld", &m, &n, &z) != 3)
    do {
-    num_items_read = fscanf(f, "%d %d %d", M, N, nz);
+    num_items_read = fscanf(f, "%ld %ld %ld", &m, &n, &z);
     if (num_items_read <= 0) return MM_PREMATURE_EOF;
    } while (num_items_read != 3);
 
+  /* sizes and entry counts are int */
+  if (m != (int) m || n != (int) n || z != (int) z)
+   return MM_UNSUPPORTED_TYPE;
+  *M = (int) m;
+  *N = (int) n;
+  *nz = (int) z;
   return 0;
  }
 
-- 
2.43.0


From 1d48e4db3f9ad39ae9477c8bdfe7347b2fa46f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:07 +0000
Subject: [PATCH 66/69] fix: HDagg and GLC pack the last window with the chunk
 sizes computed for it

When the window reached the last wavefront, the chunk sizes of the previous,
one wavefront shorter window were kept although joining the last wavefront may
have merged components: the packed level could end with all its work in one
part although the balanced distribution was the reason to accept the window.
---
 src/hdagg/hdagg.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 3905ec0..138ae96 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -810,9 +810,7 @@ namespace HDAGG
                     WM_condidate = ub_level;
                     ub_level = std::min(ub_level + 1, nlevels);
                     if(prev_upper_bound == ub_level){
-                        if(iteration_counter == 1){
-                            chunk_sizes[WM.size() - 1] = chunk_array;
-                        }
+                        chunk_sizes[WM.size() - 1] = chunk_array;
                         done_flag = true;
                     }
                     prev_upper_bound = ub_level;
@@ -1030,10 +1028,7 @@ namespace HDAGG
                     WM_condidate = ub_level;
                     ub_level = std::min(ub_level + 1, nlevels);
                     if(prev_upper_bound == ub_level){
-                        if(iteration_counter == 1){
-                            chunk_sizes[WM.size() - 1] = chunk_array;
-                            node2partition_accepted = node2partition;
-                        }
+                        chunk_sizes[WM.size() - 1] = chunk_array;
                         done_flag = true;
                     }
                     node2partition_accepted = node2partition;
-- 
2.43.0


From aef105db2001485bb064ad9976035c76998c5cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:48 +0000
Subject: [PATCH 67/69] fix: LBC packing thresholds no longer overflow for
 costs close to INT_MAX

---
 src/lbc_blocked.cpp | 4 +++-
 src/lbc_csc.cpp     | 4 +++-
 src/lbc_csc_dag.cpp | 6 ++++--
 src/lbc_tree.cpp    | 4 +++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 92f7c23..b3d323b 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -7,6 +7,8 @@
 
 
 
+#include <algorithm>
+#include <climits>
 #include "aggregation/sparse_utilities.h"
 #include "aggregation/sparse_inspector.h"
 #include "aggregation/lbc_utils.h"
@@ -206,7 +208,7 @@ namespace sym_lib {
    }
    //Bin packing and form W-partitions
    int levelParCostThresh = curLeveledParCost / innerParts;
-   levelParCostThresh += (0.1 * levelParCostThresh);
+   levelParCostThresh += std::min(int(0.1 * levelParCostThresh), INT_MAX - levelParCostThresh);
    int outinnerParts = 0;
    mergedLeveledParList.resize(innerParts);
    if (newLeveledParList.size() > innerParts) {
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index e10ba56..2362d33 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -5,6 +5,8 @@
 #ifndef CROSSKERNEL_LBC_CSC_H
 #define CROSSKERNEL_LBC_CSC_H
 
+#include <algorithm>
+#include <climits>
 #include "aggregation/sparse_utilities.h"
 #include "aggregation/sparse_inspector.h"
 #include "aggregation/lbc.h"
@@ -206,7 +208,7 @@ namespace sym_lib {
    }
    //Bin packing and form W-partitions
    int levelParCostThresh = curLeveledParCost / innerParts;
-   levelParCostThresh += int(0.1 * levelParCostThresh);
+   levelParCostThresh += std::min(int(0.1 * levelParCostThresh), INT_MAX - levelParCostThresh);
    int outinnerParts = 0;
    averageCC += newLeveledParList.size();
    mergedLeveledParList.resize(innerPartsSize[l]);//FIXME;
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 31f06b9..63b507b 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -2,6 +2,8 @@
 // Created by kazem on 9/25/20.
 //
 
+#include <algorithm>
+#include <climits>
 #include "aggregation/lbc_utils.h"
 #include <cstring>
 #ifdef ENABLE_OPENMP
@@ -168,7 +170,7 @@ void process_l_partition(
  }
  // Bin packing and form W-partitions
  int levelParCostThresh = curLeveledParCost / innerParts;
- levelParCostThresh += (0.1 * levelParCostThresh);
+ levelParCostThresh += std::min(int(0.1 * levelParCostThresh), INT_MAX - levelParCostThresh);
  int outinnerParts = 0;
  totalCC += newLeveledParList.size();
  mergedLeveledParListByL[l].resize(innerPartsSize[l]); // FIXME
@@ -607,7 +609,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
   }
   // Bin packing and form W-partitions
   int levelParCostThresh = curLeveledParCost / innerParts;
-  levelParCostThresh += (0.1 * levelParCostThresh);
+  levelParCostThresh += std::min(int(0.1 * levelParCostThresh), INT_MAX - levelParCostThresh);
   int outinnerParts = 0;
   averageCC += newLeveledParList.size();
   mergedLeveledParList.resize(innerPartsSize[l]); // FIXME
diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index 41ade6b..d0978c5 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -2,6 +2,8 @@
 // Created by kazem on 2/6/20.
 //
 
+#include <algorithm>
+#include <climits>
 #include "aggregation/sparse_utilities.h"
 #include "aggregation/sparse_inspector.h"
 #include "aggregation/lbc_utils.h"
@@ -285,7 +287,7 @@ namespace sym_lib {
    innerParts=1;
   }*/
    int levelParCostThresh = curLeveledParCost / innerParts;
-   levelParCostThresh += (0.1 * levelParCostThresh);
+   levelParCostThresh += std::min(int(0.1 * levelParCostThresh), INT_MAX - levelParCostThresh);
    post_order_spliting(n, tmpTree, nodeCost, childPtrSubtree, childNoSubtree,
                      nChildTmp, curLeveledParCost, innerParts,
                      outSize, outCost, outNode2Par, newLeveledParList);
-- 
2.43.0


From 1d7a851e28290c3103989cbf9f28d018633db2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:41 +0000
Subject: [PATCH 68/69] fix: the DAG inspector through a tree no longer writes
 times into global variables

---
 src/lbc_csc.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 2362d33..f61e4f7 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -12,7 +12,6 @@
 #include "aggregation/lbc.h"
 #include "aggregation/sparse_io.h"
 #include "aggregation/lbc_utils.h"
-double elap, elap_trans;
 namespace sym_lib {
  int get_coarse_levelSet_DAG_CSC(size_t n,
                                  int *lC,
@@ -325,11 +324,11 @@ namespace sym_lib {
   if(stype != 1){
    CSC* A_sym = make_symmetric(A, false);
    t1.start_timer();
-   elap_trans = t1.measure_elapsed_time();
+   t1.measure_elapsed_time();
    t2.start_timer();
    ret = compute_etree(A_sym, etree);
    t2.start_timer();
-  elap = t2.measure_elapsed_time();
+  t2.measure_elapsed_time();
    delete A_sym;
   } else{
    ret = compute_etree(A, etree);
-- 
2.43.0


From 4e9b64981f52199744b6c242551e94b66cd93122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:41 +0000
Subject: [PATCH 69/69] fix: printing to a given buffer does not redirect
 std::cout

---
 include/aggregation/sparse_io.h | 30 ++++++++++++------------------
 utils/sparse_io.cpp             |  6 ++----
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/include/aggregation/sparse_io.h b/include/aggregation/sparse_io.h
index 52a189b..d146c50 100644
--- a/include/aggregation/sparse_io.h
+++ b/include/aggregation/sparse_io.h
@@ -140,19 +140,17 @@ namespace sym_lib{
                                                 std::streambuf* out = std::cout.rdbuf(),
                                                 const std::string indent="  ",
                                                 const std::string &beg="%%MatrixMarket matrix coordinate real symmetric"){
-  std::streambuf* sb_cout_backup = std::cout.rdbuf();
-  std::cout.rdbuf(out);
-  std::cout<<indent<<beg << "\n";
+  std::ostream os(out);
+  os<<indent<<beg << "\n";
   size_t nnz = n>0?Ap[n]:0;
-  std::cout<<indent<<m<<" "<<n<<" "<<nnz<<"\n";
+  os<<indent<<m<<" "<<n<<" "<<nnz<<"\n";
   for (auto i = 0; i < n; ++i) {
    for (auto j = Ap[i]; j < Ap[i+1]; ++j) {
     assert(j<nnz);
-    std::cout<<indent<<Ai[j]+1<<" "<<i+1<<" "<<std::setprecision(print_precision)<<Ax[j];
-    std::cout<<"\n";
+    os<<indent<<Ai[j]+1<<" "<<i+1<<" "<<std::setprecision(print_precision)<<Ax[j];
+    os<<"\n";
    }
   }
-  std::cout.rdbuf(sb_cout_backup);
  }
 
  /*
@@ -165,17 +163,15 @@ namespace sym_lib{
                                         std::streambuf* out = std::cout.rdbuf(),
                                         const std::string indent="  ",
                                         const std::string &header="%%MatrixMarket matrix array real general"){
-  std::streambuf* sb_cout_backup = std::cout.rdbuf();
-  std::cout.rdbuf(out);
-  std::cout<<indent<<header<<"\n";
-  std::cout<<indent<<row_no<<" "<<col_no<<"\n";
+  std::ostream os(out);
+  os<<indent<<header<<"\n";
+  os<<indent<<row_no<<" "<<col_no<<"\n";
   for (int i = 0; i < col_no*row_no; i+=lda) {
    for (int j = 0; j < lda; ++j) {
-    std::cout<<indent<<std::setprecision(print_precision)<<mat[i+j];
+    os<<indent<<std::setprecision(print_precision)<<mat[i+j];
    }
-   std::cout<<"\n";
+   os<<"\n";
   }
-  std::cout.rdbuf(sb_cout_backup);
  }
 
  /// prints a constant value with indention
@@ -186,10 +182,8 @@ namespace sym_lib{
  template<class type> void print_constant( type val,
                                            std::streambuf* out,
                                            const std::string indent){
-  std::streambuf* sb_cout_backup = std::cout.rdbuf();
-  std::cout.rdbuf(out);
-  std::cout<<indent<<std::setprecision(print_precision)<<val<<"\n";
-  std::cout.rdbuf(sb_cout_backup);
+  std::ostream os(out);
+  os<<indent<<std::setprecision(print_precision)<<val<<"\n";
  }
 
 
diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 258ad00..fe08a5d 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -267,14 +267,12 @@ namespace sym_lib {
 
  void print_string(std::string context, std::streambuf* out = std::cout.rdbuf(),
                    std::string indent = "  "){
-  std::streambuf* sb_cout_backup = std::cout.rdbuf();
-  std::cout.rdbuf(out);
+  std::ostream os(out);
   std::stringstream ss(context);
   std::string line;
   while (std::getline(ss,line)){
-   std::cout<<indent<<line<<"\n";
+   os<<indent<<line<<"\n";
   }
-  std::cout.rdbuf(sb_cout_backup);
  }
 
  void read_header(std::ifstream &inFile, int &n_row, int &n_col,
-- 
2.43.0

