From 00b1d2d318e461356da18ebf3b3fe5939163b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:45 +0000
Subject: [PATCH 01/50] fix: accept DAGs whose level count equals n in
 build_levelSet_CSC

A chain (and any one-node graph) has exactly n wavefronts; it was reported as
cyclic, and every caller that ignores the return value then used garbage.
---
 src/hdagg/hdagg.cpp        | 2 +-
 utils/sparse_inspector.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index b46dfd8..8ddd307 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -40,7 +40,7 @@ namespace HDAGG
             }
             cur_level++; //all nodes_ with zero indegree are processed.
             //assert(cur_level < n);
-            if (cur_level >= n)
+            if (cur_level > n)
                 return -1; // The input graph has a cycle
                 levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
                 while (inDegree[begin] == 1) // Why? Behrooz
diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 90dc525..caf3ef6 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -34,7 +34,7 @@ namespace sym_lib {
    }
    cur_level++;//all nodes_ with zero indegree are processed.
    //assert(cur_level < n);
-   if (cur_level >= n)
+   if (cur_level > n)
     return -1; // The input graph has a cycle
    levelPtr[cur_level] = cur_levelCol;
    while (inDegree[begin] == 1) {
@@ -981,7 +981,7 @@ namespace sym_lib {
      }
      cur_level++; //all nodes_ with zero indegree are processed.
      //assert(cur_level < n);
-     if (cur_level >= n)
+     if (cur_level > n)
        return -1; // The input graph has a cycle
      levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
      while (inDegree[begin] == 1) // Why? Behrooz
-- 
2.43.0


From 02134d783a717b26e25c242f0089b12a9553dde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:59 +0000
Subject: [PATCH 02/50] fix: size finalPartPtr for n w-partitions plus the end
 pointer

With n single-node w-partitions the end pointer was written one past the array.
---
 src/lbc_blocked.cpp | 2 +-
 src/lbc_csc.cpp     | 2 +-
 src/lbc_csc_dag.cpp | 4 ++--
 src/lbc_tree.cpp    | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 8b009f4..a325f2c 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -44,7 +44,7 @@ namespace sym_lib {
   int clusterCnt = 0;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
   int *inDegree = new int[n];
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 0213797..9d5a4fd 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -37,7 +37,7 @@ namespace sym_lib {
   std::vector<std::vector<int>> newLeveledParList, mergedLeveledParList;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 8361691..6ced3aa 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -334,7 +334,7 @@ int get_coarse_Level_set_DAG_CSC03_parallel(
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  finaLevelPtr[0] = 0;
 
@@ -419,7 +419,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  int *inDegree = new int[n];
  finaLevelPtr[0] = 0;
diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index fc8552a..41ade6b 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -18,7 +18,7 @@ namespace sym_lib {
                               int minLevelDist,
                               int divRate,
                               double *nodeCost) {
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 //  auto *nodeColWidth = new int[n]();
   partNo = 0;
-- 
2.43.0


From 4d830df53a812628759b6be94922dae3af8a90e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 03/50] fix: end the last l-partition at the last level

height_partitioning* closed the last l-partition one level past the end, so
callers read levelPtr/levelCost out of bounds (always for a chain).
---
 src/lbc_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 4b97bb0..30d71a8 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -253,7 +253,7 @@ namespace sym_lib{
    partition2Level[++lClusterCnt] = tmp;
    tmp += divRate;
   }
-  partition2Level[++lClusterCnt] = originalHeight + 1;
+  partition2Level[++lClusterCnt] = originalHeight;
   innerPartsSize.push_back(1);//The last partition has one element TODO is this true??
   delete[]accuSlackGroups;
   return lClusterCnt;
@@ -312,7 +312,7 @@ namespace sym_lib{
     }
    }
    if (f_spart){
-       partition2Level[++lClusterCnt] = originalHeight + 1;
+       partition2Level[++lClusterCnt] = originalHeight;
        innerPartsSize.push_back(1);//The last partition has one element
    }
   } else {
@@ -336,7 +336,7 @@ namespace sym_lib{
     preLevelCut = levelCut;
     levelCut = 0; // starting from the root
    }
-   partition2Level[++lClusterCnt] = originalHeight + 1;
+   partition2Level[++lClusterCnt] = originalHeight;
    innerPartsSize.push_back(1);//The last partition has one element
   }
   delete[]accuSlackGroups;
-- 
2.43.0


From 01e8583d8bc9eca1d89bfa214fecdf91728f6c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:52 +0000
Subject: [PATCH 04/50] fix: one-node tree in build_level_set_tree_efficient

level_cnt[1] is written even when n is 1.
---
 utils/sparse_inspector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index caf3ef6..f046147 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -460,7 +460,7 @@ namespace sym_lib {
                                     const int *nChild1,
                                     int *levelPtr, int *levelSet, int *node2level) {
   int maxLen = 0, level = 0, num_levels=0;
-  auto *level_cnt = new int[n]();
+  auto *level_cnt = new int[n + 1]();
   for (int i = 0; i < n; ++i) {
    if (nChild1[i] == 0) {
     levelSet[levelPtr[1]] = i;
-- 
2.43.0


From 1dcca927ef1e0587ecdc15509077d1087b9bdee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:52 +0000
Subject: [PATCH 05/50] fix: do not read the top of an empty DFS stack in
 computePostOrder

---
 src/hdagg/hdagg.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 8ddd307..d1b1570 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -114,7 +114,9 @@ namespace HDAGG
                     post_order[n - 1 - order_cnt] = stack.back();
                     order_cnt++;
                     stack.pop_back();
-                    head = stack.back();
+                    if(!stack.empty()){
+                        head = stack.back();
+                    }
                 }
             }
         }
@@ -257,7 +259,9 @@ namespace HDAGG
                     post_order[n - 1 - order_cnt] = stack.back();
                     order_cnt++;
                     stack.pop_back();
-                    head = stack.back();
+                    if(!stack.empty()){
+                        head = stack.back();
+                    }
                 }
             }
         }
-- 
2.43.0


From 6438aa84c2a5bdb24b3241971b023ac2f34adfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:00 +0000
Subject: [PATCH 06/50] fix: bound the begin scan in build_levelSet_BCSC

The scan for finished blocks read past inDegree once every block was done.
---
 utils/sparse_inspector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index f046147..1e7213b 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -160,7 +160,7 @@ namespace sym_lib {
    assert((size_t) cur_levelCol >= 0);
    assert((size_t) cur_level <= blockNo);
    levelPtr[cur_level] = cur_levelCol;
-   while (inDegree[begin] == 1)
+   while (begin <= end && inDegree[begin] == 1)
     begin++;
    while (inDegree[end] == 1 && begin <= end)
     end--;
-- 
2.43.0


From 1fecfc97c23ac8c948fb861907012a4e56880e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:21 +0000
Subject: [PATCH 07/50] fix: keep component numbers stable in
 getCoarseLevelSet_DAG_BCSC02

Decrementing the component counter after a merge let numbers still in use reach
or exceed it, so newLeveledParList was written out of bounds.
---
 src/lbc_blocked.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index a325f2c..30ca081 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -124,8 +124,10 @@ namespace sym_lib {
 
      isCC = needAliased.size() == 0;
      if (!isCC) {//There are some intersection between found CCs.
-      for (int j = 1; j < needAliased.size(); ++j) {//the first is min
+      for (int j = 0; j < needAliased.size(); ++j) {
        int tn = node2partition[needAliased[j]];
+       if (tn == minAliasedPar)
+        continue;
        for (int i = 0; i < n; ++i) {
         //Replace all needAliased node with their min part number.
         if (node2partition[i] == tn) {
@@ -133,7 +135,6 @@ namespace sym_lib {
         }
        }
       }
-      cc -= (needAliased.size() - 1);//TODO not sure
       needAliased.erase(needAliased.begin(), needAliased.end());
       //Set the nodes in the current cluster
       for (int i = stackStart; i < n; ++i) {
-- 
2.43.0


From a2e85a6be256a539fe3568cc5a4477fb6e7d1db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:20 +0000
Subject: [PATCH 08/50] fix: assign zero-cost partitions to a thread in HDAGG
 and GLC_V2

---
 src/hdagg/hdagg.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index d1b1570..870e9b9 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -716,7 +716,7 @@ namespace HDAGG
                     thread_id = part_cnt;
                 } else {
                     for(int part = 0; part < part_cnt; ){
-                        if(cost[thread_id - 1] < cost_per_core){
+                        if(cores == 1 || cost[thread_id - 1] < cost_per_core){
                             cost[thread_id - 1] += partition_cost[part++];
                             chunk_array[thread_id] = part;
                             assert(cores != thread_id - 1);//I had a small optimization for last core
@@ -728,9 +728,8 @@ namespace HDAGG
                             //Let's do the next thread
                             thread_id++;
                             if(cost_per_core == 0){
-                                if(part != part_cnt - 1){
-                                    std::cerr << "Not all the parts are assigned" << std::endl;
-                                }
+                                //Only zero-cost parts are left, this thread takes all of them
+                                chunk_array[thread_id] = part_cnt;
                                 break;
                             }
 
@@ -934,7 +933,7 @@ namespace HDAGG
                     thread_id = part_cnt;
                 } else {
                     for(int part = 0; part < part_cnt; ){
-                        if(cost[thread_id - 1] < cost_per_core){
+                        if(cores == 1 || cost[thread_id - 1] < cost_per_core){
                             cost[thread_id - 1] += partition_cost[part++];
                             chunk_array[thread_id] = part;
                             assert(cores != thread_id - 1);//I had a small optimization for last core
@@ -946,9 +945,8 @@ namespace HDAGG
                             //Let's do the next thread
                             thread_id++;
                             if(cost_per_core == 0){
-                                if(part != part_cnt - 1){
-                                    std::cerr << "Not all the parts are assigned" << std::endl;
-                                }
+                                //Only zero-cost parts are left, this thread takes all of them
+                                chunk_array[thread_id] = part_cnt;
                                 break;
                             }
 
-- 
2.43.0


From e2eda437b2970dc4a94ac5974375a305941cdbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:28 +0000
Subject: [PATCH 09/50] fix: the only thread of partialSparsification has id 0

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 870e9b9..dddd08f 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2040,7 +2040,7 @@ namespace HDAGG
           int tid = omp_get_thread_num();
 #else
           int bins =1;
-       int tid=1;
+       int tid=0;
 #endif
                 int start_col = (n / bins) * tid;
                 int end_col = (n / bins) * (tid + 1);
-- 
2.43.0


From bbd96916f4a2fb41eeca775112c187c2a7af089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:28 +0000
Subject: [PATCH 10/50] fix: do not read the unset last stack slot in
 computeNoneZeroPatternOfRowK

---
 src/hdagg/hdagg.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index dddd08f..2b3099f 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -1340,11 +1340,10 @@ namespace HDAGG
             }
             while(len > 0) s[--top] = s[--len];
         }
+        s[n - 1] = k;
         for(int p = top; p < n; p++){
             w[s[p]] = false;
         }
-        w[k] = false;
-        s[n - 1] = k;
         return top;
     }
 
-- 
2.43.0


From d34c38c45026b72eab033590e281760732f45543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:49 +0000
Subject: [PATCH 11/50] fix: bound the scan over childless columns in
 inspection_spicocsc_v2

---
 src/Group/Group.cpp | 2 +-
 src/group.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Group/Group.cpp b/src/Group/Group.cpp
index 5951b1c..975eb43 100755
--- a/src/Group/Group.cpp
+++ b/src/Group/Group.cpp
@@ -98,7 +98,7 @@ namespace sym_lib
 
 					int tcurIdx = curIdx + 1;
 					int len = 0;
-					while (child[tcurIdx] == -1 && !visited[tcurIdx] && len < ncol / 12)
+					while (tcurIdx < ncol && child[tcurIdx] == -1 && !visited[tcurIdx] && len < ncol / 12)
 					{
 						visited[tcurIdx] = true;
 						next[tcurIdx - 1] = tcurIdx;
diff --git a/src/group.cpp b/src/group.cpp
index c21f26d..b14a0c8 100644
--- a/src/group.cpp
+++ b/src/group.cpp
@@ -88,7 +88,7 @@ namespace sym_lib
 
         int tcurIdx = curIdx+1;
         int len=0;
-        while (child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
+        while (tcurIdx<ncol && child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
         {
          visited[tcurIdx] = true;
          next[tcurIdx-1]=tcurIdx;
-- 
2.43.0


From 73e2a79f17af04f052f64cd5bda12a8a9b5d7efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:50 +0000
Subject: [PATCH 12/50] fix: do not index by a missing child in
 inspection_sptrsvcsr_v2

---
 src/Group/Group.cpp | 2 +-
 src/group.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Group/Group.cpp b/src/Group/Group.cpp
index 975eb43..704bf92 100755
--- a/src/Group/Group.cpp
+++ b/src/Group/Group.cpp
@@ -248,7 +248,7 @@ namespace sym_lib
 				visited[curIdx] = true;
 				int chIdx = child[curIdx];
 
-				while ((chIdx - curIdx == 1 || rCnt[chIdx]) && !visited[chIdx])
+				while (chIdx != -1 && (chIdx - curIdx == 1 || rCnt[chIdx]) && !visited[chIdx])
 				{
 					visited[chIdx] = true;
 					pre[chIdx] = curIdx;
diff --git a/src/group.cpp b/src/group.cpp
index b14a0c8..40f3cbd 100644
--- a/src/group.cpp
+++ b/src/group.cpp
@@ -221,7 +221,7 @@ namespace sym_lib
        visited[curIdx] = true;
        int chIdx = child[curIdx];
 
-       while ((chIdx-curIdx==1 || rCnt[chIdx]) && !visited[chIdx] )
+       while (chIdx!=-1 && (chIdx-curIdx==1 || rCnt[chIdx]) && !visited[chIdx] )
        {
         visited[chIdx]=true;
         pre[chIdx] = curIdx;
-- 
2.43.0


From 2b55dc98f1ff4a1b40f57e1ae28f83e5b0c44903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:09 +0000
Subject: [PATCH 13/50] fix: swap the dimensions when csr_to_csc reads a CSR as
 the transpose

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 002a33d..d377f0f 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -109,7 +109,7 @@ namespace sym_lib {
      CSC *B = new CSC(A->m,A->n,A->nnz,NULLPNTR,NULLPNTR,A->stype);
      B->pre_alloc = false;
      B->is_pattern = false;
-     int st = csc_to_csr(A->m, A->n, A->p, A->i, A->x, B->p, B->i, B->x);
+     int st = csc_to_csr(A->n, A->m, A->p, A->i, A->x, B->p, B->i, B->x);
      B->nnz = B->p[B->n];
      return B;
     }
-- 
2.43.0


From 2298a68d2ade53d77930bf0ec348e8f466d14ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:09 +0000
Subject: [PATCH 14/50] fix: copy the pointers in copy_from_to

---
 utils/sparse_utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index d377f0f..36bce9a 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -518,7 +518,7 @@ namespace sym_lib {
 
     void copy_from_to(CSR *src, CSR *dst){
      for (int i = 0; i < src->m; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i + 1] = src->p[i + 1];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
        dst->x[j] = src->x[j];
@@ -528,7 +528,7 @@ namespace sym_lib {
 
     void copy_from_to(CSC *src, CSC *dst){
      for (int i = 0; i < src->n; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i + 1] = src->p[i + 1];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
        dst->x[j] = src->x[j];
-- 
2.43.0


From b3518f81eb61da6ecffbd79b23346499343a3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:09 +0000
Subject: [PATCH 15/50] fix: make_half marks an upper half as upper

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 36bce9a..9d666a2 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -222,7 +222,7 @@ namespace sym_lib {
       }
       Bp[i+1] = nnz_cnt;
      }
-     B->stype = -1;
+     B->stype = lower ? -1 : 1;
      return B;
     }
 
-- 
2.43.0


From 15fdd39fbc92d08f3b61699cea7b47f720e19579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:09 +0000
Subject: [PATCH 16/50] fix: transpose_symmetric rejects a permutation entry
 equal to n

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 9d666a2..ca96308 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -306,7 +306,7 @@ namespace sym_lib {
       }
       for (k = 0; k < n; k++) {
        i = Perm[k];
-       if (i < 0 || i > n || Pinv[i] != EMPTY) {
+       if (i < 0 || i >= n || Pinv[i] != EMPTY) {
         return NULLPNTR;
        }
        Pinv[i] = k;
-- 
2.43.0


From fed2d78e276925b319362686dcfb41338c54cbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:09 +0000
Subject: [PATCH 17/50] fix: tridiag of order one has one entry

---
 utils/sparse_utilities.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index ca96308..cb584f1 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -121,6 +121,12 @@ namespace sym_lib {
 
      int ind = 0;
      A->p[0] = 0;
+     if(n == 1) {
+      A->p[1] = 1;
+      A->i[0] = 0;
+      A->x[0] = a1;
+      return A;
+     }
      for(int i = 0; i < n; i++) {
       if(i == 0 || i == n-1) {
        A->p[i+1] = A->p[i] + 2;
-- 
2.43.0


From e7fe59c916990286ebfc5ce1254d6e0767f030a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:09 +0000
Subject: [PATCH 18/50] fix: copy_sparse copies pattern matrices

---
 utils/sparse_utilities.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index cb584f1..9766b03 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -510,13 +510,14 @@ namespace sym_lib {
 
 
     CSC *copy_sparse(CSC *A){
-     CSC *clone = new CSC(A->m,A->n,A->nnz);
+     CSC *clone = new CSC(A->m,A->n,A->nnz,A->is_pattern);
      for (int i = 0; i < A->n+1; ++i) {
       clone->p[i] = A->p[i];
      }
      for (int j = 0; j < A->nnz; ++j) {
       clone->i[j] = A->i[j];
-      clone->x[j] = A->x[j];
+      if(!A->is_pattern)
+       clone->x[j] = A->x[j];
      }
      clone->stype = A->stype;
      return clone;
-- 
2.43.0


From 68009d03aadea924e5fd766dec1020635e749cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:09 +0000
Subject: [PATCH 19/50] fix: convert_to_one_based keeps the values

---
 utils/sparse_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 1a2dcf9..89a2c20 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -119,7 +119,7 @@ namespace sym_lib {
   else
    for (int j = 0; j < A->nnz; ++j) {
     A_one->i[j] = A->i[j]+1;
-    A_one->x[j] = A_one->x[j];
+    A_one->x[j] = A->x[j];
    }
 
   for (int k = 0; k < A->n + 1; ++k) {
-- 
2.43.0


From bd9a5e767e3d248206b224c3c8ad28cfcabbec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:27 +0000
Subject: [PATCH 20/50] fix: make_full expands pattern matrices

---
 utils/sparse_utilities.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 9766b03..0eb3f5b 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -238,7 +238,7 @@ namespace sym_lib {
       return nullptr;
      }
 
-     CSC *Afull = new CSC(A->m, A->n, A->nnz * 2 );
+     CSC *Afull = new CSC(A->m, A->n, A->nnz * 2, A->is_pattern);
      auto ind = new int[A->n]();
 
      for(size_t i = 0; i < A->n; i++) {
@@ -260,12 +260,14 @@ namespace sym_lib {
        int row = A->i[p];
        int index = Afull->p[i] + ind[i];
        Afull->i[index] = row;
-       Afull->x[index] = A->x[p];
+       if(!A->is_pattern)
+        Afull->x[index] = A->x[p];
        ind[i]++;
        if(row != i) {
         index = Afull->p[row] + ind[row];
         Afull->i[index] = i;
-        Afull->x[index] = A->x[p];
+        if(!A->is_pattern)
+         Afull->x[index] = A->x[p];
         ind[row]++;
        }
       }
-- 
2.43.0


From f1d234b5a38fa569b57ce93930f813e731a94fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:35 +0000
Subject: [PATCH 21/50] fix: count the entries of a merged DAG once

---
 utils/sparse_utilities.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 0eb3f5b..3e11730 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -883,7 +883,6 @@ namespace sym_lib {
   for(int i = 0; i < ngraphs-1; i++){
    nnz += DGps[i][n];
   }
-  nnz += (ngraphs-1) * n;
   CSC *merged_graph = new CSC(n*ngraphs,n*ngraphs,nnz, true);
 
 /** allocate new graph space **/
-- 
2.43.0


From 420b7740384c327a37eff6d5e40b0efda47eff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:35 +0000
Subject: [PATCH 22/50] fix: check the column bound before reading a row index
 in createFormat

---
 utils/BCSCMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/BCSCMatrix.cpp b/utils/BCSCMatrix.cpp
index ed835ee..ac4cfec 100644
--- a/utils/BCSCMatrix.cpp
+++ b/utils/BCSCMatrix.cpp
@@ -202,7 +202,7 @@ namespace sym_lib {
     for (p = 0; p < temp_cnt; p++) {
      int row_i = tempvec[p];
      M->i[counter] = row_i;
-     if (row_i == Ai[index] && index < Ap[j + 1]) {
+     if (index < Ap[j + 1] && row_i == Ai[index]) {
       M->x[counter] = Ax[index];
       index++;
      } else {
-- 
2.43.0


From 017acb12b8b80b71cc3b003b09400c159450a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:35 +0000
Subject: [PATCH 23/50] fix: keep the block graph of compressed_BCSC_to_CSC
 within its dimensions

---
 utils/BCSCMatrix.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/utils/BCSCMatrix.cpp b/utils/BCSCMatrix.cpp
index ac4cfec..2fcb84e 100644
--- a/utils/BCSCMatrix.cpp
+++ b/utils/BCSCMatrix.cpp
@@ -275,10 +275,6 @@ namespace sym_lib {
    for (int k = 0; k < count; k++)
     inplace[temp[k]] = false;
    count = 0;
-
-   Ai[i] = j + nodes;
-   Ap[p]++;
-   i++;
    p++;
   }
 
-- 
2.43.0


From cfbcaa22070ae240e50e3d32674a143c3ec6374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:35 +0000
Subject: [PATCH 24/50] fix: follow every row of the second kernel in
 merge_graphs

---
 utils/sparse_inspector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 1e7213b..df52dcd 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -775,7 +775,7 @@ namespace sym_lib {
   // Count # nnz in B
   for (int i = 0; i < nodes; i++) {
    for (int r = 0; r < nB->nrows[i]; r++) {
-    int row = supers[nB->i[nB->p[i]]];
+    int row = supers[nB->i[nB->p[i] + r]];
     if (!inplace[row]) {
      inplace[row] = true;
      temp[count] = row;
@@ -839,7 +839,7 @@ namespace sym_lib {
    Mi[i] = j + nodes;
    i++;
    for (int r = 0; r < nB->nrows[j]; r++) {
-    int row = supers[nB->i[nB->p[j]]];
+    int row = supers[nB->i[nB->p[j] + r]];
     if (!inplace[row]) {
      inplace[row] = true;
      temp[count] = row;
-- 
2.43.0


From 9116bcc70d613956cc2e96f660ecbb4dfea48a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:35 +0000
Subject: [PATCH 25/50] fix: release the METIS permutation as an array

---
 utils/lfactor_creation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/lfactor_creation.cpp b/utils/lfactor_creation.cpp
index 588200a..f674077 100644
--- a/utils/lfactor_creation.cpp
+++ b/utils/lfactor_creation.cpp
@@ -395,7 +395,7 @@ namespace sym_lib{
   At_ord = transpose_symmetric(A, perm_metis);
   A_ord = transpose_symmetric(At_ord, NULLPNTR);
   std::copy(perm_metis,perm_metis+n, perm);
-  delete perm_metis;
+  delete []perm_metis;
   delete A_full;
 #else
   for(int i=0; i<n; i++) perm[i] = i; // no permutation
-- 
2.43.0


From 5838ea3dbc9e7706df7fc1a3dd41fbce797f5afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:03 +0000
Subject: [PATCH 26/50] fix: leave the diagonal out of the graph passed to
 METIS

---
 utils/metis_interface.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 3982474..e6678de 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -48,16 +48,17 @@ namespace sym_lib {
   }
 
   perm = new int[A->n]();
-  int nnzFull = 2 * A->nnz - A->n;
+  int nnzFull = 2 * A->nnz;
   auto Afullp = new idx_t[A->n + 1]();
   auto Afulli = new idx_t[nnzFull]();
   auto ind = new int[A->n]();
   for (size_t i = 0; i < A->n; i++) {
    for (size_t p = A->p[i]; p < A->p[i + 1]; p++) {
     int row = A->i[p];
-    ind[i]++;
-    if (row != i)
+    if (row != i) {
+     ind[i]++;
      ind[row]++;
+    }
    }
   }
   Afullp[0] = 0;
@@ -173,16 +174,17 @@ namespace sym_lib {
   part = new int[A->n]();
 
   int n = A->n;
-  int nnzFull = 2 * A->nnz - A->n;
+  int nnzFull = 2 * A->nnz;
   auto Afullp = new idx_t[n + 1]();
   auto Afulli = new idx_t[nnzFull]();
   auto ind = new int[n]();
   for (size_t i = 0; i < n; i++) {
    for (size_t p = A->p[i]; p < A->p[i + 1]; p++) {
     int row = A->i[p];
-    ind[i]++;
-    if (row != i)
+    if (row != i) {
+     ind[i]++;
      ind[row]++;
+    }
    }
   }
   Afullp[0] = 0;
-- 
2.43.0


From 18a77fc76c5a3075c471b27edac891b5180579ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:03 +0000
Subject: [PATCH 27/50] fix: spread the parts of coarse nodes over their
 columns in metis_partition_coarsened

---
 utils/metis_interface.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index e6678de..853fd7d 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -334,14 +334,14 @@ namespace sym_lib {
   part = new int[A->n]();
   for (int i = 0; i < tmp->n; ++i) {
    int i2p = part_cors[i];
-   int bnd = i+coarsen; // std::max<int>(i + coarsen, A->n);
-   for (int j = i; j < bnd; ++j) {
+   int bnd = std::min<int>((i + 1) * coarsen, A->n);
+   for (int j = i * coarsen; j < bnd; ++j) {
     part[j] = i2p;
    }
   }
   //t.measure_elapsed_time();
   //t.print_t_array();
-  delete part_cors;
+  delete []part_cors;
   delete tmp;
   return 0;
  }
-- 
2.43.0


From ba0a0237f27e8ddf89c682180ae24ba38a7b5759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:50 +0000
Subject: [PATCH 28/50] fix: read_mtx places every entry in its own column

---
 utils/sparse_io.cpp | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 89a2c20..a86785f 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -42,20 +42,28 @@ namespace sym_lib {
    (A->i)[i]--;
    J[i]--;
   }
-  int i = 0, j;
-  int index = 0, cur;
-  for (; i < nnz; i++) {
-   A->p[index] = i;
-   cur = J[i];
-   for (j = i + 1; j < nnz; j++) {
-    if (J[j] != cur)
-     break;
-    else
-     i++;
-   }
-   index += 1;
+  // Count the entries per column, then put them in place in file order. The
+  // file may have empty columns and may list its entries in any order.
+  int *I = new int[nnz]();
+  double *X = new double[nnz]();
+  std::fill_n(A->p, n + 1, 0);
+  for (int i = 0; i < nnz; i++) {
+   A->p[J[i] + 1]++;
+   I[i] = A->i[i];
+   X[i] = A->x[i];
+  }
+  for (int j = 0; j < n; j++)
+   A->p[j + 1] += A->p[j];
+  int *next = new int[n]();
+  std::copy(A->p, A->p + n, next);
+  for (int i = 0; i < nnz; i++) {
+   int pos = next[J[i]]++;
+   A->i[pos] = I[i];
+   A->x[pos] = X[i];
   }
-  A->p[n] = nnz;
+  delete[]next;
+  delete[]X;
+  delete[]I;
   delete[]J;
 
   A->m = m;
-- 
2.43.0


From 75ea39e750e86b027d6d21aed6ecb0d6d8268edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:50 +0000
Subject: [PATCH 29/50] fix: read_mtx reads pattern matrices

---
 utils/sparse_io.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index a86785f..a1c5ead 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -33,7 +33,14 @@ namespace sym_lib {
 
   // Copy matrix data into COO format
   for (int i = 0; i < nnz; i++) {
-   if (fscanf(mf, "%d %d %lg\n", (A->i) + i, &J[i], (A->x) + i) == EOF) {
+   int got;
+   if (mm_is_pattern(mcode)) {
+    got = fscanf(mf, "%d %d\n", (A->i) + i, &J[i]);
+    (A->x)[i] = 1;
+   } else {
+    got = fscanf(mf, "%d %d %lg\n", (A->i) + i, &J[i], (A->x) + i);
+   }
+   if (got == EOF) {
     std::cerr << "Failed to load matrix at " << i + 1 << "th element\n";
     fclose(mf);
     delete (A);
-- 
2.43.0


From 7ae76f6ae92e3a8bbad5ddbad8afe09ca4f9b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:50 +0000
Subject: [PATCH 30/50] fix: read_mtx frees its column buffer and closes the
 file

---
 utils/sparse_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index a1c5ead..b4cdc8a 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -43,6 +43,7 @@ namespace sym_lib {
    if (got == EOF) {
     std::cerr << "Failed to load matrix at " << i + 1 << "th element\n";
     fclose(mf);
+    delete[]J;
     delete (A);
     return nullptr;
    }
@@ -76,6 +77,7 @@ namespace sym_lib {
   A->m = m;
   A->n = n;
   A->nnz = nnz;
+  fclose(mf);
   return A;
  }
 
-- 
2.43.0


From 18ee33177f5d344df726c7aeb2ba3d0035980a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:50 +0000
Subject: [PATCH 31/50] fix: room for the diagonals inserted by
 read_mtx_csc_real

---
 utils/sparse_io.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index b4cdc8a..07ce5dd 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -412,7 +412,7 @@ namespace sym_lib {
    }
   }
   delete []count;
-  for (auto k = 0; k < A->nnz; ++k) {
+  for (auto k = 0; k < A->p[A->n]; ++k) { // includes the inserted diagonals
    A->i[k] = triplet_vec[k].row;
    A->x[k] = triplet_vec[k].val;
   }
@@ -432,7 +432,9 @@ namespace sym_lib {
   bool read_val = true;
   if(arith == PATTERN)
     read_val = false;
-  A = new CSC(m,n,nnz,false, shape2int(shape));
+  // up to one entry per column is added if insert_diag is true
+  A = new CSC(m,n,insert_diag ? nnz+n : nnz,false, shape2int(shape));
+  A->nnz = nnz;
   read_triplets_real(in_file, nnz, triplet_vec, read_val);
   compress_triplets_to_csc(triplet_vec, A, insert_diag);
   A->nnz = A->p[n]; // if insert diag is true, it will be different.
-- 
2.43.0


From 2c8f6cab171916733b7497975559f4796ac91f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:50 +0000
Subject: [PATCH 32/50] fix: write matrix values with full precision

---
 utils/sparse_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 07ce5dd..41ee7a7 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -95,7 +95,7 @@ namespace sym_lib {
 
   for (int i = 0; i < A->n; i++)
    for (int j = A->p[i]; j < A->p[i + 1]; j++)
-    fprintf(fp, "%d %d %10.3g\n", A->i[j] + 1, i + 1, A->x[j]);
+    fprintf(fp, "%d %d %.17g\n", A->i[j] + 1, i + 1, A->x[j]);
   fclose(fp);
  }
 
@@ -119,7 +119,7 @@ namespace sym_lib {
    for (int j = 0; j < width; j++) {
     for (int k = 0; k < nrows; k++) {
      int pos = index + j * nrows + k;
-     fprintf(f, "%d %d %10.3g\n", A->i[pos] + 1, A->supernodes[i] + j + 1,
+     fprintf(f, "%d %d %.17g\n", A->i[pos] + 1, A->supernodes[i] + j + 1,
              A->x[pos]);
     }
    }
-- 
2.43.0


From f80d441c876b3ab8ed56ae369b3e43c4aef0c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:07 +0000
Subject: [PATCH 33/50] fix: partition_by_weight covers the whole set

---
 utils/utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/utils.cpp b/utils/utils.cpp
index 427cb57..f6dc655 100644
--- a/utils/utils.cpp
+++ b/utils/utils.cpp
@@ -62,7 +62,9 @@ namespace sym_lib{
    even_weight = target_weight;
   else{
    even_weight = new double[n_parts];
-   double even_w = std::ceil(sum_vector(n, weight) / n_parts);
+   double sum = 0;
+   for (int k = 0; k < n; ++k) sum += weight[set[k]];
+   double even_w = std::ceil(sum / n_parts);
    std::fill_n(even_weight, n_parts, even_w);
   }
   int *indices = new int[n_parts+1]();
@@ -76,6 +78,8 @@ namespace sym_lib{
    }
    indices[i+1] = j;
   }
+  // if anything is remained add it to last part
+  indices[n_parts] = n;
   if(!target_weight)
    delete []even_weight;
   return indices;
-- 
2.43.0


From 09751f604233bcb9cd912a7af45976dfeb071f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:07 +0000
Subject: [PATCH 34/50] fix: add up component costs atomically in parallel_cc

---
 src/lbc_csc_dag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 6ced3aa..c3ae44a 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -81,6 +81,7 @@ int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level,
  for (int i = 0; i < numNodes; ++i) {
   int node = nodes[i];
   int cc = node2partition[node];
+#pragma omp atomic
   outCost[cc] += nodeCost[node];
   max_cc = std::max(max_cc, cc + 1);
  }
-- 
2.43.0


From 16b7c153ec49786d901f95865d8c94604b43a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:37 +0000
Subject: [PATCH 35/50] fix: numThreads of -1 means the default number of
 threads in make_partitions_parallel

---
 src/lbc_csc_dag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index c3ae44a..1adb845 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -198,9 +198,9 @@ int make_partitions_parallel(int n, int *lC, int *lR, int *finaLevelPtr,
                              int numThreads, bool binPacking) {
  if (numThreads == -1) {
 #ifdef ENABLE_OPENMP
-  int tidx = omp_get_thread_num();
+  numThreads = omp_get_max_threads();
 #else
-  int tidx = 1;
+  numThreads = 1;
 #endif
  }
 
-- 
2.43.0


From cbb62f137326c9ee1a00449e02663828a8d6835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:22 +0000
Subject: [PATCH 36/50] fix: cliques found by one thread stay within its own
 columns (two threads labelled the same column)

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 2b3099f..6feaf14 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2053,7 +2053,7 @@ namespace HDAGG
                     int width = 1;
                     int first = col;
                     int last = col + 1;
-                    while (last < n && width < limit) {
+                    while (last < end_col && width < limit) {
                         int diff = last - first;
                         // compare number of off diagonals
                         int off_last  = Lp[last + 1] - Lp[last];
-- 
2.43.0


From 76f6834481af4a36020a9d6e63855f2d914b472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:22 +0000
Subject: [PATCH 37/50] fix: no data races on labels and change flag in
 parallel_cc

---
 src/hdagg/hdagg.cpp | 27 +++++++++++++++++++++------
 src/lbc_csc_dag.cpp | 27 +++++++++++++++++++++------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 6feaf14..64c2218 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -281,7 +281,7 @@ namespace HDAGG
     bool change = true;
     while (change) {
         change = false;
-        #pragma omp parallel for
+        #pragma omp parallel for reduction(|| : change)
         for (int i = 0; i < numNodes; ++i) {
             int u = nodes[i];
             // Now we go over all neighbors of u
@@ -292,14 +292,20 @@ namespace HDAGG
                 if (level < lbLevel || level >= ubLevel)
                     continue;
 
-                int comp_u = node2partition[u];
-                int comp_v = node2partition[v];
+                int comp_u, comp_v, root;
+                #pragma omp atomic read
+                comp_u = node2partition[u];
+                #pragma omp atomic read
+                comp_v = node2partition[v];
                 if (comp_u == comp_v)
                     continue;
                 int high_comp = comp_u > comp_v ? comp_u : comp_v;
                 int low_comp = comp_u + (comp_v - high_comp);
-                if (high_comp == node2partition[nodes[high_comp]]) {
+                #pragma omp atomic read
+                root = node2partition[nodes[high_comp]];
+                if (high_comp == root) {
                     change = true;
+                    #pragma omp atomic write
                     node2partition[nodes[high_comp]] = low_comp;
                 }
             }
@@ -308,8 +314,17 @@ namespace HDAGG
         #pragma omp parallel for
         for (int i = 0; i < numNodes; ++i) {
             int node = nodes[i];
-            while (node2partition[node] != node2partition[nodes[node2partition[node]]]) {
-                node2partition[node] = node2partition[nodes[node2partition[node]]];
+            int comp, root;
+            #pragma omp atomic read
+            comp = node2partition[node];
+            #pragma omp atomic read
+            root = node2partition[nodes[comp]];
+            while (comp != root) {
+                comp = root;
+                #pragma omp atomic write
+                node2partition[node] = comp;
+                #pragma omp atomic read
+                root = node2partition[nodes[comp]];
             }
         }
     }
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 1adb845..1e98525 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -43,7 +43,7 @@ int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level,
  while (change) {
   change = false;
 
-#pragma omp parallel for num_threads(numThreads)
+#pragma omp parallel for num_threads(numThreads) reduction(|| : change)
   for (int i = 0; i < numNodes; ++i) {
    int u = nodes[i];
    // Now we go over all neighbors of u
@@ -54,14 +54,20 @@ int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level,
     if (level < dfsLevel || level >= ubLevel)
      continue;
 
-    int comp_u = node2partition[u];
-    int comp_v = node2partition[v];
+    int comp_u, comp_v, root;
+#pragma omp atomic read
+    comp_u = node2partition[u];
+#pragma omp atomic read
+    comp_v = node2partition[v];
     if (comp_u == comp_v)
      continue;
     int high_comp = comp_u > comp_v ? comp_u : comp_v;
     int low_comp = comp_u + (comp_v - high_comp);
-    if (high_comp == node2partition[nodes[high_comp]]) {
+#pragma omp atomic read
+    root = node2partition[nodes[high_comp]];
+    if (high_comp == root) {
      change = true;
+#pragma omp atomic write
      node2partition[nodes[high_comp]] = low_comp;
     }
    }
@@ -70,8 +76,17 @@ int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level,
 #pragma omp parallel for num_threads(numThreads)
   for (int i = 0; i < numNodes; ++i) {
    int node = nodes[i];
-   while (node2partition[node] != node2partition[nodes[node2partition[node]]]) {
-    node2partition[node] = node2partition[nodes[node2partition[node]]];
+   int comp, root;
+#pragma omp atomic read
+   comp = node2partition[node];
+#pragma omp atomic read
+   root = node2partition[nodes[comp]];
+   while (comp != root) {
+    comp = root;
+#pragma omp atomic write
+    node2partition[node] = comp;
+#pragma omp atomic read
+    root = node2partition[nodes[comp]];
    }
   }
  }
-- 
2.43.0


From 6ddca35400cba46653852955087601f81c567151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 38/50] fix: no data races on labels, change flag and marks in
 the components of HDAGG

---
 src/hdagg/hdagg.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 64c2218..fd17e03 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -571,15 +571,22 @@ namespace HDAGG
                             if (level < lb_level || level >= ub_level)
                                 continue;
 
-                            int comp_u = node2partition[u];
-                            int comp_v = node2partition[v];
+                            int comp_u, comp_v, root;
+                            #pragma omp atomic read
+                            comp_u = node2partition[u];
+                            #pragma omp atomic read
+                            comp_v = node2partition[v];
                             if (comp_u == comp_v)
                                 continue;
                             int high_comp = comp_u > comp_v ? comp_u : comp_v;
                             int low_comp = comp_u + (comp_v - high_comp);
                             //Change the root partition indicator to the low component
-                            if (high_comp == node2partition[sub_DAG_nodes[high_comp]]) {
+                            #pragma omp atomic read
+                            root = node2partition[sub_DAG_nodes[high_comp]];
+                            if (high_comp == root) {
+                                #pragma omp atomic write
                                 change = true;
+                                #pragma omp atomic write
                                 node2partition[sub_DAG_nodes[high_comp]] = low_comp;
                             }
                         }
@@ -588,8 +595,17 @@ namespace HDAGG
                     #pragma omp for
                     for (int i = 0; i < num_nodes_in_sub_DAG; ++i) {
                         int node = sub_DAG_nodes[i];
-                        while (node2partition[node] != node2partition[sub_DAG_nodes[node2partition[node]]]) {
-                            node2partition[node] = node2partition[sub_DAG_nodes[node2partition[node]]];
+                        int comp, root;
+                        #pragma omp atomic read
+                        comp = node2partition[node];
+                        #pragma omp atomic read
+                        root = node2partition[sub_DAG_nodes[comp]];
+                        while (comp != root) {
+                            comp = root;
+                            #pragma omp atomic write
+                            node2partition[node] = comp;
+                            #pragma omp atomic read
+                            root = node2partition[sub_DAG_nodes[comp]];
                         }
                     }
                 }
@@ -598,6 +614,7 @@ namespace HDAGG
                 for(int i = 0; i < node2partition.size(); i++){
                     int node_partition = node2partition[i];
                     if(node_partition != -1){
+                        #pragma omp atomic write
                         part_exist[node_partition] = 1;
                     }
                 }
-- 
2.43.0


From c2ab9e2d37ad87bac42626ae4ac1ef978371a8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:47 +0000
Subject: [PATCH 39/50] fix: pack the components of every coarse level by their
 own costs

---
 src/lbc_blocked.cpp |  6 ++++++
 src/lbc_csc.cpp     |  6 ++++++
 src/lbc_csc_dag.cpp | 10 ++++++++++
 src/lbc_tree.cpp    |  2 ++
 4 files changed, 24 insertions(+)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 30ca081..4f3f70d 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -134,6 +134,8 @@ namespace sym_lib {
          node2partition[i] = minAliasedPar;
         }
        }
+       outCost[minAliasedPar] += outCost[tn];
+       outCost[tn] = 0.0;
       }
       needAliased.erase(needAliased.begin(), needAliased.end());
       //Set the nodes in the current cluster
@@ -249,6 +251,10 @@ namespace sym_lib {
    }
 
    //Cleaning the current sets.
+   for (int i = 0; i < newLeveledParList.size(); ++i)
+    outCost[i] = 0.0;
+   for (int i = 0; i < outinnerParts; ++i)
+    newOutCost[i] = 0.0;
    for (int i = 0; i < mergedLeveledParList.size(); ++i) {
     mergedLeveledParList[i].erase(mergedLeveledParList[i].begin(), mergedLeveledParList[i].end());
    }
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 9d5a4fd..60f92d8 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -141,6 +141,8 @@ namespace sym_lib {
           node2partition[i] = minAliasedPar;
          }
         }
+        outCost[minAliasedPar] += outCost[tn];
+        outCost[tn] = 0.0;
        }
       }
       needAliased.clear();
@@ -251,6 +253,10 @@ namespace sym_lib {
    }
 
    //Cleaning the current sets.
+   for (int i = 0; i < newLeveledParList.size(); ++i)
+    outCost[i] = 0.0;
+   for (int i = 0; i < outinnerParts; ++i)
+    newOutCost[i] = 0.0;
    for (auto &i : mergedLeveledParList)
     i.clear();
    mergedLeveledParList.clear();
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 1e98525..2c6fdcd 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -197,6 +197,10 @@ void process_l_partition(
  outinnerPartsList[l] = outinnerParts;
 
  // Cleaning the current sets.
+ for (int i = 0; i < newLeveledParList.size(); ++i)
+  outCost[i] = 0.0;
+ for (int i = 0; i < outinnerParts; ++i)
+  newOutCost[i] = 0.0;
  for (int i = 0; i < newLeveledParList.size(); ++i) {
   newLeveledParList[i].erase(newLeveledParList[i].begin(),
                              newLeveledParList[i].end());
@@ -527,6 +531,8 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
          node2partition[i] = minAliasedPar;
         }
        }
+       outCost[minAliasedPar] += outCost[tn];
+       outCost[tn] = 0.0;
       }
      }
      needAliased.erase(needAliased.begin(), needAliased.end());
@@ -652,6 +658,10 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
   }
 
   // Cleaning the current sets.
+  for (int i = 0; i < newLeveledParList.size(); ++i)
+   outCost[i] = 0.0;
+  for (int i = 0; i < outinnerParts; ++i)
+   newOutCost[i] = 0.0;
   for (int i = 0; i < mergedLeveledParList.size(); ++i) {
    mergedLeveledParList[i].erase(mergedLeveledParList[i].begin(),
                                  mergedLeveledParList[i].end());
diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index 41ade6b..8247c5b 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -367,6 +367,8 @@ namespace sym_lib {
 #endif
 
    //Cleaning the current sets.
+   for (int i = 0; i < outinnerParts; ++i)
+    newOutCost[i] = 0.0;
    for (int i = 0; i < mergedLeveledParList.size(); ++i) {
     mergedLeveledParList[i].erase(mergedLeveledParList[i].begin(), mergedLeveledParList[i].end());
    }
-- 
2.43.0


From f2aeae42d9112526feedf73b906447a2364ad727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:35 +0000
Subject: [PATCH 40/50] fix: HDAGG cuts the last merged levels with their own
 chunks

---
 src/hdagg/hdagg.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index fd17e03..4e80427 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -806,9 +806,7 @@ namespace HDAGG
                     WM_condidate = ub_level;
                     ub_level = std::min(ub_level + 1, nlevels);
                     if(prev_upper_bound == ub_level){
-                        if(iteration_counter == 1){
-                            chunk_sizes[WM.size() - 1] = chunk_array;
-                        }
+                        chunk_sizes[WM.size() - 1] = chunk_array;
                         done_flag = true;
                     }
                     prev_upper_bound = ub_level;
@@ -1023,10 +1021,7 @@ namespace HDAGG
                     WM_condidate = ub_level;
                     ub_level = std::min(ub_level + 1, nlevels);
                     if(prev_upper_bound == ub_level){
-                        if(iteration_counter == 1){
-                            chunk_sizes[WM.size() - 1] = chunk_array;
-                            node2partition_accepted = node2partition;
-                        }
+                        chunk_sizes[WM.size() - 1] = chunk_array;
                         done_flag = true;
                     }
                     node2partition_accepted = node2partition;
-- 
2.43.0


From 1ee0b8aac190582813d41e902d2800e66aeaf1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 41/50] fix: Matrix Market writers report success when
 everything was written

---
 utils/external/mmio.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index ace5551..e296641 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -164,7 +164,7 @@ namespace sym_lib {
  }
 
  int mm_write_mtx_crd_size(FILE *f, int M, int N, int nz) {
-  if (fprintf(f, "%d %d %d\n", M, N, nz) != 3)
+  if (fprintf(f, "%d %d %d\n", M, N, nz) < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
@@ -223,7 +223,7 @@ namespace sym_lib {
  }
 
  int mm_write_mtx_array_size(FILE *f, int M, int N) {
-  if (fprintf(f, "%d %d\n", M, N) != 2)
+  if (fprintf(f, "%d %d\n", M, N) < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
@@ -344,7 +344,7 @@ namespace sym_lib {
 
   ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
   free(str);
-  if (ret_code != 2)
+  if (ret_code < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
-- 
2.43.0


From 9664fe71012c201bdab56e1c4c131aaa0c65a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 42/50] fix: long words in a Matrix Market banner do not
 overflow the token buffers

---
 utils/external/mmio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index e296641..eee0796 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -101,7 +101,7 @@ namespace sym_lib {
   if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL)
    return MM_PREMATURE_EOF;
 
-  if (sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if (sscanf(line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type,
              storage_scheme) != 5)
    return MM_PREMATURE_EOF;
 
-- 
2.43.0


From e2c00d894fb5de438f8cddd4cffe729f5ada0690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 43/50] fix: Matrix Market size readers stop at text that is no
 number

---
 utils/external/mmio.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index eee0796..518a5d6 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -190,7 +190,7 @@ namespace sym_lib {
   else
    do {
     num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-    if (num_items_read == EOF) return MM_PREMATURE_EOF;
+    if (num_items_read <= 0) return MM_PREMATURE_EOF;
    } while (num_items_read != 3);
 
   return 0;
@@ -216,7 +216,7 @@ namespace sym_lib {
   else /* we have a blank line */
    do {
     num_items_read = fscanf(f, "%d %d", M, N);
-    if (num_items_read == EOF) return MM_PREMATURE_EOF;
+    if (num_items_read <= 0) return MM_PREMATURE_EOF;
    } while (num_items_read != 2);
 
   return 0;
-- 
2.43.0


From 0f1b572f653475ef26738b76c83a6d14ba96b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 44/50] fix: mm_write_mtx_crd writes values that read back
 unchanged and frees the type string

---
 utils/external/mmio.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 518a5d6..0279111 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -362,7 +362,9 @@ namespace sym_lib {
 
   /* print banner followed by typecode */
   fprintf(f, "%s ", MatrixMarketBanner);
-  fprintf(f, "%s\n", mm_typecode_to_str(matcode));
+  char *str = mm_typecode_to_str(matcode);
+  fprintf(f, "%s\n", str);
+  free(str);
 
   /* print matrix sizes and nonzeros */
   fprintf(f, "%d %d %d\n", M, N, nz);
@@ -373,10 +375,10 @@ namespace sym_lib {
     fprintf(f, "%d %d\n", I[i], J[i]);
   else if (mm_is_real(matcode))
    for (i = 0; i < nz; i++)
-    fprintf(f, "%d %d %20.16g\n", I[i], J[i], val[i]);
+    fprintf(f, "%d %d %20.17g\n", I[i], J[i], val[i]);
   else if (mm_is_complex(matcode))
    for (i = 0; i < nz; i++)
-    fprintf(f, "%d %d %20.16g %20.16g\n", I[i], J[i], val[2 * i],
+    fprintf(f, "%d %d %20.17g %20.17g\n", I[i], J[i], val[2 * i],
             val[2 * i + 1]);
   else {
    if (f != stdout) fclose(f);
-- 
2.43.0


From a170aa35961d75143503bb1e0c28fa217e7cb679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 45/50] fix: entries of integer Matrix Market files are read
 and written

---
 utils/external/mmio.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 0279111..e0729aa 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -245,7 +245,7 @@ namespace sym_lib {
     if (fscanf(f, "%d %d %lg %lg", &I[i], &J[i], &val[2 * i], &val[2 * i + 1])
         != 4)
      return MM_PREMATURE_EOF;
-  } else if (mm_is_real(matcode)) {
+  } else if (mm_is_real(matcode) || mm_is_integer(matcode)) {
    for (i = 0; i < nz; i++) {
     if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i])
         != 3)
@@ -270,7 +270,7 @@ namespace sym_lib {
    if (fscanf(f, "%d %d %lg %lg", I, J, real, imag)
        != 4)
     return MM_PREMATURE_EOF;
-  } else if (mm_is_real(matcode)) {
+  } else if (mm_is_real(matcode) || mm_is_integer(matcode)) {
    if (fscanf(f, "%d %d %lg\n", I, J, real)
        != 3)
     return MM_PREMATURE_EOF;
@@ -323,7 +323,7 @@ namespace sym_lib {
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
    if (ret_code != 0) return ret_code;
-  } else if (mm_is_real(*matcode)) {
+  } else if (mm_is_real(*matcode) || mm_is_integer(*matcode)) {
    *val = (double *) malloc(*nz * sizeof(double));
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
@@ -373,7 +373,7 @@ namespace sym_lib {
   if (mm_is_pattern(matcode))
    for (i = 0; i < nz; i++)
     fprintf(f, "%d %d\n", I[i], J[i]);
-  else if (mm_is_real(matcode))
+  else if (mm_is_real(matcode) || mm_is_integer(matcode))
    for (i = 0; i < nz; i++)
     fprintf(f, "%d %d %20.17g\n", I[i], J[i], val[i]);
   else if (mm_is_complex(matcode))
-- 
2.43.0


From 97c1d2f8057e2d750ef36ed2f7b4e6e9ccb5e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 46/50] fix: Matrix Market readers close the file when they
 refuse it, and refuse truncated entries

---
 utils/external/mmio.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index e0729aa..4c962f7 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -29,6 +29,7 @@ namespace sym_lib {
   if (mm_read_banner(f, &matcode) != 0) {
    printf("mm_read_unsymetric: Could not process Matrix Market banner ");
    printf(" in file [%s]\n", fname);
+   fclose(f);
    return -1;
   }
 
@@ -38,6 +39,7 @@ namespace sym_lib {
    fprintf(stderr, "Sorry, this application does not support ");
    fprintf(stderr, "Market Market type: [%s]\n",
            mm_typecode_to_str(matcode));
+   fclose(f);
    return -1;
   }
 
@@ -45,6 +47,7 @@ namespace sym_lib {
 
   if (mm_read_mtx_crd_size(f, &M, &N, &nz) != 0) {
    fprintf(stderr, "read_unsymmetric_sparse(): could not parse matrix size.\n");
+   fclose(f);
    return -1;
   }
 
@@ -67,7 +70,11 @@ namespace sym_lib {
   /*  (ANSI C X3.159-1989, Sec. 4.9.6.2, p. 136 lines 13-15)            */
 
   for (i = 0; i < nz; i++) {
-   fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]);
+   if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3) {
+    fprintf(stderr, "read_unsymmetric_sparse(): could not read entry %d.\n", i);
+    fclose(f);
+    return -1;
+   }
    I[i]--;  /* adjust from 1-based to 0-based */
    J[i]--;
   }
@@ -303,15 +310,18 @@ namespace sym_lib {
    return MM_COULD_NOT_READ_FILE;
 
 
-  if ((ret_code = mm_read_banner(f, matcode)) != 0)
-   return ret_code;
-
-  if (!(mm_is_valid(*matcode) && mm_is_sparse(*matcode) &&
+  if ((ret_code = mm_read_banner(f, matcode)) == 0 &&
+      !(mm_is_valid(*matcode) && mm_is_sparse(*matcode) &&
         mm_is_matrix(*matcode)))
-   return MM_UNSUPPORTED_TYPE;
+   ret_code = MM_UNSUPPORTED_TYPE;
 
-  if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0)
+  if (ret_code == 0)
+   ret_code = mm_read_mtx_crd_size(f, M, N, nz);
+
+  if (ret_code != 0) {
+   if (f != stdin) fclose(f);
    return ret_code;
+  }
 
 
   *I = (int *) malloc(*nz * sizeof(int));
@@ -322,20 +332,17 @@ namespace sym_lib {
    *val = (double *) malloc(*nz * 2 * sizeof(double));
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
-   if (ret_code != 0) return ret_code;
   } else if (mm_is_real(*matcode) || mm_is_integer(*matcode)) {
    *val = (double *) malloc(*nz * sizeof(double));
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
-   if (ret_code != 0) return ret_code;
   } else if (mm_is_pattern(*matcode)) {
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
-   if (ret_code != 0) return ret_code;
   }
 
   if (f != stdin) fclose(f);
-  return 0;
+  return ret_code;
  }
 
  int mm_write_banner(FILE *f, MM_typecode matcode) {
-- 
2.43.0


From 792de5e5896a91e6b6396b78a839b92766b3b877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:43 +0000
Subject: [PATCH 47/50] fix: find_min starts from the first cost, so bins above
 INT_MAX are balanced too

---
 src/lbc_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 30d71a8..f1a4efc 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -147,9 +147,9 @@ namespace sym_lib{
 
 
  int find_min(double *cost, int size) {
-  double min = INT_MAX;
+  double min = cost[0];
   int minBin = 0;
-  for (int i = 0; i < size; ++i) {
+  for (int i = 1; i < size; ++i) {
    if (cost[i] < min) {
     min = cost[i];
     minBin = i;
-- 
2.43.0


From cde89278ee7d6546f755a41424c5433709290ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:27 +0000
Subject: [PATCH 48/50] fix: CollectionGrouping read the node after the last
 group past the end of the node list

---
 src/Group/Group.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Group/Group.cpp b/src/Group/Group.cpp
index 704bf92..4ae6b77 100755
--- a/src/Group/Group.cpp
+++ b/src/Group/Group.cpp
@@ -599,7 +599,7 @@ namespace sym_lib
         grouped_DAG_nodes[0] = 0;
         for(int cmp_node = 0; cmp_node < grouped_DAG_num_nodes; cmp_node++){
             int group_begin = group_set[group_set_ptr[cmp_node]];
-            int group_end = group_set[group_set_ptr[cmp_node + 1]];
+            int group_end = group_set_ptr[cmp_node + 1]; // nodes are listed in order
             std::unordered_set<int> child_buff;
             child_buff.reserve(input_DAG_nodes[group_end] - input_DAG_nodes[group_begin]);
             //add children of the new aggregated node group_idx
@@ -686,7 +686,7 @@ namespace sym_lib
         grouped_DAG_nodes[0] = 0;
         for(int cmp_node = 0; cmp_node < grouped_DAG_num_nodes; cmp_node++){
             int group_begin = group_set[group_set_ptr[cmp_node]];
-            int group_end = group_set[group_set_ptr[cmp_node + 1]];
+            int group_end = group_set_ptr[cmp_node + 1]; // nodes are listed in order
             std::unordered_set<int> child_buff;
             child_buff.reserve(input_DAG_nodes[group_end] - input_DAG_nodes[group_begin]);
             //add children of the new aggregated node group_idx
-- 
2.43.0


From 02d75e31f76ddf0d67d5945b516606a37c19ac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:27 +0000
Subject: [PATCH 49/50] fix: mergeSmallGroups lost the nodes of the last group
 when all groups are below the threshold

---
 src/Group/Group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Group/Group.cpp b/src/Group/Group.cpp
index 4ae6b77..e32c9b8 100755
--- a/src/Group/Group.cpp
+++ b/src/Group/Group.cpp
@@ -517,7 +517,7 @@ namespace sym_lib
                     for(int gap = pre_group + 1; gap <= current_group; gap++){
                         group_set[gap] = group_set[next_group];
                     }
-                } else {
+                } else if(next_group < group_size) {
                     // Merge into the next group
                     group_set[next_group] = group_set[current_group];
                 }
-- 
2.43.0


From 42a4de60474fd1f5498baaea81f1694b6f5c8444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:45 +0000
Subject: [PATCH 50/50] fix: merge_inner_part stored the cost of each part at
 the index of the next one, past the end for as many parts as items

---
 src/lbc_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index f1a4efc..8084d9b 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -134,8 +134,8 @@ namespace sym_lib{
       newLeveledParList[i].begin(), newLeveledParList[i].end());
     i++;
    }
-   lClusterCnt++;
    outCost[lClusterCnt] = curCost;
+   lClusterCnt++;
   }
   return lClusterCnt;
  }
-- 
2.43.0

