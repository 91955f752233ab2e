------------------------------- MODULE T_part -------------------------------
(* Conformance of the partitioning building blocks: weight partitions, breadth-first partitions, connected         *)
(* components, depth-first components, bin packing and height partitioning.  One record per call.                  *)
EXTENDS Graphs, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
R == Recs[rec]
If(c, m) == IF c THEN m ELSE ""
Has(f) == f \in DOMAIN R
CeilDiv(a, b) == (a + b - 1) \div b
(* ---- greedy cutting of a sequence of weights w into np consecutive parts ptr ---- *)
W(s) == [k \in DOMAIN s |-> R.w[s[k] + 1]]
Target(total, k) == IF Has("tw") THEN R.tw[k] ELSE CeilDiv(total, R.np)
GreedyPart(w, a, b, n, target, last) ==       \* nodes a+1 .. b of the sequence form one part
  LET sum(x, y) == SumSeq([k \in 1 .. (y - x) |-> w[x + k]])
  IN  /\ (b < n /\ ~last) => sum(a, b) >= target                \* a part that is not the last takes until it is full
      /\ (b > a /\ ~last) => sum(a, b - 1) < target             \* and not more
PartWV ==
  LET n == Len(R.set)  w == W(R.set)  tot == SumSeq(w)
  IN  IF Len(R.ptr) # R.np + 1 \/ R.ptr[1] # 0 \/ \E k \in 1 .. R.np : R.ptr[k] > R.ptr[k+1] THEN "part boundaries"
      ELSE IF R.ptr[R.np + 1] # n THEN "some nodes are in no part"
      ELSE If(\E k \in 1 .. R.np : ~GreedyPart(w, R.ptr[k], R.ptr[k+1], n, Target(tot, k), k = R.np), "a part is cut too early or too late")
PartBfsV ==
  LET G == Succ(R.n, R.p, R.i)
  IN  IF ~R.wf \/ R.nlev # 1 \/ Len(R.sched) # 1 \/ Len(R.sched[1]) # R.np THEN "one level with the requested parts is expected"
      ELSE LET P == R.sched[1]  all == FlattenSeq(P)  w == W(all)  tot == SumSeq(w)  n == R.n
               start(k) == SumSeq([q \in 1 .. (k-1) |-> Len(P[q])])
           IN  IF Len(all) # n \/ ToSet(all) # Nodes(n) THEN "parts do not hold every node once"
               ELSE IF \E k \in 1 .. R.np : ~GreedyPart(w, start(k), start(k) + Len(P[k]), n, Target(tot, k), k = R.np) THEN "a part is cut too early or too late"
               ELSE LET by(k) == Min({ q \in 1 .. (k-1) : all[k] \in G[all[q]] } \cup {k})       \* who discovered the k-th node; itself if it began a visit
                        pars == [k \in 1 .. n |-> by(k)]
                        (* what the last part takes after its target is reached comes in any order *)
                        a == start(R.np)
                        full == { k \in a .. n : SumSeq([q \in 1 .. (k - a) |-> w[a + q]]) >= Target(tot, R.np) }
                        bfs == 2 .. (IF full = {} THEN n ELSE Min(full))
                    IN  IF \E k \in bfs : pars[k] = k /\ \E q \in 1 .. (k-1) : ~(G[all[q]] \subseteq { all[j] : j \in 1 .. (k-1) }) THEN "the visit starts anew although discovered nodes wait"
                        ELSE IF \E k \in bfs : pars[k] < pars[k-1] THEN "the visit is not breadth first"
                        ELSE If(\E k \in bfs : pars[k] = k /\ \E q \in (k+1) .. n : all[q] < all[k], "the visit does not start at the least unvisited node")
(* ---- connected components of the nodes with level in lb .. ub-1 ---- *)
CcV ==
  LET G == Succ(R.n, R.p, R.i)  U == ToSet(R.nodes)  C == Components(G, U)
  IN  IF \E v \in Nodes(R.n) \ U : R.part[v+1] # -1 THEN "a node outside the level range was labelled"
      ELSE IF \E v \in U : R.part[v+1] < 0 \/ R.part[v+1] >= Cardinality(U) THEN "label out of range"
      ELSE IF \E K \in C : \E u, v \in K : R.part[u+1] # R.part[v+1] THEN "connected nodes have different labels"
      ELSE IF Cardinality({ R.part[v+1] : v \in U }) # Cardinality(C) THEN "unconnected nodes share a label"
      ELSE IF ~Has("ocost") THEN ""
      ELSE IF R.rv # 1 + MaxOr({ R.part[v+1] : v \in U }, -1) THEN "label count"
      ELSE If(\E l \in Nodes(R.n) : R.ocost[l+1] # SumF([v \in U |-> R.cost[v+1]], { v \in U : R.part[v+1] = l }), "component cost")
(* ---- depth-first trees: everything reachable and not in an earlier tree, predecessors first ---- *)
DfsV ==
  LET G == Succ(R.n, R.p, R.i)  RG == Reach(G)
      before(k) == UNION { ToSet(R.trees[q]) : q \in 1 .. (k-1) }
      root(k) == Min(Nodes(R.n) \ before(k))
      want(k) == ({root(k)} \cup RG[root(k)]) \ before(k)
      pos(t) == [v \in ToSet(t) |-> CHOOSE q \in DOMAIN t : t[q] = v]
  IN  IF UNION { ToSet(R.trees[k]) : k \in DOMAIN R.trees } # Nodes(R.n) THEN "trees do not hold every node"
      ELSE IF \E k \in DOMAIN R.trees : ~Distinct(R.trees[k]) \/ ToSet(R.trees[k]) # want(k) THEN "a tree is not what its root reaches"
      ELSE IF \E k \in DOMAIN R.trees : LET q == pos(R.trees[k]) IN \E u \in DOMAIN q : \E v \in G[u] \cap DOMAIN q : q[u] > q[v] THEN "a tree is not in topological order"
      ELSE If(\E k \in DOMAIN R.trees : ToSet(R.clash[k]) # UNION { G[u] : u \in ToSet(R.trees[k]) } \cap before(k), "the earlier trees it runs into")
(* ---- bin packing ---- *)
RECURSIVE Cuts(_, _)
Cuts(at, s) == IF s = <<>> THEN TRUE          \* s is a concatenation of whole items; at: first member |-> item
               ELSE /\ Head(s) \in DOMAIN at
                    /\ LET it == at[Head(s)] IN Len(it) <= Len(s) /\ SubSeq(s, 1, Len(it)) = it /\ Cuts(at, SubSeq(s, Len(it) + 1, Len(s)))
BinV ==
  LET o == TLCEval(FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + x), <<0>>, R.sz))
      K == TLCEval({ k \in DOMAIN R.sz : R.sz[k] > 0 })
      own == TLCEval([k \in K |-> o[k] .. (o[k+1] - 1)])
      at == TLCEval([x \in { o[k] : k \in K } |-> LET k == CHOOSE k \in K : o[k] = x IN [q \in 1 .. R.sz[k] |-> x + q - 1]])
      inb(b) == LET m == TLCEval(ToSet(R.bins[b])) IN { k \in K : own[k] \subseteq m }
      zero == { k \in DOMAIN R.sz : R.sz[k] = 0 }
      tot == SumSeq(R.ic)  big == MaxOr({ R.ic[k] : k \in DOMAIN R.ic }, 0)
      all == TLCEval(FlattenSeq(R.bins))
  IN  IF R.rv # R.nb \/ Len(R.bins) # R.nb THEN "bin count"
      ELSE IF Len(all) # SumSeq(R.sz) \/ ToSet(all) # Nodes(SumSeq(R.sz)) THEN "bins do not hold every node once"
      ELSE IF \E b \in DOMAIN R.bins : ~Cuts(at, R.bins[b]) THEN "an item was torn apart"
      ELSE IF zero = {} /\ \E b \in DOMAIN R.bins : R.ocost[b] # SumF(R.ic, inb(b)) THEN "bin cost"
      ELSE IF SumSeq(R.ocost) # tot THEN "total cost"
      ELSE IF \E a, b \in DOMAIN R.bins : R.ocost[a] - R.ocost[b] > big THEN "bins differ by more than the largest item"
      ELSE (* longest item first onto the least loaded bin stays within 4/3 - 1/(3m) of the best packing *)
           IF Len(R.ic) > 6 \/ R.nb > 3 THEN ""
           ELSE LET load(f, b) == SumF(R.ic, { k \in DOMAIN R.ic : f[k] = b })
                    best == Min({ Max({ load(f, b) : b \in 1 .. R.nb }) : f \in [DOMAIN R.ic -> 1 .. R.nb] })
                IN  If(3 * R.nb * Max({ R.ocost[b] : b \in DOMAIN R.bins }) > (4 * R.nb - 1) * best, "packing is worse than longest-first")
(* ---- merging items in order: a part is closed as soon as its cost reaches the threshold ---- *)
RECURSIVE Merged(_, _, _, _)      \* <<first item, last item>> of every part
Merged(k, from, acc, out) == IF k > Len(R.ic) THEN (IF from < k THEN Append(out, <<from, k - 1>>) ELSE out)
                             ELSE IF acc + R.ic[k] >= R.th THEN Merged(k + 1, k + 1, 0, Append(out, <<from, k>>)) ELSE Merged(k + 1, from, acc + R.ic[k], out)
MergeInnerV ==
  LET M == TLCEval(Merged(1, 1, 0, <<>>))
      off(k) == SumSeq([q \in 1 .. (k-1) |-> R.sz[q]])
      all(m) == [q \in 1 .. (off(m[2] + 1) - off(m[1])) |-> off(m[1]) + q - 1]
  IN  IF R.rv # Len(M) THEN "number of merged parts"
      ELSE IF \E k \in DOMAIN R.bins : R.bins[k] # (IF k <= Len(M) THEN all(M[k]) ELSE <<>>) THEN "contents of merged parts"
      ELSE IF \E k \in DOMAIN M : R.ocost[k] # SumSeq(SubSeq(R.ic, M[k][1], M[k][2])) THEN "cost of merged parts"
      ELSE If(\E k \in DOMAIN R.ocost : k > Len(M) /\ R.ocost[k] # -7, "cost of a part that does not exist")
(* ---- cutting the levels into l-partitions ---- *)
HpartV ==
  LET L == Len(R.lp) - 1
  IN  IF R.rv < 1 \/ R.rv > L \/ R.p2l[1] # 0 \/ \E k \in 1 .. R.rv : R.p2l[k] >= R.p2l[k+1] THEN "cuts are not ascending"
      ELSE IF R.p2l[R.rv + 1] # L THEN "the last cut is not at the last level"
      ELSE IF Len(R.ips) < R.rv THEN "no partition count for some l-partition"
      ELSE If(\E k \in DOMAIN R.ips : R.ips[k] < 1 \/ R.ips[k] > (IF R.ip > 1 THEN R.ip ELSE 6), "partition count out of range")
Why == IF R.st # "ok" THEN "call did not return: " \o R.st
       ELSE IF Has("same") /\ ~R.same THEN "input was modified"
       ELSE CASE R.op = "partw" -> PartWV [] R.op = "partbfs" -> PartBfsV [] R.op = "cc" -> CcV
            []   R.op = "dfs_cc" -> DfsV [] R.op = "binpack" -> BinV [] R.op = "mergeinner" -> MergeInnerV [] R.op = "hpart" -> HpartV
Init == rec \in DOMAIN Recs
Next == FALSE /\ UNCHANGED rec
Spec == Init /\ [][Next]_rec
Conforms == Why = ""
Alias == [rec |-> rec, why |-> Why]
=============================================================================
