-------------------------------- MODULE T_big --------------------------------
(* The same requirements as T_sched, T_levels, T_pipe and T_part, stated so that TLC decides them in linear time on graphs *)
(* of thousands of nodes.  A record carries a witness next to what the code returned: where every node is in the schedule, *)
(* which level or group holds it, an order of the groups, a path for every removed edge, a spanning forest.  The witness   *)
(* is not trusted: a property is accepted only if the witness checks out against the recorded output and graph, and every  *)
(* output that satisfies the property has one.                                                                             *)
EXTENDS Graphs, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
R == Recs[rec]
If(c, m) == IF c THEN m ELSE ""
Has(f) == f \in DOMAIN R
NN == IF Has("t") THEN Len(R.t) ELSE IF Has("blk") THEN Len(R.blk) ELSE R.n
Adj(u) == IF Has("t") THEN {R.t[u+1]} \ {-1} ELSE IF Has("blk") THEN ToSet(R.blk[u+1]) \ {u}
          ELSE { R.i[k] : k \in (R.p[u+1] + 1) .. R.p[u+2] } \ {u}
(* ---- schedules ---- *)
Sum2(ss) == SumSeq([l \in DOMAIN ss |-> SumSeq([w \in DOMAIN ss[l] |-> Len(ss[l][w])])])
At3(S, c, v) == c[1] \in DOMAIN S /\ c[2] \in DOMAIN S[c[1]] /\ c[3] \in DOMAIN S[c[1]][c[2]] /\ S[c[1]][c[2]][c[3]] = v
Before3(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3])
SchedV(S, wh, cap) ==
  IF ~R.wf THEN "schedule pointers are not monotone / not within their arrays"
  ELSE IF R.nlev # Len(S) THEN "coarsened level count"
  ELSE IF Sum2(S) # NN \/ \E v \in Nodes(NN) : ~At3(S, wh[v+1], v) THEN "the schedule does not contain every node exactly once"
  ELSE IF \E u \in Nodes(NN) : \E v \in Adj(u) : ~Before3(wh[u+1], wh[v+1]) THEN "a node is scheduled before, or concurrently with, a node it depends on"
  ELSE If(cap > 0 /\ \E l \in DOMAIN S : Len(S[l]) > cap, "a coarsened level has more w-partitions than requested")
(* ---- level sets: every edge climbs, and a node above level 0 has a predecessor one level below ---- *)
At2(L, c, v) == c[1] \in DOMAIN L /\ c[2] \in DOMAIN L[c[1]] /\ L[c[1]][c[2]] = v
LevelsV ==
  IF ~R.wf THEN "level pointer is not monotone / not within the node array"
  ELSE IF R.rv # Len(R.lev) THEN "level count"
  ELSE IF SumSeq([l \in DOMAIN R.lev |-> Len(R.lev[l])]) # NN \/ \E v \in Nodes(NN) : ~At2(R.lev, R.wl[v+1], v) THEN "the level sets do not hold every node once"
  ELSE IF \E l \in DOMAIN R.lev : R.lev[l] = <<>> THEN "empty level"
  ELSE IF \E u \in Nodes(NN) : \E v \in Adj(u) : R.wl[v+1][1] <= R.wl[u+1][1] THEN "a node is not above its predecessor"
  ELSE IF \E l \in 2 .. Len(R.lev) : ~(ToSet(R.lev[l]) \subseteq UNION { Adj(R.lev[l-1][k]) : k \in DOMAIN R.lev[l-1] }) THEN "a node is above its earliest level"
  ELSE If(Has("n2l") /\ \E v \in Nodes(NN) : R.n2l[v+1] # R.wl[v+1][1] - 1, "node-to-level map is not the inverse of the level sets")
(* ---- groupings ---- *)
GroupShape ==
  IF ~R.groupswf \/ R.ng # Len(R.groups) THEN "group pointers"
  ELSE IF SumSeq([g \in DOMAIN R.groups |-> Len(R.groups[g])]) # NN \/ \E v \in Nodes(NN) : ~At2(R.groups, R.wg[v+1], v) THEN "groups do not partition the nodes"
  ELSE If(\E g \in DOMAIN R.groups : R.groups[g] = <<>>, "empty group")
GroupsV == LET s == GroupShape IN IF s # "" THEN s
  ELSE If(\E u \in Nodes(NN) : \E v \in Adj(u) : LET a == R.wg[u+1][1]  b == R.wg[v+1][1] IN a # b /\ R.rank[a] >= R.rank[b], "groups depend on each other cyclically")
(* ---- does the coarsening do its job?  (see Grouping.tla; wr names every node's tree, pr its predecessors) ---- *)
One(v) == Cardinality(Adj(v)) = 1
Sole(v) == CHOOSE w \in Adj(v) : TRUE
Lim == IF R.lf = 0 THEN NN ELSE Max({1, NN \div (IF R.a = "tree" THEN 1000 ELSE 10000)})
GroupJobV ==
  LET s == GroupShape
      one == TLCEval([v \in Nodes(NN) |-> One(v)])
      lab == TLCEval([v \in Nodes(NN) |-> R.wg[v+1][1]])
      Alone(k, T(_)) == Cardinality({ m \in DOMAIN R.groups[k] : T(R.groups[k][m]) }) = 1       \* one member without a link inside
      chained(v) == one[v] /\ Len(R.pr[Sole(v)+1]) = 1
      rt == R.wr
  IN
  IF s # "" THEN s
  ELSE IF \E k \in 1 .. (Len(R.groups) - 1) : Min(ToSet(R.groups[k])) >= Min(ToSet(R.groups[k+1])) THEN "groups are not listed by their smallest members"
  ELSE IF R.a = "chain" /\ (SumSeq([j \in 1 .. NN |-> Len(R.pr[j])]) # SumSeq([j \in 1 .. NN |-> Cardinality(Adj(j-1))]) \/ \E u \in Nodes(NN) : \E v \in Adj(u) : u \notin ToSet(R.pr[v+1]))
  THEN "predecessors (witness)"
  ELSE IF R.a = "chain" THEN If((\E v \in Nodes(NN) : chained(v) /\ lab[v] # lab[Sole(v)]) \/ \E k \in DOMAIN R.groups : ~Alone(k, LAMBDA v : ~chained(v)), "the groups are not exactly the chains")
  ELSE IF R.lf = 0 /\ (R.a = "tree" \/ \A v \in Nodes(NN) : Cardinality(Adj(v)) <= 1)
  THEN If((\E v \in Nodes(NN) : one[v] /\ lab[v] # lab[Sole(v)]) \/ \E k \in DOMAIN R.groups : ~Alone(k, LAMBDA v : ~one[v]), "the groups are not exactly the trees")
  ELSE IF \E k \in DOMAIN R.groups : Len(R.groups[k]) > Lim THEN "a group is larger than allowed"
  ELSE IF R.a = "bfs" THEN If(\E k \in DOMAIN R.groups : ~Alone(k, LAMBDA v : ~(one[v] /\ lab[Sole(v)] = k)), "a group is not a subtree")
  ELSE IF \E v \in Nodes(NN) : rt[v+1] # (IF one[v] THEN rt[Sole(v)+1] ELSE v) THEN "tree of a node (witness)"
  ELSE LET short == SelectSeq(R.groups, LAMBDA g : Len(g) < Lim) IN      \* all pieces of a tree but one are as large as allowed
       If((\E k \in DOMAIN R.groups : \E m \in DOMAIN R.groups[k] : rt[R.groups[k][m]+1] # rt[R.groups[k][1]+1])
          \/ Cardinality({ rt[short[k][1]+1] : k \in DOMAIN short }) # Len(short), "the groups are not pieces of trees, or more than needed")
SparseJobV ==
  IF ~R.dagwf \/ Len(R.dag) # NN THEN "sparsified pointers"
  ELSE LET H(u) == ToSet(R.dag[u+1]) \ {u}
           F(u) == IF R.cl = 0 THEN Adj(u) ELSE H(u)
           fs == TLCEval([u \in Nodes(NN) |-> F(u)])
       IN  If(\E u \in Nodes(NN) : LET h == H(u) IN \E k \in fs[u] : \E w \in h : w > k /\ w \in fs[k], "an edge with a two-edge bypass was kept")
GroupDagV ==
  LET lab == R.lab  ng == Len(R.gp) - 1 IN
  IF ~R.dagwf \/ Len(R.dag) # ng THEN "quotient size"
  ELSE IF \E g \in 1 .. ng : \E k \in 1 .. (Len(R.dag[g]) - 1) : R.dag[g][k] >= R.dag[g][k+1] THEN "quotient columns are not sorted and duplicate-free"
  ELSE If(\E g \in 1 .. ng : ToSet(R.dag[g]) # {g - 1} \cup UNION { { lab[v+1] : v \in Adj(R.gs[k]) } : k \in (R.gp[g] + 1) .. R.gp[g+1] }, "quotient edges are not exactly the edges between groups")
(* ---- sparsification: what is left are edges of the input, and a path stands for every edge removed ---- *)
PathOK(H, P, u, w) == Len(P) >= 2 /\ P[1] = u /\ P[Len(P)] = w /\ \A k \in 1 .. (Len(P) - 1) : P[k+1] \in ToSet(H[P[k] + 1])
SparsifyV ==
  LET H == R.dag IN
  IF ~R.dagwf \/ Len(H) # NN THEN "sparsified pointers"
  ELSE IF \E u \in Nodes(NN) : H[u+1] = <<>> \/ H[u+1][1] # u \/ \E k \in 1 .. (Len(H[u+1]) - 1) : H[u+1][k] >= H[u+1][k+1] THEN "sparsified columns lost the diagonal or the order"
  ELSE IF \E u \in Nodes(NN) : ~(ToSet(H[u+1]) \subseteq Adj(u) \cup {u}) THEN "sparsification invented an edge"
  ELSE If(Cardinality({ <<q[1], q[2]>> : q \in ToSet(R.gone) }) # SumSeq([j \in 1 .. NN |-> Cardinality(Adj(j-1)) + 1 - Len(H[j])])
          \/ \E k \in DOMAIN R.gone : LET q == R.gone[k] IN q[2] \in ToSet(H[q[1]+1]) \/ q[2] \notin Adj(q[1]) \/ ~PathOK(H, R.path[k], q[1], q[2]), "sparsification changed reachability")
(* ---- connected components: labels agree along edges, and each label's nodes hang together on a spanning tree ---- *)
InU(v) == R.inu[v+1] = 1
CcV ==
  IF \E v \in Nodes(NN) : ~InU(v) /\ R.part[v+1] # -1 THEN "a node outside the level range was labelled"
  ELSE IF \E u \in Nodes(NN) : InU(u) /\ \E v \in Adj(u) : InU(v) /\ R.part[v+1] # R.part[u+1] THEN "connected nodes have different labels"
  ELSE LET roots == { v \in Nodes(NN) : InU(v) /\ R.up[v+1] = -1 } IN
       IF Cardinality({ R.part[v+1] : v \in roots }) # Cardinality(roots) \/
          \E v \in Nodes(NN) : InU(v) /\ R.up[v+1] # -1 /\ LET u == R.up[v+1] IN ~(InU(u) /\ (v \in Adj(u) \/ u \in Adj(v)) /\ R.dep[u+1] < R.dep[v+1]) THEN "unconnected nodes share a label"
       ELSE IF ~Has("ocost") THEN ""
       ELSE If(R.ocost # FoldSeq(LAMBDA v, acc : IF InU(v) THEN [acc EXCEPT ![R.part[v+1] + 1] = @ + R.cost[v+1]] ELSE acc, [k \in 1 .. NN |-> 0], [k \in 1 .. NN |-> k - 1]), "component cost")
PipeV == LET s == SchedV(R.sched, R.wh, 0) IN 
         IF s # "" THEN s
         ELSE IF ~R.fgroupswf \/ ~R.fdagwf THEN "final DAG pointers"
         ELSE IF R.fgroups # SelectSeq(FlattenSeq(R.sched), LAMBDA x : x # <<>>) \/ R.fng # Len(R.fgroups) THEN "final groups are not the non-empty w-partitions in order"
         ELSE IF \E v \in Nodes(NN) : ~At2(R.fgroups, R.wf2[v+1], v) THEN "final groups do not hold every node"
         ELSE If(Len(R.fdag) # R.fng \/ \E g \in 1 .. R.fng : ToSet(R.fdag[g]) # {g - 1} \cup UNION { { R.wf2[v+1][1] - 1 : v \in Adj(R.fgroups[g][k]) } : k \in DOMAIN R.fgroups[g] }, "quotient edges are not exactly the edges between groups")
(* ---- ungrouping ---- *)
UngroupV == LET T == R.tin IN      \* the input schedule of groups, as nested sequences
  IF ~R.wf \/ Len(R.sched) # Len(T) THEN "schedule pointers"
  ELSE If(\E l \in DOMAIN T : Len(R.sched[l]) # Len(T[l]) \/ \E w \in DOMAIN T[l] :
             LET all == FlattenSeq([k \in DOMAIN T[l][w] |-> SubSeq(R.gs, R.gp[T[l][w][k] + 1] + 1, R.gp[T[l][w][k] + 2])])
             IN  Len(all) # Len(R.sched[l][w]) \/ ToSet(all) # ToSet(R.sched[l][w]), "a w-partition does not hold exactly the members of its groups")
RowDot(v) == SumSeq([k \in 1 .. (R.rp[v+2] - R.rp[v+1]) |-> R.rx[R.rp[v+1] + k] * R.out[R.ri[R.rp[v+1] + k] + 1]])
ExecV == If(~R.wf \/ Len(R.out) # R.n \/ \E v \in Nodes(R.n) : R.out[v+1] = 2000000007 \/ RowDot(v) # R.b[v+1], "the executor does not solve the system")
Why == IF R.st # "ok" THEN "call did not return: " \o R.st
       ELSE IF Has("same") /\ ~R.same THEN "input was modified"
       ELSE CASE Has("lev") -> LevelsV
            []   Has("job") -> IF R.op = "sparsify" THEN SparseJobV ELSE GroupJobV
            []   R.op = "grouping" -> GroupsV
            []   R.op = "groupdag" -> GroupDagV
            []   R.op = "sparsify" -> SparsifyV
            []   R.op = "cc" -> CcV
            []   R.op = "pipeline" -> PipeV
            []   R.op = "ungroup" -> UngroupV
            []   R.op = "exec" -> ExecV
            []   OTHER -> SchedV(R.sched, R.wh, IF Has("cap") THEN R.cap ELSE 0)
Init == rec \in DOMAIN Recs
Next == FALSE /\ UNCHANGED rec
Spec == Init /\ [][Next]_rec
Conforms == Why = ""
Alias == [rec |-> rec, why |-> Why]
==============================================================================
