------------------------------- MODULE T_pipe -------------------------------
(* Conformance of the coarsening pipeline: groupings, quotients, sparsification, orders, costs, reorderings.      *)
EXTENDS Grouping, HLevel, ETree, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
vars == <<rec, hvars>>
R == Recs[rec]
Gin  == Succ(R.n, R.p, R.i)
If(c, m) == IF c THEN m ELSE ""
First(ms) == LET bad == { k \in DOMAIN ms : ms[k] # "" } IN IF bad = {} THEN "" ELSE ms[Min(bad)]
(* ---- per operation verdicts; "" means the record is a behaviour of the specification ---- *)
PostOrderV == If(~TopoOrder(Gin, R.order), "not a topological order of all nodes")
GroupsShape(k) == IF ~R.groupswf THEN "group pointers are not monotone / not within the node array"
                  ELSE IF R.ng # Len(R.groups) THEN "group count"
                  ELSE IF ~IsPartition(Nodes(k), R.groups) THEN "groups do not partition the nodes" ELSE ""
GroupingV == LET s == GroupsShape(R.n) IN
             IF s # "" THEN s
             ELSE IF R.np # R.ng + 1 THEN "group pointer length"
             ELSE IF ~AcyclicFast(GroupQuotient(Gin, R.groups)) THEN "groups depend on each other cyclically" ELSE ""
(* ---- does the coarsening do its job? ---- *)
JobV == IF R.op = "sparsify" THEN
           LET H == ListSucc(R.dag) IN
           IF ~R.dagwf \/ Len(R.dag) # R.n THEN "sparsified pointers"
           ELSE IF ~NoBypass(H, IF R.cl = 0 THEN Gin ELSE H) THEN "an edge with a two-edge bypass was kept" ELSE ""
        ELSE LET s == GroupsShape(R.n) IN
             IF s # "" THEN s
             ELSE IF ~ByLeast(R.groups) THEN "groups are not listed by their smallest members"
             ELSE IF R.a = "chain" THEN (IF InChains(Gin, R.groups) THEN "" ELSE "the groups are not exactly the chains")
             ELSE IF R.lf = 0 /\ (R.a = "tree" \/ \A v \in DOMAIN Gin : Cardinality(Gin[v]) <= 1) THEN (IF InTrees(Gin, R.groups) THEN "" ELSE "the groups are not exactly the trees")
             ELSE IF \E k \in DOMAIN R.groups : Len(R.groups[k]) > SizeLimit(R.a, R.lf, R.n) THEN "a group is larger than allowed"
             ELSE IF R.a = "bfs" THEN (IF Subtrees(Gin, R.groups) THEN "" ELSE "a group is not a subtree")
             ELSE IF ~InTreePieces(Gin, R.groups, SizeLimit(R.a, R.lf, R.n)) THEN "the groups are not pieces of trees, or more than needed" ELSE ""
InGroups(gp, gs) == [g \in 1 .. (Len(gp) - 1) |-> [k \in 1 .. (gp[g+1] - gp[g]) |-> gs[gp[g] + k]]]
QuotientV(cols, H, gs, diag) ==
   LET Q == GroupQuotient(H, gs) IN
   IF Len(cols) # Len(gs) THEN "quotient size"
   ELSE IF \E g \in DOMAIN cols : ToSet(cols[g]) # (Q[g-1] \cup (IF diag THEN {g-1} ELSE {})) THEN "quotient edges are not exactly the edges between groups"
   ELSE ""
GroupDagV == IF ~R.dagwf THEN "quotient pointers" 
             ELSE IF \E g \in DOMAIN R.dag : ~Ascending(R.dag[g]) THEN "quotient columns are not sorted and duplicate-free"
             ELSE QuotientV(R.dag, Gin, InGroups(R.gp, R.gs), TRUE)
SparsifyV == IF ~R.dagwf \/ Len(R.dag) # R.n THEN "sparsified pointers"
             ELSE IF \E g \in DOMAIN R.dag : R.dag[g] = <<>> \/ R.dag[g][1] # g - 1 \/ ~Ascending(R.dag[g]) THEN "sparsified columns lost the diagonal or the order"
             ELSE IF ~SubGraph(ListSucc(R.dag), Gin) THEN "sparsification invented an edge"
             ELSE IF ~SameReach(ListSucc(R.dag), Gin) THEN "sparsification changed reachability" ELSE ""
SchedV(G0, T) == IF ~R.wf THEN "schedule pointers"
             ELSE IF R.nlev # Len(T) THEN "coarsened level count"
             ELSE IF ~CoversOnce(G0, T) THEN "the schedule does not contain every node exactly once"
             ELSE IF ~DepsOrdered(G0, T) THEN "a node is scheduled before, or concurrently with, a node it depends on" ELSE ""
NonEmpty(T)  == SelectSeq(FlattenSeq(T), LAMBDA x : x # <<>>)
FinalDagV(T, gs, cols, ng) == IF gs # NonEmpty(T) THEN "final groups are not the non-empty w-partitions in order"
             ELSE IF ng # Len(gs) THEN "final group count"
             ELSE QuotientV(cols, Gin, gs, TRUE)
PipelineV == LET s == SchedV(Gin, R.sched) IN
             IF s # "" THEN s ELSE IF ~R.fgroupswf \/ ~R.fdagwf THEN "final DAG pointers" ELSE FinalDagV(R.sched, R.fgroups, R.fdag, R.fng)
(* a group-level schedule in the input arrays *)
InSched(lp, pp, np) == [l \in 1 .. (Len(lp) - 1) |-> [w \in 1 .. (lp[l+1] - lp[l]) |->
                          LET q == lp[l] + w IN [k \in 1 .. (pp[q+1] - pp[q]) |-> np[pp[q] + k]]]]
Same == IF "same" \in DOMAIN R /\ ~R.same THEN "input was modified" ELSE ""
UngroupV == LET gs == InGroups(R.gp, R.gs)
                T  == InSched(R.lp, R.pp, R.np)
                Flat(part) == FlattenSeq([k \in DOMAIN part |-> gs[part[k] + 1]])
            IN  IF ~R.wf \/ Len(R.sched) # Len(T) THEN "schedule pointers"
                ELSE IF \E l \in DOMAIN T : Len(R.sched[l]) # Len(T[l]) \/ \E w \in DOMAIN T[l] :
                           Len(R.sched[l][w]) # Len(Flat(T[l][w])) \/ ToSet(R.sched[l][w]) # ToSet(Flat(T[l][w]))
                     THEN "a w-partition does not hold exactly the members of its groups"
                ELSE IF R.ord = "sort" /\ \E l \in DOMAIN T : \E w \in DOMAIN T[l] : ~Ascending(R.sched[l][w]) THEN "not sorted"
                ELSE IF R.ord = "post" /\ ~DepsOrdered(Gin, R.sched) THEN "post order violates a dependence"
                ELSE IF R.ord = "none" /\ \E l \in DOMAIN T : \E w \in DOMAIN T[l] : R.sched[l][w] # Flat(T[l][w]) THEN "members not in group order" ELSE ""
FinalV == IF ~R.groupswf \/ ~R.dagwf THEN "final DAG pointers" ELSE FinalDagV(InSched(R.lp, R.pp, R.np), R.groups, R.dag, R.ng)
SupernodeV ==
  LET gs == InGroups(R.gp, R.gs)
      T  == InSched(R.lp, R.pp, R.np)
      sup(v) == CHOOSE s \in Nodes(Len(R.sp) - 1) : R.sp[s+1] <= v /\ v < R.sp[s+2]
      want(part) == { sup(v) : v \in UNION { ToSet(gs[part[k] + 1]) : k \in DOMAIN part } }
  IN  IF ~R.wf \/ Len(R.sched) # Len(T) THEN "schedule pointers"
      ELSE IF \E l \in DOMAIN T : Len(R.sched[l]) # Len(T[l]) \/ \E w \in DOMAIN T[l] : ToSet(R.sched[l][w]) # want(T[l][w])
           THEN "a w-partition does not hold the supernodes of its nodes"
      ELSE IF ~Distinct(AllNodes(R.sched)) THEN "a supernode is scheduled twice" ELSE ""
(* ---- cost model ---- *)
ColLen(p, v) == p[v+2] - p[v+1]
NodeCost(k, v) == CASE k = 0 -> ColLen(R.rp, v)
                  []   k = 1 -> ColLen(R.p, v)
                  []   k = 2 -> SumSeq([m \in 1 .. ColLen(R.rp, v) |-> ColLen(R.p, R.ri[R.rp[v+1] + m])])
                  []   k = 3 -> SumSeq([m \in 1 .. ColLen(R.p, v) |-> ColLen(R.p, R.i[R.p[v+1] + m])])
                  []   OTHER -> SumSeq([m \in 1 .. ColLen(R.rp, v) |-> ColLen(R.rp, R.ri[R.rp[v+1] + m])])
CostV == LET gs == IF R.g = 1 THEN InGroups(R.gp, R.gs) ELSE [v \in 1 .. R.n |-> <<v - 1>>]
             want == [g \in DOMAIN gs |-> SumSeq([k \in DOMAIN gs[g] |-> NodeCost(R.k, gs[g][k])])]
         IN  If(R.w # want, "cost is not the sum of the member nodes' work")
(* ---- 2-D reordering: rows p,i (diagonal last); iterations <<row, position, column>> ---- *)
TwoDV ==
  LET T == InSched(R.lp, R.pp, R.np)
      parts == FlattenSeq(T)
      it == R.it
      seg(q) == (R.tp[q] + 1) .. R.tp[q+1]
      rowsOf(q) == ToSet(parts[q])
      want(q) == UNION { { <<v, m, At(R.i, m)>> : m \in R.p[v+1] .. (R.p[v+2] - 1) } : v \in rowsOf(q) }
  IN  IF Len(R.tp) # Len(parts) + 1 \/ R.tp[1] # 0 \/ R.tp[Len(R.tp)] # Len(it) THEN "tuple pointers"
      ELSE IF \E q \in DOMAIN parts : R.tp[q+1] < R.tp[q] \/ Cardinality(seg(q)) # Cardinality(want(q)) \/ { it[x] : x \in seg(q) } # want(q)
           THEN "a w-partition does not hold exactly the iterations of its rows"
      ELSE IF \E q \in DOMAIN parts : \E x, y \in seg(q) : x < y /\ it[x][3] = it[y][1] /\ it[x][1] # it[y][1]
           THEN "an iteration reads a row that is not finished" ELSE ""
(* ---- elimination tree on a lower-triangular row pattern ---- *)
RowTreeV ==
  LET rows == TLCEval([v \in Nodes(R.n) |-> { u \in ColSet(R.p, R.i, v) : u < v }])
      par  == TLCEval(EtreeOfRows(R.n, rows))
  IN  IF R.parent # [k \in 1 .. R.n |-> par[k-1]] THEN "parent vector is not the elimination tree"
      ELSE IF ~R.treewf \/ R.ne # R.n + Cardinality({ v \in Nodes(R.n) : par[v] # -1 }) THEN "tree size"
      ELSE IF \E v \in Nodes(R.n) : R.tree[v+1] # (IF par[v] = -1 THEN <<v>> ELSE <<v, par[v]>>) THEN "tree columns"
      ELSE IF ~R.clean THEN "work flags not restored"
      ELSE IF \E k \in Nodes(R.n) : ~Distinct(R.reach[k+1]) \/ ToSet(R.reach[k+1]) # RowSubtree(par, rows[k], k) \cup {k} THEN "row pattern is not the row subtree"
      ELSE IF \E k \in Nodes(R.n) : \E a, b \in DOMAIN R.reach[k+1] : par[R.reach[k+1][a]] = R.reach[k+1][b] /\ a > b THEN "row pattern is not in topological order" ELSE ""
(* ---- class group inspectors: csc records have p,i as columns (diagonal first); csr ones as rows (diagonal last) ---- *)
DepG == IF "rows" \in DOMAIN R /\ R.rows = 1
        THEN Preds(Gin) ELSE Gin
InspectV == LET s == GroupsShape(R.n)  D == TLCEval(DepG) IN
            IF s # "" THEN s
            ELSE IF \E g \in DOMAIN R.groups : \E k \in DOMAIN R.groups[g] : R.ginv[R.groups[g][k] + 1] # g - 1 THEN "group inverse"
            ELSE IF ~AcyclicFast(GroupQuotient(D, R.groups)) THEN "groups depend on each other cyclically"
            ELSE IF ~InnerOrdered(D, R.groups) THEN "a group runs a node before its input" ELSE ""
DepV == LET D == TLCEval(DepG) IN IF R.a = "row" THEN If(Len(R.dag) # R.n \/ \E v \in DOMAIN R.dag : ToSet(R.dag[v]) # D[v-1], "dependence DAG edges")
        ELSE QuotientV(R.dag, D, InGroups(R.gp, R.gs), FALSE)
(* ---- runs of consecutive nodes ---- *)
GraphOver(gs) == IF ~R.dagwf \/ R.gnz # SumSeq([k \in DOMAIN R.dag |-> Len(R.dag[k])]) THEN "group graph pointers"
                 ELSE IF \E g \in DOMAIN R.dag : ~Ascending(R.dag[g]) THEN "group graph columns are not sorted and duplicate-free"
                 ELSE QuotientV(R.dag, Gin, gs, TRUE)
GreedyV == LET want == RunCuts(Gin, R.sp)
               cost(a, b) == R.p[b+1] - R.p[a+1]
               mw == MergeCuts(want, cost, LAMBDA c : 2 * c < R.th)
               g == GraphOver(Between(want))
           IN  IF R.ng # Len(want) - 1 \/ R.range # want THEN "the groups are not exactly the runs of dependent nodes"
               ELSE IF g # "" THEN g
               ELSE IF R.cost # [k \in 1 .. R.ng |-> cost(want[k], want[k+1])] \/ ~R.inf THEN "group cost"
               ELSE IF R.mg # Len(mw) - 1 \/ R.mrange # mw THEN "small groups are not merged into their cheaper neighbours"
               ELSE If(R.mcost # [k \in 1 .. R.mg |-> cost(mw[k], mw[k+1])], "merged group cost")
ColGroupV == LET s == GroupsShape(R.n) IN
             IF s # "" THEN s
             ELSE IF ~R.again THEN "a second start changed the groups"
             ELSE IF R.a = "cn" /\ R.groups # Between(RunCuts(Gin, 1)) THEN "the groups are not exactly the chains of consecutive nodes"
             ELSE IF ~AcyclicFast(GroupQuotient(Gin, R.groups)) THEN "groups depend on each other cyclically"
             ELSE GraphOver(R.groups)
BlocksV == LET cols == [v \in 1 .. R.n |-> [k \in 1 .. (R.p[v+1] - R.p[v]) |-> R.i[R.p[v] + k]]]
               lim == IF R.lim = 0 THEN R.n ELSE R.lim
               want == IF R.up = 1 THEN UpperBlocks(cols, lim) ELSE LowerBlocks(cols, lim)
           IN  If(R.nb # Len(want) - 1 \/ R.sup # want, "the blocks are not the columns with the same pattern")
Why == IF R.st # "ok" THEN "call did not return: " \o R.st
       ELSE IF Same # "" THEN Same
       ELSE CASE R.op = "postorder" -> PostOrderV
            []   "job" \in DOMAIN R -> JobV
            []   R.op = "grouping"  -> GroupingV
            []   R.op = "groupdag"  -> GroupDagV
            []   R.op = "sparsify"  -> SparsifyV
            []   R.op = "pipeline"  -> PipelineV
            []   R.op = "ungroup"   -> UngroupV
            []   R.op = "finaldag"  -> FinalV
            []   R.op = "supernode" -> SupernodeV
            []   R.op = "cost"      -> CostV
            []   R.op = "twod"      -> TwoDV
            []   R.op = "etree_hd"  -> RowTreeV
            []   R.op = "ginspect"  -> InspectV
            []   R.op = "gdep"      -> DepV
            []   R.op = "ginspect2" -> InspectV
            []   R.op = "gdep2"     -> DepV
            []   R.op = "greedy"    -> GreedyV
            []   R.op = "colgroup"  -> ColGroupV
            []   R.op = "bsuper"    -> BlocksV
(* Schedules of small graphs that come out of the pipeline are also executed. *)
HasSched == R.st = "ok" /\ R.op = "pipeline" /\ R.wf
Init == /\ rec \in DOMAIN Recs
        /\ G = (IF HasSched THEN Gin ELSE <<>>)
        /\ S = (IF HasSched THEN R.sched ELSE <<>>)
        /\ ExecInit
Fresh0 == lvl = 1 /\ done = {}
Verdict == IF Fresh0 THEN Why
           ELSE IF ~ReadySafe \/ ~NoTwice THEN "an interleaving runs a node before its inputs, or twice"
           ELSE IF ~FinishesAll THEN "execution ends with nodes not run" ELSE ""
Next == HasSched /\ Cardinality(DOMAIN G) <= 5 /\ Verdict = "" /\ ExecNext /\ UNCHANGED rec
Spec == Init /\ [][Next]_vars
Conforms == Verdict = ""
Alias == [rec |-> rec, why |-> Verdict]
=============================================================================
