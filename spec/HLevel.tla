------------------------------- MODULE HLevel -------------------------------
(* Execution of an H-level schedule, the artefact every inspector of the library produces.                      *)
(* S is a sequence of coarsened levels, each a sequence of w-partitions, each a sequence of nodes.  The         *)
(* executors run the w-partitions of one level concurrently, each in its listed order, with a barrier between   *)
(* levels.  G is the dependence DAG: v \in G[u] means v needs u's result.                                       *)
EXTENDS Graphs
VARIABLES G, S, lvl, pc, done
hvars == <<G, S, lvl, pc, done>>

Parts(l)   == IF l <= Len(S) THEN DOMAIN S[l] ELSE {}
Fresh(l)   == IF l <= Len(S) THEN [w \in DOMAIN S[l] |-> 1] ELSE <<>>
NextOf(w)  == S[lvl][w][pc[w]]
CanRun(w)  == lvl <= Len(S) /\ pc[w] <= Len(S[lvl][w])
ExecInit   == lvl = 1 /\ pc = Fresh(1) /\ done = {}

Run(w)  == /\ CanRun(w)
           /\ done' = done \cup {NextOf(w)}
           /\ pc' = [pc EXCEPT ![w] = @ + 1]
           /\ UNCHANGED <<G, S, lvl>>
Barrier == /\ lvl <= Len(S)
           /\ \A w \in Parts(lvl) : ~CanRun(w)
           /\ lvl' = lvl + 1
           /\ pc' = Fresh(lvl + 1)
           /\ UNCHANGED <<G, S, done>>
ExecNext == Barrier \/ \E w \in Parts(lvl) : Run(w)

(* The safety property of an execution state: whatever can run next has all its inputs, and has not run before.  *)
ReadySafe    == \A w \in Parts(lvl) : CanRun(w) =>
                   /\ NextOf(w) \notin done
                   /\ \A u \in DOMAIN G : NextOf(w) \in G[u] => u \in done
(* and two nodes that may run at the same time are different nodes *)
NoTwice      == \A a, b \in Parts(lvl) : (a # b /\ CanRun(a) /\ CanRun(b)) => NextOf(a) # NextOf(b)
FinishesAll  == lvl > Len(S) => done = DOMAIN G

(* ---- the static criterion, used on graphs too large to interleave; HLevelMC checks that it is equivalent ---- *)
AllNodes(T)  == FlattenSeq([l \in DOMAIN T |-> FlattenSeq(T[l])])
CoversOnce(H, T) == LET a == AllNodes(T) IN Len(a) = Cardinality(DOMAIN H) /\ ToSet(a) = DOMAIN H
(* where[v] = <<level, w-partition, position>> *)
Where(H, T) == LET cells == UNION { UNION { { <<T[l][w][k], l, w, k>> : k \in DOMAIN T[l][w] } : w \in DOMAIN T[l] } : l \in DOMAIN T }
                   q == TLCEval(SetToSortSeq(cells, LAMBDA a, b : a[1] < b[1]))            \* nodes 0 .. n-1, each listed once
               IN  TLCEval([v \in DOMAIN H |-> <<q[v+1][2], q[v+1][3], q[v+1][4]>>])
OrderedBefore(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3])
DepsOrdered(H, T) == LET wh == Where(H, T) IN \A u \in DOMAIN H : \A v \in H[u] : OrderedBefore(wh[u], wh[v])
StaticOK(H, T) == CoversOnce(H, T) /\ DepsOrdered(H, T)
=============================================================================
