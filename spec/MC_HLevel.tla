----------------------------- MODULE MC_HLevel -----------------------------
(* Model checking of HLevel: the static criterion the trace validation uses on large graphs decides exactly the   *)
(* same schedules as executing every interleaving.  Every lower-triangular DAG on N nodes, every sequence of at    *)
(* most MAXL levels of at most MAXW w-partitions, that lists at most N nodes (missing and doubled ones included).  *)
EXTENDS HLevel
CONSTANTS N, MAXL, MAXW
NN == Nodes(N)
Pairs2 == { <<u, v>> \in NN \X NN : u < v }
DAGs == { FromEdges(NN, E) : E \in SUBSET Pairs2 }
(* a schedule = a sequence of nodes cut into cells, cells cut into levels *)
NodeSeqs == UNION { [1 .. k -> NN] : k \in 0 .. N }
Shapes == UNION { [1 .. l -> 1 .. MAXW] : l \in 1 .. MAXL }     \* number of w-partitions per level
Total(sh) == SumSeq(sh)
CellOf(sh, l, w) == SumSeq([q \in 1 .. (l-1) |-> sh[q]]) + w
Build(seq, sh, cell) == [l \in DOMAIN sh |-> [w \in 1 .. sh[l] |->
                           LET ks == { k \in DOMAIN seq : cell[k] = CellOf(sh, l, w) }
                           IN  [m \in 1 .. Cardinality(ks) |-> seq[(CHOOSE k \in ks : Cardinality({ j \in ks : j < k }) = m - 1)]]]]
Cells(seq, sh) == { c \in [DOMAIN seq -> 1 .. Total(sh)] : \A a, b \in DOMAIN seq : a < b => c[a] <= c[b] }
VARIABLE ok                 \* the static verdict, fixed at the start
mvars == <<hvars, ok>>
Init == /\ G \in DAGs
        /\ \E seq \in NodeSeqs : \E sh \in Shapes : \E c \in Cells(seq, sh) : S = Build(seq, sh, c)
        /\ ExecInit
        /\ ok = StaticOK(G, S)
Next == ReadySafe /\ NoTwice /\ ExecNext /\ UNCHANGED ok
Spec == Init /\ [][Next]_mvars
(* sound: what passes the static criterion is safe in every interleaving and runs everything *)
Sound == ok => ReadySafe /\ NoTwice /\ FinishesAll
(* complete: what fails it has an interleaving that goes wrong.  All reachable execution states, by saturation:   *)
StepsOf(T, x) == LET l == x[1]  pcs == x[2]  dn == x[3] IN
   IF l > Len(T) THEN {}
   ELSE LET can == { w \in DOMAIN T[l] : pcs[w] <= Len(T[l][w]) }
        IN  IF can = {} THEN { <<l + 1, IF l + 1 <= Len(T) THEN [w \in DOMAIN T[l+1] |-> 1] ELSE <<>>, dn>> }
            ELSE { <<l, [pcs EXCEPT ![w] = @ + 1], dn \cup { T[l][w][pcs[w]] }>> : w \in can }
BadAt(H, T, x) == LET l == x[1]  pcs == x[2]  dn == x[3] IN
   IF l > Len(T) THEN dn # DOMAIN H
   ELSE LET can == { w \in DOMAIN T[l] : pcs[w] <= Len(T[l][w]) }  nx(w) == T[l][w][pcs[w]]
        IN  \/ \E w \in can : nx(w) \in dn \/ \E u \in DOMAIN H : nx(w) \in H[u] /\ u \notin dn
            \/ \E a, b \in can : a # b /\ nx(a) = nx(b)
RECURSIVE Bad(_, _, _, _)
Bad(H, T, seen, todo) == IF \E x \in todo : BadAt(H, T, x) THEN TRUE
                         ELSE LET nxt == UNION { StepsOf(T, x) : x \in todo } \ seen
                              IN  nxt # {} /\ Bad(H, T, seen \cup nxt, nxt)
Start(T) == <<1, IF Len(T) >= 1 THEN [w \in DOMAIN T[1] |-> 1] ELSE <<>>, {}>>
Complete == (lvl = 1 /\ done = {} /\ ~ok) => Bad(G, S, {Start(S)}, {Start(S)})
============================================================================
