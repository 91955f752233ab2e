------------------------------- MODULE Ordering -------------------------------
(* Fill-reducing orderings: the undirected graph of a pattern, the factor of the permuted matrix, dense rows.            *)
EXTENDS ETree
(* neighbours of every node in the pattern of A + A' without the diagonal; O is a set of off-diagonal positions *)
Neighbours(n, O) == LET S == TLCEval(O \cup { <<e[2], e[1]>> : e \in O })
                    IN  TLCEval([v \in Nodes(n) |-> { e[1] : e \in { e \in S : e[2] = v } }])
PlaceIn(P) == TLCEval([v \in { P[k] : k \in DOMAIN P } |-> (CHOOSE k \in DOMAIN P : P[k] = v) - 1])
(* columns (below the diagonal) of the factor of the matrix whose k-th row and column is row and column P[k] *)
Filled(n, N, P) == LET q == PlaceIn(P) IN FactorCols(n, TLCEval([k \in Nodes(n) |-> { q[w] : w \in N[P[k+1]] } \cap 0 .. (k - 1)]))
Forest(n, N) == SumSeq([j \in 1 .. n |-> Cardinality(N[j-1])]) = 2 * (n - Cardinality(Components(N, Nodes(n))))
(* half = twice the Control value: more than (half/2) sqrt(n) neighbours; 16 or fewer never; negative: only rows that meet all others *)
Dense(n, half, deg) == deg > 16 /\ (IF half < 0 THEN deg > n - 2 ELSE 4 * deg * deg > half * half * n)
(* s numbers every subtree contiguously with its root last *)
IsPostOrderOf(par, s) ==
  /\ Len(s) = Cardinality(DOMAIN par) /\ ToSet(s) = DOMAIN par
  /\ LET pos == PlaceIn(s)
         up == TLCEval(FoldLeft(LAMBDA acc, v : IF par[v] \notin DOMAIN par THEN acc
                           ELSE TLCEval([acc EXCEPT ![par[v]] = <<@[1] + acc[v][1], IF acc[v][2] < @[2] THEN acc[v][2] ELSE @[2]>>]),
                         TLCEval([v \in DOMAIN par |-> <<1, pos[v]>>]), s))
     IN  /\ \A v \in DOMAIN par : par[v] \in DOMAIN par => pos[v] < pos[par[v]]
         /\ \A v \in DOMAIN par : pos[v] - up[v][2] + 1 = up[v][1]
================================================================================
