-------------------------------- MODULE ETree --------------------------------
(* Elimination trees, column counts and factor patterns, defined by symbolic elimination (the specification),     *)
(* not by the union/find algorithms the code uses.                                                                *)
EXTENDS Graphs

(* rows[v] : the columns u < v with a nonzero in row v.  Eliminating u connects all its later neighbours.          *)
LowCols(n, rows) == [u \in Nodes(n) |-> { v \in Nodes(n) : u \in rows[v] }]
RECURSIVE ElimFrom(_, _, _)
ElimFrom(n, L, u) ==
  IF u >= n THEN L
  ELSE IF L[u] = {} THEN ElimFrom(n, L, u + 1)
  ELSE LET q == Min(L[u]) IN ElimFrom(n, TLCEval([L EXCEPT ![q] = @ \cup (L[u] \ {q})]), u + 1)
(* Pattern (below the diagonal) of every column of the Cholesky factor *)
FactorCols(n, rows) == LET r == TLCEval(rows) IN ElimFrom(n, TLCEval(LowCols(n, r)), 0)
EtreeOfRows(n, rows) == LET L == TLCEval(FactorCols(n, rows)) IN [v \in Nodes(n) |-> IF L[v] = {} THEN -1 ELSE Min(L[v])]
(* nodes met when walking from each entry of row k up the tree, stopping below k *)
RECURSIVE WalkUp(_, _, _)
WalkUp(par, v, k) == IF v = -1 \/ v >= k THEN {} ELSE {v} \cup WalkUp(par, par[v], k)
RowSubtree(par, entries, k) == UNION { WalkUp(par, u, k) : u \in entries }
RECURSIVE Ancestors(_, _)
Ancestors(par, v) == IF par[v] = -1 THEN {} ELSE {par[v]} \cup Ancestors(par, par[v])
Descendants(par, v) == { u \in DOMAIN par : u = v \/ v \in Ancestors(par, u) }
(* A postorder numbers every subtree contiguously with its root last.  Sizes and first positions of the subtrees are      *)
(* gathered in the order s itself, after checking that children come before their parents.                               *)
IsPostOrder(par, s) ==
  /\ Len(s) = Cardinality(DOMAIN par) /\ ToSet(s) = DOMAIN par
  /\ LET q   == TLCEval(SetToSortSeq({ <<s[k], k>> : k \in DOMAIN s }, LAMBDA a, b : a[1] < b[1]))
         pos == TLCEval([v \in DOMAIN par |-> q[v+1][2]])
         up  == FoldLeft(LAMBDA acc, v : IF par[v] = -1 THEN acc
                           ELSE TLCEval([acc EXCEPT ![par[v]] = <<@[1] + acc[v][1], IF acc[v][2] < @[2] THEN acc[v][2] ELSE @[2]>>]),
                         TLCEval([v \in DOMAIN par |-> <<1, pos[v]>>]), s)
     IN  /\ \A v \in DOMAIN par : par[v] # -1 => pos[v] < pos[par[v]]
         /\ \A v \in DOMAIN par : pos[v] - up[v][2] + 1 = up[v][1]
=============================================================================
