------------------------------- MODULE Matrices -------------------------------
(* Sparse matrices as sets of entries <<row, column, value>>, at most one entry per position, and the operations    *)
(* of the library on them.  Values are recorded doubled, so that the half sums of symmetrisation stay integral.      *)
EXTENDS Graphs

PosOf(e)     == <<e[1], e[2]>>
IsMatrix(E)  == Cardinality({ PosOf(e) : e \in E }) = Cardinality(E)
Swap(E)      == { <<e[2], e[1], e[3]>> : e \in E }
LowerHalf(E) == { e \in E : e[1] >= e[2] }
UpperHalf(E) == { e \in E : e[1] <= e[2] }
FullOf(E)    == E \cup Swap(E)
(* The symmetric matrix whose stored half is E, renumbered by pinv, stored as the half asked for. *)
Renumber(E, pinv, upper) == { LET a == pinv[e[1]] b == pinv[e[2]]
                                  lo == IF a < b THEN a ELSE b  hi == IF a < b THEN b ELSE a
                              IN  IF upper THEN <<lo, hi, e[3]>> ELSE <<hi, lo, e[3]>> : e \in E }
ValAt(E, r, c) == LET S == { e \in E : e[1] = r /\ e[2] = c } IN IF S = {} THEN 0 ELSE (CHOOSE e \in S : TRUE)[3]
(* (A + A')/2, stored as a half; values here are already doubled *)
Symmetrised(E, lower) == LET P == { PosOf(e) : e \in FullOf({ <<e[1], e[2], 0>> : e \in E }) }
                         IN  { <<q[1], q[2], (ValAt(E, q[1], q[2]) + ValAt(E, q[2], q[1])) \div 2>> : q \in { q \in P : IF lower THEN q[1] >= q[2] ELSE q[1] <= q[2] } }
Coarsened(E, k) == { <<e[1] \div k, e[2] \div k>> : e \in E }
IsPermSeq(s)    == ToSet(s) = Nodes(Len(s))
InvSeq(s)       == LET q == SetToSortSeq({ <<s[k], k - 1>> : k \in DOMAIN s }, LAMBDA a, b : a[1] < b[1]) IN [v \in Nodes(Len(s)) |-> q[v+1][2]]    \* of a permutation
(* Quotient of a matrix by contiguous column blocks sup[1] < sup[2] < ... < sup[Len] = n *)
BlockOf(sup, v) == (CHOOSE b \in 1 .. (Len(sup) - 1) : sup[b] <= v /\ v < sup[b+1]) - 1
BlockRows(E, sup, b) == { e[1] : e \in { e \in E : sup[b+1] <= e[2] /\ e[2] < sup[b+2] } }
===============================================================================
