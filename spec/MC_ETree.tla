------------------------------- MODULE MC_ETree -------------------------------
(* The union-find construction of the elimination tree (Liu) as the code performs it: rows in order, for every entry  *)
(* climb the compressed ancestor links and hang the top below the current row.  Checked against symbolic elimination: *)
(* after row k the parents are those of the leading k rows, and the links always lead to ancestors.  Entries of one    *)
(* row may be visited in any order.                                                                                   *)
EXTENDS ETree
CONSTANTS N
VARIABLES rows, k, todo, i, par, anc
vars == <<rows, k, todo, i, par, anc>>
NN == Nodes(N)
Init == /\ rows \in { r \in [NN -> SUBSET NN] : \A v \in NN : \A u \in r[v] : u < v }
        /\ k = 0 /\ todo = {} /\ i = -1 /\ par = [v \in NN |-> -1] /\ anc = [v \in NN |-> -1]
Row  == /\ i = -1 /\ todo = {} /\ k < N
        /\ k' = k + 1 /\ todo' = (IF k + 1 < N THEN rows[k + 1] ELSE {}) /\ UNCHANGED <<rows, i, par, anc>>
Pick == /\ i = -1 /\ \E u \in todo : i' = u /\ todo' = todo \ {u}
        /\ UNCHANGED <<rows, k, par, anc>>
Step == /\ i # -1
        /\ LET a == anc[i] IN
             IF a = k THEN i' = -1 /\ UNCHANGED <<par, anc>>
             ELSE /\ anc' = [anc EXCEPT ![i] = k]
                  /\ IF a = -1 THEN par' = [par EXCEPT ![i] = k] /\ i' = -1
                     ELSE i' = a /\ UNCHANGED par
        /\ UNCHANGED <<rows, k, todo>>
Next == Row \/ Pick \/ Step
Spec == Init /\ [][Next]_vars
Lead(m) == EtreeOfRows(N, [v \in NN |-> IF v < m THEN rows[v] ELSE {}])
Right   == (i = -1 /\ todo = {}) => par = Lead(k + 1)
LinksUp == (i = -1 /\ todo = {}) => \A v \in NN : anc[v] # -1 => anc[v] \in Ancestors(par, v)
===============================================================================
