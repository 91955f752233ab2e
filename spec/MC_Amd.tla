-------------------------------- MODULE MC_Amd --------------------------------
(* Minimum-degree ordering as a state machine over every graph on N nodes: eliminate, in any order of ties, a remaining   *)
(* node of least degree together with the nodes that have become indistinguishable from it (mass elimination), or set a   *)
(* node aside as dense, to be ordered last.  The laws that T_amd judges the code by: the order is a permutation with the  *)
(* dense nodes last; the columns of the factor are the neighbours left when a node is eliminated; a forest gets no fill.  *)
(* MUT: 'any' picks a node of any degree, 'nomin' mass-eliminates any neighbour, 'first' orders dense nodes first.         *)
EXTENDS Ordering
CONSTANTS N, MUT
VARIABLES g, left, adj, ord, cols, dense
vars == <<g, left, adj, ord, cols, dense>>
Up == { e \in Nodes(N) \X Nodes(N) : e[1] < e[2] }
Init == \E O \in SUBSET Up : \E D \in {S \in SUBSET Nodes(N) : Cardinality(S) <= 1} :
          /\ g = Neighbours(N, O) /\ dense = D
          /\ left = Nodes(N) \ D /\ adj = [v \in Nodes(N) |-> g[v] \ D]
          /\ ord = (IF MUT = "first" THEN SetToSeq(D) ELSE <<>>) /\ cols = <<>>
Least(v) == MUT = "any" \/ \A w \in left : Cardinality(adj[v]) <= Cardinality(adj[w])
Twins(v) == { w \in left \ {v} : w \in adj[v] /\ (MUT = "nomin" \/ adj[w] \cup {w} = adj[v] \cup {v}) }
Eliminate(v, T) ==
  LET nb == adj[v] \ T  gone == {v} \cup T
      s == <<v>> \o SetToSeq(T)
  IN  /\ left' = left \ gone
      /\ adj' = [w \in Nodes(N) |-> IF w \in nb THEN (adj[w] \cup nb) \ (gone \cup {w}) ELSE adj[w] \ gone]
      /\ ord' = ord \o s
      /\ cols' = cols \o [k \in DOMAIN s |-> Cardinality(nb) + Len(s) - k]
      /\ UNCHANGED <<g, dense>>
Finish == left = {} /\ Len(ord) < N /\ ord' = ord \o SetToSeq(dense) /\ UNCHANGED <<g, left, adj, cols, dense>>
Next == (\E v \in left : Least(v) /\ \E T \in SUBSET Twins(v) : Eliminate(v, T)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == left = {} /\ Len(ord) = N
Perm == Done => ToSet(ord) = Nodes(N) /\ { ord[k] : k \in (N - Cardinality(dense) + 1) .. N } = dense
Counts == Done /\ dense = {} => LET L == Filled(N, g, ord) IN \A k \in 1 .. N : Cardinality(L[k-1]) = cols[k]
NoFill == Done /\ dense = {} /\ Forest(N, g) => 2 * SumSeq(cols) = SumSeq([j \in 1 .. N |-> Cardinality(g[j-1])])
Ends == <>Done
===============================================================================
