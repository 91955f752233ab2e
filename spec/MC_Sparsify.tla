----------------------------- MODULE MC_Sparsify -----------------------------
(* The design of the sparsification.  Phase 1 (optional): T threads look for cliques (runs of columns in which each  *)
(* one's pattern is its predecessor's without the first entry), each in its own slice of the columns but free to      *)
(* look beyond its end, and label the nodes one by one in any interleaving; runs of equal labels are then reduced to  *)
(* chains.  Phase 2: every edge u -> w that some u -> v -> w makes redundant in the graph of phase 1 may be dropped,  *)
(* in any order, by threads that only look at that graph.  Reachability never changes, and when  *)
(* there is nothing left to drop no edge has a two-edge bypass.  MUT = 'first': only the first successor is looked at. *)
EXTENDS Grouping
CONSTANTS N, T, MUT
VARIABLES G, H, lab, todo, phase, gone
vars == <<G, H, lab, todo, phase, gone>>
NN == Nodes(N)
Slice(t) == LET w == N \div T IN IF t = T THEN ((T - 1) * w) .. (N - 1) ELSE ((t - 1) * w) .. (t * w - 1)
Tail1(F, a) == F[a] \ {a + 1}
Joins(F, a, b) == \A k \in (a + 1) .. b : F[a] \ ((a + 1) .. k) = F[k] /\ (a + 1) .. k \subseteq F[a]
RECURSIVE CliquesFrom(_, _, _)
CliquesFrom(F, a, e) == IF a > e THEN <<>>                 \* greedy cliques of one thread: <<first, last>>
                        ELSE LET b == Max({ b \in a .. (N - 1) : Joins(F, a, b) }) IN << <<a, b>> >> \o CliquesFrom(F, b + 1, e)
Work(F, t) == IF Slice(t) = {} THEN <<>>
              ELSE LET cs == CliquesFrom(F, Min(Slice(t)), Max(Slice(t)))
                   IN  FlattenSeq([k \in DOMAIN cs |-> [j \in 1 .. (cs[k][2] - cs[k][1] + 1) |-> <<cs[k][1] + j - 1, k - 1 + Min(Slice(t))>>]])
Init == /\ G \in { FromEdges(NN, E) : E \in SUBSET { <<u, v>> \in NN \X NN : u < v } }
        /\ H = G /\ lab = [v \in NN |-> -1] /\ gone = {}
        /\ phase \in {"label", "drop"}
        /\ todo = [t \in 1 .. T |-> IF phase = "label" THEN Work(G, t) ELSE <<>>]
Label1(t) == /\ phase = "label" /\ todo[t] # <<>>
             /\ lab' = [lab EXCEPT ![Head(todo[t])[1]] = Head(todo[t])[2]]
             /\ todo' = [todo EXCEPT ![t] = Tail(@)]
             /\ UNCHANGED <<G, H, phase, gone>>
Chain == /\ phase = "label" /\ \A t \in 1 .. T : todo[t] = <<>>
         /\ H' = [v \in NN |-> IF v + 1 \in NN /\ lab[v + 1] = lab[v] THEN {v + 1} ELSE G[v]]
         /\ phase' = "drop" /\ UNCHANGED <<G, lab, todo, gone>>
Drop == /\ phase = "drop"
        /\ \E u \in NN : \E w \in H[u] : <<u, w>> \notin gone /\ (\E v \in H[u] : w \in H[v] /\ (MUT = "first" => v = Min(H[u]))) /\ gone' = gone \cup {<<u, w>>}
        /\ UNCHANGED <<G, H, lab, todo, phase>>
Next == Chain \/ Drop \/ \E t \in 1 .. T : Label1(t)
Spec == Init /\ [][Next]_vars
Now == [u \in NN |-> { w \in H[u] : <<u, w>> \notin gone }]
Strong == (phase = "drop" /\ ~ENABLED Drop) => NoBypass(Now, H)
Sound == phase = "drop" => Sparsified(Now, G)
===============================================================================
