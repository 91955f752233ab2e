---------------------------- MODULE MC_Balance ----------------------------
(* The two ways in which the inspectors fill the parts of a coarsened level, as step-by-step designs:                *)
(*   pack   always the heaviest item that is left, onto a part that carries least (LBC: worst_fit_bin_pack),          *)
(*   chunk  the items in their order; a part is closed as soon as it reaches the average of what was left (HDAGG).    *)
(* Checked: whatever the costs, ties and number of parts, the level that results is Packed / Chunked, and its           *)
(* heaviest part is within one item of the lightest / of the average.                                                *)
EXTENDS Balance
CONSTANTS K, M, P, MUT
VARIABLES how, cost, bins, todo, at, avg
vars == <<how, cost, bins, todo, at, avg>>
I == Nodes(K)
NoEdge == [v \in I |-> {}]
LoadOf(b) == SumSeq([k \in DOMAIN bins[b] |-> cost[bins[b][k]]])
Left == SumF(cost, todo)
Init == /\ how \in {"pack", "chunk"} /\ cost \in [I -> 0 .. M] /\ bins = [b \in 1 .. P |-> <<>>]
        /\ todo = I /\ at = 1 /\ avg = <<SumF(cost, I), P>>                 \* avg: a fraction
Put(v, b) == /\ bins' = [bins EXCEPT ![b] = Append(@, v)] /\ todo' = todo \ {v}
Stale(b) == IF MUT = "stale" /\ b = 1 THEN M + 1 ELSE 0                     \* a load left over from an earlier level
Pack == /\ how = "pack" /\ todo # {}
        /\ \E v \in todo : /\ \A w \in todo : IF MUT = "light" THEN cost[w] >= cost[v] ELSE cost[w] <= cost[v]
                           /\ \E b \in DOMAIN bins : (\A c \in DOMAIN bins : LoadOf(b) + Stale(b) <= LoadOf(c) + Stale(c)) /\ Put(v, b)
        /\ UNCHANGED <<how, cost, at, avg>>
Wide == K >= P
Chunk == /\ how = "chunk" /\ todo # {}
         /\ LET v == Min(todo) IN
              IF ~Wide THEN Put(v, at) /\ at' = at + 1 /\ UNCHANGED avg
              ELSE IF at = P \/ LoadOf(at) * avg[2] < avg[1] \/ (MUT = "late" /\ LoadOf(at) * avg[2] = avg[1]) THEN Put(v, at) /\ UNCHANGED <<at, avg>>
              ELSE IF Left = 0 THEN at' = at + 1 /\ avg' = <<1, 1>> /\ UNCHANGED <<bins, todo>>    \* one part takes the rest
              ELSE at' = at + 1 /\ avg' = (IF MUT = "noavg" THEN avg ELSE <<Left, P - at>>) /\ UNCHANGED <<bins, todo>>
         /\ UNCHANGED <<how, cost>>
Next == Pack \/ Chunk \/ (todo = {} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == todo = {}
Filled == Done => UNION { ToSet(bins[b]) : b \in DOMAIN bins } = I
PackedOK == (Done /\ how = "pack") => /\ Packed(NoEdge, cost, bins)
                                      /\ \A b, c \in DOMAIN bins : LoadOf(b) - LoadOf(c) <= MaxOr(Range(cost), 0)
ChunkedOK == (Done /\ how = "chunk") => /\ Chunked(NoEdge, cost, bins)
                                        /\ \A b \in DOMAIN bins : Wide => (LoadOf(b) - MaxOr(Range(cost), 0)) * P <= SumF(cost, I)
Room == at <= P
Ends == <>Done
============================================================================
