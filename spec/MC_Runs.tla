------------------------------- MODULE MC_Runs -------------------------------
(* The design of the run groupings: a head walks over the nodes with a pool of candidates (the children of the run's  *)
(* members at most SP after them) and a short list it refills from the pool when that does not continue with the next *)
(* node; then runs cheaper than TH are merged, one at a time, from left to right.  Checked: the runs are those of     *)
(* `Grouping`, merging keeps a cut sequence with both ends and ends as `MergeCuts` says.                              *)
(* MUT: 'pool' keeps the pool when a new run starts and does not drop nodes passed, 'list' never refills the list,    *)
(* 'last' merges the last run forward too.                                                                            *)
EXTENDS Grouping
CONSTANTS N, SP, TH, MUT
VARIABLES G, head, pool, list, cuts, phase, k, prev
vars == <<G, head, pool, list, cuts, phase, k, prev>>
NN == Nodes(N)
Init == /\ G \in { FromEdges(NN, E) : E \in SUBSET { <<u, v>> \in NN \X NN : u < v } }
        /\ head = 0 /\ pool = {} /\ list = {} /\ cuts = <<0>> /\ phase = "runs" /\ k = 1 /\ prev = 0
Cost(a, b) == b - a + SumSeq([v \in 1 .. (b - a) |-> Cardinality(G[a + v - 1])])
Walk == /\ phase = "runs" /\ head < N
        /\ LET p1 == pool \cup { c \in G[head] : c <= head + SP }
               l1 == { c \in list : c > head }
               stay == l1 # {} /\ (Min(l1) = head + 1 \/ MUT = "list")
               l2 == IF stay THEN l1 ELSE IF list # {} /\ l1 = {} THEN {} ELSE IF list # {} THEN l1 \cup p1 ELSE p1
               l3 == { c \in l2 : c > head }
               best == IF l3 = {} THEN -1 ELSE Min(l3)
           IN  IF best = head + 1 THEN /\ head' = best /\ pool' = p1 /\ list' = l3 \ {best} /\ UNCHANGED cuts
               ELSE /\ head' = head + 1 /\ cuts' = Append(cuts, head + 1)
                    /\ pool' = (IF MUT = "pool" THEN p1 ELSE {}) /\ list' = {}
        /\ UNCHANGED <<G, phase, k, prev>>
Switch == /\ phase = "runs" /\ head = N
          /\ phase' = IF Len(cuts) = 2 THEN "done" ELSE "merge"
          /\ UNCHANGED <<G, head, pool, list, cuts, k, prev>>
(* cuts is the array of the code here: empty groups until the end; prev = number of the last full group, 0 if none *)
Last2 == Len(cuts) - 1
Inf == 1000
CostOf(g) == IF g < 1 \/ g > Last2 THEN Inf ELSE Cost(cuts[g], cuts[g+1])
Merge == /\ phase = "merge" /\ k <= Last2
         /\ IF CostOf(k) < TH
            THEN /\ IF CostOf(prev) < CostOf(k + 1) THEN cuts' = [m \in DOMAIN cuts |-> IF m > prev /\ m <= k THEN cuts[k+1] ELSE cuts[m]]
                    ELSE IF k < Last2 \/ MUT = "last" THEN cuts' = [cuts EXCEPT ![k+1] = cuts[k]] ELSE UNCHANGED cuts
                 /\ UNCHANGED prev
            ELSE prev' = k /\ UNCHANGED cuts
         /\ k' = k + 1 /\ UNCHANGED <<G, head, pool, list, phase>>
Close == /\ phase = "merge" /\ k > Last2 /\ phase' = "done"
         /\ cuts' = SelectSeq([m \in 1 .. Last2 |-> IF cuts[m] < cuts[m+1] THEN cuts[m] ELSE -1], LAMBDA x : x >= 0) \o <<cuts[Len(cuts)]>>
         /\ UNCHANGED <<G, head, pool, list, k, prev>>
Next == Walk \/ Switch \/ Merge \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(phase = "done")
Runs == (phase = "runs" /\ head = N) => cuts = RunCuts(G, SP)
Monotone == \A m \in 1 .. (Len(cuts) - 1) : cuts[m] <= cuts[m+1]
Merged == phase = "done" => cuts = MergeCuts(RunCuts(G, SP), Cost, LAMBDA c : c < TH)
Enough == phase = "done" => Len(cuts) = 2 \/ \A m \in 1 .. (Len(cuts) - 1) : Cost(cuts[m], cuts[m+1]) >= TH
==============================================================================
