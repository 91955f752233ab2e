------------------------------ MODULE MC_Coarsen ------------------------------
(* Cutting wavefronts into coarsened levels.  'step' and 'thin' sweep a vector of widths with the balance parameters left  *)
(* open; 'load' extends a run by one wavefront as long as every core that can be busy has work and the loads are not far   *)
(* from even, and may stop whenever they are not exactly even.  Checked: the cuts ascend from the first to the last         *)
(* wavefront, they are StepCuts / ThinCuts, step runs have dr wavefronts, the schedule made of the runs is recognised, and  *)
(* the laws T_sched judges merging by hold of it.  MUT: 'greedy' merges regardless, 'lazy' never merges, 'top' cuts above   *)
(* the last wide wavefront, 'stuck' forgets to lower the number of parts.                                                   *)
EXTENDS Coarsening
CONSTANTS N, H, P, MUT
VARIABLES how, w, ml, dr, q, g, cost, cuts, to
vars == <<how, w, ml, dr, q, g, cost, cuts, to>>
Tip == cuts[Len(cuts)]
G0 == [v \in Nodes(N) |-> {}]
Init == \/ /\ how = "step" /\ w \in UNION { [1 .. k -> 1 .. 2] : k \in 1 .. H } /\ ml \in -1 .. H /\ dr \in 1 .. 3 /\ ml + dr >= 1
           /\ q = 0 /\ g = G0 /\ cost = [v \in Nodes(N) |-> 1]
           /\ cuts = (IF Len(w) <= ml THEN <<0, Len(w)>> ELSE IF ml > 0 THEN <<0, ml>> ELSE <<0>>) /\ to = ml + dr
        \/ /\ how = "thin" /\ w \in UNION { [1 .. k -> 1 .. 4] : k \in 1 .. (H - 1) } /\ ml \in -1 .. 2 /\ dr \in 2 .. 3
           /\ q \in 1 .. 4 /\ g = G0 /\ cost = [v \in Nodes(N) |-> 1] /\ cuts = (IF Len(w) <= 2 THEN <<0, Len(w)>> ELSE <<0>>) /\ to = q
        \/ /\ how = "load" /\ g \in { FromEdges(Nodes(N), E) : E \in SUBSET { e \in Nodes(N) \X Nodes(N) : e[1] < e[2] } }
           /\ cost \in [Nodes(N) -> 1 .. 2] /\ w = Widths(Fronts(g)) /\ ml = 0 /\ dr = 0 /\ q \in 1 .. P /\ cuts = <<0>> /\ to = 1
Top == MaxOr({ l \in DOMAIN w : w[l] # 1 }, 0)
Step == /\ how = "step"
        /\ IF to < Top \/ (MUT = "top" /\ to < Len(w)) THEN cuts' = Append(cuts, to) /\ to' = to + dr ELSE cuts' = Append(cuts, Len(w)) /\ UNCHANGED to
Thinner == /\ how = "thin"
           /\ IF to <= 1 THEN cuts' = Append(cuts, Len(w)) /\ UNCHANGED to
              ELSE LET t == MaxOr({ l \in DOMAIN w : w[l] > (IF MUT = "stuck" THEN q ELSE to) }, 0) - ml
                   IN  cuts' = (IF t > Tip /\ t < Len(w) THEN Append(cuts, t) ELSE cuts) /\ to' = to \div dr
F == TLCEval(Fronts(g))
Works(e) == Cardinality(Components(g, Union(F, Tip, e))) >= Busy(w, Tip, e, q)
Stop == cuts' = Append(cuts, to) /\ to' = to + 1
Merge == /\ how = "load"
         /\ \/ to = Len(w) /\ Stop
            \/ to < Len(w) /\ MUT # "lazy" /\ (MUT = "greedy" \/ Works(to + 1)) /\ to' = to + 1 /\ UNCHANGED cuts
            \/ to < Len(w) /\ (MUT = "lazy" \/ UnevenSum(g, cost, F, Tip, to + 1, q) > 2000) /\ Stop
Next == Tip # Len(w) /\ (Step \/ Thinner \/ Merge) /\ UNCHANGED <<how, w, ml, dr, q, g, cost>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == Tip = Len(w)
Ascend == \A k \in 1 .. (Len(cuts) - 1) : cuts[k] < cuts[k+1]
AsAsked == Done => CASE how = "step" -> cuts = StepCuts(w, ml, dr) /\ \A k \in 2 .. (Len(cuts) - 2) : cuts[k] >= ml => cuts[k+1] - cuts[k] = dr
                   []   how = "thin" -> cuts = ThinCuts(w, ml, dr, q)
                   []   OTHER -> TRUE
AsMerged == Done /\ how = "load" =>
   LET S == [k \in 1 .. (Len(cuts) - 1) |-> LET Cs == SetToSeq(Components(g, Union(F, cuts[k], cuts[k+1]))) IN [j \in DOMAIN Cs |-> SetToSeq(Cs[j])]]
   IN  Cuts(F, S) = cuts /\ KeepsBusy(g, F, cuts, q) /\ GoesOn(g, cost, F, cuts, q)
(* what must be merged may be merged, and is near even *)
Agree == how = "load" /\ ~Done /\ to < Len(w) /\ UnevenSum(g, cost, F, Tip, to + 1, q) <= 2000 => Works(to + 1)
Ends == <>Done
===============================================================================
