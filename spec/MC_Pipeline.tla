---------------------------- MODULE MC_Pipeline ----------------------------
(* The design shared by every coarsening inspector (LBC on DAGs, trees and blocks; GLC; HDAGG), with everything a  *)
(* heuristic decides left open:                                                                                    *)
(*   Peel   the wavefronts of the dependence graph,                                                                *)
(*   Cut    after any level, as the balance heuristics like,                                                       *)
(*   Pack   the connected components between two cuts into at most CAP w-partitions in any way,                    *)
(*   Order  every w-partition in any topological order.                                                            *)
(* Checked: whatever was decided, the schedule holds every node once, respects every dependence under every         *)
(* interleaving, and no level is wider than CAP.  The final states are also written out and replayed into the code *)
(* that consumes schedules (executors, orderings, schedule graphs).                                                *)
EXTENDS HLevel, Json, IOUtils
CONSTANTS N, CAP, EMIT
VARIABLES phase, lev, at, bins
pvars == <<hvars, phase, lev, at, bins>>
NN == Nodes(N)
DAGs == { FromEdges(NN, E) : E \in SUBSET { <<u, v>> \in NN \X NN : u < v } }
Init == /\ G \in DAGs /\ S = <<>> /\ lvl = 1 /\ pc = <<>> /\ done = {}
        /\ phase = "peel" /\ lev = <<>> /\ at = 0 /\ bins = <<>>
Peeled == UNION { lev[k] : k \in DOMAIN lev }
Peel == /\ phase = "peel"
        /\ LET X == Sources(G, NN, Peeled) IN
             IF X = {} THEN phase' = "cut" /\ UNCHANGED lev ELSE lev' = Append(lev, X) /\ UNCHANGED phase
        /\ UNCHANGED <<hvars, at, bins>>
Span(a, b) == UNION { lev[k] : k \in (a + 1) .. b }
Least(C) == Min(C)
(* bins : a sequence of node sets, each a union of components; empty ones are dropped; order of bins is immaterial *)
Packings(Cs) == { f \in [Cs -> 1 .. CAP] : \A C \in Cs : f[C] <= 1 + MaxOr({ f[D] : D \in { D \in Cs : Least(D) < Least(C) } }, 0) }
BinsOf(Cs, f) == [k \in 1 .. Max({ f[C] : C \in Cs }) |-> UNION { C \in Cs : f[C] = k }]
CutPack == /\ phase = "cut" /\ at < Len(lev)
           /\ \E b \in (at + 1) .. Len(lev) :
                LET Cs == Components(G, Span(at, b)) IN
                  \E f \in Packings(Cs) : at' = b /\ bins' = BinsOf(Cs, f)
           /\ phase' = "order" /\ S' = Append(S, <<>>)
           /\ UNCHANGED <<G, lvl, pc, done, lev>>
Orders(B) == { s \in SetToSeqs(B) : \A a, b \in DOMAIN s : a < b => s[a] \notin G[s[b]] }
Order == /\ phase = "order"
         /\ IF bins = <<>> THEN phase' = "cut" /\ UNCHANGED <<bins, S>>
            ELSE /\ \E s \in Orders(Head(bins)) : S' = [S EXCEPT ![Len(S)] = Append(@, s)]
                 /\ bins' = Tail(bins) /\ UNCHANGED phase
         /\ UNCHANGED <<G, lvl, pc, done, lev, at>>
Finish == /\ phase = "cut" /\ at = Len(lev) /\ phase' = "run" /\ pc' = Fresh(1) /\ UNCHANGED <<G, S, lvl, done, lev, at, bins>>
Exec == phase = "run" /\ EMIT = 0 /\ ExecNext /\ UNCHANGED <<phase, lev, at, bins>>
Next == Peel \/ CutPack \/ Order \/ Finish \/ Exec
Spec == Init /\ [][Next]_pvars
ScheduleOK == (phase = "run" /\ lvl = 1 /\ done = {}) => StaticOK(G, S) /\ \A l \in DOMAIN S : Len(S[l]) \in 1 .. CAP
RunOK      == phase = "run" => ReadySafe /\ NoTwice /\ FinishesAll
PrefixOK   == phase # "peel" => \A v \in Span(at, Len(lev)) : \A u \in Span(0, at) : u \notin G[v]
AllPeeled  == phase # "peel" => Peeled = NN
Emit == (EMIT = 1 /\ phase = "run") => PrintT("BEH " \o ToJson([n |-> N, g |-> [v \in 1 .. N |-> SetToSortSeq(G[v-1], LAMBDA x, y : x < y)], s |-> S]))
============================================================================
