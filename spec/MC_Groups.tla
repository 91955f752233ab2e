------------------------------ MODULE MC_Groups ------------------------------
(* The design of the DAG groupings, with traversal order left open.                                                 *)
(*  tree   a group grows from its root by nodes whose only successor is already in the group; with CHUNK > 0 a       *)
(*         group is closed after CHUNK nodes and the rest of the subtree goes on in a new one, in visiting order;    *)
(*  chain  a node joins the group of its only predecessor if it is that node's only successor.                       *)
(* Checked: at every moment the groups are disjoint and their quotient (unvisited nodes on their own) is acyclic; at *)
(* the end they are exactly the trees (pieces of them, no more than needed; chains).  MUT: 'early' closes pieces one  *)
(* node early, 'greedy' takes nodes with other successors too, 'lone' lets a chain absorb only nodes above 1.         *)
EXTENDS Grouping, Json
CONSTANTS N, RULE, CHUNK, EMIT, MUT
VARIABLES G, groups, queue, last
vars == <<G, groups, queue, last>>
NN == Nodes(N)
Placed == UNION { ToSet(groups[k]) : k \in DOMAIN groups }
P == Preds(G)
Init == /\ G \in { FromEdges(NN, E) : E \in SUBSET { <<u, v>> \in NN \X NN : u < v } }
        /\ groups = <<>> /\ queue = <<>> /\ last = 0
InQueue == ToSet(queue)
(* a new group starts at a node that cannot (any more) be absorbed by another group *)
Roots == IF RULE = "tree" THEN { v \in NN \ Placed : Cardinality(G[v]) # 1 }
         ELSE { v \in NN \ Placed : \A u \in P[v] : ~(G[u] = {v} /\ P[v] = {u} /\ (MUT = "lone" => u > 0)) }
Start == /\ queue = <<>>
         /\ \E v \in Roots : /\ RULE = "tree" => \A w \in G[v] : w \in Placed
                             /\ groups' = Append(groups, <<v>>)
                             /\ queue' = <<v>> /\ last' = 1
         /\ UNCHANGED G
Kids(v) == IF RULE = "tree" THEN { u \in P[v] : G[u] = {v} \/ MUT = "greedy" } ELSE { w \in G[v] : G[v] = {w} /\ P[w] = {v} /\ (MUT = "lone" => v > 0) }
Size == IF MUT = "early" THEN CHUNK - 1 ELSE CHUNK
(* the head of the queue takes in one of its nodes, or is finished with *)
Absorb == /\ queue # <<>>
          /\ LET K == Kids(Head(queue)) \ Placed IN
               IF K = {} THEN queue' = Tail(queue) /\ UNCHANGED <<groups, last>>
               ELSE \E u \in K : /\ queue' = Append(queue, u)
                                 /\ IF CHUNK > 0 /\ last >= Size
                                    THEN groups' = Append(groups, <<u>>) /\ last' = 1
                                    ELSE groups' = [groups EXCEPT ![Len(groups)] = Append(@, u)] /\ last' = last + 1
          /\ UNCHANGED G
Next == Start \/ Absorb
Spec == Init /\ [][Next]_vars
All == groups \o [k \in 1 .. Cardinality(NN \ Placed) |-> <<SetToSortSeq(NN \ Placed, LAMBDA x, y : x < y)[k]>>]
Sound == SoundGrouping(G, All)
Stuck == queue = <<>> /\ Roots = {}
Emit == (EMIT = 1 /\ Stuck /\ Placed = NN) => PrintT("BEH " \o ToJson([n |-> N, g |-> [v \in 1 .. N |-> SetToSortSeq(G[v-1], LAMBDA x, y : x < y)], s |-> groups]))
Strong == (Stuck /\ Placed = NN) => IF RULE = "chain" THEN InChains(G, groups) ELSE IF CHUNK = 0 THEN InTrees(G, groups) ELSE InTreePieces(G, groups, CHUNK)
Complete == Stuck => Placed = NN
Progress == (queue = <<>> /\ Placed # NN) => \E v \in Roots : RULE = "tree" => \A w \in G[v] : w \in Placed
==============================================================================
