------------------------------ MODULE LevelSets ------------------------------
(* Level-set (wavefront) construction: repeatedly peel every node all of whose predecessors are peeled.          *)
EXTENDS Graphs
VARIABLES D, peeled, lev
lsvars == <<D, peeled, lev>>
LSInit  == peeled = {} /\ lev = <<>>
Enabled1 == Sources(D, DOMAIN D, peeled)
PeelSet(X) == /\ X # {} /\ X = Enabled1
              /\ peeled' = peeled \cup X
              /\ lev' = Append(lev, X)
              /\ UNCHANGED D
Peel == PeelSet(Enabled1)
(* what a user relies on *)
LevelIsDepth == LET d == Depths(D) IN \A l \in DOMAIN lev : \A v \in lev[l] : d[v] = l - 1
EdgesForward == \A l \in DOMAIN lev : \A v \in lev[l] : \A u \in DOMAIN D : v \in D[u] => \E m \in 1 .. (l-1) : u \in lev[m]
Stuck        == Enabled1 = {}
DoneIffAcyclic == Stuck => (peeled = DOMAIN D <=> AcyclicFast(D))
=============================================================================
