------------------------------- MODULE T_levels -------------------------------
(* Trace validation: each record is one call of a level-set builder; its returned levels are replayed, level by   *)
(* level, as Peel steps of LevelSets.                                                                            *)
EXTENDS LevelSets, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
vars == <<rec, D, peeled, lev>>
R == Recs[rec]
(* The dependence graph the caller passed. *)
TreeSucc(t) == [v \in Nodes(Len(t)) |-> {}]
GraphOf(r) == CASE r.op = "levels"       -> Succ(r.n, r.p, r.i)
              []   r.op = "levels_bcsc"  -> ListSucc(r.blk)
              []   r.op = "levels_multi" -> LET base == Succ(r.n, r.p, r.i)
                                            IN  [v \in Nodes(r.n * r.k) |-> { w + (v \div r.n) * r.n : w \in base[v % r.n] }
                                                     \cup (IF v \div r.n < r.k - 1 THEN { v + r.n } ELSE {})]
              []   r.op = "levels_bn"    -> LET base == ListSucc(r.blk)
                                            IN  [v \in Nodes(r.nb * r.k) |-> { w + (v \div r.nb) * r.nb : w \in base[v % r.nb] }
                                                     \cup (IF v \div r.nb < r.k - 1 THEN { v + r.nb } ELSE {})]
              []   r.op = "tree_levels"  -> [v \in Nodes(Len(r.t)) |-> { r.t[v+1] } \ {-1}]
Shape == IF R.st # "ok" THEN "call did not return: " \o R.st
         ELSE IF ~R.wf THEN "level pointer is not monotone / not within the node array"
         ELSE IF R.rv # Len(R.lev) THEN "level count"
         ELSE IF "same" \in DOMAIN R /\ ~R.same THEN "input graph was modified"
         ELSE IF "s2nok" \in DOMAIN R /\ ~R.s2nok THEN "supernode numbers of the levels"
         ELSE ""
N2L == IF "n2l" \notin DOMAIN R \/ Shape # "" THEN ""
       ELSE IF \E l \in DOMAIN R.lev : \E k \in DOMAIN R.lev[l] : R.lev[l][k] \notin DOMAIN D THEN "node out of range"
       ELSE IF \A l \in DOMAIN R.lev : \A k \in DOMAIN R.lev[l] : R.n2l[R.lev[l][k] + 1] = l - 1 THEN "" ELSE "node-to-level map is not the inverse of the level sets"
Step == Len(lev) + 1
Why == IF Shape # "" THEN Shape
       ELSE IF N2L # "" THEN N2L
       ELSE IF Step > Len(R.lev) THEN (IF peeled = DOMAIN D THEN "" ELSE "nodes missing from the level sets")
       ELSE IF ~Distinct(R.lev[Step]) THEN "a node is listed twice in a level"
       ELSE IF ToSet(R.lev[Step]) # Enabled1 \/ Enabled1 = {} THEN "level " \o ToString(Step - 1) \o " is not the set of nodes whose predecessors are all in earlier levels"
       ELSE ""
Init == /\ rec \in DOMAIN Recs
        /\ D = (IF R.st = "ok" THEN GraphOf(R) ELSE <<>>)
        /\ LSInit
Next == /\ Why = "" /\ Step <= Len(R.lev)
        /\ PeelSet(ToSet(R.lev[Step]))
        /\ UNCHANGED rec
Spec == Init /\ [][Next]_vars
Conforms == Why = ""
SpecInv == LevelIsDepth
Alias == [rec |-> rec, why |-> Why]
=============================================================================
