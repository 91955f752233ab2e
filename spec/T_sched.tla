------------------------------- MODULE T_sched -------------------------------
(* Trace validation of inspectors: each record is one call; the schedule it returned is executed on HLevel.       *)
(* Graphs of at most EXEC nodes are executed in every interleaving; larger ones are judged by the equivalent      *)
(* static criterion (see HLevelMC).                                                                              *)
EXTENDS HLevel, Coarsening, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
EXEC == atoi(IOEnv.EXEC)
VARIABLE rec
vars == <<rec, hvars>>
R == Recs[rec]
GraphOf(r) == CASE "t" \in DOMAIN r   -> [v \in Nodes(Len(r.t)) |-> { r.t[v+1] } \ {-1}]
              []   "blk" \in DOMAIN r -> ListSucc(r.blk)
              []   OTHER              -> Succ(r.n, r.p, r.i)
Width(T) == MaxOr({ Len(T[l]) : l \in DOMAIN T }, 0)
Why == IF R.st # "ok" THEN "call did not return: " \o R.st
       ELSE IF ~R.wf THEN "schedule pointers are not monotone / not within their arrays"
       ELSE IF R.nlev # Len(R.sched) THEN "coarsened level count"
       ELSE IF "same" \in DOMAIN R /\ ~R.same THEN "input graph was modified"
       ELSE IF lvl = 1 /\ done = {} /\ ~CoversOnce(G, S) THEN "the schedule does not contain every node exactly once"
       ELSE IF lvl = 1 /\ done = {} /\ ~DepsOrdered(G, S) THEN "a node is scheduled before, or concurrently with, a node it depends on"
       ELSE IF "cap" \in DOMAIN R /\ lvl = 1 /\ done = {} /\ Width(S) > R.cap THEN "a coarsened level has more w-partitions than requested"
       ELSE IF "bal" \in DOMAIN R /\ lvl = 1 /\ done = {} /\ ~Balanced(R.bal, G, TLCEval([v \in DOMAIN G |-> R.cost[v+1]]), S) THEN "the parts of a coarsened level are not balanced by their costs"
       ELSE IF "cut" \in DOMAIN R /\ lvl = 1 /\ done = {} /\ CutWhy(R, G, TLCEval([v \in DOMAIN G |-> R.cost[v+1]]), S) # "" THEN CutWhy(R, G, TLCEval([v \in DOMAIN G |-> R.cost[v+1]]), S)
       ELSE IF ~ReadySafe \/ ~NoTwice THEN "an interleaving runs a node before its inputs, or twice"
       ELSE IF ~FinishesAll THEN "execution ends with nodes not run"
       ELSE ""
Init == /\ rec \in DOMAIN Recs
        /\ G = (IF R.st = "ok" THEN GraphOf(R) ELSE <<>>)
        /\ S = (IF R.st = "ok" /\ R.wf THEN R.sched ELSE <<>>)
        /\ ExecInit
Next == Cardinality(DOMAIN G) <= EXEC /\ Why = "" /\ ExecNext /\ UNCHANGED rec
Spec == Init /\ [][Next]_vars
Conforms == Why = ""
Alias == [rec |-> rec, why |-> Why]
=============================================================================
