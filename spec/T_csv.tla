--------------------------------- MODULE T_csv ---------------------------------
(* Trace validation of CSVManager histories: every recorded event takes the state machine of CSV one step, and the bytes  *)
(* found in the files after the event (as another process, or a crash at that point, would find them) must be what the    *)
(* state allows.  events: <<0,mgr,file,ncols,force>> open, <<1,mgr,col,type,value>> set, <<2,mgr,..>> commit,              *)
(* <<3,mgr,..>> close, <<4,file,..>> another program creates the file with the text "old\n".                              *)
EXTENDS CSV, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, k, F, M
vars == <<rec, k, F, M>>
R == Recs[rec]
Ev(j) == SubSeq(R.ev, 5 * (j - 1) + 1, 5 * j)
NEv == Len(R.ev) \div 5
Cols(n, base) == [c \in 1 .. n |-> "c" \o ToString(base + c - 1)]
Value(t, v) == CASE t = 0 -> ToString(v) [] t = 1 -> "s" \o ToString(v) [] t = 2 -> ToString(v) \o ".500000" [] t = 3 -> "k" \o ToString(v) [] OTHER -> ""
Step(e) == CASE e[1] = 0 -> F' = Opened(F, e[3], Cols(e[4], e[3]), e[5] = 1) /\ M' = [M EXCEPT ![e[2]] = Mgr(e[3], Cols(e[4], e[3]))]
           []   e[1] = 1 -> M' = [M EXCEPT ![e[2]] = Assigned(@, e[3] + 1, Value(e[4], e[5]))] /\ UNCHANGED F
           []   e[1] = 2 -> F' = Committed(F, M[e[2]]) /\ M' = [M EXCEPT ![e[2]] = Rested(@)]
           []   e[1] = 3 -> F' = Closed(F, M[e[2]]) /\ M' = [M EXCEPT ![e[2]] = NoMgr]
           []   e[1] = 4 -> F' = [F EXCEPT ![e[2]] = [there |-> TRUE, text |-> "old\n", lag |-> ""]] /\ UNCHANGED M
Init == rec \in DOMAIN Recs /\ k = 0 /\ F = [f \in 0 .. 1 |-> Absent] /\ M = [g \in 0 .. 1 |-> NoMgr]
Seen(j, f) == R.files[2 * (j - 1) + f + 1]
Allowed(f, s) == IF ~F[f].there THEN s = "(absent)" ELSE s = F[f].text \/ s = F[f].text \o F[f].lag
Heads == \A g \in 0 .. 1 : M[g].open => R.heads[2 * (k - 1) + g + 1] = FoldLeft(LAMBDA acc, w : acc \o w \o ";", "", M[g].cols)
Why == IF R.st # "ok" THEN "call did not return: " \o R.st
       ELSE IF k = 0 THEN ""
       ELSE IF Len(R.files) # 2 * NEv THEN "not every event was observed"
       ELSE IF \E f \in 0 .. 1 : ~Allowed(f, Seen(k, f)) THEN "the file does not hold exactly the header and the committed records"
       ELSE IF ~Heads THEN "header names" ELSE ""
Next == R.st = "ok" /\ Why = "" /\ k < NEv /\ k' = k + 1 /\ UNCHANGED rec /\ Step(Ev(k + 1))
Spec == Init /\ [][Next]_vars
Conforms == Why = ""
Alias == [rec |-> rec, why |-> Why]
================================================================================
