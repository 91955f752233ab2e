-------------------------------- MODULE MC_CSV --------------------------------
(* All histories of two managers on two files.  Checked: a file only grows, except when it is created anew; what it     *)
(* holds is a header and whole records; a record on file carries, for every column, the last value set for it before    *)
(* the commit and after the previous one (hist), exactly once and in commit order.                                       *)
EXTENDS CSV, FiniteSetsExt, Json
CONSTANTS LEN, EMIT
VARIABLES F, M, hist, want, log
vars == <<F, M, hist, want, log>>
Files == 1 .. 2
Mgrs  == 1 .. 2
ColSets == { <<"c0">>, <<"c0", "c1">> }
Vals == {"a", "b"}
Init == F = [f \in Files |-> Absent] /\ M = [g \in Mgrs |-> NoMgr] /\ hist = [g \in Mgrs |-> <<>>] /\ want = [f \in Files |-> <<>>] /\ log = <<>>
Say(e) == log' = Append(log, e)
Open(g, f, cols, force) ==
  /\ ~M[g].open /\ \A h \in Mgrs : M[h].open => M[h].file # f
  /\ F' = Opened(F, f, cols, force) /\ M' = [M EXCEPT ![g] = Mgr(f, cols)]
  /\ want' = IF force \/ ~F[f].there THEN [want EXCEPT ![f] = <<cols>>] ELSE want
  /\ hist' = [hist EXCEPT ![g] = <<>>] /\ Say(<<0, g - 1, f - 1, Len(cols), IF force THEN 1 ELSE 0>>)
Set(g, c, v) == /\ M[g].open /\ M' = [M EXCEPT ![g] = Assigned(@, c, v)]
                /\ hist' = [hist EXCEPT ![g] = Append(@, <<c, v>>)] /\ UNCHANGED <<F, want>> /\ Say(<<1, g - 1, c - 1, 1, IF v = "a" THEN 0 ELSE 1>>)
\* the record the user means: for every column the last value set since the last successful commit
LastSet(h, c) == LET K == { k \in DOMAIN h : h[k][1] = c } IN IF K = {} THEN "" ELSE h[Max(K)][2]
Commit(g) == /\ M[g].open /\ F' = Committed(F, M[g]) /\ M' = [M EXCEPT ![g] = Rested(@)]
             /\ LET m == M[g]
                    rec == [k \in DOMAIN m.cols |-> LastSet(hist[g], k)]
                IN  IF \A k \in DOMAIN rec : rec[k] # "" THEN want' = [want EXCEPT ![m.file] = Append(@, rec)] /\ hist' = [hist EXCEPT ![g] = <<>>]
                    ELSE UNCHANGED <<want, hist>>
             /\ Say(<<2, g - 1, 0, 0, 0>>)
Close(g) == M[g].open /\ F' = Closed(F, M[g]) /\ M' = [M EXCEPT ![g] = NoMgr] /\ UNCHANGED <<hist, want>> /\ Say(<<3, g - 1, 0, 0, 0>>)
Next == Len(log) < LEN /\ \E g \in Mgrs :
          \/ \E f \in Files, cols \in ColSets, force \in BOOLEAN : Open(g, f, cols, force)
          \/ \E c \in 1 .. 3, v \in Vals : Set(g, c, v)
          \/ Commit(g) \/ Close(g)
Spec == Init /\ [][Next]_vars
Text(f) == F[f].text \o F[f].lag
RightText == \A f \in Files : Text(f) = FoldLeft(LAMBDA acc, l : acc \o Line(l), "", want[f])
LagIsHeader == \A f \in Files : F[f].lag # "" => F[f].text = "" /\ Len(want[f]) = 1
NeverBusyForNothing == \A g \in Mgrs : Complete(M[g]) => \A k \in DOMAIN M[g].cols : M[g].val[k] # ""
OneWriter == \A g, h \in Mgrs : g # h /\ M[g].open /\ M[h].open => M[g].file # M[h].file
View == <<F, M, hist, want, Len(log)>>
Emit == (EMIT = 1 /\ Len(log) = LEN) => PrintT("BEH " \o ToJson([n |-> 0, g |-> <<>>, s |-> log]))
==============================================================================
