--------------------------------- MODULE CSV ---------------------------------
(* The record writer of profiling_utils::CSVManager as a state machine.  A manager is opened on a file with a list of    *)
(* column names; columns of the record in progress are set in any order, any number of times; a commit writes the        *)
(* record as one line when every column has been set since the record was begun, and otherwise leaves it in progress.    *)
(* text is what has been written, lag the part of it that need not have reached the file yet (only the header can lag).  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
NoMgr == [open |-> FALSE, file |-> 0, cols |-> <<>>, busy |-> FALSE, set |-> <<>>, val |-> <<>>]
Line(ws) == FoldLeft(LAMBDA acc, w : IF acc = "" THEN w ELSE acc \o "," \o w, "", ws) \o "\n"
\* a file is absent, or holds text; lag counts how many of its last characters (all or nothing) may still be in memory
Absent == [there |-> FALSE, text |-> "", lag |-> ""]
Opened(F, f, cols, force) ==
  IF force \/ ~F[f].there THEN [F EXCEPT ![f] = [there |-> TRUE, text |-> "", lag |-> Line(cols)]] ELSE F
Mgr(f, cols) == [open |-> TRUE, file |-> f, cols |-> cols, busy |-> FALSE, set |-> [k \in DOMAIN cols |-> FALSE], val |-> [k \in DOMAIN cols |-> ""]]
Assigned(m, c, v) ==
  LET clear == IF m.busy THEN m ELSE [m EXCEPT !.busy = TRUE, !.set = [k \in DOMAIN m.cols |-> FALSE]]
  IN  IF c \in DOMAIN m.cols THEN [clear EXCEPT !.set[c] = TRUE, !.val[c] = v] ELSE clear
Complete(m) == m.busy /\ \A k \in DOMAIN m.cols : m.set[k]
Flushed(x) == [x EXCEPT !.text = @ \o x.lag, !.lag = ""]
Committed(F, m) == IF Complete(m) THEN [F EXCEPT ![m.file] = [Flushed(@) EXCEPT !.text = @ \o Line(m.val)]] ELSE F
Rested(m) == IF Complete(m) THEN [m EXCEPT !.busy = FALSE] ELSE m
Closed(F, m) == [F EXCEPT ![m.file] = Flushed(@)]
==============================================================================
