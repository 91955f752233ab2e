-------------------------------- MODULE T_rep --------------------------------
(* Trace validation of repeatability: each record is one call made twice in one process, the second time with another *)
(* number and schedule of threads and after an unrelated call.  A behaviour of the specification is a function of the *)
(* arguments alone: what the caller observes is the same.                                                             *)
EXTENDS Naturals, Sequences, FiniteSetsExt, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
R == Recs[rec]
Differ == { f \in DOMAIN R.one : f \notin DOMAIN R.two \/ R.one[f] # R.two[f] }
Why == IF R.st # "ok" THEN "call did not return: " \o R.st
       ELSE IF DOMAIN R.one # DOMAIN R.two THEN "the repeated call returned other things"
       ELSE IF Differ # {} THEN "the repeated call returned something else in" \o FoldSet(LAMBDA f, t : t \o " " \o f, "", Differ)
       ELSE ""
Init == rec \in DOMAIN Recs
Spec == Init /\ [][UNCHANGED rec]_rec
Conforms == Why = ""
Alias == [rec |-> rec, why |-> Why]
=============================================================================
