-------------------------------- MODULE T_race --------------------------------
(* Trace validation of thread safety: each record is one call made under one schedule of its threads, with the        *)
(* signatures of all memory locations that more than one thread touched between two barriers.                         *)
EXTENDS Races, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
R == Recs[rec]
Why == IF R.st # "ok" THEN "call did not return: " \o R.st
       ELSE IF \E k \in DOMAIN R.acc : ~RaceFree(R.acc[k])
            THEN "two threads access one memory location at the same time, one of them writing: " \o ToString(R.acc[CHOOSE k \in DOMAIN R.acc : ~RaceFree(R.acc[k])])
       ELSE IF R.phases < R.regions THEN "a parallel region ended before its threads met"
       ELSE ""
Init == rec \in DOMAIN Recs
Spec == Init /\ [][UNCHANGED rec]_rec
Conforms == Why = ""
Alias == [rec |-> rec, why |-> Why]
=============================================================================
