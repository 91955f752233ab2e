--------------------------------- MODULE T_text ---------------------------------
(* Trace validation of the printing functions: the text is exactly the one Texts defines for the arguments.               *)
EXTENDS Texts, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
R == Recs[rec]
Expected == CASE R.a = "csc" -> Compressed(R.h, R.n, R.p, R.i, IF R.nox = 1 THEN <<>> ELSE R.x, FALSE)
            []   R.a = "csr" -> Compressed(R.h, R.n, R.p, R.i, IF R.nox = 1 THEN <<>> ELSE R.x, TRUE)
            []   R.a = "dense" -> DenseText(R.m, R.n, R.x)
            []   R.a = "levels" -> LevelsText(R.h, R.n, R.lp, R.i)
            []   R.a = "hlevels" -> HLevelsText(R.h, R.n, R.lp, R.pp, R.i)
            []   R.a = "vec" -> VecText(R.h, R.b, R.e, R.x, Short)
            []   R.a = "ivec" -> VecText(R.h, R.b, R.e, R.x, ToString)
            []   R.a = "save" -> SavedText(R.x)
            []   R.a = "names" -> Names
Why == IF R.st # "ok" THEN "call did not return: " \o R.st
       ELSE IF ~R.same THEN "the arguments changed"
       ELSE IF R.t # Expected THEN "text" ELSE ""
Init == rec \in DOMAIN Recs
Spec == Init /\ [][UNCHANGED rec]_rec
Conforms == Why = ""
Alias == [rec |-> rec, why |-> Why]
=================================================================================
