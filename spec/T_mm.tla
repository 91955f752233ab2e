--------------------------------- MODULE T_mm ---------------------------------
(* Trace validation of the Matrix Market primitives against MatrixMarket: status, sizes, entries, type codes, text         *)
(* written, and that no file stays open.  a: 0 mm_read_mtx_crd, 1 mm_read_unsymmetric_sparse, 2 piecewise by entry,         *)
(* 3 array sizes, 4 piecewise with the data in one call.                                                                    *)
EXTENDS MatrixMarket, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
R == Recs[rec]
NE == Len(R.e) \div 4
E(k) == SubSeq(R.e, 4 * k - 3, 4 * k)
NSz == IF R.a = 3 THEN 2 ELSE 3
Keep == IF "keep" \in DOMAIN R THEN R.keep ELSE Len(R.sz) + NE * PerEntry(R.ty)
Sized == R.junk = 0 /\ Keep >= NSz
Refused == IF R.none = 1 THEN NoFile
           ELSE IF Banner(R.bn, R.ty, R.cut0 = 1) # OK THEN Banner(R.bn, R.ty, R.cut0 = 1)
           ELSE IF R.a = 0 /\ (R.ty[1] # 0 \/ ~Valid(R.ty)) THEN Unsupported
           ELSE IF R.a = 1 /\ (R.ty[1] # 0 \/ R.ty[2] # 0) THEN Unsupported
           ELSE IF ~Sized THEN Short
           ELSE IF R.a # 3 /\ Keep < Len(R.sz) + NE * PerEntry(R.ty) THEN Short ELSE OK
Val(k) == LET x == IF R.ty[2] = 3 THEN 4 * (E(k)[3] \div 4) ELSE E(k)[3] IN x
OffBy == IF R.a = 1 THEN 1 ELSE 0
Entries ==
  /\ R.I = [k \in 1 .. NE |-> E(k)[1] - OffBy] /\ R.J = [k \in 1 .. NE |-> E(k)[2] - OffBy]
  /\ CASE R.ty[2] = 2 /\ R.a \in {0, 1} -> R.V = <<>>
     []   R.ty[2] = 2 -> TRUE
     []   R.ty[2] = 1 -> R.V = [k \in 1 .. (2 * NE) |-> E((k + 1) \div 2)[IF k % 2 = 1 THEN 3 ELSE 4]]
     []   R.a = 2 -> \A k \in 1 .. NE : R.V[2 * k - 1] = Val(k)
     []   OTHER -> \A k \in 1 .. NE : R.V[k] = Val(k)
ReadWhy ==
  IF R.fds # 0 THEN "a file stays open"
  ELSE IF R.a = 1 /\ (Refused = OK) # (R.ret = 0) THEN "accepted or refused wrongly"
  ELSE IF R.a = 1 /\ R.ret \notin {0, -1} THEN "status"
  ELSE IF R.a # 1 /\ R.none = 0 /\ (\E k \in 1 .. 5 : R.bn[k] = 3) /\ R.cut0 = 0 THEN (IF R.ret \in {Short, NoHeader, Unsupported} THEN "" ELSE "a banner with an overlong word is accepted")
  ELSE IF R.a # 1 /\ R.ret # Refused THEN "status " \o ToString(R.ret) \o " for " \o ToString(Refused)
  ELSE IF R.ret # 0 THEN ""
  ELSE IF R.a # 1 /\ R.tc # Letters(R.ty) THEN "type code"
  ELSE IF R.a # 1 /\ R.words # Words(R.ty) THEN "words of the type code"
  ELSE IF R.a # 1 /\ (R.valid = 1) # Valid(R.ty) THEN "mm_is_valid"
  ELSE IF R.M # R.sz[1] \/ R.N # R.sz[2] \/ (R.a # 3 /\ R.nz # R.sz[3]) THEN "sizes"
  ELSE IF R.a # 3 /\ ~Entries THEN "entries" ELSE ""
Written(k) == LET e == E(k) IN
  CASE R.ty[2] = 2 -> <<e[1], e[2]>> [] R.ty[2] = 1 -> e [] R.ty[2] = 3 -> <<e[1], e[2], Val(k)>> [] OTHER -> <<e[1], e[2], e[3]>>
WriteWhy ==
  IF R.fds # 0 THEN "a file stays open"
  ELSE IF ~R.same THEN "the arrays changed"
  ELSE IF \E k \in DOMAIN R.ret : R.ret[k] # 0 THEN "a written text is reported as not written"
  ELSE IF R.first # "%%MatrixMarket " \o Words(R.ty) THEN "banner written"
  ELSE IF R.a # 0 THEN (IF R.rows # << SubSeq(R.sz, 1, IF R.a = 1 THEN 3 ELSE 2) >> THEN "size line written" ELSE "")
  ELSE IF ~R.back THEN "a value written does not read back"
  ELSE IF Len(R.rows) # NE + 1 \/ R.rows[1] # <<R.sz[1], R.sz[2], NE>> THEN "size line or number of lines"
  ELSE IF \E k \in 1 .. NE : IF R.bits = 1 THEN SubSeq(R.rows[k+1], 1, 2) # SubSeq(E(k), 1, 2) ELSE R.rows[k+1] # Written(k) THEN "entry written" ELSE ""
Why == IF R.st # "ok" THEN "call did not return: " \o R.st
       ELSE CASE R.op = "mmread" -> ReadWhy [] R.op = "mmwrite" -> WriteWhy
            [] R.op = "mmfull" -> (IF R.ret # <<NotWritten, NotWritten, NotWritten>> THEN "a text that cannot be written is reported as written" ELSE "")
            [] OTHER -> "unknown operation"
Init == rec \in DOMAIN Recs
Spec == Init /\ [][UNCHANGED rec]_rec
Conforms == Why = ""
Alias == [rec |-> rec, why |-> Why]
===============================================================================
