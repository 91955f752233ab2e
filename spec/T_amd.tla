-------------------------------- MODULE T_amd --------------------------------
(* Trace validation of the AMD ordering: the permutation and every statistic amd_order documents are judged against the  *)
(* pattern of A+A' and the factor of the permuted matrix by symbolic elimination; amd_valid, amd_preprocess and          *)
(* amd_postorder against their contracts.                                                                                *)
EXTENDS Ordering, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
R == Recs[rec]
Pairs(n, p, i) == TLCEval(UNION { { <<i[k], j>> : k \in (p[j+1] + 1) .. p[j+2] } : j \in Nodes(n) })
Bad(nr, n, p, i) == nr < 0 \/ n < 0 \/ p[1] # 0 \/ p[n+1] < 0 \/ (\E j \in Nodes(n) : p[j+1] > p[j+2])
                    \/ \E k \in 1 .. p[n+1] : i[k] < 0 \/ i[k] >= nr
Jumbled(n, p, i) == \E j \in Nodes(n) : \E k \in (p[j+1] + 1) .. (p[j+2] - 1) : i[k] >= i[k+1]
Status(nr, n, p, i, nul) == IF nul \in {1, 2} \/ Bad(nr, n, p, i) THEN -2 ELSE IF Jumbled(n, p, i) THEN 1 ELSE 0
Expected == IF R.nul # 0 \/ R.n < 0 THEN -2 ELSE IF R.n = 0 THEN 0 ELSE Status(R.n, R.n, R.p, R.i, 0)
I(k) == R.info[k+1]
Cap == IF R.nc = 1 THEN 20 ELSE R.al
Inform == R.ni = 0
OrderWhy ==
  LET n == R.n
      E == Pairs(n, R.p, R.i)
      D == { e \in E : e[1] = e[2] }
      O == E \ D
      N == Neighbours(n, O)
      dense == { v \in Nodes(n) : Dense(n, Cap, Cardinality(N[v])) }
      L == TLCEval(Filled(n, N, R.P))
      cnt(j) == Cardinality(L[j])
      lnz == SumSeq([j \in 1 .. n |-> cnt(j - 1)])
      lu  == SumSeq([j \in 1 .. n |-> cnt(j - 1) * cnt(j - 1)])
      ldl == SumSeq([j \in 1 .. n |-> (cnt(j - 1) * (cnt(j - 1) + 1)) \div 2])
      nd == Cardinality(dense)
  IN  IF ToSet(R.P) # Nodes(n) THEN "P is not a permutation"
      ELSE IF { R.P[k] : k \in (n - nd + 1) .. n } # dense THEN "the dense rows are not the last ones"
      ELSE IF Forest(n, N) /\ dense = {} /\ lnz * 2 # SumSeq([j \in 1 .. n |-> Cardinality(N[j-1])]) THEN "a forest gets fill-in"
      ELSE IF ~Inform THEN ""
      ELSE IF I(2) # Cardinality(E) THEN "Info NZ"
      ELSE IF I(4) # Cardinality(D) THEN "Info NZDIAG"
      ELSE IF I(3) # (IF O = {} THEN 1 ELSE Cardinality({ e \in O : <<e[2], e[1]>> \in O })) THEN "Info SYMMETRY"
      ELSE IF I(5) # Cardinality(O \cup { <<e[2], e[1]>> : e \in O }) THEN "Info NZ_A_PLUS_AT"
      ELSE IF I(6) # nd THEN "Info NDENSE"
      ELSE IF R.stat = 0 /\ I(7) # 4 * (I(5) + (I(5) \div 5) + 9 * n) THEN "Info MEMORY"
      ELSE IF I(8) < 0 THEN "Info NCMPA"
      ELSE IF I(9) < lnz THEN "Info LNZ is below the nonzeros of L"
      ELSE IF I(10) # I(9) THEN "Info NDIV"
      ELSE IF I(11) < ldl THEN "Info NMULTSUBS_LDL is below the operations"
      ELSE IF 2 * I(11) # I(12) + I(9) THEN "Info NMULTSUBS_LDL does not go with NMULTSUBS_LU"
      ELSE IF I(12) < lu THEN "Info NMULTSUBS_LU is below the operations"
      ELSE IF I(13) < 1 + MaxOr({ cnt(j) : j \in Nodes(n) }, 0) THEN "Info DMAX is below the largest column"
      ELSE IF nd = 0 /\ I(9) > (n * (n - 1)) \div 2 THEN "Info LNZ is above a full triangle"
      ELSE ""
AmdWhy ==
  IF R.stat # Expected THEN "status"
  ELSE IF ~R.same THEN "amd_order changed its inputs"
  ELSE IF ~R.dflt THEN "default Control"
  ELSE IF R.nul = 0 /\ R.n >= 0 /\ R.valid # Status(R.n, R.n, R.p, R.i, 0) THEN "amd_valid"
  ELSE IF Inform /\ I(0) # R.stat THEN "Info STATUS"
  ELSE IF Inform /\ I(1) # R.n THEN "Info N"
  ELSE IF ~Inform /\ ToSet(R.info) \ {-5} # {} /\ \E k \in DOMAIN R.info : k # 4 /\ R.info[k] # -5 THEN "harness"
  ELSE IF R.stat >= 0 /\ R.n > 0 THEN OrderWhy ELSE ""
PreWhy ==
  LET n == R.n  E == Pairs(n, R.p, R.i) IN
  IF ~R.same THEN "amd_preprocess changed its input"
  ELSE IF R.rp[1] # 0 \/ (\E j \in Nodes(n) : R.rp[j+1] > R.rp[j+2]) \/ Len(R.ri) # R.rp[n+1] THEN "column pointers of R"
  ELSE IF Jumbled(n, R.rp, R.ri) THEN "R is not sorted and free of duplicates"
  ELSE IF Pairs(n, R.rp, R.ri) # { <<e[2], e[1]>> : e \in E } THEN "R is not the transpose" ELSE ""
PostWhy ==
  LET n == Len(R.pa)
      els == { v \in Nodes(n) : R.nv[v+1] > 0 }
      par == TLCEval([v \in els |-> R.pa[v+1]])
      nth(k) == { v \in els : R.ord[v+1] = k }
      s == TLCEval([k \in 1 .. Cardinality(els) |-> IF nth(k - 1) = {} THEN -1 ELSE CHOOSE v \in nth(k - 1) : TRUE])
      kids(q) == { v \in els : par[v] = q }
  IN  IF ~R.same THEN "amd_postorder changed its input"
      ELSE IF \E v \in Nodes(n) \ els : R.ord[v+1] # -1 THEN "a node that is no element is ordered"
      ELSE IF { R.ord[v+1] : v \in els } # 0 .. (Cardinality(els) - 1) THEN "the elements are not numbered from 0"
      ELSE IF ~IsPostOrderOf(par, s) THEN "not a postorder of the assembly tree"
      ELSE IF \E q \in els : kids(q) # {} /\ LET l == CHOOSE v \in kids(q) : \A w \in kids(q) : R.ord[w+1] <= R.ord[v+1]
                                             IN  \E w \in kids(q) : R.fs[w+1] > R.fs[l+1] THEN "the largest child is not the last one"
      ELSE ""
Why == IF R.st # "ok" THEN "call did not return: " \o R.st
       ELSE CASE R.op = "amd" -> AmdWhy
            []   R.op = "amdvalid" -> (IF R.stat # Status(R.nr, R.n, R.p, R.i, R.nul) THEN "amd_valid" ELSE "")
            []   R.op = "amdpre" -> PreWhy
            []   R.op = "amdpost" -> PostWhy
            []   OTHER -> "unknown operation"
Init == rec \in DOMAIN Recs
Spec == Init /\ [][UNCHANGED rec]_rec
Conforms == Why = ""
Alias == [rec |-> rec, why |-> Why]
==============================================================================
