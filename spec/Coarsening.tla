------------------------------ MODULE Coarsening ------------------------------
(* Which wavefronts become one coarsened level.  A schedule S coarsens graph G when every level of S is a run of          *)
(* consecutive wavefronts of G; the cuts between runs are what the balance parameters ask for.                            *)
EXTENDS Balance
Fronts(G) == LET d == TLCEval(Depths(G))  h == MaxOr({ d[v] : v \in DOMAIN G }, -1) + 1
             IN  TLCEval([l \in 1 .. h |-> { v \in DOMAIN G : d[v] = l - 1 }])
Members(L) == UNION { ToSet(L[k]) : k \in DOMAIN L }
(* cuts: 0 = first wavefront of the first run, ..., the number of wavefronts; <<>> if S is not made of runs               *)
RECURSIVE RunsFrom(_, _, _, _)
RunsFrom(F, S, l, acc) ==
  IF l > Len(S) THEN (IF acc[Len(acc)] = Len(F) THEN acc ELSE <<>>)
  ELSE LET M == Members(S[l])  at == acc[Len(acc)]
           ends == { e \in (at + 1) .. Len(F) : UNION { F[k] : k \in (at + 1) .. e } = M }
       IN  IF ends = {} THEN <<>> ELSE RunsFrom(F, S, l + 1, Append(acc, Min(ends)))
Cuts(F, S) == RunsFrom(F, S, 1, <<0>>)
Widths(F) == [l \in DOMAIN F |-> Cardinality(F[l])]

(* Graphs: a first cut after ml wavefronts, then one every dr wavefronts, none above the last wavefront wider than one    *)
RECURSIVE Every(_, _, _, _)
Every(t, dr, top, acc) == IF t < top THEN Every(t + dr, dr, top, Append(acc, t)) ELSE acc
StepCuts(w, ml, dr) ==
  LET h == Len(w)  top == MaxOr({ l \in DOMAIN w : w[l] # 1 }, 0)
  IN  IF h <= ml THEN <<0, h>>
      ELSE Every(ml + dr, dr, top, IF ml > 0 THEN <<0, ml>> ELSE <<0>>) \o <<h>>

(* Trees and blocked graphs: for as many parts as asked for, then 1/dr of that and so on, a cut ml wavefronts below the   *)
(* last wavefront that has more members than that                                                                         *)
RECURSIVE Thin(_, _, _, _, _)
Thin(w, ml, dr, q, acc) ==
  IF q <= 1 THEN acc
  ELSE LET t == MaxOr({ l \in DOMAIN w : w[l] > q }, 0) - ml
       IN  Thin(w, ml, dr, q \div dr, IF t > acc[Len(acc)] /\ t < Len(w) THEN Append(acc, t) ELSE acc)
ThinCuts(w, ml, dr, ip) == IF Len(w) <= 2 THEN <<0, Len(w)>> ELSE Thin(w, ml, dr, ip, <<0>>) \o <<Len(w)>>

(* Load-driven merging (HDAGG, GLC) on P cores.  busy: how many cores the run [b, e) can keep busy                        *)
Busy(w, b, e, P) == LET f == Min({w[b+1], P}) IN IF \E l \in (b + 1) .. e : w[l] > f THEN P ELSE f
Union(F, b, e)   == UNION { F[l] : l \in (b + 1) .. e }
Loads(G, W, F, b, e) == LET Cs == Components(G, Union(F, b, e)) IN TLCEval([C \in Cs |-> Load(W, C)])
(* every core that can be busy has work in every prefix of a run of two or more wavefronts *)
KeepsBusy(G, F, c, P) == \A k \in 1 .. (Len(c) - 1) : c[k+1] - c[k] >= 2 =>
   \A e \in (c[k] + 2) .. c[k+1] : Cardinality(Components(G, Union(F, c[k], e))) >= Busy(Widths(F), c[k], e, P)
(* the loads of a merged run are near even: divergence below 0.003, so by Pinsker's inequality less than 1/15 in total    *)
NearEven(W, w, S, c, P) == \A k \in 1 .. (Len(c) - 1) : c[k+1] - c[k] >= 2 =>
   LET m == Busy(w, c[k], c[k+1], P)
       ld == TLCEval([j \in DOMAIN S[k] |-> Load(W, ToSet(S[k][j]))])
       tot == SumSeq(ld)
       off(j) == LET x == m * ld[j] - tot IN IF x < 0 THEN -x ELSE x
   IN  Len(ld) >= m /\ 15 * SumSeq([j \in 1 .. m |-> off(j)]) <= m * tot
(* a run goes on as long as the loads stay (nearly) even: with one core, with as many equal components as cores that can   *)
(* be busy, or with fewer components than cores while the divergence (at most chi-square / ln 2; in millionths) adds up   *)
(* to less than 0.003                                                                                                     *)
Uneven(G, W, F, b, e, P) ==
  IF P = 1 THEN 0
  ELSE LET L == Loads(G, W, F, b, e)  m == Busy(Widths(F), b, e, P)
           tot == SumF(L, DOMAIN L)
           sq == FoldSet(LAMBDA C, acc : acc + (m * L[C] - tot) * (m * L[C] - tot), 0, DOMAIN L)
       IN  IF Cardinality(DOMAIN L) # m THEN 1000000
           ELSE IF sq = 0 THEN 0
           ELSE IF m = P \/ tot > 10000 \/ sq > 2000 THEN 1000000
           ELSE (1000000 * sq) \div (m * tot * tot) + 1
RECURSIVE UnevenSum(_, _, _, _, _, _)
UnevenSum(G, W, F, b, e, P) == IF e = b THEN 0 ELSE LET x == UnevenSum(G, W, F, b, e - 1, P) IN IF x >= 1000000 THEN x ELSE x + Uneven(G, W, F, b, e, P)
GoesOn(G, W, F, c, P) == \A k \in 1 .. (Len(c) - 1) : c[k+1] < Len(F) => UnevenSum(G, W, F, c[k], c[k+1] + 1, P) > 2000
(* The parallel coarsened level: the denser the graph, the more wavefronts become one; sparse graphs are not coarsened.    *)
(* e: entries of the matrix, n: its columns.  Parts of merged wavefronts are the components                               *)
Factor(n, e) == IF e \div n < 10 THEN 1 ELSE IF e \div n < 100 THEN 6 ELSE 9
DensityCuts(h, f) == [k \in 1 .. ((h + f - 1) \div f) + 1 |-> Min({(k - 1) * f, h})]
NotPacked(G, F, c, f, S) == \A k \in DOMAIN S :
   f = 1 \/ { ToSet(S[k][j]) : j \in { j \in DOMAIN S[k] : S[k][j] # <<>> } } = Components(G, Union(F, c[k], c[k+1]))
CutWhy(R, G, W, S) ==
  LET F == Fronts(G)  w == Widths(F)  c == TLCEval(Cuts(F, S))
  IN  IF c = <<>> THEN "a coarsened level is not a run of consecutive wavefronts"
      ELSE CASE R.cut = "step" -> IF c # StepCuts(w, R.ml, R.dr) THEN "the wavefronts are not cut where the parameters ask" ELSE ""
           []   R.cut = "thin" -> IF c # ThinCuts(w, R.ml, R.dr, R.ip) THEN "the wavefronts are not cut where the parameters ask" ELSE ""
           []   R.cut = "density" ->
                LET f == Factor(R.n, Len(R.i))
                IN  IF c # DensityCuts(Len(F), f) THEN "the wavefronts are not cut where the density asks"
                    ELSE IF ~NotPacked(G, F, c, f, S) THEN "parts are not the components of the level" ELSE ""
           []   OTHER -> IF ~KeepsBusy(G, F, c, R.co) THEN "wavefronts are merged although that leaves a core without work"
                         ELSE IF R.bp = 1 /\ ~NearEven(W, w, S, c, R.co) THEN "merged wavefronts are not balanced"
                         ELSE IF ~GoesOn(G, W, F, c, R.co) THEN "wavefronts are not merged although the loads stay even"
                         ELSE ""
===============================================================================
