------------------------------- MODULE T_exec -------------------------------
(* Conformance of the executors that walk the schedules (triangular solves), of their statistics, and of the      *)
(* numeric and test helpers.  Values are halves of integers (recorded doubled), so every solve is exact.          *)
EXTENDS Graphs, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
R == Recs[rec]
If(c, m) == IF c THEN m ELSE ""
Has(f) == f \in DOMAIN R
RowDot(v) == SumSeq([k \in 1 .. (R.rp[v+2] - R.rp[v+1]) |-> R.rx[R.rp[v+1] + k] * R.sol[R.ri[R.rp[v+1] + k] + 1]])
(* a triangular system with a full diagonal has one solution: sol, checked here *)
IsSystem == \A v \in Nodes(R.n) : RowDot(v) = R.b[v+1] /\ R.ri[R.rp[v+2]] = v /\ R.rx[R.rp[v+2]] # 0
ExecV == IF ~R.wf THEN "schedule is not usable"
         ELSE IF ~IsSystem THEN "the case is not a triangular system with this solution"
         ELSE If(R.out # R.sol, "the executor does not solve the system")
RLen(v) == R.rp[v+2] - R.rp[v+1]
Occ(x, s) == Cardinality({ k \in DOMAIN s : s[k] = x })
(* what the incomplete Cholesky kernel touches: for column j and every entry m below the diagonal, the pairs of entries of
   column i[m] and of the tail of column j from m on *)
ColQ(j) == SubSeq(R.i, R.p[j+1] + 1, R.p[j+2])
IcPairs(j) == SumSeq([m \in 2 .. Len(ColQ(j)) |-> Len(ColQ(ColQ(j)[m])) * (Len(ColQ(j)) - m + 1)])
IcHits(j)  == SumSeq([m \in 2 .. Len(ColQ(j)) |-> SumSeq([q \in 1 .. (Len(ColQ(j)) - m + 1) |-> Occ(ColQ(j)[m + q - 1], ColQ(ColQ(j)[m]))])])
StatsV ==
  LET n == R.n  off == SumSeq([k \in 1 .. n |-> RLen(k - 1) - 1])
      row == <<2 * off + n, 3 * off + 2 * n, SumSeq([v \in 1 .. n |-> IF v > 1 /\ (v - 2) \in { R.ri[k] : k \in (R.rp[v] + 1) .. (R.rp[v+1] - 1) } THEN 1 ELSE 0])>>
      nnz == Len(R.i)
      pairs == SumSeq([k \in 1 .. n |-> IcPairs(k - 1)])  hits == SumSeq([k \in 1 .. n |-> IcHits(k - 1)])
  IN  CASE R.a = "row" -> If(R.out # row, "row statistics")
      []   R.a = "ic0" -> If(R.out # <<nnz + n + 2 * hits, nnz + pairs + 3 * hits, 0>>, "incomplete Cholesky statistics")
      []   OTHER -> If(\E l \in DOMAIN R.l : R.l[l] # 0, "a single thread has no imbalance")
UtilV ==
  CASE R.a = "eqc" -> If(R.r # (\A k \in DOMAIN R.x : R.x[k] = R.val), "comparison with a value")
  []   R.a = "eqv" -> If(R.r # (\A k \in (R.lb + 1) .. R.ub : R.x[k] = R.y[k] /\ R.nx # k - 1 /\ R.ny # k - 1), "comparison of vectors")
  []   R.a = "eqm" -> IF R.r /\ R.ma # R.mb /\ R.na = R.nb /\ R.pa = R.pb /\ R.ia = R.ib /\ R.xa = R.xb THEN "matrices of different height called equal" ELSE If(R.r # (R.ma = R.mb /\ R.na = R.nb /\ R.pa = R.pb /\ R.ia = R.ib /\ R.xa = R.xb), "comparison of matrices")
  []   R.a = "rhs" -> If(R.out # [k \in 1 .. R.n |-> SumSeq([q \in DOMAIN R.i |-> IF R.i[q] = k - 1 THEN R.x[q] ELSE 0])], "right-hand side of the all-ones solution")
  []   R.a = "rhsb" -> LET at(v, c) == SumSeq([q \in 1 .. (R.p[c+2] - R.p[c+1]) |-> IF R.i[R.lip[c+1] + q] = v THEN R.x[R.p[c+1] + q] ELSE 0])
                       IN  If(R.out # [k \in 1 .. R.n |-> SumSeq([c \in 1 .. R.n |-> at(k - 1, c - 1)])], "right-hand side of the all-ones solution (blocked)")
  []   R.a = "uniq" -> If(R.r # (ToSet(R.x) = Nodes(Len(R.x))), "test for a permutation")
  []   R.a = "rvec" -> If(Len(R.out) # R.m \/ ~Distinct(R.out) \/ ~InRange(R.out, 0, R.n - 1) \/ ~R.rep, "distinct random numbers, repeatable for a seed")
  []   R.a = "rmat" -> LET per == Min({R.n, (R.den * R.n) \div 100 + 1}) IN
                       IF R.om # R.n \/ R.on # R.n \/ R.ocp # [k \in 1 .. (R.n + 1) |-> (k - 1) * per] \/ R.onnz # R.n * per THEN "random matrix dimensions"
                       ELSE If(~R.in \/ \E j \in Nodes(R.n) : LET col == SubSeq(R.oi, R.ocp[j+1] + 1, R.ocp[j+2]) IN j \notin ToSet(col) \/ ~InRange(col, 0, R.n - 1) \/ \E k \in 1 .. (Len(col) - 1) : col[k] >= col[k+1], "random matrix columns")
  []   R.a = "med" -> If(IF R.x = <<>> THEN R.r # -1 ELSE R.r # SortSeq(R.x, LAMBDA x, y : x < y)[Len(R.x) \div 2 + 1], "median")
  []   R.a = "sum" -> If(R.r # SumSeq(R.x), "sum")
  []   R.a = "mul" -> LET fits == R.sh = 0 \/ R.x * R.y < R.cap IN If(R.ok # (IF R.ok0 # 0 /\ fits THEN 1 ELSE 0) \/ R.r # (IF R.ok = 1 THEN R.x * R.y ELSE 0), "checked product")
  []   R.a = "add" -> LET fits == R.sh = 0 \/ R.x + R.y < R.cap IN If(R.ok # (IF R.ok0 # 0 /\ fits THEN 1 ELSE 0) \/ R.r # (IF R.ok = 1 THEN R.x + R.y ELSE 0), "checked sum")
  []   R.a = "name" -> If(R.r # R.want, "file name without path and extension")
Why == IF R.st # "ok" THEN "call did not return: " \o R.st
       ELSE IF Has("same") /\ ~R.same THEN "input was modified"
       ELSE CASE R.op = "exec" -> ExecV [] R.op = "stats" -> StatsV [] R.op = "util" -> UtilV
Init == rec \in DOMAIN Recs
Next == FALSE /\ UNCHANGED rec
Spec == Init /\ [][Next]_rec
Conforms == Why = ""
Alias == [rec |-> rec, why |-> Why]
=============================================================================
