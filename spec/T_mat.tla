-------------------------------- MODULE T_mat --------------------------------
(* Conformance of the sparse-matrix, tree, factor, merge and text-IO utilities: one record per call.                *)
EXTENDS Matrices, ETree, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
R == Recs[rec]
If(c, m) == IF c THEN m ELSE ""
Has(f) == f \in DOMAIN R
AscendS(s) == \A k \in 1 .. (Len(s) - 1) : s[k] < s[k+1]
(* entries of an input with nm major vectors: <<minor, major, doubled value>> *)
EntIn(p, i, x, nm) == UNION { { <<i[q], j, IF x = <<>> THEN 0 ELSE 2 * x[q]>> : q \in (p[j+1] + 1) .. p[j+2] } : j \in Nodes(nm) }
XIn == IF Has("x") THEN R.x ELSE <<>>
EntOut(oi, ox, num) == UNION { { <<oi[j][q], j - 1, IF num THEN ox[j][q] ELSE 0>> : q \in DOMAIN oi[j] } : j \in DOMAIN oi }
Total(oi) == SumSeq([j \in DOMAIN oi |-> Len(oi[j])])
OutIs(want, nm, ascending) ==
  IF ~R.owf \/ Len(R.oi) # nm THEN "result pointers are not monotone / not within their arrays"
  ELSE LET got == EntOut(R.oi, IF R.onum THEN R.ox ELSE <<>>, R.onum)
       IN  IF got # want THEN "result entries differ from the specification"
           ELSE IF Total(R.oi) # Cardinality(want) THEN "an entry is stored twice"
           ELSE IF ascending /\ \E j \in DOMAIN R.oi : ~AscendS(R.oi[j]) THEN "entries of a row or column are not ascending" ELSE ""
Dims(m, n, z) == If(R.om # m \/ R.on # n \/ (z >= 0 /\ R.onnz # z), "result dimensions")
Two(a, b) == IF a # "" THEN a ELSE b
Pairs(cols) == UNION { { <<cols[j][q], j - 1>> : q \in DOMAIN cols[j] } : j \in DOMAIN cols }
E == EntIn(R.p, R.i, XIn, R.n)                  \* column form: <<row, column, value>>
ERow == EntIn(R.p, R.i, XIn, R.m)               \* row form: <<column, row, value>>
NNZ == Cardinality(E)
MatV ==
  IF Has("null") /\ R.null THEN (IF R.a = "tsym" /\ (R.stype = 0 \/ (Has("perm") /\ ~IsPermSeq(R.perm))) THEN "" ELSE "no result")
  ELSE CASE R.a = "csc2csr"  -> Two(Dims(R.m, R.n, NNZ), OutIs(Swap(E), R.m, TRUE))
       []   R.a = "csc2csra" -> OutIs(Swap(E), R.m, TRUE)
       []   R.a = "csr2csca" -> OutIs(Swap(ERow), R.n, TRUE)
       []   R.a = "csr2csc"  -> Two(Dims(R.m, R.n, Cardinality(ERow)), OutIs(Swap(ERow), R.n, TRUE))
       []   R.a = "transpose" -> Two(Dims(R.n, R.m, NNZ), OutIs(Swap(E), R.m, TRUE))
       []   R.a = "halfl"    -> Two(If(R.ostype # -1, "stored half"), Two(Dims(R.n, R.n, Cardinality(LowerHalf(E))), OutIs(LowerHalf(E), R.n, FALSE)))
       []   R.a = "halfu"    -> Two(If(R.ostype # 1, "stored half"), Two(Dims(R.n, R.n, Cardinality(UpperHalf(E))), OutIs(UpperHalf(E), R.n, FALSE)))
       []   R.a = "full"     -> Two(Dims(R.n, R.n, Cardinality(FullOf(E))), OutIs(FullOf(E), R.n, TRUE))
       []   R.a = "tsym"     -> IF R.stype = 0 \/ (Has("perm") /\ ~IsPermSeq(R.perm)) THEN "accepted what is not a permutation of a symmetric matrix"
                                ELSE LET pinv == IF Has("perm") THEN InvSeq(R.perm) ELSE [v \in Nodes(R.n) |-> v]
                                     IN  Two(If(R.ostype # -R.stype, "stored half"), Two(Dims(R.n, R.n, NNZ), OutIs(Renumber(E, pinv, R.stype < 0), R.n, ~Has("perm"))))
       []   R.a \in {"msyml", "msymu"} -> LET lower == R.a = "msyml" IN
                                Two(If(R.ostype # (IF lower THEN -1 ELSE 1), "stored half"),
                                    IF R.stype = 0 THEN OutIs(Symmetrised(E, lower), R.n, TRUE)
                                    ELSE IF (R.stype < 0) = lower THEN OutIs(E, R.n, FALSE) ELSE OutIs(Swap(E), R.n, TRUE))
       []   R.a = "copy"     -> Two(If(~R.fresh, "copy shares storage"), Two(If(R.ostype # R.stype, "stored half"), Two(Dims(R.m, R.n, NNZ), OutIs(E, R.n, FALSE))))
       []   R.a = "copyfrom" -> OutIs(E, R.n, FALSE)
       []   R.a = "copyfromr" -> OutIs(ERow, R.m, FALSE)
       []   R.a = "coarsen"  -> LET nn == (R.n + R.k - 1) \div R.k  want == Coarsened(E, R.k) IN
                                Two(Dims(nn, nn, Cardinality(want)), IF ~R.owf \/ Len(R.oi) # nn THEN "result pointers" ELSE
                                    IF Pairs(R.oi) # want \/ Total(R.oi) # Cardinality(want) THEN "coarsened pattern" ELSE If(R.ostype # R.stype, "stored half"))
       []   R.a = "dense"    -> If({ <<(k-1) % R.m, (k-1) \div R.m, R.d[k]>> : k \in { k \in DOMAIN R.d : R.d[k] # 0 } } # { e \in (IF R.stype = 0 THEN E ELSE FullOf(E)) : e[3] # 0 } \/ Len(R.d) # R.m * R.n, "dense image")
       []   R.a = "todense"  -> LET want == { e \in E : e[3] # 0 } IN Two(Dims(R.m, R.n, Cardinality(want)), OutIs(want, R.n, TRUE))
       []   R.a = "onebased" -> If(R.om # R.m \/ R.on # R.n \/ R.optr # <<0>> \o R.p \/ R.oi # [k \in DOMAIN R.i |-> R.i[k] + 1] \/ (Has("x") /\ R.ox # [k \in DOMAIN R.x |-> 2 * R.x[k]]), "one-based form")
       []   R.a = "facts"    -> IF R.empty # Cardinality({ j \in Nodes(R.n) : R.p[j+1] = R.p[j+2] }) THEN "empty columns"
                                ELSE IF R.cnt # [j \in 1 .. R.n |-> R.p[j+1] - R.p[j]] THEN "entries per column"
                                ELSE IF R.diagok = 1 /\ \E j \in Nodes(R.n) : R.dg[j+1] < R.p[j+1] \/ R.dg[j+1] >= R.p[j+2] \/ R.i[R.dg[j+1] + 1] # j THEN "diagonal positions"
                                ELSE If(R.diagok = 1 /\ R.vd # (\A j \in Nodes(R.n) : R.i[R.p[j+1] + 1] = j), "diagonal test")
       []   R.a = "tridiag"  -> LET want == { <<j, j, 2 * R.a1>> : j \in Nodes(R.n) } \cup { <<j - 1, j, 2 * R.a0>> : j \in 1 .. (R.n - 1) } \cup { <<j + 1, j, 2 * R.a2>> : j \in 0 .. (R.n - 2) }
                                IN  Two(Dims(R.n, R.n, Cardinality(want)), OutIs(want, R.n, TRUE))
       []   R.a = "diag"     -> Two(Dims(R.n, R.n, R.n), OutIs({ <<j, j, 2 * R.a1>> : j \in Nodes(R.n) }, R.n, TRUE))
PermV == LET v == [k \in 1 .. Len(R.perm) |-> InvSeq(R.perm)[k-1]] IN
         IF R.inv # v \/ R.inv2 # v THEN "inverse permutation" ELSE If(R.re # [k \in DOMAIN R.perm |-> R.arr[R.perm[k] + 1]], "reordered array")
Abs(v) == IF v < 0 THEN -v ELSE v
VecsV == LET seg == (R.lb + 1) .. R.ub IN
         IF R.res # 2 * MaxOr({ Abs(R.x[k] - R.y[k]) : k \in seg }, 0) THEN "residual"
         ELSE IF R.norm # 2 * MaxOr({ Abs(R.x[k]) : k \in DOMAIN R.x }, 0) THEN "norm"
         ELSE If(R.z # [k \in DOMAIN R.x |-> IF k \in seg THEN R.x[k] ELSE -7], "copied range")
(* ---- merged graphs: k copies, then node j of copy g precedes node j of copy g+1 (or the given dependences) ---- *)
Cols(p, i, j) == { i[q] : q \in (p[j+1] + 1) .. p[j+2] }
MergeWant == LET g(v) == v \div R.n  j(v) == v % R.n
             IN  [v \in Nodes(R.n * R.k) |-> { w + g(v) * R.n : w \in Cols(R.gp[g(v)+1], R.gi[g(v)+1], j(v)) }
                     \cup (IF g(v) = R.k - 1 THEN {} ELSE IF R.a = "dags" THEN { w + (g(v)+1) * R.n : w \in Cols(R.dgp[g(v)+1], R.dgi[g(v)+1], j(v)) } ELSE { v + R.n })]
MergeV == IF ~R.owf \/ Len(R.oi) # R.n * R.k THEN "merged pointers"
          ELSE LET W == MergeWant IN IF \E v \in Nodes(R.n * R.k) : ToSet(R.oi[v+1]) # W[v] \/ Len(R.oi[v+1]) # Cardinality(W[v]) THEN "merged graph edges"
          ELSE If(Has("onnz") /\ (R.onnz # Total(R.oi) \/ R.on # R.n * R.k \/ R.om # R.n * R.k), "merged dimensions")
(* ---- blocked format ---- *)
BcscV ==
  LET nb == R.nodes IN
  IF Len(R.sup) # nb + 1 \/ R.sup[1] # 0 \/ R.sup[nb+1] # R.n \/ \E b \in 1 .. nb : R.sup[b] >= R.sup[b+1] THEN "blocks do not cover the columns"
  ELSE IF Has("supin") /\ R.supin = 1 /\ R.sup # R.given THEN "blocks differ from the given ones"
  ELSE IF Has("supin") /\ R.supin = 0 /\ \E b \in 1 .. nb : \E c \in (R.sup[b] + 1) .. (R.sup[b+1] - 1) :
             Cols(R.p, R.i, c) # Cols(R.p, R.i, R.sup[b]) \ (R.sup[b] .. (c - 1)) THEN "columns of one block have different patterns"
  ELSE LET rws == TLCEval([b \in Nodes(nb) |-> UNION { Cols(R.p, R.i, c) : c \in R.sup[b+1] .. (R.sup[b+2] - 1) }])
           rows(b) == rws[b]
           srt == TLCEval([b \in Nodes(nb) |-> SetToSortSeq(rws[b], LAMBDA x, y : x < y)])
           at(r, c) == LET K == { k \in (R.p[c+1] + 1) .. R.p[c+2] : R.i[k] = r } IN IF K = {} THEN 0 ELSE 2 * R.x[CHOOSE k \in K : TRUE]
           w(b) == R.sup[b+2] - R.sup[b+1]  nr(b) == Cardinality(rows(b))
           seg(b, c) == SubSeq(R.bi, R.bp[b+1] + c * nr(b) + 1, R.bp[b+1] + (c+1) * nr(b))
           val(b, c) == SubSeq(R.bx, R.bp[b+1] + c * nr(b) + 1, R.bp[b+1] + (c+1) * nr(b))
           sorted(b) == srt[b]
       IN  IF R.bp[1] # 0 \/ \E b \in Nodes(nb) : R.bp[b+2] - R.bp[b+1] # w(b) * nr(b) THEN "block sizes"
           ELSE IF R.bnnz # R.bp[nb+1] \/ R.nrows # [b \in 1 .. nb |-> nr(b-1)] THEN "block row counts"
           ELSE IF \E b \in Nodes(nb) : \E c \in 0 .. (w(b) - 1) : seg(b, c) # sorted(b) THEN "block rows"
           ELSE IF \E b \in Nodes(nb) : \E c \in 0 .. (w(b) - 1) : val(b, c) # [k \in DOMAIN sorted(b) |-> at(sorted(b)[k], R.sup[b+1] + c)] THEN "block values"
           ELSE If(R.comp = 1 /\ (~R.qwf \/ R.qn # nb \/ \E b \in Nodes(nb) : ToSet(R.qi[b+1]) # { BlockOf(R.sup, v) : v \in rows(b) } \/ ~Distinct(R.qi[b+1])), "block graph")
(* ---- fused block graph: three copies of the blocks: first solve, product, second solve ---- *)
(* for every block of columns, the blocks its rows are in *)
BEdges(p, i, sup) == LET blk == TLCEval([v \in Nodes(sup[Len(sup)]) |-> BlockOf(sup, v)])
                     IN  TLCEval([b \in Nodes(Len(sup) - 1) |-> { blk[v] : v \in UNION { Cols(p, i, c) : c \in sup[b+1] .. (sup[b+2] - 1) } }])
FuseV ==
  LET nb == Len(R.sup) - 1
      EA == BEdges(R.pa, R.ia, R.sup)  EB == BEdges(R.pb, R.ib, R.sup)  EC == BEdges(R.pc, R.ic, R.sup)
  IN  IF R.a = "graph" THEN
        LET want == [v \in Nodes(3 * nb) |-> IF v < nb THEN EA[v] \cup { v + nb }
                        ELSE IF v < 2 * nb THEN { v } \cup { w + 2 * nb : w \in EB[v - nb] }
                        ELSE { w + 2 * nb : w \in EC[v - 2 * nb] }]
        IN  If(~R.owf \/ R.on # 3 * nb \/ \E v \in Nodes(3 * nb) : ToSet(R.oi[v+1]) # want[v] \/ ~Distinct(R.oi[v+1]), "fused block graph edges")
      ELSE
        LET G == TLCEval([v \in Nodes(2 * nb) |-> IF v < nb THEN (EA[v] \ {v}) \cup { w + nb : w \in EB[v] }
                                          ELSE { w + nb : w \in EC[v - nb] } \ {v}])
            d == TLCEval(Depths(G))
            id(s) == IF \E b \in 1 .. nb : R.sup[b] = s % R.na THEN (CHOOSE b \in 1 .. nb : R.sup[b] = s % R.na) - 1 + nb * (s \div R.na) ELSE -1
        IN  IF R.rv < 0 \/ Len(R.lp) # R.rv + 1 \/ Len(R.ls) # 2 * nb \/ R.lp[1] # 0 \/ R.lp[R.rv+1] # 2 * nb \/ \E l \in 1 .. R.rv : R.lp[l] >= R.lp[l+1] THEN "level pointers"
            ELSE If({ id(R.ls[k]) : k \in DOMAIN R.ls } # Nodes(2 * nb) \/ \E l \in 1 .. R.rv : \E k \in (R.lp[l] + 1) .. R.lp[l+1] : d[id(R.ls[k])] # l - 1, "fused levels are not the wavefronts of the fused graph")
(* the recurrence has one solution, as the graph is acyclic *)
DepthV == If(Len(R.depth) # R.n \/ \E v \in Nodes(R.n) : R.depth[v+1] # MaxOr({ R.depth[w+1] + 1 : w \in Cols(R.p, R.i, v) \ {v} }, 0), "depth is not the longest path to a sink")
(* ---- elimination trees and factors ---- *)
AtA(n, EE) == LET rowsof == FoldSet(LAMBDA e, acc : TLCEval([acc EXCEPT ![e[1]] = @ \cup {e[2]}]), TLCEval([r \in { e[1] : e \in EE } |-> {}]), EE)
              IN  [v \in Nodes(n) |-> { u \in UNION { rowsof[r] : r \in { r \in DOMAIN rowsof : v \in rowsof[r] } } : u < v }]
EtreeV == IF R.stype < 0 THEN If(R.rv # 0, "lower half must be refused")
          ELSE LET rows == IF R.stype > 0 THEN [v \in Nodes(R.n) |-> { u \in Cols(R.p, R.i, v) : u < v }] ELSE AtA(R.n, E)
                   par == TLCEval(EtreeOfRows(R.n, rows))
               IN  If(R.rv # 1 \/ R.parent # [k \in 1 .. R.n |-> par[k-1]], "parent vector is not the elimination tree")
Seq0(n, f) == [k \in 1 .. n |-> f[k-1]]
FactorV ==
  LET n == R.nu
      rows == TLCEval([v \in Nodes(n) |-> { u \in Cols(R.pu, R.iu, v) : u < v }])
      L    == TLCEval(FactorCols(n, rows))
      par  == TLCEval([v \in Nodes(n) |-> IF L[v] = {} THEN -1 ELSE Min(L[v])])
      lrow == TLCEval([v \in Nodes(n) |-> { u \in Nodes(n) : v \in L[u] }])
      clen(v) == R.pu[v+2] - R.pu[v+1]
  IN  IF R.rv # 1 \/ R.parent # Seq0(n, par) THEN "parent vector is not the elimination tree"
      ELSE IF R.pn # n \/ ~IsPostOrder(par, R.post) THEN "not a postorder of the tree"
      ELSE IF ~R.ok \/ R.cc # Seq0(n, [v \in Nodes(n) |-> 1 + Cardinality(L[v])]) THEN "column counts"
      ELSE IF R.rc # Seq0(n, [v \in Nodes(n) |-> 1 + Cardinality(lrow[v])]) THEN "row counts"
      ELSE IF Len(R.level) # n \/ \E v \in Nodes(n) : R.level[v+1] # (IF par[v] = -1 THEN 0 ELSE R.level[par[v]+1] + 1) THEN "tree levels"
      ELSE IF R.fl # SumSeq([k \in 1 .. n |-> (1 + Cardinality(L[k-1])) * (1 + Cardinality(L[k-1]))]) THEN "operation count"
      ELSE IF ~R.clean THEN "marks not restored"
      ELSE IF \E k \in Nodes(n) : ~Distinct(R.reach[k+1]) \/ ToSet(R.reach[k+1]) # lrow[k] THEN "row pattern of the factor"
      ELSE IF \E k \in Nodes(n) : \E a, b \in DOMAIN R.reach[k+1] : par[R.reach[k+1][a]] = R.reach[k+1][b] /\ a > b THEN "row pattern is not in topological order"
      ELSE IF R.accd # Seq0(n, [v \in Nodes(n) |-> clen(v) + SumF([u \in lrow[v] |-> clen(u)], lrow[v])]) THEN "accessed entries per row"
      ELSE IF ~R.fwf \/ Len(R.fi) # n \/ \E v \in Nodes(n) : R.fi[v+1] # SetToSortSeq(L[v] \cup {v}, LAMBDA x, y : x < y) THEN "factor pattern"
      ELSE IF R.fnnz # SumSeq(R.cc) THEN "factor size"
      ELSE IF R.pn2 # n \/ ~IsPostOrder(par, R.post2) THEN "not a postorder of the tree (weighted)"
      ELSE If(\E a, b \in DOMAIN R.post2 : a < b /\ par[R.post2[a]] = par[R.post2[b]] /\ par[R.post2[a]] # -1 /\
                 (LET x == R.cc[R.post2[a] + 1]  y == R.cc[R.post2[b] + 1]  cap(z) == IF z > n - 1 THEN n - 1 ELSE z IN cap(x) > cap(y)), "children are not visited lightest first")
LFactorV == (* p, i: lower half with diagonal *)
  LET n == R.n IN
  IF ~IsPermSeq(R.perm) \/ Len(R.perm) # n \/ Len(R.post) # n \/ ~IsPermSeq(R.post) THEN "not a permutation"
  ELSE LET pinv == InvSeq(R.perm)
           low  == TLCEval(Renumber(E, pinv, FALSE))
           rows == TLCEval([v \in Nodes(n) |-> { e[2] : e \in { e \in low : e[1] = v /\ e[2] < v } }])
           L    == TLCEval(FactorCols(n, rows))
           par  == TLCEval([v \in Nodes(n) |-> IF L[v] = {} THEN -1 ELSE Min(L[v])])
       IN  IF R.iperm # Seq0(n, pinv) \/ R.ipost # Seq0(n, InvSeq(R.post)) THEN "inverse permutation"
           ELSE IF R.parent # Seq0(n, par) THEN "parent vector is not the elimination tree of the permuted matrix"
           ELSE IF ~IsPostOrder(par, [k \in 1 .. n |-> k - 1]) THEN "columns are not postordered"
           ELSE IF R.cc # Seq0(n, [v \in Nodes(n) |-> 1 + Cardinality(L[v])]) THEN "column counts"
           ELSE IF R.fl # SumSeq([k \in 1 .. n |-> R.cc[k] * R.cc[k]]) THEN "operation count"
           ELSE If(~R.fwf \/ Len(R.fi) # n \/ \E v \in Nodes(n) : R.fi[v+1] # SetToSortSeq(L[v] \cup {v}, LAMBDA x, y : x < y), "factor pattern")
(* ---- trees ---- *)
TreeV ==
  LET n == Len(R.t)  par == TLCEval([v \in Nodes(n) |-> R.t[v+1]])
      kids == TLCEval([v \in Nodes(n) |-> SetToSortSeq({ u \in Nodes(n) : par[u] = v }, LAMBDA x, y : x < y)])
      (* recurrences along the parent relation of a forest have one solution *)
      dep(d, w, root) == Len(d) = n /\ \A v \in Nodes(n) : d[v+1] = (IF par[v] = -1 THEN root[v] ELSE d[par[v]+1] + w[v])
      one == [v \in Nodes(n) |-> 1]  zero == [v \in Nodes(n) |-> 0]  wt == [v \in Nodes(n) |-> R.w[v+1]]
      h == MaxOr({ R.d[v+1] : v \in Nodes(n) }, 0)  hw == MaxOr({ R.dw[v+1] : v \in Nodes(n) }, 0)
  IN  IF R.nc # Seq0(n, [v \in Nodes(n) |-> Len(kids[v])]) \/ Len(R.cp) # n + 1 \/ R.cp[1] # 0 \/ \E v \in Nodes(n) : R.cp[v+2] - R.cp[v+1] # Len(kids[v]) THEN "child counts"
      ELSE IF \E v \in Nodes(n) : SubSeq(R.cn, R.cp[v+1] + 1, R.cp[v+2]) # kids[v] THEN "child lists"
      ELSE IF ~dep(R.d, one, zero) \/ ~dep(R.dw, wt, wt) THEN "node depth"
      ELSE IF R.hb # h \/ R.h # h \/ R.he # h \/ R.hbw # hw \/ R.hw # hw THEN "tree height"
      ELSE IF Len(R.sc) # n \/ \E v \in Nodes(n) : R.sc[v+1] # R.w[v+1] + SumSeq([k \in DOMAIN kids[v] |-> R.sc[kids[v][k] + 1]]) THEN "subtree cost"
      ELSE If(~R.twf \/ Len(R.ti) # n \/ \E v \in Nodes(n) : R.ti[v+1] # kids[v], "tree as a matrix")
SplitV ==
  LET n == Len(R.t)  U == { v \in Nodes(n) : R.t[v+1] # -2 }  all == FlattenSeq(R.parts)
      inp(v) == R.n2p[v+1]
  IN  IF R.rv # Len(R.parts) \/ R.os # R.rv THEN "partition count"
      ELSE IF Len(all) # Cardinality(U) \/ ToSet(all) # U THEN "partitions do not hold every node once"
      ELSE IF \E k \in DOMAIN R.parts : R.oc[k] # SumSeq([q \in DOMAIN R.parts[k] |-> R.w[R.parts[k][q] + 1]]) THEN "partition cost"
      ELSE IF \E k \in DOMAIN R.parts : \E q \in DOMAIN R.parts[k] : R.n2p[R.parts[k][q] + 1] # k - 1 THEN "node-to-partition map"
      ELSE IF \E v \in U : R.t[v+1] >= 0 /\ inp(v) # inp(R.t[v+1]) THEN "partitions depend on each other"
      ELSE If(\E k \in DOMAIN R.parts : \E a, b \in DOMAIN R.parts[k] : a < b /\ R.t[R.parts[k][b] + 1] = R.parts[k][a], "a node is placed before its child")
(* ---- text IO ---- *)
FileE == { <<R.fe[k][1] - 1, R.fe[k][2] - 1, R.fe[k][3]>> : k \in DOMAIN R.fe }
ReadV ==
  IF R.a = "new" /\ R.exc # R.wantexc THEN "header handling: got [" \o R.exc \o "] want [" \o R.wantexc \o "]"
  ELSE IF R.a = "new" /\ R.exc # "" THEN ""
  ELSE IF Has("null") /\ R.null THEN (IF Has("wantnull") /\ R.wantnull = 1 THEN "" ELSE "no result")
  ELSE IF Has("wantnull") /\ R.wantnull = 1 THEN "a truncated file was accepted"
  ELSE LET extra == IF R.a = "new" /\ R.ins = 1 THEN { <<j, j, 0>> : j \in { j \in Nodes(R.fn) : ~\E e \in FileE : e[2] = j } } ELSE {}
           want == FileE \cup extra
       IN  Two(If(R.ostype # (IF R.sym = "symmetric" THEN -1 ELSE 0), "stored half"), Two(Dims(R.fm, R.fn, Cardinality(want)), OutIs(want, R.fn, R.a = "new")))
RoundV ==
  IF Has("exc") /\ R.exc # "" THEN "could not read back what was written"
  ELSE LET want == IF R.a = "blk" THEN E ELSE E
       IN  IF R.a = "blk" THEN (IF ~R.owf \/ Len(R.oi) # R.n THEN "result pointers" ELSE
                                If({ e \in EntOut(R.oi, R.ox, TRUE) : e[3] # 0 } # { e \in E : e[3] # 0 }, "entries changed in a round trip"))
           ELSE Two(Dims(R.m, R.n, Cardinality(want)), OutIs(want, R.n, R.a # "old"))
TextV == CASE R.a = "array" -> If(R.om # R.m \/ R.on # R.n \/ R.ox # [k \in DOMAIN R.x |-> 2 * R.x[k]], "dense array changed in a round trip")
         []   R.a = "const" -> If(R.ox # <<2 * R.x[1]>>, "constant changed in a round trip")
         []   R.a = "str"   -> If(R.got # R.text, "text changed in a round trip")
(* ---- METIS front ends: a numbering, or a label below k for every column ---- *)
MetisV == IF R.a \in {"permg", "perms"} THEN (IF R.a = "perms" /\ R.stype = 0 THEN If(R.rv # -1, "unsymmetric matrix accepted") ELSE If(~IsPermSeq(R.out) \/ Len(R.out) # R.n, "not a permutation"))
          ELSE IF Len(R.out) # R.n \/ ~InRange(R.out, 0, R.k - 1) THEN "part number out of range"
          ELSE IF R.a = "whole" THEN
             IF R.null \/ ~R.fresh THEN "no matrix of its own"
             ELSE IF Has("x") THEN Two(Dims(R.n, R.n, NNZ), OutIs(E, R.n, FALSE))
             ELSE IF ~IsPermSeq(R.pm) \/ Len(R.pm) # R.n THEN "not a permutation"
             ELSE LET want == FullOf(Renumber(E, InvSeq(R.pm), R.stype < 0)) IN Two(Dims(R.n, R.n, Cardinality(want)), OutIs(want, R.n, FALSE))
          ELSE IF R.a = "partc" THEN If(\E v, w \in 1 .. R.n : (v-1) \div R.cs = (w-1) \div R.cs /\ R.out[v] # R.out[w], "columns of one coarse node are in different parts")
          ELSE ""
Why == IF R.st # "ok" THEN "call did not return: " \o R.st
       ELSE IF Has("same") /\ ~R.same THEN "input was modified"
       ELSE CASE R.op = "mat" -> MatV [] R.op = "perm" -> PermV [] R.op = "vecs" -> VecsV [] R.op = "merge" -> MergeV
            []   R.op = "bcscm" -> BcscV [] R.op = "fuse3" -> FuseV [] R.op = "depth" -> DepthV
            []   R.op = "etree" -> EtreeV [] R.op = "factor" -> FactorV [] R.op = "lfactor" -> LFactorV
            []   R.op = "treem" -> TreeV [] R.op = "posplit" -> SplitV
            []   R.op = "metis" -> MetisV
            []   R.op = "readmtx" -> ReadV [] R.op = "roundtrip" -> RoundV [] R.op = "textio" -> TextV
Init == rec \in DOMAIN Recs
Next == FALSE /\ UNCHANGED rec
Spec == Init /\ [][Next]_rec
Conforms == Why = ""
Alias == [rec |-> rec, why |-> Why]
==============================================================================
