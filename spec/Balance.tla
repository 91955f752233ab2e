------------------------------- MODULE Balance -------------------------------
(* Load balance of one coarsened level L: a sequence of parts, every part a sequence of nodes; W[v] is the cost of node v. *)
(* The items that are packed are the connected components of the level; a part is a union of whole items.              *)
EXTENDS Graphs
Items(G, L)    == Components(G, UNION { ToSet(L[k]) : k \in DOMAIN L })
Load(W, X)     == SumF(W, X)
InPart(Cs, P)  == { C \in Cs : C \subseteq ToSet(P) }
(* Heaviest-first onto the least loaded part leaves: without its lightest item, no part is heavier than any other. *)
PackedBy(W, L, ld, Is) == \A k \in DOMAIN L : Is[k] # {} =>
   LET low == Min({ Load(W, C) : C \in Is[k] }) IN \A j \in DOMAIN L \ {k} : ld[k] - low <= ld[j]
Packed(G, W, L) ==
  LET Cs == TLCEval(Items(G, L))
      ld == TLCEval([k \in DOMAIN L |-> Load(W, ToSet(L[k]))])
      Is == TLCEval([k \in DOMAIN L |-> InPart(Cs, L[k])])
  IN  PackedBy(W, L, ld, Is)
(* Cutting a list of items at the average of what is left: every part but the last reaches that average, and does not *)
(* without its last item.  With fewer items than parts every item has a part of its own.                              *)
Chunked(G, W, L) ==
  LET Cs == TLCEval(Items(G, L))
      n  == Len(L)
      ld == TLCEval([k \in DOMAIN L |-> Load(W, ToSet(L[k]))])
      left(k) == SumSeq(SubSeq(ld, k, n))
  IN  IF Cardinality(Cs) < n THEN \A k \in DOMAIN L : Cardinality(InPart(Cs, L[k])) <= 1
      ELSE \A k \in 1 .. (n - 1) :
             /\ ld[k] * (n - k + 1) >= left(k)
             /\ ld[k] > 0 => (ld[k] - Max({ Load(W, C) : C \in InPart(Cs, L[k]) })) * (n - k + 1) < left(k)
Balanced(how, G, W, S) == \A l \in DOMAIN S : IF how = "chunk" THEN Chunked(G, W, S[l]) ELSE Packed(G, W, S[l])
=============================================================================
