------------------------------- MODULE Graphs -------------------------------
(* Directed graphs as the library stores them: node j's out-neighbours are the row indices of column j of a     *)
(* compressed-column pattern (the entry <<j,j>> is the diagonal, not an edge).  A graph is a function G from    *)
(* the nodes to the set of their successors.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

At(a, x)   == a[x + 1]                        \* 0-based indexing into a recorded array
Nodes(n)   == 0 .. (n - 1)
Distinct(s) == Cardinality(ToSet(s)) = Len(s)

ColSeq(p, i, j) == [k \in 1 .. (p[j+2] - p[j+1]) |-> i[p[j+1] + k]]
ColSet(p, i, j) == { i[k] : k \in (p[j+1] + 1) .. p[j+2] }
Succ(n, p, i)   == TLCEval([j \in Nodes(n) |-> ColSet(p, i, j) \ {j}])
ListSucc(cols)  == TLCEval([j \in Nodes(Len(cols)) |-> ToSet(cols[j+1]) \ {j}])     \* from a list of columns
EdgeSet(G)      == UNION { { <<u, v>> : v \in G[u] } : u \in DOMAIN G }
FromEdges(N, E) == [u \in N |-> { e[2] : e \in { e \in E : e[1] = u } }]
Preds(G)        == TLCEval([v \in DOMAIN G |-> { u \in DOMAIN G : v \in G[u] }])
IsGraph(G)      == \A u \in DOMAIN G : G[u] \subseteq DOMAIN G
LowerTri(G)     == \A u \in DOMAIN G : \A v \in G[u] : u < v

(* The nodes of U whose predecessors in U are all in done. *)
Sources(G, U, done) == LET blocked == UNION { G[u] : u \in U \ done }
                       IN  (U \ done) \ blocked

(* Longest-path depth, by peeling sources; nodes on or behind a cycle keep depth -1. *)
RECURSIVE DepthsFrom(_, _, _, _)
DepthsFrom(G, done, l, acc) ==
  LET S == Sources(G, DOMAIN G, done)
  IN  IF S = {} THEN acc ELSE DepthsFrom(G, done \cup S, l + 1, TLCEval([v \in DOMAIN G |-> IF v \in S THEN l ELSE acc[v]]))
Depths(G)  == DepthsFrom(TLCEval(G), {}, 0, [v \in DOMAIN G |-> -1])
Acyclic(G) == \A v \in DOMAIN G : Depths(G)[v] >= 0
AcyclicFast(G) == LET d == Depths(G) IN \A v \in DOMAIN G : d[v] >= 0

(* Reachability in one or more steps: saturate. *)
RECURSIVE Saturate(_)
Saturate(R) == LET R2 == TLCEval([v \in DOMAIN R |-> R[v] \cup UNION { R[w] : w \in R[v] }])
               IN  IF R2 = R THEN R ELSE Saturate(R2)
Reach(G) == Saturate(TLCEval(G))

(* Undirected connectivity of the subgraph induced by U: for each node the least node it is connected to. *)
RECURSIVE Grow(_, _, _)
Grow(N, seen, todo) == IF todo = {} THEN seen
                       ELSE LET nxt == UNION { N[v] : v \in todo } \ seen IN Grow(N, seen \cup nxt, nxt)
Und(G, U) == LET P == TLCEval(Preds(TLCEval(G))) IN TLCEval([v \in U |-> (G[v] \cup P[v]) \cap U])
RECURSIVE ComponentsFrom(_, _, _)
ComponentsFrom(N, rest, acc) ==
  IF rest = {} THEN acc
  ELSE LET v == CHOOSE v \in rest : TRUE
           C == Grow(N, {v}, {v})
       IN  ComponentsFrom(N, rest \ C, acc \cup {C})
Components(G, U) == ComponentsFrom(Und(G, U), U, {})

(* Quotient by a labelling lab : nodes -> labels in L *)
Quotient(G, lab, L) == TLCEval([a \in L |-> UNION { { lab[v] : v \in G[u] } : u \in { u \in DOMAIN G : lab[u] = a } } \ {a}])

SumF(f, S) == FoldSet(LAMBDA x, acc : acc + f[x], 0, S)
SumSeq(s)  == FoldSeq(LAMBDA x, acc : acc + x, 0, s)
MaxOr(S, d) == IF S = {} THEN d ELSE Max(S)

IsIntSeq(s)      == \A k \in DOMAIN s : s[k] \in Int
InRange(s, lo, hi) == \A k \in DOMAIN s : s[k] >= lo /\ s[k] <= hi
FlattenSeqs(ss)  == FlattenSeq(ss)
=============================================================================
