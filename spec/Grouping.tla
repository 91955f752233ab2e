------------------------------ MODULE Grouping ------------------------------
(* Node groupings, quotient graphs, and transitive sparsification: the coarsening steps in front of the           *)
(* schedulers.  A grouping is a sequence of sequences of nodes.                                                   *)
EXTENDS Graphs

IsPartition(N, gs) == /\ \A k \in DOMAIN gs : gs[k] # <<>>
                      /\ LET a == FlattenSeq(gs) IN Len(a) = Cardinality(N) /\ ToSet(a) = N
Label(N, gs)     == LET cells == UNION { { <<gs[k][m], k - 1>> : m \in DOMAIN gs[k] } : k \in DOMAIN gs }
                        q == TLCEval(SetToSortSeq(cells, LAMBDA a, b : a[1] < b[1]))       \* N = 0 .. n-1, each in one group
                    IN  TLCEval([v \in N |-> q[v+1][2]])
GroupIds(gs)     == 0 .. (Len(gs) - 1)
GroupQuotient(G, gs) == Quotient(G, Label(DOMAIN G, gs), GroupIds(gs))
(* Groups may be executed one after another as units iff the quotient has no cycle. *)
SoundGrouping(G, gs) == IsPartition(DOMAIN G, gs) /\ AcyclicFast(GroupQuotient(G, gs))
(* A group's members are run in listed order. *)
InnerOrdered(G, gs) == \A k \in DOMAIN gs : \A a, b \in DOMAIN gs[k] : gs[k][b] \in G[gs[k][a]] => a < b

(* What each grouping policy makes of a graph.  A node with exactly one successor belongs to the tree of that successor,   *)
(* every other node is the root of a tree; chains join a node and its only successor if that has no other predecessor.     *)
Only(G, v)       == CHOOSE w \in G[v] : TRUE
Single(G, v)     == Cardinality(G[v]) = 1
SingleRoots(G)   == { v \in DOMAIN G : ~Single(G, v) }
InTrees(G, gs)   == LET lab == Label(DOMAIN G, gs) IN          \* the groups are exactly the trees
                    /\ \A v \in DOMAIN G : Single(G, v) => lab[Only(G, v)] = lab[v]
                    /\ \A k \in DOMAIN gs : Cardinality(ToSet(gs[k]) \cap SingleRoots(G)) = 1
TreeRoots(G)     == LET q == Reverse(SetToSortSeq(DOMAIN G, LAMBDA a, b : a < b))        \* edges climb
                    IN  TLCEval(FoldSeq(LAMBDA v, f : [f EXCEPT ![v] = IF Single(G, v) THEN f[Only(G, v)] ELSE v], [v \in DOMAIN G |-> v], q))
InTreePieces(G, gs, lim) == LET rt == TreeRoots(G) IN          \* no larger than allowed, and no more of them than that takes
                    /\ \A k \in DOMAIN gs : Len(gs[k]) <= lim /\ \A a, b \in DOMAIN gs[k] : rt[gs[k][a]] = rt[gs[k][b]]
                    /\ \A r \in SingleRoots(G) : LET sz == Cardinality({ v \in DOMAIN G : rt[v] = r }) IN
                          Cardinality({ k \in DOMAIN gs : rt[gs[k][1]] = r }) = (sz + lim - 1) \div lim
(* nodes of a piece hang together: all but one of them has its only successor in the piece *)
Subtrees(G, gs)  == \A k \in DOMAIN gs : Cardinality({ v \in ToSet(gs[k]) : ~(Single(G, v) /\ Only(G, v) \in ToSet(gs[k])) }) = 1
Chained(G, P, v) == Single(G, v) /\ Cardinality(P[Only(G, v)]) = 1
InChains(G, gs)  == LET lab == Label(DOMAIN G, gs)  P == Preds(G) IN
                    /\ \A v \in DOMAIN G : Chained(G, P, v) => lab[Only(G, v)] = lab[v]
                    /\ \A k \in DOMAIN gs : Cardinality({ v \in ToSet(gs[k]) : ~Chained(G, P, v) }) = 1
ByLeast(gs)      == \A k \in 1 .. (Len(gs) - 1) : Min(ToSet(gs[k])) < Min(ToSet(gs[k+1]))
(* the limit on groups of a factor's nodes, as a fraction of all: 1/1000 for trees, 1/10000 breadth first *)
SizeLimit(a, lf, n) == IF lf = 0 THEN n ELSE Max({1, n \div (IF a = "tree" THEN 1000 ELSE 10000)})
(* Runs of consecutive nodes.  A run goes on as long as the next node depends on a member at most sp before it.          *)
RunCuts(G, sp)   == LET n == Cardinality(DOMAIN G)
                        Goes(a, v) == \E u \in a .. (v - 1) : v \in G[u] /\ v - u <= sp
                    IN  FoldLeft(LAMBDA c, v : IF v < n /\ Goes(c[Len(c)], v) THEN c ELSE Append(c, v), <<0>>, [k \in 1 .. n |-> k])
Between(c)       == [k \in 1 .. (Len(c) - 1) |-> [m \in 1 .. (c[k+1] - c[k]) |-> c[k] + m - 1]]
(* Runs cheaper than th join the cheaper neighbour (the next one if equal), from left to right; cost(a, b) of the nodes a .. b-1. *)
MergeCuts(c, cost(_, _), th(_)) ==
   LET K == Len(c) - 1
       Step(out, k) == LET m == Len(out)  e == c[k+1]  prev == m >= 2 IN
          IF ~th(cost(out[m], e)) THEN Append(out, e)
          ELSE IF prev /\ (k = K \/ cost(out[m-1], out[m]) < cost(e, c[k+2])) THEN [out EXCEPT ![m] = e]
          ELSE IF k = K THEN Append(out, e) ELSE out
   IN  FoldLeft(Step, <<0>>, [k \in 1 .. K |-> k])
(* Blocks of columns with the same pattern below them, joined left to right, with at most lim columns after the first.   *)
SameBelow(cols, f, c) == cols[c] = SubSeq(cols[f], c - f + 1, Len(cols[f]))
SameAbove(cols, f, c) == cols[c] = SubSeq(cols[f], 1, Len(cols[f]) - (f - c))
LowerBlocks(cols, lim) == LET n == Len(cols) IN
   FoldLeft(LAMBDA b, c : IF c < n /\ c - b[Len(b)] <= lim /\ SameBelow(cols, b[Len(b)] + 1, c + 1) THEN b ELSE Append(b, c), <<0>>, [k \in 1 .. n |-> k])
UpperBlocks(cols, lim) == LET n == Len(cols) IN                       \* first columns of the blocks from the right, then -1
   FoldLeft(LAMBDA b, c : IF c >= 0 /\ b[Len(b)] - c <= lim /\ SameAbove(cols, b[Len(b)] + 1, c + 1) THEN b ELSE Append(b, c), <<n - 1>>, [k \in 1 .. n |-> n - 1 - k])

(* no edge of H stands next to a path of two edges of G *)
NoBypass(H, G)   == \A u \in DOMAIN G : \A k \in G[u] : H[u] \cap G[k] = {}

(* H is a transitive reduction step of G: only edges of G, same reachability *)
SubGraph(H, G)   == \A u \in DOMAIN G : H[u] \subseteq G[u]
SameReach(H, G)  == Reach(H) = Reach(G)
Sparsified(H, G) == DOMAIN H = DOMAIN G /\ SubGraph(H, G) /\ SameReach(H, G)

Ascending(s)     == \A k \in 1 .. (Len(s) - 1) : s[k] < s[k+1]
PosIn(s)         == TLCEval([x \in ToSet(s) |-> CHOOSE k \in DOMAIN s : s[k] = x])
TopoOrder(G, s)  == /\ Len(s) = Cardinality(DOMAIN G) /\ ToSet(s) = DOMAIN G
                    /\ LET pos == PosIn(s) IN \A u \in DOMAIN G : \A v \in G[u] : pos[u] < pos[v]
=============================================================================
