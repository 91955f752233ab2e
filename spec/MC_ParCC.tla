------------------------------ MODULE MC_ParCC ------------------------------
(* The parallel component labelling of sym_lib::parallel_cc and HDAGG::parallel_cc / computeCC at the grain of its  *)
(* shared-memory accesses: rounds of hooking (every entry is looked at by some thread; a root is redirected to a     *)
(* lower label) and of pointer jumping, separated by barriers, until a round changes nothing.  Work items are        *)
(* handed to the threads in any order, so every OpenMP schedule is covered.                                          *)
EXTENDS Graphs
CONSTANTS N, T, MUT        \* MUT: "" or the name of a seeded design error, to show the model can fail
VARIABLES G, comp, change, todo, th, phase, rounds
vars == <<G, comp, change, todo, th, phase, rounds>>
NN == Nodes(N)
Thr == 1 .. T
Idle == [at |-> "idle", i |-> 0, j |-> 0, a |-> 0, b |-> 0]
DAGs == { FromEdges(NN, E) : E \in SUBSET { <<u, v>> \in NN \X NN : u # v } }
Low  == { FromEdges(NN, E) : E \in SUBSET { <<u, v>> \in NN \X NN : u < v } }
Items(ph, H) == IF ph = "hook" THEN { e \in NN \X NN : e[2] \in H[e[1]] } ELSE { <<i, i>> : i \in NN }
Init == /\ G \in Low /\ comp = [v \in NN |-> v] /\ change = FALSE
        /\ phase = "hook" /\ todo = Items("hook", G) /\ th = [t \in Thr |-> Idle] /\ rounds = 0
Take(t) == /\ th[t].at = "idle" /\ todo # {}
           /\ \E e \in todo : /\ todo' = todo \ {e}
                              /\ th' = [th EXCEPT ![t] = [at |-> IF phase = "hook" THEN "h1" ELSE "c1", i |-> e[1], j |-> e[2], a |-> 0, b |-> 0]]
           /\ UNCHANGED <<G, comp, change, phase, rounds>>
Hook(t) ==
  LET x == th[t]  hi == IF x.a > x.b THEN x.a ELSE x.b  lo == IF x.a > x.b THEN x.b ELSE x.a IN
  /\ UNCHANGED <<G, todo, phase, rounds>>
  /\ \/ x.at = "h1" /\ th' = [th EXCEPT ![t] = [x EXCEPT !.at = "h2", !.a = comp[x.i]]] /\ UNCHANGED <<comp, change>>
     \/ x.at = "h2" /\ th' = [th EXCEPT ![t] = IF comp[x.j] = x.a THEN Idle ELSE [x EXCEPT !.at = "h3", !.b = comp[x.j]]] /\ UNCHANGED <<comp, change>>
     \/ x.at = "h3" /\ th' = [th EXCEPT ![t] = IF comp[hi] = hi \/ MUT = "noroot" THEN [x EXCEPT !.at = IF MUT = "nochange" THEN "h5" ELSE "h4"] ELSE Idle] /\ UNCHANGED <<comp, change>>
     \/ x.at = "h4" /\ change' = TRUE /\ th' = [th EXCEPT ![t] = [x EXCEPT !.at = "h5"]] /\ UNCHANGED comp
     \/ x.at = "h5" /\ comp' = [comp EXCEPT ![hi] = IF MUT = "max" THEN hi ELSE lo] /\ th' = [th EXCEPT ![t] = Idle] /\ UNCHANGED change
Jump(t) ==
  LET x == th[t] IN
  /\ UNCHANGED <<G, todo, phase, change, rounds>>
  /\ \/ x.at = "c1" /\ th' = [th EXCEPT ![t] = [x EXCEPT !.at = "c2", !.a = comp[x.i]]] /\ UNCHANGED comp
     \/ x.at = "c2" /\ th' = [th EXCEPT ![t] = IF comp[x.a] = x.a THEN Idle ELSE [x EXCEPT !.at = "c3", !.b = comp[x.a]]] /\ UNCHANGED comp
     \/ x.at = "c3" /\ comp' = [comp EXCEPT ![x.i] = x.b] /\ th' = [th EXCEPT ![t] = [x EXCEPT !.at = IF MUT = "onejump" THEN "idle" ELSE "c1"]]
Quiet == todo = {} /\ \A t \in Thr : th[t].at = "idle"
Turn == /\ Quiet
        /\ \/ phase = "hook" /\ phase' = "jump" /\ todo' = Items("jump", G) /\ UNCHANGED <<change, rounds>>
           \/ phase = "jump" /\ change /\ phase' = "hook" /\ todo' = Items("hook", G) /\ change' = FALSE /\ rounds' = rounds + 1
           \/ phase = "jump" /\ ~change /\ phase' = "end" /\ UNCHANGED <<todo, change, rounds>>
        /\ UNCHANGED <<G, comp, th>>
Next == (\E t \in Thr : Take(t) \/ Hook(t) \/ Jump(t)) \/ Turn \/ (phase = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* labels only fall, and only inside a component *)
Inside == \A C \in Components(G, NN) : \A v \in C : comp[v] \in C /\ comp[v] <= v
Stars  == (phase = "hook" /\ todo = Items("hook", G) /\ \A t \in Thr : th[t].at = "idle") => \A v \in NN : comp[comp[v]] = comp[v]
Right  == phase = "end" => \A C \in Components(G, NN) : \A v \in C : comp[v] = Min(C)
Bounded == rounds <= N
Ends   == <>(phase = "end")
=============================================================================
