-------------------------------- MODULE MC_Race --------------------------------
(* Why race freedom is what is checked: for every pair of straight-line thread bodies, if the signatures of all       *)
(* locations are race free then in every interleaving every thread sees exactly what it would see alone, and the      *)
(* memory ends up the same; so one observed schedule without a race stands for all schedules of that phase.            *)
EXTENDS Races, FiniteSets
CONSTANTS LEN, LOCS, T, MUT
VARIABLES prog, mem, reg, pc
vars == <<prog, mem, reg, pc>>
Thr == 1 .. T
Loc == 1 .. LOCS
Op == {"read", "write", "add"} \X Loc          \* reg := mem[x];  mem[x] := reg + 1;  atomically mem[x] := mem[x] + 10
Bodies == UNION { [1 .. k -> Op] : k \in 1 .. LEN }
Kind(o) == CASE o = "read" -> 1 [] o = "write" -> 2 [] o = "add" -> 8
Mask(body, x) == LET ks == { Kind(body[k][1]) : k \in { j \in DOMAIN body : body[j][2] = x } }
                 IN  (IF 1 \in ks THEN 1 ELSE 0) + (IF 2 \in ks THEN 2 ELSE 0) + (IF 8 \in ks THEN 8 ELSE 0)
Quiet(sig) == IF MUT = "readadd" THEN \A x, y \in DOMAIN sig : x # y => ~(Has(sig[x], 2) /\ sig[y] # 0)
              ELSE IF MUT = "writewrite" THEN \A x, y \in DOMAIN sig : x # y => ~(Has(sig[x], 2) /\ Has(sig[y], 2))
              ELSE RaceFree(sig)
Free(p) == \A x \in Loc : Quiet([t \in Thr |-> Mask(p[t], x)])
Step(o, m, r) == CASE o[1] = "read"  -> <<m, m[o[2]]>>
                 []   o[1] = "write" -> <<[m EXCEPT ![o[2]] = r + 1], r>>
                 []   o[1] = "add"   -> <<[m EXCEPT ![o[2]] = @ + 10], r>>
Zero == [x \in Loc |-> x * 100]
RECURSIVE Alone(_, _)
Alone(body, k) == IF k = 0 THEN <<Zero, 0>> ELSE LET s == Alone(body, k - 1) IN Step(body[k], s[1], s[2])
Init == /\ prog \in { p \in [Thr -> Bodies] : Free(p) }
        /\ mem = Zero /\ reg = [t \in Thr |-> 0] /\ pc = [t \in Thr |-> 0]
Next == \E t \in Thr : /\ pc[t] < Len(prog[t])
                       /\ LET s == Step(prog[t][pc[t] + 1], mem, reg[t]) IN mem' = s[1] /\ reg' = [reg EXCEPT ![t] = s[2]]
                       /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED prog
Spec == Init /\ [][Next]_vars
(* a thread that runs among the others is where it would be alone *)
SeesTheSame == \A t \in Thr : reg[t] = Alone(prog[t], pc[t])[2]
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN f[t] + Sum(f, S \ {t})
Change(x) == [t \in Thr |-> Alone(prog[t], pc[t])[1][x] - Zero[x]]
SameMemory == \A x \in Loc : mem[x] = Zero[x] + Sum(Change(x), Thr)
=============================================================================
