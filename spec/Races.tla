-------------------------------- MODULE Races --------------------------------
(* Data races.  Between two barriers every thread touches a memory location with a set of kinds of access; the sets   *)
(* are written as numbers: 1 plain read, 2 plain write, 4 atomic read, 8 atomic update (or any access under a lock    *)
(* that changes the location), added up.  A signature is the sequence of these numbers, one for each thread that      *)
(* touches the location.                                                                                              *)
EXTENDS Integers, Sequences
Has(m, k) == (m \div k) % 2 = 1
Clash(a, b) == \/ Has(a, 2) /\ b # 0            \* a plain write next to any access
               \/ Has(a, 1) /\ Has(b, 8)        \* a plain read next to an atomic update
RaceFree(sig) == \A x, y \in DOMAIN sig : x # y => ~Clash(sig[x], sig[y])
=============================================================================
