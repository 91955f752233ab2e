-------------------------------- MODULE MC_Demo --------------------------------
(* The protocol of Demo run to completion for every sequence of evaluations with up to RUNS runs and times below TICKS.      *)
EXTENDS Demo
CONSTANTS RUNS, TICKS, EVALS
VARIABLES evals, wanted, builds, resets, kernels
vars == <<dvars, evals, wanted, builds, resets, kernels>>
Init == DemoInit /\ evals = 0 /\ wanted = 0 /\ builds = 0 /\ resets = 0 /\ kernels = 0
Next == \/ evals < EVALS /\ \E r \in 0 .. RUNS : Inspect(r) /\ wanted' = r /\ builds' = builds + 1 /\ resets' = 0 /\ kernels' = 0 /\ UNCHANGED evals
        \/ Reset /\ resets' = resets + 1 /\ UNCHANGED <<evals, wanted, builds, kernels>>
        \/ \E t \in 0 .. (TICKS - 1) : RunKernel(t) /\ kernels' = kernels + 1 /\ UNCHANGED <<evals, wanted, builds, resets>>
        \/ \E d \in BOOLEAN : Compare(d) /\ UNCHANGED <<evals, wanted, builds, resets, kernels>>
        \/ Return /\ evals' = evals + 1 /\ UNCHANGED <<wanted, builds, resets, kernels>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* every run starts from a reset, exactly the wanted number of runs is made, one inspection per evaluation *)
Alternate == kernels = resets \/ (phase = "set" /\ kernels + 1 = resets)
Exactly   == phase = "done" => kernels = wanted /\ Len(times) = wanted
OneBuild  == builds = evals + (IF phase = "idle" THEN 0 ELSE 1)
(* the returned time was measured, half of the runs were at least as fast and half at least as slow *)
Middle    == phase = "done" /\ times # <<>> =>
               LET m == MedianOf(times)  c(P(_)) == Cardinality({ k \in DOMAIN times : P(times[k]) })
               IN  m \in ToSet(times) /\ 2 * c(LAMBDA t : t <= m) >= Len(times) /\ 2 * c(LAMBDA t : t >= m) >= Len(times)
NotMoreMsgs == msgs <= builds
Ends == <>(evals = EVALS)
================================================================================
