--------------------------------- MODULE Demo ---------------------------------
(* The measurement protocol of FusionDemo and its stopwatch.  One evaluation inspects once, then num_test times resets the  *)
(* input to ones and the output to zeros and runs the kernel, then compares the last output with the reference once, and     *)
(* returns the middle of the sorted run times.  Time is counted in ticks of a clock the environment advances.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES phase, left, times, msgs
dvars == <<phase, left, times, msgs>>
MedianOf(ts) == IF ts = <<>> THEN -1 ELSE SortSeq(ts, LAMBDA a, b : a < b)[Len(ts) \div 2 + 1]
DemoInit == phase = "idle" /\ left = 0 /\ times = <<>> /\ msgs = 0
Inspect(runs) == phase = "idle" /\ phase' = "ready" /\ left' = runs /\ times' = <<>> /\ UNCHANGED msgs
Reset == phase = "ready" /\ left > 0 /\ phase' = "set" /\ UNCHANGED <<left, times, msgs>>
RunKernel(t) == phase = "set" /\ phase' = "ready" /\ left' = left - 1 /\ times' = Append(times, t) /\ UNCHANGED msgs
Compare(differs) == phase = "ready" /\ left = 0 /\ phase' = "done" /\ msgs' = msgs + (IF differs THEN 1 ELSE 0) /\ UNCHANGED <<left, times>>
Return == phase = "done" /\ phase' = "idle" /\ UNCHANGED <<left, times, msgs>>
===============================================================================
