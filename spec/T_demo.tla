-------------------------------- MODULE T_demo --------------------------------
(* Trace validation of the measurement protocol: the callbacks of a demo object, as recorded, must be steps of Demo.          *)
(* events: <<1, 0>> inspection, <<2, clean>> reset finished, <<3, clean>> kernel entered, <<4, messages printed>> comparison,  *)
(* <<5, returned time>> evaluate returned, <<6, inspection time>>, <<7, runs>> set_num_test, <<8, 0>> evaluate called           *)
EXTENDS Demo, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, k, runs, bad
vars == <<rec, k, runs, bad, dvars>>
R == Recs[rec]
If(c, m) == IF c THEN m ELSE ""
Ev(j) == <<R.ev[2 * j - 1], R.ev[2 * j]>>
NEv == Len(R.ev) \div 2
T(q) == R.times[(q % Len(R.times)) + 1]
Ran == Cardinality({ j \in 1 .. k : Ev(j)[1] = 3 })           \* kernels run so far, over all evaluations
(* one recorded event as a step of the protocol; what is wrong with it otherwise *)
Fault(e) ==
  CASE e[1] = 1 -> If(phase # "idle", "inspection in the middle of an evaluation")
  []   e[1] = 2 -> IF phase # "ready" \/ left = 0 THEN "a reset that no run follows" ELSE If(e[2] = 0, "the reset does not leave ones and zeros")
  []   e[1] = 3 -> IF phase # "set" THEN "a run without a reset" ELSE If(e[2] = 0, "a run does not start from ones and zeros")
  []   e[1] = 4 -> IF phase # "ready" \/ left > 0 THEN "comparison before the last run"
                   ELSE LET differs == R.ref = 1 /\ (IF R.nan = 1 THEN TRUE ELSE R.delta > 10 \/ R.delta < -10) /\ Len(times) > 0
                            stale == R.ref = 1 /\ Len(times) = 0   \* nothing was run: whatever the output held before is compared
                        IN  If(~stale /\ e[2] # (IF differs THEN 1 ELSE 0), "a wrong solution is not reported, or a right one is")
  []   e[1] = 5 -> IF phase # "done" THEN "evaluation returned early" ELSE If(e[2] # MedianOf(times), "the returned time is not the median run")
  []   e[1] = 6 -> If(Cardinality({ j \in 1 .. k : Ev(j)[1] = 1 }) = 1 /\ e[2] # R.bt, "inspection time")
  []   e[1] = 7 -> If(phase # "idle", "protocol")
Step(e) == CASE e[1] = 1 -> Inspect(runs) /\ UNCHANGED runs
           []   e[1] = 2 -> Reset /\ UNCHANGED runs
           []   e[1] = 3 -> RunKernel(T(Ran)) /\ UNCHANGED runs
           []   e[1] = 4 -> phase' = "done" /\ UNCHANGED <<left, times, msgs, runs>>
           []   e[1] = 5 -> Return /\ UNCHANGED runs
           []   e[1] = 6 -> UNCHANGED <<dvars, runs>>
           []   e[1] = 7 -> runs' = e[2] /\ UNCHANGED dvars
Init == rec \in DOMAIN Recs /\ k = 0 /\ runs = 5 /\ bad = "" /\ DemoInit
Next == R.op = "demo" /\ R.st = "ok" /\ bad = "" /\ k < NEv /\ k' = k + 1 /\ UNCHANGED rec
        /\ bad' = Fault(Ev(k + 1)) /\ (IF bad' = "" THEN Step(Ev(k + 1)) ELSE UNCHANGED <<runs, dvars>>)
Spec == Init /\ [][Next]_vars
(* ---- stopwatch: <<0, ticks>> time passes, <<1, 0>> start, <<2, 0>> measure ---- *)
Now(j) == LET s == SelectSeq([q \in 1 .. j |-> <<R.ck[2 * q - 1], R.ck[2 * q]>>], LAMBDA e : e[1] = 0) IN FoldSeq(LAMBDA e, acc : acc + e[2], 0, s)
Starts == { q \in 1 .. (Len(R.ck) \div 2) : R.ck[2 * q - 1] = 1 }
ClockV == LET n == Len(R.ck) \div 2  first == CHOOSE q \in Starts : \A r \in Starts : q <= r
              meas == SelectSeq([q \in 1 .. n |-> q], LAMBDA q : R.ck[2 * q - 1] = 2)
              stamps == SelectSeq([q \in 1 .. n |-> q], LAMBDA q : R.ck[2 * q - 1] # 0)
          IN  IF R.el # [q \in DOMAIN meas |-> Now(meas[q]) - Now(first)] THEN "elapsed time since the first start"
              ELSE If(R.ta # [q \in DOMAIN stamps |-> Now(stamps[q])], "recorded time stamps")
(* ---- the common columns of a result line ---- *)
CommonV == If(R.out # (IF R.hdr = 1 THEN "Matrix Name,A Dimension,A Nonzero,L Nonzero,Code Type,Data Type,Metis Enabled,Number of Threads,"
                       ELSE R.s1 \o "," \o ToString(R.n) \o "," \o ToString(R.zb) \o "," \o (IF R.zl >= 0 THEN ToString(R.zl) \o "," ELSE "") \o R.s2 \o "," \o R.s3 \o ",Metis," \o ToString(R.nth) \o ","), "common columns of the result line")
Why == IF R.st # "ok" THEN "call did not return: " \o R.st
       ELSE CASE R.op = "demo" -> IF bad # "" THEN bad ELSE If(k = NEv /\ (phase # "idle" \/ R.left = 1), IF R.left = 1 THEN "the solution is not the output of the last run" ELSE "evaluation did not finish")
            []   R.op = "clock" -> ClockV
            []   R.op = "common" -> CommonV
Conforms == Why = ""
Alias == [rec |-> rec, why |-> Why]
===============================================================================
