------------------------------- MODULE MC_Rx -------------------------------
(* Reception times under a host clock that may jump either way.              *)
EXTENDS RxTime
VARIABLES last, high, clock, times
vars == <<last, high, clock, times>>
Moments == {<<60000, 86399000>>, <<60000, 86399999>>, <<60001, 0>>, <<60001, 1>>, <<60002, 5>>}
Init == last = <<>> /\ high = <<>> /\ clock \in Moments /\ times = <<>>
Read == clock' \in Moments /\ UNCHANGED <<last, high, times>>
Receive == /\ Len(times) < 5
           /\ last' = Stamp(last, clock) /\ times' = Append(times, last')
           /\ high' = (IF high = <<>> THEN clock ELSE IF Before(high, clock) THEN clock ELSE high)
           /\ UNCHANGED clock
Next == Read \/ Receive
Spec == Init /\ [][Next]_vars
NeverBack == \A i, j \in 1..Len(times) : i < j => ~Before(times[j], times[i])
\* the stamp is a reading of the clock, the highest so far
IsReading == \A i \in 1..Len(times) : times[i] \in Moments
Highest == last # <<>> => last = high
=============================================================================
