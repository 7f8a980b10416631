------------------------------ MODULE SpeedMC ------------------------------
(***************************************************************************)
(* The measurement as a state machine: a clock that runs, a call that      *)
(* takes any time, readings before each call and one after the last, the   *)
(* differences in place, sorting, and the two results.                     *)
(***************************************************************************)
EXTENDS Speed, FiniteSets
CONSTANTS NCalls, Durations, Starts, FinalReading
VARIABLES pc, now, took, tt, at, med, avg
vars == <<pc, now, took, tt, at, med, avg>>
Init == pc = "read" /\ now \in Starts /\ took = <<>> /\ tt = <<>> /\ at = 1 /\ med = 0 /\ avg = 0
ReadIt == pc = "read" /\ tt' = Append(tt, now) /\ pc' = "call" /\ UNCHANGED <<now, took, at, med, avg>>
CallIt == /\ pc = "call"
          /\ \E d \in Durations : now' = now + d /\ took' = Append(took, d)
          /\ pc' = IF Len(tt) = NCalls THEN "diff" ELSE "read"
          /\ UNCHANGED <<tt, at, med, avg>>
Diff == /\ pc = "diff"
        /\ IF at < NCalls THEN tt' = [tt EXCEPT ![at] = tt[at + 1] - tt[at]] /\ at' = at + 1 /\ pc' = pc
           ELSE tt' = [tt EXCEPT ![at] = IF FinalReading THEN now - tt[at] ELSE tt[at]] /\ at' = at /\ pc' = "sum"
        /\ UNCHANGED <<now, took, med, avg>>
Results == /\ pc = "sum"
           /\ med' = SortSeq(tt, <)[1 + (NCalls \div 2)]
           /\ avg' = SumI(tt, NCalls) \div NCalls
           /\ pc' = "done" /\ UNCHANGED <<now, took, tt, at>>
Next == ReadIt \/ CallIt \/ Diff \/ Results
Spec == Init /\ [][Next]_vars

Vals == SetToSeq(Durations)
Counts == [i \in 1..Len(Vals) |-> Cardinality({j \in 1..Len(took) : took[j] = Vals[i]})]
WVals == [i \in 1..Len(Vals) |-> W(Vals[i])]
Exact == pc = "done" => IsMedian(W(med), WVals, Counts, NCalls) /\ IsAverage(W(avg), WVals, Counts, NCalls)
\* the two results are determined by the times
Unique == pc = "done" =>
  /\ \A m \in Durations : IsMedian(W(m), WVals, Counts, NCalls) => m = med
  /\ ~IsAverage(W(avg + 1), WVals, Counts, NCalls) /\ (avg > 0 => ~IsAverage(W(avg - 1), WVals, Counts, NCalls))
=============================================================================
