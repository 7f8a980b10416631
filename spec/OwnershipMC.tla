---------------------------- MODULE OwnershipMC ----------------------------
(***************************************************************************)
(* The interval version of a transform as a process on the heap: for each  *)
(* butterfly, it reads two elements x, y, allocates the product z, the     *)
(* difference and the sum, stores them and releases x, y and z.  The       *)
(* system may refuse memory at any request: then the program stops.        *)
(*                                                                         *)
(* Order = "late": the old elements are released after their last use (as  *)
(* in the library); "early": x is released when z has been computed from   *)
(* it and y before the sum is (to be refuted); "keep": z is not released   *)
(* (to be refuted).                                                        *)
(***************************************************************************)
EXTENDS Ownership

CONSTANTS N, Order
VARIABLES pc, round, pos, arr, x, y, z, dd, lv, fresh, tr, bad
oVars == <<pc, round, pos, arr, x, y, z, dd, lv, fresh, tr, bad>>

Init == /\ pc = "read" /\ round = 1 /\ pos = 0 /\ arr = [i \in 0..(N - 1) |-> i + 1]
        /\ x = 0 /\ y = 0 /\ z = 0 /\ dd = 0 /\ lv = 1..N /\ fresh = N + 1 /\ tr = <<>> /\ bad = FALSE

\* butterflies of a round: pairs (s, s + d) with d = round
Low(s) == (s \div round) % 2 = 0
Read == /\ pc = "read"
        /\ x' = arr[pos + round] /\ y' = arr[pos] /\ pc' = "mul"
        /\ UNCHANGED <<round, pos, arr, z, dd, lv, fresh, tr, bad>>
Use(S) == bad' = (bad \/ ~(S \subseteq lv))
Alloc(next) ==
  \/ lv' = lv \cup {fresh} /\ tr' = Append(tr, fresh) /\ fresh' = fresh + 1 /\ pc' = next
  \/ pc' = "stopped" /\ UNCHANGED <<lv, tr, fresh>>
Mul == /\ pc = "mul" /\ Use({x}) /\ Alloc("sub") /\ z' = fresh /\ UNCHANGED <<round, pos, arr, x, y, dd>>
Sub == /\ pc = "sub" /\ Use({y, z}) /\ Alloc(IF Order = "early" THEN "drop1" ELSE "add") /\ dd' = fresh
       /\ arr' = [arr EXCEPT ![pos + round] = fresh] /\ UNCHANGED <<round, pos, x, y, z>>
Drop(b, next) == lv' = lv \ {b} /\ tr' = Append(tr, -b) /\ bad' = (bad \/ b \notin lv) /\ pc' = next
Drop1 == pc = "drop1" /\ Drop(y, "add") /\ UNCHANGED <<round, pos, arr, x, y, z, dd, fresh>>
Add == /\ pc = "add" /\ Use({y, z}) /\ Alloc("dropx") /\ arr' = [arr EXCEPT ![pos] = fresh] /\ UNCHANGED <<round, pos, x, y, z, dd>>
DropX == pc = "dropx" /\ Drop(x, IF Order = "early" THEN "dropz" ELSE "dropy") /\ UNCHANGED <<round, pos, arr, x, y, z, dd, fresh>>
DropY == pc = "dropy" /\ Drop(y, IF Order = "keep" THEN "next" ELSE "dropz") /\ UNCHANGED <<round, pos, arr, x, y, z, dd, fresh>>
DropZ == pc = "dropz" /\ Drop(z, "next") /\ UNCHANGED <<round, pos, arr, x, y, z, dd, fresh>>
NextPair == /\ pc = "next"
            /\ LET more == {s \in (pos + 1)..(N - 1) : Low(s)} IN
               IF more # {} THEN pos' = (CHOOSE s \in more : \A u \in more : s <= u) /\ pc' = "read" /\ UNCHANGED round
               ELSE IF 2 * round < N THEN round' = 2 * round /\ pos' = 0 /\ pc' = "read"
               ELSE pc' = "done" /\ UNCHANGED <<round, pos>>
            /\ UNCHANGED <<arr, x, y, z, dd, lv, fresh, tr, bad>>
Next == Read \/ Mul \/ Sub \/ Drop1 \/ Add \/ DropX \/ DropY \/ DropZ \/ NextPair
Spec == Init /\ [][Next]_oVars /\ WF_oVars(Next)

\* no use and no release of a block that is not live
Safe == ~bad
\* at the end, exactly the elements of the array are live, and the trace of
\* the call says so
Balanced == pc = "done" =>
  /\ lv = {arr[i] : i \in 0..(N - 1)}
  /\ Owned(1..N, {}, tr, [i \in 1..N |-> arr[i - 1]])
Ends == <>(pc \in {"done", "stopped"})
=============================================================================
