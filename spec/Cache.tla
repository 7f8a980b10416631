------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* Why results are compared with those of a process that makes one call:   *)
(* a library that keeps something between calls.  Each of NT threads makes *)
(* calls with any arguments <<x, y>>; the result of a call must be         *)
(* Value(x, y).                                                            *)
(*                                                                         *)
(* Keeps:                                                                  *)
(*  "nothing"    results are computed from the arguments                   *)
(*  "table"      the first call computes a table, then sets a flag         *)
(*  "flag"       the same, but the flag is set before the table            *)
(*  "last"       the arguments and the result of the last call             *)
(*  "partly"     the same, but only the first argument is compared         *)
(*                                                                         *)
(* TLC finds that "nothing" and "table" are right for all schedules,       *)
(* "last" for one thread only, "flag" for one thread only (so that only    *)
(* the first calls of a process, made at the same time, show it), and      *)
(* "partly" for none.  d_thread.c and d_pure.c make these observations:    *)
(* a call alone, first calls at the same time, sequences, any calls at     *)
(* the same time.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS NT, Keeps, Calls
Thr == 1..NT
Pairs == (0..1) \X (0..1)
Tab == 5                                  \* contents of the table once computed
Value(a) == Tab + 2 * a[1] + a[2]
VARIABLES pcs, arg, result, left, tabv, flagv, keyv, lastv
vars == <<pcs, arg, result, left, tabv, flagv, keyv, lastv>>
None == <<9, 9>>
Init ==
  /\ pcs = [h \in Thr |-> "idle"] /\ arg = [h \in Thr |-> None] /\ result = [h \in Thr |-> 0]
  /\ left = [h \in Thr |-> Calls] /\ tabv = 0 /\ flagv = FALSE /\ keyv = None /\ lastv = 0
Go(h, to) == pcs' = [pcs EXCEPT ![h] = to]
SameKey(h) == IF Keeps = "partly" THEN keyv[1] = arg[h][1] ELSE keyv = arg[h]
Call(h) ==
  /\ pcs[h] \in {"idle", "done"} /\ left[h] > 0
  /\ \E a \in Pairs : arg' = [arg EXCEPT ![h] = a]
  /\ left' = [left EXCEPT ![h] = @ - 1]
  /\ Go(h, IF Keeps = "nothing" THEN "compute" ELSE IF Keeps \in {"table", "flag"} THEN "test" ELSE "look")
  /\ UNCHANGED <<result, tabv, flagv, keyv, lastv>>
Test(h) ==
  /\ pcs[h] = "test"
  /\ Go(h, IF flagv THEN "compute" ELSE IF Keeps = "flag" THEN "raise" ELSE "fill")
  /\ UNCHANGED <<arg, result, left, tabv, flagv, keyv, lastv>>
Fill(h) ==
  /\ pcs[h] = "fill" /\ tabv' = Tab
  /\ Go(h, IF Keeps = "flag" THEN "compute" ELSE "raise")
  /\ UNCHANGED <<arg, result, left, flagv, keyv, lastv>>
Raise(h) ==
  /\ pcs[h] = "raise" /\ flagv' = TRUE
  /\ Go(h, IF Keeps = "flag" THEN "fill" ELSE "compute")
  /\ UNCHANGED <<arg, result, left, tabv, keyv, lastv>>
Compute(h) ==
  /\ pcs[h] = "compute"
  /\ result' = [result EXCEPT ![h] = (IF Keeps \in {"table", "flag"} THEN tabv ELSE Tab) + 2 * arg[h][1] + arg[h][2]]
  /\ Go(h, IF Keeps \in {"last", "partly"} THEN "key" ELSE "done")
  /\ UNCHANGED <<arg, left, tabv, flagv, keyv, lastv>>
Look(h) ==
  /\ pcs[h] = "look"
  /\ Go(h, IF SameKey(h) THEN "reuse" ELSE "compute")
  /\ UNCHANGED <<arg, result, left, tabv, flagv, keyv, lastv>>
Reuse(h) ==
  /\ pcs[h] = "reuse" /\ result' = [result EXCEPT ![h] = lastv] /\ Go(h, "done")
  /\ UNCHANGED <<arg, left, tabv, flagv, keyv, lastv>>
Key(h) ==
  /\ pcs[h] = "key" /\ keyv' = arg[h] /\ Go(h, "val")
  /\ UNCHANGED <<arg, result, left, tabv, flagv, lastv>>
Val(h) ==
  /\ pcs[h] = "val" /\ lastv' = result[h] /\ Go(h, "done")
  /\ UNCHANGED <<arg, result, left, tabv, flagv, keyv>>
Next == \E h \in Thr : Call(h) \/ Test(h) \/ Fill(h) \/ Raise(h) \/ Compute(h) \/ Look(h) \/ Reuse(h) \/ Key(h) \/ Val(h)
Spec == Init /\ [][Next]_vars

\* what is observed of a call is its result
Pure == \A h \in Thr : pcs[h] = "done" => result[h] = Value(arg[h])
\* the first call of each thread
PureFirst == \A h \in Thr : pcs[h] = "done" /\ left[h] = Calls - 1 => result[h] = Value(arg[h])
=============================================================================
