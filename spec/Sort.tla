-------------------------------- MODULE Sort --------------------------------
(***************************************************************************)
(* Sorting: what is promised, and the quicksort of the library (pivot in   *)
(* the middle, insertion sort below Small elements) as a state machine     *)
(* over a stack of segments. It goes on with the smaller part; what waits  *)
(* on the stack then is at most log_2 of the length.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Count(v, x) == Cardinality({i \in 1..Len(v) : v[i] = x})
SameElements(u, v) ==
  /\ Len(u) = Len(v)
  /\ LET S == {u[i] : i \in 1..Len(u)} IN
     /\ S = {v[i] : i \in 1..Len(v)}
     /\ \A x \in S : Count(u, x) = Count(v, x)

-----------------------------------------------------------------------------
CONSTANTS MaxLen, Values, Small, SmallerFirst
VARIABLES input, a, stack, pc, i, j, x
vars == <<input, a, stack, pc, i, j, x>>
\* a segment <<lo, n>> holds a[lo+1], ..., a[lo+n]

Init ==
  /\ \E n \in 0..MaxLen : input \in [1..n -> Values]
  /\ a = input /\ stack = <<<<0, Len(input)>>>> /\ pc = "pick" /\ i = 0 /\ j = 0 /\ x = 0

Seg == stack[Len(stack)]
Lo == Seg[1]
N == Seg[2]
A(k) == a[Lo + k + 1]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Swap(v, p, q) == [v EXCEPT ![Lo + p + 1] = v[Lo + q + 1], ![Lo + q + 1] = v[Lo + p + 1]]

Sorted(v, lo, n) == \A p, q \in 1..n : p < q => v[lo + p] <= v[lo + q]

\* insertion sort of a small segment, in one step
Insert ==
  /\ pc = "pick" /\ stack # <<>> /\ N < Small
  /\ \E v \in [1..Len(a) -> Values] :
       /\ \A k \in 1..Len(a) : (k <= Lo \/ k > Lo + N) => v[k] = a[k]
       /\ SameElements(v, a) /\ Sorted(v, Lo, N)
       /\ a' = v
  /\ stack' = Pop
  /\ UNCHANGED <<input, pc, i, j, x>>

Pick ==
  /\ pc = "pick" /\ stack # <<>> /\ N >= Small
  /\ x' = A(N \div 2)
  /\ a' = Swap(a, N \div 2, 0)
  /\ i' = 0 /\ j' = N - 1
  /\ pc' = "down1" /\ UNCHANGED <<input, stack>>

\* do { j-- } while (a[j] > x)
Down(here, next) ==
  /\ pc = here
  /\ IF A(j) > x THEN j' = j - 1 /\ UNCHANGED <<i, pc>>
                 ELSE pc' = next /\ UNCHANGED j /\ i' = i + 1
  /\ UNCHANGED <<input, a, stack, x>>
\* do { i++ } while (i <= j && a[i] < x)
Up1 ==
  /\ pc = "up1"
  /\ IF i <= j /\ A(i) < x THEN i' = i + 1 /\ UNCHANGED <<pc>> ELSE pc' = "test" /\ UNCHANGED i
  /\ UNCHANGED <<input, a, stack, x, j>>
Up2 ==
  /\ pc = "up2"
  /\ IF A(i) < x THEN i' = i + 1 /\ UNCHANGED <<pc>> ELSE pc' = "test" /\ UNCHANGED i
  /\ UNCHANGED <<input, a, stack, x, j>>
Test ==
  /\ pc = "test"
  /\ IF i < j
     THEN a' = Swap(a, i, j) /\ j' = j - 1 /\ pc' = "down2" /\ UNCHANGED <<i, stack>>
     ELSE /\ a' = Swap(a, 0, j)
          /\ stack' = Pop \o LET left == <<Lo, j>> right == <<Lo + j + 1, N - j - 1>>
                             IN  IF SmallerFirst /\ N - j - 1 < j THEN <<left, right>> ELSE <<right, left>>
          /\ pc' = "pick" /\ UNCHANGED <<i, j>>
  /\ UNCHANGED <<input, x>>
Next == Insert \/ Pick \/ Down("down1", "up1") \/ Up1 \/ Test \/ Down("down2", "up2") \/ Up2
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the indices stay inside of the segment
InBounds == (pc \in {"down1", "down2"} => j >= 0 /\ j < N) /\ (pc = "up2" => i >= 0 /\ i < N) /\ (pc = "up1" /\ i <= j => i < N)
Depth == Len(stack) <= 1 \/ 2 ^ (Len(stack) - 1) <= Len(input)
Permutes == SameElements(a, input)
Done == stack = <<>>
Result == Done => Sorted(a, 0, Len(a))
Terminates == <>Done
=============================================================================
