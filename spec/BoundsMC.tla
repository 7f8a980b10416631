------------------------------ MODULE BoundsMC ------------------------------
(***************************************************************************)
(* The closed and windowed forms of Bounds agree with the definitions, and *)
(* the butterfly bounds are the least ones, for every interval and factor  *)
(* of a small range.  The analogue of the library's parameters: blocks of  *)
(* size M instead of 4096.                                                 *)
(***************************************************************************)
EXTENDS Bounds
CONSTANTS M, R, WR
VARIABLES a, b, w
vars == <<a, b, w>>

Init == a \in -R..R /\ b \in -R..R /\ a <= b /\ w = -WR
Next == w < WR /\ w' = w + 1 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars

ClosedOK == /\ ClosedMaxRed(a, b, M) = DefMaxRed(a, b, M)
            /\ ClosedMinRed(a, b, M) = DefMinRed(a, b, M)
WindowOK == /\ WinMaxRedMul(a, b, w, M) = DefMaxRedMul(a, b, w, M)
            /\ WinMinRedMul(a, b, w, M) = DefMinRedMul(a, b, w, M)
\* least bound: never exceeded, and attained
LeastOK ==
  (a = -b /\ b >= 0) =>
    LET ct == {Abs(x + RedM(w * y, M)) : x, y \in a..b} \cup {Abs(x - RedM(w * y, M)) : x, y \in a..b}
        gs == {Abs(x + y) : x, y \in a..b} \cup {Abs(RedM((x - y) * w, M)) : x, y \in a..b}
    IN  CTBound(b, w, w, M) = SetMax(ct) /\ GSBound(b, w, w, M) = SetMax(gs)
Shift1 == \A x \in a..a : RedM(w * (x + M), M) = RedM(w * x, M) - w
=============================================================================
