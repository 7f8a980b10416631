---------------------------- MODULE TransformMC ----------------------------
(***************************************************************************)
(* The transforms as a state machine: one action per round.  Checked       *)
(* against the definition for every input vector over a small field, and   *)
(* for a basis of the inputs (the rounds are linear) with the parameters   *)
(* of the library.                                                         *)
(***************************************************************************)
EXTENDS Rounds, FiniteSets

CONSTANTS N, Psi, Mode     \* Mode = "all" (every vector) or "basis"

VARIABLES net, wt, inp, arr, todo
vars == <<net, wt, inp, arr, todo>>

ASSUME IsPsi(Psi, N)

Pw == Geo(1, Psi, 2 * N)
IPw == Geo(1, Inv(Psi), 2 * N)

Unit(j) == [i \in 1..N |-> IF i = j THEN 1 ELSE 0]
Inputs == IF Mode = "all" THEN [1..N -> 0..(Q - 1)] ELSE {Unit(j) : j \in 1..N}

Init ==
  /\ net \in Algs /\ wt \in Combs /\ HasVariant(net, wt)
  /\ inp \in Inputs
  /\ arr = inp
  /\ todo = RoundSeq(net, N)

DoRound ==
  /\ todo # <<>>
  /\ arr' = Round(net, LAMBDA t, j : Pw[1 + TwExp(net, wt, N, t, j)], arr, Head(todo))
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<net, wt, inp>>

Next == DoRound
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == Len(arr) = N /\ Canonical(arr)
Done == todo = <<>>

\* final result
Correct == Done => EqMod(arr, DefTransform(net, wt, inp, Pw))

\* between rounds (for the unweighted variants)
Stage ==
  LET m == IF Done THEN (IF IsCT(net) THEN N ELSE 1)
           ELSE IF IsCT(net) THEN Head(todo) ELSE 2 * Head(todo)
      xs == ToStdIn(net, inp)
  IN  wt = "ntt" =>
        IF IsCT(net) THEN CTStage(net, arr, xs, m, Pw) ELSE GSStage(net, arr, NTT(xs, Pw), m, Pw)

\* column formula used by the conformance checks
Column ==
  (Done /\ Mode = "basis") =>
    LET j == CHOOSE j \in 0..N-1 : ToStdIn(net, inp)[j + 1] = 1
        f == ColFirst(wt, N, j, 1, Pw)
        g == ColRatio(wt, N, j, Pw)
    IN  FromStdOut(net, arr) = Geo(f, g, N)

\* the inverse transform undoes the transform, up to the factor N
\* (every pairing of a forward and an inverse network with compatible order)
Back(galg, gcomb) ==
  LET y == IF OutRev(net) = InRev(galg) THEN arr ELSE BitReversed(arr)
  IN  RunRounds(galg, gcomb, y, IPw)
Inverts ==
  Done => \A galg \in Algs :
     /\ wt = "ntt" =>
          LET z == Back(galg, "ntt")
              z1 == IF OutRev(galg) THEN BitReversed(z) ELSE z
          IN  \A i \in 1..N : z1[i] = (N * ToStdIn(net, inp)[i]) % Q
     /\ (wt = "mulntt" /\ HasVariant(galg, "nttmul")) =>
          LET z == Back(galg, "nttmul")
              z1 == IF OutRev(galg) THEN BitReversed(z) ELSE z
          IN  \A i \in 1..N : z1[i] = (N * ToStdIn(net, inp)[i]) % Q

Terminates == <>Done
=============================================================================
