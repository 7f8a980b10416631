----------------------------- MODULE AbstractMC -----------------------------
(***************************************************************************)
(* A transform and its interval version side by side: any input within     *)
(* the input intervals, any table within the intervals of factors.         *)
(* Checked after every round: the intervals describe the array, and if no  *)
(* interval exceeds the range of the type (no warning), no integer does.   *)
(***************************************************************************)
EXTENDS Abstract
CONSTANTS N, M, InItvs, TwItvs, Top
MCIn == {<<-1, 2>>, <<-4, -3>>}
MCIn3 == {<<-1, 1>>, <<5, 6>>}
MCTw == {<<-1, 0>>, <<2, 2>>}
MCTw3 == {<<-1, 0>>, <<2, 2>>, <<-3, -2>>}
VARIABLES net, wt, ctab, atab, carr, aarr, todo, warned
vars == <<net, wt, ctab, atab, carr, aarr, todo, warned>>

Idx == 1..(N - 1)        \* t + j
Init ==
  /\ net \in Algs /\ wt \in Combs /\ HasVariant(net, wt)
  /\ atab \in [Idx -> TwItvs] /\ aarr \in [1..N -> InItvs]
  /\ ctab \in [Idx -> UNION {PtsOf(u) : u \in TwItvs}] /\ \A i \in Idx : ctab[i] \in PtsOf(atab[i])
  /\ carr \in [1..N -> UNION {PtsOf(u) : u \in InItvs}] /\ \A i \in 1..N : carr[i] \in PtsOf(aarr[i])
  /\ todo = RoundSeq(net, N) /\ warned = FALSE
Next ==
  /\ todo # <<>>
  /\ LET t == Head(todo) IN
       /\ carr' = ConcRound(net, wt, LAMBDA tt, j : ctab[tt + j], carr, t, M)
       /\ aarr' = AbsRound(net, wt, LAMBDA tt, j : atab[tt + j], aarr, t, M)
  /\ warned' = (warned \/ \E i \in 1..N : aarr'[i][1] < -Top \/ aarr'[i][2] > Top)
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<net, wt, ctab, atab>>
Spec == Init /\ [][Next]_vars

Described == \A i \in 1..N : carr[i] \in PtsOf(aarr[i])
NoSurprise == ~warned => \A i \in 1..N : -Top <= carr[i] /\ carr[i] <= Top

Small == {u \in (-6..6) \X (-6..6) : u[1] <= u[2] /\ u[2] - u[1] <= 5}
ASSUME \A y \in {<<0, 1>>, <<-3, 4>>}, x \in Small, w \in {<<0, 0>>, <<-2, 1>>, <<3, 5>>, <<-7, -5>>} : ExactButterfly(y, x, w, M)
=============================================================================
