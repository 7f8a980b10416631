----------------------------- MODULE VerifierMC -----------------------------
(***************************************************************************)
(* Abstract interpretation with the domain of Verifier.tla, next to the    *)
(* execution it describes.  In every step any statement may be next: all   *)
(* programs up to Depth statements are explored together.                  *)
(* Mod stands for 4096 in the reduction: 3*(x % Mod) - x \div Mod.         *)
(*                                                                         *)
(* Checked: the environment describes the execution, and a program whose   *)
(* assertions are all declared safe never fails one.                       *)
(***************************************************************************)
EXTENDS Verifier

CONSTANTS Depth, Mod, Lim
VARIABLES conc, absd, step, failed, safe
vars == <<conc, absd, step, failed, safe>>

Itvs == {iv \in (-Lim..Lim) \X (-Lim..Lim) : iv[1] <= iv[2]}
Init ==
  /\ \E i1, i2 \in Itvs, i3 \in {<<-1, 1>>, <<0, 0>>} :
       /\ absd = [bot |-> 0, v |-> <<i1, i2, i3>>]
       /\ conc \in {s \in [Vars -> -Lim..Lim] : In(s[1], i1) /\ In(s[2], i2) /\ In(s[3], i3)}
  /\ step = 0 /\ failed = FALSE /\ safe = TRUE

SetVar(x, iv) == [absd EXCEPT !.v[x] = iv]
Step(c2, a2) == conc' = c2 /\ absd' = a2 /\ step' = step + 1
Keep == UNCHANGED <<failed, safe>>
FinI(iv) == iv[1] # -Inf /\ iv[2] # Inf
\* statements on x := y op z; here bounds stay finite except after Forget
Sum == \E x, y, z \in Vars :
  /\ Step([conc EXCEPT ![x] = conc[y] + conc[z]],
          SetVar(x, LET p == absd.v[y] q == absd.v[z] IN
                    <<IF p[1] = -Inf \/ q[1] = -Inf THEN -Inf ELSE p[1] + q[1], IF p[2] = Inf \/ q[2] = Inf THEN Inf ELSE p[2] + q[2]>>))
  /\ Keep
Diff == \E x, y, z \in Vars :
  /\ Step([conc EXCEPT ![x] = conc[y] - conc[z]],
          SetVar(x, LET p == absd.v[y] q == absd.v[z] IN
                    <<IF p[1] = -Inf \/ q[2] = Inf THEN -Inf ELSE p[1] - q[2], IF p[2] = Inf \/ q[1] = -Inf THEN Inf ELSE p[2] - q[1]>>))
  /\ Keep
Reduce == \E x, y \in Vars :
  /\ Step([conc EXCEPT ![x] = RedM(conc[y], Mod)],
          SetVar(x, LET p == absd.v[y] IN IF FinI(p) THEN <<ClosedMinRed(p[1], p[2], Mod), ClosedMaxRed(p[1], p[2], Mod)>> ELSE <<-Inf, Inf>>))
  /\ Keep
\* a join point: another path arrives with some other values
Merge == \E x \in Vars, iv \in {<<-1, 2>>, <<3, 3>>} :
  /\ Step(conc, Join(absd, SetVar(x, iv)))
  /\ Keep
WidenPoint == \E x \in Vars, iv \in {<<-1, 0>>, <<2, 9>>} :
  LET o == SetVar(x, iv) IN
  /\ Step(conc, [absd EXCEPT !.v[x] = <<IF iv[1] < @[1] THEN -Inf ELSE @[1], IF iv[2] > @[2] THEN Inf ELSE @[2]>>])
  /\ Keep
\* the branch x <= k is taken
Assume == \E x \in Vars, k \in {-1, 1} :
  /\ conc[x] <= k
  /\ Step(conc, SetVar(x, <<absd.v[x][1], Min2(absd.v[x][2], k)>>))
  /\ Keep
Check == \E x \in Vars, k \in {-2, 0, 5} :
  /\ Step(conc, absd)
  /\ failed' = (failed \/ conc[x] > k)
  /\ safe' = (safe /\ absd.v[x][2] <= k)
Next == step < Depth /\ (Sum \/ Diff \/ Reduce \/ Merge \/ WidenPoint \/ Assume \/ Check)
Spec == Init /\ [][Next]_vars

Described == Sat(conc, absd)
SafeMeansSafe == safe => ~failed
=============================================================================
