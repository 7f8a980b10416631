------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The product functions as programs: sequences of library operations on   *)
(* the three arrays a, b (arguments) and c (result).                       *)
(*                                                                         *)
(* State: the program, the position in it, the residues held by each array *)
(* and an interval that contains every integer the array can hold, for all *)
(* canonical arguments.  In the lazy-reduction programs every reduction    *)
(* multiplies by 3 and the tables carry the compensating powers of 1/3.    *)
(*                                                                         *)
(* Checked: the result is the product modulo X^n + 1 (all pairs of         *)
(* monomials: the programs are bilinear), it is canonical, no operation is *)
(* applied outside of its domain.                                          *)
(***************************************************************************)
EXTENDS Growth, FiniteSets

CONSTANTS N, Psi, Progs, Monos
AllMonos == (0..(N - 1)) \X (0..(N - 1))
FewMonos == {<<0, 0>>, <<1, N - 1>>, <<N - 1, N - 1>>, <<N \div 2 + 1, N \div 4>>}
AllProgs == ({"plain", "red", "shift"} \X (1..5)) \cup {<<"var", 1>>}

Pw  == Geo(1, Psi, 2 * N)
IPw == Geo(1, Inv(Psi), 2 * N)
At  == TLCEval(AbsTab(Psi, N))
IAt == TLCEval(AbsTab(Inv(Psi), N))

\* instructions: [op, arr] with the networks named by the operation
FwdNet(k) == IF k \in {2, 4} THEN "gs_std2rev" ELSE "ct_std2rev"
InvNet(k) == IF k \in {1, 2} THEN "ct_rev2std" ELSE "gs_rev2std"
I(o, r) == [op |-> o, arr |-> r]
PlainProg(k) ==
  IF k = 5
  THEN <<I("fwd", "a"), I("fwd", "b"), I("mul", "c"), I("inv", "c"), I("divn", "c")>>
  ELSE <<I("psi", "a"), I("fwd", "a"), I("psi", "b"), I("fwd", "b"), I("mul", "c"), I("inv", "c"), I("invpsi", "c")>>
\* shift: the arguments are first shifted to [-(Q-1)/2, (Q-1)/2]
\* var: no reduction before the inverse transform
RedProg(k, shifted, var) ==
  LET pre(r) == (IF shifted THEN <<I("shift", r)>> ELSE <<>>)
                \o (IF k = 5 THEN <<>> ELSE <<I("psi", r)>>) \o <<I("fwd", r), I("red", r)>>
      mid == <<I("mul", "c")>> \o (IF var THEN <<>> ELSE <<I("red", "c"), I("red", "c")>>)
      fin == IF k = 5 THEN <<I("rescale", "c")>> ELSE <<I(IF var THEN "invpsi_var" ELSE "invpsi", "c")>>
  IN  pre("a") \o pre("b") \o mid \o <<I("inv", "c")>> \o fin \o <<I("red", "c"), I("red", "c"), I("correct", "c")>>
Program(g) ==
  CASE g[1] = "plain"  -> PlainProg(g[2])
    [] g[1] = "red"    -> RedProg(g[2], FALSE, FALSE)
    [] g[1] = "shift"  -> RedProg(g[2], TRUE, FALSE)
    [] g[1] = "var"    -> RedProg(g[2], FALSE, TRUE)
Lazy(g) == g[1] # "plain"
Comb(g, inv) == IF g[2] = 5 THEN (IF inv THEN "nttmul" ELSE "mulntt") ELSE "ntt"

VARIABLES prog, pc, val, rng, mono
vars == <<prog, pc, val, rng, mono>>

Unit(j) == [i \in 1..N |-> IF i = j + 1 THEN 1 ELSE 0]
Init ==
  /\ prog \in Progs
  /\ mono \in Monos
  /\ pc = 1
  /\ val = [a |-> Unit(mono[1]), b |-> Unit(mono[2]), c |-> [i \in 1..N |-> 0]]
  /\ rng = [a |-> <<0, Q - 1>>, b |-> <<0, Q - 1>>, c |-> <<-1, -1>>]      \* c is not defined

Ins == Program(prog)[pc]
AbsMax(g) == IF -g[1] > g[2] THEN -g[1] ELSE g[2]
\* residues
Times(v, u) == [i \in 1..N |-> (v[i] * u[i]) % Q]
Const(x) == [i \in 1..N |-> x % Q]
TabRes(name) == [i \in 1..N |-> PowerEntry(name, N, IF Lazy(prog) THEN 1 ELSE 0, i - 1, Pw) % Q]
K == IF Lazy(prog) THEN 3 ELSE 1
Value(o, v) ==
  CASE o = "shift"      -> v
    [] o = "psi"        -> Times(Times(v, TabRes("psi_powers")), Const(K))
    [] o = "fwd"        -> RunRounds(FwdNet(prog[2]), Comb(prog, FALSE), v, Pw)
    [] o = "inv"        -> RunRounds(InvNet(prog[2]), Comb(prog, TRUE), v, IPw)
    [] o = "red"        -> Times(v, Const(3))
    [] o = "invpsi"     -> Times(Times(v, TabRes("scaled_inv_psi_powers")), Const(K))
    [] o = "invpsi_var" -> Times(Times(v, TabRes("scaled_inv_psi_powers_var")), Const(K))
    [] o = "divn"       -> Times(v, Const(Param("inv_n", N, Psi)))
    [] o = "rescale"    -> Times(Times(v, Const(Param("rescale8", N, Psi))), Const(3))
    [] o = "correct"    -> v
    [] o = "mul"        -> Times(Times(val.a, val.b), Const(K))
\* intervals: red on [lo, hi]
RedRange(g) == <<-(g[2] \div 4096), 12285 - (g[1] \div 4096)>>
\* red(x*y) for |x| <= m1, |y| <= m2
MulRange(m1, m2) == LET z == MulShift(m1, m2) IN <<-z, 12285 + z>>
NewRange(o, g) ==
  IF Lazy(prog)
  THEN CASE o = "shift"   -> <<-(Q \div 2), Q \div 2>>
         [] o \in {"psi", "invpsi", "invpsi_var"} -> MulRange(Q \div 2, AbsMax(g))
         [] o = "rescale" -> MulRange(Q - 1, AbsMax(g))
         [] o = "fwd"     -> LET m == Grow(FwdNet(prog[2]), Comb(prog, FALSE), N, At, AbsMax(g)) IN <<-m, m>>
         [] o = "inv"     -> LET m == Grow(InvNet(prog[2]), Comb(prog, TRUE), N, IAt, AbsMax(g)) IN <<-m, m>>
         [] o = "red"     -> RedRange(g)
         [] o = "correct" -> <<0, Q - 1>>
         [] o = "mul"     -> MulRange(AbsMax(rng.a), AbsMax(rng.b))
  ELSE <<0, Q - 1>>
\* domains
Within(o, g) ==
  CASE o = "shift"   -> g[1] >= 0 /\ g[2] < Q
    [] o = "correct" -> g[1] >= -Q /\ g[2] < 2 * Q
    [] o = "mul"     -> TRUE
    [] OTHER         -> g[2] < Max32 \div 4 /\ g[1] > -(Max32 \div 4)

Next ==
  /\ pc <= Len(Program(prog))
  /\ val' = [val EXCEPT ![Ins.arr] = Value(Ins.op, val[Ins.arr])]
  /\ rng' = [rng EXCEPT ![Ins.arr] = NewRange(Ins.op, rng[Ins.arr])]
  /\ pc' = pc + 1
  /\ UNCHANGED <<prog, mono>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc > Len(Program(prog))
InDomain == ~Done => (Ins.op = "mul" \/ Within(Ins.op, rng[Ins.arr]))
Product == Done => val.c = Negacyclic(Unit(mono[1]), Unit(mono[2]))
Reduced == Done => rng.c = <<0, Q - 1>>
Terminates == <>Done
=============================================================================
