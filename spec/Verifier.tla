------------------------------ MODULE Verifier ------------------------------
(***************************************************************************)
(* The abstract domain of the verifier: environments that map each of      *)
(* three variables to an interval, with a special transfer function for    *)
(* the reduction.  An environment is [bot, v]: bot = 1 means unreachable,  *)
(* v[i] = <<lo, hi>> with -Inf and Inf for missing bounds.                 *)
(*                                                                         *)
(* Soundness is stated with concrete states: whatever a statement of the   *)
(* program can do from a state described by the environment is described   *)
(* by the resulting environment.                                           *)
(***************************************************************************)
EXTENDS ConfBounds

Inf == 100000
Vars == 1..3
Points == -6..6
States == [Vars -> Points]
In(x, i) == i[1] <= x /\ x <= i[2]
\* the meaning of an environment
Sat(s, e) == e.bot = 0 /\ \A i \in Vars : In(s[i], e.v[i])
Bottom == [bot |-> 1, v |-> <<>>]
Top == [bot |-> 0, v |-> <<<<-Inf, Inf>>, <<-Inf, Inf>>, <<-Inf, Inf>>>>]
\* states described by e among the points (bounds lie well within them)
Gamma(e) == IF e.bot = 1 THEN {} ELSE {s \in States : Sat(s, e)}

Leq(a, b) == a.bot = 1 \/ (b.bot = 0 /\ \A i \in Vars : b.v[i][1] <= a.v[i][1] /\ a.v[i][2] <= b.v[i][2])
Join(a, b) == IF a.bot = 1 THEN b ELSE IF b.bot = 1 THEN a
  ELSE [bot |-> 0, v |-> [i \in Vars |-> <<Min2(a.v[i][1], b.v[i][1]), Max2(a.v[i][2], b.v[i][2])>>]]
Meet(a, b) == IF a.bot = 1 \/ b.bot = 1 THEN Bottom
  ELSE LET m == [i \in Vars |-> <<Max2(a.v[i][1], b.v[i][1]), Min2(a.v[i][2], b.v[i][2])>>]
       IN  IF \E i \in Vars : m[i][1] > m[i][2] THEN Bottom ELSE [bot |-> 0, v |-> m]

\* widening: above both, and no new finite bounds except thresholds
Thresholds == {-7, -3, 0, 2, 9}
WidenOK(a, b, r, ts) ==
  /\ Leq(a, r) /\ Leq(b, r)
  /\ (a.bot = 0 /\ b.bot = 0) =>
       \A i \in Vars : r.v[i][1] \in {a.v[i][1], -Inf} \cup ts /\ r.v[i][2] \in {a.v[i][2], Inf} \cup ts
NarrowOK(a, b, r) == Leq(Meet(a, b), r) /\ Leq(r, a)

\* expressions c1*u + c2*v + c3*w + k, constraints of these against 0
Val(c, s) == c[1] * s[1] + c[2] * s[2] + c[3] * s[3] + c[4]
Holds(c, k, s) == LET x == Val(c, s) IN
  CASE k = "le" -> x <= 0 [] k = "lt" -> x < 0 [] k = "eq" -> x = 0 [] k = "ne" -> x # 0

\* the value that x is given in state s
Power2(k) == 2 ^ k
NewValue(e, s) ==
  LET y == s[e.args[2]] IN
  CASE e.op = "add" -> y + s[e.args[3]]   [] e.op = "addk" -> y + e.args[3]
    [] e.op = "sub" -> y - s[e.args[3]]   [] e.op = "subk" -> y - e.args[3]
    [] e.op = "mul" -> y * s[e.args[3]]   [] e.op = "mulk" -> y * e.args[3]
    [] e.op = "conv" -> y
    [] e.op = "shlk" -> y * Power2(e.args[3])
    [] e.op = "ashrk" -> y \div Power2(e.args[3])
    [] e.op = "andk" -> IF e.args[3] = 0 THEN 0 ELSE IF e.args[3] = 1 THEN y % 2 ELSE IF e.args[3] = 3 THEN y % 4 ELSE 2 * ((y \div 2) % 2)
    [] e.op = "shl" -> y * Power2(s[e.args[3]])
    [] e.op = "ashr" -> y \div Power2(s[e.args[3]])
    [] e.op = "and" -> LET k == s[e.args[3]] IN IF k = 0 THEN 0 ELSE IF k = 1 THEN y % 2 ELSE 2 * ((y \div 2) % 2)

SatUpd(s, x, val, r) == r.bot = 0 /\ \A i \in Vars : In(IF i = x THEN val ELSE s[i], r.v[i])
Others(a, r, x) == (a.bot = 0 /\ r.bot = 0) => \A i \in Vars \ {x} : r.v[i] = a.v[i]
SoundUpd(e, f(_)) ==
  /\ e.a.bot = 1 => e.r.bot = 1
  /\ \A s \in Gamma(e.a) : SatUpd(s, e.args[1], f(s), e.r)
  /\ Others(e.a, e.r, e.args[1])
ArgSet(e) == {e.args[i] : i \in 1..Len(e.args)}

AcceptRed(e) ==
  IF e.bot = 1 THEN e.rbot = 1
  ELSE /\ e.rbot = 0 /\ e.same = 1
       /\ IF e.inf # 0 THEN e.oinf = 3
          ELSE e.oinf = 0 /\ e.l = WMinRed(e.p, e.q) /\ e.h = WMaxRed(e.p, e.q)

AcceptDom(e) ==
  CASE e.op = "leq" -> e.res = IF Leq(e.a, e.b) THEN 1 ELSE 0
    [] e.op \in {"join", "joineq"} -> e.r = Join(e.a, e.b)
    [] e.op \in {"meet", "meeteq"} -> e.r = Meet(e.a, e.b)
    [] e.op = "widen" -> WidenOK(e.a, e.b, e.r, {})
    [] e.op = "widenth" -> WidenOK(e.a, e.b, e.r, Thresholds)
    [] e.op = "narrow" -> NarrowOK(e.a, e.b, e.r)
    [] e.op = "chain" -> e.steps < 40
    [] e.op = "forget" -> IF e.a.bot = 1 THEN e.r.bot = 1
                          ELSE e.r = [bot |-> 0, v |-> [i \in Vars |-> IF i \in ArgSet(e) THEN Top.v[i] ELSE e.a.v[i]]]
    [] e.op = "project" -> IF e.a.bot = 1 THEN e.r.bot = 1
                           ELSE e.r = [bot |-> 0, v |-> [i \in Vars |-> IF i \in ArgSet(e) THEN e.a.v[i] ELSE Top.v[i]]]
    [] e.op \in {"rename", "expand"} ->
         IF e.a.bot = 1 THEN e.r.bot = 1
         ELSE LET x == e.args[1] y == e.args[2] IN
              e.r = [bot |-> 0, v |-> [i \in Vars |-> IF i = y THEN e.a.v[x] ELSE IF i = x /\ e.op = "rename" THEN Top.v[i] ELSE e.a.v[i]]]
    [] e.op = "rename2" ->                  \* x, y renamed to z, t; then t to x
         IF e.a.bot = 1 THEN e.r.bot = 1
         ELSE LET x == e.args[1] y == e.args[2] z == e.args[3] IN
              e.r = [bot |-> 0, v |-> [i \in Vars |-> IF i = z THEN e.a.v[x] ELSE IF i = x THEN e.a.v[y] ELSE Top.v[i]]]
    [] e.op = "assign" -> SoundUpd(e, LAMBDA s : Val(e.e, s))
    [] e.op = "weak" -> SoundUpd(e, LAMBDA s : Val(e.e, s)) /\ Leq(e.a, e.r)
    [] e.op = "select" -> SoundUpd(e, LAMBDA s : IF Holds(e.c, e.ck, s) THEN Val(e.e, s) ELSE Val(e.f, s))
    [] e.op = "constrain" -> /\ Leq(e.r, e.a)
                             /\ \A s \in Gamma(e.a) : (Holds(e.c, e.ck, s) /\ Holds(e.d, e.dk, s)) => Sat(s, e.r)
    [] e.op = "entails" -> e.res = 1 => \A s \in Gamma(e.a) : Holds(e.c, e.ck, s)
    [] e.op = "top" -> e.r = Top /\ e.istop = 1
    [] e.op = "bottom" -> e.r.bot = 1 /\ e.istop = 0
    [] e.op = "same" -> e.r = e.a
    [] e.op = "lin" -> \A s \in States : Sat(s, e.a) <=> \A i \in 1..Len(e.cs) : Holds(e.cs[i].c, e.cs[i].k, s)
    [] e.op = "red" -> AcceptRed(e)
    [] OTHER -> SoundUpd(e, LAMBDA s : NewValue(e, s))
=============================================================================
