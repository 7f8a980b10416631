----------------------------- MODULE ConfProd -----------------------------
(***************************************************************************)
(* Records of products modulo X^n + 1.                                     *)
(***************************************************************************)
EXTENDS Rounds

\* The product by the convolution theorem (see Pipeline.tla, where this is
\* checked against the definition): linear-time work per round instead of n^2
ViaNTT(a, b, Pw, IPw) ==
  LET n  == Len(a)
      fa == RunRounds("ct_std2rev", "mulntt", a, Pw)
      fb == RunRounds("ct_std2rev", "mulntt", b, Pw)
      fc == [i \in 1..n |-> (fa[i] * fb[i]) % Q]
      c  == RunRounds("gs_rev2std", "nttmul", fc, IPw)
      s  == Inv(n)
  IN  [i \in 1..n |-> (c[i] * s) % Q]

\* the products of the library are fully reduced
AcceptProd(e, Pw, IPw) ==
  /\ Len(e.a) = e.n /\ Len(e.b) = e.n /\ Len(e.c) = e.n
  /\ Canonical(e.c)
  /\ e.c = IF e.n <= 64 THEN Negacyclic(e.a, e.b) ELSE ViaNTT(e.a, e.b, Pw, IPw)

\* x X^i * y X^j = v X^p
MonoPos(n, i, j) == (i + j) % n
MonoVal(n, i, j, x, y) == IF i + j >= n THEN (-(x * y)) % Q ELSE (x * y) % Q
AcceptMono(e) ==
  /\ Len(e.i) = Len(e.j) /\ Len(e.i) = Len(e.p) /\ Len(e.i) = Len(e.v) /\ Len(e.i) = Len(e.x) /\ Len(e.i) = Len(e.y)
  /\ \A m \in 1..Len(e.i) :
       /\ e.p[m] = MonoPos(e.n, e.i[m], e.j[m])
       /\ e.v[m] = MonoVal(e.n, e.i[m], e.j[m], e.x[m], e.y[m])

\* known answers: no operand occurs twice (each says of which earlier one it
\* is a copy, or its own number, from 0)
AcceptKatDist(e) ==
  \A i \in 1..Len(e.first) : e.first[i] = i - 1 /\ e.second[i] = i - 1
\* a run of a known-answer program with products that give the known answers,
\* except for the coefficients changed in the way e.kind if e.wrong = 1: it succeeds
\* if and only if there is none, after it called every product on every pair
AcceptKatRun(e) ==
  IF e.wrong = 1 THEN e.status \in 1..255
  ELSE e.status = 0 /\ e.least >= 1 /\ e.foreign = 0
=============================================================================
