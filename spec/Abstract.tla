------------------------------ MODULE Abstract ------------------------------
(***************************************************************************)
(* The interval version of a transform: the networks of Rounds on          *)
(* intervals <<lo, hi>> instead of integers, with intervals of twiddle     *)
(* factors.  m is the size of the blocks of the reduction (4096 in the     *)
(* library).  Integers are not reduced modulo Q, as in the lazy networks.  *)
(***************************************************************************)
EXTENDS Rounds, Bounds

IAdd(u, v) == <<u[1] + v[1], u[2] + v[2]>>
ISub(u, v) == <<u[1] - v[2], u[2] - v[1]>>
IRedMul(u, w, m) ==
  <<WinRedMulI(u[1], u[2], w[1], w[2], m, FALSE), WinRedMulI(u[1], u[2], w[1], w[2], m, TRUE)>>

\* the factor of j = 0 is 1 in the unweighted transforms: no product
Scaled(comb, j) == ~(comb = "ntt" /\ j = 0)

\* generic over the domain of values: Add, Sub, Mul(x, w)
LazyRound(alg, comb, Add(_, _), Sub(_, _), Mul(_, _), Tw(_, _), a, t) ==
  LET n == Len(a)
      d == Dist(alg, n, t)
  IN  [i \in 1..n |->
        LET s == i - 1
            j == TwIdx(alg, n, t, s)
            M(x) == IF Scaled(comb, j) THEN Mul(x, Tw(t, j)) ELSE x
        IN  IF IsCT(alg)
            THEN IF IsLow(alg, n, t, s) THEN Add(a[i], M(a[i + d])) ELSE Sub(a[i - d], M(a[i]))
            ELSE IF IsLow(alg, n, t, s) THEN Add(a[i], a[i + d]) ELSE M(Sub(a[i - d], a[i]))]
ConcRound(alg, comb, Tw(_, _), a, t, m) ==
  LazyRound(alg, comb, LAMBDA x, y : x + y, LAMBDA x, y : x - y, LAMBDA x, w : RedM(x * w, m), Tw, a, t)
AbsRound(alg, comb, Tw(_, _), a, t, m) ==
  LazyRound(alg, comb, IAdd, ISub, LAMBDA x, w : IRedMul(x, w, m), Tw, a, t)

\* exact image of one butterfly: the hull of the results
Hull(S) == <<SetMin(S), SetMax(S)>>
PtsOf(u) == u[1]..u[2]
ExactButterfly(y, x, w, m) ==
  /\ IAdd(y, IRedMul(x, w, m)) = Hull({p + RedM(q * r, m) : p \in PtsOf(y), q \in PtsOf(x), r \in PtsOf(w)})
  /\ ISub(y, IRedMul(x, w, m)) = Hull({p - RedM(q * r, m) : p \in PtsOf(y), q \in PtsOf(x), r \in PtsOf(w)})
  /\ IRedMul(ISub(y, x), w, m) = Hull({RedM((p - q) * r, m) : p \in PtsOf(y), q \in PtsOf(x), r \in PtsOf(w)})
=============================================================================
