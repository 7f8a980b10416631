------------------------------- MODULE Growth -------------------------------
(***************************************************************************)
(* How large the integers of the lazy-reduction networks can become.       *)
(*                                                                         *)
(* The rounds do not reduce sums: only the product by a twiddle factor is  *)
(* reduced, and only partly.  State: for each element of the array a bound *)
(* on its absolute value, over all inputs; one action per round, with the  *)
(* real twiddle factors.  The bounds must stay within 32 bits, and every   *)
(* product within the domain of mul_red.                                   *)
(***************************************************************************)
EXTENDS Rounds, Tables

\* bound on |w * x| / 2^12 for |x| <= m, rounded up (no large intermediate value)
MulShift(w, m) == (m \div 4096) * w + (((m % 4096) * w) \div 4096) + 1
\* bound on |red(w * x)|
RedBound(w, m) == 12285 + MulShift(w, m)

\* absolute values of the table entries for the exponents 0 .. 2n-1 of psi
AbsTab(psi, n) ==
  LET i3 == Inv3
      pw == Geo(i3, psi, 2 * n)
  IN  FoldLeft(LAMBDA acc, i : Append(acc, LET z == Shift(pw[i]) IN IF z < 0 THEN -z ELSE z), <<>>, Iota(2 * n))
AbsTw(At, e) == At[1 + e]

\* one round on bounds: result and the largest bound on |w*x|/2^12
GrowRound(alg, comb, b, t, At) ==
  LET n == Len(b)
      d == Dist(alg, n, t)
      W(s) == AbsTw(At, TwExp(alg, comb, n, t, TwIdx(alg, n, t, s)))
      unit(s) == comb = "ntt" /\ TwIdx(alg, n, t, s) = 0      \* no product
  IN  [i \in 1..n |->
        LET s == i - 1 IN
        IF IsCT(alg)
        THEN LET u == IF IsLow(alg, n, t, s) THEN b[i] ELSE b[i - d]
                 v == IF IsLow(alg, n, t, s) THEN b[i + d] ELSE b[i]
             IN  u + (IF unit(s) THEN v ELSE RedBound(W(s), v))
        ELSE IF IsLow(alg, n, t, s) THEN b[i] + b[i + d]
             ELSE LET m == b[i - d] + b[i] IN IF unit(s) THEN m ELSE RedBound(W(s), m)]

\* the largest bound on |w*x|/2^12 over the products of the round
RoundProducts(alg, comb, b, t, At) ==
  LET n == Len(b)
      d == Dist(alg, n, t)
  IN  FoldLeft(LAMBDA m, i :
                 IF IsLow(alg, n, t, i - 1) THEN m
                 ELSE LET w == AbsTw(At, TwExp(alg, comb, n, t, TwIdx(alg, n, t, i - 1)))
                          z == MulShift(w, IF IsCT(alg) THEN b[i] ELSE b[i - d] + b[i])
                      IN  IF z > m THEN z ELSE m, 0, Iota(n))

MaxOf(v) == FoldLeft(LAMBDA m, i : IF v[i] > m THEN v[i] ELSE m, v[1], Iota(Len(v)))

\* bound on the results of a whole transform
Grow(alg, comb, n, At, inb) ==
  MaxOf(FoldLeft(LAMBDA b, t : GrowRound(alg, comb, b, t, At), [i \in 1..n |-> inb], RoundSeq(alg, n)))

Max32 == 2147483647
\* domain of mul_red: -8796042698752 <= z <= 8796093026303, divided by 2^12
MaxShift == 2147471361
=============================================================================
