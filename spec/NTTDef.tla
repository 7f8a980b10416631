------------------------------ MODULE NTTDef ------------------------------
(***************************************************************************)
(* What the library is meant to compute, by definition: the number-        *)
(* theoretic transform, its psi-weighted variants, the product of          *)
(* polynomials modulo X^n + 1.  No algorithm here.                         *)
(***************************************************************************)
EXTENDS Zq

Dot(u, v) == FoldLeft(LAMBDA acc, i : (acc + u[i] * v[i]) % Q, 0, Iota(Len(u)))

\* Pw = <<r^0, ..., r^(2n-1)>> for a 2n-th root r of unity, omega = r^2.
\* Element k of NTT(a) is the sum over i of a[i] * omega^(i*k).
NTTElem(a, k, Pw) ==
  LET n == Len(a) IN
  FoldLeft(LAMBDA acc, i : (acc + (a[i] % Q) * Pw[1 + ((2 * (i - 1) * k) % (2 * n))]) % Q, 0, Iota(n))

NTT(a, Pw) == [k \in 1..Len(a) |-> NTTElem(a, k - 1, Pw)]

\* comb = "ntt"    : NTT(a)
\*        "mulntt" : NTT(a') with a'[i] = a[i] * r^i
\*        "nttmul" : NTT(a)[i] * r^i
Weighted(a, Pw) == [i \in 1..Len(a) |-> ((a[i] % Q) * Pw[i]) % Q]

Transform(comb, a, Pw) ==
  CASE comb = "ntt"    -> NTT(a, Pw)
    [] comb = "mulntt" -> NTT(Weighted(a, Pw), Pw)
    [] comb = "nttmul" -> Weighted(NTT(a, Pw), Pw)

\* the same on the data layout of one variant of the library: alg says which
\* of the input and the output is in bit-reverse order
InRev(alg)  == alg \in {"ct_rev2std", "gs_rev2std"}
OutRev(alg) == alg \in {"ct_std2rev", "gs_std2rev"}
ToStdIn(alg, a)   == IF InRev(alg) THEN BitReversed(a) ELSE a
FromStdOut(alg, a) == IF OutRev(alg) THEN BitReversed(a) ELSE a

DefTransform(alg, comb, a, Pw) ==
  FromStdOut(alg, Transform(comb, ToStdIn(alg, a), Pw))

\* column j of the transform: the image of amp * (unit vector j) is the
\* geometric progression of first term f and ratio g
ColFirst(comb, n, j, amp, Pw) ==
  CASE comb = "ntt"    -> amp % Q
    [] comb = "mulntt" -> ((amp % Q) * Pw[1 + j]) % Q
    [] comb = "nttmul" -> amp % Q
ColRatio(comb, n, j, Pw) ==
  CASE comb = "ntt"    -> Pw[1 + ((2 * j) % (2 * n))]
    [] comb = "mulntt" -> Pw[1 + ((2 * j) % (2 * n))]
    [] comb = "nttmul" -> Pw[1 + ((2 * j + 1) % (2 * n))]

-----------------------------------------------------------------------------
\* Product modulo X^n + 1 (negacyclic convolution)
ConvElem(a, b, k) ==   \* k is 0-based
  LET n == Len(a) IN
  FoldLeft(LAMBDA acc, i :
             IF i - 1 <= k THEN (acc + a[i] * b[k - i + 2]) % Q
                           ELSE (acc - a[i] * b[n + k - i + 2]) % Q,
           0, Iota(n))
Negacyclic(a, b) == [k \in 1..Len(a) |-> ConvElem(a, b, k - 1)]

\* rotation: the product by amp * X^r
Rotate(b, r, amp) ==
  LET n == Len(b) IN
  [k \in 1..n |-> IF k - 1 >= r THEN (amp * b[k - r]) % Q ELSE (-(amp * b[n + k - r])) % Q]
=============================================================================
