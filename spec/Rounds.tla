------------------------------ MODULE Rounds ------------------------------
(***************************************************************************)
(* The algorithms: four butterfly networks (Cooley-Tukey and Gentleman-    *)
(* Sande, bit-reverse to standard and standard to bit-reverse order), each *)
(* in rounds, over tables of twiddle factors laid out as p[t + j] for      *)
(* t = 1, 2, 4, ..., n/2 and j = 0, ..., t-1.  Values are residues.        *)
(***************************************************************************)
EXTENDS NTTDef

Algs  == {"ct_rev2std", "ct_std2rev", "gs_rev2std", "gs_std2rev"}
Combs == {"ntt", "mulntt", "nttmul"}
\* which psi-weighted variants exist
HasVariant(alg, comb) ==
  \/ comb = "ntt"
  \/ comb = "mulntt" /\ alg \in {"ct_rev2std", "ct_std2rev"}
  \/ comb = "nttmul" /\ alg \in {"gs_rev2std", "gs_std2rev"}

\* does the variant use a table whose blocks are in bit-reverse order?
RevTable(alg) == alg \in {"ct_std2rev", "gs_rev2std"}

\* Exponent (of the 2n-th root) of the twiddle factor p[t + j]
TwExp(alg, comb, n, t, j) ==
  LET jj == IF RevTable(alg) THEN RevTab[t][j + 1] ELSE j
      d  == n \div (2 * t)
  IN  IF comb = "ntt" THEN (d * 2 * jj) % (2 * n) ELSE (d * (1 + 2 * jj)) % (2 * n)

\* size-t twiddles come first in Cooley-Tukey, last in Gentleman-Sande
RoundSeq(alg, n) ==
  LET up == [k \in 1..Log2(n) |-> 2 ^ (k - 1)]
  IN  IF alg \in {"ct_rev2std", "ct_std2rev"} THEN up ELSE Reverse(up)

(* Geometry of a round: distance between the two elements of a butterfly   *)
(* and index of its twiddle factor.  s is the 0-based index of an element. *)
Dist(alg, n, t) ==
  IF alg \in {"ct_rev2std", "gs_std2rev"} THEN t ELSE n \div (2 * t)
IsLow(alg, n, t, s) == (s % (2 * Dist(alg, n, t))) < Dist(alg, n, t)
TwIdx(alg, n, t, s) ==
  IF alg \in {"ct_rev2std", "gs_std2rev"} THEN s % t
  ELSE s \div (2 * Dist(alg, n, t))

IsCT(alg) == alg \in {"ct_rev2std", "ct_std2rev"}

\* one round on residues; Tw(t, j) is the twiddle factor
Round(alg, Tw(_, _), a, t) ==
  LET n == Len(a)
      d == Dist(alg, n, t)
  IN  [i \in 1..n |->
        LET s == i - 1
            w == Tw(t, TwIdx(alg, n, t, s))
        IN  IF IsCT(alg)
            THEN IF IsLow(alg, n, t, s) THEN (a[i] + a[i + d] * w) % Q
                                        ELSE (a[i - d] - a[i] * w) % Q
            ELSE IF IsLow(alg, n, t, s) THEN (a[i] + a[i + d]) % Q
                                        ELSE (((a[i - d] - a[i]) % Q) * w) % Q]

\* all rounds, with the twiddles of the 2n-th root whose powers are Pw
RunRounds(alg, comb, a, Pw) ==
  LET n == Len(a) IN
  FoldLeft(LAMBDA v, t : Round(alg, LAMBDA tt, j : Pw[1 + TwExp(alg, comb, n, tt, j)], v, t),
           Residues(a), RoundSeq(alg, n))

-----------------------------------------------------------------------------
(***************************************************************************)
(* What is true between rounds.  X is NTT(x) in standard order, x the      *)
(* input in standard order (psi-weighted for mulntt).                      *)
(*                                                                         *)
(* Cooley-Tukey, next round t: the transforms of size t of the n/t         *)
(* decimated subsequences are done.                                        *)
(* Gentleman-Sande, next round t (blocks of size m = 2t): the transform of *)
(* size m of block b gives the elements of X at stride n/m from rev(b).    *)
(***************************************************************************)
\* element i of block b when there are blocks of size m
BlockElem(alg, a, m, b, i) ==
  LET n == Len(a) IN
  CASE alg = "ct_rev2std" -> a[b * m + i + 1]
    [] alg = "gs_std2rev" -> a[b * m + i + 1]
    [] alg = "ct_std2rev" -> a[b + (n \div m) * RevTab[m][i + 1] + 1]
    [] alg = "gs_rev2std" -> a[b + (n \div m) * RevTab[m][i + 1] + 1]

\* sum over i < m of u(i) * omega^(i * k * n/m)
SubNTT(u(_), m, n, k, Pw) ==
  FoldLeft(LAMBDA acc, i : (acc + u(i - 1) * Pw[1 + ((2 * (i - 1) * k * (n \div m)) % (2 * n))]) % Q, 0, Iota(m))

CTStage(alg, a, x, m, Pw) ==
  LET n == Len(a) IN
  \A b \in 0..(n \div m) - 1, k \in 0..m - 1 :
    LET off == IF alg = "ct_rev2std" THEN RevTab[n \div m][b + 1] ELSE b
    IN  BlockElem(alg, a, m, b, k) = SubNTT(LAMBDA i : x[off + (n \div m) * i + 1], m, n, k, Pw)

GSStage(alg, a, X, m, Pw) ==
  LET n == Len(a) IN
  \A b \in 0..(n \div m) - 1, k \in 0..m - 1 :
    LET off == IF alg = "gs_std2rev" THEN RevTab[n \div m][b + 1] ELSE b
    IN  SubNTT(LAMBDA i : BlockElem(alg, a, m, b, i), m, n, k, Pw) = X[off + (n \div m) * k + 1]
=============================================================================
