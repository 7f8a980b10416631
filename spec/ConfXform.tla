----------------------------- MODULE ConfXform -----------------------------
(***************************************************************************)
(* Records of transforms.                                                  *)
(***************************************************************************)
EXTENDS Rounds

RangeOK(e, v) == e.canon = 1 => Canonical(v)

\* geo: e.j[i] = index (in standard order) of the only non-zero input
\* element, e.amp[i] its value; the output, in standard order, was the
\* geometric progression of first term e.f[i] and ratio e.g[i].  By
\* linearity of the rounds the columns determine the whole map.
AcceptGeo(e, Pw) ==
  /\ Len(e.j) = Len(e.f) /\ Len(e.j) = Len(e.g) /\ Len(e.j) = Len(e.amp)
  /\ \A i \in 1..Len(e.j) :
       /\ e.f[i] = ColFirst(e.comb, e.n, e.j[i], e.amp[i], Pw)
       /\ e.g[i] = ColRatio(e.comb, e.n, e.j[i], Pw)

\* xf: a call in full, against the network of butterflies
AcceptXf(e, Pw) ==
  /\ Len(e.in) = e.n /\ Len(e.out) = e.n
  /\ RangeOK(e, e.out)
  /\ Residues(e.out) = RunRounds(e.alg, e.comb, e.in, Pw)

\* back: an inverse transform after a forward transform: n times the input
AcceptBack(e) ==
  LET x == IF e.inrev = 1 THEN BitReversed(e.in) ELSE e.in
      y == IF e.outrev = 1 THEN BitReversed(e.out) ELSE e.out
  IN  /\ Len(e.in) = e.n /\ Len(e.out) = e.n
      /\ RangeOK(e, e.out)
      /\ \A i \in 1..e.n : y[i] % Q = (e.n * (x[i] % Q)) % Q
=============================================================================
