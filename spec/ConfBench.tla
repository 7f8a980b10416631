----------------------------- MODULE ConfBench -----------------------------
(***************************************************************************)
(* Records of runs of the programs given to the verifier on concrete       *)
(* inputs: fed = what the nondeterministic inputs were, in/p/out = array,  *)
(* table and result of the transform the program calls.  any = 1: the      *)
(* table is an input too.                                                  *)
(***************************************************************************)
EXTENDS Rounds, Wide

\* the documented range of products: both ends of a reduction that fits 32 bits
ProdLo == WNeg(WSub(<<0, 2097152, 0>>, W(50323456)))
ProdHi == <<0, 2097152, 4095>>
InProdRange(z) == WLe(ProdLo, z) /\ WLe(z, ProdHi)

ProgAlg == [harness_ntt_red1024   |-> "ct_std2rev", harness_ntt_red1024b |-> "ct_rev2std",
            harness_ntt_red1024c  |-> "ct_std2rev", harness_ntt_red1024d |-> "ct_rev2std",
            harness_ntt_red1024e  |-> "gs_std2rev", harness_ntt_red1024f |-> "gs_rev2std",
            harness_intt_red1024  |-> "ct_std2rev", harness_intt_red1024b |-> "ct_rev2std"]

\* the transform for a table of thirds of twiddle factors; those of j = 0 are 1
TabRounds(alg, a, p) ==
  FoldLeft(LAMBDA v, t : Round(alg, LAMBDA tt, j : IF j = 0 THEN 1 ELSE (3 * p[1 + tt + j]) % Q, v, t),
           Residues(a), RoundSeq(alg, Len(a)))

\* every admissible input reaches the transform, and no assertion fails on the way
AcceptBench(e, Pw) ==
  /\ e.rejected = 0 /\ e.calls = 1 /\ e.size = e.n /\ e.fails = 0 /\ e.asserts = 1
  /\ e.alg = ProgAlg[e.op]
  /\ e.full = 1 =>
       /\ e.in = e.fed
       /\ IF e.any = 1 THEN e.p = e.fedp /\ Residues(e.out) = TabRounds(e.alg, e.in, e.p)
          ELSE Residues(e.out) = RunRounds(e.alg, "ntt", e.in, Pw)

\* the assertions fail exactly on products outside of the documented range
AcceptGuard(e) ==
  /\ e.failed = (IF InProdRange(e.z) THEN 0 ELSE 1)
  /\ e.failed = 0 => WNorm(0, 0, e.y) = WRed(e.z)
=============================================================================
