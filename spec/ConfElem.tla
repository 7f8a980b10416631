----------------------------- MODULE ConfElem -----------------------------
(***************************************************************************)
(* Records of elementwise operations and of shuffles.                      *)
(***************************************************************************)
EXTENDS Red, FiniteSets

Op1(op, x) ==
  CASE op = "red"       -> Red(x)
    [] op = "red2"      -> Red2(x)
    [] op = "norm"      -> Norm(x)
    [] op = "norm_inv3" -> NormInv3(x)
    [] op = "shift"     -> Shift(x)
    [] op = "correct"   -> Correct(x)

\* documented ranges of the results
Range1(op, y) ==
  CASE op = "red"       -> -524287 <= y /\ y <= 536573
    [] op = "red2"      -> -130 <= y /\ y <= 12413
    [] op = "norm"      -> 0 <= y /\ y < Q
    [] op = "norm_inv3" -> 0 <= y /\ y < Q
    [] op = "shift"     -> -6144 <= y /\ y <= 6144
    [] op = "correct"   -> 0 <= y /\ y < Q

AcceptEw1(e) ==
  /\ Len(e.x) = Len(e.y)
  /\ \A i \in 1..Len(e.x) : e.y[i] = Op1(e.op, e.x[i]) /\ Range1(e.op, e.y[i])

Op2(op, x, w, y) ==
  CASE op = "mulmod" -> y = (x * w) % Q
    [] op = "mulred" -> IsMulRed(w, x, y)
AcceptEw2(e) ==
  /\ Len(e.x) = Len(e.y) /\ Len(e.x) = Len(e.w)
  /\ \A i \in 1..Len(e.x) : Op2(e.op, e.x[i], e.w[i], e.y[i])

\* all integers of the blocks e.b0 .. e.b1-1 (block b holds 4096*b .. 4096*b+4095)
\* aff: y = y0 + db * (b - b0) + dj * j, which is how red varies
AcceptAff(e) ==
  /\ e.bad = 0 /\ e.op = "red"
  /\ e.y0 = Red(4096 * e.b0) /\ e.db = -1 /\ e.dj = 3
\* comp: the operation is reduce_array applied twice
AcceptComp(e) == e.bad = 0 /\ e.op = "red2"
\* saw: y = (y0 + dx * (x - 4096*b0)) mod per
AcceptSaw(e) ==
  /\ e.bad = 0 /\ e.per = Q
  /\ e.op \in {"norm", "norm_inv3"}
  /\ e.y0 = Op1(e.op, 4096 * e.b0)
  /\ e.dx = (IF e.op = "norm" THEN 1 ELSE Inv3)

\* lin: for every x in 0..Q-1 the product by w was (s * x) mod Q
AcceptLin(e) == Len(e.w) = Len(e.s) /\ \A i \in 1..Len(e.w) : e.s[i] = e.w[i] % Q

\* the support for AVX2 is reported as the processor does
AcceptFlag(e) == e.got = e.cpu

-----------------------------------------------------------------------------
\* shuf: the input was 0, 1, ..., n-1
AcceptShuf(e) == Len(e.out) = e.n /\ \A i \in 1..e.n : e.out[i] = RevTab[e.n][i]
AcceptShufV(e) == \A i \in 1..e.n : e.out[i] = e.in[Rev(i - 1, e.n) + 1]
\* shufp: the same for a large n, some positions only
AcceptShufP(e) == Len(e.at) = Len(e.src) /\ \A i \in 1..Len(e.at) : e.src[i] = Rev(e.at[i], e.n)
\* same: an operation on no elements, and the elements around
AcceptSame(e) == e.x = e.y
\* pairs: a table of pairs for bit reversal, each exchanged pair exactly once
AcceptPairs(e) ==
  LET rev == [i \in 0..(e.n - 1) |-> Rev(i, e.n)]
      want == {<<i, rev[i]>> : i \in {j \in 0..(e.n - 1) : j < rev[j]}}
  IN  /\ e.np = Len(e.p)
      /\ {IF e.p[i][1] < e.p[i][2] THEN <<e.p[i][1], e.p[i][2]>> ELSE <<e.p[i][2], e.p[i][1]>> : i \in 1..Len(e.p)} = want
      /\ Len(e.p) = Cardinality(want)
\* swaps: pairs of any table are exchanged in order (p is flat)
Swap(v, i, j) == [v EXCEPT ![i] = v[j], ![j] = v[i]]
AcceptSwaps(e) ==
  e.out = FoldLeft(LAMBDA v, k : Swap(v, e.p[2 * k - 1] + 1, e.p[2 * k] + 1),
                   [i \in 1..e.n |-> i - 1], Iota(Len(e.p) \div 2))
=============================================================================
