----------------------------- MODULE RedLemmas -----------------------------
(***************************************************************************)
(* Facts about the reduction and about 64-bit integers in limbs, for all   *)
(* integers: decided by Apalache (SMT), with x, a, b, y arbitrary in the   *)
(* initial state.  The models and the judgement of records rest on them.   *)
(***************************************************************************)
EXTENDS Integers, Wide
VARIABLES
  \* @type: Int;
  x,
  \* @type: Int;
  a,
  \* @type: Int;
  b,
  \* @type: <<Int, Int, Int>>;
  u,
  \* @type: <<Int, Int, Int>>;
  v

\* @type: Int => Int;
R(z) == 3 * (z % 4096) - (z \div 4096)
QQ == 12289

\* @type: (<<Int, Int, Int>>) => Bool;
Limbs(w) == w[2] >= 0 /\ w[2] < B22 /\ w[3] >= 0 /\ w[3] < B22
\* @type: (<<Int, Int, Int>>) => Int;
Value(w) == w[1] * 17592186044416 + w[2] * B22 + w[3]

Init == /\ x \in Int /\ a \in Int /\ b \in Int
        /\ \E h \in Int : \E m \in Int : \E l \in Int : u = <<h, m, l>>
        /\ \E h \in Int : \E m \in Int : \E l \in Int : v = <<h, m, l>>
        /\ Limbs(u) /\ Limbs(v)
Next == UNCHANGED <<x, a, b, u, v>>

\* NOTES.md: Props 1 and 2
Congruent == (R(x) - 3 * x) % QQ = 0
Near == -(x \div 4096) <= R(x) /\ R(x) <= -(x \div 4096) + QQ - 4
Periodic == R(x + 4096 * a) = R(x) - a
\* the range of products whose reduction fits 32 bits, and its ends
Fits32(z) == -2147483648 <= z /\ z <= 2147483647
ProductRange == (-8796042698752 <= x /\ x <= 8796093026303) => Fits32(R(x))
ProductEnds == (x = -8796042698753 \/ x = 8796093026304) => ~Fits32(R(x))
\* documented ranges of one and two reductions of 32-bit integers
Once == Fits32(x) => (-524287 <= R(x) /\ R(x) <= 536573)
Twice == Fits32(x) => (-130 <= R(R(x)) /\ R(R(x)) <= 12413)
Thrice == Fits32(x) => (-3 <= R(R(R(x))) /\ R(R(R(x))) <= 12286)
\* exact bounds over intervals: the closed forms of Bounds and ConfBounds
\* @type: (Int, Int) => Int;
ArgMax(lo, hi) == LET e == (lo \div 4096) * 4096 + 4095 IN IF e < hi THEN e ELSE hi
\* @type: (Int, Int) => Int;
ArgMin(lo, hi) == LET s == (hi \div 4096) * 4096 IN IF s > lo THEN s ELSE lo
Extrema == (a <= x /\ x <= b) =>
  /\ R(ArgMin(a, b)) <= R(x) /\ R(x) <= R(ArgMax(a, b))
  /\ a <= ArgMin(a, b) /\ ArgMin(a, b) <= b /\ a <= ArgMax(a, b) /\ ArgMax(a, b) <= b

\* limbs
LimbsClosed == Limbs(WAdd(u, v)) /\ Limbs(WSub(u, v)) /\ Limbs(WNeg(u)) /\ Limbs(WShr12(u)) /\ Limbs(W(x))
LimbsSound ==
  /\ Value(W(x)) = x
  /\ Value(WAdd(u, v)) = Value(u) + Value(v)
  /\ Value(WSub(u, v)) = Value(u) - Value(v)
  /\ Value(WNeg(u)) = -Value(u)
  /\ WLt(u, v) <=> Value(u) < Value(v)
  /\ Value(WShr12(u)) = Value(u) \div 4096
  /\ WLow12(u) = Value(u) % 4096
  /\ Value(WRed(u)) = R(Value(u))
  /\ WSmall(u) => WInt(u) = Value(u)
LimbsModQ == WModQ(u, QQ) = Value(u) % QQ
LimbsMul == Value(WMul8(u, 255)) = 255 * Value(u) /\ Value(WMul8(u, -128)) = -128 * Value(u) /\ Value(WMul8(u, 256)) = 256 * Value(u)

Lemmas == Congruent /\ Near /\ Periodic /\ ProductRange /\ ProductEnds /\ Once /\ Twice /\ Thrice /\ Extrema /\ LimbsClosed /\ LimbsSound /\ LimbsMul /\ LimbsModQ
=============================================================================
