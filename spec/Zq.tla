------------------------------- MODULE Zq -------------------------------
(***************************************************************************)
(* Arithmetic in Z_Q and bit reversal: the vocabulary of every other       *)
(* module.  Vectors are TLA+ sequences; element i (0-based, as in the      *)
(* documentation of the library) of vector v is v[i+1].                    *)
(*                                                                         *)
(* TLC integers have 32 bits.  Q*Q must therefore be less than 2^31.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANT Q

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1
             ELSE IF e % 2 = 1 THEN (b * Pow(b, e - 1)) % Q
             ELSE Pow((b * b) % Q, e \div 2)

\* inverse in the field Z_Q (Q is prime)
Inv(x) == Pow(x % Q, Q - 2)

Iota(n) == [i \in 1..n |-> i]

\* <<x, x*y, ..., x*y^(n-1)>> modulo Q
Geo(x, y, n) ==
  IF n = 0 THEN <<>>
  ELSE FoldLeft(LAMBDA acc, i : Append(acc, (acc[i] * y) % Q), <<x % Q>>, Iota(n - 1))

Canonical(v) == \A i \in 1..Len(v) : v[i] >= 0 /\ v[i] < Q

\* equality of two vectors modulo Q
EqMod(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : (u[i] % Q) = (v[i] % Q)

Residues(v) == [i \in 1..Len(v) |-> v[i] % Q]

-----------------------------------------------------------------------------
\* reverse of the k low-order bits of i
RECURSIVE RevBits(_, _)
RevBits(i, k) == IF k = 0 THEN 0
                 ELSE (i % 2) * (2 ^ (k - 1)) + RevBits(i \div 2, k - 1)

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

IsPow2(n) == n >= 1 /\ 2 ^ Log2(n) = n

Rev(i, n) == RevBits(i, Log2(n))

Sizes == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
\* RevTab[n][i+1] = bit reverse of i on log2(n) bits (evaluated once by TLC)
RevTab == [n \in Sizes |-> FoldLeft(LAMBDA acc, i : Append(acc, Rev(i - 1, n)), <<>>, Iota(n))]

\* permutation of a vector by bit reversal
BitReversed(v) == [i \in 1..Len(v) |-> v[RevTab[Len(v)][i] + 1]]

-----------------------------------------------------------------------------
\* psi is an n-th root of -1; then psi^2 is a primitive n-th root of 1
IsPsi(psi, n) == IsPow2(n) /\ n >= 2 /\ psi \in 1..(Q - 1) /\ Pow(psi, n) = Q - 1
=============================================================================
