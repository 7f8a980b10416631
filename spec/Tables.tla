------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Contents of the tables, by definition, from n and psi, and the domain   *)
(* of the table generators.                                                *)
(***************************************************************************)
EXTENDS Red

\* block tables: entry t + j for t = 1, 2, 4, ..., n/2 and 0 <= j < t.
\* the exponent (of psi) is (n/2t) * (x + y * j), j reversed on log2(t) bits
\* in the _rev tables
BlockTables == [omega_powers         |-> [x |-> 0, y |-> 2, inv |-> FALSE, rev |-> FALSE],
                omega_powers_rev     |-> [x |-> 0, y |-> 2, inv |-> FALSE, rev |-> TRUE],
                inv_omega_powers     |-> [x |-> 0, y |-> 2, inv |-> TRUE,  rev |-> FALSE],
                inv_omega_powers_rev |-> [x |-> 0, y |-> 2, inv |-> TRUE,  rev |-> TRUE],
                mixed_powers         |-> [x |-> 1, y |-> 2, inv |-> FALSE, rev |-> FALSE],
                mixed_powers_rev     |-> [x |-> 1, y |-> 2, inv |-> FALSE, rev |-> TRUE],
                inv_mixed_powers     |-> [x |-> 1, y |-> 2, inv |-> TRUE,  rev |-> FALSE],
                inv_mixed_powers_rev |-> [x |-> 1, y |-> 2, inv |-> TRUE,  rev |-> TRUE],
                psi_powers_rev       |-> [x |-> 0, y |-> 1, inv |-> FALSE, rev |-> TRUE],
                inv_psi_powers_rev   |-> [x |-> 0, y |-> 1, inv |-> TRUE,  rev |-> TRUE]]
IsBlock(name) == name \in DOMAIN BlockTables

\* entry i of the other tables is scale * psi^i or scale * psi^(-i)
PowerInv(name) == name # "psi_powers"
PowerScale(name, n, red) ==
  CASE name \in {"psi_powers", "inv_psi_powers"} -> IF red = 1 THEN Inv3 ELSE 1
    [] name = "scaled_inv_psi_powers"     -> IF red = 1 THEN (Inv(n) * Pow(Inv3, 8)) % Q ELSE Inv(n)
    [] name = "scaled_inv_psi_powers_var" -> (Inv(n) * Pow(Inv3, 6)) % Q

\* residues of the red tables are written in [-(Q-1)/2, (Q-1)/2]
Written(r, red) == IF red = 1 THEN Shift(r) ELSE r

\* power of psi, or of its inverse; Pw = <<psi^0, ..., psi^(2n-1)>>
PsiPow(Pw, n, e, inv) == Pw[1 + (IF inv THEN (-e) % (2 * n) ELSE e % (2 * n))]

\* entry i (0-based), i = t + j
BlockSize(i) == 2 ^ Log2(i)
BlockEntry(name, n, red, i, Pw) ==
  IF i = 0 THEN 0
  ELSE LET b == BlockTables[name]
           t == BlockSize(i)
           j == IF b.rev THEN RevTab[t][i - t + 1] ELSE i - t
           r == PsiPow(Pw, n, (n \div (2 * t)) * (b.x + b.y * j), b.inv)
       IN  Written(IF red = 1 THEN (r * Inv3) % Q ELSE r, red)
PowerEntry(name, n, red, i, Pw) ==
  Written((PowerScale(name, n, red) * PsiPow(Pw, n, i, PowerInv(name))) % Q, red)
Entry(name, n, red, i, Pw) ==
  IF IsBlock(name) THEN BlockEntry(name, n, red, i, Pw) ELSE PowerEntry(name, n, red, i, Pw)

Param(name, n, psi) ==
  CASE name = "psi"       -> psi
    [] name = "omega"     -> (psi * psi) % Q
    [] name = "inv_psi"   -> Inv(psi)
    [] name = "inv_omega" -> Inv((psi * psi) % Q)
    [] name = "inv_n"     -> Inv(n)
    [] name = "inv_k"     -> Inv3
    [] name \in {"rescale8", "rescale"}  -> (Inv(n) * Pow(Inv3, 8)) % Q
    [] name = "rescale6"  -> (Inv(n) * Pow(Inv3, 6)) % Q

-----------------------------------------------------------------------------
\* The same as geometric progressions: first term and ratio of the whole
\* table, or of each block in the order of increasing exponents
ProgFirst(name, n, red, k, Pw) ==     \* k = 0-based rank of the block
  IF IsBlock(name) THEN BlockEntry(name, n, red, 2 ^ k, Pw) ELSE PowerEntry(name, n, red, 0, Pw)
ProgRatio(name, n, k, Pw) ==
  IF IsBlock(name)
  THEN LET b == BlockTables[name] t == 2 ^ k IN
       IF t = 1 THEN 0 ELSE PsiPow(Pw, n, (n \div (2 * t)) * b.y, b.inv)
  ELSE PsiPow(Pw, n, 1, PowerInv(name))
ProgCount(name, n) == IF IsBlock(name) THEN Log2(n) ELSE 1

\* accepted arguments of the generators.  Argument lists are sequences of
\* integers (words that are not numbers count as 0)
Accepts(tool, args) ==
  IF tool = "make_bitrev_table"
  THEN Len(args) = 1 /\ args[1] >= 2 /\ args[1] < 65535 /\ IsPow2(args[1])
  ELSE /\ Len(args) = 2 /\ args[1] >= 2 /\ args[1] < 100000 /\ IsPow2(args[1])
       /\ args[2] >= 2 /\ args[2] < Q /\ Pow(args[2], args[1]) = Q - 1

\* primitive n-th roots of unity (n a power of two)
PrimitiveRoots(n) == {x \in 1..(Q - 1) : Pow(x, n \div 2) = Q - 1}
=============================================================================
