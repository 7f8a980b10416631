------------------------------ MODULE GrowthMC ------------------------------
(***************************************************************************)
(* Growth of magnitudes, explored for every network and for many roots.    *)
(***************************************************************************)
EXTENDS Growth
CONSTANTS InB,       \* documented bound on the inputs: 21499
          Ns,        \* sizes
          AllUpTo,   \* every root for sizes up to this one
          Some       \* odd exponents of the generator for larger sizes

VARIABLES net, wt, size, root, todo, bnd, prods
vars == <<net, wt, size, root, todo, bnd, prods>>

Gen == 41      \* of order 4096
RootOf(k, odd) == Pow(Gen, (2048 \div k) * odd)
Lib(k) == CASE k = 16 -> {1212, Inv(1212)} [] k = 256 -> {1002, Inv(1002)} [] k = 512 -> {1003, Inv(1003)} [] k = 1024 -> {1014, Inv(1014)} [] OTHER -> {}
Psis(k) == IF k <= AllUpTo THEN {RootOf(k, 2 * i + 1) : i \in 0..(k - 1)}
           ELSE {RootOf(k, o) : o \in Some} \cup Lib(k)
Pairs == UNION {{<<k, p>> : p \in Psis(k)} : k \in Ns}
AtTab == TLCEval([kp \in Pairs |-> TLCEval(AbsTab(kp[2], kp[1]))])

Init ==
  /\ net \in Algs /\ wt \in Combs /\ HasVariant(net, wt)
  /\ \E kp \in Pairs : size = kp[1] /\ root = kp[2]
  /\ todo = RoundSeq(net, size)
  /\ bnd = [i \in 1..size |-> InB]
  /\ prods = 0
Next ==
  /\ todo # <<>>
  /\ LET At == AtTab[<<size, root>>] IN
     /\ bnd' = GrowRound(net, wt, bnd, Head(todo), At)
     /\ prods' = RoundProducts(net, wt, bnd, Head(todo), At)
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<net, wt, size, root>>
Spec == Init /\ [][Next]_vars

\* (a bound beyond 32 bits would also stop TLC, whose integers have 32 bits)
Fits == IsPsi(root, size) /\ \A i \in 1..size : bnd[i] <= Max32
ProductsFit == prods <= MaxShift
\* margin left to the products and to reduce_array
Margin == todo = <<>> => MaxOf(bnd) < Max32 \div 8
=============================================================================
