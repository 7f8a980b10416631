------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* What each call of the library does to the buffers of its client: the    *)
(* transition relation.  bufs[d] is the sequence of integers in buffer d.  *)
(* e is a call as recorded: its arguments, the new contents e.v of its     *)
(* destination buffers e.d, the buffers e.chg whose contents changed, and  *)
(* e.fresh, the contents that the same call on the same arguments gives in *)
(* a process that has made no other call.                                  *)
(***************************************************************************)
EXTENDS ConfProd, ConfElem

Prefix(s, k) == [i \in 1..k |-> s[i]]
AbsLe(s, m) == \A i \in 1..Len(s) : -m <= s[i] /\ s[i] <= m
Within(s, lo, hi) == \A i \in 1..Len(s) : lo <= s[i] /\ s[i] <= hi
LazyFam(fam) == fam \in {"red", "asm"}

\* documented conditions on the arguments
Pre(fam, e, bufs) ==
  LET src(i) == Prefix(bufs[e.s[i]], e.n) IN
  CASE e.f = "load"  -> TRUE
    [] e.f = "xf"    -> IF LazyFam(fam) THEN AbsLe(src(1), 21499) ELSE Canonical(src(1))
    [] e.f = "prod"  -> Canonical(src(1)) /\ Canonical(src(2))
    [] e.f = "un"    -> CASE e.op = "shift" -> Canonical(src(1))
                          [] e.op = "correct" -> Within(src(1), -Q, 2 * Q - 1)
                          [] OTHER -> TRUE
    [] e.f \in {"mul16", "scalar"} -> IF LazyFam(fam) THEN AbsLe(src(1), 1000000000) ELSE Canonical(src(1))
    [] e.f = "mul2"  -> IF LazyFam(fam) THEN AbsLe(src(1), 536573) /\ AbsLe(src(2), 536573) ELSE Canonical(src(1)) /\ Canonical(src(2))
    [] e.f \in {"shuf"} -> TRUE

\* result of the call (the first destination), Pw: powers of the root of e
Result(fam, e, bufs, Pw, IPw) ==
  LET n == e.n
      src(i) == Prefix(bufs[e.s[i]], n)
      out == Prefix(e.v[1], n)
      x == src(1)
  IN
  CASE e.f = "load" -> TRUE
    [] e.f = "xf"   -> /\ Residues(out) = RunRounds(e.alg, e.comb, x, Pw)
                       /\ fam = "plain" => Canonical(out)
    [] e.f = "prod" -> LET y == src(2) IN
                       /\ Canonical(out)
                       /\ out = IF n <= 64 THEN Negacyclic(x, y) ELSE ViaNTT(x, y, Pw, IPw)
    [] e.f = "un"   -> \A i \in 1..n : out[i] = Op1(e.op, x[i])
    [] e.f \in {"mul16", "scalar"} -> \A i \in 1..n : Op2(e.op, x[i], e.w[IF e.f = "scalar" THEN 1 ELSE i], out[i])
    [] e.f = "mul2" -> LET y == src(2) IN \A i \in 1..n : Op2(e.op, x[i], y[i], out[i])
    [] e.f = "shuf" -> out = BitReversed(x)

\* nothing else changes
Frame(e, bufs) ==
  /\ \A i \in 1..Len(e.chg) : \E k \in 1..Len(e.d) : e.d[k] = e.chg[i]
  /\ e.f # "load" =>
       \A k \in 1..Len(e.d) : \A i \in (e.n + 1)..Len(e.v[k]) : e.v[k][i] = bufs[e.d[k]][i]

\* and the past does not matter
Memoryless(e) == e.f # "load" => e.fresh = e.v

After(e, bufs) == [b \in DOMAIN bufs |->
  IF \E k \in 1..Len(e.d) : e.d[k] = b THEN e.v[CHOOSE k \in 1..Len(e.d) : e.d[k] = b] ELSE bufs[b]]
=============================================================================
