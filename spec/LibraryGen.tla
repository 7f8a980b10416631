----------------------------- MODULE LibraryGen -----------------------------
(***************************************************************************)
(* The library as a system: four buffers and the calls a client may make.  *)
(*                                                                         *)
(* State: for each buffer an interval that contains its elements, and the  *)
(* calls made so far.  A call is enabled when the documented conditions on *)
(* its arguments hold.  TLC's simulator walks through this machine; the    *)
(* histories it prints are replayed in the library (harness/d_hist.c) and  *)
(* what the library did is judged by TraceHist.tla.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Fam,      \* "plain", "naive", "red" or "asm"
          Ns,       \* sizes of the generic transforms and of elementwise operations
          WNs,      \* sizes of the specialised functions
          Depth     \* length of a history

QQ == 12289
Lazy == Fam \in {"red", "asm"}
Buffers == 1..4

VARIABLES cover, hist
vars == <<cover, hist>>

Loads == IF Lazy
         THEN {<<0, QQ - 1>>, <<-6144, 6144>>, <<-21499, 21499>>, <<-QQ, 2 * QQ - 1>>, <<-524287, 536573>>, <<-2147483647, 2147483647>>}
         ELSE {<<0, QQ - 1>>}

Mag(g) == IF -g[1] > g[2] THEN -g[1] ELSE g[2]
Canon(g) == g[1] >= 0 /\ g[2] < QQ
\* intervals of different calls on parts of a buffer are joined
Join(g, h) == <<IF g[1] < h[1] THEN g[1] ELSE h[1], IF g[2] > h[2] THEN g[2] ELSE h[2]>>
\* a call on a prefix of a buffer (sizes differ) leaves the rest as it was
Cap == CHOOSE n \in Ns \cup WNs : \A m \in Ns \cup WNs : m <= n
Put(d, n, g) == [cover EXCEPT ![d] = IF n = Cap THEN g ELSE Join(@, g)]
\* the whole buffer was rewritten
Set(d, g) == [cover EXCEPT ![d] = g]

RedI(g) == <<-(g[2] \div 4096), 12285 - (g[1] \div 4096)>>
MulI(m1, m2) == LET z == ((m1 \div 4096) + 1) * m2 IN <<-z, 12285 + z>>
RECURSIVE Grown(_, _)
Grown(m, k) == IF k <= 1 THEN m ELSE Grown(3 * m + 12286, k \div 2)

Call(f, k, n, r, d, a, b, w) ==
  Append(hist, [f |-> f, k |-> k, n |-> n, r |-> r, d |-> d, a |-> a, b |-> b, w |-> w])

Room == Len(hist) < Depth

LoadFrom(S) ==
  /\ Room
  /\ \E d \in Buffers, g \in S, w \in 0..11 :
       /\ cover' = Set(d, g)
       /\ hist' = Append(hist, [f |-> "load", k |-> w, n |-> 0, r |-> 0, d |-> d, a |-> g[1], b |-> g[2], w |-> Len(hist)])

Load == LoadFrom(Loads)
LoadCanonical == LoadFrom({<<0, QQ - 1>>})
LoadShort == Lazy /\ LoadFrom({<<-21499, 21499>>, <<0, QQ - 1>>})

XfIn(g) == IF Lazy THEN Mag(g) <= 21499 ELSE Canon(g)
XfOut(m, n) == IF Fam = "plain" THEN <<0, QQ - 1>>
               ELSE IF Fam = "naive" THEN <<1 - QQ, QQ - 1>>
               ELSE <<-Grown(m, n), Grown(m, n)>>
Xform ==
  /\ Room
  /\ \E d \in Buffers, n \in Ns, k \in (IF Fam = "plain" THEN 0..8 ELSE 0..7), r \in {1, 3, 5} :
       /\ XfIn(cover[d])
       /\ cover' = Put(d, n, XfOut(Mag(cover[d]), n))
       /\ hist' = Call("xf", k, n, r, d, 0, 0, 0)

Wrapper ==
  /\ Room
  /\ \E d \in Buffers, n \in WNs, k \in 0..11 :
       /\ XfIn(cover[d])
       /\ cover' = Put(d, n, XfOut(Mag(cover[d]), n))
       /\ hist' = Call("wrap", k, n, 0, d, 0, 0, 0)

Product ==
  /\ Room
  /\ \E d \in Buffers, a \in Buffers, b \in Buffers, n \in WNs, k \in 0..4 :
       /\ Cardinality({d, a, b}) = 3
       /\ Canon(cover[a]) /\ Canon(cover[b])
       \* what is left in a and b is not specified: reloaded before use
       /\ cover' = [cover EXCEPT ![d] = Join(@, <<0, QQ - 1>>), ![a] = <<-2147483647, 2147483647>>, ![b] = <<-2147483647, 2147483647>>]
       /\ hist' = Call("prod", k, n, 0, d, a, b, 0)

Unary ==
  /\ Room /\ Lazy
  /\ \E d \in Buffers, n \in Ns, k \in (IF Fam = "red" THEN 0..5 ELSE {0, 1, 4, 5}) :
       /\ k = 4 => Canon(cover[d])
       /\ k = 5 => cover[d][1] >= -QQ /\ cover[d][2] < 2 * QQ
       /\ cover' = Put(d, n, CASE k = 0 -> RedI(cover[d]) [] k = 1 -> RedI(RedI(cover[d]))
                           [] k \in {2, 3, 5} -> <<0, QQ - 1>> [] k = 4 -> <<-6144, 6144>>)
       /\ hist' = Call("un", k, n, 0, d, 0, 0, 0)

\* products by a table of n factors, by a constant, of two buffers
MulIn(g) == IF Lazy THEN Mag(g) <= 1000000000 ELSE Canon(g)
Mul16 ==
  /\ Room
  /\ \E d \in Buffers, n \in Ns, w \in 1..20 :
       /\ MulIn(cover[d])
       /\ cover' = Put(d, n, IF Lazy THEN MulI(Mag(cover[d]), 6144) ELSE <<0, QQ - 1>>)
       /\ hist' = Call("mul16", 0, n, 0, d, 0, 0, w)
Scalar ==
  /\ Room
  /\ \E d \in Buffers, n \in Ns, w \in {0, 1, 5, 6144} \cup (IF Lazy THEN {-1, -6144} ELSE {QQ - 1}) :
       /\ MulIn(cover[d])
       /\ cover' = Put(d, n, IF Lazy THEN MulI(Mag(cover[d]), 6144) ELSE <<0, QQ - 1>>)
       /\ hist' = Call("scalar", 0, n, 0, d, 0, 0, w)
Mul2In(g) == IF Lazy THEN Mag(g) <= 536573 ELSE Canon(g)
\* the result may replace an operand
Mul2 ==
  /\ Room
  /\ \E d \in Buffers, a \in Buffers, b \in Buffers, n \in Ns :
       /\ Mul2In(cover[a]) /\ Mul2In(cover[b])
       /\ cover' = Put(d, n, IF Lazy THEN MulI(Mag(cover[a]), Mag(cover[b])) ELSE <<0, QQ - 1>>)
       /\ hist' = Call("mul2", 0, n, 0, d, a, b, 0)

Shuffle ==
  /\ Room /\ ~Lazy
  /\ \E d \in Buffers, n \in Ns : cover' = cover /\ hist' = Call("shuf", 0, n, 0, d, 0, 0, 0)
ShuffleTable ==
  /\ Room /\ ~Lazy
  /\ \E d \in Buffers, n \in WNs : cover' = cover /\ hist' = Call("shuft", 0, n, 0, d, 0, 0, 0)

\* every history starts with four loaded buffers
Init ==
  /\ \E f \in [Buffers -> Loads] : cover = f
  /\ hist = [d \in Buffers |-> [f |-> "load", k |-> 3 * d, n |-> 0, r |-> 0, d |-> d, a |-> cover[d][1], b |-> cover[d][2], w |-> 100 + d]]

Emit == /\ Len(hist) = Depth
        /\ PrintT("HIST " \o ToJson(hist))
        /\ hist' = <<>>
        /\ UNCHANGED cover

Next == Load \/ LoadCanonical \/ LoadShort \/ LoadCanonical \/ Xform \/ Xform \/ Wrapper \/ Wrapper \/ Product \/ Product \/ Product \/ Product \/ Unary \/ Mul16 \/ Scalar \/ Mul2 \/ Shuffle \/ ShuffleTable \/ Emit
Spec == Init /\ [][Next]_vars

\* the machine never leaves 32 bits
TypeOK == \A d \in Buffers : cover[d][1] <= cover[d][2]
=============================================================================
