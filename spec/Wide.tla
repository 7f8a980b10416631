-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* 64-bit integers for TLC, whose integers have 32 bits.                   *)
(* x = w[1] * 2^44 + w[2] * 2^22 + w[3] with 0 <= w[2], w[3] < 2^22.       *)
(* w[1] may exceed the 20 bits of a 64-bit integer: see WFits.             *)
(***************************************************************************)
EXTENDS Integers, Sequences
B22 == 4194304

\* @type: (Int, Int, Int) => <<Int, Int, Int>>;
WNorm(h, m, l) ==
  LET m1 == m + (l \div B22)
      h1 == h + (m1 \div B22)
  IN  <<h1, m1 % B22, l % B22>>
\* @type: Int => <<Int, Int, Int>>;
W(x) == WNorm(0, 0, x)                     \* from a TLC integer
\* @type: (<<Int, Int, Int>>, <<Int, Int, Int>>) => <<Int, Int, Int>>;
WAdd(x, y) == WNorm(x[1] + y[1], x[2] + y[2], x[3] + y[3])
\* @type: (<<Int, Int, Int>>, <<Int, Int, Int>>) => <<Int, Int, Int>>;
WSub(x, y) == WNorm(x[1] - y[1], x[2] - y[2], x[3] - y[3])
\* @type: (<<Int, Int, Int>>) => <<Int, Int, Int>>;
WNeg(x) == WNorm(-x[1], -x[2], -x[3])
\* @type: (<<Int, Int, Int>>, <<Int, Int, Int>>) => Bool;
WLt(x, y) == \/ x[1] < y[1]
             \/ x[1] = y[1] /\ x[2] < y[2]
             \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
\* @type: (<<Int, Int, Int>>, <<Int, Int, Int>>) => Bool;
WLe(x, y) == x = y \/ WLt(x, y)
\* @type: (<<Int, Int, Int>>, <<Int, Int, Int>>) => <<Int, Int, Int>>;
WMax(x, y) == IF WLt(x, y) THEN y ELSE x
\* @type: (<<Int, Int, Int>>, <<Int, Int, Int>>) => <<Int, Int, Int>>;
WMin(x, y) == IF WLt(x, y) THEN x ELSE y
\* @type: (<<Int, Int, Int>>) => <<Int, Int, Int>>;
WShr12(x) == <<x[1] \div 4096, (x[1] % 4096) * 1024 + (x[2] \div 4096), (x[2] % 4096) * 1024 + (x[3] \div 4096)>>
\* @type: (<<Int, Int, Int>>) => Int;
WLow12(x) == x[3] % 4096
\* representable on 64 bits
\* @type: (<<Int, Int, Int>>) => Bool;
WFits(x) == -524288 <= x[1] /\ x[1] <= 524287
\* representable on 32 bits
\* @type: (<<Int, Int, Int>>) => Bool;
WFits32(x) == WLe(W(-2147483647 - 1), x) /\ WLe(x, W(2147483647))
\* to a TLC integer, when |x| <= 2^31 - 1
\* @type: (<<Int, Int, Int>>) => Bool;
WSmall(x) == WLe(W(-2147483647), x) /\ WLe(x, W(2147483647))
\* x[3] is added last so that no partial sum overflows
\* @type: (<<Int, Int, Int>>) => Int;
WInt(x) == IF x[1] >= 0 THEN x[2] * B22 + x[3] ELSE (x[2] - B22) * B22 + x[3]
\* @type: (<<Int, Int, Int>>, Int) => Int;
WModQ(x, q) ==
  LET e22 == B22 % q
      e44 == (e22 * e22) % q
  IN  ((((x[1] % q) * e44) % q) + (((x[2] % q) * e22) % q) + (x[3] % q)) % q
\* x * w for |w| <= 32768, when x[1] is small enough
\* @type: (<<Int, Int, Int>>, Int) => <<Int, Int, Int>>;
WMul8(x, k) == WNorm(x[1] * k, x[2] * k, x[3] * k)          \* |k| <= 256
\* @type: (<<Int, Int, Int>>) => Bool;
WMulOK(x) == -4096 <= x[1] /\ x[1] < 4096
\* @type: (<<Int, Int, Int>>, Int) => <<Int, Int, Int>>;
WMulS(x, w) == WAdd(WMul8(x, w % 256), WMul8(WMul8(x, w \div 256), 256))
\* @type: (<<Int, Int, Int>>) => <<Int, Int, Int>>;
WRed(x) == WSub(W(3 * WLow12(x)), WShr12(x))
=============================================================================
