------------------------------- MODULE Bounds -------------------------------
(***************************************************************************)
(* Exact extrema of the reduction over intervals.  The defining formulas   *)
(* range over whole intervals; the Win* forms below need only a window of  *)
(* m consecutive integers, because                                         *)
(*      red(w * (x + m)) = red(w * x) - w.                                 *)
(* BoundsMC checks that they agree.                                        *)
(***************************************************************************)
EXTENDS Red, FiniteSets

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(x, y) == IF x < y THEN y ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
Abs(x) == IF x < 0 THEN -x ELSE x

-----------------------------------------------------------------------------
\* definitions
DefMaxRed(a, b, m) == SetMax({RedM(x, m) : x \in a..b})
DefMinRed(a, b, m) == SetMin({RedM(x, m) : x \in a..b})
DefMaxRedMul(a, b, w, m) == SetMax({RedM(w * x, m) : x \in a..b})
DefMinRedMul(a, b, w, m) == SetMin({RedM(w * x, m) : x \in a..b})

\* closed forms
BlockEnd(x, m) == (x \div m) * m + m - 1
BlockStart(x, m) == (x \div m) * m
ClosedMaxRed(a, b, m) == RedM(Min2(BlockEnd(a, m), b), m)
ClosedMinRed(a, b, m) == RedM(Max2(BlockStart(b, m), a), m)

\* w * a = m * q + r without computing the product
Split(w, a, m) ==
  LET t == w * (a % m) IN [q |-> w * (a \div m) + (t \div m), r |-> t % m]
\* red(w * (a + i))
At(w, sp, i, m) == RedM(sp.r + w * i, m) - sp.q

FoldExt(f(_), n, mx) ==    \* extremum of f(0), ..., f(n)
  FoldLeft(LAMBDA acc, i : IF mx THEN Max2(acc, f(i)) ELSE Min2(acc, f(i)), f(0), Iota(n))

WinRedMul(a, b, w, m, mx) ==
  IF w = 0 THEN 0
  ELSE LET up == (w > 0) = mx
           n  == IF b - a < m THEN b - a ELSE m - 1
           sp == Split(w, IF up THEN a ELSE b, m)
       IN  FoldExt(LAMBDA i : At(w, sp, IF up THEN i ELSE -i, m), n, mx)
WinMaxRedMul(a, b, w, m) == WinRedMul(a, b, w, m, TRUE)
WinMinRedMul(a, b, w, m) == WinRedMul(a, b, w, m, FALSE)

\* over an interval of factors
WinRedMulI(a, b, low, high, m, mx) ==
  FoldExt(LAMBDA i : WinRedMul(a, b, low + i, m, mx), high - low, mx)

\* |x|, |y| <= b: least bound of the results of one butterfly, w in low..high
CTBound(b, low, high, m) ==
  Max2(b + WinRedMulI(-b, b, low, high, m, TRUE), b - WinRedMulI(-b, b, low, high, m, FALSE))
GSBound(b, low, high, m) ==
  Max2(2 * b, Max2(WinRedMulI(-2 * b, 2 * b, low, high, m, TRUE), -WinRedMulI(-2 * b, 2 * b, low, high, m, FALSE)))
=============================================================================
