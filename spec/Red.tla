-------------------------------- MODULE Red --------------------------------
(***************************************************************************)
(* The reduction of Longa and Naehrig for Q = 3 * 2^12 + 1:                *)
(*    red(x) = 3 * (x mod 2^12) - floor(x / 2^12)    ( = 3x modulo Q)      *)
(* and the other elementwise operations of the library.                    *)
(***************************************************************************)
EXTENDS Zq

\* with blocks of size m (m = 4096 in the library)
RedM(x, m) == 3 * (x % m) - (x \div m)
Red(x) == RedM(x, 4096)
Red2(x) == Red(Red(x))
Norm(x) == x % Q
Inv3 == Inv(3)
NormInv3(x) == (Inv3 * (x % Q)) % Q
Shift(x) == IF 2 * x > Q - 1 THEN x - Q ELSE x              \* 0 <= x < Q
Correct(x) == IF x < 0 THEN x + Q ELSE IF x >= Q THEN x - Q ELSE x   \* -Q <= x < 2Q

(***************************************************************************)
(* red(w * x) for 32-bit w and x: w * x has 64 bits, TLC's integers 32.    *)
(* y = red(w*x) iff 2^12 * (3*low - y) = w*x - low with low = w*x mod 2^12;*)
(* both sides are compared modulo three primes whose product exceeds       *)
(* twice their magnitude.                                                  *)
(***************************************************************************)
MulLow(w, x) == ((w % 4096) * (x % 4096)) % 4096
EqModP(w, x, y, P) ==
  LET low == MulLow(w, x)
      lhs == ((4096 % P) * ((3 * low - (y % P)) % P)) % P
      rhs == ((((w % P) * (x % P)) % P) - low) % P
  IN  lhs = rhs
IsMulRed(w, x, y) ==
  /\ EqModP(w, x, y, 46337) /\ EqModP(w, x, y, 46327) /\ EqModP(w, x, y, 46309)
  /\ EqModP(w, x, y, 46307) /\ EqModP(w, x, y, 46301)
=============================================================================
