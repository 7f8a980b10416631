----------------------------- MODULE ConfBounds -----------------------------
(***************************************************************************)
(* Records of red_bounds.h, intervals.h and ntt_red_interval.h.            *)
(***************************************************************************)
EXTENDS Bounds, Wide, Rounds

M12 == 4096

\* 64-bit forms of the closed formulas
WBlockEnd(x) == <<x[1], x[2], x[3] + (4095 - WLow12(x))>>
WBlockStart(x) == <<x[1], x[2], x[3] - WLow12(x)>>
WMaxRed(a, b) == WRed(WMin(WBlockEnd(a), b))
WMinRed(a, b) == WRed(WMax(WBlockStart(b), a))

IsMax(op) == op \in {"max_red", "max_red_mul", "max_red_mul_interval"}

AcceptMRed(e) ==
  /\ e.v = IF IsMax(e.op) THEN WMaxRed(e.a, e.b) ELSE WMinRed(e.a, e.b)
  /\ WLe(e.a, e.m) /\ WLe(e.m, e.b) /\ WRed(e.m) = e.v

\* red(w * x), and the windowed forms of Bounds, on 64-bit arguments
WSplit(w, a) ==
  LET t == w * WLow12(a) IN [q |-> WAdd(WMulS(WShr12(a), w), W(t \div M12)), r |-> t % M12]
WRedMul(w, x) == LET sp == WSplit(w, x) IN WSub(W(Red(sp.r)), sp.q)
WWin(a, b, w, mx) ==
  IF w = 0 THEN W(0)
  ELSE LET up   == (w > 0) = mx
           size == WSub(b, a)
           n    == IF WLt(size, W(M12)) THEN WInt(size) ELSE M12 - 1
           k    == IF up THEN w ELSE -w
           sp   == WSplit(w, IF up THEN a ELSE b)
       IN  WSub(W(FoldExt(LAMBDA i : RedM(sp.r + k * i, M12), n, mx)), sp.q)
WExt(x, y, mx) == IF mx THEN WMax(x, y) ELSE WMin(x, y)
WWinI(a, b, low, high, mx) ==
  FoldLeft(LAMBDA acc, i : WExt(acc, WWin(a, b, low + i, mx), mx), WWin(a, b, low, mx), Iota(high - low))
\* the arguments are in the range for which the library is specified
WDom(a, b) == WMulOK(a) /\ WMulOK(b) /\ WLe(a, b)
Factor(w) == -32768 <= w /\ w <= 32767
WIn(a, x, b) == WLe(a, x) /\ WLe(x, b)

AcceptMMul(e) ==
  /\ WDom(e.a, e.b) /\ Factor(e.w)
  /\ e.v = WWin(e.a, e.b, e.w, IsMax(e.op))
  /\ WIn(e.a, e.m, e.b) /\ WRedMul(e.w, e.m) = e.v

AcceptMMulW(e) ==
  /\ WDom(e.a, e.b) /\ Factor(e.low) /\ Factor(e.high)
  /\ e.v = WWinI(e.a, e.b, e.low, e.high, IsMax(e.op))
  /\ WIn(e.a, e.m, e.b) /\ WSmall(e.mw)
  /\ e.low <= WInt(e.mw) /\ WInt(e.mw) <= e.high
  /\ WRedMul(WInt(e.mw), e.m) = e.v

\* the same for large intervals, with a witness of the extremum
AcceptMWit(e) ==
  /\ WIn(e.a, e.x, e.b) /\ e.low <= e.w /\ e.w <= e.high
  /\ WIn(e.a, e.m, e.b) /\ WSmall(e.mw)
  /\ e.low <= WInt(e.mw) /\ WInt(e.mw) <= e.high
  /\ WRedMul(WInt(e.mw), e.m) = e.v
  /\ IF IsMax(e.op) THEN WLe(WRedMul(e.w, e.x), e.v) ELSE WLe(e.v, WRedMul(e.w, e.x))

\* |x|, |y| <= b: the least bound on the results of a butterfly, for every
\* factor in low..high
WDouble(b) == WAdd(b, b)
WCT(b, low, high) ==
  WMax(WAdd(b, WWinI(WNeg(b), b, low, high, TRUE)), WSub(b, WWinI(WNeg(b), b, low, high, FALSE)))
WGS(b, low, high) ==
  LET c == WDouble(b) IN
  WMax(c, WMax(WWinI(WNeg(c), c, low, high, TRUE), WNeg(WWinI(WNeg(c), c, low, high, FALSE))))
AcceptStep(e) ==
  e.v = IF e.op \in {"ct_bound", "ct_bound_fixed"} THEN WCT(e.b, e.low, e.high) ELSE WGS(e.b, e.low, e.high)
\* for large intervals of factors: a factor w whose bound exceeds e.v
AcceptStepWit(e) ==
  /\ e.low <= e.w /\ e.w <= e.high
  /\ WLe(IF e.op \in {"ct_bound", "ct_bound_fixed"} THEN WCT(e.b, e.w, e.w) ELSE WGS(e.b, e.w, e.w), e.v)

\* bounds after each round of a transform with the table e.p
RoundBound(op, b, p, t) ==
  FoldLeft(LAMBDA acc, j : WMax(acc, IF op = "ct" THEN WCT(b, p[t + j], p[t + j]) ELSE WGS(b, p[t + j], p[t + j])),
           W(0), Iota(t))
AcceptNttB(e) ==
  LET k == Log2(e.n)
      T(i) == IF e.op = "ct" THEN 2 ^ (i - 1) ELSE 2 ^ (k - i)
  IN  /\ e.past = 0
      /\ Len(e.bd) = k + 1 /\ e.bd[1] = e.b0
      /\ \A i \in 1..k : WMulOK(e.bd[i]) /\ e.bd[i + 1] = RoundBound(e.op, e.bd[i], e.p, T(i))
      /\ e.v = e.bd[k + 1]

-----------------------------------------------------------------------------
\* Intervals.  status: 0 = a result was returned, 1 = the program stopped
\* with a report, 2 = it crashed, 3 = it stopped with status 0.
Ok(e, lo, hi) == e.status = 0 /\ e.l = lo /\ e.h = hi
WSize(e) == WSub(e.ah, e.al)
SmallSize(e, k) == WLe(WSize(e), W(k))
\* offsets into [al, ah] that are looked at: all if there are few
Pts(e, k) == IF SmallSize(e, k) THEN 0..WInt(WSize(e)) ELSE 0..k
FromLow(e, i) == WAdd(e.al, W(i))
FromHigh(e, i) == WSub(e.ah, W(i))

AcceptIv(e) ==
  CASE e.op = "point" -> Ok(e, e.al, e.al)
    [] e.op = "interval" -> IF WLe(e.al, e.ah) THEN Ok(e, e.al, e.ah) ELSE e.status = 1
    [] e.op = "add" -> LET l == WAdd(e.al, e.bl) h == WAdd(e.ah, e.bh) IN
                       IF WFits(l) /\ WFits(h) THEN Ok(e, l, h) ELSE e.status = 1
    [] e.op = "sub" -> LET l == WSub(e.al, e.bh) h == WSub(e.ah, e.bl) IN
                       IF WFits(l) /\ WFits(h) THEN Ok(e, l, h) ELSE e.status = 1
    [] e.op = "neg" -> LET l == WNeg(e.ah) h == WNeg(e.al) IN
                       IF WFits(l) /\ WFits(h) THEN Ok(e, l, h) ELSE e.status = 1
    [] e.op = "red" -> Ok(e, WMinRed(e.al, e.ah), WMaxRed(e.al, e.ah))
    [] e.op = "red_scale" ->
         WDom(e.al, e.ah) /\ Ok(e, WWin(e.al, e.ah, WInt(e.s), FALSE), WWin(e.al, e.ah, WInt(e.s), TRUE))
    [] e.op = "red_mul" ->
         LET FI(l, h) == WSmall(l) /\ WSmall(h) /\ Factor(WInt(l)) /\ Factor(WInt(h))
             \* which of the two ranges over factors
             sw == IF FI(e.al, e.ah) # FI(e.bl, e.bh) THEN FI(e.al, e.ah)
                   ELSE WLt(WSub(e.ah, e.al), WSub(e.bh, e.bl))
             a == IF sw THEN e.bl ELSE e.al
             b == IF sw THEN e.bh ELSE e.ah
             c == WInt(IF sw THEN e.al ELSE e.bl)
             d == WInt(IF sw THEN e.ah ELSE e.bh)
         IN  WDom(a, b) /\ Ok(e, WWinI(a, b, c, d, FALSE), WWinI(a, b, c, d, TRUE))
    [] e.op = "red_twice" ->
         /\ e.status = 0
         /\ \A i \in Pts(e, 9000) : LET y == WRed(WRed(FromLow(e, i))) IN WLe(e.l, y) /\ WLe(y, e.h)
         /\ \A i \in Pts(e, 4100) : LET y == WRed(WRed(FromHigh(e, i))) IN WLe(e.l, y) /\ WLe(y, e.h)
    [] e.op \in {"normal", "normal_inv3"} ->
         LET f(x) == IF e.op = "normal" THEN WModQ(x, Q) ELSE (Inv3 * WModQ(x, Q)) % Q IN
         /\ e.status = 0
         /\ WLe(W(0), e.l) /\ WLe(e.h, W(Q - 1))
         /\ \A i \in Pts(e, Q - 1) : LET y == W(f(FromLow(e, i))) IN WLe(e.l, y) /\ WLe(y, e.h)
    [] e.op \in {"shift", "correct"} ->
         LET f(x) == IF e.op = "shift" THEN Shift(x) ELSE Correct(x) IN
         /\ e.status = 0 /\ WSmall(e.l) /\ WSmall(e.h)
         /\ \A x \in WInt(e.al)..WInt(e.ah) : WInt(e.l) <= f(x) /\ f(x) <= WInt(e.h)
         /\ IF e.op = "shift" THEN WInt(e.l) >= -6144 /\ WInt(e.h) <= 6144 ELSE WInt(e.l) >= 0 /\ WInt(e.h) < Q

-----------------------------------------------------------------------------
\* One butterfly of an abstract transform: y = element s, x = element s + d
\* before the round, o and p after it; w in [wl, wh].  ow, pw, yw, xw: a
\* warning of overflow was printed for the element.
Warned(l, h) == IF WFits32(l) /\ WFits32(h) THEN 0 ELSE 1
AcceptAbsBf(e) ==
  LET scaled == ~(e.comb = "ntt" /\ e.j = 0)
      zl == IF IsCT(e.alg) THEN e.xl ELSE WSub(e.yl, e.xh)
      zh == IF IsCT(e.alg) THEN e.xh ELSE WSub(e.yh, e.xl)
      rl == IF scaled THEN WWinI(zl, zh, e.wl, e.wh, FALSE) ELSE zl
      rh == IF scaled THEN WWinI(zl, zh, e.wl, e.wh, TRUE) ELSE zh
  IN  /\ WDom(e.yl, e.yh) /\ WDom(e.xl, e.xh)
      /\ e.d = Dist(e.alg, e.n, e.t) /\ IsLow(e.alg, e.n, e.t, e.s) /\ e.j = TwIdx(e.alg, e.n, e.t, e.s)
      /\ IF IsCT(e.alg)
         THEN /\ e.ol = WAdd(e.yl, rl) /\ e.oh = WAdd(e.yh, rh)
              /\ e.pl = WSub(e.yl, rh) /\ e.ph = WSub(e.yh, rl)
         ELSE /\ e.ol = WAdd(e.yl, e.xl) /\ e.oh = WAdd(e.yh, e.xh)
              /\ e.pl = rl /\ e.ph = rh
      /\ e.ow = Warned(e.ol, e.oh) /\ e.pw = Warned(e.pl, e.ph)
      /\ e.yw = Warned(e.yl, e.yh) /\ e.xw = Warned(e.xl, e.xh)

\* the intervals before every round and at the end are shown, and the last
\* ones are those returned: a record is written only if this fails
AcceptAbsShow(e) == e.shown = Log2(e.n) + 1 /\ e.returned = 1

\* abstract_correct stops unless the interval is in [-Q, 2Q-1]
AcceptAbsDom(e) == e.stopped = IF e.lo < -Q \/ e.hi >= 2 * Q THEN 1 ELSE 0
=============================================================================
