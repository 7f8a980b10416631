------------------------------- MODULE Speed -------------------------------
(***************************************************************************)
(* What a measurement prints: N calls of one function that took val[i],    *)
(* cnt[i] times.  The median is the element of rank N \div 2 (from 0) of   *)
(* the sorted times, the average is the integer part of the mean.          *)
(***************************************************************************)
EXTENDS Wide, SequencesExt
SumI(f, n) == FoldLeft(LAMBDA s, i : s + f[i], 0, [i \in 1..n |-> i])
\* x * k for 0 <= k < 2^20, 0 <= x < 2^44
WTimes(x, k) == WAdd(WMulS(WMulS(x, k \div 1024), 1024), WMulS(x, k % 1024))
WTotal(val, cnt) == FoldLeft(LAMBDA s, i : WAdd(s, WTimes(val[i], cnt[i])), W(0), [i \in 1..Len(val) |-> i])
Number(val, cnt, P(_)) == FoldLeft(LAMBDA s, i : s + (IF P(val[i]) THEN cnt[i] ELSE 0), 0, [i \in 1..Len(val) |-> i])
IsMedian(m, val, cnt, n) ==
  /\ Number(val, cnt, LAMBDA v : WLt(v, m)) <= n \div 2
  /\ n \div 2 < Number(val, cnt, LAMBDA v : WLe(v, m))
IsAverage(a, val, cnt, n) ==
  /\ WFits(a) /\ 0 <= a[1] /\ a[1] < 4096
  /\ LET s == WTotal(val, cnt) IN WLe(WTimes(a, n), s) /\ WLt(s, WTimes(WAdd(a, W(1)), n))

\* speed: one function measured by a program
AcceptSpeed(e) ==
  /\ e.calls > 0 /\ SumI(e.cnt, Len(e.cnt)) = e.calls
  /\ e.label = e.fun
  /\ e.overlap = 0 /\ e.invalid = 0
  /\ IsMedian(e.median, e.val, e.cnt, e.calls)
  /\ IsAverage(e.average, e.val, e.cnt, e.calls)
\* speedrun: the five functions, each once, and a result for each
AcceptSpeedRun(e) == e.funs = <<1, 2, 3, 4, 5>> /\ e.blocks = 5 /\ e.status = 0
=============================================================================
