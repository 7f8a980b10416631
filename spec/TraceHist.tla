----------------------------- MODULE TraceHist -----------------------------
(***************************************************************************)
(* Recorded histories of the library (one per line) against Library.tla.   *)
(***************************************************************************)
EXTENDS Library, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
CallRoots(calls) == UNION {IF "root" \in DOMAIN calls[i] THEN {<<calls[i].root, calls[i].n>>} ELSE {} : i \in 1..Len(calls)}
AllRoots == UNION {CallRoots(Log[i].calls) : i \in 1..Len(Log)}
PwTab == TLCEval([rn \in AllRoots |-> Geo(1, rn[1], 2 * rn[2])])
IPwTab == TLCEval([rn \in AllRoots |-> Geo(1, Inv(rn[1]), 2 * rn[2])])

VARIABLES hNo, callNo, store, okay
vars == <<hNo, callNo, store, okay>>

Init == /\ hNo \in 1..Len(Log) /\ callNo = 1 /\ okay = TRUE
        /\ store = [d \in 1..4 |-> <<>>]
Calls == Log[hNo].calls
Step ==
  LET e == Calls[callNo]
      rn == IF "root" \in DOMAIN e THEN <<e.root, e.n>> ELSE <<0, 0>>
      pw == IF rn[2] = 0 THEN <<>> ELSE PwTab[rn]
      ipw == IF rn[2] = 0 THEN <<>> ELSE IPwTab[rn]
  IN  /\ okay' = (Pre(Log[hNo].fam, e, store) =>
                    (Frame(e, store) /\ Memoryless(e) /\ Result(Log[hNo].fam, e, store, pw, ipw)))
      /\ store' = After(e, store)
Next == /\ okay /\ callNo <= Len(Calls)
        /\ Step
        /\ callNo' = callNo + 1
        /\ UNCHANGED hNo
Spec == Init /\ [][Next]_vars
Conforms == okay
\* every call of every history has been judged
NCalls == FoldLeft(LAMBDA s, i : s + 1 + Len(Log[i].calls), 0, Iota(Len(Log)))
Complete == TLCGet("stats").distinct = NCalls
=============================================================================
