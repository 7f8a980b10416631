------------------------------- MODULE Conf -------------------------------
(***************************************************************************)
(* Conformance: the records of calls of the real library, one JSON object  *)
(* per line, are judged one by one against the specification.              *)
(*                                                                         *)
(* The trace is cut into Lanes interleaved lanes that TLC explores in      *)
(* parallel.  ok becomes FALSE when the specification has no transition    *)
(* that explains the record.                                               *)
(***************************************************************************)
EXTENDS ConfXform, ConfProd, ConfElem, ConfBounds, ConfTab, ConfMisc, Verifier, ConfAbi, ConfBench, ConfIo, Speed, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 16

\* the roots of unity that occur in the trace, and their powers
RootsOf(e) == IF "root" \in DOMAIN e /\ "n" \in DOMAIN e THEN {<<e.root, e.n>>} ELSE {}
AllRoots == UNION {RootsOf(Log[i]) : i \in 1..Len(Log)}
PwTab == [rn \in AllRoots |-> Geo(1, rn[1], 2 * rn[2])]
PwOf(e) == PwTab[<<e.root, e.n>>]

\* for products: any root will do
ProdSizes == UNION {IF e.k = "prod" THEN {e.n} ELSE {} : e \in {Log[i] : i \in 1..Len(Log)}}
ProdRoot(n) == Pow(41, 2048 \div n)
ProdPwTab == [n \in ProdSizes |-> Geo(1, ProdRoot(n), 2 * n)]
ProdIPwTab == [n \in ProdSizes |-> Geo(1, Inv(ProdRoot(n)), 2 * n)]
ProdPw(n) == ProdPwTab[n]
ProdIPw(n) == ProdIPwTab[n]

Accept(e) ==
  CASE e.k = "geo"    -> IsPsi(e.root, e.n) /\ AcceptGeo(e, PwOf(e))
    [] e.k = "xf"     -> IsPsi(e.root, e.n) /\ AcceptXf(e, PwOf(e))
    [] e.k = "back"   -> AcceptBack(e)
    [] e.k = "mono"   -> AcceptMono(e)
    [] e.k = "prod"   -> AcceptProd(e, ProdPw(e.n), ProdIPw(e.n))
    [] e.k = "katdist" -> AcceptKatDist(e)
    [] e.k = "katrun" -> AcceptKatRun(e)
    [] e.k = "ew1"    -> AcceptEw1(e)
    [] e.k = "ew2"    -> AcceptEw2(e)
    [] e.k = "aff"    -> AcceptAff(e)
    [] e.k = "comp"   -> AcceptComp(e)
    [] e.k = "saw"    -> AcceptSaw(e)
    [] e.k = "lin"    -> AcceptLin(e)
    [] e.k = "flag"   -> AcceptFlag(e)
    [] e.k = "shuf"   -> AcceptShuf(e)
    [] e.k = "shufv"  -> AcceptShufV(e)
    [] e.k = "shufp"  -> AcceptShufP(e)
    [] e.k = "same"   -> AcceptSame(e)
    [] e.k = "pairs"  -> AcceptPairs(e)
    [] e.k = "swaps"  -> AcceptSwaps(e)
    [] e.k = "mred"   -> AcceptMRed(e)
    [] e.k = "mmul"   -> AcceptMMul(e)
    [] e.k = "mmulw"  -> AcceptMMulW(e)
    [] e.k = "mwit"   -> AcceptMWit(e)
    [] e.k = "step"   -> AcceptStep(e)
    [] e.k = "stepwit" -> AcceptStepWit(e)
    [] e.k = "nttb"   -> AcceptNttB(e)
    [] e.k = "iv"     -> AcceptIv(e)
    [] e.k = "absbf"  -> AcceptAbsBf(e)
    [] e.k = "absshow" -> AcceptAbsShow(e)
    [] e.k = "absdom" -> AcceptAbsDom(e)
    [] e.k = "tab"    -> IsPsi(e.root, e.n) /\ AcceptTab(e, PwOf(e))
    [] e.k = "tabg"   -> IsPsi(e.root, e.n) /\ AcceptTabG(e, PwOf(e))
    [] e.k = "par"    -> AcceptPar(e)
    [] e.k = "gen"    -> AcceptGen(e)
    [] e.k = "gens"   -> AcceptGens(e)
    [] e.k = "roots"  -> AcceptRoots(e)
    [] e.k = "sort"   -> AcceptSort(e)
    [] e.k = "sortw"  -> AcceptSortW(e)
    [] e.k = "frame"  -> AcceptFrame(e)
    [] e.k = "mem"    -> AcceptMem(e)
    [] e.k = "heap"   -> AcceptHeap(e)
    [] e.k = "heapn"  -> AcceptHeapN(e)
    [] e.k = "refuse" -> AcceptRefuse(e)
    [] e.k = "conc"   -> AcceptConc(e)
    [] e.k = "dom"    -> AcceptDom(e)
    [] e.k = "abi"    -> AcceptAbi(e)
    [] e.k = "bench"  -> AcceptBench(e, IF e.any = 1 THEN <<>> ELSE PwOf(e))
    [] e.k = "guard"  -> AcceptGuard(e)
    [] e.k = "io"     -> AcceptIo(e)
    [] e.k = "speed"  -> AcceptSpeed(e)
    [] e.k = "speedrun" -> AcceptSpeedRun(e)
    [] e.k = "ran"    -> e.calls >= 0      \* a driver under traps came to its end
    [] e.k = "crash"  -> FALSE       \* no call ends abnormally
    [] OTHER -> FALSE

VARIABLES lane, pos, ok
vars == <<lane, pos, ok>>

Init == lane \in 1..Lanes /\ pos = lane /\ ok = TRUE
Next == /\ pos <= Len(Log)
        /\ ok
        /\ pos' = pos + Lanes
        /\ ok' = Accept(Log[pos])
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars

Conforms == ok
\* every record has been judged
Complete == TLCGet("stats").distinct = Lanes + Len(Log)
=============================================================================
