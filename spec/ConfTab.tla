------------------------------ MODULE ConfTab ------------------------------
(***************************************************************************)
(* Records of tables and of runs of the table generators.                  *)
(***************************************************************************)
EXTENDS Tables, FiniteSets

AcceptTab(e, Pw) ==
  Len(e.v) = e.n /\ \A i \in 1..e.n : e.v[i] = Entry(e.name, e.n, e.red, i - 1, Pw)
AcceptTabG(e, Pw) ==
  /\ IsBlock(e.name) => e.z = 0
  /\ Len(e.f) = ProgCount(e.name, e.n) /\ Len(e.g) = Len(e.f)
  /\ \A k \in 1..Len(e.f) :
       e.f[k] = ProgFirst(e.name, e.n, e.red, k - 1, Pw) /\ e.g[k] = ProgRatio(e.name, e.n, k - 1, Pw)
AcceptPar(e) == e.v = Param(e.name, e.n, e.root)

\* one run of a generator: exit status and files written
AcceptGen(e) ==
  IF Accepts(e.op, e.args) THEN e.status = 0 /\ e.files = 2 ELSE e.status = 1 /\ e.files = 0

\* runs for every value of argument number e.at in a range: those accepted, and
\* the number of those rejected
AcceptGens(e) ==
  /\ Cardinality({e.acc[i] : i \in 1..Len(e.acc)}) = Len(e.acc)
  /\ {e.acc[i] : i \in 1..Len(e.acc)} = {x \in e.lo..e.hi : Accepts(e.op, [e.args EXCEPT ![e.at] = x])}
  /\ e.rej = e.hi - e.lo + 1 - Len(e.acc)

AcceptRoots(e) ==
  LET s == {e.v[i] : i \in 1..Len(e.v)} IN s = PrimitiveRoots(e.n) /\ Cardinality(s) = Len(e.v)
=============================================================================
