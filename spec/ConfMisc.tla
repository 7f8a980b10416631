----------------------------- MODULE ConfMisc -----------------------------
(***************************************************************************)
(* Other records.                                                          *)
(***************************************************************************)
EXTENDS Wide, FiniteSets, SequencesExt, Ownership
\* mem: memory outside of the documented outputs was modified
AcceptMem(e) == e.touched = 0

\* frame: which operands a call may write.  a, b, c: arrays, p: table or
\* other constant operand
Footprint(kind) ==
  CASE kind \in {"xform", "unary", "mul16", "scalar", "shuffle"} -> {"a"}
    [] kind = "mul2"    -> {"c"}
    [] kind = "product" -> {"a", "b", "c"}
AcceptFrame(e) ==
  /\ e.fault = 0 /\ e.outside = 0
  /\ {e.changed[i] : i \in 1..Len(e.changed)} \subseteq Footprint(e.op)

\* conc: the result of a call while other threads make calls on other
\* buffers, and its result when it is alone (see Threads.tla)
AcceptConc(e) == e.got = e.alone

\* sort (see Sort.tla): 64-bit unsigned integers as limbs
CountOf(v, x) == Cardinality({i \in 1..Len(v) : v[i] = x})
AcceptSort(e) ==
  /\ Len(e.in) = Len(e.out)
  /\ \A i \in 1..(Len(e.out) - 1) : WLe(e.out[i], e.out[i + 1])
  /\ LET S == {e.in[i] : i \in 1..Len(e.in)} IN
     /\ S = {e.out[i] : i \in 1..Len(e.out)}
     /\ \A x \in S : CountOf(e.in, x) = CountOf(e.out, x)
\* large arrays: two neighbours of the result, and one value counted
AcceptSortW(e) == WLe(e.x[1], e.y[1]) /\ e.before = e.after

\* heap: allocations and releases of a call on intervals (see Ownership)
IdsOf(v) == {v[i] : i \in 1..Len(v)}
HeapFrame(e) == e.fault = 0 /\ e.touched = 0 /\ e.kept = 1
AcceptHeap(e) ==
  /\ HeapFrame(e)
  /\ Len(e.cells) = e.n
  /\ Owned(IdsOf(e.held), IdsOf(e.other) \cup IdsOf(e.other2), e.ev, e.cells)
\* the same in numbers: no release of a block that is not live; the live blocks
\* are those of the other operands and the elements of the result
AcceptHeapN(e) == HeapFrame(e) /\ e.bad = 0 /\ e.distinct = e.n /\ e.live = e.n + e.others
\* refuse: a call that is refused memory does not return, and the program
\* stops in order (1: exit with an error, 2: abort)
AcceptRefuse(e) == IF e.returned = 1 THEN e.refused = 0 /\ e.status = 0 ELSE e.status \in {1, 2}
=============================================================================
