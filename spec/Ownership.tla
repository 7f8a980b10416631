----------------------------- MODULE Ownership -----------------------------
(***************************************************************************)
(* Who owns the intervals.  An array of intervals owns one block of memory *)
(* per element.  A call may allocate blocks and release blocks; a trace of *)
(* a call is the sequence of these: i > 0 for the allocation of block i,   *)
(* -i for its release.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* blocks that are live after a trace; Bad if a block is released that is
\* not live, or handed out twice
Bad == {-1}
HeapStep(lv, x) ==
  IF lv = Bad THEN Bad
  ELSE IF x > 0 THEN (IF x \in lv THEN Bad ELSE lv \cup {x})
  ELSE IF -x \in lv THEN lv \ {-x} ELSE Bad
LiveAfter(lv, tr) == FoldLeft(HeapStep, lv, tr)

\* a call that gets the blocks held to do with as it likes (it owns them),
\* may look at the blocks in other, and returns the blocks cells: each is
\* live, there are no two owners of a block, and nothing is lost
Owned(held, other, tr, cells) ==
  LET lv == LiveAfter(held \cup other, tr)
      cs == {cells[i] : i \in 1..Len(cells)}
  IN  /\ lv # Bad
      /\ Cardinality(cs) = Len(cells)
      /\ cs \cap other = {}
      /\ lv = cs \cup other
=============================================================================
