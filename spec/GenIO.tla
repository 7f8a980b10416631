------------------------------- MODULE GenIO -------------------------------
(***************************************************************************)
(* A table generator writes two files, one after the other, through a      *)
(* buffered stream; the environment may fail to open a file, or to write   *)
(* a block of it (disk full, limit on the size), at any point and for good *)
(* or only once.  The generator must not report success unless both files  *)
(* are complete.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Blocks,     \* blocks of the two files, <<h, c>>
          Checked     \* are errors of the stream looked at before the end?

VARIABLES pc,         \* "open", "write", "close", "ok" (status 0), "failed"
          file,       \* 1 or 2: the file being written
          todo,       \* blocks still to be written
          disk,       \* blocks on disk, per file; -1: not created
          err,        \* error indicator of the stream
          faults      \* faults so far
ioVars == <<pc, file, todo, disk, err, faults>>

Init == pc = "open" /\ file = 1 /\ todo = 0 /\ disk = <<-1, -1>> /\ err = FALSE /\ faults = 0

Open == /\ pc = "open"
        /\ \/ /\ pc' = "write" /\ disk' = [disk EXCEPT ![file] = 0] /\ todo' = Blocks[file] /\ err' = FALSE
              /\ UNCHANGED <<file, faults>>
           \/ /\ pc' = "failed" /\ faults' = faults + 1 /\ UNCHANGED <<file, todo, disk, err>>
Write == /\ pc = "write" /\ todo > 0
         /\ todo' = todo - 1
         /\ \/ disk' = [disk EXCEPT ![file] = @ + 1] /\ UNCHANGED <<err, faults>>
            \/ err' = TRUE /\ faults' = faults + 1 /\ UNCHANGED disk
         /\ UNCHANGED <<pc, file>>
Done == pc = "write" /\ todo = 0 /\ pc' = "close" /\ UNCHANGED <<file, todo, disk, err, faults>>
\* closing may report an error of its own, for a block that was lost before
Close == /\ pc = "close"
         /\ pc' = IF err /\ Checked THEN "failed" ELSE IF file = 1 THEN "open" ELSE "ok"
         /\ file' = IF pc' = "open" THEN 2 ELSE file
         /\ UNCHANGED <<todo, disk, err, faults>>
Next == Open \/ Write \/ Done \/ Close
Spec == Init /\ [][Next]_ioVars /\ WF_ioVars(Next)

Complete == disk = Blocks
NoFalseSuccess == pc = "ok" => Complete
NoFalseFailure == pc = "failed" => faults > 0
Ends == <>(pc \in {"ok", "failed"})

=============================================================================
