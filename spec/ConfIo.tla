------------------------------- MODULE ConfIo -------------------------------
(***************************************************************************)
(* Observable part of a behaviour of GenIO, of a real run of a generator:  *)
(* which fault there was, exit status, whether the files are complete.     *)
(* e.limit: no file may grow beyond it; e.hlen, e.clen: lengths of the     *)
(* complete files.                                                         *)
(***************************************************************************)
EXTENDS Integers

\* nothing was in the way
Harmless(e) == e.fault \in {"none", "stale"} \/ (e.fault = "limit" /\ e.limit >= e.hlen /\ e.limit >= e.clen)
\* the system reported the loss of data when the file was closed
LostAtClose(e) == e.fault \in {"close-h", "close-c"} /\ e.hit = 1
AcceptIo(e) ==
  /\ e.status = 0 => e.hok = 1 /\ e.cok = 1 /\ ~LostAtClose(e)
  /\ Harmless(e) => e.status = 0
=============================================================================
