------------------------------ MODULE ConfAbi ------------------------------
(***************************************************************************)
(* The machine state a call must preserve (System V calling convention for *)
(* x86-64), and the part of it that it may not depend on.                  *)
(*                                                                         *)
(* keep/kept: rbx, rbp, r12..r15 before and after (halves of 32 bits);     *)
(* sp: stack pointer before and after; stack: words of the caller's frame  *)
(* that changed; df: direction flag; mx, cw: control bits of the floating  *)
(* point units.  dirty = 1: the upper halves of the registers that hold    *)
(* 32-bit arguments were arbitrary.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Preserved(e) ==
  /\ e.kept = e.keep
  /\ e.sp[1] = e.sp[3] /\ e.sp[2] = e.sp[4]
  /\ e.stack = 0 /\ e.df = 0 /\ e.mx0 = e.mx1 /\ e.cw0 = e.cw1
\* the result is that of the call with clean registers
Independent(e) == e.diff = 0 /\ e.got = e.want
AcceptAbi(e) == e.returned = 1 /\ Preserved(e) /\ Independent(e)
=============================================================================
