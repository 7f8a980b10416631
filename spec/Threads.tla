------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Several threads, each computing a product on buffers of its own.  A     *)
(* call is not atomic: every round of a transform and every elementwise    *)
(* pass is a step, and the steps of the threads interleave in any way.     *)
(*                                                                         *)
(* Own = TRUE: a call writes nothing but its arguments.  Then every        *)
(* schedule gives every thread the product of its operands, and no step    *)
(* of a thread is visible to another.  With Own = FALSE (a call keeps its  *)
(* second operand in memory of the library) TLC finds a schedule that      *)
(* breaks Products: that is the change d_thread.c looks for.               *)
(***************************************************************************)
EXTENDS Rounds

CONSTANTS NT,        \* number of threads
          N, Psi,    \* size and root
          Operands,  \* set of operand pairs
          Own
Thr == 1..NT
Pw  == TLCEval(Geo(1, Psi, 2 * N))
IPw == TLCEval(Geo(1, Inv(Psi), 2 * N))

\* steps of a call: rounds on a, rounds on b, product, rounds on c, scaling
Ups == [k \in 1..Log2(N) |-> 2 ^ (k - 1)]
Prog == [k \in 1..Log2(N) |-> <<"fa", Ups[k]>>] \o [k \in 1..Log2(N) |-> <<"fb", Ups[k]>>]
        \o <<<<"mul", 0>>>> \o [k \in 1..Log2(N) |-> <<"ic", Ups[Log2(N) + 1 - k]>>] \o <<<<"scale", 0>>>>

VARIABLES at, bufA, bufB, bufC, given, static
vars == <<at, bufA, bufB, bufC, given, static>>

Init ==
  /\ given \in [Thr -> Operands]
  /\ at = [h \in Thr |-> 1]
  /\ bufA = [h \in Thr |-> given[h][1]]
  /\ bufB = [h \in Thr |-> given[h][2]]
  /\ bufC = [h \in Thr |-> [i \in 1..N |-> 0]]
  /\ static = [i \in 1..N |-> 0]

Fwd(v, t) == Round("ct_std2rev", LAMBDA tt, j : Pw[1 + TwExp("ct_std2rev", "mulntt", N, tt, j)], v, t)
Bwd(v, t) == Round("gs_rev2std", LAMBDA tt, j : IPw[1 + TwExp("gs_rev2std", "nttmul", N, tt, j)], v, t)
\* where the transform of the second operand is kept
GetB(h) == IF Own THEN bufB[h] ELSE static
Step(h) ==
  /\ at[h] <= Len(Prog)
  /\ LET o == Prog[at[h]][1] t == Prog[at[h]][2] IN
     /\ bufA' = IF o = "fa" THEN [bufA EXCEPT ![h] = Fwd(@, t)] ELSE bufA
     /\ IF o = "fb"
        THEN LET y == Fwd(IF t = 1 THEN bufB[h] ELSE GetB(h), t) IN
             IF Own THEN bufB' = [bufB EXCEPT ![h] = y] /\ UNCHANGED static
                    ELSE static' = y /\ UNCHANGED bufB
        ELSE UNCHANGED <<bufB, static>>
     /\ bufC' = CASE o = "mul" -> [bufC EXCEPT ![h] = LET y == GetB(h) IN [i \in 1..N |-> (bufA[h][i] * y[i]) % Q]]
                  [] o = "ic"  -> [bufC EXCEPT ![h] = Bwd(@, t)]
                  [] o = "scale" -> [bufC EXCEPT ![h] = [i \in 1..N |-> (@[i] * Inv(N)) % Q]]
                  [] OTHER -> bufC
  /\ at' = [at EXCEPT ![h] = @ + 1]
  /\ UNCHANGED given
Next == \E h \in Thr : Step(h)
Spec == Init /\ [][Next]_vars /\ \A h \in Thr : WF_vars(Step(h))

Products == \A h \in Thr : at[h] > Len(Prog) => bufC[h] = Negacyclic(given[h][1], given[h][2])
\* a step of one thread leaves the buffers of the others as they are
Isolated == [][\A h \in Thr : at'[h] = at[h] => bufA'[h] = bufA[h] /\ bufB'[h] = bufB[h] /\ bufC'[h] = bufC[h]]_vars
Finish == <>(\A h \in Thr : at[h] > Len(Prog))

Few == {<< <<1, 2, 3, 4>>, <<5, 6, 7, 8>> >>, << <<0, 0, 0, 16>>, <<16, 1, 0, 3>> >>, << <<1, 0, 0, 0>>, <<0, 1, 0, 0>> >>}
=============================================================================
