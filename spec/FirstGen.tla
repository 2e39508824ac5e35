------------------------------ MODULE FirstGen ------------------------------
(* The first uses of the library in a process, at once.  Whatever a library *)
(* prepares when it is first needed, every history of Calls may begin with  *)
(* the need for it in several threads: a history here starts Threads calls  *)
(* before any has ended, of two operations in turn, in a process that has   *)
(* made no call before.  All pairs of operations are enumerated.            *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS NOps, NThreads
VARIABLES a, b, done
vars == <<a, b, done>>

Init == a \in 1..NOps /\ b \in a..NOps /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@SCN@" \o ToJson([ops |-> [t \in 1..NThreads |-> IF t % 2 = 1 THEN a ELSE b]]))
=============================================================================
