------------------------------- MODULE SM3Gen -------------------------------
(* Scenario generators for the hash: projections of SM3Stream that keep     *)
(* only the fill of the tail buffer (the state on which Write's case        *)
(* analysis depends) and real block size 64.                                *)
(*   - exhaustive: every transition (fill, bytes written) of one object,    *)
(*     emitted once each (SpecAll);                *)
(*   - simulation: random histories on several objects (SpecSim).       *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Sizes,     \* sizes of one write
          Objs,      \* number of objects
          Depth      \* operations per history

VARIABLES fill, ops

Init == fill = [o \in 1..Objs |-> 0] /\ ops = <<>>

Write(o, n) == /\ fill' = [fill EXCEPT ![o] = (@ + n) % 64]
               /\ ops' = Append(ops, [op |-> "write", o |-> o, n |-> n, pre |-> 0])
Sum(o, p)   == /\ fill' = fill
               /\ ops' = Append(ops, [op |-> "sum", o |-> o, n |-> 0, pre |-> p])
Reset(o)    == /\ fill' = [fill EXCEPT ![o] = 0]
               /\ ops' = Append(ops, [op |-> "reset", o |-> o, n |-> 0, pre |-> 0])
New(o)      == /\ fill' = [fill EXCEPT ![o] = 0]
               /\ ops' = Append(ops, [op |-> "new", o |-> o, n |-> 0, pre |-> 0])
One(n)      == /\ fill' = fill
               /\ ops' = Append(ops, [op |-> "one", o |-> 1, n |-> n, pre |-> 0])

\* writes and sums weigh more than resets
\* (a single last step: TLC evaluates all successors of a state it passes)
NextSim == \/ /\ Len(ops) = Depth
              /\ PrintT("@SCN@" \o ToJson(ops))
              /\ ops' = Append(ops, "done")
              /\ fill' = fill
           \/ /\ Len(ops) < Depth
              /\ \E o \in 1..Objs :
                   \/ \E n \in Sizes : Write(o, n)
                   \/ \E p \in {0, 1, 2, 5, 33, 90} : Sum(o, p)
                   \/ Reset(o)
                   \/ New(o)
                   \/ \E n \in {0, 3, 55, 56, 64, 200} : One(n)

\* exhaustive over (fill, n): ops is not recorded
NextAll == \E n \in Sizes : /\ fill' = [fill EXCEPT ![1] = (@ + n) % 64]
                            /\ ops' = <<>>
                            /\ PrintT("@SCN@" \o ToJson(<<fill[1], n>>))

SpecAll == Init /\ [][NextAll]_<<fill, ops>>
SpecSim == Init /\ [][NextSim]_<<fill, ops>>
=============================================================================
