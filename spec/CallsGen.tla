------------------------------ MODULE CallsGen ------------------------------
(* Histories of calls: behaviours of Calls, as schedules for the driver.    *)
(* A history keeps `wide` calls under way and takes its operations from     *)
(* `span` neighbours in the driver's list (1: the same one again and again, *)
(* with itself; all: anything with anything).  A walk begins every          *)
(* operation twice, one after the other in the list.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NThreads, NOps, Calls0, Spans, Walk
VARIABLES mem, pend, held, sched, from, span, wide
Threads == 1..NThreads
Ops == 0..(NOps - 1)
Self(o) == o
C == INSTANCE Calls WITH Alone <- Self, Idle <- -1
vars == <<mem, pend, held, sched, from, span, wide>>
Busy == Cardinality({t \in Threads : pend[t] # -1})
Begun == Len(held) + Busy
MaxCalls == IF Walk THEN 2 * NOps ELSE Calls0

Init == /\ C!Init0(<<>>) /\ sched = <<>>
        /\ from \in Ops /\ span \in Spans /\ wide \in (IF Walk THEN 3 ELSE 1)..NThreads
Pool == IF Walk THEN {(from + (Begun \div 2)) % NOps} ELSE {(from + j) % NOps : j \in 0..(span - 1)}
Begin(t, o) == /\ Busy < wide /\ Begun < MaxCalls
               /\ C!Begin(t, o)
               /\ sched' = Append(sched, [t |-> t, e |-> "begin", o |-> o])
End(t) == /\ pend[t] # -1 /\ (Busy = wide \/ Begun = MaxCalls)
          /\ C!End(t, Self(pend[t]), Self(pend[t]))
          /\ sched' = Append(sched, [t |-> t, e |-> "end", o |-> pend[t]])
Next == /\ \E t \in Threads : (\E o \in Pool : Begin(t, o)) \/ End(t)
        /\ UNCHANGED <<from, span, wide>>
Spec == Init /\ [][Next]_vars
\* the promise of the specification, for its own behaviours
Kept == mem = <<>> /\ \A j \in 1..Len(held) : held[j].now = held[j].was
\* printed in the only state that ends a history: all have ended
Emit == Len(held) = MaxCalls => PrintT("@SCN@" \o ToJson([case |-> "from " \o ToString(from) \o ", " \o (IF Walk THEN "all in turn, " ELSE ToString(span) \o " operations, ") \o ToString(wide) \o " at a time", ev |-> sched]))
=============================================================================
