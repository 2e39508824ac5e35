-------------------------------- MODULE Calls --------------------------------
(* What calls of a library may do to memory that callers can see: nothing   *)
(* but hand over a new value.  A call begins with references to cells of    *)
(* memory and ends, some time later, with the outcome it would have had     *)
(* alone.  Calls of different threads overlap in every way.                 *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Ops, Idle,
          Alone(_)      \* the outcome of an operation alone
VARIABLES mem,      \* what callers can see of every cell
          pend,     \* thread -> operation under way, or Idle
          held      \* values handed over so far, with what they were: <<[op, was, now]>>
vars == <<mem, pend, held>>

Begin(t, o) == /\ pend[t] = Idle
               /\ pend' = [pend EXCEPT ![t] = o]
               /\ UNCHANGED <<mem, held>>
\* alone: the outcome of the operation alone
End(t, out, alone) ==
               /\ pend[t] # Idle
               /\ out = alone
               /\ held' = Append(held, [op |-> pend[t], was |-> out, now |-> out])
               /\ pend' = [pend EXCEPT ![t] = Idle]
               /\ UNCHANGED mem
Changed == <<"changed", "changed">>
\* what was handed over is its holder's, to change
Own(j, v) == /\ held' = [held EXCEPT ![j].now = v]
             /\ UNCHANGED <<mem, pend>>
Next == \/ \E t \in Threads : (\E o \in Ops : Begin(t, o)) \/ End(t, Alone(pend[t]), Alone(pend[t]))
        \/ \E j \in 1..Len(held) : Own(j, Changed)

Init0(m) == mem = m /\ pend = [t \in Threads |-> Idle] /\ held = <<>>
=============================================================================
