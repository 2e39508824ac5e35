----------------------------- MODULE CallsTrace -----------------------------
(* Validates recorded histories of calls against Calls.  A line of the      *)
(* trace is a history [op = "history", ev, before, after, lost, output], an *)
(* operation alone, or what became of the process.  The cells of memory are *)
(* given by digests of everything visible in them.                          *)
EXTENDS TraceBase, Integers

VARIABLES mem, pend, held, h, l, bad
MaxThreads == 16
Threads == 1..MaxThreads
E == Trace[h].ev[l]
History == Trace[h].op = "history"
Self(o) == o
C == INSTANCE Calls WITH Ops <- {}, Idle <- "", Alone <- Self

Init == /\ h \in 1..Len(Trace) /\ l = 1 /\ bad = ""
        /\ C!Init0(IF History THEN Trace[h].before ELSE <<>>)

TBegin == /\ E.e = "begin"
          /\ C!Begin(E.t, E.name)
          /\ bad' = bad
\* an end that the specification allows, or one it does not
TEnd == /\ E.e = "end"
        /\ \/ /\ C!End(E.t, E.out, E.alone)
              /\ bad' = bad
           \/ /\ E.out # E.alone
              /\ bad' = "outcome differs from the outcome alone: " \o E.name
              /\ UNCHANGED <<mem, pend, held>>
\* everything has ended: memory as the specification has it, nothing lost, nothing said
Last == /\ l = Len(Trace[h].ev) + 1
        /\ UNCHANGED <<mem, pend, held>>
        /\ bad' = IF \E t \in Threads : pend[t] # "" THEN "a call did not end"
                  ELSE IF Trace[h].after # mem THEN "changed: " \o Trace[h].changed[1]
                  ELSE IF Trace[h].lost # <<>> THEN "a result changed afterwards: " \o Trace[h].lost[1]
                  ELSE IF Trace[h].output # "" THEN "output" ELSE ""
Other == /\ ~History /\ l = 1
         /\ UNCHANGED <<mem, pend, held>>
         /\ LET R == Trace[h]
            IN  bad' = CASE R.op = "begin" -> (IF R.output # "" THEN "output" ELSE "")
                         [] R.op = "alone" -> (IF R.out # R.again THEN "a second outcome"
                                               ELSE IF R.changed # <<>> THEN "changed: " \o R.changed[1]
                                               ELSE IF ~R.kept THEN "a result changed afterwards"
                                               ELSE IF R.output # "" THEN "output" ELSE "")
                         [] R.op = "own" -> (IF R.changed # <<>> THEN "changed: " \o R.changed[1]
                                             ELSE IF R.out # R.alone THEN "outcome changed by what became of an earlier result of it"
                                             ELSE IF R.later # R.alone THEN "outcome changed by what became of earlier results"
                                             ELSE IF R.output # "" THEN "output" ELSE "")
                         [] R.op = "process" -> (IF R.died # "" THEN "the process died"
                                                 ELSE IF R.races # <<>> THEN "data race"
                                                 ELSE IF R.output # "" THEN "output" ELSE "")
Next == /\ bad = ""
        /\ IF History THEN (l <= Len(Trace[h].ev) /\ (TBegin \/ TEnd)) \/ Last ELSE Other
        /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<mem, pend, held, h, l, bad>>
Good == bad = "" \/ Report([h |-> h, why |-> bad, op |-> Trace[h].op, case |-> Trace[h].case])
View == <<h, l, bad>>
=============================================================================
