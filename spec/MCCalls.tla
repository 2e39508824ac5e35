------------------------------- MODULE MCCalls -------------------------------
(* Calls as code carries them out, step by step, under a discipline of      *)
(* using memory, against Calls (their refinement).  An operation reads its  *)
(* cell, works in a scratch cell and hands over a result.  Only the         *)
(* discipline "fresh" keeps the promise; for the others TLC finds the       *)
(* history that breaks it, and each of those histories is of a kind the     *)
(* generated ones contain: overlapping calls, repetitions, a look at the    *)
(* arguments and at earlier results afterwards, and callers who change what *)
(* they were handed (nothing else shows a result that is handed over twice).*)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Ops, MaxCalls, Discipline,
          Owners     \* whether callers change what they were handed
VARIABLES cells,    \* op -> the cell it is given: [val, spare]
          scratch,  \* static scratch cell
          cache,    \* op -> remembered outcome
          run,      \* thread -> [op, pc, loc]
          results,  \* handed over: <<[op, was, at]>>; at: index into heap
          heap,     \* values
          calls
vars == <<cells, scratch, cache, run, results, heap, calls>>
Idle == "idle"
F(o, x) == <<o, x>>
Val0(o) == [val |-> o, spare |-> "free"]
Alone(o) == F(o, o)

Init == /\ cells = [o \in Ops |-> Val0(o)] /\ scratch = "none" /\ cache = <<>>
        /\ run = [t \in Threads |-> [op |-> Idle, pc |-> 0, loc |-> "none"]]
        /\ results = <<>> /\ heap = <<>> /\ calls = 0

Start(t, o) == /\ run[t].op = Idle /\ calls < MaxCalls
               /\ calls' = calls + 1
               /\ run' = [run EXCEPT ![t] = [op |-> o, pc |-> 1, loc |-> "none"]]
               /\ UNCHANGED <<cells, scratch, cache, results, heap>>
\* read the argument into scratch memory
Read(t) == LET o == run[t].op
           IN  /\ run[t].pc = 1
               /\ run' = [run EXCEPT ![t].pc = 2, ![t].loc = cells[o].val]
               /\ scratch' = IF Discipline = "static" THEN cells[o].val ELSE scratch
               \* in place: the argument is worked on and put back at the end
               /\ cells' = CASE Discipline = "inplace" -> [cells EXCEPT ![o].val = o \o " reversed"]
                             [] Discipline = "spare"   -> [cells EXCEPT ![o].spare = "taken"]
                             [] OTHER -> cells
               /\ UNCHANGED <<cache, results, heap, calls>>
Finish(t) == LET o == run[t].op
                 x == IF Discipline = "static" THEN scratch ELSE run[t].loc
                 \* a memory of the last outcome, whoever asked
                 r == IF Discipline = "memo" /\ cache # <<>> THEN cache ELSE F(o, x)
                 reuse == Discipline = "reuse" /\ heap # <<>>
                 \* what was handed over for the same operation is handed over again
                 old == {j \in 1..Len(results) : results[j].op = o}
                 share == Discipline = "share" /\ old # {}
                 at == IF reuse THEN 1 ELSE IF share THEN results[CHOOSE j \in old : TRUE].at ELSE Len(heap) + 1
                 q == IF share THEN heap[at] ELSE r
             IN  /\ run[t].pc = 2
                 /\ run' = [run EXCEPT ![t] = [op |-> Idle, pc |-> 0, loc |-> "none"]]
                 /\ cells' = IF Discipline = "inplace" THEN [cells EXCEPT ![o].val = run[t].loc] ELSE cells
                 /\ cache' = r
                 /\ heap' = IF at > Len(heap) THEN Append(heap, q) ELSE [heap EXCEPT ![at] = q]
                 /\ results' = Append(results, [op |-> o, was |-> q, at |-> at, own |-> FALSE])
                 /\ UNCHANGED <<scratch, calls>>
\* a caller changes what it was handed
Change(j) == /\ ~results[j].own /\ Owners
             /\ heap' = [heap EXCEPT ![results[j].at] = <<"changed", "changed">>]
             /\ results' = [results EXCEPT ![j].own = TRUE]
             /\ UNCHANGED <<cells, scratch, cache, run, calls>>
Next == \/ \E t \in Threads : (\E o \in Ops : Start(t, o)) \/ Read(t) \/ Finish(t)
        \/ \E j \in 1..Len(results) : Change(j)
Spec == Init /\ [][Next]_vars

Held == [j \in 1..Len(results) |-> [op |-> results[j].op, was |-> results[j].was, now |-> heap[results[j].at]]]
\* refinement: the abstract calls begin with Start and end with Finish
A == INSTANCE Calls WITH mem <- cells, pend <- [t \in Threads |-> run[t].op], held <- Held
Refines == A!Init0([o \in Ops |-> Val0(o)]) /\ [][A!Next]_(A!vars)
\* what a driver can check: at quiet moments all cells are as they were, all results are as handed over and as alone
Quiet == \A t \in Threads : run[t].op = Idle
Observable == /\ \A j \in 1..Len(results) : Held[j].was = Alone(Held[j].op) /\ (Quiet /\ ~results[j].own => Held[j].now = Held[j].was)
              /\ Quiet => cells = [o \in Ops |-> Val0(o)]
=============================================================================
