------------------------------ MODULE HashGen ------------------------------
(* Histories of the registry of digests: functions registered, replaced and *)
(* taken out, and identifiers asked for in between.                         *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANT Depth
VARIABLE ops

Op(op, j, tag) == [op |-> op, j |-> j, tag |-> tag]
Init == ops = <<>>
Next == \/ /\ Len(ops) = Depth
           /\ PrintT("@SCN@" \o ToJson(ops))
           /\ ops' = Append(ops, "done")
        \/ /\ Len(ops) < Depth
           /\ \E j \in 1..20 : \/ \E tag \in 0..3 : ops' = Append(ops, Op("register", j, tag))     \* 0: nil
                               \/ ops' = Append(ops, Op("ask", j, 0))
                               \/ ops' = Append(ops, Op("ask", j, 0))
                               \/ j \in {20} /\ ops' = Append(ops, Op("beyond", 0, 1))
Spec == Init /\ [][Next]_ops
=============================================================================
