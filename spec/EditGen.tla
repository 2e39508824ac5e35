------------------------------- MODULE EditGen -------------------------------
(* What is done to documents before they are parsed.  A plan is a sequence  *)
(* of edits [k, at]: kind k at the at-th element of the document, counted   *)
(* depth first (or at the at-th octet, for the edits of octets).  All plans *)
(* of one edit; longer ones at random.                                      *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxAt, MaxOctet, Steps, Near
VARIABLES plan, kind, done

Tags == {0, 1, 2, 3, 4, 5, 6, 9, 10, 12, 19, 22, 23, 24, 30, 48, 49, 128, 129, 130, 160, 161, 163}
TreeKinds == {"tag " \o ToString(t) : t \in Tags} \cup
    {"drop", "double", "exchange", "constructed", "class", "empty", "cut", "half", "behead", "zero in front", "ff in front", "zero behind", "null behind",
     "sequence behind", "all ff", "all zero", "all 7f", "one zero", "one 80", "one 01", "last up", "last down", "last zero", "last ff", "first up", "first top",
     "first zero", "hundredfold", "huge", "huge number", "wrapped", "deep", "deeper", "unwrapped", "root inside", "gone",
     "long", "longer", "length up", "length down", "length 0", "length 127", "length ffff", "length ffffff", "length 7fffffff", "length ffffffff",
     "length 2^63-1", "length 2^64-1", "length of 127 octets", "indefinite", "indefinite, constructed", "header only", "high tag", "high tag, long", "high tag, padded"}
EndKinds == {"and 00", "and null", "and ff", "and newline", "and sequence", "and 30", "and itself", "and 1000 zeros",
             "after 00", "after null", "after newline", "after itself cut"}
OctetKinds == {"cut to", "cut by", "without", "flip"}
Kinds == TreeKinds \cup EndKinds \cup OctetKinds
Ats(k, far, oct) == IF k \in EndKinds THEN {0} ELSE IF k \in OctetKinds THEN 0..oct ELSE 0..far

\* first the kind, then the place; the last step only ends the plan, and prints it
Init == plan = <<>> /\ kind = "" /\ done = FALSE
Kind == /\ ~done /\ kind = "" /\ Len(plan) < Steps
        /\ kind' \in Kinds /\ UNCHANGED <<plan, done>>
Place == /\ kind # ""
         /\ \E a \in IF Steps = 1 THEN Ats(kind, MaxAt, MaxOctet) ELSE Ats(kind, Near, 4 * Near) : plan' = Append(plan, [k |-> kind, at |-> a])
         /\ kind' = "" /\ UNCHANGED done
End == ~done /\ Len(plan) = Steps /\ done' = TRUE /\ UNCHANGED <<plan, kind>>
Next == Kind \/ Place \/ End
Spec == Init /\ [][Next]_<<plan, kind, done>>
Name(e) == e.k \o " at " \o ToString(e.at)
RECURSIVE Names(_)
Names(p) == IF Len(p) = 1 THEN Name(p[1]) ELSE Name(p[1]) \o ", " \o Names(Tail(p))
Emit == done => PrintT("@SCN@" \o ToJson([case |-> Names(plan), plan |-> plan]))
=============================================================================
