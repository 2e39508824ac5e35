----------------------------- MODULE ArmourGen -----------------------------
(* Texts that hold revocation lists: the lines of a good one, of which up   *)
(* to MaxEdits are left out, put in or changed.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxEdits
VARIABLES lines, edits
Tokens == {"begin", "beginreq", "begincert", "beginlower", "beginlonger", "begintrusted", "beginspace", "beginempty", "indented",
           "end", "endreq", "endcert", "endlower", "endlonger", "endtrusted", "endspace", "endempty",
           "body", "other", "cert", "short", "trailing", "bad", "pad", "blank", "space", "junk", "header", "der"}
Good == <<"begin", "body", "end">>
Init == lines = Good /\ edits = 0
Put(s, j, t) == SubSeq(s, 1, j - 1) \o <<t>> \o SubSeq(s, j, Len(s))
Drop(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Next == /\ edits < MaxEdits /\ edits' = edits + 1
        /\ \/ \E j \in 1..(Len(lines) + 1), t \in Tokens : lines' = Put(lines, j, t)
           \/ \E j \in 1..Len(lines) : lines' = Drop(lines, j)
           \/ \E j \in 1..Len(lines), t \in Tokens : lines' = [lines EXCEPT ![j] = t]
           \* another kind of block altogether, well formed
           \/ edits = 0 /\ \E w \in {"req", "cert", "lower", "longer", "trusted", "space", "empty"} : lines' = [j \in 1..Len(lines) |-> IF lines[j] \in {"begin", "end"} THEN lines[j] \o w ELSE lines[j]]
Spec == Init /\ [][Next]_<<lines, edits>>
Emit == PrintT("@SCN@" \o ToJson([lines |-> lines]))
=============================================================================
