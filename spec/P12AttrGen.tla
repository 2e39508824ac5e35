----------------------------- MODULE P12AttrGen -----------------------------
(* Bags with attributes, for what ToPEM makes of them: names of telling     *)
(* UTF-16 units, local key ids of any length, in any order and number, on   *)
(* bags of certificates and keys.  P12Trace says which blocks and headers   *)
(* they are.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxBags, MaxAttrs, MaxUnits, Units, Each
VARIABLES bags, done
vars == <<bags, done>>

Kinds == {"cert", "ca", "rsa", "p256", "p384"}
Types == {"name", "csp", "id", "other"}
\* lengths of local key ids
Ids == {0, 1, 2, 20, 21, 127, 128, 300}
\* what they begin with: two octets that a number would lose, or take for a sign
Leads == {<<>>, <<0>>, <<7>>, <<32768>>, <<65535>>}

Init == bags = <<>> /\ done = FALSE
Last == bags[Len(bags)]
LastAttr == Last.attrs[Len(Last.attrs)]
Bag == ~done /\ Len(bags) < MaxBags /\ (Each \/ bags = <<>> \/ TLCGet("level") > 5) /\ \E k \in Kinds : bags' = Append(bags, [kind |-> k, attrs |-> <<>>]) /\ UNCHANGED done
Attr == /\ ~done /\ bags # <<>> /\ Len(Last.attrs) < MaxAttrs
        /\ (Each => Last.kind \in {"cert", "p256"})
        /\ \/ \E t \in Types \ {"id", "other"} : bags' = [bags EXCEPT ![Len(bags)].attrs = Append(@, [type |-> t, len |-> 0, units |-> <<>>])]
           \/ \E n \in Ids, l \in Leads : bags' = [bags EXCEPT ![Len(bags)].attrs = Append(@, [type |-> "id", len |-> n, units |-> l])]
           \/ (Len(Last.attrs) > 0 /\ bags' = [bags EXCEPT ![Len(bags)].attrs = Append(@, [type |-> "other", len |-> 0, units |-> <<>>])])
        /\ UNCHANGED done
Unit == /\ ~done /\ bags # <<>>
        /\ IF Last.attrs = <<>> THEN FALSE ELSE LastAttr.type \in {"name", "csp"} /\ Len(LastAttr.units) < MaxUnits
        /\ \E u \in Units : bags' = [bags EXCEPT ![Len(bags)].attrs[Len(Last.attrs)].units = Append(@, u)]
        /\ UNCHANGED done
Finish == ~Each /\ ~done /\ bags # <<>> /\ TLCGet("level") > 6 /\ done' = TRUE /\ UNCHANGED bags
Next == Bag \/ Attr \/ Unit \/ Finish
Spec == Init /\ [][Next]_vars
Emit == (Each \/ done) => PrintT("@SCN@" \o ToJson([bags |-> bags]))
=============================================================================
