------------------------------- MODULE P12Bags -------------------------------
(* The decoders of PKCS#12 stores as what they are, a walk over the bags of *)
(* two safes that ends at the first thing wrong: every sequence of at most  *)
(* MaxLen bags, divided between the safes in every way, and a right or a    *)
(* wrong password.  What the walk ends with is what the code has to return; *)
(* nothing may be returned beside an error, and each decoder's end depends  *)
(* on all the bags.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen
\* certificates of an SM2 key and of a P-256 key, keys, what is broken, and bags of other kinds
Kinds == {"Csm2", "Cp256", "Ksm2", "Krsa", "Kp256", "Kbad", "Cjunk", "Csdsi", "other"}
VARIABLES bags, split, right, pos, keys, certs, failed, blocks, ended
vars == <<bags, split, right, pos, keys, certs, failed, blocks, ended>>

Decoders == {"all", "one", "pem", "file"}
IsCert(k) == k \in {"Csm2", "Cp256"}
IsKey(k) == k \in {"Ksm2", "Krsa", "Kp256"}

Init == /\ bags = <<>> /\ split = 0 /\ right = TRUE /\ pos = -1
        /\ keys = 0 /\ certs = 0 /\ failed = [d \in Decoders |-> FALSE] /\ blocks = 0 /\ ended = FALSE
\* the store is designed ...
Design == /\ pos = -1 /\ Len(bags) < MaxLen
          /\ \E k \in Kinds : bags' = Append(bags, k)
          /\ UNCHANGED <<split, right, pos, keys, certs, failed, blocks, ended>>
Seal == /\ pos = -1
        /\ split' \in 0..Len(bags) /\ right' \in {TRUE, FALSE}
        /\ pos' = IF right' THEN 0 ELSE -2
        /\ failed' = IF right' THEN failed ELSE [d \in Decoders |-> TRUE]
        /\ UNCHANGED <<bags, keys, certs, blocks, ended>>
\* ... and decoded, bag by bag
Step == /\ pos >= 0 /\ pos < Len(bags)
        /\ LET k == bags[pos + 1]
           IN  /\ keys' = keys + (IF IsKey(k) THEN 1 ELSE 0)
               /\ certs' = certs + (IF IsCert(k) THEN 1 ELSE 0)
               /\ blocks' = blocks + (IF IsCert(k) \/ IsKey(k) \/ k = "Cjunk" THEN 1 ELSE 0)
               /\ failed' = [d \in Decoders |->
                      \/ failed[d]
                      \/ k = "Kbad" \/ k = "Csdsi"                               \* what cannot be read ends every decoder
                      \/ (d = "pem" /\ k \in {"other", "Ksm2"})                  \* what has no PEM form
                      \/ (d # "pem" /\ (k = "Cjunk" \/ keys' > 1))               \* one key only
                      \/ (d = "one" /\ (certs' > 1 \/ k = "Csm2"))               \* one certificate, which the standard library reads
                      \/ (d = "file" /\ k = "Kp256")]
        /\ pos' = pos + 1
        /\ UNCHANGED <<bags, split, right, ended>>
End == /\ ~ended /\ pos # -1 /\ (pos = Len(bags) \/ pos = -2)
       /\ failed' = [d \in Decoders |-> failed[d] \/ (d # "pem" /\ (keys = 0 \/ certs = 0))]
       /\ ended' = TRUE
       /\ UNCHANGED <<bags, split, right, pos, keys, certs, blocks>>
Next == Design \/ Seal \/ Step \/ End
Spec == Init /\ [][Next]_vars

\* a decoder that has failed stays failed, whatever else the store holds
Sticky == [][\A d \in Decoders : failed[d] => failed'[d]]_vars
\* success means exactly one key and at least one certificate (exactly one from the single-certificate decoder), the right password
Sound == ended => \A d \in Decoders \ {"pem"} : ~failed[d] => right /\ keys = 1 /\ certs >= 1 /\ (d = "one" => certs = 1)
\* everything a block is made of is in the store, and all of it
Complete == ended /\ ~failed["pem"] => right /\ blocks = Len(bags)
Want == [d \in Decoders |-> IF failed[d] THEN "err" ELSE "ok"]
Emit == ended => PrintT("@SCN@" \o ToJson([case |-> ToString(bags) \o " divided at " \o ToString(split) \o (IF right THEN "" ELSE ", wrong password"),
                                           bags |-> bags, split |-> split, right |-> right, want |-> Want]))
=============================================================================
