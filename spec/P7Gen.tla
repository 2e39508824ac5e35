------------------------------- MODULE P7Gen -------------------------------
(* Signed messages by their design: a choice for every part, of which at    *)
(* most MaxDev deviate from a plain message signed by A whose certificate   *)
(* is enclosed.  The driver writes the message and makes the signatures;    *)
(* P7Trace says what it is worth.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDev, Each
VARIABLES ch, dev, done

Menu ==
   \* the certificates enclosed. A, B: SM2 signers; imp: A's issuer and serial number, another key; X: A's issuer, another
   \* serial number; Y: A's serial number, another issuer; R, P: A's name and number with an RSA or a P-256 key
  [certs   |-> <<"A", "none", "absent", "B", "A B", "B A", "A A", "imp", "imp A", "A imp", "X", "X A", "Y", "Y A", "X Y B", "R", "P", "P A", "A P", "A junk">>,
   content |-> <<"text", "empty", "absent", "emptytag", "compound", "compoundempty", "compoundtwo", "nested", "utf8", "integer", "big", "nul">>,
   inner   |-> <<"gm", "rfc", "signed">>,
   outer   |-> <<"gm", "rfc", "data", "enveloped", "primitive", "trailing", "innertrailing">>,
   digs    |-> <<"sm3", "none", "sha1", "two", "params">>,
   crls    |-> <<"absent", "empty", "one", "two", "v1">>,
   version |-> <<"1", "2", "3", "0", "-1", "128">>,
   more    |-> <<"one", "zero", "good", "goodfirst", "bad", "badfirst", "twice", "three", "threebad", "unnamed", "nobody">>,
   ias     |-> <<"A", "B", "X", "Y", "rekeyed", "negative", "empty">>,
   key     |-> <<"A", "B", "imp", "P">>,
   \* the signed attributes
   attrs   |-> <<"full", "none", "empty", "digest", "nodigest", "wrong", "wrongfirst", "rightfirst", "twice", "digest31", "digest33", "digestempty", "digestbits", "digestseq",
                 "novalues", "valueswrongfirst", "valuesrightfirst", "notset", "sequenceof", "unsorted", "rotated", "noctype", "wrongctype", "notime", "oddtime", "extra", "many", "unauthdigest">>,
   \* what the signature is over
   over    |-> <<"attrs", "assent", "content", "digest", "tag0", "bare", "other", "otherdigest", "contentinfo", "ownuid">>,
   sig     |-> <<"none", "sigbit", "sigcut", "siglonger", "sigempty", "sigzero", "sigother", "complement", "swapped", "longder", "nonminimal", "trailing", "negative", "plusn", "rzero", "szero">>,
   dig     |-> <<"sm3", "sha1", "sha256", "unknown", "params">>,
   sigalg  |-> <<"sm2sm3", "sm2", "rsa", "ecdsa", "unknown", "params">>,
   unauth  |-> <<"absent", "empty", "one", "two">>,
   siver   |-> <<"1", "0", "3">>,
   \* what happens to the message after signing: in it, or in the value parsed from it
   tamper  |-> <<"none", "content", "contentlonger", "contentempty", "attr", "attrorder", "attrgone", "ias", "cert", "sigofother", "unauth">>,
   swap    |-> <<"none", "same", "other", "nil", "longer", "attrs">>]
Places == DOMAIN Menu
Right == [pl \in Places |-> Menu[pl][1]]

Init == ch = Right /\ dev = {} /\ done = FALSE
Deviate == /\ Cardinality(dev) < MaxDev
           /\ \E pl \in Places \ dev : \E j \in 2..Len(Menu[pl]) : ch' = [ch EXCEPT ![pl] = Menu[pl][j]] /\ dev' = dev \cup {pl}
           /\ UNCHANGED done
Finish == ~Each /\ ~done /\ Cardinality(dev) = MaxDev /\ done' = TRUE /\ UNCHANGED <<ch, dev>>
Next == Deviate \/ Finish
Spec == Init /\ [][Next]_<<ch, dev, done>>

RECURSIVE Show(_)
Show(ps) == IF ps = {} THEN "" ELSE LET pl == CHOOSE x \in ps : TRUE IN pl \o "=" \o ch[pl] \o "; " \o Show(ps \ {pl})
Emit == (Each \/ done) => PrintT("@SCN@" \o ToJson([case |-> IF dev = {} THEN "plain" ELSE Show(dev), ch |-> ch]))
=============================================================================
