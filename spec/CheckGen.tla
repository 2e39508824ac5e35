------------------------------ MODULE CheckGen ------------------------------
(* Situations in which a signature is checked: a bare signature with a      *)
(* certificate's key, a certificate against a parent, a request with its    *)
(* own key, a revocation list with a certificate's key.                     *)
(* One situation per initial state; Deep widens the products.               *)
EXTENDS PubKey, FiniteSets, TLC, Json

CONSTANTS Kinds, Deep
VARIABLE s

KeyNames == {"rsa", "rsa2", "p224", "p256", "p384", "p521", "sm2", "ed25519"}
KindOf(k) == CASE k \in {"rsa", "rsa2"} -> "rsa" [] k \in {"p224", "p256", "p384", "p521"} -> "ecdsa" [] OTHER -> k
\* keys nobody has a signature of: none, a type no algorithm takes, a value where a pointer belongs, points off the curve
OddKeys == {"none", "dsa", "text", "rsavalue", "sm2value", "sm2offcurve", "sm2private", "p256offcurve", "ed25519pointer"}
AlgNames == {"MD5-RSA", "SHA1-RSA", "SHA256-RSA", "SHA384-RSA", "SHA512-RSA", "SHA256-RSAPSS", "SHA384-RSAPSS", "SHA512-RSAPSS",
             "ECDSA-SHA1", "ECDSA-SHA256", "ECDSA-SHA384", "ECDSA-SHA512", "SM2-SM3", "Ed25519"}
AllAlgs == AlgNames \cup {"", "DSA-SHA1", "DSA-SHA256", "unknown"}
FitAlgs(k) == {a1 \in AlgNames : Alg(a1).kind = KindOf(k) /\ ~(a1 = "SHA512-RSAPSS" /\ k = "rsa2")}
Plain(k) == CASE KindOf(k) = "rsa" -> "SHA256-RSA" [] KindOf(k) = "ecdsa" -> "ECDSA-SHA256" [] k = "sm2" -> "SM2-SM3" [] k = "ed25519" -> "Ed25519"
Same(k, l) == KindOf(k) = KindOf(l)

\* what happens to the message, or to the signature, between signing and checking
Hows(k) == {"none", "msgbit", "msglonger", "msgshorter", "sigbit", "sigcut", "siglonger", "sigempty", "sigother", "sigzero"}
           \cup (IF KindOf(k) \in {"ecdsa", "sm2"} THEN {"complement", "swapped", "longder", "nonminimal", "trailing", "negative", "plusn", "rzero", "szero"} ELSE {})
           \cup (IF KindOf(k) = "rsa" THEN {"saltnone", "saltshort", "saltmax", "plusn", "nohash", "wronghash"} ELSE {})
           \cup (IF k = "ed25519" THEN {"plusn", "prehashed"} ELSE {})
Sit(kind, key, alg, signer, signalg, how) ==
    [kind |-> kind, key |-> key, alg |-> alg, signer |-> signer, signalg |-> signalg, how |-> how,
     version |-> 3, exts |-> TRUE, bc |-> "ca", ku |-> "certsign", oddkey |-> FALSE]

\* a signature by signer under signalg, checked with key under alg
Sigs ==
    {Sit("sig", k, a1, k, a1, h) : k \in KeyNames, a1 \in AlgNames, h \in UNION {Hows(j) : j \in KeyNames}}
    \cup {Sit("sig", k, a1, k, Plain(k), "none") : k \in KeyNames, a1 \in AllAlgs}
    \cup {Sit("sig", k, Plain(k), k, a1, "none") : k \in KeyNames, a1 \in AlgNames}
    \cup {Sit("sig", k, Plain(k), l, Plain(l), "none") : k \in KeyNames, l \in KeyNames}
    \cup {Sit("sig", k, Plain(l), l, Plain(l), "none") : k \in KeyNames, l \in KeyNames}
    \cup {Sit("sig", k, Plain(k), k, Plain(k), "otherkey") : k \in KeyNames}
    \cup {Sit("sig", k, a1, l, Plain(l), "none") : k \in OddKeys, a1 \in AllAlgs, l \in (IF Deep THEN KeyNames ELSE {"sm2"})}
    \cup (IF Deep THEN {Sit("sig", k, a1, l, b1, "none") : k \in KeyNames, a1 \in AllAlgs, l \in KeyNames, b1 \in AlgNames} ELSE {})
SigOk(x) == x.kind = "sig" => /\ x.signalg \in FitAlgs(x.signer)
                              /\ x.how # "otherkey" /\ x.key = x.signer /\ x.alg = x.signalg => x.how \in Hows(x.key)
                              /\ (x.how \in {"saltnone", "saltshort", "saltmax"}) => Alg(x.signalg).pss
                              /\ (x.how \in {"nohash", "wronghash"}) => ~Alg(x.signalg).pss

Rarer == {"siglonger", "sigbits", "resigned"}
\* certificates against parents: every shape of the parent, every relation and alteration with a proper parent
ParentKeys == IF Deep THEN KeyNames ELSE {"sm2", "p256", "rsa2", "ed25519"}
\* siglonger: an octet more; sigbits: bits of the signature said to be unused; resigned: altered, then signed properly
FromHows == {"none", "tbs", "sig", "sigcut", "sigempty", "otherkey", "otherkind", "otheralg"} \cup Rarer
Shapes == {[version |-> v, exts |-> x, bc |-> b, ku |-> u, oddkey |-> o] :
           v \in 1..3, x \in BOOLEAN, b \in {"none", "leaf", "ca"}, u \in {"none", "certsign", "crlsign", "allbutcertsign", "encipheronly", "all"},
           o \in BOOLEAN}
ShapeOk(h) == /\ (~h.exts) => (h.bc = "none" /\ h.ku = "none")
              /\ h.oddkey => (h.bc = "ca" /\ h.ku = "certsign" /\ h.version = 3)
From ==
    UNION {{[Sit("from", k, Plain(k), k, Plain(k), h) EXCEPT !.version = g.version, !.exts = g.exts, !.bc = g.bc, !.ku = g.ku, !.oddkey = g.oddkey] :
                 k \in ParentKeys, g \in {g \in Shapes : ShapeOk(g)}} : h \in (IF Deep THEN FromHows ELSE {"none"})}
    \cup {Sit("from", k, a1, k, a1, h) : k \in KeyNames, a1 \in AlgNames, h \in FromHows}
FromOk(x) == x.kind = "from" => x.signalg \in FitAlgs(x.signer)

Csrs == {Sit("csr", k, a1, k, a1, h) : k \in KeyNames, a1 \in AlgNames,
                                       h \in {"none", "tbs", "tbs2", "key", "otherkey", "sig", "sigcut", "sigempty", "outer", "outerparams"} \cup Rarer}
CsrOk(x) == x.kind = "csr" => x.signalg \in FitAlgs(x.signer)
Crls == {Sit("crl", k, a1, k, a1, h) : k \in KeyNames, a1 \in AlgNames,
                                       h \in {"none", "tbs", "tbs2", "otherkey", "otherkind", "sig", "sigcut", "sigempty", "outer", "inner", "both", "outerparams", "innerparams"} \cup Rarer}
CrlOk(x) == x.kind = "crl" => x.signalg \in FitAlgs(x.signer)

Init == \/ "sig" \in Kinds /\ s \in {x \in Sigs : SigOk(x)}
        \/ "from" \in Kinds /\ s \in {x \in From : FromOk(x)}
        \/ "csr" \in Kinds /\ s \in {x \in Csrs : CsrOk(x)}
        \/ "crl" \in Kinds /\ s \in {x \in Crls : CrlOk(x)}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == PrintT("@SCN@" \o ToJson(s))
=============================================================================
