------------------------------ MODULE P7Trace ------------------------------
(* Judges recorded productions, parses and verifications of signed messages *)
(* against P7.                                                              *)
EXTENDS P7, TraceBase

ChunkLen == 4
VARIABLE i
Init == i \in {j \in 1..Len(Trace) : j % ChunkLen = 1}
Next == i % ChunkLen # 0 /\ i < Len(Trace) /\ i' = i + 1
Spec == Init /\ [][Next]_i

Shape(E) == IF E.panic # "" THEN "panic or hang"
            ELSE IF E.err # "" /\ E.got THEN "a result came with an error"
            ELSE IF E.err = "" /\ ~E.got THEN "neither a result nor an error"
            ELSE ""
\* a parsed message against the reader's reading
Parsed(E) ==
    LET R == P7Read(E.der)
    IN  IF Shape(E) # "" THEN Shape(E)
        ELSE IF E.err # "" THEN (IF R.ok /\ R.strict THEN "a valid message was refused" ELSE "")
        ELSE IF ~R.ok THEN "something that is no signed message was accepted"
        ELSE LET d == Differ(E.seen, R.v) IN IF d = "" THEN "" ELSE "read otherwise than it says: " \o d
\* Verify, on the message as it was when it was called
Verified(E) ==
    LET m == IF E.swap THEN [E.seen EXCEPT !.content = E.content2] ELSE E.seen
    IN  IF E.ver /\ ~Authentic(m) THEN "verified an unauthenticated message"
        ELSE IF ~E.ver /\ MustVerify(m) THEN "an authentic message did not verify" ELSE ""
\* what callers ask of the first signer
Asked(E) ==
    LET as == IF E.seen.signers = <<>> THEN <<>> ELSE E.seen.signers[1].attrs
        one(q) == LET h == Having(as, q.oid)
                      fit(val) == val.tag = q.tag \/ {val.tag, q.tag} = {TUTCTime, TGenTime}
                  IN  IF q.ok /\ ~(\E a1 \in ToSet(h) : \E val \in ToSet(AttrValues(a1)) : fit(val) /\ (q.exact => val.body = q.val)) THEN "an attribute that is not there"
                      ELSE IF ~q.ok /\ q.exact /\ Len(h) = 1 /\ (LET vs == AttrValues(h[1]) IN Len(vs) = 1 /\ fit(vs[1]) /\ (q.tag = 6 => OidOk(vs[1].body) /\ ArcsSmall(vs[1].body))) THEN "an attribute was not found" ELSE ""
        bad == {j \in 1..Len(E.asked) : one(E.asked[j]) # ""}
    IN  IF E.only \notin OnlySigner(E.seen) THEN "not the certificate of the only signer"
        ELSE IF bad # {} THEN one(E.asked[CHOOSE j \in bad : TRUE]) ELSE ""
Message(E) ==
    LET p == Parsed(E)
    IN  IF p # "" THEN p
        ELSE IF E.err # "" THEN ""
        ELSE LET v == Verified(E) IN IF v # "" THEN v ELSE Asked(E)

\* production: good - the key is one the function supports and signing works; sound - and it is the certificate's
Made(E) ==
    IF Shape(E) # "" THEN "production: " \o Shape(E)
    ELSE IF ~E.good THEN (IF E.err = "" THEN "produced though signing cannot have worked" ELSE "")
    ELSE IF E.err # "" THEN "refused to produce"
    ELSE LET p == Produced(E.der, E.content, E.cert, E.t0, E.t1, E.sound)
         IN  IF p # "" THEN "produced: " \o p
             ELSE IF E.cb # <<>> /\ E.cb # SignedAttrs(P7Read(E.der).v.signers[1].attrs) THEN "the callback was given something else to sign"
             ELSE IF E.sig # <<>> /\ E.sig # P7Read(E.der).v.signers[1].sig THEN "the callback's signature was not used"
             ELSE IF E.perr # "" THEN "produced: does not parse back"
             ELSE IF Differ(E.seen, P7Read(E.der).v) # "" THEN "read back otherwise: " \o Differ(E.seen, P7Read(E.der).v)
             ELSE IF E.ver # MustVerify(E.seen) THEN (IF E.ver THEN "verified a bad signature" ELSE "what was produced does not verify")
             ELSE Asked(E)
\* the accessors on designed messages: the values of an attribute as whole elements
ValueElems(a1) == LET nd == TLV(a1.val, 1, Len(a1.val))
                IN  IF ~nd.ok THEN <<>> ELSE LET ks == FirstK(a1.val, nd.s, nd.f, 9) IN [j \in 1..Len(ks) |-> Raw(a1.val, ks[j])]
PrintOk(s) == \A j \in 1..Len(s) : s[j] \in (48..57) \cup (65..90) \cup (97..122) \cup {32, 39, 40, 41, 43, 44, 45, 46, 47, 58, 61, 63}
\* whether an element is of the kind asked for ("no", "must" be decoded, "may" be)
Fits(k, el) ==
    LET nd == Whole(el)
        b  == Body(el, nd)
    IN  IF ~nd.ok THEN "may"
        ELSE CASE k = "raw" -> "must"
               [] k = "bytes" -> IF nd.tag = TOctets THEN "must" ELSE "no"
               [] k = "oid" -> IF nd.tag # TOid THEN "no" ELSE IF OidOk(b) /\ ArcsSmall(b) THEN "must" ELSE "may"
               [] k = "time" -> IF nd.tag \notin {TUTCTime, TGenTime} THEN "no" ELSE IF TimeOf(el, nd).ok /\ TimeOf(el, nd).strict THEN "must" ELSE "may"
               [] k = "string" -> CASE nd.tag = 12 -> "must"
                                    [] nd.tag = 19 -> IF PrintOk(b) THEN "must" ELSE "may"
                                    [] nd.tag = 22 -> IF \A j \in 1..Len(b) : b[j] < 128 THEN "must" ELSE "may"
                                    [] nd.tag \in {18, 20, 30} -> "may" [] OTHER -> "no"
               [] k = "int" -> IF nd.tag # TInteger THEN "no" ELSE IF Len(b) \in 1..8 /\ IntNode(el, nd) THEN "must" ELSE IF Len(b) > 8 THEN "no" ELSE "may"
               [] k = "big" -> IF nd.tag # TInteger THEN "no" ELSE IF IntNode(el, nd) THEN "must" ELSE "may"
               [] k = "bool" -> IF nd.tag # 1 THEN "no" ELSE IF b \in {<<0>>, <<255>>} THEN "must" ELSE "may"
               [] OTHER -> "may"
Same(q, el) ==
    LET nd == Whole(el)
        b  == Body(el, nd)
    IN  CASE q.kind = "raw" -> q.val = el
          [] q.kind = "time" -> ~nd.ok \/ ~TimeOf(el, nd).ok \/ q.t = TimeOf(el, nd).t
          [] q.kind \in {"int", "big"} -> q.n = IntVal(b)
          [] q.kind = "any" -> TRUE
          [] OTHER -> q.val = b
\* of several attributes of one type the first counts, of several values the first
Answer(as, q) ==
    LET h  == Having(as, q.oid)
        vs == IF h = <<>> THEN <<>> ELSE ValueElems(h[1])
    IN  IF q.ok THEN (IF h = <<>> THEN "an attribute that is not there"
                      ELSE IF vs = <<>> THEN "the value of an attribute without one"
                      ELSE IF Fits(q.kind, vs[1]) = "no" THEN "a value of another type: " \o q.kind
                      ELSE IF ~Same(q, vs[1]) THEN "not the attribute's value: " \o q.kind ELSE "")
        ELSE IF vs # <<>> /\ Fits(q.kind, vs[1]) = "must" THEN "an attribute was not decoded: " \o q.kind ELSE ""
\* the digest comparison: reported with the two digests
DigestValues(s) == UNION {{v.body : v \in ToSet(AttrValues(a1))} : a1 \in ToSet(Having(s.attrs, ODigest))}
WrongDigestOnly(m) ==
    /\ Len(m.signers) = 1
    /\ LET s == m.signers[1]
           h == Having(s.attrs, ODigest)
           cs == Named([j \in 1..Len(m.certs) |-> CertRead(m.certs[j]).v], s)
       IN  /\ Len(h) = 1 /\ cs # <<>>
           /\ LET vs == AttrValues(h[1]) IN Len(vs) = 1 /\ vs[1].tag = TOctets /\ vs[1].body # SM3Digest(m.content)
           /\ SignedAttrs(s.attrs) = AsSentAttrs(s.attrs)
           /\ \A j \in 1..Len(cs) : cs[j].key.kind = "sm2" /\ Verifies("SM2-SM3", cs[j].key, SignedAttrs(s.attrs), s.sig)
Mismatch(E) ==
    IF E.mism THEN (IF E.act # SM3Digest(E.seen.content) THEN "mismatch: not the digest of the content"
                    ELSE IF E.exp = E.act THEN "mismatch: the digests are the same"
                    ELSE IF E.exp \notin UNION {DigestValues(s) : s \in ToSet(E.seen.signers)} THEN "mismatch: not the digest of a signer" ELSE "")
    ELSE IF WrongDigestOnly(E.seen) THEN "a wrong message digest was not reported as one" ELSE ""
\* a content info of another type, strictly encoded
OtherType(b) == LET nd == TLV(b, 1, Len(b))
                IN  nd.ok /\ nd.f = Len(b) /\ IsSeqOf(b, nd, <<TOid, 160>>) /\ Ci(b, nd).strict /\ Ci(b, nd).oid # OGmSigned
Questions(E) ==
    LET p == Parsed(E)
        as == IF E.seen.signers = <<>> THEN <<>> ELSE E.seen.signers[1].attrs
        bad == {j \in 1..Len(E.asked) : Answer(as, E.asked[j]) # ""}
        v == [E EXCEPT !.op = "p7"] @@ [swap |-> FALSE, content2 |-> <<>>]
    IN  IF p # "" THEN p
        ELSE IF OtherType(E.der) /\ ~E.unsup THEN "an unsupported content type was not reported as one"
        ELSE IF E.unsup /\ P7Read(E.der).ok THEN "signed data reported as an unsupported content type"
        ELSE IF E.err # "" THEN ""
        ELSE IF E.only \notin OnlySigner(E.seen) \/ E.only2 \notin OnlySigner(E.seen) THEN "not the certificate of the only signer"
        ELSE IF bad # {} THEN Answer(as, E.asked[CHOOSE j \in bad : TRUE])
        ELSE IF Mismatch(E) # "" THEN Mismatch(E)
        ELSE Verified(v)
\* values that were not parsed: nothing to authenticate
Empty(E) == IF E.panic # "" THEN "panic or hang" ELSE IF E.ver THEN "verified without a signer" ELSE ""

\* a message whose fields were set: what is said of it is said of what they hold now
Now(E) ==
    LET v == Verified(E @@ [swap |-> FALSE, content2 |-> <<>>])
    IN  IF E.panic # "" THEN "panic or hang"
        ELSE IF v # "" THEN v
        ELSE IF E.only \notin OnlySigner(E.seen) THEN "not the certificate of the only signer" ELSE ""

Verdict(E) == CASE E.op = "p7" -> Message(E) [] E.op = "p7make" -> Made(E) [] E.op = "p7ask" -> Questions(E) [] E.op = "p7obj" -> Now(E) [] E.op = "p7empty" -> Empty(E)
Good == LET v == Verdict(Trace[i])
        IN  v = "" \/ Report([i |-> i, why |-> v, op |-> Trace[i].op, case |-> Trace[i].case])
=============================================================================
