--------------------------------- MODULE P7 ---------------------------------
(* PKCS#7 signed data with the identifiers of GM/T 0010: an independent     *)
(* reader, what a producer must write, and when a message is authenticated. *)
(* A message as read is [content, certs, crls, signers]; certs are octets,  *)
(* a signer is [issuer, serial, dig, attrs, sigalg, sig, unauth] with       *)
(* attributes [type, val] (val: a whole element).                           *)
EXTENDS X509

GMBase == <<42, 129, 28, 207, 85, 6, 1, 4, 2>>
OGmData == GMBase \o <<1>>
OGmSigned == GMBase \o <<2>>
OSM3 == <<42, 129, 28, 207, 85, 1, 131, 17>>
SM2Sign == {<<42, 129, 28, 207, 85, 1, 130, 45, 1>>, <<42, 129, 28, 207, 85, 1, 131, 117>>}    \* SM2-1 signing, SM2 with SM3
OAttr(j) == <<42, 134, 72, 134, 247, 13, 1, 9, j>>
OCType == OAttr(3)   ODigest == OAttr(4)   OSigTime == OAttr(5)

NoMsg == [ok |-> FALSE, strict |-> FALSE]
\* an OID element
OidNode(b, nd) == nd.ok /\ nd.tag = TOid /\ OidOk(Body(b, nd))
\* ContentInfo: [ok, strict, oid, inner (the octets of the explicit tag)]
Ci(b, nd) ==
    LET ks == InSeq(b, nd, 2)
    IN  IF Len(ks) < 1 THEN [ok |-> FALSE, strict |-> FALSE, oid |-> <<>>, inner |-> <<>>]
        ELSE IF ~OidNode(b, ks[1]) THEN [ok |-> FALSE, strict |-> FALSE, oid |-> <<>>, inner |-> <<>>]
        ELSE LET h == Len(ks) = 2 /\ ks[2].tag = 160
             IN  [ok |-> TRUE, oid |-> Body(b, ks[1]), inner |-> IF h THEN Body(b, ks[2]) ELSE <<>>,
                  strict |-> /\ AllOk(Kids(b, nd)) /\ (h => ks[2].f = nd.f /\ BLen(ks[2]) > 0)
                             /\ (~h => ks[1].f = nd.f) /\ ArcsSmall(Body(b, ks[1]))]
\* the octets of the content: the body of the first element, or of the first octet string inside it
LOCAL ContentOf(c) ==
    LET nd == TLV(c, 1, Len(c))
    IN  IF c = <<>> THEN [ok |-> TRUE, strict |-> TRUE, v |-> <<>>]
        ELSE IF ~nd.ok THEN [ok |-> FALSE, strict |-> FALSE, v |-> <<>>]
        ELSE IF (c[nd.at] \div 32) % 2 = 1
             THEN LET i == FirstOr(c, nd) IN [ok |-> i.ok /\ i.tag = TOctets, strict |-> FALSE, v |-> IF i.ok THEN Body(c, i) ELSE <<>>]
        ELSE [ok |-> TRUE, strict |-> nd.tag = TOctets /\ nd.f = Len(c), v |-> Body(c, nd)]
LOCAL AttrRead(b, nd) ==
    LET ks == InSeq(b, nd, 2)
    IN  IF Len(ks) < 2 THEN [ok |-> FALSE, strict |-> FALSE, v |-> [type |-> <<>>, val |-> <<>>]]
        ELSE [ok |-> OidNode(b, ks[1]), strict |-> IsSeqOf(b, nd, <<TOid, TSet>>) /\ BLen(ks[2]) > 0 /\ ArcsSmall(Body(b, ks[1])),
              v |-> [type |-> Body(b, ks[1]), val |-> Raw(b, ks[2])]]
LOCAL LexLt(s, t) ==
    \/ \E j \in 1..Len(s) : j <= Len(t) /\ s[j] < t[j] /\ \A k \in 1..(j - 1) : s[k] = t[k]
    \/ Len(s) < Len(t) /\ SubSeq(t, 1, Len(s)) = s
LexLeq(s, t) == s = t \/ LexLt(s, t)
Sorted(ss) == \A j \in 1..(Len(ss) - 1) : LexLeq(ss[j], ss[j + 1])
RECURSIVE Insert(_, _)
Insert(ss, s) == IF ss = <<>> THEN <<s>> ELSE IF LexLt(s, ss[1]) THEN <<s>> \o ss ELSE <<ss[1]>> \o Insert(Tail(ss), s)
SortOctets(ss) == FoldLeft(LAMBDA acc, s : Insert(acc, s), <<>>, ss)

NoSigner == [ok |-> FALSE, strict |-> FALSE, v |-> [issuer |-> <<>>, serial |-> [neg |-> FALSE, mag |-> <<>>], dig |-> <<>>, attrs |-> <<>>, sigalg |-> <<>>,
                                                    sig |-> <<>>, unauth |-> <<>>]]
LOCAL SignerRead(b, nd) ==
    LET ks == InSeq(b, nd, 7)
        ias == IF Len(ks) >= 2 THEN InSeq(b, ks[2], 2) ELSE <<>>
        ha == Len(ks) >= 4 /\ ks[4].tag = 160
        p  == IF ha THEN 5 ELSE 4
        hu == Len(ks) >= p + 2 /\ ks[p + 2].tag = 161
        as == IF ha THEN Kids(b, ks[4]) ELSE <<>>
        us == IF hu THEN Kids(b, ks[p + 2]) ELSE <<>>
    IN  IF Len(ks) < p + 1 \/ Len(ias) < 2 \/ ~AllOk(as) \/ ~AllOk(us) THEN NoSigner
        ELSE IF ~IntNode(b, ks[1]) \/ ~IntNode(b, ias[2]) \/ ~AlgIdOk(b, ks[3]) \/ ~AlgIdOk(b, ks[p]) \/ ks[p + 1].tag # TOctets THEN NoSigner
        ELSE LET A == [j \in 1..Len(as) |-> AttrRead(b, as[j])]
                 U == [j \in 1..Len(us) |-> AttrRead(b, us[j])]
             IN  IF \E j \in 1..Len(A) : ~A[j].ok THEN NoSigner
                 ELSE IF \E j \in 1..Len(U) : ~U[j].ok THEN NoSigner
                 ELSE [ok |-> TRUE,
                       strict |-> /\ nd.f = (IF hu THEN ks[p + 2].f ELSE ks[p + 1].f) /\ SmallInt(b, ks[1]).v = 1 /\ Len(Body(b, ks[1])) = 1
                                  /\ IsSeqOf(b, ks[2], <<TSeq, TInteger>>) /\ DeepPlain(b, ks[3]) /\ DeepPlain(b, ks[p])
                                  /\ (ha => as # <<>>) /\ (hu => us # <<>>)
                                  /\ \A j \in 1..Len(A) : A[j].strict
                                  /\ \A j \in 1..Len(U) : U[j].strict,
                       v |-> [issuer |-> Raw(b, ias[1]), serial |-> IntVal(Body(b, ias[2])), dig |-> Body(b, InSeq(b, ks[3], 1)[1]),
                              attrs |-> [j \in 1..Len(A) |-> A[j].v], sigalg |-> Body(b, InSeq(b, ks[p], 1)[1]), sig |-> Body(b, ks[p + 1]),
                              unauth |-> [j \in 1..Len(U) |-> U[j].v]]]

P7Read(b) ==
    LET nd == TLV(b, 1, Len(b))
        o  == IF nd.ok THEN Ci(b, nd) ELSE [ok |-> FALSE, strict |-> FALSE, oid |-> <<>>, inner |-> <<>>]
        d  == o.inner
        sd == TLV(d, 1, Len(d))
    IN  IF ~nd.ok THEN NoMsg
        ELSE IF nd.f # Len(b) \/ ~o.ok \/ o.oid # OGmSigned \/ ~sd.ok THEN NoMsg
        ELSE IF sd.f # Len(d) \/ sd.tag # TSeq THEN NoMsg
        ELSE LET ks == FirstK(d, sd.s, sd.f, 6)
                 hc == Len(ks) >= 4 /\ ks[4].tag = 160
                 p  == IF hc THEN 5 ELSE 4
                 hr == Len(ks) >= p /\ ks[p].tag = 161
                 q  == IF hr THEN p + 1 ELSE p
             IN  IF Len(ks) < q THEN NoMsg
                 ELSE IF ~IntNode(d, ks[1]) \/ ks[2].tag # TSet \/ ks[q].tag # TSet THEN NoMsg
                 ELSE LET digs == Kids(d, ks[2])
                          ci == Ci(d, ks[3])
                          ct == ContentOf(ci.inner)
                          cs == IF hc THEN Kids(d, ks[4]) ELSE <<>>
                          rs == IF hr THEN Kids(d, ks[p]) ELSE <<>>
                          ss == Kids(d, ks[q])
                      IN  IF ~AllOk(digs) \/ ~AllOk(cs) \/ ~AllOk(rs) \/ ~AllOk(ss) \/ ~ci.ok THEN NoMsg
                          ELSE IF ~ct.ok \/ \E j \in 1..Len(digs) : ~AlgIdOk(d, digs[j]) THEN NoMsg
                          ELSE LET C == [j \in 1..Len(cs) |-> CertRead(Raw(d, cs[j]))]
                                   R == [j \in 1..Len(rs) |-> CrlRead(Raw(d, rs[j]))]
                                   S == [j \in 1..Len(ss) |-> SignerRead(d, ss[j])]
                               IN  IF \/ \E j \in 1..Len(C) : ~C[j].ok
                                      \/ \E j \in 1..Len(R) : ~R[j].ok
                                      \/ \E j \in 1..Len(S) : ~S[j].ok
                                   THEN NoMsg
                                   ELSE [ok |-> TRUE,
                                         strict |-> /\ o.strict /\ nd.tag = TSeq /\ IsSeqOf(b, nd, <<TOid, 160>>) /\ Body(d, ks[1]) = <<1>>
                                                    /\ \A j \in 1..Len(digs) : DeepPlain(d, digs[j])
                                                    /\ ci.strict /\ ct.strict /\ ks[q].f = sd.f
                                                    /\ (hc => cs # <<>>)
                                                    /\ \A j \in 1..Len(C) : C[j].strict
                                                    /\ \A j \in 1..Len(R) : R[j].strict
                                                    /\ \A j \in 1..Len(S) : S[j].strict,
                                         ctype |-> ci.oid, digs |-> [j \in 1..Len(digs) |-> Body(d, InSeq(d, digs[j], 1)[1])],
                                         v |-> [content |-> ct.v, certs |-> [j \in 1..Len(cs) |-> Raw(d, cs[j])],
                                                crls |-> [j \in 1..Len(rs) |-> R[j].v.rawtbs],
                                                signers |-> [j \in 1..Len(S) |-> S[j].v]]]

----------------------------------------------------------------------------
(* authentication, over a message as read *)
LOCAL AttrTLV(a1) == Enc(TSeq, Enc(TOid, a1.type) \o a1.val)
\* the signed attributes as they are signed: a SET OF in DER
SignedAttrs(as) == Enc(TSet, FlattenSeq(SortOctets([j \in 1..Len(as) |-> AttrTLV(as[j])])))
AsSentAttrs(as) == Enc(TSet, FlattenSeq([j \in 1..Len(as) |-> AttrTLV(as[j])]))
\* the values of an attribute (elements of its set), as [tag, body]
AttrValues(a1) == LET nd == TLV(a1.val, 1, Len(a1.val))
                  IN  IF ~nd.ok THEN <<>> ELSE LET ks == FirstK(a1.val, nd.s, nd.f, 9) IN [j \in 1..Len(ks) |-> [tag |-> ks[j].tag, body |-> Body(a1.val, ks[j])]]
Having(as, o) == SelectSeq(as, LAMBDA a1 : a1.type = o)
IsDigest(val, content) == val.tag = TOctets /\ val.body = SM3Digest(content)
\* some message digest attribute is the content's
DigestMay(as, content) == \E a1 \in ToSet(Having(as, ODigest)) : \E val \in ToSet(AttrValues(a1)) : IsDigest(val, content)
DigestMust(as, content) ==
    LET ds == Having(as, ODigest)
    IN  Len(ds) = 1 /\ LET vs == AttrValues(ds[1]) IN Len(vs) = 1 /\ IsDigest(vs[1], content) /\ ds[1].val[1] = TSet

\* the certificates (as read) with the signer's issuer and serial number
Named(certs, s) == SelectSeq(certs, LAMBDA c : c.serial = s.serial /\ c.rawissuer = s.issuer)
LOCAL Signs(c, msg, sig) == c.key.kind = "sm2" /\ Verifies("SM2-SM3", c.key, msg, sig)
SignerMust(m, certs, s) ==
    LET cs == Named(certs, s)
    IN  /\ cs # <<>>
        /\ IF s.attrs = <<>> THEN \A j \in 1..Len(cs) : Signs(cs[j], m.content, s.sig)
           ELSE /\ DigestMust(s.attrs, m.content) /\ SignedAttrs(s.attrs) = AsSentAttrs(s.attrs)
                /\ \A j \in 1..Len(cs) : Signs(cs[j], SignedAttrs(s.attrs), s.sig)
SignerMay(m, certs, s) ==
    \E c \in ToSet(Named(certs, s)) :
        IF s.attrs = <<>> THEN Signs(c, m.content, s.sig)
        ELSE DigestMay(s.attrs, m.content) /\ (Signs(c, SignedAttrs(s.attrs), s.sig) \/ Signs(c, AsSentAttrs(s.attrs), s.sig))
LOCAL CertsOf(m) == [j \in 1..Len(m.certs) |-> CertRead(m.certs[j]).v]
Authentic(m)    == m.signers # <<>> /\ LET cs == CertsOf(m) IN \A j \in 1..Len(m.signers) : SignerMay(m, cs, m.signers[j])
MustVerify(m)   == m.signers # <<>> /\ LET cs == CertsOf(m) IN \A j \in 1..Len(m.signers) : SignerMust(m, cs, m.signers[j])
\* the certificate of the only signer: the possible answers (octets; <<>> for none)
OnlySigner(m) ==
    IF Len(m.signers) # 1 THEN {<<>>}
    ELSE LET hit == {j \in 1..Len(m.certs) : LET c == CertRead(m.certs[j]).v IN c.serial = m.signers[1].serial /\ c.rawissuer = m.signers[1].issuer}
         IN  IF hit = {} THEN {<<>>} ELSE {m.certs[j] : j \in hit}

----------------------------------------------------------------------------
(* what a producer must write for a content and a certificate (as read) *)
OneValue(as, o, P(_)) == LET h == Having(as, o) IN Len(h) = 1 /\ LET vs == AttrValues(h[1]) IN Len(vs) = 1 /\ P(vs[1])
\* the first thing wrong with the octets ("" if nothing); signed is whether the signature must verify
Produced(b, content, cert, t0, t1, signed) ==
    LET R == P7Read(b)
        C == CertRead(cert)
    IN  IF ~R.ok THEN "not a signed message"
        ELSE IF C.strict /\ ~R.strict THEN "not the standard encoding"
        ELSE IF R.ctype # OGmData THEN "content type"
        ELSE IF R.digs # <<OSM3>> THEN "digest algorithms"
        ELSE IF R.v.content # content THEN "content"
        ELSE IF R.v.certs # <<cert>> THEN "certificates"
        ELSE IF R.v.crls # <<>> THEN "revocation lists"
        ELSE IF Len(R.v.signers) # 1 THEN "signers"
        ELSE LET s == R.v.signers[1]
             IN  IF s.issuer # C.v.rawissuer \/ s.serial # C.v.serial THEN "signer's name"
                 ELSE IF s.dig # OSM3 THEN "digest algorithm"
                 ELSE IF s.sigalg \notin SM2Sign THEN "signature algorithm"
                 ELSE IF ~OneValue(s.attrs, OCType, LAMBDA val : val.tag = TOid /\ val.body = OGmData) THEN "content type attribute"
                 ELSE IF ~OneValue(s.attrs, ODigest, LAMBDA val : IsDigest(val, content)) THEN "message digest attribute"
                 ELSE IF ~OneValue(s.attrs, OSigTime, LAMBDA val :
                            LET e == Enc(val.tag, val.body)
                                t == TimeOf(e, Whole(e)) IN t.ok /\ t.strict /\ TLeq(t0, t.t) /\ TLeq(t.t, t1)) THEN "signing time attribute"
                 ELSE IF AsSentAttrs(s.attrs) # SignedAttrs(s.attrs) THEN "order of the attributes"
                 ELSE IF signed /\ ~MustVerify(R.v) THEN "signature" ELSE ""
=============================================================================
