--------------------------------- MODULE P12 ---------------------------------
(* PKCS#12 stores (RFC 7292) with password privacy and integrity as this    *)
(* package uses them: two safes, SHA-1, 40-bit RC2 and triple DES.  An      *)
(* independent reader: what a store holds under a password, when a decoder  *)
(* may return it, when it must.                                             *)
EXTENDS P7, P12Crypto

LOCAL Pkcs == <<42, 134, 72, 134, 247, 13, 1>>
OData == Pkcs \o <<7, 1>>
OEncrypted == Pkcs \o <<7, 6>>
OPbe(j) == Pkcs \o <<12, 1, j>>
PbeName(o) == CASE o = OPbe(3) -> "3des" [] o = OPbe(6) -> "rc2-40" [] OTHER -> ""
OBag(j) == Pkcs \o <<12, 10, 1, j>>
OX509Cert == Pkcs \o <<9, 22, 1>>
OFriendly == OAttr(20)
OLocalKey == OAttr(21)
OCspName == <<43, 6, 1, 4, 1, 130, 55, 17, 1>>
OSha1 == <<43, 14, 3, 2, 26>>

----------------------------------------------------------------------------
(* passwords: UTF-8 octets to BMPString octets with the two zeros at the end *)
RECURSIVE Bmp(_)
LOCAL Two(x) == <<x \div 256, x % 256>>
Bmp(s) == IF s = <<>> THEN <<0, 0>>
          ELSE IF s[1] < 128 THEN <<0, s[1]>> \o Bmp(SubSeq(s, 2, Len(s)))
          ELSE IF s[1] < 224 THEN Two(((s[1] - 192) * 64) + s[2] - 128) \o Bmp(SubSeq(s, 3, Len(s)))
          ELSE Two(((s[1] - 224) * 4096) + ((s[2] - 128) * 64) + s[3] - 128) \o Bmp(SubSeq(s, 4, Len(s)))
Representable(s) == Utf8Ok(s, 1) /\ \A j \in 1..Len(s) : s[j] < 240
\* what a password may stand for: an empty one also for no octets at all
Readings(s) == IF s = <<>> THEN << <<0, 0>>, <<>> >> ELSE << Bmp(s) >>

----------------------------------------------------------------------------
(* iteration counts: not more than 2^24; what is below 1 counts as 1 *)
IterOf(b, nd) ==
    LET c == Body(b, nd)
    IN  IF ~nd.ok \/ nd.tag # TInteger \/ ~IntOk(c) \/ Len(c) > 8 THEN [ok |-> FALSE, strict |-> FALSE, r |-> 1]
        ELSE LET z == IntVal(c)
             IN  IF z.neg \/ z.mag = <<>> THEN [ok |-> TRUE, strict |-> FALSE, r |-> 1]
                 ELSE IF BLt(<<1, 0, 0, 0>>, z.mag) THEN [ok |-> FALSE, strict |-> FALSE, r |-> 1]
                 ELSE [ok |-> TRUE, strict |-> TRUE, r |-> FoldLeft(LAMBDA acc, x : (acc * 256) + x, 0, z.mag)]
LOCAL Nullish(b, as) == Len(as) = 1 \/ Raw(b, as[2]) = DerNull

\* the outside: [ok, strict, content, digest, salt, r]
NoPfx == [ok |-> FALSE, strict |-> FALSE, content |-> <<>>, digest |-> <<>>, salt |-> <<>>, r |-> 1]
Pfx(b) ==
    LET nd == TLV(b, 1, Len(b))
        ks == InSeq(b, nd, 3)
    IN  IF Len(ks) < 3 \/ nd.f # Len(b) THEN NoPfx
        ELSE LET ci == Ci(b, ks[2])
                 ct == TLV(ci.inner, 1, Len(ci.inner))
                 ms == InSeq(b, ks[3], 3)
                 di == IF Len(ms) >= 2 THEN InSeq(b, ms[1], 2) ELSE <<>>
                 it == IF Len(ms) = 3 THEN (IF ms[3].tag = TInteger THEN IterOf(b, ms[3]) ELSE [ok |-> TRUE, strict |-> FALSE, r |-> 1])
                       ELSE [ok |-> TRUE, strict |-> TRUE, r |-> 1]
             IN  IF Len(di) < 2 \/ ~IntNode(b, ks[1]) \/ ~ci.ok \/ ~ct.ok \/ ~it.ok THEN NoPfx
                 ELSE IF Body(b, ks[1]) # <<3>> \/ ci.oid # OData \/ ct.f # Len(ci.inner) \/ ms[2].tag # TOctets
                         \/ ~AlgIdOk(b, di[1]) \/ di[2].tag # TOctets THEN NoPfx
                 ELSE IF Body(b, InSeq(b, di[1], 1)[1]) # OSha1 THEN NoPfx
                 ELSE [ok |-> TRUE, content |-> Body(ci.inner, ct), digest |-> Body(b, di[2]), salt |-> Body(b, ms[2]), r |-> it.r,
                       strict |-> /\ nd.tag = TSeq /\ IsSeqOf(b, nd, <<TInteger, TSeq, TSeq>>) /\ ci.strict /\ ct.tag = TOctets
                                  /\ AllOk(Kids(b, ks[3])) /\ Len(Kids(b, ks[3])) = Len(ms) /\ it.strict
                                  /\ IsSeqOf(b, ms[1], <<TSeq, TOctets>>) /\ DeepPlain(b, di[1]) /\ Len(Kids(b, di[1])) <= 2
                                  /\ Nullish(b, Kids(b, di[1]))]
MacUnder(o, pw) == HMAC("sha1", P12KDF(3, o.salt, pw, o.r, 20), o.content) = o.digest

----------------------------------------------------------------------------
(* password-based encryption *)
NoPbe == [ok |-> FALSE, strict |-> FALSE, alg |-> "", salt |-> <<>>, r |-> 1]
PbeOf(b, nd) ==
    LET as == InSeq(b, nd, 2)
        ps == IF Len(as) = 2 THEN InSeq(b, as[2], 2) ELSE <<>>
        it == IF Len(ps) = 2 THEN IterOf(b, ps[2]) ELSE [ok |-> FALSE, strict |-> FALSE, r |-> 1]
    IN  IF ~AlgIdOk(b, nd) \/ ~it.ok THEN NoPbe
        ELSE IF PbeName(Body(b, as[1])) = "" \/ ps[1].tag # TOctets THEN NoPbe
        ELSE [ok |-> TRUE, strict |-> it.strict /\ IsSeqOf(b, nd, <<TOid, TSeq>>) /\ IsSeqOf(b, as[2], <<TOctets, TInteger>>),
              alg |-> PbeName(Body(b, as[1])), salt |-> Body(b, ps[1]), r |-> it.r]
\* [ok, v]
PbeDecrypt(p, pw, ct) ==
    IF ~p.ok \/ ct = <<>> \/ Len(ct) % 8 # 0 THEN [ok |-> FALSE, v |-> <<>>]
    ELSE LET key == P12KDF(1, p.salt, pw, p.r, IF p.alg = "3des" THEN 24 ELSE 5)
             iv  == P12KDF(2, p.salt, pw, p.r, 8)
             pt  == IF p.alg = "3des" THEN DES3CBC(key, iv, ct) ELSE RC2CBC(key, 40, iv, ct)
             n   == pt[Len(pt)]
         IN  IF n \notin 1..8 THEN [ok |-> FALSE, v |-> <<>>]
             ELSE IF \E j \in (Len(pt) - n + 1)..Len(pt) : pt[j] # n THEN [ok |-> FALSE, v |-> <<>>]
             ELSE [ok |-> TRUE, v |-> SubSeq(pt, 1, Len(pt) - n)]

\* one of the two safes: [ok, strict, pbe, v]
NoSafe == [ok |-> FALSE, strict |-> FALSE, pbe |-> NoPbe, v |-> <<>>]
Safe(b, nd, pw) ==
    LET ci == Ci(b, nd)
        x  == ci.inner
        n  == Whole(x)
        es == IF n.ok THEN InSeq(x, n, 2) ELSE <<>>
        c  == IF Len(es) = 2 THEN InSeq(x, es[2], 3) ELSE <<>>
    IN  IF ~ci.ok \/ ~n.ok THEN NoSafe
        ELSE IF ci.oid = OData THEN [ok |-> n.tag = TOctets, strict |-> ci.strict, pbe |-> NoPbe, v |-> Body(x, n)]
        ELSE IF ci.oid # OEncrypted \/ Len(c) < 3 THEN NoSafe
        ELSE IF ~IntNode(x, es[1]) \/ ~OidNode(x, c[1]) \/ c[3].tag # 128 THEN NoSafe
        ELSE LET p == PbeOf(x, c[2])
                 d == PbeDecrypt(p, pw, Body(x, c[3]))
             IN  [ok |-> Body(x, es[1]) = <<0>> /\ d.ok, pbe |-> p, v |-> d.v,
                  strict |-> /\ ci.strict /\ p.strict /\ IsSeqOf(x, n, <<TInteger, TSeq>>) /\ IsSeqOf(x, es[2], <<TOid, TSeq, 128>>)
                             /\ Body(x, c[1]) = OData]

----------------------------------------------------------------------------
(* bags: [shape, kind, ok, strict, v, pbe, attrs, astrict]                  *)
(* shape - it is a bag at all; kind "cert", "key" (shrouded) or "other"; ok *)
(* - it can be read; v - the certificate(s) or the PKCS #8 octets           *)
NoBag == [shape |-> FALSE, kind |-> "other", ok |-> FALSE, strict |-> FALSE, v |-> <<>>, pbe |-> NoPbe, attrs |-> <<>>, astrict |-> FALSE]
LOCAL BagAttr(b, nd) ==
    LET ks == InSeq(b, nd, 2)
    IN  IF Len(ks) < 2 THEN [ok |-> FALSE, strict |-> FALSE, v |-> [oid |-> <<>>, val |-> <<>>]]
        ELSE [ok |-> OidNode(b, ks[1]), strict |-> IsSeqOf(b, nd, <<TOid, TSet>>) /\ ArcsSmall(Body(b, ks[1])), v |-> [oid |-> Body(b, ks[1]), val |-> Body(b, ks[2])]]
LOCAL CertBag(x, B) ==
    LET n  == Whole(x)
        cs == IF n.ok THEN InSeq(x, n, 2) ELSE <<>>
        o  == IF Len(cs) = 2 THEN (IF cs[2].tag = 160 THEN FirstOr(x, cs[2]) ELSE BadNode) ELSE BadNode
    IN  IF ~o.ok THEN B
        ELSE [B EXCEPT !.ok = OidNode(x, cs[1]) /\ Body(x, cs[1]) = OX509Cert /\ o.tag = TOctets,
                       !.strict = B.strict /\ IsSeqOf(x, n, <<TOid, 160>>) /\ o.f = cs[2].f, !.v = Body(x, o)]
LOCAL KeyBag(x, B, pw) ==
    LET n  == Whole(x)
        cs == IF n.ok THEN InSeq(x, n, 2) ELSE <<>>
        p  == IF Len(cs) = 2 THEN PbeOf(x, cs[1]) ELSE NoPbe
    IN  IF ~p.ok THEN B
        ELSE IF cs[2].tag # TOctets THEN B
        ELSE LET d == PbeDecrypt(p, pw, Body(x, cs[2]))
             IN  [B EXCEPT !.ok = d.ok, !.v = d.v, !.pbe = p, !.strict = B.strict /\ p.strict /\ IsSeqOf(x, n, <<TSeq, TOctets>>)]
Bag(b, nd, pw) ==
    LET ks == InSeq(b, nd, 3)
        ha == Len(ks) = 3 /\ ks[3].tag = TSet
        as == IF ha THEN Kids(b, ks[3]) ELSE <<>>
    IN  IF Len(ks) < 2 \/ ~AllOk(as) THEN NoBag
        ELSE IF ~OidNode(b, ks[1]) \/ ~(ks[2].tag = 160 \/ (ks[2].tag = 128 /\ BLen(ks[2]) = 0)) THEN NoBag
        ELSE LET A == [j \in 1..Len(as) |-> BagAttr(b, as[j])]
                 o == Body(b, ks[1])
                 B == [NoBag EXCEPT !.shape = \A j \in 1..Len(A) : A[j].ok, !.attrs = [j \in 1..Len(A) |-> A[j].v],
                                    !.strict = nd.f = (IF ha THEN ks[3].f ELSE ks[2].f) /\ ks[2].tag = 160
                                               /\ ArcsSmall(o) /\ \A j \in 1..Len(A) : A[j].ok => ArcsSmall(A[j].v.oid),
                                    !.astrict = \A j \in 1..Len(A) : A[j].strict]
             IN  IF ~B.shape THEN NoBag
                 ELSE IF o = OBag(3) THEN CertBag(Body(b, ks[2]), [B EXCEPT !.kind = "cert"])
                 ELSE IF o = OBag(2) THEN KeyBag(Body(b, ks[2]), [B EXCEPT !.kind = "key"], pw)
                 ELSE [B EXCEPT !.ok = TRUE]
\* the bags in the octets of a safe: [ok, strict, v]
LOCAL Bags(b, pw) ==
    LET n  == Whole(b)
        ks == IF n.ok /\ n.tag = TSeq THEN Kids(b, n) ELSE <<BadNode>>
    IN  IF ~AllOk(ks) THEN [ok |-> FALSE, v |-> <<>>]
        ELSE LET B == [j \in 1..Len(ks) |-> Bag(b, ks[j], pw)] IN [ok |-> \A j \in 1..Len(B) : B[j].shape, v |-> B]

\* two safes whose outsides are as they should be, whatever the password
Shaped(content) ==
    LET n  == Whole(content)
        ks == IF n.ok /\ n.tag = TSeq THEN Kids(content, n) ELSE <<>>
    IN  /\ Len(ks) = 2 /\ AllOk(ks)
        /\ \A j \in 1..2 : LET ci == Ci(content, ks[j]) IN ci.ok /\ ci.strict /\ ci.oid \in {OData, OEncrypted} /\ Whole(ci.inner).ok
\* what the content holds under a password: [ok, strict, safes, bags]
NoContents == [ok |-> FALSE, strict |-> FALSE, split |-> 0, safes |-> <<>>, bags |-> <<>>]
Contents(content, pw) ==
    LET n  == Whole(content)
        ks == IF n.ok /\ n.tag = TSeq THEN Kids(content, n) ELSE <<>>
    IN  IF Len(ks) # 2 \/ ~AllOk(ks) THEN NoContents
        ELSE LET S == [j \in 1..2 |-> Safe(content, ks[j], pw)]
             IN  IF ~S[1].ok \/ ~S[2].ok THEN NoContents
                 ELSE LET B == [j \in 1..2 |-> Bags(S[j].v, pw)]
                      IN  [ok |-> B[1].ok /\ B[2].ok, safes |-> S, bags |-> B[1].v \o B[2].v,
                           split |-> Len(B[1].v),
                           strict |-> S[1].strict /\ S[2].strict /\ \A x \in ToSet(B[1].v \o B[2].v) : x.strict]

----------------------------------------------------------------------------
(* what the decoders make of contents T *)
OfKind(T, k) == SelectSeq(T.bags, LAMBDA x : x.kind = k)
Raws(T) == LET cs == OfKind(T, "cert") IN [j \in 1..Len(cs) |-> cs[j].v]
KeyMay(x) == x.ok /\ Describes("pkcs8", x.v).ok
KeyIn(x) == Describes("pkcs8", x.v).key
AnyMay(T) == /\ T.ok /\ Len(OfKind(T, "key")) = 1 /\ Len(OfKind(T, "cert")) >= 1
             /\ KeyMay(OfKind(T, "key")[1])
             /\ \A x \in ToSet(OfKind(T, "cert")) : x.ok
AllMay(T) == AnyMay(T) /\ \A x \in ToSet(OfKind(T, "cert")) : CertRead(x.v).ok
AllMust(T) == /\ AllMay(T) /\ T.strict /\ OfKind(T, "other") = <<>>
              /\ Strict("pkcs8", OfKind(T, "key")[1].v).ok
              /\ \A x \in ToSet(OfKind(T, "cert")) : CertRead(x.v).strict

\* attributes as PEM headers: the last one of a kind counts; [known, ok, strict, k, v]
LOCAL Hex(o) == FlattenSeq([j \in 1..Len(o) |-> LET d(x) == IF x < 10 THEN 48 + x ELSE 87 + x IN <<d(o[j] \div 16), d(o[j] % 16)>>])
HeaderOf(at) ==
    LET n == Whole(at.val)
        str(k) == LET s == IF n.ok THEN StringOf(TBmp, Body(at.val, n)) ELSE NoStr
                  IN  [known |-> TRUE, ok |-> s.ok, strict |-> s.ok /\ n.tag = TBmp, k |-> k, v |-> s.v]
    IN  CASE at.oid = OFriendly -> str("friendlyName")
          [] at.oid = OCspName -> str("Microsoft CSP Name")
          [] at.oid = OLocalKey -> [known |-> TRUE, ok |-> n.ok /\ n.tag = TOctets, strict |-> TRUE, k |-> "localKeyId", v |-> IF n.ok THEN Hex(Body(at.val, n)) ELSE <<>>]
          [] OTHER -> [known |-> FALSE, ok |-> FALSE, strict |-> FALSE, k |-> "", v |-> <<>>]
HeadersOf(x) == [j \in 1..Len(x.attrs) |-> HeaderOf(x.attrs[j])]
\* nothing is left out: what has no PEM form keeps the whole store from being shown
PemMay(T) == T.ok /\ OfKind(T, "other") = <<>> /\ \A x \in ToSet(T.bags) : (x.kind = "cert" => x.ok) /\ (x.kind = "key" => KeyMay(x)) /\ \A h \in ToSet(HeadersOf(x)) : h.ok
PemMust(T) == /\ PemMay(T) /\ T.strict /\ OfKind(T, "other") = <<>>
              /\ \A x \in ToSet(T.bags) :
                    /\ x.kind = "key" => Strict("pkcs8", x.v).ok /\ KeyIn(x).kind \in {"rsa", "ecdsa"}
                    /\ x.astrict
                    /\ LET H == HeadersOf(x) IN (\A h \in ToSet(H) : h.strict) /\ \A j, k \in 1..Len(H) : H[j].k = H[k].k => j = k
\* the first thing wrong with a PEM block for a bag
BlockWrong(x, blk) ==
    LET H == ToSet(HeadersOf(x))
        K == {h.k : h \in {g \in H : g.known}}
    IN  IF blk.type # (IF x.kind = "cert" THEN "CERTIFICATE" ELSE "PRIVATE KEY") THEN "type of a block"
        ELSE IF x.kind = "cert" /\ blk.bytes # x.v THEN "certificate of a block"
        ELSE IF x.kind = "key" /\ LET k == KeyIn(x)
                                      s == CASE k.kind = "rsa" -> Strict("pkcs1", blk.bytes)
                                             [] k.kind = "ecdsa" -> Strict("sec1", blk.bytes)
                                             [] OTHER -> (IF Strict("sec1", blk.bytes).ok THEN Strict("sec1", blk.bytes) ELSE Strict("pkcs8", blk.bytes))
                                  IN  ~s.ok \/ s.key # k THEN "key of a block"
        ELSE IF {h.k : h \in ToSet(blk.hdrs)} # K THEN "headers of a block"
        ELSE IF \E h \in ToSet(blk.hdrs) : ~\E g \in H : g.known /\ g.k = h.k /\ g.v = h.v THEN "value of a header" ELSE ""

----------------------------------------------------------------------------
(* one attempt at decoding b with a password (UTF-8 octets).                *)
(* try: [how, err, bad (it is ErrIncorrectPassword), panic, got, key,       *)
(* certs, blocks]; std: the standard library can read the certificate       *)
Returned(T, try) ==
    IF try.how = "pem" THEN
        LET bs == SelectSeq(T.bags, LAMBDA x : x.kind # "other")
            w(j) == BlockWrong(bs[j], try.blocks[j])
        IN  IF ~PemMay(T) THEN "blocks from a store that has none"
            ELSE IF Len(try.blocks) # Len(bs) THEN "not the store's blocks"
            ELSE LET d == {j \in 1..Len(bs) : w(j) # ""} IN IF d = {} THEN "" ELSE w(CHOOSE j \in d : TRUE)
    \* one certificate is the standard library's (the driver reads it with that again)
    ELSE IF ~(IF try.how = "one" THEN AnyMay(T) ELSE AllMay(T)) THEN "a key and certificates from a store that has none"
    ELSE IF try.how = "one" /\ Len(Raws(T)) # 1 THEN "one of several certificates"
    ELSE IF try.key # KeyIn(OfKind(T, "key")[1]) THEN "not the store's key"
    ELSE IF try.certs # (IF try.how = "file" THEN <<Raws(T)[1]>> ELSE Raws(T)) THEN "not the store's certificates"
    ELSE ""
MustReturn(T, how, std) ==
    CASE how = "all" -> AllMust(T)
      [] how = "one" -> AllMust(T) /\ std /\ Len(Raws(T)) = 1
      [] how = "file" -> AllMust(T) /\ KeyIn(OfKind(T, "key")[1]).kind \in {"sm2", "rsa"}
      [] how = "pem" -> PemMust(T)
\* the reading of b under a password: [pfx, mac, T]
Reading(b, pw) ==
    LET o == Pfx(b)
        rs == IF Representable(pw) THEN Readings(pw) ELSE <<>>
        hit == {j \in 1..Len(rs) : o.ok /\ MacUnder(o, rs[j])}
    IN  IF hit = {} THEN [pfx |-> o, mac |-> FALSE, T |-> NoContents]
        ELSE LET j == CHOOSE x \in hit : \A y \in hit : x <= y
             IN  [pfx |-> o, mac |-> TRUE, T |-> Contents(o.content, rs[j])]
TryWrong(R, pw, try, std) ==
    IF try.panic # "" THEN "panic or hang"
    ELSE IF try.err # "" /\ try.got THEN "something came with an error"
    ELSE IF try.err = "" /\ ~try.got /\ ~(try.how = "pem" /\ R.mac /\ R.T.ok /\ R.T.bags = <<>>) THEN "neither a result nor an error"
    ELSE IF ~Representable(pw) THEN (IF try.err = "" THEN "a password that cannot be represented was taken" ELSE "")
    ELSE IF ~R.mac THEN
        (IF try.err = "" THEN (IF R.pfx.ok THEN "returned though the MAC is wrong" ELSE "returned from what is no store")
         ELSE IF R.pfx.strict /\ Shaped(R.pfx.content) /\ ~try.bad THEN "a wrong password is not reported as one" ELSE "")
    ELSE IF try.err = "" THEN Returned(R.T, try)
    ELSE IF R.pfx.strict /\ MustReturn(R.T, try.how, std) THEN "a valid store was refused" ELSE ""
TriesWrong(b, pw, tries, std) ==
    LET R == Reading(b, pw)
        w(j) == TryWrong(R, pw, tries[j], std)
        d == {j \in 1..Len(tries) : w(j) # ""}
    IN  IF d = {} THEN "" ELSE LET j == CHOOSE x \in d : \A y \in d : x <= y IN tries[j].how \o ": " \o w(j)

----------------------------------------------------------------------------
(* a store that was written for a key, certificates and a password: the     *)
(* certificates under 40-bit RC2, the key under triple DES, tied together   *)
(* by the SHA-1 of the first certificate                                    *)
Tied(x, id) == LET h == SelectSeq(HeadersOf(x), LAMBDA g : g.k = "localKeyId") IN Len(h) = 1 /\ h[1].v = Hex(id)
Written(b, pw, key, certs) ==
    LET R == Reading(b, pw)
        T == R.T
    IN  IF ~R.pfx.ok THEN "not a store"
        ELSE IF ~R.mac THEN "MAC"
        ELSE IF ~T.ok THEN "contents"
        ELSE IF ~R.pfx.strict \/ ~T.strict THEN "not the standard encoding"
        ELSE IF T.safes[1].pbe.alg # "rc2-40" \/ T.safes[2].pbe.ok THEN "protection of the safes"
        ELSE IF T.split # Len(certs) \/ Len(T.bags) # Len(certs) + 1 THEN "number of bags"
        ELSE LET k == T.bags[Len(T.bags)]
             IN  IF OfKind(T, "key") # <<k>> THEN "kinds of bags"
                 ELSE IF Raws(T) # certs THEN "certificates"
                 ELSE IF ~Strict("pkcs8", k.v).ok THEN "key container"
                 ELSE IF KeyIn(k) # key THEN "key"
                 ELSE IF k.pbe.alg # "3des" THEN "protection of the key"
                 ELSE IF R.pfx.salt = <<>> \/ k.pbe.salt = <<>> \/ T.safes[1].pbe.salt = <<>> THEN "a salt is missing"
                 ELSE IF ~Tied(k, SHA1(certs[1])) \/ ~Tied(T.bags[1], SHA1(certs[1])) THEN "local key id" ELSE ""
SaltsOf(b, pw) == LET R == Reading(b, pw) IN <<R.pfx.salt, R.T.safes[1].pbe.salt, R.T.bags[Len(R.T.bags)].pbe.salt>>
=============================================================================
