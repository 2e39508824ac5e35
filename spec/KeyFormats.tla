----------------------------- MODULE KeyFormats -----------------------------
(* Containers of keys: PKCS#8 (RFC 5208/5958), SEC 1 (RFC 5915), PKCS#1     *)
(* (RFC 8017) private and public keys, SubjectPublicKeyInfo (RFC 5280).     *)
(* Two readings of a byte string:                                           *)
(*   Strict(fmt, b)    the standard structure, every field right: a parser  *)
(*                     must accept it as this key;                          *)
(*   Describes(fmt, b) the most generous reading a parser may have: what it *)
(*                     accepts must be this key; if there is none it must   *)
(*                     refuse.                                              *)
(* Both give [ok, key]; key is a private key record (PrivNone) or a public  *)
(* one (PubKey!NoKey).                                                      *)
EXTENDS PubKey

OidRSA  == <<42,134,72,134,247,13,1,1,1>>
OidEC   == <<42,134,72,206,61,2,1>>
OidDSA  == <<42,134,72,206,56,4,1>>
OidEd   == <<43,101,112>>
CurveOid(c) == CASE c = "P-224" -> <<43,129,4,0,33>> [] c = "P-256" -> <<42,134,72,206,61,3,1,7>>
                 [] c = "P-384" -> <<43,129,4,0,34>> [] c = "P-521" -> <<43,129,4,0,35>>
                 [] c = "SM2" -> <<42,129,28,207,85,1,130,45>>
CurveOfOid(o) == IF \E c \in Curves : CurveOid(c) = o THEN CHOOSE c \in Curves : CurveOid(c) = o ELSE ""
DerNull == <<5, 0>>

\* private keys: "rsa": n e d primes; "ecdsa", "sm2": curve d x y; "ed25519": d (the seed) and pt
PrivNone == [kind |-> "none", curve |-> "", d |-> <<>>, x |-> <<>>, y |-> <<>>, n |-> <<>>, e |-> <<>>,
             primes |-> <<>>, pt |-> <<>>]
PrivRsa(n, e, d, ps) == [PrivNone EXCEPT !.kind = "rsa", !.n = n, !.e = e, !.d = d, !.primes = ps]
PrivEc(c, d) == LET P == CurveMul(c, d, CurveG(c))
                IN  [PrivNone EXCEPT !.kind = IF c = "SM2" THEN "sm2" ELSE "ecdsa", !.curve = c, !.d = d,
                                     !.x = P[1], !.y = P[2]]
PrivEd(seed) == [PrivNone EXCEPT !.kind = "ed25519", !.d = seed, !.pt = EdPublic(seed)]

PubOfPriv(k) == CASE k.kind = "rsa" -> RsaKey(k.n, k.e)
                  [] k.kind \in {"ecdsa", "sm2"} -> EcKey(k.curve, k.x, k.y)
                  [] k.kind = "ed25519" -> EdKey(k.pt)
                  [] OTHER -> NoKey

NoMatch == [ok |-> FALSE, key |-> PrivNone]
Yes(k) == [ok |-> TRUE, key |-> k]

\* ---- reading helpers: up to k elements from octet i, stopping where they stop being elements
RECURSIVE FirstK(_, _, _, _)
FirstK(b, i, e, k) ==
    IF k = 0 \/ i > e THEN <<>>
    ELSE LET nd == TLV(b, i, e)
         IN  IF ~nd.ok THEN <<>> ELSE <<nd>> \o FirstK(b, nd.f + 1, e, k - 1)
InSeq(b, nd, k) == IF nd.ok /\ nd.tag = TSeq THEN FirstK(b, nd.s, nd.f, k) ELSE <<>>
Tags(ns, ts) == Len(ns) >= Len(ts) /\ \A j \in 1..Len(ts) : ns[j].tag = ts[j]
NatOf(b, nd) == IF nd.ok /\ nd.tag = TInteger /\ IntOk(Body(b, nd))
                THEN LET v == IntVal(Body(b, nd)) IN IF v.neg THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> TRUE, v |-> v.mag]
                ELSE [ok |-> FALSE, v |-> <<>>]
AllNat(b, ns) == \A j \in 1..Len(ns) : NatOf(b, ns[j]).ok

\* bit string contents, shifted right over the unused bits; [ok, v]
BitsBody(b, nd) ==
    LET c == Body(b, nd)
    IN  IF Len(c) = 0 \/ (Len(c) > 0 /\ c[1] > 7) \/ (Len(c) = 1 /\ c[1] # 0) THEN [ok |-> FALSE, v |-> <<>>, pad |-> 0]
        ELSE LET pw == 2^(c[1])
                 d  == SubSeq(c, 2, Len(c))
             IN  IF Len(d) > 0 /\ d[Len(d)] % pw # 0 THEN [ok |-> FALSE, v |-> <<>>, pad |-> 0]
                 ELSE [ok |-> TRUE, pad |-> c[1],
                       v |-> [j \in 1..Len(d) |-> (d[j] \div pw) + (IF j = 1 THEN 0 ELSE ((d[j-1] % pw) * (256 \div pw)) % 256)]]

----------------------------------------------------------------------------
(* RSA *)
MinusOne(x) == BSub(x, <<1>>)
Product(ps) == FoldLeft(LAMBDA acc, q : BMul(acc, q), <<1>>, ps)
RsaConsistent(n, e, d, ps) ==
    /\ n # <<>> /\ e # <<>> /\ d # <<>>
    /\ \A j \in 1..Len(ps) : BLt(<<1>>, ps[j])
    /\ Product(ps) = n
    /\ \A j \in 1..Len(ps) : LET m == MinusOne(ps[j]) IN BMod(BMul(e, d), m) = BMod(<<1>>, m)

Pkcs1Lenient(b, whole) ==
    LET nd == TLV(b, 1, Len(b))
        ks == InSeq(b, nd, 6)
        more == IF Len(ks) = 6 THEN FirstK(b, ks[6].f + 1, nd.f, 4) ELSE <<>>
        \* the INTEGERs after Q (at most three), then perhaps the other primes
        cnt == CHOOSE j \in 0..3 : /\ \A i \in 1..j : i <= Len(more) /\ more[i].tag = TInteger
                                   /\ j = 3 \/ j = Len(more) \/ (j < Len(more) /\ more[j + 1].tag # TInteger)
        oth == IF cnt < Len(more) /\ more[cnt + 1].tag = TSeq THEN Kids(b, more[cnt + 1]) ELSE <<>>
        othOk == \A j \in 1..Len(oth) : oth[j].ok /\ LET os == InSeq(b, oth[j], 1) IN Len(os) = 1 /\ NatOf(b, os[1]).ok
    IN  IF ~Tags(ks, <<2,2,2,2,2,2>>) \/ (whole /\ nd.f # Len(b)) THEN NoMatch
        ELSE IF ~AllNat(b, ks) \/ ~othOk THEN NoMatch
        ELSE LET v == [j \in 1..6 |-> NatOf(b, ks[j]).v]
                 ps == <<v[5], v[6]>> \o [j \in 1..Len(oth) |-> NatOf(b, InSeq(b, oth[j], 1)[1]).v]
             IN  IF v[1] \notin {<<>>, <<1>>} \/ ~RsaConsistent(v[2], v[3], v[4], ps) THEN NoMatch
                 ELSE Yes(PrivRsa(v[2], v[3], v[4], ps))

ExpOk(e) == Len(e) <= 4 /\ (Len(e) = 4 => e[1] < 128) /\ BLt(<<2>>, e) /\ e[Len(e)] % 2 = 1

Pkcs1Strict(b) ==
    LET nd == Whole(b)
        ks == IF nd.ok /\ nd.tag = TSeq THEN Kids(b, nd) ELSE <<>>
    IN  IF Len(ks) \notin {9, 10} THEN NoMatch
        ELSE IF ~AllOk(ks) \/ ~AllNat(b, SubSeq(ks, 1, 9)) THEN NoMatch
        ELSE LET v == [j \in 1..9 |-> NatOf(b, ks[j]).v]
                 oth == IF Len(ks) = 10 /\ ks[10].tag = TSeq THEN Kids(b, ks[10]) ELSE <<>>
                 othOk == \A j \in 1..Len(oth) : IsSeqOf(b, oth[j], <<2,2,2>>) /\ AllNat(b, Kids(b, oth[j]))
             IN  IF ~othOk THEN NoMatch
                 ELSE LET o == [j \in 1..Len(oth) |-> [i \in 1..3 |-> NatOf(b, Kids(b, oth[j])[i]).v]]
                          ps == <<v[5], v[6]>> \o [j \in 1..Len(o) |-> o[j][1]]
                      IN  IF /\ v[1] = (IF Len(ks) = 10 THEN <<1>> ELSE <<>>)
                             /\ Len(ks) = 10 => Len(oth) > 0
                             /\ Len(v[2]) >= 128 /\ ExpOk(v[3])
                             /\ RsaConsistent(v[2], v[3], v[4], ps)
                             /\ v[7] = BMod(v[4], MinusOne(v[5])) /\ v[8] = BMod(v[4], MinusOne(v[6]))
                             /\ BLt(v[9], v[5]) /\ BMulMod(v[9], v[6], v[5]) = <<1>>
                             /\ \A j \in 1..Len(o) : /\ o[j][2] = BMod(v[4], MinusOne(o[j][1]))
                                                     /\ BLt(o[j][3], o[j][1])
                                                     /\ BMulMod(o[j][3], Product(SubSeq(ps, 1, j + 1)), o[j][1]) = <<1>>
                          THEN Yes(PrivRsa(v[2], v[3], v[4], ps)) ELSE NoMatch

\* RSAPublicKey
RsaPubLenient(b, whole) ==
    LET nd == TLV(b, 1, Len(b))
        ks == InSeq(b, nd, 2)
    IN  IF ~Tags(ks, <<2,2>>) \/ (whole /\ nd.f # Len(b)) THEN NoMatch
        ELSE IF ~AllNat(b, ks) THEN NoMatch
        ELSE LET n == NatOf(b, ks[1]).v
                 e == NatOf(b, ks[2]).v
             IN  IF n = <<>> \/ e = <<>> THEN NoMatch ELSE Yes(RsaKey(n, e))
RsaPubStrict(b) ==
    LET nd == Whole(b)
        r  == RsaPubLenient(b, TRUE)
    IN  IF r.ok /\ IsSeqOf(b, nd, <<2,2>>) /\ Len(r.key.n) >= 128 /\ ExpOk(r.key.e) THEN r ELSE NoMatch

----------------------------------------------------------------------------
(* SEC 1; outer is the curve given from outside ("" if none) *)
EcKeyOf(c, d) == IF c = "" THEN NoMatch
                 ELSE IF d = <<>> \/ ~BLt(d, CurveN(c)) THEN NoMatch
                 ELSE Yes(PrivEc(c, d))
InnerOid(b, nd) == LET o == FirstK(b, nd.s, nd.f, 1)
                   IN  IF Len(o) = 1 /\ o[1].tag = TOid THEN CurveOfOid(Body(b, o[1])) ELSE ""
\* hasOuter: the surrounding container names a curve (possibly an unknown one, "")
Sec1Lenient(b, hasOuter, outer) ==
    LET nd == TLV(b, 1, Len(b))
        ks == InSeq(b, nd, 3)
    IN  IF ~Tags(ks, <<2, 4>>) THEN NoMatch
        ELSE IF Body(b, ks[1]) # <<1>> THEN NoMatch
        ELSE LET c == IF hasOuter THEN outer
                      ELSE IF Len(ks) = 3 /\ ks[3].tag = 160 THEN InnerOid(b, ks[3]) ELSE ""
                 oct == Body(b, ks[2])
             IN  EcKeyOf(c, BNorm(oct))
Sec1Strict(b, outer) ==
    LET nd == Whole(b)
        ks == IF nd.ok /\ nd.tag = TSeq THEN Kids(b, nd) ELSE <<>>
        ps == [j \in 1..Len(ks) |-> ks[j].tag]
    IN  IF ~AllOk(ks) \/ ps \notin {<<2,4>>, <<2,4,160>>, <<2,4,161>>, <<2,4,160,161>>} THEN NoMatch
        ELSE LET hasOid == Len(ks) >= 3 /\ ks[3].tag = 160
                 hasPub == ks[Len(ks)].tag = 161
                 inner == IF hasOid /\ Len(Kids(b, ks[3])) = 1 THEN InnerOid(b, ks[3]) ELSE ""
                 c == IF hasOid THEN inner ELSE outer
                 pk == IF hasPub THEN Kids(b, ks[Len(ks)]) ELSE <<>>
                 d == Body(b, ks[2])
             IN  IF c = "" \/ (outer # "" /\ c # outer) \/ Body(b, ks[1]) # <<1>> THEN NoMatch
                 ELSE IF Len(d) # CurveLen(c) THEN NoMatch
                 ELSE LET k == EcKeyOf(c, BNorm(d))
                          l == CurveLen(c)
                      IN  IF ~k.ok THEN NoMatch
                          ELSE IF ~hasPub THEN k
                          ELSE IF Len(pk) = 1 /\ pk[1].ok /\ pk[1].tag = TBitString
                                  /\ Body(b, pk[1]) = <<0, 4>> \o BFixed(k.key.x, l) \o BFixed(k.key.y, l)
                          THEN k ELSE NoMatch

----------------------------------------------------------------------------
(* PKCS #8 *)
Pkcs8Lenient(b) ==
    LET nd == TLV(b, 1, Len(b))
        ks == InSeq(b, nd, 3)
    IN  IF ~Tags(ks, <<2, 48, 4>>) THEN NoMatch
        ELSE IF ~IntOk(Body(b, ks[1])) THEN NoMatch
        ELSE LET as == InSeq(b, ks[2], 2)
                 key == Body(b, ks[3])
             IN  IF ~Tags(as, <<6>>) THEN NoMatch
                 ELSE LET oid == Body(b, as[1])
                          par == IF Len(as) = 2 THEN Raw(b, as[2]) ELSE <<>>
                      IN  IF oid = OidRSA THEN Pkcs1Lenient(key, TRUE)
                          ELSE IF oid = OidEC THEN
                              (IF Len(as) = 2 /\ as[2].tag = TOid
                               THEN Sec1Lenient(key, TRUE, CurveOfOid(Body(b, as[2])))
                               ELSE Sec1Lenient(key, FALSE, ""))
                          ELSE IF oid = OidEd /\ par = <<>> THEN
                              LET o == TLV(key, 1, Len(key))
                              IN  IF o.ok /\ o.tag = TOctets /\ BLen(o) = 32 THEN Yes(PrivEd(Body(key, o))) ELSE NoMatch
                          ELSE NoMatch
Pkcs8Strict(b) ==
    LET nd == Whole(b)
    IN  IF ~nd.ok THEN NoMatch
        ELSE IF nd.tag # TSeq \/ ~IsSeqOf(b, nd, <<2, 48, 4>>) THEN NoMatch
        ELSE LET ks == Kids(b, nd)
                 as == Kids(b, ks[2])
                 key == Body(b, ks[3])
             IN  IF Body(b, ks[1]) # <<0>> \/ ~AllOk(as) \/ Len(as) \notin {1, 2} THEN NoMatch
                 ELSE IF as[1].tag # TOid THEN NoMatch
                 ELSE LET oid == Body(b, as[1])
                          par == IF Len(as) = 2 THEN Raw(b, as[2]) ELSE <<>>
                      IN  IF oid = OidRSA /\ par = DerNull THEN Pkcs1Strict(key)
                          ELSE IF oid = OidEC /\ Len(as) = 2 THEN
                              (IF as[2].tag = TOid /\ CurveOfOid(Body(b, as[2])) # ""
                               THEN Sec1Strict(key, CurveOfOid(Body(b, as[2]))) ELSE NoMatch)
                          ELSE IF oid = OidEd /\ par = <<>> THEN
                              LET o == Whole(key)
                              IN  IF o.ok /\ o.tag = TOctets /\ BLen(o) = 32 THEN Yes(PrivEd(Body(key, o))) ELSE NoMatch
                          ELSE NoMatch

----------------------------------------------------------------------------
(* SubjectPublicKeyInfo *)
PointOf(c, v) ==
    LET l == CurveLen(c)
    IN  IF Len(v) # 2 * l + 1 THEN NoMatch
        ELSE LET x == BNorm(SubSeq(v, 2, l + 1))
                 y == BNorm(SubSeq(v, l + 2, 2 * l + 1))
             IN  IF v[1] # 4 \/ ~CurveOn(c, x, y) THEN NoMatch ELSE Yes(EcKey(c, x, y))
\* DSA: the parameters p, q, g and the public number, all positive (whole: nothing besides)
DsaPub(par, v, whole) ==
    LET nd == Whole(par)
        ks == InSeq(par, nd, 3)
        yn == TLV(v, 1, Len(v))
    IN  IF ~Tags(ks, <<2, 2, 2>>) \/ ~yn.ok THEN NoMatch
        ELSE IF ~AllNat(par, ks) \/ ~NatOf(v, yn).ok \/ (whole /\ (yn.f # Len(v) \/ ~IsSeqOf(par, nd, <<2, 2, 2>>))) THEN NoMatch
        ELSE LET n == [j \in 1..3 |-> NatOf(par, ks[j]).v] \o <<NatOf(v, yn).v>>
             IN  IF <<>> \in {n[j] : j \in 1..4} THEN NoMatch ELSE Yes(DsaKey(n[1], n[2], n[3], n[4]))
\* of an AlgorithmIdentifier given by its elements and the key octets
SpkiKey(b, as, v) ==
    LET oid == Body(b, as[1])
        par == IF Len(as) >= 2 THEN Raw(b, as[2]) ELSE <<>>
    IN  IF oid = OidRSA /\ par = DerNull THEN RsaPubLenient(v, FALSE)
        ELSE IF oid = OidEC /\ Len(as) >= 2 THEN
            (IF as[2].tag = TOid /\ CurveOfOid(Body(b, as[2])) # "" THEN PointOf(CurveOfOid(Body(b, as[2])), v) ELSE NoMatch)
        ELSE IF oid = OidEd /\ par = <<>> /\ Len(v) = 32 THEN Yes(EdKey(v))
        ELSE IF oid = OidDSA THEN DsaPub(par, v, FALSE)
        ELSE NoMatch
PkixDescribes(b) ==
    LET nd == TLV(b, 1, Len(b))
        ks == InSeq(b, nd, 2)
    IN  IF ~Tags(ks, <<48, 3>>) \/ nd.f # Len(b) THEN NoMatch
        ELSE LET as == InSeq(b, ks[1], 2)
                 v == BitsBody(b, ks[2])
             IN  IF ~Tags(as, <<6>>) \/ ~v.ok THEN NoMatch ELSE SpkiKey(b, as, v.v)
PkixStrict(b) ==
    LET nd == Whole(b)
    IN  IF ~nd.ok THEN NoMatch
        ELSE IF nd.tag # TSeq \/ ~IsSeqOf(b, nd, <<48, 3>>) THEN NoMatch
        ELSE LET ks == Kids(b, nd)
                 as == Kids(b, ks[1])
                 v == BitsBody(b, ks[2])
             IN  IF ~AllOk(as) \/ Len(as) \notin {1, 2} THEN NoMatch
                 ELSE IF as[1].tag # TOid \/ ~v.ok \/ v.pad # 0 THEN NoMatch
                 ELSE IF Body(b, as[1]) = OidRSA THEN (IF Len(as) = 2 /\ Raw(b, as[2]) = DerNull THEN RsaPubStrict(v.v) ELSE NoMatch)
                 ELSE IF Body(b, as[1]) = OidDSA THEN DsaPub(IF Len(as) = 2 THEN Raw(b, as[2]) ELSE <<>>, v.v, TRUE)
                 ELSE SpkiKey(b, as, v.v)

----------------------------------------------------------------------------
Describes(fmt, b) ==
    CASE fmt = "pkcs8" -> Pkcs8Lenient(b)
      [] fmt = "sec1"  -> Sec1Lenient(b, FALSE, "")
      [] fmt = "pkcs1" -> Pkcs1Lenient(b, TRUE)
      [] fmt = "pkix"  -> PkixDescribes(b)
      [] fmt = "pkcs1pub" -> RsaPubLenient(b, TRUE)
Strict(fmt, b) ==
    CASE fmt = "pkcs8" -> Pkcs8Strict(b)
      [] fmt = "sec1"  -> Sec1Strict(b, "")
      [] fmt = "pkcs1" -> Pkcs1Strict(b)
      [] fmt = "pkix"  -> PkixStrict(b)
      [] fmt = "pkcs1pub" -> RsaPubStrict(b)
IsPriv(fmt) == fmt \in {"pkcs8", "sec1", "pkcs1"}
=============================================================================
