------------------------------- MODULE KeyDocs -------------------------------
(* An encoder of key containers that can deviate from the standard          *)
(* structure in chosen places.                                              *)
(* RSA material (key objects, also inconsistent ones) comes from the driver.*)
EXTENDS KeyFormats, TLC, Json, IOUtils

RsaMat == ndJsonDeserialize(IOEnv.KEYS)      \* [name, n, e, d, primes, good]
RsaGood == {j \in 1..Len(RsaMat) : RsaMat[j].good}

\* ---- building blocks
SInt(v) == Enc(TInteger, v)
Oct(v) == Enc(TOctets, v)
OidOf(v) == Enc(TOid, v)
Bits(pad, v) == Enc(TBitString, <<pad>> \o v)
UnknownOid == <<43, 6, 1, 4, 1, 1>>
Other(c) == CASE c = "P-224" -> "P-256" [] c = "P-256" -> "SM2" [] c = "P-384" -> "P-521" [] c = "P-521" -> "P-384" [] c = "SM2" -> "P-256"
Zer(k) == [j \in 1..k |-> 0]
Mid(c) == BNorm(BFixed([j \in 1..CurveLen(c) - 1 |-> (j * 37 + 11) % 256], CurveLen(c)))
Ver(s) == CASE s = "0" -> SInt(<<0>>) [] s = "1" -> SInt(<<1>>) [] s = "2" -> SInt(<<2>>) [] s = "-1" -> SInt(<<255>>)
            [] s = "256+1" -> SInt(<<1, 1>>) [] s = "none" -> <<>>
Trail(s, what) == IF s = what THEN <<5, 0>> ELSE <<>>

\* SEC1
ScalarOct(c, s) ==
    LET l == CurveLen(c)
    IN  CASE s = "mid" -> BFixed(Mid(c), l) [] s = "1" -> BFixed(<<1>>, l) [] s = "2" -> BFixed(<<2>>, l)
          [] s = "n-1" -> BFixed(BSub(CurveN(c), <<1>>), l) [] s = "n-2" -> BFixed(BSub(CurveN(c), <<2>>), l)
          [] s = "short" -> BFixed(SubSeq(Mid(c), 1, 5), l)
          [] s = "unpadded" -> SubSeq(Mid(c), 1, 5)
          [] s = "pad1" -> <<0>> \o BFixed(Mid(c), l) [] s = "pad9" -> Zer(9) \o BFixed(Mid(c), l)
          [] s = "high" -> <<1>> \o BFixed(Mid(c), l)
          [] s = "0" -> Zer(l) [] s = "empty" -> <<>>
          [] s = "n" -> BFixed(CurveN(c), l) [] s = "n+1" -> BFixed(BAdd(CurveN(c), <<1>>), l)
          [] s = "ff" -> [j \in 1..l |-> 255]
          [] s = "otherlen" -> BFixed(<<7>>, IF l = 32 THEN 48 ELSE 32)
PointOct(c, k) == LET P == CurveMul(c, k, CurveG(c)) l == CurveLen(c) IN <<4>> \o BFixed(P[1], l) \o BFixed(P[2], l)
Compress(c, k) == LET P == CurveMul(c, k, CurveG(c)) l == CurveLen(c) IN <<IF P[2][Len(P[2])] % 2 = 0 THEN 2 ELSE 3>> \o BFixed(P[1], l)
ScalarFor(c, s) == LET v == BMod(BNorm(ScalarOct(c, s)), CurveN(c)) IN IF v = <<>> THEN <<1>> ELSE v
Sec1(c, ver, scalar, oid, pub, tail) ==
    LET k == ScalarFor(c, scalar)
        o == CASE oid = "right" -> Enc(160, OidOf(CurveOid(c))) [] oid = "other" -> Enc(160, OidOf(CurveOid(Other(c))))
               [] oid = "unknown" -> Enc(160, OidOf(UnknownOid)) [] oid = "absent" -> <<>>
               [] oid = "null" -> Enc(160, DerNull) [] oid = "twice" -> Enc(160, OidOf(CurveOid(c))) \o Enc(160, OidOf(CurveOid(c)))
        u == CASE pub \in {"right", "first"} -> Enc(161, Bits(0, PointOct(c, k))) [] pub = "wrong" -> Enc(161, Bits(0, PointOct(c, <<3>>)))
               [] pub = "absent" -> <<>> [] pub = "garbage" -> Enc(161, Oct(<<1, 2, 3>>)) [] pub = "compressed" -> Enc(161, Bits(0, Compress(c, k)))
    IN  Enc(TSeq, Ver(ver) \o Oct(ScalarOct(c, scalar)) \o (IF pub = "first" THEN u \o o ELSE o \o u) \o Trail(tail, "inside")) \o Trail(tail, "after")

\* PKCS #1
NumOf(v) == IF v = <<>> THEN SInt(<<0>>) ELSE SInt(IF v[1] >= 128 THEN <<0>> \o v ELSE v)
Bend(v, how) ==
    CASE how = "plus2" -> NumOf(BAdd(v, <<2>>)) [] how = "zero" -> SInt(<<0>>)
      [] how = "neg" -> SInt(<<128>> \o v) [] how = "nonmin" -> SInt(<<0, 0>> \o v) [] how = "drop" -> <<>>
      [] how = "carry" -> NumOf(BAdd(v, <<1,0,0,0,0>>)) [] how = "wide" -> NumOf(BAdd(v, <<1,0,0,0,0,0,0,0,0>>))
      [] how = "huge" -> NumOf(<<1>> \o v \o Zer(9))
Crt(d, q) == IF BLt(<<1>>, q) THEN BMod(d, MinusOne(q)) ELSE <<>>
Fld(name, field, how, v) == IF name = field THEN Bend(v, how) ELSE NumOf(v)
Pkcs1(m, ver, field, how, other, tail) ==
    LET p == m.primes[1]
        q == m.primes[2]
        extra == SubSeq(m.primes, 3, Len(m.primes))
        one(pr) == Enc(TSeq, NumOf(pr) \o NumOf(Crt(m.d, pr)) \o NumOf(<<1>>))
        ad == CASE other = "empty" -> Enc(TSeq, <<>>) [] other = "ones" -> Enc(TSeq, one(<<2>>) \o Enc(TSeq, NumOf(<<1>>) \o NumOf(<<1>>) \o NumOf(<<1>>)))
                [] other = "neg" -> Enc(TSeq, Enc(TSeq, SInt(<<255>>) \o NumOf(<<1>>) \o NumOf(<<1>>))) [] other = "zero" -> Enc(TSeq, Enc(TSeq, SInt(<<0>>) \o NumOf(<<1>>) \o NumOf(<<1>>)))
                [] other = "qr" -> Enc(TSeq, one(q))
                [] OTHER -> IF extra = <<>> THEN <<>> ELSE Enc(TSeq, FlattenSeq([j \in 1..Len(extra) |-> one(extra[j])]))
        v == IF ver = "right" THEN (IF extra = <<>> THEN "0" ELSE "1") ELSE ver
        pq == IF other = "swap" THEN <<q, p>> ELSE <<p, q>>
    IN  Enc(TSeq, Ver(v) \o Fld("n", field, how, m.n) \o Fld("e", field, how, m.e) \o Fld("d", field, how, m.d)
              \o Fld("p", field, how, pq[1]) \o Fld("q", field, how, pq[2])
              \o Fld("dp", field, how, Crt(m.d, pq[1])) \o NumOf(Crt(m.d, pq[2]))
              \o Fld("qinv", field, how, IF BMod(pq[2], pq[1]) = <<>> \/ ~m.good THEN <<1>> ELSE BInvMod(pq[2], pq[1])) \o ad \o Trail(tail, "inside")) \o Trail(tail, "after")
RightRsa == RsaMat[CHOOSE j \in RsaGood : TRUE]
RsaPub(m, field, how, tail) == Enc(TSeq, Fld("n", field, how, m.n) \o Fld("e", field, how, m.e) \o Trail(tail, "inside")) \o Trail(tail, "after")

\* PKCS #8
Seed == [j \in 1..32 |-> (j * 7) % 256]
AlgOid(k, s) == CASE s = "right" -> (CASE k = "RSA" -> OidRSA [] k = "Ed" -> OidEd [] OTHER -> OidEC)
                  [] s = "RSA" -> OidRSA [] s = "EC" -> OidEC [] s = "Ed" -> OidEd [] s = "DSA" -> OidDSA
                  [] s = "Ed448" -> <<43,101,113>> [] s = "X25519" -> <<43,101,110>> [] OTHER -> UnknownOid
AlgPar(k, s) == CASE s = "right" -> (CASE k = "RSA" -> DerNull [] k = "Ed" -> <<>> [] OTHER -> OidOf(CurveOid(k)))
                  [] s = "other" -> OidOf(CurveOid(IF k \in Curves THEN Other(k) ELSE "P-256"))
                  [] s = "unknown" -> OidOf(UnknownOid) [] s = "null" -> DerNull [] s = "absent" -> <<>>
                  [] s = "seq" -> Enc(TSeq, SInt(<<1>>)) [] s = "sm2" -> OidOf(CurveOid("SM2"))
                  [] s = "twice" -> (CASE k \in Curves -> OidOf(CurveOid(k)) [] OTHER -> DerNull) \o DerNull
EcBase(k) == IF k \in Curves THEN k ELSE "P-256"
P8Inner(k, s) ==
    CASE s = "right" -> (CASE k = "RSA" -> Pkcs1(RightRsa, "right", "none", "", "none", "") [] k = "Ed" -> Oct(Seed)
                           [] OTHER -> Sec1(k, "1", "mid", "absent", "right", ""))
      [] s = "otheroid" -> Sec1(EcBase(k), "1", "mid", "other", "right", "")
      [] s = "nooid" -> Sec1(EcBase(k), "1", "mid", "absent", "absent", "")
      [] s = "pkcs1" -> Pkcs1(RightRsa, "right", "none", "", "none", "")
      [] s = "seed" -> Oct(Seed) [] s = "rawseed" -> Seed [] s = "empty" -> <<>> [] s = "garbage" -> <<48, 3, 2, 1>>
      [] s = "ver0" -> (IF k = "RSA" THEN Pkcs1(RightRsa, "2", "none", "", "none", "") ELSE Sec1(EcBase(k), "0", "mid", "absent", "right", ""))
      [] s = "zero" -> (IF k = "RSA" THEN Pkcs1(RightRsa, "right", "d", "zero", "none", "") ELSE Sec1(EcBase(k), "1", "0", "absent", "absent", ""))
      [] s = "big" -> (IF k = "RSA" THEN Pkcs1(RightRsa, "right", "n", "plus2", "none", "") ELSE Sec1(EcBase(k), "1", "n", "absent", "absent", ""))
      [] s = "tail" -> (CASE k = "RSA" -> Pkcs1(RightRsa, "right", "none", "", "none", "after") [] k = "Ed" -> Oct(Seed) \o <<5, 0>>
                           [] OTHER -> Sec1(k, "1", "mid", "right", "right", "after"))
      [] s = "short" -> (IF k = "Ed" THEN Oct(SubSeq(Seed, 1, 31)) ELSE Sec1(EcBase(k), "1", "unpadded", "right", "absent", ""))
      [] s = "long" -> (IF k = "Ed" THEN Oct(Seed \o <<1>>) ELSE Sec1(EcBase(k), "1", "high", "right", "absent", ""))
P8(k, d) == Enc(TSeq, Ver(d.ver) \o Enc(TSeq, OidOf(AlgOid(k, d.alg)) \o AlgPar(k, d.par)) \o Oct(P8Inner(k, d.inner))
                      \o (IF d.tail = "attrs" THEN Enc(160, <<>>) ELSE Trail(d.tail, "inside"))) \o Trail(d.tail, "after")

\* SubjectPublicKeyInfo
Pt(k, s) ==
    LET c == EcBase(k)
        l == CurveLen(c)
        P == CurveMul(c, Mid(c), CurveG(c))
    IN  CASE s = "right" -> (CASE k = "RSA" -> RsaPub(RightRsa, "none", "", "") [] k = "Ed" -> EdPublic(Seed) [] OTHER -> PointOct(c, Mid(c)))
          [] s = "two" -> PointOct(c, <<2>>) [] s = "compressed" -> Compress(c, Mid(c))
          [] s = "hybrid" -> <<6 + (P[2][Len(P[2])] % 2)>> \o BFixed(P[1], l) \o BFixed(P[2], l)
          [] s = "infinity" -> <<0>> [] s = "off" -> <<4>> \o BFixed(P[1], l) \o BFixed(BAdd(P[2], <<1>>), l)
          [] s = "xbig" -> <<4>> \o [j \in 1..l |-> 255] \o BFixed(P[2], l)
          [] s = "ybig" -> <<4>> \o BFixed(P[1], l) \o [j \in 1..l |-> 255]
          [] s = "neg" -> <<5>> \o BFixed(P[1], l) \o BFixed(P[2], l)
          [] s = "short" -> SubSeq(PointOct(c, Mid(c)), 1, 2 * l) [] s = "long" -> PointOct(c, Mid(c)) \o <<0>>
          [] s = "empty" -> <<>> [] s = "zero" -> <<4>> \o Zer(2 * l)
          [] s = "rsa" -> RsaPub(RightRsa, "none", "", "") [] s = "rsaneg" -> RsaPub(RightRsa, "n", "neg", "")
          [] s = "rsazero" -> RsaPub(RightRsa, "e", "zero", "") [] s = "rsanonmin" -> RsaPub(RightRsa, "n", "nonmin", "")
          [] s = "rsatail" -> RsaPub(RightRsa, "none", "", "after") [] s = "ed" -> EdPublic(Seed)
BitStr(pad, v) == CASE pad = "0" -> Bits(0, v) [] pad = "1" -> Bits(1, v) [] pad = "7" -> Bits(7, v) [] pad = "8" -> Bits(8, v)
                    [] pad = "bad" -> Enc(TBitString, IF v = <<>> THEN <<>> ELSE v)
Pkix(k, d) == Enc(TSeq, Enc(TSeq, OidOf(AlgOid(k, d.alg)) \o AlgPar(k, d.par))
                  \o (IF d.tail = "octets" THEN Oct(Pt(k, d.pt)) ELSE BitStr(d.pad, Pt(k, d.pt))) \o Trail(d.tail, "inside")) \o Trail(d.tail, "after")

\* a DSA public key
DsaMat == [p |-> BMul(<<251, 3, 99>>, BAdd(CurveN("P-384"), <<1, 7, 5>>)), q |-> SubSeq(CurveN("P-256"), 1, 20), g |-> <<5, 200, 17, 1, 1, 9>>, y |-> <<128, 64, 32, 16, 8, 4, 2, 1>>]
DsaPix(d) ==
    LET f(name, v) == Fld(name, d.field, d.how, v)
        all == f("p", DsaMat.p) \o f("q", DsaMat.q) \o f("g", DsaMat.g)
        par == CASE d.par = "right" -> Enc(TSeq, all) [] d.par = "set" -> Enc(TSet, all) [] d.par = "four" -> Enc(TSeq, all \o NumOf(<<7>>))
                 [] d.par = "tail" -> Enc(TSeq, all) \o DerNull [] d.par = "absent" -> <<>> [] d.par = "null" -> DerNull
                 [] d.par = "oid" -> OidOf(CurveOid("P-256")) [] d.par = "swapped" -> Enc(TSeq, f("q", DsaMat.q) \o f("p", DsaMat.p) \o f("g", DsaMat.g))
                 [] d.par = "two" -> Enc(TSeq, f("p", DsaMat.p) \o f("g", DsaMat.g)) [] d.par = "nested" -> Enc(TSeq, Enc(TSeq, all))
        pt  == CASE d.pt = "right" -> f("y", DsaMat.y) [] d.pt = "octets" -> Oct(DsaMat.y) [] d.pt = "seq" -> Enc(TSeq, f("y", DsaMat.y))
                 [] d.pt = "empty" -> <<>> [] d.pt = "tail" -> f("y", DsaMat.y) \o DerNull [] d.pt = "cut" -> SubSeq(NumOf(DsaMat.y), 1, 5)
    IN  Enc(TSeq, Enc(TSeq, OidOf(OidDSA) \o par) \o BitStr(d.pad, pt) \o Trail(d.tail, "inside")) \o Trail(d.tail, "after")

=============================================================================
