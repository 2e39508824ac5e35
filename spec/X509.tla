-------------------------------- MODULE X509 --------------------------------
(* Certificates and revocation lists (RFC 5280) and certificate requests    *)
(* (RFC 2986): independent readers of their DER, what a template asks for,  *)
(* and when a signature check may succeed.                                  *)
(* A reader gives [ok, strict, v]: ok - some generous reader could take the *)
(* octets for the thing; strict - they are a conforming encoding, which a   *)
(* reader must take; v - what they say.                                     *)
EXTENDS KeyFormats

\* the first element inside a constructed element
FirstOr(b, nd) == IF ~nd.ok THEN BadNode ELSE LET o == FirstK(b, nd.s, nd.f, 1) IN IF Len(o) = 1 THEN o[1] ELSE BadNode

----------------------------------------------------------------------------
(* names of extensions and attributes *)
OExt(j) == <<85, 29, j>>                       \* 2.5.29.j
OSki == OExt(14)   OKu == OExt(15)   OSan == OExt(17)   OBc == OExt(19)   OCrlNum == OExt(20)
ONc == OExt(30)    OCrlDp == OExt(31) OPol == OExt(32)  OAki == OExt(35)  OEku == OExt(37)
OAia == <<43,6,1,5,5,7,1,1>>
OOcsp == <<43,6,1,5,5,7,48,1>>
OCaIss == <<43,6,1,5,5,7,48,2>>
OExtReq == <<42,134,72,134,247,13,1,9,14>>
ONameAttr(j) == <<85, 4, j>>                   \* 2.5.4.j
\* extended key usages in the order of the package's constants
EkuOids == << <<85,29,37,0>>, <<43,6,1,5,5,7,3,1>>, <<43,6,1,5,5,7,3,2>>, <<43,6,1,5,5,7,3,3>>, <<43,6,1,5,5,7,3,4>>,
              <<43,6,1,5,5,7,3,5>>, <<43,6,1,5,5,7,3,6>>, <<43,6,1,5,5,7,3,7>>, <<43,6,1,5,5,7,3,8>>, <<43,6,1,5,5,7,3,9>>,
              <<43,6,1,4,1,130,55,10,3,3>>, <<96,134,72,1,134,248,66,4,1>>, <<43,6,1,4,1,130,55,2,1,22>>,
              <<43,6,1,4,1,130,55,61,1,1>> >>
EkuNum(o) == IF \E j \in 1..Len(EkuOids) : EkuOids[j] = o THEN (CHOOSE j \in 1..Len(EkuOids) : EkuOids[j] = o) - 1 ELSE -1

\* an arc of more than 28 bits is left to the reader
ArcsSmall(c) == \A j \in 1..(Len(c) - 3) : \E k \in j..(j + 3) : c[k] < 128
OidOk(c) == /\ Len(c) >= 1 /\ c[Len(c)] < 128
            /\ \A j \in 1..Len(c) : c[j] = 128 => (j > 1 /\ c[j - 1] >= 128)
\* well-formed all the way down, without such arcs
RECURSIVE DeepPlain(_, _)
DeepPlain(b, nd) ==
    /\ nd.ok /\ nd.tag < HighTag
    /\ nd.tag = TOid => ArcsSmall(Body(b, nd))
    /\ (nd.tag \div 32) % 2 = 1 => LET ks == Kids(b, nd) IN \A i \in 1..Len(ks) : DeepPlain(b, ks[i])

----------------------------------------------------------------------------
(* times: <<days since 1970-01-01, seconds of the day>> *)
IsLeap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m = 2 -> (IF IsLeap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
DayNumber(y, m, d) ==
    LET yy  == (IF m <= 2 THEN y - 1 ELSE y) + 400          \* kept positive
        mp  == (m + 9) % 12
        era == yy \div 400
        yoe == yy % 400
        doy == (((153 * mp) + 2) \div 5) + d - 1
        doe == (yoe * 365) + (yoe \div 4) - (yoe \div 100) + doy
    IN  ((era - 1) * 146097) + doe - 719468
LOCAL IsDig(c) == c >= 48 /\ c <= 57
LOCAL Digs(c, i, k) == i + k - 1 <= Len(c) /\ \A j \in i..(i + k - 1) : IsDig(c[j])
LOCAL D2(c, i) == (c[i] - 48) * 10 + c[i + 1] - 48
NoTime == [ok |-> FALSE, strict |-> FALSE, t |-> <<0, 0>>]
\* contents c, the first yl octets being the year
LOCAL TimeFrom(c, yl) ==
    IF ~Digs(c, 1, yl + 8) THEN NoTime
    ELSE LET sec  == Digs(c, yl + 9, 2)
             rst0 == SubSeq(c, yl + (IF sec THEN 11 ELSE 9), Len(c))
             \* a fraction of a second is not DER's form but may be read
             frac == sec /\ Len(rst0) >= 2 /\ rst0[1] \in {44, 46} /\ IsDig(rst0[2])
             fend == IF frac THEN CHOOSE j \in 2..Len(rst0) : (\A k \in 2..j : IsDig(rst0[k])) /\ (j = Len(rst0) \/ ~IsDig(rst0[j + 1])) ELSE 0
             rest == SubSeq(rst0, fend + 1, Len(rst0))
             zulu == rest = <<90>>
             off  == Len(rest) = 5 /\ rest[1] \in {43, 45} /\ Digs(rest, 2, 4)
             y0   == D2(c, 1)
             y    == IF yl = 2 THEN (IF y0 >= 50 THEN 1900 + y0 ELSE 2000 + y0) ELSE (y0 * 100) + D2(c, 3)
             m    == D2(c, yl + 1)
             d    == D2(c, yl + 3)
             h    == D2(c, yl + 5)
             mi   == D2(c, yl + 7)
             s    == IF sec THEN D2(c, yl + 9) ELSE 0
             oh   == IF off THEN D2(rest, 2) ELSE 0
             om   == IF off THEN D2(rest, 4) ELSE 0
             sh   == IF off THEN (IF rest[1] = 43 THEN -1 ELSE 1) * ((oh * 3600) + (om * 60)) ELSE 0
             tot  == (h * 3600) + (mi * 60) + s + sh
         IN  IF ~(zulu \/ off) \/ m \notin 1..12 \/ h > 23 \/ mi > 59 \/ s > 59 \/ oh > 24 \/ om > 59 THEN NoTime
             ELSE IF d < 1 \/ d > MonthLen(y, m) THEN NoTime
             ELSE [ok |-> TRUE, strict |-> zulu /\ sec /\ ~frac /\ (yl = 2 \/ y < 1950 \/ y >= 2050),
                   t |-> << DayNumber(y, m, d) + (tot \div 86400), tot % 86400 >>]
TimeOf(b, nd) == CASE nd.tag = TUTCTime -> TimeFrom(Body(b, nd), 2)
                   [] nd.tag = TGenTime -> TimeFrom(Body(b, nd), 4)
                   [] OTHER -> NoTime
TLeq(t, u) == t[1] < u[1] \/ (t[1] = u[1] /\ t[2] <= u[2])

----------------------------------------------------------------------------
(* strings and names *)
Utf8Of(cp) == IF cp < 128 THEN <<cp>>
              ELSE IF cp < 2048 THEN <<192 + (cp \div 64), 128 + (cp % 64)>>
              ELSE IF cp < 65536 THEN <<224 + (cp \div 4096), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
              ELSE <<240 + (cp \div 262144), 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
LOCAL Cont(s, i) == i <= Len(s) /\ s[i] \in 128..191
RECURSIVE Utf8Ok(_, _)
Utf8Ok(s, i) ==
    IF i > Len(s) THEN TRUE
    ELSE LET c == s[i]
         IN  CASE c < 128 -> Utf8Ok(s, i + 1)
               [] c \in 194..223 -> Cont(s, i + 1) /\ Utf8Ok(s, i + 2)
               [] c \in 224..239 -> /\ Cont(s, i + 1) /\ Cont(s, i + 2)
                                    /\ (c = 224 => s[i + 1] >= 160) /\ (c = 237 => s[i + 1] < 160)
                                    /\ Utf8Ok(s, i + 3)
               [] c \in 240..244 -> /\ Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
                                    /\ (c = 240 => s[i + 1] >= 144) /\ (c = 244 => s[i + 1] < 144)
                                    /\ Utf8Ok(s, i + 4)
               [] OTHER -> FALSE
\* UTF-16 code units -> UTF-8; lone surrogates become U+FFFD
RECURSIVE FromUnits(_)
FromUnits(u) ==
    IF u = <<>> THEN <<>>
    ELSE IF u[1] \in 55296..56319 /\ Len(u) >= 2 /\ u[2] \in 56320..57343
         THEN Utf8Of(65536 + ((u[1] - 55296) * 1024) + (u[2] - 56320)) \o FromUnits(SubSeq(u, 3, Len(u)))
    ELSE (IF u[1] \in 55296..57343 THEN <<239, 191, 189>> ELSE Utf8Of(u[1])) \o FromUnits(SubSeq(u, 2, Len(u)))
LOCAL BmpUnits(s) ==
    LET u == [j \in 1..(Len(s) \div 2) |-> s[2 * j - 1] * 256 + s[2 * j]]
    IN  IF u # <<>> /\ u[Len(u)] = 0 THEN SubSeq(u, 1, Len(u) - 1) ELSE u
PrintableStrict(c) == c \in 65..90 \/ c \in 97..122 \/ c \in 48..57 \/ c \in {32, 39, 40, 41, 43, 44, 45, 46, 47, 58, 61, 63}
Ascii(s) == \A j \in 1..Len(s) : s[j] < 128
NoStr == [ok |-> FALSE, strict |-> FALSE, v |-> <<>>]
StringOf(tag, c) ==
    CASE tag = TUtf8 -> [ok |-> Utf8Ok(c, 1), strict |-> Utf8Ok(c, 1), v |-> c]
      [] tag = TPrintable -> LET p == \A j \in 1..Len(c) : PrintableStrict(c[j])
                             IN  [ok |-> \A j \in 1..Len(c) : PrintableStrict(c[j]) \/ c[j] \in {42, 38}, strict |-> p, v |-> c]
      [] tag = TIA5 -> [ok |-> Ascii(c), strict |-> Ascii(c), v |-> c]
      [] tag = 18 -> LET n == \A j \in 1..Len(c) : c[j] \in 48..57 \/ c[j] = 32 IN [ok |-> n, strict |-> n, v |-> c]
      [] tag = TT61 -> [ok |-> TRUE, strict |-> Ascii(c), v |-> c]
      [] tag = TBmp -> [ok |-> Len(c) % 2 = 0,
                        strict |-> Len(c) % 2 = 0 /\ \A u \in ToSet(BmpUnits(c)) : u \notin 55296..57343 /\ u \notin 64976..65007 /\ u < 65534,
                        v |-> IF Len(c) % 2 = 0 THEN FromUnits(BmpUnits(c)) ELSE <<>>]
      [] OTHER -> NoStr

AllT(s, P(_)) == \A j \in 1..Len(s) : P(s[j])
\* a Name: sequence of sets (as sequences) of [oid, val]
\* shape - sets of attributes of whatever values; ok - all values are character strings
NoName == [shape |-> FALSE, ok |-> FALSE, strict |-> FALSE, v |-> <<>>]
AttrOf(b, nd) ==
    LET ks == InSeq(b, nd, 3)
    IN  IF Len(ks) < 2 THEN [shape |-> FALSE, ok |-> FALSE, strict |-> FALSE, v |-> [oid |-> <<>>, val |-> <<>>]]
        ELSE LET s == StringOf(ks[2].tag, Body(b, ks[2]))
                 o == Body(b, ks[1])
                 h == ks[1].tag = TOid /\ OidOk(o)
             IN  [shape |-> h, ok |-> h /\ s.ok, strict |-> s.strict /\ ArcsSmall(o) /\ IsSeqOf(b, nd, <<TOid, ks[2].tag>>),
                  v |-> [oid |-> o, val |-> s.v]]
NameOf(b, nd) ==
    IF ~nd.ok \/ nd.tag # TSeq THEN NoName
    ELSE LET sets == Kids(b, nd)
         IN  IF ~AllOk(sets) \/ \E j \in 1..Len(sets) : sets[j].tag # TSet THEN NoName
             ELSE LET as == [j \in 1..Len(sets) |-> Kids(b, sets[j])]
                  IN  IF \E j \in 1..Len(as) : ~AllOk(as[j]) THEN NoName
                      ELSE LET rs == [j \in 1..Len(as) |-> [i \in 1..Len(as[j]) |-> AttrOf(b, as[j][i])]]
                           IN  IF \E j \in 1..Len(rs) : \E i \in 1..Len(rs[j]) : ~rs[j][i].shape THEN NoName
                               ELSE [shape |-> TRUE,
                                     ok |-> \A j \in 1..Len(rs) : \A i \in 1..Len(rs[j]) : rs[j][i].ok,
                                     strict |-> \A j \in 1..Len(rs) : Len(rs[j]) >= 1 /\ \A i \in 1..Len(rs[j]) : rs[j][i].strict,
                                     v |-> [j \in 1..Len(rs) |-> [i \in 1..Len(rs[j]) |-> rs[j][i].v]]]
FlatName(rdns) == FlattenSeq(rdns)

----------------------------------------------------------------------------
(* signature algorithms *)
LOCAL RsaSig(j) == <<42,134,72,134,247,13,1,1,j>>
SigOids == << <<"MD5-RSA", RsaSig(4)>>, <<"SHA1-RSA", RsaSig(5)>>, <<"SHA256-RSA", RsaSig(11)>>, <<"SHA384-RSA", RsaSig(12)>>,
              <<"SHA512-RSA", RsaSig(13)>>, <<"DSA-SHA1", <<42,134,72,206,56,4,3>> >>, <<"DSA-SHA256", <<96,134,72,1,101,3,4,3,2>> >>,
              <<"ECDSA-SHA1", <<42,134,72,206,61,4,1>> >>, <<"ECDSA-SHA256", <<42,134,72,206,61,4,3,2>> >>,
              <<"ECDSA-SHA384", <<42,134,72,206,61,4,3,3>> >>, <<"ECDSA-SHA512", <<42,134,72,206,61,4,3,4>> >>,
              <<"Ed25519", <<43,101,112>> >>, <<"SM2-SM3", <<42,129,28,207,85,1,131,117>> >> >>
OPss == RsaSig(10)
OMgf1 == RsaSig(8)
HashOid(h) == CASE h = "sha256" -> <<96,134,72,1,101,3,4,2,1>> [] h = "sha384" -> <<96,134,72,1,101,3,4,2,2>>
                [] h = "sha512" -> <<96,134,72,1,101,3,4,2,3>>
\* the name a PSS parameter element stands for
PssName(b, nd) ==
    LET ks == InSeq(b, nd, 4)
        inner(k, tag) == IF Len(ks) >= k THEN (IF ks[k].tag = tag THEN InSeq(b, FirstOr(b, ks[k]), 2) ELSE <<>>) ELSE <<>>
        h  == inner(1, 160)
        mg == inner(2, 161)
        mh == IF Len(mg) = 2 THEN InSeq(b, mg[2], 2) ELSE <<>>
        sl == IF Len(ks) >= 3 THEN (IF ks[3].tag = 162 THEN FirstOr(b, ks[3]) ELSE BadNode) ELSE BadNode
        tf == IF Len(ks) = 4 THEN (IF ks[4].tag = 163 THEN FirstOr(b, ks[4]) ELSE BadNode) ELSE BadNode
        nul(as) == Len(as) = 1 \/ Raw(b, as[2]) = DerNull
        nm == {x \in {"sha256", "sha384", "sha512"} : Len(h) >= 1 /\ Body(b, h[1]) = HashOid(x)}
    IN  IF Len(h) = 0 \/ Len(mh) = 0 \/ ~sl.ok \/ nm = {} THEN ""
        ELSE IF h[1].tag # TOid \/ mg[1].tag # TOid \/ mh[1].tag # TOid THEN ""
        ELSE LET x == CHOOSE y \in nm : TRUE
                 n == NatOf(b, sl)
             IN  IF /\ nul(h) /\ nul(mh) /\ Body(b, mg[1]) = OMgf1 /\ Body(b, mh[1]) = HashOid(x)
                    /\ n.ok /\ n.v = <<HashLen(x)>>
                    /\ Len(ks) = 4 => tf.ok /\ NatOf(b, tf).v = <<1>>
                 THEN (CASE x = "sha256" -> "SHA256-RSAPSS" [] x = "sha384" -> "SHA384-RSAPSS" [] x = "sha512" -> "SHA512-RSAPSS")
                 ELSE ""
\* of an AlgorithmIdentifier element; "" = unknown
SigAlgOf(b, nd) ==
    LET as == InSeq(b, nd, 2)
    IN  IF Len(as) = 0 THEN ""
        ELSE LET o == Body(b, as[1])
                 m == {j \in 1..Len(SigOids) : SigOids[j][2] = o}
             IN  IF as[1].tag # TOid THEN ""
                 ELSE IF o = OPss THEN (IF Len(as) = 2 THEN PssName(b, as[2]) ELSE "")
                 ELSE IF m = {} THEN ""
                 ELSE LET nm == SigOids[CHOOSE j \in m : TRUE][1]
                      IN  IF nm = "Ed25519" /\ Len(as) = 2 THEN "" ELSE nm
\* PSS parameters that are not as they should be may be taken for the algorithm or not
AlgSure(b, nd) ==
    LET as == InSeq(b, nd, 2)
    IN  IF Len(as) = 0 THEN TRUE
        ELSE IF Body(b, as[1]) # OPss THEN TRUE
        ELSE IF ~DeepPlain(b, nd) \/ Len(as) < 2 THEN FALSE
        ELSE LET ks == IF as[2].tag = TSeq THEN Kids(b, as[2]) ELSE <<>>
             IN  [j \in 1..Len(ks) |-> ks[j].tag] \in {<<160, 161, 162>>, <<160, 161, 162, 163>>} /\ \A k \in ToSet(ks) : Len(Kids(b, k)) = 1
\* the AlgorithmIdentifier is well formed
AlgIdOk(b, nd) == nd.ok /\ nd.tag = TSeq /\ LET as == InSeq(b, nd, 2) IN Len(as) >= 1 /\ as[1].tag = TOid /\ OidOk(Body(b, as[1]))

----------------------------------------------------------------------------
(* extensions: [oid, crit, val] *)
ExtOf(b, nd) ==
    LET ks == InSeq(b, nd, 3)
        cr == Len(ks) >= 2 /\ ks[2].tag = TBool
        vi == IF cr THEN 3 ELSE 2
    IN  IF Len(ks) < vi THEN [ok |-> FALSE, strict |-> FALSE, v |-> [oid |-> <<>>, crit |-> FALSE, val |-> <<>>]]
        ELSE [ok |-> /\ ks[1].tag = TOid /\ OidOk(Body(b, ks[1])) /\ ks[vi].tag = TOctets
                     /\ cr => Body(b, ks[2]) \in {<<0>>, <<255>>},
              strict |-> (cr => Body(b, ks[2]) = <<255>>) /\ Len(Kids(b, nd)) = vi /\ ArcsSmall(Body(b, ks[1])),
              v |-> [oid |-> Body(b, ks[1]), crit |-> cr /\ Body(b, ks[2]) = <<255>>, val |-> Body(b, ks[vi])]]
NoExts == [ok |-> FALSE, strict |-> FALSE, v |-> <<>>]
\* nd: the SEQUENCE OF Extension
ExtsOf(b, nd) ==
    IF ~nd.ok \/ nd.tag # TSeq THEN NoExts
    ELSE LET ks == Kids(b, nd)
         IN  IF ~AllOk(ks) THEN NoExts
             ELSE LET es == [j \in 1..Len(ks) |-> ExtOf(b, ks[j])]
                  IN  IF \E j \in 1..Len(es) : ~es[j].ok THEN NoExts
                      ELSE [ok |-> TRUE, v |-> [j \in 1..Len(es) |-> es[j].v],
                            strict |-> /\ Len(ks) >= 1
                                       /\ \A j \in 1..Len(es) : es[j].strict
                                       /\ \A j, k \in 1..Len(es) : es[j].v.oid = es[k].v.oid => j = k]

\* what extensions say
F0 == [ok |-> TRUE, strict |-> TRUE, ku |-> 0, bcv |-> FALSE, isca |-> FALSE, mpl |-> 0, mplz |-> FALSE,
       dns |-> <<>>, emails |-> <<>>, ips |-> <<>>, uris |-> <<>>,
       permcrit |-> FALSE, pdns |-> <<>>, edns |-> <<>>, pip |-> <<>>, eip |-> <<>>, pemail |-> <<>>, eemail |-> <<>>,
       puri |-> <<>>, euri |-> <<>>,
       crldp |-> <<>>, ocsp |-> <<>>, issuers |-> <<>>, ski |-> <<>>, aki |-> <<>>, eku |-> <<>>, ueku |-> <<>>,
       policies |-> <<>>, unhandled |-> <<>>]
LOCAL Bad(f) == [f EXCEPT !.ok = FALSE]
LOCAL Loose(f, c) == [f EXCEPT !.strict = f.strict /\ c]
LOCAL Unhandled(f, e) == IF e.crit THEN [f EXCEPT !.unhandled = Append(@, e.oid)] ELSE f

LOCAL KuFrom(c) == FoldLeft(LAMBDA acc, j : acc + (IF (j \div 8) + 2 <= Len(c) /\ (c[(j \div 8) + 2] \div 2^(7 - (j % 8))) % 2 = 1 THEN 2^j ELSE 0),
                            0, [j \in 1..9 |-> j - 1])
LOCAL ReadKu(f, e) ==
    LET nd == TLV(e.val, 1, Len(e.val))
    IN  IF ~nd.ok THEN Bad(f)
        ELSE IF nd.tag # TBitString THEN Bad(f)
        ELSE LET c == Body(e.val, nd)
                 n == Len(c)
             IN  IF ~BitsBody(e.val, nd).ok THEN Bad(f)
                 ELSE Loose([f EXCEPT !.ku = KuFrom(c)],
                            \* a named bit list ends with a one
                            /\ nd.f = Len(e.val)
                            /\ (n > 1 => c[n] # 0 /\ (c[n] \div 2^(c[1])) % 2 = 1))
SmallInt(b, nd) == \* [ok, v] of an INTEGER of at most 8 octets; beyond 3 octets it counts as 2^30 (or less)
    LET c == Body(b, nd)
    IN  IF ~nd.ok \/ nd.tag # TInteger \/ ~IntOk(c) \/ Len(c) > 8 THEN [ok |-> FALSE, v |-> 0]
        ELSE LET z == IntVal(c)
                 m == IF Len(c) > 3 THEN 1073741824 ELSE FoldLeft(LAMBDA acc, x : acc * 256 + x, 0, z.mag)
             IN  [ok |-> TRUE, v |-> IF z.neg THEN 0 - m ELSE m]
LOCAL ReadBc(f, e) ==
    LET nd == TLV(e.val, 1, Len(e.val))
        ks == InSeq(e.val, nd, 2)
        cb == Len(ks) >= 1 /\ ks[1].tag = TBool
        pi == IF cb THEN 2 ELSE 1
        hp == Len(ks) >= pi /\ ks[pi].tag = TInteger
        pl == IF hp THEN SmallInt(e.val, ks[pi]) ELSE [ok |-> TRUE, v |-> -1]
        ca == cb /\ Body(e.val, ks[1]) = <<255>>
    IN  IF ~nd.ok \/ nd.tag # TSeq THEN Bad(f)
        ELSE IF (cb /\ Body(e.val, ks[1]) \notin {<<0>>, <<255>>}) \/ ~pl.ok THEN Bad(f)
        ELSE Loose([f EXCEPT !.bcv = TRUE, !.isca = ca, !.mpl = pl.v, !.mplz = (pl.v = 0)],
                   /\ nd.f = Len(e.val) /\ AllOk(Kids(e.val, nd))
                   /\ Len(Kids(e.val, nd)) = (IF cb THEN 1 ELSE 0) + (IF hp THEN 1 ELSE 0)
                   /\ (cb => ca) /\ (hp => ca /\ pl.v >= 0))
LOCAL Pick(b, ns, tag) == LET sel == SelectSeq(ns, LAMBDA nd : nd.tag = tag) IN [j \in 1..Len(sel) |-> Body(b, sel[j])]
\* a URL no reader rewrites or refuses: http://host/path in small letters, digits, dots and dashes inside labels
LOCAL AlNum(c) == c \in 97..122 \/ c \in 48..57
HTTP == <<104,116,116,112,58,47,47>>
PlainUri(u) == /\ Len(u) > 7 /\ SubSeq(u, 1, 7) = HTTP
               /\ AlNum(u[8]) /\ (AlNum(u[Len(u)]) \/ u[Len(u)] = 47)
               /\ \A j \in 8..Len(u) : AlNum(u[j]) \/ u[j] = 47 \/ (u[j] \in {45, 46} /\ AlNum(u[j - 1]) /\ j < Len(u) /\ AlNum(u[j + 1]))
LOCAL LabelOk(c) == c \in 33..126
DomainOk(s) ==
    LET d == IF s # <<>> /\ s[1] = 46 THEN SubSeq(s, 2, Len(s)) ELSE s
    IN  /\ \A j \in 1..Len(d) : LabelOk(d[j])
        /\ d # <<>> => d[1] # 46 /\ d[Len(d)] # 46 /\ \A j \in 1..(Len(d) - 1) : ~(d[j] = 46 /\ d[j + 1] = 46)
\* some readers overlook one empty label in front
LOCAL DomainLoose(d) == DomainOk(IF d # <<>> /\ d[1] = 46 THEN SubSeq(d, 2, Len(d)) ELSE d)
\* a host with an empty label inside is none
EmptyLabel(u) ==
    LET r == SubSeq(u, 8, Len(u))
        ends == {j \in 1..Len(r) : ~(AlNum(r[j]) \/ r[j] \in 65..90 \/ r[j] \in {45, 46})}
        k == IF ends = {} THEN Len(r) ELSE (CHOOSE j \in ends : \A i \in ends : j <= i) - 1
    IN  /\ Len(u) > 7 /\ SubSeq(u, 1, 7) = HTTP
        /\ k = Len(r) \/ r[k + 1] = 47
        /\ \E j \in 2..(k - 1) : r[j] = 46 /\ r[j + 1] = 46 /\ \E i \in 1..(j - 1) : r[i] # 46
LOCAL ReadSan(f, e) ==
    LET nd == TLV(e.val, 1, Len(e.val))
    IN  IF ~nd.ok \/ nd.tag # TSeq THEN Bad(f)
        ELSE LET ks == Kids(e.val, nd)
             IN  IF ~AllOk(ks) THEN Bad(f)
                 ELSE LET g == [f EXCEPT !.emails = Pick(e.val, ks, 129), !.dns = Pick(e.val, ks, 130),
                                         !.uris = Pick(e.val, ks, 134), !.ips = Pick(e.val, ks, 135)]
                      IN  IF \/ \E x \in ToSet(g.emails) \cup ToSet(g.dns) \cup ToSet(g.uris) : ~Ascii(x)
                             \/ \E x \in ToSet(g.uris) : EmptyLabel(x)
                             \/ \E x \in ToSet(g.ips) : Len(x) \notin {4, 16} THEN Bad(f)
                          ELSE LET h == IF g.emails = <<>> /\ g.dns = <<>> /\ g.uris = <<>> /\ g.ips = <<>> THEN Unhandled(g, e) ELSE g
                               IN  Loose(h, (Len(ks) >= 1 /\ nd.f = Len(e.val) /\ (\A x \in ToSet(g.dns) \cup ToSet(g.emails) : x # <<>>)
                                                   /\ (\A x \in ToSet(g.uris) : PlainUri(x)))
                                            /\ \A k \in ToSet(ks) : k.tag \in {160, 129, 130, 163, 164, 165, 134, 135, 136})
\* mailboxes, RFC 2821 4.1.2 and RFC 3696 3: a dot-atom or a quoted string, at, a domain.  What the two leave
\* unclear (spaces within quotes, escapes without, control characters, odd domains) may be read or not.
LOCAL AText == (48..57) \cup (65..90) \cup (97..122) \cup {33, 35, 36, 37, 38, 39, 42, 43, 45, 47, 61, 63, 94, 95, 96, 123, 124, 125, 126}
LOCAL QChar(must) == IF must THEN (33..126) \ {34, 92} ELSE (1..127) \ {9, 10, 13, 34, 92}
LOCAL Escaped(must) == IF must THEN 33..126 ELSE (1..127) \ {10, 13}
RECURSIVE Quoted(_, _, _)
LOCAL Quoted(s, j, must) ==        \* the place behind the closing quote, or 0
    IF j > Len(s) THEN 0 ELSE IF s[j] = 34 THEN j + 1
    ELSE IF s[j] = 92 THEN (IF j < Len(s) /\ s[j + 1] \in Escaped(must) THEN Quoted(s, j + 2, must) ELSE 0)
    ELSE IF s[j] \in QChar(must) THEN Quoted(s, j + 1, must) ELSE 0
RECURSIVE Atoms(_, _, _, _)
LOCAL Atoms(s, j, must, dot) ==    \* the place behind the dot-atom that goes on at j, or 0; dot: behind a dot
    IF j <= Len(s) /\ s[j] = 46 THEN (IF dot THEN 0 ELSE Atoms(s, j + 1, must, TRUE))
    ELSE IF j <= Len(s) /\ s[j] \in AText THEN Atoms(s, j + 1, must, FALSE)
    ELSE IF j < Len(s) /\ s[j] = 92 /\ ~must THEN Atoms(s, j + 2, must, FALSE)
    ELSE IF dot THEN 0 ELSE j
LOCAL MailDomain(d, must) == /\ DomainOk(d)
                             /\ must => d # <<>> /\ d[1] # 46 /\ \A j \in 1..Len(d) : d[j] \in (48..57) \cup (65..90) \cup (97..122) \cup {45, 46}
\* dots that are escaped count as dots for some
LOCAL EscapedDots(s) == \E j \in 1..(Len(s) - 1) : s[j] = 92 /\ s[j + 1] = 46
Mailbox(s, must) ==
    LET k == IF s = <<>> THEN 0 ELSE IF s[1] = 34 THEN Quoted(s, 2, must) ELSE Atoms(s, 1, must, TRUE)
    IN  \/ k > 0 /\ k <= Len(s) /\ s[k] = 64 /\ (must => (k > 3 \/ s[1] # 34)) /\ MailDomain(SubSeq(s, k + 1, Len(s)), must)
        \/ ~must /\ EscapedDots(s)
\* an address is no domain
LOCAL PlainQuad(s) ==
    \E a \in 2..Len(s), b \in 2..Len(s), c \in 2..Len(s) :
        /\ a < b /\ b < c /\ c < Len(s) /\ s[a] = 46 /\ s[b] = 46 /\ s[c] = 46
        /\ LET ps == <<SubSeq(s, 1, a - 1), SubSeq(s, a + 1, b - 1), SubSeq(s, b + 1, c - 1), SubSeq(s, c + 1, Len(s))>>
               One(p) == (Len(p) = 1 /\ p[1] \in 48..57) \/ (Len(p) = 2 /\ p[1] \in 49..57 /\ p[2] \in 48..57)
           IN  \A j \in 1..4 : One(ps[j])
\* ones followed by zeros
MaskOk(m) == /\ \A j \in 1..Len(m) : m[j] \in {0, 128, 192, 224, 240, 248, 252, 254, 255}
             /\ \A j \in 1..(Len(m) - 1) : m[j] # 255 => m[j + 1] = 0
LOCAL BadTrees == [ok |-> FALSE, strict |-> FALSE, unh |-> FALSE, dns |-> <<>>, ip |-> <<>>, email |-> <<>>, uri |-> <<>>]
LOCAL Subtrees(b, nd) ==      \* nd: [0] or [1]
    LET ks == Kids(b, nd)
    IN  IF ~AllOk(ks) THEN BadTrees
        ELSE LET bs == [j \in 1..Len(ks) |-> FirstOr(b, ks[j])]
             IN  IF \E j \in 1..Len(ks) : ks[j].tag # TSeq \/ ~bs[j].ok THEN BadTrees
                 ELSE LET r == [ok |-> TRUE, strict |-> TRUE, unh |-> \E j \in 1..Len(bs) : bs[j].tag \notin {129, 130, 134, 135},
                                dns |-> Pick(b, bs, 130), ip |-> Pick(b, bs, 135), email |-> Pick(b, bs, 129), uri |-> Pick(b, bs, 134)]
                      IN  [r EXCEPT !.ok = /\ \A x \in ToSet(r.dns) \cup ToSet(r.email) \cup ToSet(r.uri) : Ascii(x)
                                           /\ \A x \in ToSet(r.ip) : Len(x) \in {8, 32} /\ MaskOk(SubSeq(x, (Len(x) \div 2) + 1, Len(x)))
                                           \* what cannot be understood is refused, not left out
                                           /\ \A x \in ToSet(r.dns) \cup ToSet(r.uri) : DomainLoose(x)
                                           /\ \A x \in ToSet(r.uri) : ~PlainQuad(x)
                                           /\ \A x \in ToSet(r.email) : IF 64 \in ToSet(x) THEN Mailbox(x, FALSE) ELSE DomainLoose(x),
                                    !.strict = /\ \A x \in ToSet(r.dns) \cup ToSet(r.uri) : DomainOk(x)
                                               /\ \A x \in ToSet(r.email) : IF 64 \in ToSet(x) THEN Mailbox(x, TRUE) ELSE DomainOk(x)
                                               \* a URI constraint is a domain, not an address
                                               /\ \A x \in ToSet(r.uri) : 58 \notin ToSet(x) /\ \E j \in 1..Len(x) : x[j] \in 97..122
                                               /\ \A j \in 1..Len(ks) : Len(Kids(b, ks[j])) = 1]
LOCAL ReadNc(f, e) ==
    LET nd == Whole(e.val)
    IN  IF ~nd.ok \/ nd.tag # TSeq THEN Bad(f)
        ELSE LET ks == Kids(e.val, nd)
                 ts == [j \in 1..Len(ks) |-> ks[j].tag]
             IN  IF ~AllOk(ks) \/ ts \notin {<<160>>, <<161>>, <<160, 161>>} THEN Bad(f)
                 ELSE LET none == [BadTrees EXCEPT !.ok = TRUE, !.strict = TRUE]
                          p == IF ts[1] = 160 THEN Subtrees(e.val, ks[1]) ELSE none
                          x == IF ts[Len(ts)] = 161 THEN Subtrees(e.val, ks[Len(ks)]) ELSE none
                          g == [f EXCEPT !.permcrit = e.crit, !.pdns = p.dns, !.edns = x.dns, !.pip = p.ip, !.eip = x.ip,
                                         !.pemail = p.email, !.eemail = x.email, !.puri = p.uri, !.euri = x.uri]
                      IN  IF ~p.ok \/ ~x.ok \/ \A j \in 1..Len(ks) : BLen(ks[j]) = 0 THEN Bad(f)
                          ELSE Loose(IF p.unh \/ x.unh THEN Unhandled(g, e) ELSE g,
                                     p.strict /\ x.strict /\ \A j \in 1..Len(ks) : BLen(ks[j]) > 0)
\* the URIs of a distribution point: those of fullName up to the first other name
LOCAL UriPrefix(b, ns) ==
    LET stop == {j \in 1..Len(ns) : ns[j].tag # 134}
        n == IF stop = {} THEN Len(ns) ELSE (CHOOSE j \in stop : \A k \in stop : j <= k) - 1
    IN  [j \in 1..n |-> Body(b, ns[j])]
LOCAL DpOf(b, nd) ==
    LET ks == InSeq(b, nd, 1)
        fn == IF Len(ks) = 1 /\ ks[1].tag = 160 THEN FirstOr(b, ks[1]) ELSE BadNode
    IN  IF nd.tag # TSeq THEN [ok |-> FALSE, v |-> <<>>]
        ELSE IF (IF BLen(nd) = 0 THEN TRUE ELSE b[nd.s] # 160) THEN [ok |-> TRUE, v |-> <<>>]
        ELSE IF Len(ks) = 0 THEN [ok |-> FALSE, v |-> <<>>]
        ELSE IF ~fn.ok THEN [ok |-> FALSE, v |-> <<>>]
        ELSE IF fn.tag # 160 THEN [ok |-> FALSE, v |-> <<>>]
        ELSE LET us == UriPrefix(b, FirstK(b, fn.s, fn.f, 1000))
                 \* where the URIs end; what begins as one there is a broken one
                 nx == fn.s + FoldLeft(LAMBDA acc, n : acc + n, 0, [j \in 1..Len(us) |-> FirstK(b, fn.s, fn.f, 1000)[j].f - FirstK(b, fn.s, fn.f, 1000)[j].at + 1])
             IN  [ok |-> IF nx > fn.f THEN TRUE ELSE b[nx] # 134, v |-> us]
LOCAL ReadCrlDp(f, e) ==
    LET nd == TLV(e.val, 1, Len(e.val))
    IN  IF ~nd.ok \/ nd.tag # TSeq THEN Bad(f)
        ELSE LET ks == Kids(e.val, nd)
             IN  IF ~AllOk(ks) THEN Bad(f)
                 ELSE LET ds == [j \in 1..Len(ks) |-> DpOf(e.val, ks[j])]
                      IN  IF \E j \in 1..Len(ds) : ~ds[j].ok THEN Bad(f)
                          ELSE Loose([f EXCEPT !.crldp = f.crldp \o FlattenSeq([j \in 1..Len(ds) |-> ds[j].v])],
                                     nd.f = Len(e.val) /\ Len(ks) >= 1 /\ \A j \in 1..Len(ks) : AllOk(Kids(e.val, ks[j])))
LOCAL ReadAki(f, e) ==
    LET nd == TLV(e.val, 1, Len(e.val))
        ks == InSeq(e.val, nd, 1)
    IN  IF ~nd.ok \/ nd.tag # TSeq THEN Bad(f)
        ELSE IF ks = <<>> /\ (IF BLen(nd) = 0 THEN FALSE ELSE e.val[nd.s] = 128) THEN Bad(f)
        ELSE Loose(IF ks # <<>> /\ ks[1].tag = 128 THEN [f EXCEPT !.aki = Body(e.val, ks[1])] ELSE f, nd.f = Len(e.val) /\ AllOk(Kids(e.val, nd)))
LOCAL ReadSki(f, e) ==
    LET nd == TLV(e.val, 1, Len(e.val))
    IN  IF ~nd.ok \/ nd.tag # TOctets THEN Bad(f) ELSE Loose([f EXCEPT !.ski = Body(e.val, nd)], nd.f = Len(e.val))
LOCAL ReadEku(f, e) ==
    LET nd == TLV(e.val, 1, Len(e.val))
    IN  IF ~nd.ok \/ nd.tag # TSeq THEN Bad(f)
        ELSE LET ks == Kids(e.val, nd)
                 os == [j \in 1..Len(ks) |-> Body(e.val, ks[j])]
             IN  IF \E j \in 1..Len(ks) : ~ks[j].ok \/ ks[j].tag # TOid THEN Bad(f)
                 ELSE IF \E j \in 1..Len(os) : ~OidOk(os[j]) THEN Bad(f)
                 ELSE LET kn == SelectSeq(os, LAMBDA o : EkuNum(o) >= 0)
                      IN  Loose([f EXCEPT !.eku = [j \in 1..Len(kn) |-> EkuNum(kn[j])],
                                          !.ueku = SelectSeq(os, LAMBDA o : EkuNum(o) < 0)],
                                nd.f = Len(e.val) /\ Len(ks) >= 1 /\ DeepPlain(e.val, nd))
LOCAL ReadPol(f, e) ==
    LET nd == TLV(e.val, 1, Len(e.val))
    IN  IF ~nd.ok \/ nd.tag # TSeq THEN Bad(f)
        ELSE LET ks == Kids(e.val, nd)
             IN  IF \E j \in 1..Len(ks) : ~ks[j].ok \/ ks[j].tag # TSeq THEN Bad(f)
                 ELSE LET os == [j \in 1..Len(ks) |-> FirstOr(e.val, ks[j])]
                      IN  IF \E j \in 1..Len(os) : ~os[j].ok \/ os[j].tag # TOid THEN Bad(f)
                          ELSE IF \E j \in 1..Len(os) : ~OidOk(Body(e.val, os[j])) THEN Bad(f)
                          ELSE Loose([f EXCEPT !.policies = [j \in 1..Len(os) |-> Body(e.val, os[j])]],
                                     nd.f = Len(e.val) /\ Len(ks) >= 1 /\ \A j \in 1..Len(os) : ArcsSmall(Body(e.val, os[j])))
LOCAL ReadAia(f, e) ==
    LET nd == TLV(e.val, 1, Len(e.val))
    IN  IF ~nd.ok \/ nd.tag # TSeq THEN Bad(f)
        ELSE LET ks == Kids(e.val, nd)
                 as == [j \in 1..Len(ks) |-> InSeq(e.val, ks[j], 2)]
             IN  IF \E j \in 1..Len(ks) : ~ks[j].ok \/ ks[j].tag # TSeq \/ Len(as[j]) = 0 THEN Bad(f)
                 ELSE IF \E j \in 1..Len(as) : as[j][1].tag # TOid \/ ~OidOk(Body(e.val, as[j][1])) THEN Bad(f)
                 ELSE LET urls(o) == LET sel == SelectSeq(as, LAMBDA a1 : Len(a1) = 2 /\ a1[2].tag = 134 /\ Body(e.val, a1[1]) = o)
                                     IN  [j \in 1..Len(sel) |-> Body(e.val, sel[j][2])]
                      IN  Loose([f EXCEPT !.ocsp = f.ocsp \o urls(OOcsp), !.issuers = f.issuers \o urls(OCaIss)],
                                nd.f = Len(e.val) /\ Len(ks) >= 1 /\ \A j \in 1..Len(as) : Len(as[j]) = 2 /\ ArcsSmall(Body(e.val, as[j][1])))
ReadExt(f, e) ==
    IF ~f.ok THEN f
    ELSE CASE e.oid = OKu -> ReadKu(f, e)    [] e.oid = OBc -> ReadBc(f, e)     [] e.oid = OSan -> ReadSan(f, e)
           [] e.oid = ONc -> ReadNc(f, e)    [] e.oid = OCrlDp -> ReadCrlDp(f, e) [] e.oid = OAki -> ReadAki(f, e)
           [] e.oid = OEku -> ReadEku(f, e)  [] e.oid = OSki -> ReadSki(f, e)   [] e.oid = OPol -> ReadPol(f, e)
           [] e.oid = OAia -> ReadAia(f, e)
           [] OTHER -> Unhandled(f, e)
ReadExts(es) == FoldLeft(ReadExt, F0, es)

----------------------------------------------------------------------------
(* signed objects: SEQUENCE { tbs, AlgorithmIdentifier, BIT STRING } *)
NoObj == [ok |-> FALSE, strict |-> FALSE, v |-> [none |-> TRUE]]
\* [ok, strict, tbs, ai, sig]
Signed(b) ==
    LET nd == TLV(b, 1, Len(b))
        ks == InSeq(b, nd, 3)
    IN  IF Len(ks) < 3 \/ nd.f # Len(b) THEN [ok |-> FALSE, strict |-> FALSE, tbs |-> BadNode, ai |-> BadNode, sig |-> <<>>]
        ELSE LET s == IF ks[3].tag = TBitString THEN BitsBody(b, ks[3]) ELSE [ok |-> FALSE, v |-> <<>>, pad |-> 0]
             IN  [ok |-> ks[1].tag = TSeq /\ AlgIdOk(b, ks[2]) /\ s.ok, strict |-> Len(Kids(b, nd)) = 3 /\ s.pad = 0 /\ DeepPlain(b, ks[2]),
                  tbs |-> ks[1], ai |-> ks[2], sig |-> s.v]

IntNode(b, nd) == nd.ok /\ nd.tag = TInteger /\ IntOk(Body(b, nd))

\* the key of a SubjectPublicKeyInfo element: [ok, strict, key]; unknown algorithms give NoKey
SpkiOf(b, nd) ==
    LET ks == InSeq(b, nd, 2)
        as == IF Len(ks) = 2 THEN InSeq(b, ks[1], 2) ELSE <<>>
        bv == IF Len(ks) = 2 /\ ks[2].tag = TBitString THEN BitsBody(b, ks[2]) ELSE [ok |-> FALSE, v |-> <<>>, pad |-> 0]
        bad == [ok |-> FALSE, strict |-> FALSE, key |-> NoKey, bits |-> <<>>]
    IN  IF Len(as) = 0 \/ ~bv.ok THEN bad
        ELSE IF as[1].tag # TOid \/ ~OidOk(Body(b, as[1])) THEN bad
        ELSE IF Body(b, as[1]) \notin {OidRSA, OidEC, OidDSA, OidEd} THEN
            [ok |-> TRUE, strict |-> TRUE, key |-> NoKey, bits |-> bv.v]
        ELSE LET k == SpkiKey(b, as, bv.v)
             IN  IF ~k.ok THEN bad
                 ELSE [ok |-> TRUE, strict |-> PkixStrict(Raw(b, nd)).ok, key |-> k.key, bits |-> bv.v]

----------------------------------------------------------------------------
(* certificates *)
\* the parts of a TBSCertificate after the optional version
CertRead(b) ==
    LET S == Signed(b)
    IN  IF ~S.ok THEN NoObj
        ELSE LET ts == FirstK(b, S.tbs.s, S.tbs.f, 11)
                 hv == Len(ts) >= 1 /\ ts[1].tag = 160
                 vn == IF hv THEN SmallInt(b, FirstOr(b, ts[1])) ELSE [ok |-> TRUE, v |-> 0]
                 p  == IF hv THEN SubSeq(ts, 2, Len(ts)) ELSE ts
             IN  IF Len(p) < 6 \/ ~vn.ok THEN NoObj
                 ELSE LET iss == NameOf(b, p[3])
                          sub == NameOf(b, p[5])
                          vs  == IF p[4].tag = TSeq THEN FirstK(b, p[4].s, p[4].f, 3) ELSE <<>>
                          nb  == IF Len(vs) >= 2 THEN TimeOf(b, vs[1]) ELSE NoTime
                          na  == IF Len(vs) >= 2 THEN TimeOf(b, vs[2]) ELSE NoTime
                          pk  == SpkiOf(b, p[6])
                          opt == SubSeq(p, 7, Len(p))
                          \* optional elements in their order; what is out of order is not read
                          o1  == IF opt # <<>> THEN (IF opt[1].tag = 129 THEN SubSeq(opt, 2, Len(opt)) ELSE opt) ELSE opt
                          o2  == IF o1 # <<>> THEN (IF o1[1].tag = 130 THEN SubSeq(o1, 2, Len(o1)) ELSE o1) ELSE o1
                          xt  == IF o2 # <<>> THEN (IF o2[1].tag = 163 THEN <<o2[1]>> ELSE <<>>) ELSE <<>>
                          ex  == IF vn.v # 2 \/ xt = <<>> THEN [ok |-> TRUE, strict |-> TRUE, v |-> <<>>]
                                 ELSE ExtsOf(b, FirstOr(b, xt[1]))
                          F   == IF ex.ok THEN ReadExts(ex.v) ELSE F0
                      IN  IF \/ vn.v \notin 0..2 \/ ~IntNode(b, p[1]) \/ ~AlgIdOk(b, p[2])
                             \/ Body(b, p[2]) # Body(b, S.ai)
                             \/ ~iss.ok \/ ~sub.ok \/ ~nb.ok \/ ~na.ok \/ ~pk.ok \/ ~ex.ok \/ ~F.ok
                          THEN NoObj
                          ELSE [ok |-> TRUE,
                                strict |-> /\ S.strict /\ DeepPlain(b, S.tbs)
                                           /\ hv => (vn.v # 0 /\ Len(Kids(b, ts[1])) = 1)
                                           /\ iss.strict /\ sub.strict /\ nb.strict /\ na.strict /\ Len(vs) = 2
                                           /\ pk.strict /\ ex.strict /\ F.strict
                                           /\ vn.v < 2 => xt = <<>>
                                           /\ [j \in 1..Len(opt) |-> opt[j].tag] \in
                                                {<<>>, <<129>>, <<130>>, <<129,130>>, <<163>>, <<129,163>>, <<130,163>>, <<129,130,163>>}
                                           /\ (vn.v = 0 => opt = <<>>),
                                v |-> [version |-> vn.v + 1, serial |-> IntVal(Body(b, p[1])), alg |-> SigAlgOf(b, p[2]), algsure |-> AlgSure(b, p[2]),
                                       issuer |-> iss.v, subject |-> sub.v, nb |-> nb.t, na |-> na.t, key |-> pk.key,
                                       exts |-> ex.v, sig |-> S.sig, rawtbs |-> Raw(b, S.tbs), rawissuer |-> Raw(b, p[3]),
                                       rawsubject |-> Raw(b, p[5]), rawspki |-> Raw(b, p[6]), bits |-> pk.bits, f |-> F]]

\* what a caller sees of a certificate; the same record the driver makes of the code's answer
CertSeen(v) == [version |-> v.version, serial |-> v.serial, alg |-> v.alg, issuer |-> FlatName(v.issuer),
                subject |-> FlatName(v.subject), nb |-> v.nb, na |-> v.na, key |-> v.key, exts |-> v.exts, sig |-> v.sig,
                rawtbs |-> v.rawtbs, rawissuer |-> v.rawissuer, rawsubject |-> v.rawsubject, rawspki |-> v.rawspki,
                ku |-> v.f.ku, bcv |-> v.f.bcv, isca |-> v.f.isca, mpl |-> v.f.mpl, mplz |-> v.f.mplz, dns |-> v.f.dns,
                emails |-> v.f.emails, ips |-> v.f.ips, uris |-> v.f.uris, permcrit |-> v.f.permcrit, pdns |-> v.f.pdns,
                edns |-> v.f.edns, pip |-> v.f.pip, eip |-> v.f.eip, pemail |-> v.f.pemail, eemail |-> v.f.eemail,
                puri |-> v.f.puri, euri |-> v.f.euri, crldp |-> v.f.crldp, ocsp |-> v.f.ocsp, issuers |-> v.f.issuers,
                ski |-> v.f.ski, aki |-> v.f.aki, eku |-> v.f.eku, ueku |-> v.f.ueku, policies |-> v.f.policies,
                unhandled |-> v.f.unhandled]
\* the first field in which two such records differ ("" if none)
Differ(a1, b1) == IF DOMAIN a1 # DOMAIN b1 THEN "fields"
                  ELSE LET d == {k \in DOMAIN a1 : a1[k] # b1[k]} IN IF d = {} THEN "" ELSE CHOOSE k \in d : TRUE

----------------------------------------------------------------------------
(* when a signature check succeeds *)
\* a certificate (as seen) whose key may have signed certificates
MayIssue(P) == /\ P.version = 3 => P.bcv
               /\ P.bcv => P.isca
               /\ P.ku # 0 => (P.ku \div 32) % 2 = 1
CheckFrom(C, P) == MayIssue(P) /\ Verifies(C.alg, P.key, C.rawtbs, C.sig)
MayIssueCrl(P) == (P.ku \div 64) % 2 = 1 /\ P.ski # <<>>

----------------------------------------------------------------------------
(* certificate requests *)
LOCAL Csr0 == [ok |-> FALSE, exts |-> <<>>]
\* an attribute: [oid, values (elements)], or not one
AttrVals(b, nd) == LET ks == InSeq(b, nd, 2)
                       vs == IF Len(ks) = 2 /\ ks[1].tag = TOid /\ ks[2].tag = TSet THEN Kids(b, ks[2]) ELSE <<>>
                   IN  IF AllOk(vs) THEN vs ELSE <<>>
AttrOid(b, nd) == LET ks == InSeq(b, nd, 1) IN IF Len(ks) = 1 /\ ks[1].tag = TOid THEN Body(b, ks[1]) ELSE <<>>
\* the attributes that are lists of (identifier, value) pairs are shown as such, octets as octets: "must" be, must "no"t be, or "may" be
AttrFit(b, nd) ==
    LET vs == AttrVals(b, nd)
        pair(e) == LET ks == InSeq(b, e, 3) IN Len(ks) \in 2..3 /\ OidOk(Body(b, ks[1])) /\ ArcsSmall(Body(b, ks[1]))
                                               /\ IsSeqOf(b, e, IF Len(ks) = 2 THEN <<TOid, TOctets>> ELSE <<TOid, TBool, TOctets>>)
    IN  IF ~DeepPlain(b, nd) \/ ~IsSeqOf(b, nd, <<TOid, TSet>>) \/ ~OidOk(AttrOid(b, nd)) \/ ~ArcsSmall(AttrOid(b, nd)) THEN "may"
        ELSE IF \E v \in ToSet(vs) : v.tag # TSeq THEN "no"
        ELSE IF \A v \in ToSet(vs) : \A e \in ToSet(Kids(b, v)) : pair(e) THEN "must" ELSE "may"
AttrPairs(b, nd) ==
    LET vs == AttrVals(b, nd)
        pair(e) == LET ks == InSeq(b, e, 2) IN [oid |-> Body(b, ks[1]), val |-> IF ks[2].tag = TOctets THEN Body(b, ks[2]) ELSE <<>>]
    IN  [oid |-> AttrOid(b, nd), values |-> [j \in 1..Len(vs) |-> LET es == Kids(b, vs[j]) IN [k \in 1..Len(es) |-> pair(es[k])]]]
CsrRead(b) ==
    LET S == Signed(b)
    IN  IF ~S.ok THEN NoObj
        ELSE LET ts == FirstK(b, S.tbs.s, S.tbs.f, 5)
             IN  IF Len(ts) < 4 THEN NoObj
                 ELSE LET sub == NameOf(b, ts[2])
                          pk  == SpkiOf(b, ts[3])
                          vn  == SmallInt(b, ts[1])
                          as  == IF ts[4].tag = 160 THEN Kids(b, ts[4]) ELSE <<BadNode>>
                      IN  IF ~sub.shape \/ ~pk.ok \/ ~IntNode(b, ts[1]) \/ ~AllOk(as) THEN NoObj
                          ELSE LET xr == SelectSeq(as, LAMBDA nd : AttrOid(b, nd) = OExtReq /\ AttrVals(b, nd) # <<>>)
                                   xs == [j \in 1..Len(xr) |-> ExtsOf(b, AttrVals(b, xr[j])[1])]
                                   es == FlattenSeq([j \in 1..Len(xs) |-> xs[j].v])
                                   sans == SelectSeq(es, LAMBDA e : e.oid = OSan)
                                   F  == FoldLeft(ReadExt, F0, sans)
                                   other == SelectSeq(as, LAMBDA nd : AttrOid(b, nd) # OExtReq)
                               IN  IF \E j \in 1..Len(xs) : ~xs[j].ok THEN NoObj
                                   ELSE IF ~F.ok THEN NoObj
                                   ELSE [ok |-> TRUE,
                                         strict |-> /\ S.strict /\ DeepPlain(b, S.tbs) /\ Len(ts) = 4 /\ vn.ok
                                                    /\ sub.strict /\ pk.strict /\ F.strict
                                                    /\ \A j \in 1..Len(as) : IsSeqOf(b, as[j], <<TOid, TSet>>)
                                                    /\ Len(xr) <= 1 /\ \A j \in 1..Len(xs) : xs[j].strict,
                                         v |-> [version |-> vn.v, alg |-> SigAlgOf(b, S.ai), algsure |-> AlgSure(b, S.ai), named |-> sub.strict, subject |-> sub.v, key |-> pk.key,
                                                exts |-> es, dns |-> F.dns, emails |-> F.emails, ips |-> F.ips, uris |-> F.uris,
                                                sig |-> S.sig, rawtbs |-> Raw(b, S.tbs), rawsubject |-> Raw(b, ts[2]),
                                                rawspki |-> Raw(b, ts[3]),
                                                pairsure |-> \A j \in 1..Len(as) : AttrFit(b, as[j]) # "may",
                                                pairs |-> LET fit == SelectSeq(as, LAMBDA nd : AttrFit(b, nd) = "must")
                                                          IN  [j \in 1..Len(fit) |-> AttrPairs(b, fit[j])],
                                                reqs |-> [j \in 1..Len(xr) |-> LET vs == AttrVals(b, xr[j]) IN [k \in 1..Len(vs) |-> ExtsOf(b, vs[k])]],
                                                attrs |-> [j \in 1..Len(other) |-> Raw(b, other[j])]]]
CsrSeen(v) == [version |-> v.version, alg |-> v.alg, subject |-> FlatName(v.subject), key |-> v.key, exts |-> v.exts, dns |-> v.dns,
               emails |-> v.emails, ips |-> v.ips, uris |-> v.uris, sig |-> v.sig, rawtbs |-> v.rawtbs,
               rawsubject |-> v.rawsubject, rawspki |-> v.rawspki, attrs |-> v.pairs]
\* what a reader may show otherwise is left out
CsrSure(v, seen) == IF v.pairsure THEN seen ELSE [seen EXCEPT !.attrs = v.pairs]

----------------------------------------------------------------------------
(* revocation lists *)
LOCAL EntryOf(b, nd) ==
    LET ks == InSeq(b, nd, 3)
        bad == [ok |-> FALSE, strict |-> FALSE, v |-> [serial |-> [neg |-> FALSE, mag |-> <<>>], t |-> <<0,0>>, exts |-> <<>>]]
    IN  IF Len(ks) < 2 THEN bad
        ELSE LET t == TimeOf(b, ks[2])
                 x == IF Len(ks) < 3 THEN [ok |-> TRUE, strict |-> TRUE, v |-> <<>>]
                      ELSE IF ks[3].tag # TSeq THEN [ok |-> TRUE, strict |-> FALSE, v |-> <<>>] ELSE ExtsOf(b, ks[3])
             IN  IF ~IntNode(b, ks[1]) \/ ~t.ok \/ ~x.ok THEN bad
                 ELSE [ok |-> TRUE, strict |-> t.strict /\ x.strict /\ Len(Kids(b, nd)) = Len(ks),
                       v |-> [serial |-> IntVal(Body(b, ks[1])), t |-> t.t, exts |-> x.v]]
CrlRead(b) ==
    LET S == Signed(b)
    IN  IF ~S.ok THEN NoObj
        ELSE LET ts == FirstK(b, S.tbs.s, S.tbs.f, 8)
                 hv == Len(ts) >= 1 /\ ts[1].tag = TInteger
                 vn == IF hv THEN SmallInt(b, ts[1]) ELSE [ok |-> TRUE, v |-> 0]
                 p  == IF hv THEN SubSeq(ts, 2, Len(ts)) ELSE ts
             IN  IF Len(p) < 3 \/ ~vn.ok THEN NoObj
                 ELSE LET iss == NameOf(b, p[2])
                          tu  == TimeOf(b, p[3])
                          hn  == Len(p) >= 4 /\ p[4].tag \in {TUTCTime, TGenTime}
                          nu  == IF hn THEN TimeOf(b, p[4]) ELSE [ok |-> TRUE, strict |-> TRUE, t |-> <<0, 0>>]
                          q   == SubSeq(p, IF hn THEN 5 ELSE 4, Len(p))
                          hr  == Len(q) >= 1 /\ q[1].tag = TSeq
                          rs  == IF hr THEN Kids(b, q[1]) ELSE <<>>
                          es  == [j \in 1..Len(rs) |-> IF rs[j].ok /\ rs[j].tag = TSeq THEN EntryOf(b, rs[j]) ELSE [ok |-> FALSE]]
                          q2  == IF hr THEN SubSeq(q, 2, Len(q)) ELSE q
                          hx  == Len(q2) >= 1 /\ q2[1].tag = 160
                          \* something else where the extensions are expected is not read
                          xs  == IF hx THEN FirstOr(b, q2[1]) ELSE BadNode
                          ex  == IF ~hx THEN [ok |-> TRUE, strict |-> TRUE, v |-> <<>>]
                                 ELSE IF ~xs.ok \/ xs.tag # TSeq THEN [ok |-> TRUE, strict |-> FALSE, v |-> <<>>]
                                 ELSE ExtsOf(b, xs)
                      IN  IF \/ ~AlgIdOk(b, p[1]) \/ ~iss.shape \/ ~tu.ok \/ ~nu.ok \/ ~ex.ok
                             \/ \E j \in 1..Len(es) : ~es[j].ok
                          THEN NoObj
                          ELSE [ok |-> TRUE,
                                strict |-> /\ S.strict /\ DeepPlain(b, S.tbs) /\ (hv => vn.v = 1)
                                           /\ iss.strict /\ tu.strict /\ nu.strict /\ ex.strict
                                           /\ \A j \in 1..Len(es) : es[j].strict
                                           /\ Len(q2) = (IF hx THEN 1 ELSE 0) /\ (hr => rs # <<>>)
                                           /\ Body(b, p[1]) = Body(b, S.ai),
                                v |-> [version |-> vn.v, alg |-> SigAlgOf(b, p[1]), outer |-> SigAlgOf(b, S.ai),
                                       algsure |-> AlgSure(b, p[1]) /\ AlgSure(b, S.ai),
                                       extsure |-> AllOk(Elements(b, S.tbs.s, S.tbs.f)) /\ (hx => (xs.ok /\ xs.f = q2[1].f)),
                                       same |-> Body(b, p[1]) = Body(b, S.ai),
                                       named |-> iss.strict, issuer |-> iss.v, rawissuer |-> Raw(b, p[2]), tu |-> tu.t, nu |-> nu.t, hasnu |-> hn,
                                       revoked |-> [j \in 1..Len(es) |-> es[j].v], exts |-> ex.v, sig |-> S.sig,
                                       rawtbs |-> Raw(b, S.tbs)]]
CrlSeen(v) == [version |-> v.version, issuer |-> FlatName(v.issuer), tu |-> v.tu, nu |-> v.nu, revoked |-> v.revoked,
               exts |-> v.exts, sig |-> v.sig, rawtbs |-> v.rawtbs, alg |-> v.alg, outer |-> v.outer]
CrlVerifies(v, key) == v.same /\ Verifies(v.outer, key, v.rawtbs, v.sig)
=============================================================================
