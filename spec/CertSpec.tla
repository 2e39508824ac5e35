------------------------------ MODULE CertSpec ------------------------------
(* What creating a certificate, request or revocation list must give for a  *)
(* template, signer and issuer.                                             *)
EXTENDS X509, FiniteSets, Bitwise

\* ---- names asked for: the attributes pkix.Name keeps in fields, each kind of
\* attribute one set, in this order; extra attributes come last and replace fields of the same kind
LOCAL FieldOids == <<6, 10, 11, 7, 8, 9, 17>>
NameRaw(nm) == nm.raw # <<>>
AskedName(nm) ==
    LET fs == << nm.c, nm.o, nm.ou, nm.l, nm.st, nm.street, nm.pc >>
        over(o) == \E e \in ToSet(nm.extra) : e.oid = o
        multi == [j \in 1..7 |-> IF over(ONameAttr(FieldOids[j])) THEN <<>>
                                 ELSE [i \in 1..Len(fs[j]) |-> [oid |-> ONameAttr(FieldOids[j]), val |-> fs[j][i]]]]
        one(o, v) == IF v = <<>> \/ over(o) THEN <<>> ELSE << [oid |-> o, val |-> v] >>
        sets == multi \o << one(ONameAttr(3), nm.cn), one(ONameAttr(5), nm.sn) >>
                \o [j \in 1..Len(nm.extra) |-> << nm.extra[j] >>]
    IN  SelectSeq(sets, LAMBDA s : s # <<>>)
AskedRdns(nm) == IF NameRaw(nm) THEN NameOf(nm.raw, Whole(nm.raw)).v ELSE AskedName(nm)
\* the same sets; their order and the order inside them are the writer's choice
SameBag(s, t) == Len(s) = Len(t) /\ ToSet(s) = ToSet(t)
SameName(r1, r2) == Len(r1) = Len(r2) /\ {<<Len(s), ToSet(s)>> : s \in ToSet(r1)} = {<<Len(s), ToSet(s)>> : s \in ToSet(r2)}
EmptyName(nm) == IF NameRaw(nm) THEN nm.raw = <<48, 0>> ELSE AskedName(nm) = <<>>

\* ---- algorithms
DefaultAlg(key) ==
    CASE key.kind = "rsa" -> "SHA256-RSA" [] key.kind = "sm2" -> "SM2-SM3" [] key.kind = "ed25519" -> "Ed25519"
      [] key.kind = "ecdsa" -> (CASE key.curve = "P-384" -> "ECDSA-SHA384" [] key.curve = "P-521" -> "ECDSA-SHA512" [] OTHER -> "ECDSA-SHA256")
      [] OTHER -> ""
AlgFor(asked, key) == IF asked = "" THEN DefaultAlg(key) ELSE asked
AlgFits(asked, key) == LET a1 == AlgFor(asked, key) IN Alg(a1).kind # "none" /\ Alg(a1).kind = key.kind
\* an RSA key long enough for the encoding
RoomFor(alg, key) ==
    key.kind = "rsa" => LET g == Alg(alg) IN
        IF g.pss THEN Len(key.n) >= 2 * HashLen(g.hash) + 3
        ELSE Len(key.n) >= Len(DigestPrefix(g.hash)) + HashLen(g.hash) + 11
TimeWritable(t) == t[1] >= DayNumber(0, 1, 1) /\ t[1] <= DayNumber(9999, 12, 31)

\* ---- addresses
V4InV6 == <<0,0,0,0,0,0,0,0,0,0,255,255>>
To4(ip) == IF Len(ip) = 16 /\ SubSeq(ip, 1, 12) = V4InV6 THEN SubSeq(ip, 13, 16) ELSE ip
MaskedNet(r) == LET ip == IF Len(r.mask) = 4 THEN To4(r.ip) ELSE r.ip
                IN  [j \in 1..Len(ip) |-> ip[j] & r.mask[j]] \o r.mask
MapS(s, F(_)) == [j \in 1..Len(s) |-> F(s[j])]

----------------------------------------------------------------------------
(* certificates: T template, signer and pub keys, P the parent *)
NcAsked(T) == T.pdns # <<>> \/ T.edns # <<>> \/ T.pip # <<>> \/ T.eip # <<>> \/ T.pemail # <<>> \/ T.eemail # <<>> \/ T.puri # <<>> \/ T.euri # <<>>
SanAsked(T) == T.dns # <<>> \/ T.emails # <<>> \/ T.ips # <<>> \/ T.uris # <<>>
ExtraOids(T) == {e.oid : e \in ToSet(T.extra)}
\* the parent's name differs from the template's
OtherIssuer(T, P) ==
    IF NameRaw(P.name) /\ NameRaw(T.subject) THEN P.name.raw # T.subject.raw
    ELSE ~SameName(AskedRdns(P.name), AskedRdns(T.subject))
AkiFor(T, P) == IF OtherIssuer(T, P) /\ P.ski # <<>> THEN P.ski ELSE T.aki
SkiFor(T, bits) == IF T.ski = <<>> /\ T.isca THEN SHA1(bits) ELSE T.ski
\* the extensions generated, with their critical flags, before the extra ones
GenExts(T, P) ==
    LET x == ExtraOids(T)
    IN  {p \in { <<OKu, TRUE, T.ku # 0>>, <<OEku, FALSE, T.eku # <<>> \/ T.ueku # <<>> >>, <<OBc, TRUE, T.bcv>>,
                 <<OSki, FALSE, T.ski # <<>> \/ T.isca>>, <<OAki, FALSE, AkiFor(T, P) # <<>> >>,
                 <<OAia, FALSE, T.ocsp # <<>> \/ T.issuers # <<>> >>, <<OSan, EmptyName(T.subject), SanAsked(T)>>,
                 <<OPol, FALSE, T.policies # <<>> >>, <<ONc, T.permcrit, NcAsked(T)>>, <<OCrlDp, FALSE, T.crldp # <<>> >> } :
          p[3] /\ p[1] \notin x}
\* what the extensions must say
AskedF(T, P, bits) ==
    LET X == ReadExts(T.extra)
        x == ExtraOids(T)
        is(o) == o \in x
        g == [X EXCEPT !.ok = TRUE]
        g1 == IF is(OKu) THEN g ELSE [g EXCEPT !.ku = T.ku]
        g2 == IF is(OEku) THEN g1 ELSE [g1 EXCEPT !.eku = T.eku, !.ueku = T.ueku]
        pl == IF T.mpl = 0 /\ ~T.mplz THEN -1 ELSE T.mpl
        g3 == IF is(OBc) \/ ~T.bcv THEN g2 ELSE [g2 EXCEPT !.bcv = TRUE, !.isca = T.isca, !.mpl = pl, !.mplz = (pl = 0)]
        g4 == IF is(OSki) THEN g3 ELSE [g3 EXCEPT !.ski = SkiFor(T, bits)]
        g5 == IF is(OAki) THEN g4 ELSE [g4 EXCEPT !.aki = AkiFor(T, P)]
        g6 == IF is(OAia) THEN g5 ELSE [g5 EXCEPT !.ocsp = T.ocsp, !.issuers = T.issuers]
        g7 == IF is(OSan) THEN g6 ELSE [g6 EXCEPT !.dns = T.dns, !.emails = T.emails, !.ips = MapS(T.ips, To4), !.uris = T.uris]
        g8 == IF is(OPol) THEN g7 ELSE [g7 EXCEPT !.policies = T.policies]
        g9 == IF is(ONc) \/ ~NcAsked(T) THEN g8
              ELSE [g8 EXCEPT !.permcrit = T.permcrit, !.pdns = T.pdns, !.edns = T.edns, !.pip = MapS(T.pip, MaskedNet),
                              !.eip = MapS(T.eip, MaskedNet), !.pemail = T.pemail, !.eemail = T.eemail, !.puri = T.puri, !.euri = T.euri]
    IN  IF is(OCrlDp) THEN g9 ELSE [g9 EXCEPT !.crldp = T.crldp]
FNames == DOMAIN F0 \ {"ok", "strict"}

\* a name no DER string can carry
NameWritable(nm) == NameRaw(nm) \/ \A s \in ToSet(AskedName(nm)) : \A a1 \in ToSet(s) : Utf8Ok(a1.val, 1)
NonAscii(ss) == \E s \in ToSet(ss) : ~Ascii(s)
\* creation must be refused
CertImpossible(T, S, pub, P) ==
    \/ S.mode \in {"nosigner", "fails"}
    \/ ~T.hasserial
    \/ S.key.kind = "none" \/ pub.kind = "none" \/ ~AlgFits(T.alg, S.key)
    \/ (T.bcv /\ ~T.isca /\ T.mpl # -1 /\ (T.mpl # 0 \/ T.mplz))
    \/ (OSan \notin ExtraOids(T) /\ (NonAscii(T.dns) \/ NonAscii(T.emails) \/ NonAscii(T.uris)))
    \/ (ONc \notin ExtraOids(T) /\ (NonAscii(T.pdns) \/ NonAscii(T.edns) \/ NonAscii(T.pemail) \/ NonAscii(T.eemail)
                                     \/ NonAscii(T.puri) \/ NonAscii(T.euri)))
    \/ (OEku \notin ExtraOids(T) /\ \E u \in ToSet(T.eku) : u \notin 0..(Len(EkuOids) - 1))
    \/ (P.key.kind # "none" /\ P.key # S.key)
    \/ ~TimeWritable(T.nb) \/ ~TimeWritable(T.na) \/ ~NameWritable(T.subject) \/ ~NameWritable(P.name)
    \/ (S.mode = "garbage" /\ AlgFor(T.alg, S.key) \notin Insecure)
    \/ (AlgFits(T.alg, S.key) /\ ~RoomFor(AlgFor(T.alg, S.key), S.key))

\* "" or what is wrong with the certificate der
CertAnswers(T, S, pub, P, der) ==
    LET R == CertRead(der)
    IN  IF ~R.ok THEN "created: not a certificate"
        ELSE LET v == R.v
                 A == AskedF(T, P, v.bits)
                 wrong == {k \in FNames : k # "unhandled" /\ A[k] # v.f[k]}
                 gen == GenExts(T, P)
             IN  IF v.version # 3 THEN "created: version"
                 ELSE IF v.serial # T.serial THEN "created: serial"
                 ELSE IF ~SameName(v.subject, AskedRdns(T.subject)) \/ (NameRaw(T.subject) /\ v.rawsubject # T.subject.raw) THEN "created: subject"
                 ELSE IF ~SameName(v.issuer, AskedRdns(P.name)) \/ (NameRaw(P.name) /\ v.rawissuer # P.name.raw) THEN "created: issuer"
                 ELSE IF v.nb # T.nb \/ v.na # T.na THEN "created: validity"
                 ELSE IF v.key # pub THEN "created: public key"
                 ELSE IF v.alg # AlgFor(T.alg, S.key) THEN "created: signature algorithm"
                 ELSE IF wrong # {} THEN "created: " \o (CHOOSE k \in wrong : TRUE)
                 ELSE IF \/ Len(v.exts) # Cardinality(gen) + Len(T.extra)
                         \/ {<<e.oid, e.crit>> : e \in ToSet(v.exts)} # {<<p[1], p[2]>> : p \in gen} \cup {<<e.oid, e.crit>> : e \in ToSet(T.extra)}
                         \/ \E e \in ToSet(T.extra) : e \notin ToSet(v.exts) THEN "created: extensions"
                 ELSE IF ~R.strict /\ A.strict /\ (\A u \in ToSet(T.uris) : PlainUri(u)) THEN "created: not a conforming encoding"
                 ELSE IF S.mode # "garbage" /\ ~SigValid(v.alg, S.key, v.rawtbs, v.sig) THEN "created: signature"
                 ELSE ""

----------------------------------------------------------------------------
(* requests *)
\* the attributes that request extensions, as asked: each a list of values, each value a list of extensions.
\* The extensions of the template join the first value of the first such attribute, but for those some value
\* of that attribute already gives; there they have no place for the critical flag.
ReqAttrs(T) == SelectSeq(T.attrs, LAMBDA a1 : a1.oid = OExtReq /\ a1.values # <<>>)
Given(vs) == [j \in 1..Len(vs) |-> [i \in 1..Len(vs[j]) |-> [oid |-> vs[j][i].oid, crit |-> FALSE, san |-> FALSE, val |-> vs[j][i].val]]]
CsrReqs(T) ==
    LET san == IF SanAsked(T) /\ OSan \notin ExtraOids(T) THEN << [oid |-> OSan, crit |-> FALSE, san |-> TRUE, val |-> <<>>] >> ELSE <<>>
        gen == san \o [j \in 1..Len(T.extra) |-> [oid |-> T.extra[j].oid, crit |-> T.extra[j].crit, san |-> FALSE, val |-> T.extra[j].val]]
        rs == ReqAttrs(T)
    IN  IF rs = <<>> THEN (IF gen = <<>> THEN <<>> ELSE << <<gen>> >>)
        ELSE LET vs == Given(rs[1].values)
                 has == UNION {{a1.oid : a1 \in ToSet(vs[j])} : j \in 1..Len(vs)}
                 add == SelectSeq(gen, LAMBDA e : e.oid \notin has)
             IN  << <<vs[1] \o [j \in 1..Len(add) |-> [add[j] EXCEPT !.crit = FALSE]]>> \o Tail(vs) >>
                 \o [j \in 1..(Len(rs) - 1) |-> Given(rs[j + 1].values)]
\* one value each: the extensions that are read back
OneValued(rs) == \A j \in 1..Len(rs) : Len(rs[j]) = 1
AllExts(rs) == FlattenSeq([j \in 1..Len(rs) |-> FlattenSeq(rs[j])])
\* every extension asked for is there, and there are as many
ExtsMet(want, have) == Len(want) = Len(have) /\ \A e \in ToSet(want) : \E d \in ToSet(have) : d.oid = e.oid /\ d.crit = e.crit /\ (e.san \/ d.val = e.val)
CsrImpossible(T, S) ==
    \/ S.mode \in {"nosigner", "fails"} \/ S.key.kind = "none" \/ ~AlgFits(T.alg, S.key) \/ ~NameWritable(T.subject)
    \/ (OSan \notin ExtraOids(T) /\ (NonAscii(T.dns) \/ NonAscii(T.emails) \/ NonAscii(T.uris)))
    \/ (AlgFits(T.alg, S.key) /\ ~RoomFor(AlgFor(T.alg, S.key), S.key))
\* the attribute as DER: SEQUENCE { oid, SET OF (SEQUENCE OF SEQUENCE { oid, value }) }, values as given
AttrSays(b, nd, a1) ==
    LET vs == AttrVals(b, nd)
        pair(e) == LET ks == InSeq(b, e, 2) IN IF Len(ks) = 2 THEN [oid |-> Body(b, ks[1]), val |-> Body(b, ks[2])] ELSE [oid |-> <<>>, val |-> <<>>]
        val(v) == LET es == Kids(b, v) IN [j \in 1..Len(es) |-> pair(es[j])]
    IN  /\ AttrOid(b, nd) = a1.oid
        /\ SameBag([j \in 1..Len(vs) |-> val(vs[j])], a1.values)
CsrAnswers(T, S, der) ==
    LET R == CsrRead(der)
    IN  IF ~R.ok THEN "created: not a certificate request"
        ELSE LET v == R.v
                 asked == CsrReqs(T)
                 want == AllExts(asked)
                 single == OneValued(asked)
                 X == FoldLeft(ReadExt, F0, SelectSeq([j \in 1..Len(want) |-> [oid |-> want[j].oid, crit |-> want[j].crit, val |-> want[j].val]],
                                                      LAMBDA e : e.oid = OSan /\ e.val # <<>>))
                 own == \E e \in ToSet(want) : e.san
                 oth == SelectSeq(T.attrs, LAMBDA a1 : a1.oid # OExtReq)
             IN  IF v.version # 0 THEN "created: version"
                 ELSE IF ~SameName(v.subject, AskedRdns(T.subject)) \/ (NameRaw(T.subject) /\ v.rawsubject # T.subject.raw) THEN "created: subject"
                 ELSE IF v.key # S.key THEN "created: public key"
                 ELSE IF v.alg # AlgFor(T.alg, S.key) THEN "created: signature algorithm"
                 ELSE IF single /\ Len(v.exts) # Len(want) THEN "created: number of requested extensions"
                 ELSE IF single /\ ~ExtsMet(want, v.exts) THEN "created: requested extensions"
                 ELSE IF Len(v.reqs) # Len(asked) THEN "created: number of attributes requesting extensions"
                 ELSE IF \E j \in 1..Len(asked) : Len(v.reqs[j]) # Len(asked[j]) \/ (\E k \in 1..Len(asked[j]) : ~v.reqs[j][k].ok)
                      THEN "created: attributes requesting extensions"
                 ELSE IF ~ExtsMet(want, AllExts([j \in 1..Len(v.reqs) |-> [k \in 1..Len(v.reqs[j]) |-> v.reqs[j][k].v]]))
                      THEN "created: requested extensions, all values"
                 ELSE IF single /\ own /\ (v.dns # T.dns \/ v.emails # T.emails \/ v.ips # MapS(T.ips, To4) \/ v.uris # T.uris) THEN "created: names"
                 ELSE IF single /\ ~own /\ X.ok /\ (v.dns # X.dns \/ v.emails # X.emails \/ v.ips # X.ips \/ v.uris # X.uris) THEN "created: names of the extension given"
                 ELSE IF Len(v.attrs) # Len(oth) THEN "created: number of attributes"
                 ELSE IF \E j \in 1..Len(oth) : ~\E i \in 1..Len(v.attrs) : AttrSays(v.attrs[i], Whole(v.attrs[i]), oth[j]) THEN "created: attributes"
                 ELSE IF S.mode # "garbage" /\ ~SigValid(v.alg, S.key, v.rawtbs, v.sig) THEN "created: signature"
                 ELSE ""

----------------------------------------------------------------------------
(* revocation lists: T [api, alg, entries, hasnumber, number, tu, nu, extra], issuer P [name, ski, ku, key], signer S *)
CrlImpossible(T, S, P) ==
    \/ S.mode \in {"nosigner", "fails"} \/ S.key.kind = "none" \/ ~AlgFits(T.alg, S.key)
    \/ ~TimeWritable(T.tu) \/ ~TimeWritable(T.nu) \/ ~NameWritable(P.name)
    \/ (AlgFits(T.alg, S.key) /\ ~RoomFor(AlgFor(T.alg, S.key), S.key))
    \/ T.api = "list" /\ \/ (P.ku \div 64) % 2 = 0 \/ P.ski = <<>> \/ ~T.hasnumber \/ ~TLeq(T.tu, T.nu)
CrlAnswers(T, S, P, der) ==
    LET R == CrlRead(der)
    IN  IF ~R.ok THEN "created: not a revocation list"
        ELSE LET v == R.v
                 akis == SelectSeq(v.exts, LAMBDA e : e.oid = OAki)
                 nums == SelectSeq(v.exts, LAMBDA e : e.oid = OCrlNum)
                 list == T.api = "list"
                 na == (IF P.ski = <<>> THEN 0 ELSE 1) + (IF list THEN 1 ELSE 0)
             IN  IF v.version # 1 THEN "created: version"
                 ELSE IF ~SameName(v.issuer, AskedRdns(P.name)) \/ (NameRaw(P.name) /\ v.rawissuer # P.name.raw) THEN "created: issuer"
                 ELSE IF v.tu # T.tu \/ ~v.hasnu \/ v.nu # T.nu THEN "created: update times"
                 ELSE IF v.revoked # T.entries THEN "created: revoked entries"
                 ELSE IF ~v.same \/ v.alg # AlgFor(T.alg, S.key) THEN "created: signature algorithm"
                 ELSE IF Len(v.exts) # na + (IF list THEN Len(T.extra) ELSE 0) THEN "created: number of extensions"
                 ELSE IF P.ski # <<>> /\ (akis = <<>> \/ akis[1].crit \/ ReadExt(F0, akis[1]).aki # P.ski) THEN "created: key identifier"
                 ELSE IF list /\ (nums = <<>> \/ nums[1].crit \/ nums[1].val # EncInt(T.number)) THEN "created: number"
                 ELSE IF list /\ \E e \in ToSet(T.extra) : e \notin ToSet(v.exts) THEN "created: extra extensions"
                 ELSE IF ~R.strict /\ ~(T.api = "crl" /\ T.entries = <<>>) THEN "created: not a conforming encoding"
                 ELSE IF S.mode # "garbage" /\ ~SigValid(v.alg, S.key, v.rawtbs, v.sig) THEN "created: signature"
                 ELSE ""
=============================================================================
