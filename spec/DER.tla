-------------------------------- MODULE DER --------------------------------
(* A strict reader for ASN.1 DER, used as an oracle independent of the      *)
(* parsers under test.  A node is a position in a byte sequence:            *)
(* [ok, tag, at, s, f]: identifier octet, first octet of the element, first *)
(* and last octet of the contents.  Definite, minimal lengths.  Tag numbers *)
(* above 30 are read but not told apart: their tag is HighTag.              *)
EXTENDS Integers, Sequences, SequencesExt

BadNode == [ok |-> FALSE, tag |-> -1, at |-> 0, s |-> 1, f |-> 0]

HighTag == 256
\* the contents of the element at octet i whose length octets begin at octet k
LOCAL Lengthed(b, i, k, e, tag) ==
    IF k > e THEN BadNode
    ELSE LET l0  == b[k]
             nl  == IF l0 < 128 THEN 0 ELSE l0 - 128
         IN  IF l0 = 128 \/ nl > 3 \/ k + nl > e THEN BadNode
             ELSE LET len == IF nl = 0 THEN l0
                             ELSE FoldLeft(LAMBDA acc, j : acc * 256 + b[k + j], 0,
                                           [j \in 1..nl |-> j])
                      s == k + 1 + nl
                  IN  IF \/ nl > 0 /\ (b[k + 1] = 0 \/ len < 128)
                         \/ s + len - 1 > e
                      THEN BadNode
                      ELSE [ok |-> TRUE, tag |-> tag, at |-> i, s |-> s, f |-> s + len - 1]
\* the element starting at octet i of b and ending not after octet e
TLV(b, i, e) ==
    IF i + 1 > e THEN BadNode
    ELSE IF b[i] % 32 # 31 THEN Lengthed(b, i, i + 1, e, b[i])
    ELSE LET k == IF b[i + 1] < 128 THEN i + 2
                  ELSE IF i + 2 <= e /\ b[i + 2] < 128 THEN i + 3
                  ELSE IF i + 3 <= e /\ b[i + 3] < 128 THEN i + 4 ELSE i + 5
         IN  Lengthed(b, i, k, e, HighTag)

Body(b, nd) == SubSeq(b, nd.s, nd.f)
Raw(b, nd)  == SubSeq(b, nd.at, nd.f)
BLen(nd)    == nd.f - nd.s + 1

\* the elements filling octets i..e of b; <<BadNode>> at the end if they do not
RECURSIVE Elements(_, _, _)
Elements(b, i, e) ==
    IF i > e THEN <<>>
    ELSE LET nd == TLV(b, i, e)
         IN  IF ~nd.ok THEN <<BadNode>> ELSE <<nd>> \o Elements(b, nd.f + 1, e)

Kids(b, nd) == Elements(b, nd.s, nd.f)
AllOk(ns) == \A i \in 1..Len(ns) : ns[i].ok
IsSeqOf(b, nd, tags) ==
    LET ks == Kids(b, nd)
    IN  AllOk(ks) /\ Len(ks) = Len(tags) /\ \A i \in 1..Len(ks) : ks[i].tag = tags[i]

\* a byte string that is exactly one element
Whole(b) == LET nd == TLV(b, 1, Len(b)) IN IF nd.ok /\ nd.f = Len(b) THEN nd ELSE BadNode

\* well-formed all the way down (constructed elements only)
RECURSIVE DeepOk(_, _)
DeepOk(b, nd) ==
    /\ nd.ok /\ nd.tag < HighTag
    /\ (nd.tag \div 32) % 2 = 1 => LET ks == Kids(b, nd) IN \A i \in 1..Len(ks) : DeepOk(b, ks[i])

TInteger == 2   TBitString == 3   TOctets == 4   TNull == 5   TOid == 6
TUtf8 == 12     TSeq == 48        TSet == 49     TPrintable == 19  TIA5 == 22
TT61 == 20      TBmp == 30        TUTCTime == 23 TGenTime == 24    TBool == 1
TEnum == 10

\* INTEGER contents: minimal two's complement
IntOk(c) == /\ Len(c) >= 1
            /\ Len(c) > 1 => ~(c[1] = 0 /\ c[2] < 128) /\ ~(c[1] = 255 /\ c[2] >= 128)

LOCAL Strip(c) == LET nz == {i \in 1..Len(c) : c[i] # 0}
                  IN  IF nz = {} THEN <<>>
                      ELSE SubSeq(c, CHOOSE i \in nz : \A j \in nz : i <= j, Len(c))
\* value as sign and magnitude (big-endian, no leading zeros)
LOCAL Negate(c) ==      \* two's complement negation
    LET r == FoldLeft(LAMBDA acc, i :
                LET t == 255 - c[Len(c) + 1 - i] + acc[2]
                IN  << <<t % 256>> \o acc[1], t \div 256 >>,
                << <<>>, 1 >>, [i \in 1..Len(c) |-> i])
    IN  r[1]
IntVal(c) == IF c[1] >= 128 THEN [neg |-> TRUE, mag |-> Strip(Negate(c))]
             ELSE [neg |-> FALSE, mag |-> Strip(c)]

----------------------------------------------------------------------------
(* writing                                                                  *)
LOCAL LenBytes(n) ==
    IF n < 128 THEN <<n>>
    ELSE IF n < 256 THEN <<129, n>>
    ELSE IF n < 65536 THEN <<130, n \div 256, n % 256>>
    ELSE <<131, n \div 65536, (n \div 256) % 256, n % 256>>
Enc(tag, body) == <<tag>> \o LenBytes(Len(body)) \o body
EncSeq(parts) == Enc(TSeq, FlattenSeq(parts))
EncNat(m) == Enc(TInteger, IF m = <<>> THEN <<0>> ELSE IF m[1] >= 128 THEN <<0>> \o m ELSE m)

\* INTEGER with sign and magnitude
LOCAL DropFF(c) == LET k == {i \in 1..Len(c) : i = Len(c) \/ c[i] # 255 \/ c[i + 1] < 128}
                   IN  SubSeq(c, CHOOSE i \in k : \A j \in k : i <= j, Len(c))
EncInt(z) == IF z.neg THEN Enc(TInteger, DropFF(Negate(<<0>> \o z.mag))) ELSE EncNat(z.mag)

----------------------------------------------------------------------------
(* a signature value: SEQUENCE { INTEGER, INTEGER }                         *)
NoSig == [ok |-> FALSE, r |-> [neg |-> FALSE, mag |-> <<>>], s |-> [neg |-> FALSE, mag |-> <<>>]]
SigDecode(b) ==
    LET nd == Whole(b)
    IN  IF ~nd.ok \/ nd.tag # TSeq THEN NoSig
        ELSE IF ~IsSeqOf(b, nd, <<TInteger, TInteger>>) THEN NoSig
        ELSE LET ks == Kids(b, nd)
                 r  == Body(b, ks[1])
                 s  == Body(b, ks[2])
             IN  IF ~IntOk(r) \/ ~IntOk(s) THEN NoSig
                 ELSE [ok |-> TRUE, r |-> IntVal(r), s |-> IntVal(s)]
=============================================================================
