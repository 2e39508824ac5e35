------------------------------ MODULE CertTrace ------------------------------
(* Judges recorded creations, parses and signature checks of certificates,  *)
(* requests and revocation lists against CertSpec and X509.                 *)
EXTENDS CertSpec, TraceBase
LOCAL INSTANCE Armour

ChunkLen == 4
VARIABLE i
Init == i \in {j \in 1..Len(Trace) : j % ChunkLen = 1}
Next == i % ChunkLen # 0 /\ i < Len(Trace) /\ i' = i + 1
Spec == Init /\ [][Next]_i

\* nothing comes with an error, and something without one
Shape(E) == IF E.panic # "" THEN "panic or hang"
            ELSE IF E.err # "" /\ E.got THEN "a result came with an error"
            ELSE IF E.err = "" /\ ~E.got THEN "neither a result nor an error"
            ELSE ""

\* the code's view against the reader's; URLs a reader may rewrite are left out
AsSeen(got, want) ==
    LET odd == ~(\A u \in ToSet(want.uris) : PlainUri(u))
        g == IF odd THEN [got EXCEPT !.uris = <<>>] ELSE got
        w == IF odd THEN [want EXCEPT !.uris = <<>>] ELSE want
    IN  Differ(g, w)

CertParse(E) ==
    LET R == CertRead(E.der)
    IN  IF Shape(E) # "" THEN Shape(E)
        ELSE IF E.err # "" THEN (IF R.ok /\ R.strict THEN "a valid certificate was refused" ELSE "")
        ELSE IF ~R.ok THEN "something that is no certificate was accepted"
        ELSE IF E.raw # E.der THEN "Raw is not the certificate"
        ELSE LET w == CertSeen(R.v)
                 d == AsSeen(IF R.v.algsure THEN E.seen ELSE [E.seen EXCEPT !.alg = w.alg], w) IN IF d = "" THEN "" ELSE "read otherwise than it says: " \o d
CsrParse(E) ==
    LET R == CsrRead(E.der)
    IN  IF Shape(E) # "" THEN Shape(E)
        ELSE IF E.err # "" THEN (IF R.ok /\ R.strict THEN "a valid request was refused" ELSE "")
        ELSE IF ~R.ok THEN "something that is no request was accepted"
        ELSE IF E.raw # E.der THEN "Raw is not the request"
        ELSE LET w == CsrSeen(R.v)
                 g0 == CsrSure(R.v, IF R.v.named THEN E.seen ELSE [E.seen EXCEPT !.subject = w.subject])
                 g == IF R.v.algsure THEN g0 ELSE [g0 EXCEPT !.alg = w.alg]
                 d == AsSeen(g, w)
             IN  IF d = "" THEN "" ELSE "read otherwise than it says: " \o d
CrlParse(E) ==
    LET R == CrlRead(E.der)
    IN  IF Shape(E) # "" THEN Shape(E)
        ELSE IF E.err # "" THEN (IF R.ok /\ R.strict THEN "a valid revocation list was refused" ELSE "")
        ELSE IF ~R.ok THEN "something that is no revocation list was accepted"
        ELSE LET w == CrlSeen(R.v)
                 g0 == IF R.v.named THEN E.seen ELSE [E.seen EXCEPT !.issuer = w.issuer]
                 g1 == IF R.v.algsure THEN g0 ELSE [g0 EXCEPT !.alg = w.alg, !.outer = w.outer]
                 g == IF R.v.extsure THEN g1 ELSE [g1 EXCEPT !.exts = w.exts]
                 d == Differ(g, w)
             IN  IF d = "" THEN "" ELSE "read otherwise than it says: " \o d
\* a revocation list in a text: one that begins as such a text does holds what its blocks
\* "X509 CRL" hold and nothing else; any other is the list itself
CrlPem(E) ==
    IF ~IsPrefixed(E.der, SubSeq(BeginLine(CrlType), 1, 19)) THEN CrlParse(E)
    ELSE LET P == Plain(E.der, CrlType)
             in == Contents(E.der, CrlType)
         IN  IF Shape(E) # "" THEN Shape(E)
             ELSE IF E.err # "" THEN (IF P.ok THEN CrlParse([E EXCEPT !.der = P.v]) ELSE "")
             ELSE IF in = {} THEN "a list was read from a text that holds none"
             ELSE LET vs == {CrlParse([E EXCEPT !.der = x.v]) : x \in in}
                  IN  IF "" \in vs THEN "" ELSE CHOOSE v \in vs : TRUE
\* several certificates, one after the other
CertList(E) ==
    LET es == Elements(E.der, 1, Len(E.der))
        rs == [j \in 1..Len(es) |-> IF es[j].ok THEN CertRead(Raw(E.der, es[j])) ELSE NoObj]
    IN  IF E.panic # "" THEN "panic or hang"
        ELSE IF E.err # "" THEN (IF E.raws # <<>> THEN "a result came with an error"
                                 ELSE IF \A j \in 1..Len(rs) : rs[j].ok /\ rs[j].strict THEN "valid certificates were refused" ELSE "")
        ELSE IF \E j \in 1..Len(rs) : ~rs[j].ok THEN "something that is no certificate was accepted"
        ELSE IF E.raws # [j \in 1..Len(es) |-> Raw(E.der, es[j])] THEN "not the certificates given" ELSE ""

\* what was made must also be read back as what it says, and its signature accepted unless insecure
Made(E, imp, ans, R, sec) ==
    IF Shape(E) # "" THEN "create: " \o Shape(E)
    ELSE IF imp THEN (IF E.err = "" THEN "created though impossible" ELSE "")
    ELSE IF E.err # "" THEN "refused to create"
    ELSE IF ans # "" THEN ans
    ELSE IF E.perr # "" THEN "created: does not parse back"
    ELSE IF E.vok # sec THEN (IF sec THEN "created: its signature is refused" ELSE "created: an insecure or bad signature is accepted")
    ELSE ""
Create(E) ==
    LET imp == CertImpossible(E.T, E.S, E.pub, E.P)
        ans == IF ~imp /\ E.err = "" /\ E.got THEN CertAnswers(E.T, E.S, E.pub, E.P, E.der) ELSE ""
        v == Made(E, imp, ans, CertRead(E.der), Secure(AlgFor(E.T.alg, E.S.key)) /\ E.S.mode # "garbage")
    IN  IF v # "" \/ ~E.got THEN v
        ELSE LET d == AsSeen(E.seen, CertSeen(CertRead(E.der).v))
             IN  IF d # "" THEN "read back otherwise than made: " \o d
                 ELSE IF OSan \notin ExtraOids(E.T) /\ E.seen.uris # E.T.uris THEN "read back otherwise than made: uris" ELSE ""
CsrCreate(E) ==
    LET imp == CsrImpossible(E.T, E.S)
        ans == IF ~imp /\ E.err = "" /\ E.got THEN CsrAnswers(E.T, E.S, E.der) ELSE ""
        v == Made(E, imp, ans, CsrRead(E.der), Secure(AlgFor(E.T.alg, E.S.key)) /\ E.S.mode # "garbage")
    IN  IF v # "" \/ ~E.got THEN v
        ELSE LET R == CsrRead(E.der).v
                 d == AsSeen(CsrSure(R, E.seen), CsrSeen(R))
             IN  IF d # "" THEN "read back otherwise than made: " \o d ELSE ""
CrlCreate(E) ==
    LET imp == CrlImpossible(E.T, E.S, E.P)
        ans == IF ~imp /\ E.err = "" /\ E.got THEN CrlAnswers(E.T, E.S, E.P, E.der) ELSE ""
        v == Made(E, imp, ans, CrlRead(E.der), Secure(AlgFor(E.T.alg, E.S.key)) /\ E.S.mode # "garbage")
    IN  IF v # "" \/ ~E.got THEN v
        ELSE LET d == Differ(E.seen, CrlSeen(CrlRead(E.der).v))
             IN  IF d # "" THEN "read back otherwise than made: " \o d ELSE ""

\* a check answers E.ok exactly when the specification does
Answer(E, want) ==
    IF E.panic # "" THEN "check: panic or hang"
    ELSE IF E.ok /\ ~want THEN "check: accepted"
    ELSE IF ~E.ok /\ want THEN "check: refused a valid one"
    ELSE ""
\* CheckSignature with key on exactly these octets
CheckSig(E) == Answer(E, Verifies(E.alg, E.key, E.msg, E.sig))
\* CheckSignatureFrom: both certificates parsed from their octets
CheckSigFrom(E) ==
    LET C == CertRead(E.child)
        P == CertRead(E.parent)
    IN  IF ~C.ok \/ ~P.ok THEN "check: unreadable certificates"
        ELSE Answer(E, CheckFrom(CertSeen(C.v), CertSeen(P.v)))
CsrCheck(E) == LET R == CsrRead(E.der) IN IF ~R.ok THEN "check: unreadable request" ELSE Answer(E, Verifies(R.v.alg, R.v.key, R.v.rawtbs, R.v.sig))
CrlCheck(E) == LET R == CrlRead(E.der) IN IF ~R.ok THEN "check: unreadable list" ELSE Answer(E, CrlVerifies(R.v, E.key))

\* two parsed certificates (no octets: none at all) are equal when their octets are
CertEqual(E) ==
    IF E.panic # "" THEN "equal: panic"
    ELSE IF ~E.self THEN "equal: a certificate is not equal to itself parsed again"
    ELSE IF E.res # E.back THEN "equal: not symmetric"
    ELSE IF E.res # (E.a = E.b) THEN (IF E.res THEN "equal: different certificates are said to be equal" ELSE "equal: the same certificate is said to be different")
    ELSE ""

Verdict(E) ==
    CASE E.op = "create" -> Create(E)         [] E.op = "certparse" -> CertParse(E)
      [] E.op = "csrcreate" -> CsrCreate(E)   [] E.op = "csrparse" -> CsrParse(E)
      [] E.op = "crlcreate" -> CrlCreate(E)   [] E.op = "crlparse" -> CrlParse(E)
      [] E.op = "crlpem" -> CrlPem(E)
      [] E.op = "certlist" -> CertList(E)     [] E.op = "certequal" -> CertEqual(E)
      [] E.op = "checksig" -> CheckSig(E)     [] E.op = "checkfrom" -> CheckSigFrom(E)
      [] E.op = "fromobj" -> Answer(E, E.ca /\ Verifies(E.alg, E.key, E.msg, E.sig))
      [] E.op = "refused" -> (IF E.panic # "" THEN "panic or hang" ELSE IF E.err = "" THEN "made though impossible" ELSE IF E.got THEN "a result came with an error" ELSE "")
      [] E.op = "csrcheck" -> CsrCheck(E)     [] E.op = "crlcheck" -> CrlCheck(E)

Good == LET v == Verdict(Trace[i])
        IN  v = "" \/ Report([i |-> i, why |-> v, op |-> Trace[i].op, case |-> Trace[i].case])
=============================================================================
