------------------------------ MODULE ParseTrace ------------------------------
(* Judges what parsers made of edited documents: none may panic, hang or    *)
(* take the process down; what those of strict formats accept is exactly    *)
(* one definite-length element with the shortest length, and what they keep *)
(* of it are the parts of the document.                                     *)
EXTENDS DER, TraceBase

ChunkLen == 16
VARIABLE i
Init == i \in {j \in 1..Len(Trace) : j % ChunkLen = 1}
Next == i % ChunkLen # 0 /\ i < Len(Trace) /\ i' = i + 1
Spec == Init /\ [][Next]_i

\* formats whose statement asks for exactly one element (several, one after the other, in "certificates")
Strict == {"certificate", "request", "list", "DER list", "PKCS#1", "PKCS#1 public", "PKIX", "PKCS#7", "PKCS#12", "PKCS#12 single", "PKCS#12 to PEM",
           "PKCS#12 file", "signature", "signature verified"}

\* a document of n octets that begins with the octets h (all of it, or 8) is one element
OneElement(h, n) ==
    /\ n >= 2
    /\ LET k == IF h[2] < 128 THEN 0 ELSE h[2] - 128
           v == FoldLeft(LAMBDA acc, j : acc * 256 + h[2 + j], 0, [j \in 1..k |-> j])
       IN  /\ h[1] = TSeq
           /\ IF k = 0 THEN h[2] # 128 /\ n = 2 + h[2]
              ELSE k <= 3 /\ n >= 2 + k /\ h[3] # 0 /\ v >= 128 /\ n = 2 + k + v
Outer(E) == IF ~E.same THEN "what is kept is not what was given"
            ELSE IF E.parser \in Strict /\ ~OneElement(E.head, E.len) THEN "something that is not exactly one element was accepted"
            ELSE ""

\* the parts by their places
Parts(d, what) ==
    LET w    == Whole(d)
        tbs  == TLV(d, w.s, w.f)
        ks   == Elements(d, tbs.s, tbs.f)
        none == [tbs |-> <<>>, issuer |-> <<>>, subject |-> <<>>, spki |-> <<>>]
        R(n) == IF n <= Len(ks) /\ ks[n].ok THEN Raw(d, ks[n]) ELSE <<-1>>
        o    == IF Len(ks) > 0 /\ ks[1].ok /\ ks[1].tag = 160 THEN 1 ELSE 0
    IN  IF ~w.ok \/ ~tbs.ok THEN [none EXCEPT !.tbs = <<-1>>]
        ELSE IF what = "certificate" THEN [tbs |-> Raw(d, tbs), issuer |-> R(o + 3), subject |-> R(o + 5), spki |-> R(o + 6)]
        ELSE IF what = "request" THEN [none EXCEPT !.tbs = Raw(d, tbs), !.subject = R(2), !.spki = R(3)]
        ELSE [none EXCEPT !.tbs = Raw(d, tbs)]
Kept(E) ==
    LET p == Parts(E.der, E.parser)
    IN  IF ~Whole(E.der).ok THEN "something that is not exactly one element was accepted"
        ELSE IF E.parser \in {"certificate", "request"} /\ E.raw # E.der THEN "Raw is not what was given"
        ELSE IF E.tbs # p.tbs THEN "RawTBS is not that part"
        ELSE IF E.issuer # p.issuer THEN "RawIssuer is not that part"
        ELSE IF E.subject # p.subject THEN "RawSubject is not that part"
        ELSE IF E.spki # p.spki THEN "RawSubjectPublicKeyInfo is not that part"
        ELSE ""
Verdict(E) ==
    CASE E.op = "process" -> IF E.died # "" THEN "the process died: " \o E.died ELSE ""
      [] E.op = "trouble" -> "panic or hang"
      [] E.op = "outer" -> Outer(E)
      [] E.op = "kept" -> Kept(E)
      [] E.op = "base" -> ""
      [] E.op = "count" -> ""
Good == LET v == Verdict(Trace[i])
        IN  v = "" \/ Report([i |-> i, why |-> v, op |-> Trace[i].op, case |-> Trace[i].case])
=============================================================================
