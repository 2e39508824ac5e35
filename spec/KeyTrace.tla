------------------------------ MODULE KeyTrace ------------------------------
(* Judges recorded encodings and decodings of keys against KeyFormats.      *)
EXTENDS KeyFormats, TraceBase

ChunkLen == 4
VARIABLE i
Init == i \in {j \in 1..Len(Trace) : j % ChunkLen = 1}
Next == i % ChunkLen # 0 /\ i < Len(Trace) /\ i' = i + 1
Spec == Init /\ [][Next]_i

\* op = "parse": [fmt, der, err, got, key]
Parse(E) ==
    IF E.panic # "" THEN "parse: panic or hang"
    ELSE IF E.err # "" /\ E.got THEN "parse: a key came back with an error"
    ELSE IF E.err = "" /\ ~E.got THEN "parse: neither key nor error"
    ELSE IF E.err = "" THEN
        LET L == Describes(E.fmt, E.der)
        IN  IF ~L.ok THEN "parse: an invalid container was accepted"
            ELSE IF E.key # L.key THEN "parse: another key than the container describes"
            ELSE ""
    ELSE IF Strict(E.fmt, E.der).ok THEN "parse: a valid container was refused"
    ELSE ""

\* op = "marshal": [fmt, key, err, out, again, back (key parsed back), backerr, other]
Marshal(E) ==
    IF E.panic # "" THEN "marshal: panic"
    ELSE IF E.err # "" THEN "marshal: error for a supported key"
    ELSE LET S == Strict(E.fmt, E.out)
         IN  IF E.out # E.again THEN "marshal: not deterministic"
             ELSE IF ~S.ok THEN "marshal: not the standard structure"
             ELSE IF S.key # E.key THEN "marshal: another key encoded"
             ELSE IF E.backerr # "" THEN "marshal: does not parse back"
             ELSE IF E.back # E.key THEN "marshal: parses back to another key"
             ELSE IF E.other # "" THEN "marshal: another implementation does not read it"
             ELSE ""

\* op = "unsupported": a key the format has no encoding for
Unsupported(E) ==
    IF E.panic # "" THEN "marshal: panic"
    ELSE IF E.err = "" \/ E.got THEN "marshal: output for an unsupported key"
    ELSE ""

Verdict(E) ==
    CASE E.op = "parse" -> Parse(E)
      [] E.op = "marshal" -> Marshal(E)
      [] E.op = "unsupported" -> Unsupported(E)

Good == LET v == Verdict(Trace[i])
        IN  v = "" \/ Report([i |-> i, why |-> v, op |-> Trace[i].op, case |-> Trace[i].case])
=============================================================================
