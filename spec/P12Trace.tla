------------------------------ MODULE P12Trace ------------------------------
(* Judges recorded productions and decodings of PKCS#12 stores and uses of  *)
(* the RC2 cipher against P12.                                              *)
EXTENDS P12, TraceBase

ChunkLen == 4
VARIABLE i
Init == i \in {j \in 1..Len(Trace) : j % ChunkLen = 1}
Next == i % ChunkLen # 0 /\ i < Len(Trace) /\ i' = i + 1
Spec == Init /\ [][Next]_i

\* op = "p12": a store decoded with a password from every entry point.
\* want: what the model that designed the store says of an entry point ("ok", "err" or "" for no opinion)
Decoded(E) ==
    LET w == TriesWrong(E.der, E.pw, E.tries, E.std)
        d == {j \in 1..Len(E.tries) : E.tries[j].want # "" /\ (E.tries[j].want = "ok") # (E.tries[j].err = "")}
    IN  IF w # "" THEN w
        ELSE IF d # {} THEN LET t == E.tries[CHOOSE j \in d : TRUE] IN t.how \o (IF t.err = "" THEN ": returned" ELSE ": refused") \o " against the design"
        ELSE ""
\* op = "p12make": must - the key is one that is supported and the password can be represented; may - it might be one
Made(E) ==
    IF E.panic # "" THEN "panic"
    ELSE IF E.err # "" /\ E.got THEN "a store came with an error"
    ELSE IF E.err = "" /\ ~E.got THEN "neither a store nor an error"
    ELSE IF ~Representable(E.pw) THEN (IF E.err = "" THEN "a password that cannot be represented was taken" ELSE "")
    ELSE IF E.err # "" THEN (IF E.must THEN "refused to write" ELSE "")
    ELSE IF ~E.may THEN "written for an unsupported key"
    ELSE LET w == Written(E.der, E.pw, E.key, E.certs)
         IN  IF w # "" THEN "written: " \o w
             ELSE IF SaltsOf(E.der, E.pw) # E.salts THEN "salts"          \* what the driver compared
             ELSE IF E.repeats THEN "a salt was used before"
             ELSE LET d == TriesWrong(E.der, E.pw, E.tries, E.std) IN IF d = "" THEN "" ELSE "read back: " \o d
\* op = "rc2": [key, t1, err, got, block, enc, dec, inenc, indec (in place), long (both were given longer buffers), rest, size]
Rc2(E) ==
    IF E.panic # "" THEN "rc2: panic"
    ELSE IF E.err # "" /\ E.got THEN "rc2: a cipher came with an error"
    ELSE IF E.err = "" /\ ~E.got THEN "rc2: neither a cipher nor an error"
    ELSE IF ~RC2Possible(Len(E.key), E.t1) THEN (IF E.err = "" THEN "rc2: an impossible key was taken" ELSE "")
    ELSE IF E.err # "" THEN "rc2: a key was refused"
    ELSE LET K == RC2Schedule(E.key, E.t1)
             e == RC2Encrypt(K, E.block)
             d == RC2Decrypt(K, E.block)
         IN  IF E.size # 8 THEN "rc2: block size"
             ELSE IF E.enc # e THEN "rc2: encryption"
             ELSE IF E.dec # d THEN "rc2: decryption"
             ELSE IF E.inenc # e \/ E.indec # d THEN "rc2: in place"
             ELSE IF E.back # E.block THEN "rc2: decryption does not invert encryption"
             ELSE IF ~E.clean THEN "rc2: wrote elsewhere" ELSE ""

Verdict(E) == CASE E.op = "p12" -> Decoded(E) [] E.op = "p12make" -> Made(E) [] E.op = "rc2" -> Rc2(E)
Good == LET v == Verdict(Trace[i])
        IN  v = "" \/ Report([i |-> i, why |-> v, op |-> Trace[i].op, case |-> Trace[i].case])
=============================================================================
