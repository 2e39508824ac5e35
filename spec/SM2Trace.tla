------------------------------ MODULE SM2Trace ------------------------------
(* Judges recorded calls of package sm2 against SM2Real.  One line of the   *)
(* trace is one scenario: a call (or a few corresponding calls) with all    *)
(* arguments and results.  Verdict(E) is "" or why the specification does   *)
(* not allow what was recorded.  The state is the position in the trace,    *)
(* split into chunks so that TLC's workers judge in parallel.               *)
EXTENDS SM2Real, DER, TraceBase

ChunkLen == 4
VARIABLE i

Init == i \in {j \in 1..Len(Trace) : j % ChunkLen = 1}
Next == /\ i % ChunkLen # 0
        /\ i < Len(Trace)
        /\ i' = i + 1
Spec == Init /\ [][Next]_i

\* first non-empty reason of a sequence of <<condition, reason>>: the reason
\* applies when the condition is FALSE
FirstBad(cs) ==
    LET f == SelectSeq(cs, LAMBDA c : ~c[1])
    IN  IF f = <<>> THEN "" ELSE f[1][2]

AllIn(seq, v) == \A k \in 1..Len(seq) : seq[k] = v

\* ---- e of an event: from a digest, or from message and id
EOf(E) == BNorm(IF E.kind = "dig" THEN E.dig ELSE MsgDigest(E.x, E.y, E.uid, E.msg))
\* the pair of an event: given as numbers or to be decoded
PairOf(E) == IF E.form = "der" THEN SigDecode(E.der)
             ELSE [ok |-> TRUE, r |-> E.r, s |-> E.s]

Sign(E) ==
    IF E.panic # "" THEN "sign: panic or hang"
    ELSE IF E.kind = "msg" /\ ~UidOk(E.uid) THEN
        (IF E.err = "" \/ E.got THEN "sign: user id too long but a signature came back" ELSE "")
    ELSE IF E.src = "fails" THEN
        (IF E.err = "" THEN "sign: random source failed but no error"
         ELSE IF E.got THEN "sign: random source failed but a signature came back" ELSE "")
    ELSE IF E.err # "" THEN "sign: error for a valid key and working source"
    ELSE LET sg == PairOf(E)
         IN  IF ~sg.ok THEN "sign: signature is not a DER pair"
             ELSE IF sg.r.neg \/ sg.s.neg \/ ~InRange(sg.r.mag) \/ ~InRange(sg.s.mag)
                  THEN "sign: r or s out of range"
             ELSE LET r == sg.r.mag
                      s == sg.s.mag
                      k == ImpliedK(E.d, r, s)
                      o == IF k = <<>> THEN [sig |-> <<>>, why |-> "k=0"] ELSE Outcome(E.d, EOf(E), k)
                  IN  IF o.sig # <<r, s>> THEN "sign: not a signature of this digest"
                      ELSE IF ~AllIn(E.acc, TRUE) THEN "sign: a verification entry point refuses the signature"
                      ELSE IF E.first # <<>> /\ k = E.first THEN "sign: rejected nonce used"
                      ELSE ""

Verify(E) ==
    LET sg == PairOf(E)
        want == /\ sg.ok
                /\ ~sg.r.neg /\ ~sg.s.neg
                /\ ~E.xneg /\ ~E.yneg
                /\ E.kind = "msg" => UidOk(E.uid)
                /\ VerifyE(E.x, E.y, EOf(E), sg.r.mag, sg.s.mag)
    IN  IF E.panic # "" THEN "verify: panic or hang"
        ELSE IF ~AllIn(E.res, want) THEN
            (IF want THEN "verify: a valid signature is refused" ELSE "verify: an invalid signature is accepted")
        ELSE ""

Marshal(E) ==
    IF E.panic # "" THEN "marshal: panic"
    ELSE IF E.err # "" THEN "marshal: error"
    ELSE LET sg == SigDecode(E.der)
         IN  IF ~sg.ok THEN "marshal: not the DER of two integers"
             ELSE IF sg.r # E.r \/ sg.s # E.s THEN "marshal: another pair encoded"
             ELSE IF ~E.back THEN "marshal: does not decode to the same pair"
             ELSE ""

Unmarshal(E) ==
    LET sg == SigDecode(E.der)
    IN  IF E.panic # "" THEN "unmarshal: panic"
        ELSE IF sg.ok /\ E.err # "" THEN "unmarshal: canonical encoding refused"
        ELSE IF ~sg.ok /\ E.err = "" THEN "unmarshal: non-canonical encoding accepted"
        ELSE IF sg.ok /\ (sg.r # E.r \/ sg.s # E.s) THEN "unmarshal: another pair decoded"
        ELSE IF sg.ok /\ ~E.back THEN "unmarshal: re-encoding differs"
        ELSE IF ~sg.ok /\ E.got THEN "unmarshal: numbers returned with an error"
        ELSE ""

Digest(E) ==
    IF E.panic # "" THEN "digest: panic"
    ELSE IF ~UidOk(E.uid) THEN (IF E.err = "" THEN "digest: user id too long accepted" ELSE "")
    ELSE IF E.err # "" THEN "digest: error"
    ELSE IF E.out # MsgDigest(E.x, E.y, E.uid, E.msg) THEN "digest: wrong value"
    ELSE ""

Encrypt(E) ==
    IF E.panic # "" THEN "encrypt: panic or hang"
    ELSE IF E.msg = <<>> \/ E.xneg \/ E.yneg \/ ~OnCurve(E.x, E.y) THEN
        (IF E.err = "" THEN "encrypt: no error for an empty message or a point off the curve"
         ELSE IF E.got THEN "encrypt: output with an error" ELSE "")
    ELSE IF E.src = "fails" THEN
        (IF E.err = "" THEN "encrypt: random source failed but no error"
         ELSE IF E.got THEN "encrypt: output with an error" ELSE "")
    ELSE IF E.err # "" THEN "encrypt: error"
    ELSE IF Len(E.out) # 97 + Len(E.msg) THEN "encrypt: wrong length"
    ELSE LET x1 == BNorm(SubSeq(E.out, 2, 33))
             y1 == BNorm(SubSeq(E.out, 34, 65))
             dd == DecryptE(E.d, E.out)
         IN  IF E.out[1] # 4 THEN "encrypt: no 04 prefix"
             ELSE IF ~OnCurve(x1, y1) THEN "encrypt: C1 not on the curve"
             ELSE IF ~dd.ok \/ dd.msg # E.msg THEN "encrypt: not the ciphertext of this message"
             ELSE IF ~E.decok \/ E.dec # E.msg THEN "encrypt: decrypting does not give the message back"
             ELSE ""

\* the nonce is known
EncryptK(E) ==
    IF E.panic # "" THEN "encrypt: panic or hang"
    ELSE IF E.err # "" THEN "encrypt: error"
    ELSE IF E.out # EncryptE(<<E.x, E.y>>, E.msg, E.k) THEN "encrypt: not the ciphertext for this nonce"
    ELSE ""

\* long messages: pat (64 octets) repeated n times, then tail; mb*2^20 + lo octets in all
\* block k of the message
LongBlock(E, k) ==
    IF 2 * E.n >= k THEN (IF k % 2 = 1 THEN SubSeq(E.pat, 1, 32) ELSE SubSeq(E.pat, 33, 64))
    ELSE SubSeq(E.tail, 32 * (k - 2 * E.n) - 31, (IF 32 * (k - 2 * E.n) < Len(E.tail) THEN 32 * (k - 2 * E.n) ELSE Len(E.tail)))
\* the hash of x2, the message and y2: the pattern is rotated by the 32 octets of x2
LongC3(E, x2, y2) ==
    LET p1 == SubSeq(E.pat, 1, 32)
        p2 == SubSeq(E.pat, 33, 64)
    IN  Out(Blocks(CFIter(CF(IV, x2 \o p1), p2 \o p1, E.n - 1), p2 \o E.tail \o y2 \o Padding(E.mb + ((E.lo + 64) \div 1048576), (E.lo + 64) % 1048576)))
\* "" when the blocks recorded and the hash are those of the ciphertext of this message
LongWhy(E) ==
    LET x == BNorm(SubSeq(E.head, 2, 33))
        y == BNorm(SubSeq(E.head, 34, 65))
        S == PMul(E.d, <<x, y>>)
        x2 == Bytes32(S[1])
        y2 == Bytes32(S[2])
    IN  IF E.head[1] # 4 \/ ~OnCurve(x, y) THEN "C1"
        ELSE IF S = Infinity THEN "C1"
        ELSE IF \E wi \in DOMAIN E.win : LET w == E.win[wi] IN w.b # XorBytes(LongBlock(E, w.k), SubSeq(SM3Digest(x2 \o y2 \o BE32(w.k)), 1, Len(w.b))) THEN "body"
        ELSE IF SubSeq(E.head, 66, 97) # LongC3(E, x2, y2) THEN "C3"
        ELSE ""
EncryptLong(E) ==
    IF E.panic # "" THEN "encrypt: panic or hang"
    ELSE IF E.err # "" THEN "encrypt: error"
    ELSE IF ~E.lenok THEN "encrypt: wrong length"
    ELSE IF LongWhy(E) # "" THEN "encrypt: not the ciphertext of this message, " \o LongWhy(E)
    ELSE IF ~E.same THEN "encrypt: decrypting does not give the message back"
    ELSE ""
DecryptLong(E) ==
    IF E.panic # "" THEN "decrypt: panic or hang"
    ELSE IF LongWhy(E) = "" /\ ~E.same THEN "decrypt: valid ciphertext not decrypted"
    ELSE IF LongWhy(E) # "" /\ (E.err = "" \/ E.got) THEN "decrypt: invalid ciphertext accepted"
    ELSE ""

Decrypt(E) ==
    IF E.panic # "" THEN "decrypt: panic or hang"
    ELSE LET dd == DecryptE(E.d, E.c)
         IN  IF dd.ok /\ (E.err # "" \/ E.out # dd.msg) THEN "decrypt: valid ciphertext not decrypted"
             ELSE IF ~dd.ok /\ E.err = "" THEN "decrypt: invalid ciphertext accepted"
             ELSE IF ~dd.ok /\ E.got THEN "decrypt: plaintext returned with an error"
             ELSE IF ~E.again THEN "decrypt: the same ciphertext answered differently a second time"
             ELSE ""

KeyGen(E) ==
    IF E.panic # "" THEN "keygen: panic or hang"
    ELSE IF E.src = "fails" THEN
        (IF E.err = "" \/ E.got THEN "keygen: random source failed but a key came back" ELSE "")
    ELSE IF E.err # "" THEN "keygen: error with a working source"
    ELSE IF ~E.got THEN "keygen: no key"
    ELSE IF E.d.neg \/ ~ValidScalar(E.d.mag) THEN "keygen: scalar out of range"
    ELSE IF ~OnCurve(E.x, E.y) \/ PubOf(E.d.mag) # <<E.x, E.y>> THEN "keygen: public key does not match"
    ELSE IF ~E.curve THEN "keygen: not the SM2 curve"
    ELSE ""

Equal(E) ==
    IF E.panic # "" THEN "equal: panic"
    ELSE LET pe == E.kind2 = "pub" /\ E.x1 = E.x2 /\ E.y1 = E.y2
             de == E.kind2 = "priv" /\ E.x1 = E.x2 /\ E.y1 = E.y2 /\ E.d1 = E.d2
         IN  IF E.res # (IF E.kind1 = "pub" THEN pe ELSE de) THEN "equal: wrong answer" ELSE ""

\* ---- nonces over a whole run: E.sigs is a sequence of [e, r, s] under one
\* key, in order; E.rd the octets each call read from its source
BitBalance(ks, lo) ==
    \A bit \in 1..256 :
        LET c == FoldLeft(LAMBDA acc, kk : acc + BBits(BFixed(kk, 32))[bit], 0, ks)
        IN  c >= lo /\ c <= Len(ks) - lo
Distinct(ks) == Cardinality({ks[j] : j \in 1..Len(ks)}) = Len(ks)

Nonces(E) ==
    LET ks == [j \in 1..Len(E.sigs) |-> ImpliedK(E.d, E.sigs[j].r, E.sigs[j].s)]
    IN  IF ~Distinct(ks) THEN "nonces: a nonce repeats"
        ELSE IF \E j \in 1..Len(ks) : ks[j] = <<>> THEN "nonces: zero"
        ELSE IF ~BitBalance(ks, Len(ks) \div 5) THEN "nonces: not spread over the range"
        ELSE IF \E j \in 1..Len(ks) : E.rd[j] < 32 THEN "nonces: fewer octets drawn from the source than a nonce has"
        ELSE ""

\* the same for generated keys (scalars) or first ciphertext points
Scalars(E) ==
    IF ~Distinct(E.ks) THEN "keys: a value repeats"
    ELSE IF E.spread /\ ~BitBalance(E.ks, Len(E.ks) \div 5) THEN "keys: not spread over the range"
    ELSE IF \E j \in 1..Len(E.rd) : E.rd[j] < 32 THEN "keys: fewer octets drawn from the source than needed"
    ELSE ""

\* the same source delivers the same octets: the nonce is a function of them
\* (a few outcomes are tolerated: an implementation may skip octets at random)
SameSource(E) ==
    IF Cardinality({E.outs[j] : j \in 1..Len(E.outs)}) > 6 THEN "source: result depends on something else than the source" ELSE ""

\* a key signs exactly if its scalar is between 1 and n - 2
BadKey(E) ==
    LET ok == ~E.d.neg /\ E.d.mag # <<>> /\ BLt(E.d.mag, BSub(N256, <<1>>))
    IN  IF E.panic # "" THEN "sign: panic or hang"
        ELSE IF ok THEN (IF E.err # "" THEN "sign: error" ELSE "")
        ELSE IF E.err = "" THEN "sign: signed with a key out of range"
        ELSE IF E.got THEN "sign: a signature came with an error" ELSE ""

Verdict(E) ==
    CASE E.op = "sign"      -> Sign(E)
      [] E.op = "badkey"    -> BadKey(E)
      [] E.op = "verify"    -> Verify(E)
      [] E.op = "marshal"   -> Marshal(E)
      [] E.op = "unmarshal" -> Unmarshal(E)
      [] E.op = "digest"    -> Digest(E)
      [] E.op = "encrypt"   -> Encrypt(E)
      [] E.op = "encryptk"  -> EncryptK(E)
      [] E.op = "decrypt"   -> Decrypt(E)
      [] E.op = "encryptlong" -> EncryptLong(E)
      [] E.op = "decryptlong" -> DecryptLong(E)
      [] E.op = "keygen"    -> KeyGen(E)
      [] E.op = "equal"     -> Equal(E)
      [] E.op = "nonces"    -> Nonces(E)
      [] E.op = "scalars"   -> Scalars(E)
      [] E.op = "source"    -> SameSource(E)

Good == LET v == Verdict(Trace[i])
        IN  v = "" \/ Report([i |-> i, why |-> v, op |-> Trace[i].op, case |-> Trace[i].case])
=============================================================================
