------------------------------- MODULE Armour -------------------------------
(* PEM (RFC 7468) as octets: lines, blocks and base64.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

LOCAL LF == 10
LOCAL CR == 13
\* "-----BEGIN ", "-----END ", "-----"
LOCAL Begin == <<45,45,45,45,45,66,69,71,73,78,32>>
LOCAL End == <<45,45,45,45,45,69,78,68,32>>
LOCAL Dashes == <<45,45,45,45,45>>
\* "X509 CRL"
CrlType == <<88,53,48,57,32,67,82,76>>

LOCAL Blank(o) == o \in {9, CR, 32}
RECURSIVE Trim(_)
Trim(l) == IF l # <<>> /\ Blank(l[Len(l)]) THEN Trim(SubSeq(l, 1, Len(l) - 1)) ELSE l
\* the lines of a text, without what ends them
Lines(t) ==
    LET at == SetToSortSeq({j \in 1..Len(t) : t[j] = LF}, LAMBDA a, b : a < b)
        from(k) == IF k = 1 THEN 1 ELSE at[k - 1] + 1
        to(k) == IF k <= Len(at) THEN at[k] - 1 ELSE Len(t)
    IN  [k \in 1..(Len(at) + 1) |-> Trim(SubSeq(t, from(k), to(k)))]
IsPrefixed(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p

LOCAL Digit(o) == CASE o >= 65 /\ o <= 90 -> o - 65 [] o >= 97 /\ o <= 122 -> o - 71 [] o >= 48 /\ o <= 57 -> o + 4 [] o = 43 -> 62 [] o = 47 -> 63 [] OTHER -> 64
LOCAL IsDigit(o) == Digit(o) < 64
\* base64 with padding: [ok, v]
Base64(s) ==
    LET n == Len(s)
        pad == IF n >= 2 /\ s[n] = 61 /\ s[n - 1] = 61 THEN 2 ELSE IF n >= 1 /\ s[n] = 61 THEN 1 ELSE 0
        good == n % 4 = 0 /\ \A j \in 1..(n - pad) : IsDigit(s[j])
        d(j) == IF j <= n - pad THEN Digit(s[j]) ELSE 0
        octet(k) == LET q == ((k - 1) \div 3) * 4
                    IN  CASE k % 3 = 1 -> d(q + 1) * 4 + d(q + 2) \div 16
                          [] k % 3 = 2 -> (d(q + 2) % 16) * 16 + d(q + 3) \div 4
                          [] OTHER     -> (d(q + 3) % 4) * 64 + d(q + 4)
    IN  IF good THEN [ok |-> TRUE, v |-> [k \in 1..((n \div 4) * 3 - pad) |-> octet(k)]] ELSE [ok |-> FALSE, v |-> <<>>]

BeginLine(type) == Begin \o type \o Dashes
EndLine(type) == End \o type \o Dashes
LOCAL HasColon(l) == \E j \in 1..Len(l) : l[j] = 58
LOCAL Join(ls) == SelectSeq(FlattenSeq(ls), LAMBDA o : ~Blank(o))
RECURSIVE AfterHeaders(_)
AfterHeaders(ls) == IF ls # <<>> /\ HasColon(ls[1]) THEN AfterHeaders(Tail(ls)) ELSE ls
\* what a forgiving reader may take for the contents of a block of a type: there may
\* be headers, blank lines and anything before and after
Contents(t, type) ==
    LET ls == Lines(t)
        bs == {j \in 1..Len(ls) : ls[j] = BeginLine(type)}
        es == {j \in 1..Len(ls) : ls[j] = EndLine(type)}
        in(a, b) == Base64(Join(AfterHeaders(SubSeq(ls, a + 1, b - 1))))
    IN  {x \in {in(p[1], p[2]) : p \in {q \in bs \X es : q[1] < q[2]}} : x.ok}
\* a text that every reader reads: the block from the first line on, lines of base64
\* of up to 76, nothing else but blank lines after it
Plain(t, type) ==
    LET ls == Lines(t)
        e == {j \in 1..Len(ls) : ls[j] = EndLine(type)}
        n == CHOOSE j \in e : TRUE
    IN  IF ls[1] # BeginLine(type) \/ Cardinality(e) # 1 THEN [ok |-> FALSE, v |-> <<>>]
        ELSE IF \/ n < 3
                \/ \E j \in 2..(n - 1) : Len(ls[j]) \notin 1..76 \/ (\E k \in 1..Len(ls[j]) : ~IsDigit(ls[j][k]) /\ ~(j = n - 1 /\ ls[j][k] = 61))
                \/ \E j \in (n + 1)..Len(ls) : ls[j] # <<>>
             THEN [ok |-> FALSE, v |-> <<>>]
        ELSE Base64(Join(SubSeq(ls, 2, n - 1)))
=============================================================================
