------------------------------- MODULE KeyGen -------------------------------
(* Containers to feed to the parsers: an encoder that deviates from the     *)
(* standard structure in at most MaxDev places.  A document is a family and *)
(* a choice for every place; a step changes one choice from its right value.*)
EXTENDS KeyDocs

CONSTANTS MaxDev,
          Each       \* print every document, or (random walks) only the last one of a walk
VARIABLES fam, base, ch, dev, done

\* ---- places and the values they may take; the first is the right one
Families == {"sec1", "p8", "pkix", "pkcs1", "rsapub", "dsa"}
Bases(f) == CASE f = "sec1" -> Curves
              [] f = "p8" -> Curves \cup {"RSA", "Ed"}
              [] f = "pkix" -> Curves \cup {"RSA", "Ed"}
              [] f = "pkcs1" -> {RsaMat[j].name : j \in 1..Len(RsaMat)}
              [] f = "rsapub" -> {"RSA"}
              [] f = "dsa" -> {"DSA"}
Menu(f) ==
  CASE f = "sec1" ->
        [ver |-> <<"1", "0", "2", "-1", "256+1", "none">>,
         scalar |-> <<"mid", "1", "2", "n-1", "n-2", "short", "unpadded", "pad1", "pad9", "high", "0", "empty", "n", "n+1", "ff", "otherlen">>,
         oid |-> <<"right", "other", "unknown", "absent", "null", "twice">>,
         pub |-> <<"right", "wrong", "absent", "garbage", "compressed", "first">>,
         tail |-> <<"", "inside", "after">>]
    [] f = "p8" ->
        [ver |-> <<"0", "1", "-1", "none">>,
         alg |-> <<"right", "RSA", "EC", "Ed", "DSA", "unknown", "Ed448">>,
         par |-> <<"right", "other", "unknown", "null", "absent", "seq", "sm2">>,
         inner |-> <<"right", "otheroid", "nooid", "pkcs1", "seed", "rawseed", "empty", "garbage", "ver0", "zero", "big", "tail", "short", "long">>,
         tail |-> <<"", "attrs", "inside", "after">>]
    [] f = "pkix" ->
        [alg |-> <<"right", "RSA", "EC", "Ed", "unknown", "X25519">>,
         par |-> <<"right", "other", "unknown", "null", "absent", "seq", "twice">>,
         pt |-> <<"right", "two", "compressed", "hybrid", "infinity", "off", "xbig", "ybig", "neg", "short", "long", "empty", "zero", "rsa", "rsaneg", "rsazero", "rsanonmin", "rsatail", "ed">>,
         pad |-> <<"0", "1", "7", "8", "bad">>,
         tail |-> <<"", "inside", "after", "octets">>]
    [] f = "pkcs1" ->
        [ver |-> <<"right", "0", "1", "2", "-1">>,
         field |-> <<"none", "n", "e", "d", "p", "q", "dp", "qinv">>,
         how |-> <<"plus2", "zero", "neg", "nonmin", "drop", "carry", "wide">>,
         other |-> <<"none", "swap", "empty", "ones", "qr", "neg", "zero">>,
         tail |-> <<"", "inside", "after">>]
    [] f = "rsapub" ->
        [field |-> <<"none", "n", "e">>,
         how |-> <<"plus2", "zero", "neg", "nonmin", "drop", "huge", "carry", "wide">>,
         tail |-> <<"", "inside", "after">>]
    [] f = "dsa" ->
        [field |-> <<"none", "p", "q", "g", "y">>,
         how |-> <<"plus2", "zero", "neg", "nonmin", "drop", "carry", "wide", "huge">>,
         par |-> <<"right", "set", "four", "tail", "absent", "null", "oid", "swapped", "two", "nested">>,
         pt |-> <<"right", "octets", "seq", "empty", "tail", "cut">>,
         pad |-> <<"0", "1", "7", "8", "bad">>,
         tail |-> <<"", "inside", "after">>]
Places(f) == DOMAIN Menu(f)
Right(f) == [pl \in Places(f) |-> Menu(f)[pl][1]]

Init == /\ fam \in Families
        /\ base \in Bases(fam)
        /\ ch = Right(fam)
        /\ dev = {}
        /\ done = FALSE
Deviate == /\ Cardinality(dev) < MaxDev
        /\ \E pl \in Places(fam) \ dev :
              \E j \in 2..Len(Menu(fam)[pl]) :
                 /\ \A q \in dev : q # pl
                 /\ ch' = [ch EXCEPT ![pl] = Menu(fam)[pl][j]]
                 /\ dev' = dev \cup {pl}
        /\ UNCHANGED <<fam, base, done>>
Finish == /\ ~Each /\ ~done /\ Cardinality(dev) = MaxDev
          /\ done' = TRUE /\ UNCHANGED <<fam, base, ch, dev>>
Next == Deviate \/ Finish
Spec == Init /\ [][Next]_<<fam, base, ch, dev, done>>

RsaNamed(nm) == RsaMat[CHOOSE j \in 1..Len(RsaMat) : RsaMat[j].name = nm]
Der == CASE fam = "sec1" -> Sec1(base, ch.ver, ch.scalar, ch.oid, ch.pub, ch.tail)
         [] fam = "p8" -> P8(base, ch)
         [] fam = "pkix" -> Pkix(base, ch)
         [] fam = "pkcs1" -> Pkcs1(RsaNamed(base), ch.ver, ch.field, ch.how, ch.other, ch.tail)
         [] fam = "rsapub" -> RsaPub(RightRsa, ch.field, ch.how, ch.tail)
         [] fam = "dsa" -> DsaPix(ch)
Fmt == CASE fam = "p8" -> "pkcs8" [] fam = "rsapub" -> "pkcs1pub" [] fam = "dsa" -> "pkix" [] OTHER -> fam

\* every document is printed once; "how" alone changes nothing
Useful == ~(fam \in {"pkcs1", "rsapub", "dsa"} /\ ch.how # "plus2" /\ ch.field = "none")
Emit == Useful /\ (Each \/ done) => PrintT("@SCN@" \o ToJson([fmt |-> Fmt, der |-> Der,
            case |-> base \o FoldLeft(LAMBDA acc, pl : acc \o " " \o pl \o "=" \o ch[pl], "", SetToSeq(dev))]))

\* the two readings agree, and what is not bent is standard
Agree ==
    LET S == Strict(Fmt, Der)
        L == Describes(Fmt, Der)
    IN  /\ S.ok => L = S
        /\ (dev = {} /\ (fam = "pkcs1" => RsaNamed(base).good /\ Len(RsaNamed(base).primes) = 2)) => S.ok
=============================================================================
