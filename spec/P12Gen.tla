------------------------------- MODULE P12Gen -------------------------------
(* PKCS#12 stores by their design: a choice for every part, of which at     *)
(* most MaxDev deviate from a plain store.  The driver writes the store     *)
(* with its own cryptography; P12Trace says what it holds.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDev, Each, Bases,
  Within     \* the parts that may deviate; all if empty
VARIABLES base, ch, dev, done

Menu ==
  [pw      |-> <<"plain", "empty", "nil", "unicode", "top", "long", "exact", "exactplus", "twoblocks", "space", "controls", "nul", "nulend">>,
   \* the password given when decoding
   dpw     |-> <<"same", "other", "case", "prefix", "suffix", "empty", "space", "high", "low", "swapped", "nulend", "twice", "astral", "astralcut", "badutf8", "surrogate", "bom", "composed">>,
   key     |-> <<"sm2", "rsa", "p256", "p384", "p224", "p521", "ed25519", "rsa3", "shortsm2", "shortp256">>,
   msalt   |-> <<"8", "0", "1", "20", "63", "64", "65", "128", "200">>,
   miter   |-> <<"absent", "one", "2", "7", "2048", "0", "-1", "100000", "bound", "over", "huge", "negative", "wide">>,
   mac     |-> <<"good", "firstbit", "lastbit", "short", "long", "empty", "id1", "id2", "tlv", "sha256", "md5", "noparams", "nulls", "absent", "zero", "nosalt", "unterminated", "latin">>,
   version |-> <<"3", "0", "1", "2", "4", "259", "-3", "long">>,
   outer   |-> <<"data", "signed", "nocontent", "emptycontent", "constructed", "utf8", "twoinside", "trailing", "innertrailing", "set", "macset", "extra", "macextra">>,
   safes   |-> <<"encdata", "dataenc", "encenc", "datadata", "one", "onlykey", "three", "threeempty", "none", "enveloped", "encversion", "enctype", "encprimitive", "encnone", "datatrailing",
                 "dataconstructed", "bagstrailing", "bagsset", "keyfirst", "together", "notype">>,
   calg    |-> <<"rc2-40", "3des", "rc2-128", "rc4", "pbes2", "3des-2key">>,
   kalg    |-> <<"3des", "rc2-40", "rc2-128", "rc4", "pbes2", "3des-2key">>,
   csalt   |-> <<"8", "0", "1", "20", "64", "65", "lead0", "lead1", "carry">>,
   ksalt   |-> <<"8", "0", "1", "20", "64", "65", "lead0", "lead1", "carry", "lead00", "lead11", "carry1", "short", "stale">>,
   citer   |-> <<"1", "2", "2048", "0", "-1", "over", "huge", "missing">>,
   kiter   |-> <<"1", "2", "2048", "0", "-1", "over", "huge", "missing">>,
   cpad    |-> <<"good", "zero", "nine", "last", "first", "middle", "more", "less", "none", "all", "cut", "longer", "empty", "twofifty">>,
   kpad    |-> <<"good", "zero", "nine", "last", "first", "middle", "more", "less", "none", "all", "cut", "longer", "empty", "twofifty">>,
   \* the bags beside the key's
   certs   |-> <<"A", "A ca", "A ca root", "ca A", "none", "A A", "junk", "A junk", "A sdsi", "A crl", "twoinone", "certtrailing", "emptybag", "notoctets", "bagextra", "p256", "rsa", "A other", "other A", "plainkey", "A nested", "badid">>,
   keys    |-> <<"one", "none", "two", "same", "bad", "badfirst", "badsecond", "plain", "unshrouded", "trailing", "sec1", "emptykey", "junk", "garbage", "keybagtrailing", "certinkey">>,
   cattrs  |-> <<"id", "none", "empty", "name", "csp", "both", "all", "nameempty", "namenul", "nameterm", "nameodd", "namepair", "namelone", "nameutf8", "nametwo", "namenone", "idstring", "idempty", "unknown", "twice", "notset", "attrextra", "attrshort">>,
   kattrs  |-> <<"id", "none", "empty", "name", "csp", "both", "all", "nameempty", "namenul", "nameterm", "nameodd", "namepair", "namelone", "nameutf8", "nametwo", "namenone", "idstring", "idempty", "unknown", "twice", "notset", "attrextra", "attrshort">>]
Places == DOMAIN Menu
Free == IF Within = {} THEN Places ELSE Within
\* a plain store of a key named
Right(b) == [pl \in Places |-> IF pl = "key" THEN b ELSE Menu[pl][1]]

Init == base \in Bases /\ ch = Right(base) /\ dev = {} /\ done = FALSE
Deviate == /\ Cardinality(dev) < MaxDev
           /\ \E pl \in Free \ dev : \E j \in {k \in 1..Len(Menu[pl]) : Menu[pl][k] # Right(base)[pl]} : ch' = [ch EXCEPT ![pl] = Menu[pl][j]] /\ dev' = dev \cup {pl}
           /\ UNCHANGED <<base, done>>
Finish == ~Each /\ ~done /\ Cardinality(dev) = MaxDev /\ done' = TRUE /\ UNCHANGED <<base, ch, dev>>
Next == Deviate \/ Finish
Spec == Init /\ [][Next]_<<base, ch, dev, done>>

RECURSIVE Show(_)
Show(ps) == IF ps = {} THEN "" ELSE LET pl == CHOOSE x \in ps : TRUE IN pl \o "=" \o ch[pl] \o "; " \o Show(ps \ {pl})
Emit == (Each \/ done) => PrintT("@SCN@" \o ToJson([case |-> IF dev = {} THEN "plain " \o base ELSE base \o ": " \o Show(dev), ch |-> ch]))
=============================================================================
