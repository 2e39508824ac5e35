------------------------------- MODULE EncGen -------------------------------
(* SM2 ciphertexts by their design: how each part is made from a random     *)
(* nonce, a key and a message, with at most MaxDev parts not made as the    *)
(* standard says.  The driver makes the ciphertext with its own arithmetic  *)
(* and has it decrypted; SM2Trace (which knows nothing of the design) says  *)
(* what it holds.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDev, Each
VARIABLES ch, dev, done

Menu ==
  [key    |-> <<"own", "negated", "other", "plus1", "half", "one", "last", "short">>,
   len    |-> <<"20", "1", "2", "31", "32", "33", "64", "65", "96", "200">>,
   msg    |-> <<"random", "zeros", "ones", "leadzero", "tailzero", "periodic">>,
   nonce  |-> <<"random", "one", "two", "last", "short">>,
   \* the point that is sent for the nonce's
   c1     |-> <<"good", "negated", "other", "swapped", "yplus1", "ybit", "xplus1", "xbit", "zero", "xonly", "yonly", "xplusp", "swapoctets", "pair", "infinity", "pub">>,
   form   |-> <<"04", "00", "02", "03", "05", "06", "07", "84", "ff", "missing", "twice", "padded", "compressed", "hybrid">>,
   \* the key stream
   stream |-> <<"good", "from2", "from0", "little", "yx", "xonly", "yonly", "x1", "none", "stale", "same", "sm3z">>,
   c2     |-> <<"good", "bit", "first", "last", "pair", "pairsum", "swapnear", "swapfar", "blocks", "reversed", "complement", "zeros", "longer", "shorter", "headcut", "rotated", "empty", "twice", "lastzero">>,
   \* what is hashed
   hashed |-> <<"good", "xy", "yx", "m", "xm", "my", "yswap", "stripped", "withc1", "c2", "twice", "sha", "lenm", "mcut">>,
   c3     |-> <<"good", "bit", "high", "first", "last", "pair", "pairsum", "swapnear", "swapfar", "words", "halves", "reversed", "wordsreversed", "rotated", "complement", "zeros", "ones",
                "head1", "head4", "head8", "head16", "head24", "head31", "tail1", "tail4", "tail8", "tail16", "tail31", "even", "odd", "xor", "sum", "cut", "longer", "empty", "lownibbles">>,
   order  |-> <<"132", "123", "213", "312", "asn1">>,
   tail   |-> <<"none", "zero", "one", "octets", "again">>]
Places == DOMAIN Menu
Right == [pl \in Places |-> Menu[pl][1]]

Init == ch = Right /\ dev = {} /\ done = FALSE
Deviate == /\ Cardinality(dev) < MaxDev
           /\ \E pl \in Places \ dev : \E j \in 2..Len(Menu[pl]) : ch' = [ch EXCEPT ![pl] = Menu[pl][j]] /\ dev' = dev \cup {pl}
           /\ UNCHANGED done
Finish == ~Each /\ ~done /\ Cardinality(dev) = MaxDev /\ done' = TRUE /\ UNCHANGED <<ch, dev>>
Next == Deviate \/ Finish
Spec == Init /\ [][Next]_<<ch, dev, done>>

RECURSIVE Show(_)
Show(ps) == IF ps = {} THEN "" ELSE LET pl == CHOOSE x \in ps : TRUE IN pl \o "=" \o ch[pl] \o "; " \o Show(ps \ {pl})
Emit == (Each \/ done) => PrintT("@SCN@" \o ToJson([case |-> IF dev = {} THEN "as the standard says" ELSE Show(dev), ch |-> ch]))
=============================================================================
