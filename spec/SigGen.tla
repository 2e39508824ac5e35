------------------------------- MODULE SigGen -------------------------------
(* SM2 signatures by their design.  A signature is made with the private    *)
(* key so that it satisfies a given form of the verification equation: the  *)
(* standard's, or with at most MaxDev places another than the standard's -  *)
(* each is what some careless verifier would accept.  The driver solves for *)
(* the signature with its own arithmetic; SM2Trace (which knows nothing of  *)
(* the design) says whether it is a signature.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDev, Each
VARIABLES ch, dev, done

Menu ==
  [form   |-> <<"digest", "message">>,
   key    |-> <<"random", "one", "two", "last", "shortx", "shorty">>,
   \* the digest's length, and the number made of it
   len    |-> <<"32", "0", "1", "20", "31", "33", "48", "64", "100">>,
   e      |-> <<"good", "head31", "tail31", "low128", "high128", "reversed", "zero", "hashed", "head32", "tail32", "shifted", "complement", "bits256", "plus1", "wordsreversed", "text">>,
   \* what is hashed for a message
   z      |-> <<"good", "none", "nouid", "default", "octets", "noent", "nokey", "noparams", "xonly", "stripped", "twice", "after", "lenlittle", "head16", "sha">>,
   uid    |-> <<"none", "default", "16", "1", "31", "32", "high", "8191">>,
   nonce  |-> <<"random", "one", "last", "shortx">>,
   \* r from e and the point
   r      |-> <<"good", "x", "e", "minus", "reverse", "y", "xor", "xlow", "product", "xplus1">>,
   \* the scalar of the public key
   t      |-> <<"sum", "r", "s", "minus", "reverse", "product", "one", "sum1", "double">>,
   \* the sides of the equation
   sides  |-> <<"good", "swapped", "minus", "negated", "both", "noG", "double">>,
   \* how the point found is compared with r: r differs where a careless comparison does not look
   cmp    |-> <<"good", "highbit", "lowbit", "head4", "head16", "head31", "tail1", "tail16", "tail31", "complement", "plus1", "minus1">>,
   \* the numbers that are sent, the equation holding for the reduced, absolute or whole ones
   sentr  |-> <<"good", "plusn", "plus2n", "minusn", "negative", "over", "plusp">>,
   sents  |-> <<"good", "plusn", "plus2n", "minusn", "negative", "over", "other", "plusp">>,
   der    |-> <<"none", "good", "nonmin", "nonminS", "longlen", "longint", "trail", "third", "set", "raw", "swapped", "unsigned", "octets", "indef", "inner", "bits", "cut", "enum", "twice", "zero">>]
Places == DOMAIN Menu
Right == [pl \in Places |-> Menu[pl][1]]

Init == ch \in {Right, [Right EXCEPT !.form = "message"]} /\ dev = {} /\ done = FALSE
Deviate == /\ Cardinality(dev) < MaxDev
           /\ \E pl \in Places \ (dev \cup {"form"}) : \E j \in 2..Len(Menu[pl]) : ch' = [ch EXCEPT ![pl] = Menu[pl][j]] /\ dev' = dev \cup {pl}
           /\ UNCHANGED done
Finish == ~Each /\ ~done /\ Cardinality(dev) = MaxDev /\ done' = TRUE /\ UNCHANGED <<ch, dev>>
Next == Deviate \/ Finish
Spec == Init /\ [][Next]_<<ch, dev, done>>

RECURSIVE Show(_)
Show(ps) == IF ps = {} THEN "" ELSE LET pl == CHOOSE x \in ps : TRUE IN pl \o "=" \o ch[pl] \o "; " \o Show(ps \ {pl})
\* what is hashed, and the user id, only matter for messages; the digest's length only for digests
Useful == /\ ch.form = "digest" => ch.z = "good" /\ ch.uid = "none"
          /\ ch.form = "message" => ch.len = "32"
Emit == (Each \/ done) /\ Useful => PrintT("@SCN@" \o ToJson([case |-> ch.form \o ": " \o IF dev = {} THEN "as the standard says" ELSE Show(dev), ch |-> ch]))
=============================================================================
