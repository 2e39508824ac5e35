------------------------------ MODULE TurnsGen ------------------------------
(* One question in turn with one that differs from it in a single place.    *)
(* The arguments of a call are drawn from small tables the driver holds: a  *)
(* question is a vector of positions in them.  A caller asks one, then one  *)
(* that differs in a single argument, then the first again.  The answer of  *)
(* a library that keeps nothing it may not keep is a function of the vector *)
(* (Calls: every answer is Alone); one that keeps answers or parts of them  *)
(* under less than all of the arguments gives the second question the       *)
(* answer of the first, for one of the arguments left out.  Every question, *)
(* every argument and both directions are enumerated; the trace             *)
(* specifications of the packages judge each answer by its arguments alone. *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANT Ops

\* how many values each argument of an operation is drawn from
Dims(op) ==
    CASE op = "digest"    -> <<3, 5, 3>>              \* key (one, its negative, another), user id, message
      [] op = "sign"      -> <<3, 2, 2, 2>>           \* key, user id, message, entry points
      [] op = "signdig"   -> <<3, 3, 2>>              \* key, digest, entry points
      [] op = "verify"    -> <<3, 2, 2, 4>>           \* key, user id, message, signature
      [] op = "verifydig" -> <<3, 3, 4>>              \* key, digest, signature
      [] op = "encrypt"   -> <<3, 3, 2>>              \* key, message, source
      [] op = "decrypt"   -> <<3, 3, 5>>              \* key, first point (one, its negative, another), rest
      [] op = "on"        -> <<4, 5>>                 \* coordinates
      [] op = "mult"      -> <<4, 5>>                 \* point, scalar
      [] op = "base"      -> <<6>>
      [] op = "add"       -> <<5, 5>>
      [] op = "checksig"  -> <<4, 3, 2, 5>>           \* key, algorithm, message, signature
      [] op \in {"csrobj", "crlobj"} -> <<4, 3, 2, 5>> \* the same, of a request's or a list's fields
      [] op = "fromobj"   -> <<3, 3, 2, 3, 3>>        \* the same, of a certificate's, and what its parent may do
      [] op = "marshal"   -> <<3, 11>>                \* key, kind and format
      [] op = "parse"     -> <<3, 3, 11>>             \* private part, public part, kind and format
      [] op = "p7obj"     -> <<3, 5, 6>>              \* content, certificates, signers of one parsed message
      [] op = "p12"       -> <<2, 2, 2, 2, 3, 2, 2>>  \* salt and count of the MAC, of the bags, cipher, password, the reader's

VARIABLES op, from, to
vars == <<op, from, to>>

Max(s) == CHOOSE m \in {s[j] : j \in 1..Len(s)} : \A j \in 1..Len(s) : s[j] <= m
Questions(d) == {v \in [1..Len(d) -> 1..Max(d)] : \A j \in 1..Len(d) : v[j] <= d[j]}

Init == op \in Ops /\ from \in Questions(Dims(op)) /\ to = <<>>
Next == /\ to = <<>>
        /\ \E j \in 1..Len(from) : \E x \in 1..Dims(op)[j] : x # from[j] /\ to' = [from EXCEPT ![j] = x]
        /\ UNCHANGED <<op, from>>
Spec == Init /\ [][Next]_vars
Emit == to # <<>> => PrintT("@SCN@" \o ToJson([op |-> op, from |-> from, to |-> to]))
=============================================================================
