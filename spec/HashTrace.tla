----------------------------- MODULE HashTrace -----------------------------
(* Validates recorded histories of digest identifiers: what each says of    *)
(* itself, objects made from it (several at a time, written, summed and     *)
(* reset), and the registry behind New and Available.  One line of the      *)
(* trace is one history.                                                    *)
EXTENDS HashIds, TraceBase

Objs == 1..6

VARIABLES alg,    \* [Objs -> function of the object, "" for none]
          hist,   \* [Objs -> what was written since the last reset]
          reg,    \* [Ids -> "own" (comes with the package), "" (nothing), or what was registered]
          h, l, bad

vars == <<alg, hist, reg, h, l, bad>>

Init == /\ alg = [o \in Objs |-> ""]
        /\ hist = [o \in Objs |-> <<>>]
        /\ reg = [j \in Ids |-> IF Linked(j) THEN "own" ELSE ""]
        /\ h \in 1..Len(Trace)
        /\ l = 1
        /\ bad = ""

E == Trace[h].ev[l]

\* an object of identifier E.j in slot E.o
New == /\ E.op = "new"
       /\ alg' = [alg EXCEPT ![E.o] = HashTable[E.j].alg]
       /\ hist' = [hist EXCEPT ![E.o] = <<>>]
       /\ UNCHANGED reg
       /\ bad' = IF E.panic # "" THEN "new: panic"
                 ELSE IF E.size # HashTable[E.j].size THEN "new: wrong Size"
                 ELSE IF E.bsize # BlockOf(HashTable[E.j].alg) THEN "new: wrong BlockSize"
                 ELSE ""

Write == /\ E.op = "write"
         /\ hist' = [hist EXCEPT ![E.o] = @ \o E.d]
         /\ UNCHANGED <<alg, reg>>
         /\ bad' = IF E.panic # "" THEN "write: panic"
                   ELSE IF E.n # Len(E.d) THEN "write: wrong length returned"
                   ELSE IF E.err # "" THEN "write: error returned"
                   ELSE IF ~E.same THEN "write: caller's buffer changed"
                   ELSE ""

Sum == /\ E.op = "sum"
       /\ UNCHANGED <<alg, hist, reg>>
       /\ bad' = IF E.panic # "" THEN "sum: panic"
                 ELSE IF E.out # E.pre \o DigestOf(alg[E.o], hist[E.o]) THEN "sum: not the digest the identifier names"
                 ELSE IF ~E.same THEN "sum: caller's prefix changed"
                 ELSE ""

Reset == /\ E.op = "reset"
         /\ hist' = [hist EXCEPT ![E.o] = <<>>]
         /\ UNCHANGED <<alg, reg>>
         /\ bad' = IF E.panic # "" THEN "reset: panic" ELSE ""

\* what identifier E.j (0 when it is none; E.dec in decimal) says of itself
Static == /\ E.op = "static"
          /\ UNCHANGED <<alg, hist, reg>>
          /\ bad' = IF E.j = 0 THEN
                      (IF E.str # "unknown hash value " \o E.dec THEN "static: name of an unknown digest"
                       ELSE IF E.size # -1 THEN "static: size of an unknown digest"
                       ELSE IF E.avail \/ E.made THEN "static: unknown digest available"
                       ELSE IF E.func # E.dec THEN "static: HashFunc"
                       ELSE "")
                    ELSE IF E.str # HashTable[E.j].str THEN "static: name"
                    ELSE IF E.size # HashTable[E.j].size THEN "static: size"
                    ELSE IF E.avail # Linked(E.j) THEN "static: availability"
                    ELSE IF E.made # Linked(E.j) THEN "static: New"
                    ELSE IF E.func # E.dec THEN "static: HashFunc"
                    ELSE IF ~E.std THEN "static: another digest than in package crypto"
                    ELSE ""

\* names of algorithms
Name == /\ E.op = "name"
        /\ UNCHANGED <<alg, hist, reg>>
        /\ bad' = LET t == IF E.of = "signature" THEN SigNames ELSE KeyNames
                  IN  IF E.panic # "" THEN "name: panic"
                      ELSE IF E.str # (IF E.j \in DOMAIN t THEN t[E.j] ELSE E.dec) THEN "name: " \o E.of \o " algorithm"
                      ELSE ""

\* the registry: E.tag "" takes the function out
Register == /\ E.op = "register"
            /\ UNCHANGED <<alg, hist>>
            /\ reg' = [reg EXCEPT ![E.j] = E.tag]
            /\ bad' = IF E.panic # "" THEN "register: panic" ELSE ""
Ask == /\ E.op = "ask"
       /\ UNCHANGED <<alg, hist, reg>>
       /\ bad' = IF E.avail # (reg[E.j] # "") THEN "ask: availability"
                 ELSE IF E.made # reg[E.j] THEN "ask: another function than the registered one"
                 ELSE IF E.size # HashTable[E.j].size THEN "ask: size"
                 ELSE ""
Beyond == /\ E.op = "beyond"
          /\ UNCHANGED <<alg, hist, reg>>
          /\ bad' = IF E.panic = "" THEN "register: unknown identifier accepted" ELSE ""

Next == /\ bad = ""
        /\ l <= Len(Trace[h].ev)
        /\ New \/ Write \/ Sum \/ Reset \/ Static \/ Name \/ Register \/ Ask \/ Beyond
        /\ l' = l + 1
        /\ h' = h
Spec == Init /\ [][Next]_vars

Good == bad = "" \/ Report([h |-> Trace[h].id, l |-> l - 1, why |-> bad, case |-> Trace[h].case])
\* fingerprint without the bulky parts: h and l determine the rest
View == <<h, l, bad>>
=============================================================================
