------------------------------ MODULE SM3Trace ------------------------------
(* Validates recorded histories of hash objects against SM3Stream with the  *)
(* real SM3.  One line of the trace is one history: [id, ev: sequence of    *)
(* events].  Every event is one call of the Go API with its arguments and   *)
(* everything it returned; the specification's action is taken with these   *)
(* arguments and its result compared with the recorded one.                 *)
EXTENDS SM3, TraceBase, FiniteSets

Objs == 1..6

VARIABLES chain, tail, len, hist, out,
          h,      \* which history
          l,      \* next event of it
          bad     \* "" or why the last event is not allowed

S == INSTANCE SM3Stream WITH
        BlockSize <- 64, Objects <- Objs, Chunks <- {}, MaxLen <- 1073741824,
        Compress <- CF, Start <- IV, Output <- Out,
        Pad <- LAMBDA n : Padding(n \div 1048576, n % 1048576)

Init == /\ S!Init
        /\ h \in 1..Len(Trace)
        /\ l = 1
        /\ bad = ""

E == Trace[h].ev[l]

\* a Write returns the length and no error, leaves the buffer alone
TWrite == /\ E.op = "write"
          /\ S!Write(E.o, E.d)
          /\ bad' = IF E.panic # "" THEN "write: panic"
                    ELSE IF E.n # Len(E.d) THEN "write: wrong length returned"
                    ELSE IF E.err # "" THEN "write: error returned"
                    ELSE IF ~E.same THEN "write: caller's buffer changed"
                    ELSE ""

TSum == /\ E.op = "sum"
        /\ S!Sum(E.o)
        /\ bad' = IF E.panic # "" THEN "sum: panic"
                  ELSE IF E.out # E.pre \o out'[2] THEN "sum: not prefix and digest"
                  ELSE IF ~E.same THEN "sum: caller's prefix changed"
                  ELSE ""

TReset == /\ E.op = "reset"
          /\ S!Reset(E.o)
          /\ bad' = IF E.panic # "" THEN "reset: panic" ELSE ""

\* a new object in slot o: same effect as a reset of the slot
TNew == /\ E.op = "new"
        /\ S!Reset(E.o)
        /\ bad' = IF E.panic # "" THEN "new: panic"
                  ELSE IF E.size # 32 \/ E.bsize # 64 THEN "new: wrong Size or BlockSize"
                  ELSE ""

\* the one-shot function
TOne == /\ E.op = "one"
        /\ UNCHANGED <<chain, tail, len, hist, out>>
        /\ bad' = IF E.panic # "" THEN "one-shot: panic"
                  ELSE IF E.out # SM3Digest(E.d) THEN "one-shot: wrong digest"
                  ELSE IF ~E.same THEN "one-shot: input changed"
                  ELSE ""

\* a long message pat^n tail, streamed or one-shot
TLong == /\ E.op = "long"
         /\ UNCHANGED <<chain, tail, len, hist, out>>
         /\ bad' = IF E.panic # "" THEN "long: panic"
                   ELSE IF E.out # SM3Long(E.pat, E.n, E.tail, E.mb, E.lo)
                        THEN "long: wrong digest"
                   ELSE ""

Next == /\ bad = ""
        /\ l <= Len(Trace[h].ev)
        /\ TWrite \/ TSum \/ TReset \/ TNew \/ TOne \/ TLong
        /\ l' = l + 1
        /\ h' = h

Spec == Init /\ [][Next]_<<chain, tail, len, hist, out, h, l, bad>>

\* the digest of the incremental state is the digest of the history
HistInv == out # <<>> /\ Len(hist[out[1]]) <= 256 => out[2] = SM3Digest(hist[out[1]])

Good == bad = "" \/ Report([h |-> Trace[h].id, l |-> l - 1, why |-> bad, ev |-> Trace[h].ev[l - 1]])

\* fingerprint without the bulky parts: h and l determine the rest
View == <<h, l, bad>>
=============================================================================
