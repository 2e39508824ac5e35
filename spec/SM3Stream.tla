----------------------------- MODULE SM3Stream -----------------------------
(* Design model of a set of streaming hash objects, for any block size and  *)
(* any compression function.  It has the structure of sm3.digest: a         *)
(* chaining value, a tail buffer of fewer than BlockSize bytes, a length.   *)
(* The compression function is a parameter.  MCSM3Stream makes it           *)
(* uninterpreted (the chaining value is the sequence of blocks absorbed, so *)
(* two block sequences never give one value) and checks for every chunking  *)
(* and interleaving that an object's digest is the one-shot digest of what  *)
(* was written since the last reset and that no operation on one object     *)
(* touches another.  SM3Trace makes it the real SM3 and validates recorded  *)
(* executions of the Go code, action by action.                             *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

CONSTANTS BlockSize,      \* bytes per block
          Objects,        \* hash objects
          Chunks,         \* what one write may carry
          MaxLen,         \* longest message
          Compress(_, _), \* chaining value, block -> chaining value
          Start,          \* initial chaining value
          Pad(_),         \* message length -> padding
          Output(_)       \* chaining value -> digest

VARIABLES chain,   \* [Objects -> sequence of blocks absorbed]
          tail,    \* [Objects -> bytes not yet absorbed]
          len,     \* [Objects -> bytes written]
          hist,    \* history: [Objects -> everything written since reset]
          out      \* last Sum: <<object, value>> or <<>>

vars == <<chain, tail, len, hist, out>>

\* blocks of a byte sequence whose length is a multiple of BlockSize
Chop(m) == [i \in 1..(Len(m) \div BlockSize) |->
              SubSeq(m, (i-1) * BlockSize + 1, i * BlockSize)]

\* Merkle-Damgard strengthening with a one-byte length field L
Fold(v, m) == FoldLeft(Compress, v, Chop(m))

\* the definition: the digest of a whole message
OneShot(m) == Output(Fold(Start, m \o Pad(Len(m))))

\* chunk c absorbed by state (ch, t)
AbsorbChain(ch, t, c) ==
    LET all == t \o c
        k   == Len(all) \div BlockSize
    IN  Fold(ch, SubSeq(all, 1, k * BlockSize))
AbsorbTail(t, c) ==
    LET all == t \o c
        k   == Len(all) \div BlockSize
    IN  SubSeq(all, k * BlockSize + 1, Len(all))

Finish(ch, t, n) == Output(AbsorbChain(ch, t, Pad(n)))

Init == /\ chain = [o \in Objects |-> Start]
        /\ tail  = [o \in Objects |-> <<>>]
        /\ len   = [o \in Objects |-> 0]
        /\ hist  = [o \in Objects |-> <<>>]
        /\ out   = <<>>

Write(o, c) ==
    /\ Len(hist[o]) + Len(c) <= MaxLen
    /\ chain' = [chain EXCEPT ![o] = AbsorbChain(chain[o], tail[o], c)]
    /\ tail'  = [tail  EXCEPT ![o] = AbsorbTail(tail[o], c)]
    /\ len'   = [len   EXCEPT ![o] = @ + Len(c)]
    /\ hist'  = [hist  EXCEPT ![o] = @ \o c]
    /\ out'   = <<>>

Sum(o) ==
    /\ out' = <<o, Finish(chain[o], tail[o], len[o])>>
    /\ UNCHANGED <<chain, tail, len, hist>>

Reset(o) ==
    /\ chain' = [chain EXCEPT ![o] = Start]
    /\ tail'  = [tail  EXCEPT ![o] = <<>>]
    /\ len'   = [len   EXCEPT ![o] = 0]
    /\ hist'  = [hist  EXCEPT ![o] = <<>>]
    /\ out'   = <<>>

Next == \E o \in Objects : \/ \E c \in Chunks : Write(o, c)
                           \/ Sum(o)
                           \/ Reset(o)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TypeOK == /\ \A o \in Objects : Len(tail[o]) < BlockSize
          /\ \A o \in Objects : len[o] = Len(hist[o])

\* every chunking gives the one-shot digest
DigestInv == \A o \in Objects :
                 Finish(chain[o], tail[o], len[o]) = OneShot(hist[o])

\* what Sum returns is that digest
SumInv == out # <<>> => out[2] = OneShot(hist[out[1]])

\* distinct messages are never confused (injective padding)
PadInjective == \A o, p \in Objects :
                   OneShot(hist[o]) = OneShot(hist[p]) => hist[o] = hist[p]

\* an operation changes at most one object; Sum changes none
Isolated == [][Cardinality({o \in Objects : chain'[o] # chain[o] \/ tail'[o] # tail[o]
                                        \/ len'[o] # len[o]}) <= 1]_vars
SumReadOnly == [][out' # <<>> => UNCHANGED <<chain, tail, len, hist>>]_vars
=============================================================================
