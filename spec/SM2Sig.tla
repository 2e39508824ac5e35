------------------------------- MODULE SM2Sig -------------------------------
(* The SM2 signature scheme (GM/T 0003.2-2012) as relations between a       *)
(* private scalar d, public point P, digest number e, nonce k and pair      *)
(* (r, s), over any curve.  MCSM2Tiny explores it exhaustively on tiny      *)
(* curves; SM2Real instantiates it with the SM2 curve for trace validation. *)
EXTENDS ECGroup

CONSTANTS n,            \* group order (prime)
          G,            \* base point
          One,
          Red(_, _)     \* reduction of any number

InRange(x) == x # Zero /\ Less(x, n)                       \* 1 <= x <= n-1
ValidScalar(d) == InRange(d) /\ AddM(d, One, n) # Zero     \* 1 <= d <= n-2

PubOf(d) == PMul(d, G)

\* ---- signing, one attempt with nonce k: either a signature or a reason to
\*      draw another nonce
RAttempt(e, k) == AddM(Red(e, n), Red(PMul(k, G)[1], n), n)
SAttempt(d, k, r) == MulM(InvM(AddM(d, One, n), n), SubM(k, MulM(r, d, n), n), n)

Outcome(d, e, k) ==
    LET r == RAttempt(e, k)
        s == SAttempt(d, k, r)
    IN  IF r = Zero THEN [sig |-> <<>>, why |-> "r=0"]
        ELSE IF AddM(r, k, n) = Zero THEN [sig |-> <<>>, why |-> "r+k=n"]
        ELSE IF s = Zero THEN [sig |-> <<>>, why |-> "s=0"]
        ELSE [sig |-> <<r, s>>, why |-> ""]

\* ---- verification of (r, s) for digest e under the point <<x, y>>
VerifyE(x, y, e, r, s) ==
    /\ OnCurve(x, y)
    /\ InRange(r)
    /\ InRange(s)
    /\ LET t == AddM(r, s, n)
       IN  /\ t # Zero
           /\ LET R == PAdd(PMul(s, G), PMul(t, <<x, y>>))
              IN  /\ R # Infinity
                  /\ AddM(Red(e, n), Red(R[1], n), n) = r

\* ---- the only nonce a signature of this key can come from
ImpliedK(d, r, s) == AddM(MulM(s, AddM(d, One, n), n), MulM(r, d, n), n)
=============================================================================
