----------------------------- MODULE MCSM2Tiny -----------------------------
(* The signing protocol of SM2 - draw a nonce, compute, accept or redraw,   *)
(* fail when the source fails - for every key, digest and nonce sequence of *)
(* a tiny curve of prime order n, plus the algebraic facts on which the     *)
(* trace specifications rely:                                               *)
(*   - what is output verifies (C03), with r, s in range and r+k # n (C06)  *)
(*   - verification accepts exactly the signable pairs (C04)                *)
(*   - a signature determines its nonce, so nonces are observable (C06)     *)
EXTENDS Integers, FiniteSets, TLC, Json

CONSTANTS p, b, n, Gx, Gy

a == p - 3
G == <<Gx, Gy>>
AddMI(x, y, m) == (x + y) % m
SubMI(x, y, m) == (x - y) % m
MulMI(x, y, m) == (x * y) % m
InvT == [m \in {p, n} |-> [x \in 1..(m - 1) |-> CHOOSE y \in 1..(m - 1) : (x * y) % m = 1]]
InvMI(x, m) == InvT[m][x % m]
LessI(x, y) == x < y
RedI(x, m) == x % m
BitsI(k) == [i \in 1..6 |-> (k \div (2^(6 - i))) % 2]

VARIABLES pc,       \* "idle", "draw", "done", "error"
          d, e,     \* key and digest of the current call
          k,        \* last nonce drawn
          sig,      \* output
          why       \* why the last nonce was rejected

vars == <<pc, d, e, k, sig, why>>

S == INSTANCE SM2Sig WITH AddM <- AddMI, SubM <- SubMI, MulM <- MulMI, InvM <- InvMI,
                          Less <- LessI, Zero <- 0, One <- 1, Red <- RedI, BitsOf <- BitsI

Keys == {x \in 0..(n + 1) : S!ValidScalar(x)}
Pub == [x \in Keys |-> S!PubOf(x)]

Init == pc = "idle" /\ d = 0 /\ e = 0 /\ k = 0 /\ sig = <<>> /\ why = ""

Call == /\ pc = "idle"
        /\ \E dd \in Keys, ee \in 0..(n + p) : d' = dd /\ e' = ee
        /\ pc' = "draw" /\ UNCHANGED <<k, sig, why>>

Draw == /\ pc = "draw"
        /\ \E kk \in 1..(n - 1) :
             LET o == S!Outcome(d, e, kk)
             IN  /\ k' = kk
                 /\ sig' = o.sig
                 /\ why' = o.why
                 /\ pc' = IF o.sig = <<>> THEN "draw" ELSE "done"
        /\ UNCHANGED <<d, e>>

SourceFails == /\ pc = "draw"
               /\ pc' = "error" /\ sig' = <<>>
               /\ UNCHANGED <<d, e, k, why>>

Next == Call \/ Draw \/ SourceFails
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Verifies == pc = "done" =>
    LET P == Pub[d] IN S!VerifyE(P[1], P[2], e, sig[1], sig[2])

Ranges == pc = "done" =>
    /\ S!InRange(sig[1]) /\ S!InRange(sig[2])
    /\ (sig[1] + k) % n # 0
    /\ (sig[1] + sig[2]) % n # 0

Determined == pc = "done" => S!ImpliedK(d, sig[1], sig[2]) = k

NoSigOnError == pc # "done" => sig = <<>>

\* for every key and digest, the accepted pairs are exactly the signable ones
AcceptedSet(P, ee) == {rs \in (0..(n + 1)) \X (0..(n + 1)) : S!VerifyE(P[1], P[2], ee, rs[1], rs[2])}
SignableSet(dd, ee) == {S!Outcome(dd, ee, kk).sig : kk \in 1..(n - 1)} \ {<<>>}
Exact == (pc = "draw" /\ k = 0 /\ e <= n) => AcceptedSet(Pub[d], e) = SignableSet(d, e)

\* the group really has order n and is a group
ASSUME GroupOrder == Cardinality({xy \in (0..(p-1)) \X (0..(p-1)) : S!OnCurve(xy[1], xy[2])}) = n - 1
ASSUME GenOrder == S!PMul(n, G) = S!Infinity /\ \A i \in 1..(n-1) : S!PMul(i, G) # S!Infinity
ASSUME Assoc == \A i, j \in 1..(n-1) : S!PAdd(S!PMul(i, G), S!PMul(j, G)) = S!PMul((i + j) % n, G)

\* each reason for a redraw occurs (vacuity)
Reasons == why \in {"", "r=0", "r+k=n", "s=0"}
=============================================================================
