------------------------------ MODULE MCGroup ------------------------------
(* The chord-and-tangent operations of ECGroup are those of a group, for    *)
(* every triple of points of every curve y^2 = x^3 - 3x + b over a small    *)
(* field (points of order two included), and PMul is its scalar multiple.   *)
(* The same law in Jacobian coordinates - how curves of this form are       *)
(* usually implemented, and what the exceptional cases of that are - gives   *)
(* the same points, whatever the representatives chosen.                    *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANT p
a == p - 3
VARIABLES b, P, Q, R

AddMI(x, y, m) == (x + y) % m
SubMI(x, y, m) == (x - y) % m
MulMI(x, y, m) == (x * y) % m
InvT == [x \in 1..(p - 1) |-> CHOOSE y \in 1..(p - 1) : (x * y) % p = 1]
InvMI(x, m) == InvT[x % m]
LessI(x, y) == x < y
BitsI(k) == [j \in 1..7 |-> (k \div (2^(7 - j))) % 2]

E == INSTANCE ECGroup WITH AddM <- AddMI, SubM <- SubMI, MulM <- MulMI, InvM <- InvMI,
                           Less <- LessI, Zero <- 0, BitsOf <- BitsI

F == 0..(p - 1)
Points == {E!Infinity} \cup {xy \in F \X F : E!OnCurve(xy[1], xy[2])}
\* no repeated root: 4 a^3 + 27 b^2 # 0
Smooth(bb) == (4 * a * a * a + 27 * bb * bb) % p # 0

Init == /\ b \in {bb \in F : Smooth(bb)}
        /\ P \in Points /\ Q = E!Infinity /\ R = E!Infinity
\* the points are chosen one after the other
Choose == \/ Q = E!Infinity /\ R = E!Infinity /\ Q' \in Points /\ UNCHANGED <<b, P, R>>
          \/ Q # E!Infinity /\ R = E!Infinity /\ R' \in Points /\ UNCHANGED <<b, P, Q>>
Next == Choose
Spec == Init /\ [][Next]_<<b, P, Q, R>>

Closed == E!PAdd(P, Q) \in Points
Commutes == E!PAdd(P, Q) = E!PAdd(Q, P)
Associates == E!PAdd(E!PAdd(P, Q), R) = E!PAdd(P, E!PAdd(Q, R))
Neutral == E!PAdd(P, E!Infinity) = P /\ E!PAdd(P, E!PNeg(P)) = E!Infinity /\ E!PNeg(P) \in Points
Doubles == E!PDouble(P) = E!PAdd(P, P)

RECURSIVE Times(_, _)
Times(k, S) == IF k = 0 THEN E!Infinity ELSE E!PAdd(Times(k - 1, S), S)
Multiples == (Q = E!Infinity /\ R = E!Infinity) => \A k \in 0..(2 * p + 4) : E!PMul(k, P) = Times(k, P)
Order == (Q = E!Infinity /\ R = E!Infinity) => E!PMul(Cardinality(Points), P) = E!Infinity

----------------------------------------------------------------------------
(* Jacobian coordinates: <<X, Y, Z>> stands for <<X/Z^2, Y/Z^3>>, Z = 0 for infinity *)
Jac(S, z) == IF S = E!Infinity THEN <<z, z, 0>>
             ELSE <<(S[1] * z * z) % p, (S[2] * ((z * z * z) % p)) % p, z>>
Aff(J) == IF J[3] = 0 THEN E!Infinity
          ELSE LET i == InvT[J[3]] IN <<(J[1] * i * i) % p, (J[2] * ((i * i * i) % p)) % p>>
m(x, y) == (x * y) % p
JDouble(J) ==
    LET delta == m(J[3], J[3])
        gamma == m(J[2], J[2])
        beta  == m(J[1], gamma)
        alpha == m(3, m(J[1] - delta, J[1] + delta))
        x3    == (m(alpha, alpha) - 8 * beta) % p
        z3    == (m(J[2] + J[3], J[2] + J[3]) - gamma - delta) % p
        y3    == (m(alpha, 4 * beta - x3) - 8 * m(gamma, gamma)) % p
    IN  <<x3, y3, z3>>
JAdd(J, K) ==
    IF J[3] = 0 THEN K
    ELSE IF K[3] = 0 THEN J
    ELSE LET z1z1 == m(J[3], J[3])
             z2z2 == m(K[3], K[3])
             u1 == m(J[1], z2z2)
             u2 == m(K[1], z1z1)
             s1 == m(m(J[2], K[3]), z2z2)
             s2 == m(m(K[2], J[3]), z1z1)
             h  == (u2 - u1) % p
             r  == m(2, s2 - s1)
             i  == m(2 * h, 2 * h)
             j  == m(h, i)
             v  == m(u1, i)
             x3 == (m(r, r) - j - 2 * v) % p
         IN  IF u1 = u2 /\ s1 = s2 THEN JDouble(J)
             ELSE <<x3, (m(r, v - x3) - 2 * m(s1, j)) % p, m((m(J[3] + K[3], J[3] + K[3]) - z1z1 - z2z2) % p, h)>>
Jacobian == R = E!Infinity =>
    \A z1, z2 \in 1..(p - 1) :
        /\ Aff(Jac(P, z1)) = P
        /\ Aff(JDouble(Jac(P, z1))) = E!PDouble(P)
        /\ Aff(JAdd(Jac(P, z1), Jac(Q, z2))) = E!PAdd(P, Q)
=============================================================================
