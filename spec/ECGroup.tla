------------------------------- MODULE ECGroup -------------------------------
(* The group of points of  y^2 = x^3 + a x + b  over a prime field, affine, *)
(* by the chord-and-tangent rule.  Infinity is <<>>, other points <<x, y>>. *)
(* Numbers are whatever the arithmetic operators work on: TLC integers for  *)
(* tiny curves, BigNat byte sequences for the SM2 curve.                    *)
EXTENDS Sequences, SequencesExt

CONSTANTS p, a, b,           \* field and curve
          AddM(_, _, _), SubM(_, _, _), MulM(_, _, _), InvM(_, _),   \* arithmetic mod the last argument
          Less(_, _),        \* order of numbers
          Zero,
          BitsOf(_)          \* bits of a scalar, most significant first

Infinity == <<>>

FAdd(x, y) == AddM(x, y, p)
FSub(x, y) == SubM(x, y, p)
FMul(x, y) == MulM(x, y, p)
FSq(x)     == MulM(x, x, p)

Rhs(x) == FAdd(FAdd(FMul(FSq(x), x), FMul(a, x)), b)

\* a pair of numbers is a point of the curve (coordinates reduced)
OnCurve(x, y) == Less(x, p) /\ Less(y, p) /\ FSq(y) = Rhs(x)

PNeg(P) == IF P = Infinity THEN P ELSE <<P[1], FSub(Zero, P[2])>>

LOCAL Line(P, Q, lam) ==
    LET x3 == FSub(FSub(FSq(lam), P[1]), Q[1])
    IN  <<x3, FSub(FMul(lam, FSub(P[1], x3)), P[2])>>

PDouble(P) ==
    IF P = Infinity \/ P[2] = Zero THEN Infinity
    ELSE LET xx  == FSq(P[1])
             num == FAdd(FAdd(FAdd(xx, xx), xx), a)
         IN  Line(P, P, FMul(num, InvM(FAdd(P[2], P[2]), p)))

PAdd(P, Q) ==
    IF P = Infinity THEN Q
    ELSE IF Q = Infinity THEN P
    ELSE IF P[1] = Q[1] THEN (IF P[2] = Q[2] THEN PDouble(P) ELSE Infinity)
    ELSE Line(P, Q, FMul(FSub(Q[2], P[2]), InvM(FSub(Q[1], P[1]), p)))

\* [k]P
PMul(k, P) ==
    FoldLeft(LAMBDA acc, bit :
                LET d == PDouble(acc) IN IF bit = 1 THEN PAdd(d, P) ELSE d,
             Infinity, BitsOf(k))
=============================================================================
