----------------------------- MODULE CurveTrace -----------------------------
(* Judges recorded calls of the curve object of package sm2: parameters,    *)
(* membership, the group operations, and the encodings of points that       *)
(* crypto/elliptic makes with it.  (0, 0) stands for infinity.              *)
EXTENDS SM2Real, TraceBase

ChunkLen == 4
VARIABLE i

Init == i \in {j \in 1..Len(Trace) : j % ChunkLen = 1}
Next == /\ i % ChunkLen # 0
        /\ i < Len(Trace)
        /\ i' = i + 1
Spec == Init /\ [][Next]_i

RootExp == BDiv(BAdd(P256, <<1>>), <<4>>)

PointOf(x, y) == IF x = <<>> /\ y = <<>> THEN Infinity ELSE <<x, y>>
\* what came back is this point
Is(E, P) ==
    LET q == IF P = Infinity THEN <<<<>>, <<>>>> ELSE P
    IN  E.got /\ ~E.ox.neg /\ ~E.oy.neg /\ E.ox.mag = q[1] /\ E.oy.mag = q[2]
Nothing(E) == ~E.got

\* all operations: twice the same although the first result was overwritten, arguments as they were
Common(E) ==
    IF E.panic # "" THEN "panic or hang"
    ELSE IF ~E.kept THEN "an argument was changed"
    ELSE IF ~E.again THEN "not the same the second time"
    ELSE ""

Params(E) ==
    IF E.p # P256 \/ E.n # N256 \/ E.b # B256 \/ E.gx # GX \/ E.gy # GY \/ E.a # A256 \/ E.bits # 256 THEN "not the parameters of the standard" ELSE ""

Group(E) ==
    LET P == PointOf(E.x.mag, E.y.mag)
        Q == PointOf(E.x2.mag, E.y2.mag)
        want == CASE E.op = "add" -> PAdd(P, Q)
                  [] E.op = "double" -> PDouble(P)
                  [] E.op = "mult" -> PMul(BNorm(E.k), P)
                  [] E.op = "base" -> PMul(BNorm(E.k), <<GX, GY>>)
    IN  IF ~Is(E, want) THEN "wrong point" ELSE ""

On(E) ==
    IF E.on # (~E.x.neg /\ ~E.y.neg /\ OnCurve(E.x.mag, E.y.mag))
    THEN (IF E.on THEN "not a point of the curve, but said to be" ELSE "a point of the curve, but said not to be") ELSE ""

Octets(E) ==
    IF E.o1 # <<4>> \o Bytes32(E.x.mag) \o Bytes32(E.y.mag) THEN "wrong octets of a point"
    ELSE IF E.o2 # <<2 + (IF E.y.mag = <<>> THEN 0 ELSE E.y.mag[Len(E.y.mag)] % 2)>> \o Bytes32(E.x.mag) THEN "wrong octets of a compressed point"
    ELSE ""

Point(E) ==
    LET x == BNorm(SubSeq(E.k, 2, 33))
        y == BNorm(SubSeq(E.k, 34, 65))
        ok == Len(E.k) = 65 /\ E.k[1] = 4 /\ OnCurve(x, y)
    IN  IF ok /\ ~Is(E, <<x, y>>) THEN "octets of a point refused or another point"
        ELSE IF ~ok /\ ~Nothing(E) THEN "octets of no point accepted"
        ELSE ""

Compressed(E) ==
    LET x == BNorm(SubSeq(E.k, 2, 33))
        r == BExpMod(Rhs(x), RootExp, P256)
        ok == Len(E.k) = 33 /\ E.k[1] \in {2, 3} /\ BLt(x, P256) /\ FSq(r) = Rhs(x)
        odd == r[Len(r)] % 2
        y == IF odd = E.k[1] - 2 THEN r ELSE FSub(<<>>, r)
    IN  IF ok /\ ~Is(E, <<x, y>>) THEN "octets of a compressed point refused or another point"
        ELSE IF ~ok /\ ~Nothing(E) THEN "octets of no compressed point accepted"
        ELSE ""

Verdict(E) ==
    LET w == CASE E.panic # "" -> ""
               [] E.op = "params" -> Params(E)
               [] E.op \in {"add", "double", "mult", "base"} -> Group(E)
               [] E.op = "on" -> On(E)
               [] E.op = "octets" -> Octets(E)
               [] E.op = "point" -> Point(E)
               [] E.op = "compressed" -> Compressed(E)
        c == Common(E)
    IN  IF c # "" THEN E.op \o ": " \o c ELSE IF w # "" THEN E.op \o ": " \o w ELSE ""

Good == LET v == Verdict(Trace[i])
        IN  v = "" \/ Report([i |-> i, why |-> v, op |-> Trace[i].op, case |-> Trace[i].case])
=============================================================================
