------------------------------ MODULE CurveGen ------------------------------
(* Calls of the operations of the curve object: which points, which scalars *)
(* (as octet strings of any length), which pairs of numbers that may or may *)
(* not be a point, which encodings of points.  CurveTrace judges what comes *)
(* back.                                                                    *)
EXTENDS SM2Real, FiniteSets, TLC, Json

CONSTANT Full       \* every scalar with every point, every power of two

VARIABLE s

n1 == BSub(N256, <<1>>)
Half == BDiv(N256, <<2>>)
BExp2Def(k) == <<2^(k % 8)>> \o [j \in 1..(k \div 8) |-> 0]

G0 == <<GX, GY>>
Digest(j) == SM3Digest(<<j, 83>>)

\* roots: p is 3 mod 4
RootExp == BDiv(BAdd(P256, <<1>>), <<4>>)
YOf(x) == BExpMod(Rhs(x), RootExp, P256)
Lifts(x) == LET y == YOf(x) IN FSq(y) = Rhs(x)
Num(j) == IF j = 0 THEN <<>> ELSE IF j < 256 THEN <<j>> ELSE <<j \div 256, j % 256>>

ScalarsOfPoints == << <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<15>>, <<16>>, <<17>>, n1, BSub(N256, <<2>>), Half, BAdd(Half, <<1>>),
                      BMod(Digest(1), N256), BMod(Digest(2), N256), BMod(Digest(3), N256) >>
LowX  == {Num(j) : j \in {j \in 0..12 : Lifts(Num(j))}}
HighX == {BSub(P256, Num(j)) : j \in {j \in 1..12 : Lifts(BSub(P256, Num(j)))}}
PointsAt(xs) == UNION {{<<x, YOf(x)>>, PNeg(<<x, YOf(x)>>)} : x \in xs}
Finite == {PMul(ScalarsOfPoints[j], G0) : j \in 1..Len(ScalarsOfPoints)} \cup PointsAt(LowX) \cup PointsAt(HighX)
Some  == {G0, PMul(n1, G0), PMul(<<2>>, G0), PMul(BMod(Digest(1), N256), G0)} \cup PointsAt({CHOOSE x \in LowX : TRUE})

\* scalars
Rep(o, k) == [j \in 1..k |-> o]
Runs == {Rep(o, k) : o \in {1, 15, 16, 85, 127, 128, 170, 240, 255}, k \in {1, 8, 31, 32, 33}}
Near == UNION {{BMul(N256, Num(j)), BAdd(BMul(N256, Num(j)), <<1>>), BAdd(BMul(N256, Num(j)), <<2>>), BSub(BMul(N256, Num(j)), <<1>>), BSub(BMul(N256, Num(j)), <<2>>)} : j \in {1, 2, 3, 255, 256}}
Powers == UNION {{BExp2Def(k), BSub(BExp2Def(k), <<1>>), BAdd(BExp2Def(k), <<1>>)} : k \in {k \in 1..(IF Full THEN 530 ELSE 264) : Full \/ k % 16 \in {0, 15} \/ k \in 254..258 \/ k < 8}}
Small == {Num(j) : j \in 0..40}
Padded == {Rep(0, j) \o k : j \in {1, 2, 31, 40}, k \in {<<>>, <<1>>, <<2>>, N256, n1, Digest(4)}}
Random == {SubSeq(Digest(j) \o Digest(j + 40) \o Digest(j + 80), 1, l) : j \in 5..(IF Full THEN 24 ELSE 7), l \in {8, 31, 32, 33, 40, 64, 65, 96}}
Holes == {SubSeq(Digest(j), 1, k) \o Rep(0, z) \o SubSeq(Digest(j), 1, 32 - k - z) : j \in {30}, k \in {0, 1, 8, 16, 31}, z \in {1, 7, 8, 16}}
Others == {P256, BSub(P256, N256), BDiv(N256, <<3>>), Half, BAdd(Half, <<1>>)}
Scalars == Runs \cup Near \cup Powers \cup Small \cup Padded \cup Random \cup {k \in Holes : Len(k) = 32} \cup Others
Few == { <<>>, <<0>>, <<1>>, <<2>>, <<3>>, <<7>>, n1, N256, BAdd(N256, <<1>>), BMul(N256, <<2>>), Half, BAdd(Half, <<1>>), Digest(1), Digest(2) \o Digest(3), Rep(255, 32), <<0, 0, 5>> }

Pt(P) == IF P = Infinity THEN <<<<>>, <<>>>> ELSE P
Z(neg, m) == [neg |-> neg, mag |-> m]
Bin(op, P, Q) == [op |-> op, x |-> Z(FALSE, Pt(P)[1]), y |-> Z(FALSE, Pt(P)[2]), x2 |-> Z(FALSE, Pt(Q)[1]), y2 |-> Z(FALSE, Pt(Q)[2]), k |-> <<>>]
Times(op, P, k) == [Bin(op, P, Infinity) EXCEPT !.k = k]
At(x, y) == [Bin("on", Infinity, Infinity) EXCEPT !.x = x, !.y = y]
Enc(op, o) == [Bin(op, Infinity, Infinity) EXCEPT !.k = o]

All == Finite \cup {Infinity}
Adds == {Bin("add", P, Q) : P \in (IF Full THEN All ELSE Some \cup {Infinity}), Q \in All} \cup {Bin("add", P, P) : P \in All} \cup {Bin("add", P, PNeg(P)) : P \in All}
        \cup {Bin("add", P, PDouble(P)) : P \in All} \cup {Bin("add", PDouble(P), P) : P \in All} \cup {Bin("add", PDouble(P), PNeg(P)) : P \in All}
Doubles == {Bin("double", P, Infinity) : P \in All}
Bases == {Times("base", G0, k) : k \in Scalars}
Mults == {Times("mult", P, k) : P \in (IF Full THEN Finite ELSE {CHOOSE P \in Finite \ {G0} : TRUE}), k \in Scalars} \cup {Times("mult", P, k) : P \in All, k \in Few}

Pos(x) == Z(FALSE, x)
Neg(x) == Z(x # <<>>, x)
TwoTo(k) == BExp2Def(k)
OnVariants(P) ==
    LET x == P[1]
        y == P[2]
    IN  {<<Pos(x), Pos(y)>>, <<Pos(x), Neg(y)>>, <<Neg(x), Pos(y)>>, <<Neg(x), Neg(y)>>, <<Pos(y), Pos(x)>>,
         <<Pos(x), Pos(FSub(<<>>, y))>>, <<Pos(FSub(<<>>, x)), Pos(y)>>,
         <<Pos(BAdd(x, P256)), Pos(y)>>, <<Pos(x), Pos(BAdd(y, P256))>>, <<Pos(BAdd(x, P256)), Pos(BAdd(y, P256))>>,
         <<Pos(BAdd(x, BMul(P256, <<2>>))), Pos(y)>>, <<Pos(BAdd(x, TwoTo(256))), Pos(y)>>, <<Pos(x), Pos(BAdd(y, TwoTo(256)))>>,
         <<Pos(x), Pos(BAdd(y, TwoTo(512)))>>,
         <<Neg(BSub(P256, x)), Pos(y)>>, <<Pos(x), Neg(BSub(P256, y))>>, <<Neg(BSub(P256, x)), Neg(BSub(P256, y))>>,
         <<Pos(BAdd(x, <<1>>)), Pos(y)>>, <<Pos(x), Pos(BAdd(y, <<1>>))>>, <<Pos(x), Pos(<<>>)>>, <<Pos(<<>>), Pos(y)>>,
         <<Pos(BMod(BAdd(x, N256), P256)), Pos(y)>>, <<Pos(BMod(x, TwoTo(255))), Pos(y)>>}
OnOdd == {<<Pos(x), Pos(y)>> : x, y \in {<<>>, <<1>>, P256, BSub(P256, <<1>>), N256, B256, GX, GY, BSub(TwoTo(256), <<1>>)}}
Ons == {At(v[1], v[2]) : v \in OnOdd \cup UNION {OnVariants(P) : P \in (IF Full THEN Finite ELSE Some \cup PointsAt(LowX))}}

\* encodings of points
PointOctets(P) == <<4>> \o Bytes32(P[1]) \o Bytes32(P[2])
EncVariants(P) ==
    LET o == PointOctets(P)
        u == Tail(o)
        big == BAdd(P[1], P256)
    IN  {o, Tail(o), o \o <<0>>, SubSeq(o, 1, 64), <<0>>, <<>>, <<4>>} \cup {<<h>> \o u : h \in {0, 2, 3, 5, 6, 7, 68, 132, 255}}
        \cup {[o EXCEPT ![j] = (@ + 1) % 256] : j \in {2, 33, 34, 65}} \cup {<<4>> \o Bytes32(P[2]) \o Bytes32(P[1])}
        \cup (IF Len(big) <= 32 THEN {<<4>> \o Bytes32(big) \o Bytes32(P[2])} ELSE {})
CompVariants(P) ==
    LET u == Bytes32(P[1])
        big == BAdd(P[1], P256)
    IN  {<<h>> \o u : h \in {0, 2, 3, 4, 5, 6, 7, 130, 255}} \cup {u, <<2>> \o u \o <<0>>, <<2>> \o Tail(u), <<2>>, <<>>, <<3>> \o Bytes32(BMod(BAdd(P[1], <<1>>), P256)), <<2>> \o Bytes32(BMod(BAdd(P[1], <<2>>), P256))}
        \cup (IF Len(big) <= 32 THEN {<<2>> \o Bytes32(big)} ELSE {})
EncPoints == IF Full THEN Finite ELSE Some \cup PointsAt(LowX)
Encs == {Bin("octets", P, Infinity) : P \in Finite}
        \cup UNION {{Enc("point", o) : o \in EncVariants(P)} : P \in EncPoints} \cup UNION {{Enc("compressed", o) : o \in CompVariants(P)} : P \in EncPoints}

Init == s \in Adds \cup Doubles \cup Bases \cup Mults \cup Ons \cup Encs \cup {Bin("params", Infinity, Infinity)}
Next == FALSE /\ s' = s
Spec == Init /\ [][Next]_s
Emit == PrintT("@SCN@" \o ToJson(s))
=============================================================================
