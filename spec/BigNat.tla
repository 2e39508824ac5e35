------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size as big-endian byte sequences without leading *)
(* zeros (0 is <<>>).  The definitions are schoolbook; spec/java/BigNat.java*)
(* replaces the B... operators for speed and SelfCheck.tla compares the two.*)
EXTENDS Integers, Sequences, SequencesExt

LOCAL Mx(x, y) == IF x > y THEN x ELSE y

\* strip leading zeros
BNormDef(s) ==
    LET nz == {i \in 1..Len(s) : s[i] # 0}
    IN  IF nz = {} THEN <<>>
        ELSE SubSeq(s, CHOOSE i \in nz : \A j \in nz : i <= j, Len(s))

LOCAL Digit(a, i) == IF i <= Len(a) THEN a[Len(a) + 1 - i] ELSE 0   \* i-th from the right

\* carry propagation: ds is little-endian with digits of any small size
LOCAL Carry(ds) ==
    LET r == FoldLeft(LAMBDA acc, d :
                LET t == d + acc[2] IN << <<t % 256>> \o acc[1], t \div 256 >>,
                << <<>>, 0 >>, ds)
    IN  BNormDef(<<r[2] \div 65536, (r[2] \div 256) % 256, r[2] % 256>> \o r[1])

BAddDef(a, b) == Carry([i \in 1..(Mx(Len(a), Len(b)) + 1) |-> Digit(a, i) + Digit(b, i)])

BMulDef(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE Carry([k \in 1..(Len(a) + Len(b)) |->
            FoldLeft(LAMBDA s, i : s + Digit(a, i) * Digit(b, k + 1 - i), 0,
                     [i \in 1..(IF k < Len(a) THEN k ELSE Len(a)) |-> i])])

BLtDef(a, b) ==
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \E i \in 1..Len(a) : a[i] < b[i] /\ SubSeq(a, 1, i-1) = SubSeq(b, 1, i-1)

\* a - b for a >= b
BSubDef(a, b) ==
    LET r == FoldLeft(LAMBDA acc, i :
                LET t == Digit(a, i) - Digit(b, i) - acc[2]
                IN  << <<t % 256>> \o acc[1], IF t < 0 THEN 1 ELSE 0 >>,
                << <<>>, 0 >>, [i \in 1..Len(a) |-> i])
    IN  BNormDef(r[1])

LOCAL BitAt(x, i) == (x \div (2^(7 - i))) % 2                 \* i = 0 is the top bit
\* bits, most significant first (leading zeros of the first byte included)
BBitsDef(a) == FlattenSeq([j \in 1..Len(a) |-> [i \in 1..8 |-> BitAt(a[j], i - 1)]])

\* <<quotient, remainder>> by binary long division
BDivModDef(a, m) ==
    LET r == FoldLeft(LAMBDA acc, bit :
                LET t == BAddDef(BAddDef(acc[2], acc[2]), IF bit = 1 THEN <<1>> ELSE <<>>)
                    q == BAddDef(acc[1], acc[1])
                IN  IF BLtDef(t, m) THEN <<q, t>>
                    ELSE <<BAddDef(q, <<1>>), BSubDef(t, m)>>,
                << <<>>, <<>> >>, BBitsDef(a))
    IN r
BModDef(a, m) == BDivModDef(a, m)[2]

\* a^-1 mod m (m prime): a^(m-2)
BExpModDef(a, e, m) ==
    FoldLeft(LAMBDA acc, bit :
                LET sq == BModDef(BMulDef(acc, acc), m)
                IN  IF bit = 1 THEN BModDef(BMulDef(sq, a), m) ELSE sq,
             BModDef(<<1>>, m), BBitsDef(e))

BNorm(s)        == BNormDef(s)
BAdd(a, b)      == BAddDef(a, b)
BSub(a, b)      == BSubDef(a, b)
BMul(a, b)      == BMulDef(a, b)
BMod(a, m)      == BModDef(a, m)
BDiv(a, m)      == BDivModDef(a, m)[1]
BLt(a, b)       == BLtDef(a, b)
BBits(a)        == BBitsDef(a)
BAddMod(a, b, m) == BModDef(BAddDef(a, b), m)
BSubMod(a, b, m) == BModDef(BSubDef(BAddDef(BModDef(a, m), m), BModDef(b, m)), m)
BMulMod(a, b, m) == BModDef(BMulDef(a, b), m)
BExpMod(a, e, m) == BExpModDef(a, e, m)
BInvMod(a, m)   == BExpModDef(a, BSubDef(m, <<2>>), m)        \* m prime, a mod m # 0

\* exactly n bytes, left-padded with zeros
BFixed(a, n)    == IF Len(a) > n THEN a ELSE [i \in 1..(n - Len(a)) |-> 0] \o a
BLe(a, b)       == ~BLt(b, a)
=============================================================================
