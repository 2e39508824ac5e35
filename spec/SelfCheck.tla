----------------------------- MODULE SelfCheck -----------------------------
(* The accelerators of spec/java agree with the TLA+ definitions they       *)
(* replace, and the specification reproduces published values.              *)
EXTENDS SM2Real, TLC

\* pseudo-random bytes for samples
LOCAL Byte(seed, j) == ((seed * 7919 + j * j * 131 + j * 8191 + 17) % 65521) % 256
Sample(seed, len) == [j \in 1..len |-> Byte(seed, j)]
SampleNat(seed, len) == BNormDef(Sample(seed, len))

Pairs == {<<SampleNat(s, 1 + ((s * 5) % 34)), SampleNat(s + 100, 1 + ((s * 3) % 33))>> : s \in 1..12}

ASSUME AddOk == \A q \in Pairs : BAdd(q[1], q[2]) = BAddDef(q[1], q[2])
ASSUME MulOk == \A q \in Pairs : BMul(q[1], q[2]) = BMulDef(q[1], q[2])
ASSUME LtOk  == \A q \in Pairs : BLt(q[1], q[2]) = BLtDef(q[1], q[2]) /\ BLt(q[1], q[1]) = FALSE
ASSUME SubOk == \A q \in Pairs : LET s == BAddDef(q[1], q[2]) IN BSub(s, q[1]) = q[2] /\ BSubDef(s, q[1]) = q[2]
ASSUME DivOk == \A q \in Pairs : q[2] # <<>> =>
            LET dm == BDivModDef(q[1], q[2])
            IN  BDiv(q[1], q[2]) = dm[1] /\ BMod(q[1], q[2]) = dm[2]
ASSUME BitsOk == \A q \in Pairs : BBits(q[1]) = BBitsDef(q[1])
ASSUME InvOk == \A q \in Pairs : LET x == BMod(q[1], P256)
                                 IN x # <<>> => BMulMod(x, BInvMod(x, P256), P256) = <<1>>
ASSUME ExpOk == BExpMod(<<5>>, <<1, 1>>, <<3, 233>>) = BExpModDef(<<5>>, <<1, 1>>, <<3, 233>>)

ASSUME CFOk == \A s \in 1..6 :
    LET v == CFDef(IV, Sample(s, 64)) IN CF(IV, Sample(s, 64)) = v /\ CF(v, Sample(s + 50, 64)) = CFDef(v, Sample(s + 50, 64))
ASSUME CFIterOk == CFIter(IV, Sample(3, 128), 3) =
    LET two(v) == CFDef(CFDef(v, SubSeq(Sample(3, 128), 1, 64)), SubSeq(Sample(3, 128), 65, 128))
    IN  two(two(two(IV)))

\* GM/T 0004-2012, A.1
ASSUME SM3Vector == SM3Digest(<<97, 98, 99>>) =
  <<102,199,240,244,98,238,237,217,209,242,212,107,220,16,228,226,65,103,196,135,92,242,247,162,41,125,160,43,143,75,168,224>>

\* GM/T 0003.5-2012, example of a signature (A.2)
LOCAL dA == <<57,69,32,143,123,33,68,177,63,54,227,138,198,211,159,149,136,147,147,105,40,96,181,26,66,251,129,239,77,247,197,184>>
LOCAL kA == <<89,39,110,39,213,6,134,26,22,104,15,58,217,192,45,204,239,60,193,250,60,219,228,206,109,84,184,13,234,193,188,33>>
LOCAL PA == PubOf(dA)
LOCAL eA == MsgDigest(PA[1], PA[2], <<>>, <<109,101,115,115,97,103,101,32,100,105,103,101,115,116>>)
ASSUME SM2Vector ==
    LET o == Outcome(dA, eA, kA)
    IN  /\ SubSeq(o.sig[1], 1, 4) = <<245, 160, 59, 6>>       \* F5A03B06...
        /\ SubSeq(o.sig[2], 1, 4) = <<177, 182, 170, 41>>     \* B1B6AA29...
        /\ VerifyE(PA[1], PA[2], eA, o.sig[1], o.sig[2])
        /\ ImpliedK(dA, o.sig[1], o.sig[2]) = kA
ASSUME CurveOk == OnCurve(GX, GY) /\ PMul(N256, <<GX, GY>>) = Infinity

\* encryption and decryption of the specification are inverse
ASSUME EncOk == LET m == Sample(9, 40) c == EncryptE(PA, m, kA) IN DecryptE(dA, c) = [ok |-> TRUE, msg |-> m]

VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
