------------------------------ MODULE SM2Real ------------------------------
(* SM2 on its curve (GM/T 0003.5-2012 parameters), with digests, signatures *)
(* and encryption, over BigNat numbers.                                     *)
EXTENDS BigNat, SM3

P256 == <<255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,255,255,255,255,255,255,255,255>>
A256 == <<255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,255,255,255,255,255,255,255,252>>
B256 == <<40,233,250,158,157,159,94,52,77,90,158,75,207,101,9,167,243,151,137,245,21,171,143,146,221,188,189,65,77,148,14,147>>
N256 == <<255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,114,3,223,107,33,198,5,43,83,187,244,9,57,213,65,35>>
GX   == <<50,196,174,44,31,25,129,25,95,153,4,70,106,57,201,148,143,227,11,191,242,102,11,225,113,90,69,137,51,76,116,199>>
GY   == <<188,55,54,162,244,246,119,156,89,189,206,227,107,105,33,83,208,169,135,124,198,42,71,64,2,223,50,229,33,57,240,160>>

INSTANCE SM2Sig WITH
    p <- P256, a <- A256, b <- B256, n <- N256, G <- <<GX, GY>>,
    AddM <- BAddMod, SubM <- BSubMod, MulM <- BMulMod, InvM <- BInvMod,
    Less <- BLt, Zero <- <<>>, One <- <<1>>, Red <- BMod, BitsOf <- BBits

Bytes32(x) == BFixed(x, 32)

----------------------------------------------------------------------------
(* GM/T 0003.2 (5.5): Z and the digest                                      *)
DefaultUid == <<49,50,51,52,53,54,55,56,49,50,51,52,53,54,55,56>>
UidOk(uid) == Len(uid) * 8 <= 65535
ZValue(x, y, uid) ==
    LET id == IF uid = <<>> THEN DefaultUid ELSE uid
        bl == Len(id) * 8
    IN  SM3Digest(<<bl \div 256, bl % 256>> \o id \o A256 \o Bytes32(B256)
                  \o Bytes32(GX) \o Bytes32(GY) \o Bytes32(x) \o Bytes32(y))
MsgDigest(x, y, uid, msg) == SM3Digest(ZValue(x, y, uid) \o msg)

----------------------------------------------------------------------------
(* GM/T 0003.4: encryption as a relation                                    *)
AllZero(s) == \A i \in 1..Len(s) : s[i] = 0
XorBytes(s, t) == [i \in 1..Len(s) |-> s[i] ^^ t[i]]

\* decryption of a byte string with scalar d: [ok, msg]
Refused == [ok |-> FALSE, msg |-> <<>>]
DecryptE(d, c) ==
    IF Len(c) < 98 THEN Refused
    ELSE IF c[1] # 4 THEN Refused
    ELSE LET x  == BNorm(SubSeq(c, 2, 33))
             y  == BNorm(SubSeq(c, 34, 65))
             c3 == SubSeq(c, 66, 97)
             c2 == SubSeq(c, 98, Len(c))
         IN  IF ~OnCurve(x, y) THEN Refused
             ELSE LET S == PMul(d, <<x, y>>)
                  IN  IF S = Infinity THEN Refused
                      ELSE LET x2 == Bytes32(S[1])
                               y2 == Bytes32(S[2])
                               ks == KDF(x2 \o y2, Len(c2))
                               m  == XorBytes(c2, ks)
                           IN  IF AllZero(ks) THEN Refused
                               ELSE IF SM3Digest(x2 \o m \o y2) # c3 THEN Refused
                               ELSE [ok |-> TRUE, msg |-> m]

\* the ciphertext of msg for point Q with nonce k, or <<>> when k must be redrawn
EncryptE(Q, msg, k) ==
    LET C1 == PMul(k, <<GX, GY>>)
        S  == PMul(k, Q)
        x2 == Bytes32(S[1])
        y2 == Bytes32(S[2])
        ks == KDF(x2 \o y2, Len(msg))
    IN  IF AllZero(ks) THEN <<>>
        ELSE <<4>> \o Bytes32(C1[1]) \o Bytes32(C1[2])
             \o SM3Digest(x2 \o msg \o y2) \o XorBytes(msg, ks)
=============================================================================
