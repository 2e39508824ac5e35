---------------------------- MODULE SelfCheckPki ----------------------------
(* As SelfCheck, for the cryptography of certificates and containers.       *)
EXTENDS PubKey, P12Crypto, TLC

LOCAL Byte(seed, j) == ((seed * 7919 + j * j * 131 + j * 8191 + 17) % 65521) % 256
Sample(seed, len) == [j \in 1..len |-> Byte(seed, j)]
ABC == <<97, 98, 99>>

\* the digests, around the ends of their blocks
Lens == {0, 1, 55, 56, 63, 64, 65, 111, 112, 119, 120, 128, 130}
ASSUME Md5Ok == \A l \in Lens : MD5(Sample(l, l)) = MD5Def(Sample(l, l))
ASSUME Sha1Ok == \A l \in Lens : SHA1(Sample(l, l)) = SHA1Def(Sample(l, l))
ASSUME Sha224Ok == \A l \in Lens : SHA224(Sample(l, l)) = SHA224Def(Sample(l, l))
ASSUME Sha256Ok == \A l \in Lens : SHA256(Sample(l, l)) = SHA256Def(Sample(l, l))
ASSUME Sha384Ok == \A l \in Lens : SHA384(Sample(l, l)) = SHA384Def(Sample(l, l))
ASSUME Sha512Ok == \A l \in Lens : SHA512(Sample(l, l)) = SHA512Def(Sample(l, l))
ASSUME Sha512t224Ok == \A l \in Lens : SHA512t224(Sample(l, l)) = SHA512_224Def(Sample(l, l))
ASSUME Sha512t256Ok == \A l \in Lens : SHA512t256(Sample(l, l)) = SHA512_256Def(Sample(l, l))
ASSUME Sha3Ok ==
    /\ \A l \in {0, 143, 144} : SHA3n224(Sample(l, l)) = SHA3_224Def(Sample(l, l))
    /\ \A l \in {1, 135, 136} : SHA3n256(Sample(l, l)) = SHA3_256Def(Sample(l, l))
    /\ \A l \in {55, 103, 104} : SHA3n384(Sample(l, l)) = SHA3_384Def(Sample(l, l))
    /\ \A l \in {70, 71, 72} : SHA3n512(Sample(l, l)) = SHA3_512Def(Sample(l, l))
ASSUME RipemdOk == \A l \in Lens : RIPEMD160(Sample(l, l)) = RIPEMD160Def(Sample(l, l))
ASSUME Vectors ==
    /\ MD5Def(ABC) = <<144,1,80,152,60,210,79,176,214,150,63,125,40,225,127,114>>
    /\ SHA1Def(ABC) = <<169,153,62,54,71,6,129,106,186,62,37,113,120,80,194,108,156,208,216,157>>
    /\ RIPEMD160Def(ABC) = <<142,178,8,247,224,93,152,122,155,4,74,142,152,198,176,135,241,90,11,252>>
    /\ SHA3_256Def(ABC) = <<58,152,93,167,79,226,37,178,4,92,23,45,107,211,144,189,133,95,8,110,62,157,82,91,70,191,226,69,17,67,21,50>>
    /\ SHA512_256Def(ABC) = <<83,4,142,38,129,148,30,249,155,46,41,183,107,76,125,171,228,194,208,198,52,252,109,70,224,226,241,49,7,231,175,35>>
    /\ SHA256Def(ABC) = <<186,120,22,191,143,1,207,234,65,65,64,222,93,174,34,35,176,3,97,163,150,23,122,156,180,16,255,97,242,0,21,173>>
\* RFC 2202, test 2
ASSUME HmacVector == HMAC("sha1", <<74, 101, 102, 101>>, <<119,104,97,116,32,100,111,32,121,97,32,119,97,110,116,32,102,111,114,32,110,111,116,104,105,110,103,63>>)
                     = <<239,252,223,106,229,235,47,162,210,116,22,213,241,132,223,156,37,154,124,121>>

\* the curves: the base point is on the curve and has the order given
ASSUME CurvesOk == \A c \in Curves : CurveOn(c, CurveG(c)[1], CurveG(c)[2]) /\ CurveMul(c, CurveN(c), CurveG(c)) = Infinity
                                     /\ CurveMul(c, BSub(CurveN(c), <<1>>), CurveG(c))[1] = CurveG(c)[1]
\* RFC 8032, 7.1, test 1
LOCAL EdPt == <<215,90,152,1,130,177,10,183,213,75,254,211,201,100,7,58,14,225,114,243,218,166,35,37,175,2,26,104,247,7,81,26>>
LOCAL EdSig == <<229,86,67,0,195,96,172,114,144,134,226,204,128,110,130,138,132,135,127,30,184,229,217,116,216,115,224,101,34,73,1,85,95,184,130,21,144,163,59,172,198,30,57,112,28,249,180,107,210,91,245,240,89,91,190,36,101,81,65,67,142,122,16,11>>
ASSUME EdVector ==
    /\ EdPublic(<<157,97,177,157,239,253,90,96,186,132,74,244,146,236,44,196,68,73,197,105,123,50,105,25,112,59,172,3,28,174,127,96>>) = EdPt
    /\ EdVerify(EdPt, <<>>, EdSig)
    /\ ~EdVerify(EdPt, <<0>>, EdSig)
    /\ \A j \in {1, 32, 33, 64} : ~EdVerify(EdPt, <<>>, [EdSig EXCEPT ![j] = @ ^^ 1])

\* triple DES and RC2
ASSUME DesOk == \A s \in 1..3 : DES3CBC(Sample(s, 24), Sample(s + 9, 8), Sample(s + 20, 24)) = DES3CBCDef(Sample(s, 24), Sample(s + 9, 8), Sample(s + 20, 24))
ASSUME DesInverse == DES3Decrypt(Sample(5, 24), DES3Encrypt(Sample(5, 24), Sample(6, 8))) = Sample(6, 8)
ASSUME DesVector == LET k == <<19,52,87,121,155,188,223,241>> IN DES3Encrypt(k \o k \o k, <<1,35,69,103,137,171,205,239>>) = <<133,232,19,84,15,10,180,5>>
ASSUME Rc2Ok == \A s \in 5..24 : RC2CBC(Sample(s, s * 5), s * 42, Sample(s + 9, 8), Sample(s + 20, 24)) = RC2CBCDef(Sample(s, s * 5), s * 42, Sample(s + 9, 8), Sample(s + 20, 24))
ASSUME Rc2Inverse == \A s \in 1..6 : LET K == RC2Schedule(Sample(s, s * 20), 40 + s) IN RC2Decrypt(K, RC2Encrypt(K, Sample(s, 8))) = Sample(s, 8)
\* RFC 2268, section 5
ASSUME Rc2Vectors ==
    LET z == <<0, 0, 0, 0, 0, 0, 0, 0>>
    IN  /\ RC2Encrypt(RC2Schedule(z, 63), z) = <<235,183,115,249,147,39,142,255>>
        /\ RC2Encrypt(RC2Schedule(<<136>>, 64), z) = <<97,168,162,68,173,172,204,240>>
\* the key derivation: salts and passwords of one block and more, outputs of one hash and more
ASSUME KdfOk == \A s \in 0..8 : P12KDF(1 + (s % 3), Sample(s, s * 9), Sample(s + 3, (s * 14) % 67), 1 + (s % 3), 5 + (s * 7))
                              = P12KDFDef(1 + (s % 3), Sample(s, s * 9), Sample(s + 3, (s * 14) % 67), 1 + (s % 3), 5 + (s * 7))
\* with a carry through the whole block
ASSUME KdfCarryOk == LET ff == [j \in 1..64 |-> 255] IN P12KDF(1, ff, ff, 1, 60) = P12KDFDef(1, ff, ff, 1, 60)

VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
