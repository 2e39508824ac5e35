------------------------------ MODULE PubKey ------------------------------
(* Public-key algorithms of certificates and containers: RSA (PKCS#1 v1.5   *)
(* and PSS, RFC 8017), ECDSA on the NIST curves (FIPS 186-4), Ed25519 (RFC  *)
(* 8032) and SM2 (SM2Real).                                                 *)
(* A public key is a record [kind, curve, x, y, n, e, pt]: kind "rsa" uses  *)
(* n and e, "ecdsa" and "sm2" use curve, x, y, "ed25519" uses pt (32        *)
(* octets); the other fields are empty.                                     *)
EXTENDS SM2Real, DER, Hashes

NoKey == [kind |-> "none", curve |-> "", x |-> <<>>, y |-> <<>>, n |-> <<>>, e |-> <<>>, pt |-> <<>>]
RsaKey(n, e)        == [NoKey EXCEPT !.kind = "rsa", !.n = n, !.e = e]
EcKey(c, x, y)      == [NoKey EXCEPT !.kind = IF c = "SM2" THEN "sm2" ELSE "ecdsa", !.curve = c, !.x = x, !.y = y]
DsaKey(p, q, g, y) == [NoKey EXCEPT !.kind = "dsa", !.n = p, !.e = q, !.x = g, !.y = y]
EdKey(pt)           == [NoKey EXCEPT !.kind = "ed25519", !.pt = pt]

NP224p == <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,0,0,0,0,0,0,0,1>>
NP224b == <<180,5,10,133,12,4,179,171,245,65,50,86,80,68,176,183,215,191,216,186,39,11,57,67,35,85,255,180>>
NP224n == <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,22,162,224,184,240,62,19,221,41,69,92,92,42,61>>
NP224gx == <<183,14,12,189,107,180,191,127,50,19,144,185,74,3,193,211,86,194,17,34,52,50,128,214,17,92,29,33>>
NP224gy == <<189,55,99,136,181,247,35,251,76,34,223,230,205,67,117,160,90,7,71,100,68,213,129,153,133,0,126,52>>
NP224 == INSTANCE ECGroup WITH p <- NP224p, a <- BSub(NP224p, <<3>>), b <- NP224b, AddM <- BAddMod,
          SubM <- BSubMod, MulM <- BMulMod, InvM <- BInvMod, Less <- BLt, Zero <- <<>>, BitsOf <- BBits

NP256p == <<255,255,255,255,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,255,255,255,255,255,255,255,255,255,255,255,255>>
NP256b == <<90,198,53,216,170,58,147,231,179,235,189,85,118,152,134,188,101,29,6,176,204,83,176,246,59,206,60,62,39,210,96,75>>
NP256n == <<255,255,255,255,0,0,0,0,255,255,255,255,255,255,255,255,188,230,250,173,167,23,158,132,243,185,202,194,252,99,37,81>>
NP256gx == <<107,23,209,242,225,44,66,71,248,188,230,229,99,164,64,242,119,3,125,129,45,235,51,160,244,161,57,69,216,152,194,150>>
NP256gy == <<79,227,66,226,254,26,127,155,142,231,235,74,124,15,158,22,43,206,51,87,107,49,94,206,203,182,64,104,55,191,81,245>>
NP256 == INSTANCE ECGroup WITH p <- NP256p, a <- BSub(NP256p, <<3>>), b <- NP256b, AddM <- BAddMod,
          SubM <- BSubMod, MulM <- BMulMod, InvM <- BInvMod, Less <- BLt, Zero <- <<>>, BitsOf <- BBits

NP384p == <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,0,0,0,0,0,0,0,0,255,255,255,255>>
NP384b == <<179,49,47,167,226,62,231,228,152,142,5,107,227,248,45,25,24,29,156,110,254,129,65,18,3,20,8,143,80,19,135,90,198,86,57,141,138,46,209,157,42,133,200,237,211,236,42,239>>
NP384n == <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,199,99,77,129,244,55,45,223,88,26,13,178,72,176,167,122,236,236,25,106,204,197,41,115>>
NP384gx == <<170,135,202,34,190,139,5,55,142,177,199,30,243,32,173,116,110,29,59,98,139,167,155,152,89,247,65,224,130,84,42,56,85,2,242,93,191,85,41,108,58,84,94,56,114,118,10,183>>
NP384gy == <<54,23,222,74,150,38,44,111,93,158,152,191,146,146,220,41,248,244,29,189,40,154,20,124,233,218,49,19,181,240,184,192,10,96,177,206,29,126,129,157,122,67,29,124,144,234,14,95>>
NP384 == INSTANCE ECGroup WITH p <- NP384p, a <- BSub(NP384p, <<3>>), b <- NP384b, AddM <- BAddMod,
          SubM <- BSubMod, MulM <- BMulMod, InvM <- BInvMod, Less <- BLt, Zero <- <<>>, BitsOf <- BBits

NP521p == <<1,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255>>
NP521b == <<81,149,62,185,97,142,28,154,31,146,154,33,160,182,133,64,238,162,218,114,91,153,179,21,243,184,180,137,145,142,241,9,225,86,25,57,81,236,126,147,123,22,82,192,189,59,177,191,7,53,115,223,136,61,44,52,241,239,69,31,212,107,80,63,0>>
NP521n == <<1,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,250,81,134,135,131,191,47,150,107,127,204,1,72,247,9,165,208,59,181,201,184,137,156,71,174,187,111,183,30,145,56,100,9>>
NP521gx == <<198,133,142,6,183,4,4,233,205,158,62,203,102,35,149,180,66,156,100,129,57,5,63,181,33,248,40,175,96,107,77,61,186,161,75,94,119,239,231,89,40,254,29,193,39,162,255,168,222,51,72,179,193,133,106,66,155,249,126,126,49,194,229,189,102>>
NP521gy == <<1,24,57,41,106,120,154,59,192,4,92,138,95,180,44,125,27,217,152,245,68,73,87,155,68,104,23,175,189,23,39,62,102,44,151,238,114,153,94,244,38,64,197,80,185,1,63,173,7,97,53,60,112,134,162,114,194,64,136,190,148,118,159,209,102,80>>
NP521 == INSTANCE ECGroup WITH p <- NP521p, a <- BSub(NP521p, <<3>>), b <- NP521b, AddM <- BAddMod,
          SubM <- BSubMod, MulM <- BMulMod, InvM <- BInvMod, Less <- BLt, Zero <- <<>>, BitsOf <- BBits

\* by the name of the curve ("P-224", ..., "SM2")
Curves == {"P-224", "P-256", "P-384", "P-521", "SM2"}
CurveN(c) ==
    CASE c = "P-224" -> NP224n
      [] c = "P-256" -> NP256n
      [] c = "P-384" -> NP384n
      [] c = "P-521" -> NP521n
      [] c = "SM2" -> N256
CurveG(c) ==
    CASE c = "P-224" -> <<NP224gx, NP224gy>>
      [] c = "P-256" -> <<NP256gx, NP256gy>>
      [] c = "P-384" -> <<NP384gx, NP384gy>>
      [] c = "P-521" -> <<NP521gx, NP521gy>>
      [] c = "SM2" -> <<GX, GY>>
CurveLen(c) == CASE c = "P-224" -> 28 [] c = "P-384" -> 48 [] c = "P-521" -> 66 [] OTHER -> 32
CurveBits(c) == CASE c = "P-224" -> 224 [] c = "P-384" -> 384 [] c = "P-521" -> 521 [] OTHER -> 256
CurveOn(c, x, y) ==
    CASE c = "P-224" -> NP224!OnCurve(x, y)
      [] c = "P-256" -> NP256!OnCurve(x, y)
      [] c = "P-384" -> NP384!OnCurve(x, y)
      [] c = "P-521" -> NP521!OnCurve(x, y)
      [] c = "SM2" -> OnCurve(x, y)
CurveMul(c, k, P) ==
    CASE c = "P-224" -> NP224!PMul(k, P)
      [] c = "P-256" -> NP256!PMul(k, P)
      [] c = "P-384" -> NP384!PMul(k, P)
      [] c = "P-521" -> NP521!PMul(k, P)
      [] c = "SM2" -> PMul(k, P)
CurveAdd(c, P, Q) ==
    CASE c = "P-224" -> NP224!PAdd(P, Q)
      [] c = "P-256" -> NP256!PAdd(P, Q)
      [] c = "P-384" -> NP384!PAdd(P, Q)
      [] c = "P-521" -> NP521!PAdd(P, Q)
      [] c = "SM2" -> PAdd(P, Q)

----------------------------------------------------------------------------
(* ECDSA *)
\* e: the leftmost bits of the hash, as many as the order has
LOCAL HashToInt(c, h) ==
    LET lenb == CurveLen(c)
        v == BNorm(IF Len(h) > lenb THEN SubSeq(h, 1, lenb) ELSE h)
    IN  IF c = "P-521" /\ Len(h) >= lenb THEN BDiv(v, <<128>>) ELSE v
ECDSAVerifyRS(c, Q, h, r, s) ==
    LET n == CurveN(c)
    IN  /\ r # <<>> /\ s # <<>> /\ BLt(r, n) /\ BLt(s, n)
        /\ LET w  == BInvMod(s, n)
               R  == CurveAdd(c, CurveMul(c, BMulMod(HashToInt(c, h), w, n), CurveG(c)),
                                 CurveMul(c, BMulMod(r, w, n), Q))
           IN  R # <<>> /\ BMod(R[1], n) = r
ECDSAVerify(key, h, sig) ==
    LET sg == SigDecode(sig)
    IN  /\ sg.ok /\ ~sg.r.neg /\ ~sg.s.neg
        /\ ECDSAVerifyRS(key.curve, <<key.x, key.y>>, h, sg.r.mag, sg.s.mag)

----------------------------------------------------------------------------
(* RSA *)
LOCAL ZerosN(k) == [j \in 1..k |-> 0]
LOCAL FFs(k) == [j \in 1..k |-> 255]
LOCAL RsaPub(key, sig) == BExpMod(BNorm(sig), key.e, key.n)
DigestPrefix(hash) ==
    CASE hash = "md5"    -> <<48,32,48,12,6,8,42,134,72,134,247,13,2,5,5,0,4,16>>
      [] hash = "sha1"   -> <<48,33,48,9,6,5,43,14,3,2,26,5,0,4,20>>
      [] hash = "sha224" -> <<48,45,48,13,6,9,96,134,72,1,101,3,4,2,4,5,0,4,28>>
      [] hash = "sha256" -> <<48,49,48,13,6,9,96,134,72,1,101,3,4,2,1,5,0,4,32>>
      [] hash = "sha384" -> <<48,65,48,13,6,9,96,134,72,1,101,3,4,2,2,5,0,4,48>>
      [] hash = "sha512" -> <<48,81,48,13,6,9,96,134,72,1,101,3,4,2,3,5,0,4,64>>
PKCS1Verify(key, hash, digest, sig) ==
    LET k == Len(key.n)
        t == DigestPrefix(hash) \o digest
    IN  /\ Len(sig) = k /\ BLt(BNorm(sig), key.n)
        /\ Len(t) + 11 <= k
        /\ BFixed(RsaPub(key, sig), k) = <<0, 1>> \o FFs(k - Len(t) - 3) \o <<0>> \o t
LOCAL XorB(a1, b1) == [j \in 1..Len(a1) |-> a1[j] ^^ b1[j]]
LOCAL NBits(n) ==
    LET bs == BBits(n)
        z  == {j \in 1..8 : bs[j] = 1 /\ \A i \in 1..(j - 1) : bs[i] = 0}
    IN  Len(bs) + 1 - (CHOOSE j \in z : TRUE)
\* EMSA-PSS with salt as long as the hash
PSSVerify(key, hash, digest, sig) ==
    LET k     == Len(key.n)
        emb   == NBits(key.n) - 1
        eml   == (emb + 7) \div 8
        hl    == HashLen(hash)
        m     == RsaPub(key, sig)
    IN  /\ Len(sig) = k /\ BLt(BNorm(sig), key.n)
        /\ Len(m) <= eml
        /\ eml >= 2 * hl + 2
        /\ LET em   == BFixed(m, eml)
               mdb  == SubSeq(em, 1, eml - hl - 1)
               h    == SubSeq(em, eml - hl, eml - 1)
               top  == 2^(8 - ((8 * eml) - emb))          \* values of the first octet are below this
               db0  == XorB(mdb, MGF1(hash, h, Len(mdb)))
               db   == <<db0[1] % top>> \o SubSeq(db0, 2, Len(db0))
               pad  == Len(db) - hl - 1
           IN  /\ em[eml] = 188
               /\ mdb[1] < top
               /\ \A j \in 1..pad : db[j] = 0
               /\ db[pad + 1] = 1
               /\ h = HashOf(hash, ZerosN(8) \o digest \o SubSeq(db, pad + 2, Len(db)))


----------------------------------------------------------------------------
(* Ed25519 *)
LOCAL Q25519 == <<127,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,237>>
LOCAL EdD == <<82,3,108,238,43,111,254,115,140,199,64,121,119,121,232,152,0,112,10,77,65,65,216,171,117,235,77,202,19,89,120,163>>
LOCAL EdL == <<16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,20,222,249,222,162,247,156,214,88,18,99,26,92,245,211,237>>
LOCAL EdI == <<43,131,36,128,79,193,223,11,43,77,0,153,61,251,215,167,47,67,24,6,173,47,228,120,196,238,27,39,74,14,160,176>>                 \* a square root of -1
LOCAL EdG == <<<<33,105,54,211,205,110,83,254,192,164,226,49,253,214,220,92,105,44,199,96,149,37,167,178,201,86,45,96,143,37,213,26>>, <<102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102,88>>>>

LOCAL QM(u, v) == BMulMod(u, v, Q25519)
LOCAL QA(u, v) == BAddMod(u, v, Q25519)
LOCAL QS(u, v) == BSubMod(u, v, Q25519)
EdAdd(P, Q) ==
    LET t == QM(EdD, QM(QM(P[1], Q[1]), QM(P[2], Q[2])))
    IN  << QM(QA(QM(P[1], Q[2]), QM(Q[1], P[2])), BInvMod(QA(<<1>>, t), Q25519)),
           QM(QA(QM(P[2], Q[2]), QM(P[1], Q[1])), BInvMod(QS(<<1>>, t), Q25519)) >>
EdMul(k, P) ==
    FoldLeft(LAMBDA acc, bit : LET dd == EdAdd(acc, acc) IN IF bit = 1 THEN EdAdd(dd, P) ELSE dd,
             << <<>>, <<1>> >>, BBits(k))
LOCAL LE(s) == BNorm(Reverse(s))
LOCAL ToLE(n, len) == Reverse(BFixed(n, len))
EdEncode(P) ==
    LET y == ToLE(P[2], 32)
        odd == P[1] # <<>> /\ P[1][Len(P[1])] % 2 = 1
    IN  SubSeq(y, 1, 31) \o <<y[32] + (IF odd THEN 128 ELSE 0)>>
\* <<>> if not a point
EdDecode(s) ==
    LET sign == s[32] \div 128
        y    == BMod(LE(SubSeq(s, 1, 31) \o <<s[32] % 128>>), Q25519)
        yy   == QM(y, y)
        u    == QS(yy, <<1>>)
        xx   == QM(u, BInvMod(QA(QM(EdD, yy), <<1>>), Q25519))
        c    == BExpMod(xx, BDiv(BAdd(Q25519, <<3>>), <<8>>), Q25519)
        x    == IF QM(c, c) = xx THEN c ELSE QM(c, EdI)
        odd  == x # <<>> /\ x[Len(x)] % 2 = 1
    IN  IF QM(x, x) # xx THEN <<>>
        ELSE << IF odd = (sign = 1) THEN x ELSE QS(<<>>, x), y >>
\* the public key of a seed
EdPublic(seed) ==
    LET h == SHA512(seed)
        a0 == << h[1] - (h[1] % 8) >> \o SubSeq(h, 2, 31) \o << (h[32] % 64) + 64 >>
    IN  EdEncode(EdMul(LE(a0), EdG))
EdVerify(pt, msg, sig) ==
    /\ Len(sig) = 64 /\ Len(pt) = 32
    /\ LET s == LE(SubSeq(sig, 33, 64))
           A1 == EdDecode(pt)
           k == BMod(LE(SHA512(SubSeq(sig, 1, 32) \o pt \o msg)), EdL)
       IN  /\ BLt(s, EdL)
           /\ A1 # <<>>
           /\ EdEncode(EdAdd(EdMul(s, EdG), EdMul(k, << QS(<<>>, A1[1]), A1[2] >>))) = SubSeq(sig, 1, 32)

----------------------------------------------------------------------------
(* signature algorithms, by name *)
Alg(name) ==
    CASE name = "MD5-RSA"      -> [kind |-> "rsa", hash |-> "md5", pss |-> FALSE]
      [] name = "SHA1-RSA"     -> [kind |-> "rsa", hash |-> "sha1", pss |-> FALSE]
      [] name = "SHA256-RSA"   -> [kind |-> "rsa", hash |-> "sha256", pss |-> FALSE]
      [] name = "SHA384-RSA"   -> [kind |-> "rsa", hash |-> "sha384", pss |-> FALSE]
      [] name = "SHA512-RSA"   -> [kind |-> "rsa", hash |-> "sha512", pss |-> FALSE]
      [] name = "SHA256-RSAPSS" -> [kind |-> "rsa", hash |-> "sha256", pss |-> TRUE]
      [] name = "SHA384-RSAPSS" -> [kind |-> "rsa", hash |-> "sha384", pss |-> TRUE]
      [] name = "SHA512-RSAPSS" -> [kind |-> "rsa", hash |-> "sha512", pss |-> TRUE]
      [] name = "ECDSA-SHA1"   -> [kind |-> "ecdsa", hash |-> "sha1", pss |-> FALSE]
      [] name = "ECDSA-SHA256" -> [kind |-> "ecdsa", hash |-> "sha256", pss |-> FALSE]
      [] name = "ECDSA-SHA384" -> [kind |-> "ecdsa", hash |-> "sha384", pss |-> FALSE]
      [] name = "ECDSA-SHA512" -> [kind |-> "ecdsa", hash |-> "sha512", pss |-> FALSE]
      [] name = "Ed25519"      -> [kind |-> "ed25519", hash |-> "", pss |-> FALSE]
      [] name = "SM2-SM3"      -> [kind |-> "sm2", hash |-> "sm3", pss |-> FALSE]
      [] OTHER                 -> [kind |-> "none", hash |-> "", pss |-> FALSE]
Insecure == {"MD5-RSA", "SHA1-RSA", "ECDSA-SHA1"}
Secure(name) == Alg(name).kind # "none" /\ name \notin Insecure

\* sig is a signature of msg by key under the algorithm (whether or not the
\* algorithm is still considered secure)
SigValid(name, key, msg, sig) ==
    LET g == Alg(name)
    IN  /\ g.kind # "none" /\ g.kind = key.kind
        /\ CASE g.kind = "rsa" ->
                  IF g.pss THEN PSSVerify(key, g.hash, HashOf(g.hash, msg), sig)
                  ELSE PKCS1Verify(key, g.hash, HashOf(g.hash, msg), sig)
             [] g.kind = "ecdsa" -> ECDSAVerify(key, HashOf(g.hash, msg), sig)
             [] g.kind = "ed25519" -> EdVerify(key.pt, msg, sig)
             [] g.kind = "sm2" ->
                  LET sg == SigDecode(sig)
                  IN  /\ sg.ok /\ ~sg.r.neg /\ ~sg.s.neg
                      /\ VerifyE(key.x, key.y, BNorm(MsgDigest(key.x, key.y, <<>>, msg)), sg.r.mag, sg.s.mag)
\* what a verifier may accept
Verifies(name, key, msg, sig) == Secure(name) /\ SigValid(name, key, msg, sig)
=============================================================================