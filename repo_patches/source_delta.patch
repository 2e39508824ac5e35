From 709e8bffce1be9ec77c372d1175a3cef257f8e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 01/31] fix: SM2 encryption key derivation and fixed-width
 coordinates (GM/T 0003.4)

The KDF kept hashing into the same state for later blocks and truncated every
block to the length of the last one, so messages longer than 32 bytes were
encrypted with a wrong key stream or made Encryt panic. Coordinates with
leading zero bytes were written without them, which broke the ciphertext
layout (panic or undecryptable ciphertext) and the C3 hash.
---
 sm2/sm2.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 584f8dc..f098995 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -394,14 +394,14 @@ func Encryt(rand io.Reader, pub *PublicKey, msg []byte) ([]byte, error) {
 		kBytes := k.Bytes()
 		//计算c1 = k·G(x,y)
 		c1x, c1y := curve.ScalarBaseMult(kBytes)
-		c = append(c, c1x.Bytes()...)
-		c = append(c, c1y.Bytes()...)
+		c = append(c, appendBigIntTo32Bytes(c1x)...)
+		c = append(c, appendBigIntTo32Bytes(c1y)...)
 		//计算c3
 		kpx, kpy := curve.ScalarMult(pub.X, pub.Y, kBytes)
 		c3 := []byte{}
-		c3 = append(c3, kpx.Bytes()...)
+		c3 = append(c3, appendBigIntTo32Bytes(kpx)...)
 		c3 = append(c3, msg...)
-		c3 = append(c3, kpy.Bytes()...)
+		c3 = append(c3, appendBigIntTo32Bytes(kpy)...)
 		c = append(c, sm3.Sum(c3)...)
 		//计算c2
 		t, ok := kdf(length, kpx, kpy)
@@ -425,17 +425,15 @@ func kdf(klen int, x, y *big.Int) ([]byte, bool) {
 	yBytes := appendBigIntTo32Bytes(y)
 	n := (klen + 31) / 32 //需要计算的次数
 	for i := 0; i < n; i++ {
+		h.Reset()
 		h.Write(xBytes)
 		h.Write(yBytes)
 		h.Write(intToBytes(ct))
-		hash := h.Sum(nil)
-		if klen%32 != 0 {
-			out = append(out, hash[:klen%32]...)
-		} else {
-			out = append(out, hash...)
-		}
+		out = append(out, h.Sum(nil)...)
 		ct++
 	}
+	//最后一块截断到需要的长度
+	out = out[:klen]
 	for i := 0; i < len(out); i++ {
 		if out[i] != 0 {
 			return out, true
@@ -482,9 +480,9 @@ func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
 	}
 	//比对摘要
 	tm := []byte{}
-	tm = append(tm, x2.Bytes()...)
+	tm = append(tm, appendBigIntTo32Bytes(x2)...)
 	tm = append(tm, c...)
-	tm = append(tm, y2.Bytes()...)
+	tm = append(tm, appendBigIntTo32Bytes(y2)...)
 	hash := sm3.Sum(tm)
 	if bytes.Compare(hash, data[64:96]) != 0 {
 		return c, errors.New("failed to decrypt:hash compared error")
-- 
2.43.0


From 5237c607ee33aa4da4119fe3233cce06cb821454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 02/31] fix: SM2 encryption of an empty message returns an
 error instead of looping forever

---
 sm2/sm2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index f098995..22f51ec 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -384,6 +384,10 @@ func VerifyDigestRS(pub *PublicKey, digest []byte, r, s *big.Int) bool {
 
 func Encryt(rand io.Reader, pub *PublicKey, msg []byte) ([]byte, error) {
 	length := len(msg)
+	if length == 0 {
+		//空消息的密钥流总被视为全0，会无限循环
+		return nil, errors.New("sm2: can not encrypt an empty message")
+	}
 	for {
 		c := []byte{}
 		curve := pub.Curve
-- 
2.43.0


From fb9adeaec85645fbbe7306389c3815a85bce10cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 03/31] fix: SM2 decryption rejects short or unprefixed input
 and withholds unauthenticated plaintext

---
 sm2/sm2.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 22f51ec..b5f6cf5 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -453,6 +453,10 @@ func intToBytes(x int) []byte {
 }
 
 func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
+	//0x04 || C1(64) || C3(32) || C2(至少1字节)
+	if len(data) <= 97 || data[0] != 0x04 {
+		return nil, errors.New("failed to decrypt:invalid ciphertext")
+	}
 	//去除开头的0x04
 	data = data[1:]
 	//取出c1,是否满足椭圆曲线方程
@@ -489,7 +493,7 @@ func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
 	tm = append(tm, appendBigIntTo32Bytes(y2)...)
 	hash := sm3.Sum(tm)
 	if bytes.Compare(hash, data[64:96]) != 0 {
-		return c, errors.New("failed to decrypt:hash compared error")
+		return nil, errors.New("failed to decrypt:hash compared error")
 	}
 	return c, nil
 }
-- 
2.43.0


From 956db91900d45fd61969ab3082f38618acfb9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 04/31] fix: PublicKey.VerifyRS passed message and user id in
 the wrong order

---
 sm2/sm2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index b5f6cf5..3919168 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -148,7 +148,7 @@ func (pub *PublicKey) Verify(in, uid, signature []byte) bool {
 }
 
 func (pub *PublicKey) VerifyRS(in, uid []byte, r, s *big.Int) bool {
-	return VerifyRS(pub, uid, in, r, s)
+	return VerifyRS(pub, in, uid, r, s)
 }
 
 func (pub *PublicKey) VerifyDigest(in, signature []byte) bool {
-- 
2.43.0


From 4da99df6919f950d7aa3c2130f0e26e37d35fc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 05/31] fix: refuse SM2 user ids whose bit length does not fit
 ENTL

---
 sm2/sm2.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 3919168..6a4f219 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -131,6 +131,10 @@ func (pub *PublicKey) SM3Digest(msg []byte, uid []byte) ([]byte, error) {
 	if len(uid) == 0 {
 		uid = sm2SignDefaultUserId
 	}
+	if len(uid)*8 > 0xFFFF {
+		//ENTL只有两个字节
+		return nil, errors.New("sm2: user id is too long")
+	}
 	digest := sm3.New()
 	z := z(digest, pub.X, pub.Y, uid)
 	digest.Reset()
@@ -252,6 +256,9 @@ func Sign(rand io.Reader, priv *PrivateKey, in, uid []byte) ([]byte, error) {
 //原文裸签，返回R||S
 func SignRS(rand io.Reader, priv *PrivateKey, in, userId []byte) (r, s *big.Int, err error) {
 	hash, err := priv.PublicKey.SM3Digest(in, userId)
+	if err != nil {
+		return nil, nil, err
+	}
 	return SignDigestRS(rand, priv, hash)
 }
 
-- 
2.43.0


From 1eed7a9cd9ad1d26657e36b33b5019681c3db78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 06/31] fix: SM2 private scalars outside [1, n-2] are neither
 generated nor used to sign

With d = n-1 the inverse of 1+d does not exist and signing panicked; d = 0
gives the point at infinity as public key.
---
 sm2/sm2.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 6a4f219..6181d1c 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -92,18 +92,30 @@ func (pub *PublicKey) Equal(x crypto.PublicKey) bool {
 
 //生成SM2密钥对
 func GenerateKey(random io.Reader) (*PrivateKey, error) {
-	d, x, y, err := elliptic.GenerateKey(SM2P256V1(), random)
-	if err != nil {
-		return nil, err
+	for {
+		d, x, y, err := elliptic.GenerateKey(SM2P256V1(), random)
+		if err != nil {
+			return nil, err
+		}
+		priv := &PrivateKey{
+			PublicKey: PublicKey{
+				Curve: SM2P256V1(),
+				X:     x,
+				Y:     y,
+			},
+			D: new(big.Int).SetBytes(d),
+		}
+		//私钥d的范围是[1, n-2]，否则重新生成
+		if priv.validD() {
+			return priv, nil
+		}
 	}
-	return &PrivateKey{
-		PublicKey: PublicKey{
-			Curve: SM2P256V1(),
-			X:     x,
-			Y:     y,
-		},
-		D: new(big.Int).SetBytes(d),
-	}, err
+}
+
+//私钥d的范围是[1, n-2]，d = n-1时1+d没有逆元
+func (priv *PrivateKey) validD() bool {
+	max := new(big.Int).Sub(priv.Curve.Params().N, one)
+	return priv.D.Sign() > 0 && priv.D.Cmp(max) < 0
 }
 
 //原文裸签，返回R||S
@@ -280,6 +292,9 @@ func SignDigestRS(rand io.Reader, priv *PrivateKey, digest []byte) (r, s *big.In
 	if N.Sign() == 0 {
 		return nil, nil, errZeroParam
 	}
+	if !priv.validD() {
+		return nil, nil, errors.New("sm2: invalid private key")
+	}
 	for {
 		var k *big.Int
 		var err error
-- 
2.43.0


From c4a3bfbe3760eff386a91198323286618669506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 07/31] fix: SM2 verification and encryption check that the
 public key is a point of the curve

Off-curve and (0,0) keys made verification panic in crypto/elliptic.
---
 sm2/sm2.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 6181d1c..a7862e2 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -138,6 +138,15 @@ func (priv *PrivateKey) SignDigest(rand io.Reader, digest []byte) ([]byte, error
 	return SignDigest(rand, priv, digest)
 }
 
+//公钥必须是曲线上的点，坐标在[0, p-1]之间
+func (pub *PublicKey) valid() bool {
+	p := pub.Curve.Params().P
+	if pub.X.Sign() < 0 || pub.Y.Sign() < 0 || pub.X.Cmp(p) >= 0 || pub.Y.Cmp(p) >= 0 {
+		return false
+	}
+	return pub.Curve.IsOnCurve(pub.X, pub.Y)
+}
+
 //SM2签名摘要算法实现，需要公钥与userid参与计算
 func (pub *PublicKey) SM3Digest(msg []byte, uid []byte) ([]byte, error) {
 	if len(uid) == 0 {
@@ -348,6 +357,9 @@ func VerifyRS(pub *PublicKey, in []byte, uid []byte, r, s *big.Int) bool {
 	if s.Cmp(one) == -1 || s.Cmp(pub.Curve.Params().N) >= 0 {
 		return false
 	}
+	if !pub.valid() {
+		return false
+	}
 	hash, err := pub.SM3Digest(in, uid)
 	if err != nil {
 		return false
@@ -385,6 +397,9 @@ func VerifyDigestRS(pub *PublicKey, digest []byte, r, s *big.Int) bool {
 	if s.Cmp(one) == -1 || s.Cmp(pub.Curve.Params().N) >= 0 {
 		return false
 	}
+	if !pub.valid() {
+		return false
+	}
 	//将摘要信息变成大数e
 	e := new(big.Int).SetBytes(digest)
 	t := new(big.Int).Add(r, s)
@@ -410,6 +425,9 @@ func Encryt(rand io.Reader, pub *PublicKey, msg []byte) ([]byte, error) {
 		//空消息的密钥流总被视为全0，会无限循环
 		return nil, errors.New("sm2: can not encrypt an empty message")
 	}
+	if !pub.valid() {
+		return nil, errors.New("sm2: public key is not on the curve")
+	}
 	for {
 		c := []byte{}
 		curve := pub.Curve
-- 
2.43.0


From ec424f7bcccfbda90c3e9b1c72fb078110690336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 08/31] fix: SM2 verification rejected valid signatures whose
 point has a zero coordinate

Only (0,0) stands for the point at infinity; a point with x = 0 is valid.
---
 sm2/sm2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index a7862e2..c086eef 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -374,7 +374,7 @@ func VerifyRS(pub *PublicKey, in []byte, uid []byte, r, s *big.Int) bool {
 	x1, y1 := pub.Curve.ScalarBaseMult(s.Bytes())
 	x2, y2 := pub.Curve.ScalarMult(pub.X, pub.Y, t.Bytes())
 	x, y := pub.Curve.Add(x1, y1, x2, y2)
-	if x.Sign() == 0 || y.Sign() == 0 {
+	if x.Sign() == 0 && y.Sign() == 0 {
 		return false
 	}
 	x.Add(x, e)
@@ -411,7 +411,7 @@ func VerifyDigestRS(pub *PublicKey, digest []byte, r, s *big.Int) bool {
 	x1, y1 := pub.Curve.ScalarBaseMult(s.Bytes())
 	x2, y2 := pub.Curve.ScalarMult(pub.X, pub.Y, t.Bytes())
 	x, y := pub.Curve.Add(x1, y1, x2, y2)
-	if x.Sign() == 0 || y.Sign() == 0 {
+	if x.Sign() == 0 && y.Sign() == 0 {
 		return false
 	}
 	x.Add(x, e)
-- 
2.43.0


From 7f139be6513a3d9b49e8946b69b680acd512bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 09/31] fix: certificates, requests and revocation lists signed
 with SM2 never verified

SM2 signs the message (its digest includes the signer identity), so it must
not be hashed with SM3 first; CreateCRL already did this.
---
 x509/x509.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index 0c02d65..acf632f 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1761,7 +1761,7 @@ func CreateCertificate(rand io.Reader, template, parent *Certificate, pub, priv
 	c.Raw = tbsCertContents
 
 	signed := tbsCertContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(signed)
 		signed = h.Sum(nil)
@@ -2190,7 +2190,7 @@ func CreateCertificateRequest(rand io.Reader, template *CertificateRequest, priv
 	tbsCSR.Raw = tbsCSRContents
 
 	signed := tbsCSRContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(signed)
 		signed = h.Sum(nil)
@@ -2393,7 +2393,7 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 	}
 
 	input := tbsCertListContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(tbsCertListContents)
 		input = h.Sum(nil)
-- 
2.43.0


From c337442fad38b469254e5e8d78a3b6b8b10e885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 10/31] fix: Ed25519 signatures were rejected as unsupported
 because they use no pre-hash

---
 x509/x509.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index acf632f..0d2d31f 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1015,18 +1015,20 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 		}
 	}
 
-	if !hashType.Available() {
-		return ErrUnsupportedAlgorithm
-	}
-
-	if hashType == 0 && pubKeyAlgo != Ed25519 {
-		return ErrUnsupportedAlgorithm
+	signed := plain
+	if hashType == 0 {
+		if pubKeyAlgo != Ed25519 {
+			return ErrUnsupportedAlgorithm
+		}
+	} else {
+		if !hashType.Available() {
+			return ErrUnsupportedAlgorithm
+		}
+		h := hashType.New()
+		h.Write(plain)
+		signed = h.Sum(nil)
 	}
 
-	h := hashType.New()
-	h.Write(plain)
-	signed := h.Sum(nil)
-
 	switch pub := publicKey.(type) {
 	case *rsa.PublicKey:
 		if pubKeyAlgo != RSA {
-- 
2.43.0


From 8402b802f5ed6cf2c18360b54a6f90470f29dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 11/31] fix: MD5 and SHA-1 signatures are for signing only and
 must not verify

---
 x509/x509.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x509/x509.go b/x509/x509.go
index 0d2d31f..37be839 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1015,6 +1015,12 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 		}
 	}
 
+	switch algo {
+	case MD5WithRSA, SHA1WithRSA, ECDSAWithSHA1:
+		// Only supported for signing, not verification.
+		return InsecureAlgorithmError(algo)
+	}
+
 	signed := plain
 	if hashType == 0 {
 		if pubKeyAlgo != Ed25519 {
-- 
2.43.0


From 4b0148968f23c19d9fcb7ad63e61af30c5f6d136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 12/31] fix: SM2 and ECDSA signature algorithms are not
 interchangeable

An SM2 key was accepted with ECDSAWith* algorithms (and vice versa), for
signing as well as for checking, mislabelling or misreading signatures.
---
 x509/x509.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index 37be839..e519505 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -530,7 +530,7 @@ var signatureAlgorithmDetails = []struct {
 	{ECDSAWithSHA384, "ECDSA-SHA384", oidSignatureECDSAWithSHA384, ECDSA, SHA384},
 	{ECDSAWithSHA512, "ECDSA-SHA512", oidSignatureECDSAWithSHA512, ECDSA, SHA512},
 	{PureEd25519, "Ed25519", oidSignatureEd25519, Ed25519, Hash(0) /* no pre-hashing */},
-	{SM2WithSM3, "SM2WithSM3", oidSignatureSM2WithSM3, ECDSA, SM3},
+	{SM2WithSM3, "SM2WithSM3", oidSignatureSM2WithSM3, SM2, SM3},
 }
 
 // hashToPSSParameters contains the DER encoded RSA PSS parameters for the
@@ -1054,7 +1054,7 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 		}
 		return
 	case *sm2.PublicKey:
-		if pubKeyAlgo != ECDSA {
+		if pubKeyAlgo != SM2 {
 			return signaturePublicKeyAlgoMismatchError(pubKeyAlgo, pub)
 		}
 		if pub.Curve != sm2.SM2P256V1() {
@@ -1578,7 +1578,7 @@ func signingParamsForPublicKey(pub any, requestedSigAlgo SignatureAlgorithm) (ha
 			err = errors.New("x509: unknown elliptic curve")
 		}
 	case *sm2.PublicKey:
-		pubType = ECDSA
+		pubType = SM2
 		switch pub.Curve {
 		case sm2.SM2P256V1():
 			hashFunc = SM3
-- 
2.43.0


From 718df606e1837d83a4c6ff98569cc2ad584d336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 13/31] fix: certificate requests with an RSA-PSS algorithm
 were signed with PKCS#1 v1.5

---
 x509/x509.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/x509/x509.go b/x509/x509.go
index e519505..325bf8b 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -2204,8 +2204,16 @@ func CreateCertificateRequest(rand io.Reader, template *CertificateRequest, priv
 		signed = h.Sum(nil)
 	}
 
+	var signerOpts crypto.SignerOpts = hashFunc
+	if template.SignatureAlgorithm.isRSAPSS() {
+		signerOpts = &rsa.PSSOptions{
+			SaltLength: rsa.PSSSaltLengthEqualsHash,
+			Hash:       crypto.Hash(hashFunc),
+		}
+	}
+
 	var signature []byte
-	signature, err = key.Sign(rand, signed, hashFunc)
+	signature, err = key.Sign(rand, signed, signerOpts)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From af421471446ac9108838a0c04cb50bf6300db3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 14/31] fix: PKCS#7 parsing ignored errors and trailing data in
 SignedData

---
 x509/pkcs7.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x509/pkcs7.go b/x509/pkcs7.go
index 2aa4867..a83233e 100644
--- a/x509/pkcs7.go
+++ b/x509/pkcs7.go
@@ -466,7 +466,13 @@ type unsignedData []byte
 
 func parseSignedData(data []byte) (*PKCS7, error) {
 	var sd signedData
-	asn1.Unmarshal(data, &sd)
+	rest, err := asn1.Unmarshal(data, &sd)
+	if err != nil {
+		return nil, err
+	}
+	if len(rest) > 0 {
+		return nil, asn1.SyntaxError{Msg: "trailing data"}
+	}
 	certs, err := sd.Certificates.Parse()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b843973918d940900050d173de6b2b04c66005cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 15/31] fix: PKCS#7 signing errors were dropped and an unsigned
 message returned

---
 x509/pkcs7.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x509/pkcs7.go b/x509/pkcs7.go
index a83233e..db3683e 100644
--- a/x509/pkcs7.go
+++ b/x509/pkcs7.go
@@ -190,6 +190,9 @@ func NewSignedDataCallBack(signerCertificate *Certificate, callback Callback, da
 	certs := []*Certificate{signerCertificate}
 
 	si, err := getSignerInfoWithAttrCallback(signerCertificate, callback, data, SignerInfoConfig{})
+	if err != nil {
+		return nil, err
+	}
 
 	sd := signedData{
 		Version:                    1,
@@ -228,6 +231,9 @@ func NewSignedData(signerCertificate *Certificate, signerPrivateKey crypto.Priva
 	certs := []*Certificate{signerCertificate}
 
 	si, err := getSignerInfoWithAttr(signerCertificate, signerPrivateKey, data, SignerInfoConfig{})
+	if err != nil {
+		return nil, err
+	}
 
 	sd := signedData{
 		Version:                    1,
-- 
2.43.0


From 722ec7eff92aaa966331a4a4ad8515d40707feae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 16/31] fix: parsing a certificate printed its key parameters
 to standard output

---
 x509/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/x509/parser.go b/x509/parser.go
index fe08981..8fce8d1 100644
--- a/x509/parser.go
+++ b/x509/parser.go
@@ -1126,7 +1126,6 @@ func parseCertificate(der []byte) (*Certificate, error) {
 	var paramsAlgorithm asn1.ObjectIdentifier
 	paramsoid.ReadASN1ObjectIdentifier(&paramsAlgorithm)
 
-	fmt.Println(paramsAlgorithm)
 
 	cert.PublicKeyAlgorithm = getPublicKeyAlgorithmFromOID(pkAI.Algorithm)
 	var spk asn1.BitString
-- 
2.43.0


From 9e610b4d5cce39cddb0b82ac69c512b46dac8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 17/31] fix: an EC private key of zero is invalid

---
 x509/sec1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x509/sec1.go b/x509/sec1.go
index c5d3306..a625277 100644
--- a/x509/sec1.go
+++ b/x509/sec1.go
@@ -103,7 +103,7 @@ func parseECPrivateKey(namedCurveOID *asn1.ObjectIdentifier, der []byte) (key an
 
 	k := new(big.Int).SetBytes(privKey.PrivateKey)
 	curveOrder := curve.Params().N
-	if k.Cmp(curveOrder) >= 0 {
+	if k.Sign() == 0 || k.Cmp(curveOrder) >= 0 {
 		return nil, errors.New("x509: invalid elliptic curve private key value")
 	}
 
-- 
2.43.0


From 2c7b993b52e8335a0188e732f9332f1da8d498b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 18/31] fix: pkcs12.ToPEM reported success on a wrong password
 or a broken store

---
 pkcs12/pkcs12.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index 682ad78..a127082 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -110,6 +110,9 @@ func ToPEM(pfxData []byte, password string) ([]*pem.Block, error) {
 	}
 
 	bags, encodedPassword, err := getSafeContents(pfxData, encodedPassword)
+	if err != nil {
+		return nil, err
+	}
 
 	blocks := make([]*pem.Block, 0, len(bags))
 	for _, bag := range bags {
-- 
2.43.0


From 34bd31eacbaa76dd401045443c0ed25d8b1c1f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 19/31] fix: pkcs12 decoders dropped or leaked the
 duplicate-bag errors

Decode returned the last of several certificates; DecodeAll returned results
together with an error when the key bag came first.
---
 pkcs12/pkcs12.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index a127082..7194641 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -227,10 +227,6 @@ func DecodeAll(pfxData []byte, password string) (privateKey interface{}, certifi
 	for _, bag := range bags {
 		switch {
 		case bag.Id.Equal(oidCertBag):
-			if certificate != nil {
-				err = errors.New("go-pkcs12: expected exactly one certificate bag")
-			}
-
 			certsData, err := decodeCertBag(bag.Value.Bytes)
 			if err != nil {
 				return nil, nil, err
@@ -247,7 +243,7 @@ func DecodeAll(pfxData []byte, password string) (privateKey interface{}, certifi
 
 		case bag.Id.Equal(oidPKCS8ShroundedKeyBag):
 			if privateKey != nil {
-				err = errors.New("go-pkcs12: expected exactly one key bag")
+				return nil, nil, errors.New("go-pkcs12: expected exactly one key bag")
 			}
 
 			if privateKey, err = decodePkcs8ShroudedKeyBag(bag.Value.Bytes, encodedPassword); err != nil {
@@ -289,7 +285,7 @@ func Decode(pfxData []byte, password string) (privateKey interface{}, certificat
 		switch {
 		case bag.Id.Equal(oidCertBag):
 			if certificate != nil {
-				err = errors.New("go-pkcs12: expected exactly one certificate bag")
+				return nil, nil, errors.New("go-pkcs12: expected exactly one certificate bag")
 			}
 
 			certsData, err := decodeCertBag(bag.Value.Bytes)
@@ -308,7 +304,7 @@ func Decode(pfxData []byte, password string) (privateKey interface{}, certificat
 
 		case bag.Id.Equal(oidPKCS8ShroundedKeyBag):
 			if privateKey != nil {
-				err = errors.New("go-pkcs12: expected exactly one key bag")
+				return nil, nil, errors.New("go-pkcs12: expected exactly one key bag")
 			}
 
 			if privateKey, err = decodePkcs8ShroudedKeyBag(bag.Value.Bytes, encodedPassword); err != nil {
-- 
2.43.0


From b51c68be46bf73ad9e508eb9835aa64dc0ef8058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 20/31] fix: PKCS#7 signing time was encoded in local time,
 which is not DER

---
 x509/pkcs7.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x509/pkcs7.go b/x509/pkcs7.go
index db3683e..cd9ab46 100644
--- a/x509/pkcs7.go
+++ b/x509/pkcs7.go
@@ -261,7 +261,7 @@ func getSignerInfoWithAttrCallback(cert *Certificate, callback Callback, in []by
 	attrs := &attributes{}
 	attrs.Add(oidAttributeContentType, oidGMData)
 	attrs.Add(oidAttributeMessageDigest, messageDigest)
-	attrs.Add(oidAttributeSigningTime, time.Now())
+	attrs.Add(oidAttributeSigningTime, time.Now().UTC())
 	for _, attr := range config.ExtraSignedAttributes {
 		attrs.Add(attr.Type, attr.Value)
 	}
@@ -296,7 +296,7 @@ func getSignerInfoWithAttr(cert *Certificate, pkey crypto.PrivateKey, in []byte,
 	attrs := &attributes{}
 	attrs.Add(oidAttributeContentType, oidGMData)
 	attrs.Add(oidAttributeMessageDigest, messageDigest)
-	attrs.Add(oidAttributeSigningTime, time.Now())
+	attrs.Add(oidAttributeSigningTime, time.Now().UTC())
 	for _, attr := range config.ExtraSignedAttributes {
 		attrs.Add(attr.Type, attr.Value)
 	}
-- 
2.43.0


From 158f559fc9f6875769f0d7ad2b8f2f58b7bd9773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 21/31] fix: pkcs12 passwords that are not valid UTF-8 were all
 treated alike

---
 pkcs12/bmp-string.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkcs12/bmp-string.go b/pkcs12/bmp-string.go
index ef30393..e72fe75 100644
--- a/pkcs12/bmp-string.go
+++ b/pkcs12/bmp-string.go
@@ -7,6 +7,7 @@ package pkcs12
 import (
 	"errors"
 	"unicode/utf16"
+	"unicode/utf8"
 )
 
 // bmpString returns s encoded in UCS-2 with a zero terminator.
@@ -18,6 +19,10 @@ func bmpString(s string) ([]byte, error) {
 	//	  EncodeRune returns 0xfffd if the rune does not need special encoding
 	//  - the above RFC provides the info that BMPStrings are NULL terminated.
 
+	if !utf8.ValidString(s) {
+		return nil, errors.New("go-pkcs12: string is not valid UTF-8")
+	}
+
 	ret := make([]byte, 0, 2*len(s)+2)
 
 	for _, r := range s {
-- 
2.43.0


From b59cdfdbfe70f68ffb9395a4d6b9f4860ebe74aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 22/31] fix: revocation lists dropped issuer name attributes
 pkix.Name has no field for

---
 x509/x509.go | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index 325bf8b..0f3e8c4 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1814,6 +1814,27 @@ func CreateCertificate(rand io.Reader, template, parent *Certificate, pub, priv
 	return signedCert, nil
 }
 
+// These structures reflect the ASN.1 structure of revocation lists. They are
+// those of crypto/x509/pkix, except that the issuer is kept as encoded in the
+// issuing certificate: pkix.Name.ToRDNSequence drops attributes it has no
+// field for.
+
+type tbsCertificateList struct {
+	Version             int `asn1:"optional,default:0"`
+	Signature           pkix.AlgorithmIdentifier
+	Issuer              asn1.RawValue
+	ThisUpdate          time.Time
+	NextUpdate          time.Time                 `asn1:"optional"`
+	RevokedCertificates []pkix.RevokedCertificate `asn1:"optional"`
+	Extensions          []pkix.Extension          `asn1:"tag:0,optional,explicit"`
+}
+
+type certificateList struct {
+	TBSCertList        tbsCertificateList
+	SignatureAlgorithm pkix.AlgorithmIdentifier
+	SignatureValue     asn1.BitString
+}
+
 // pemCRLPrefix is the magic string that indicates that we have a PEM encoded
 // CRL.
 var pemCRLPrefix = []byte("-----BEGIN X509 CRL")
@@ -1869,10 +1890,15 @@ func (c *Certificate) CreateCRL(rand io.Reader, priv any, revokedCerts []pkix.Re
 		revokedCertsUTC[i] = rc
 	}
 
-	tbsCertList := pkix.TBSCertificateList{
+	issuerName, err := subjectBytes(c)
+	if err != nil {
+		return nil, err
+	}
+
+	tbsCertList := tbsCertificateList{
 		Version:             1,
 		Signature:           signatureAlgorithm,
-		Issuer:              c.Subject.ToRDNSequence(),
+		Issuer:              asn1.RawValue{FullBytes: issuerName},
 		ThisUpdate:          now.UTC(),
 		NextUpdate:          expiry.UTC(),
 		RevokedCertificates: revokedCertsUTC,
@@ -1907,7 +1933,7 @@ func (c *Certificate) CreateCRL(rand io.Reader, priv any, revokedCerts []pkix.Re
 		return
 	}
 
-	return asn1.Marshal(pkix.CertificateList{
+	return asn1.Marshal(certificateList{
 		TBSCertList:        tbsCertList,
 		SignatureAlgorithm: signatureAlgorithm,
 		SignatureValue:     asn1.BitString{Bytes: signature, BitLength: len(signature) * 8},
@@ -2378,10 +2404,15 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 		return nil, err
 	}
 
-	tbsCertList := pkix.TBSCertificateList{
+	issuerName, err := subjectBytes(issuer)
+	if err != nil {
+		return nil, err
+	}
+
+	tbsCertList := tbsCertificateList{
 		Version:    1, // v2
 		Signature:  signatureAlgorithm,
-		Issuer:     issuer.Subject.ToRDNSequence(),
+		Issuer:     asn1.RawValue{FullBytes: issuerName},
 		ThisUpdate: template.ThisUpdate.UTC(),
 		NextUpdate: template.NextUpdate.UTC(),
 		Extensions: []pkix.Extension{
@@ -2427,7 +2458,7 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 		return nil, err
 	}
 
-	return asn1.Marshal(pkix.CertificateList{
+	return asn1.Marshal(certificateList{
 		TBSCertList:        tbsCertList,
 		SignatureAlgorithm: signatureAlgorithm,
 		SignatureValue:     asn1.BitString{Bytes: signature, BitLength: len(signature) * 8},
-- 
2.43.0


From d06a08b943b4f003697cea6a5acf03ca10f89247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 23/31] fix: CheckCRLSignature ignored changes of the outer
 signature algorithm identifier

---
 x509/x509.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x509/x509.go b/x509/x509.go
index 0f3e8c4..ccffa79 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1078,6 +1078,12 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 
 // CheckCRLSignature checks that the signature in crl is from c.
 func (c *Certificate) CheckCRLSignature(crl *pkix.CertificateList) error {
+	// RFC 5280, 5.1.1.2: the outer algorithm identifier, which the signature
+	// does not cover, must be the one in the signed part.
+	inner, outer := crl.TBSCertList.Signature, crl.SignatureAlgorithm
+	if !inner.Algorithm.Equal(outer.Algorithm) || !bytes.Equal(inner.Parameters.FullBytes, outer.Parameters.FullBytes) {
+		return errors.New("x509: inner and outer signature algorithm identifiers don't match")
+	}
 	algo := getSignatureAlgorithmFromAI(crl.SignatureAlgorithm)
 	return c.CheckSignature(algo, crl.TBSCertList.Raw, crl.SignatureValue.RightAlign())
 }
-- 
2.43.0


From 55d69d877afb3ae9ac159352422bd63f38f302d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 24/31] fix: pkcs12.New panicked on invalid RC2 key sizes

---
 pkcs12/rc2.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkcs12/rc2.go b/pkcs12/rc2.go
index 7014f06..aa3517e 100644
--- a/pkcs12/rc2.go
+++ b/pkcs12/rc2.go
@@ -14,6 +14,8 @@ package pkcs12
 import (
 	"crypto/cipher"
 	"encoding/binary"
+	"errors"
+	"strconv"
 )
 
 // The rc2 block size in bytes
@@ -25,7 +27,12 @@ type rc2Cipher struct {
 
 // New returns a new rc2 cipher with the given key and effective key length t1
 func New(key []byte, t1 int) (cipher.Block, error) {
-	// TODO(dgryski): error checking for key length
+	if len(key) < 1 || len(key) > 128 {
+		return nil, errors.New("rc2: invalid key size " + strconv.Itoa(len(key)))
+	}
+	if t1 < 1 || t1 > 1024 {
+		return nil, errors.New("rc2: invalid effective key length " + strconv.Itoa(t1))
+	}
 	return &rc2Cipher{
 		k: expandKey(key, t1),
 	}, nil
-- 
2.43.0


From 9490069b8c3a88a293858657956dadea7d338442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 25/31] fix: bound PKCS#12 iteration counts

---
 pkcs12/crypto.go | 4 ++++
 pkcs12/mac.go    | 4 ++++
 pkcs12/pbkdf.go  | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/pkcs12/crypto.go b/pkcs12/crypto.go
index 088ef36..f110208 100644
--- a/pkcs12/crypto.go
+++ b/pkcs12/crypto.go
@@ -78,6 +78,10 @@ func pbeCipherFor(algorithm pkix.AlgorithmIdentifier, password []byte) (cipher.B
 		return nil, nil, err
 	}
 
+	if params.Iterations > maxIterations {
+		return nil, nil, NotImplementedError("PBE iteration count is too large")
+	}
+
 	key := cipherType.deriveKey(params.Salt, password, params.Iterations)
 	iv := cipherType.deriveIV(params.Salt, password, params.Iterations)
 
diff --git a/pkcs12/mac.go b/pkcs12/mac.go
index 27a0980..7fb9b81 100644
--- a/pkcs12/mac.go
+++ b/pkcs12/mac.go
@@ -32,6 +32,10 @@ func verifyMac(macData *macData, message, password []byte) error {
 		return NotImplementedError("unknown digest algorithm: " + macData.Mac.Algorithm.Algorithm.String())
 	}
 
+	if macData.Iterations > maxIterations {
+		return NotImplementedError("MAC iteration count is too large")
+	}
+
 	key := pbkdf(sha1Sum, 20, 64, macData.MacSalt, password, macData.Iterations, 3, 20)
 
 	mac := hmac.New(sha1.New, key)
diff --git a/pkcs12/pbkdf.go b/pkcs12/pbkdf.go
index 5c419d4..42b32af 100644
--- a/pkcs12/pbkdf.go
+++ b/pkcs12/pbkdf.go
@@ -14,6 +14,11 @@ var (
 	one = big.NewInt(1)
 )
 
+// maxIterations bounds the iteration counts a store may ask for. The count for
+// the MAC is read before anything is authenticated, and without a bound a few
+// bytes of input keep the decoder busy for years.
+const maxIterations = 1 << 24
+
 // sha1Sum returns the SHA-1 hash of in.
 func sha1Sum(in []byte) []byte {
 	sum := sha1.Sum(in)
-- 
2.43.0


From 6789579a2139595aec3ac6856c8011f0bd4a4600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 26/31] fix: inconsistent RSA private keys and negative
 versions were accepted

---
 x509/pkcs1.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/x509/pkcs1.go b/x509/pkcs1.go
index f9d3840..274c377 100644
--- a/x509/pkcs1.go
+++ b/x509/pkcs1.go
@@ -60,7 +60,7 @@ func ParsePKCS1PrivateKey(der []byte) (*rsa.PrivateKey, error) {
 		return nil, err
 	}
 
-	if priv.Version > 1 {
+	if priv.Version < 0 || priv.Version > 1 {
 		return nil, errors.New("x509: unsupported private key version")
 	}
 
@@ -91,6 +91,20 @@ func ParsePKCS1PrivateKey(der []byte) (*rsa.PrivateKey, error) {
 	if err != nil {
 		return nil, err
 	}
+	// Validate no longer compares all the numbers with each other
+	// (since Go 1.24 it does not for keys of more than two primes).
+	product, de := big.NewInt(1), big.NewInt(int64(key.E))
+	de.Mul(de, key.D)
+	for _, prime := range key.Primes {
+		product.Mul(product, prime)
+		pMinus1 := new(big.Int).Sub(prime, big.NewInt(1))
+		if pMinus1.Sign() <= 0 || new(big.Int).Mod(new(big.Int).Sub(de, big.NewInt(1)), pMinus1).Sign() != 0 {
+			return nil, errors.New("x509: RSA private key exponents do not match its primes")
+		}
+	}
+	if product.Cmp(key.N) != 0 {
+		return nil, errors.New("x509: RSA private key modulus is not the product of its primes")
+	}
 	key.Precompute()
 
 	return key, nil
-- 
2.43.0


From dc9b17c803c88c6099c0f170357c5ad75363a334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 27/31] fix: MarshalPKCS1PrivateKey wrote to its caller's key

---
 x509/pkcs1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x509/pkcs1.go b/x509/pkcs1.go
index 274c377..d4721d5 100644
--- a/x509/pkcs1.go
+++ b/x509/pkcs1.go
@@ -116,6 +116,9 @@ func ParsePKCS1PrivateKey(der []byte) (*rsa.PrivateKey, error) {
 // For a more flexible key format which is not RSA specific, use
 // MarshalPKCS8PrivateKey.
 func MarshalPKCS1PrivateKey(key *rsa.PrivateKey) []byte {
+	// precompute on a copy: the caller's key stays as it is
+	k := *key
+	key = &k
 	key.Precompute()
 
 	version := 0
-- 
2.43.0


From c8ed6588d3501975d77d44a405c46199148b14c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 28/31] fix: certificates with unique identifiers lost their
 extensions

---
 x509/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x509/parser.go b/x509/parser.go
index 8fce8d1..4be5c99 100644
--- a/x509/parser.go
+++ b/x509/parser.go
@@ -1141,10 +1141,10 @@ func parseCertificate(der []byte) (*Certificate, error) {
 	}
 
 	if cert.Version > 1 {
-		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(1).Constructed().ContextSpecific()) {
+		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(1).ContextSpecific()) {
 			return nil, errors.New("x509: malformed issuerUniqueID")
 		}
-		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(2).Constructed().ContextSpecific()) {
+		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(2).ContextSpecific()) {
 			return nil, errors.New("x509: malformed subjectUniqueID")
 		}
 		if cert.Version == 3 {
-- 
2.43.0


From 6bc87d505648c6e6faf035a2b1fcf754bc59b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 29/31] fix: certificates without extensions were given an
 empty sequence of them

---
 x509/x509.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x509/x509.go b/x509/x509.go
index ccffa79..43cd3ae 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -175,7 +175,7 @@ type tbsCertificate struct {
 	PublicKey          publicKeyInfo
 	UniqueId           asn1.BitString   `asn1:"optional,tag:1"`
 	SubjectUniqueId    asn1.BitString   `asn1:"optional,tag:2"`
-	Extensions         []pkix.Extension `asn1:"optional,explicit,tag:3"`
+	Extensions         []pkix.Extension `asn1:"omitempty,optional,explicit,tag:3"`
 }
 
 type dsaAlgorithmParameters struct {
-- 
2.43.0


From d629236d5e75aba8accbf3ca5cc3bc776ca7dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 30/31] fix: parsing an RSA private key with long primes took
 hours

---
 x509/pkcs1.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/x509/pkcs1.go b/x509/pkcs1.go
index d4721d5..a801dd2 100644
--- a/x509/pkcs1.go
+++ b/x509/pkcs1.go
@@ -87,10 +87,6 @@ func ParsePKCS1PrivateKey(der []byte) (*rsa.PrivateKey, error) {
 		// them as needed.
 	}
 
-	err = key.Validate()
-	if err != nil {
-		return nil, err
-	}
 	// Validate no longer compares all the numbers with each other
 	// (since Go 1.24 it does not for keys of more than two primes).
 	product, de := big.NewInt(1), big.NewInt(int64(key.E))
@@ -105,6 +101,21 @@ func ParsePKCS1PrivateKey(der []byte) (*rsa.PrivateKey, error) {
 	if product.Cmp(key.N) != 0 {
 		return nil, errors.New("x509: RSA private key modulus is not the product of its primes")
 	}
+	if len(key.Primes) == 2 {
+		// Without these values Validate works them out by an exponentiation,
+		// which takes hours if the primes are as long as a document makes them.
+		p, q := key.Primes[0], key.Primes[1]
+		key.Precomputed.Dp = new(big.Int).Mod(key.D, new(big.Int).Sub(p, big.NewInt(1)))
+		key.Precomputed.Dq = new(big.Int).Mod(key.D, new(big.Int).Sub(q, big.NewInt(1)))
+		key.Precomputed.Qinv = new(big.Int).ModInverse(q, p)
+		if key.Precomputed.Qinv == nil {
+			return nil, errors.New("x509: RSA private key has primes with a common factor")
+		}
+	}
+	err = key.Validate()
+	if err != nil {
+		return nil, err
+	}
 	key.Precompute()
 
 	return key, nil
-- 
2.43.0


From e198a90a371041cb22d65b3bd67632dc195810c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:18 +0000
Subject: [PATCH 31/31] fix: the MD4 identifier had no name

---
 x509/x509.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x509/x509.go b/x509/x509.go
index 43cd3ae..1cad536 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -226,6 +226,8 @@ func (h Hash) HashFunc() crypto.Hash {
 
 func (h Hash) String() string {
 	switch h {
+	case MD4:
+		return "MD4"
 	case MD5:
 		return "MD5"
 	case SHA1:
-- 
2.43.0

