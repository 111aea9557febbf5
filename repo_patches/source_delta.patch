From 87f0da94a509d9fb79d03caf9ac93bc140b4371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 01/32] fix: sm3: Sum must not change the underlying hash state

---
 sm3/sm3.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 141a4e7..acf58a3 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -39,7 +39,8 @@ func New() hash.Hash {
 }
 
 func (digest *sm3Digest) Sum(b []byte) []byte {
-	d1 := digest
+	// work on a copy so that the caller can keep writing and summing
+	d1 := *digest
 	h := d1.checkSum()
 	return append(b, h[:]...)
 }
-- 
2.43.0


From 948350761469363a460bbcc4e411a6e2f5ae2e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 02/32] fix: sm3: Write must accept an empty slice

---
 sm3/sm3.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index acf58a3..145b9b0 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -87,7 +87,6 @@ func (digest *sm3Digest) Reset() {
 }
 
 func (digest *sm3Digest) Write(p []byte) (n int, err error) {
-	_ = p[0]
 	inLen := len(p)
 
 	i := 0
-- 
2.43.0


From f57f71bde52fba4ad0f6a75d8895debbd0b34e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:46 +0000
Subject: [PATCH 03/32] fix: sm2: key exchange KDF panics for keys longer than
 128 bits

---
 sm2/keyexchange.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 66ae995..45e16f5 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -44,8 +44,8 @@ func calculateU(w int, selfStaticPriv *PrivateKey, selfEphemeralPriv *PrivateKey
 
 func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) []byte {
 	bufSize := 4
-	if bufSize < digest.BlockSize() {
-		bufSize = digest.BlockSize()
+	if bufSize < digest.Size() {
+		bufSize = digest.Size()
 	}
 	buf := make([]byte, bufSize)
 
@@ -68,6 +68,9 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 		copy(buf[:bufSize], tmp[:bufSize])
 
 		copyLen := rvLen - off
+		if copyLen > digest.Size() {
+			copyLen = digest.Size()
+		}
 		copy(rv[off:off+copyLen], buf[:copyLen])
 		off += copyLen
 	}
-- 
2.43.0


From a8300457a2a38847a7c65fef4a9c15bca8ffad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:46 +0000
Subject: [PATCH 04/32] fix: sm3: BlockSize is 64 bytes, HMAC depends on it

---
 sm3/sm3.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 145b9b0..81a8b28 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -9,7 +9,9 @@ import (
 
 const (
 	DigestLength = 32
-	BlockSize    = 16
+	BlockSize    = 64
+
+	blockWords = BlockSize / 4
 )
 
 var gT = []uint32{
@@ -24,7 +26,7 @@ var gT = []uint32{
 
 type sm3Digest struct {
 	v         [DigestLength / 4]uint32
-	inWords   [BlockSize]uint32
+	inWords   [blockWords]uint32
 	xOff      int32
 	w         [68]uint32
 	xBuf      [4]byte
@@ -227,14 +229,14 @@ func (digest *sm3Digest) processWord(in []byte, inOff int32) {
 }
 
 func (digest *sm3Digest) processLength(bitLength int64) {
-	if digest.xOff > (BlockSize - 2) {
+	if digest.xOff > (blockWords - 2) {
 		digest.inWords[digest.xOff] = 0
 		digest.xOff++
 
 		digest.processBlock()
 	}
 
-	for ; digest.xOff < (BlockSize - 2); digest.xOff++ {
+	for ; digest.xOff < (blockWords - 2); digest.xOff++ {
 		digest.inWords[digest.xOff] = 0
 	}
 
-- 
2.43.0


From b9f1f8e313dfa6dcdb8c361d41b8c4d8927bf020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:46 +0000
Subject: [PATCH 05/32] fix: sm2: key exchange must hash coordinates as fixed
 32 byte strings

---
 sm2/keyexchange.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 45e16f5..3cb365b 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -51,8 +51,8 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 	rv := make([]byte, (keyBits+7)/8)
 	rvLen := len(rv)
-	uxBytes := ux.Bytes()
-	uyBytes := uy.Bytes()
+	uxBytes := bigIntTo32Bytes(ux)
+	uyBytes := bigIntTo32Bytes(uy)
 	off := 0
 	ct := uint32(0)
 	for off < rvLen {
@@ -79,20 +79,20 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 func calculateInnerHash(digest hash.Hash, ux *big.Int, za, zb []byte, p1x, p1y *big.Int, p2x, p2y *big.Int) []byte {
 	digest.Reset()
-	digest.Write(ux.Bytes())
+	digest.Write(bigIntTo32Bytes(ux))
 	digest.Write(za)
 	digest.Write(zb)
-	digest.Write(p1x.Bytes())
-	digest.Write(p1y.Bytes())
-	digest.Write(p2x.Bytes())
-	digest.Write(p2y.Bytes())
+	digest.Write(bigIntTo32Bytes(p1x))
+	digest.Write(bigIntTo32Bytes(p1y))
+	digest.Write(bigIntTo32Bytes(p2x))
+	digest.Write(bigIntTo32Bytes(p2y))
 	return digest.Sum(nil)
 }
 
 func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x02})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
@@ -100,7 +100,7 @@ func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 func s2(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x03})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
-- 
2.43.0


From ef9ddd480ec3a150b01094741d254be2733b4275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 06/32] fix: sm2: Decrypt panics on a short cipher text or a C1
 off the curve

---
 sm2/sm2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index f958e88..b90379f 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -307,9 +307,15 @@ func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byt
 
 func Decrypt(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
 	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1
+	if len(in) < c1Len+sm3.DigestLength {
+		return nil, errors.New("cipher text too short")
+	}
 	c1 := make([]byte, c1Len)
 	copy(c1, in[:c1Len])
 	c1x, c1y := elliptic.Unmarshal(priv.Curve, c1)
+	if c1x == nil || c1y == nil {
+		return nil, errors.New("C1 is not a valid curve point")
+	}
 	sx, sy := priv.Curve.ScalarMult(c1x, c1y, sm2H.Bytes())
 	if util.IsEcPointInfinity(sx, sy) {
 		return nil, errors.New("[h]C1 at infinity")
-- 
2.43.0


From 74a94fd1acea98265b76a712075486257744bf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:52 +0000
Subject: [PATCH 07/32] fix: sm2: MarshalCipher panics on a short cipher text

---
 sm2/sm2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index b90379f..77b6e40 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -356,6 +356,9 @@ func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error)
 	c1x := make([]byte, byteLen)
 	c1y := make([]byte, byteLen)
 	c2Len := len(in) - (1 + byteLen*2) - sm3.DigestLength
+	if c2Len < 0 || in[0] != UnCompress {
+		return nil, errors.New("invalid cipher text")
+	}
 	c2 := make([]byte, c2Len)
 	c3 := make([]byte, sm3.DigestLength)
 	pos := 1
-- 
2.43.0


From 4046a66325de0696eca799d11787027f3910ac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:52 +0000
Subject: [PATCH 08/32] fix: sm2: UnmarshalCipher panics on an oversized
 coordinate

---
 sm2/sm2.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 77b6e40..25cdac6 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -393,6 +393,17 @@ func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error)
 	}
 }
 
+// DER解码得到的C1坐标必须能用32字节表示，C3必须是一个SM3摘要
+func checkCipherFields(x, y *big.Int, c3 []byte) error {
+	if x.Sign() < 0 || y.Sign() < 0 || x.BitLen() > BitSize || y.BitLen() > BitSize {
+		return errors.New("invalid C1 coordinate")
+	}
+	if len(c3) != sm3.DigestLength {
+		return errors.New("invalid C3 length")
+	}
+	return nil
+}
+
 func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, err error) {
 	if cipherTextType == C1C2C3 {
 		cipher := new(sm2CipherC1C2C3)
@@ -400,6 +411,9 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		if err != nil {
 			return nil, err
 		}
+		if err = checkCipherFields(cipher.X, cipher.Y, cipher.C3); err != nil {
+			return nil, err
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
@@ -424,6 +438,9 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		if err != nil {
 			return nil, err
 		}
+		if err = checkCipherFields(cipher.X, cipher.Y, cipher.C3); err != nil {
+			return nil, err
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
-- 
2.43.0


From 886b540c2aaa4ed087cddd67026dfff776b2bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:52 +0000
Subject: [PATCH 09/32] fix: sm2: reject trailing data after a DER signature or
 cipher text

---
 sm2/sm2.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 25cdac6..bc01f19 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -407,10 +407,13 @@ func checkCipherFields(x, y *big.Int, c3 []byte) error {
 func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, err error) {
 	if cipherTextType == C1C2C3 {
 		cipher := new(sm2CipherC1C2C3)
-		_, err = asn1.Unmarshal(in, cipher)
+		rest, err := asn1.Unmarshal(in, cipher)
 		if err != nil {
 			return nil, err
 		}
+		if len(rest) != 0 {
+			return nil, errors.New("trailing data after cipher text")
+		}
 		if err = checkCipherFields(cipher.X, cipher.Y, cipher.C3); err != nil {
 			return nil, err
 		}
@@ -434,10 +437,13 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		return result, nil
 	} else if cipherTextType == C1C3C2 {
 		cipher := new(sm2CipherC1C3C2)
-		_, err = asn1.Unmarshal(in, cipher)
+		rest, err := asn1.Unmarshal(in, cipher)
 		if err != nil {
 			return nil, err
 		}
+		if len(rest) != 0 {
+			return nil, errors.New("trailing data after cipher text")
+		}
 		if err = checkCipherFields(cipher.X, cipher.Y, cipher.C3); err != nil {
 			return nil, err
 		}
@@ -504,10 +510,13 @@ func MarshalSign(r, s *big.Int) ([]byte, error) {
 
 func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 	sm2Sign := new(sm2Signature)
-	_, err = asn1.Unmarshal(sign, sm2Sign)
+	rest, err := asn1.Unmarshal(sign, sm2Sign)
 	if err != nil {
 		return nil, nil, err
 	}
+	if len(rest) != 0 {
+		return nil, nil, errors.New("trailing data after signature")
+	}
 	return sm2Sign.R, sm2Sign.S, nil
 }
 
-- 
2.43.0


From 92b7718ed1ed36b499212cf35d1c578c17c335c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 10/32] fix: sm2: Encrypt never returns for an empty plain text

---
 sm2/sm2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index bc01f19..e6d5ea2 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -276,7 +276,7 @@ func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byt
 		kPBx, kPBy = pub.Curve.ScalarMult(pub.X, pub.Y, kBytes)
 		kdf(digest, kPBx, kPBy, c2)
 
-		if !notEncrypted(c2, in) {
+		if len(in) == 0 || !notEncrypted(c2, in) {
 			break
 		}
 	}
-- 
2.43.0


From 6e35745e87dd7365f0117475cb069ed3fb81881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 11/32] fix: sm2: RawBytesToPublicKey must reject a point off
 the curve

---
 sm2/sm2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index e6d5ea2..0d784dd 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -119,6 +119,9 @@ func RawBytesToPublicKey(bytes []byte) (*PublicKey, error) {
 	publicKey.Curve = sm2P256V1
 	publicKey.X = new(big.Int).SetBytes(bytes[:KeyBytes])
 	publicKey.Y = new(big.Int).SetBytes(bytes[KeyBytes:])
+	if !publicKey.Curve.IsOnCurve(publicKey.X, publicKey.Y) {
+		return nil, errors.New("Public key is not on the curve")
+	}
 	return publicKey, nil
 }
 
-- 
2.43.0


From fe420a4651395d771d0c61d156e5a6f2f2c4843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 12/32] fix: sm2: signing with the private key n-1 never
 returns

---
 sm2/sm2.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 0d784dd..4392b95 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -132,9 +132,18 @@ func RawBytesToPrivateKey(bytes []byte) (*PrivateKey, error) {
 	privateKey := new(PrivateKey)
 	privateKey.Curve = sm2P256V1
 	privateKey.D = new(big.Int).SetBytes(bytes)
+	if !isValidScalar(privateKey) {
+		return nil, errors.New("Private key is out of range")
+	}
 	return privateKey, nil
 }
 
+// 私钥的取值范围是[1, n-2]
+func isValidScalar(priv *PrivateKey) bool {
+	max := util.Sub(priv.Curve.N, new(big.Int).SetInt64(1))
+	return priv.D.Sign() > 0 && priv.D.Cmp(max) < 0
+}
+
 func (pub *PublicKey) GetUnCompressBytes() []byte {
 	xBytes := bigIntTo32Bytes(pub.X)
 	yBytes := bigIntTo32Bytes(pub.Y)
@@ -524,6 +533,9 @@ func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 }
 
 func SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err error) {
+	if !isValidScalar(priv) {
+		return nil, nil, errors.New("private key is out of range")
+	}
 	digest := sm3.New()
 	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())
 	if userId == nil {
-- 
2.43.0


From fe325db222e3194084cbcda9ed0acee73033ff35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 13/32] fix: sm2: Verify and Encrypt panic on a public key off
 the curve

---
 sm2/sm2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 4392b95..0a0399b 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -272,6 +272,9 @@ func notEncrypted(encData []byte, in []byte) bool {
 }
 
 func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
+	if !pub.Curve.IsOnCurve(pub.X, pub.Y) {
+		return nil, errors.New("public key is not on the curve")
+	}
 	c2 := make([]byte, len(in))
 	copy(c2, in)
 	var c1 []byte
@@ -591,6 +594,9 @@ func Sign(priv *PrivateKey, userId []byte, in []byte) ([]byte, error) {
 }
 
 func VerifyByRS(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) bool {
+	if !pub.Curve.IsOnCurve(pub.X, pub.Y) {
+		return false
+	}
 	intOne := new(big.Int).SetInt64(1)
 	if r.Cmp(intOne) == -1 || r.Cmp(pub.Curve.N) >= 0 {
 		return false
-- 
2.43.0


From 9905e463ce6934511410027ce5b945a22b054bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 14/32] fix: sm2: key exchange must check the points of the
 other side and the shared point

---
 sm2/keyexchange.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 3cb365b..5adc1cd 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -118,6 +118,15 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 		return nil, errors.New("if initiating, confirmationTag must be set")
 	}
 
+	if keyBits <= 0 {
+		return nil, errors.New("keyBits must be positive")
+	}
+	curve := selfStaticPriv.Curve
+	if !curve.IsOnCurve(otherStaticPub.X, otherStaticPub.Y) ||
+		!curve.IsOnCurve(otherEphemeralPub.X, otherEphemeralPub.Y) {
+		return nil, errors.New("public key of the other side is not on the curve")
+	}
+
 	selfStaticPub := CalculatePubKey(selfStaticPriv)
 	digest := sm3.New()
 	za := getZ(digest, &selfStaticPriv.Curve, selfStaticPub.X, selfStaticPub.Y, selfId)
@@ -126,6 +135,9 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 	w := selfStaticPriv.Curve.BitSize/2 - 1
 	selfEphemeralPub := CalculatePubKey(selfEphemeralPriv)
 	ux, uy := calculateU(w, selfStaticPriv, selfEphemeralPriv, selfEphemeralPub, otherStaticPub, otherEphemeralPub)
+	if util.IsEcPointInfinity(ux, uy) {
+		return nil, errors.New("shared point is at infinity")
+	}
 	if initiator {
 		rv := kdfForExch(digest, ux, uy, za, zb, keyBits)
 		innerHash := calculateInnerHash(digest, ux, za, zb, selfEphemeralPub.X, selfEphemeralPub.Y,
-- 
2.43.0


From 34429cc0f4ecbb427780c4680ed93502f4f9db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 15/32] fix: sm2: reject a user id whose bit length does not
 fit ENTL

---
 sm2/keyexchange.go |  6 ++++++
 sm2/sm2.go         | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 5adc1cd..4e9e37b 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -118,6 +118,12 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 		return nil, errors.New("if initiating, confirmationTag must be set")
 	}
 
+	if err := checkUserId(selfId); err != nil {
+		return nil, err
+	}
+	if err := checkUserId(otherId); err != nil {
+		return nil, err
+	}
 	if keyBits <= 0 {
 		return nil, errors.New("keyBits must be positive")
 	}
diff --git a/sm2/sm2.go b/sm2/sm2.go
index 0a0399b..eeec154 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -485,6 +485,14 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 	}
 }
 
+// ENTL是两个字节的比特长度
+func checkUserId(userId []byte) error {
+	if len(userId)*8 > 0xffff {
+		return errors.New("user id is too long")
+	}
+	return nil
+}
+
 func getZ(digest hash.Hash, curve *P256V1Curve, pubX *big.Int, pubY *big.Int, userId []byte) []byte {
 	digest.Reset()
 
@@ -544,6 +552,9 @@ func SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err er
 	if userId == nil {
 		userId = sm2SignDefaultUserId
 	}
+	if err := checkUserId(userId); err != nil {
+		return nil, nil, err
+	}
 	e := calculateE(digest, &priv.Curve, pubX, pubY, userId, in)
 
 	intZero := new(big.Int).SetInt64(0)
@@ -609,6 +620,9 @@ func VerifyByRS(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) bool {
 	if userId == nil {
 		userId = sm2SignDefaultUserId
 	}
+	if checkUserId(userId) != nil {
+		return false
+	}
 	e := calculateE(digest, &pub.Curve, pub.X, pub.Y, userId, src)
 
 	intZero := new(big.Int).SetInt64(0)
-- 
2.43.0


From 07165665d0b69a10a85140bedcf817e519e7697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 16/32] fix: sm4: CBC panics on an iv of the wrong length

---
 sm4/sm4.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm4/sm4.go b/sm4/sm4.go
index 872f716..0203757 100644
--- a/sm4/sm4.go
+++ b/sm4/sm4.go
@@ -271,6 +271,9 @@ func CBCEncrypt(key, iv, plainText []byte) (cipherText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("iv length must equal block size")
+	}
 	encrypter := cipher.NewCBCEncrypter(c, iv)
 	cipherText = make([]byte, plainTextLen)
 	encrypter.CryptBlocks(cipherText, plainText)
@@ -289,6 +292,9 @@ func CBCDecrypt(key, iv, cipherText []byte) (plainText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("iv length must equal block size")
+	}
 	decrypter := cipher.NewCBCDecrypter(c, iv)
 	plainText = make([]byte, len(cipherText))
 	decrypter.CryptBlocks(plainText, cipherText)
-- 
2.43.0


From d22c02b2475b35016ac8a654a0db69c4301aa918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 17/32] fix: util: padding must not write into the spare
 capacity of src

---
 util/padding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/padding.go b/util/padding.go
index a1862c7..78ca4ca 100644
--- a/util/padding.go
+++ b/util/padding.go
@@ -5,7 +5,7 @@ import "bytes"
 func PKCS5Padding(src []byte, blockSize int) []byte {
 	padding := blockSize - len(src)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(src, padtext...)
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 func PKCS5UnPadding(src []byte) []byte {
@@ -17,7 +17,7 @@ func PKCS5UnPadding(src []byte) []byte {
 func ZeroPadding(src []byte, blockSize int) []byte {
 	padding := blockSize - len(src)%blockSize
 	padtext := bytes.Repeat([]byte{0}, padding)
-	return append(src, padtext...)
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 // UnZeroPadding
-- 
2.43.0


From cdb848d6516708a226c5016b478c9b42faf64a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:55 +0000
Subject: [PATCH 18/32] fix: util: PKCS5UnPadding panics on malformed padding

---
 util/padding.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/padding.go b/util/padding.go
index 78ca4ca..6ca0965 100644
--- a/util/padding.go
+++ b/util/padding.go
@@ -8,9 +8,16 @@ func PKCS5Padding(src []byte, blockSize int) []byte {
 	return append(src[:len(src):len(src)], padtext...)
 }
 
+// padding不合法时返回nil
 func PKCS5UnPadding(src []byte) []byte {
 	length := len(src)
+	if length == 0 {
+		return nil
+	}
 	unpadding := int(src[length-1])
+	if unpadding == 0 || unpadding > length {
+		return nil
+	}
 	return src[:(length - unpadding)]
 }
 
-- 
2.43.0


From 53026858183bf344b81af33679ed8a496462c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 19/32] fix: cryptobyte: ReadASN1Boolean must read a BOOLEAN,
 not an INTEGER

---
 cryptobyte/asn1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index 431d14e..07d459c 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -226,7 +226,7 @@ func (b *Builder) AddASN1(tag asn1.Tag, f BuilderContinuation) {
 
 func (s *String) ReadASN1Boolean(out *bool) bool {
 	var bytes String
-	if !s.ReadASN1(&bytes, asn1.INTEGER) || len(bytes) != 1 {
+	if !s.ReadASN1(&bytes, asn1.BOOLEAN) || len(bytes) != 1 {
 		return false
 	}
 
-- 
2.43.0


From c0b41327d84f5b04d29fa1332d9838816d0f44e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 20/32] fix: cryptobyte: ReadOptionalASN1Boolean must return
 the BOOLEAN it found

---
 cryptobyte/asn1.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index 07d459c..e2d2c0d 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -645,13 +645,7 @@ func (s *String) ReadOptionalASN1OctetString(out *[]byte, outPresent *bool, tag
 // ReadOptionalASN1Boolean sets *out to the value of the next ASN.1 BOOLEAN or,
 // if the next bytes are not an ASN.1 BOOLEAN, to the value of defaultValue.
 func (s *String) ReadOptionalASN1Boolean(out *bool, defaultValue bool) bool {
-	var present bool
-	var child String
-	if !s.ReadOptionalASN1(&child, &present, asn1.BOOLEAN) {
-		return false
-	}
-
-	if !present {
+	if !s.PeekASN1Tag(asn1.BOOLEAN) {
 		*out = defaultValue
 		return true
 	}
-- 
2.43.0


From e776428bce109e3f458372b0fa8195221da4614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 21/32] fix: cryptobyte: AddASN1BigInt panics on -1

---
 cryptobyte/asn1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index e2d2c0d..c8bc322 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -75,7 +75,7 @@ func (b *Builder) AddASN1BigInt(n *big.Int) {
 			for i := range bytes {
 				bytes[i] ^= 0xff
 			}
-			if bytes[0]&0x80 == 0 {
+			if len(bytes) == 0 || bytes[0]&0x80 == 0 {
 				c.add(0xff)
 			}
 			c.add(bytes...)
-- 
2.43.0


From 30a7e179c34b5567dcb30eae971973af09f3d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 22/32] fix: cryptobyte: OID arcs of up to 31 bits, no leading
 0x80 octet

---
 cryptobyte/asn1.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index c8bc322..c4e9f15 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -377,11 +377,24 @@ func (s *String) ReadASN1Enum(out *int) bool {
 func (s *String) readBase128Int(out *int) bool {
 	ret := 0
 	for i := 0; len(*s) > 0; i++ {
-		if i == 4 {
+		if i == 5 {
+			return false
+		}
+		// Avoid overflowing int on a 32-bit platform.
+		if ret >= 1<<(31-7) {
 			return false
 		}
 		ret <<= 7
 		b := s.read(1)[0]
+
+		// ITU-T X.690, section 8.19.2:
+		// The subidentifier shall be encoded in the fewest possible octets,
+		// that is, the leading octet of the subidentifier shall not have the
+		// value 0x80.
+		if i == 0 && b == 0x80 {
+			return false
+		}
+
 		ret |= int(b & 0x7f)
 		if b&0x80 == 0 {
 			*out = ret
-- 
2.43.0


From 45ca5f5d71c2ce54484a43aa968e55a5acd8eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 23/32] fix: cryptobyte: String.read panics on a negative
 length

---
 cryptobyte/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/string.go b/cryptobyte/string.go
index db3d738..172c18c 100644
--- a/cryptobyte/string.go
+++ b/cryptobyte/string.go
@@ -24,7 +24,7 @@ type String []byte
 // read advances a String by n bytes and returns them. If less than n bytes
 // remain, it returns nil.
 func (s *String) read(n int) []byte {
-	if len(*s) < n {
+	if len(*s) < n || n < 0 {
 		return nil
 	}
 	v := (*s)[:n]
-- 
2.43.0


From ca73d9a5850d923da0807b66a6557329af7b5113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 24/32] fix: cryptobyte: report a fixed buffer exhausted by the
 length octets

---
 cryptobyte/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 29b4c76..d857299 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -251,6 +251,10 @@ func (b *Builder) flushChild() {
 		extraBytes := int(lenLen - 1)
 		if extraBytes != 0 {
 			child.add(make([]byte, extraBytes)...)
+			if child.err != nil {
+				b.err = child.err
+				return
+			}
 			childStart := child.offset + child.pendingLenLen
 			copy(child.result[childStart+extraBytes:], child.result[childStart:])
 		}
-- 
2.43.0


From de11620883c2a5916260b0318b6f926265b555c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 25/32] fix: cryptobyte: a fixed size Builder loses the content
 of its children

---
 cryptobyte/builder.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index d857299..696f673 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -272,9 +272,7 @@ func (b *Builder) flushChild() {
 		return
 	}
 
-	if !b.fixedSize {
-		b.result = child.result // In case child reallocated result.
-	}
+	b.result = child.result // In case child reallocated result.
 }
 
 func (b *Builder) add(bytes ...byte) {
-- 
2.43.0


From 26a6c82c943fa7fdb4129dd225a3e31f07a8d1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 26/32] fix: cryptobyte: Builder panics when a length prefix
 exhausts the fixed buffer

---
 cryptobyte/builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 696f673..fa4145b 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -176,6 +176,9 @@ func (b *Builder) addLengthPrefixed(lenLen int, isASN1 bool, f BuilderContinuati
 
 	offset := len(b.result)
 	b.add(make([]byte, lenLen)...)
+	if b.err != nil {
+		return
+	}
 
 	if b.inContinuation == nil {
 		b.inContinuation = new(bool)
-- 
2.43.0


From f0fb4bb8e0ccb9d15e66b75894bb358db5a48fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 27/32] fix: cert: VerifyCSRSign panics on a request with
 another kind of key

---
 sm2/cert/gmx509.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index f9fe844..d1f33c3 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -534,7 +534,10 @@ func VerifyDERCSRSign(asn1Data []byte, userId []byte) (bool, error) {
 }
 
 func VerifyCSRSign(csr *x509.CertificateRequest, userId []byte) bool {
-	pub := csr.PublicKey.(*sm2.PublicKey)
+	pub, ok := csr.PublicKey.(*sm2.PublicKey)
+	if !ok {
+		return false
+	}
 	return sm2.Verify(pub, userId, csr.RawTBSCertificateRequest, csr.Signature)
 }
 
-- 
2.43.0


From 82443c2973b15867c65dcaf8ea46b2174a8a1354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 28/32] fix: cert: CreateCertificateInfo panics on an unknown
 extended key usage

---
 sm2/cert/gmx509.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index d1f33c3..3bc8f55 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -726,7 +726,7 @@ func buildExtensions(template *x509.Certificate, subjectIsEmpty bool, authorityK
 			if oid, ok := oidFromExtKeyUsage(u); ok {
 				oids = append(oids, oid)
 			} else {
-				panic("internal error")
+				return nil, errors.New("x509: unknown extended key usage")
 			}
 		}
 
-- 
2.43.0


From 7ddba7bf4a6a21f810430f9339606b4e0014dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 29/32] fix: cert: marshalPublicKey must report the error it
 got

---
 sm2/cert/gmx509.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 3bc8f55..a2f4ba1 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -248,7 +248,6 @@ func marshalPublicKey(pub *sm2.PublicKey) (publicKeyBytes []byte, publicKeyAlgor
 	paramBytes, err = asn1.Marshal(oidSM2P256V1)
 	publicKeyAlgorithm.Parameters.FullBytes = paramBytes
 
-	err = nil
 	return
 }
 
-- 
2.43.0


From 3033dda1775430d04b213e85defd7d36030c1e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 30/32] fix: cert: CreateCertificateRequest must not modify the
 template

---
 sm2/cert/gmx509.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index a2f4ba1..e589865 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -133,12 +133,15 @@ func CreateCertificateRequest(template *x509.CertificateRequest, pub *sm2.Public
 
 		// Append the extensions to an existing attribute if possible.
 		appended := false
-		for _, atvSet := range attributes {
+		for i, atvSet := range attributes {
 			if !atvSet.Type.Equal(oidExtensionRequest) || len(atvSet.Value) == 0 {
 				continue
 			}
 
-			atvSet.Value[0] = append(atvSet.Value[0], atvs...)
+			// Build new slices, the old ones belong to the caller.
+			value := append([][]pkix.AttributeTypeAndValue(nil), atvSet.Value...)
+			value[0] = append(append([]pkix.AttributeTypeAndValue(nil), atvSet.Value[0]...), atvs...)
+			attributes[i].Value = value
 			appended = true
 			break
 		}
-- 
2.43.0


From 42203bd789bcb9f71bdba7ec55cc9e558be3acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 31/32] fix: sm3: Write panics on a slice of 2 GiB or more

---
 sm3/sm3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 81a8b28..8e59818 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -107,7 +107,7 @@ func (digest *sm3Digest) Write(p []byte) (n int, err error) {
 
 	limit := ((inLen - i) & ^3) + i
 	for ; i < limit; i += 4 {
-		digest.processWord(p, int32(i))
+		digest.processWord(p, i)
 	}
 
 	for i < inLen {
@@ -217,7 +217,7 @@ func (digest *sm3Digest) processBlock() {
 	digest.xOff = 0
 }
 
-func (digest *sm3Digest) processWord(in []byte, inOff int32) {
+func (digest *sm3Digest) processWord(in []byte, inOff int) {
 	n := binary.BigEndian.Uint32(in[inOff : inOff+4])
 
 	digest.inWords[digest.xOff] = n
-- 
2.43.0


From da9a4fba6217b48537b4026a81f871fda78f8dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 32/32] fix: cert: CreateCertificateInfo must not hand out the
 package's OID variables

---
 sm2/cert/gmx509.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index e589865..db5ad9f 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -1013,7 +1013,7 @@ func CreateCertificateInfo(template, parent *x509.Certificate, csr *x509.Certifi
 	}
 
 	var sigAlgo pkix.AlgorithmIdentifier
-	sigAlgo.Algorithm = oidSignatureSM3WithSM2
+	sigAlgo.Algorithm = append(asn1.ObjectIdentifier(nil), oidSignatureSM3WithSM2...)
 	var subjectPubKeyInfo publicKeyInfo
 	rest, err := asn1.Unmarshal(csr.RawSubjectPublicKeyInfo, &subjectPubKeyInfo)
 	if err != nil {
@@ -1029,7 +1029,7 @@ func CreateCertificateInfo(template, parent *x509.Certificate, csr *x509.Certifi
 		Validity:           validity{template.NotBefore.UTC(), template.NotAfter.UTC()},
 		Subject:            asn1.RawValue{FullBytes: asn1Subject},
 		PublicKey:          subjectPubKeyInfo,
-		Extensions:         extensions,
+		Extensions:         copyExtensions(extensions),
 	}
 
 	tbsCertContents, err := asn1.Marshal(c)
@@ -1040,6 +1040,18 @@ func CreateCertificateInfo(template, parent *x509.Certificate, csr *x509.Certifi
 	return &c, nil
 }
 
+// copyExtensions returns the extensions with identifiers of their own, so that
+// the caller holds no reference to the package's OID variables.
+func copyExtensions(extensions []pkix.Extension) []pkix.Extension {
+	ret := make([]pkix.Extension, len(extensions))
+	for i, ext := range extensions {
+		ret[i].Id = append(asn1.ObjectIdentifier(nil), ext.Id...)
+		ret[i].Critical = ext.Critical
+		ret[i].Value = ext.Value
+	}
+	return ret
+}
+
 func IssueCertificateBySoftCAKey(cinfo *TBSCertificate, caPri *sm2.PrivateKey, userId []byte) ([]byte, error) {
 	signature, err := sm2.Sign(caPri, userId, cinfo.Raw)
 	if err != nil {
-- 
2.43.0

