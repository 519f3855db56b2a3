From 5e5ee2588b71497704746e420e43292473c2b3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:22 +0000
Subject: [PATCH 01/21] fix: compute num.DivRound exactly instead of through
 float64

---
 math/num/num.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/math/num/num.go b/math/num/num.go
index cf32f58..51d406f 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -125,8 +125,34 @@ func Log2[T Integer](x T) int {
 }
 
 // DivRound returns round(x/y).
+// Ties are rounded away from zero.
+// Panics if y == 0.
 func DivRound[T Integer](x, y T) T {
-	return T(math.Round(float64(x) / float64(y)))
+	q, r := x/y, x%y
+
+	if !IsSigned[T]() {
+		if r >= y-r {
+			q++
+		}
+		return q
+	}
+
+	// Compare negated absolute values, which never overflow.
+	negR, negY := r, y
+	if negR > 0 {
+		negR = -negR
+	}
+	if negY > 0 {
+		negY = -negY
+	}
+	if negR <= negY-negR {
+		if (x < 0) == (y < 0) {
+			q++
+		} else {
+			q--
+		}
+	}
+	return q
 }
 
 // DivRoundBits is a bit-optimzed version of RoundRatio: it returns round(x/2^bits).
-- 
2.43.0


From 49e8099f564828e57e1b0745e7d92639f3bf80cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:22 +0000
Subject: [PATCH 02/21] fix: return correct modular inverses for unsigned types
 in num.ModInverse

---
 math/num/num.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index 51d406f..ac4ad69 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -264,8 +264,9 @@ func ModInverse[T Integer](x, m T) T {
 		panic("modular inverse does not exist")
 	}
 
-	u %= m
-	if u < 0 {
+	// Bezout coefficients satisfy |u| <= m/2, so the top bit tells
+	// whether u is negative even if T is unsigned.
+	if u>>(SizeT[T]()-1) != 0 {
 		u += m
 	}
 	return u
-- 
2.43.0


From a399bf871f9a0aef38ea2027343a127fbd46fb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:22 +0000
Subject: [PATCH 03/21] fix: avoid overflow and handle modulus one in
 num.ModExp

---
 math/num/num.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index ac4ad69..c01892d 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -283,12 +283,10 @@ func ModExp[T Integer](x, y, m T) T {
 		panic("modulus not positive")
 	}
 
-	switch {
-	case y < 0:
+	exp := uint64(y)
+	if y < 0 {
 		x = ModInverse(x, m)
-		y = -y
-	case y == 0:
-		return 1
+		exp = -exp
 	}
 
 	x %= m
@@ -296,17 +294,21 @@ func ModExp[T Integer](x, y, m T) T {
 		x += m
 	}
 
-	res := T(1)
-	for y > 0 {
-		if y&1 == 1 {
-			res = (res * x) % m
+	base, mod := uint64(x), uint64(m)
+	res := 1 % mod
+	for exp > 0 {
+		if exp&1 == 1 {
+			res = mulMod(res, base, mod)
 		}
-		x = (x * x) % m
-		y >>= 1
+		base = mulMod(base, base, mod)
+		exp >>= 1
 	}
+	return T(res)
+}
 
-	if res < 0 {
-		res += m
-	}
-	return res
+// mulMod returns x*y mod m, where x, y < m.
+func mulMod(x, y, m uint64) uint64 {
+	hi, lo := bits.Mul64(x, y)
+	_, rem := bits.Div64(hi, lo, m)
+	return rem
 }
-- 
2.43.0


From 8255b822ca5b9734de206d96f0fc08f1b8ef4895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 04/21] fix: clear the mask before public key encryption
 accumulates onto it

---
 tfhe/glwe_enc_public.go | 4 ++++
 tfhe/lwe_enc_public.go  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/tfhe/glwe_enc_public.go b/tfhe/glwe_enc_public.go
index 6ba876a..c04d93e 100644
--- a/tfhe/glwe_enc_public.go
+++ b/tfhe/glwe_enc_public.go
@@ -29,6 +29,10 @@ func (e *PublicEncryptor[T]) EncryptGLWEPlaintextTo(ctOut GLWECiphertext[T], pt
 // EncryptGLWEBody encrypts the value in the body of GLWE ciphertext and overrides it.
 // This avoids the need for most buffers.
 func (e *PublicEncryptor[T]) EncryptGLWEBody(ct GLWECiphertext[T]) {
+	for i := 1; i < e.Params.glweRank+1; i++ {
+		ct.Value[i].Clear()
+	}
+
 	for i := 0; i < e.Params.glweRank; i++ {
 		e.BinarySampler.SamplePolyTo(e.buf.auxKey.Value[i])
 	}
diff --git a/tfhe/lwe_enc_public.go b/tfhe/lwe_enc_public.go
index 8e61e1f..b15172c 100644
--- a/tfhe/lwe_enc_public.go
+++ b/tfhe/lwe_enc_public.go
@@ -31,6 +31,8 @@ func (e *PublicEncryptor[T]) EncryptLWEPlaintextTo(ctOut LWECiphertext[T], pt LW
 // EncryptLWEBody encrypts the value in the body of LWE ciphertext and overrides it.
 // This avoids the need for most buffers.
 func (e *PublicEncryptor[T]) EncryptLWEBody(ct LWECiphertext[T]) {
+	vec.Fill(ct.Value[1:], 0)
+
 	for i := 0; i < e.Params.glweRank; i++ {
 		e.BinarySampler.SamplePolyTo(e.buf.auxKey.Value[i])
 		ct.Value[0] += vec.Dot(e.buf.auxKey.Value[i].Coeffs, e.PublicKey.LWEKey.Value[i].Value[0].Coeffs)
-- 
2.43.0


From 8649fd0e56bc869645686195f4f4592c31d15930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 05/21] fix: reduce decrypted uni-encryption coefficients
 modulo the gadget base

---
 mktfhe/fft_glwe_enc.go | 2 +-
 mktfhe/glwe_enc.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/fft_glwe_enc.go b/mktfhe/fft_glwe_enc.go
index 298dc37..20fb5ad 100644
--- a/mktfhe/fft_glwe_enc.go
+++ b/mktfhe/fft_glwe_enc.go
@@ -87,6 +87,6 @@ func (e *Encryptor[T]) FFTUniDecryptPolyTo(pOut poly.Poly[T], ct FFTUniEncryptio
 	pOut.CopyFrom(e.buf.ctSubGLWE.Value[0])
 	e.SubEncryptor.PolyEvaluator.ShortFFTPolyMulSubPolyTo(pOut, e.buf.ctSubGLWE.Value[1], e.buf.auxFourierKey.Value[0])
 	for i := 0; i < e.Params.PolyRank(); i++ {
-		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ())
+		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ()) % ct.GadgetParams.Base()
 	}
 }
diff --git a/mktfhe/glwe_enc.go b/mktfhe/glwe_enc.go
index 6186f5a..a91cc17 100644
--- a/mktfhe/glwe_enc.go
+++ b/mktfhe/glwe_enc.go
@@ -83,6 +83,6 @@ func (e *Encryptor[T]) UniDecryptPolyTo(pOut poly.Poly[T], ct UniEncryption[T])
 	pOut.CopyFrom(ct.Value[0].Value[0].Value[0])
 	e.SubEncryptor.PolyEvaluator.ShortFFTPolyMulSubPolyTo(pOut, ct.Value[0].Value[0].Value[1], e.buf.auxFourierKey.Value[0])
 	for i := 0; i < e.Params.PolyRank(); i++ {
-		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ())
+		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ()) % ct.GadgetParams.Base()
 	}
 }
-- 
2.43.0


From a2010dc2a5dc9dfa498eca9805f935e217fd3d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:04 +0000
Subject: [PATCH 06/21] fix: size the multi-key decryptor's key lists by the
 party count

---
 mktfhe/decryptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/decryptor.go b/mktfhe/decryptor.go
index 4d04a9b..f02a7b9 100644
--- a/mktfhe/decryptor.go
+++ b/mktfhe/decryptor.go
@@ -53,8 +53,8 @@ type decryptorBuffer[T tfhe.TorusInt] struct {
 // NewDecryptor creates a new [Decryptor].
 // Only indices between 0 and params.PartyCount is valid for sk.
 func NewDecryptor[T tfhe.TorusInt](params Parameters[T], sk map[int]tfhe.SecretKey[T]) *Decryptor[T] {
-	subEncs := make([]*tfhe.Encryptor[T], len(sk))
-	subKeys := make([]tfhe.SecretKey[T], len(sk))
+	subEncs := make([]*tfhe.Encryptor[T], params.PartyCount())
+	subKeys := make([]tfhe.SecretKey[T], params.PartyCount())
 	partyBitMap := make([]bool, params.PartyCount())
 	for i := range sk {
 		subEncs[i] = tfhe.NewEncryptorWithKey(params.subParams, sk[i])
-- 
2.43.0


From 53c4c7f92ec2ad3c9c13c5fec35a1c0c04b8bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:35 +0000
Subject: [PATCH 07/21] fix: reduce negative and large messages by mathematical
 modulus when encoding

---
 mktfhe/fft_glwe_enc.go |  2 +-
 mktfhe/glwe_enc.go     |  2 +-
 tfhe/encoder.go        | 25 +++++++++++++++----------
 tfhe/fft_glwe_enc.go   |  4 ++--
 tfhe/glwe_enc.go       |  6 +++---
 tfhe/lwe_enc.go        |  8 ++++----
 6 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/mktfhe/fft_glwe_enc.go b/mktfhe/fft_glwe_enc.go
index 20fb5ad..8e90db6 100644
--- a/mktfhe/fft_glwe_enc.go
+++ b/mktfhe/fft_glwe_enc.go
@@ -18,7 +18,7 @@ func (e *Encryptor[T]) FFTUniEncrypt(messages []int, gadgetParams tfhe.GadgetPar
 func (e *Encryptor[T]) FFTUniEncryptTo(ctOut FFTUniEncryption[T], messages []int, gadgetParams tfhe.GadgetParameters[T]) {
 	length := num.Min(e.Params.PolyRank(), len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.MessageModulus()
+		e.buf.ptGLWE.Value.Coeffs[i] = e.EncodeLWECustom(messages[i], e.Params.MessageModulus(), 1).Value
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
diff --git a/mktfhe/glwe_enc.go b/mktfhe/glwe_enc.go
index a91cc17..2ba5372 100644
--- a/mktfhe/glwe_enc.go
+++ b/mktfhe/glwe_enc.go
@@ -18,7 +18,7 @@ func (e *Encryptor[T]) UniEncrypt(messages []int, gadgetParams tfhe.GadgetParame
 func (e *Encryptor[T]) UniEncryptTo(ctOut UniEncryption[T], messages []int, gadgetParams tfhe.GadgetParameters[T]) {
 	length := num.Min(e.Params.PolyRank(), len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.MessageModulus()
+		e.buf.ptGLWE.Value.Coeffs[i] = e.EncodeLWECustom(messages[i], e.Params.MessageModulus(), 1).Value
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
diff --git a/tfhe/encoder.go b/tfhe/encoder.go
index 13d6aa1..e4518aa 100644
--- a/tfhe/encoder.go
+++ b/tfhe/encoder.go
@@ -24,6 +24,19 @@ func NewEncoder[T TorusInt](params Parameters[T]) *Encoder[T] {
 	}
 }
 
+// reduceMessage reduces a (possibly negative) message modulo messageModulus.
+// If messageModulus = 0, then no modulus reduction is performed.
+func reduceMessage[T TorusInt](message int, messageModulus T) T {
+	switch {
+	case messageModulus == 0:
+		return T(message)
+	case message < 0:
+		return messageModulus - 1 - T(uint64(^message)%uint64(messageModulus))
+	default:
+		return T(uint64(message) % uint64(messageModulus))
+	}
+}
+
 // EncodeLWE encodes integer message to LWE plaintext.
 // Parameter's MessageModulus and Scale are used.
 func (e *Encoder[T]) EncodeLWE(message int) LWEPlaintext[T] {
@@ -35,11 +48,7 @@ func (e *Encoder[T]) EncodeLWE(message int) LWEPlaintext[T] {
 //
 // If MessageModulus = 0, then no modulus reduction is performed.
 func (e *Encoder[T]) EncodeLWECustom(message int, messageModulus, scale T) LWEPlaintext[T] {
-	encoded := T(message)
-	if messageModulus != 0 {
-		encoded %= messageModulus
-	}
-	return LWEPlaintext[T]{Value: encoded * scale}
+	return LWEPlaintext[T]{Value: reduceMessage(message, messageModulus) * scale}
 }
 
 // DecodeLWE decodes LWE plaintext to integer message.
@@ -101,11 +110,7 @@ func (e *Encoder[T]) EncodeGLWECustom(messages []int, messageModulus, scale T) G
 func (e *Encoder[T]) EncodeGLWECustomTo(ptOut GLWEPlaintext[T], messages []int, messageModulus, scale T) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		ptOut.Value.Coeffs[i] = T(messages[i])
-		if messageModulus != 0 {
-			ptOut.Value.Coeffs[i] %= messageModulus
-		}
-		ptOut.Value.Coeffs[i] *= scale
+		ptOut.Value.Coeffs[i] = reduceMessage(messages[i], messageModulus) * scale
 	}
 	vec.Fill(ptOut.Value.Coeffs[length:], 0)
 }
diff --git a/tfhe/fft_glwe_enc.go b/tfhe/fft_glwe_enc.go
index cbdabeb..fd753be 100644
--- a/tfhe/fft_glwe_enc.go
+++ b/tfhe/fft_glwe_enc.go
@@ -63,7 +63,7 @@ func (e *Encryptor[T]) EncryptFFTGLev(messages []int, gadgetParams GadgetParamet
 func (e *Encryptor[T]) EncryptFFTGLevTo(ctOut FFTGLevCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = reduceMessage(messages[i], e.Params.messageModulus)
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
@@ -129,7 +129,7 @@ func (e *Encryptor[T]) EncryptFFTGGSW(messages []int, gadgetParams GadgetParamet
 func (e *Encryptor[T]) EncryptFFTGGSWTo(ctOut FFTGGSWCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = reduceMessage(messages[i], e.Params.messageModulus)
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
diff --git a/tfhe/glwe_enc.go b/tfhe/glwe_enc.go
index 87fc490..73276ac 100644
--- a/tfhe/glwe_enc.go
+++ b/tfhe/glwe_enc.go
@@ -81,7 +81,7 @@ func (e *Encryptor[T]) EncryptGLev(messages []int, gadgetParams GadgetParameters
 func (e *Encryptor[T]) EncryptGLevTo(ctOut GLevCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = reduceMessage(messages[i], e.Params.messageModulus)
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
@@ -139,7 +139,7 @@ func (e *Encryptor[T]) DecryptGLevPolyTo(pOut poly.Poly[T], ct GLevCiphertext[T]
 func (e *Encryptor[T]) EncryptGGSW(messages []int, gadgetParams GadgetParameters[T]) GGSWCiphertext[T] {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = reduceMessage(messages[i], e.Params.messageModulus)
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
@@ -150,7 +150,7 @@ func (e *Encryptor[T]) EncryptGGSW(messages []int, gadgetParams GadgetParameters
 func (e *Encryptor[T]) EncryptGGSWTo(ctOut GGSWCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = reduceMessage(messages[i], e.Params.messageModulus)
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
diff --git a/tfhe/lwe_enc.go b/tfhe/lwe_enc.go
index d999dc7..9747a65 100644
--- a/tfhe/lwe_enc.go
+++ b/tfhe/lwe_enc.go
@@ -49,12 +49,12 @@ func (e *Encryptor[T]) DecryptLWEPhase(ct LWECiphertext[T]) LWEPlaintext[T] {
 
 // EncryptLev encrypts integer message to Lev ciphertext.
 func (e *Encryptor[T]) EncryptLev(message int, gadgetParams GadgetParameters[T]) LevCiphertext[T] {
-	return e.EncryptLevScalar(T(message)%e.Params.messageModulus, gadgetParams)
+	return e.EncryptLevScalar(reduceMessage(message, e.Params.messageModulus), gadgetParams)
 }
 
 // EncryptLevTo encrypts integer message to Lev ciphertext and writes it to ctOut.
 func (e *Encryptor[T]) EncryptLevTo(ctOut LevCiphertext[T], message int) {
-	e.EncryptLevScalarTo(ctOut, T(message)%e.Params.messageModulus)
+	e.EncryptLevScalarTo(ctOut, reduceMessage(message, e.Params.messageModulus))
 }
 
 // EncryptLevScalar encrypts scalar to Lev ciphertext.
@@ -85,12 +85,12 @@ func (e *Encryptor[T]) DecryptLevScalar(ct LevCiphertext[T]) T {
 
 // EncryptGSW encrypts integer message to GSW ciphertext.
 func (e *Encryptor[T]) EncryptGSW(message int, gadgetParams GadgetParameters[T]) GSWCiphertext[T] {
-	return e.EncryptGSWScalar(T(message)%e.Params.messageModulus, gadgetParams)
+	return e.EncryptGSWScalar(reduceMessage(message, e.Params.messageModulus), gadgetParams)
 }
 
 // EncryptGSWTo encrypts integer message to GSW ciphertext and writes it to ctOut.
 func (e *Encryptor[T]) EncryptGSWTo(ctOut GSWCiphertext[T], message int) {
-	e.EncryptGSWScalarTo(ctOut, T(message)%e.Params.messageModulus)
+	e.EncryptGSWScalarTo(ctOut, reduceMessage(message, e.Params.messageModulus))
 }
 
 // EncryptGSWScalar encrypts scalar to GSW ciphertext.
-- 
2.43.0


From 9ef9a2dad837877f96699bf59bfe08ff9c10599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 08/21] fix: compute the default message modulus exactly when
 decoding with a custom scale

---
 tfhe/encoder.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/tfhe/encoder.go b/tfhe/encoder.go
index e4518aa..e56632b 100644
--- a/tfhe/encoder.go
+++ b/tfhe/encoder.go
@@ -1,8 +1,6 @@
 package tfhe
 
 import (
-	"math"
-
 	"github.com/sp301415/tfhe-go/math/num"
 	"github.com/sp301415/tfhe-go/math/vec"
 )
@@ -37,6 +35,12 @@ func reduceMessage[T TorusInt](message int, messageModulus T) T {
 	}
 }
 
+// defaultMessageModulus returns round(Q / scale).
+// If scale = 1, it returns zero, since Q does not fit in T.
+func defaultMessageModulus[T TorusInt](scale T) T {
+	return num.DivRound(-scale, scale) + 1
+}
+
 // EncodeLWE encodes integer message to LWE plaintext.
 // Parameter's MessageModulus and Scale are used.
 func (e *Encoder[T]) EncodeLWE(message int) LWEPlaintext[T] {
@@ -64,9 +68,12 @@ func (e *Encoder[T]) DecodeLWE(pt LWEPlaintext[T]) int {
 func (e *Encoder[T]) DecodeLWECustom(pt LWEPlaintext[T], messageModulus, scale T) int {
 	decoded := num.DivRound(pt.Value, scale)
 	if messageModulus == 0 {
-		messageModulus = T(math.Round(math.Exp2(float64(e.Params.logQ)) / float64(scale)))
+		messageModulus = defaultMessageModulus(scale)
+	}
+	if messageModulus != 0 {
+		decoded %= messageModulus
 	}
-	return int(decoded % messageModulus)
+	return int(decoded)
 }
 
 // EncodeGLWE encodes up to Parameters.PolyRank integer messages into one GLWE plaintext.
@@ -151,12 +158,16 @@ func (e *Encoder[T]) DecodeGLWECustom(pt GLWEPlaintext[T], messageModulus, scale
 //   - If len(messagesOut) < PolyRank, the leftovers are discarded.
 //   - If len(messagesOut) > PolyRank, only the first PolyRank elements are written.
 func (e *Encoder[T]) DecodeGLWECustomTo(messagesOut []int, pt GLWEPlaintext[T], messageModulus, scale T) {
+	if messageModulus == 0 {
+		messageModulus = defaultMessageModulus(scale)
+	}
+
 	length := num.Min(e.Params.polyRank, len(messagesOut))
 	for i := 0; i < length; i++ {
 		decoded := num.DivRound(pt.Value.Coeffs[i], scale)
-		if messageModulus == 0 {
-			messageModulus = T(math.Round(math.Exp2(float64(e.Params.logQ)) / float64(scale)))
+		if messageModulus != 0 {
+			decoded %= messageModulus
 		}
-		messagesOut[i] = int(decoded % messageModulus)
+		messagesOut[i] = int(decoded)
 	}
 }
-- 
2.43.0


From 305a3c0c70359f897deff105aa66319c562a5cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:00 +0000
Subject: [PATCH 09/21] fix: accept empty vectors in every vec operation

---
 math/vec/asm_vec.go       | 32 ++++++++++++++++++++++++++++++++
 math/vec/asm_vec_amd64.go | 32 ++++++++++++++++++++++++++++++++
 math/vec/vec.go           |  8 ++++++++
 3 files changed, 72 insertions(+)

diff --git a/math/vec/asm_vec.go b/math/vec/asm_vec.go
index e8dce95..a9cdabe 100644
--- a/math/vec/asm_vec.go
+++ b/math/vec/asm_vec.go
@@ -12,6 +12,10 @@ import (
 func AddTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -44,6 +48,10 @@ func AddTo[T num.Number](vOut, v0, v1 []T) {
 func SubTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -76,6 +84,10 @@ func SubTo[T num.Number](vOut, v0, v1 []T) {
 func ScalarMulTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -106,6 +118,10 @@ func ScalarMulTo[T num.Number](vOut, v []T, c T) {
 func ScalarMulAddTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -136,6 +152,10 @@ func ScalarMulAddTo[T num.Number](vOut, v []T, c T) {
 func ScalarMulSubTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -166,6 +186,10 @@ func ScalarMulSubTo[T num.Number](vOut, v []T, c T) {
 func MulTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -198,6 +222,10 @@ func MulTo[T num.Number](vOut, v0, v1 []T) {
 func MulAddTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -230,6 +258,10 @@ func MulAddTo[T num.Number](vOut, v0, v1 []T) {
 func MulSubTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
diff --git a/math/vec/asm_vec_amd64.go b/math/vec/asm_vec_amd64.go
index 16c79e9..e5916e5 100644
--- a/math/vec/asm_vec_amd64.go
+++ b/math/vec/asm_vec_amd64.go
@@ -34,6 +34,10 @@ func AddTo[T num.Number](vOut, v0, v1 []T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -87,6 +91,10 @@ func SubTo[T num.Number](vOut, v0, v1 []T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -140,6 +148,10 @@ func ScalarMulTo[T num.Number](vOut, v []T, c T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -191,6 +203,10 @@ func ScalarMulAddTo[T num.Number](vOut, v []T, c T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -242,6 +258,10 @@ func ScalarMulSubTo[T num.Number](vOut, v []T, c T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -293,6 +313,10 @@ func MulTo[T num.Number](vOut, v0, v1 []T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -346,6 +370,10 @@ func MulAddTo[T num.Number](vOut, v0, v1 []T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -399,6 +427,10 @@ func MulSubTo[T num.Number](vOut, v0, v1 []T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
diff --git a/math/vec/vec.go b/math/vec/vec.go
index b3fe8eb..8f81238 100644
--- a/math/vec/vec.go
+++ b/math/vec/vec.go
@@ -80,6 +80,10 @@ func Rotate[T any](v []T, l int) []T {
 func RotateTo[T any](vOut, v []T, l int) {
 	checkLength(len(vOut), len(v))
 
+	if len(v) == 0 {
+		return
+	}
+
 	if l < 0 {
 		l = len(v) - ((-l) % len(v))
 	} else {
@@ -93,6 +97,10 @@ func RotateTo[T any](vOut, v []T, l int) {
 // RotateInPlace rotates v l times to the right in-place.
 // If l < 0, then it rotates the vector l times to the left.
 func RotateInPlace[T any](v []T, l int) {
+	if len(v) == 0 {
+		return
+	}
+
 	if l < 0 {
 		l = len(v) - ((-l) % len(v))
 	} else {
-- 
2.43.0


From 91cdae1a657ab20d3f70c0f65906ae25fe7db370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:22 +0000
Subject: [PATCH 10/21] fix: do not process the only block twice in the
 extended blind rotation

---
 tfhe/bootstrap.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tfhe/bootstrap.go b/tfhe/bootstrap.go
index 16975b2..8c855ba 100644
--- a/tfhe/bootstrap.go
+++ b/tfhe/bootstrap.go
@@ -147,6 +147,13 @@ func (e *Evaluator[T]) blindRotateExtendedTo(ctOut GLWECiphertext[T], ct LWECiph
 		}
 	}
 
+	if e.Params.blockCount == 1 {
+		for k := 0; k < e.Params.glweRank+1; k++ {
+			ctOut.Value[k].CopyFrom(e.buf.ctAcc[0].Value[k])
+		}
+		return
+	}
+
 	for i := 1; i < e.Params.blockCount-1; i++ {
 		for j := 0; j < e.Params.lutExtendFactor; j++ {
 			for k := 0; k < e.Params.glweRank+1; k++ {
-- 
2.43.0


From a8c6cac3471bb13eb73bfc5f55f797ae11c17479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:22 +0000
Subject: [PATCH 11/21] fix: rotate the extended lookup table by the full body
 index

---
 tfhe/bootstrap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfhe/bootstrap.go b/tfhe/bootstrap.go
index 8c855ba..f811621 100644
--- a/tfhe/bootstrap.go
+++ b/tfhe/bootstrap.go
@@ -70,10 +70,10 @@ func (e *Evaluator[T]) blindRotateExtendedTo(ctOut GLWECiphertext[T], ct LWECiph
 	b2NMono, b2NIdx := b2N/e.Params.lutExtendFactor, b2N%e.Params.lutExtendFactor
 
 	for i, ii := 0, e.Params.lutExtendFactor-b2NIdx; i < b2NIdx; i, ii = i+1, ii+1 {
-		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[ii].Value[0], lut.Value[i], b2NMono+1)
+		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[i].Value[0], lut.Value[ii], b2NMono+1)
 	}
 	for i, ii := b2NIdx, 0; i < e.Params.lutExtendFactor; i, ii = i+1, ii+1 {
-		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[ii].Value[0], lut.Value[i], b2NMono)
+		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[i].Value[0], lut.Value[ii], b2NMono)
 	}
 
 	for i := 0; i < e.Params.lutExtendFactor; i++ {
-- 
2.43.0


From 7806e21bf246711961d8e72fbae4b4ced39d2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:47 +0000
Subject: [PATCH 12/21] fix: copy the gadget parameters in
 UniEncryption.CopyFrom

---
 mktfhe/fft_glwe.go | 1 +
 mktfhe/glwe.go     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mktfhe/fft_glwe.go b/mktfhe/fft_glwe.go
index ffe7f6f..0493999 100644
--- a/mktfhe/fft_glwe.go
+++ b/mktfhe/fft_glwe.go
@@ -110,6 +110,7 @@ func (ct *FFTUniEncryption[T]) CopyFrom(ctIn FFTUniEncryption[T]) {
 	for i := range ct.Value {
 		ct.Value[i].CopyFrom(ctIn.Value[i])
 	}
+	ct.GadgetParams = ctIn.GadgetParams
 }
 
 // Clear clears the ciphertext.
diff --git a/mktfhe/glwe.go b/mktfhe/glwe.go
index 6c76fb0..5c53564 100644
--- a/mktfhe/glwe.go
+++ b/mktfhe/glwe.go
@@ -137,6 +137,7 @@ func (ct *UniEncryption[T]) CopyFrom(ctIn UniEncryption[T]) {
 	for i := range ct.Value {
 		ct.Value[i].CopyFrom(ctIn.Value[i])
 	}
+	ct.GadgetParams = ctIn.GadgetParams
 }
 
 // Clear clears the ciphertext.
-- 
2.43.0


From 599fb8446ca0c100dcdb0bd21146d6de084d1d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:47 +0000
Subject: [PATCH 13/21] fix: subtract every part of the product in multi-key
 ExternalProdSubGLWETo

---
 mktfhe/product.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/product.go b/mktfhe/product.go
index 7b43079..d10e4f0 100644
--- a/mktfhe/product.go
+++ b/mktfhe/product.go
@@ -252,10 +252,10 @@ func (e *Evaluator[T]) ExternalProdSubGLWETo(idx int, ctFFTGLev tfhe.FFTGLevCiph
 
 	e.HybridProdSubGLWETo(idx, e.EvalKey[idx].RelinKey, e.buf.ctRelin, ctGLWEOut)
 
-	eIdx.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], e.buf.ctRelinT[0].Value[0])
+	eIdx.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], e.buf.ctRelinT[0].Value[0])
 	for i, ok := range e.PartyBitMap {
 		if ok {
-			eIdx.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], e.buf.ctRelinT[i+1].Value[0])
+			eIdx.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], e.buf.ctRelinT[i+1].Value[0])
 		}
 	}
 }
-- 
2.43.0


From 26e07e3688b6df49491bbf31e23f6e336355d99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:57 +0000
Subject: [PATCH 14/21] fix: give a copied multi-key decryptor its own buffers

---
 mktfhe/decryptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mktfhe/decryptor.go b/mktfhe/decryptor.go
index f02a7b9..6057692 100644
--- a/mktfhe/decryptor.go
+++ b/mktfhe/decryptor.go
@@ -114,7 +114,7 @@ func (d *Decryptor[T]) SafeCopy() *Decryptor[T] {
 
 		SecretKeys: vec.Copy(d.SecretKeys),
 
-		buf: d.buf,
+		buf: newDecryptorBuffer(d.Params),
 	}
 }
 
-- 
2.43.0


From 1e6e4bc64d60c069d1bbbb2e47c70c4cbf6eb177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:57 +0000
Subject: [PATCH 15/21] fix: make BFV TensorTo and RelinearizeTo use their
 arguments

---
 xtfhe/bfv_evaluator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xtfhe/bfv_evaluator.go b/xtfhe/bfv_evaluator.go
index 24a8050..ee298ca 100644
--- a/xtfhe/bfv_evaluator.go
+++ b/xtfhe/bfv_evaluator.go
@@ -106,7 +106,7 @@ func (e *BFVEvaluator[T]) TensorTo(ctOut, ct0, ct1 tfhe.GLWECiphertext[T]) {
 	tensorRank := e.Params.GLWERank() * (e.Params.GLWERank() + 3) / 2
 	for i := 0; i < tensorRank+1; i++ {
 		e.PolyEvaluator.FloatMulFFTPolyTo(e.buf.ctFFTTensor.Value[i], e.buf.ctFFTTensor.Value[i], 1/float64(e.Params.Scale()))
-		e.PolyEvaluator.InvFFTToUnsafe(e.buf.ctTensor.Value[i], e.buf.ctFFTTensor.Value[i])
+		e.PolyEvaluator.InvFFTToUnsafe(ctOut.Value[i], e.buf.ctFFTTensor.Value[i])
 	}
 }
 
@@ -123,10 +123,10 @@ func (e *BFVEvaluator[T]) Relinearize(ct tfhe.GLWECiphertext[T]) tfhe.GLWECipher
 func (e *BFVEvaluator[T]) RelinearizeTo(ctOut, ct tfhe.GLWECiphertext[T]) {
 	tensorRank := e.Params.GLWERank() * (e.Params.GLWERank() + 3) / 2
 	for i := 0; i < e.Params.GLWERank()+1; i++ {
-		ctOut.Value[i].CopyFrom(e.buf.ctTensor.Value[i])
+		ctOut.Value[i].CopyFrom(ct.Value[i])
 	}
 	for i, ii := e.Params.GLWERank()+1, 0; i < tensorRank+1; i, ii = i+1, ii+1 {
-		e.Evaluator.GadgetProdAddGLWETo(ctOut, e.EvalKey.RelinKey.Value[ii], e.buf.ctTensor.Value[i])
+		e.Evaluator.GadgetProdAddGLWETo(ctOut, e.EvalKey.RelinKey.Value[ii], ct.Value[i])
 	}
 }
 
-- 
2.43.0


From cb7f730e13d1c09e9b7d1e7b3bd7cb1323d460a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:04 +0000
Subject: [PATCH 16/21] fix: LWESecretKey.ReadFrom counts the bytes of the
 value

---
 tfhe/lwe_marshal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tfhe/lwe_marshal.go b/tfhe/lwe_marshal.go
index f1dc101..ffe96a3 100644
--- a/tfhe/lwe_marshal.go
+++ b/tfhe/lwe_marshal.go
@@ -209,6 +209,7 @@ func (sk *LWESecretKey[T]) ReadFrom(r io.Reader) (n int64, err error) {
 	if nRead, err = sk.valueReadFrom(r); err != nil {
 		return n + nRead, err
 	}
+	n += nRead
 
 	return
 }
-- 
2.43.0


From d6f19e45eb62e7d19f79c4ab2edd92efd373f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:56 +0000
Subject: [PATCH 17/21] fix: Fourier header reads and writes count earlier
 header words on error

---
 mktfhe/fft_glwe_marshal.go | 12 ++++++------
 tfhe/fft_glwe_marshal.go   | 28 ++++++++++++++--------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/mktfhe/fft_glwe_marshal.go b/mktfhe/fft_glwe_marshal.go
index a819001..99c2ba9 100644
--- a/mktfhe/fft_glwe_marshal.go
+++ b/mktfhe/fft_glwe_marshal.go
@@ -19,7 +19,7 @@ func floatVecWriteToBuf(v []float64, buf []byte, w io.Writer) (n int64, err erro
 	}
 
 	nWrite, err = w.Write(buf)
-	return int64(nWrite), err
+	return n + int64(nWrite), err
 }
 
 // floatVecReadFromBuf implements the [io.ReaderFrom] interface for a vector of float64, using a buffer.
@@ -28,7 +28,7 @@ func floatVecReadFromBuf(v []float64, buf []byte, r io.Reader) (n int64, err err
 	var nRead int
 
 	if nRead, err = io.ReadFull(r, buf); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 
@@ -55,14 +55,14 @@ func (ct FFTGLWECiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(ct.Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -119,13 +119,13 @@ func (ct *FFTGLWECiphertext[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
diff --git a/tfhe/fft_glwe_marshal.go b/tfhe/fft_glwe_marshal.go
index 9523a50..234a1d1 100644
--- a/tfhe/fft_glwe_marshal.go
+++ b/tfhe/fft_glwe_marshal.go
@@ -17,7 +17,7 @@ func floatVecWriteToBuf(v []float64, buf []byte, w io.Writer) (n int64, err erro
 	}
 
 	nWrite, err = w.Write(buf)
-	return int64(nWrite), err
+	return n + int64(nWrite), err
 }
 
 // floatVecReadFromBuf implements the [io.ReaderFrom] interface for a vector of float64, using a buffer.
@@ -26,7 +26,7 @@ func floatVecReadFromBuf(v []float64, buf []byte, r io.Reader) (n int64, err err
 	var nRead int
 
 	if nRead, err = io.ReadFull(r, buf); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 
@@ -53,14 +53,14 @@ func (sk FFTGLWESecretKey[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(sk.Value)
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := sk.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -117,13 +117,13 @@ func (sk *FFTGLWESecretKey[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
@@ -197,14 +197,14 @@ func (ct FFTGLWECiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(ct.Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -261,13 +261,13 @@ func (ct *FFTGLWECiphertext[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
@@ -342,28 +342,28 @@ func (ct FFTGLevCiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	base := ct.GadgetParams.base
 	binary.BigEndian.PutUint64(buf[:], uint64(base))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	level := len(ct.Value)
 	binary.BigEndian.PutUint64(buf[:], uint64(level))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	glweRank := len(ct.Value[0].Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
-- 
2.43.0


From ea31d3910199785f28168aa420bec95ba31b7936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:23 +0000
Subject: [PATCH 18/21] fix: normalise the discrete Gaussian table and keep
 samples within the tail bound

---
 xtfhe/sanitization_sampler.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/xtfhe/sanitization_sampler.go b/xtfhe/sanitization_sampler.go
index f8943c2..f704fd0 100644
--- a/xtfhe/sanitization_sampler.go
+++ b/xtfhe/sanitization_sampler.go
@@ -34,15 +34,24 @@ func NewCDTSampler[T num.Integer](center float64, stdDev float64) *CDTSampler[T]
 	cFloor := math.Floor(center)
 	cFrac := center - cFloor
 
-	tailLo := int64(math.Floor(center - GaussianTailCut*stdDev))
-	tailHi := int64(math.Ceil(center + GaussianTailCut*stdDev))
+	tailLo := int64(math.Floor(cFrac - GaussianTailCut*stdDev))
+	tailHi := int64(math.Ceil(cFrac + GaussianTailCut*stdDev))
 	tableSize := tailHi - tailLo + 1
 
+	pdf := func(x int64) float64 {
+		xf := float64(x)
+		return math.Exp(-(xf - cFrac) * (xf - cFrac) / (2 * stdDev * stdDev))
+	}
+
+	total := 0.0
+	for x := tailLo; x <= tailHi; x++ {
+		total += pdf(x)
+	}
+
 	table := make([]uint64, tableSize)
 	cdf := 0.0
 	for i, x := 0, tailLo; x <= tailHi; i, x = i+1, x+1 {
-		xf := float64(x)
-		cdf += math.Exp(-(xf-cFrac)*(xf-cFrac)/(2*stdDev*stdDev)) / (math.Sqrt(2*math.Pi) * stdDev)
+		cdf += pdf(x) / total
 		if cdf >= 1 {
 			table[i] = math.MaxUint64
 		} else {
@@ -75,7 +84,8 @@ func (s *CDTSampler[T]) StdDev() float64 {
 func (s *CDTSampler[T]) Sample() T {
 	r := s.baseSampler.Sample()
 
-	x := sort.Search(len(s.table), func(i int) bool {
+	// The last entry takes everything that is left.
+	x := sort.Search(len(s.table)-1, func(i int) bool {
 		return s.table[i] > r
 	})
 
-- 
2.43.0


From 8a740e546326521807e3d02357b5d12e63ba3d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:50 +0000
Subject: [PATCH 19/21] fix: reject gadget levels whose product with log(Base)
 overflows

---
 tfhe/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfhe/params.go b/tfhe/params.go
index da23e33..7f233e1 100644
--- a/tfhe/params.go
+++ b/tfhe/params.go
@@ -46,7 +46,7 @@ func (p GadgetParametersLiteral[T]) Compile() GadgetParameters[T] {
 		panic("Base not power of two")
 	case p.Level <= 0:
 		panic("Level smaller than or equal to zero")
-	case num.SizeT[T]() < num.Log2(p.Base)*p.Level:
+	case num.SizeT[T]()/num.Log2(p.Base) < p.Level:
 		panic("Base^Level larger than Q")
 	}
 
-- 
2.43.0


From 74f9930126f46e764048b1eb4dbb40aa7ea1445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:51 +0000
Subject: [PATCH 20/21] fix: reject polynomial ranks that no evaluator accepts

---
 tfhe/params.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tfhe/params.go b/tfhe/params.go
index 7f233e1..ca2afd8 100644
--- a/tfhe/params.go
+++ b/tfhe/params.go
@@ -7,6 +7,7 @@ import (
 	"math"
 
 	"github.com/sp301415/tfhe-go/math/num"
+	"github.com/sp301415/tfhe-go/math/poly"
 )
 
 // TorusInt represents the integers living in the discretized torus.
@@ -404,6 +405,8 @@ func (p ParametersLiteral[T]) Compile() Parameters[T] {
 		panic("LUTSize not multiple of PolyRank")
 	case !num.IsPowerOfTwo(p.PolyRank):
 		panic("PolyRank not power of two")
+	case p.PolyRank < poly.MinRank:
+		panic("PolyRank smaller than MinRank")
 	case !(p.BootstrapOrder == OrderKeySwitchBlindRotate || p.BootstrapOrder == OrderBlindRotateKeySwitch):
 		panic("BootstrapOrder not valid")
 	}
-- 
2.43.0


From a4eb9e744444e640ce6e57a934054e61da19e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:36 +0000
Subject: [PATCH 21/21] fix: use the centre offset in multi-key XOR and XNOR

---
 mktfhe/binary_evaluator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mktfhe/binary_evaluator.go b/mktfhe/binary_evaluator.go
index c313063..f62aee7 100644
--- a/mktfhe/binary_evaluator.go
+++ b/mktfhe/binary_evaluator.go
@@ -224,7 +224,7 @@ func (e *BinaryEvaluator[T]) XORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (ct0.Value[i] + ct1.Value[i])
 	}
-	ctOut.Value[0] += 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] += 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
 }
@@ -243,7 +243,7 @@ func (e *BinaryEvaluator[T]) XORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (ct0.Value[i] + ct1.Value[i])
 	}
-	ctOut.Value[0] += 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] += 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
 }
@@ -262,7 +262,7 @@ func (e *BinaryEvaluator[T]) XNORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (-ct0.Value[i] - ct1.Value[i])
 	}
-	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
 }
@@ -281,7 +281,7 @@ func (e *BinaryEvaluator[T]) XNORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (-ct0.Value[i] - ct1.Value[i])
 	}
-	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
 }
-- 
2.43.0

