From 6f5b86f512aaad50340d006444b2dbe118e06b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 01/49] fix: ternary sampler ran past its probability matrix on
 unlucky byte streams

---
 ring/ring_sampler_ternary.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ring/ring_sampler_ternary.go b/ring/ring_sampler_ternary.go
index 32a390d..6c2c264 100644
--- a/ring/ring_sampler_ternary.go
+++ b/ring/ring_sampler_ternary.go
@@ -254,9 +254,9 @@ func (ts *TernarySampler) kysampling(prng utils.PRNG, randomBytes []byte, pointe
 
 			d = (d << 1) + 1 - int((uint8(randomBytes[bytePointer])>>i)&1)
 
-			// There is small probability that it will get out of the bound, then
-			// rerun until it gets a proper output
-			if d > colLen-1 {
+			// There is small probability that it will get out of the bound (or past the
+			// last column of the matrix), then rerun until it gets a proper output
+			if d > colLen-1 || col >= len(ts.matrixProba[0]) {
 				return ts.kysampling(prng, randomBytes, i, bytePointer, byteLength)
 			}
 
-- 
2.43.0


From 38816dad7301dc49b449622180cd46a5fcc59aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 02/49] fix: polynomial encodings kept stale flags, rows and
 parts of a reused buffer or receiver

---
 ring/ring_poly.go | 34 ++++++++++------------------------
 rlwe/ring_qp.go   |  4 ++++
 2 files changed, 14 insertions(+), 24 deletions(-)

diff --git a/ring/ring_poly.go b/ring/ring_poly.go
index 8d88a9d..af6e0d0 100644
--- a/ring/ring_poly.go
+++ b/ring/ring_poly.go
@@ -208,6 +208,8 @@ func (pol *Poly) WriteTo(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
+
 	if pol.IsNTT {
 		data[2] = 1
 	}
@@ -234,6 +236,8 @@ func (pol *Poly) WriteTo32(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
+
 	if pol.IsNTT {
 		data[2] = 1
 	}
@@ -329,14 +333,6 @@ func (pol *Poly) UnmarshalBinary(data []byte) (err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
-
 	pointer := 4
 
 	if ((len(data) - pointer) >> 3) != N*numberModulies {
@@ -357,17 +353,12 @@ func (pol *Poly) DecodePolyNew(data []byte) (pointer int, err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
+	if len(pol.Coeffs) != numberModulies {
 		pol.Coeffs = make([][]uint64, numberModulies)
 	}
 
@@ -385,17 +376,12 @@ func (pol *Poly) DecodePolyNew32(data []byte) (pointer int, err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
+	if len(pol.Coeffs) != numberModulies {
 		pol.Coeffs = make([][]uint64, numberModulies)
 	}
 
diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index 8756801..a33595c 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -366,6 +366,8 @@ func (p *PolyQP) GetDataLen(WithMetadata bool) (dataLen int) {
 func (p *PolyQP) WriteTo(data []byte) (pt int, err error) {
 	var inc int
 
+	data[0], data[1] = 0, 0
+
 	if p.Q != nil {
 		data[0] = 1
 	}
@@ -399,6 +401,8 @@ func (p *PolyQP) DecodePolyNew(data []byte) (pt int, err error) {
 	var inc int
 	pt = 2
 
+	p.Q, p.P = nil, nil
+
 	if data[0] == 1 {
 		p.Q = new(ring.Poly)
 		if inc, err = p.Q.DecodePolyNew(data[pt:]); err != nil {
-- 
2.43.0


From 044b3d2eb44cf456565b48f077e0d0e61241255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 03/49] fix: JSON encoding of RLWE parameters dropped the ring
 type

---
 rlwe/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 5c10865..5a8c519 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -479,7 +479,7 @@ func (p Parameters) MarshalBinarySize() int {
 
 // MarshalJSON returns a JSON representation of this parameter set. See `Marshal` from the `encoding/json` package.
 func (p Parameters) MarshalJSON() ([]byte, error) {
-	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma})
+	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma, RingType: p.ringType})
 }
 
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
-- 
2.43.0


From 022e250c7344190e8051a00628da7891b116592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 04/49] fix: slice equality ignored the length, so parameters
 equalled their prefixes or panicked

---
 utils/utils.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index daa82d8..a35326c 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -48,6 +48,9 @@ func RandComplex128(min, max float64) complex128 {
 
 // EqualSliceUint64 checks the equality between two uint64 slices.
 func EqualSliceUint64(a, b []uint64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -57,6 +60,9 @@ func EqualSliceUint64(a, b []uint64) (v bool) {
 
 // EqualSliceInt64 checks the equality between two int64 slices.
 func EqualSliceInt64(a, b []int64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -66,6 +72,9 @@ func EqualSliceInt64(a, b []int64) (v bool) {
 
 // EqualSliceUint8 checks the equality between two uint8 slices.
 func EqualSliceUint8(a, b []uint8) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
-- 
2.43.0


From 9d4ce79d2ac5b190ef58617c0c07aea0d7ec4725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 05/49] fix: a decoded ring had no transform and crashed in use

---
 ring/ring.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ring/ring.go b/ring/ring.go
index b92420e..26c54c4 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -373,9 +373,22 @@ func (r *Ring) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	var ntt NumberTheoreticTransformer
+	switch parameters.NthRoot {
+	case uint64(parameters.N) << 1:
+		ntt = NumberTheoreticTransformerStandard{}
+	case uint64(parameters.N) << 2:
+		ntt = NumberTheoreticTransformerConjugateInvariant{}
+	default:
+		return errors.New("invalid NthRoot (must be 2N or 4N)")
+	}
+
 	if err := r.setParameters(parameters.N, parameters.Modulus); err != nil {
 		return err
 	}
+
+	r.NumberTheoreticTransformer = ntt
+
 	if err := r.genNTTParams(parameters.NthRoot); err != nil {
 		return err
 	}
-- 
2.43.0


From 40d09c3993b18e009cd97ffb5a9eca6ed7b1ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 06/49] fix: ckks JSON decoding ignored malformed input

---
 ckks/params.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ckks/params.go b/ckks/params.go
index 95e2a9b..0915cf3 100644
--- a/ckks/params.go
+++ b/ckks/params.go
@@ -602,7 +602,9 @@ func (p Parameters) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
 func (p *Parameters) UnmarshalJSON(data []byte) (err error) {
 	var params ParametersLiteral
-	json.Unmarshal(data, &params)
+	if err = json.Unmarshal(data, &params); err != nil {
+		return err
+	}
 	*p, err = NewParametersFromLiteral(params)
 	return
 }
-- 
2.43.0


From 554930563fe80de197f059fdde2fbc300e7e20ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 07/49] fix: decoders panicked or accepted truncated data

---
 ckks/params.go    |  3 +++
 ring/ring_poly.go | 36 ++++++++++++++++++++++++++++++------
 rlwe/marshaler.go | 12 ++++++++++++
 rlwe/params.go    |  6 +++++-
 rlwe/ring_qp.go   |  6 ++++++
 5 files changed, 56 insertions(+), 7 deletions(-)

diff --git a/ckks/params.go b/ckks/params.go
index 0915cf3..23b1c5b 100644
--- a/ckks/params.go
+++ b/ckks/params.go
@@ -583,6 +583,9 @@ func (p *Parameters) UnmarshalBinary(data []byte) (err error) {
 	if err := rlweParams.UnmarshalBinary(data); err != nil {
 		return err
 	}
+	if len(data) != rlweParams.MarshalBinarySize()+9 {
+		return fmt.Errorf("invalid ckks.Parameter serialization")
+	}
 	logSlots := int(data[len(data)-9])
 	scale := math.Float64frombits(binary.BigEndian.Uint64(data[len(data)-8:]))
 	*p, err = NewParameters(rlweParams, logSlots, scale)
diff --git a/ring/ring_poly.go b/ring/ring_poly.go
index af6e0d0..d98364d 100644
--- a/ring/ring_poly.go
+++ b/ring/ring_poly.go
@@ -327,11 +327,31 @@ func (pol *Poly) MarshalBinary() (data []byte, err error) {
 	return
 }
 
+// decodePolyHeader reads the ring degree and the number of moduli of an encoded polynomial, and checks
+// that data is large enough to store all the coefficients, of coeffSize bytes each.
+func decodePolyHeader(data []byte, coeffSize int) (N, numberModuli int, err error) {
+
+	if len(data) < 4 || data[0] > 31 {
+		return 0, 0, errors.New("invalid polynomial encoding")
+	}
+
+	N = int(1 << data[0])
+	numberModuli = int(data[1])
+
+	if (len(data)-4)/coeffSize < N*numberModuli {
+		return 0, 0, errors.New("invalid polynomial encoding: data array is too small")
+	}
+
+	return
+}
+
 // UnmarshalBinary decodes a slice of byte on the target polynomial.
 func (pol *Poly) UnmarshalBinary(data []byte) (err error) {
 
-	N := int(1 << data[0])
-	numberModulies := int(data[1])
+	N, numberModulies, err := decodePolyHeader(data, 8)
+	if err != nil {
+		return err
+	}
 
 	pointer := 4
 
@@ -350,8 +370,10 @@ func (pol *Poly) UnmarshalBinary(data []byte) (err error) {
 // decoded.
 func (pol *Poly) DecodePolyNew(data []byte) (pointer int, err error) {
 
-	N := int(1 << data[0])
-	numberModulies := int(data[1])
+	N, numberModulies, err := decodePolyHeader(data, 8)
+	if err != nil {
+		return 0, err
+	}
 
 	pol.IsNTT = data[2] == 1
 	pol.IsMForm = data[3] == 1
@@ -373,8 +395,10 @@ func (pol *Poly) DecodePolyNew(data []byte) (pointer int, err error) {
 // decoded.
 func (pol *Poly) DecodePolyNew32(data []byte) (pointer int, err error) {
 
-	N := int(1 << data[0])
-	numberModulies := int(data[1])
+	N, numberModulies, err := decodePolyHeader(data, 4)
+	if err != nil {
+		return 0, err
+	}
 
 	pol.IsNTT = data[2] == 1
 	pol.IsMForm = data[3] == 1
diff --git a/rlwe/marshaler.go b/rlwe/marshaler.go
index 5a177aa..fa1aaff 100644
--- a/rlwe/marshaler.go
+++ b/rlwe/marshaler.go
@@ -188,6 +188,10 @@ func (rlk *RelinearizationKey) MarshalBinary() (data []byte, err error) {
 // UnmarshalBinary decodes a previously marshaled EvaluationKey in the target EvaluationKey.
 func (rlk *RelinearizationKey) UnmarshalBinary(data []byte) (err error) {
 
+	if len(data) < 1 {
+		return errors.New("too small bytearray")
+	}
+
 	deg := int(data[0])
 
 	rlk.Keys = make([]*SwitchingKey, deg)
@@ -271,6 +275,10 @@ func (swk *SwitchingKey) encode(pointer int, data []byte) (int, error) {
 
 func (swk *SwitchingKey) decode(data []byte) (pointer int, err error) {
 
+	if len(data) < 1 {
+		return 0, errors.New("too small bytearray")
+	}
+
 	decomposition := int(data[0])
 
 	pointer = 1
@@ -335,6 +343,10 @@ func (rtks *RotationKeySet) UnmarshalBinary(data []byte) (err error) {
 
 	for len(data) > 0 {
 
+		if len(data) < 4 {
+			return errors.New("too small bytearray")
+		}
+
 		galEl := uint64(binary.BigEndian.Uint32(data))
 		data = data[4:]
 
diff --git a/rlwe/params.go b/rlwe/params.go
index 5a8c519..cc31fad 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -447,7 +447,7 @@ func (p Parameters) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary decodes a []byte into a parameter set struct.
 func (p *Parameters) UnmarshalBinary(data []byte) error {
-	if len(data) < 11 {
+	if len(data) < 20 {
 		return fmt.Errorf("invalid rlwe.Parameter serialization")
 	}
 	b := utils.NewBuffer(data)
@@ -462,6 +462,10 @@ func (p *Parameters) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	if len(data) < 20+(lenQ+lenP)<<3 {
+		return fmt.Errorf("invalid rlwe.Parameter serialization")
+	}
+
 	qi := make([]uint64, lenQ)
 	pi := make([]uint64, lenP)
 	b.ReadUint64Slice(qi)
diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index a33595c..825863d 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -17,6 +17,8 @@
 package rlwe
 
 import (
+	"errors"
+
 	"fast-ksw/ring"
 	"fast-ksw/utils"
 )
@@ -398,6 +400,10 @@ func (p *PolyQP) WriteTo(data []byte) (pt int, err error) {
 // DecodePolyNew decodes the input bytes on the target polyQP.
 func (p *PolyQP) DecodePolyNew(data []byte) (pt int, err error) {
 
+	if len(data) < 2 {
+		return 0, errors.New("too small bytearray")
+	}
+
 	var inc int
 	pt = 2
 
-- 
2.43.0


From ca5ae9063bab7f37e949cc9466199abaadbeb974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 08/49] fix: a ring modulus of zero panicked with a division by
 zero instead of being refused

---
 ring/ring.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ring/ring.go b/ring/ring.go
index 26c54c4..2ec5896 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -213,6 +213,12 @@ func (r *Ring) setParameters(N int, Modulus []uint64) error {
 		return errors.New("invalid modulus (must be a non-empty []uint64)")
 	}
 
+	for i := range Modulus {
+		if Modulus[i] < 2 {
+			return errors.New("invalid modulus (moduli must be larger than 1)")
+		}
+	}
+
 	if !utils.AllDistinct(Modulus) {
 		return errors.New("invalid modulus (moduli are not distinct)")
 	}
-- 
2.43.0


From 2e10e81bb9618057f023ff48e6fc2d6861fb9a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 09/49] fix: parameter literals with an invalid LogN panicked
 on a negative shift

---
 rlwe/params.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rlwe/params.go b/rlwe/params.go
index cc31fad..f327c3b 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -126,6 +126,10 @@ func NewParameters(logn int, q, p []uint64, h int, sigma float64, ringType ring.
 // If the RingType is left unset, the default value is ring.Standard.
 func NewParametersFromLiteral(paramDef ParametersLiteral) (Parameters, error) {
 
+	if err := checkSizeParams(paramDef.LogN, len(paramDef.Q), len(paramDef.P)); err != nil {
+		return Parameters{}, err
+	}
+
 	if paramDef.H == 0 {
 		paramDef.H = 1 << (paramDef.LogN - 1)
 	}
-- 
2.43.0


From 608e0b11aabd8d94f3d5b38e3592b9aab6009e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 10/49] fix: encryption into a receiver of degree above one
 left its stale upper parts in the result

---
 rlwe/encryptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rlwe/encryptor.go b/rlwe/encryptor.go
index 92939cc..05d539c 100644
--- a/rlwe/encryptor.go
+++ b/rlwe/encryptor.go
@@ -272,6 +272,7 @@ func (enc *pkEncryptor) encrypt(plaintext *Plaintext, ciphertext *Ciphertext) {
 	}
 
 	ciphertext.Value[1].IsNTT = ciphertext.Value[0].IsNTT
+	ciphertext.Value = ciphertext.Value[:2]
 	ciphertext.Value[0].Coeffs = ciphertext.Value[0].Coeffs[:levelQ+1]
 	ciphertext.Value[1].Coeffs = ciphertext.Value[1].Coeffs[:levelQ+1]
 }
@@ -335,6 +336,7 @@ func (enc *pkEncryptor) encryptNoP(plaintext *Plaintext, ciphertext *Ciphertext)
 
 	ciphertext.Value[1].IsNTT = ciphertext.Value[0].IsNTT
 
+	ciphertext.Value = ciphertext.Value[:2]
 	ciphertext.Value[0].Coeffs = ciphertext.Value[0].Coeffs[:levelQ+1]
 	ciphertext.Value[1].Coeffs = ciphertext.Value[1].Coeffs[:levelQ+1]
 }
@@ -389,6 +391,7 @@ func (enc *skEncryptor) encrypt(plaintext *Plaintext, ciphertext *Ciphertext) {
 
 	}
 
+	ciphertext.Value = ciphertext.Value[:2]
 	ciphertext.Value[0].Coeffs = ciphertext.Value[0].Coeffs[:levelQ+1]
 	ciphertext.Value[1].Coeffs = ciphertext.Value[1].Coeffs[:levelQ+1]
 }
-- 
2.43.0


From 910aae356917c3f583f8d2474640e9aa2275a523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 11/49] fix: decryption of ciphertexts of degree 7 and 15
 skipped the reduction its inverse transform needs

---
 rlwe/decryptor.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rlwe/decryptor.go b/rlwe/decryptor.go
index aa4d4c8..05a7374 100644
--- a/rlwe/decryptor.go
+++ b/rlwe/decryptor.go
@@ -82,9 +82,7 @@ func (d *decryptor) Decrypt(ciphertext *Ciphertext, plaintext *Plaintext) {
 		}
 	}
 
-	if (ciphertext.Degree())&7 != 7 {
-		ringQ.ReduceLvl(level, plaintext.Value, plaintext.Value)
-	}
+	ringQ.ReduceLvl(level, plaintext.Value, plaintext.Value)
 
 	if !plaintext.Value.IsNTT {
 		ringQ.InvNTTLvl(level, plaintext.Value, plaintext.Value)
-- 
2.43.0


From 102045327e2a3fd52635fc01954f9aa4fb5e47b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 12/49] fix: encoding 8 slots wrote past the end of the slot
 buffer at LogN=4

---
 ckks/encoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 949391c..128e879 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -301,7 +301,7 @@ func (ecd *encoderComplex128) GetErrSTDCoeffDomain(valuesWant, valuesHave []comp
 	logSlots := bits.Len64(uint64(len(valuesHave) - 1))
 
 	// Runs FFT^-1 with the smallest power of two length that is greater than the input size
-	if logSlots < 3 {
+	if logSlots < 4 {
 		SpecialiFFTVec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
 	} else {
 		SpecialiFFTUL8Vec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
@@ -410,7 +410,7 @@ func (ecd *encoderComplex128) Embed(values interface{}, logSlots int, scale floa
 		ecd.values[i] = 0
 	}
 
-	if logSlots < 3 {
+	if logSlots < 4 {
 		SpecialiFFTVec(ecd.values, slots, ecd.m, ecd.rotGroup, ecd.roots)
 	} else {
 		SpecialiFFTUL8Vec(ecd.values, slots, ecd.m, ecd.rotGroup, ecd.roots)
@@ -535,7 +535,7 @@ func (ecd *encoderComplex128) decodePublic(plaintext *Plaintext, logSlots int, s
 
 	ecd.plaintextToComplex(plaintext.Level(), plaintext.Scale, logSlots, ecd.polypool, ecd.values)
 
-	if logSlots < 3 {
+	if logSlots < 4 {
 		SpecialFFTVec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
 	} else {
 		SpecialFFTUL8Vec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
-- 
2.43.0


From e95f01f0f51545cbc2fe1fce62b58e43aa4138f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 13/49] fix: fckks decryption to a message stayed at the lowest
 level it had ever seen

---
 fckks/decryptor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fckks/decryptor.go b/fckks/decryptor.go
index a1e1227..2b650d7 100644
--- a/fckks/decryptor.go
+++ b/fckks/decryptor.go
@@ -27,6 +27,8 @@ func (dec *Decryptor) Decrypt(ctIn *ckks.Ciphertext, ptOut *ckks.Plaintext) {
 }
 
 func (dec *Decryptor) DecryptToMsg(ctIn *ckks.Ciphertext, msgOut *Message) {
+	// Decrypt lowers the level of its receiver to the one of the ciphertext
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:ctIn.Level()+1]
 	dec.Decrypt(ctIn, dec.ptxtPool)
 	msgOut.Value = dec.encoder.Decode(dec.ptxtPool, dec.params.LogSlots())
 }
-- 
2.43.0


From 4f6eef45837647582c566ebf0ec63da0ae27e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:08 +0000
Subject: [PATCH 14/49] fix: switching an NTT ciphertext to a smaller ring
 degree overwrote its input instead of its receiver

---
 rlwe/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index ba1f11e..b3ef2c0 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -168,7 +168,7 @@ func SwitchCiphertextRingDegreeNTT(ctIn *Ciphertext, ringQSmallDim, ringQLargeDi
 		pool := make([]uint64, NIn)
 		for i := range ctOut.Value {
 			for j := range ctOut.Value[i].Coeffs {
-				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctIn.Value[i].Coeffs[j]
+				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctOut.Value[i].Coeffs[j]
 				ringQLargeDim.InvNTTSingle(j, tmpIn, pool)
 				for w0, w1 := 0, 0; w0 < NOut; w0, w1 = w0+1, w1+gap {
 					tmpOut[w0] = pool[w1]
-- 
2.43.0


From af3e4ed509a338e145cb089b8d16ffad079ff4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:41 +0000
Subject: [PATCH 15/49] fix: mapping a ciphertext to a larger ring degree kept
 the receiver's old coefficients

---
 rlwe/elements.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index b3ef2c0..2175cf2 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -199,6 +199,12 @@ func SwitchCiphertextRingDegree(ctIn *Ciphertext, ctOut *Ciphertext) {
 	for i := range ctOut.Value {
 		for j := range ctOut.Value[i].Coeffs {
 			tmp0, tmp1 := ctOut.Value[i].Coeffs[j], ctIn.Value[i].Coeffs[j]
+			if gapIn > 1 {
+				// the coefficients in between are zero whatever the receiver held
+				for w0 := range tmp0 {
+					tmp0[w0] = 0
+				}
+			}
 			for w0, w1 := 0, 0; w0 < NOut; w0, w1 = w0+gapIn, w1+gapOut {
 				tmp0[w0] = tmp1[w1]
 			}
-- 
2.43.0


From 7d84cccae522327db243c4f96684c7f58188c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 16/49] fix: secret and public key generation of the fast
 scheme recursed for ever

---
 frlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frlwe/keygen.go b/frlwe/keygen.go
index 0f4a0b1..715470a 100644
--- a/frlwe/keygen.go
+++ b/frlwe/keygen.go
@@ -49,11 +49,11 @@ func NewKeyGenerator(params Parameters) (keygen *KeyGenerator) {
 }
 
 func (keygen *KeyGenerator) GenSecretKey() *rlwe.SecretKey {
-	return keygen.GenSecretKey()
+	return keygen.KeyGenerator.GenSecretKey()
 }
 
 func (keygen *KeyGenerator) GenPublicKey(sk *rlwe.SecretKey) *rlwe.PublicKey {
-	return keygen.GenPublicKey(sk)
+	return keygen.KeyGenerator.GenPublicKey(sk)
 }
 
 func (keygen *KeyGenerator) polyQPToPolyTs(polyQP rlwe.PolyQP, polyTs []*ring.Poly) {
-- 
2.43.0


From 1c304c83f0bd31aa8155e57a9fe49818d0dcb260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 17/49] fix: fast key switching of a ciphertext refused the NTT
 domain and mislabelled its result

---
 fckks/evaluator.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index eb99bcf..3e0cff5 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -102,7 +102,17 @@ func (eval *Evaluator) SwitchKeys(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingK
 
 	ctOut.Scale = ct0.Scale
 
-	eval.ksw.SwitchKey(level, ct0.Value[1], swk[0], swk[1], eval.polyQPool[1], eval.polyQPool[2])
+	if ct0.Value[1].IsNTT {
+		ringQ.InvNTTLvl(level, ct0.Value[1], eval.polyQPool[0])
+		eval.ksw.SwitchKey(level, eval.polyQPool[0], swk[0], swk[1], eval.polyQPool[1], eval.polyQPool[2])
+		ringQ.NTTLvl(level, eval.polyQPool[1], eval.polyQPool[1])
+		ringQ.NTTLvl(level, eval.polyQPool[2], eval.polyQPool[2])
+	} else {
+		eval.ksw.SwitchKey(level, ct0.Value[1], swk[0], swk[1], eval.polyQPool[1], eval.polyQPool[2])
+	}
+
+	ctOut.Value[0].IsNTT = ct0.Value[1].IsNTT
+	ctOut.Value[1].IsNTT = ct0.Value[1].IsNTT
 
 	ringQ.AddLvl(level, ct0.Value[0], eval.polyQPool[1], ctOut.Value[0])
 	ring.CopyValuesLvl(level, eval.polyQPool[2], ctOut.Value[1])
-- 
2.43.0


From 03868804b50033dfe782c1eb1714267d8f1c035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 18/49] fix: fast rotation and key switching into a receiver of
 higher level crashed or kept its stale moduli

---
 fckks/evaluator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index 3e0cff5..50b6801 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -79,6 +79,10 @@ func (eval *Evaluator) Rotate(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey, ctO
 
 	ringQ := eval.params.RingQ()
 
+	if ctOut.Level() > ctIn.Level() {
+		eval.DropLevel(ctOut, ctOut.Level()-ctIn.Level())
+	}
+
 	ringQ.InvNTTLvl(ctOut.Level(), ctIn.Value[1], eval.polyQPool[0])
 
 	eval.ksw.SwitchKey(ctOut.Level(), eval.polyQPool[0], rtk.Value[0], rtk.Value[1], eval.polyQPool[1], eval.polyQPool[2])
@@ -100,6 +104,10 @@ func (eval *Evaluator) SwitchKeys(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingK
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
 	ringQ := eval.params.RingQ()
 
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
+
 	ctOut.Scale = ct0.Scale
 
 	if ct0.Value[1].IsNTT {
-- 
2.43.0


From c2a6942fd04b96d53d44e8f2f75e2a1fc6595bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 19/49] fix: fast rotation kept the receiver's old scale

---
 fckks/evaluator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index 50b6801..ece5842 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -83,6 +83,8 @@ func (eval *Evaluator) Rotate(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey, ctO
 		eval.DropLevel(ctOut, ctOut.Level()-ctIn.Level())
 	}
 
+	ctOut.Scale = ctIn.Scale
+
 	ringQ.InvNTTLvl(ctOut.Level(), ctIn.Value[1], eval.polyQPool[0])
 
 	eval.ksw.SwitchKey(ctOut.Level(), eval.polyQPool[0], rtk.Value[0], rtk.Value[1], eval.polyQPool[1], eval.polyQPool[2])
-- 
2.43.0


From 93fa8a9554f23a6fbf94be152381d47ca444259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 20/49] fix: large integer constants were treated as rational

---
 ckks/evaluator.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 546ef6e..9ace8b9 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -475,19 +475,13 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = imag(constant)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
-
-			if valueFloat != 0 {
+			if cReal != math.Trunc(cReal) {
 				scale = float64(eval.params.RingQ().Modulus[level])
 			}
 		}
 
 		if cImag != 0 {
-			valueInt := int64(cImag)
-			valueFloat := cImag - float64(valueInt)
-
-			if valueFloat != 0 {
+			if cImag != math.Trunc(cImag) {
 				scale = float64(eval.params.RingQ().Modulus[level])
 			}
 		}
@@ -497,10 +491,7 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = float64(0)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
-
-			if valueFloat != 0 {
+			if cReal != math.Trunc(cReal) {
 				scale = float64(eval.params.RingQ().Modulus[level])
 			}
 		}
-- 
2.43.0


From 6df554b1ba02676afa1144b5d494920647541a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 21/49] fix: SetScale gave a wrong scale unless exactly one
 modulus was dropped, and spoiled the ciphertext at level 0

---
 ckks/evaluator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 9ace8b9..fcc1868 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -955,7 +955,13 @@ func (eval *evaluator) ScaleUp(ct0 *Ciphertext, scale float64, ctOut *Ciphertext
 
 // SetScale sets the scale of the ciphertext to the input scale (consumes a level)
 func (eval *evaluator) SetScale(ct *Ciphertext, scale float64) {
-	eval.MultByConst(ct, scale/ct.Scale, ct)
+	if ct.Level() == 0 {
+		panic("cannot SetScale: input Ciphertext already at level 0")
+	}
+	ratio := scale / ct.Scale
+	eval.MultByConst(ct, ratio, ct)
+	// The message is now scaled by ratio as well.
+	ct.Scale *= ratio
 	if err := eval.Rescale(ct, scale, ct); err != nil {
 		panic(err)
 	}
-- 
2.43.0


From d332ae0d87c7379f1cb2238d6ade89eb16e15b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 22/49] fix: MulByPow2 into another polynomial lost the
 Montgomery factor

---
 ring/ring_operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 7882ff4..f822fd3 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -444,7 +444,7 @@ func (r *Ring) MulByPow2(p1 *Poly, pow2 int, p2 *Poly) {
 func (r *Ring) MulByPow2Lvl(level int, p1 *Poly, pow2 int, p2 *Poly) {
 	r.MFormLvl(level, p1, p2)
 	for i := 0; i < level+1; i++ {
-		MulByPow2Vec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
+		MulByPow2Vec(p2.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
 	}
 }
 
-- 
2.43.0


From ae7fcad14bbe13b9b6e4780bf7a499f6ee9b0b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 23/49] fix: Rescale dropped the last modulus and crashed on
 large scales

---
 ckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index fcc1868..6ce0513 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1073,7 +1073,7 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From ac4a711ebcba134ecae7b63213e0603f0da4b3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 24/49] fix: receivers of a higher level or degree kept moduli
 and components of their old content

---
 ckks/evaluator.go | 59 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 6ce0513..48008fd 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -351,11 +351,11 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp1 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
 		} else if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
+			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
 
 			ctOut.SetScalingFactor(c1Scale)
 
@@ -374,11 +374,11 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp0 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
 		} else if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
+			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
 
 			ctOut.SetScalingFactor(c0Scale)
 
@@ -397,7 +397,7 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp0 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
 			tmp1 = c1.El()
 
@@ -405,7 +405,7 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp1 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
 			tmp0 = c0.El()
 
@@ -435,15 +435,28 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 	}
 }
 
+// fitReceiver drops the levels and the components of ctOut that an operation
+// on ct0 does not write, and returns the level of the operation.
+func (eval *evaluator) fitReceiver(ct0, ctOut *Ciphertext) (level int) {
+	level = utils.MinInt(ct0.Level(), ctOut.Level())
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
+	if ctOut.Degree() > ct0.Degree() {
+		ctOut.El().Resize(eval.params.Parameters, ct0.Degree())
+	}
+	return
+}
+
 // Neg negates the value of ct0 and returns the result in ctOut.
 func (eval *evaluator) Neg(ct0 *Ciphertext, ctOut *Ciphertext) {
 
-	level := utils.MinInt(ct0.Level(), ctOut.Level())
-
 	if ct0.Degree() != ctOut.Degree() {
 		panic("cannot Negate: invalid receiver Ciphertext does not match input Ciphertext degree")
 	}
 
+	level := eval.fitReceiver(ct0, ctOut)
+
 	for i := range ct0.Value {
 		eval.params.RingQ().NegLvl(level, ct0.Value[i], ctOut.Value[i])
 	}
@@ -519,7 +532,7 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 // AddConst adds the input constant (which can be a uint64, int64, float64 or complex128) to ct0 and returns the result in ctOut.
 func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
 
-	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+	var level = eval.fitReceiver(ct0, ctOut)
 	var scaledConst, scaledConstReal, scaledConstImag, qi uint64
 
 	cReal, cImag, _ := eval.getConstAndScale(level, constant)
@@ -678,6 +691,12 @@ func (eval *evaluator) MultByConstNew(ct0 *Ciphertext, constant interface{}) (ct
 // The scale of the output element will depend on the scale of the input element and the constant (if the constant
 // needs to be scaled (its rational part is not zero)). The constant can be a uint64, int64, float64 or complex128.
 func (eval *evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
+	eval.fitReceiver(ct0, ctOut)
+	eval.multByConst(ct0, constant, ctOut)
+}
+
+// multByConst is MultByConst without the adjustment of the receiver, which may be a pool.
+func (eval *evaluator) multByConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
 
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 
@@ -739,7 +758,7 @@ func (eval *evaluator) MultByGaussianInteger(ct0 *Ciphertext, cReal, cImag inter
 
 	ringQ := eval.params.RingQ()
 
-	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	level := eval.fitReceiver(ct0, ctOut)
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 
 	ctOut.Scale = ct0.Scale
@@ -791,6 +810,12 @@ func (eval *evaluator) MultByGaussianIntegerAndAdd(ct0 *Ciphertext, cReal, cImag
 	ringQ := eval.params.RingQ()
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
+
+	// Forces a drop of ctOut level to ct0 level
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
+
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 
 	for i := 0; i < level+1; i++ {
@@ -854,7 +879,7 @@ func (eval *evaluator) MultByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 		panic("method MultByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+	var level = eval.fitReceiver(ct0, ctOut)
 	ctOut.Scale = ct0.Scale
 
 	ringQ := eval.params.RingQ()
@@ -906,7 +931,7 @@ func (eval *evaluator) DivByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 		panic("method DivByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+	var level = eval.fitReceiver(ct0, ctOut)
 
 	ringQ := eval.params.RingQ()
 
@@ -977,7 +1002,7 @@ func (eval *evaluator) MulByPow2New(ct0 *Ciphertext, pow2 int) (ctOut *Ciphertex
 
 // MulByPow2 multiplies ct0 by 2^pow2 and returns the result in ctOut.
 func (eval *evaluator) MulByPow2(ct0 *Ciphertext, pow2 int, ctOut *Ciphertext) {
-	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+	var level = eval.fitReceiver(ct0, ctOut)
 	ctOut.Scale = ct0.Scale
 	for i := range ctOut.Value {
 		eval.params.RingQ().MulByPow2Lvl(level, ct0.Value[i], pow2, ctOut.Value[i])
@@ -1003,8 +1028,9 @@ func (eval *evaluator) Reduce(ct0 *Ciphertext, ctOut *Ciphertext) error {
 		return errors.New("cannot Reduce: degrees of receiver Ciphertext and input Ciphertext do not match")
 	}
 
+	level := eval.fitReceiver(ct0, ctOut)
 	for i := range ct0.Value {
-		eval.params.RingQ().ReduceLvl(utils.MinInt(ct0.Level(), ctOut.Level()), ct0.Value[i], ctOut.Value[i])
+		eval.params.RingQ().ReduceLvl(level, ct0.Value[i], ctOut.Value[i])
 	}
 
 	ctOut.Scale = ct0.Scale
@@ -1373,7 +1399,7 @@ func (eval *evaluator) SwitchKeys(ct0 *Ciphertext, switchingKey *rlwe.SwitchingK
 		panic("cannot SwitchKeys: input and output Ciphertext must be of degree 1")
 	}
 
-	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	level := eval.fitReceiver(ct0, ctOut)
 	ringQ := eval.params.RingQ()
 
 	ctOut.Scale = ct0.Scale
@@ -1401,6 +1427,7 @@ func (eval *evaluator) Rotate(ct0 *Ciphertext, k int, ctOut *Ciphertext) {
 	}
 
 	if k == 0 {
+		eval.fitReceiver(ct0, ctOut)
 		ctOut.Copy(ct0)
 	} else {
 
@@ -1450,7 +1477,7 @@ func (eval *evaluator) permuteNTT(ct0 *Ciphertext, galEl uint64, ctOut *Cipherte
 		panic(fmt.Sprintf("rotation key k=%d not available", eval.params.InverseGaloisElement(galEl)))
 	}
 
-	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	level := eval.fitReceiver(ct0, ctOut)
 	pool2Q := eval.Pool[1].Q
 	pool3Q := eval.Pool[2].Q
 	ringQ := eval.params.RingQ()
-- 
2.43.0


From 52d0e9292cd8ad3251cdcca45f1cf52b74a3b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 25/49] fix: DropLevel accepted more levels than exist and
 negative ones

---
 ckks/evaluator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 48008fd..7550cf4 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1050,6 +1050,9 @@ func (eval *evaluator) DropLevelNew(ct0 *Ciphertext, levels int) (ctOut *Ciphert
 // No rescaling is applied during this procedure.
 func (eval *evaluator) DropLevel(ct0 *Ciphertext, levels int) {
 	level := ct0.Level()
+	if levels < 0 || levels > level {
+		panic("cannot DropLevel: levels must be between 0 and the level of the Ciphertext")
+	}
 	for i := range ct0.Value {
 		ct0.Value[i].Coeffs = ct0.Value[i].Coeffs[:level+1-levels]
 	}
-- 
2.43.0


From 256329e60c2b2bf86062f056cda71eb5a2f6b255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 26/49] fix: AddConst into another ciphertext wrote only its
 first component

---
 ckks/evaluator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 7550cf4..acd7f94 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -570,6 +570,11 @@ func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ci
 
 		ring.AddScalarVec(p0tmp[ringQ.N>>1:], p1tmp[ringQ.N>>1:], scaledConst, qi)
 	}
+
+	// The constant only affects the first component.
+	for i := 1; i < ct0.Degree()+1; i++ {
+		ring.CopyValuesLvl(level, ct0.Value[i], ctOut.Value[i])
+	}
 }
 
 // MultByConstAndAdd multiplies ct0 by the input constant, and adds it to the receiver element (it does not modify the input
-- 
2.43.0


From 3665aa1e12bc890ce3e47da96e339050e821e54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 27/49] fix: MulAndAdd and MulRelinAndAdd of two different
 ciphertexts added a wrong cross term

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index acd7f94..6acbbab 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1326,8 +1326,8 @@ func (eval *evaluator) mulRelinAndAdd(op0, op1 Operand, relin bool, ctOut *Ciphe
 		ringQ.MFormLvl(level, tmp0.Value[1], c01)
 
 		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[0], c0) // c0 = c[0]*c[0]
-		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
-		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
+		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c0[0]*c1[1]
+		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c01, tmp1.Value[0], c1) // c1 = c0[1]*c1[0]
 
 		if relin {
 			c2.IsNTT = true
-- 
2.43.0


From 374cac15a2abdf8fc882ef082f1204df04f600a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 28/49] fix: MulRelin returned coefficients above the moduli,
 which later operations cannot take

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 6acbbab..88eff6b 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1226,8 +1226,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 			eval.RingQ().InvNTTLvl(level, c2, c2)
 			eval.SwitchKeysInPlace(level, c2, eval.rlk.Keys[0], eval.Pool[1].Q, eval.Pool[2].Q)
 
-			ringQ.NTTLazyLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
-			ringQ.NTTLazyLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
+			ringQ.NTTLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
+			ringQ.NTTLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
 
 			ringQ.AddLvl(level, c0, eval.Pool[1].Q, ctOut.Value[0])
 			ringQ.AddLvl(level, c1, eval.Pool[2].Q, ctOut.Value[1])
-- 
2.43.0


From 2e2f52723f297ab89451a98bd764552899109444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 29/49] fix: Rotate and Conjugate in place used the overwritten
 ciphertext

---
 ckks/evaluator.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 88eff6b..9c9e8da 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1490,12 +1490,14 @@ func (eval *evaluator) permuteNTT(ct0 *Ciphertext, galEl uint64, ctOut *Cipherte
 	pool3Q := eval.Pool[2].Q
 	ringQ := eval.params.RingQ()
 
-	ringQ.InvNTTLvl(level, ct0.Value[1], pool2Q)
-	pool2Q.IsNTT = false
-	eval.SwitchKeysInPlace(level, pool2Q, rtk, ctOut.Value[0], ctOut.Value[1])
-
-	ringQ.NTTLvl(level, ctOut.Value[0], pool2Q)
-	ringQ.NTTLvl(level, ctOut.Value[1], pool3Q)
+	// ctOut may be ct0, so it is written last only
+	c1 := eval.poolQMul[2]
+	ringQ.InvNTTLvl(level, ct0.Value[1], c1)
+	c1.IsNTT = false
+	eval.SwitchKeysInPlace(level, c1, rtk, pool2Q, pool3Q)
+
+	ringQ.NTTLvl(level, pool2Q, pool2Q)
+	ringQ.NTTLvl(level, pool3Q, pool3Q)
 
 	ringQ.AddLvl(level, pool2Q, ct0.Value[0], pool2Q)
 
-- 
2.43.0


From 78c6d9e062e0730edac8e72f00a63ac73e93fe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 30/49] fix: products into a receiver of a higher degree kept
 its old components

---
 ckks/evaluator.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 9c9e8da..6bb7e39 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1189,9 +1189,7 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 		c1 = ctOut.Value[1]
 
 		if !relin {
-			if ctOut.Degree() < 2 {
-				ctOut.El().Resize(eval.params.Parameters, 2)
-			}
+			ctOut.El().Resize(eval.params.Parameters, 2)
 			c2 = ctOut.Value[2]
 		} else {
 			c2 = eval.poolQMul[2]
@@ -1231,6 +1229,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 
 			ringQ.AddLvl(level, c0, eval.Pool[1].Q, ctOut.Value[0])
 			ringQ.AddLvl(level, c1, eval.Pool[2].Q, ctOut.Value[1])
+
+			ctOut.El().Resize(eval.params.Parameters, 1)
 		}
 
 		// Case Plaintext (x) Ciphertext or Ciphertext (x) Plaintext
@@ -1249,6 +1249,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 		ringQ.MFormLvl(level, tmp0.Value[0], c00)
 		ringQ.MulCoeffsMontgomeryLvl(level, c00, tmp1.Value[0], ctOut.Value[0])
 		ringQ.MulCoeffsMontgomeryLvl(level, c00, tmp1.Value[1], ctOut.Value[1])
+
+		ctOut.El().Resize(eval.params.Parameters, 1)
 	}
 }
 
-- 
2.43.0


From fbfae4ad0114e08b811462a229e12f2e5d4e472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 31/49] fix: MultByi, DivByi and MulByPow2 followed the
 receiver's degree and dropped components of the input

---
 ckks/evaluator.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 6bb7e39..bdb89d3 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -871,7 +871,7 @@ func (eval *evaluator) MultByiNew(ct0 *Ciphertext) (ctOut *Ciphertext) {
 		panic("method MultByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	ctOut = NewCiphertext(eval.params, 1, ct0.Level(), ct0.Scale)
+	ctOut = NewCiphertext(eval.params, ct0.Degree(), ct0.Level(), ct0.Scale)
 	eval.MultByi(ct0, ctOut)
 	return ctOut
 }
@@ -899,7 +899,7 @@ func (eval *evaluator) MultByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 
 		imag = ringQ.NttPsi[i][1] // Psi^2
 
-		for u := range ctOut.Value {
+		for u := range ct0.Value {
 			p0tmp := ct0.Value[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
 			ring.MulScalarMontgomeryVec(p0tmp[:ringQ.N>>1], p1tmp[:ringQ.N>>1], imag, qi, mredParams)
@@ -907,7 +907,7 @@ func (eval *evaluator) MultByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 
 		imag = qi - imag
 
-		for u := range ctOut.Value {
+		for u := range ct0.Value {
 			p0tmp := ct0.Value[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
 			ring.MulScalarMontgomeryVec(p0tmp[ringQ.N>>1:], p1tmp[ringQ.N>>1:], imag, qi, mredParams)
@@ -923,7 +923,7 @@ func (eval *evaluator) DivByiNew(ct0 *Ciphertext) (ctOut *Ciphertext) {
 		panic("method DivByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	ctOut = NewCiphertext(eval.params, 1, ct0.Level(), ct0.Scale)
+	ctOut = NewCiphertext(eval.params, ct0.Degree(), ct0.Level(), ct0.Scale)
 	eval.DivByi(ct0, ctOut)
 	return
 }
@@ -952,7 +952,7 @@ func (eval *evaluator) DivByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 
 		imag = qi - ringQ.NttPsi[i][1] // -Psi^2
 
-		for u := range ctOut.Value {
+		for u := range ct0.Value {
 			p0tmp := ct0.Value[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
 			ring.MulScalarMontgomeryVec(p0tmp[:ringQ.N>>1], p1tmp[:ringQ.N>>1], imag, qi, mredParams)
@@ -960,7 +960,7 @@ func (eval *evaluator) DivByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 
 		imag = ringQ.NttPsi[i][1] // Psi^2
 
-		for u := range ctOut.Value {
+		for u := range ct0.Value {
 			p0tmp := ct0.Value[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
 			ring.MulScalarMontgomeryVec(p0tmp[ringQ.N>>1:], p1tmp[ringQ.N>>1:], imag, qi, mredParams)
@@ -1009,7 +1009,7 @@ func (eval *evaluator) MulByPow2New(ct0 *Ciphertext, pow2 int) (ctOut *Ciphertex
 func (eval *evaluator) MulByPow2(ct0 *Ciphertext, pow2 int, ctOut *Ciphertext) {
 	var level = eval.fitReceiver(ct0, ctOut)
 	ctOut.Scale = ct0.Scale
-	for i := range ctOut.Value {
+	for i := range ct0.Value {
 		eval.params.RingQ().MulByPow2Lvl(level, ct0.Value[i], pow2, ctOut.Value[i])
 	}
 }
-- 
2.43.0


From 22f5e9a8637eb250c245552ca108bd34441f9c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 32/49] fix: operands whose scales differ by an integer were
 often multiplied by one less than it

---
 ckks/evaluator.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index bdb89d3..eb33e95 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -347,15 +347,15 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 	// and scales properly the element before the evaluation.
 	if ctOut == c0 {
 
-		if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
+		if c0Scale > c1Scale && math.Round(c0Scale/c1Scale) > 1 {
 
 			tmp1 = eval.ctxpool.El()
 
-			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Round(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
-		} else if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
+		} else if c1Scale > c0Scale && math.Round(c1Scale/c0Scale) > 1 {
 
-			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
+			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Round(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
 
 			ctOut.SetScalingFactor(c1Scale)
 
@@ -370,15 +370,15 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 	} else if ctOut == c1 {
 
-		if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
+		if c1Scale > c0Scale && math.Round(c1Scale/c0Scale) > 1 {
 
 			tmp0 = eval.ctxpool.El()
 
-			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Round(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
-		} else if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
+		} else if c0Scale > c1Scale && math.Round(c0Scale/c1Scale) > 1 {
 
-			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
+			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Round(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
 
 			ctOut.SetScalingFactor(c0Scale)
 
@@ -393,19 +393,19 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 	} else {
 
-		if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
+		if c1Scale > c0Scale && math.Round(c1Scale/c0Scale) > 1 {
 
 			tmp0 = eval.ctxpool.El()
 
-			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Round(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
 			tmp1 = c1.El()
 
-		} else if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
+		} else if c0Scale > c1Scale && math.Round(c0Scale/c1Scale) > 1 {
 
 			tmp1 = eval.ctxpool.El()
 
-			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Round(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
 			tmp0 = c0.El()
 
@@ -605,7 +605,7 @@ func (eval *evaluator) MultByConstAndAdd(ct0 *Ciphertext, constant interface{},
 		// then brings ctOut scale to ct0's scale.
 		if ctOut.Scale < ct0.Scale*scale {
 
-			if scale := math.Floor((scale * ct0.Scale) / ctOut.Scale); scale > 1 {
+			if scale := math.Round((scale * ct0.Scale) / ctOut.Scale); scale > 1 {
 
 				eval.MultByConst(ctOut, scale, ctOut)
 
@@ -629,7 +629,7 @@ func (eval *evaluator) MultByConstAndAdd(ct0 *Ciphertext, constant interface{},
 
 		} else if ct0.Scale > ctOut.Scale {
 
-			if scale := math.Floor(ct0.Scale / ctOut.Scale); scale > 1 {
+			if scale := math.Round(ct0.Scale / ctOut.Scale); scale > 1 {
 				eval.MultByConst(ctOut, scale, ctOut)
 			}
 
-- 
2.43.0


From d13f7091c208e59ef19518d55bff48a283e9a900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 33/49] fix: encoding in dimensions below 16 read old
 coefficients of the receiver or crashed

---
 ckks/utils.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ckks/utils.go b/ckks/utils.go
index 308797a..d024a9d 100644
--- a/ckks/utils.go
+++ b/ckks/utils.go
@@ -68,6 +68,28 @@ func NttAndMontgomeryLvl(level int, logSlots int, ringQ *ring.Ring, montgomery b
 
 		N := ringQ.N
 		gap := N / n
+
+		// The NTT is not defined in dimensions smaller than 16: maps Y to X^(gap) first
+		if n < 16 {
+			for i := 0; i < level+1; i++ {
+				coeffs := pol.Coeffs[i]
+				for j := n - 1; j >= 0; j-- {
+					c := coeffs[j]
+					for w := 0; w < gap; w++ {
+						coeffs[j*gap+w] = 0
+					}
+					coeffs[j*gap] = c
+				}
+			}
+
+			ringQ.NTTLvl(level, pol, pol)
+			if montgomery {
+				ringQ.MFormLvl(level, pol, pol)
+			}
+
+			return
+		}
+
 		for i := 0; i < level+1; i++ {
 
 			coeffs := pol.Coeffs[i]
-- 
2.43.0


From 34026e133fb816b1eaf464cf8a73ae0214b9fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 34/49] fix: slot encodings into a receiver outside the NTT
 domain kept its domain flag

---
 ckks/encoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 128e879..5ea5ad5 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -424,9 +424,11 @@ func (ecd *encoderComplex128) Embed(values interface{}, logSlots int, scale floa
 		complexToFixedPointCRT(p.P.Level(), ecd.values[:slots], scale, ecd.params.RingP(), p.P.Coeffs, isRingStandard)
 		NttAndMontgomeryLvl(p.Q.Level(), logSlots, ecd.params.RingQ(), montgomery, p.Q)
 		NttAndMontgomeryLvl(p.P.Level(), logSlots, ecd.params.RingP(), montgomery, p.P)
+		p.Q.IsNTT, p.P.IsNTT = true, true
 	case *ring.Poly:
 		complexToFixedPointCRT(p.Level(), ecd.values[:slots], scale, ecd.params.RingQ(), p.Coeffs, isRingStandard)
 		NttAndMontgomeryLvl(p.Level(), logSlots, ecd.params.RingQ(), montgomery, p)
+		p.IsNTT = true
 	default:
 		panic("invalid polyOut.(Type) must be rlwe.PolyQP or *ring.Poly")
 	}
-- 
2.43.0


From 30313df3b062e344a58c68ccdfc34eb59157efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 35/49] fix: coefficient encodings of fewer than N values kept
 old coefficients of the receiver

---
 ckks/encoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 5ea5ad5..957c0fa 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -260,6 +260,7 @@ func (ecd *encoderComplex128) EncodeCoeffs(values []float64, plaintext *Plaintex
 	if len(values) > ecd.params.N() {
 		panic("cannot EncodeCoeffs : too many values (maximum is N)")
 	}
+	plaintext.Value.Zero()
 	floatToFixedPointCRT(plaintext.Level(), values, plaintext.Scale, ecd.params.RingQ(), plaintext.Value.Coeffs)
 	ecd.params.RingQ().NTTLvl(plaintext.Level(), plaintext.Value, plaintext.Value)
 	plaintext.Value.IsNTT = true
-- 
2.43.0


From e4a8d08236242d7b5cf38cfc7ccc01001d1a30d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 36/49] fix: ModDownQPtoP divided by the wrong part of Q

---
 ring/ring_basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_basis_extension.go b/ring/ring_basis_extension.go
index 499ead1..fd5cb1f 100644
--- a/ring/ring_basis_extension.go
+++ b/ring/ring_basis_extension.go
@@ -271,7 +271,7 @@ func (be *BasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1P, p2P *Poly) {
 	// Finally, for each level of p1 (and polypool since they now share the same basis) we compute p2 = (P^-1) * (p1 - polypool) mod Q
 	for i := 0; i < levelP+1; i++ {
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-		SubVecAndMulScalarMontgomeryTwoQiVec(polypool.Coeffs[i], p1P.Coeffs[i], p2P.Coeffs[i], ringP.Modulus[i]-modDownParams[levelP][i], ringP.Modulus[i], ringP.MredParams[i])
+		SubVecAndMulScalarMontgomeryTwoQiVec(polypool.Coeffs[i], p1P.Coeffs[i], p2P.Coeffs[i], ringP.Modulus[i]-modDownParams[levelQ][i], ringP.Modulus[i], ringP.MredParams[i])
 	}
 
 	// In total we do len(P) + len(Q) NTT, which is optimal (linear in the number of moduli of P and Q)
-- 
2.43.0


From 84b04ed699a6f4261d9955ce6bb8697c28428637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 37/49] fix: the arbitrary-precision encoder decoded
 coefficient-domain plaintexts as if they were in the NTT domain

---
 ckks/encoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 957c0fa..ecc44c6 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -836,7 +836,11 @@ func (ecd *encoderBigComplex) decodePublic(plaintext *Plaintext, logSlots int, s
 		panic("cannot Decode: too many slots for the given ring degree")
 	}
 
-	ecd.params.RingQ().InvNTTLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	if plaintext.Value.IsNTT {
+		ecd.params.RingQ().InvNTTLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	} else {
+		ring.CopyValuesLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	}
 
 	if sigma != 0 {
 		// B = floor(sigma * sqrt(2*pi))
-- 
2.43.0


From 7bc172d588f3c84d097d68f8e66db73273a0c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 38/49] fix: the fast Rotate and SwitchKeys left the third
 component of a degree-two receiver

---
 fckks/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index ece5842..099dbaa 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -83,6 +83,8 @@ func (eval *Evaluator) Rotate(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey, ctO
 		eval.DropLevel(ctOut, ctOut.Level()-ctIn.Level())
 	}
 
+	// The result is of degree one, whatever the receiver held
+	ctOut.Value = ctOut.Value[:2]
 	ctOut.Scale = ctIn.Scale
 
 	ringQ.InvNTTLvl(ctOut.Level(), ctIn.Value[1], eval.polyQPool[0])
@@ -110,6 +112,8 @@ func (eval *Evaluator) SwitchKeys(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingK
 		eval.DropLevel(ctOut, ctOut.Level()-level)
 	}
 
+	// The result is of degree one, whatever the receiver held
+	ctOut.Value = ctOut.Value[:2]
 	ctOut.Scale = ct0.Scale
 
 	if ct0.Value[1].IsNTT {
-- 
2.43.0


From 4a5ce5155124e9de06e1c3844873660024c2fc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 39/49] fix: adding or subtracting a scalar changed the operand
 and left the receiver alone

---
 ring/ring_operations.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index f822fd3..0ca017f 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -319,7 +319,7 @@ func (r *Ring) AddScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // AddScalarLvl adds a scalar to each coefficient of p1 and writes the result on p2.
 func (r *Ring) AddScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], scalar, r.Modulus[i])
 	}
 }
 
@@ -332,7 +332,7 @@ func (r *Ring) AddScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) AddScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
@@ -344,7 +344,7 @@ func (r *Ring) SubScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // SubScalarLvl subtracts a scalar from each coefficient of p1 and writes the result on p2.
 func (r *Ring) SubScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], scalar, r.Modulus[i])
 	}
 }
 
@@ -357,7 +357,7 @@ func (r *Ring) SubScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) SubScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
-- 
2.43.0


From c46ba6831d628961914ce99a78d0aee00d9ea19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 40/49] fix: Ring.Rotate changed its operand and left the
 receiver alone

---
 ring/ring_operations.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 0ca017f..5ab5170 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -582,7 +582,7 @@ func (r *Ring) Rotate(p1 *Poly, n int, p2 *Poly) {
 
 	var root, gal uint64
 
-	n &= (1 << r.N) - 1
+	n &= r.N - 1
 
 	for i, qi := range r.Modulus {
 
@@ -594,7 +594,9 @@ func (r *Ring) Rotate(p1 *Poly, n int, p2 *Poly) {
 
 		gal = MForm(1, qi, r.BredParams[i])
 
-		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N]
+		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N]
+
+		p2tmp[0] = p1tmp[0]
 
 		for j := 1; j < r.N; j++ {
 
-- 
2.43.0


From f0e793920d0d414be4323f7c092a43d53f46311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 41/49] fix: Ring.Shift could return its operand's memory as
 the result and refused shifts by N or more

---
 ring/ring_operations.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 5ab5170..af6ff25 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -390,9 +390,12 @@ func (r *Ring) MulScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly
 
 // Shift circulary shifts the coefficients of the polynomial p1 by n positions to the left and writes the result on p2.
 func (r *Ring) Shift(p1 *Poly, n int, p2 *Poly) {
-	mask := (1 << r.N) - 1
+	n &= r.N - 1
+	tmp := make([]uint64, r.N)
 	for i := range r.Modulus {
-		p2.Coeffs[i] = append(p1.Coeffs[i][(n&mask):], p1.Coeffs[i][:(n&mask)]...)
+		copy(tmp, p1.Coeffs[i][n:r.N])
+		copy(tmp[r.N-n:], p1.Coeffs[i][:n])
+		copy(p2.Coeffs[i], tmp)
 	}
 }
 
-- 
2.43.0


From e610df086392e3953055cbfbd4d564f74f4b88ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 42/49] fix: comparing two polynomials reduced them in place

---
 ring/ring.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/ring/ring.go b/ring/ring.go
index 2ec5896..c0fd8ab 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -607,18 +607,7 @@ func (r *Ring) Equal(p1, p2 *Poly) bool {
 		}
 	}
 
-	r.Reduce(p1, p1)
-	r.Reduce(p2, p2)
-
-	for i := 0; i < len(r.Modulus); i++ {
-		for j := 0; j < r.N; j++ {
-			if p1.Coeffs[i][j] != p2.Coeffs[i][j] {
-				return false
-			}
-		}
-	}
-
-	return true
+	return r.equalLvl(len(r.Modulus)-1, p1, p2)
 }
 
 // EqualLvl checks if p1 = p2 in the given Ring, up to a given level.
@@ -630,12 +619,15 @@ func (r *Ring) EqualLvl(level int, p1, p2 *Poly) bool {
 		}
 	}
 
-	r.ReduceLvl(level, p1, p1)
-	r.ReduceLvl(level, p2, p2)
+	return r.equalLvl(level, p1, p2)
+}
 
+// equalLvl compares the coefficients modulo the moduli from q_0 up to q_level, without changing the operands.
+func (r *Ring) equalLvl(level int, p1, p2 *Poly) bool {
 	for i := 0; i < level+1; i++ {
+		qi, bredParams := r.Modulus[i], r.BredParams[i]
 		for j := 0; j < r.N; j++ {
-			if p1.Coeffs[i][j] != p2.Coeffs[i][j] {
+			if BRedAdd(p1.Coeffs[i][j], qi, bredParams) != BRedAdd(p2.Coeffs[i][j], qi, bredParams) {
 				return false
 			}
 		}
-- 
2.43.0


From 066e745bbd4db56bc1bc80c6bf63242dc9090c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 43/49] fix: the rounded division by the last modulus changed
 its operand

---
 ring/ring_scaling.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index e05b74e..3c0f63a 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -402,12 +402,13 @@ func (r *Ring) DivRoundByLastModulusLvl(level int, p0, p1 *Poly) {
 	pj := r.Modulus[level]
 	pHalf := (pj - 1) >> 1
 
-	AddScalarVec(p0.Coeffs[level], p0.Coeffs[level], pHalf, pj)
+	last := make([]uint64, len(p0.Coeffs[level]))
+	AddScalarVec(p0.Coeffs[level], last, pHalf, pj)
 
 	for i := 0; i < level; i++ {
 		qi := r.Modulus[i]
-		AddScalarNoModAndNegTwoQiNoModVec(p0.Coeffs[i], p0.Coeffs[i], qi-BRedAdd(pHalf, qi, r.BredParams[i]), qi)
-		AddVecNoModAndMulScalarMontgomeryVec(p0.Coeffs[level], p0.Coeffs[i], p1.Coeffs[i], r.RescaleParams[level-1][i], qi, r.MredParams[i])
+		AddScalarNoModAndNegTwoQiNoModVec(p0.Coeffs[i], p1.Coeffs[i], qi-BRedAdd(pHalf, qi, r.BredParams[i]), qi)
+		AddVecNoModAndMulScalarMontgomeryVec(last, p1.Coeffs[i], p1.Coeffs[i], r.RescaleParams[level-1][i], qi, r.MredParams[i])
 	}
 }
 
-- 
2.43.0


From e9cdd8c7dad4ab533af61b11ac39d3232e53d135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 44/49] fix: copying a ciphertext into a larger one kept the
 receiver's upper components and moduli

---
 rlwe/elements.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index 2175cf2..b52ac52 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -229,7 +229,14 @@ func (el *Ciphertext) CopyNew() *Ciphertext {
 func (el *Ciphertext) Copy(ctxCopy *Ciphertext) {
 
 	if el != ctxCopy {
+		// A larger receiver takes the degree and the level of the input
+		if el.Degree() > ctxCopy.Degree() {
+			el.Value = el.Value[:ctxCopy.Degree()+1]
+		}
 		for i := range ctxCopy.Value {
+			if el.Value[i].Level() > ctxCopy.Value[i].Level() {
+				el.Value[i].Coeffs = el.Value[i].Coeffs[:ctxCopy.Value[i].Level()+1]
+			}
 			el.Value[i].Copy(ctxCopy.Value[i])
 		}
 	}
-- 
2.43.0


From 34432cf9ba7ee305106f3f91eb24cf3985d0ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 45/49] fix: refuse to rescale into a receiver below the level
 of the result

Rescale wrote past the end of a receiver with fewer moduli than the
result (index out of range, after having changed the receiver's scale).
It now returns an error and leaves the receiver as it was.
---
 ckks/evaluator.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index eb33e95..f19f5d1 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1102,16 +1102,22 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		return errors.New("cannot Rescale : ctIn.Degree() != ctOut.Degree()")
 	}
 
-	ctOut.Scale = ctIn.Scale
+	scale := ctIn.Scale
 
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
-		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
+	for ctIn.Level()-nbRescales > 0 && scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
+		scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
 
+	if nbRescales > 0 && ctOut.Level() < ctIn.Level()-nbRescales {
+		return errors.New("cannot Rescale: ctOut.Level() is below the level of the result")
+	}
+
+	ctOut.Scale = scale
+
 	if nbRescales > 0 {
 		level := ctIn.Level()
 		for i := range ctOut.Value {
-- 
2.43.0


From 3674191841a3f8656c402774c4b2afa9b856c740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 46/49] fix: ScaleUp records the factor it multiplied by

The ciphertext was multiplied by uint64(scale) while its scale was
multiplied by scale: a factor with a fractional part, or one of 2^64 and
more, left a scale that does not describe the message.
---
 ckks/evaluator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index f19f5d1..6c82808 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -979,7 +979,9 @@ func (eval *evaluator) ScaleUpNew(ct0 *Ciphertext, scale float64) (ctOut *Cipher
 // ScaleUp multiplies ct0 by 2^scale and sets its scale to its previous scale
 // plus 2^n. It returns the result in ctOut.
 func (eval *evaluator) ScaleUp(ct0 *Ciphertext, scale float64, ctOut *Ciphertext) {
-	eval.MultByConst(ct0, uint64(scale), ctOut)
+	// The ciphertext is multiplied by an integer, and its scale by the same integer
+	scale = math.Trunc(scale)
+	eval.MultByConst(ct0, scale, ctOut)
 	ctOut.Scale = ct0.Scale * scale
 }
 
-- 
2.43.0


From dd1223c33e6185ca4450284d518d0462ca301fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 47/49] fix: polynomials modulo QP compared equal to ones with
 an additional part

---
 rlwe/ring_qp.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index 825863d..6bc287e 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -41,14 +41,7 @@ func (p *PolyQP) Equals(other PolyQP) (v bool) {
 		return true
 	}
 
-	v = true
-	if p.Q != nil {
-		v = p.Q.Equals(other.Q)
-	}
-	if p.P != nil {
-		v = v && p.P.Equals(other.P)
-	}
-	return v
+	return p.Q.Equals(other.Q) && p.P.Equals(other.P)
 }
 
 // CopyValues copies the coefficients of p1 on the target polynomial.
-- 
2.43.0


From 1d07b44ee8cbc475b209fbbc9bacf4fd28a7e0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 48/49] fix: the ternary sampler used the sign bit of a
 coefficient again for the next one

---
 ring/ring_sampler_ternary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ring/ring_sampler_ternary.go b/ring/ring_sampler_ternary.go
index 6c2c264..e19bad6 100644
--- a/ring/ring_sampler_ternary.go
+++ b/ring/ring_sampler_ternary.go
@@ -280,9 +280,9 @@ func (ts *TernarySampler) kysampling(prng utils.PRNG, randomBytes []byte, pointe
 						sign = uint8(randomBytes[bytePointer]) & 1
 
 					} else {
-						pointer = i
 						// Otherwise, the sign is the next bit of the byte
-						sign = uint8(randomBytes[bytePointer]>>(i+1)) & 1
+						pointer = i + 1
+						sign = uint8(randomBytes[bytePointer]>>pointer) & 1
 					}
 
 					return uint64(row), uint64(sign), randomBytes, pointer + 1, bytePointer
-- 
2.43.0


From 580dc13eb1bfed6aaa1d3a232acd98f219693ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 49/49] fix: Rescale took ciphertexts outside the NTT domain,
 which it documents to refuse

---
 ckks/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 6c82808..97a2804 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1100,6 +1100,10 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		return errors.New("cannot Rescale: input Ciphertext already at level 0")
 	}
 
+	if !ctIn.Value[0].IsNTT {
+		return errors.New("cannot Rescale: input Ciphertext is not in the NTT domain")
+	}
+
 	if ctOut.Degree() != ctIn.Degree() {
 		return errors.New("cannot Rescale : ctIn.Degree() != ctOut.Degree()")
 	}
-- 
2.43.0

