From aa7d60ab00bcc1a0a0b5c886d9a23dd64b8fe53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 1/9] fix: do not drop errors of the G1 addition gadgets

---
 aggregator_lib_circuit.go | 6 ++++++
 fr.go                     | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index e0e9d34..65fda76 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -214,6 +214,9 @@ func AddHint(_ *big.Int, inputs []*big.Int, results []*big.Int) error {
 
 func CalcVerifyBN256Add1(api frontend.API, x1, y1, x2, y2 frontend.Variable) ([2]frontend.Variable, error) {
 	result, err := api.Compiler().NewHint(AddHint, 2, x1, y1, x2, y2)
+	if err != nil {
+		panic(err)
+	}
 	// TODO: sanity check
 
 	// circuit
@@ -258,6 +261,9 @@ func CalcVerifyBN256Add1(api frontend.API, x1, y1, x2, y2 frontend.Variable) ([2
 
 func CalcVerifyBN256Add(api frontend.API, x1, y1, x2, y2 frontend.Variable) ([2]frontend.Variable, error) {
 	result, err := api.Compiler().NewHint(AddHint, 2, x1, y1, x2, y2)
+	if err != nil {
+		panic(err)
+	}
 	expectedX, expectedY := mod(api, result[0]), mod(api, result[1])
 	err = VerifyBN254Add(api, [2]frontend.Variable{x1, y1}, [2]frontend.Variable{x2, y2}, [2]frontend.Variable{expectedX, expectedY})
 	return [2]frontend.Variable{expectedX, expectedY}, err
diff --git a/fr.go b/fr.go
index 20aefb9..e46b65d 100644
--- a/fr.go
+++ b/fr.go
@@ -34,6 +34,9 @@ func ecc_mul_add(api frontend.API, buf []frontend.Variable, offset int) error {
 	}
 
 	res, err := CalcVerifyBN256Add(api, buf[offset], buf[offset+1], buf[offset+2], buf[offset+3])
+	if err != nil {
+		return err
+	}
 	buf[offset] = res[0]
 	buf[offset+1] = res[1]
 	return nil
-- 
2.43.0


From 628b0655ee8c3c89bf836ffd7025b57acedd2d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 2/9] fix: curve hints return (0, 0) for the point at infinity

---
 aggregator_lib_circuit.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index 65fda76..4b4cfd2 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -118,9 +118,10 @@ func MsmHint(_ *big.Int, inputs []*big.Int, results []*big.Int) error {
 	res := new(bn256.G1)
 	res.ScalarMult(p, inputs[2])
 
-	xStr, yStr, _ := extractAndConvert(res.String())
-	results[0], _ = new(big.Int).SetString(xStr, 10)
-	results[1], _ = new(big.Int).SetString(yStr, 10)
+	// Marshal encodes the point at infinity as (0, 0)
+	resBytes := res.Marshal()
+	results[0] = new(big.Int).SetBytes(resBytes[:32])
+	results[1] = new(big.Int).SetBytes(resBytes[32:])
 	return nil
 }
 
@@ -206,9 +207,10 @@ func AddHint(_ *big.Int, inputs []*big.Int, results []*big.Int) error {
 	res := new(bn256.G1)
 	res = res.Add(p1, p2)
 
-	xStr, yStr, _ := extractAndConvert(res.String())
-	results[0], _ = new(big.Int).SetString(xStr, 10)
-	results[1], _ = new(big.Int).SetString(yStr, 10)
+	// Marshal encodes the point at infinity as (0, 0)
+	resBytes := res.Marshal()
+	results[0] = new(big.Int).SetBytes(resBytes[:32])
+	results[1] = new(big.Int).SetBytes(resBytes[32:])
 	return nil
 }
 
-- 
2.43.0


From 8135792642c7e68f2a796909a63ec985dbe9cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 3/9] fix: compare native G1 results in the base field and
 leave the operands alone

---
 aggregator_lib_circuit.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index 4b4cfd2..8d0e16d 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -55,10 +55,11 @@ func VerifyBN256Msm(
 	scalar *big.Int,
 	res *bn254.G1Affine,
 ) error {
-	g1Point = g1Point.ScalarMultiplication(g1Point, scalar)
+	product := new(bn254.G1Affine).ScalarMultiplication(g1Point, scalar)
 	//log.Println("VerifyBN256Msm", g1Point.String(), res.String())
-	api.AssertIsEqual(g1Point.X, res.X)
-	api.AssertIsEqual(g1Point.Y, res.Y)
+	if !product.Equal(res) {
+		return errors.New("bn256 scalar multiplication result mismatch")
+	}
 	return nil
 }
 
@@ -85,9 +86,10 @@ func VerifyBN256Add(
 	g11Point *bn254.G1Affine,
 	res *bn254.G1Affine,
 ) error {
-	sum := g10Point.Add(g10Point, g11Point)
-	api.AssertIsEqual(sum.X, res.X)
-	api.AssertIsEqual(sum.Y, res.Y)
+	sum := new(bn254.G1Affine).Add(g10Point, g11Point)
+	if !sum.Equal(res) {
+		return errors.New("bn256 addition result mismatch")
+	}
 	return nil
 }
 
-- 
2.43.0


From 10b7038bc2adc96cfd0850b37467846c37344d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 4/9] fix: fr_pow returns one for a zero exponent

---
 fr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fr.go b/fr.go
index e46b65d..a2ba558 100644
--- a/fr.go
+++ b/fr.go
@@ -43,8 +43,8 @@ func ecc_mul_add(api frontend.API, buf []frontend.Variable, offset int) error {
 }
 
 func fr_pow(api frontend.API, a frontend.Variable, power frontend.Variable) frontend.Variable {
-	res := a
-	for i := new(big.Int).SetUint64(1); i.Cmp(power.(*big.Int)) < 0; {
+	var res frontend.Variable = 1
+	for i := new(big.Int).SetUint64(0); i.Cmp(power.(*big.Int)) < 0; {
 		i = i.Add(i, big.NewInt(1))
 		res = api.Mul(res, a)
 	}
-- 
2.43.0


From 163c73472f1f859ce81c186419be93c1f0d28c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 5/9] fix: constrain the hashed instance bytes to encode the
 instance

---
 circuit.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/circuit.go b/circuit.go
index 4e8309a..249e856 100644
--- a/circuit.go
+++ b/circuit.go
@@ -146,6 +146,19 @@ func VerifyInstanceHash(api frontend.API, inputs []frontend.Variable) (frontend.
 		inputU8Array = append(inputU8Array, binaryF.ByteValueOf(result[i]))
 	}
 
+	// the hashed bytes are the 32-byte big-endian encodings of the inputs
+	for i := range inputs {
+		bits := api.ToBinary(inputs[i])
+		for j := 0; j < 32; j++ {
+			lo := 8 * (31 - j)
+			hi := lo + 8
+			if hi > len(bits) {
+				hi = len(bits)
+			}
+			api.AssertIsEqual(result[33+32*i+j], api.FromBinary(bits[lo:hi]...))
+		}
+	}
+
 	//input := uints.NewU8Array(result[0].(*big.Int).Bytes())
 	//hashVar := uints.NewU8Array(result[0].(*big.Int).Bytes())
 	err = VerifyKeccak256(api, inputU8Array, hashU8Array)
-- 
2.43.0


From 8bae9cb55d6f52daf9dd4bf44b89eaf77fefb0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 6/9] fix: register modHint with the solver

---
 aggregator_lib_circuit.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index 8d0e16d..69c5990 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -30,6 +30,7 @@ func init() {
 	solver.RegisterHint(MsmHint)
 	solver.RegisterHint(AddHint)
 	solver.RegisterHint(Keccak256Hint)
+	solver.RegisterHint(modHint)
 }
 
 // BN256MsmCircuit is the circuit that performs a bn256 pairing operation
-- 
2.43.0


From 7ee5d35bfd149963b6d64cd4b0bfed42fe84f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 7/9] fix: toBytes reads its only input

---
 hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hash.go b/hash.go
index 0d9a882..f79b593 100644
--- a/hash.go
+++ b/hash.go
@@ -31,11 +31,11 @@ func toBytes(m *big.Int, inputs []*big.Int, outputs []*big.Int) error {
 	if len(outputs) != nbLimbs {
 		return fmt.Errorf("output must be 8 elements")
 	}
-	if !inputs[1].IsUint64() {
+	if !inputs[0].IsUint64() {
 		return fmt.Errorf("input must be 64 bits")
 	}
 	base := new(big.Int).Lsh(big.NewInt(1), uint(8))
-	tmp := new(big.Int).Set(inputs[1])
+	tmp := new(big.Int).Set(inputs[0])
 	for i := 0; i < nbLimbs; i++ {
 		outputs[i].Mod(tmp, base)
 		tmp.Rsh(tmp, 8)
-- 
2.43.0


From a8239d0346c19d8dc67b3dae7222e033bf8b37e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 8/9] fix: the on-curve check rejects coordinates that cannot
 be converted

---
 aggregator_lib_circuit.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index 69c5990..cc2eeec 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -396,8 +396,14 @@ func VerifyCheckOnCurve(
 ) error {
 	var g1 = bn254.G1Affine{}
 	//var xFr, yFr fr.Element
-	xFr, _ := new(fp.Element).SetInterface(x)
-	yFr, _ := new(fp.Element).SetInterface(y)
+	xFr, err := new(fp.Element).SetInterface(x)
+	if err != nil {
+		return err
+	}
+	yFr, err := new(fp.Element).SetInterface(y)
+	if err != nil {
+		return err
+	}
 	g1.X.Set(xFr)
 	g1.Y.Set(yFr)
 
-- 
2.43.0


From edfb471f4215fa2aad45c51d7eef4bad4e7147c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 9/9] fix: the non-zero gadget rejects zero under every
 constraint builder

gnark v0.10's R1CS builder emits "l * 0 == 0" for the comparison
AssertIsLessOrEqual(constant, variable), so VerifyNotZero compiled with
r1cs.NewBuilder (Groth16) accepted zero. AssertIsDifferent constrains the
value to be invertible and does so under both builders.
---
 aggregator_lib_circuit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index cc2eeec..75bc587 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -617,7 +617,7 @@ func VerifyNotZero(api frontend.API, x frontend.Variable) error {
 	//if err != nil {
 	//	return err
 	//}
-	api.AssertIsLessOrEqual(1, x)
+	api.AssertIsDifferent(x, 0)
 	//api.AssertIsEqual(api.Mul(x, notZero[0]), x)
 	return nil
 }
-- 
2.43.0

