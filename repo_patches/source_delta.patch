From 32a91f050bf6ff4657ba6b52bb3a8abad7c32038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:59 +0000
Subject: [PATCH 01/10] fix: bound the Poseidon S-box reduction quotients so
 they cannot wrap the native field

---
 poseidon/goldilocks.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/poseidon/goldilocks.go b/poseidon/goldilocks.go
index 93e1ebe..cfe3c00 100644
--- a/poseidon/goldilocks.go
+++ b/poseidon/goldilocks.go
@@ -138,10 +138,12 @@ func (c *GoldilocksChip) ConstantLayerExtension(state GoldilocksStateExtension,
 func (c *GoldilocksChip) sBoxMonomial(x gl.Variable) gl.Variable {
 	x2 := c.gl.MulNoReduce(x, x)
 	x3 := c.gl.MulNoReduce(x, x2)
-	x3 = c.gl.ReduceWithMaxBits(x3, 192)
+	// x3 and x7 are less than 2^192, so the quotient by the modulus is less than 2^128.  A wider bound on the
+	// quotient would let quotient * MODULUS wrap around the native field and make the remainder ambiguous.
+	x3 = c.gl.ReduceWithMaxBits(x3, 128)
 	x6 := c.gl.MulNoReduce(x3, x3)
 	x7 := c.gl.MulNoReduce(x, x6)
-	return c.gl.ReduceWithMaxBits(x7, 192)
+	return c.gl.ReduceWithMaxBits(x7, 128)
 }
 
 func (c *GoldilocksChip) SBoxMonomialExtension(x gl.QuadraticExtensionVariable) gl.QuadraticExtensionVariable {
-- 
2.43.0


From a7b13df5f2bf4e7b0c2f920ab3cdaac667cb46ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:59 +0000
Subject: [PATCH 02/10] fix: enforce range checks when the builder has a native
 range checker

---
 goldilocks/base.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/goldilocks/base.go b/goldilocks/base.go
index ed63eb6..3433e48 100644
--- a/goldilocks/base.go
+++ b/goldilocks/base.go
@@ -410,8 +410,7 @@ func (p *Chip) AssertIsEqual(x, y Variable) {
 
 func (p *Chip) rangeCheckerCheck(x frontend.Variable, nbBits int) {
 	switch p.rangeCheckerType {
-	case NATIVE_RANGE_CHECKER:
-	case BIT_DECOMP_RANGE_CHECKER:
+	case NATIVE_RANGE_CHECKER, BIT_DECOMP_RANGE_CHECKER:
 		p.rangeChecker.Check(x, nbBits)
 	case COMMIT_RANGE_CHECKER:
 		p.collectedMutex.Lock()
-- 
2.43.0


From afd272682677508e2c330d0ff6108e97f989a163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:59 +0000
Subject: [PATCH 03/10] fix: match gate identifiers in full so that unknown
 gates are refused

---
 plonk/gates/arithmetic_extension_gate.go     | 2 +-
 plonk/gates/arithmetic_gate.go               | 2 +-
 plonk/gates/base_sum_gate.go                 | 2 +-
 plonk/gates/constant_gate.go                 | 2 +-
 plonk/gates/coset_interpolation_gate.go      | 2 +-
 plonk/gates/exponentiation_gate.go           | 2 +-
 plonk/gates/multiplication_extension_gate.go | 2 +-
 plonk/gates/noop_gate.go                     | 2 +-
 plonk/gates/poseidon_gate.go                 | 2 +-
 plonk/gates/poseidon_mds_gate.go             | 2 +-
 plonk/gates/public_input_gate.go             | 2 +-
 plonk/gates/random_access_gate.go            | 2 +-
 plonk/gates/reducing_extension_gate.go       | 2 +-
 plonk/gates/reducing_gate.go                 | 2 +-
 14 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/plonk/gates/arithmetic_extension_gate.go b/plonk/gates/arithmetic_extension_gate.go
index 3e689e5..4833650 100644
--- a/plonk/gates/arithmetic_extension_gate.go
+++ b/plonk/gates/arithmetic_extension_gate.go
@@ -9,7 +9,7 @@ import (
 	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
 )
 
-var arithmeticExtensionGateRegex = regexp.MustCompile("ArithmeticExtensionGate { num_ops: (?P<numOps>[0-9]+) }")
+var arithmeticExtensionGateRegex = regexp.MustCompile("^ArithmeticExtensionGate { num_ops: (?P<numOps>[0-9]+) }$")
 
 func deserializeExtensionArithmeticGate(parameters map[string]string) Gate {
 	// Has the format "ArithmeticExtensionGate { num_ops: 10 }"
diff --git a/plonk/gates/arithmetic_gate.go b/plonk/gates/arithmetic_gate.go
index 3abb62d..8e3e77d 100644
--- a/plonk/gates/arithmetic_gate.go
+++ b/plonk/gates/arithmetic_gate.go
@@ -9,7 +9,7 @@ import (
 	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
 )
 
-var arithmeticGateRegex = regexp.MustCompile("ArithmeticGate { num_ops: (?P<numOps>[0-9]+) }")
+var arithmeticGateRegex = regexp.MustCompile("^ArithmeticGate { num_ops: (?P<numOps>[0-9]+) }$")
 
 func deserializeArithmeticGate(parameters map[string]string) Gate {
 	// Has the format "ArithmeticGate { num_ops: 10 }"
diff --git a/plonk/gates/base_sum_gate.go b/plonk/gates/base_sum_gate.go
index 9b7d23a..c61c930 100644
--- a/plonk/gates/base_sum_gate.go
+++ b/plonk/gates/base_sum_gate.go
@@ -9,7 +9,7 @@ import (
 	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
 )
 
-var baseSumGateRegex = regexp.MustCompile(`BaseSumGate { num_limbs: (?P<numLimbs>[0-9]+) } \+ Base: (?P<base>[0-9]+)`)
+var baseSumGateRegex = regexp.MustCompile(`^BaseSumGate { num_limbs: (?P<numLimbs>[0-9]+) } \+ Base: (?P<base>[0-9]+)$`)
 
 func deserializeBaseSumGate(parameters map[string]string) Gate {
 
diff --git a/plonk/gates/constant_gate.go b/plonk/gates/constant_gate.go
index c5280f2..fd2d24f 100644
--- a/plonk/gates/constant_gate.go
+++ b/plonk/gates/constant_gate.go
@@ -9,7 +9,7 @@ import (
 	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
 )
 
-var constantGateRegex = regexp.MustCompile("ConstantGate { num_consts: (?P<numConsts>[0-9]+) }")
+var constantGateRegex = regexp.MustCompile("^ConstantGate { num_consts: (?P<numConsts>[0-9]+) }$")
 
 func deserializeConstantGate(parameters map[string]string) Gate {
 	// Has the format "ConstantGate { num_consts: 2 }"
diff --git a/plonk/gates/coset_interpolation_gate.go b/plonk/gates/coset_interpolation_gate.go
index 26d4dd9..90d5ea2 100644
--- a/plonk/gates/coset_interpolation_gate.go
+++ b/plonk/gates/coset_interpolation_gate.go
@@ -11,7 +11,7 @@ import (
 	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
 )
 
-var cosetInterpolationGateRegex = regexp.MustCompile(`CosetInterpolationGate { subgroup_bits: (?P<subgroupBits>[0-9]+), degree: (?P<degree>[0-9]+), barycentric_weights: \[(?P<barycentricWeights>[0-9, ]+)\], _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>`)
+var cosetInterpolationGateRegex = regexp.MustCompile(`^CosetInterpolationGate { subgroup_bits: (?P<subgroupBits>[0-9]+), degree: (?P<degree>[0-9]+), barycentric_weights: \[(?P<barycentricWeights>[0-9, ]+)\], _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>$`)
 
 func deserializeCosetInterpolationGate(parameters map[string]string) Gate {
 	// Has the format CosetInterpolationGate { subgroup_bits: 4, degree: 6, barycentric_weights: [17293822565076172801, 18374686475376656385, 18446744069413535745, 281474976645120, 17592186044416, 18446744069414584577, 18446744000695107601, 18446744065119617025, 1152921504338411520, 72057594037927936, 18446744069415632897, 18446462594437939201, 18446726477228539905, 18446744069414584065, 68719476720, 4294967296], _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>
diff --git a/plonk/gates/exponentiation_gate.go b/plonk/gates/exponentiation_gate.go
index f4f1fab..197785a 100644
--- a/plonk/gates/exponentiation_gate.go
+++ b/plonk/gates/exponentiation_gate.go
@@ -9,7 +9,7 @@ import (
 	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
 )
 
-var exponentiationGateRegex = regexp.MustCompile("ExponentiationGate { num_power_bits: (?P<numPowerBits>[0-9]+), _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=(?P<base>[0-9]+)>")
+var exponentiationGateRegex = regexp.MustCompile("^ExponentiationGate { num_power_bits: (?P<numPowerBits>[0-9]+), _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=(?P<base>[0-9]+)>$")
 
 func deserializeExponentiationGate(parameters map[string]string) Gate {
 	// Has the format "ExponentiationGate { num_power_bits: 67, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>"
diff --git a/plonk/gates/multiplication_extension_gate.go b/plonk/gates/multiplication_extension_gate.go
index febc0f6..9583e12 100644
--- a/plonk/gates/multiplication_extension_gate.go
+++ b/plonk/gates/multiplication_extension_gate.go
@@ -9,7 +9,7 @@ import (
 	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
 )
 
-var mulExtensionGateRegex = regexp.MustCompile("MulExtensionGate { num_ops: (?P<numOps>[0-9]+) }")
+var mulExtensionGateRegex = regexp.MustCompile("^MulExtensionGate { num_ops: (?P<numOps>[0-9]+) }$")
 
 func deserializeMulExtensionGate(parameters map[string]string) Gate {
 	// Has the format "MulExtensionGate { num_ops: 13 }"
diff --git a/plonk/gates/noop_gate.go b/plonk/gates/noop_gate.go
index 6df7630..a6bd729 100644
--- a/plonk/gates/noop_gate.go
+++ b/plonk/gates/noop_gate.go
@@ -7,7 +7,7 @@ import (
 	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
 )
 
-var noopGateRegex = regexp.MustCompile("NoopGate")
+var noopGateRegex = regexp.MustCompile("^NoopGate$")
 
 func deserializeNoopGate(parameters map[string]string) Gate {
 	// Has the format "NoopGate"
diff --git a/plonk/gates/poseidon_gate.go b/plonk/gates/poseidon_gate.go
index 2d3dbe4..de1821a 100644
--- a/plonk/gates/poseidon_gate.go
+++ b/plonk/gates/poseidon_gate.go
@@ -8,7 +8,7 @@ import (
 	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
 )
 
-var poseidonGateRegex = regexp.MustCompile("PoseidonGate.*")
+var poseidonGateRegex = regexp.MustCompile(`^PoseidonGate(\(PhantomData<[^>]*>\)<WIDTH=12>)?$`)
 
 func deserializePoseidonGate(parameters map[string]string) Gate {
 	// Has the format "PoseidonGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"
diff --git a/plonk/gates/poseidon_mds_gate.go b/plonk/gates/poseidon_mds_gate.go
index 48cf20e..b85d8dd 100644
--- a/plonk/gates/poseidon_mds_gate.go
+++ b/plonk/gates/poseidon_mds_gate.go
@@ -8,7 +8,7 @@ import (
 	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
 )
 
-var poseidonMdsGateRegex = regexp.MustCompile("PoseidonMdsGate.*")
+var poseidonMdsGateRegex = regexp.MustCompile(`^PoseidonMdsGate(\(PhantomData<[^>]*>\)<WIDTH=12>)?$`)
 
 func deserializePoseidonMdsGate(parameters map[string]string) Gate {
 	// Has the format "PoseidonMdsGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"
diff --git a/plonk/gates/public_input_gate.go b/plonk/gates/public_input_gate.go
index cdb8cdf..22131f4 100644
--- a/plonk/gates/public_input_gate.go
+++ b/plonk/gates/public_input_gate.go
@@ -7,7 +7,7 @@ import (
 	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
 )
 
-var publicInputGateRegex = regexp.MustCompile("PublicInputGate")
+var publicInputGateRegex = regexp.MustCompile("^PublicInputGate$")
 
 func deserializePublicInputGate(parameters map[string]string) Gate {
 	// Has the format "PublicInputGate"
diff --git a/plonk/gates/random_access_gate.go b/plonk/gates/random_access_gate.go
index 706f47f..031c984 100644
--- a/plonk/gates/random_access_gate.go
+++ b/plonk/gates/random_access_gate.go
@@ -9,7 +9,7 @@ import (
 	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
 )
 
-var randomAccessGateRegex = regexp.MustCompile("RandomAccessGate { bits: (?P<bits>[0-9]+), num_copies: (?P<numCopies>[0-9]+), num_extra_constants: (?P<numExtraConstants>[0-9]+), _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=(?P<base>[0-9]+)>")
+var randomAccessGateRegex = regexp.MustCompile("^RandomAccessGate { bits: (?P<bits>[0-9]+), num_copies: (?P<numCopies>[0-9]+), num_extra_constants: (?P<numExtraConstants>[0-9]+), _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=(?P<base>[0-9]+)>$")
 
 func deserializeRandomAccessGate(parameters map[string]string) Gate {
 	// Has the format "RandomAccessGate { bits: 2, num_copies: 13, num_extra_constants: 2, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>"
diff --git a/plonk/gates/reducing_extension_gate.go b/plonk/gates/reducing_extension_gate.go
index 7bb9aee..eba59ae 100644
--- a/plonk/gates/reducing_extension_gate.go
+++ b/plonk/gates/reducing_extension_gate.go
@@ -9,7 +9,7 @@ import (
 	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
 )
 
-var reducingExtensionGateRegex = regexp.MustCompile("ReducingExtensionGate { num_coeffs: (?P<numCoeffs>[0-9]+) }")
+var reducingExtensionGateRegex = regexp.MustCompile("^ReducingExtensionGate { num_coeffs: (?P<numCoeffs>[0-9]+) }$")
 
 func deserializeReducingExtensionGate(parameters map[string]string) Gate {
 	// Has the format "ReducingExtensionGate { num_coeffs: 33 }"
diff --git a/plonk/gates/reducing_gate.go b/plonk/gates/reducing_gate.go
index 57c29a3..daa61f9 100644
--- a/plonk/gates/reducing_gate.go
+++ b/plonk/gates/reducing_gate.go
@@ -9,7 +9,7 @@ import (
 	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
 )
 
-var reducingGateRegex = regexp.MustCompile("ReducingGate { num_coeffs: (?P<numCoeffs>[0-9]+) }")
+var reducingGateRegex = regexp.MustCompile("^ReducingGate { num_coeffs: (?P<numCoeffs>[0-9]+) }$")
 
 func deserializeReducingGate(parameters map[string]string) Gate {
 	// Has the format "ReducingGate { num_coeffs: 33 }"
-- 
2.43.0


From 15f54f11a124616cbdbc185dde78ab919ec67390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:04 +0000
Subject: [PATCH 04/10] fix: permutation argument with a shorter last chunk

The circuit builder read past the end of the routed wires (and panicked) when their number is not a multiple of the
quotient degree factor; Plonky2 makes such circuits and closes the argument with a shorter last chunk.
---
 plonk/plonk.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/plonk/plonk.go b/plonk/plonk.go
index ac2348c..c2be918 100644
--- a/plonk/plonk.go
+++ b/plonk/plonk.go
@@ -101,11 +101,16 @@ func (p *PlonkChip) checkPartialProducts(
 
 	for i := uint64(0); i <= numPartProds; i += 1 {
 		ppStartIdx := i * quotDegreeFactor
+		// The last chunk is shorter if the number of routed wires is not a multiple of the quotient degree factor.
+		ppEndIdx := ppStartIdx + quotDegreeFactor
+		if ppEndIdx > uint64(len(numerators)) {
+			ppEndIdx = uint64(len(numerators))
+		}
 		numeProduct := numerators[ppStartIdx]
 		denoProduct := denominators[ppStartIdx]
-		for j := uint64(1); j < quotDegreeFactor; j++ {
-			numeProduct = glApi.MulExtension(numeProduct, numerators[ppStartIdx+j])
-			denoProduct = glApi.MulExtension(denoProduct, denominators[ppStartIdx+j])
+		for j := ppStartIdx + 1; j < ppEndIdx; j++ {
+			numeProduct = glApi.MulExtension(numeProduct, numerators[j])
+			denoProduct = glApi.MulExtension(denoProduct, denominators[j])
 		}
 
 		partialProductCheck := glApi.SubExtension(
-- 
2.43.0


From c208e2a4738e07f790b06f02a43876ed35f41d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:04 +0000
Subject: [PATCH 05/10] fix: refuse proofs with a wrong number of public
 inputs, openings or commit-phase caps

Surplus zero openings at the end of a batch, surplus commit-phase caps and surplus public inputs that do not change the
hash were accepted: nothing compared their number with the circuit description.
---
 fri/fri_utils.go     |  4 ++++
 verifier/verifier.go | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/fri/fri_utils.go b/fri/fri_utils.go
index fe3b5a6..18d5bf9 100644
--- a/fri/fri_utils.go
+++ b/fri/fri_utils.go
@@ -171,6 +171,10 @@ func validateFriProofShape(proof *variables.FriProof, instance InstanceInfo, par
 	queryRoundProofs := proof.QueryRoundProofs
 	finalPoly := proof.FinalPoly
 
+	if len(commitPhaseMerkleCaps) != len(params.ReductionArityBits) {
+		panic("length of commit_phase_merkle_caps != params.reduction_arity_bits")
+	}
+
 	capHeight := params.Config.CapHeight
 	for _, cap := range commitPhaseMerkleCaps {
 		if 1<<capHeight != len(cap) {
diff --git a/verifier/verifier.go b/verifier/verifier.go
index 0d47f23..359ff51 100644
--- a/verifier/verifier.go
+++ b/verifier/verifier.go
@@ -140,11 +140,43 @@ func (c *VerifierChip) rangeCheckProof(proof variables.Proof) {
 	c.glChip.RangeCheck(proof.OpeningProof.PowWitness)
 }
 
+// This does not add any constraints, it is just a sanity check on the number of public inputs and openings.
+// It's a port of validate_proof_with_pis_shape from plonk::validate_shape in plonky2.  The shape of the opening
+// proof is checked in fri.VerifyFriProof.
+func (c *VerifierChip) validateProofShape(proof variables.Proof, publicInputs []gl.Variable) {
+	config := c.commonData.Config
+	openings := proof.Openings
+
+	if uint64(len(publicInputs)) != c.commonData.NumPublicInputs {
+		panic("number of public inputs doesn't match common data")
+	}
+	if uint64(len(openings.Constants)) != c.commonData.NumConstants {
+		panic("number of constants openings doesn't match common data")
+	}
+	if uint64(len(openings.PlonkSigmas)) != config.NumRoutedWires {
+		panic("number of sigmas openings doesn't match common data")
+	}
+	if uint64(len(openings.Wires)) != config.NumWires {
+		panic("number of wires openings doesn't match common data")
+	}
+	if uint64(len(openings.PlonkZs)) != config.NumChallenges || uint64(len(openings.PlonkZsNext)) != config.NumChallenges {
+		panic("number of zs openings doesn't match common data")
+	}
+	if uint64(len(openings.PartialProducts)) != config.NumChallenges*c.commonData.NumPartialProducts {
+		panic("number of partial products openings doesn't match common data")
+	}
+	if uint64(len(openings.QuotientPolys)) != config.NumChallenges*c.commonData.QuotientDegreeFactor {
+		panic("number of quotient polys openings doesn't match common data")
+	}
+}
+
 func (c *VerifierChip) Verify(
 	proof variables.Proof,
 	publicInputs []gl.Variable,
 	verifierData variables.VerifierOnlyCircuitData,
 ) {
+	c.validateProofShape(proof, publicInputs)
+
 	c.rangeCheckProof(proof)
 
 	// Generate the parts of the witness that is for the plonky2 proof input
-- 
2.43.0


From 63ff465ca1f493496b6ca648f20aa53dee0d41fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:54 +0000
Subject: [PATCH 06/10] fix: refuse files with malformed or non-canonical
 hashes

---
 variables/deserialize.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/variables/deserialize.go b/variables/deserialize.go
index 33acaf3..60b2811 100644
--- a/variables/deserialize.go
+++ b/variables/deserialize.go
@@ -1,20 +1,31 @@
 package variables
 
 import (
+	"fmt"
 	"math/big"
 
+	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
 	"github.com/consensys/gnark/frontend"
 	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
 	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
 	"github.com/succinctlabs/gnark-plonky2-verifier/types"
 )
 
+// Parses the decimal representation of a BN254 hash.  Panics unless it is the canonical representation of a field
+// element, since any other string would silently be turned into a different hash (or into no hash at all).
+func deserializeHash(hash string) poseidon.BN254HashOut {
+	hashBigInt, ok := new(big.Int).SetString(hash, 10)
+	if !ok || hashBigInt.Sign() < 0 || hashBigInt.Cmp(fr.Modulus()) >= 0 || hashBigInt.String() != hash {
+		panic(fmt.Sprintf("invalid BN254 hash: %q", hash))
+	}
+	return poseidon.BN254HashOut(frontend.Variable(hashBigInt))
+}
+
 func DeserializeMerkleCap(merkleCapRaw []string) FriMerkleCap {
 	n := len(merkleCapRaw)
 	merkleCap := make([]poseidon.BN254HashOut, n)
 	for i := 0; i < n; i++ {
-		capBigInt, _ := new(big.Int).SetString(merkleCapRaw[i], 10)
-		merkleCap[i] = frontend.Variable(capBigInt)
+		merkleCap[i] = deserializeHash(merkleCapRaw[i])
 	}
 	return merkleCap
 }
@@ -54,9 +65,7 @@ func StringArrayToHashBN254Array(rawHashes []string) []poseidon.BN254HashOut {
 	hashes := []poseidon.BN254HashOut{}
 
 	for i := 0; i < len(rawHashes); i++ {
-		hashBigInt, _ := new(big.Int).SetString(rawHashes[i], 10)
-		hashVar := frontend.Variable(hashBigInt)
-		hashes = append(hashes, poseidon.BN254HashOut(hashVar))
+		hashes = append(hashes, deserializeHash(rawHashes[i]))
 	}
 
 	return hashes
@@ -149,8 +158,6 @@ func DeserializeProofWithPublicInputs(raw types.ProofWithPublicInputsRaw) ProofW
 func DeserializeVerifierOnlyCircuitData(raw types.VerifierOnlyCircuitDataRaw) VerifierOnlyCircuitData {
 	var verifierOnlyCircuitData VerifierOnlyCircuitData
 	verifierOnlyCircuitData.ConstantSigmasCap = DeserializeMerkleCap(raw.ConstantsSigmasCap)
-	circuitDigestBigInt, _ := new(big.Int).SetString(raw.CircuitDigest, 10)
-	circuitDigestVar := frontend.Variable(circuitDigestBigInt)
-	verifierOnlyCircuitData.CircuitDigest = poseidon.BN254HashOut(circuitDigestVar)
+	verifierOnlyCircuitData.CircuitDigest = deserializeHash(raw.CircuitDigest)
 	return verifierOnlyCircuitData
 }
-- 
2.43.0


From 491500e3e5893b855cef52736d94a8812cd9970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:04 +0000
Subject: [PATCH 07/10] fix: refuse trusted-setup contributions whose points do
 not encode one non-zero secret

---
 trusted_setup/trusted_setup.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/trusted_setup/trusted_setup.go b/trusted_setup/trusted_setup.go
index cc01dae..c7aea72 100644
--- a/trusted_setup/trusted_setup.go
+++ b/trusted_setup/trusted_setup.go
@@ -62,6 +62,20 @@ func eval(p []fr.Element, point fr.Element) fr.Element {
 	return res
 }
 
+// hasConsistentSecret checks that the G1 and G2 points of a contribution encode the same non-zero secret x, i.e. that
+// they start with x.[1] and x.[2].  Contribution.IsValid only checks that consecutive G1 points differ by the factor
+// that is encoded in G2, and Contribution.Follows only looks at the first G1 point.
+func hasConsistentSecret(c *ignition.Contribution) bool {
+	if c.G1[0].IsInfinity() {
+		return false
+	}
+	_, _, g1gen, g2gen := bn254.Generators()
+	var g1genNeg bn254.G1Affine
+	g1genNeg.Neg(&g1gen)
+	ok, err := bn254.PairingCheck([]bn254.G1Affine{c.G1[0], g1genNeg}, []bn254.G2Affine{g2gen, c.G2[0]})
+	return err == nil && ok
+}
+
 func DownloadAndSaveAztecIgnitionSrs(startIdx int, fileName string) {
 	config := ignition.Config{
 		BaseURL:  "https://aztec-ignition.s3.amazonaws.com/",
@@ -94,6 +108,9 @@ func DownloadAndSaveAztecIgnitionSrs(startIdx int, fileName string) {
 	if err := next.Get(manifest.Participants[startIdx+1], config); err != nil {
 		log.Fatal("when fetching contribution: ", err)
 	}
+	if !hasConsistentSecret(&current) || !hasConsistentSecret(&next) {
+		log.Fatalf("contribution %d or %d has an inconsistent secret", startIdx, startIdx+1)
+	}
 	if !next.Follows(&current) {
 		log.Fatalf("contribution %d does not follow contribution %d", startIdx+1, startIdx)
 	}
@@ -104,6 +121,9 @@ func DownloadAndSaveAztecIgnitionSrs(startIdx int, fileName string) {
 		if err := next.Get(manifest.Participants[i], config); err != nil {
 			log.Fatal("when fetching contribution ", i+1, ": ", err)
 		}
+		if !hasConsistentSecret(&next) {
+			log.Fatal("contribution ", i+1, " has an inconsistent secret")
+		}
 		if !next.Follows(&current) {
 			log.Fatal("contribution ", i+1, " does not follow contribution ", i, ": ", err)
 		}
-- 
2.43.0


From 37a572ae977fd57b7520cf275dfcfc51122f7b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:30 +0000
Subject: [PATCH 08/10] fix: do not append openings to the slice the caller
 passed in

---
 fri/fri.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fri/fri.go b/fri/fri.go
index 2e37f0f..4d2dbaa 100644
--- a/fri/fri.go
+++ b/fri/fri.go
@@ -61,7 +61,9 @@ func (f *Chip) GetInstance(zeta gl.QuadraticExtensionVariable) InstanceInfo {
 }
 
 func (f *Chip) ToOpenings(c variables.OpeningSet) Openings {
-	values := c.Constants                         // num_constants + 1
+	// A slice of its own: appending to the caller's could write into memory behind it.
+	values := make([]gl.QuadraticExtensionVariable, 0)
+	values = append(values, c.Constants...)       // num_constants + 1
 	values = append(values, c.PlonkSigmas...)     // num_routed_wires
 	values = append(values, c.Wires...)           // num_wires
 	values = append(values, c.PlonkZs...)         // num_challenges
-- 
2.43.0


From 32f1f327c1e2952b64f8d0d11795392e7d7a354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:17 +0000
Subject: [PATCH 09/10] fix: refuse Poseidon gate identifiers over another
 field

---
 plonk/gates/poseidon_gate.go     | 2 +-
 plonk/gates/poseidon_mds_gate.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/plonk/gates/poseidon_gate.go b/plonk/gates/poseidon_gate.go
index de1821a..22ee9da 100644
--- a/plonk/gates/poseidon_gate.go
+++ b/plonk/gates/poseidon_gate.go
@@ -8,7 +8,7 @@ import (
 	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
 )
 
-var poseidonGateRegex = regexp.MustCompile(`^PoseidonGate(\(PhantomData<[^>]*>\)<WIDTH=12>)?$`)
+var poseidonGateRegex = regexp.MustCompile(`^PoseidonGate(\(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>\)<WIDTH=12>)?$`)
 
 func deserializePoseidonGate(parameters map[string]string) Gate {
 	// Has the format "PoseidonGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"
diff --git a/plonk/gates/poseidon_mds_gate.go b/plonk/gates/poseidon_mds_gate.go
index b85d8dd..1fb02e0 100644
--- a/plonk/gates/poseidon_mds_gate.go
+++ b/plonk/gates/poseidon_mds_gate.go
@@ -8,7 +8,7 @@ import (
 	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
 )
 
-var poseidonMdsGateRegex = regexp.MustCompile(`^PoseidonMdsGate(\(PhantomData<[^>]*>\)<WIDTH=12>)?$`)
+var poseidonMdsGateRegex = regexp.MustCompile(`^PoseidonMdsGate(\(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>\)<WIDTH=12>)?$`)
 
 func deserializePoseidonMdsGate(parameters map[string]string) Gate {
 	// Has the format "PoseidonMdsGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"
-- 
2.43.0


From d5eed5f2cdedeaf8004a42e32b98859a6688e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:46 +0000
Subject: [PATCH 10/10] fix: accept a folding challenge that lies on the
 queried coset

---
 fri/fri.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fri/fri.go b/fri/fri.go
index 4d2dbaa..93594db 100644
--- a/fri/fri.go
+++ b/fri/fri.go
@@ -279,15 +279,16 @@ func (f *Chip) interpolate(
 
 	lookupFromPoints := frontend.Variable(1)
 	for i := 0; i < len(xPoints); i++ {
+		// If x is already within the xPoints, there is nothing to divide by (and the interpolation is not used).
+		difference := f.gl.SubExtension(x, xPoints[i])
+		isPoint := f.gl.IsZero(difference)
 		quotient, hasQuotient := f.gl.DivExtension(
 			barycentricWeights[i],
-			f.gl.SubExtension(
-				x,
-				xPoints[i],
-			),
+			f.gl.Lookup(isPoint, difference, gl.OneExtension()),
 		)
+		f.api.AssertIsEqual(hasQuotient, frontend.Variable(1))
 
-		lookupFromPoints = f.api.Mul(hasQuotient, lookupFromPoints)
+		lookupFromPoints = f.api.Mul(f.api.Sub(1, isPoint), lookupFromPoints)
 
 		sum = f.gl.AddExtension(
 			f.gl.MulExtension(
-- 
2.43.0

