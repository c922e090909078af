From ad7453cfed9c19f95e71b8a61cdbb510c7a03e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:03 +0000
Subject: [PATCH 1/9] fix: enforce range checks when the native range checker
 is selected

Go's switch does not fall through: the empty NATIVE_RANGE_CHECKER case skipped
every range check on backends that provide their own range checker.
---
 goldilocks/base.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/goldilocks/base.go b/goldilocks/base.go
index ed63eb6..3433e48 100644
--- a/goldilocks/base.go
+++ b/goldilocks/base.go
@@ -410,8 +410,7 @@ func (p *Chip) AssertIsEqual(x, y Variable) {
 
 func (p *Chip) rangeCheckerCheck(x frontend.Variable, nbBits int) {
 	switch p.rangeCheckerType {
-	case NATIVE_RANGE_CHECKER:
-	case BIT_DECOMP_RANGE_CHECKER:
+	case NATIVE_RANGE_CHECKER, BIT_DECOMP_RANGE_CHECKER:
 		p.rangeChecker.Check(x, nbBits)
 	case COMMIT_RANGE_CHECKER:
 		p.collectedMutex.Lock()
-- 
2.43.0


From c5a358770b93240c241e8c5210523ca44fda1f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:43 +0000
Subject: [PATCH 2/9] fix: bound the Poseidon S-box quotients so that they
 cannot wrap around the outer field

---
 poseidon/goldilocks.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poseidon/goldilocks.go b/poseidon/goldilocks.go
index 93e1ebe..45b363d 100644
--- a/poseidon/goldilocks.go
+++ b/poseidon/goldilocks.go
@@ -138,10 +138,10 @@ func (c *GoldilocksChip) ConstantLayerExtension(state GoldilocksStateExtension,
 func (c *GoldilocksChip) sBoxMonomial(x gl.Variable) gl.Variable {
 	x2 := c.gl.MulNoReduce(x, x)
 	x3 := c.gl.MulNoReduce(x, x2)
-	x3 = c.gl.ReduceWithMaxBits(x3, 192)
+	x3 = c.gl.ReduceWithMaxBits(x3, 128)
 	x6 := c.gl.MulNoReduce(x3, x3)
 	x7 := c.gl.MulNoReduce(x, x6)
-	return c.gl.ReduceWithMaxBits(x7, 192)
+	return c.gl.ReduceWithMaxBits(x7, 128)
 }
 
 func (c *GoldilocksChip) SBoxMonomialExtension(x gl.QuadraticExtensionVariable) gl.QuadraticExtensionVariable {
-- 
2.43.0


From d3a1f59c8615bb3e73635ba7e9197cf2cd58e165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:10 +0000
Subject: [PATCH 3/9] fix: refuse gate identifiers that merely contain a
 supported gate's identifier

---
 plonk/gates/gates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plonk/gates/gates.go b/plonk/gates/gates.go
index fc76580..6706013 100644
--- a/plonk/gates/gates.go
+++ b/plonk/gates/gates.go
@@ -37,7 +37,7 @@ var gateRegexHandlers = map[*regexp.Regexp]func(parameters map[string]string) Ga
 func GateInstanceFromId(gateId string) Gate {
 	for regex, handler := range gateRegexHandlers {
 		matches := regex.FindStringSubmatch(gateId)
-		if matches != nil {
+		if matches != nil && matches[0] == gateId {
 			parameters := make(map[string]string)
 			for i, name := range regex.SubexpNames() {
 				if i != 0 && name != "" {
-- 
2.43.0


From 80c25989504eeff901fa545fe7b41bc19a7736c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:32 +0000
Subject: [PATCH 4/9] fix: fold at a challenge that is itself a point of the
 queried coset

interpolate has a lookup for this case, but the division by zero in the
barycentric sum made the circuit unsatisfiable before it was reached.
---
 fri/fri.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fri/fri.go b/fri/fri.go
index 2e37f0f..3e48ab5 100644
--- a/fri/fri.go
+++ b/fri/fri.go
@@ -277,15 +277,16 @@ func (f *Chip) interpolate(
 
 	lookupFromPoints := frontend.Variable(1)
 	for i := 0; i < len(xPoints); i++ {
+		// If x is one of the points, divide by one instead of zero. The sum is then discarded below.
+		difference := f.gl.SubExtension(x, xPoints[i])
+		isPoint := f.gl.IsZero(difference)
 		quotient, hasQuotient := f.gl.DivExtension(
 			barycentricWeights[i],
-			f.gl.SubExtension(
-				x,
-				xPoints[i],
-			),
+			f.gl.Lookup(isPoint, difference, gl.OneExtension()),
 		)
+		f.api.AssertIsEqual(hasQuotient, frontend.Variable(1))
 
-		lookupFromPoints = f.api.Mul(hasQuotient, lookupFromPoints)
+		lookupFromPoints = f.api.Mul(f.api.Sub(1, isPoint), lookupFromPoints)
 
 		sum = f.gl.AddExtension(
 			f.gl.MulExtension(
-- 
2.43.0


From bf272a8e00633d42240afcd1e9e16d09c1a327cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:23 +0000
Subject: [PATCH 5/9] fix: do not append the openings into the spare capacity
 of the caller's constants

---
 fri/fri.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fri/fri.go b/fri/fri.go
index 3e48ab5..d30c9b3 100644
--- a/fri/fri.go
+++ b/fri/fri.go
@@ -61,7 +61,8 @@ func (f *Chip) GetInstance(zeta gl.QuadraticExtensionVariable) InstanceInfo {
 }
 
 func (f *Chip) ToOpenings(c variables.OpeningSet) Openings {
-	values := c.Constants                         // num_constants + 1
+	values := make([]gl.QuadraticExtensionVariable, 0, len(c.Constants)+len(c.PlonkSigmas)+len(c.Wires))
+	values = append(values, c.Constants...)       // num_constants + 1
 	values = append(values, c.PlonkSigmas...)     // num_routed_wires
 	values = append(values, c.Wires...)           // num_wires
 	values = append(values, c.PlonkZs...)         // num_challenges
-- 
2.43.0


From 19414213f1bdacfdb76700ffecc629efab4e7cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:33 +0000
Subject: [PATCH 6/9] fix: partial products whose last chunk is shorter than
 the quotient degree factor

Plonky2 splits the routed wires in chunks of quotient_degree_factor, the last of which
may be shorter. checkPartialProducts indexed past the end of the list in that case, so no
verifier could be built for such a circuit.
---
 plonk/plonk.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plonk/plonk.go b/plonk/plonk.go
index ac2348c..962ef2b 100644
--- a/plonk/plonk.go
+++ b/plonk/plonk.go
@@ -103,7 +103,8 @@ func (p *PlonkChip) checkPartialProducts(
 		ppStartIdx := i * quotDegreeFactor
 		numeProduct := numerators[ppStartIdx]
 		denoProduct := denominators[ppStartIdx]
-		for j := uint64(1); j < quotDegreeFactor; j++ {
+		// The last chunk is shorter when quotDegreeFactor does not divide the number of routed wires.
+		for j := uint64(1); j < quotDegreeFactor && ppStartIdx+j < uint64(len(numerators)); j++ {
 			numeProduct = glApi.MulExtension(numeProduct, numerators[ppStartIdx+j])
 			denoProduct = glApi.MulExtension(denoProduct, denominators[ppStartIdx+j])
 		}
-- 
2.43.0


From 2115f4d375b8ffa4a0427cd9248032ed2c1cf398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 7/9] fix: saving artifacts of a dummy Groth16 setup crashes

A dummy setup has no verifying key, so there is no Solidity verifier to export.
---
 benchmark.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/benchmark.go b/benchmark.go
index 1c7e862..40d716d 100644
--- a/benchmark.go
+++ b/benchmark.go
@@ -230,10 +230,10 @@ func groth16Proof(r1cs constraint.ConstraintSystem, circuitName string, dummy bo
 			fVK, _ := os.Create("verifying.key")
 			vk.WriteTo(fVK)
 			fVK.Close()
-		}
 
-		fSolidity, _ := os.Create("proof.sol")
-		err = vk.ExportSolidity(fSolidity)
+			fSolidity, _ := os.Create("proof.sol")
+			err = vk.ExportSolidity(fSolidity)
+		}
 	}
 
 	fmt.Println("Generating witness", time.Now())
-- 
2.43.0


From e277084597997fd1495431a71ad8148917a6d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:55 +0000
Subject: [PATCH 8/9] fix: check the sizes of the public inputs, openings and
 caps of a proof

Verify accepted proofs whose lists differ in length from what the common
circuit data fixes, as long as hash and transcript agree: public inputs
extended or cut so that their unpadded hash stays the same, surplus zero
openings, or openings moved to the neighbouring list.
---
 verifier/verifier.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/verifier/verifier.go b/verifier/verifier.go
index 0d47f23..fa86c55 100644
--- a/verifier/verifier.go
+++ b/verifier/verifier.go
@@ -1,6 +1,8 @@
 package verifier
 
 import (
+	"fmt"
+
 	"github.com/consensys/gnark/frontend"
 	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
 	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
@@ -140,11 +142,38 @@ func (c *VerifierChip) rangeCheckProof(proof variables.Proof) {
 	c.glChip.RangeCheck(proof.OpeningProof.PowWitness)
 }
 
+// validateProofShape checks that the public inputs, the openings and the caps have the sizes that the common
+// circuit data fixes, as plonky2's validate_proof_with_pis_shape does.  The parts of the opening proof are
+// checked by the fri chip.
+func (c *VerifierChip) validateProofShape(proof variables.Proof, publicInputs []gl.Variable) {
+	config := c.commonData.Config
+	capLength := uint64(1) << config.FriConfig.CapHeight
+	openings := proof.Openings
+
+	assertLength := func(name string, length int, expected uint64) {
+		if uint64(length) != expected {
+			panic(fmt.Sprintf("%s: length is %d, expected %d", name, length, expected))
+		}
+	}
+	assertLength("public inputs", len(publicInputs), c.commonData.NumPublicInputs)
+	assertLength("wires cap", len(proof.WiresCap), capLength)
+	assertLength("plonk zs partial products cap", len(proof.PlonkZsPartialProductsCap), capLength)
+	assertLength("quotient polys cap", len(proof.QuotientPolysCap), capLength)
+	assertLength("constants openings", len(openings.Constants), c.commonData.NumConstants)
+	assertLength("plonk sigmas openings", len(openings.PlonkSigmas), config.NumRoutedWires)
+	assertLength("wires openings", len(openings.Wires), config.NumWires)
+	assertLength("plonk zs openings", len(openings.PlonkZs), config.NumChallenges)
+	assertLength("plonk zs next openings", len(openings.PlonkZsNext), config.NumChallenges)
+	assertLength("partial products openings", len(openings.PartialProducts), config.NumChallenges*c.commonData.NumPartialProducts)
+	assertLength("quotient polys openings", len(openings.QuotientPolys), config.NumChallenges*c.commonData.QuotientDegreeFactor)
+}
+
 func (c *VerifierChip) Verify(
 	proof variables.Proof,
 	publicInputs []gl.Variable,
 	verifierData variables.VerifierOnlyCircuitData,
 ) {
+	c.validateProofShape(proof, publicInputs)
 	c.rangeCheckProof(proof)
 
 	// Generate the parts of the witness that is for the plonky2 proof input
-- 
2.43.0


From 58b2ee93b0f0781328a80c4f531173fb39222777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 9/9] fix: give the commit range checker a store of its own

gnark's commit range checker is shared by all range checks of a circuit and
chooses one base width for all of them.  checkCollected computed the width
from this package's checks only, so other checks in the same circuit could
change it: the 32-bit checks then accepted 34-bit values, unnoticed.  And a
checker that another gadget had created before was already closed when the
collected checks were added.
---
 goldilocks/base.go                |  4 +++-
 goldilocks/range_checker_utils.go | 36 +++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/goldilocks/base.go b/goldilocks/base.go
index 3433e48..dc65976 100644
--- a/goldilocks/base.go
+++ b/goldilocks/base.go
@@ -143,14 +143,16 @@ func New(api frontend.API) *Chip {
 	if c.rangeCheckerType == BIT_DECOMP_RANGE_CHECKER {
 		c.rangeChecker = bitDecompChecker{api: api}
 	} else {
+		rangeCheckerApi := api
 		if c.rangeCheckerType == COMMIT_RANGE_CHECKER {
 			api.Compiler().Defer(c.checkCollected)
+			rangeCheckerApi = newOwnStoreAPI(api)
 		}
 
 		// If we are using the native or commit range checker, then have gnark's range checker gadget's New function create it.
 		// Also, note that the range checker will need to be created AFTER the c.checkCollected function is deferred.
 		// The commit range checker gadget will also call a deferred function, which needs to be called after c.checkCollected.
-		c.rangeChecker = rangecheck.New(api)
+		c.rangeChecker = rangecheck.New(rangeCheckerApi)
 	}
 
 	poseidonChips[api] = c
diff --git a/goldilocks/range_checker_utils.go b/goldilocks/range_checker_utils.go
index 594d83e..df4a336 100644
--- a/goldilocks/range_checker_utils.go
+++ b/goldilocks/range_checker_utils.go
@@ -87,3 +87,39 @@ func gnarkRangeCheckerSelector(api frontend.API) RangeCheckerType {
 		return BIT_DECOMP_RANGE_CHECKER
 	}
 }
+
+// ownStoreAPI is an api whose compiler has a key-value store of its own.
+//
+// gnark's commit range checker is a singleton in the compiler's key-value store: it is shared with all other range
+// checks of the circuit, chooses its base width for all of them together, and is closed before our collected checks
+// are added if another gadget has created it first.  The checks of this package need a checker whose base width is
+// the one that checkCollected computes, so that their widths are aligned with it.
+type ownStoreAPI struct {
+	frontend.API
+	compiler ownStoreCompiler
+}
+
+type ownStoreCompiler struct {
+	frontend.Compiler
+	store map[any]any
+}
+
+func newOwnStoreAPI(api frontend.API) *ownStoreAPI {
+	return &ownStoreAPI{API: api, compiler: ownStoreCompiler{Compiler: api.Compiler(), store: make(map[any]any)}}
+}
+
+func (a *ownStoreAPI) Compiler() frontend.Compiler {
+	return a.compiler
+}
+
+func (a *ownStoreAPI) Commit(v ...frontend.Variable) (frontend.Variable, error) {
+	return a.API.(frontend.Committer).Commit(v...)
+}
+
+func (c ownStoreCompiler) SetKeyValue(key, value any) {
+	c.store[key] = value
+}
+
+func (c ownStoreCompiler) GetKeyValue(key any) any {
+	return c.store[key]
+}
-- 
2.43.0

