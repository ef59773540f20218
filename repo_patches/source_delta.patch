From 50ebe0fffcb1ff807c7b5786c8eef5141bb9fd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:15 +0000
Subject: [PATCH 1/6] fix: perform range checks when the builder has a native
 range checker

The switch in rangeCheckerCheck had an empty case for NATIVE_RANGE_CHECKER (Go
does not fall through), so every range check was silently dropped for builders
that implement frontend.Rangechecker.
---
 goldilocks/base.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/goldilocks/base.go b/goldilocks/base.go
index ed63eb6..3433e48 100644
--- a/goldilocks/base.go
+++ b/goldilocks/base.go
@@ -410,8 +410,7 @@ func (p *Chip) AssertIsEqual(x, y Variable) {
 
 func (p *Chip) rangeCheckerCheck(x frontend.Variable, nbBits int) {
 	switch p.rangeCheckerType {
-	case NATIVE_RANGE_CHECKER:
-	case BIT_DECOMP_RANGE_CHECKER:
+	case NATIVE_RANGE_CHECKER, BIT_DECOMP_RANGE_CHECKER:
 		p.rangeChecker.Check(x, nbBits)
 	case COMMIT_RANGE_CHECKER:
 		p.collectedMutex.Lock()
-- 
2.43.0


From 05278a306fd118cbce501df7e4f1ca51bf3db4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:15 +0000
Subject: [PATCH 2/6] fix: bound the S-box reduction quotients so they cannot
 wrap the native field

sBoxMonomial allowed quotients of 192 bits. quotient*modulus+remainder then
reaches 2^256, beyond the order of BN254's scalar field, so the equation
x = quotient*modulus + remainder could be satisfied modulo that order by a wrong
remainder. The reduced values are below 2^192, so 128 bits suffice.
---
 poseidon/goldilocks.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poseidon/goldilocks.go b/poseidon/goldilocks.go
index 93e1ebe..45b363d 100644
--- a/poseidon/goldilocks.go
+++ b/poseidon/goldilocks.go
@@ -138,10 +138,10 @@ func (c *GoldilocksChip) ConstantLayerExtension(state GoldilocksStateExtension,
 func (c *GoldilocksChip) sBoxMonomial(x gl.Variable) gl.Variable {
 	x2 := c.gl.MulNoReduce(x, x)
 	x3 := c.gl.MulNoReduce(x, x2)
-	x3 = c.gl.ReduceWithMaxBits(x3, 192)
+	x3 = c.gl.ReduceWithMaxBits(x3, 128)
 	x6 := c.gl.MulNoReduce(x3, x3)
 	x7 := c.gl.MulNoReduce(x, x6)
-	return c.gl.ReduceWithMaxBits(x7, 192)
+	return c.gl.ReduceWithMaxBits(x7, 128)
 }
 
 func (c *GoldilocksChip) SBoxMonomialExtension(x gl.QuadraticExtensionVariable) gl.QuadraticExtensionVariable {
-- 
2.43.0


From c5ff74384890e87305e8d1dc9671eaea30b4c247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:13 +0000
Subject: [PATCH 3/6] fix: refuse gate identifiers that only contain a known
 gate's identifier

---
 plonk/gates/gates.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plonk/gates/gates.go b/plonk/gates/gates.go
index fc76580..3d630e7 100644
--- a/plonk/gates/gates.go
+++ b/plonk/gates/gates.go
@@ -37,7 +37,8 @@ var gateRegexHandlers = map[*regexp.Regexp]func(parameters map[string]string) Ga
 func GateInstanceFromId(gateId string) Gate {
 	for regex, handler := range gateRegexHandlers {
 		matches := regex.FindStringSubmatch(gateId)
-		if matches != nil {
+		// The whole identifier has to match: a gate whose name merely contains a known one is unknown.
+		if matches != nil && matches[0] == gateId {
 			parameters := make(map[string]string)
 			for i, name := range regex.SubexpNames() {
 				if i != 0 && name != "" {
-- 
2.43.0


From 40fe6bed53f7a95c0c142112978566da420beca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:22 +0000
Subject: [PATCH 4/6] fix: refuse range checks requested after the collected
 ones were enforced

---
 goldilocks/base.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/goldilocks/base.go b/goldilocks/base.go
index 3433e48..7ef98c1 100644
--- a/goldilocks/base.go
+++ b/goldilocks/base.go
@@ -100,6 +100,7 @@ type Chip struct {
 	rangeCheckerType RangeCheckerType
 
 	rangeCheckCollected []checkedVariable // These field are used if rangeCheckerType == commit_range_checker
+	collectedChecked    bool              // set once the collected range checks have been enforced
 	collectedMutex      sync.Mutex
 }
 
@@ -415,6 +416,9 @@ func (p *Chip) rangeCheckerCheck(x frontend.Variable, nbBits int) {
 	case COMMIT_RANGE_CHECKER:
 		p.collectedMutex.Lock()
 		defer p.collectedMutex.Unlock()
+		if p.collectedChecked {
+			panic("range check requested after the collected range checks have been enforced")
+		}
 		p.rangeCheckCollected = append(p.rangeCheckCollected, checkedVariable{v: x, bits: nbBits})
 	}
 }
@@ -424,6 +428,10 @@ func (p *Chip) checkCollected(api frontend.API) error {
 		panic("checkCollected should only be called when using the commit range checker")
 	}
 
+	p.collectedMutex.Lock()
+	defer p.collectedMutex.Unlock()
+	p.collectedChecked = true
+
 	nbBits := getOptimalBasewidth(p.api, p.rangeCheckCollected)
 	if nbBits != EXPECTED_OPTIMAL_BASEWIDTH {
 		panic("nbBits should be " + strconv.Itoa(EXPECTED_OPTIMAL_BASEWIDTH))
-- 
2.43.0


From 4157747a5b9d56c6c90860a82bf7540a630d65db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:32 +0000
Subject: [PATCH 5/6] fix: refuse proofs with more folding commitments than
 folding steps

---
 fri/fri_utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fri/fri_utils.go b/fri/fri_utils.go
index fe3b5a6..90d0093 100644
--- a/fri/fri_utils.go
+++ b/fri/fri_utils.go
@@ -172,6 +172,9 @@ func validateFriProofShape(proof *variables.FriProof, instance InstanceInfo, par
 	finalPoly := proof.FinalPoly
 
 	capHeight := params.Config.CapHeight
+	if len(commitPhaseMerkleCaps) != len(params.ReductionArityBits) {
+		panic("length of commit_phase_merkle_caps != params.reduction_arity_bits")
+	}
 	for _, cap := range commitPhaseMerkleCaps {
 		if 1<<capHeight != len(cap) {
 			panic("config cap_height does not match commit_phase_merkle_caps")
-- 
2.43.0


From 5e2179d50e15e19a0ed62ea0677f6eb3237d6fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:27 +0000
Subject: [PATCH 6/6] fix: groth16 benchmark with -dummy -save called
 ExportSolidity on a nil verifying key

---
 benchmark.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/benchmark.go b/benchmark.go
index 1c7e862..40d716d 100644
--- a/benchmark.go
+++ b/benchmark.go
@@ -230,10 +230,10 @@ func groth16Proof(r1cs constraint.ConstraintSystem, circuitName string, dummy bo
 			fVK, _ := os.Create("verifying.key")
 			vk.WriteTo(fVK)
 			fVK.Close()
-		}
 
-		fSolidity, _ := os.Create("proof.sol")
-		err = vk.ExportSolidity(fSolidity)
+			fSolidity, _ := os.Create("proof.sol")
+			err = vk.ExportSolidity(fSolidity)
+		}
 	}
 
 	fmt.Println("Generating witness", time.Now())
-- 
2.43.0

