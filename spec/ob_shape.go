package spec

import (
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
)

// Proof shapes that contradict the circuit's parameters, one contradiction at a time, and
// unsupported settings.

func (t T) smallShape() shape {
	s := shape{wires: 6, routed: 4, constants: 3, challenges: 2, npp: 1, qdf: 2, degree: 10, rate: 3, cap: 4, pow: 16, queries: 2, arities: []int{4, 4}, pis: 3}
	s.kis = mkKis(s.routed)
	s.withGates([]gateDef{noopGate(), publicInputGate()}, []gateDef{constantGate(2), arithmeticGate(1)})
	return s
}

// resize changes the length of a list
func resizeH(l []poseidon.BN254HashOut, n int) []poseidon.BN254HashOut {
	var r []poseidon.BN254HashOut
	for i := 0; i < n; i++ {
		if i < len(l) {
			r = append(r, l[i])
		} else {
			r = append(r, l[len(l)-1])
		}
	}
	return r
}

func (t T) aborts(what string, c types.CommonCircuitData, p variables.Proof, pis []N, v variables.VerifierOnlyCircuitData, field string) {
	t.Panics("C14", "the build accepts "+what, func() {
		api := t.API("none")
		if field != "" {
			t.SetField(api, field)
		}
		if t.Int("through", 0, 1) == 0 {
			circuit := verifier.ExampleVerifierCircuit{PublicInputs: gvs(pis), Proof: p, VerifierOnlyCircuitData: v, CommonCircuitData: c}
			if err := circuit.Define(api); err != nil {
				panic(err)
			}
		} else {
			verifier.NewVerifierChip(api, c).Verify(p, gvs(pis), v)
		}
	})
	t.IgnoreEffects()
}

//ob: props=C14,C19 extra=C14 level=3
func shapeCaps(t T) {
	s := t.smallShape()
	p, v, pis := t.proof(s).vars(), t.vd(s).vars(), t.syms("pi", s.pis)
	n := t.Int("cap size", 0, 1, 8, 15, 17, 32)
	what := ""
	switch t.Int("cap", 0, 1, 2, 3, 4, 5) {
	case 0:
		what = "constants and sigmas cap"
		v.ConstantSigmasCap = resizeH(v.ConstantSigmasCap, n)
	case 1:
		what = "wires cap"
		p.WiresCap = resizeH(p.WiresCap, n)
	case 2:
		what = "permutation cap"
		p.PlonkZsPartialProductsCap = resizeH(p.PlonkZsPartialProductsCap, n)
	case 3:
		what = "quotient cap"
		p.QuotientPolysCap = resizeH(p.QuotientPolysCap, n)
	case 4:
		what = "first folding commitment"
		p.OpeningProof.CommitPhaseMerkleCaps[0] = resizeH(p.OpeningProof.CommitPhaseMerkleCaps[0], n)
	case 5:
		what = "last folding commitment"
		p.OpeningProof.CommitPhaseMerkleCaps[1] = resizeH(p.OpeningProof.CommitPhaseMerkleCaps[1], n)
	}
	t.aborts("a "+what+" of "+itoa(n)+" entries", s.common(), p, pis, v, "")
}

//ob: props=C14,C19 extra=C14 level=3
func shapeCounts(t T) {
	s := t.smallShape()
	p, v, pis := t.proof(s).vars(), t.vd(s).vars(), t.syms("pi", s.pis)
	c := s.common()
	what := ""
	op := &p.OpeningProof
	q := t.Int("query", 0, 1)
	r := &op.QueryRoundProofs[q]
	switch t.Int("count", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21) {
	case 0:
		what = "three oracles in a query"
		r.InitialTreesProof.EvalsProofs = r.InitialTreesProof.EvalsProofs[:3]
	case 1:
		what = "five oracles in a query"
		r.InitialTreesProof.EvalsProofs = append(r.InitialTreesProof.EvalsProofs, r.InitialTreesProof.EvalsProofs[3])
	case 2:
		what = "no oracle in a query"
		r.InitialTreesProof.EvalsProofs = nil
	case 3:
		what = "one folding step in a query"
		r.Steps = r.Steps[:1]
	case 4:
		what = "three folding steps in a query"
		r.Steps = append(r.Steps, r.Steps[1])
	case 5:
		what = "no folding step in a query"
		r.Steps = nil
	case 6:
		what = "one query"
		op.QueryRoundProofs = op.QueryRoundProofs[q : q+1]
	case 7:
		what = "three queries"
		op.QueryRoundProofs = append(op.QueryRoundProofs, op.QueryRoundProofs[q])
	case 8:
		what = "no query"
		op.QueryRoundProofs = nil
	case 9:
		what = "one folding commitment"
		op.CommitPhaseMerkleCaps = op.CommitPhaseMerkleCaps[:1]
	case 10:
		what = "three folding commitments"
		op.CommitPhaseMerkleCaps = append(op.CommitPhaseMerkleCaps, op.CommitPhaseMerkleCaps[1])
	case 11:
		what = "a final polynomial of one coefficient"
		op.FinalPoly.Coeffs = op.FinalPoly.Coeffs[:1]
	case 12:
		what = "a final polynomial of five coefficients"
		op.FinalPoly.Coeffs = append(op.FinalPoly.Coeffs, op.FinalPoly.Coeffs[0])
	case 13:
		what = "an empty final polynomial"
		op.FinalPoly.Coeffs = nil
	case 14:
		what = "a final polynomial of eight coefficients"
		op.FinalPoly.Coeffs = append(op.FinalPoly.Coeffs, op.FinalPoly.Coeffs...)
	case 15:
		what = "fewer queries than the parameters say"
		c.Config.FriConfig.NumQueryRounds = 3
		c.FriParams.Config.NumQueryRounds = 3
	case 16:
		what = "more queries than the parameters say"
		c.Config.FriConfig.NumQueryRounds = 1
		c.FriParams.Config.NumQueryRounds = 1
	case 17:
		what = "more folding steps than the parameters say"
		c.FriParams.ReductionArityBits = []uint64{4}
	case 18:
		what = "fewer folding steps than the parameters say"
		c.FriParams.ReductionArityBits = []uint64{4, 4, 4}
	case 19:
		what = "a final polynomial longer than the parameters say"
		c.FriParams.DegreeBits = 9
		c.DegreeBits = 9
		c.FriParams.Config.RateBits = 4
		c.Config.FriConfig.RateBits = 4
	case 20:
		what = "a query with the steps in both orders of size"
		r.Steps[0], r.Steps[1] = r.Steps[1], r.Steps[0]
	case 21:
		what = "a query with two oracles exchanged"
		e := r.InitialTreesProof.EvalsProofs
		e[0], e[3] = e[3], e[0]
	}
	t.aborts(what, c, p, pis, v, "")
}

//ob: props=C14,C19 extra=C14 level=3
func shapeSizes(t T) {
	s := t.smallShape()
	p, v, pis := t.proof(s).vars(), t.vd(s).vars(), t.syms("pi", s.pis)
	what := ""
	r := &p.OpeningProof.QueryRoundProofs[t.Int("query", 0, 1)]
	d := t.Int("change", -2, -1, 1, 2)
	switch t.Int("list", 0, 1, 2, 3) {
	case 0:
		o := t.Int("oracle", 0, 1, 2, 3)
		e := &r.InitialTreesProof.EvalsProofs[o]
		n := len(e.Elements) + d
		what = "a leaf of " + itoa(n) + " elements in oracle " + itoa(o)
		for len(e.Elements) < n {
			e.Elements = append(e.Elements, e.Elements[0])
		}
		e.Elements = e.Elements[:n]
	case 1:
		o := t.Int("oracle", 0, 1, 2, 3)
		e := &r.InitialTreesProof.EvalsProofs[o]
		n := len(e.MerkleProof.Siblings) + d
		what = "a path of length " + itoa(n) + " in oracle " + itoa(o)
		e.MerkleProof.Siblings = resizeH(e.MerkleProof.Siblings, n)
	case 2:
		o := t.Int("step", 0, 1)
		e := &r.Steps[o]
		n := len(e.Evals) + d
		if d == 2 {
			n = 32
		}
		if d == -2 {
			n = 8
		}
		what = itoa(n) + " evaluations in folding step " + itoa(o)
		for len(e.Evals) < n {
			e.Evals = append(e.Evals, e.Evals[0])
		}
		e.Evals = e.Evals[:n]
	case 3:
		o := t.Int("step", 0, 1)
		e := &r.Steps[o]
		n := len(e.MerkleProof.Siblings) + d
		if n < 0 {
			n = 6
		}
		what = "a path of length " + itoa(n) + " in folding step " + itoa(o)
		e.MerkleProof.Siblings = resizeH(e.MerkleProof.Siblings, n)
	}
	t.aborts(what, s.common(), p, pis, v, "")
}

//ob: props=C14 extra=C14 level=3
func unsupportedSettings(t T) {
	s := t.smallShape()
	field := ""
	what := ""
	switch t.Int("setting", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9) {
	case 0:
		a := t.Int("arity bits", 1, 2, 3, 5, 6)
		switch t.Int("where", 0, 1, 2) {
		case 0:
			s.arities = []int{a}
		case 1:
			s.arities = []int{4, a}
		case 2:
			s.arities = []int{a, 4}
		}
		s.degree = 12
		what = "an arity of " + itoa(1<<uint(a))
	case 1:
		s.cap = t.Int("cap height", 0, 1, 2, 3, 5, 6)
		if t.Int("folding", 0, 1) == 0 {
			s.arities = nil
			s.degree = 6
		} else {
			s.degree = 12
		}
		what = "a cap height of " + itoa(s.cap)
	case 2:
		what = "the BLS12-381 scalar field"
		field = "52435875175126190479447740508185965837690552500527637822603658699938581184513"
	case 3:
		what = "the BLS12-377 scalar field"
		field = "8444461749428370424248824938781546531375899335154063827935233455917409239041"
	case 4:
		what = "the Goldilocks field"
		field = "18446744069414584321"
	case 5:
		what = "the BN254 base field"
		field = "21888242871839275222246405745257275088696311157297823662689037894645226208583"
	case 6:
		what = "fewer gate constraint slots than the gates have constraints"
		s.ngc = s.ngc - 1
	case 7:
		what = "no gate constraint slot"
		s.ngc = 0
	case 8:
		what = "a gate the verifier does not know"
		s.gates[1] = t.Str("gate", "LookupGate {num_slots: 40, lut_hash: [0]}", "AdditionGate { num_ops: 20 }", "ComparisonGate { num_bits: 32, num_chunks: 16 }")
	case 9:
		what = "a gate identifier with a missing parameter"
		s.gates[3] = "ArithmeticGate { }"
	}
	p, v, pis := t.proof(s).vars(), t.vd(s).vars(), t.syms("pi", s.pis)
	t.aborts(what, s.common(), p, pis, v, field)
}

var _ frontend.Variable
