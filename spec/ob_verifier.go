package spec

import (
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
)

// canonAll: every Goldilocks element of the proof is range checked
func (t T) canonAll(tag string, p proofN) {
	es := func(what string, l []E) {
		for i, e := range l {
			t.Canon(tag, what+" "+itoa(i)+" limb 0", e[0])
			t.Canon(tag, what+" "+itoa(i)+" limb 1", e[1])
		}
	}
	es("constant opening", p.constants)
	es("sigma opening", p.sigmas)
	es("wire opening", p.wires)
	es("Z opening", p.zs)
	es("next Z opening", p.zsNext)
	es("partial product opening", p.pps)
	es("quotient opening", p.quos)
	for q, r := range p.rounds {
		for o, l := range r.leaves {
			for i, x := range l.elems {
				t.Canon(tag, "query "+itoa(q)+" oracle "+itoa(o)+" leaf element "+itoa(i), x)
			}
		}
		for i, s := range r.steps {
			es("query "+itoa(q)+" folding step "+itoa(i)+" evaluation", s.evals)
		}
	}
	es("final polynomial coefficient", p.final)
	t.Canon(tag, "proof-of-work witness", p.pow)
}

// spec of the whole verifier circuit
func (t T) verifierSpec(s shape, p proofN, pis []N, v vdN) {
	t.UsesOnly("C06,C19", "challenges used in constraints come from the transcript", "glposeidon", t.verifierFacts(s, p, pis, v)...)
}

// verifierFacts returns the outputs of the transcript
func (t T) verifierFacts(s shape, p proofN, pis []N, v vdN) []N {
	t.canonAll("C01,C19", p)
	pih := spongeGL(pis, 4)
	ch := transcript(s, p, pih, v)
	t.plonkVerify("C19,C10", s, p, ch, pih)
	t.friVerify(friTags{merkle: "C19,C08", fold: "C19,C09", pow: "C19,C09,C06"}, s, p, [][]N{v.cap, p.wiresCap, p.zsCap, p.quoCap}, ch.fri, ch.zeta)
	l := ch.all()
	return append(l, pih...)
}

func (t T) wholeShape(allGates bool) shape {
	s := t.shapes()
	if s.qdf > 1 && s.npp == 0 {
		s.routed = s.qdf
	}
	s.routed = (s.npp + 1) * s.qdf
	if s.wires < s.routed {
		s.wires = s.routed
	}
	s.kis = mkKis(s.routed)
	if allGates {
		t.gateSet(&s)
	} else {
		s.withGates([]gateDef{noopGate(), publicInputGate()}, []gateDef{constantGate(2), arithmeticGate(1), arithmeticExtensionGate(1)})
	}
	return s
}

//ob: props=C01,C06,C08,C09,C10,C12,C19,C03,C20,C17,C21,C14 extra=C19 level=3
func verifierVerify(t T) {
	s := t.wholeShape(false)
	api := t.API("none")
	p, v := t.proof(s), t.vd(s)
	pis := t.syms("pi", s.pis)
	chip := verifier.NewVerifierChip(api, s.common())
	chip.Verify(p.vars(), gvs(pis), v.vars())
	t.verifierSpec(s, p, pis, v)
}

//ob: props=C01,C06,C08,C09,C10,C12,C19,C03,C20,C17,C21,C14 extra=C19 level=3
func verifierDefine(t T) {
	s := t.wholeShape(true)
	api := t.API("none")
	p, v := t.proof(s), t.vd(s)
	pis := t.syms("pi", s.pis)
	c := verifier.ExampleVerifierCircuit{PublicInputs: gvs(pis), Proof: p.vars(), VerifierOnlyCircuitData: v.vars(), CommonCircuitData: s.common()}
	if err := c.Define(api); err != nil {
		t.Fail("C19", "Define fails")
	}
	t.verifierSpec(s, p, pis, v)
}

// Plonky2's standard recursion configuration
//
//ob: props=C01,C06,C08,C09,C10,C12,C19,C03,C20,C17,C21,C14 extra=C19 level=3
func verifierStandard(t T) {
	s := standard()
	s.standardGates()
	s.queries = t.Int("queries", 2, 28)
	api := t.API("none")
	p, v := t.proof(s), t.vd(s)
	pis := t.syms("pi", s.pis)
	c := verifier.ExampleVerifierCircuit{PublicInputs: gvs(pis), Proof: p.vars(), VerifierOnlyCircuitData: v.vars(), CommonCircuitData: s.common()}
	if err := c.Define(api); err != nil {
		t.Fail("C19", "Define fails")
	}
	t.verifierSpec(s, p, pis, v)
}

// public inputs that are more or fewer than the circuit data declares are either refused or
// constrained like any others: each of them is hashed into the statement
//
//ob: props=C19,C06,C01 extra=C19 level=3
func verifierPublicInputs(t T) {
	s := t.wholeShape(false)
	api := t.API("none")
	p, v := t.proof(s), t.vd(s)
	n := s.pis + t.Int("more than declared", 1, 8, 13, -1, -3)
	if n < 0 {
		n = 0
	}
	pis := t.syms("pi", n)
	whole := t.Str("entry", "Verify", "Define") == "Define"
	o := t.Outcome(func() {
		if whole {
			c := verifier.ExampleVerifierCircuit{PublicInputs: gvs(pis), Proof: p.vars(), VerifierOnlyCircuitData: v.vars(), CommonCircuitData: s.common()}
			if err := c.Define(api); err != nil {
				panic(err)
			}
			return
		}
		verifier.NewVerifierChip(api, s.common()).Verify(p.vars(), gvs(pis), v.vars())
	})
	if o != "ok" {
		t.IgnoreEffects()
		return
	}
	t.verifierSpec(s, p, pis, v)
}
