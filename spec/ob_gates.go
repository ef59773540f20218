package spec

import (
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
)

func hashOut(p []N) poseidon.GoldilocksHashOut {
	return poseidon.GoldilocksHashOut{gv(p[0]), gv(p[1]), gv(p[2]), gv(p[3])}
}

func (t T) eqConstraints(tag, what string, got []gl.QuadraticExtensionVariable, want []E) {
	t.EqualInt(tag, what+": number of constraints", uint64(len(got)), uint64(len(want)))
	for i := 0; i < len(got) && i < len(want); i++ {
		t.eqE(tag, what+": constraint "+itoa(i), got[i], want[i])
	}
}

// every gate built from its parameters evaluates Plonky2's constraints
//
//ob: props=C11,C03,C20,C17,C21,C19,C14 extra=C11 level=1
func gateEval(t T) {
	api := t.API("none")
	d := t.gateDef(false)
	spare := t.Int("spare wires", 0, 3)
	c, w := t.symEs("const", d.consts+spare), t.symEs("wire", d.wires+spare)
	pih := t.syms("pih", 4)
	g := d.make()
	v := gates.NewEvaluationVars(qvs(c), qvs(w), hashOut(pih))
	got := g.EvalUnfiltered(api, gl.New(api), *v)
	t.eqConstraints("C11", d.id, got, d.ref(c, w, pih))
}

// every identifier yields the gate with the parameters written in it
//
//ob: props=C12,C11,C21,C19 extra=C12 level=1
func gateFromID(t T) {
	api := t.API("none")
	d := t.gateDef(false)
	c, w := t.symEs("const", d.consts), t.symEs("wire", d.wires)
	pih := t.syms("pih", 4)
	g := gates.GateInstanceFromId(d.id)
	for _, k := range []int{3, 5, 7, 9, 12} {
		t.MapRotate(k)
		t.DeepEqual("C12,C21", d.id+": the gate depends on the order of a map iteration", gates.GateInstanceFromId(d.id), g)
	}
	t.MapRotate(0)
	v := gates.NewEvaluationVars(qvs(c), qvs(w), hashOut(pih))
	got := g.EvalUnfiltered(api, gl.New(api), *v)
	t.eqConstraints("C12", d.id, got, d.ref(c, w, pih))
}

// identifiers of other gates are refused, whatever the iteration order
//
//ob: props=C12,C14,C19 extra=C12 level=1
func gateUnknown(t T) {
	t.MapRotate(t.Int("map iteration", 0, 3, 6, 9, 12))
	id := t.Str("id", "", "Gate", "LookupGate { num_slots: 40 }", "U32ArithmeticGate { num_ops: 3, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }",
		"ComparisonGate { num_bits: 32, num_chunks: 16, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>",
		"XArithmeticGate { num_ops: 4 }", "ArithmeticGate { num_ops: 4, x: 1 }", "ArithmeticGate { num_ops: x }", "ArithmeticGate { num_ops: -1 }", "ArithmeticGate",
		"MyNoopGate", "noopgate", "XPublicInputGate", "XConstantGate { num_consts: 2 }", "XMulExtensionGate { num_ops: 13 }", "Poseidon2Gate"+width12, "PoseidonMds"+width12,
		"XReducingGate { num_coeffs: 4 }", "XBaseSumGate { num_limbs: 63 } + Base: 2", "BaseSumGate { num_limbs: 63 }", "InterpolationGate { subgroup_bits: 4, "+phantom,
		"RandomAccessGate { bits: 4, num_copies: 4, num_extra_constants: 2, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=4>",
		"ExponentiationGate { num_power_bits: 67, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=4>",
		"CosetInterpolationGate { subgroup_bits: 4, degree: 1, barycentric_weights: [1, 2], "+phantom,
		"CosetInterpolationGate { subgroup_bits: 4, degree: 6, barycentric_weights: [99999999999999999999999], "+phantom,
	)
	t.Panics("C12", "unknown gate identifier \""+id+"\" is accepted", func() { gates.GateInstanceFromId(id) })
}

// filtered accumulation
//
//ob: props=C12,C10,C11,C03,C20,C17,C21,C19 extra=C12 level=1
func gateFilter(t T) {
	api := t.API("none")
	var s shape
	t.gateSet(&s)
	c, w := t.symEs("const", s.constants), t.symEs("wire", s.wires)
	pih := t.syms("pih", 4)
	var gs []gates.Gate
	for _, d := range s.defs {
		gs = append(gs, d.make())
	}
	chip := gates.NewEvaluateGatesChip(api, gs, uint64(s.ngc), *gates.NewSelectorsInfo(s.selIdx, s.selLo, s.selHi))
	vars := *gates.NewEvaluationVars(qvs(c), qvs(w), hashOut(pih))
	got := chip.EvaluateGateConstraints(vars)
	want := s.evalGates(c, w, pih)
	t.eqConstraints("C12,C10", "filtered constraints", got, want)
	// evaluating again gives the same result
	t.eqConstraints("C12,C21,C17", "filtered constraints, second evaluation", chip.EvaluateGateConstraints(vars), want)
}

// too many constraints are refused
//
//ob: props=C14,C12 extra=C14 level=1
func gateTooMany(t T) {
	api := t.API("none")
	var s shape
	t.gateSet(&s)
	n := 0
	for _, d := range s.defs {
		var cc, ww []E
		for i := 0; i < d.consts; i++ {
			cc = append(cc, e1())
		}
		for i := 0; i < d.wires; i++ {
			ww = append(ww, e1())
		}
		if k := len(d.ref(cc, ww, []N{C(1), C(1), C(1), C(1)})); k > n {
			n = k
		}
	}
	if n == 0 {
		return
	}
	c, w := t.symEs("const", s.constants), t.symEs("wire", s.wires)
	var gs []gates.Gate
	for _, d := range s.defs {
		gs = append(gs, d.make())
	}
	less := t.Int("slots short", 1, 2, 3)
	if less > n {
		less = n
	}
	chip := gates.NewEvaluateGatesChip(api, gs, uint64(n-less), *gates.NewSelectorsInfo(s.selIdx, s.selLo, s.selHi))
	t.Panics("C14", "a gate with more constraints than the circuit declares", func() {
		chip.EvaluateGateConstraints(*gates.NewEvaluationVars(qvs(c), qvs(w), hashOut(t.syms("pih", 4))))
	})
	t.Panics("C14", "group boundaries of different lengths", func() { gates.NewSelectorsInfo(s.selIdx, s.selLo, s.selHi[:len(s.selHi)-1]) })
}
