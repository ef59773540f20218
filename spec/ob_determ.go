package spec

import (
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
)

// Determinism: the same circuit is built several times, with maps iterated in different orders and
// after other circuits have been built; every build has to ask the builder for the same things in
// the same order.

func (t T) repeated(what, sc string, build func(api frontend.API), other func(api frontend.API)) {
	for i := 0; i < 5; i++ {
		t.MapShuffle(i)
		if i == 2 || i == 4 {
			other(t.API("none"))
		}
		api := t.API(sc)
		t.TraceStart()
		build(api)
		t.Finalize(api)
		t.TraceCheck("C21", what+" is built differently when it is built again", what)
	}
	t.IgnoreEffects()
}

// gadgets, under every range-checking facility
//
//ob: props=C21 extra=C21 level=0
func determGadgets(t T) {
	sc := t.Str("builder", "none", "commit", "native")
	a, b, c := t.Sym("a"), t.Sym("b"), t.Sym("c")
	x, y := t.symE("x"), t.symE("y")
	wide := t.SymBits("wide", 140)
	es := t.symEs("e", 3)
	t.repeated("a sequence of gadgets", sc, func(api frontend.API) {
		chip := gl.New(api)
		if sc == "commit" {
			t.pad(chip, 700)
		}
		r := chip.MulAdd(gv(a), gv(b), gv(c))
		r = chip.Add(chip.Sub(r, gv(a)), chip.Mul(gv(b), gv(c)))
		chip.RangeCheck(r)
		chip.RangeCheckWithMaxBits(gv(wide), 144)
		r = chip.Reduce(gv(wide))
		inv, ok := chip.Inverse(r)
		api.AssertIsEqual(ok, 1)
		chip.AssertIsEqual(inv, gv(c))
		q, _ := chip.DivExtension(qv(y), qv(x))
		e := chip.MulExtension(qv(x), q)
		e = chip.AddExtension(e, chip.ExpExtension(qv(x), 7))
		e = chip.ReduceWithPowers(append([]gl.QuadraticExtensionVariable{e}, qvs(es)...), qv(y))
		chip.AssertIsEqualExtension(e, qv(x))
	}, func(api frontend.API) {
		chip := gl.New(api)
		chip.RangeCheckWithMaxBits(gv(a), 32)
		chip.Mul(gv(c), gv(b))
	})
}

//ob: props=C21 extra=C21 level=1
func determHashes(t T) {
	n := t.Int("elements", 3, 17)
	xs := t.syms("x", n)
	t.repeated("a sequence of hashes", "none", func(api frontend.API) {
		g, b := poseidon.NewGoldilocksChip(api), poseidon.NewBN254Chip(api)
		h := g.HashNoPad(gvs(xs))
		d := b.HashOrNoop(gvs(xs))
		d = b.TwoToOne(d, b.HashOrNoop(h[:]))
		ch := challenger.NewChip(api)
		ch.ObserveElements(gvs(xs))
		ch.ObserveBN254Hash(d)
		ch.GetNChallenges(10)
	}, func(api frontend.API) {
		challenger.NewChip(api).ObserveElements(gvs(xs))
	})
}

// gates and their filters
//
//ob: props=C21 extra=C21 level=1
func determGates(t T) {
	var s shape
	t.gateSet(&s)
	c, w := t.symEs("const", s.constants), t.symEs("wire", s.wires)
	pih := t.syms("pih", 4)
	t.repeated("the gate constraints", "none", func(api frontend.API) {
		var gs []gates.Gate
		for _, id := range s.gates {
			gs = append(gs, gates.GateInstanceFromId(id))
		}
		chip := gates.NewEvaluateGatesChip(api, gs, uint64(s.ngc), *gates.NewSelectorsInfo(s.selIdx, s.selLo, s.selHi))
		chip.EvaluateGateConstraints(*gates.NewEvaluationVars(qvs(c), qvs(w), hashOut(pih)))
	}, func(api frontend.API) {
		g := gates.GateInstanceFromId(arithmeticGate(2).id)
		g.EvalUnfiltered(api, gl.New(api), *gates.NewEvaluationVars(qvs(t.symEs("other", 2)), qvs(t.symEs("other wire", 8)), hashOut(pih)))
	})
}

// the whole verifier circuit
//
//ob: props=C21 extra=C21 level=3
func determVerifier(t T) {
	s := t.smallShape()
	if t.Str("varied", "shape", "gates") == "shape" {
		s = t.wholeShape(false)
	} else {
		t.gateSet(&s)
	}
	p, v := t.proof(s), t.vd(s)
	pis := t.syms("pi", s.pis)
	o := t.smallShape()
	op, ov, opis := t.proof(o), t.vd(o), t.syms("pi", o.pis)
	build := func(api frontend.API, c types.CommonCircuitData, p proofN, v vdN, pis []N) {
		circuit := verifier.ExampleVerifierCircuit{PublicInputs: gvs(pis), Proof: p.vars(), VerifierOnlyCircuitData: v.vars(), CommonCircuitData: c}
		if err := circuit.Define(api); err != nil {
			panic(err)
		}
	}
	t.repeated("the verifier circuit", "none", func(api frontend.API) { build(api, s.common(), p, v, pis) },
		func(api frontend.API) { build(api, o.common(), op, ov, opis) })
}
