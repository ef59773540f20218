package spec

import (
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
)

// State shared between circuits: the chip registry and the lists of pending range checks.

const components = 8

// component builds the k-th kind of component on a builder.
func (t T) component(k int, api frontend.API, s shape) interface{} {
	c := s.common()
	switch k {
	case 0:
		return gl.New(api)
	case 1:
		return poseidon.NewGoldilocksChip(api)
	case 2:
		return poseidon.NewBN254Chip(api)
	case 3:
		return challenger.NewChip(api)
	case 4:
		return fri.NewChip(api, &c, &c.FriParams)
	case 5:
		return plonk.NewPlonkChip(api, c)
	case 6:
		return gates.NewEvaluateGatesChip(api, []gates.Gate{gates.GateInstanceFromId("NoopGate")}, 4, c.SelectorsInfo)
	}
	return verifier.NewVerifierChip(api, c)
}

// every component reaches the chip of its own builder and no other, whatever was created before
//
//ob: props=C16,C21 extra=C16 level=1
func stateIdentity(t T) {
	s := t.smallShape()
	first := t.Int("first component", 0, 1, 2, 3, 4, 5, 6, 7)
	second := t.Int("second component", 0, 1, 2, 3, 4, 5, 6, 7)
	sc := t.Str("builder", "none", "commit", "native")
	a, b, c := t.API(sc), t.API(sc), t.API("none")
	apis := []frontend.API{a, b, c}
	var made []interface{}
	var of []int
	// interleaved over three builders
	order := []int{0, 1, 0, 2, 1, 2, 0, 1}
	for i, k := range order {
		what := first
		if i%2 == 1 {
			what = second
		}
		made = append(made, t.component(what, apis[k], s))
		of = append(of, k)
	}
	var own [][]string
	for _, api := range apis {
		x := gl.New(api)
		t.True("C16", "a second request for the chip of a builder gives another chip", t.SamePtr(x, gl.New(api)))
		own = append(own, t.ChipIDs(x))
		t.EqualInt("C16", "a chip reaches other chips or builders", uint64(len(t.ChipIDs(x))), 2)
	}
	for i := range apis {
		for j := range apis {
			if i != j {
				for _, x := range own[i] {
					t.True("C16", "two builders share a chip", !exists(own[j], x))
				}
			}
		}
	}
	for i, m := range made {
		for _, x := range t.ChipIDs(m) {
			t.True("C16", "component "+itoa(i)+" reaches a chip or builder that is not its own", exists(own[of[i]], x))
		}
	}
}

// checks requested through any component of a builder are enforced by that builder
//
//ob: props=C16,C04,C21 extra=C16,C04 level=0
func stateInterleaved(t T) {
	sc := t.Str("builder", "none", "commit", "native")
	a, b := t.API(sc), t.API("none")
	x, y := gl.New(a), gl.New(b)
	if sc == "commit" {
		t.pad(x, 700)
	}
	n := t.Int("rounds", 1, 3)
	for i := 0; i < n; i++ {
		u, v, w := t.SymNat("u"+itoa(i)), t.SymNat("v"+itoa(i)), t.SymNat("w"+itoa(i))
		x.RangeCheckWithMaxBits(gv(u), 32)
		y.RangeCheckWithMaxBits(gv(v), 48)
		gl.New(a).RangeCheckWithMaxBits(gv(w), 64)
		t.Bits("C16,C04", "check on the first builder", u, 32)
		t.Bits("C16,C04", "check on the second builder", v, 48)
		t.Bits("C16,C04", "check on the first builder after the second was used", w, 64)
		z := gl.New(t.API("none"))
		q := t.SymNat("q" + itoa(i))
		z.RangeCheckWithMaxBits(gv(q), 16)
		t.Bits("C16,C04", "check on a third builder", q, 16)
	}
	t.Finalize(a)
	t.Finalize(b)
}

// lock sets of the chip registry and the pending checks
//
//ob: props=C16 extra=C16 level=0
func stateLocks(t T) {
	sc := t.Str("builder", "none", "commit", "native")
	a, b := t.API(sc), t.API(sc)
	t.WatchShared()
	x := gl.New(a)
	t.Publish()
	y := gl.New(b)
	t.Publish()
	if sc == "commit" {
		t.pad(x, 700)
		t.pad(y, 700)
	}
	for i := 0; i < 3; i++ {
		x.RangeCheckWithMaxBits(gv(t.SymNat("u"+itoa(i))), 32)
		y.RangeCheck(gv(t.SymNat("v" + itoa(i))))
		gl.New(a).RangeCheckWithMaxBits(gv(t.SymNat("w"+itoa(i))), 64)
		t.Publish()
	}
	x.MulAdd(gv(t.Sym("a")), gv(t.Sym("b")), gv(t.Sym("c")))
	x.Reduce(gv(t.SymBits("d", 100)))
	x.Inverse(gv(t.Sym("e")))
	t.Finalize(a)
	t.Finalize(b)
	n := t.LockReport("C16")
	t.True("C16", "the registry of chips is not shared state any more", n > 0)
	t.IgnoreEffects()
}

// lock sets of everything a whole build touches
//
//ob: props=C16,C21 extra=C16 level=3
func stateBuildLocks(t T) {
	s := t.smallShape()
	s.queries = 1
	sc := t.Str("builder", "none", "commit")
	t.WatchShared()
	for i := 0; i < 2; i++ {
		api := t.API(sc)
		p, v, pis := t.proof(s).vars(), t.vd(s).vars(), t.syms("pi", s.pis)
		circuit := verifier.ExampleVerifierCircuit{PublicInputs: gvs(pis), Proof: p, VerifierOnlyCircuitData: v, CommonCircuitData: s.common()}
		if err := circuit.Define(api); err != nil {
			panic(err)
		}
		t.Publish()
	}
	t.LockReport("C16")
	t.IgnoreEffects()
}

// gates and their parameters: every kind of gate is parsed while the shared state is watched
//
//ob: props=C16 extra=C16 level=1
func stateGateLocks(t T) {
	var s shape
	t.gateSet(&s)
	t.WatchShared()
	for i := 0; i < 2; i++ {
		for _, id := range s.gates {
			gates.GateInstanceFromId(id)
		}
		t.Publish()
	}
	t.LockReport("C16")
}
