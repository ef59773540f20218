package spec

import (
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
)

// ---- hints compute what the constraints need (C20)

func (t T) honest(backend string) (frontend.API, *gl.Chip) {
	t.Honest()
	api := t.API(backend)
	return api, gl.New(api)
}

func (t T) usedHints(n int) { t.True("C20", "hints are computed", t.HonestHints() >= n) }

//ob: props=C20 extra=C20 level=0
func honestMulAdd(t T) {
	_, chip := t.honest("none")
	a, b, c := t.Sym("a"), t.Sym("b"), t.Sym("c")
	switch t.Int("op", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9) {
	case 0:
		chip.MulAdd(gv(a), gv(b), gv(c))
	case 1:
		chip.Add(gv(a), gv(b))
	case 2:
		chip.Sub(gv(a), gv(b))
	case 3:
		chip.Mul(gv(a), gv(b))
	case 4:
		chip.MulAdd(gv(a), gv(a), gv(a))
	case 5:
		chip.Mul(gl.NegOne(), gv(a))
	case 6:
		chip.Add(gv(a), gl.One())
	case 7:
		chip.Mul(gv(a), gl.Zero())
	case 8:
		chip.Sub(gl.Zero(), gv(a))
	case 9:
		chip.Sub(gv(a), gv(a))
	}
	t.usedHints(1)
}

//ob: props=C20 extra=C20 level=0
func honestReduce(t T) {
	_, chip := t.honest("none")
	switch t.Int("op", 0, 1, 2) {
	case 0:
		n := t.Int("bits", 0, 1, 32, 63, 64, 65, 128, 131, 140, 192, 207)
		x := t.Sym("x")
		if n > 0 {
			x = t.SymBits("x", n)
		}
		chip.Reduce(gl.NewVariable(Var(x)))
	case 1:
		m := t.Int("maxbits", 16, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176)
		x := t.SymBits("x", m+63)
		chip.ReduceWithMaxBits(gl.NewVariable(Var(x)), uint64(m))
	case 2:
		a, b, c := t.Sym("a"), t.Sym("b"), t.Sym("c")
		x := chip.MulAddNoReduce(gv(a), gv(b), chip.SubNoReduce(gv(c), gv(a)))
		chip.Reduce(x)
	}
	t.usedHints(1)
}

//ob: props=C20 extra=C20 level=0
func honestInverse(t T) {
	_, chip := t.honest("none")
	a := t.Sym("a")
	switch t.Int("op", 0, 1, 2, 3) {
	case 0:
		chip.Inverse(gv(a))
	case 1:
		chip.Inverse(gl.One())
	case 2:
		chip.Inverse(gl.NegOne())
	case 3:
		chip.Inverse(gl.Zero())
	}
	t.usedHints(1)
}

//ob: props=C20 extra=C20 level=0
func honestRangeCheck(t T) {
	api, chip := t.honest(t.Str("backend", "none", "commit", "native"))
	t.Env("USE_BIT_DECOMPOSITION_RANGE_CHECK", t.Str("env", "", "true"))
	a := t.Sym("a")
	switch t.Int("op", 0, 1, 2, 3) {
	case 0:
		chip.RangeCheck(gv(a))
	case 1:
		chip.RangeCheckQE(qv(t.symE("e")))
	case 2:
		chip.RangeCheck(gl.NegOne())
		chip.RangeCheck(gl.Zero())
	case 3:
		chip.RangeCheck(gv(a))
		b := t.SymBits("b", 48)
		chip.RangeCheckWithMaxBits(gl.NewVariable(Var(b)), 48)
	}
	_ = api
	t.usedHints(1)
}

//ob: props=C20 extra=C20 level=0
func honestExtension(t T) {
	_, chip := t.honest("none")
	a, b := t.symE("a"), t.symE("b")
	s := gv(t.Sym("s"))
	switch t.Int("op", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9) {
	case 0:
		chip.MulExtension(qv(a), qv(b))
	case 1:
		chip.AddExtension(qv(a), qv(b))
	case 2:
		chip.SubExtension(qv(a), qv(b))
	case 3:
		chip.ScalarMulExtension(qv(a), s)
	case 4:
		chip.MulAddExtension(qv(a), qv(b), qv(a))
	case 5:
		chip.SubMulExtension(qv(a), qv(b), qv(a))
	case 6:
		chip.ExpExtension(qv(a), 13)
	case 7:
		chip.ReduceWithPowers(qvs([]E{a, b, a}), qv(b))
	case 8:
		chip.InnerProductExtension(s, qv(a), [][2]gl.QuadraticExtensionVariable{{qv(a), qv(b)}, {qv(b), qv(b)}})
	case 9:
		chip.MulExtension(qv(e1()), qv(e0()))
	}
	t.usedHints(1)
}

// The inverse of a non-zero extension element; for zero the gadget promises unsatisfiability, so only
// non-zero operands are looked at.
//
//ob: props=C20 extra=C20 level=0
func honestInverseExtension(t T) {
	_, chip := t.honest("none")
	a := t.Sym("a")
	switch t.Int("op", 0, 1, 2, 3) {
	case 0:
		chip.InverseExtension(qv(ec(3)))
	case 1:
		chip.DivExtension(qv(eb(a)), qv(E{C(2), C(5)}))
	case 2:
		chip.InverseExtension(qv(E{C(0), pSub(1)}))
	case 3:
		chip.InverseExtension(qv(E{a, C(1)})) // a^2 != 7 for every a: 7 is not a square
	}
	t.usedHints(1)
}

//ob: props=C20 extra=C20 level=0
func honestPermutation(t T) {
	api, _ := t.honest("none")
	var s poseidon.GoldilocksState
	for i := 0; i < poseidon.SPONGE_WIDTH; i++ {
		s[i] = gv(t.Sym("s" + itoa(i)))
	}
	poseidon.NewGoldilocksChip(api).Poseidon(s)
	t.usedHints(100)
}
