package spec

import (
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
)

func (t T) stateGL(kind int) []N {
	var s []N
	for i := 0; i < 12; i++ {
		switch {
		case kind == 1 && i >= 8:
			s = append(s, C(0))
		case kind == 2:
			s = append(s, t.Sym("s0"))
		default:
			s = append(s, t.Sym("s."+itoa(i)))
		}
	}
	return s
}

//ob: props=C13,C07,C06,C03,C20,C17,C21,C19 extra=C13 level=1
func glPermutation(t T) {
	chip := poseidon.NewGoldilocksChip(t.API("none"))
	s := t.stateGL(t.Int("state", 0, 1, 2))
	var st poseidon.GoldilocksState
	for i := 0; i < 12; i++ {
		st[i] = gv(s[i])
	}
	out := chip.Poseidon(st)
	want := permGL(s)
	for i := 0; i < 12; i++ {
		t.eqG("C13", "Goldilocks Poseidon, word "+itoa(i), out[i], want[i])
	}
	for i := 0; i < 12; i++ {
		t.eqG("C13,C17", "the input state is left as it was", st[i], s[i])
	}
}

//ob: props=C13,C08,C06,C17,C21,C19 extra=C13 level=0
func bnPermutation(t T) {
	chip := poseidon.NewBN254Chip(t.API("none"))
	var s []N
	kind := t.Int("state", 0, 1, 2)
	for i := 0; i < 4; i++ {
		switch {
		case kind == 1 && i < 2:
			s = append(s, C(0))
		case kind == 2:
			s = append(s, t.SymNat("s"))
		default:
			s = append(s, t.SymNat("s."+itoa(i)))
		}
	}
	var st poseidon.BN254State
	for i := 0; i < 4; i++ {
		st[i] = Var(s[i])
	}
	out := chip.Poseidon(st)
	want := permBN(s)
	for i := 0; i < 4; i++ {
		t.Equal("C13", "BN254 Poseidon, word "+itoa(i), Of(out[i]), want[i])
	}
}

//ob: props=C13,C17,C21,C19,C06,C03,C20 extra=C13 level=3
func glSponge(t T) {
	chip := poseidon.NewGoldilocksChip(t.API("none"))
	n := t.IntNovel("inputs", 0, 300, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 24, 25, 31, 32, 33, 40, 41, 64, 65)
	switch t.Int("function", 0, 1) {
	case 0:
		m := t.IntNovel("outputs", 1, 100, 1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 24, 25)
		in := t.syms("x", n)
		out := chip.HashNToMNoPad(gvs(in), m)
		want := spongeGL(in, m)
		t.EqualInt("C13", "number of outputs", uint64(len(out)), uint64(m))
		for i := 0; i < m && i < len(out); i++ {
			t.eqG("C13", "HashNToMNoPad, output "+itoa(i), out[i], want[i])
		}
	case 1:
		// inputs may be unreduced
		var in, red []N
		for i := 0; i < n; i++ {
			x := t.SymBits("x."+itoa(i), 128)
			in = append(in, x)
			red = append(red, Mod(x))
		}
		out := chip.HashNoPad(gvs(in))
		want := spongeGL(red, 4)
		for i := 0; i < 4; i++ {
			t.eqG("C13", "HashNoPad, output "+itoa(i), out[i], want[i])
		}
		v := chip.ToVec(out)
		t.EqualInt("C13", "ToVec length", uint64(len(v)), 4)
		for i := 0; i < 4 && i < len(v); i++ {
			t.eqG("C13", "ToVec, element "+itoa(i), v[i], want[i])
		}
	}
}

//ob: props=C13,C08,C17,C21,C19 extra=C13 level=3
func bnSponge(t T) {
	chip := poseidon.NewBN254Chip(t.API("none"))
	n := t.IntNovel("inputs", 0, 300, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 26, 27, 28, 29, 30, 35, 36, 37, 54, 80, 83, 85, 135)
	in := t.syms("x", n)
	vs := gvs(in)
	t.Equal("C13,C08", "HashOrNoop", Of(chip.HashOrNoop(vs)), hashOrNoopBN(in))
	t.Equal("C13,C08", "HashNoPad", Of(chip.HashNoPad(vs)), hashBN(in))
	for i := 0; i < n; i++ {
		t.eqG("C13,C17", "inputs are left as they were", vs[i], in[i])
	}
}

//ob: props=C13,C08,C17,C21,C19 extra=C13 level=3
func bnTwoToOne(t T) {
	chip := poseidon.NewBN254Chip(t.API("none"))
	l, r := t.SymNat("l"), t.SymNat("r")
	t.Equal("C13,C08", "TwoToOne", Of(chip.TwoToOne(Var(l), Var(r))), twoToOneBN(l, r))
}

//ob: props=C13,C06,C07,C17,C21,C19 extra=C13,C06,C07 level=0
func bnVec(t T) {
	chip := poseidon.NewBN254Chip(t.API("none"))
	h := t.SymNat("h")
	v := chip.ToVec(Var(h))
	want := vecBNDef(h)
	t.EqualInt("C13,C06,C07", "ToVec: number of elements", uint64(len(v)), 5)
	for i := 0; i < len(v) && i < 5; i++ {
		t.eqG("C13,C06,C07", "ToVec, element "+itoa(i), v[i], want[i])
		t.Equal("C13,C06,C07", "ToVec, element "+itoa(i), gn(v[i]), bnvec(h, i))
	}
}

//ob: props=C13,C11,C03,C20,C17,C21 extra=C13 level=1
func glLayersExt(t T) {
	chip := poseidon.NewGoldilocksChip(t.API("none"))
	s := t.symEs("s", 12)
	var st poseidon.GoldilocksStateExtension
	for i := 0; i < 12; i++ {
		st[i] = qv(s[i])
	}
	switch t.Int("layer", 0, 1, 2, 3, 4, 5) {
	case 0:
		r := t.Int("round", 0, 1, 2, 3, 26, 27, 28, 29)
		rc := r
		out := chip.ConstantLayerExtension(st, &rc)
		for i := 0; i < 12; i++ {
			t.eqE("C13,C11", "ConstantLayerExtension", out[i], eadd(s[i], ec(rcGL[12*r+i])))
		}
	case 1:
		out := chip.SBoxLayerExtension(st)
		for i := 0; i < 12; i++ {
			t.eqE("C13,C11", "SBoxLayerExtension", out[i], epow(s[i], 7))
		}
		t.eqE("C13,C11", "SBoxMonomialExtension", chip.SBoxMonomialExtension(st[3]), epow(s[3], 7))
	case 2:
		out := chip.MdsLayerExtension(st)
		want := mdsE(s)
		for i := 0; i < 12; i++ {
			t.eqE("C13,C11", "MdsLayerExtension", out[i], want[i])
			t.eqE("C13,C11", "MdsRowShfExtension", chip.MdsRowShfExtension(i, st), want[i])
		}
	case 3:
		out := chip.PartialFirstConstantLayerExtension(st)
		for i := 0; i < 12; i++ {
			t.eqE("C13,C11", "PartialFirstConstantLayerExtension", out[i], eadd(s[i], ec(firstGL[i])))
		}
	case 4:
		out := chip.MdsPartialLayerInitExtension(st)
		want := partialInitE(s)
		for i := 0; i < 12; i++ {
			t.eqE("C13,C11", "MdsPartialLayerInitExtension", out[i], want[i])
		}
	case 5:
		r := t.Int("round", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21)
		out := chip.MdsPartialLayerFastExtension(st, r)
		want := partialFastE(s, r)
		for i := 0; i < 12; i++ {
			t.eqE("C13,C11", "MdsPartialLayerFastExtension", out[i], want[i])
		}
	}
	_ = gl.Zero
	_ = frontend.Variable(0)
}

// layers of the optimised permutation over the extension, as Plonky2's Poseidon gate defines them

func mdsE(s []E) []E {
	var r []E
	for i := 0; i < 12; i++ {
		x := esc(s[i], C(diagGL[i]))
		for j := 0; j < 12; j++ {
			x = eadd(x, esc(s[(i+j)%12], C(circGL[j])))
		}
		r = append(r, x)
	}
	return r
}

func partialInitE(s []E) []E {
	r := []E{s[0]}
	for d := 1; d < 12; d++ {
		x := e0()
		for k := 1; k < 12; k++ {
			x = eadd(x, esc(s[k], C(initGL[11*(k-1)+d-1])))
		}
		r = append(r, x)
	}
	return r
}

func partialFastE(s []E, r int) []E {
	d := esc(s[0], C(circGL[0]+diagGL[0]))
	for i := 1; i < 12; i++ {
		d = eadd(d, esc(s[i], C(wsGL[11*r+i-1])))
	}
	out := []E{d}
	for i := 1; i < 12; i++ {
		out = append(out, eadd(s[i], esc(s[0], C(vsGL[11*r+i-1]))))
	}
	return out
}

// the optimised partial rounds agree with the textbook permutation (a check of this specification)
//
//ob: props=C13,C11 extra=C13 level=1
func specPoseidonForms(t T) {
	s := t.stateGL(0)
	var e []E
	for i := 0; i < 12; i++ {
		e = append(e, eb(s[i]))
	}
	rc := 0
	full := func() {
		for r := 0; r < 4; r++ {
			var u []E
			for i := 0; i < 12; i++ {
				u = append(u, epow(eadd(e[i], ec(rcGL[12*rc+i])), 7))
			}
			e = mdsE(u)
			rc++
		}
	}
	full()
	var u []E
	for i := 0; i < 12; i++ {
		u = append(u, eadd(e[i], ec(firstGL[i])))
	}
	e = partialInitE(u)
	for r := 0; r < 22; r++ {
		e[0] = epow(e[0], 7)
		if r < 21 {
			e[0] = eadd(e[0], ec(fastGL[r]))
		}
		e = partialFastE(e, r)
	}
	rc += 22
	full()
	want := permGL(s)
	for i := 0; i < 12; i++ {
		t.Equal("C13", "reference forms agree", e[i][0], want[i])
		t.Equal("C13", "reference forms agree", e[i][1], C(0))
	}
}
