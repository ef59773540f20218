package spec

import (
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
)

// ---- base field gadgets against adversarial hints

//ob: props=C02,C03,C20,C17,C21 extra=C02 level=0
func glMulAdd(t T) {
	chip := gl.New(t.API("none"))
	a, b, c := t.Sym("a"), t.Sym("b"), t.Sym("c")
	r := chip.MulAdd(gv(a), gv(b), gv(c))
	t.eqG("C02,C03", "MulAdd", r, Mod(Add(Mul(a, b), c)))
}

//ob: props=C02,C03,C20,C17,C21 extra=C02 level=0
func glAddSubMul(t T) {
	chip := gl.New(t.API("none"))
	a, b := t.Sym("a"), t.Sym("b")
	switch t.Int("op", 0, 1, 2, 3, 4, 5, 6, 7) {
	case 0:
		t.eqG("C02", "Add", chip.Add(gv(a), gv(b)), gadd(a, b))
	case 1:
		t.eqG("C02", "Sub", chip.Sub(gv(a), gv(b)), gsub(a, b))
	case 2:
		t.eqG("C02", "Mul", chip.Mul(gv(a), gv(b)), gmul(a, b))
	case 3:
		t.eqG("C02", "Add of a constant", chip.Add(gv(a), gl.One()), gadd(a, C(1)))
	case 4:
		t.eqG("C02", "Mul by minus one", chip.Mul(gl.NegOne(), gv(a)), gmul(pSub(1), a))
	case 5:
		t.eqG("C02", "Add of an element and itself", chip.Add(gv(a), gv(a)), gadd(a, a))
	case 6:
		t.eqG("C02", "Sub of an element and itself", chip.Sub(gv(a), gv(a)), C(0))
	case 7:
		t.eqG("C02", "Mul with zero", chip.Mul(gv(a), gl.Zero()), C(0))
	}
}

//ob: props=C02,C03,C20,C17,C21 extra=C02 level=0
func glNoReduce(t T) {
	chip := gl.New(t.API("none"))
	a, b, c := t.Sym("a"), t.Sym("b"), t.Sym("c")
	t.Equal("C02,C03", "AddNoReduce", gn(chip.AddNoReduce(gv(a), gv(b))), Add(a, b))
	t.Equal("C02,C03", "MulNoReduce", gn(chip.MulNoReduce(gv(a), gv(b))), Mul(a, b))
	t.Equal("C02,C03", "MulAddNoReduce", gn(chip.MulAddNoReduce(gv(a), gv(b), gv(c))), Add(Mul(a, b), c))
	t.Equal("C02,C03", "SubNoReduce (mod p)", Mod(gn(chip.SubNoReduce(gv(a), gv(b)))), gsub(a, b))
}

//ob: props=C02,C03,C20,C17,C21 extra=C02 level=0
func glReduce(t T) {
	chip := gl.New(t.API("none"))
	n := t.Int("bits", 64, 128, 131, 140, 192)
	x := t.SymBits("x", n)
	r := chip.Reduce(gl.NewVariable(Var(x)))
	t.eqG("C02,C03", "Reduce", r, Mod(x))
}

//ob: props=C02,C03,C20,C17,C21 extra=C02 level=0
func glReduceMax(t T) {
	chip := gl.New(t.API("none"))
	n := t.Int("bits", 64, 128, 144, 160, 176)
	x := t.SymBits("x", n+63)
	r := chip.ReduceWithMaxBits(gl.NewVariable(Var(x)), uint64(n))
	t.eqG("C02,C03", "ReduceWithMaxBits", r, Mod(x))
}

//ob: props=C02,C03,C20,C05,C17,C21 extra=C02 level=0
func glInverse(t T) {
	chip := gl.New(t.API("none"))
	a := t.Sym("a")
	inv, has := chip.Inverse(gv(a))
	t.eqG("C02,C05", "Inverse", inv, GInv(a))
	t.Equal("C02,C05", "Inverse: existence flag", Of(has), Sub(C(1), IsZero(a)))
}

//ob: props=C02,C05,C17,C21 extra=C02 level=0
func glAssertEqual(t T) {
	chip := gl.New(t.API("none"))
	a, b := t.Sym("a"), t.Sym("b")
	chip.AssertIsEqual(gv(a), gv(b))
	t.EQ("C02,C05", "AssertIsEqual", a, b)
}

//ob: props=C02,C05,C17,C21 extra=C05 level=0
func glAssertEqualExt(t T) {
	chip := gl.New(t.API("none"))
	a, b := t.symE("a"), t.symE("b")
	chip.AssertIsEqualExtension(qv(a), qv(b))
	t.EQ("C05", "AssertIsEqualExtension limb 0", a[0], b[0])
	t.EQ("C05", "AssertIsEqualExtension limb 1", a[1], b[1])
}

func (t T) kind(name string) int { return t.Int(name, 0, 1, 2, 3, 4, 5, 6) }

// base field operations with operands in every form, each used again afterwards
//
//ob: props=C02,C03,C20,C17,C21 extra=C02 level=0
func glOperandForms(t T) {
	chip := gl.New(t.API("none"))
	a, b := t.form("a", t.kind("form of a")), t.form("b", t.kind("form of b"))
	c := t.form("c", t.kind("form of c"))
	t.eqG("C02,C03", "MulAdd", chip.MulAdd(vo(a), vo(b), vo(c)), Mod(Add(Mul(a.n, b.n), c.n)))
	t.kept("MulAdd", a, b, c)
	t.Equal("C02,C03", "MulAddNoReduce", gn(chip.MulAddNoReduce(vo(a), vo(b), vo(c))), Add(Mul(a.n, b.n), c.n))
	t.kept("MulAddNoReduce", a, b, c)
}

//ob: props=C02,C03,C20,C17,C21 extra=C02 level=0
func glOperandForms2(t T) {
	chip := gl.New(t.API("none"))
	a, b := t.form("a", t.kind("form of a")), t.form("b", t.kind("form of b"))
	t.eqG("C02", "Add", chip.Add(vo(a), vo(b)), gadd(a.n, b.n))
	t.eqG("C02", "Sub", chip.Sub(vo(a), vo(b)), gsub(a.n, b.n))
	t.eqG("C02", "Mul", chip.Mul(vo(a), vo(b)), gmul(a.n, b.n))
	t.Equal("C02,C03", "AddNoReduce", gn(chip.AddNoReduce(vo(a), vo(b))), Add(a.n, b.n))
	t.Equal("C02,C03", "MulNoReduce", gn(chip.MulNoReduce(vo(a), vo(b))), Mul(a.n, b.n))
	t.Equal("C02,C03", "SubNoReduce (mod p)", Mod(gn(chip.SubNoReduce(vo(a), vo(b)))), gsub(a.n, b.n))
	t.kept("arithmetic", a, b)
}

//ob: props=C02,C03,C20,C17,C21 extra=C02 level=0
func glOperandForms1(t T) {
	chip := gl.New(t.API("none"))
	a := t.form("a", t.kind("form of a"))
	switch t.Int("op", 0, 1, 2, 3, 4) {
	case 0:
		t.eqG("C02,C03", "Reduce", chip.Reduce(vo(a)), a.n)
	case 1:
		t.eqG("C02,C03", "ReduceWithMaxBits", chip.ReduceWithMaxBits(vo(a), 64), a.n)
	case 2:
		chip.RangeCheck(vo(a))
		t.Canon("C02", "RangeCheck", a.n)
	case 3:
		chip.RangeCheckWithMaxBits(vo(a), 64)
		t.Bits("C02", "RangeCheckWithMaxBits", a.n, 64)
	case 4:
		inv, has := chip.Inverse(vo(a))
		if !IsConst(a.n) || !Same(a.n, C(0)) {
			t.eqG("C02,C05", "Inverse", inv, GInv(a.n))
		}
		t.Equal("C02,C05", "Inverse: existence flag", Of(has), Sub(C(1), IsZero(a.n)))
	}
	t.kept("operation", a)
}
