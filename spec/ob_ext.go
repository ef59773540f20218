package spec

import (
	gfield "github.com/consensys/gnark-crypto/field/goldilocks"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
)

// ---- quadratic extension F_p[X]/(X^2-7) and the extension algebra over it

func (t T) eqRaw(tag, what string, got gl.QuadraticExtensionVariable, want E) {
	t.Equal(tag, what, Mod(Of(got[0].Limb)), want[0])
	t.Equal(tag, what, Mod(Of(got[1].Limb)), want[1])
}

//ob: props=C05,C03,C20,C17,C21,C19 extra=C05 level=1
func extBinary(t T) {
	chip := gl.New(t.API("none"))
	a, b, c := t.symE("a"), t.symE("b"), t.symE("c")
	k := t.Sym("k")
	switch t.Int("operands", 0, 1, 2, 3, 4) {
	case 1:
		b = a
		c = a
	case 2:
		a = eb(k)
		b = e1()
	case 3:
		b = e0()
		c = E{pSub(1), pSub(1)}
	case 4:
		a = E{pSub(1), pSub(1)}
		c = eb(t.Sym("c"))
	}
	t.eqE("C05", "AddExtension", chip.AddExtension(qv(a), qv(b)), eadd(a, b))
	t.eqE("C05", "SubExtension", chip.SubExtension(qv(a), qv(b)), esub(a, b))
	t.eqE("C05", "MulExtension", chip.MulExtension(qv(a), qv(b)), emul(a, b))
	t.eqE("C05", "MulAddExtension", chip.MulAddExtension(qv(a), qv(b), qv(c)), eadd(emul(a, b), c))
	t.eqE("C05", "SubMulExtension", chip.SubMulExtension(qv(a), qv(b), qv(c)), emul(esub(a, b), c))
	t.eqE("C05", "ScalarMulExtension", chip.ScalarMulExtension(qv(a), gv(k)), esc(a, k))
	t.eqRaw("C05,C03", "AddExtensionNoReduce", chip.AddExtensionNoReduce(qv(a), qv(b)), eadd(a, b))
	t.eqRaw("C05,C03", "SubExtensionNoReduce", chip.SubExtensionNoReduce(qv(a), qv(b)), esub(a, b))
	t.eqRaw("C05,C03", "MulExtensionNoReduce", chip.MulExtensionNoReduce(qv(a), qv(b)), emul(a, b))
	t.eqRaw("C05,C03", "MulAddExtensionNoReduce", chip.MulAddExtensionNoReduce(qv(a), qv(b), qv(c)), eadd(emul(a, b), c))
}

//ob: props=C05,C17,C09,C10,C11,C21 extra=C05 level=1
func extConstants(t T) {
	t.eqE("C05", "ZeroExtension", gl.ZeroExtension(), e0())
	t.eqE("C05", "OneExtension", gl.OneExtension(), e1())
	t.eqG("C05", "Zero", gl.Zero(), C(0))
	t.eqG("C05", "One", gl.One(), C(1))
	t.eqG("C05", "NegOne", gl.NegOne(), pSub(1))
	k := t.Sym("k")
	t.eqE("C05", "ToQuadraticExtension", gv(k).ToQuadraticExtension(), eb(k))
	z := gl.ZeroExtensionAlgebra()
	o := gl.OneExtensionAlgebra()
	t.eqE("C05", "ZeroExtensionAlgebra", z[0], e0())
	t.eqE("C05", "ZeroExtensionAlgebra", z[1], e0())
	t.eqE("C05", "OneExtensionAlgebra", o[0], e1())
	t.eqE("C05", "OneExtensionAlgebra", o[1], e0())
	t.eqE("C05", "NewQuadraticExtensionVariable", gl.NewQuadraticExtensionVariable(gv(k), gl.One()), E{k, C(1)})
	t.True("C05", "extension degree", gl.D == 2)
	// derived constants
	bits := t.IntNovel("bits", 0, 32, 0, 1, 2, 3, 4, 5, 8, 16, 31, 32)
	r := gl.PrimitiveRootOfUnity(uint64(bits))
	w := C(7)
	// the generator of the 2^32 subgroup is 7^((p-1)/2^32)
	w = gpow(CS(mulGen), 4294967295)
	for i := 0; i < 32-bits; i++ {
		w = gmul(w, w)
	}
	t.Equal("C05,C09,C10", "PrimitiveRootOfUnity", C(r.Uint64()), w)
	if bits <= 8 {
		s := gl.TwoAdicSubgroup(uint64(bits))
		t.EqualInt("C05,C11", "size of the subgroup", uint64(len(s)), 1<<uint(bits))
		x := C(1)
		for i := 0; i < len(s); i++ {
			t.Equal("C05,C11", "TwoAdicSubgroup", C(s[i].Uint64()), x)
			x = gmul(x, w)
		}
	}
}

//ob: props=C05,C03,C20,C17,C21,C10,C09 extra=C05 level=1
func extExp(t T) {
	chip := gl.New(t.API("none"))
	a := t.symE("a")
	var k uint64
	if t.Int("kind", 0, 1) == 0 {
		k = uint64(t.IntNovel("exponent", 0, 1<<40, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 33, 63, 100, 127, 1000, 65535, 4294967295, 4294967296, 4294967297))
	} else {
		s := uint(t.Int("shift", 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 22, 24, 28, 31, 40, 48, 62, 63))
		k = 1 << s
		switch t.Int("offset", 0, 1, 2) {
		case 1:
			k = k - 1 + k
		case 2:
			k = k + 5
		}
	}
	t.eqE("C05", "ExpExtension", chip.ExpExtension(qv(a), k), epow(a, k))
}

//ob: props=C05,C03,C20,C17,C21,C09,C10,C19 extra=C05 level=1
func extReducePowers(t T) {
	chip := gl.New(t.API("none"))
	n := t.IntNovel("terms", 0, 200, 0, 1, 2, 3, 4, 5, 7, 8, 16, 33)
	x := t.symE("x")
	ts := t.symEs("t", n)
	t.eqE("C05", "ReduceWithPowers", chip.ReduceWithPowers(qvs(ts), qv(x)), epowsum(ts, x))
}

//ob: props=C05,C03,C20,C17,C21 extra=C05 level=1
func extInner(t T) {
	chip := gl.New(t.API("none"))
	n := t.IntNovel("pairs", 0, 64, 0, 1, 2, 3, 4, 8, 16)
	k := t.Sym("k")
	acc := t.symE("acc")
	as, bs := t.symEs("a", n), t.symEs("b", n)
	var pairs [][2]gl.QuadraticExtensionVariable
	want := acc
	for i := 0; i < n; i++ {
		pairs = append(pairs, [2]gl.QuadraticExtensionVariable{qv(as[i]), qv(bs[i])})
		want = eadd(want, esc(emul(as[i], bs[i]), k))
	}
	t.eqE("C05", "InnerProductExtension", chip.InnerProductExtension(gv(k), qv(acc), pairs), want)
}

//ob: props=C05,C03,C20,C17,C21,C02 extra=C05 level=1
func extInverse(t T) {
	chip := gl.New(t.API("none"))
	a, b := t.symE("a"), t.symE("b")
	switch t.Int("op", 0, 1, 2) {
	case 0:
		inv, has := chip.InverseExtension(qv(a))
		t.NZ("C05", "inverting zero must be unsatisfiable", a[0], a[1])
		t.eqE("C05", "InverseExtension", inv, einv(a))
		t.Equal("C05", "InverseExtension: existence flag", Of(has), Sub(C(1), IsZero(enorm(a))))
	case 1:
		q, has := chip.DivExtension(qv(b), qv(a))
		t.NZ("C05", "dividing by zero must be unsatisfiable", a[0], a[1])
		t.eqE("C05", "DivExtension", q, emul(b, einv(a)))
		t.Equal("C05", "DivExtension: existence flag", Of(has), Sub(C(1), IsZero(enorm(a))))
	case 2:
		k := t.Sym("k")
		inv, has := chip.InverseExtension(qv(eb(k)))
		t.NZ("C05", "inverting zero must be unsatisfiable", k)
		t.eqE("C05", "InverseExtension of a base element", inv, einv(eb(k)))
		t.Equal("C05", "InverseExtension: existence flag", Of(has), Sub(C(1), IsZero(enorm(eb(k)))))
	}
}

func enorm(a E) N { return Mod(Add(Mul(a[0], a[0]), Mul(pSub(7), a[1], a[1]))) }

//ob: props=C05,C17,C21,C09 extra=C05 level=1
func extSelect(t T) {
	chip := gl.New(t.API("none"))
	b0, b1 := t.SymBits("b0", 1), t.SymBits("b1", 1)
	q := t.symEs("q", 4)
	t.eqE("C05,C09", "Lookup", chip.Lookup(Var(b0), qv(q[0]), qv(q[1])), esel(b0, q[1], q[0]))
	t.eqE("C05,C09", "Lookup2", chip.Lookup2(Var(b0), Var(b1), qv(q[0]), qv(q[1]), qv(q[2]), qv(q[3])), esel(b1, esel(b0, q[3], q[2]), esel(b0, q[1], q[0])))
	t.Equal("C05", "IsZero", Of(chip.IsZero(qv(q[0]))), Mul(IsZero(q[0][0]), IsZero(q[0][1])))
}

//ob: props=C05,C01,C17,C21 extra=C05 level=1
func extRange(t T) {
	chip := gl.New(t.API("none"))
	a := E{t.SymNat("a0"), t.SymNat("a1")}
	chip.RangeCheckQE(qv(a))
	t.Canon("C01,C05", "RangeCheckQE limb 0", a[0])
	t.Canon("C01,C05", "RangeCheckQE limb 1", a[1])
}

// algebra elements: pairs of extension elements, X^2 = 7

type A [2]E

func aadd(a, b A) A { return A{eadd(a[0], b[0]), eadd(a[1], b[1])} }
func asub(a, b A) A { return A{esub(a[0], b[0]), esub(a[1], b[1])} }
func amul(a, b A) A {
	return A{
		eadd(emul(a[0], b[0]), esc(emul(a[1], b[1]), C(7))),
		eadd(emul(a[0], b[1]), emul(a[1], b[0])),
	}
}
func asc(k E, a A) A { return A{emul(k, a[0]), emul(k, a[1])} }
func av(a A) gl.QuadraticExtensionAlgebraVariable {
	return gl.QuadraticExtensionAlgebraVariable{qv(a[0]), qv(a[1])}
}
func (t T) symA(name string) A { return A{t.symE(name + ".x"), t.symE(name + ".y")} }
func (t T) eqA(tag, what string, got gl.QuadraticExtensionAlgebraVariable, want A) {
	t.eqE(tag, what, got[0], want[0])
	t.eqE(tag, what, got[1], want[1])
}

//ob: props=C05,C03,C20,C17,C21,C11 extra=C05 level=1
func algBinary(t T) {
	chip := gl.New(t.API("none"))
	a, b := t.symA("a"), t.symA("b")
	k := t.symE("k")
	switch t.Int("operands", 0, 1, 2) {
	case 1:
		b = a
	case 2:
		b = A{e1(), e0()}
	}
	t.eqA("C05", "AddExtensionAlgebra", chip.AddExtensionAlgebra(av(a), av(b)), aadd(a, b))
	t.eqA("C05", "SubExtensionAlgebra", chip.SubExtensionAlgebra(av(a), av(b)), asub(a, b))
	t.eqA("C05", "MulExtensionAlgebra", chip.MulExtensionAlgebra(av(a), av(b)), amul(a, b))
	t.eqA("C05", "ScalarMulExtensionAlgebra", chip.ScalarMulExtensionAlgebra(qv(k), av(b)), asc(k, b))
	t.eqA("C05", "ToQuadraticExtensionAlgebra", qv(k).ToQuadraticExtensionAlgebra(), A{k, e0()})
}

//ob: props=C05,C03,C20,C17,C21,C11 extra=C05 level=1
func algInterpolate(t T) {
	chip := gl.New(t.API("none"))
	n := t.IntNovel("points", 1, 40, 1, 2, 3, 4, 8)
	var domain, weights []gfield.Element
	var vals []gl.QuadraticExtensionAlgebraVariable
	point, ev, pp := t.symA("point"), t.symA("eval"), t.symA("prod")
	we, wp := ev, pp
	for i := 0; i < n; i++ {
		d := uint64(i)*7919*4294967291 + 12345678901234567
		w := uint64(i+1)*104729*4294967279 + 98765432109876543
		domain = append(domain, gfield.NewElement(d))
		weights = append(weights, gfield.NewElement(w))
		v := t.symA("v" + itoa(i))
		vals = append(vals, av(v))
		term := asub(point, A{eb(Mod(C(d))), e0()})
		we = aadd(amul(we, term), asc(eb(Mod(C(w))), amul(v, wp)))
		wp = amul(wp, term)
	}
	ge, gp := chip.PartialInterpolateExtAlgebra(domain, vals, weights, av(point), av(ev), av(pp))
	t.eqA("C05,C11", "PartialInterpolateExtAlgebra: evaluation", ge, we)
	t.eqA("C05,C11", "PartialInterpolateExtAlgebra: partial product", gp, wp)
}

// extension operations with operands in every form, each used again afterwards
//
//ob: props=C05,C03,C20,C17,C21 extra=C05 level=1
func extOperandForms(t T) {
	chip := gl.New(t.API("none"))
	a, b := t.formE("a", t.kind("form of a")), t.formE("b", t.kind("form of b"))
	c := t.formE("c", t.Int("form of c", 0, 1, 2, 3, 5))
	t.eqE("C05", "AddExtension", chip.AddExtension(a.v, b.v), eadd(a.n, b.n))
	t.eqE("C05", "SubExtension", chip.SubExtension(a.v, b.v), esub(a.n, b.n))
	t.eqE("C05", "MulExtension", chip.MulExtension(a.v, b.v), emul(a.n, b.n))
	t.eqE("C05", "MulAddExtension", chip.MulAddExtension(a.v, b.v, c.v), eadd(emul(a.n, b.n), c.n))
	t.eqE("C05", "SubMulExtension", chip.SubMulExtension(a.v, b.v, c.v), emul(esub(a.n, b.n), c.n))
	t.eqE("C05", "ScalarMulExtension", chip.ScalarMulExtension(a.v, b.v[0]), esc(a.n, b.n[0]))
	t.eqRaw("C05,C03", "AddExtensionNoReduce", chip.AddExtensionNoReduce(a.v, b.v), eadd(a.n, b.n))
	t.eqRaw("C05,C03", "SubExtensionNoReduce", chip.SubExtensionNoReduce(a.v, b.v), esub(a.n, b.n))
	t.eqRaw("C05,C03", "MulExtensionNoReduce", chip.MulExtensionNoReduce(a.v, b.v), emul(a.n, b.n))
	t.eqRaw("C05,C03", "MulAddExtensionNoReduce", chip.MulAddExtensionNoReduce(a.v, b.v, c.v), eadd(emul(a.n, b.n), c.n))
	t.eqE("C05", "InnerProductExtension", chip.InnerProductExtension(a.v[0], c.v, [][2]gl.QuadraticExtensionVariable{{a.v, b.v}, {b.v, c.v}}), eadd(c.n, eadd(esc(emul(a.n, b.n), a.n[0]), esc(emul(b.n, c.n), a.n[0]))))
	t.eqE("C05", "ReduceWithPowers", chip.ReduceWithPowers([]gl.QuadraticExtensionVariable{a.v, b.v, c.v}, b.v), epowsum([]E{a.n, b.n, c.n}, b.n))
	bit := t.SymBits("bit", 1)
	t.eqE("C05", "Lookup", chip.Lookup(Var(bit), a.v, b.v), esel(bit, b.n, a.n))
	t.eqE("C05", "Lookup2", chip.Lookup2(Var(bit), Var(bit), a.v, b.v, c.v, a.v), esel(bit, a.n, a.n))
	t.Equal("C05", "IsZero", Of(chip.IsZero(a.v)), Mul(IsZero(a.n[0]), IsZero(a.n[1])))
	t.keptE("extension operation", a, b, c)
}
