package spec

import (
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
)

// Reference arithmetic in F_p and F_p[X]/(X^2-7).

const pDec = "18446744069414584321"

func pSub(k uint64) N { return Sub(CS(pDec), C(k)) }

func gadd(a, b N) N { return Mod(Add(a, b)) }
func gmul(a, b N) N { return Mod(Mul(a, b)) }
func gsub(a, b N) N { return Mod(Add(a, Mul(b, pSub(1)))) }

type E [2]N

func e0() E       { return E{C(0), C(0)} }
func e1() E       { return E{C(1), C(0)} }
func eb(a N) E    { return E{a, C(0)} }
func ec(k uint64) E { return E{C(k), C(0)} }

func eadd(a, b E) E { return E{gadd(a[0], b[0]), gadd(a[1], b[1])} }
func esub(a, b E) E { return E{gsub(a[0], b[0]), gsub(a[1], b[1])} }
func emul(a, b E) E {
	return E{
		Mod(Add(Mul(a[0], b[0]), Mul(C(7), a[1], b[1]))),
		Mod(Add(Mul(a[0], b[1]), Mul(a[1], b[0]))),
	}
}
func esc(a E, k N) E { return E{gmul(a[0], k), gmul(a[1], k)} }
func einv(a E) E {
	n := Mod(Add(Mul(a[0], a[0]), Mul(pSub(7), a[1], a[1])))
	i := GInv(n)
	return E{gmul(a[0], i), gmul(gmul(a[1], pSub(1)), i)}
}
func epow(a E, k uint64) E {
	r := e1()
	for k > 0 {
		if k&1 == 1 {
			r = emul(r, a)
		}
		a = emul(a, a)
		k >>= 1
	}
	return r
}
func esel(b N, x, y E) E { return E{Sel(b, x[0], y[0]), Sel(b, x[1], y[1])} }

// powers: sum of terms[i]*x^i
func epowsum(terms []E, x E) E {
	s := e0()
	for i := len(terms) - 1; i >= 0; i-- {
		s = eadd(emul(s, x), terms[i])
	}
	return s
}

// conversions

func gv(n N) gl.Variable { return gl.NewVariable(Var(n)) }
func qv(e E) gl.QuadraticExtensionVariable {
	return gl.QuadraticExtensionVariable{gv(e[0]), gv(e[1])}
}
func gn(v gl.Variable) N { return Of(v.Limb) }
func qn(v gl.QuadraticExtensionVariable) E {
	return E{Of(v[0].Limb), Of(v[1].Limb)}
}
func (t T) symE(name string) E { return E{t.Sym(name + "[0]"), t.Sym(name + "[1]")} }
func (t T) symEs(name string, n int) []E {
	var r []E
	for i := 0; i < n; i++ {
		r = append(r, t.symE(name+"."+itoa(i)))
	}
	return r
}
func (t T) syms(name string, n int) []N {
	var r []N
	for i := 0; i < n; i++ {
		r = append(r, t.Sym(name+"."+itoa(i)))
	}
	return r
}
func qvs(es []E) []gl.QuadraticExtensionVariable {
	var r []gl.QuadraticExtensionVariable
	for _, e := range es {
		r = append(r, qv(e))
	}
	return r
}
func gvs(ns []N) []gl.Variable {
	var r []gl.Variable
	for _, n := range ns {
		r = append(r, gv(n))
	}
	return r
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	s := ""
	neg := false
	if i < 0 {
		neg = true
		i = -i
	}
	for i > 0 {
		s = string(rune('0'+i%10)) + s
		i /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}

func (t T) eqE(tag, what string, got gl.QuadraticExtensionVariable, want E) {
	t.Equal(tag, what, Of(got[0].Limb), want[0])
	t.Equal(tag, what, Of(got[1].Limb), want[1])
}
func (t T) eqG(tag, what string, got gl.Variable, want N) { t.Equal(tag, what, Of(got.Limb), want) }

func probeReduce(t T) {
	chip := gl.New(t.API("none"))
	chip.Reduce(gl.NewVariable(Var(t.SymBits("x", 128))))
}

// the multiplicative generator whose powers of two subgroup Plonky2 fixes: 1753635133440165772 has
// order 2^32
const twoAdicGen = "1753635133440165772"
const mulGen = "7"

func gpow(a N, k uint64) N {
	r := C(1)
	for k > 0 {
		if k&1 == 1 {
			r = gmul(r, a)
		}
		a = gmul(a, a)
		k >>= 1
	}
	return r
}

// operands in every form callers pass them

type operand struct {
	v frontend.Variable
	n N
}

const operandForms = 7

// form builds an operand: a variable of the caller, a computed value that is used again, a value the
// builder knows to be constant, and constants of the language.
func (t T) form(name string, kind int) operand {
	switch kind {
	case 1:
		n := t.Sym(name)
		return operand{Own(n), n}
	case 2:
		return operand{Own(C(5)), C(5)}
	case 3:
		return operand{0, C(0)}
	case 4:
		return operand{1, C(1)}
	case 5:
		return operand{uint64(18446744069414584320), pSub(1)}
	case 6:
		return operand{t.BigC("9223372036854775807"), C(9223372036854775807)}
	}
	n := t.Sym(name)
	return operand{Var(n), n}
}

// kept: the operands still denote the same values
func (t T) kept(what string, os ...operand) {
	for _, o := range os {
		t.Equal("C17", what+": an operand changed", Of(o.v), o.n)
	}
}

type operandE struct {
	v gl.QuadraticExtensionVariable
	n E
}

func (t T) formE(name string, kind int) operandE {
	a, b := t.form(name+"[0]", kind), operand{gl.Zero().Limb, C(0)}
	if kind < 3 || kind == 5 {
		b = t.form(name+"[1]", kind)
	}
	return operandE{gl.QuadraticExtensionVariable{gl.NewVariable(a.v), gl.NewVariable(b.v)}, E{a.n, b.n}}
}

func (t T) keptE(what string, os ...operandE) {
	for _, o := range os {
		t.kept(what, operand{o.v[0].Limb, o.n[0]}, operand{o.v[1].Limb, o.n[1]})
	}
}

func vo(o operand) gl.Variable { return gl.NewVariable(o.v) }
