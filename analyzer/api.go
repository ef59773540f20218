package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
)

// Model of the constraint-system builder (frontend.API / frontend.Compiler). Every constraint the
// builder would add becomes an effect on the value graph.

type apiObj struct {
	id        int
	scenario  string // native, commit, none
	field     *big.Int
	deferred  []*FuncV
	commit    *commitChk
	finalized bool
	iface     Iface
}

type commitChk struct {
	coll   []chk
	closed bool
	api    *apiObj
}
type chk struct {
	t    *Term
	bits int
	pos  string
}

var (
	modelPkg = types.NewPackage("model", "model")
	apiT     = types.NewPointer(types.NewNamed(types.NewTypeName(0, modelPkg, "builder", nil), types.NewStruct(nil, nil), nil))
	instT    = types.NewNamed(types.NewTypeName(0, modelPkg, "expr", nil), types.NewStruct(nil, nil), nil)
	rcT      = types.NewPointer(types.NewNamed(types.NewTypeName(0, modelPkg, "rangechecker", nil), types.NewStruct(nil, nil), nil))
)

func (it *Interp) newAPI(scenario string) *apiObj {
	it.opSeq++
	a := &apiObj{id: it.opSeq, scenario: scenario, field: rMod}
	a.iface = Iface{apiT, &Opaque{kind: "api", data: a, id: it.opSeq}}
	return a
}

func (it *Interp) apiSupports(o *Opaque, m string) bool {
	a := o.data.(*apiObj)
	switch m {
	case "Check":
		return a.scenario == "native"
	case "Commit":
		return a.scenario != "none"
	case "FrontendType":
		return false
	case "Add", "MulAcc", "Neg", "Sub", "Mul", "DivUnchecked", "Div", "Inverse", "ToBinary", "FromBinary", "Xor", "Or", "And", "Select", "Lookup2", "IsZero", "Cmp", "AssertIsEqual", "AssertIsDifferent", "AssertIsBoolean", "AssertIsLessOrEqual", "Println", "Compiler", "NewHint", "ConstantValue",
		"MarkBoolean", "IsBoolean", "Field", "FieldBitLen", "Defer", "InternalVariable", "ToCanonicalVariable", "SetGkrInfo", "SetKeyValue", "GetKeyValue":
		return true
	}
	return false
}

func (it *Interp) newInst(t *Term, kind int) *VarInst {
	it.instSeq++
	return &VarInst{t: t, kind: kind, id: it.instSeq, pos: it.cheapPos()}
}

func (it *Interp) cheapPos() string { return "" }

func (it *Interp) mkVar(t *Term, kind int) V {
	return Iface{instT, it.newInst(t, kind)}
}

// natOf converts the content of a frontend.Variable to an element of the native field.
func (it *Interp) natOf(v V) *Term {
	i, ok := v.(Iface)
	if !ok {
		switch x := v.(type) {
		case *VarInst:
			i = Iface{instT, x}
		case *Merged:
			a, b := it.natOf(x.a), it.natOf(x.b)
			return it.ts.Ite(x.c, a, b)
		default:
			it.undecided("circuit variable of kind %T", v)
		}
	}
	if i.t == nil {
		it.gopanic("nil circuit variable")
	}
	switch x := i.v.(type) {
	case *VarInst:
		if x.dead != "" {
			it.violate("C17", fmt.Sprintf("value accumulated into in place at %s is read again", x.dead))
		}
		return x.t
	case I:
		if _, signed, ok := intInfo(i.t); ok && signed {
			return it.ts.Const(SNat, big.NewInt(int64(x)))
		}
		return it.ts.Const(SNat, new(big.Int).SetUint64(uint64(x)))
	case string:
		k, ok := new(big.Int).SetString(x, 0)
		if !ok {
			it.gopanic("cannot convert %q to a field element", x)
		}
		return it.ts.Const(SNat, k)
	case BigV:
		return it.natBig(x)
	case GlV:
		return it.ts.NatU(uint64(x))
	case Ptr:
		if x.c == nil {
			it.gopanic("nil pointer as circuit variable")
		}
		switch y := it.load(x.c).(type) {
		case BigV:
			return it.natBig(y)
		case GlV:
			return it.ts.NatU(uint64(y))
		case *Term:
			return it.natTerm(y)
		}
	case *Term:
		return it.natTerm(x)
	case *Merged:
		return it.ts.Ite(x.c, it.natOf(Iface{i.t, x.a}), it.natOf(Iface{i.t, x.b}))
	case Iface:
		return it.natOf(x)
	}
	it.gopanic("value of type %s cannot be used as a circuit variable", i.t)
	return nil
}

func (it *Interp) natBig(b BigV) *Term {
	if b.k != nil {
		return it.ts.Const(SNat, b.k)
	}
	return it.ts.OfZ(b.t)
}

func (it *Interp) natTerm(t *Term) *Term {
	switch t.sort {
	case SNat:
		return t
	case SInt, SZ:
		return it.ts.OfZ(t)
	case SStr:
		return it.ts.OfZ(it.ts.Prim(SZ, "parsedec", t))
	}
	it.undecided("circuit variable made of %v", t)
	return nil
}

func (it *Interp) sliceVals(v V) []V {
	s, ok := v.(Slice)
	if !ok {
		if v == nil {
			return nil
		}
		it.undecided("expected a slice, got %T", v)
	}
	var r []V
	for i := 0; i < s.len; i++ {
		r = append(r, it.load(s.arr.kids[s.off+i]))
	}
	return r
}

func (it *Interp) mkSlice(et types.Type, vals []V) V {
	return Slice{it.newArr(et, vals), 0, len(vals), len(vals)}
}

func (it *Interp) eff(a *apiObj, kind string, n int64, args ...*Term) {
	it.curAPI = a.id
	it.emit(kind, n, args...)
	it.curAPI = 0
}

func (it *Interp) boolEff(a *apiObj, b *Term) {
	if b.boolean() {
		return
	}
	it.eff(a, "BOOL", 0, b)
}

func (it *Interp) bitsEff(a *apiObj, x *Term, n int) {
	switch {
	case n <= 0:
		it.eff(a, "EQ", 0, x)
	case n == 1:
		it.boolEff(a, x)
	case n >= 254:
	default:
		it.eff(a, "BITS", int64(n), x)
	}
}

func (it *Interp) apiCall(c *callCtx, o *Opaque) V {
	a := o.data.(*apiObj)
	ts := it.ts
	arg := func(i int) *Term { return it.natOf(c.args[i]) }
	rest := func(i int) []*Term {
		var r []*Term
		for _, v := range it.sliceVals(c.args[i]) {
			r = append(r, it.natOf(v))
		}
		return r
	}
	out := func(t *Term) V { return it.mkVar(t, instOwned) }
	eq := func(d *Term) {
		if d.isConst() && d.k.Sign() == 0 {
			return
		}
		it.eff(a, "EQ", 0, d)
	}
	name := c.fn.Name()
	if a.finalized {
		switch name {
		case "Compiler", "Field", "FieldBitLen":
		default:
			it.violate("C04", "builder used after the circuit was finalised")
		}
	}
	switch name {
	case "Add":
		t := ts.Add(arg(0), arg(1))
		for _, x := range rest(2) {
			t = ts.Add(t, x)
		}
		return out(t)
	case "Sub":
		t := ts.Sub(arg(0), arg(1))
		for _, x := range rest(2) {
			t = ts.Sub(t, x)
		}
		return out(t)
	case "Neg":
		return out(ts.Scale(arg(0), big.NewInt(-1)))
	case "Mul":
		t := ts.Mul(arg(0), arg(1))
		for _, x := range rest(2) {
			t = ts.Mul(t, x)
		}
		return out(t)
	case "MulAcc":
		acc, b, d := arg(0), arg(1), arg(2)
		if i, ok := c.args[0].(Iface); ok {
			if v, ok := i.v.(*VarInst); ok {
				switch v.kind {
				case instBorrowed:
					it.violate("C17", "MulAcc accumulates in place into a variable owned by the caller")
				case instOwned:
					v.dead = it.where()
				}
			}
		}
		return out(ts.Add(acc, ts.Mul(b, d)))
	case "DivUnchecked", "Div":
		x, y := arg(0), arg(1)
		if y.isConst() && y.k.Sign() == 0 {
			it.gopanic("division by zero")
		}
		if !y.isConst() {
			it.eff(a, "NE", 0, y)
		}
		return out(ts.Mul(x, ts.NInv(y)))
	case "Inverse":
		y := arg(0)
		if y.isConst() && y.k.Sign() == 0 {
			it.gopanic("inverse of zero")
		}
		if !y.isConst() {
			it.eff(a, "NE", 0, y)
		}
		return out(ts.NInv(y))
	case "ToBinary":
		x := arg(0)
		n := 254
		if ns := it.sliceVals(c.args[1]); len(ns) > 0 {
			n = int(int64(ns[0].(I)))
			if n < 0 {
				it.gopanic("invalid n")
			}
		}
		return it.toBinary(a, x, n)
	case "FromBinary":
		t := ts.NatU(0)
		for i, b := range rest(0) {
			it.boolEff(a, b)
			t = ts.Add(t, ts.Scale(b, new(big.Int).Lsh(bigOne, uint(i))))
		}
		return out(t)
	case "Xor":
		x, y := arg(0), arg(1)
		it.boolEff(a, x)
		it.boolEff(a, y)
		return out(it.markBool(ts.Sel(x, ts.Sub(ts.NatU(1), y), y)))
	case "Or":
		x, y := arg(0), arg(1)
		it.boolEff(a, x)
		it.boolEff(a, y)
		return out(ts.Sel(x, ts.NatU(1), y))
	case "And":
		x, y := arg(0), arg(1)
		it.boolEff(a, x)
		it.boolEff(a, y)
		return out(ts.Mul(x, y))
	case "Select":
		b := arg(0)
		if b.isConst() {
			// the builder returns the operand itself
			k := 1
			if b.k.Sign() == 0 {
				k = 2
			} else if b.k.Cmp(bigOne) != 0 {
				it.gopanic("select with a constant that is not boolean")
			}
			if i, ok := c.args[k].(Iface); ok {
				if _, ok := i.v.(*VarInst); ok {
					return c.args[k]
				}
			}
			return out(arg(k))
		}
		it.boolEff(a, b)
		return out(ts.Sel(b, arg(1), arg(2)))
	case "Lookup2":
		b0, b1 := arg(0), arg(1)
		it.boolEff(a, b0)
		it.boolEff(a, b1)
		return out(ts.Sel(b1, ts.Sel(b0, arg(5), arg(4)), ts.Sel(b0, arg(3), arg(2))))
	case "IsZero":
		return out(ts.IsZero(arg(0)))
	case "Cmp":
		x, y := arg(0), arg(1)
		return out(ts.UF(SNat, "cmp", 0, nil, nil, x, y))
	case "AssertIsEqual":
		x, y := arg(0), arg(1)
		d := ts.Sub(x, y)
		if d.isConst() && d.k.Sign() != 0 {
			it.gopanic("AssertIsEqual on constants that differ")
		}
		eq(d)
		return nil
	case "AssertIsDifferent":
		d := ts.Sub(arg(0), arg(1))
		if d.isConst() {
			if d.k.Sign() == 0 {
				it.gopanic("AssertIsDifferent on equal values")
			}
			return nil
		}
		it.eff(a, "NE", 0, d)
		return nil
	case "AssertIsBoolean":
		x := arg(0)
		if x.isConst() && x.k.Cmp(bigOne) > 0 {
			it.gopanic("AssertIsBoolean on a constant that is not boolean")
		}
		it.boolEff(a, x)
		return nil
	case "AssertIsLessOrEqual":
		x, y := arg(0), arg(1)
		if y.isConst() {
			if y.k.Cmp(pM1) == 0 {
				it.eff(a, "CANON", 0, x)
				return nil
			}
			k := new(big.Int).Add(y.k, bigOne)
			if new(big.Int).And(k, y.k).Sign() == 0 {
				it.bitsEff(a, x, k.BitLen()-1)
				return nil
			}
		}
		it.eff(a, "LE", 0, x, y)
		return nil
	case "Println":
		return nil
	case "Compiler":
		return a.iface
	case "Field":
		return Ptr{it.newCell(it.bigT(), BigV{k: a.field})}
	case "FieldBitLen":
		return I(a.field.BitLen())
	case "MarkBoolean":
		return nil
	case "IsBoolean":
		return arg(0).boolean()
	case "ConstantValue":
		x := arg(0)
		if x.isConst() {
			return Tuple{Ptr{it.newCell(it.bigT(), BigV{k: x.k})}, true}
		}
		return Tuple{Ptr{}, false}
	case "Defer":
		fv, _ := c.args[0].(*FuncV)
		a.deferred = append(a.deferred, fv)
		return nil
	case "Check":
		n, ok := c.args[1].(I)
		if !ok {
			it.undecided("width of a range check depends on circuit data")
		}
		it.bitsEff(a, arg(0), int(int64(n)))
		return nil
	case "Commit":
		it.opSeq++
		return Tuple{out(ts.UF(SNat, "commitment", int64(it.opSeq), nil, nil, rest(0)...)), Iface{}}
	case "InternalVariable", "ToCanonicalVariable":
		return c.args[0]
	case "NewHint":
		fv, _ := c.args[0].(*FuncV)
		n, ok := c.args[1].(I)
		if !ok {
			it.undecided("number of hint outputs depends on circuit data")
		}
		ins := rest(2)
		nm := "?"
		if fv != nil {
			nm = shortFn(fv.name)
		}
		it.opSeq++
		var vals []V
		var outs []*Term
		if it.run.honest {
			hs, bad := it.runHint(fv, ins, int(n))
			if bad != "" {
				it.violate("C20", bad)
				for len(hs) < int(n) {
					hs = append(hs, ts.NatU(0))
				}
			}
			for _, h := range hs {
				vals = append(vals, it.mkVar(h, instHint))
			}
			it.run.nHonest++
			return Tuple{it.mkSlice(types.NewInterfaceType(nil, nil), vals), Iface{}}
		}
		for k := 0; k < int(n); k++ {
			s := ts.Sym(SNat, fmt.Sprintf("hint%d.%s[%d]", it.opSeq, nm, k), nil, nil)
			outs = append(outs, s)
			vals = append(vals, it.mkVar(s, instHint))
			it.run.hintSyms[s.id] = true
		}
		it.run.hints = append(it.run.hints, &hintCall{fv: fv, ins: ins, outs: outs, syms: append([]*Term{}, outs...), pos: it.where()})
		return Tuple{it.mkSlice(types.NewInterfaceType(nil, nil), vals), Iface{}}
	}
	it.undecided("builder method %s has no model", name)
	return nil
}

type hintCall struct {
	fv   *FuncV
	ins  []*Term
	outs []*Term
	syms []*Term // as created
	pos  string
}

func shortFn(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' || s[i] == '.' {
			return s[i+1:]
		}
	}
	return s
}

func (it *Interp) markBool(t *Term) *Term { return t }

func (it *Interp) toBinary(a *apiObj, x *Term, n int) V {
	if !x.isConst() {
		it.bitsEff(a, x, n)
	} else if x.k.BitLen() > n {
		it.gopanic("constant does not fit in %d bits", n)
	}
	var vals []V
	for i := 0; i < n; i++ {
		vals = append(vals, it.mkVar(it.ts.Bit(x, i), instOwned))
	}
	return it.mkSlice(types.NewInterfaceType(nil, nil), vals)
}

func (it *Interp) bigT() types.Type {
	return it.w.Pkgs["math/big"].Types.Scope().Lookup("Int").Type()
}

// finalize runs the deferred callbacks the way the compiler does.
func (it *Interp) finalize(a *apiObj) {
	for i := 0; i < len(a.deferred); i++ {
		r := it.callFn(a.deferred[i], []V{a.iface}, nil)
		if e, ok := r.(Iface); ok && e.t != nil {
			it.gopanic("deferred callback failed: %s", describe(e.v))
		}
	}
	a.finalized = true
}

func decomp(bits, base int) int { return (bits + base - 1) / base }

func (c *commitChk) width() int {
	min, val := math.MaxInt64, 0
	for j := 2; j < 18; j++ {
		n := 0
		for _, x := range c.coll {
			n += decomp(x.bits, j)
		}
		cur := n + len(c.coll) + 1<<uint(j) + 1
		if cur < min {
			min, val = cur, j
		}
	}
	return val
}

// rangecheckNew models gnark's rangecheck.New.
func (it *Interp) rangecheckNew(c *callCtx) V {
	i, _ := c.args[0].(Iface)
	o, ok := i.v.(*Opaque)
	if !ok || o.kind != "api" {
		it.undecided("rangecheck.New on an unknown builder")
	}
	a := o.data.(*apiObj)
	switch a.scenario {
	case "native":
		return a.iface
	case "commit":
		if a.commit == nil {
			a.commit = &commitChk{api: a}
			ch := a.commit
			a.deferred = append(a.deferred, &FuncV{name: "commitChecker.commit", nat: func(*callCtx) V {
				ch.closed = true
				if len(ch.coll) == 0 {
					return Iface{}
				}
				base := ch.width()
				for _, x := range ch.coll {
					it.curAPI = a.id
					n := len(it.effects)
					it.bitsEff(a, x.t, decomp(x.bits, base)*base)
					if len(it.effects) > n {
						it.effects[len(it.effects)-1].pos = x.pos
					}
				}
				return Iface{}
			}})
		}
		it.opSeq++
		return Iface{rcT, &Opaque{kind: "commitrc", data: a.commit, id: it.opSeq}}
	}
	it.opSeq++
	return Iface{rcT, &Opaque{kind: "plainrc", data: a, id: it.opSeq}}
}

func (it *Interp) rcCall(c *callCtx, o *Opaque) V {
	if c.fn.Name() != "Check" {
		it.undecided("range checker method %s", c.fn.Name())
	}
	n, ok := c.args[1].(I)
	if !ok {
		it.undecided("width of a range check depends on circuit data")
	}
	x := it.natOf(c.args[0])
	switch d := o.data.(type) {
	case *apiObj:
		it.bitsEff(d, x, int(int64(n)))
	case *commitChk:
		if d.closed {
			it.gopanic("checker already closed")
		}
		d.coll = append(d.coll, chk{x, int(int64(n)), it.where()})
	}
	return nil
}
