package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

// Models of the library functions the repository uses.

const glPkg = "github.com/consensys/gnark-crypto/field/goldilocks"

func (it *Interp) addStd(names string, f intrinsic) {
	for _, n := range strings.Fields(names) {
		it.std[n] = f
	}
}

func (it *Interp) ptrTo(t types.Type, v V) V { return Ptr{it.newCell(t, v)} }

func (it *Interp) libType(pkg, name string) types.Type {
	p := it.w.Pkgs[pkg]
	if p == nil || p.Types == nil {
		it.undecided("package %s is not loaded", pkg)
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		it.undecided("type %s.%s not found", pkg, name)
	}
	return o.Type()
}

func (it *Interp) extGlobal(o *types.Var) V {
	if o.Type().String() == "error" {
		return it.mkErr(o.Pkg().Path() + "." + o.Name())
	}
	return it.zero(o.Type())
}

func (it *Interp) nativeByName(name string, c *callCtx) (V, bool) {
	if c.fn != nil && c.fn.Pkg() != nil {
		p := c.fn.Pkg().Path()
		if p == "math/rand" || p == "crypto/rand" || p == "time" || p == "math/rand/v2" {
			it.event("nondet", name)
			it.undecided("call of %s: the result is not determined by the inputs", name)
		}
	}
	return nil, false
}

// asZ converts a machine integer or big integer term to sort SZ.
func (it *Interp) asZ(v V) *Term {
	switch x := v.(type) {
	case I:
		return it.ts.Const(SZ, new(big.Int).SetUint64(uint64(x)))
	case GlV:
		return it.ts.Const(SZ, new(big.Int).SetUint64(uint64(x)))
	case BigV:
		return it.zOf(x)
	case *Term:
		switch x.sort {
		case SZ:
			return x
		case SInt:
			if x.op == OPrim && x.name == "low64" && x.args[0].within(new(big.Int).Sub(two64, bigOne)) {
				return x.args[0]
			}
			if x.isConst() {
				return it.ts.Const(SZ, x.k)
			}
			if x.op == OPrim && len(x.args) == 2 {
				a, b := x.args[0], x.args[1]
				if x.name == "and" && a.isConst() {
					a, b = b, a
				}
				if x.name == "and" && b.isConst() {
					if n, ok := isPow2(new(big.Int).Add(b.k, bigOne)); ok {
						return it.zDiv("mod", it.asZ(a), it.ts.Const(SZ, new(big.Int).Lsh(bigOne, n)))
					}
				}
				if x.name == "shr" && b.isConst() && b.k.Cmp(big.NewInt(64)) < 0 {
					return it.zDiv("div", it.asZ(a), it.ts.Const(SZ, new(big.Int).Lsh(bigOne, uint(b.k.Uint64()))))
				}
			}
			t := it.ts.Prim(SZ, "uns", x)
			if t.lo == nil {
				t.lo, t.hi = bigZero, new(big.Int).Sub(two64, bigOne)
			}
			return t
		}
	}
	it.undecided("integer of kind %T", v)
	return nil
}

func (it *Interp) zcell(v V) (*Cell, BigV) {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	p, ok := v.(Ptr)
	if !ok {
		if m, ok := v.(*Merged); ok {
			it.undecided("big integer pointer differs between branches: %v", m.c)
		}
		it.undecided("big integer of kind %T", v)
	}
	if p.c == nil {
		it.gopanic("nil *big.Int")
	}
	b, ok := it.load(p.c).(BigV)
	if !ok {
		it.undecided("big integer cell holds %T", it.load(p.c))
	}
	return p.c, b
}

func isPow2(k *big.Int) (uint, bool) {
	if k.Sign() <= 0 {
		return 0, false
	}
	n := uint(k.BitLen() - 1)
	return n, new(big.Int).Lsh(bigOne, n).Cmp(k) == 0
}

func (it *Interp) zDiv(name string, a, b *Term) *Term {
	if b.isConst() && b.k.Sign() == 0 {
		it.gopanic("division by zero")
	}
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		switch name {
		case "quo":
			name = "div"
		case "rem":
			name = "mod"
		}
		if a.hi != nil && a.hi.Cmp(b.lo) < 0 {
			if name == "div" {
				return it.ts.Const(SZ, bigZero)
			}
			return a
		}
	}
	return it.ts.Prim(SZ, name, a, b)
}

func (it *Interp) zCmp(a, b *Term) V {
	ts := it.ts
	if a == b {
		return I(0)
	}
	lt := ts.Prim(SBool, "lt", a, b)
	eq := ts.Prim(SBool, "eq", a, b)
	m1 := ts.Const(SInt, big.NewInt(-1))
	r := ts.Ite(lt, m1, ts.Ite(eq, ts.Const(SInt, bigZero), ts.Const(SInt, bigOne)))
	return it.unterm(r, types.Typ[types.Int])
}

func (it *Interp) initStd() {
	ts := it.ts
	it.std = map[string]intrinsic{}
	it.dyn = map[string]func(c *callCtx, o *Opaque) V{}
	it.dyn["api"] = func(c *callCtx, o *Opaque) V { return it.apiCall(c, o) }
	it.dyn["commitrc"] = func(c *callCtx, o *Opaque) V { return it.rcCall(c, o) }
	it.dyn["plainrc"] = func(c *callCtx, o *Opaque) V { return it.rcCall(c, o) }
	it.dyn["ext"] = func(c *callCtx, o *Opaque) V { return it.extMethod(c, o) }

	defer it.initBench()
	// ---- fmt, errors, log, os
	out := func(c *callCtx) V {
		if it.run.logPrint && len(c.args) > 0 {
			var vals []V
			for _, a := range c.args {
				if s, ok := a.(Slice); ok {
					vals = append(vals, it.sliceVals(s)...)
				} else {
					vals = append(vals, a)
				}
			}
			it.printed(vals)
		}
		if c.sig.Results().Len() == 2 {
			return Tuple{I(0), Iface{}}
		}
		return nil
	}
	it.addStd("fmt.Printf fmt.Println fmt.Print fmt.Fprintf fmt.Fprintln fmt.Fprint log.Println log.Printf log.Print (*log.Logger).Println (*log.Logger).Printf log.SetFlags log.SetPrefix", out)
	it.addStd("fmt.Sprintf", func(c *callCtx) V {
		f, ok := c.args[0].(string)
		if !ok || anySymbolic(it, c.args[1]) {
			return it.strUF("sprintf", append([]V{c.args[0]}, it.sliceVals(c.args[1])...))
		}
		return fmt.Sprintf(f, it.plainArgs(c.args[1])...)
	})
	it.addStd("fmt.Sprint fmt.Sprintln", func(c *callCtx) V {
		if anySymbolic(it, c.args[0]) {
			return it.strUF("sprint", it.sliceVals(c.args[0]))
		}
		if c.fn.Name() == "Sprintln" {
			return fmt.Sprintln(it.plainArgs(c.args[0])...)
		}
		return fmt.Sprint(it.plainArgs(c.args[0])...)
	})
	it.addStd("fmt.Errorf", func(c *callCtx) V {
		f, _ := c.args[0].(string)
		if strings.Contains(f, "%w") {
			return it.mkErr(f, it.sliceVals(c.args[1])...)
		}
		return it.mkErr(f)
	})
	it.addStd("errors.New", func(c *callCtx) V { return it.mkErr(c.args[0]) })
	it.addStd("errors.Join", func(c *callCtx) V {
		var l []V
		for _, v := range it.sliceVals(c.args[0]) {
			if i, ok := v.(Iface); ok && i.t != nil {
				l = append(l, v)
			}
		}
		if len(l) == 0 {
			return Iface{}
		}
		return it.mkErr("errors", l...)
	})
	it.addStd("errors.Is", func(c *callCtx) V {
		a, _ := c.args[0].(Iface)
		b, _ := c.args[1].(Iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		x, ok1 := a.v.(ErrV)
		y, ok2 := b.v.(ErrV)
		return ok1 && ok2 && x.id.is(y.id)
	})
	it.addStd("log.Fatal log.Fatalf log.Fatalln os.Exit (*log.Logger).Fatal (*log.Logger).Fatalf", func(c *callCtx) V {
		why := c.fn.Name()
		if c.fn.Name() == "Exit" {
			if n, ok := c.args[0].(I); ok && n == 0 {
				why = "success"
			}
		}
		it.event("exit", why)
		panic(exitProc{why + " at " + it.where()})
	})
	it.addStd("log.Panic log.Panicf log.Panicln", func(c *callCtx) V {
		it.gopanic("log.Panic")
		return nil
	})
	it.addStd("os.Getenv", func(c *callCtx) V {
		k, ok := c.args[0].(string)
		if !ok {
			it.undecided("environment variable name is not constant")
		}
		it.event("getenv", k)
		if !modelledEnv(k) {
			return it.ts.Sym(SStr, "env:"+k, nil, nil)
		}
		return it.run.env[k]
	})
	it.addStd("os.LookupEnv", func(c *callCtx) V {
		k, ok := c.args[0].(string)
		if !ok {
			it.undecided("environment variable name is not constant")
		}
		it.event("getenv", k)
		if !modelledEnv(k) {
			return Tuple{it.ts.Sym(SStr, "env:"+k, nil, nil), it.ts.Sym(SBool, "envset:"+k, nil, nil)}
		}
		v, ok := it.run.env[k]
		return Tuple{v, ok}
	})

	// ---- sync
	it.addStd("(*sync.Mutex).Lock (*sync.RWMutex).Lock (*sync.RWMutex).RLock", func(c *callCtx) V {
		cell := it.ptrCell(c.recv)
		n, _ := cell.val.(I)
		if n > 0 && c.fn.Name() == "Lock" {
			it.run.deadlock = append(it.run.deadlock, it.where())
			it.gopanic("mutex locked twice (deadlock)")
		}
		it.setLeaf(cell, n+1)
		it.csSeq++
		it.held = append(it.held, heldLock{cell, c.fn.Name() == "RLock", it.csSeq})
		return nil
	})
	it.addStd("(*sync.Mutex).TryLock", func(c *callCtx) V {
		it.undecided("TryLock depends on the schedule")
		return nil
	})
	it.addStd("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock (*sync.RWMutex).RUnlock", func(c *callCtx) V {
		cell := it.ptrCell(c.recv)
		n, _ := cell.val.(I)
		if n == 0 {
			it.gopanic("unlock of unlocked mutex")
		}
		it.setLeaf(cell, n-1)
		for i := len(it.held) - 1; i >= 0; i-- {
			if it.held[i].c == cell {
				it.held = append(append([]heldLock{}, it.held[:i]...), it.held[i+1:]...)
				break
			}
		}
		return nil
	})
	it.addStd("(*sync.Once).Do", func(c *callCtx) V {
		cell := it.ptrCell(c.recv)
		if n, _ := cell.val.(I); n == 0 {
			it.setLeaf(cell, I(1))
			it.csSeq++
			it.held = append(it.held, heldLock{cell, false, it.csSeq})
			it.callFn(c.args[0].(*FuncV), nil, c.call)
			it.held = it.held[:len(it.held)-1]
		}
		// what the function wrote is visible to whoever has called Do
		it.passed = append(it.passed, heldLock{cell, true, 0})
		return nil
	})
	smap := func(c *callCtx) *MapRef {
		cell := it.ptrCell(c.recv)
		m, ok := cell.val.(*MapRef)
		if !ok {
			m = it.newMap(false)
			it.setLeaf(cell, m)
		}
		return m
	}
	anyT := types.NewInterfaceType(nil, nil)
	it.addStd("(*sync.Map).Load", func(c *callCtx) V {
		v, ok := it.mapGet(smap(c), c.args[0])
		if !ok {
			v = it.zero(anyT)
		}
		return Tuple{v, ok}
	})
	it.addStd("(*sync.Map).Store", func(c *callCtx) V { it.mapSet(smap(c), c.args[0], c.args[1]); return nil })
	it.addStd("(*sync.Map).Delete", func(c *callCtx) V { it.mapDelete(smap(c), c.args[0]); return nil })
	it.addStd("(*sync.Map).LoadOrStore", func(c *callCtx) V {
		m := smap(c)
		if v, ok := it.mapGet(m, c.args[0]); ok {
			return Tuple{v, true}
		}
		it.mapSet(m, c.args[0], c.args[1])
		return Tuple{c.args[1], false}
	})

	// ---- regexp
	it.addStd("regexp.MustCompile regexp.Compile", func(c *callCtx) V {
		s, ok := c.args[0].(string)
		if !ok {
			it.undecided("regular expression is not constant")
		}
		re, err := regexp.Compile(s)
		if c.fn.Name() == "Compile" {
			if err != nil {
				return Tuple{Ptr{}, it.mkErr(err.Error())}
			}
			return Tuple{it.ptrTo(it.libType("regexp", "Regexp"), &Opaque{kind: "ext", data: re}), Iface{}}
		}
		if err != nil {
			it.gopanic("regexp: %v", err)
		}
		return it.ptrTo(it.libType("regexp", "Regexp"), &Opaque{kind: "ext", data: re})
	})
	re := func(c *callCtx) *regexp.Regexp {
		o, ok := it.load(it.ptrCell(c.recv)).(*Opaque)
		if !ok || o == nil {
			it.undecided("regular expression value")
		}
		return o.data.(*regexp.Regexp)
	}
	str := func(v V) string {
		s, ok := v.(string)
		if !ok {
			it.undecided("string %s is not a shape constant", describe(v))
		}
		return s
	}
	strs := func(l []string) V {
		if l == nil {
			return Slice{}
		}
		var vals []V
		for _, s := range l {
			vals = append(vals, s)
		}
		return it.mkSlice(types.Typ[types.String], vals)
	}
	ints := func(l []int) V {
		if l == nil {
			return Slice{}
		}
		var vals []V
		for _, s := range l {
			vals = append(vals, I(uint64(int64(s))))
		}
		return it.mkSlice(types.Typ[types.Int], vals)
	}
	it.addStd("(*regexp.Regexp).FindStringSubmatch", func(c *callCtx) V { return strs(re(c).FindStringSubmatch(str(c.args[0]))) })
	it.addStd("(*regexp.Regexp).FindStringSubmatchIndex", func(c *callCtx) V { return ints(re(c).FindStringSubmatchIndex(str(c.args[0]))) })
	it.addStd("(*regexp.Regexp).FindString", func(c *callCtx) V { return re(c).FindString(str(c.args[0])) })
	it.addStd("(*regexp.Regexp).MatchString", func(c *callCtx) V { return re(c).MatchString(str(c.args[0])) })
	it.addStd("(*regexp.Regexp).SubexpNames", func(c *callCtx) V { return strs(re(c).SubexpNames()) })
	it.addStd("(*regexp.Regexp).SubexpIndex", func(c *callCtx) V { return I(uint64(int64(re(c).SubexpIndex(str(c.args[0]))))) })
	it.addStd("(*regexp.Regexp).NumSubexp", func(c *callCtx) V { return I(re(c).NumSubexp()) })
	it.addStd("(*regexp.Regexp).String", func(c *callCtx) V { return re(c).String() })
	it.addStd("(*regexp.Regexp).FindAllString", func(c *callCtx) V {
		return strs(re(c).FindAllString(str(c.args[0]), int(int64(c.args[1].(I)))))
	})

	it.initStd2()
	it.initBig()
	it.initGl()
	it.initFelt()
	it.initIO()
	it.initSpec()

	// ---- gnark
	it.addStd("github.com/consensys/gnark/std/rangecheck.New", func(c *callCtx) V { return it.rangecheckNew(c) })
	it.addStd("github.com/consensys/gnark/constraint/solver.RegisterHint", func(c *callCtx) V {
		for _, v := range it.sliceVals(c.args[0]) {
			if fv, ok := v.(*FuncV); ok && fv != nil {
				it.registered[fv.name] = true
			}
		}
		return nil
	})
	it.addStd("github.com/consensys/gnark/std/math/bits.WithNbDigits", func(c *callCtx) V {
		n, ok := c.args[0].(I)
		if !ok {
			it.undecided("number of digits depends on circuit data")
		}
		return &FuncV{name: "nbdigits", recv: n}
	})
	it.addStd("github.com/consensys/gnark/std/math/bits.WithUnconstrainedInputs github.com/consensys/gnark/std/math/bits.WithUnconstrainedOutputs github.com/consensys/gnark/std/math/bits.OmitModulusCheck", func(c *callCtx) V {
		return &FuncV{name: "unconstrained"}
	})
	it.addStd("github.com/consensys/gnark/std/math/bits.ToBinary", func(c *callCtx) V {
		i, _ := c.args[0].(Iface)
		o, ok := i.v.(*Opaque)
		if !ok {
			it.undecided("ToBinary on an unknown builder")
		}
		n := 254
		free := false
		for _, v := range it.sliceVals(c.args[2]) {
			fv := v.(*FuncV)
			switch fv.name {
			case "nbdigits":
				n = int(int64(fv.recv.(I)))
			case "unconstrained":
				free = true
			}
		}
		if n <= 0 {
			it.gopanic("nbDigits <= 0")
		}
		if free {
			it.opSeq++
			var vals []V
			for k := 0; k < n; k++ {
				s := ts.Sym(SNat, fmt.Sprintf("hint%d.bit[%d]", it.opSeq, k), nil, nil)
				it.run.hintSyms[s.id] = true
				vals = append(vals, it.mkVar(s, instHint))
			}
			return it.mkSlice(anyT, vals)
		}
		return it.toBinary(o.data.(*apiObj), it.natOf(c.args[1]), n)
	})
	it.addStd("github.com/consensys/gnark/std/math/bits.FromBinary", func(c *callCtx) V {
		i, _ := c.args[0].(Iface)
		o, ok := i.v.(*Opaque)
		if !ok {
			it.undecided("FromBinary on an unknown builder")
		}
		a := o.data.(*apiObj)
		t := ts.NatU(0)
		for k, v := range it.sliceVals(c.args[1]) {
			b := it.natOf(v)
			it.boolEff(a, b)
			t = ts.Add(t, ts.Scale(b, new(big.Int).Lsh(bigOne, uint(k))))
		}
		return it.mkVar(t, instOwned)
	})
	for n, k := range map[string]*big.Int{
		"(github.com/consensys/gnark/std/math/emulated/emparams.Goldilocks).Modulus": pMod,
		"(github.com/consensys/gnark/std/math/emulated.Goldilocks).Modulus":          pMod,
		"(github.com/consensys/gnark/std/math/emulated/emparams.BN254Fr).Modulus":    rMod,
		glPkg + ".Modulus": pMod,
		"github.com/consensys/gnark-crypto/ecc/bn254/fr.Modulus": rMod,
	} {
		k := k
		it.addStd(n, func(c *callCtx) V { return it.ptrTo(it.bigT(), BigV{k: new(big.Int).Set(k)}) })
	}
}

// strUF is a string computed from symbolic data (only used in messages).
func (it *Interp) strUF(name string, args []V) V {
	var l []*Term
	for _, a := range args {
		if i, ok := a.(Iface); ok {
			a = i.v
		}
		if t, ok := it.asTerm(a); ok {
			l = append(l, t)
		}
	}
	return it.ts.UF(SStr, name, 0, nil, nil, l...)
}

func (it *Interp) extMethod(c *callCtx, o *Opaque) V {
	it.undecided("method %s on an external value", c.fn.Name())
	return nil
}

func (it *Interp) initBig() {
	ts := it.ts
	B := func(s string) string {
		var r []string
		for _, n := range strings.Fields(s) {
			r = append(r, "(*math/big.Int)."+n)
		}
		return strings.Join(r, " ")
	}
	set := func(c *callCtx, b BigV) V {
		cell, _ := it.zcell(c.recv)
		it.store(cell, b)
		return c.recv
	}
	it.addStd("math/big.NewInt", func(c *callCtx) V {
		switch x := c.args[0].(type) {
		case I:
			return it.ptrTo(it.bigT(), BigV{k: big.NewInt(int64(x))})
		case *Term:
			return it.ptrTo(it.bigT(), it.bigOf(it.asZ(x)))
		}
		it.undecided("big.NewInt of %T", c.args[0])
		return nil
	})
	it.addStd(B("SetInt64"), func(c *callCtx) V {
		if n, ok := c.args[0].(I); ok {
			return set(c, BigV{k: big.NewInt(int64(n))})
		}
		return set(c, it.bigOf(ts.Prim(SZ, "signed", c.args[0].(*Term))))
	})
	it.addStd(B("SetUint64"), func(c *callCtx) V {
		if n, ok := c.args[0].(I); ok {
			return set(c, BigV{k: new(big.Int).SetUint64(uint64(n))})
		}
		return set(c, it.bigOf(it.asZ(c.args[0])))
	})
	it.addStd(B("Set"), func(c *callCtx) V {
		_, b := it.zcell(c.args[0])
		return set(c, b)
	})
	it.addStd(B("SetString"), func(c *callCtx) V {
		base, _ := c.args[1].(I)
		switch s := c.args[0].(type) {
		case string:
			k, ok := new(big.Int).SetString(s, int(base))
			if !ok {
				return Tuple{Ptr{}, false}
			}
			return Tuple{set(c, BigV{k: k}), true}
		case *Term:
			name := fmt.Sprintf("parse%d", base)
			if base == 10 || base == 0 {
				name = "parsedec"
			}
			return Tuple{set(c, BigV{t: ts.Prim(SZ, name, s)}), ts.Prim(SBool, "isdec", s)}
		}
		it.undecided("SetString of %T", c.args[0])
		return nil
	})
	it.addStd(B("SetBytes"), func(c *callCtx) V {
		k := new(big.Int)
		for _, v := range it.sliceVals(c.args[0]) {
			n, ok := v.(I)
			if !ok {
				if what, from, ok := rawRange(it.sliceVals(c.args[0])); ok {
					n := len(it.sliceVals(c.args[0]))
					t := ts.Sym(SZ, fmt.Sprintf("<%s[%d:%d]>", what, from, from+n), bigZero, new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(8*n)), bigOne))
					return set(c, BigV{t: t})
				}
				it.undecided("SetBytes of symbolic bytes")
			}
			k.Lsh(k, 8).Add(k, new(big.Int).SetUint64(uint64(n)))
		}
		return set(c, BigV{k: k})
	})
	it.addStd(B("Add Sub Mul Div Mod Quo Rem And Or Xor"), func(c *callCtx) V {
		_, a := it.zcell(c.args[0])
		_, b := it.zcell(c.args[1])
		if a.k != nil && b.k != nil {
			r := new(big.Int)
			switch c.fn.Name() {
			case "Add":
				r.Add(a.k, b.k)
			case "Sub":
				r.Sub(a.k, b.k)
			case "Mul":
				r.Mul(a.k, b.k)
			case "And":
				r.And(a.k, b.k)
			case "Or":
				r.Or(a.k, b.k)
			case "Xor":
				r.Xor(a.k, b.k)
			default:
				if b.k.Sign() == 0 {
					it.gopanic("division by zero")
				}
				switch c.fn.Name() {
				case "Div":
					r.Div(a.k, b.k)
				case "Mod":
					r.Mod(a.k, b.k)
				case "Quo":
					r.Quo(a.k, b.k)
				case "Rem":
					r.Rem(a.k, b.k)
				}
			}
			return set(c, BigV{k: r})
		}
		x, y := it.zOf(a), it.zOf(b)
		var r *Term
		switch c.fn.Name() {
		case "Add":
			r = ts.Add(x, y)
		case "Sub":
			r = ts.Sub(x, y)
		case "Mul":
			r = ts.Mul(x, y)
		case "And":
			if x.isConst() {
				x, y = y, x
			}
			if y.isConst() {
				if n, ok := isPow2(new(big.Int).Add(y.k, bigOne)); ok {
					r = it.zDiv("mod", x, ts.Const(SZ, new(big.Int).Lsh(bigOne, n)))
				}
			}
			if r == nil {
				r = ts.Prim(SZ, "and", x, y)
			}
		case "Or":
			r = ts.Prim(SZ, "or", x, y)
		case "Xor":
			r = ts.Prim(SZ, "xor", x, y)
		default:
			r = it.zDiv(strings.ToLower(c.fn.Name()), x, y)
		}
		return set(c, it.bigOf(r))
	})
	it.addStd(B("DivMod QuoRem"), func(c *callCtx) V {
		_, a := it.zcell(c.args[0])
		_, b := it.zcell(c.args[1])
		mc, _ := it.zcell(c.args[2])
		q, m := "div", "mod"
		if c.fn.Name() == "QuoRem" {
			q, m = "quo", "rem"
		}
		x, y := it.zOf(a), it.zOf(b)
		qt, mt := it.zDiv(q, x, y), it.zDiv(m, x, y)
		it.store(mc, it.bigOf(mt))
		set(c, it.bigOf(qt))
		return Tuple{c.recv, c.args[2]}
	})
	it.addStd(B("Neg Abs Sqrt Not"), func(c *callCtx) V {
		_, a := it.zcell(c.args[0])
		if a.k == nil {
			switch c.fn.Name() {
			case "Neg":
				return set(c, it.bigOf(ts.Scale(a.t, big.NewInt(-1))))
			case "Abs":
				if a.t.lo != nil && a.t.lo.Sign() >= 0 {
					return set(c, a)
				}
			}
			return set(c, it.bigOf(ts.Prim(SZ, "big"+c.fn.Name(), a.t)))
		}
		r := new(big.Int)
		switch c.fn.Name() {
		case "Neg":
			r.Neg(a.k)
		case "Abs":
			r.Abs(a.k)
		case "Sqrt":
			r.Sqrt(a.k)
		case "Not":
			r.Not(a.k)
		}
		return set(c, BigV{k: r})
	})
	it.addStd(B("Lsh Rsh"), func(c *callCtx) V {
		_, a := it.zcell(c.args[0])
		n, ok := c.args[1].(I)
		if !ok {
			it.undecided("shift count is symbolic")
		}
		m := ts.Const(SZ, new(big.Int).Lsh(bigOne, uint(n)))
		if c.fn.Name() == "Lsh" {
			return set(c, it.bigOf(ts.Mul(it.zOf(a), m)))
		}
		return set(c, it.bigOf(it.zDiv("div", it.zOf(a), m)))
	})
	it.addStd(B("Exp"), func(c *callCtx) V {
		_, a := it.zcell(c.args[0])
		_, b := it.zcell(c.args[1])
		var m *big.Int
		if p, ok := c.args[2].(Ptr); ok && p.c != nil {
			_, mm := it.zcell(c.args[2])
			if mm.k == nil {
				it.undecided("symbolic modulus")
			}
			m = mm.k
		}
		if a.k == nil && b.k != nil && m != nil && m.Sign() > 0 && b.k.Sign() >= 0 {
			r := ts.Prim(SZ, "powmod", a.t, ts.Const(SZ, b.k), ts.Const(SZ, m))
			setBounds(r, bigZero, new(big.Int).Sub(m, bigOne))
			return set(c, it.bigOf(r))
		}
		if a.k == nil || b.k == nil {
			it.undecided("exponentiation of symbolic big integers")
		}
		return set(c, BigV{k: new(big.Int).Exp(a.k, b.k, m)})
	})
	it.addStd(B("ModInverse"), func(c *callCtx) V {
		_, a := it.zcell(c.args[0])
		_, b := it.zcell(c.args[1])
		if b.k == nil {
			it.undecided("symbolic modulus")
		}
		if a.k == nil {
			if b.k.Cmp(pMod) == 0 {
				// nil (receiver unchanged) for zero
				r := ts.Prim(SZ, "glinv", a.t)
				setBounds(r, bigZero, pM1)
				return set(c, it.bigOf(r))
			}
			it.undecided("modular inverse of a symbolic integer")
		}
		r := new(big.Int).ModInverse(a.k, b.k)
		if r == nil {
			return Ptr{}
		}
		return set(c, BigV{k: r})
	})
	it.addStd(B("Cmp"), func(c *callCtx) V {
		_, a := it.zcell(c.recv)
		_, b := it.zcell(c.args[0])
		if a.k != nil && b.k != nil {
			return I(uint64(int64(a.k.Cmp(b.k))))
		}
		return it.zCmp(it.zOf(a), it.zOf(b))
	})
	it.addStd(B("Sign"), func(c *callCtx) V {
		_, a := it.zcell(c.recv)
		if a.k != nil {
			return I(uint64(int64(a.k.Sign())))
		}
		return it.zCmp(a.t, ts.Const(SZ, bigZero))
	})
	it.addStd(B("Uint64 Int64"), func(c *callCtx) V {
		_, a := it.zcell(c.recv)
		if a.k != nil {
			if c.fn.Name() == "Int64" {
				return I(uint64(a.k.Int64()))
			}
			return I(a.k.Uint64())
		}
		return ts.Prim(SInt, "low64", a.t)
	})
	it.addStd(B("IsUint64 IsInt64"), func(c *callCtx) V {
		_, a := it.zcell(c.recv)
		if a.k != nil {
			if c.fn.Name() == "IsInt64" {
				return a.k.IsInt64()
			}
			return a.k.IsUint64()
		}
		lim := two64
		if c.fn.Name() == "IsInt64" {
			lim = new(big.Int).Lsh(bigOne, 63)
		}
		return it.unterm(ts.And(ts.Prim(SBool, "lt", a.t, ts.Const(SZ, lim)), ts.Not(ts.Prim(SBool, "lt", a.t, ts.Const(SZ, bigZero)))), nil)
	})
	it.addStd(B("BitLen"), func(c *callCtx) V {
		_, a := it.zcell(c.recv)
		if a.k != nil {
			return I(a.k.BitLen())
		}
		return ts.Prim(SInt, "bitlen", a.t)
	})
	it.addStd(B("Bit"), func(c *callCtx) V {
		_, a := it.zcell(c.recv)
		n, ok := c.args[0].(I)
		if a.k != nil && ok {
			return I(a.k.Bit(int(n)))
		}
		it.undecided("Bit of a symbolic big integer")
		return nil
	})
	it.addStd(B("String"), func(c *callCtx) V {
		if p, ok := c.recv.(Ptr); ok && p.c == nil {
			return "<nil>"
		}
		_, a := it.zcell(c.recv)
		if a.k != nil {
			return a.k.String()
		}
		return ts.UF(SStr, "zstring", 0, nil, nil, a.t)
	})
	it.addStd(B("Text"), func(c *callCtx) V {
		_, a := it.zcell(c.recv)
		n, _ := c.args[0].(I)
		if a.k != nil {
			return a.k.Text(int(n))
		}
		return ts.UF(SStr, fmt.Sprintf("ztext%d", n), 0, nil, nil, a.t)
	})
}

func setBounds(t *Term, lo, hi *big.Int) {
	if t.lo == nil || t.hi == nil {
		t.lo, t.hi = lo, hi
	}
}

// ---- gnark-crypto Goldilocks elements (constants and hint values)

func (it *Interp) glTerm(v V) *Term {
	switch x := v.(type) {
	case GlV:
		return it.ts.Const(SZ, new(big.Int).SetUint64(uint64(x)))
	case *Term:
		return x
	case Ptr:
		if x.c == nil {
			it.gopanic("nil field element")
		}
		return it.glTerm(it.load(x.c))
	case Iface:
		return it.glTerm(x.v)
	}
	it.undecided("field element of kind %T", v)
	return nil
}

func (it *Interp) glVal(t *Term) V {
	if t.isConst() {
		return GlV(new(big.Int).Mod(t.k, pMod).Uint64())
	}
	if !t.within(pM1) {
		t = it.ts.Prim(SZ, "glmod", t)
		setBounds(t, bigZero, pM1)
	}
	return t
}

func (it *Interp) initGl() {
	ts := it.ts
	M := func(s string) string {
		var r []string
		for _, n := range strings.Fields(s) {
			r = append(r, "(*"+glPkg+".Element)."+n, "("+glPkg+".Element)."+n)
		}
		return strings.Join(r, " ")
	}
	set := func(c *callCtx, t *Term) V {
		it.store(it.ptrCell(c.recv), it.glVal(t))
		return c.recv
	}
	it.addStd(glPkg+".NewElement", func(c *callCtx) V { return it.glVal(it.asZ(c.args[0])) })
	it.addStd(glPkg+".One", func(c *callCtx) V { return GlV(1) })
	it.addStd(M("SetUint64"), func(c *callCtx) V { return set(c, it.asZ(c.args[0])) })
	it.addStd(M("SetInt64"), func(c *callCtx) V {
		if n, ok := c.args[0].(I); ok {
			return set(c, ts.Const(SZ, big.NewInt(int64(n))))
		}
		return set(c, ts.Prim(SZ, "signed", c.args[0].(*Term)))
	})
	it.addStd(M("SetBigInt"), func(c *callCtx) V { _, b := it.zcell(c.args[0]); return set(c, it.zOf(b)) })
	it.addStd(M("SetString"), func(c *callCtx) V {
		s, ok := c.args[0].(string)
		if !ok {
			it.undecided("SetString of a symbolic string")
		}
		k, ok := new(big.Int).SetString(s, 0)
		if !ok {
			return Tuple{Ptr{}, it.mkErr("invalid number")}
		}
		return Tuple{set(c, ts.Const(SZ, k)), Iface{}}
	})
	it.addStd(M("SetZero"), func(c *callCtx) V { return set(c, ts.Const(SZ, bigZero)) })
	it.addStd(M("SetOne"), func(c *callCtx) V { return set(c, ts.Const(SZ, bigOne)) })
	it.addStd(M("Set"), func(c *callCtx) V { return set(c, it.glTerm(c.args[0])) })
	bin := func(name string, f func(a, b *Term) *Term) {
		it.addStd(M(name), func(c *callCtx) V { return set(c, f(it.glTerm(c.args[0]), it.glTerm(c.args[1]))) })
	}
	inv := func(a *Term) *Term {
		r := ts.Prim(SZ, "glinv", a)
		setBounds(r, bigZero, pM1)
		return r
	}
	bin("Add", func(a, b *Term) *Term { return ts.Add(a, b) })
	bin("Sub", func(a, b *Term) *Term { return ts.Sub(a, b) })
	bin("Mul", func(a, b *Term) *Term { return ts.Mul(a, b) })
	bin("Div", func(a, b *Term) *Term { return ts.Mul(a, inv(b)) })
	un := func(name string, f func(a *Term) *Term) {
		it.addStd(M(name), func(c *callCtx) V { return set(c, f(it.glTerm(c.args[0]))) })
	}
	un("Square", func(a *Term) *Term { return ts.Mul(a, a) })
	un("Double", func(a *Term) *Term { return ts.Scale(a, big.NewInt(2)) })
	un("Neg", func(a *Term) *Term { return ts.Scale(a, big.NewInt(-1)) })
	un("Inverse", inv)
	it.addStd(M("Exp"), func(c *callCtx) V {
		a := it.glTerm(c.args[0])
		_, e := it.zcell(c.args[1])
		if e.k == nil {
			it.undecided("exponentiation of symbolic field elements")
		}
		if !a.isConst() {
			m := it.glTerm(a)
			r := ts.Prim(SZ, "powmod", m, ts.Const(SZ, e.k), ts.Const(SZ, pMod))
			setBounds(r, bigZero, pM1)
			return set(c, r)
		}
		x, k := a.k, e.k
		if k.Sign() < 0 {
			x = new(big.Int).ModInverse(x, pMod)
			k = new(big.Int).Neg(k)
		}
		return set(c, ts.Const(SZ, new(big.Int).Exp(x, k, pMod)))
	})
	it.addStd(M("Uint64"), func(c *callCtx) V {
		t := it.glTerm(c.recv)
		if t.isConst() {
			return I(new(big.Int).Mod(t.k, pMod).Uint64())
		}
		return ts.Prim(SInt, "low64", t)
	})
	it.addStd(M("BigInt ToBigIntRegular"), func(c *callCtx) V {
		t := it.glTerm(c.recv)
		cell, _ := it.zcell(c.args[0])
		it.store(cell, it.bigOf(t))
		return c.args[0]
	})
	it.addStd(M("IsZero IsOne"), func(c *callCtx) V {
		k := bigZero
		if c.fn.Name() == "IsOne" {
			k = bigOne
		}
		return it.unterm(ts.Prim(SBool, "eq", it.glTerm(c.recv), ts.Const(SZ, k)), nil)
	})
	it.addStd(M("Equal"), func(c *callCtx) V {
		return it.unterm(ts.Prim(SBool, "eq", it.glTerm(c.recv), it.glTerm(c.args[0])), nil)
	})
	it.addStd(M("Cmp"), func(c *callCtx) V { return it.zCmp(it.glTerm(c.recv), it.glTerm(c.args[0])) })
	it.addStd(M("String"), func(c *callCtx) V {
		t := it.glTerm(c.recv)
		if t.isConst() {
			return t.k.String()
		}
		return ts.UF(SStr, "zstring", 0, nil, nil, t)
	})
}

func (it *Interp) initFelt() {
	const fr = "github.com/consensys/gnark-crypto/ecc/bn254/fr"
	val := func(v V) *Term {
		switch x := v.(type) {
		case Ptr:
			t, _ := it.load(it.ptrCell(x)).(*Term)
			if t != nil {
				return t
			}
		case *Term:
			return x
		}
		it.undecided("scalar of kind %T", v)
		return nil
	}
	for _, n := range []string{"Add", "Sub", "Mul", "Square", "Set", "Neg", "Double", "Inverse", "Exp", "Div", "SetUint64", "SetInt64", "SetZero", "SetOne"} {
		n := n
		it.addStd("(*"+fr+".Element)."+n, func(c *callCtx) V {
			var args []*Term
			for _, a := range c.args {
				if x, ok := a.(I); ok {
					args = append(args, it.ts.Const(SObj, new(big.Int).SetUint64(uint64(x))))
				} else {
					args = append(args, val(a))
				}
			}
			var r *Term
			if n == "Set" {
				r = args[0]
			} else {
				r = it.ts.UF(SObj, "fr."+n, 0, nil, nil, args...)
			}
			it.store(it.ptrCell(c.recv), r)
			return c.recv
		})
	}
	it.addStd("(*"+fr+".Element).SetString", func(c *callCtx) V {
		t, _ := it.asTerm(c.args[0])
		it.store(it.ptrCell(c.recv), it.ts.UF(SObj, "fr.SetString", 0, nil, nil, t))
		return Tuple{c.recv, Iface{}}
	})
	it.addStd("(*"+fr+".Element).SetRandom", func(c *callCtx) V {
		it.opSeq++
		it.store(it.ptrCell(c.recv), it.ts.Sym(SObj, fmt.Sprintf("random%d", it.opSeq), nil, nil))
		return Tuple{c.recv, Iface{}}
	})
	it.addStd("(*"+fr+".Element).Equal", func(c *callCtx) V { return it.feltEqual(val(c.recv), val(c.args[0])) })
	num := func(b bool) V {
		if b {
			return I(0)
		}
		return I(1)
	}
	it.addStd("(*"+fr+".Element).Cmp (*"+fr+".Element).NotEqual", func(c *callCtx) V {
		return num(it.feltEqual(val(c.recv), val(c.args[0])))
	})
	it.addStd("(*"+fr+".Element).IsZero", func(c *callCtx) V {
		t := val(c.recv)
		if t.isConst() {
			return t.k.Sign() == 0
		}
		// a generic element; that it is zero is one of the possible outcomes
		return it.fault("IsZero")
	})
	it.addStd("(*"+fr+".Element).SetBigInt", func(c *callCtx) V {
		_, b := it.zcell(c.args[0])
		it.store(it.ptrCell(c.recv), it.ts.UF(SObj, "fr.SetBigInt", 0, nil, nil, it.zOf(b)))
		return c.recv
	})
	it.addStd(fr+".One", func(c *callCtx) V { return it.ts.UF(SObj, "fr.SetOne", 0, nil, nil) })
	it.addStd(fr+".NewElement", func(c *callCtx) V {
		if x, ok := c.args[0].(I); ok {
			return it.ts.UF(SObj, "fr.SetUint64", 0, nil, nil, it.ts.Const(SObj, new(big.Int).SetUint64(uint64(x))))
		}
		return it.ts.UF(SObj, "fr.SetUint64", 0, nil, nil, val(c.args[0]))
	})
}

// feltEqual compares two elements; that they differ is one of the possible faults.
func (it *Interp) feltEqual(a, b *Term) bool {
	if a == b {
		return true
	}
	bad := it.fault("Equal")
	it.event("ext", "fr.Equal", a, b)
	return !bad
}

// The obligations enumerate the values of this variable; any other variable has an unknown value.
func modelledEnv(k string) bool { return k == "USE_BIT_DECOMPOSITION_RANGE_CHECK" }
