package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Intrinsics of the specification package.

const specT = "(verif/spec.T)."
const specF = "verif/spec."

func (it *Interp) nOf(v V) *Term {
	switch x := v.(type) {
	case *Term:
		if x.sort == SInt || x.sort == SZ {
			return it.natTerm(x)
		}
		return x
	case I:
		return it.ts.NatU(uint64(x))
	case Iface:
		return it.natOf(x)
	}
	it.undecided("specification value of kind %T", v)
	return nil
}

func (it *Interp) nSlice(v V) []*Term {
	var r []*Term
	for _, x := range it.sliceVals(v) {
		r = append(r, it.nOf(x))
	}
	return r
}

func (it *Interp) apiOf(v V) *apiObj {
	i, _ := v.(Iface)
	o, ok := i.v.(*Opaque)
	if !ok || o == nil {
		it.undecided("not a builder")
	}
	return o.data.(*apiObj)
}

// guarded runs f and reports how it ended: ok, panic, exit, undecided.
func (it *Interp) guarded(f *FuncV) (outcome, msg, pos string) {
	depth, pd, pcl, jl := len(it.stack), len(it.posStack), len(it.pc), len(it.journals)
	cur := it.cur
	neff := len(it.effects)
	outcome = "ok"
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case goPanic:
					outcome, msg, pos = "panic", x.msg, x.pos
				case exitProc:
					outcome, msg, pos = "exit", x.why, it.where()
					if strings.HasPrefix(x.why, "success at") {
						outcome = "exit0"
					}
				default:
					panic(r)
				}
				it.stack, it.posStack, it.pc, it.journals = it.stack[:depth], it.posStack[:pd], it.pc[:pcl], it.journals[:jl]
				it.cur = cur
				it.held = nil
			}
		}()
		it.callFn(f, nil, nil)
		it.joinAll()
	}()
	if outcome == "ok" {
		for _, e := range it.effects[neff:] {
			if e.kind == "PANIC" {
				outcome, msg, pos = "maybe", e.info, e.pos
			}
		}
	}
	return
}

func (it *Interp) initSpec() {
	ts := it.ts
	F := func(name string, f intrinsic) { it.std[specF+name] = f }
	M := func(name string, f intrinsic) { it.std[specT+name] = f }
	str := func(v V) string { s, _ := v.(string); return s }
	num := func(v V) int64 {
		n, ok := v.(I)
		if !ok {
			it.undecided("specification integer of kind %T", v)
		}
		return int64(n)
	}

	F("C", func(c *callCtx) V { return ts.NatU(uint64(num(c.args[0]))) })
	F("CS", func(c *callCtx) V {
		k, ok := new(big.Int).SetString(str(c.args[0]), 0)
		if !ok {
			it.undecided("bad constant %q", str(c.args[0]))
		}
		return ts.Const(SNat, k)
	})
	F("Add", func(c *callCtx) V {
		l := it.nSlice(c.args[0])
		if len(l) == 0 {
			return ts.NatU(0)
		}
		return ts.Add(l...)
	})
	F("Sub", func(c *callCtx) V { return ts.Sub(it.nOf(c.args[0]), it.nOf(c.args[1])) })
	F("Mul", func(c *callCtx) V {
		l := it.nSlice(c.args[0])
		r := ts.NatU(1)
		for _, x := range l {
			r = ts.Mul(r, x)
		}
		return r
	})
	F("Mod", func(c *callCtx) V { return ts.Mod(it.nOf(c.args[0])) })
	F("GInv", func(c *callCtx) V { return ts.GlInv(it.nOf(c.args[0])) })
	F("Sel", func(c *callCtx) V { return ts.Sel(it.nOf(c.args[0]), it.nOf(c.args[1]), it.nOf(c.args[2])) })
	F("Bit", func(c *callCtx) V { return ts.Bit(it.nOf(c.args[0]), int(num(c.args[1]))) })
	F("IsZero", func(c *callCtx) V { return ts.IsZero(it.nOf(c.args[0])) })
	F("UF", func(c *callCtx) V {
		return ts.UF(SNat, str(c.args[0]), num(c.args[1]), nil, nil, it.nSlice(c.args[2])...)
	})
	F("UFG", func(c *callCtx) V {
		return ts.UF(SNat, str(c.args[0]), num(c.args[1]), bigZero, pM1, it.nSlice(c.args[2])...)
	})
	F("bnvec", func(c *callCtx) V {
		return ts.UF(SNat, "bnvec", num(c.args[1]), bigZero, mask56, it.nOf(c.args[0]))
	})
	F("Of", func(c *callCtx) V { return it.natOf(c.args[0]) })
	F("Var", func(c *callCtx) V { return it.mkVar(it.nOf(c.args[0]), instBorrowed) })
	F("Own", func(c *callCtx) V { return it.mkVar(it.nOf(c.args[0]), instOwned) })
	F("IsConst", func(c *callCtx) V { return it.nOf(c.args[0]).isConst() })
	F("Same", func(c *callCtx) V { return it.same(it.nOf(c.args[0]), it.nOf(c.args[1])) })

	M("Sym", func(c *callCtx) V { return ts.Sym(SNat, str(c.args[0]), bigZero, pM1) })
	M("SymNat", func(c *callCtx) V { return ts.Sym(SNat, str(c.args[0]), nil, nil) })
	M("SymBits", func(c *callCtx) V {
		n := uint(num(c.args[1]))
		return ts.Sym(SNat, str(c.args[0]), bigZero, new(big.Int).Sub(new(big.Int).Lsh(bigOne, n), bigOne))
	})
	M("Big", func(c *callCtx) V {
		n := uint(num(c.args[1]))
		var hi *big.Int
		if n == 0 {
			hi = pM1
		} else {
			hi = new(big.Int).Sub(new(big.Int).Lsh(bigOne, n), bigOne)
			if n >= 254 {
				hi = new(big.Int).Sub(rMod, bigOne)
			}
		}
		return it.ptrTo(it.bigT(), BigV{t: ts.Sym(SZ, str(c.args[0]), bigZero, hi)})
	})
	M("BigC", func(c *callCtx) V {
		k, _ := new(big.Int).SetString(str(c.args[0]), 0)
		return it.ptrTo(it.bigT(), BigV{k: k})
	})
	M("Int", func(c *callCtx) V {
		vals := it.sliceVals(c.args[1])
		k := it.run.choose(str(c.args[0]), len(vals), func(i int) string { return fmt.Sprint(int64(vals[i].(I))) })
		return vals[k]
	})
	M("Str", func(c *callCtx) V {
		vals := it.sliceVals(c.args[1])
		k := it.run.choose(str(c.args[0]), len(vals), func(i int) string { return vals[i].(string) })
		return vals[k]
	})
	// IntNovel: the given values and every novel guard constant (and its neighbours) within [lo,hi]
	M("IntNovel", func(c *callCtx) V {
		lo, hi := num(c.args[1]), num(c.args[2])
		var vals []int64
		seen := map[int64]bool{}
		add := func(x int64) {
			if x >= lo && x <= hi && !seen[x] {
				seen[x] = true
				vals = append(vals, x)
			}
		}
		for _, v := range it.sliceVals(c.args[3]) {
			add(num(v))
		}
		for _, n := range it.novel {
			add(n - 1)
			add(n)
			add(n + 1)
		}
		k := it.run.choose(str(c.args[0]), len(vals), func(i int) string { return fmt.Sprint(vals[i]) })
		return I(uint64(vals[k]))
	})
	M("Novel", func(c *callCtx) V {
		var vals []V
		seen := map[int64]bool{}
		for _, n := range it.novel {
			for d := int64(-1); d <= 1; d++ {
				if x := n + d; !seen[x] {
					seen[x] = true
					vals = append(vals, I(uint64(x)))
				}
			}
		}
		return it.mkSlice(types.Typ[types.Uint64], vals)
	})
	// Names: symbols made from here on have names of their own
	M("Names", func(c *callCtx) V { it.ts.pfx = it.basePfx + str(c.args[0]); return nil })
	M("Thorough", func(c *callCtx) V { return thorough })
	M("API", func(c *callCtx) V { return it.newAPI(str(c.args[0])).iface })
	M("SetField", func(c *callCtx) V {
		k, _ := new(big.Int).SetString(str(c.args[1]), 0)
		it.apiOf(c.args[0]).field = k
		return nil
	})
	M("Finalize", func(c *callCtx) V { it.finalize(it.apiOf(c.args[0])); return nil })
	M("Env", func(c *callCtx) V { it.run.env[str(c.args[0])] = str(c.args[1]); return nil })
	exp := func(c *callCtx, kind string, n int64, args ...*Term) {
		it.run.exps = append(it.run.exps, &Effect{kind: kind, n: n, args: args, tag: str(c.args[0]), info: str(c.args[1]), pos: "", pc: ts.Bool(true)})
	}
	M("EQ", func(c *callCtx) V {
		d := ts.Sub(it.nOf(c.args[2]), it.nOf(c.args[3]))
		exp(c, "EQ", 0, d)
		return nil
	})
	M("Canon", func(c *callCtx) V { exp(c, "CANON", 0, it.nOf(c.args[2])); return nil })
	M("Bits", func(c *callCtx) V {
		x, n := it.nOf(c.args[2]), num(c.args[3])
		switch {
		case n == 0:
			exp(c, "EQ", 0, x)
		case n == 1:
			exp(c, "BOOL", 0, x)
		case n < 254:
			exp(c, "BITS", n, x)
		}
		return nil
	})
	M("NZ", func(c *callCtx) V { exp(c, "NZ", 0, it.nSlice(c.args[2])...); return nil })
	// OptNZ: a non-zero condition the circuit may impose
	M("OptNZ", func(c *callCtx) V {
		it.run.exps = append(it.run.exps, &Effect{kind: "NZ", opt: true, args: it.nSlice(c.args[0]), pc: ts.Bool(true)})
		return nil
	})
	// UsesOnly: every application of the uninterpreted function that occurs in a constraint is one
	// that occurs in the given terms
	M("UsesOnly", func(c *callCtx) V {
		it.run.uses = append(it.run.uses, &usesObl{tag: str(c.args[0]), what: str(c.args[1]), name: str(c.args[2]), set: it.nSlice(c.args[3])})
		return nil
	})
	M("Equal", func(c *callCtx) V {
		it.run.eqs = append(it.run.eqs, &eqObl{tag: str(c.args[0]), what: str(c.args[1]), got: it.nOf(c.args[2]), want: it.nOf(c.args[3]), pos: it.where()})
		return nil
	})
	M("EqualInt", func(c *callCtx) V {
		it.run.checks++
		a, ok1 := c.args[2].(I)
		b, ok2 := c.args[3].(I)
		if !ok1 || !ok2 {
			x, oka := it.asTerm(c.args[2])
			y, okb := it.asTerm(c.args[3])
			if oka && okb && it.same(x, y) {
				return nil
			}
		} else if a == b {
			return nil
		}
		it.violateAt(str(c.args[0]), fmt.Sprintf("%s: got %s, want %s", str(c.args[1]), describe(c.args[2]), describe(c.args[3])), it.anchor())
		return nil
	})
	M("True", func(c *callCtx) V {
		it.run.checks++
		if b, ok := c.args[2].(bool); ok && b {
			return nil
		}
		if t, ok := c.args[2].(*Term); ok && t.isConst() && t.k.Sign() != 0 {
			return nil
		}
		it.violateAt(str(c.args[0]), str(c.args[1]), it.anchor())
		return nil
	})
	M("Fail", func(c *callCtx) V {
		it.violateAt(str(c.args[0]), str(c.args[1]), it.anchor())
		return nil
	})
	M("Panics", func(c *callCtx) V {
		it.run.checks++
		neff := len(it.effects)
		out, _, _ := it.guarded(c.args[2].(*FuncV))
		it.effects = it.effects[:neff]
		if out != "panic" {
			it.violateAt(str(c.args[0]), fmt.Sprintf("no abort: %s", str(c.args[1])), it.anchor())
		}
		return nil
	})
	M("Outcome", func(c *callCtx) V {
		out, msg, pos := it.guarded(c.args[0].(*FuncV))
		it.run.lastMsg = msg + " at " + pos
		return out
	})
	M("LastMsg", func(c *callCtx) V { return it.run.lastMsg })
	M("FaultAt", func(c *callCtx) V {
		it.run.faultAt = int(num(c.args[0]))
		it.run.faultSeq = 0
		it.run.faultNames = nil
		return nil
	})
	M("Faults", func(c *callCtx) V { return I(it.run.faultSeq) })
	M("FaultName", func(c *callCtx) V {
		k := int(num(c.args[0]))
		if k >= 1 && k <= len(it.run.faultNames) {
			return it.run.faultNames[k-1]
		}
		return "?"
	})
	M("ChooseFault", func(c *callCtx) V {
		n := int(num(c.args[0]))
		k := it.run.choose("fault", n, func(i int) string { return fmt.Sprint(i) })
		return I(k)
	})
	M("JSONLen", func(c *callCtx) V { it.run.jsonLen[str(c.args[0])] = int(num(c.args[1])); return nil })
	M("JSONStr", func(c *callCtx) V { it.run.jsonVal[str(c.args[0])] = str(c.args[1]); return nil })
	M("JSONInt", func(c *callCtx) V { it.run.jsonVal[str(c.args[0])] = c.args[1]; return nil })
	M("JSONBool", func(c *callCtx) V { it.run.jsonVal[str(c.args[0])] = c.args[1]; return nil })
	// values the JSON document holds at a path
	M("DocInt", func(c *callCtx) V {
		return ts.Sym(SInt, "json:"+str(c.args[0]), bigZero, new(big.Int).Sub(two64, bigOne))
	})
	M("DocStr", func(c *callCtx) V { return ts.Sym(SStr, "json:"+str(c.args[0]), nil, nil) })
	M("DocBool", func(c *callCtx) V { return ts.Sym(SBool, "json:"+str(c.args[0]), nil, nil) })
	M("Flag", func(c *callCtx) V { it.run.flags[str(c.args[0])] = str(c.args[1]); return nil })
	M("RunMain", func(c *callCtx) V { it.runMain(); return nil })
	M("Circuit", func(c *callCtx) V { return strings.ReplaceAll(it.circuitDesc(c.args[0]), "|", "/") })
	M("Witness", func(c *callCtx) V { return strings.ReplaceAll(it.witnessDesc(c.args[0], false), "|", "/") })
	M("Participants", func(c *callCtx) V { it.run.participants = int(num(c.args[0])); return nil })
	M("Events", func(c *callCtx) V {
		var l []V
		for _, e := range it.events {
			s := e.kind + "|" + e.what
			for _, a := range e.args {
				s += "|" + describe(a)
			}
			l = append(l, s)
		}
		return it.mkSlice(types.Typ[types.String], l)
	})
	M("ClearEvents", func(c *callCtx) V { it.events = nil; return nil })
	M("Honest", func(c *callCtx) V { it.run.honest = true; return nil })
	M("HonestHints", func(c *callCtx) V { return I(it.run.nHonest) })
	M("IgnoreEffects", func(c *callCtx) V { it.run.noEffects = true; return nil })
	M("ClearEffects", func(c *callCtx) V { it.effects = nil; return nil })
	M("NumEffects", func(c *callCtx) V { return I(len(it.effects)) })
	// EffectLog renders the ordered list of constraints and hints (for determinism comparisons).
	M("EffectLog", func(c *callCtx) V {
		var l []V
		for _, e := range it.effects {
			s := e.kind + fmt.Sprint(e.n)
			for _, a := range e.args {
				s += fmt.Sprintf(" #%d", a.id)
			}
			l = append(l, s)
		}
		return it.mkSlice(types.Typ[types.String], l)
	})
	M("Registered", func(c *callCtx) V {
		fv, _ := c.args[0].(*FuncV)
		return fv != nil && it.registered[fv.name]
	})
	// Z-valued expectations for hints
	M("ZEq", func(c *callCtx) V {
		_, a := it.zcell(c.args[2])
		_, b := it.zcell(c.args[3])
		it.run.checks++
		if !it.same(it.zOf(a), it.zOf(b)) {
			it.violateAt(str(c.args[0]), fmt.Sprintf("%s: got %v, want %v", str(c.args[1]), it.zOf(a), it.zOf(b)), it.anchor())
		}
		return nil
	})
	M("GlInvBig", func(c *callCtx) V {
		_, a := it.zcell(c.args[0])
		r := ts.Prim(SZ, "glinv", it.zOf(a))
		setBounds(r, bigZero, pM1)
		return it.ptrTo(it.bigT(), it.bigOf(r))
	})
	M("StrEq", func(c *callCtx) V {
		it.run.checks++
		x, oka := it.asTerm(c.args[2])
		y, okb := it.asTerm(c.args[3])
		if !(oka && okb && x == y) {
			it.violateAt(str(c.args[0]), fmt.Sprintf("%s: got %s, want %s", str(c.args[1]), describe(c.args[2]), describe(c.args[3])), it.anchor())
		}
		return nil
	})
	M("DeepEqual", func(c *callCtx) V {
		it.run.checks++
		if d := it.deepDiff(c.args[2], c.args[3], ""); d != "" {
			it.violateAt(str(c.args[0]), fmt.Sprintf("%s%s", str(c.args[1]), d), it.anchor())
		}
		return nil
	})
	M("MapReverse", func(c *callCtx) V { it.mapRev, _ = c.args[0].(bool); return nil })
	M("MapRotate", func(c *callCtx) V { it.mapRot = int(num(c.args[0])); return nil })
	M("MapShuffle", func(c *callCtx) V { it.mapSeed = uint64(num(c.args[0])) * 0x2545f4914f6cdd1d; return nil })
	M("TraceStart", func(c *callCtx) V { it.traceStart(); return nil })
	M("TraceCheck", func(c *callCtx) V { it.traceCheck(str(c.args[0]), str(c.args[1]), str(c.args[2])); return nil })
	M("MapRanges", func(c *callCtx) V { return I(it.mapRange) })
	M("SamePtr", func(c *callCtx) V { // SamePtr(a, b interface{}) bool
		a, _ := c.args[0].(Iface)
		b, _ := c.args[1].(Iface)
		pa, ok1 := a.v.(Ptr)
		pb, ok2 := b.v.(Ptr)
		return ok1 && ok2 && pa.c == pb.c
	})
	// ChipsOf returns the arithmetic chips reachable from a component, by builder
	M("ChipIDs", func(c *callCtx) V {
		ids := map[string]bool{}
		seen := map[*Cell]bool{}
		var cell func(x *Cell)
		var val func(v V)
		cell = func(x *Cell) {
			if x == nil || seen[x] {
				return
			}
			seen[x] = true
			if namedPath(x.t) == modPath+"/goldilocks.Chip" {
				ids[fmt.Sprintf("chip%d", x.id)] = true
			}
			if x.agg {
				for _, k := range x.kids {
					cell(k)
				}
				return
			}
			val(x.val)
		}
		val = func(v V) {
			switch y := v.(type) {
			case Ptr:
				cell(y.c)
			case Iface:
				val(y.v)
			case Slice:
				cell(y.arr)
			case *Agg:
				for _, e := range y.e {
					val(e)
				}
			case *Opaque:
				if y != nil && y.kind == "api" {
					ids[fmt.Sprintf("api%d", y.data.(*apiObj).id)] = true
				}
			}
		}
		val(c.args[0])
		var l []string
		for s := range ids {
			l = append(l, s)
		}
		sort.Strings(l)
		var r []V
		for _, s := range l {
			r = append(r, s)
		}
		return it.mkSlice(types.Typ[types.String], r)
	})
	it.initSpecLocks(M, str)
	_ = strings.Join
}

// anchor is the position reported for a violated expectation: the last repository position seen.
func (it *Interp) anchor() string {
	if it.lastRepo != 0 {
		return it.w.Pos(it.lastRepo)
	}
	return it.where()
}

// deepDiff compares two values structurally and describes the first difference.
func (it *Interp) deepDiff(a, b V, path string) string {
	differ := func() string { return fmt.Sprintf("%s: got %s, want %s", path, describe(a), describe(b)) }
	ia, oka := a.(Iface)
	ib, okb := b.(Iface)
	if oka && okb && ia.t != nil && ib.t != nil && ia.t != instT && ib.t != instT && !types.Identical(ia.t, ib.t) {
		_, ba := ia.t.Underlying().(*types.Basic)
		_, bb := ib.t.Underlying().(*types.Basic)
		if !ba && !bb {
			return fmt.Sprintf("%s: got a %s, want a %s", path, ia.t, ib.t)
		}
	}
	if oka {
		a = ia.v
	}
	if okb {
		b = ib.v
	}
	switch x := a.(type) {
	case nil:
		if b == nil {
			return ""
		}
	case GlV:
		if y, ok := b.(GlV); ok && x == y {
			return ""
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok && (x == y || x != nil && y != nil && x.name == y.name) {
			return ""
		}
	case *MapRef:
		y, ok := b.(*MapRef)
		if !ok || (x == nil) != (y == nil) {
			return differ()
		}
		if x == nil || x.c == y.c {
			return ""
		}
		return it.deepDiff(x.c.val, y.c.val, path)
	case *mapVal:
		y, ok := b.(*mapVal)
		if !ok || len(x.vals) != len(y.vals) {
			return differ()
		}
		for i, k := range x.keys {
			found := false
			for j, kk := range y.keys {
				if it.keyEq(kk, k) {
					found = true
					if d := it.deepDiff(x.vals[i], y.vals[j], fmt.Sprintf("%s[%s]", path, describe(k))); d != "" {
						return d
					}
				}
			}
			if !found {
				return differ()
			}
		}
		return ""
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.e) != len(y.e) {
			return differ()
		}
		for i := range x.e {
			if d := it.deepDiff(x.e[i], y.e[i], fmt.Sprintf("%s.%d", path, i)); d != "" {
				return d
			}
		}
		return ""
	case Slice:
		y, ok := b.(Slice)
		if !ok || x.len != y.len {
			return fmt.Sprintf("%s: %d elements, want %d", path, x.len, y.len)
		}
		for i := 0; i < x.len; i++ {
			if d := it.deepDiff(it.load(x.arr.kids[x.off+i]), it.load(y.arr.kids[y.off+i]), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || (x.c == nil) != (y.c == nil) {
			return differ()
		}
		if x.c == nil || x.c == y.c {
			return ""
		}
		return it.deepDiff(it.load(x.c), it.load(y.c), path)
	}
	x, oka := it.asTerm(a)
	y, okb := it.asTerm(b)
	if oka && okb && it.same(x, y) {
		return ""
	}
	return differ()
}
