package main

import (
	"fmt"
	"go/types"
	"math/big"
)

// Hint functions, executed abstractly.

// natToZ is the integer a hint receives for a native field element.
func (it *Interp) natToZ(t *Term) *Term {
	if t.isConst() {
		return it.ts.Const(SZ, t.k)
	}
	if t.op == OOfZ && t.args[0].sort == SZ {
		a := t.args[0]
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(rMod) < 0 {
			return a
		}
	}
	z := it.ts.Prim(SZ, "ofnat", t)
	if t.exact() && t.lo.Sign() >= 0 {
		setBounds(z, t.lo, t.hi)
	} else {
		setBounds(z, bigZero, new(big.Int).Sub(rMod, bigOne))
	}
	return z
}

// runHint executes the hint function fv on the integers denoted by ins and returns its n results.
func (it *Interp) runHint(fv *FuncV, ins []*Term, n int) ([]*Term, string) {
	if fv == nil {
		return nil, "the hint function is not known"
	}
	if !it.registered[fv.name] {
		it.violate("C20", "hint function %s is used by the circuit but not registered with the solver", shortFn(fv.name))
	}
	bt := it.bigT()
	pt := types.NewPointer(bt)
	mk := func(b BigV) Ptr { return it.ptrTo(bt, b).(Ptr) }
	var iv, ov []V
	used := map[*Cell]string{}
	for i, x := range ins {
		z := it.natToZ(x)
		if !z.isConst() {
			if it.run.hintIns == nil {
				it.run.hintIns = map[int]bool{}
			}
			it.run.hintIns[z.id] = true
			if z.op == OPrim && z.name == "ofnat" {
				it.run.hintIns[z.args[0].id] = true
			}
		}
		p := mk(it.bigOf(z))
		used[p.c] = fmt.Sprintf("input %d", i)
		iv = append(iv, p)
	}
	for i := 0; i < n; i++ {
		ov = append(ov, mk(BigV{k: bigZero}))
	}
	os := it.mkSlice(pt, ov)
	q := mk(BigV{k: rMod})
	used[q.c] = "the field order"
	old := it.watch
	touched := ""
	it.watch = func(c *Cell, w bool) {
		if w {
			touched = c.name
		}
		if old != nil {
			old(c, w)
		}
	}
	var res V
	f := &FuncV{name: "hint", nat: func(*callCtx) V {
		res = it.callFn(fv, []V{q, it.mkSlice(pt, iv), os}, nil)
		return nil
	}}
	outcome, msg, _ := it.guarded(f)
	it.watch = old
	nm := shortFn(fv.name)
	if touched != "" {
		it.violate("C20,C21", "hint function %s writes the package-level value %s", nm, touched)
	}
	switch outcome {
	case "ok":
	case "maybe":
		return nil, fmt.Sprintf("hint function %s aborts for some canonical inputs: %s", nm, msg)
	default:
		return nil, fmt.Sprintf("hint function %s aborts: %s", nm, msg)
	}
	if e, ok := res.(Iface); !ok || e.t != nil || e.v != nil {
		return nil, fmt.Sprintf("hint function %s returns an error for some canonical inputs", nm)
	}
	var outs []*Term
	for i, v := range it.sliceVals(os) {
		var val func(v V) *Term
		cells := map[*Cell]bool{}
		val = func(v V) *Term {
			if m, ok := v.(*Merged); ok {
				x, y := val(m.a), val(m.b)
				if x == nil || y == nil {
					return nil
				}
				return it.ts.Ite(m.c, x, y)
			}
			p, ok := v.(Ptr)
			if !ok || p.c == nil {
				return nil
			}
			if w := used[p.c]; w != "" {
				// the solver recycles inputs and outputs separately
				it.violate("C20", "hint function %s returns %s as output %d; the solver recycles both", nm, w, i)
			}
			if p.c.glob {
				it.violate("C20,C21", "hint function %s returns the package-level value %s as output %d, which the solver recycles", nm, p.c.name, i)
			}
			cells[p.c] = true
			if m, ok := it.load(p.c).(*Merged); ok {
				x, ok1 := m.a.(BigV)
				y, ok2 := m.b.(BigV)
				if ok1 && ok2 {
					return it.ts.Ite(m.c, it.zOf(x), it.zOf(y))
				}
			}
			_, b := it.zcell(p)
			return it.zOf(b)
		}
		z := val(v)
		if z == nil {
			return nil, fmt.Sprintf("hint function %s does not set output %d", nm, i)
		}
		for c := range cells {
			used[c] = fmt.Sprintf("output %d", i)
		}
		outs = append(outs, it.ts.OfZ(z))
	}
	return outs, ""
}

// checkHintValues compares what every hint computes with what the constraints force (levels above 0
// only see hints that are not behind a contract).
func (it *Interp) checkHintValues(p *poster) {
	m := map[int]*Term{}
	for _, hc := range it.run.hints {
		ins := make([]*Term, len(hc.ins))
		s := &substM{it.ts, m, map[int]*Term{}}
		for i, x := range hc.ins {
			ins[i] = s.apply(x)
		}
		neff := len(it.effects)
		outs, bad := it.runHint(hc.fv, ins, len(hc.outs))
		it.effects = it.effects[:neff]
		if bad != "" {
			it.violateAt("C20", bad, hc.pos)
			continue
		}
		for i, o := range outs {
			it.run.checks++
			f := p.forced[hc.syms[i].id]
			if f != nil {
				f = (&substM{it.ts, m, map[int]*Term{}}).apply(f)
				if !it.same(f, o) {
					it.violateAt("C20", fmt.Sprintf("hint function %s computes %s, the constraints require %s", shortFn(hc.fv.name), o.str(4), f.str(4)), hc.pos)
				}
			}
			m[hc.syms[i].id] = o
			if hc.outs[i] != hc.syms[i] {
				m[hc.outs[i].id] = o
			}
		}
	}
}

// decideHonest: every constraint holds when the hints compute their outputs.
func (it *Interp) decideHonest() {
	run := it.run
	var vs []*Valuation
	vs = append(vs, it.vals()...)
	syms := map[int]*Term{}
	for _, e := range it.effects {
		for _, a := range e.args {
			leaves(a, syms, map[int]bool{})
		}
		if e.pc != nil {
			leaves(e.pc, syms, map[int]bool{})
		}
	}
	var list []*Term
	for _, s := range syms {
		list = append(list, s)
	}
	sortTerms(list)
	edges := func(s *Term) []*big.Int {
		lo, hi := bigZero, new(big.Int).Sub(rMod, bigOne)
		if s.lo != nil {
			lo = s.lo
		}
		if s.hi != nil {
			hi = s.hi
		}
		var l []*big.Int
		m32 := new(big.Int).SetUint64(1<<32 - 1)
		for _, k := range []*big.Int{lo, hi, new(big.Int).Add(lo, bigOne), new(big.Int).Sub(hi, bigOne), m32, new(big.Int).Add(m32, bigOne), new(big.Int).Lsh(m32, 32), new(big.Int).Sub(new(big.Int).Lsh(m32, 32), bigOne), pM1, pMod, new(big.Int).Sub(pM1, bigOne)} {
			if k.Cmp(lo) >= 0 && k.Cmp(hi) <= 0 {
				l = append(l, k)
			}
		}
		return l
	}
	for i := 0; i < 96; i++ {
		v := newValuation(fmt.Sprint("edge", i))
		for j, s := range list {
			l := edges(s)
			n := len(l)
			switch {
			case len(list) == 1:
				v.force[s.id] = l[i%n]
			case i < n:
				v.force[s.id] = l[i] // all alike
				if i >= len(l) {
					v.force[s.id] = l[n-1]
				}
			default:
				k := int(new(big.Int).Mod(hashInt("edge", fmt.Sprint(i, j)), big.NewInt(int64(n+2))).Int64())
				if k < n {
					v.force[s.id] = l[k]
				}
			}
		}
		vs = append(vs, v)
	}
	bad := 0
	fail := func(e *Effect, why string) {
		if bad++; bad <= 5 {
			it.violateAt("C20", why+": "+effStr(e), e.pos)
		}
	}
	for _, e := range it.effects {
		run.checks++
		if e.kind == "PANIC" {
			it.violateAt("C20", "the code aborts for some inputs: "+e.info, e.pos)
			continue
		}
		if !isTrue(e.pc) {
			it.violateAt("C20", fmt.Sprintf("a constraint is only added when %v", e.pc), e.pos)
			continue
		}
		holds := func(v *Valuation) bool {
			x := v.eval(e.args[0])
			switch e.kind {
			case "EQ":
				return x.Sign() == 0
			case "BITS":
				return x.Sign() >= 0 && x.BitLen() <= int(e.n)
			case "CANON":
				return x.Sign() >= 0 && x.Cmp(pMod) < 0
			case "BOOL":
				return x.Sign() >= 0 && x.Cmp(bigOne) <= 0
			case "NZ", "NE":
				for _, a := range e.args {
					if v.eval(a).Sign() != 0 {
						return true
					}
				}
				return false
			}
			return false
		}
		ok := true
		for _, v := range vs {
			if !holds(v) {
				fail(e, "a constraint fails although the hints are computed honestly")
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		switch e.kind {
		case "BITS", "CANON", "BOOL":
			if !it.redundant(e) {
				fail(e, "the range of an honestly computed value cannot be shown")
			}
		case "EQ":
			it.honestCuts(e, fail)
		}
	}
}

// honestCuts re-examines a constraint that depends on one intermediate value only, over the whole
// range of that value.
func (it *Interp) honestCuts(e *Effect, fail func(*Effect, string)) {
	seen := map[int]bool{}
	var cuts []*Term
	free := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if it.run.hintIns[t.id] && t.lo != nil && t.hi != nil {
			cuts = append(cuts, t)
			return
		}
		if t.op == OSym || t.op == OUF {
			free = true
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	d := e.args[0]
	walk(d)
	if len(cuts) != 1 || free {
		return
	}
	for _, x := range cuts {
		n := it.ts.Sym(x.sort, fmt.Sprintf("cut%d", x.id), x.lo, x.hi)
		m := (&substM{it.ts, map[int]*Term{x.id: n}, map[int]*Term{}}).apply(d)
		ls := map[int]*Term{}
		leaves(m, ls, map[int]bool{})
		if len(ls) != 1 || ls[n.id] == nil {
			continue
		}
		it.run.checks++
		m32 := new(big.Int).SetUint64(1<<32 - 1)
		top := new(big.Int).Lsh(m32, 32)
		for i, k := range []*big.Int{x.lo, x.hi, new(big.Int).Add(x.lo, bigOne), new(big.Int).Sub(x.hi, bigOne), m32, new(big.Int).Add(m32, bigOne), top, new(big.Int).Sub(top, bigOne), nil, nil, nil, nil} {
			if k != nil && (k.Cmp(x.lo) < 0 || k.Cmp(x.hi) > 0) {
				continue
			}
			v := newValuation(fmt.Sprint("cut", i))
			if k != nil {
				v.force[n.id] = k
			}
			if v.eval(m).Sign() != 0 {
				fail(e, "a constraint fails for an honestly computed value at the edge of its range")
				return
			}
		}
	}
}

func leaves(t *Term, out map[int]*Term, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OSym || t.op == OUF {
		out[t.id] = t
	}
	for _, a := range t.args {
		leaves(a, out, seen)
	}
}

func sortTerms(l []*Term) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j-1].id > l[j].id; j-- {
			l[j-1], l[j] = l[j], l[j-1]
		}
	}
}
