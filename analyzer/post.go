package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- substitution

type substM struct {
	ts   *Terms
	m    map[int]*Term
	memo map[int]*Term
}

func (s *substM) apply(t *Term) *Term {
	if r, ok := s.m[t.id]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := s.memo[t.id]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = s.apply(a)
		if args[i] != a {
			same = false
		}
	}
	r := t
	if !same {
		ts := s.ts
		switch t.op {
		case OLin:
			l := newLin()
			l.k.Set(t.k)
			for i, a := range args {
				l.add(a, t.co[i])
			}
			r = ts.fromLin(t.sort, l)
		case OMul:
			r = args[0]
			for _, a := range args[1:] {
				r = ts.Mul(r, a)
			}
		case OMod:
			r = ts.Mod(args[0])
		case OGlInv:
			r = ts.GlInv(args[0])
		case OInv:
			r = ts.NInv(args[0])
		case OSel:
			r = ts.Sel(args[0], args[1], args[2])
		case OIsZero:
			r = ts.IsZero(args[0])
		case OBit:
			r = ts.Bit(args[0], int(t.k.Int64()))
		case OUF:
			r = ts.UF(t.sort, t.name, t.k.Int64(), t.lo, t.hi, args...)
		case OIte:
			r = ts.Ite(args[0], args[1], args[2])
		case OAnd:
			r = ts.And(args...)
		case ONot:
			r = ts.Not(args[0])
		case OPrim:
			r = ts.Prim(t.sort, t.name, args...)
		case OOfZ:
			r = ts.OfZ(args[0])
		}
	}
	s.memo[t.id] = r
	return r
}

func dependsOn(t *Term, ids map[int]bool, memo map[int]bool) bool {
	if ids[t.id] {
		return true
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if dependsOn(a, ids, memo) {
			r = true
			break
		}
	}
	memo[t.id] = r
	return r
}

// ---------------------------------------------------------------- hint elimination

type poster struct {
	it     *Interp
	ts     *Terms
	effs   []*Effect
	eqs    []*eqObl
	exps   []*Effect
	forced map[int]*Term // hint outputs and the values the constraints force
}

func (p *poster) substAll(m map[int]*Term) {
	s := &substM{p.ts, m, map[int]*Term{}}
	if p.forced == nil {
		p.forced = map[int]*Term{}
	}
	for k, v := range p.forced {
		p.forced[k] = s.apply(v)
	}
	for k, v := range m {
		if p.it.run.hintSyms[k] {
			p.forced[k] = v
		}
	}
	for _, l := range [][]*Effect{p.effs, p.exps} {
		for _, e := range l {
			for i, a := range e.args {
				e.args[i] = s.apply(a)
			}
		}
	}
	for _, q := range p.eqs {
		q.got = s.apply(q.got)
		q.want = s.apply(q.want)
	}
	for _, hc := range p.it.run.hints {
		for i, a := range hc.ins {
			hc.ins[i] = s.apply(a)
		}
	}
}

// hintBound returns the integer bound enforced on hint symbol s by effects and their indices.
func (p *poster) hintBound(s *Term) (hi *big.Int, idx []int) {
	for i, e := range p.effs {
		if len(e.args) != 1 || e.args[0] != s || !isTrue(e.pc) {
			continue
		}
		var b *big.Int
		switch e.kind {
		case "BITS":
			b = new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(e.n)), bigOne)
		case "CANON":
			b = pM1
		case "BOOL":
			b = bigOne
		default:
			continue
		}
		idx = append(idx, i)
		if hi == nil || b.Cmp(hi) < 0 {
			hi = b
		}
	}
	return
}

func isTrue(t *Term) bool { return t == nil || (t.isConst() && t.k.Sign() != 0) }

// coefMod returns the coefficients of the hint symbols in a linear equation, or ok=false when a
// hint symbol occurs non-linearly.
func (p *poster) linHints(d *Term) (syms []*Term, co []*big.Int, rest *Term, ok bool) {
	h := p.it.run.hintSyms
	l := newLin()
	memo := map[int]bool{}
	switch d.op {
	case OLin:
		l.k.Set(d.k)
		for i, a := range d.args {
			if h[a.id] {
				syms = append(syms, a)
				co = append(co, d.co[i])
				continue
			}
			if dependsOn(a, h, memo) {
				// may be an earlier hint not yet eliminated
				l.addMono(a, d.co[i])
				ok = false
				continue
			}
			l.addMono(a, d.co[i])
		}
	default:
		if h[d.id] {
			return []*Term{d}, []*big.Int{bigOne}, p.ts.NatU(0), true
		}
		l.add(d, bigOne)
	}
	return syms, co, p.ts.fromLin(SNat, l), true
}

func (p *poster) drop(idx map[int]bool) {
	var l []*Effect
	for i, e := range p.effs {
		if !idx[i] {
			l = append(l, e)
		}
	}
	p.effs = l
}

func negOver(rest *Term, c *big.Int, ts *Terms) *Term {
	// -rest / c
	inv := new(big.Int).ModInverse(c, rMod)
	inv.Neg(inv)
	return ts.Scale(rest, inv)
}

// eliminate recognises hint outputs that the constraints determine and replaces them by the value
// they are determined to have.
func (p *poster) eliminate() {
	for changed := true; changed; {
		changed = p.ruleSplit() || p.ruleBound() || p.ruleQuotient(true) || p.ruleInverse() || p.ruleQuotient(false)
	}
}

// ruleBound: a hint output with an enforced bound is an integer within that bound
func (p *poster) ruleBound() bool {
	h := p.it.run.hintSyms
	m := map[int]*Term{}
	for _, hc := range p.it.run.hints {
		for i, o := range hc.outs {
			if !h[o.id] || (o.exact() && o.hi.Cmp(rMod) < 0 && o.hi.BitLen() < 250) {
				continue
			}
			b, _ := p.hintBound(o)
			if b == nil {
				continue
			}
			n := p.ts.Sym(SNat, o.name+"!", bigZero, b)
			h[n.id] = true
			m[o.id] = n
			hc.outs[i] = n
		}
	}
	if len(m) == 0 {
		return false
	}
	p.substAll(m)
	return true
}

// ruleSplit: 2^32 h + l = X, h < 2^32, l < 2^32 and (h = 2^32-1 => l = 0)  |-  X < p
func (p *poster) ruleSplit() bool {
	two32 := new(big.Int).Lsh(bigOne, 32)
	m32 := new(big.Int).Sub(two32, bigOne)
	for i, e := range p.effs {
		if e.kind != "EQ" || !isTrue(e.pc) {
			continue
		}
		syms, co, rest, ok := p.linHints(e.args[0])
		if !ok || len(syms) < 2 {
			continue
		}
		for a := range syms {
			for b := range syms {
				if a == b {
					continue
				}
				// co[a] = 2^32 co[b]
				if p.ts.norm(SNat, new(big.Int).Mul(co[b], two32)).Cmp(co[a]) != 0 {
					continue
				}
				h, l := syms[a], syms[b]
				bh, ih := p.hintBound(h)
				bl, il := p.hintBound(l)
				if bh == nil || bl == nil || bh.Cmp(m32) > 0 || bl.Cmp(m32) > 0 {
					continue
				}
				// remaining symbols belong to X
				full := rest
				for k := range syms {
					if k != a && k != b {
						full = p.ts.Add(full, p.ts.Scale(syms[k], co[k]))
					}
				}
				ids := map[int]bool{h.id: true, l.id: true}
				if dependsOn(full, ids, map[int]bool{}) {
					continue
				}
				X := negOver(full, co[b], p.ts)
				for j, e2 := range p.effs {
					if j == i || e2.kind != "EQ" || !isTrue(e2.pc) || !dependsOn(e2.args[0], ids, map[int]bool{}) {
						continue
					}
					if !p.splitGuard(e2.args[0], h, l, X) {
						continue
					}
					idx := map[int]bool{i: true, j: true}
					for _, k := range append(ih, il...) {
						idx[k] = true
					}
					// h and l must not be used elsewhere
					p.drop(idx)
					p.effs = append(p.effs, &Effect{kind: "CANON", args: []*Term{X}, pc: e.pc, pos: e.pos, tag: e.tag, api: e.api})
					// the limbs are determined by X
					if X.op != OConst {
						zx, z32 := p.it.natToZ(X), p.ts.Const(SZ, two32)
						hz := p.ts.OfZ(p.it.zDiv("div", zx, z32))
						lz := p.ts.OfZ(p.it.zDiv("mod", zx, z32))
						setBounds(hz, bigZero, m32)
						setBounds(lz, bigZero, m32)
						p.substAll(map[int]*Term{h.id: hz, l.id: lz})
					}
					return true
				}
			}
		}
	}
	return false
}

// splitGuard: d vanishes whenever h != 2^32-1 and, for h = 2^32-1, exactly when l = 0.
func (p *poster) splitGuard(d, h, l, X *Term) bool {
	// d may only depend on the two limbs
	others := map[int]bool{}
	for id := range p.it.run.hintSyms {
		if id != h.id && id != l.id {
			others[id] = true
		}
	}
	if dependsOn(d, others, map[int]bool{}) {
		return false
	}
	m32 := new(big.Int).SetUint64(1<<32 - 1)
	at := func(hv, lv *big.Int, seed string) bool {
		v := newValuation("split" + seed)
		v.force[h.id] = hv
		v.force[l.id] = lv
		return v.eval(d).Sign() == 0
	}
	lows := []*big.Int{bigOne, big.NewInt(2), m32, new(big.Int).SetUint64(1 << 31)}
	for i := 0; i < 8; i++ {
		lows = append(lows, new(big.Int).Add(bigOne, new(big.Int).Mod(hashInt("low", fmt.Sprint(i)), new(big.Int).Sub(m32, bigOne))))
	}
	if !at(m32, bigZero, "0") {
		return false
	}
	highs := []*big.Int{bigZero, bigOne, new(big.Int).Sub(m32, bigOne), new(big.Int).SetUint64(1 << 31)}
	for i := 0; i < 8; i++ {
		highs = append(highs, new(big.Int).Mod(hashInt("high", fmt.Sprint(i)), m32))
	}
	for i, lv := range lows {
		if at(m32, lv, fmt.Sprint("l", i)) {
			return false
		}
		for j, hv := range highs {
			if !at(hv, lv, fmt.Sprint("h", i, j)) {
				return false
			}
		}
	}
	for j, hv := range highs {
		if !at(hv, bigZero, fmt.Sprint("z", j)) {
			return false
		}
	}
	return true
}

// ruleQuotient: X = q p + rem, 0 <= q <= Q, 0 <= rem < p, X and q p + rem do not wrap  |-  rem = X mod p
func (p *poster) ruleQuotient(strict bool) bool {
	for i, e := range p.effs {
		if e.kind != "EQ" || !isTrue(e.pc) {
			continue
		}
		syms, co, rest, ok := p.linHints(e.args[0])
		if !ok || len(syms) < 2 {
			continue
		}
		for a := range syms {
			for b := range syms {
				if a == b || p.ts.norm(SNat, new(big.Int).Mul(co[b], pMod)).Cmp(co[a]) != 0 {
					continue
				}
				q, rem := syms[a], syms[b]
				bq, iq := p.hintBound(q)
				br, ir := p.hintBound(rem)
				if bq == nil || br == nil || br.Cmp(pM1) > 0 {
					continue
				}
				full := rest
				for k := range syms {
					if k != a && k != b {
						full = p.ts.Add(full, p.ts.Scale(syms[k], co[k]))
					}
				}
				if dependsOn(full, map[int]bool{q.id: true, rem.id: true}, map[int]bool{}) || (strict && dependsOn(full, p.it.run.hintSyms, map[int]bool{})) {
					continue
				}
				X := negOver(full, co[b], p.ts)
				if !strict && !X.exact() {
					continue
				}
				p.it.run.quoBits = bq.BitLen()
				cap := new(big.Int).Mul(bq, pMod)
				cap.Add(cap, pM1)
				p.it.run.checks++
				if cap.Cmp(rMod) >= 0 {
					p.it.violateAt("C02,C03", fmt.Sprintf("the quotient may have %d bits, so quotient*modulus+remainder can exceed the native field order and the remainder is not determined", bq.BitLen()), e.pos)
				}
				if !X.exact() {
					p.it.violateAt("C02,C03", fmt.Sprintf("the reduced value can wrap around the native field order: %v", X), e.pos)
				} else if X.hi.Cmp(cap) > 0 {
					p.it.violateAt("C03,C20", fmt.Sprintf("the reduced value can have %d bits, more than the quotient range allows: %v", X.hi.BitLen(), X), e.pos)
				}
				idx := map[int]bool{i: true}
				for _, k := range append(iq, ir...) {
					idx[k] = true
				}
				p.drop(idx)
				m := p.ts.Mod(X)
				qq := p.ts.OfZ(p.it.zDiv("div", p.it.natToZ(X), p.ts.Const(SZ, pMod)))
				setBounds(qq, bigZero, bq)
				p.substAll(map[int]*Term{rem.id: m, q.id: qq})
				return true
			}
		}
	}
	return false
}

// ruleInverse: inv < p and a constraint that, for x != 0, holds exactly for inv = x^-1 mod p and
// holds for every inv when x = 0  |-  inv = x^-1
func (p *poster) ruleInverse() bool {
	for _, hc := range p.it.run.hints {
		if len(hc.outs) != 1 || len(hc.ins) != 1 {
			continue
		}
		inv := hc.outs[0]
		if !p.it.run.hintSyms[inv.id] {
			continue
		}
		x := hc.ins[0]
		if x.isConst() && x.k.Sign() == 0 {
			continue
		}
		bi, ii := p.hintBound(inv)
		if bi == nil || bi.Cmp(pM1) > 0 {
			continue
		}
		for i, e := range p.effs {
			if e.kind != "EQ" || !isTrue(e.pc) || !dependsOn(e.args[0], map[int]bool{inv.id: true}, map[int]bool{}) {
				continue
			}
			d := e.args[0]
			good := true
			for k := 0; k < 6 && good; k++ {
				seed := fmt.Sprint("inv", k)
				v := newValuation(seed)
				xv := v.eval(x)
				if xv.Sign() == 0 || xv.Cmp(pMod) >= 0 {
					good = false
					break
				}
				iv := new(big.Int).ModInverse(xv, pMod)
				for w, want := range map[string]bool{"right": true, "wrong": false, "zero": false, "neg": false} {
					v := newValuation(seed)
					switch w {
					case "right":
						v.force[inv.id] = iv
					case "wrong":
						v.force[inv.id] = new(big.Int).Mod(hashInt(seed, "w"), pMod)
					case "zero":
						v.force[inv.id] = bigZero
					case "neg":
						v.force[inv.id] = new(big.Int).Sub(pMod, iv)
					}
					if (v.eval(d).Sign() == 0) != want {
						good = false
					}
				}
				// x = 0
				if !x.isConst() {
					for j := 0; j < 3; j++ {
						v := newValuation(seed)
						v.force[x.id] = bigZero
						v.force[inv.id] = new(big.Int).Mod(hashInt(seed, "z", fmt.Sprint(j)), pMod)
						if v.eval(d).Sign() != 0 {
							good = false
						}
					}
				}
			}
			if !good {
				continue
			}
			idx := map[int]bool{i: true}
			for _, k := range ii {
				idx[k] = true
			}
			p.drop(idx)
			p.substAll(map[int]*Term{inv.id: p.ts.GlInv(x)})
			return true
		}
	}
	return false
}

func (it *Interp) violateAt(props, msg, pos string) {
	for _, v := range it.run.viol {
		if v.props == props && v.msg == msg && v.pos == pos {
			return
		}
	}
	it.run.viol = append(it.run.viol, &Viol{props, msg, pos})
}

// ---------------------------------------------------------------- deciding

const nVals = 16

func (it *Interp) vals() []*Valuation {
	if it.valuations == nil {
		for i := 0; i < nVals; i++ {
			v := newValuation(fmt.Sprintf("v%d", i))
			v.shift = i
			v.base = v
			if i > 0 {
				v.base = it.valuations[0]
			}
			it.valuations = append(it.valuations, v)
		}
	}
	return it.valuations
}

// frees are valuations in which zero tests are unconstrained booleans.
func (it *Interp) frees() []*Valuation {
	if it.freeVals == nil {
		for i := 0; i < 24; i++ {
			v := newValuation(fmt.Sprintf("f%d", i))
			v.shift = i
			v.freeZero = it
			v.base = v
			if i > 0 {
				v.base = it.freeVals[0]
			}
			it.freeVals = append(it.freeVals, v)
		}
	}
	return it.freeVals
}

// same decides equality of two value-graph nodes.
func (it *Interp) same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.sort != b.sort {
		return false
	}
	if a.sort == SStr || a.sort == SObj {
		return false
	}
	memo := map[int]bool{}
	if hasIsZero(a, memo) || hasIsZero(b, memo) {
		for _, v := range it.frees() {
			if v.eval(a).Cmp(v.eval(b)) != 0 {
				return false
			}
		}
	}
	for _, v := range it.vals() {
		if v.eval(a).Cmp(v.eval(b)) != 0 {
			return false
		}
	}
	memo = map[int]bool{}
	if hasDoc(a, memo) || hasDoc(b, memo) {
		for _, v := range it.edges() {
			if v.eval(a).Cmp(v.eval(b)) != 0 {
				return false
			}
		}
	}
	return true
}

// edges are valuations in which the integers read from a document take the values around the
// boundaries a conversion may treat specially; each symbol takes each of them in some valuation.
func (it *Interp) edges() []*Valuation {
	if it.edgeVals == nil {
		for i := range edgeInts {
			v := newValuation(fmt.Sprintf("e%d", i))
			v.shift = i
			v.edge = true
			v.base = v
			if i > 0 {
				v.base = it.edgeVals[0]
			}
			it.edgeVals = append(it.edgeVals, v)
		}
	}
	return it.edgeVals
}

var edgeInts = func() []*big.Int {
	var l []*big.Int
	for _, k := range []uint{8, 16, 31, 32, 53, 63, 64} {
		p := new(big.Int).Lsh(bigOne, k)
		l = append(l, new(big.Int).Sub(p, bigOne))
		if k < 64 {
			l = append(l, p, new(big.Int).Add(p, bigOne))
		}
	}
	return append(l, bigZero, bigOne, pM1, pMod, new(big.Int).Add(pMod, bigOne))
}()

func isDocInt(t *Term) bool {
	return t.op == OSym && t.sort == SInt && strings.Contains(t.name, "json:")
}

func hasDoc(t *Term, memo map[int]bool) bool {
	if isDocInt(t) {
		return true
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if hasDoc(a, memo) {
			r = true
			break
		}
	}
	memo[t.id] = r
	return r
}

func hasIsZero(t *Term, memo map[int]bool) bool {
	if t.op == OIsZero {
		return true
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if hasIsZero(a, memo) {
			r = true
			break
		}
	}
	memo[t.id] = r
	return r
}

// proj is the projective fingerprint of t modulo m.
func (it *Interp) proj(t *Term, m *big.Int) string {
	var vals []*big.Int
	var first *big.Int
	for _, v := range it.vals() {
		x := v.eval(t)
		if m == pMod && x.Cmp(rHalf) > 0 {
			x = new(big.Int).Sub(x, rMod)
		}
		x = new(big.Int).Mod(x, m)
		if first == nil && x.Sign() != 0 {
			first = new(big.Int).ModInverse(x, m)
		}
		vals = append(vals, x)
	}
	if first == nil {
		return "0"
	}
	var b strings.Builder
	for _, x := range vals {
		y := new(big.Int).Mul(x, first)
		b.WriteString(y.Mod(y, m).Text(62))
		b.WriteByte('.')
	}
	return b.String()
}

func (it *Interp) exactFP(t *Term) string {
	var b strings.Builder
	for _, v := range it.vals() {
		b.WriteString(v.eval(t).Text(62))
		b.WriteByte('.')
	}
	return b.String()
}

// keys of an effect: two effects express the same constraint when they share a key.
func (it *Interp) effKeys(e *Effect) []string {
	switch e.kind {
	case "EQ":
		d := e.args[0]
		small := d.lo != nil && d.hi != nil && d.hi.Cmp(pMod) < 0 && new(big.Int).Neg(d.lo).Cmp(pMod) < 0
		if hasIsZero(d, map[int]bool{}) {
			// compare with the zero tests taken as free booleans
			return []string{fmt.Sprintf("EQZ:%s", it.freeFP(d))}
		}
		if small {
			return []string{"EQP:" + it.proj(d, pMod)}
		}
		return []string{"EQR:" + it.proj(d, rMod)}
	case "NZ":
		if len(e.args) == 2 && !(e.args[1].isConst() && e.args[1].k.Sign() == 0) && !(e.args[0].isConst() && e.args[0].k.Sign() == 0) {
			a, b := e.args[0], e.args[1]
			return []string{"NZ:" + it.projF(func(v *Valuation) *big.Int {
				x, y := v.eval(a), v.eval(b)
				n := new(big.Int).Mul(x, x)
				y2 := new(big.Int).Mul(y, y)
				return n.Sub(n, y2.Mul(y2, big.NewInt(7)))
			})}
		}
		a := e.args[0]
		if len(e.args) == 2 && a.isConst() && a.k.Sign() == 0 {
			a = e.args[1]
		}
		return []string{
			"NZ:" + it.projF(func(v *Valuation) *big.Int { return v.eval(a) }),
			"NZ:" + it.projF(func(v *Valuation) *big.Int { x := v.eval(a); return new(big.Int).Mul(x, x) }),
		}
	case "CANON", "BOOL", "BITS":
		if e.kind == "BITS" && e.n == 1 {
			return []string{"BOOL0:" + it.exactFP(e.args[0])}
		}
		return []string{fmt.Sprintf("%s%d:%s", e.kind, e.n, it.exactFP(e.args[0]))}
	}
	k := e.kind
	for _, a := range e.args {
		k += ":" + it.exactFP(a)
	}
	return []string{k}
}

func (it *Interp) freeFP(t *Term) string {
	var b strings.Builder
	for _, v := range it.frees() {
		b.WriteString(v.eval(t).Text(62))
		b.WriteByte('.')
	}
	return b.String()
}

func (it *Interp) projF(f func(v *Valuation) *big.Int) string {
	var vals []*big.Int
	var first *big.Int
	for _, v := range it.vals() {
		x := new(big.Int).Mod(f(v), pMod)
		if first == nil && x.Sign() != 0 {
			first = new(big.Int).ModInverse(x, pMod)
		}
		vals = append(vals, x)
	}
	if first == nil {
		return "0"
	}
	var b strings.Builder
	for _, x := range vals {
		y := new(big.Int).Mul(x, first)
		b.WriteString(y.Mod(y, pMod).Text(62))
		b.WriteByte('.')
	}
	return b.String()
}

// normEffect rewrites zero tests into non-zero conditions.
func (it *Interp) normEffect(e *Effect) *Effect {
	nz := func(args ...*Term) *Effect {
		return &Effect{kind: "NZ", args: args, pc: e.pc, pos: e.pos, tag: e.tag, info: e.info, api: e.api}
	}
	if e.kind == "NE" {
		return nz(e.args[0])
	}
	if e.kind == "EQ" {
		_, m := split(e.args[0])
		if m.op == OIsZero {
			return nz(m.args[0])
		}
		if m.op == OMul && len(m.args) == 2 && m.args[0].op == OIsZero && m.args[1].op == OIsZero {
			return nz(m.args[0].args[0], m.args[1].args[0])
		}
	}
	return e
}

func (it *Interp) redundant(e *Effect) bool {
	switch e.kind {
	case "EQ":
		d := e.args[0]
		if d.isConst() && d.k.Sign() == 0 {
			return true
		}
		if hasIsZero(d, map[int]bool{}) {
			return false
		}
		for _, v := range it.vals() {
			if v.eval(d).Sign() != 0 {
				return false
			}
		}
		return true
	case "CANON":
		return e.args[0].canonical()
	case "BOOL":
		return e.args[0].boolean()
	case "BITS":
		return e.args[0].within(new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(e.n)), bigOne))
	case "NZ":
		for _, a := range e.args {
			if a.isConst() && a.k.Sign() != 0 {
				return true
			}
			if a.lo != nil && a.lo.Sign() > 0 && a.exact() {
				return true
			}
		}
	}
	return false
}

// decide discharges the goals of the run.
func (it *Interp) decide() {
	run := it.run
	p := &poster{it: it, ts: it.ts, effs: it.effects, eqs: run.eqs, exps: run.exps}
	if run.honest && !run.noEffects {
		it.decideHonest()
		it.effects = nil
	} else {
		p.eliminate()
		it.effects = p.effs
		run.exps = p.exps
		if it.level > 0 {
			it.checkHintValues(p)
		}
	}

	for _, q := range run.eqs {
		run.checks++
		if !it.same(q.got, q.want) {
			it.violateAt(q.tag, fmt.Sprintf("%s: the code computes %s, required is %s", q.what, q.got.str(5), q.want.str(5)), q.pos)
		}
	}
	if run.noEffects {
		return
	}
	var act []*Effect
	have := map[string][]*Effect{}
	used := map[*Effect]bool{}
	for _, e := range it.effects {
		if e.kind == "PANIC" {
			it.violateAt(joinProps(run.extra, "C14"), "the code aborts for some inputs: "+e.info+" (when "+e.pc.str(4)+")", e.pos)
			continue
		}
		if !isTrue(e.pc) {
			it.violateAt(run.extra, fmt.Sprintf("a constraint is only added when %v", e.pc), e.pos)
			continue
		}
		e = it.normEffect(e)
		act = append(act, e)
		for _, k := range it.effKeys(e) {
			have[k] = append(have[k], e)
		}
	}
	missing := ""
	seen := map[string]bool{}
	for _, e := range run.exps {
		e = it.normEffect(e)
		run.checks++
		ok := false
		keys := it.effKeys(e)
		for _, k := range keys {
			if l := have[k]; len(l) > 0 {
				ok = true
				for _, x := range l {
					used[x] = true
				}
			}
		}
		if e.opt {
			continue
		}
		if !ok && (e.kind == "EQ" || e.kind == "NZ" || allConst(e.args)) && it.redundant(e) {
			ok = true
		}
		if !ok {
			key := e.tag + e.info
			if !seen[key] {
				seen[key] = true
				it.violateAt(e.tag, fmt.Sprintf("missing constraint: %s [%s]", e.info, effStr(e)), e.pos)
			}
			missing = joinProps(missing, e.tag)
		}
	}
	for _, u := range run.uses {
		it.checkUses(u)
	}
	nExtra := 0
	for _, e := range act {
		if used[e] || it.redundant(e) {
			continue
		}
		props := missing
		if props == "" {
			props = run.extra
		}
		nExtra++
		if nExtra > 5 {
			break
		}
		it.violateAt(props, "unexpected constraint: "+effStr(e), e.pos)
	}
}

func allConst(l []*Term) bool {
	for _, a := range l {
		if !a.isConst() {
			return false
		}
	}
	return true
}

func (it *Interp) checkUses(u *usesObl) {
	collect := func(ts []*Term, seen map[int]bool, f func(*Term)) {
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t.id] {
				return
			}
			seen[t.id] = true
			if t.op == OUF && t.name == u.name {
				f(t)
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		for _, t := range ts {
			walk(t)
		}
	}
	ok := map[int]bool{}
	fps := map[string]bool{}
	collect(u.set, map[int]bool{}, func(t *Term) { ok[t.id] = true; fps[it.exactFP(t)] = true })
	seen := map[int]bool{}
	n, bad := 0, 0
	for _, e := range it.effects {
		collect(e.args, seen, func(t *Term) {
			it.run.checks++
			n++
			if bad < 3 && !ok[t.id] && !fps[it.exactFP(t)] {
				bad++
				it.violateAt(u.tag, fmt.Sprintf("%s: a constraint uses %s", u.what, t.str(3)), e.pos)
			}
		})
	}
	if n == 0 {
		it.violateAt(u.tag, fmt.Sprintf("%s: no constraint depends on any of them", u.what), "")
	}
}

func effStr(e *Effect) string {
	var l []string
	for _, a := range e.args {
		l = append(l, a.str(4))
	}
	s := strings.Join(l, ", ")
	switch e.kind {
	case "EQ":
		return s + " = 0"
	case "CANON":
		return s + " < modulus"
	case "BITS":
		return fmt.Sprintf("%s < 2^%d", s, e.n)
	case "NZ":
		return "(" + s + ") != 0"
	}
	return e.kind + "(" + s + ")"
}

var _ = sort.Ints
