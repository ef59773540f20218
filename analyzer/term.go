package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"go/token"
	"math/big"
	"sort"
	"strings"
)

// Value graph. Nodes are hash-consed; arithmetic nodes are kept in a normal form (sums of
// monomials with constants folded, nested reductions modulo the Goldilocks prime flattened), so two
// computations of the same value usually meet in the same node. Sums are not distributed over
// products; equality of nodes which differ structurally is decided by polynomial identity testing
// on the graph (eval).

type Sort uint8

const (
	SNat  Sort = iota // element of the native field F_r
	SInt              // 64-bit machine integer
	SZ                // big integer
	SBool             // boolean
	SStr              // string
	SObj              // anything else (opaque external values)
)

type Op uint8

const (
	OConst Op = iota
	OSym
	OLin
	OMul
	OMod   // canonical representative modulo the Goldilocks prime
	OGlInv // inverse modulo the Goldilocks prime (0 for 0)
	OInv   // inverse in F_r
	OSel   // native select (b, x, y) = y + b (x - y)
	OIsZero
	OBit
	OUF // uninterpreted function
	OIte
	OAnd
	ONot
	OPrim // interpreted primitive on SInt, SZ, SStr, SBool
	OOfZ  // integer -> native field
)

var (
	rMod, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
	pMod    = new(big.Int).SetUint64(18446744069414584321)
	pM1     = new(big.Int).Sub(pMod, big.NewInt(1))
	rHalf   = new(big.Int).Rsh(rMod, 1)
	two64   = new(big.Int).Lsh(big.NewInt(1), 64)
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
)

type Term struct {
	op   Op
	sort Sort
	name string
	args []*Term
	co   []*big.Int // OLin coefficients
	k    *big.Int   // OConst value, OLin constant, OBit/OUF index
	id   int
	// integer bounds of an SNat/SZ value; nil: anything
	lo, hi *big.Int
	pos    token.Pos
}

type Terms struct {
	tab map[string]*Term
	all []*Term
	cur *token.Pos
	pfx string // distinguishes the symbols of successive analyses that share this graph
}

func newTerms() *Terms { return &Terms{tab: map[string]*Term{}} }

func (ts *Terms) mk(t *Term) *Term {
	var b strings.Builder
	var buf [8]byte
	b.WriteByte(byte(t.op))
	b.WriteByte(byte(t.sort))
	b.WriteString(t.name)
	b.WriteByte(0)
	if t.k != nil {
		b.WriteString(t.k.Text(62))
	}
	for i, a := range t.args {
		b.WriteByte('|')
		binary.LittleEndian.PutUint32(buf[:4], uint32(a.id))
		b.Write(buf[:4])
		if t.co != nil {
			b.WriteString(t.co[i].Text(62))
		}
	}
	key := b.String()
	if x, ok := ts.tab[key]; ok {
		return x
	}
	t.id = len(ts.all)
	if ts.cur != nil {
		t.pos = *ts.cur
	}
	ts.all = append(ts.all, t)
	ts.tab[key] = t
	ts.bound(t)
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func inRange(lo, hi *big.Int) bool { return lo != nil && hi != nil }

// exact reports whether the value of t, as an integer, is given by its expression without wrapping
// around the native modulus.
func (t *Term) exact() bool {
	return t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil && t.hi.Cmp(rMod) < 0
}
func (t *Term) within(hi *big.Int) bool {
	return t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil && t.hi.Cmp(hi) <= 0
}
func (t *Term) canonical() bool { return t.sort == SNat && t.within(pM1) }
func (t *Term) boolean() bool   { return t.sort == SNat && t.within(bigOne) }

func (ts *Terms) bound(t *Term) {
	if t.lo != nil && t.hi != nil {
		return
	}
	switch t.op {
	case OConst:
		if t.k != nil {
			t.lo, t.hi = t.k, t.k
			if t.sort == SNat && t.k.Cmp(rHalf) > 0 {
				t.lo = new(big.Int).Sub(t.k, rMod)
				t.hi = t.lo
			}
		}
	case OLin:
		lo, hi := new(big.Int).Set(t.k), new(big.Int).Set(t.k)
		if t.sort == SNat && t.k.Cmp(rHalf) > 0 {
			lo.Sub(lo, rMod)
			hi.Sub(hi, rMod)
		}
		for i, a := range t.args {
			if a.lo == nil || a.hi == nil {
				return
			}
			c := t.co[i]
			if t.sort == SNat && c.Cmp(rHalf) > 0 {
				c = new(big.Int).Sub(c, rMod)
			}
			x, y := new(big.Int).Mul(c, a.lo), new(big.Int).Mul(c, a.hi)
			if x.Cmp(y) > 0 {
				x, y = y, x
			}
			lo.Add(lo, x)
			hi.Add(hi, y)
		}
		t.lo, t.hi = lo, hi
		ts.clip(t)
	case OMul:
		lo, hi := big.NewInt(1), big.NewInt(1)
		for _, a := range t.args {
			if a.lo == nil || a.hi == nil || a.lo.Sign() < 0 {
				return
			}
			lo = new(big.Int).Mul(lo, a.lo)
			hi = new(big.Int).Mul(hi, a.hi)
		}
		t.lo, t.hi = lo, hi
		ts.clip(t)
	case OMod, OGlInv:
		t.lo, t.hi = bigZero, pM1
	case OIsZero, OBit:
		t.lo, t.hi = bigZero, bigOne
	case OSel, OIte:
		x, y := t.args[1], t.args[2]
		if t.sort != SNat && t.sort != SZ {
			return
		}
		if t.op == OSel && !t.args[0].boolean() {
			return
		}
		if x.lo == nil || y.lo == nil || x.hi == nil || y.hi == nil {
			return
		}
		t.lo, t.hi = minB(x.lo, y.lo), maxB(x.hi, y.hi)
	case OOfZ:
		a := t.args[0]
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(rMod) < 0 {
			t.lo, t.hi = a.lo, a.hi
		}
	case OPrim:
		if t.sort == SZ && len(t.args) == 2 && t.args[0].lo != nil && t.args[0].hi != nil && t.args[0].lo.Sign() >= 0 && t.args[1].lo != nil && t.args[1].lo.Sign() > 0 {
			a, b := t.args[0], t.args[1]
			switch t.name {
			case "div", "quo":
				if b.hi != nil {
					t.lo, t.hi = new(big.Int).Div(a.lo, b.hi), new(big.Int).Div(a.hi, b.lo)
				}
			case "mod", "rem":
				if b.hi != nil {
					t.lo, t.hi = bigZero, minB(new(big.Int).Sub(b.hi, bigOne), a.hi)
				}
			}
		}
	}
}

// a value whose interval leaves [0,r) may wrap: forget the interval (but keep small negative
// intervals, they describe differences).
func (ts *Terms) clip(t *Term) {
	if t.sort != SNat {
		return
	}
	if t.hi.Cmp(rMod) >= 0 || new(big.Int).Neg(t.lo).Cmp(rMod) >= 0 {
		t.lo, t.hi = nil, nil
	}
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

func (ts *Terms) norm(s Sort, k *big.Int) *big.Int {
	switch s {
	case SNat:
		if k.Sign() >= 0 && k.Cmp(rMod) < 0 {
			return k
		}
		return new(big.Int).Mod(k, rMod)
	case SInt:
		if k.Sign() >= 0 && k.Cmp(two64) < 0 {
			return k
		}
		return new(big.Int).Mod(k, two64)
	}
	return k
}

func (ts *Terms) Const(s Sort, k *big.Int) *Term {
	return ts.mk(&Term{op: OConst, sort: s, k: ts.norm(s, new(big.Int).Set(k))})
}
func (ts *Terms) NatU(k uint64) *Term { return ts.Const(SNat, new(big.Int).SetUint64(k)) }
func (ts *Terms) Sym(s Sort, name string, lo, hi *big.Int) *Term {
	return ts.mk(&Term{op: OSym, sort: s, name: ts.pfx + name, lo: lo, hi: hi})
}
func (ts *Terms) Bool(b bool) *Term {
	k := bigZero
	if b {
		k = bigOne
	}
	return ts.mk(&Term{op: OConst, sort: SBool, k: k})
}
func (ts *Terms) Str(s string) *Term {
	return ts.mk(&Term{op: OConst, sort: SStr, name: s})
}
func (ts *Terms) UF(s Sort, name string, idx int64, lo, hi *big.Int, args ...*Term) *Term {
	return ts.mk(&Term{op: OUF, sort: s, name: name, k: big.NewInt(idx), args: args, lo: lo, hi: hi})
}

type lin struct {
	k  *big.Int
	co map[int]*big.Int
	at map[int]*Term
}

func newLin() *lin { return &lin{new(big.Int), map[int]*big.Int{}, map[int]*Term{}} }

func (l *lin) addMono(a *Term, c *big.Int) {
	if o, ok := l.co[a.id]; ok {
		l.co[a.id] = new(big.Int).Add(o, c)
	} else {
		l.co[a.id] = c
		l.at[a.id] = a
	}
}
func (l *lin) add(t *Term, c *big.Int) {
	switch t.op {
	case OConst:
		l.k.Add(l.k, new(big.Int).Mul(c, t.k))
	case OLin:
		l.k.Add(l.k, new(big.Int).Mul(c, t.k))
		for i, a := range t.args {
			l.addMono(a, new(big.Int).Mul(c, t.co[i]))
		}
	default:
		l.addMono(t, c)
	}
}

func (ts *Terms) fromLin(s Sort, l *lin) *Term {
	ids := make([]int, 0, len(l.co))
	for id, c := range l.co {
		c = ts.norm(s, c)
		if c.Sign() != 0 {
			l.co[id] = c
			ids = append(ids, id)
		}
	}
	k := ts.norm(s, l.k)
	if len(ids) == 0 {
		return ts.Const(s, k)
	}
	sort.Ints(ids)
	if len(ids) == 1 && k.Sign() == 0 && l.co[ids[0]].Cmp(bigOne) == 0 {
		return l.at[ids[0]]
	}
	if s == SZ {
		// k*x - k*c*(x div c) = k*(x mod c)
		for _, id := range ids {
			d := l.at[id]
			if d.op != OPrim || d.name != "div" || !d.args[1].isConst() || d.args[1].k.Sign() <= 0 {
				continue
			}
			f, m := new(big.Int).QuoRem(l.co[id], d.args[1].k, new(big.Int))
			if f.Sign() == 0 || m.Sign() != 0 {
				continue
			}
			f.Neg(f)
			w := newLin()
			w.add(d.args[0], f)
			same := w.k.Cmp(k) == 0
			n := 0
			for wid, c := range w.co {
				if c.Sign() == 0 {
					continue
				}
				n++
				if x, ok := l.co[wid]; !ok || x.Cmp(c) != 0 {
					same = false
				}
			}
			if !same || n != len(ids)-1 {
				continue
			}
			mt := ts.Prim(SZ, "mod", d.args[0], d.args[1])
			return ts.Scale(mt, f)
		}
	}
	t := &Term{op: OLin, sort: s, k: new(big.Int).Set(k)}
	for _, id := range ids {
		t.args = append(t.args, l.at[id])
		t.co = append(t.co, l.co[id])
	}
	return ts.mk(t)
}

func (ts *Terms) Add(xs ...*Term) *Term {
	l := newLin()
	for _, x := range xs {
		l.add(x, bigOne)
	}
	return ts.fromLin(xs[0].sort, l)
}
func (ts *Terms) Sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, bigOne)
	l.add(b, big.NewInt(-1))
	return ts.fromLin(a.sort, l)
}
func (ts *Terms) Scale(a *Term, c *big.Int) *Term {
	l := newLin()
	l.add(a, c)
	return ts.fromLin(a.sort, l)
}
func (ts *Terms) Mul(a, b *Term) *Term {
	if a.isConst() {
		return ts.Scale(b, a.k)
	}
	if b.isConst() {
		return ts.Scale(a, b.k)
	}
	// pull a constant factor out of a single scaled monomial
	ca, ma := split(a)
	cb, mb := split(b)
	var args []*Term
	for _, m := range []*Term{ma, mb} {
		if m.op == OMul {
			args = append(args, m.args...)
		} else {
			args = append(args, m)
		}
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	m := ts.mk(&Term{op: OMul, sort: a.sort, args: args})
	c := new(big.Int).Mul(ca, cb)
	if ts.norm(a.sort, c).Cmp(bigOne) == 0 {
		return m
	}
	return ts.Scale(m, c)
}

func split(t *Term) (*big.Int, *Term) {
	if t.op == OLin && len(t.args) == 1 && t.k.Sign() == 0 {
		return t.co[0], t.args[0]
	}
	return bigOne, t
}

// Mod returns the canonical representative of x modulo the Goldilocks prime.
func (ts *Terms) Mod(x *Term) *Term {
	if x.canonical() && x.op != OLin && x.op != OMul {
		return x
	}
	if x.isConst() {
		return ts.Const(SNat, new(big.Int).Mod(x.k, pMod))
	}
	if !x.exact() {
		return ts.mk(&Term{op: OMod, sort: SNat, args: []*Term{x}})
	}
	l := newLin()
	var add func(t *Term, c *big.Int)
	add = func(t *Term, c *big.Int) {
		switch {
		case t.op == OConst:
			l.k.Add(l.k, new(big.Int).Mul(c, t.k))
		case t.op == OLin && t.exact():
			l.k.Add(l.k, new(big.Int).Mul(c, t.k))
			for i, a := range t.args {
				add(a, new(big.Int).Mod(new(big.Int).Mul(c, t.co[i]), pMod))
			}
		case t.op == OMod && t.args[0].exact():
			add(t.args[0], c)
		default:
			l.addMono(t, c)
		}
	}
	add(x, bigOne)
	for id, c := range l.co {
		c = new(big.Int).Mod(c, pMod)
		if c.Sign() == 0 {
			delete(l.co, id)
		} else {
			l.co[id] = c
		}
	}
	l.k.Mod(l.k, pMod)
	y := ts.fromLin(SNat, l)
	if y.isConst() {
		return y
	}
	if y.canonical() && y.op != OLin && y.op != OMul {
		return y
	}
	// the normalised argument only has a meaning modulo p: give it the exactness of the original
	if y.lo == nil {
		y = x
	}
	return ts.mk(&Term{op: OMod, sort: SNat, args: []*Term{y}})
}

func (ts *Terms) GlInv(x *Term) *Term {
	x = ts.Mod(x)
	if x.isConst() {
		if x.k.Sign() != 0 {
			return ts.Const(SNat, new(big.Int).ModInverse(x.k, pMod))
		}
	}
	return ts.mk(&Term{op: OGlInv, sort: SNat, args: []*Term{x}})
}
func (ts *Terms) NInv(x *Term) *Term {
	if x.isConst() && x.k.Sign() != 0 {
		return ts.Const(SNat, new(big.Int).ModInverse(x.k, rMod))
	}
	return ts.mk(&Term{op: OInv, sort: SNat, args: []*Term{x}})
}
func (ts *Terms) Sel(b, x, y *Term) *Term {
	if b.isConst() {
		if b.k.Sign() == 0 {
			return y
		}
		if b.k.Cmp(bigOne) == 0 {
			return x
		}
	}
	if x == y {
		return x
	}
	return ts.mk(&Term{op: OSel, sort: SNat, args: []*Term{b, x, y}})
}
func (ts *Terms) IsZero(x *Term) *Term {
	if x.isConst() {
		if x.k.Sign() == 0 {
			return ts.NatU(1)
		}
		return ts.NatU(0)
	}
	if x.lo != nil && x.lo.Sign() > 0 && x.exact() {
		return ts.NatU(0)
	}
	// normalise the sign of the leading coefficient
	if x.op == OLin && x.co[0].Cmp(rHalf) > 0 {
		x = ts.Scale(x, big.NewInt(-1))
	}
	return ts.mk(&Term{op: OIsZero, sort: SNat, args: []*Term{x}})
}
func (ts *Terms) Bit(x *Term, i int) *Term {
	if x.isConst() {
		return ts.NatU(uint64(x.k.Bit(i)))
	}
	if i == 0 && x.boolean() {
		return x
	}
	if x.exact() && x.hi.BitLen() <= i {
		return ts.NatU(0)
	}
	return ts.mk(&Term{op: OBit, sort: SNat, args: []*Term{x}, k: big.NewInt(int64(i))})
}
func (ts *Terms) OfZ(x *Term) *Term {
	if x.isConst() {
		return ts.Const(SNat, x.k)
	}
	return ts.mk(&Term{op: OOfZ, sort: SNat, args: []*Term{x}})
}

// booleans
func (ts *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return ts.Bool(a.k.Sign() == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return ts.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}
func (ts *Terms) And(as ...*Term) *Term {
	set := map[int]*Term{}
	for _, a := range as {
		if a.isConst() {
			if a.k.Sign() == 0 {
				return a
			}
			continue
		}
		if a.op == OAnd {
			for _, b := range a.args {
				set[b.id] = b
			}
			continue
		}
		set[a.id] = a
	}
	if len(set) == 0 {
		return ts.Bool(true)
	}
	var l []*Term
	for _, a := range set {
		if a.op == ONot {
			if _, ok := set[a.args[0].id]; ok {
				return ts.Bool(false)
			}
		}
		l = append(l, a)
	}
	if len(l) == 1 {
		return l[0]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return ts.mk(&Term{op: OAnd, sort: SBool, args: l})
}
func (ts *Terms) Or(a, b *Term) *Term { return ts.Not(ts.And(ts.Not(a), ts.Not(b))) }
func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k.Sign() != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		return ts.Or(ts.And(c, a), ts.And(ts.Not(c), b))
	}
	return ts.mk(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

// Prim builds an interpreted primitive; constants fold.
func (ts *Terms) Prim(s Sort, name string, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if !a.isConst() {
			all = false
		}
	}
	if all {
		var vals []*big.Int
		var strs []string
		for _, a := range args {
			vals = append(vals, a.k)
			strs = append(strs, a.name)
		}
		if k, ok := primEval(name, vals, strs); ok {
			if s == SStr {
				return ts.mk(&Term{op: OPrim, sort: s, name: name, args: args})
			}
			return ts.Const(s, k)
		}
	}
	if s == SBool && len(args) == 2 && args[0].sort == SZ && args[0].lo != nil && args[0].hi != nil && args[1].lo != nil && args[1].hi != nil {
		a, b := args[0], args[1]
		switch name {
		case "lt":
			if a.hi.Cmp(b.lo) < 0 {
				return ts.Bool(true)
			}
			if a.lo.Cmp(b.hi) >= 0 {
				return ts.Bool(false)
			}
		case "eq":
			if a.hi.Cmp(b.lo) < 0 || a.lo.Cmp(b.hi) > 0 {
				return ts.Bool(false)
			}
		}
	}
	if s == SBool && name == "eq" && args[0] == args[1] {
		return ts.Bool(true)
	}
	if s == SBool && name == "eq" && args[0].id > args[1].id {
		args = []*Term{args[1], args[0]}
	}
	return ts.mk(&Term{op: OPrim, sort: s, name: name, args: args})
}

func toS(k *big.Int) int64 { return int64(new(big.Int).Mod(k, two64).Uint64()) }

func b2i(b bool) *big.Int {
	if b {
		return bigOne
	}
	return bigZero
}

func primEval(name string, v []*big.Int, strs []string) (*big.Int, bool) {
	switch name {
	case "div", "quo", "mod", "rem", "sdiv", "srem", "udiv", "urem":
		if v[1].Sign() == 0 {
			return bigZero, true
		}
	}
	switch name {
	case "div":
		return new(big.Int).Div(v[0], v[1]), true
	case "mod":
		return new(big.Int).Mod(v[0], v[1]), true
	case "quo":
		return new(big.Int).Quo(v[0], v[1]), true
	case "rem":
		return new(big.Int).Rem(v[0], v[1]), true
	case "eq":
		if v[0] == nil || v[1] == nil {
			return b2i(strs[0] == strs[1]), true
		}
		return b2i(v[0].Cmp(v[1]) == 0), true
	case "lt":
		return b2i(v[0].Cmp(v[1]) < 0), true
	case "slt":
		return b2i(toS(v[0]) < toS(v[1])), true
	case "cmp":
		return big.NewInt(int64(v[0].Cmp(v[1]))), true
	case "sdiv":
		return big.NewInt(toS(v[0]) / toS(v[1])), true
	case "srem":
		return big.NewInt(toS(v[0]) % toS(v[1])), true
	case "udiv":
		return new(big.Int).Quo(v[0], v[1]), true
	case "urem":
		return new(big.Int).Rem(v[0], v[1]), true
	case "and":
		return new(big.Int).And(v[0], v[1]), true
	case "or":
		return new(big.Int).Or(v[0], v[1]), true
	case "xor":
		return new(big.Int).Xor(v[0], v[1]), true
	case "shl":
		if v[1].Cmp(big.NewInt(1024)) > 0 {
			return bigZero, true
		}
		return new(big.Int).Lsh(v[0], uint(v[1].Uint64())), true
	case "shr":
		if v[1].Cmp(big.NewInt(1024)) > 0 {
			return bigZero, true
		}
		return new(big.Int).Rsh(v[0], uint(v[1].Uint64())), true
	case "sar":
		n := v[1].Uint64()
		if n > 63 {
			n = 63
		}
		return big.NewInt(toS(v[0]) >> n), true
	case "low64":
		return new(big.Int).And(new(big.Int).Abs(v[0]), new(big.Int).Sub(two64, bigOne)), true
	case "trunc8":
		return new(big.Int).SetUint64(uint64(uint8(toS(v[0])))), true
	case "trunc16":
		return new(big.Int).SetUint64(uint64(uint16(toS(v[0])))), true
	case "trunc32":
		return new(big.Int).SetUint64(uint64(uint32(toS(v[0])))), true
	case "sext8":
		return big.NewInt(int64(int8(toS(v[0])))), true
	case "sext16":
		return big.NewInt(int64(int16(toS(v[0])))), true
	case "sext32":
		return big.NewInt(int64(int32(toS(v[0])))), true
	case "signed":
		return big.NewInt(toS(v[0])), true
	case "glinv":
		x := new(big.Int).Mod(v[0], pMod)
		if x.Sign() == 0 {
			return bigZero, true
		}
		return new(big.Int).ModInverse(x, pMod), true
	case "uns", "ofnat":
		return v[0], true
	case "powmod":
		if v[1].Sign() < 0 {
			x := new(big.Int).ModInverse(v[0], v[2])
			if x == nil {
				return bigZero, true
			}
			return new(big.Int).Exp(x, new(big.Int).Neg(v[1]), v[2]), true
		}
		return new(big.Int).Exp(v[0], v[1], v[2]), true
	case "glmod":
		return new(big.Int).Mod(v[0], pMod), true
	}
	return nil, false
}

// Valuation assigns pseudo-random values to the leaves of the graph.
type Valuation struct {
	seed  string
	memo  map[int]*big.Int
	force map[int]*big.Int // leaves with a prescribed value
	// Canonical leaves take, over the valuations of one family, every value in each window of four
	// low-order bits (needed to tell all entries of an indexed lookup apart).
	base     *Valuation
	shift    int
	freeZero *Interp // zero tests are unconstrained booleans
	edge     bool    // integers of documents take boundary values
}

func newValuation(seed string) *Valuation {
	return &Valuation{seed: seed, memo: map[int]*big.Int{}, force: map[int]*big.Int{}}
}

// leaf is the value of a symbol or uninterpreted application. own identifies it in this valuation,
// base in the family.
func (v *Valuation) leaf(t *Term, own func(v *Valuation) []string) *big.Int {
	if v.edge && isDocInt(t) {
		n := new(big.Int).Mod(hashInt("edge", t.name), big.NewInt(int64(len(edgeInts)))).Int64()
		return edgeInts[(int(n)+v.shift)%len(edgeInts)]
	}
	h := hashInt(append([]string{v.seed}, own(v)...)...)
	if v.base == nil || t.sort != SNat || t.lo == nil || t.lo.Sign() != 0 || t.hi == nil || t.hi.Cmp(pM1) != 0 {
		return clampTo(h, t.sort, t.lo, t.hi)
	}
	hi := new(big.Int).Mod(h, new(big.Int).SetUint64(1<<32-1))
	b := h
	if v.base != v {
		b = hashInt(append([]string{v.base.seed}, own(v.base)...)...)
	}
	w := new(big.Int).Rsh(b, 64).Uint64()
	var lo uint64
	for j := uint(0); j < 8; j++ {
		lo |= (((w >> (4 * j)) + uint64(v.shift)) & 15) << (4 * j)
	}
	hi.Lsh(hi, 32)
	return hi.Add(hi, new(big.Int).SetUint64(lo))
}

func hashInt(parts ...string) *big.Int {
	h := sha256.New()
	for _, p := range parts {
		var n [4]byte
		binary.LittleEndian.PutUint32(n[:], uint32(len(p)))
		h.Write(n[:])
		h.Write([]byte(p))
	}
	s := h.Sum(nil)
	h.Write([]byte("x"))
	s2 := h.Sum(nil)
	return new(big.Int).SetBytes(append(s, s2[:16]...))
}

func clampTo(x *big.Int, s Sort, lo, hi *big.Int) *big.Int {
	if lo != nil && hi != nil {
		n := new(big.Int).Sub(hi, lo)
		n.Add(n, bigOne)
		x = new(big.Int).Mod(x, n)
		return x.Add(x, lo)
	}
	switch s {
	case SNat:
		return new(big.Int).Mod(x, rMod)
	case SInt:
		return new(big.Int).Mod(x, two64)
	case SBool:
		return new(big.Int).Mod(x, big.NewInt(2))
	case SZ:
		return new(big.Int).Mod(x, rMod)
	}
	return x
}

func (v *Valuation) eval(t *Term) *big.Int {
	if x, ok := v.memo[t.id]; ok {
		return x
	}
	x, ok := v.force[t.id]
	if !ok {
		x = v.eval1(t)
	}
	v.memo[t.id] = x
	return x
}

func (v *Valuation) eval1(t *Term) *big.Int {
	nm := func(x *big.Int) *big.Int {
		switch t.sort {
		case SNat:
			return new(big.Int).Mod(x, rMod)
		case SInt:
			return new(big.Int).Mod(x, two64)
		}
		return x
	}
	switch t.op {
	case OConst:
		if t.k == nil {
			return hashInt("str", t.name)
		}
		return t.k
	case OSym:
		return v.leaf(t, func(*Valuation) []string { return []string{"sym", t.name} })
	case OLin:
		s := new(big.Int).Set(t.k)
		var m big.Int
		for i, a := range t.args {
			m.Mul(t.co[i], v.eval(a))
			s.Add(s, &m)
		}
		return nm(s)
	case OMul:
		s := big.NewInt(1)
		for _, a := range t.args {
			s = nm(new(big.Int).Mul(s, v.eval(a)))
		}
		return s
	case OMod:
		// evaluate the polynomial exactly when it is known not to wrap
		return new(big.Int).Mod(v.evalExact(t.args[0]), pMod)
	case OGlInv:
		x := v.eval(t.args[0])
		if x.Sign() == 0 {
			// the inverse of zero is whatever the prover supplies
			return clampTo(hashInt(v.seed, "inv0"), SNat, bigZero, pM1)
		}
		return new(big.Int).ModInverse(x, pMod)
	case OInv:
		x := v.eval(t.args[0])
		if x.Sign() == 0 {
			return bigZero
		}
		return new(big.Int).ModInverse(x, rMod)
	case OSel:
		b, x, y := v.eval(t.args[0]), v.eval(t.args[1]), v.eval(t.args[2])
		d := new(big.Int).Sub(x, y)
		d.Mul(d, b)
		d.Add(d, y)
		return d.Mod(d, rMod)
	case OIsZero:
		if v.freeZero != nil {
			k := hashInt(v.seed, "isz", v.freeZero.proj(t.args[0], rMod))
			return new(big.Int).And(k, bigOne)
		}
		return b2i(v.eval(t.args[0]).Sign() == 0)
	case OBit:
		return big.NewInt(int64(v.eval(t.args[0]).Bit(int(t.k.Int64()))))
	case OUF:
		if t.name == "bnvec" {
			x := new(big.Int).Rsh(v.eval(t.args[0]), uint(56*t.k.Int64()))
			return x.And(x, mask56)
		}
		return v.leaf(t, func(w *Valuation) []string {
			parts := []string{"uf", t.name, t.k.String()}
			for _, a := range t.args {
				parts = append(parts, w.eval(a).String())
			}
			return parts
		})
	case OIte:
		if v.eval(t.args[0]).Sign() != 0 {
			return v.eval(t.args[1])
		}
		return v.eval(t.args[2])
	case OAnd:
		for _, a := range t.args {
			if v.eval(a).Sign() == 0 {
				return bigZero
			}
		}
		return bigOne
	case ONot:
		return b2i(v.eval(t.args[0]).Sign() == 0)
	case OOfZ:
		return new(big.Int).Mod(v.eval(t.args[0]), rMod)
	case OPrim:
		var vals []*big.Int
		var strs []string
		for _, a := range t.args {
			vals = append(vals, v.eval(a))
			strs = append(strs, "")
		}
		if x, ok := primEval(t.name, vals, strs); ok {
			return nm(x)
		}
		parts := []string{v.seed, "prim", t.name}
		for _, x := range vals {
			parts = append(parts, x.String())
		}
		return clampTo(hashInt(parts...), t.sort, t.lo, t.hi)
	}
	panic("eval")
}

// evalExact evaluates modulo p when the expression is exact over the integers (its value modulo r
// as an integer equals the expression), otherwise the value in F_r.
func (v *Valuation) evalExact(t *Term) *big.Int {
	if t.op == OLin {
		s := new(big.Int).Set(t.k)
		var m big.Int
		for i, a := range t.args {
			m.Mul(t.co[i], v.eval(a))
			s.Add(s, &m)
		}
		if t.exact() {
			return s.Mod(s, rMod)
		}
		return s.Mod(s, rMod)
	}
	return v.eval(t)
}

func (t *Term) String() string { return t.str(4) }

func (t *Term) str(d int) string {
	if t == nil {
		return "nil"
	}
	if t.op == OConst {
		if t.k == nil {
			return fmt.Sprintf("%q", t.name)
		}
		k := t.k
		if t.sort == SNat && k.Cmp(rHalf) > 0 {
			k = new(big.Int).Sub(k, rMod)
		}
		return k.String()
	}
	if t.op == OSym {
		return t.name
	}
	if d == 0 {
		return "…"
	}
	var as []string
	for i, a := range t.args {
		s := a.str(d - 1)
		if t.op == OLin {
			c := t.co[i]
			if t.sort == SNat && c.Cmp(rHalf) > 0 {
				c = new(big.Int).Sub(c, rMod)
			}
			if c.Cmp(bigOne) != 0 {
				s = c.String() + "*" + s
			}
		}
		as = append(as, s)
		if len(as) > 6 {
			as = append(as, "…")
			break
		}
	}
	switch t.op {
	case OLin:
		if t.k.Sign() != 0 {
			as = append(as, t.k.String())
		}
		return "(" + strings.Join(as, " + ") + ")"
	case OMul:
		return strings.Join(as, "*")
	case OMod:
		return "mod_p" + "[" + strings.Join(as, "") + "]"
	case OUF, OPrim:
		s := t.name
		if t.op == OUF && t.k.Sign() != 0 {
			s += "#" + t.k.String()
		}
		return s + "(" + strings.Join(as, ", ") + ")"
	case OBit:
		return fmt.Sprintf("bit%s(%s)", t.k, as[0])
	}
	names := map[Op]string{OGlInv: "inv_p", OInv: "inv", OSel: "select", OIsZero: "iszero", OIte: "ite", OAnd: "and", ONot: "not", OOfZ: "nat"}
	return names[t.op] + "(" + strings.Join(as, ", ") + ")"
}

var mask56 = new(big.Int).Sub(new(big.Int).Lsh(bigOne, 56), bigOne)
