package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"sync"
)

// V is an abstract value. Machine integers, booleans, strings and floats that are compile-time or
// shape constants are concrete (I, bool, string, float64); everything derived from circuit
// variables, hint inputs or file contents is a *Term.
type V interface{}

type I uint64 // concrete machine integer, normalised to its type

type Agg struct{ e []V } // struct or array value

type Slice struct {
	arr           *Cell
	off, len, cap int
}

type MapRef struct{ c *Cell } // c.val is *mapVal
type mapVal struct {
	keys []V
	vals []V
}

type Ptr struct{ c *Cell }

type Iface struct {
	t types.Type
	v V
}

type Tuple []V

type FuncV struct {
	src   *FuncSrc    // named function or method
	lit   *litFunc    // closure
	obj   *types.Func // for intrinsics without source
	recv  V           // bound receiver
	bound bool
	tsub  map[*types.TypeParam]types.Type
	nat   func(c *callCtx) V
	name  string
}

// BigV is the value of a big.Int cell: exactly one of k, t is set.
type BigV struct {
	k *big.Int
	t *Term
}

// GlV is the value of a concrete gnark-crypto Goldilocks element.
type GlV uint64

// Merged is a value that differs between joined branches and has no term representation.
type Merged struct {
	c    *Term
	a, b V
}

// VarInst is the dynamic content of a frontend.Variable produced by the constraint builder.
type VarInst struct {
	t    *Term
	kind int // instOwned, ...
	id   int
	pos  string
	dead string // position of the MulAcc that consumed it
}

const (
	instOwned    = iota // fresh linear expression
	instHint            // hint output / internal wire
	instBorrowed        // belongs to the caller of the analysed function
)

type Opaque struct {
	kind string
	data interface{}
	id   int
}

type ErrV struct {
	msg V
	id  *errID
}

// errID is the identity of an error value; wraps are the errors it wraps.
type errID struct{ wraps []*errID }

func (e *errID) is(o *errID) bool {
	if e == o {
		return true
	}
	for _, w := range e.wraps {
		if w.is(o) {
			return true
		}
	}
	return false
}

// Cell is a memory location; aggregates have one cell per component.
type Cell struct {
	t    types.Type
	val  V
	kids []*Cell
	agg  bool
	id   int
	name string
	glob bool
	// entries belong to a builder: the map's keys are builders
	perAPI bool
}

type goPanic struct {
	msg string
	pos string
	val V // the argument of panic, an interface value; nil: a run-time error
}

// panicRec is a panic during whose unwinding deferred functions run.
type panicRec struct {
	gp        goPanic
	depth     int
	recovered bool
}
type undecided struct{ msg string }
type exitProc struct{ why string }

func (it *Interp) undecided(format string, a ...interface{}) {
	panic(undecided{fmt.Sprintf(format, a...) + " at " + it.where()})
}
func (it *Interp) gopanic(format string, a ...interface{}) {
	panic(goPanic{msg: fmt.Sprintf(format, a...), pos: it.where()})
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedPath(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// opaqueKind classifies library types that are modelled rather than decomposed.
var kindMemo sync.Map // types.Type -> string

func opaqueKind(t types.Type) string {
	if k, ok := kindMemo.Load(t); ok {
		return k.(string)
	}
	k := opaqueKind1(t)
	kindMemo.Store(t, k)
	return k
}

func opaqueKind1(t types.Type) string {
	p := namedPath(t)
	switch p {
	case "":
		return ""
	case "math/big.Int":
		return "big"
	case "github.com/consensys/gnark-crypto/field/goldilocks.Element":
		return "gl"
	case "sync.Mutex", "sync.RWMutex":
		return "mutex"
	case "sync.Once", "sync.WaitGroup", "sync.Map", "sync/atomic.Pointer", "sync/atomic.Value":
		return "sync"
	case "regexp.Regexp", "os.File", "strings.Builder", "bytes.Buffer", "big.Float", "strings.Replacer", "bufio.Writer", "internal/reflectlite.Value", "time.Time":
		return "ext"
	}
	if strings.HasPrefix(p, "github.com/consensys/gnark-crypto/") && strings.HasSuffix(p, ".Element") {
		return "felt"
	}
	if strings.HasPrefix(p, "verif/spec.") {
		switch p {
		case "verif/spec.N", "verif/spec.T":
			return "spec"
		}
	}
	return ""
}

func isAgg(t types.Type) bool {
	if opaqueKind(t) != "" {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (it *Interp) zero(t types.Type) V {
	switch opaqueKind(t) {
	case "big":
		return BigV{k: new(big.Int)}
	case "gl":
		return GlV(0)
	case "mutex":
		return I(0)
	case "sync":
		return I(0)
	case "felt":
		return it.ts.Const(SObj, bigZero)
	case "ext", "spec":
		return (*Opaque)(nil)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return I(0)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Struct:
		a := &Agg{}
		for i := 0; i < u.NumFields(); i++ {
			a.e = append(a.e, it.zero(u.Field(i).Type()))
		}
		return a
	case *types.Array:
		a := &Agg{}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, it.zero(u.Elem()))
		}
		return a
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapRef)(nil)
	case *types.Pointer:
		return Ptr{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return (*Opaque)(nil)
	}
	it.undecided("zero value of %s", t)
	return nil
}

func (it *Interp) newCell(t types.Type, v V) *Cell {
	it.cellSeq++
	c := &Cell{t: t, id: it.cellSeq}
	if isAgg(t) {
		c.agg = true
		a, ok := v.(*Agg)
		if !ok {
			it.undecided("aggregate cell of %s initialised with %T", t, v)
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := range a.e {
				c.kids = append(c.kids, it.newCell(u.Field(i).Type(), a.e[i]))
			}
		case *types.Array:
			for i := range a.e {
				c.kids = append(c.kids, it.newCell(u.Elem(), a.e[i]))
			}
		}
		return c
	}
	c.val = v
	return c
}

// newArr makes the backing array of a slice.
func (it *Interp) newArr(elem types.Type, vals []V) *Cell {
	it.cellSeq++
	c := &Cell{agg: true, t: types.NewArray(elem, int64(len(vals))), id: it.cellSeq}
	for _, v := range vals {
		c.kids = append(c.kids, it.newCell(elem, v))
	}
	return c
}

func (it *Interp) load(c *Cell) V {
	if c.agg {
		a := &Agg{e: make([]V, len(c.kids))}
		for i, k := range c.kids {
			a.e[i] = it.load(k)
		}
		return a
	}
	if it.watch != nil && c.glob {
		it.watch(c, false)
	}
	return c.val
}

func (it *Interp) store(c *Cell, v V) {
	if c.agg {
		a, ok := v.(*Agg)
		if !ok {
			if m, ok := v.(*Merged); ok {
				it.undecided("use of a value that differs between branches: %v", m.c)
			}
			it.undecided("store of %T into aggregate %s", v, c.t)
		}
		if len(a.e) != len(c.kids) {
			it.undecided("aggregate size mismatch for %s", c.t)
		}
		for i, k := range c.kids {
			it.store(k, a.e[i])
		}
		return
	}
	if it.watch != nil && c.glob {
		it.watch(c, true)
	}
	it.setLeaf(c, v)
}

func isMutex(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return false
	}
	return n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex"
}

func (it *Interp) setLeaf(c *Cell, v V) {
	if c.glob && !c.perAPI && it.ready && !it.globWritten && !isMutex(c.t) {
		it.globWritten = true
		it.globWhere = c.name + " at " + it.where()
	}
	if n := len(it.journals); n > 0 {
		j := it.journals[n-1]
		if _, ok := j[c]; !ok {
			j[c] = c.val
		}
	}
	c.val = v
}

// journal handling
func (it *Interp) pushJournal() { it.journals = append(it.journals, map[*Cell]V{}) }

// rollback undoes the writes of the top journal and returns the written values.
func (it *Interp) rollback() map[*Cell]V {
	n := len(it.journals) - 1
	j := it.journals[n]
	it.journals = it.journals[:n]
	w := map[*Cell]V{}
	for c, old := range j {
		w[c] = c.val
		c.val = old
	}
	return w
}

// commitJournal merges the top journal into the one below, keeping the writes.
func (it *Interp) commitJournal() map[*Cell]V {
	n := len(it.journals) - 1
	j := it.journals[n]
	it.journals = it.journals[:n]
	if n > 0 {
		p := it.journals[n-1]
		for c, old := range j {
			if _, ok := p[c]; !ok {
				p[c] = old
			}
		}
	}
	return j
}

func sameV(a, b V) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case BigV:
		y, ok := b.(BigV)
		if !ok {
			return false
		}
		if x.k != nil && y.k != nil {
			return x.k.Cmp(y.k) == 0
		}
		return x.k == nil && y.k == nil && x.t == y.t
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && sameV(x.v, y.v)
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !sameV(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameV(x[i], y[i]) {
				return false
			}
		}
		return true
	case *VarInst:
		y, ok := b.(*VarInst)
		return ok && (x == y || x.t == y.t)
	case ErrV:
		y, ok := b.(ErrV)
		return ok && x.id == y.id
	case *mapVal:
		return false
	}
	switch b.(type) {
	case Slice, BigV, Iface, *Agg, Tuple, *mapVal, ErrV:
		return false
	}
	return a == b
}

// merge joins two values under condition c.
func (it *Interp) merge(c *Term, a, b V) V {
	if sameV(a, b) {
		return a
	}
	if c.isConst() {
		if c.k.Sign() != 0 {
			return a
		}
		return b
	}
	switch x := a.(type) {
	case *Agg:
		if y, ok := b.(*Agg); ok && len(x.e) == len(y.e) {
			r := &Agg{e: make([]V, len(x.e))}
			for i := range x.e {
				r.e[i] = it.merge(c, x.e[i], y.e[i])
			}
			return r
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			r := make(Tuple, len(x))
			for i := range x {
				r[i] = it.merge(c, x[i], y[i])
			}
			return r
		}
	case BigV:
		if y, ok := b.(BigV); ok {
			return BigV{t: it.ts.Ite(c, it.zOf(x), it.zOf(y))}
		}
	case Iface:
		if y, ok := b.(Iface); ok && x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
			return Iface{x.t, it.merge(c, x.v, y.v)}
		}
	case *VarInst:
		if y, ok := b.(*VarInst); ok {
			return it.newInst(it.ts.Ite(c, x.t, y.t), instOwned)
		}
	}
	ta, oka := it.asTerm(a)
	tb, okb := it.asTerm(b)
	if oka && okb && ta.sort == tb.sort {
		return it.ts.Ite(c, ta, tb)
	}
	return &Merged{c, a, b}
}

// asTerm converts scalar values to terms.
func (it *Interp) asTerm(v V) (*Term, bool) {
	switch x := v.(type) {
	case *Term:
		return x, true
	case I:
		return it.ts.Const(SInt, new(big.Int).SetUint64(uint64(x))), true
	case bool:
		return it.ts.Bool(x), true
	case string:
		return it.ts.Str(x), true
	}
	return nil, false
}

func (it *Interp) zOf(b BigV) *Term {
	if b.k != nil {
		return it.ts.Const(SZ, b.k)
	}
	return b.t
}
func (it *Interp) bigOf(t *Term) BigV {
	if t.isConst() {
		return BigV{k: t.k}
	}
	return BigV{t: t}
}

func describe(v V) string {
	switch x := v.(type) {
	case *Term:
		return x.String()
	case I:
		return fmt.Sprint(uint64(x))
	case *VarInst:
		return x.t.String()
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return describe(x.v)
	case BigV:
		if x.k != nil {
			return x.k.String()
		}
		return x.t.String()
	case *Agg:
		var s []string
		for i, e := range x.e {
			if i > 6 {
				s = append(s, "…")
				break
			}
			s = append(s, describe(e))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case Slice:
		return fmt.Sprintf("slice(len %d)", x.len)
	case ErrV:
		return "error"
	case nil:
		return "nil"
	case bool, string, float64:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("%T", v)
}
