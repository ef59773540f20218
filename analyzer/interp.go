package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type litFunc struct {
	lit *ast.FuncLit
	f   *Frame // defining frame (for package, type substitution)
	env map[types.Object]*Cell
}

type Frame struct {
	pkg    *Pkg
	env    map[types.Object]*Cell
	tsub   map[*types.TypeParam]types.Type
	sig    *types.Signature
	res    []*Cell // named results
	named  bool
	defers []func()
	nrec   int // deferred functions that may recover
	pend   []*pending
	name   string
}

type ctrlKind int

const (
	cNone ctrlKind = iota
	cReturn
	cBreak
	cContinue
	cFall
	cGoto
	cPanic
)

type ctrl struct {
	kind  ctrlKind
	label string
	ret   []V
	msg   goPanic
}

type pending struct {
	c      *Term
	writes map[*Cell]V
	ct     ctrl
	pcLen  int
	jdepth int
}

type Effect struct {
	kind string
	args []*Term
	n    int64
	pc   *Term
	pos  string
	tag  string
	info string
	api  int
	opt  bool // an expectation that need not be met
}

type Interp struct {
	panics   []*panicRec
	recovers int
	w        *World
	ts       *Terms
	cellSeq  int
	instSeq  int
	opSeq    int
	journals []map[*Cell]V
	watch    func(c *Cell, write bool)
	globals  map[types.Object]*Cell
	effects  []*Effect
	pc       []*Term
	stack    []string
	posStack []token.Pos
	cur      token.Pos
	steps    int64
	maxSteps int64
	level    int
	mapRev   bool
	mapRange int
	mapSeed  uint64
	tr       trace
	table    map[string]intrinsic // active substitutions
	std      map[string]intrinsic
	dyn      map[string]func(c *callCtx, o *Opaque) V
	events   []*Event
	tag      string
	run      *Run
	funcsHit map[string]bool
	callHook func(name string, c *callCtx)
	guards   map[string]map[int64]bool
	boxTypes map[string]types.Type
	curAPI   int

	held       []heldLock
	passed     []heldLock // sync.Once values this call has gone through
	csSeq      int
	locks      *lockTrace
	inMapSet   bool
	lastRepo   token.Pos
	mapRot     int
	valuations []*Valuation
	freeVals   []*Valuation
	edgeVals   []*Valuation
	registered map[string]bool
	jsonTop    int
	apis       map[string]*apiObj
	novel      []int64

	epoch       int
	basePfx     string
	schedSet    bool
	sched       int
	spawned     []func()
	ready       bool // package initialisation is over
	globWritten bool // package-level state other than per-builder registries was written
	globWhere   string
}

type Event struct {
	kind string
	what string
	pos  string
	args []V
	n    int64
}

type callCtx struct {
	it   *Interp
	fn   *types.Func
	recv V
	args []V
	sig  *types.Signature
	call *ast.CallExpr
	tsub map[*types.TypeParam]types.Type
	targ []types.Type
	inl  bool // the function has an interpretable body: a native call may decline
}

type intrinsic func(c *callCtx) V

func (it *Interp) where() string {
	// innermost position inside the repository
	p := it.w.Pos(it.cur)
	if strings.HasPrefix(p, "spec/") {
		return p
	}
	if strings.HasPrefix(p, "/") {
		for i := len(it.posStack) - 1; i >= 0; i-- {
			q := it.w.Pos(it.posStack[i])
			if !strings.HasPrefix(q, "/") {
				p = q
				break
			}
		}
	}
	fn := ""
	for i := len(it.stack) - 1; i >= 0; i-- {
		s := it.stack[i]
		if strings.Contains(s, "gnark-plonky2-verifier") {
			fn = strings.ReplaceAll(s, modPath+"/", "")
			break
		}
	}
	if fn != "" {
		return p + " (" + fn + ")"
	}
	return p
}

// repoPos is the innermost call-stack position inside the repository.
func (it *Interp) repoPos() string {
	p := it.w.Pos(it.cur)
	if strings.HasPrefix(p, "spec/") || strings.HasPrefix(p, "/") || p == "?" {
		for i := len(it.posStack) - 1; i >= 0; i-- {
			q := it.w.Pos(it.posStack[i])
			if !strings.HasPrefix(q, "/") && !strings.HasPrefix(q, "spec/") && q != "?" {
				return q
			}
		}
	}
	return it.where()
}

func (it *Interp) curPC() *Term {
	if len(it.pc) == 0 {
		return it.ts.Bool(true)
	}
	return it.ts.And(it.pc...)
}

func (it *Interp) emit(kind string, n int64, args ...*Term) {
	it.effects = append(it.effects, &Effect{kind: kind, args: args, n: n, pc: it.curPC(), pos: it.where(), tag: it.tag, api: it.curAPI})
}

func (it *Interp) event(kind, what string, args ...V) {
	it.events = append(it.events, &Event{kind: kind, what: what, pos: it.where(), args: args})
}

// ---------------------------------------------------------------- types

func (f *Frame) T(t types.Type) types.Type { return substT(t, f.tsub) }

func substT(t types.Type, m map[*types.TypeParam]types.Type) types.Type {
	if len(m) == 0 || t == nil {
		return t
	}
	switch u := t.(type) {
	case *types.TypeParam:
		if x, ok := m[u]; ok {
			return x
		}
		for k, x := range m {
			if k.Obj() == u.Obj() || (k.Obj().Name() == u.Obj().Name() && k.Index() == u.Index()) {
				return x
			}
		}
		return t
	case *types.Slice:
		return types.NewSlice(substT(u.Elem(), m))
	case *types.Array:
		return types.NewArray(substT(u.Elem(), m), u.Len())
	case *types.Pointer:
		return types.NewPointer(substT(u.Elem(), m))
	case *types.Map:
		return types.NewMap(substT(u.Key(), m), substT(u.Elem(), m))
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, substTuple(u.Params(), m), substTuple(u.Results(), m), u.Variadic())
	case *types.Tuple:
		return substTuple(u, m)
	case *types.Alias:
		return substT(types.Unalias(u), m)
	case *types.Named:
		if ta := u.TypeArgs(); ta != nil && ta.Len() > 0 {
			var args []types.Type
			ch := false
			for i := 0; i < ta.Len(); i++ {
				a := substT(ta.At(i), m)
				if a != ta.At(i) {
					ch = true
				}
				args = append(args, a)
			}
			if ch {
				if r, err := types.Instantiate(nil, u.Origin(), args, false); err == nil {
					return r
				}
			}
		}
		return t
	case *types.Struct:
		var fs []*types.Var
		var tags []string
		for i := 0; i < u.NumFields(); i++ {
			fl := u.Field(i)
			fs = append(fs, types.NewField(fl.Pos(), fl.Pkg(), fl.Name(), substT(fl.Type(), m), fl.Embedded()))
			tags = append(tags, u.Tag(i))
		}
		return types.NewStruct(fs, tags)
	}
	return t
}

func substTuple(t *types.Tuple, m map[*types.TypeParam]types.Type) *types.Tuple {
	if t == nil {
		return nil
	}
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		v := t.At(i)
		vs = append(vs, types.NewParam(v.Pos(), v.Pkg(), v.Name(), substT(v.Type(), m)))
	}
	return types.NewTuple(vs...)
}

func (f *Frame) typeOf(e ast.Expr) types.Type {
	if tv, ok := f.pkg.Info.Types[e]; ok {
		return f.T(tv.Type)
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := f.pkg.Info.ObjectOf(id); o != nil {
			return f.T(o.Type())
		}
	}
	return nil
}

func isIface(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func normInt(x uint64, t types.Type) I {
	bits, signed, ok := intInfo(t)
	if !ok || bits == 64 {
		return I(x)
	}
	if signed {
		sh := 64 - uint(bits)
		return I(uint64(int64(x<<sh) >> sh))
	}
	return I(x & (1<<uint(bits) - 1))
}

func (it *Interp) normTerm(x *Term, t types.Type) V {
	bits, signed, ok := intInfo(t)
	if ok && bits != 64 {
		if signed {
			x = it.ts.Prim(SInt, fmt.Sprintf("sext%d", bits), x)
		} else {
			x = it.ts.Prim(SInt, fmt.Sprintf("trunc%d", bits), x)
		}
	}
	return it.unterm(x, t)
}

// unterm turns constant terms back into concrete values.
func (it *Interp) unterm(x *Term, t types.Type) V {
	if x.isConst() {
		switch x.sort {
		case SInt:
			return I(x.k.Uint64())
		case SBool:
			return x.k.Sign() != 0
		case SStr:
			return x.name
		}
	}
	return x
}

func (it *Interp) constV(cv constant.Value, t types.Type) V {
	if isIface(t) {
		// constant converted to an interface: its default type
		return nil
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		it.undecided("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(cv)
	case b.Info()&types.IsString != 0:
		if cv.Kind() == constant.Int {
			n, _ := constant.Int64Val(cv)
			return string(rune(n))
		}
		return constant.StringVal(cv)
	case b.Info()&types.IsInteger != 0:
		cv = constant.ToInt(cv)
		if n, ok := constant.Int64Val(cv); ok {
			return normInt(uint64(n), t)
		}
		if n, ok := constant.Uint64Val(cv); ok {
			return normInt(n, t)
		}
		it.undecided("constant %s too large", cv)
	case b.Info()&types.IsFloat != 0:
		x, _ := constant.Float64Val(constant.ToFloat(cv))
		return x
	}
	it.undecided("constant %s of type %s", cv, t)
	return nil
}

// conv adapts a value of static type from to location type to (implicit assignment conversion).
func (it *Interp) conv(v V, from, to types.Type) V {
	if to == nil || from == nil {
		return v
	}
	if isIface(to) {
		if isIface(from) {
			return v
		}
		if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return Iface{}
		}
		if b, ok := from.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			from = types.Default(from)
		}
		return Iface{from, v}
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return it.zero(to)
	}
	return v
}

// evalTo evaluates e for a location of type to.
func (it *Interp) evalTo(f *Frame, e ast.Expr, to types.Type) V {
	tv := f.pkg.Info.Types[e]
	from := f.T(tv.Type)
	if tv.IsNil() {
		if to == nil {
			return nil
		}
		return it.zero(to)
	}
	v := it.eval(f, e)
	if tv.Value != nil && isIface(to) {
		dt := from
		if isIface(from) {
			return v
		}
		return Iface{types.Default(dt), v}
	}
	return it.conv(v, from, to)
}

// ---------------------------------------------------------------- expressions

func (it *Interp) setPos(p token.Pos) {
	if p.IsValid() {
		it.cur = p
	}
}

func (it *Interp) eval(f *Frame, e ast.Expr) V {
	it.steps++
	if it.steps > it.maxSteps {
		it.undecided("analysis budget exhausted (loop whose trip count is not determined by the shape?)")
	}
	if tv, ok := f.pkg.Info.Types[e]; ok && tv.Value != nil {
		t := f.T(tv.Type)
		if isIface(t) {
			// constant assigned to interface in some contexts: use default type
			dt := defaultConstType(tv.Value)
			return Iface{dt, it.constV(tv.Value, dt)}
		}
		if _, ok := tv.Type.(*types.TypeParam); ok {
			return it.constV(tv.Value, t)
		}
		return it.constV(tv.Value, t)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return it.eval(f, x.X)
	case *ast.Ident:
		if x.Name == "nil" {
			if _, ok := f.pkg.Info.Uses[x].(*types.Nil); ok {
				return nil
			}
		}
		obj := f.pkg.Info.ObjectOf(x)
		switch o := obj.(type) {
		case *types.Var:
			return it.load(it.varCell(f, o))
		case *types.Func:
			return it.funcValue(f, x, o)
		case *types.Const:
			return it.constV(o.Val(), f.T(o.Type()))
		}
		it.setPos(x.Pos())
		it.undecided("identifier %s", x.Name)
	case *ast.BasicLit:
		it.undecided("literal %s", x.Value)
	case *ast.FuncLit:
		env := make(map[types.Object]*Cell, len(f.env))
		for k, v := range f.env {
			env[k] = v
		}
		return &FuncV{lit: &litFunc{x, f, env}, tsub: f.tsub, name: f.name + ".func"}
	case *ast.CompositeLit:
		return it.composite(f, x, f.typeOf(x))
	case *ast.SelectorExpr:
		return it.selector(f, x)
	case *ast.IndexExpr:
		return it.index(f, x)
	case *ast.IndexListExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if o, ok := f.pkg.Info.Uses[id].(*types.Func); ok {
				return it.funcValue(f, id, o)
			}
		}
	case *ast.SliceExpr:
		return it.sliceExpr(f, x)
	case *ast.TypeAssertExpr:
		v, ok := it.typeAssert(f, x)
		if !ok {
			it.setPos(x.Pos())
			it.gopanic("interface conversion failed")
		}
		return v
	case *ast.CallExpr:
		return it.callExpr(f, x)
	case *ast.StarExpr:
		p := it.eval(f, x.X)
		it.setPos(x.Pos())
		return it.load(it.ptrCell(p))
	case *ast.UnaryExpr:
		return it.unary(f, x)
	case *ast.BinaryExpr:
		return it.binary(f, x)
	}
	it.setPos(e.Pos())
	it.undecided("expression %T", e)
	return nil
}

func defaultConstType(v constant.Value) types.Type {
	switch v.Kind() {
	case constant.Bool:
		return types.Typ[types.Bool]
	case constant.String:
		return types.Typ[types.String]
	case constant.Float:
		return types.Typ[types.Float64]
	}
	return types.Typ[types.Int]
}

func (it *Interp) varCell(f *Frame, o *types.Var) *Cell {
	if c, ok := f.env[o]; ok {
		return c
	}
	if c, ok := it.globals[o]; ok {
		return c
	}
	if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
		// package-level variable of a library package
		c := it.newCell(o.Type(), it.extGlobal(o))
		it.globals[o] = c
		it.initLib(o)
		return c
	}
	it.undecided("variable %s has no storage", o.Name())
	return nil
}

// initLib evaluates the initialiser of a package-level variable of an interpreted library package
// when the variable is first used.
func (it *Interp) initLib(o *types.Var) {
	p := it.w.Pkgs[o.Pkg().Path()]
	if p == nil || p.Info == nil || p.Repo || p.Spec || o.Type().String() == "error" {
		return
	}
	for _, in := range p.Info.InitOrder {
		if len(in.Lhs) != 1 || in.Lhs[0] != o {
			continue
		}
		fr := &Frame{pkg: p, env: map[types.Object]*Cell{}, name: p.Path + ".init"}
		it.stack = append(it.stack, fr.name)
		it.posStack = append(it.posStack, in.Rhs.Pos())
		it.store(it.globals[o], it.evalTo(fr, in.Rhs, o.Type()))
		it.stack = it.stack[:len(it.stack)-1]
		it.posStack = it.posStack[:len(it.posStack)-1]
	}
}

func (it *Interp) ptrCell(p V) *Cell {
	switch x := p.(type) {
	case Ptr:
		if x.c == nil {
			it.gopanic("nil pointer dereference")
		}
		return x.c
	case *Merged:
		it.undecided("dereference of a pointer that differs between branches")
	}
	it.undecided("dereference of %T", p)
	return nil
}

// addr returns the location denoted by e, or nil if e is not addressable.
func (it *Interp) addr(f *Frame, e ast.Expr) *Cell {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return it.addr(f, x.X)
	case *ast.Ident:
		if o, ok := f.pkg.Info.ObjectOf(x).(*types.Var); ok {
			return it.varCell(f, o)
		}
	case *ast.StarExpr:
		p := it.eval(f, x.X)
		it.setPos(x.Pos())
		return it.ptrCell(p)
	case *ast.SelectorExpr:
		if sel, ok := f.pkg.Info.Selections[x]; ok && sel.Kind() == types.FieldVal {
			return it.fieldCell(f, x.X, sel.Index())
		}
		if o, ok := f.pkg.Info.Uses[x.Sel].(*types.Var); ok && !o.IsField() {
			return it.varCell(f, o)
		}
	case *ast.IndexExpr:
		bt := f.typeOf(x.X)
		switch u := bt.Underlying().(type) {
		case *types.Slice:
			s := it.eval(f, x.X)
			i := it.indexVal(f, x.Index)
			it.setPos(x.Pos())
			return it.sliceElem(s, i)
		case *types.Array:
			b := it.addr(f, x.X)
			if b == nil {
				return nil
			}
			i := it.indexVal(f, x.Index)
			it.setPos(x.Pos())
			if i < 0 || i >= len(b.kids) {
				it.gopanic("index out of range [%d] with length %d", i, len(b.kids))
			}
			return b.kids[i]
		case *types.Pointer:
			p := it.eval(f, x.X)
			i := it.indexVal(f, x.Index)
			it.setPos(x.Pos())
			b := it.ptrCell(p)
			if i < 0 || i >= len(b.kids) {
				it.gopanic("index out of range [%d] with length %d", i, len(b.kids))
			}
			_ = u
			return b.kids[i]
		}
	}
	return nil
}

func (it *Interp) sliceElem(v V, i int) *Cell {
	s, ok := v.(Slice)
	if !ok {
		if m, ok := v.(*Merged); ok {
			it.undecided("index into a slice that differs between branches (%v)", m.c)
		}
		it.undecided("index of %T", v)
	}
	if i < 0 || i >= s.len {
		it.gopanic("index out of range [%d] with length %d", i, s.len)
	}
	return s.arr.kids[s.off+i]
}

func (it *Interp) fieldCell(f *Frame, base ast.Expr, path []int) *Cell {
	bt := f.typeOf(base)
	var c *Cell
	if _, ok := bt.Underlying().(*types.Pointer); ok {
		p := it.eval(f, base)
		it.setPos(base.Pos())
		c = it.ptrCell(p)
	} else {
		c = it.addr(f, base)
		if c == nil {
			return nil
		}
	}
	for i, k := range path {
		if i > 0 && !c.agg {
			c = it.ptrCell(it.load(c))
		}
		if !c.agg || k >= len(c.kids) {
			it.setPos(base.Pos())
			it.undecided("field access on %s", c.t)
		}
		c = c.kids[k]
	}
	return c
}

func (it *Interp) indexVal(f *Frame, e ast.Expr) int {
	v := it.eval(f, e)
	switch x := v.(type) {
	case I:
		t := f.typeOf(e)
		if _, signed, ok := intInfo(t); ok && !signed && uint64(x) > math.MaxInt64 {
			return math.MaxInt64
		}
		return int(int64(x))
	case *Term:
		it.setPos(e.Pos())
		it.undecided("index depends on circuit data: %v", x)
	}
	it.undecided("index of type %T", v)
	return 0
}

func (it *Interp) selector(f *Frame, x *ast.SelectorExpr) V {
	sel, ok := f.pkg.Info.Selections[x]
	if !ok {
		// qualified identifier
		switch o := f.pkg.Info.Uses[x.Sel].(type) {
		case *types.Var:
			return it.load(it.varCell(f, o))
		case *types.Func:
			return it.funcValue(f, x.Sel, o)
		case *types.Const:
			return it.constV(o.Val(), o.Type())
		}
		it.undecided("selector %s", x.Sel.Name)
	}
	switch sel.Kind() {
	case types.FieldVal:
		if c := it.fieldCell(f, x.X, sel.Index()); c != nil {
			return it.load(c)
		}
		v := it.eval(f, x.X)
		return it.fieldOf(v, sel.Index())
	case types.MethodVal:
		recv, fn := it.methodRecv(f, x, sel)
		return &FuncV{obj: fn, src: it.w.Decls[fn.Origin()], recv: recv, bound: true, name: fullName(fn), tsub: recvSub(fn, sel.Recv())}
	case types.MethodExpr:
		fn := sel.Obj().(*types.Func)
		return &FuncV{nat: func(c *callCtx) V {
			return it.callFn(&FuncV{obj: fn, src: it.w.Decls[fn.Origin()], recv: c.args[0], bound: true, name: fullName(fn)}, c.args[1:], nil)
		}, name: fullName(fn)}
	}
	return nil
}

func recvSub(fn *types.Func, recv types.Type) map[*types.TypeParam]types.Type {
	n, ok := types.Unalias(deref(recv)).(*types.Named)
	if !ok || n.TypeArgs() == nil || n.TypeArgs().Len() == 0 {
		return nil
	}
	sig := fn.Origin().Type().(*types.Signature)
	m := map[*types.TypeParam]types.Type{}
	for i := 0; i < sig.RecvTypeParams().Len() && i < n.TypeArgs().Len(); i++ {
		m[sig.RecvTypeParams().At(i)] = n.TypeArgs().At(i)
	}
	return m
}

func (it *Interp) fieldOf(v V, path []int) V {
	for _, k := range path {
		switch a := v.(type) {
		case *Agg:
			v = a.e[k]
		case Ptr:
			v = it.load(it.ptrCell(a).kids[k])
		default:
			it.undecided("field of %T", v)
		}
	}
	return v
}

// methodRecv evaluates the receiver of a method selection, following embedded fields and taking
// the address or dereferencing as the method requires.
func (it *Interp) methodRecv(f *Frame, x *ast.SelectorExpr, sel *types.Selection) (V, *types.Func) {
	fn := sel.Obj().(*types.Func)
	sig := fn.Type().(*types.Signature)
	path := sel.Index()
	emb := path[:len(path)-1]
	rt := sig.Recv().Type()
	_, wantPtr := rt.Underlying().(*types.Pointer)
	if isIface(rt) {
		wantPtr = false
	}
	bt := f.typeOf(x.X)
	_, basePtr := bt.Underlying().(*types.Pointer)
	if len(emb) == 0 {
		if wantPtr {
			if basePtr {
				return it.eval(f, x.X), fn
			}
			c := it.addr(f, x.X)
			if c == nil {
				c = it.newCell(bt, it.eval(f, x.X))
			}
			return Ptr{c}, fn
		}
		v := it.eval(f, x.X)
		if basePtr && !isIface(rt) {
			v = it.load(it.ptrCell(v))
		}
		return v, fn
	}
	c := it.fieldCell(f, x.X, emb)
	if c == nil {
		v := it.fieldOf(it.eval(f, x.X), emb)
		if wantPtr {
			it.undecided("method on unaddressable embedded field")
		}
		return v, fn
	}
	_, fieldPtr := c.t.Underlying().(*types.Pointer)
	switch {
	case wantPtr && fieldPtr:
		return it.load(c), fn
	case wantPtr:
		return Ptr{c}, fn
	case fieldPtr && !isIface(rt):
		return it.load(it.ptrCell(it.load(c))), fn
	}
	return it.load(c), fn
}

var nameMemo sync.Map // *types.Func -> string

func fullName(o *types.Func) string {
	if n, ok := nameMemo.Load(o); ok {
		return n.(string)
	}
	n := o.FullName()
	nameMemo.Store(o, n)
	return n
}

func (it *Interp) funcValue(f *Frame, id *ast.Ident, o *types.Func) V {
	fv := &FuncV{obj: o, src: it.w.Decls[o.Origin()], name: fullName(o)}
	if inst, ok := f.pkg.Info.Instances[id]; ok {
		sig := o.Origin().Type().(*types.Signature)
		fv.tsub = map[*types.TypeParam]types.Type{}
		for i := 0; i < sig.TypeParams().Len(); i++ {
			fv.tsub[sig.TypeParams().At(i)] = f.T(inst.TypeArgs.At(i))
		}
	}
	return fv
}

func (it *Interp) index(f *Frame, x *ast.IndexExpr) V {
	if tv, ok := f.pkg.Info.Types[x.X]; ok {
		if _, isSig := tv.Type.Underlying().(*types.Signature); isSig && !tv.IsValue() || isSig {
			// generic instantiation
			if id, ok := x.X.(*ast.Ident); ok {
				if o, ok := f.pkg.Info.Uses[id].(*types.Func); ok {
					return it.funcValue(f, id, o)
				}
			}
			if s, ok := x.X.(*ast.SelectorExpr); ok {
				if o, ok := f.pkg.Info.Uses[s.Sel].(*types.Func); ok {
					return it.funcValue(f, s.Sel, o)
				}
			}
		}
	}
	bt := f.typeOf(x.X)
	switch u := bt.Underlying().(type) {
	case *types.Map:
		m := it.eval(f, x.X)
		k := it.evalTo(f, x.Index, u.Key())
		it.setPos(x.Pos())
		v, ok := it.mapGet(m, k)
		if !ok {
			return it.zero(u.Elem())
		}
		return v
	case *types.Basic: // string
		s := it.eval(f, x.X)
		i := it.indexVal(f, x.Index)
		it.setPos(x.Pos())
		str, ok := s.(string)
		if !ok {
			it.undecided("index of symbolic string")
		}
		if i < 0 || i >= len(str) {
			it.gopanic("index out of range [%d] with length %d", i, len(str))
		}
		return I(str[i])
	}
	if c := it.addr(f, x); c != nil {
		return it.load(c)
	}
	v := it.eval(f, x.X)
	i := it.indexVal(f, x.Index)
	it.setPos(x.Pos())
	if a, ok := v.(*Agg); ok {
		if i < 0 || i >= len(a.e) {
			it.gopanic("index out of range [%d] with length %d", i, len(a.e))
		}
		return a.e[i]
	}
	it.undecided("index of %T", v)
	return nil
}

func (it *Interp) keyEq(a, b V) bool {
	if sameV(a, b) {
		return true
	}
	sa, sb := isSymbolic(a), isSymbolic(b)
	if sa || sb {
		it.undecided("map key depends on circuit data")
	}
	return false
}

func isSymbolic(v V) bool {
	switch x := v.(type) {
	case *Term:
		return true
	case *Merged:
		return true
	case Iface:
		return isSymbolic(x.v)
	case *Agg:
		for _, e := range x.e {
			if isSymbolic(e) {
				return true
			}
		}
	}
	return false
}

func (it *Interp) mapGet(m V, k V) (V, bool) {
	r, ok := m.(*MapRef)
	if !ok {
		it.undecided("map access on %T", m)
	}
	if r == nil {
		return nil, false
	}
	mv := it.load(r.c).(*mapVal)
	for i, kk := range mv.keys {
		if it.keyEq(kk, k) {
			return mv.vals[i], true
		}
	}
	return nil, false
}

func (it *Interp) mapSet(m V, k, v V) {
	r, ok := m.(*MapRef)
	if !ok {
		it.undecided("map store on %T", m)
	}
	if r == nil {
		it.gopanic("assignment to entry in nil map")
	}
	it.inMapSet = true
	mv := it.load(r.c).(*mapVal)
	it.inMapSet = false
	n := &mapVal{append([]V{}, mv.keys...), append([]V{}, mv.vals...)}
	for i, kk := range n.keys {
		if it.keyEq(kk, k) {
			n.vals[i] = v
			it.store(r.c, n)
			return
		}
	}
	n.keys = append(n.keys, k)
	n.vals = append(n.vals, v)
	it.store(r.c, n)
}

func (it *Interp) mapDelete(m V, k V) {
	r := m.(*MapRef)
	if r == nil {
		return
	}
	mv := it.load(r.c).(*mapVal)
	n := &mapVal{}
	for i, kk := range mv.keys {
		if !it.keyEq(kk, k) {
			n.keys = append(n.keys, kk)
			n.vals = append(n.vals, mv.vals[i])
		}
	}
	it.store(r.c, n)
}

func (it *Interp) newMap(glob bool) *MapRef {
	it.cellSeq++
	return &MapRef{&Cell{val: &mapVal{}, id: it.cellSeq, t: types.Typ[types.Invalid], glob: glob}}
}

func (it *Interp) sliceExpr(f *Frame, x *ast.SliceExpr) V {
	bt := f.typeOf(x.X)
	var s Slice
	isStr := false
	var str string
	switch bt.Underlying().(type) {
	case *types.Slice:
		v := it.eval(f, x.X)
		sv, ok := v.(Slice)
		if !ok {
			it.undecided("slice of %T", v)
		}
		s = sv
	case *types.Array:
		c := it.addr(f, x.X)
		if c == nil {
			it.undecided("slice of unaddressable array")
		}
		s = Slice{c, 0, len(c.kids), len(c.kids)}
	case *types.Pointer:
		c := it.ptrCell(it.eval(f, x.X))
		s = Slice{c, 0, len(c.kids), len(c.kids)}
	case *types.Basic:
		v := it.eval(f, x.X)
		sv, ok := v.(string)
		if !ok {
			it.undecided("slice of symbolic string")
		}
		str, isStr = sv, true
		s = Slice{nil, 0, len(sv), len(sv)}
	default:
		it.undecided("slice of %s", bt)
	}
	lo, hi, mx := 0, s.len, s.cap
	if x.Low != nil {
		lo = it.indexVal(f, x.Low)
	}
	if x.High != nil {
		hi = it.indexVal(f, x.High)
	}
	if x.Max != nil {
		mx = it.indexVal(f, x.Max)
	}
	it.setPos(x.Pos())
	if lo < 0 || hi < lo || hi > mx || mx > s.cap {
		it.gopanic("slice bounds out of range [%d:%d] with capacity %d", lo, hi, s.cap)
	}
	if isStr {
		return str[lo:hi]
	}
	return Slice{s.arr, s.off + lo, hi - lo, mx - lo}
}

func (it *Interp) composite(f *Frame, x *ast.CompositeLit, t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if opaqueKind(t) != "" {
			return it.zero(t)
		}
		a := it.zero(t).(*Agg)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				found := false
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						a.e[j] = it.evalElt(f, kv.Value, u.Field(j).Type())
						found = true
						break
					}
				}
				if !found {
					it.undecided("field %s", name)
				}
				continue
			}
			a.e[i] = it.evalElt(f, el, u.Field(i).Type())
		}
		return a
	case *types.Array:
		if opaqueKind(t) == "gl" {
			it.undecided("raw Goldilocks element literal")
		}
		a := it.zero(t).(*Agg)
		i := 0
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				i = it.indexVal(f, kv.Key)
				el = kv.Value
			}
			a.e[i] = it.evalElt(f, el, u.Elem())
			i++
		}
		return a
	case *types.Slice:
		var vals []V
		i := 0
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				i = it.indexVal(f, kv.Key)
				el = kv.Value
			}
			for len(vals) <= i {
				vals = append(vals, nil)
			}
			vals[i] = it.evalElt(f, el, u.Elem())
			i++
		}
		for j := range vals {
			if vals[j] == nil {
				vals[j] = it.zero(u.Elem())
			}
		}
		return Slice{it.newArr(u.Elem(), vals), 0, len(vals), len(vals)}
	case *types.Map:
		m := it.newMap(false)
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			k := it.evalElt(f, kv.Key, u.Key())
			v := it.evalElt(f, kv.Value, u.Elem())
			it.mapSet(m, k, v)
		}
		return m
	case *types.Pointer:
		v := it.composite(f, x, u.Elem())
		return Ptr{it.newCell(u.Elem(), v)}
	}
	it.undecided("composite literal of %s", t)
	return nil
}

func (it *Interp) evalElt(f *Frame, e ast.Expr, t types.Type) V {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			v := it.composite(f, cl, p.Elem())
			return Ptr{it.newCell(p.Elem(), v)}
		}
		return it.composite(f, cl, t)
	}
	return it.evalTo(f, e, t)
}

func (it *Interp) typeAssert(f *Frame, x *ast.TypeAssertExpr) (V, bool) {
	v := it.eval(f, x.X)
	T := f.typeOf(x.Type)
	return it.assertTo(v, T)
}

func (it *Interp) assertTo(v V, T types.Type) (V, bool) {
	i, ok := v.(Iface)
	if !ok {
		it.undecided("type assertion on %T", v)
	}
	if it.dynIs(i, T) {
		if isIface(T) {
			return i, true
		}
		return i.v, true
	}
	return it.zero(T), false
}

func (it *Interp) dynIs(i Iface, T types.Type) bool {
	if i.t == nil {
		return false
	}
	if isIface(T) {
		if o, ok := i.v.(*Opaque); ok && o != nil {
			if o.kind == "api" {
				iface := T.Underlying().(*types.Interface)
				for k := 0; k < iface.NumMethods(); k++ {
					if !it.apiSupports(o, iface.Method(k).Name()) {
						return false
					}
				}
				return true
			}
		}
		if _, ok := i.v.(ErrV); ok {
			return T.String() == "error" || T.Underlying().(*types.Interface).NumMethods() == 0
		}
		return types.Implements(i.t, T.Underlying().(*types.Interface))
	}
	return types.Identical(i.t, T)
}

func (it *Interp) unary(f *Frame, x *ast.UnaryExpr) V {
	switch x.Op {
	case token.AND:
		if cl, ok := unparen(x.X).(*ast.CompositeLit); ok {
			t := f.typeOf(cl)
			return Ptr{it.newCell(t, it.composite(f, cl, t))}
		}
		c := it.addr(f, x.X)
		if c == nil {
			it.setPos(x.Pos())
			it.undecided("address of unaddressable expression")
		}
		return Ptr{c}
	case token.NOT:
		v := it.eval(f, x.X)
		switch b := v.(type) {
		case bool:
			return !b
		case *Term:
			return it.unterm(it.ts.Not(b), nil)
		}
	case token.SUB:
		v := it.eval(f, x.X)
		t := f.typeOf(x)
		switch n := v.(type) {
		case I:
			return normInt(-uint64(n), t)
		case float64:
			return -n
		case *Term:
			return it.normTerm(it.ts.Scale(n, big.NewInt(-1)), t)
		}
	case token.ADD:
		return it.eval(f, x.X)
	case token.XOR:
		v := it.eval(f, x.X)
		if n, ok := v.(I); ok {
			return normInt(^uint64(n), f.typeOf(x))
		}
	}
	it.setPos(x.Pos())
	it.undecided("unary %s", x.Op)
	return nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (it *Interp) binary(f *Frame, x *ast.BinaryExpr) V {
	switch x.Op {
	case token.LAND, token.LOR:
		a := it.eval(f, x.X)
		switch av := a.(type) {
		case bool:
			if x.Op == token.LAND && !av {
				return false
			}
			if x.Op == token.LOR && av {
				return true
			}
			return it.eval(f, x.Y)
		case *Term:
			b := it.eval(f, x.Y)
			bt, ok := it.asTerm(b)
			if !ok {
				it.undecided("boolean operand %T", b)
			}
			if x.Op == token.LAND {
				return it.unterm(it.ts.And(av, bt), nil)
			}
			return it.unterm(it.ts.Or(av, bt), nil)
		}
	case token.EQL, token.NEQ:
		tx, ty := f.typeOf(x.X), f.typeOf(x.Y)
		var a, b V
		switch {
		case isNilExpr(f, x.Y):
			a = it.eval(f, x.X)
			b = it.zero(tx)
		case isNilExpr(f, x.X):
			b = it.eval(f, x.Y)
			a = it.zero(ty)
		default:
			to := tx
			if isIface(ty) && !isIface(tx) {
				to = ty
			}
			a = it.evalTo(f, x.X, to)
			b = it.evalTo(f, x.Y, to)
		}
		it.setPos(x.OpPos)
		r := it.equal(a, b)
		if x.Op == token.NEQ {
			switch q := r.(type) {
			case bool:
				return !q
			case *Term:
				return it.unterm(it.ts.Not(q), nil)
			}
		}
		return r
	}
	a := it.eval(f, x.X)
	b := it.eval(f, x.Y)
	it.setPos(x.OpPos)
	t := f.typeOf(x)
	if x.Op == token.SHL || x.Op == token.SHR {
		return it.binop(x.Op, a, b, f.typeOf(x.X), f.typeOf(x.Y))
	}
	if isCmp(x.Op) {
		t = f.typeOf(x.X)
		if bt, ok := t.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
			t = f.typeOf(x.Y)
		}
	}
	return it.binop(x.Op, a, b, t, nil)
}

func isCmp(op token.Token) bool {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		return true
	}
	return false
}

func isNilExpr(f *Frame, e ast.Expr) bool {
	tv, ok := f.pkg.Info.Types[e]
	return ok && tv.IsNil()
}

func (it *Interp) equal(a, b V) V {
	switch x := a.(type) {
	case *Merged:
		ra, rb := it.equal(x.a, b), it.equal(x.b, b)
		ta, _ := it.asTerm(ra)
		tb, _ := it.asTerm(rb)
		return it.unterm(it.ts.Ite(x.c, ta, tb), nil)
	case Slice:
		y, ok := b.(Slice)
		if ok && y.arr == nil {
			return x.arr == nil
		}
		if ok && x.arr == nil {
			return y.arr == nil
		}
		it.undecided("slice comparison")
	case *MapRef:
		y, _ := b.(*MapRef)
		return x == y
	case *FuncV:
		return x == nil
	case Ptr:
		y, ok := b.(Ptr)
		if m, isM := b.(*Merged); isM {
			return it.equal(m, a)
		}
		return ok && x.c == y.c
	case Iface:
		y, ok := b.(Iface)
		if m, isM := b.(*Merged); isM {
			return it.equal(m, a)
		}
		if !ok {
			it.undecided("interface compared with %T", b)
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		return it.equal(x.v, y.v)
	case *Agg:
		y := b.(*Agg)
		var acc []*Term
		for i := range x.e {
			r := it.equal(x.e[i], y.e[i])
			t, _ := it.asTerm(r)
			acc = append(acc, t)
		}
		if len(acc) == 0 {
			return true
		}
		return it.unterm(it.ts.And(acc...), nil)
	case *Opaque:
		y, _ := b.(*Opaque)
		return x == y
	case float64:
		y, _ := b.(float64)
		return x == y
	case ErrV:
		y, ok := b.(ErrV)
		return ok && x.id == y.id
	case GlV:
		if y, ok := b.(GlV); ok {
			return x == y
		}
	case *VarInst:
		y, ok := b.(*VarInst)
		return ok && x == y
	case nil:
		return b == nil
	}
	if m, isM := b.(*Merged); isM {
		return it.equal(m, a)
	}
	ta, ok1 := it.asTerm(a)
	tb, ok2 := it.asTerm(b)
	if ok1 && ok2 {
		if ta.sort == SObj && tb.sort == SObj && ta != tb {
			return it.feltEqual(ta, tb)
		}
		return it.unterm(it.ts.Prim(SBool, "eq", ta, tb), nil)
	}
	it.undecided("comparison of %T and %T", a, b)
	return nil
}

func (it *Interp) binop(op token.Token, a, b V, t, ty types.Type) V {
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			switch op {
			case token.ADD:
				return x + y
			case token.LSS:
				return x < y
			case token.GTR:
				return x > y
			case token.LEQ:
				return x <= y
			case token.GEQ:
				return x >= y
			}
		}
	case float64:
		y, ok := b.(float64)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case I:
		y, ok := b.(I)
		if !ok {
			break
		}
		return it.intop(op, uint64(x), uint64(y), t, ty)
	}
	ta, ok1 := it.asTerm(a)
	tb, ok2 := it.asTerm(b)
	if !ok1 || !ok2 {
		it.undecided("operator %s on %T and %T", op, a, b)
	}
	if ta.sort == SStr || tb.sort == SStr {
		if op == token.ADD {
			return it.ts.Prim(SStr, "concat", ta, tb)
		}
		it.undecided("string operator %s", op)
	}
	_, signed, _ := intInfo(t)
	lt := func(u, v *Term) *Term {
		if signed {
			return it.ts.Prim(SBool, "slt", u, v)
		}
		return it.ts.Prim(SBool, "lt", u, v)
	}
	switch op {
	case token.ADD:
		return it.normTerm(it.ts.Add(ta, tb), t)
	case token.SUB:
		return it.normTerm(it.ts.Sub(ta, tb), t)
	case token.MUL:
		return it.normTerm(it.ts.Mul(ta, tb), t)
	case token.QUO:
		n := "udiv"
		if signed {
			n = "sdiv"
		}
		return it.normTerm(it.ts.Prim(SInt, n, ta, tb), t)
	case token.REM:
		n := "urem"
		if signed {
			n = "srem"
		}
		return it.normTerm(it.ts.Prim(SInt, n, ta, tb), t)
	case token.AND:
		return it.normTerm(it.ts.Prim(SInt, "and", ta, tb), t)
	case token.OR:
		return it.normTerm(it.ts.Prim(SInt, "or", ta, tb), t)
	case token.XOR:
		return it.normTerm(it.ts.Prim(SInt, "xor", ta, tb), t)
	case token.SHL:
		return it.normTerm(it.ts.Prim(SInt, "shl", ta, tb), t)
	case token.SHR:
		n := "shr"
		if signed {
			n = "sar"
		}
		return it.normTerm(it.ts.Prim(SInt, n, ta, tb), t)
	case token.LSS:
		return it.unterm(lt(ta, tb), nil)
	case token.GTR:
		return it.unterm(lt(tb, ta), nil)
	case token.LEQ:
		return it.unterm(it.ts.Not(lt(tb, ta)), nil)
	case token.GEQ:
		return it.unterm(it.ts.Not(lt(ta, tb)), nil)
	}
	it.undecided("operator %s", op)
	return nil
}

func (it *Interp) intop(op token.Token, x, y uint64, t, ty types.Type) V {
	_, signed, _ := intInfo(t)
	switch op {
	case token.ADD:
		return normInt(x+y, t)
	case token.SUB:
		return normInt(x-y, t)
	case token.MUL:
		return normInt(x*y, t)
	case token.QUO, token.REM:
		if y == 0 {
			it.gopanic("integer divide by zero")
		}
		if signed {
			if op == token.QUO {
				return normInt(uint64(int64(x)/int64(y)), t)
			}
			return normInt(uint64(int64(x)%int64(y)), t)
		}
		if op == token.QUO {
			return normInt(x/y, t)
		}
		return normInt(x%y, t)
	case token.AND:
		return normInt(x&y, t)
	case token.OR:
		return normInt(x|y, t)
	case token.XOR:
		return normInt(x^y, t)
	case token.AND_NOT:
		return normInt(x&^y, t)
	case token.SHL, token.SHR:
		if _, s2, ok := intInfo(ty); ok && s2 && int64(y) < 0 {
			it.gopanic("negative shift amount")
		}
		if op == token.SHL {
			if y >= 64 {
				return I(0)
			}
			return normInt(x<<y, t)
		}
		if signed {
			if y >= 64 {
				y = 63
			}
			return normInt(uint64(int64(x)>>y), t)
		}
		if y >= 64 {
			return I(0)
		}
		return normInt(x>>y, t)
	}
	if signed {
		a, b := int64(x), int64(y)
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		case token.EQL:
			return a == b
		case token.NEQ:
			return a != b
		}
	}
	switch op {
	case token.LSS:
		return x < y
	case token.LEQ:
		return x <= y
	case token.GTR:
		return x > y
	case token.GEQ:
		return x >= y
	case token.EQL:
		return x == y
	case token.NEQ:
		return x != y
	}
	it.undecided("integer operator %s", op)
	return nil
}

// convert implements explicit conversions T(v).
func (it *Interp) convert(v V, from, to types.Type) V {
	if isIface(to) {
		return it.conv(v, from, to)
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return it.zero(to)
	}
	tb, okT := to.Underlying().(*types.Basic)
	fb, okF := from.Underlying().(*types.Basic)
	if okT && okF {
		switch {
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
			switch n := v.(type) {
			case I:
				return normInt(uint64(n), to)
			case *Term:
				return it.normTerm(n, to)
			}
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsFloat != 0:
			if x, ok := v.(float64); ok {
				if _, signed, _ := intInfo(to); signed {
					return normInt(uint64(int64(x)), to)
				}
				return normInt(uint64(x), to)
			}
		case tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsInteger != 0:
			if n, ok := v.(I); ok {
				if _, signed, _ := intInfo(from); signed {
					return float64(int64(n))
				}
				return float64(uint64(n))
			}
		case tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsFloat != 0:
			if tb.Kind() == types.Float32 {
				return float64(float32(v.(float64)))
			}
			return v
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
			if n, ok := v.(I); ok {
				return string(rune(int64(n)))
			}
		}
		if tb.Info() == fb.Info() || (tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0) || (tb.Info()&types.IsBoolean != 0 && fb.Info()&types.IsBoolean != 0) {
			return v
		}
		it.undecided("conversion from %s to %s", from, to)
	}
	if _, ok := from.Underlying().(*types.Slice); ok {
		at, isP := to, false
		if p, ok := to.Underlying().(*types.Pointer); ok {
			at, isP = p.Elem(), true
		}
		if a, ok := at.Underlying().(*types.Array); ok {
			s, ok := v.(Slice)
			if !ok {
				it.undecided("conversion of %T to an array", v)
			}
			n := int(a.Len())
			if s.len < n {
				it.gopanic("cannot convert slice with length %d to array with length %d", s.len, n)
			}
			if isP && s.arr == nil {
				return Ptr{}
			}
			c := &Cell{t: at, agg: true}
			if s.arr != nil {
				c.kids, c.glob = s.arr.kids[s.off:s.off+n], s.arr.glob
			}
			it.cellSeq++
			c.id = it.cellSeq
			if isP {
				return Ptr{c}
			}
			return it.load(c)
		}
	}
	if ts, ok := to.Underlying().(*types.Slice); ok && okF && fb.Info()&types.IsString != 0 {
		if s, ok := v.(string); ok {
			var vals []V
			if eb, ok := ts.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
				for _, r := range s {
					vals = append(vals, I(uint64(r)))
				}
			} else {
				for i := 0; i < len(s); i++ {
					vals = append(vals, I(s[i]))
				}
			}
			return Slice{it.newArr(ts.Elem(), vals), 0, len(vals), len(vals)}
		}
		it.undecided("conversion of symbolic string to bytes")
	}
	if fs, ok := from.Underlying().(*types.Slice); ok && okT && tb.Info()&types.IsString != 0 {
		s := v.(Slice)
		var bs []byte
		var rs []rune
		eb, _ := fs.Elem().Underlying().(*types.Basic)
		for i := 0; i < s.len; i++ {
			n, ok := it.load(s.arr.kids[s.off+i]).(I)
			if !ok {
				it.undecided("conversion of symbolic bytes to string")
			}
			bs = append(bs, byte(n))
			rs = append(rs, rune(n))
		}
		if eb != nil && eb.Kind() == types.Int32 {
			return string(rs)
		}
		return string(bs)
	}
	if _, ok := to.Underlying().(*types.Array); ok {
		if s, ok := v.(Slice); ok { // slice to array
			n := int(to.Underlying().(*types.Array).Len())
			if s.len < n {
				it.gopanic("cannot convert slice with length %d to array of length %d", s.len, n)
			}
			a := &Agg{}
			for i := 0; i < n; i++ {
				a.e = append(a.e, it.load(s.arr.kids[s.off+i]))
			}
			return a
		}
	}
	return v
}

// ---------------------------------------------------------------- calls

func (it *Interp) callExpr(f *Frame, x *ast.CallExpr) V {
	fun := unparen(x.Fun)
	if tv, ok := f.pkg.Info.Types[fun]; ok && tv.IsType() {
		to := f.T(tv.Type)
		atv := f.pkg.Info.Types[x.Args[0]]
		if atv.IsNil() {
			return it.zero(to)
		}
		v := it.eval(f, x.Args[0])
		it.setPos(x.Pos())
		from := f.typeOf(x.Args[0])
		if atv.Value != nil && isIface(to) {
			if isIface(from) {
				return v
			}
			return Iface{types.Default(from), v}
		}
		return it.convert(v, from, to)
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := f.pkg.Info.Uses[id].(*types.Builtin); ok {
			return it.builtin(f, b.Name(), x)
		}
	}
	if s, ok := fun.(*ast.SelectorExpr); ok {
		if b, ok := f.pkg.Info.Uses[s.Sel].(*types.Builtin); ok {
			return it.builtin(f, b.Name(), x)
		}
	}
	fvV := it.eval(f, fun)
	fv, ok := fvV.(*FuncV)
	if !ok {
		it.setPos(x.Pos())
		it.undecided("call of %T", fvV)
	}
	sig, _ := f.typeOf(fun).Underlying().(*types.Signature)
	args := it.evalArgs(f, x, sig)
	it.setPos(x.Lparen)
	if fv == nil {
		it.gopanic("call of nil function")
	}
	return it.callFn(fv, args, x)
}

func (it *Interp) evalArgs(f *Frame, x *ast.CallExpr, sig *types.Signature) []V {
	var args []V
	np := sig.Params().Len()
	ptype := func(i int) types.Type {
		if sig.Variadic() && i >= np-1 {
			s := sig.Params().At(np - 1).Type()
			if x.Ellipsis.IsValid() {
				return s
			}
			return s.Underlying().(*types.Slice).Elem()
		}
		return sig.Params().At(i).Type()
	}
	if len(x.Args) == 1 && np > 1 || (len(x.Args) == 1 && isTupleT(f.typeOf(x.Args[0]))) {
		if tt, ok := f.typeOf(x.Args[0]).(*types.Tuple); ok {
			tup := it.eval(f, x.Args[0]).(Tuple)
			for i, v := range tup {
				args = append(args, it.conv(v, tt.At(i).Type(), ptype(i)))
			}
			return it.packVariadic(args, sig, false)
		}
	}
	for i, a := range x.Args {
		args = append(args, it.evalTo(f, a, ptype(i)))
	}
	return it.packVariadic(args, sig, x.Ellipsis.IsValid())
}

func isTupleT(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

func (it *Interp) packVariadic(args []V, sig *types.Signature, ell bool) []V {
	if !sig.Variadic() || ell {
		return args
	}
	np := sig.Params().Len()
	et := sig.Params().At(np - 1).Type().Underlying().(*types.Slice).Elem()
	rest := append([]V{}, args[np-1:]...)
	out := append([]V{}, args[:np-1]...)
	if len(rest) == 0 {
		return append(out, Slice{})
	}
	return append(out, Slice{it.newArr(et, rest), 0, len(rest), len(rest)})
}

// callFn applies a function value.
func (it *Interp) callFn(fv *FuncV, args []V, call *ast.CallExpr) V {
	if fv.nat != nil {
		return fv.nat(&callCtx{it: it, args: args, call: call})
	}
	if fv.lit != nil {
		sig := fv.lit.f.pkg.Info.Types[fv.lit.lit].Type.(*types.Signature)
		return it.exec(fv.lit.f.pkg, fv.name, sig, fv.lit.lit.Type, nil, nil, fv.lit.lit.Body, args, fv.lit.env, fv.tsub)
	}
	// interface method: dispatch on the dynamic type
	if fv.bound {
		rsig := fv.obj.Type().(*types.Signature)
		if rsig.Recv() != nil && isIface(rsig.Recv().Type()) {
			return it.dispatch(fv, args, call)
		}
	}
	name := fullName(fv.obj)
	if fv.obj.Origin() != nil {
		name = fullName(fv.obj.Origin())
	}
	c := &callCtx{it: it, fn: fv.obj, recv: fv.recv, args: args, call: call, tsub: fv.tsub, sig: fv.obj.Type().(*types.Signature)}
	if it.callHook != nil {
		it.callHook(name, c)
	}
	if in, ok := it.table[name]; ok {
		return it.traced(name, c, func() V { return in(c) })
	}
	if in, ok := it.std[name]; ok {
		if it.tr.on && strings.Contains(name, "consensys/gnark/") {
			return it.traced(name, c, func() V { return in(c) })
		}
		return in(c)
	}
	if fv.src != nil && fv.src.Decl.Body != nil && (fv.src.Pkg.Info != nil) {
		if !fv.src.Pkg.Repo && !fv.src.Pkg.Spec {
			if _, ok := natives[name]; ok {
				c.inl = true
				if v, ok := it.nativeCall(name, c); ok {
					return v
				}
			}
		}
		sig := fv.src.Obj.Type().(*types.Signature)
		if fv.src.Pkg.Repo {
			it.funcsHit[name] = true
			if n := len(it.stack); n > 0 && strings.Contains(it.stack[n-1], "verif/spec") {
				it.lastRepo = fv.src.Decl.Pos()
				defer it.dropOnce()
			}
		}
		return it.exec(fv.src.Pkg, name, sig, fv.src.Decl.Type, fv.src.Decl.Recv, fv.recv, fv.src.Decl.Body, args, nil, fv.tsub)
	}
	if v, ok := it.nativeCall(name, c); ok {
		return v
	}
	it.undecided("call of library function %s, which has no model", name)
	return nil
}

func (it *Interp) dispatch(fv *FuncV, args []V, call *ast.CallExpr) V {
	i, ok := fv.recv.(Iface)
	if !ok {
		it.undecided("method %s on %T", fv.obj.Name(), fv.recv)
	}
	if i.t == nil {
		it.gopanic("method %s called on nil interface", fv.obj.Name())
	}
	c := &callCtx{it: it, fn: fv.obj, recv: i.v, args: args, call: call, sig: fv.obj.Type().(*types.Signature)}
	if o, ok := i.v.(*Opaque); ok && o != nil {
		if h, ok := it.dyn[o.kind]; ok {
			if it.tr.on {
				return it.traced(o.kind+"."+fv.obj.Name(), c, func() V { return h(c, o) })
			}
			return h(c, o)
		}
	}
	if e, ok := i.v.(ErrV); ok {
		if fv.obj.Name() == "Error" {
			if s, ok := e.msg.(string); ok {
				return s
			}
			return "error"
		}
		it.undecided("method %s on error", fv.obj.Name())
	}
	obj, path, _ := types.LookupFieldOrMethod(i.t, true, fv.obj.Pkg(), fv.obj.Name())
	m, ok := obj.(*types.Func)
	if !ok {
		it.undecided("method %s not found on %s", fv.obj.Name(), i.t)
	}
	recv := i.v
	for _, k := range path[:len(path)-1] {
		switch a := recv.(type) {
		case *Agg:
			recv = a.e[k]
		case Ptr:
			cc := it.ptrCell(a).kids[k]
			if _, isP := cc.t.Underlying().(*types.Pointer); isP || isIface(cc.t) {
				recv = it.load(cc)
			} else {
				recv = Ptr{cc}
			}
		}
	}
	msig := m.Type().(*types.Signature)
	if msig.Recv() != nil && !isIface(msig.Recv().Type()) {
		_, wantPtr := msig.Recv().Type().Underlying().(*types.Pointer)
		if p, isP := recv.(Ptr); isP && !wantPtr && opaqueKind(deref(msig.Recv().Type())) == "" {
			if _, recvTypePtr := msig.Recv().Type().Underlying().(*types.Pointer); !recvTypePtr {
				recv = it.load(it.ptrCell(p))
			}
		}
	}
	return it.callFn(&FuncV{obj: m, src: it.w.Decls[m.Origin()], recv: recv, bound: true, name: fullName(m), tsub: recvSub(m, i.t)}, args, call)
}

func (it *Interp) exec(pkg *Pkg, name string, sig *types.Signature, ft *ast.FuncType, recvF *ast.FieldList, recv V, body *ast.BlockStmt, args []V, env map[types.Object]*Cell, tsub map[*types.TypeParam]types.Type) (result V) {
	if len(it.stack) > 400 {
		it.undecided("call depth exceeded in %s", name)
	}
	f := &Frame{pkg: pkg, env: map[types.Object]*Cell{}, tsub: tsub, sig: sig, name: name}
	for k, v := range env {
		f.env[k] = v
	}
	if recvF != nil && len(recvF.List) > 0 && len(recvF.List[0].Names) > 0 {
		o := pkg.Info.Defs[recvF.List[0].Names[0]]
		if o != nil {
			f.env[o] = it.newCell(f.T(o.Type()), recv)
		}
	}
	i := 0
	for _, fl := range ft.Params.List {
		if len(fl.Names) == 0 {
			i++
			continue
		}
		for _, n := range fl.Names {
			if o := pkg.Info.Defs[n]; o != nil {
				f.env[o] = it.newCell(f.T(o.Type()), args[i])
			}
			i++
		}
	}
	if ft.Results != nil {
		for _, fl := range ft.Results.List {
			for _, n := range fl.Names {
				f.named = true
				o := pkg.Info.Defs[n]
				var t types.Type
				if o != nil {
					t = f.T(o.Type())
				} else {
					t = f.T(pkg.Info.Types[fl.Type].Type)
				}
				c := it.newCell(t, it.zero(t))
				if o != nil {
					f.env[o] = c
				}
				f.res = append(f.res, c)
			}
		}
	}
	depth := len(it.stack)
	it.stack = append(it.stack, name)
	it.posStack = append(it.posStack, it.cur)
	savedPos := it.cur
	pcLen := len(it.pc)
	runDefers := func() {
		for len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			d()
		}
	}
	// unwind runs the deferred functions because of a panic; it panics on unless one of them recovered.
	unwind := func(gp goPanic) (recovered bool) {
		for len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if recovered {
				d()
				continue
			}
			it.stack = it.stack[:depth+1]
			it.posStack = it.posStack[:depth+1]
			rec := &panicRec{gp: gp, depth: depth + 1}
			np := len(it.panics)
			it.panics = append(it.panics, rec)
			func() {
				defer func() {
					it.panics = it.panics[:np]
					if r := recover(); r != nil {
						g, ok := r.(goPanic)
						if !ok {
							panic(r)
						}
						gp, rec.recovered = g, false
					}
				}()
				d()
			}()
			recovered = rec.recovered
		}
		if !recovered {
			panic(gp)
		}
		return
	}
	normal := false
	defer func() { it.recovers -= f.nrec }()
	defer func() {
		if !normal {
			r := recover()
			if gp, ok := r.(goPanic); ok {
				if len(f.pend) > 0 && f.nrec > 0 {
					it.undecided("recovery from a panic on some of the paths")
				}
				if len(f.pend) > 0 {
					// the current path panics, but another path of this function has returned
					it.stack = it.stack[:depth+1]
					it.posStack = it.posStack[:depth+1]
					it.effects = append(it.effects, &Effect{kind: "PANIC", pc: it.curPC(), pos: gp.pos, tag: it.tag, info: gp.msg})
					ret := it.finishAfterPanic(f)
					runDefers()
					it.stack = it.stack[:depth]
					it.posStack = it.posStack[:depth]
					it.cur = savedPos
					it.pc = it.pc[:pcLen]
					result = packResults(ret)
					return
				}
				func() {
					defer func() {
						it.stack = it.stack[:depth]
						it.posStack = it.posStack[:depth]
					}()
					unwind(gp)
				}()
				it.cur = savedPos
				it.pc = it.pc[:pcLen]
				var ret []V
				if f.named {
					ret = it.namedResults(f)
				} else {
					for i := 0; i < sig.Results().Len(); i++ {
						ret = append(ret, it.zero(f.T(sig.Results().At(i).Type())))
					}
				}
				result = packResults(ret)
				return
			}
			it.stack = it.stack[:depth]
			it.posStack = it.posStack[:depth]
			panic(r)
		}
	}()
	ct := it.block(f, body.List)
	var ret []V
	switch ct.kind {
	case cNone:
		if f.named {
			ret = it.namedResults(f)
		}
	case cReturn:
		ret = ct.ret
	default:
		it.undecided("control flow leaves function")
	}
	if f.named && len(f.defers) > 0 {
		if len(f.pend) > 0 {
			it.undecided("deferred calls may change the results of a function that returns on some of the paths")
		}
		// results may be modified by deferred closures
		for i, c := range f.res {
			it.store(c, ret[i])
		}
		runDefers()
		ret = it.namedResults(f)
	}
	for len(f.pend) > 0 {
		p := f.pend[len(f.pend)-1]
		if p.ct.kind != cReturn {
			it.undecided("unresolved branch in %s", name)
		}
		ret = it.joinPending(f, ret)
	}
	runDefers()
	normal = true
	it.stack = it.stack[:depth]
	it.posStack = it.posStack[:depth]
	it.cur = savedPos
	it.pc = it.pc[:pcLen]
	return packResults(ret)
}

func packResults(ret []V) V {
	switch len(ret) {
	case 0:
		return nil
	case 1:
		return ret[0]
	}
	return Tuple(ret)
}

func (it *Interp) namedResults(f *Frame) []V {
	var r []V
	for _, c := range f.res {
		r = append(r, it.load(c))
	}
	return r
}

// joinPending merges the innermost pending branch with the current state.
func (it *Interp) joinPending(f *Frame, ret []V) []V {
	p := f.pend[len(f.pend)-1]
	f.pend = f.pend[:len(f.pend)-1]
	if len(it.journals) != p.jdepth {
		it.undecided("journal depth mismatch")
	}
	j := it.commitJournal()
	it.pc = it.pc[:p.pcLen]
	cells := map[*Cell]bool{}
	for c := range j {
		cells[c] = true
	}
	for c := range p.writes {
		cells[c] = true
	}
	for _, c := range sortCells(cells) {
		s0, ok := j[c]
		if !ok {
			s0 = c.val
		}
		v1, ok := p.writes[c]
		if !ok {
			v1 = s0
		}
		it.setLeaf(c, it.merge(p.c, v1, c.val))
	}
	if p.ct.kind == cReturn {
		out := make([]V, len(ret))
		for i := range ret {
			out[i] = it.merge(p.c, p.ct.ret[i], ret[i])
		}
		return out
	}
	return ret
}

func sortCells(m map[*Cell]bool) []*Cell {
	l := make([]*Cell, 0, len(m))
	for c := range m {
		l = append(l, c)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// mayRecover: the function's own body calls recover.
func (it *Interp) mayRecover(fv *FuncV) bool {
	var body *ast.BlockStmt
	var info *types.Info
	switch {
	case fv == nil:
		return false
	case fv.lit != nil:
		body, info = fv.lit.lit.Body, fv.lit.f.pkg.Info
	case fv.src != nil && fv.src.Decl.Body != nil && fv.src.Pkg.Info != nil:
		body, info = fv.src.Decl.Body, fv.src.Pkg.Info
	default:
		return false
	}
	found := false
	ast.Inspect(body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == "recover" {
			if _, ok := info.Uses[id].(*types.Builtin); ok {
				found = true
			}
		}
		return !found
	})
	return found
}

func (it *Interp) finishAfterPanic(f *Frame) []V {
	// drop the writes of the panicking path, continue with the innermost pending return
	p := f.pend[len(f.pend)-1]
	f.pend = f.pend[:len(f.pend)-1]
	for len(it.journals) > p.jdepth {
		it.rollback()
	}
	it.rollback()
	it.pc = it.pc[:p.pcLen]
	for _, c := range sortCells(keySet(p.writes)) {
		it.setLeaf(c, p.writes[c])
	}
	if p.ct.kind != cReturn {
		it.undecided("panic after symbolic break")
	}
	ret := p.ct.ret
	for len(f.pend) > 0 {
		ret = it.joinPending(f, ret)
	}
	return ret
}

func keySet(m map[*Cell]V) map[*Cell]bool {
	r := map[*Cell]bool{}
	for c := range m {
		r[c] = true
	}
	return r
}

// ---------------------------------------------------------------- statements

func (it *Interp) block(f *Frame, l []ast.Stmt) ctrl {
	pend := len(f.pend)
	for i := 0; i < len(l); i++ {
		ct := it.stmt(f, l[i], "")
		if ct.kind == cGoto {
			for j, s := range l {
				if ls, ok := s.(*ast.LabeledStmt); ok && ls.Label.Name == ct.label {
					if len(f.pend) > pend {
						it.undecided("goto on some of the paths")
					}
					i, ct = j-1, ctrl{}
					break
				}
			}
		}
		if ct.kind != cNone {
			return ct
		}
	}
	return ctrl{}
}

func (it *Interp) define(f *Frame, id *ast.Ident, v V, from types.Type) {
	if id.Name == "_" {
		return
	}
	o := f.pkg.Info.Defs[id]
	if o == nil {
		o = f.pkg.Info.Uses[id]
		c := it.varCell(f, o.(*types.Var))
		it.store(c, it.conv(v, from, c.t))
		return
	}
	t := f.T(o.Type())
	f.env[o] = it.newCell(t, it.conv(v, from, t))
}

func (it *Interp) stmt(f *Frame, s ast.Stmt, label string) ctrl {
	it.steps++
	if it.steps > it.maxSteps {
		it.undecided("analysis budget exhausted (loop whose trip count is not determined by the shape?)")
	}
	switch x := s.(type) {
	case *ast.ExprStmt:
		it.eval(f, x.X)
	case *ast.EmptyStmt:
	case *ast.BlockStmt:
		return it.block(f, x.List)
	case *ast.DeclStmt:
		gd, ok := x.Decl.(*ast.GenDecl)
		if ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				it.varSpec(f, sp.(*ast.ValueSpec))
			}
		}
	case *ast.AssignStmt:
		it.assign(f, x)
	case *ast.IncDecStmt:
		t := f.typeOf(x.X)
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		it.update(f, x.X, func(v V) V {
			if fl, ok := v.(float64); ok {
				return it.binop(op, fl, float64(1), t, nil)
			}
			return it.binop(op, v, I(1), t, nil)
		})
	case *ast.ReturnStmt:
		return it.ret(f, x)
	case *ast.IfStmt:
		if x.Init != nil {
			it.stmt(f, x.Init, "")
		}
		c := it.eval(f, x.Cond)
		if m, ok := c.(*Merged); ok {
			ta, _ := it.asTerm(m.a)
			tb, _ := it.asTerm(m.b)
			if ta != nil && tb != nil {
				c = it.unterm(it.ts.Ite(m.c, ta, tb), nil)
			}
		}
		switch b := c.(type) {
		case bool:
			if b {
				return it.block(f, x.Body.List)
			}
			if x.Else != nil {
				return it.stmt(f, x.Else, "")
			}
		case *Term:
			it.setPos(x.Pos())
			return it.branch(f, b, func() ctrl { return it.block(f, x.Body.List) }, func() ctrl {
				if x.Else != nil {
					return it.stmt(f, x.Else, "")
				}
				return ctrl{}
			})
		default:
			it.undecided("condition %T", c)
		}
	case *ast.ForStmt:
		return it.forStmt(f, x, label)
	case *ast.RangeStmt:
		return it.rangeStmt(f, x, label)
	case *ast.LabeledStmt:
		ct := it.stmt(f, x.Stmt, x.Label.Name)
		if ct.kind == cBreak && ct.label == x.Label.Name {
			return ctrl{}
		}
		return ct
	case *ast.BranchStmt:
		l := ""
		if x.Label != nil {
			l = x.Label.Name
		}
		switch x.Tok {
		case token.BREAK:
			return ctrl{kind: cBreak, label: l}
		case token.CONTINUE:
			return ctrl{kind: cContinue, label: l}
		case token.FALLTHROUGH:
			return ctrl{kind: cFall}
		}
		return ctrl{kind: cGoto, label: l}
	case *ast.SwitchStmt:
		return it.switchStmt(f, x, label)
	case *ast.TypeSwitchStmt:
		return it.typeSwitch(f, x, label)
	case *ast.DeferStmt:
		call := x.Call
		fun := unparen(call.Fun)
		if id, ok := fun.(*ast.Ident); ok {
			if b, ok := f.pkg.Info.Uses[id].(*types.Builtin); ok {
				if b.Name() == "recover" { // has no effect when it is the deferred call itself
					return ctrl{}
				}
				f.defers = append(f.defers, func() { it.builtin(f, b.Name(), call) })
				return ctrl{}
			}
		}
		fv, _ := it.eval(f, fun).(*FuncV)
		sig, _ := f.typeOf(fun).Underlying().(*types.Signature)
		args := it.evalArgs(f, call, sig)
		f.defers = append(f.defers, func() { it.callFn(fv, args, call) })
		if it.mayRecover(fv) {
			f.nrec++
			it.recovers++
		}
	case *ast.GoStmt:
		it.setPos(x.Pos())
		it.event("go", "goroutine started")
		it.violate("C16,C18,C21", "a goroutine is started here: what it does is not ordered with what follows")
		it.goStmt(f, x.Call)
	case *ast.SendStmt, *ast.SelectStmt:
		it.setPos(s.Pos())
		it.undecided("channel operation")
	default:
		it.setPos(s.Pos())
		it.undecided("statement %T", s)
	}
	return ctrl{}
}

// goStmt runs a goroutine at once, or when it is waited for, oldest or newest first.
func (it *Interp) goStmt(f *Frame, call *ast.CallExpr) {
	if !it.schedSet {
		names := []string{"run at once", "run when waited for", "run when waited for, newest first"}
		it.schedSet = true
		it.sched = it.run.choose("goroutines", len(names), func(i int) string { return names[i] })
	}
	fun := unparen(call.Fun)
	if id, ok := fun.(*ast.Ident); ok {
		if _, ok := f.pkg.Info.Uses[id].(*types.Builtin); ok {
			it.eval(f, call)
			return
		}
	}
	if it.sched == 0 || len(it.pc) > 0 || len(it.journals) > 0 {
		it.eval(f, call)
		return
	}
	fv, _ := it.eval(f, fun).(*FuncV)
	sig, _ := f.typeOf(fun).Underlying().(*types.Signature)
	args := it.evalArgs(f, call, sig)
	it.spawned = append(it.spawned, func() { it.callFn(fv, args, call) })
}

// joinAll runs the goroutines that have not run yet.
func (it *Interp) joinAll() {
	for len(it.spawned) > 0 {
		k := 0
		if it.sched == 2 {
			k = len(it.spawned) - 1
		}
		g := it.spawned[k]
		it.spawned = append(append([]func(){}, it.spawned[:k]...), it.spawned[k+1:]...)
		g()
	}
}

func (it *Interp) varSpec(f *Frame, vs *ast.ValueSpec) {
	if len(vs.Values) == 1 && len(vs.Names) > 1 {
		tup := it.eval(f, vs.Values[0]).(Tuple)
		tt := f.typeOf(vs.Values[0]).(*types.Tuple)
		for i, n := range vs.Names {
			it.define(f, n, tup[i], tt.At(i).Type())
		}
		return
	}
	var vals []V
	for i, n := range vs.Names {
		if i < len(vs.Values) {
			o := f.pkg.Info.Defs[n]
			var t types.Type
			if o != nil {
				t = f.T(o.Type())
			}
			vals = append(vals, it.evalTo(f, vs.Values[i], t))
		}
	}
	for i, n := range vs.Names {
		o := f.pkg.Info.Defs[n]
		if o == nil || n.Name == "_" {
			continue
		}
		t := f.T(o.Type())
		if i < len(vals) {
			f.env[o] = it.newCell(t, vals[i])
		} else {
			f.env[o] = it.newCell(t, it.zero(t))
		}
	}
}

func (it *Interp) ret(f *Frame, x *ast.ReturnStmt) ctrl {
	n := f.sig.Results().Len()
	if len(x.Results) == 0 {
		if f.named {
			return ctrl{kind: cReturn, ret: it.namedResults(f)}
		}
		return ctrl{kind: cReturn}
	}
	var ret []V
	if len(x.Results) == 1 && n > 1 {
		tup := it.eval(f, x.Results[0]).(Tuple)
		tt := f.typeOf(x.Results[0]).(*types.Tuple)
		for i, v := range tup {
			ret = append(ret, it.conv(v, tt.At(i).Type(), f.T(f.sig.Results().At(i).Type())))
		}
	} else {
		for i, e := range x.Results {
			ret = append(ret, it.evalTo(f, e, f.T(f.sig.Results().At(i).Type())))
		}
	}
	if f.named {
		for i, c := range f.res {
			it.store(c, ret[i])
		}
	}
	return ctrl{kind: cReturn, ret: ret}
}

// update applies g to the location e.
func (it *Interp) update(f *Frame, e ast.Expr, g func(V) V) {
	e = unparen(e)
	if ix, ok := e.(*ast.IndexExpr); ok {
		if mt, ok := f.typeOf(ix.X).Underlying().(*types.Map); ok {
			m := it.eval(f, ix.X)
			k := it.evalTo(f, ix.Index, mt.Key())
			v, ok := it.mapGet(m, k)
			if !ok {
				v = it.zero(mt.Elem())
			}
			it.mapSet(m, k, g(v))
			return
		}
	}
	c := it.addr(f, e)
	if c == nil {
		it.undecided("assignment to unaddressable expression")
	}
	it.store(c, g(it.load(c)))
}

func (it *Interp) assign(f *Frame, x *ast.AssignStmt) {
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
		op := ops[x.Tok]
		t := f.typeOf(x.Lhs[0])
		b := it.eval(f, x.Rhs[0])
		bt := f.typeOf(x.Rhs[0])
		it.setPos(x.Pos())
		it.update(f, x.Lhs[0], func(v V) V { return it.binop(op, v, b, t, bt) })
		return
	}
	// comma-ok forms and multi-value calls
	if len(x.Lhs) > 1 && len(x.Rhs) == 1 {
		var vals []V
		var ts []types.Type
		switch r := unparen(x.Rhs[0]).(type) {
		case *ast.IndexExpr:
			if mt, ok := f.typeOf(r.X).Underlying().(*types.Map); ok {
				m := it.eval(f, r.X)
				k := it.evalTo(f, r.Index, mt.Key())
				v, ok := it.mapGet(m, k)
				if !ok {
					v = it.zero(mt.Elem())
				}
				vals = []V{v, ok}
				ts = []types.Type{mt.Elem(), types.Typ[types.Bool]}
			}
		case *ast.TypeAssertExpr:
			v, ok := it.typeAssert(f, r)
			vals = []V{v, ok}
			ts = []types.Type{f.typeOf(r.Type), types.Typ[types.Bool]}
		}
		if vals == nil {
			v := it.eval(f, x.Rhs[0])
			tup, ok := v.(Tuple)
			if !ok {
				it.setPos(x.Pos())
				it.undecided("multi-value assignment from %T", v)
			}
			tt := f.typeOf(x.Rhs[0]).(*types.Tuple)
			vals = tup
			for i := range tup {
				ts = append(ts, tt.At(i).Type())
			}
		}
		for i, l := range x.Lhs {
			it.assignOne(f, l, vals[i], ts[i], x.Tok)
		}
		return
	}
	if len(x.Lhs) == 1 {
		l := x.Lhs[0]
		t := it.lhsType(f, l, x.Tok)
		v := it.evalTo(f, x.Rhs[0], t)
		if t == nil {
			t = f.typeOf(x.Rhs[0])
		}
		it.assignOne(f, l, v, t, x.Tok)
		return
	}
	// parallel assignment: evaluate index/pointer operands and right-hand sides first
	var locs []func(V)
	for _, l := range x.Lhs {
		l := unparen(l)
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				locs = append(locs, func(V) {})
				continue
			}
			locs = append(locs, func(v V) { it.assignOne(f, l, v, it.lhsType(f, l, x.Tok), x.Tok) })
			continue
		}
		if ix, ok := l.(*ast.IndexExpr); ok {
			if mt, ok := f.typeOf(ix.X).Underlying().(*types.Map); ok {
				m := it.eval(f, ix.X)
				k := it.evalTo(f, ix.Index, mt.Key())
				locs = append(locs, func(v V) { it.mapSet(m, k, v) })
				continue
			}
		}
		c := it.addr(f, l)
		if c == nil {
			it.undecided("assignment to unaddressable expression")
		}
		locs = append(locs, func(v V) { it.store(c, v) })
	}
	var vals []V
	for i, r := range x.Rhs {
		vals = append(vals, it.evalTo(f, r, it.lhsType(f, x.Lhs[i], x.Tok)))
	}
	for i := range locs {
		locs[i](vals[i])
	}
}

func (it *Interp) lhsType(f *Frame, l ast.Expr, tok token.Token) types.Type {
	if id, ok := unparen(l).(*ast.Ident); ok {
		if id.Name == "_" {
			return nil
		}
		if o := f.pkg.Info.Defs[id]; o != nil {
			return f.T(o.Type())
		}
		if o := f.pkg.Info.Uses[id]; o != nil {
			return f.T(o.Type())
		}
	}
	return f.typeOf(l)
}

func (it *Interp) assignOne(f *Frame, l ast.Expr, v V, from types.Type, tok token.Token) {
	l = unparen(l)
	if id, ok := l.(*ast.Ident); ok {
		if id.Name == "_" {
			return
		}
		if tok == token.DEFINE {
			it.define(f, id, v, from)
			return
		}
	}
	if ix, ok := l.(*ast.IndexExpr); ok {
		if mt, ok := f.typeOf(ix.X).Underlying().(*types.Map); ok {
			m := it.eval(f, ix.X)
			k := it.evalTo(f, ix.Index, mt.Key())
			it.mapSet(m, k, it.conv(v, from, mt.Elem()))
			return
		}
	}
	c := it.addr(f, l)
	if c == nil {
		it.setPos(l.Pos())
		it.undecided("assignment to unaddressable expression")
	}
	it.store(c, it.conv(v, from, c.t))
}

// branch analyses both sides of a data-dependent condition and joins the resulting states.
func (it *Interp) branch(f *Frame, c *Term, then, els func() ctrl) ctrl {
	pcLen := len(it.pc)
	run := func(cond *Term, g func() ctrl) (ct ctrl, w map[*Cell]V) {
		jd := len(it.journals)
		sd := len(it.stack)
		pd := len(f.pend)
		it.pushJournal()
		it.pc = append(it.pc[:pcLen:pcLen], cond)
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(goPanic)
					if !ok {
						panic(r)
					}
					it.stack = it.stack[:sd]
					it.posStack = it.posStack[:sd]
					ct = ctrl{kind: cPanic, msg: gp}
				}
			}()
			ct = g()
		}()
		if len(f.pend) > pd {
			if ct.kind == cPanic {
				// the path through all inner conditions panics, an inner branch returned
				it.effects = append(it.effects, &Effect{kind: "PANIC", pc: it.curPC(), pos: ct.msg.pos, tag: it.tag, info: ct.msg.msg})
			}
			// inner pending branches: close them here by turning the whole branch into one outcome
			for len(f.pend) > pd {
				p := f.pend[len(f.pend)-1]
				if ct.kind == cPanic {
					f.pend = f.pend[:len(f.pend)-1]
					for len(it.journals) > p.jdepth {
						it.rollback()
					}
					it.rollback()
					it.pc = it.pc[:p.pcLen]
					for _, cc := range sortCells(keySet(p.writes)) {
						it.setLeaf(cc, p.writes[cc])
					}
					ct = p.ct
					continue
				}
				if ct.kind != p.ct.kind || ct.label != p.ct.label {
					it.undecided("branches leave the function in different ways")
				}
				if ct.kind == cReturn {
					ct.ret = it.joinPending(f, ct.ret)
				} else {
					it.joinPending(f, nil)
				}
			}
		}
		for len(it.journals) > jd+1 {
			it.rollback()
		}
		w = it.rollback()
		it.pc = it.pc[:pcLen]
		return
	}
	ct1, w1 := run(c, then)
	ct2, w2 := run(it.ts.Not(c), els)
	apply := func(w map[*Cell]V) {
		for _, cc := range sortCells(keySet(w)) {
			it.setLeaf(cc, w[cc])
		}
	}
	panicEff := func(cond *Term, g goPanic) {
		if it.recovers > 0 {
			it.undecided("recovery from a panic that depends on data")
		}
		pc := it.ts.And(append(append([]*Term{}, it.pc...), cond)...)
		it.effects = append(it.effects, &Effect{kind: "PANIC", pc: pc, pos: g.pos, tag: it.tag, info: g.msg})
	}
	switch {
	case ct1.kind == cPanic && ct2.kind == cPanic:
		panic(ct1.msg)
	case ct1.kind == cPanic:
		panicEff(c, ct1.msg)
		apply(w2)
		return ct2
	case ct2.kind == cPanic:
		panicEff(it.ts.Not(c), ct2.msg)
		apply(w1)
		return ct1
	case ct1.kind == ct2.kind && ct1.label == ct2.label:
		cells := keySet(w1)
		for cc := range w2 {
			cells[cc] = true
		}
		for _, cc := range sortCells(cells) {
			v1, ok := w1[cc]
			if !ok {
				v1 = cc.val
			}
			v2, ok := w2[cc]
			if !ok {
				v2 = cc.val
			}
			it.setLeaf(cc, it.merge(c, v1, v2))
		}
		if ct1.kind == cReturn {
			ret := make([]V, len(ct1.ret))
			for i := range ret {
				ret[i] = it.merge(c, ct1.ret[i], ct2.ret[i])
			}
			return ctrl{kind: cReturn, ret: ret}
		}
		return ct1
	case ct2.kind == cNone:
		f.pend = append(f.pend, &pending{c: c, writes: w1, ct: ct1, pcLen: pcLen, jdepth: len(it.journals) + 1})
		it.pushJournal()
		it.pc = append(it.pc[:pcLen:pcLen], it.ts.Not(c))
		apply(w2)
		return ctrl{}
	case ct1.kind == cNone:
		f.pend = append(f.pend, &pending{c: it.ts.Not(c), writes: w2, ct: ct2, pcLen: pcLen, jdepth: len(it.journals) + 1})
		it.pushJournal()
		it.pc = append(it.pc[:pcLen:pcLen], c)
		apply(w1)
		return ctrl{}
	}
	it.undecided("branches leave the statement in different ways")
	return ctrl{}
}

// settle joins pending continue/break branches created since mark.
func (it *Interp) settle(f *Frame, mark int, kind ctrlKind, label string) {
	for len(f.pend) > mark {
		p := f.pend[len(f.pend)-1]
		if p.ct.kind != kind || !(p.ct.label == "" || p.ct.label == label) {
			return
		}
		it.joinPending(f, nil)
	}
}

func (it *Interp) loopCtl(ct ctrl, label string) (stop bool, out ctrl) {
	switch ct.kind {
	case cNone:
		return false, ctrl{}
	case cBreak:
		if ct.label == "" || ct.label == label {
			return true, ctrl{}
		}
		return true, ct
	case cContinue:
		if ct.label == "" || ct.label == label {
			return false, ctrl{}
		}
		return true, ct
	}
	return true, ct
}

func (it *Interp) forStmt(f *Frame, x *ast.ForStmt, label string) ctrl {
	if x.Init != nil {
		it.stmt(f, x.Init, "")
	}
	mark := len(f.pend)
	for {
		if x.Cond != nil {
			c := it.eval(f, x.Cond)
			b, ok := c.(bool)
			if !ok {
				it.setPos(x.Pos())
				it.undecided("loop bound depends on circuit data: %s", describe(c))
			}
			if !b {
				break
			}
		}
		m2 := len(f.pend)
		ct := it.block(f, x.Body.List)
		it.settle(f, m2, cContinue, label)
		if stop, out := it.loopCtl(ct, label); stop {
			if out.kind == cNone {
				it.settle(f, mark, cBreak, label)
			}
			return out
		}
		if x.Post != nil {
			if !f.pkg.Repo {
				it.freshLoopVars(f, x.Init)
			}
			it.stmt(f, x.Post, "")
		}
	}
	it.settle(f, mark, cBreak, label)
	return ctrl{}
}

// freshLoopVars implements per-iteration loop variables (Go 1.22 and later).
func (it *Interp) freshLoopVars(f *Frame, init ast.Stmt) {
	as, ok := init.(*ast.AssignStmt)
	if !ok || as.Tok != token.DEFINE {
		return
	}
	for _, l := range as.Lhs {
		if id, ok := l.(*ast.Ident); ok {
			if o := f.pkg.Info.Defs[id]; o != nil {
				if c, ok := f.env[o]; ok {
					f.env[o] = it.newCell(c.t, it.load(c))
				}
			}
		}
	}
}

func (it *Interp) rangeStmt(f *Frame, x *ast.RangeStmt, label string) ctrl {
	xt := f.typeOf(x.X)
	type kv struct {
		k V
		v func() V
	}
	var kt, et types.Type
	var items func(i int) (V, V, bool)
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		v := it.eval(f, x.X)
		s, ok := v.(Slice)
		if !ok {
			it.setPos(x.Pos())
			it.undecided("range over %T", v)
		}
		kt, et = types.Typ[types.Int], u.Elem()
		items = func(i int) (V, V, bool) {
			if i >= s.len {
				return nil, nil, false
			}
			var ev V
			if x.Value != nil {
				ev = it.load(s.arr.kids[s.off+i])
			}
			return I(i), ev, true
		}
	case *types.Array:
		kt, et = types.Typ[types.Int], u.Elem()
		n := int(u.Len())
		var a *Agg
		if x.Value != nil {
			a = it.eval(f, x.X).(*Agg)
		}
		items = func(i int) (V, V, bool) {
			if i >= n {
				return nil, nil, false
			}
			var ev V
			if a != nil {
				ev = a.e[i]
			}
			return I(i), ev, true
		}
	case *types.Pointer:
		au := u.Elem().Underlying().(*types.Array)
		c := it.ptrCell(it.eval(f, x.X))
		kt, et = types.Typ[types.Int], au.Elem()
		items = func(i int) (V, V, bool) {
			if i >= len(c.kids) {
				return nil, nil, false
			}
			return I(i), it.load(c.kids[i]), true
		}
	case *types.Map:
		kt, et = u.Key(), u.Elem()
		mv := it.eval(f, x.X)
		r, ok := mv.(*MapRef)
		if !ok {
			it.undecided("range over %T", mv)
		}
		var snap *mapVal
		if r != nil {
			snap = it.load(r.c).(*mapVal)
		} else {
			snap = &mapVal{}
		}
		if !f.pkg.Spec && len(snap.keys) > 1 {
			it.mapRange++
		}
		n := len(snap.keys)
		var perm []int
		if !f.pkg.Spec && it.mapSeed != 0 {
			perm = permutation(n, it.mapSeed+uint64(it.mapRange)*0x9e3779b97f4a7c15)
		}
		items = func(i int) (V, V, bool) {
			if i >= n {
				return nil, nil, false
			}
			j := i
			if perm != nil {
				j = perm[i]
			} else if !f.pkg.Spec {
				j = (i + it.mapRot) % n
				if it.mapRev {
					j = n - 1 - j
				}
			}
			return snap.keys[j], snap.vals[j], true
		}
	case *types.Basic:
		v := it.eval(f, x.X)
		switch b := v.(type) {
		case I:
			kt = xt
			n := int64(b)
			items = func(i int) (V, V, bool) {
				if int64(i) >= n {
					return nil, nil, false
				}
				return I(i), nil, true
			}
		case string:
			kt, et = types.Typ[types.Int], types.Typ[types.Rune]
			var ks []int
			var rs []rune
			for i, r := range b {
				ks = append(ks, i)
				rs = append(rs, r)
			}
			items = func(i int) (V, V, bool) {
				if i >= len(ks) {
					return nil, nil, false
				}
				return I(ks[i]), I(uint64(rs[i])), true
			}
		default:
			it.setPos(x.Pos())
			it.undecided("range over %T", v)
		}
	default:
		it.setPos(x.Pos())
		it.undecided("range over %s", xt)
	}
	mark := len(f.pend)
	declared := false
	for i := 0; ; i++ {
		k, v, ok := items(i)
		if !ok {
			break
		}
		bind := func(e ast.Expr, val V, t types.Type) {
			if e == nil {
				return
			}
			if x.Tok == token.DEFINE {
				id := e.(*ast.Ident)
				if id.Name == "_" {
					return
				}
				o := f.pkg.Info.Defs[id]
				if declared && f.pkg.Repo {
					it.store(f.env[o], val)
					return
				}
				f.env[o] = it.newCell(f.T(o.Type()), val)
				return
			}
			it.assignOne(f, e, val, t, token.ASSIGN)
		}
		bind(x.Key, k, kt)
		bind(x.Value, v, et)
		declared = true
		m2 := len(f.pend)
		ct := it.block(f, x.Body.List)
		it.settle(f, m2, cContinue, label)
		if stop, out := it.loopCtl(ct, label); stop {
			if out.kind == cNone {
				it.settle(f, mark, cBreak, label)
			}
			return out
		}
	}
	it.settle(f, mark, cBreak, label)
	return ctrl{}
}

func (it *Interp) switchStmt(f *Frame, x *ast.SwitchStmt, label string) ctrl {
	if x.Init != nil {
		it.stmt(f, x.Init, "")
	}
	var tag V = true
	var tagT types.Type = types.Typ[types.Bool]
	if x.Tag != nil {
		tag = it.eval(f, x.Tag)
		tagT = f.typeOf(x.Tag)
		if tv := f.pkg.Info.Types[x.Tag]; tv.Value != nil && isIface(tagT) {
			tag = it.evalTo(f, x.Tag, tagT)
		}
	}
	var clauses []*ast.CaseClause
	def := -1
	for i, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		clauses = append(clauses, cc)
		if cc.List == nil {
			def = i
		}
	}
	var runFrom func(i int) ctrl
	runFrom = func(i int) ctrl {
		for ; i < len(clauses); i++ {
			ct := it.block(f, clauses[i].Body)
			if ct.kind == cFall {
				continue
			}
			if ct.kind == cBreak && (ct.label == "" || ct.label == label) {
				return ctrl{}
			}
			return ct
		}
		return ctrl{}
	}
	var try func(i, j int) ctrl
	try = func(i, j int) ctrl {
		for ; i < len(clauses); i, j = i+1, 0 {
			for ; j < len(clauses[i].List); j++ {
				e := clauses[i].List[j]
				var r V
				if x.Tag == nil {
					r = it.eval(f, e)
				} else {
					et := f.typeOf(e)
					var ev V
					tg := tag
					switch {
					case isNilExpr(f, e):
						ev = it.zero(tagT)
					case isIface(et) && !isIface(tagT):
						ev = it.eval(f, e)
						tg = it.conv(tag, tagT, et)
					default:
						ev = it.evalTo(f, e, tagT)
					}
					r = it.equal(tg, ev)
				}
				switch b := r.(type) {
				case bool:
					if b {
						return runFrom(i)
					}
				case *Term:
					ii, jj := i, j
					return it.branch(f, b, func() ctrl { return runFrom(ii) }, func() ctrl { return try(ii, jj+1) })
				default:
					it.undecided("switch case %T", r)
				}
			}
		}
		if def >= 0 {
			return runFrom(def)
		}
		return ctrl{}
	}
	return try(0, 0)
}

func (it *Interp) typeSwitch(f *Frame, x *ast.TypeSwitchStmt, label string) ctrl {
	if x.Init != nil {
		it.stmt(f, x.Init, "")
	}
	var e ast.Expr
	switch a := x.Assign.(type) {
	case *ast.ExprStmt:
		e = unparen(a.X).(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		e = unparen(a.Rhs[0]).(*ast.TypeAssertExpr).X
	}
	v := it.eval(f, e)
	i, ok := v.(Iface)
	if !ok {
		it.undecided("type switch on %T", v)
	}
	var def *ast.CaseClause
	run := func(cc *ast.CaseClause, val V, t types.Type) ctrl {
		if o := f.pkg.Info.Implicits[cc]; o != nil {
			f.env[o] = it.newCell(f.T(o.Type()), val)
		}
		ct := it.block(f, cc.Body)
		if ct.kind == cBreak && (ct.label == "" || ct.label == label) {
			return ctrl{}
		}
		return ct
	}
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		for _, te := range cc.List {
			if isNilExpr(f, te) {
				if i.t == nil {
					return run(cc, i, nil)
				}
				continue
			}
			T := f.typeOf(te)
			if it.dynIs(i, T) {
				if len(cc.List) == 1 && !isIface(T) {
					return run(cc, i.v, T)
				}
				return run(cc, i, T)
			}
		}
	}
	if def != nil {
		return run(def, i, nil)
	}
	return ctrl{}
}

// permutation is a pseudo-random order of n map entries.
func permutation(n int, seed uint64) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	for i := n - 1; i > 0; i-- {
		seed ^= seed << 13
		seed ^= seed >> 7
		seed ^= seed << 17
		j := int(seed % uint64(i+1))
		l[i], l[j] = l[j], l[i]
	}
	return l
}
