package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// Run is one analysed configuration of an obligation.
type Run struct {
	script  []int
	choices []choice
	env     map[string]string

	hintSyms map[int]bool
	hints    []*hintCall

	faultAt, faultSeq int
	faultNames        []string
	participants      int
	unflushed         map[*Cell][]func()
	decoders          map[*Cell]int // 1: at the end, 2: other data follows
	jsonLen           map[string]int
	jsonVal           map[string]V

	deadlock  []string
	exps      []*Effect
	eqs       []*eqObl
	viol      []*Viol
	checks    int
	extra     string
	assume    []*Term // facts known to be true in this obligation (not used for dropping effects)
	novel     []int64
	order     []string
	noEffects bool
	honest    bool // hints compute their outputs
	nHonest   int
	hintIns   map[int]bool
	lastMsg   string
	quoBits   int

	zkSeq     map[string]int
	logPrint  bool
	flags     map[string]string
	flagCells []flagCell
	parsed    bool
	uses      []*usesObl
}

type choice struct {
	name string
	n    int
	val  int
	desc string
}

type eqObl struct {
	tag, what string
	got, want *Term
	pos       string
}

type usesObl struct {
	tag, what, name string
	set             []*Term
}

type Viol struct {
	props string
	msg   string
	pos   string
}

func (v *Viol) has(p string) bool {
	for _, q := range strings.Split(v.props, ",") {
		if q == p {
			return true
		}
	}
	return false
}

func newRun(script []int) *Run {
	return &Run{script: script, env: map[string]string{}, hintSyms: map[int]bool{}, participants: 4, jsonLen: map[string]int{}, jsonVal: map[string]V{}, zkSeq: map[string]int{}, flags: map[string]string{}}
}

func (r *Run) choose(name string, n int, desc func(i int) string) int {
	k := len(r.choices)
	v := 0
	if k < len(r.script) {
		v = r.script[k]
	}
	if v >= n {
		v = n - 1
	}
	r.choices = append(r.choices, choice{name, n, v, desc(v)})
	return v
}

// siblings returns, for each choice made beyond the script, the alternatives not taken: analysing
// those recursively visits every configuration once.
func (r *Run) siblings() [][]int {
	var out [][]int
	for i := len(r.script); i < len(r.choices); i++ {
		pre := make([]int, i)
		for k := 0; k < i; k++ {
			pre[k] = r.choices[k].val
		}
		for v := 1; v < r.choices[i].n; v++ {
			out = append(out, append(append([]int{}, pre...), v))
		}
	}
	return out
}

func (r *Run) config() string {
	var l []string
	for _, c := range r.choices {
		l = append(l, c.name+"="+c.desc)
	}
	if len(l) == 0 {
		return "-"
	}
	return strings.Join(l, " ")
}

func (it *Interp) violate(props, format string, a ...interface{}) {
	msg := format
	if len(a) > 0 {
		msg = fmt.Sprintf(format, a...)
	}
	pos := it.where()
	for _, v := range it.run.viol {
		if v.props == props && v.msg == msg && v.pos == pos {
			return
		}
	}
	it.run.viol = append(it.run.viol, &Viol{props, msg, pos})
}

func newInterp(w *World, run *Run, prev *Interp) *Interp {
	it := &Interp{w: w, ts: newTerms(), globals: map[types.Object]*Cell{}, table: map[string]intrinsic{}, run: run, funcsHit: map[string]bool{}, guards: map[string]map[int64]bool{}, boxTypes: map[string]types.Type{}, registered: map[string]bool{}, maxSteps: 400_000_000, apis: map[string]*apiObj{}}
	if prev != nil {
		it.ts, it.globals, it.registered, it.boxTypes = prev.ts, prev.globals, prev.registered, prev.boxTypes
		it.cellSeq, it.instSeq, it.opSeq, it.csSeq = prev.cellSeq, prev.instSeq, prev.opSeq, prev.csSeq
		it.epoch = prev.epoch + 1
		it.ts.pfx = ""
		if !strings.Contains(run.extra, "C18") && !strings.Contains(run.extra, "C22") {
			it.ts.pfx = fmt.Sprintf("%d'", it.epoch)
		} // the download and the benchmark read the same remote data and files again
		it.ready = true
	}
	it.basePfx = it.ts.pfx
	it.ts.cur = &it.cur
	it.initStd()
	return it
}

// initPackages runs the package-level initialisers and init functions of the repository.
func (it *Interp) initPackages() {
	for _, p := range it.w.Order {
		if p.Types.Name() == "main" || (!p.Repo && !p.Spec) {
			continue
		}
		it.allocPkg(p)
	}
	for _, p := range it.w.Order {
		if p.Types.Name() == "main" || (!p.Repo && !p.Spec) {
			continue
		}
		it.initPkg(p)
	}
	it.markGlobals()
	it.ready = true
}

// allocPkg allocates the package-level variables of a package.
func (it *Interp) allocPkg(p *Pkg) {
	{
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if v, ok := sc.Lookup(n).(*types.Var); ok {
				c := it.newCell(v.Type(), it.zero(v.Type()))
				c.name = p.Types.Name() + "." + n
				it.globals[v] = c
			}
		}
		for _, f := range p.Files {
			for _, d := range f.Decls {
				if gd, ok := d.(*ast.GenDecl); ok {
					for _, s := range gd.Specs {
						if vs, ok := s.(*ast.ValueSpec); ok {
							for _, id := range vs.Names {
								if v, ok := p.Info.Defs[id].(*types.Var); ok && id.Name == "_" {
									it.globals[v] = it.newCell(v.Type(), it.zero(v.Type()))
								}
							}
						}
					}
				}
			}
		}
	}
}

// initPkg runs the initialisers and init functions of a package.
func (it *Interp) initPkg(p *Pkg) {
	fr := &Frame{pkg: p, env: map[types.Object]*Cell{}, name: p.Path + ".init"}
	it.stack = append(it.stack, fr.name)
	it.posStack = append(it.posStack, 0)
	for _, in := range p.Info.InitOrder {
		it.setPos(in.Rhs.Pos())
		if len(in.Lhs) == 1 {
			l := in.Lhs[0]
			v := it.evalTo(fr, in.Rhs, l.Type())
			if l.Name() != "_" {
				it.store(it.globals[l], v)
			}
			continue
		}
		tup, ok := it.eval(fr, in.Rhs).(Tuple)
		if !ok {
			it.undecided("package-level multi-value initialiser")
		}
		tt := fr.typeOf(in.Rhs).(*types.Tuple)
		for i, l := range in.Lhs {
			if l.Name() != "_" {
				it.store(it.globals[l], it.conv(tup[i], tt.At(i).Type(), l.Type()))
			}
		}
	}
	for _, f := range p.Files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == "init" && fd.Recv == nil && fd.Body != nil {
				sig := p.Info.Defs[fd.Name].Type().(*types.Signature)
				it.exec(p, p.Path+".init", sig, fd.Type, nil, nil, fd.Body, nil, nil, nil)
			}
		}
	}
	it.stack = it.stack[:len(it.stack)-1]
	it.posStack = it.posStack[:len(it.posStack)-1]
}

// markGlobals flags every location reachable from package-level variables of the repository.
func (it *Interp) markGlobals() {
	seen := map[*Cell]bool{}
	apiKeyed := false
	var cell func(c *Cell, name string)
	var val func(v V, name string)
	cell = func(c *Cell, name string) {
		if c == nil || seen[c] {
			return
		}
		seen[c] = true
		c.glob = true
		if c.name == "" || strings.HasPrefix(c.name, "json:") == false {
			c.name = name
		}
		if c.agg {
			for i, k := range c.kids {
				cell(k, fmt.Sprintf("%s[%d]", name, i))
			}
			return
		}
		val(c.val, name)
	}
	val = func(v V, name string) {
		switch x := v.(type) {
		case Ptr:
			cell(x.c, name)
		case Slice:
			if x.arr != nil {
				cell(x.arr, name)
			}
		case *MapRef:
			if x != nil {
				cell(x.c, name)
				x.c.perAPI = apiKeyed
				if mv, ok := x.c.val.(*mapVal); ok {
					for _, e := range mv.vals {
						val(e, name)
					}
				}
			}
		case Iface:
			val(x.v, name)
		case *Agg:
			for _, e := range x.e {
				val(e, name)
			}
		}
	}
	var objs []types.Object
	for o := range it.globals {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	for _, o := range objs {
		if p := it.w.Pkgs[o.Pkg().Path()]; p != nil && p.Repo {
			apiKeyed = false
			if m, ok := o.Type().Underlying().(*types.Map); ok {
				apiKeyed = m.Key().String() == "github.com/consensys/gnark/frontend.API"
			}
			cell(it.globals[o], p.Types.Name()+"."+o.Name())
		}
	}
}

// Obligation is a specification function together with the properties it supports.
type Obligation struct {
	name     string
	props    []string
	extra    string // properties charged for unexpected constraints, aborts and undecided constructs
	level    int
	fn       *FuncSrc
	thorough bool
}

func (o *Obligation) has(p string) bool {
	for _, q := range o.props {
		if q == p {
			return true
		}
	}
	return false
}

// obligations reads the "ob:" directives of the specification package:
//
//	//ob: props=C02,C03 extra=C02 level=0
func obligations(w *World) ([]*Obligation, error) {
	var res []*Obligation
	sp := w.Pkgs["verif/spec"]
	for _, f := range sp.Files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil || fd.Body == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
				if !strings.HasPrefix(t, "ob:") {
					continue
				}
				o := &Obligation{name: fd.Name.Name, fn: w.Decls[sp.Info.Defs[fd.Name].(*types.Func)]}
				for _, kv := range strings.Fields(t[3:]) {
					k, v, _ := strings.Cut(kv, "=")
					switch k {
					case "props":
						o.props = strings.Split(v, ",")
					case "extra":
						o.extra = v
					case "level":
						fmt.Sscan(v, &o.level)
					case "thorough":
						o.thorough = v == "1"
					default:
						return nil, fmt.Errorf("directive %s of %s", k, o.name)
					}
				}
				if o.extra == "" {
					o.extra = strings.Join(o.props, ",")
				}
				res = append(res, o)
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].name < res[j].name })
	return res, nil
}

type Result struct {
	config   string
	siblings [][]int
	viol     []*Viol
	checks   int
	steps    int64
	terms    int
	effects  int
	funcs    map[string]bool
	hints    int
	script   []int  // every choice
	glob     string // package-level state written, if any
	it       *Interp
}

// analyse interprets the obligation for one configuration and decides its goals.
//
// With a predecessor, package-level state is the one that analysis left behind: the configuration
// is then analysed in a process that has already built other circuits.
func analyse(w *World, ob *Obligation, script []int, prev *Interp) (res *Result) {
	run := newRun(script)
	run.extra = ob.extra
	it := newInterp(w, run, prev)
	it.novel = novelConsts
	it.tag = ob.extra
	res = &Result{it: it}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case goPanic:
				run.viol = append(run.viol, &Viol{joinProps(ob.extra, "C14"), "the code aborts on a consistent configuration: " + x.msg, x.pos})
			case undecided:
				run.viol = append(run.viol, &Viol{strings.Join(ob.props, ","), "not decidable: " + x.msg, it.where()})
			case exitProc:
				run.viol = append(run.viol, &Viol{ob.extra, "the code terminates the process: " + x.why, it.where()})
			default:
				if debugPanics {
					panic(r)
				}
				run.viol = append(run.viol, &Viol{strings.Join(ob.props, ","), fmt.Sprintf("not decidable: the analysis met an unsupported construct (%v)", r), it.where()})
			}
		}
		res.config = run.config()
		res.siblings = run.siblings()
		res.viol = run.viol
		res.checks = run.checks
		res.steps = it.steps
		res.terms = len(it.ts.all)
		res.effects = len(it.effects)
		res.funcs = it.funcsHit
		res.hints = len(run.hints)
		for _, c := range run.choices {
			res.script = append(res.script, c.val)
		}
		res.glob = it.globWhere
	}()
	if prev == nil {
		it.initPackages()
	}
	it.setLevel(ob.level)
	it.callFn(&FuncV{src: ob.fn, obj: ob.fn.Obj, name: ob.fn.Obj.FullName()}, []V{&Opaque{kind: "T"}}, nil)
	it.joinAll()
	it.decide()
	return
}

var debugPanics = false
var novelConsts []int64
var thorough bool

var (
	widthOnce sync.Once
	widthVal  int
)

// reduceWidth is the quotient width Reduce enforces, read off the current source.
func reduceWidth(w *World) int {
	widthOnce.Do(func() {
		widthVal = 144
		defer func() {
			if r := recover(); r != nil {
				if debugPanics {
					fmt.Println("reduceWidth:", r)
				}
			}
		}()
		run := newRun(nil)
		it := newInterp(w, run, nil)
		it.initPackages()
		sp := w.Pkgs["verif/spec"]
		fn, _ := sp.Types.Scope().Lookup("probeReduce").(*types.Func)
		it.callFn(&FuncV{src: w.Decls[fn], obj: fn, name: fn.FullName()}, []V{&Opaque{kind: "T"}}, nil)
		p := &poster{it: it, ts: it.ts, effs: it.effects}
		p.eliminate()
		if run.quoBits > 0 {
			widthVal = run.quoBits
		}
	})
	return widthVal
}

func joinProps(ps ...string) string {
	seen := map[string]bool{}
	var l []string
	for _, p := range ps {
		for _, q := range strings.Split(p, ",") {
			if q != "" && !seen[q] {
				seen[q] = true
				l = append(l, q)
			}
		}
	}
	return strings.Join(l, ",")
}

var _ = big.NewInt
