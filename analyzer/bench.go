package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strings"
)

// Model of the proving pipeline the main package drives: circuit compilation, setups, proofs and
// their serialisation. Every object has a name; what was derived from what is recorded as an event.

const (
	gnarkPath = "github.com/consensys/gnark"
	plonkPath = gnarkPath + "/backend/plonk"
	g16Path   = gnarkPath + "/backend/groth16"
	rawLen    = 388 // bytes of a serialised proof
)

// zkObj is an object of the proving pipeline.
type zkObj struct {
	kind string // cs, pk, vk, proof, srs, witness, builder, profile
	name string
	sys  string // proof system of a key or proof
	more string
}

var zkT = types.NewPointer(types.NewNamed(types.NewTypeName(0, modelPkg, "zk", nil), types.NewStruct(nil, nil), nil))

func (it *Interp) newZk(kind, sys string) *zkObj {
	it.run.zkSeq[kind]++
	return &zkObj{kind: kind, name: fmt.Sprint(kind, it.run.zkSeq[kind]), sys: sys}
}

func (it *Interp) zkVal(z *zkObj) V { return Iface{zkT, &Opaque{kind: "zk", data: z}} }

func (it *Interp) zkOf(v V, what string) *zkObj {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			it.gopanic("%s is nil", what)
		}
		v = i.v
	}
	if o, ok := v.(*Opaque); ok && o != nil && o.kind == "zk" {
		return o.data.(*zkObj)
	}
	it.undecided("%s of kind %T", what, v)
	return nil
}

// rawBytes is the content of a buffer that holds a serialised object.
type rawBytes struct {
	what string
	n    int
}

func (it *Interp) rawSlice(b *rawBytes) V {
	vals := make([]V, b.n)
	for i := range vals {
		vals[i] = it.ts.Sym(SInt, fmt.Sprintf("byte:%s[%d]", b.what, i), bigZero, big.NewInt(255))
	}
	return it.mkSlice(types.Typ[types.Uint8], vals)
}

// rawRange recognises consecutive bytes of a serialised object.
func rawRange(vals []V) (what string, from int, ok bool) {
	for i, v := range vals {
		t, isT := v.(*Term)
		if !isT || t.op != OSym {
			return
		}
		name, isB := strings.CutPrefix(t.name, "byte:")
		k := strings.LastIndex(name, "[")
		if !isB || k < 0 {
			return
		}
		var n int
		if _, err := fmt.Sscanf(name[k:], "[%d]", &n); err != nil {
			return
		}
		if i == 0 {
			what, from = name[:k], n
		} else if what != name[:k] || n != from+i {
			return
		}
	}
	return what, from, len(vals) > 0
}

// writeTo models WriteTo and WriteRawTo of a pipeline object.
func (it *Interp) zkWrite(c *callCtx, z *zkObj, how string) V {
	res := func(e V) V {
		if c.sig.Results().Len() == 1 {
			return e
		}
		return Tuple{I(rawLen), e}
	}
	w, _ := c.args[0].(Iface)
	if cell := it.textCell(c.args[0]); cell != nil {
		if o, _ := it.load(cell).(*Opaque); o != nil {
			if s, _ := o.data.(string); s != "" {
				it.undecided("serialisation appended to a buffer")
			}
			if _, raw := o.data.(*rawBytes); raw {
				it.undecided("serialisation appended to a buffer")
			}
		}
		it.store(cell, &Opaque{kind: "ext", data: &rawBytes{how + " " + z.name, rawLen}})
		return res(Iface{})
	}
	if p, ok := w.v.(Ptr); ok && p.c == nil {
		return res(it.mkErr("invalid argument")) // nil *os.File
	}
	f := it.fileOf(c.args[0])
	if it.fault(how + " " + z.kind) {
		return res(it.mkErr("write error"))
	}
	it.wrote(c.args[0], func() { it.event("save", z.name, f, how) })
	return res(Iface{})
}

func (it *Interp) zkCall(c *callCtx, o *Opaque) V {
	z := o.data.(*zkObj)
	switch n := c.fn.Name(); n {
	case "WriteTo", "WriteRawTo", "ExportSolidity":
		if z.kind == "profile" || z.kind == "builder" || n == "ExportSolidity" && z.kind != "vk" {
			break
		}
		return it.zkWrite(c, z, n)
	case "ReadFrom", "UnsafeReadFrom":
		if z.kind != "srs" {
			break
		}
		if i, ok := c.args[0].(Iface); ok {
			if p, ok := i.v.(Ptr); ok && p.c == nil {
				return Tuple{I(0), it.mkErr("invalid argument")}
			}
		}
		f := it.fileOf(c.args[0])
		if it.fault("SRS.ReadFrom") {
			return Tuple{I(0), it.mkErr("read error")}
		}
		z.more = f
		it.event("readsrs", z.name, f)
		return Tuple{I(1), Iface{}}
	case "Public":
		if z.kind != "witness" {
			break
		}
		if it.fault("Witness.Public") {
			return Tuple{Iface{}, it.mkErr("public witness")}
		}
		p := it.newZk("witness", "")
		p.more = "public part of " + z.name
		it.event("public", p.name, z.name)
		return Tuple{it.zkVal(p), Iface{}}
	case "CurveID":
		return I(it.curveID("BN254"))
	default:
		if strings.HasPrefix(n, "GetNb") || strings.HasPrefix(n, "Nb") {
			r := make(Tuple, c.sig.Results().Len())
			for i := range r {
				r[i] = it.ts.Sym(SInt, fmt.Sprintf("%s of %s.%d", n, z.name, i), bigZero, big.NewInt(1<<40))
			}
			if len(r) == 1 {
				return r[0]
			}
			return r
		}
	}
	it.undecided("method %s of a %s", c.fn.Name(), z.kind)
	return nil
}

func (it *Interp) curveID(name string) uint64 {
	p := it.w.Pkgs["github.com/consensys/gnark-crypto/ecc"]
	if p == nil || p.Types == nil {
		return 0
	}
	c, ok := p.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0
	}
	var n uint64
	fmt.Sscan(c.Val().ExactString(), &n)
	return n
}

// leaf is one variable of a circuit.
type leaf struct {
	c   *Cell
	vis string
}

var gnarkVar = gnarkPath + "/frontend.Variable"

// circuitText renders the constant content of a circuit and collects its variables the way the
// builder's schema walk does.
func (it *Interp) circuitText(c *Cell, vis string, b *strings.Builder, leaves *[]leaf, witness bool) {
	seen := map[*Cell]bool{}
	var val func(c *Cell)
	val = func(c *Cell) { // by value
		if seen[c] {
			b.WriteString("cycle")
			return
		}
		seen[c] = true
		defer delete(seen, c)
		if c.agg {
			b.WriteString("{")
			for i, k := range c.kids {
				if i > 0 {
					b.WriteString(" ")
				}
				val(k)
			}
			b.WriteString("}")
			return
		}
		v := it.load(c)
		if i, ok := v.(Iface); ok {
			v = i.v
		}
		switch x := v.(type) {
		case Slice:
			b.WriteString("[")
			for i := 0; i < x.len; i++ {
				if i > 0 {
					b.WriteString(" ")
				}
				val(x.arr.kids[x.off+i])
			}
			b.WriteString("]")
		case Ptr:
			if x.c == nil {
				b.WriteString("nil")
				return
			}
			b.WriteString("&")
			val(x.c)
		case *Term:
			b.WriteString(x.str(30))
		case BigV:
			if x.k != nil {
				b.WriteString(x.k.String())
				return
			}
			b.WriteString(x.t.str(30))
		case *VarInst:
			b.WriteString(x.t.str(30))
		case *MapRef:
			if x == nil {
				b.WriteString("map[]")
				return
			}
			mv := x.c.val.(*mapVal)
			var l []string
			for i := range mv.keys {
				l = append(l, describe(mv.keys[i])+":"+describe(mv.vals[i]))
			}
			sort.Strings(l)
			b.WriteString("map[" + strings.Join(l, " ") + "]")
		default:
			b.WriteString(describe(v))
		}
	}
	var walk func(c *Cell, vis string)
	walk = func(c *Cell, vis string) {
		if namedPath(c.t) == gnarkVar {
			if vis == "" {
				vis = "secret"
			}
			*leaves = append(*leaves, leaf{c, vis})
			b.WriteString("<" + vis + ">")
			return
		}
		if c.agg {
			st, isSt := c.t.Underlying().(*types.Struct)
			b.WriteString("{")
			for i, k := range c.kids {
				v := vis
				if isSt {
					tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("gnark"), ",")
					if tag[0] == "-" {
						if !witness {
							val(k)
						}
						b.WriteString(" ")
						continue
					}
					for _, o := range tag[1:] {
						if o = strings.TrimSpace(o); o == "public" || o == "secret" {
							v = o
						}
					}
				}
				walk(k, v)
				b.WriteString(" ")
			}
			b.WriteString("}")
			return
		}
		v := it.load(c)
		switch x := v.(type) {
		case Slice:
			b.WriteString("[")
			for i := 0; i < x.len; i++ {
				walk(x.arr.kids[x.off+i], vis)
				b.WriteString(" ")
			}
			b.WriteString("]")
			return
		case Ptr:
			if x.c != nil {
				walk(x.c, vis)
				return
			}
		}
		if !witness {
			val(c)
		}
	}
	walk(c, vis)
}

func (it *Interp) circuitCell(v V) *Cell {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		it.gopanic("circuit is nil")
	}
	p, ok := i.v.(Ptr)
	if !ok || p.c == nil {
		it.undecided("circuit of kind %T", i.v)
	}
	return p.c
}

// Circuit rendering shared by the model and the specification.
func (it *Interp) circuitDesc(v V) string {
	c := it.circuitCell(v)
	var b strings.Builder
	var l []leaf
	it.circuitText(c, "", &b, &l, false)
	return namedPath(c.t) + b.String()
}

func (it *Interp) witnessDesc(v V, public bool) string {
	c := it.circuitCell(v)
	var b strings.Builder
	var l []leaf
	it.circuitText(c, "", &b, &l, true)
	var out []string
	for _, vis := range []string{"public", "secret"} {
		if vis == "secret" && public {
			continue
		}
		out = append(out, vis)
		for _, f := range l {
			if f.vis != vis {
				continue
			}
			x := it.load(f.c)
			if i, ok := x.(Iface); ok {
				if i.t == nil {
					return "unassigned"
				}
				x = i.v
			}
			if p, ok := x.(Ptr); ok && p.c != nil {
				x = it.load(p.c)
			}
			if o, ok := x.(*Opaque); ok && o.kind == "wire" {
				return "unassigned"
			}
			if t, ok := it.asTerm(x); ok {
				out = append(out, t.str(30))
			} else {
				out = append(out, describe(x))
			}
		}
	}
	return strings.Join(out, " ")
}

func (it *Interp) fieldDesc(v V) string {
	p, ok := v.(Ptr)
	if !ok || p.c == nil {
		it.gopanic("field is nil")
	}
	_, b := it.zcell(v)
	if b.k != nil {
		if b.k.Cmp(rMod) == 0 {
			return "bn254"
		}
		return b.k.String()
	}
	return b.t.String()
}

// printText is what a print call shows.
func (it *Interp) printText(vals []V) string {
	var l []string
	var f func(v V)
	f = func(v V) {
		if i, ok := v.(Iface); ok {
			v = i.v
		}
		switch x := v.(type) {
		case Slice:
			if x.arr == nil {
				return
			}
			vs := it.sliceVals(x)
			if what, from, ok := rawRange(vs); ok {
				l = append(l, fmt.Sprintf("<%s[%d:%d]>", what, from, from+len(vs)))
				return
			}
			for _, e := range vs {
				f(e)
			}
		case *Agg:
			for _, e := range x.e {
				f(e)
			}
		case Ptr:
			if x.c != nil {
				f(it.load(x.c))
			}
		case BigV:
			if x.k != nil {
				l = append(l, x.k.String())
			} else {
				l = append(l, x.t.str(20))
			}
		case *Term:
			l = append(l, x.str(20))
		case *Opaque:
			if x != nil && x.kind == "zk" {
				l = append(l, x.data.(*zkObj).name)
			}
		default:
			l = append(l, describe(v))
		}
	}
	for _, v := range vals {
		f(v)
	}
	return strings.ReplaceAll(strings.Join(l, " "), "|", "/")
}

func (it *Interp) printed(vals []V) {
	if it.run.logPrint {
		it.event("print", it.printText(vals))
	}
}

// runMain interprets the main package with the given flags.
func (it *Interp) runMain() {
	for _, p := range it.w.Order {
		if !p.Repo || p.Types.Name() != "main" || p.Path != modPath {
			continue
		}
		it.run.logPrint = true
		defer func() { it.run.logPrint = false }()
		it.allocPkg(p)
		it.initPkg(p)
		m, _ := p.Types.Scope().Lookup("main").(*types.Func)
		if m == nil || it.w.Decls[m] == nil {
			it.undecided("package main has no main function")
		}
		it.callFn(&FuncV{src: it.w.Decls[m], obj: m, name: m.FullName()}, nil, nil)
		return
	}
	it.undecided("the module has no main package at its root")
}

func (it *Interp) initBench() {
	it.dyn["zk"] = func(c *callCtx, o *Opaque) V { return it.zkCall(c, o) }
	// ---- flags
	def := func(t types.Type, cell *Cell, name, d V) {
		n, ok := name.(string)
		if !ok {
			it.undecided("flag name is not constant")
		}
		if d != nil {
			it.store(cell, d)
		}
		for _, f := range it.run.flagCells {
			if f.name == n {
				it.gopanic("flag redefined: %s", n)
			}
		}
		it.run.flagCells = append(it.run.flagCells, flagCell{n, cell})
	}
	for _, k := range []string{"String", "Bool", "Int", "Uint", "Int64", "Uint64", "Duration", "Float64"} {
		for _, pre := range []string{"flag.", "(*flag.FlagSet)."} {
			it.addStd(pre+k, func(c *callCtx) V {
				et := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
				cell := it.newCell(et, it.zero(et))
				def(et, cell, c.args[0], c.args[1])
				return Ptr{cell}
			})
			it.addStd(pre+k+"Var", func(c *callCtx) V {
				def(nil, it.ptrCell(c.args[0]), c.args[1], c.args[2])
				return nil
			})
		}
	}
	it.addStd("flag.Parse (*flag.FlagSet).Parse", func(c *callCtx) V {
		for n, s := range it.run.flags {
			found := false
			for _, f := range it.run.flagCells {
				if f.name != n {
					continue
				}
				found = true
				b := f.cell.t.Underlying().(*types.Basic)
				switch {
				case b.Info()&types.IsBoolean != 0:
					it.store(f.cell, s == "true")
				case b.Info()&types.IsString != 0:
					it.store(f.cell, s)
				default:
					it.undecided("flag %s of type %s", n, b)
				}
			}
			if !found {
				it.event("exit", "flag provided but not defined: "+n)
				panic(exitProc{"flag provided but not defined: " + n})
			}
		}
		it.run.parsed = true
		if c.sig.Results().Len() == 1 {
			return Iface{}
		}
		return nil
	})
	it.addStd("flag.Usage flag.PrintDefaults (*flag.FlagSet).Usage (*flag.FlagSet).PrintDefaults", func(c *callCtx) V { return nil })
	it.addStd("flag.NewFlagSet", func(c *callCtx) V {
		return it.ptrTo(it.libType("flag", "FlagSet"), it.zero(it.libType("flag", "FlagSet")))
	})
	it.addStd("flag.Parsed (*flag.FlagSet).Parsed", func(c *callCtx) V { return it.run.parsed })
	it.addStd("flag.NArg (*flag.FlagSet).NArg", func(c *callCtx) V { return I(0) })
	it.addStd("flag.Args (*flag.FlagSet).Args", func(c *callCtx) V { return Slice{} })
	it.addStd("os.IsNotExist", func(c *callCtx) V {
		i, _ := c.args[0].(Iface)
		e, ok := i.v.(ErrV)
		return ok && e.id.is(it.notExist())
	})
	// ---- curves
	it.addStd("(github.com/consensys/gnark-crypto/ecc.ID).ScalarField", func(c *callCtx) V {
		id, ok := c.recv.(I)
		if !ok {
			it.undecided("curve")
		}
		if uint64(id) == it.curveID("BN254") {
			return it.ptrTo(it.bigT(), BigV{k: new(big.Int).Set(rMod)})
		}
		return it.ptrTo(it.bigT(), BigV{t: it.ts.Sym(SZ, fmt.Sprintf("scalar field of curve %d", uint64(id)), nil, nil)})
	})
	it.addStd("(github.com/consensys/gnark-crypto/ecc.ID).String", func(c *callCtx) V { return "curve" })
	// ---- circuits
	for _, b := range []string{"scs", "r1cs"} {
		b := b
		it.addStd(gnarkPath+"/frontend/cs/"+b+".NewBuilder", func(c *callCtx) V {
			z := it.newZk("builder", b)
			z.more = it.fieldDesc(c.args[0])
			return Tuple{it.zkVal(z), Iface{}}
		})
	}
	it.addStd(gnarkPath+"/frontend.Compile", func(c *callCtx) V {
		fv, ok := c.args[1].(*FuncV)
		if !ok || fv == nil {
			it.gopanic("builder is nil")
		}
		field := it.fieldDesc(c.args[0])
		sig := fv.obj
		var cfg V = &Agg{}
		if sig != nil {
			ps := sig.Type().(*types.Signature).Params()
			cfg = it.zero(ps.At(ps.Len() - 1).Type())
		} else {
			cfg = it.zero(it.libType(gnarkPath+"/frontend", "CompileConfig"))
		}
		r, ok := it.callFn(fv, []V{c.args[0], cfg}, nil).(Tuple)
		if !ok {
			it.undecided("builder")
		}
		bi, _ := r[0].(Iface)
		if bi.t == nil {
			return Tuple{Iface{}, r[1]}
		}
		b := it.zkOf(bi, "builder")
		cell := it.circuitCell(c.args[2])
		desc := it.circuitDesc(c.args[2])
		// the builder replaces the circuit's variables by wires of its own
		var sb strings.Builder
		var l []leaf
		it.circuitText(cell, "", &sb, &l, true)
		for _, f := range l {
			it.store(f.c, Iface{zkT, &Opaque{kind: "wire"}})
		}
		if it.fault("frontend.Compile") {
			return Tuple{Iface{}, it.mkErr("compile")}
		}
		z := it.newZk("cs", b.sys)
		it.event("compile", z.name, b.sys, field, strings.ReplaceAll(desc, "|", "/"))
		return Tuple{it.zkVal(z), Iface{}}
	})
	it.addStd(gnarkPath+"/frontend.PublicOnly", func(c *callCtx) V {
		return &FuncV{name: "frontend.PublicOnly option", nat: func(*callCtx) V { return Iface{} }}
	})
	it.addStd(gnarkPath+"/frontend.NewWitness", func(c *callCtx) V {
		public := false
		for _, o := range it.sliceVals(c.args[2]) {
			if f, ok := o.(*FuncV); ok && f.name == "frontend.PublicOnly option" {
				public = true
			} else {
				it.undecided("option of NewWitness")
			}
		}
		field := it.fieldDesc(c.args[1])
		desc := it.witnessDesc(c.args[0], public)
		if it.fault("frontend.NewWitness") || desc == "unassigned" {
			return Tuple{Iface{}, it.mkErr("witness")}
		}
		z := it.newZk("witness", "")
		if public {
			z.more = "public only"
		}
		it.event("witness", z.name, field, strings.ReplaceAll(desc, "|", "/"))
		return Tuple{it.zkVal(z), Iface{}}
	})
	// ---- structured reference strings
	it.addStd("github.com/consensys/gnark-crypto/kzg.NewSRS", func(c *callCtx) V {
		if id, ok := c.args[0].(I); !ok || uint64(id) != it.curveID("BN254") {
			it.undecided("SRS over another curve")
		}
		return it.zkVal(it.newZk("srs", ""))
	})
	it.addStd(gnarkPath+"/test.NewKZGSRS", func(c *callCtx) V {
		cs := it.zkOf(c.args[0], "constraint system")
		if it.fault("test.NewKZGSRS") {
			return Tuple{Iface{}, it.mkErr("srs")}
		}
		z := it.newZk("srs", "")
		z.more = "test"
		it.event("testsrs", z.name, cs.name)
		return Tuple{it.zkVal(z), Iface{}}
	})
	// ---- setups, proofs
	sysOf := func(p string) string { return p[strings.LastIndex(p, "/")+1:] }
	for _, p := range []string{plonkPath, g16Path} {
		sys := sysOf(p)
		it.addStd(p+".Setup", func(c *callCtx) V {
			cs := it.zkOf(c.args[0], "constraint system")
			srs := ""
			if sys == "plonk" {
				s := it.zkOf(c.args[1], "SRS")
				srs = s.more
				if srs == "" {
					return Tuple{Iface{}, Iface{}, it.mkErr("kzg srs is too small")}
				}
			}
			if cs.sys != map[string]string{"plonk": "scs", "groth16": "r1cs"}[sys] {
				it.gopanic("constraint system of another proof system")
			}
			if it.fault(sys + ".Setup") {
				return Tuple{Iface{}, Iface{}, it.mkErr("setup")}
			}
			pk, vk := it.newZk("pk", sys), it.newZk("vk", sys)
			pk.more, vk.more = cs.name, cs.name
			it.event("setup", sys, pk.name, vk.name, cs.name, srs)
			return Tuple{it.zkVal(pk), it.zkVal(vk), Iface{}}
		})
		it.addStd(p+".Prove", func(c *callCtx) V {
			cs := it.zkOf(c.args[0], "constraint system")
			pk := it.zkOf(c.args[1], "proving key")
			w := it.zkOf(c.args[2], "witness")
			if pk.kind != "pk" || w.kind != "witness" || cs.kind != "cs" || pk.sys != sys {
				it.gopanic("unrecognized type")
			}
			if it.fault(sys+".Prove") || pk.more != cs.name || w.more != "" {
				return Tuple{Iface{}, it.mkErr("prove")}
			}
			z := it.newZk("proof", sys)
			it.event("prove", sys, z.name, cs.name, pk.name, w.name)
			return Tuple{it.zkVal(z), Iface{}}
		})
		it.addStd(p+".Verify", func(c *callCtx) V {
			z := it.zkOf(c.args[0], "proof")
			vk := it.zkOf(c.args[1], "verifying key")
			w := it.zkOf(c.args[2], "public witness")
			if z.kind != "proof" || vk.kind != "vk" || z.sys != sys || vk.sys != sys {
				it.gopanic("unrecognized type")
			}
			if it.fault(sys + ".Verify") {
				it.event("rejected", z.name)
				return it.mkErr("proof rejected")
			}
			it.event("verified", sys, z.name, vk.name, w.name)
			return Iface{}
		})
	}
	it.addStd(g16Path+".DummySetup", func(c *callCtx) V {
		cs := it.zkOf(c.args[0], "constraint system")
		if it.fault("groth16.DummySetup") {
			return Tuple{Iface{}, it.mkErr("setup")}
		}
		if cs.sys != "r1cs" {
			it.gopanic("constraint system of another proof system")
		}
		pk := it.newZk("pk", "groth16")
		pk.more = cs.name
		it.event("dummysetup", "groth16", pk.name, cs.name)
		return Tuple{it.zkVal(pk), Iface{}}
	})
	// ---- profiles
	it.addStd(gnarkPath+"/profile.Start", func(c *callCtx) V {
		it.event("profile", "start")
		return it.ptrTo(it.libType(gnarkPath+"/profile", "Profile"), it.zero(it.libType(gnarkPath+"/profile", "Profile")))
	})
	it.addStd(gnarkPath+"/profile.WithNoOutput "+gnarkPath+"/profile.WithPath", func(c *callCtx) V {
		return &FuncV{name: "profile option", nat: func(c *callCtx) V { return nil }}
	})
	prof := "(*" + gnarkPath + "/profile.Profile)."
	it.addStd(prof+"Stop", func(c *callCtx) V { it.ptrCell(c.recv); it.event("profile", "stop"); return nil })
	it.addStd(prof+"Top", func(c *callCtx) V { it.ptrCell(c.recv); return "profile" })
	it.addStd(prof+"NbConstraints", func(c *callCtx) V {
		it.ptrCell(c.recv)
		return it.ts.Sym(SInt, "profiled constraints", bigZero, big.NewInt(1<<40))
	})
}

type flagCell struct {
	name string
	cell *Cell
}

// notExist is the identity of os.ErrNotExist.
func (it *Interp) notExist() *errID {
	if p := it.w.Pkgs["os"]; p != nil && p.Types != nil {
		if o, ok := p.Types.Scope().Lookup("ErrNotExist").(*types.Var); ok {
			if i, ok := it.load(it.varCell(&Frame{}, o)).(Iface); ok {
				if e, ok := i.v.(ErrV); ok {
					return e.id
				}
			}
		}
	}
	return &errID{}
}
